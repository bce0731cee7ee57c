#!/usr/bin/env python3
"""Driver: compiles the real code of /repo to LLVM bitcode, runs the symx engine on the harnesses of one
property, replays counterexamples natively, and writes the evidence file."""
import concurrent.futures as cf, hashlib, json, os, re, shlex, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VX_REPO", "/repo")
os.environ["PATH"] = "/usr/local/bin:/usr/bin:/bin"
CLANG = "/usr/bin/clang++-18"; LINK = "/usr/bin/llvm-link-18"; OPT = "/usr/bin/opt-18"
SYMX = os.path.join(VERIF, "engine", "build", "symx")
HOOFS = "buffer cli concurrent/buffer concurrent/sync container design functional memory primitives reporting time utility vocabulary posix/design posix/vocabulary concurrent/sync_extended filesystem posix/auth posix/ipc posix/filesystem posix/sync posix/time posix/utility legacy".split()
INC = [f"{REPO}/iceoryx_hoofs/{h}/include" for h in HOOFS] + [f"{REPO}/iceoryx_platform/generic/include", f"{REPO}/iceoryx_platform/linux/include", f"{REPO}/iceoryx_posh/include", f"{REPO}/iceoryx_posh/experimental/include", f"{REPO}/iceoryx_binding_c/include"]
CXXFLAGS = "-std=c++17 -O1 -gline-tables-only -fno-exceptions -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -fno-threadsafe-statics -fno-stack-protector -D_GLIBCXX_EXTERN_TEMPLATE=0 -U_FORTIFY_SOURCE -w".split()
# small capacities: bounds of the analysis; every harness may override
CFG = {"IOX_MINIMAL_LOG_LEVEL": "Off", "IOX_CFG_FEATURE_ACL": "0", "IOX_HOOFS_SUBSET": "0", "IOX_COMMUNICATION_POLICY": "ManyToManyPolicy",
       "IOX_MAX_NODE_NAME_LENGTH": "87", "IOX_MAX_RUNTIME_NAME_LENGTH": "87", "IOX_ROUDI_DEFAULT_MONITORING_MODE_ON": "false", "IOX_EXPERIMENTAL_POSH_FLAG": "false",
       "IOX_INTERPROCESS_LOCK": "concurrent::SpinLock", "IOX_INTERPROCESS_SEMAPHORE": "concurrent::SpinSemaphore",
       "PROJECT_VERSION_MAJOR": "2", "PROJECT_VERSION_MINOR": "95", "PROJECT_VERSION_PATCH": "8", "IOX_VERSION_TWEAK": "0", "PROJECT_VERSION": "2.95.8", "IOX_VERSION_SUFFIX": "", "ICEORYX_BUILDDATE": "n/a", "ICEORYX_SHA1": "n/a"}

H = "iceoryx_hoofs/"; P = "iceoryx_posh/source/"
GROUPS = {
 "%base": [H+x for x in "reporting/source/default_error_handler.cpp reporting/source/hoofs_error_reporting.cpp reporting/source/logging.cpp reporting/source/logger.cpp primitives/source/type_traits.cpp utility/source/unique_id.cpp memory/source/bump_allocator.cpp memory/source/memory.cpp memory/source/relative_pointer_data.cpp concurrent/buffer/source/mpmc_loffli.cpp concurrent/sync_extended/source/spin_semaphore.cpp concurrent/sync_extended/source/spin_lock.cpp time/source/duration.cpp posix/time/source/adaptive_wait.cpp posix/time/source/deadline_timer.cpp".split()] + [P+"posh_error_reporting.cpp", P+"iceoryx_posh_types.cpp"],
 "%mepoo": [P+"mepoo/"+x+".cpp" for x in "chunk_header chunk_management chunk_settings mem_pool memory_info memory_manager mepoo_config shared_chunk shm_safe_unmanaged_chunk".split()] + [P+"popo/building_blocks/unique_port_id.cpp"],
 "%popo": [P+"popo/building_blocks/"+x+".cpp" for x in "condition_listener condition_notifier condition_variable_data locking_policy".split()] + [P+"popo/rpc_header.cpp"],
 "%capro": [P+"capro/capro_message.cpp", P+"capro/service_description.cpp"],
 "%roudi": [P+"roudi/port_manager.cpp", P+"roudi/port_pool.cpp", P+"roudi/service_registry.cpp", P+"runtime/port_config_info.cpp", H+"posix/sync/source/unnamed_semaphore.cpp", H+"posix/sync/source/semaphore_helper.cpp"],
 "%ports": [P+"popo/ports/"+x+".cpp" for x in "base_port base_port_data client_port_data client_port_roudi client_port_user interface_port interface_port_data publisher_port_data publisher_port_roudi publisher_port_user server_port_data server_port_roudi server_port_user subscriber_port_data subscriber_port_multi_producer subscriber_port_roudi subscriber_port_single_producer subscriber_port_user".split()] + [P+"popo/"+x+"_options.cpp" for x in "client publisher server subscriber".split()],
}
CFGS = {"%small": "IOX_MAX_PUBLISHERS=7 IOX_MAX_SUBSCRIBERS=3 IOX_MAX_INTERFACE_NUMBER=2 IOX_MAX_SUBSCRIBERS_PER_PUBLISHER=2 IOX_MAX_CHUNKS_ALLOCATED_PER_PUBLISHER_SIMULTANEOUSLY=2 IOX_MAX_PUBLISHER_HISTORY=2 IOX_MAX_CHUNKS_HELD_PER_SUBSCRIBER_SIMULTANEOUSLY=12 IOX_MAX_NUMBER_OF_CONDITION_VARIABLES=2 IOX_MAX_SERVERS=2 IOX_MAX_CLIENTS=3 IOX_MAX_RESPONSES_PROCESSED_SIMULTANEOUSLY=2 IOX_MAX_RESPONSE_QUEUE_CAPACITY=8 IOX_MAX_REQUEST_QUEUE_CAPACITY=8 IOX_MAX_CLIENTS_PER_SERVER=2 IOX_MAX_REQUESTS_PROCESSED_SIMULTANEOUSLY=2 IOX_MAX_NUMBER_OF_NOTIFIERS=4 IOX_MAX_ID_STRING_LENGTH=24"}
def all_tus():
    r = []
    for root in ("iceoryx_hoofs", "iceoryx_posh/source"):
        for d, _, fs in os.walk(f"{REPO}/{root}"):
            rel = os.path.relpath(d, REPO)
            if "/source" not in "/" + rel + "/" or "/test" in rel or "/testing" in rel: continue
            r += [f"{rel}/{f}" for f in fs if f.endswith(".cpp")]
    return sorted(r)

def defaults():
    d = {}
    for f in ("iceoryx_posh/cmake/IceoryxPoshDeployment.cmake", "iceoryx_hoofs/cmake/IceoryxHoofsDeployment.cmake", "iceoryx_platform/linux/cmake/IceoryxPlatformDeployment.cmake"):
        t = open(f"{REPO}/{f}").read()
        for m in re.finditer(r"NAME\s+(\w+)\s+DEFAULT_VALUE\s+(\"[^\"]*\"|\S+)", t):
            d[m.group(1)] = m.group(2).strip('"')
    return d

def gen_headers(out, cfg):
    vals = defaults(); vals.update(CFG); vals.update(cfg)
    for src, dst in (("iceoryx_hoofs/cmake/iceoryx_hoofs_deployment.hpp.in", "iox/iceoryx_hoofs_deployment.hpp"), ("iceoryx_posh/cmake/iceoryx_posh_deployment.hpp.in", "iceoryx_posh/iceoryx_posh_deployment.hpp"),
                     ("iceoryx_platform/linux/cmake/platform_settings.hpp.in", "iceoryx_platform/platform_settings.hpp"), ("iceoryx_platform/cmake/iceoryx_versions.h.in", "iceoryx_versions.h")):
        t = open(f"{REPO}/{src}").read()
        t = re.sub(r"@(\w+)@", lambda m: vals.get(m.group(1), "0"), t)
        p = os.path.join(out, dst); os.makedirs(os.path.dirname(p), exist_ok=True); open(p, "w").write(t)

RUNNING = set(); STOP = [False]
def sh_track(cmd, timeout):
    """like sh, but the process can be ended early by stop_all()"""
    if STOP[0]: raise subprocess.TimeoutExpired(cmd, 0)
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE); RUNNING.add(p)
    try: o, e = p.communicate(timeout=timeout); return subprocess.CompletedProcess(cmd, p.returncode, o, e)
    except subprocess.TimeoutExpired: p.kill(); p.communicate(); raise
    finally: RUNNING.discard(p)
def stop_all():
    STOP[0] = True
    for p in list(RUNNING):
        try: p.kill()
        except Exception: pass

def sh(cmd, timeout=None, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, **kw)

class BuildError(Exception):
    pass

class Harness:
    """A harness file with //@ directives."""
    def __init__(self, path):
        self.path = path; self.name = os.path.splitext(os.path.basename(path))[0]
        self.prop = None; self.tus = []; self.cfg = {}; self.jobs = []; self.flags = []; self.bounds = []; self.stubs = []; self.drop = set(); self.title = ""
        for l in open(path):
            m = re.match(r"\s*//@(\w+):\s*(.*)$", l)
            if not m: continue
            k, v = m.group(1), m.group(2).strip()
            if k == "prop": self.prop = v
            elif k == "tus":
                for t in v.split():
                    if t.startswith("-"): self.drop.add(t[1:]); self.tus = [x for x in self.tus if x != t[1:]]
                    else: self.tus += [x for x in GROUPS.get(t, [t]) if x not in self.tus]
            elif k == "cfg": self.cfg.update(dict(x.split("=", 1) for y in shlex.split(v) for x in CFGS.get(y, y).split()))
            elif k == "flags": self.flags += shlex.split(v)
            elif k == "bound": self.bounds.append(v)
            elif k == "stub": self.stubs.append(v)
            elif k == "job":
                j = {"name": "main", "defs": "", "tier": "quick", "args": "", "reach": "", "timeout": "", "cfg": ""}
                for x in shlex.split(v):
                    a, b = x.split("=", 1); j[a] = b
                self.jobs.append(j)
        if not self.jobs: self.jobs = [{"name": "main", "defs": "", "tier": "quick", "args": "", "reach": "", "timeout": "", "cfg": ""}]

def harnesses(prop=None):
    r = []
    for d, _, fs in sorted(os.walk(f"{VERIF}/harness")):
        for f in sorted(fs):
            if f.endswith(".cpp"):
                h = Harness(os.path.join(d, f))
                if h.prop and (prop is None or h.prop == prop): r.append(h)
    return r

class Builder:
    def __init__(self, work):
        self.work = work; self.cache = {}; self.lock = __import__("threading").Lock()
    def hdr(self, cfg):
        key = hashlib.sha1(json.dumps(cfg, sort_keys=True).encode()).hexdigest()[:12]
        with self.lock:
            p = f"{self.work}/gen-{key}"
            if not os.path.isdir(p): gen_headers(p, cfg)
        return p, key
    def incs(self, cfg):
        p, _ = self.hdr(cfg); r = ["-I", p, "-I", f"{VERIF}/rt", "-I", f"{VERIF}/harness"]
        for i in INC: r += ["-I", i]
        return r
    def bc(self, src, cfg, flags):
        _, ck = self.hdr(cfg); key = (src, ck, tuple(flags))
        with self.lock:
            ev = self.cache.get(key)
            if ev is None: own = True; ev = self.cache[key] = cf.Future()
            else: own = False
        if not own:
            return ev.result()
        try:
            out = f"{self.work}/{hashlib.sha1(repr(key).encode()).hexdigest()[:16]}.bc"
            r = sh([CLANG, *CXXFLAGS, *flags, *self.incs(cfg), "-c", "-emit-llvm", src, "-o", out])
            if r.returncode: raise BuildError(f"{src}: " + r.stderr.decode(errors="replace")[-3000:])
            ev.set_result(out); return out
        except Exception as e:
            ev.set_exception(e); raise
    def sources(self, h):
        return [os.path.join(REPO, t) if not t.startswith("@") else os.path.join(VERIF, t[1:]) for t in h.tus]
    def link(self, h, j, extra=()):
        cfg = dict(h.cfg); cfg.update(dict(x.split("=", 1) for x in j["cfg"].split()))
        defs = h.flags + j["defs"].split()
        bcs = [self.bc(h.path, cfg, defs)] + [self.bc(s, cfg, h.flags) for s in self.sources(h)] + list(extra) + [self.bc(f"{VERIF}/rt/stubs.cpp", {}, [])]
        out = f"{self.work}/{h.name}.{j['name']}.bc"
        r = sh([LINK, *bcs, "-o", out + ".tmp"])
        if r.returncode: raise BuildError(r.stderr.decode(errors="replace")[-3000:])
        r = sh([OPT, "-passes=internalize,globaldce", "-internalize-public-api-list=symx_main", out + ".tmp", "-o", out])
        if r.returncode: raise BuildError(r.stderr.decode(errors="replace")[-3000:])
        os.unlink(out + ".tmp"); return out

def run_job(b, h, j, tier, budget):
    t0 = time.time()
    if STOP[0]: return {"job": j["name"], "harness": h.name, "status": "skipped", "stop_reason": "a violation was already found", "stats": {}, "violations": [], "reach": {}, "functions": []}
    try: bc = b.link(h, j)
    except BuildError as e: return {"job": j["name"], "harness": h.name, "status": "build-error", "error": str(e)}
    tb = time.time() - t0
    out = f"{b.work}/{h.name}.{j['name']}.json"
    to = float(j["timeout"]) if j["timeout"] else budget
    to = min(to, budget) if tier == "quick" else to
    cmd = [SYMX, bc, "--out", out, "--timeout", str(to), *j["args"].split()]
    try:
        r = sh_track(cmd, to + 120)
        if os.path.exists(out) and time.time() - t0 < to / 2:
            d = json.load(open(out))
            if any(u.startswith("external function _ZN") and "iox" in u for u in d.get("unsupported", [])):
                # code under test moved to another translation unit: link every library source and try again
                cfg = dict(h.cfg); cfg.update(dict(x.split("=", 1) for x in j["cfg"].split())); extra = []
                have = set(b.sources(h))
                def one(t):
                    try: return b.bc(os.path.join(REPO, t), cfg, h.flags)
                    except BuildError: return None
                with cf.ThreadPoolExecutor(4) as ex: extra = [x for x in ex.map(one, [t for t in all_tus() if os.path.join(REPO, t) not in have and t not in h.drop]) if x]
                try: b.link(h, j, extra); r = sh_track(cmd, to + 120)
                except BuildError: pass
    except subprocess.TimeoutExpired:
        return {"job": j["name"], "harness": h.name, "status": "skipped" if STOP[0] else "incomplete", "stop_reason": "a violation was already found" if STOP[0] else "hard timeout", "stats": {}, "violations": [], "reach": {}, "functions": []}
    if STOP[0] and not os.path.exists(out): return {"job": j["name"], "harness": h.name, "status": "skipped", "stop_reason": "a violation was already found", "stats": {}, "violations": [], "reach": {}, "functions": []}
    if not os.path.exists(out):
        return {"job": j["name"], "harness": h.name, "status": "engine-error", "error": r.stderr.decode(errors="replace")[-2000:]}
    d = json.load(open(out)); d.update(job=j["name"], harness=h.name, build_s=tb, bc=bc)
    if d["status"] == "verified":
        miss = [l for l in j["reach"].split(",") if l and l not in d["reach"]]
        if miss: d["status"] = "vacuous"; d["missing"] = miss
    return d

def replay(b, h, j, d, v, keep):
    """returns (reproduced, how, path)"""
    os.makedirs(keep, exist_ok=True)
    base = f"{keep}/{h.name}.{j['name']}"
    inp = base + ".inputs"
    open(inp, "w").write("".join(f"{k} {x}\n" for k, x in v["inputs"].items()))
    # 1. concrete re-execution in the engine: derives schedule and readable trace
    out = base + ".trace.json"
    sh([SYMX, d["bc"], "--replay", inp, "--out", out, "--timeout", "120", *j["args"].split()], timeout=240)
    eng = json.load(open(out)) if os.path.exists(out) else {"violations": []}
    engok = bool(eng.get("violations"))
    how = []
    cfg = dict(h.cfg); cfg.update(dict(x.split("=", 1) for x in j["cfg"].split()))
    native = False; log = ""
    threaded = any(k.startswith("sched.") for k in v["inputs"])
    env = dict(os.environ, SYMX_INPUTS=inp, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=78:handle_abort=0:handle_segv=0", UBSAN_OPTIONS="halt_on_error=0")
    exe = f"{b.work}/replay-{h.name}.{j['name']}"
    def runit():
        try: r = sh([exe], timeout=90, env=env)
        except subprocess.TimeoutExpired: return ("deadlock" in v["kind"]), "timeout"
        return r.returncode in (77, 78), r.stderr.decode(errors="replace")[-3000:]
    try:
        if threaded or v["kind"] == "race":
            sched = []
            for x, tr in zip(eng.get("sched_log", []), (eng["violations"][0]["trace"] if engok else [])):
                sched.append(x + 100 if "CRASH" in tr else x)
            sf = base + ".sched"; open(sf, "w").write(" ".join(map(str, sched))); env["SYMX_SCHED"] = sf
            ibc = exe + ".i.bc"
            r = sh([SYMX, d["bc"], "--instrument", ibc]);
            r = sh([CLANG, "-O0", "-w", "-I", f"{VERIF}/rt", ibc, f"{VERIF}/rt/native_rt.cpp", "-lpthread", "-o", exe])
            if r.returncode == 0: native, log = runit()
            else: log = r.stderr.decode()[-2000:]
        else:
            t1 = time.time()
            for san in (["-fsanitize=address,undefined", "-fno-sanitize-recover=null"], []):
                if time.time() - t1 > 150: break
                fl = [*[f for f in CXXFLAGS if f != "-D_GLIBCXX_EXTERN_TEMPLATE=0"], *san, *h.flags, *b.incs(cfg)]
                srcs = [h.path, *b.sources(h), f"{VERIF}/rt/native_rt.cpp"]; od = exe + (".san" if san else ".pln"); os.makedirs(od, exist_ok=True)
                def cc(k): return sh([CLANG, *fl, *(j["defs"].split() if k == 0 else []), "-c", srcs[k], "-o", f"{od}/{k}.o"], timeout=300)
                with cf.ThreadPoolExecutor(8) as ex: rs = list(ex.map(cc, range(len(srcs))))
                r = next((x for x in rs if x.returncode), None) or sh([CLANG, *san, *[f"{od}/{k}.o" for k in range(len(srcs))], "-lpthread", "-o", exe])
                if r.returncode: log = r.stderr.decode()[-2000:]; continue
                native, log = runit()
                if native: break
            if not native: # same bitcode, incl. environment stubs, compiled natively
                r = sh([CLANG, "-O0", "-w", "-I", f"{VERIF}/rt", d["bc"], f"{VERIF}/rt/native_rt.cpp", "-lpthread", "-o", exe])
                if r.returncode == 0: native, log = runit()
    except Exception as e: log = repr(e)
    rep = {"property": h.prop, "harness": h.name, "job": j["name"], "defs": j["defs"], "violation": {k: v[k] for k in ("kind", "msg", "loc", "stack", "inputs")}, "schedule_trace": eng["violations"][0]["trace"] if engok else [], "reproduced_natively": native, "reproduced_by_concrete_ir_execution": engok, "native_log": log}
    p = base + ".replay.json"; json.dump(rep, open(p, "w"), indent=1)
    return native or engok, ("native" if native else "concrete-ir" if engok else "none"), p

def load_known():
    p = f"{VERIF}/known_findings.json"
    return json.load(open(p)) if os.path.exists(p) else []

def check(prop, tier, only=None, jobs_n=None):
    t0 = time.time(); seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if not os.path.exists(SYMX):
        r = sh(["make", "-C", f"{VERIF}/engine"])
        if r.returncode: print(r.stderr.decode()[-2000:]); return 3
    hs = harnesses(prop); work = tempfile.mkdtemp(prefix=f"vx-{prop}-"); b = Builder(work)
    budget = float(os.environ.get("VX_BUDGET", "480" if tier == "quick" else "3000"))
    todo = [(h, j) for h in hs for j in h.jobs if (j["tier"] == "quick" or tier == "thorough") and (not only or only in (h.name, j["name"], f"{h.name}.{j['name']}"))]
    res = []; rc = 0; nviol = 0; known = load_known()
    rdir = f"{VERIF}/replays/{prop}"
    try:
        with cf.ThreadPoolExecutor(max_workers=jobs_n or 8) as ex:
            fut = {ex.submit(run_job, b, h, j, tier, budget): (h, j) for h, j in todo}
            for f in cf.as_completed(fut):
                h, j = fut[f]; d = f.result(); res.append((h, j, d))
                st = d.get("stats", {})
                print(f"[{prop}] {h.name}.{j['name']}: {d['status']} {d.get('stop_reason','')} paths={st.get('paths','-')} queries={st.get('queries','-')} solver={st.get('solver_s',0):.1f}s wall={st.get('wall_s',0):.1f}s", flush=True)
                if d["status"] in ("build-error", "engine-error"): print(d.get("error", "")[-1500:], flush=True)
                if d["status"] == "vacuous": print("   unreached labels:", d["missing"])
                for u in d.get("unsupported", []) if isinstance(d.get("unsupported"), list) else []: print("   unsupported:", u[:300])
                for v in d.get("violations", []):
                    ident = f"{h.name}.{j['name']}|{v['kind']}|{v['msg']}"
                    kf = [k for k in known if k.get("property") == prop and k.get("status") == "known" and re.fullmatch(k["match"], ident)]
                    if kf: print(f"KNOWN-FINDING: property={prop} {kf[0]['what']}"); continue
                    if nviol and tier == "quick": continue
                    ok, how, path = replay(b, h, j, d, v, rdir)
                    if not ok:
                        print(f"[{prop}] counterexample NOT reproduced (encoding suspect): {ident} {path}"); d["status"] = "unreproduced"; continue
                    nviol += 1; rc = 1; v["replayed"] = how
                    print(f"  violation: {v['kind']}: {v['msg']} at {v['loc']} (replay: {how})")
                    for s in v["stack"][:6]: print("     ", s[:220])
                    print(f"VIOLATION property={prop} replay={path}", flush=True)
                if d["status"] == "vacuous" and not (nviol and tier == "quick"):
                    # the code no longer reaches a state the property demands to be reachable
                    os.makedirs(rdir, exist_ok=True); path = f"{rdir}/{h.name}.{j['name']}.vacuous.json"
                    json.dump({"property": prop, "harness": h.name, "job": j["name"], "missing": d["missing"], "explanation": "symbolic execution of the whole bounded space terminated without ever reaching these required outcomes: the behaviour the property demands no longer occurs for any input/schedule within the bounds"}, open(path, "w"), indent=1)
                    nviol += 1; rc = 1; print(f"  violation: required outcome unreachable: {d['missing']}"); print(f"VIOLATION property={prop} replay={path}", flush=True)
                if nviol and tier == "quick": stop_all()
        write_evidence(prop, tier, seed, res, time.time() - t0, nviol)
        bad = [f"{h.name}.{j['name']}" for h, j, d in res if d["status"] in ("build-error", "engine-error")]
        if bad and rc == 0:
            print(f"[{prop}] jobs that could not run: {bad}")
            rc = 3 if len(bad) == len(res) else 0
    finally:
        if os.environ.get("VX_KEEP"): print("work dir:", work)
        else: shutil.rmtree(work, ignore_errors=True)
    return rc

def write_evidence(prop, tier, seed, res, wall, nviol):
    man = {}
    try: man = {c["property"]: c for c in json.load(open(f"{VERIF}/MANIFEST.json"))["checks"]}
    except Exception: pass
    S = lambda k: sum(d.get("stats", {}).get(k, 0) for _, _, d in res)
    fns = sorted({f for _, _, d in res for f in d.get("functions", []) if "iox" in f})
    samples = []
    for h, j, d in res:
        samples.append({"job": f"{h.name}.{j['name']}", "defs": j["defs"], "engine_args": j["args"], "status": d["status"], "stop_reason": d.get("stop_reason", ""), "stats": d.get("stats", {}), "witnesses_reached": d.get("reach", {}), "assertions": d.get("assert_hits", {}), "violations": [{k: v[k] for k in ("kind", "msg", "loc")} for v in d.get("violations", [])]})
    complete = all(d["status"] in ("verified", "violation") for _, _, d in res)
    cov = {"states": S("forks") + S("paths") + S("sched_steps"), "transitions": S("instructions"), "traces_validated_against_impl": sum(1 for _, _, d in res for v in d.get("violations", []) if v.get("replayed")), "samples": samples,
           "explanation": "bounded symbolic execution of the LLVM bitcode compiled from /repo's working tree in this run; every assertion is decided by z3 (QF_BV) for all values of the symbolic inputs, operation sequences, schedules and crash points within the bounds",
           "evaluations": S("asserts"), "distinct_nontrivial": S("asserts_symbolic"), "rule": "evaluations = assertion instances checked; non-trivial = those that needed a decision over symbolic values",
           "queries_discharged": S("queries"), "queries_sat": S("sat"), "queries_unsat": S("unsat"), "queries_unknown": S("unknown"), "solver_seconds": round(S("solver_s"), 2), "symbolic_paths": S("paths"), "state_merges": S("merges"), "schedule_steps": S("sched_steps"), "truncated": S("truncated"), "unsupported_hits": S("unsupported"),
           "functions_encoded": fns[:400], "functions_encoded_count": len(fns), "bounds": sorted({x for h, _, _ in res for x in h.bounds}), "stubs_and_assumptions": sorted({x for h, _, _ in res for x in h.stubs}),
           "jobs_total": len(res), "jobs_verified": sum(d["status"] == "verified" for _, _, d in res), "jobs_incomplete": [f"{h.name}.{j['name']}: {d['status']} {d.get('stop_reason','')}" for h, j, d in res if d["status"] not in ("verified", "violation")], "exhaustive": complete and nviol == 0}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": man.get(prop, {}).get("level", "model_checking"), "coverage": cov, "assumptions": sorted({x for h, _, _ in res for x in h.stubs}) + ["clang -O1 code generation of the analysed bitcode and z3 are trusted", "interleavings are sequentially consistent at the granularity of single shared-memory instructions unless a race check is stated"], "wall_s": round(wall, 2), "violations": nviol}
    os.makedirs(f"{VERIF}/evidence", exist_ok=True)
    json.dump(ev, open(f"{VERIF}/evidence/{prop}.json", "w"), indent=1)

if __name__ == "__main__":
    import argparse
    ap = argparse.ArgumentParser(); ap.add_argument("prop"); ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick")); ap.add_argument("--only"); ap.add_argument("-j", type=int)
    a = ap.parse_args(); sys.exit(check(a.prop, a.tier, a.only, a.j))
