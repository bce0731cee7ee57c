#include "solver.h"
#include <z3.h>
#include <chrono>
#include <algorithm>
#include <map>
#include <cstring>
#include <cstdlib>
#include <unistd.h>
#include <string>
#define C ((Z3_context)ctx)
Solver::Solver(unsigned t, bool incr) : timeoutMs(t), incremental(incr) {
    Z3_config cfg = Z3_mk_config();
    ctx = Z3_mk_context(cfg); Z3_del_config(cfg);
    Z3_set_error_handler(C, nullptr);
    const char* mode = getenv("SYMX_TAC"); Z3_tactic q = nullptr;
    if (mode && !strcmp(mode, "light")) { const char* ts[] = {"simplify", "propagate-values", "solve-eqs", "simplify", "bit-blast", "sat"}; for (int i = 5; i >= 0; i--) { Z3_tactic t = Z3_mk_tactic(C, ts[i]); Z3_tactic_inc_ref(C, t); q = q ? Z3_tactic_and_then(C, t, q) : t; Z3_tactic_inc_ref(C, q); } }
    else if (mode && !strcmp(mode, "min")) { const char* ts[] = {"simplify", "bit-blast", "sat"}; for (int i = 2; i >= 0; i--) { Z3_tactic t = Z3_mk_tactic(C, ts[i]); Z3_tactic_inc_ref(C, t); q = q ? Z3_tactic_and_then(C, t, q) : t; Z3_tactic_inc_ref(C, q); } }
    else q = Z3_mk_tactic(C, "qfbv"); Z3_tactic_inc_ref(C, q); tac = q;
}
static Z3_ast mkI(Z3_context c, u128 v, unsigned w) {
    Z3_sort s = Z3_mk_bv_sort(c, w);
    if (w <= 64) return Z3_mk_unsigned_int64(c, (u64)v, s);
    Z3_ast hi = Z3_mk_unsigned_int64(c, (u64)(v >> 64), Z3_mk_bv_sort(c, w - 64));
    Z3_ast lo = Z3_mk_unsigned_int64(c, (u64)v, Z3_mk_bv_sort(c, 64));
    return Z3_mk_concat(c, hi, lo);
}
// cached ast in e->z: Bool sort for width 1, BV otherwise
void* Solver::tr(E root) {
    std::vector<E> st{root};
    while (!st.empty()) {
        E e = st.back();
        if (e->z) { st.pop_back(); continue; }
        bool ok = true;
        for (E x : {e->a, e->b, e->c}) if (x && !x->z) { st.push_back(x); ok = false; }
        if (!ok) continue;
        Z3_ast r = nullptr;
        Z3_ast a = e->a ? (Z3_ast)e->a->z : nullptr, b = e->b ? (Z3_ast)e->b->z : nullptr, c3 = e->c ? (Z3_ast)e->c->z : nullptr;
        auto bv = [&](E x, Z3_ast z) -> Z3_ast { return x->w == 1 ? Z3_mk_ite(C, z, mkI(C, 1, 1), mkI(C, 0, 1)) : z; };
        auto b1 = [&](Z3_ast z) -> Z3_ast { return Z3_mk_eq(C, z, mkI(C, 1, 1)); };
        switch (e->op) {
        case O_CONST: r = e->w == 1 ? (e->v ? Z3_mk_true(C) : Z3_mk_false(C)) : mkI(C, e->v, e->w); break;
        case O_VAR: r = Z3_mk_const(C, Z3_mk_string_symbol(C, ("v" + std::to_string((u64)e->v)).c_str()), e->w == 1 ? Z3_mk_bool_sort(C) : Z3_mk_bv_sort(C, e->w)); break;
        case O_ADD: r = e->w == 1 ? Z3_mk_xor(C, a, b) : Z3_mk_bvadd(C, a, b); break;
        case O_SUB: r = e->w == 1 ? Z3_mk_xor(C, a, b) : Z3_mk_bvsub(C, a, b); break;
        case O_MUL: { if (e->w == 1) { Z3_ast x[2] = {a, b}; r = Z3_mk_and(C, 2, x);} else r = Z3_mk_bvmul(C, a, b); break; }
        case O_UDIV: r = Z3_mk_bvudiv(C, bv(e->a,a), bv(e->b,b)); if (e->w == 1) r = b1(r); break;
        case O_SDIV: r = Z3_mk_bvsdiv(C, bv(e->a,a), bv(e->b,b)); if (e->w == 1) r = b1(r); break;
        case O_UREM: r = Z3_mk_bvurem(C, bv(e->a,a), bv(e->b,b)); if (e->w == 1) r = b1(r); break;
        case O_SREM: r = Z3_mk_bvsrem(C, bv(e->a,a), bv(e->b,b)); if (e->w == 1) r = b1(r); break;
        case O_AND: { if (e->w == 1) { Z3_ast x[2] = {a, b}; r = Z3_mk_and(C, 2, x);} else r = Z3_mk_bvand(C, a, b); break; }
        case O_OR: { if (e->w == 1) { Z3_ast x[2] = {a, b}; r = Z3_mk_or(C, 2, x);} else r = Z3_mk_bvor(C, a, b); break; }
        case O_XOR: r = e->w == 1 ? Z3_mk_xor(C, a, b) : Z3_mk_bvxor(C, a, b); break;
        case O_NOT: r = e->w == 1 ? Z3_mk_not(C, a) : Z3_mk_bvnot(C, a); break;
        case O_SHL: r = Z3_mk_bvshl(C, bv(e->a,a), bv(e->b,b)); if (e->w == 1) r = b1(r); break;
        case O_LSHR: r = Z3_mk_bvlshr(C, bv(e->a,a), bv(e->b,b)); if (e->w == 1) r = b1(r); break;
        case O_ASHR: r = Z3_mk_bvashr(C, bv(e->a,a), bv(e->b,b)); if (e->w == 1) r = b1(r); break;
        case O_EQ: r = e->a->w == 1 ? Z3_mk_iff(C, a, b) : Z3_mk_eq(C, a, b); break;
        case O_ULT: r = Z3_mk_bvult(C, bv(e->a,a), bv(e->b,b)); break;
        case O_ULE: r = Z3_mk_bvule(C, bv(e->a,a), bv(e->b,b)); break;
        case O_SLT: r = Z3_mk_bvslt(C, bv(e->a,a), bv(e->b,b)); break;
        case O_SLE: r = Z3_mk_bvsle(C, bv(e->a,a), bv(e->b,b)); break;
        case O_CONCAT: r = Z3_mk_concat(C, bv(e->a,a), bv(e->b,b)); break;
        case O_EXTRACT: r = Z3_mk_extract(C, (unsigned)e->v + e->w - 1, (unsigned)e->v, a); if (e->w == 1) r = b1(r); break;
        case O_ZEXT: r = Z3_mk_zero_ext(C, e->w - e->a->w, bv(e->a,a)); break;
        case O_SEXT: r = Z3_mk_sign_ext(C, e->w - e->a->w, bv(e->a,a)); break;
        case O_ITE: r = Z3_mk_ite(C, a, b, c3); break;
        }
        if (!r || Z3_get_error_code(C) != Z3_OK) { fprintf(stderr, "symx: z3 error %s on %s\n", Z3_get_error_msg(C, Z3_get_error_code(C)), toStr(e).c_str()); exit(3); }
        Z3_inc_ref(C, r); e->z = r; st.pop_back();
    }
    return root->z;
}
// second solver for queries dominated by division and multiplication: cvc5 on the same query, bit vectors translated to integers
static Res external(const std::string& smt, const std::vector<u32>& vars, unsigned tmo, Model* m) {
    char path[] = "/tmp/symx-XXXXXX"; int fd = mkstemp(path); if (fd < 0) return Res::Unknown;
    std::string q = "(set-logic QF_BV)\n" + smt + "\n(check-sat)\n";
    if (!vars.empty()) { q += "(get-value ("; for (u32 v : vars) q += "v" + std::to_string(v) + " "; q += "))\n"; }
    for (const char* k : {"bvudiv_i", "bvurem_i", "bvsdiv_i", "bvsrem_i", "bvsmod_i"}) for (size_t p = q.find(k); p != std::string::npos; p = q.find(k, p)) q.erase(p + 6, 2); // same function, internal name
    bool wr = write(fd, q.data(), q.size()) == (ssize_t)q.size(); close(fd); std::string out;
    if (wr) { std::string cmd = "timeout " + std::to_string(tmo / 1000 + 1) + " cvc5 --produce-models --solve-bv-as-int=sum " + path + " 2>/dev/null"; if (FILE* f = popen(cmd.c_str(), "r")) { char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) out.append(b, n); pclose(f); } }
    if (getenv("SYMX_KEEP")) fprintf(stderr, "query %s: %s\n", path, out.c_str()); else unlink(path);
    if (out.compare(0, 5, "unsat") == 0) return Res::Unsat;
    if (out.compare(0, 3, "sat") != 0) return Res::Unknown;
    if (m) { m->assign(g_vars.size(), 0); for (u32 v : vars) { std::string k = "(v" + std::to_string(v) + " "; size_t p = out.find(k); if (p == std::string::npos) return Res::Unknown; p += k.size(); u128 x = 0; if (out.compare(p, 4, "true") == 0) x = 1; else if (out.compare(p, 2, "#b") == 0) for (p += 2; out[p] == '0' || out[p] == '1'; p++) x = x * 2 + (out[p] - '0'); (*m)[v] = x; } }
    return Res::Sat;
}
Res Solver::solve(const std::vector<E>& cs, Model* m) {
    auto t0 = std::chrono::steady_clock::now();
    Z3_solver s = nullptr; Z3_lbool r; unsigned tmo = timeoutMs; if (deadline) { double l = deadline() * 1000 + 300; tmo = l < 300 ? 300 : l < tmo ? (unsigned)l : tmo; }
    const unsigned total = tmo; if (intFallback && tmo > 1500) tmo = 1500;
    if (!incremental) {
        s = Z3_mk_solver_from_tactic(C, (Z3_tactic)tac); Z3_solver_inc_ref(C, s);
        Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p); Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), tmo); Z3_solver_set_params(C, s, p); Z3_params_dec_ref(C, p);
        for (E e : cs) Z3_solver_assert(C, s, (Z3_ast)tr(e));
        r = Z3_solver_check(C, s);
    } else {
        if (!inc) { s = Z3_mk_solver_for_logic(C, Z3_mk_string_symbol(C, "QF_FD")); Z3_solver_inc_ref(C, s); inc = s;
            Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p); Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), timeoutMs); Z3_solver_set_params(C, s, p); Z3_params_dec_ref(C, p); }
        s = (Z3_solver)inc; std::vector<Z3_ast> as;
        // assumption literals: name each constraint with a definitional boolean
        static std::unordered_map<E, Z3_ast> lit;
        for (E e : cs) {
            auto it = lit.find(e);
            if (it == lit.end()) {
                Z3_ast l;
                if (e->op == O_VAR) l = (Z3_ast)tr(e);
                else if (e->op == O_NOT && e->a->op == O_VAR) l = (Z3_ast)tr(e);
                else { l = Z3_mk_const(C, Z3_mk_string_symbol(C, ("d" + std::to_string(e->id)).c_str()), Z3_mk_bool_sort(C)); Z3_inc_ref(C, l); Z3_solver_assert(C, s, Z3_mk_implies(C, l, (Z3_ast)tr(e))); }
                it = lit.emplace(e, l).first;
            }
            as.push_back(it->second);
        }
        r = Z3_solver_check_assumptions(C, s, as.size(), as.data());
    }
    Res res = r == Z3_L_TRUE ? Res::Sat : r == Z3_L_FALSE ? Res::Unsat : Res::Unknown;
    std::vector<u32> vars; if (m || intFallback) { std::unordered_set<u32> seen; for (E e : cs) { std::vector<u32> v; collectVars(e, v); for (u32 x : v) if (seen.insert(x).second) vars.push_back(x); } }
    if (res == Res::Unknown && intFallback && !incremental) { Z3_solver d = Z3_mk_simple_solver(C); Z3_solver_inc_ref(C, d); for (E e : cs) Z3_solver_assert(C, d, (Z3_ast)tr(e)); std::string txt = Z3_solver_to_string(C, d); Z3_solver_dec_ref(C, d); res = external(txt, vars, total, m); st.second++; }
    else if (res == Res::Sat && m) {
        Z3_model mo = Z3_solver_get_model(C, s); Z3_model_inc_ref(C, mo);
        m->assign(g_vars.size(), 0);
        for (u32 vi : vars) {
            E e = g_vars[vi].e; Z3_ast out = nullptr;
            if (!Z3_model_eval(C, mo, (Z3_ast)tr(e), true, &out)) continue;
            if (e->w == 1) { (*m)[vi] = Z3_get_bool_value(C, out) == Z3_L_TRUE; }
            else if (e->w <= 64) { uint64_t x = 0; Z3_get_numeral_uint64(C, out, &x); (*m)[vi] = x; }
            else { const char* str = Z3_get_numeral_string(C, out); u128 x = 0; for (; *str; str++) x = x * 10 + (*str - '0'); (*m)[vi] = x; }
        }
        Z3_model_dec_ref(C, mo);
    }
    if (!incremental) Z3_solver_dec_ref(C, s);
    double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    st.queries++; st.time += dt; if (dt > st.maxTime) st.maxTime = dt;
    if (res == Res::Sat) st.sat++; else if (res == Res::Unsat) st.unsat++; else st.unknown++;
    return res;
}
static u64 g_epoch = 1u << 20;
Res Solver::check(const std::vector<E>& pc, E extra, Model* m) {
    std::vector<E> cs;
    // independence slicing w.r.t. extra
    if (extra) {
        if (isF(extra)) return Res::Unsat;
        for (E e : pc) { if (isF(e)) return Res::Unsat; }
        std::unordered_set<u32> vs; { std::vector<u32> v; collectVars(extra, v); vs.insert(v.begin(), v.end()); }
        static std::unordered_map<E, std::vector<u32>> vcache;
        std::vector<bool> used(pc.size(), false); bool ch = true;
        cs.push_back(extra);
        while (ch) { ch = false;
            for (size_t i = 0; i < pc.size(); i++) if (!used[i] && !isC(pc[i])) {
                auto it = vcache.find(pc[i]);
                if (it == vcache.end()) { std::vector<u32> v; collectVars(pc[i], v); it = vcache.emplace(pc[i], std::move(v)).first; }
                bool hit = false; for (u32 x : it->second) if (vs.count(x)) { hit = true; break; }
                if (hit) { used[i] = true; ch = true; cs.push_back(pc[i]); vs.insert(it->second.begin(), it->second.end()); }
            } }
    } else cs = pc;
    std::vector<E> key = cs; std::sort(key.begin(), key.end(), [](E a, E b) { return a->id < b->id; }); key.erase(std::unique(key.begin(), key.end()), key.end());
    u64 h = 1469598103934665603ull; for (E e : key) { h ^= e->id; h *= 1099511628211ull; }
    auto& bucket = cache[h];
    Res res = Res::Unknown; std::shared_ptr<Model> mo; bool found = false;
    for (auto& p : bucket) if (p.first == key) { res = p.second.first; mo = p.second.second; found = true; st.cacheHits++; break; }
    if (!found) {
        mo = std::make_shared<Model>();
        res = solve(key, mo.get());
        if (res == Res::Sat) { u64 ep = ++g_epoch; for (E e : key) if (!evalExpr(e, *mo, (ep << 1) | 1)) { fprintf(stderr, "symx: INTERNAL model does not satisfy query\n"); exit(3); } }
        if (res != Res::Unknown) bucket.push_back({key, {res, mo}});
    }
    if (res == Res::Sat && m) {
        // *m holds the previous model of the state: overwrite only vars of the slice
        std::unordered_set<u32> vs; for (E e : key) { std::vector<u32> v; collectVars(e, v); vs.insert(v.begin(), v.end()); }
        if (m->size() < g_vars.size()) m->resize(g_vars.size(), 0);
        for (u32 x : vs) (*m)[x] = x < mo->size() ? (*mo)[x] : 0;
    }
    return res;
}
