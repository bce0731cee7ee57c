#!/usr/bin/env python3
"""Single source of truth for properties.jsonl and MANIFEST.json:  python3 lib/props.py writes both."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MP = "iceoryx_posh/source/mepoo/"; BB = "iceoryx_posh/include/iceoryx_posh/internal/popo/building_blocks/"; CB = "iceoryx_hoofs/concurrent/buffer/include/iox/detail/"
IM = "iceoryx_posh/include/iceoryx_posh/internal/"
P = []
NA = []
def prop(id, title, statement, over, text, why, files, mech, note=""):
    assert len(title) <= 80, title
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over.split(), text=text), why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech])), note))
def na(id, reason): NA.append(dict(property=id, reason=reason))
exec(open(os.path.join(V, "lib", "props_data.py")).read())

def main():
    import vx
    have = {h.prop for h in vx.harnesses()}
    nas = {n["property"] for n in NA}
    ids = [p["id"] for p, _ in P]; assert len(ids) == len(set(ids))
    open(f"{V}/properties.jsonl", "w").write("".join(json.dumps(p, ensure_ascii=False) + "\n" for p, _ in P))
    checks = [dict(property=p["id"], quick_cmd=f"python3 lib/vx.py {p['id']} --tier quick", thorough_cmd=f"python3 lib/vx.py {p['id']} --tier thorough",
                   technique="bounded symbolic execution of the LLVM IR of the real code (symx engine, z3 QF_BV), symbolic inputs / exhaustive symbolic schedules; counterexamples replayed natively",
                   level="model_checking", level_note=n or "holds for every value of the symbolic variables within the bounds printed in the evidence file; nothing is claimed outside them") for p, n in P if p["id"] in have and p["id"] not in nas]
    for p, _ in P:
        if p["id"] not in have and p["id"] not in nas: NA.append(dict(property=p["id"], reason="no check registered (yet): harness not built"))
    m = dict(version=1, setup_cmd="make -s -C engine", checks=checks, not_applicable=NA)
    json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1); open(f"{V}/MANIFEST.json", "a").write("\n")
    try:
        import jsonschema
        jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
        s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
        for p, _ in P: jsonschema.validate(p, s)
        print("valid:", len(checks), "checks,", len(NA), "not applicable")
    except ImportError: print("written (jsonschema not available)")
if __name__ == "__main__": main()
