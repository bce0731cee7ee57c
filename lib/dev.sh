#!/bin/bash
# dev helper: build one job's bitcode into /tmp/dev and run engine: dev.sh prop harness.job [engine args]
cd /verif && python3 - "$@" <<'PY'
import sys; sys.path.insert(0,'/verif/lib'); import vx, os
os.makedirs('/tmp/dev',exist_ok=True)
want=sys.argv[1]
for h in vx.harnesses():
    for j in h.jobs:
        if f"{h.name}.{j['name']}"==want:
            b=vx.Builder('/tmp/dev'); 
            try: out=b.link(h,j)
            except vx.BuildError as e: print(e); sys.exit(1)
            open('/tmp/dev/cmd','w').write(f"{out} {j['args']}")
PY
[ $? = 0 ] || exit 1
shift; timeout ${T:-120} /verif/engine/build/symx $(cat /tmp/dev/cmd) --out /tmp/dev/out.json --verbose --timeout $((${T:-100}-5)) "$@"; echo "exit $?"
python3 - <<'PY'
import json
d=json.load(open('/tmp/dev/out.json')); print(d['status'],d['stop_reason'],d['stats']); print(d['reach']); print(d['unsupported'])
for v in d['violations']:
    print(v['kind'],v['msg'],v['loc']); [print('   ',s[:250]) for s in v['stack'][:8]]; print({k:x for k,x in v['inputs'].items() if x})
PY
