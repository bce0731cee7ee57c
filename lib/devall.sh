#!/bin/bash
# dev helper: run all (quick) jobs of a harness: devall.sh harness job...
h=$1; shift
for j in "$@"; do echo "== $j"; rm -f /tmp/dev/out.json; T=${T:-100} /verif/lib/dev.sh $h.$j 2>&1 | grep -v "^ *[0-9]* [a-z_~A-Z]" | sed "s/'cache_hits.*'solver_s'/'solver_s'/; s/'merges'.*'asserts'/'asserts'/" | tail -${N:-25} | cut -c1-${W:-600}; done
