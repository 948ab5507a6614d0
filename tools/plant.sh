#!/bin/bash
# tools/plant.sh ID PROPERTY "needs" "what": makes seeded/ID from the edits in /tmp/wt (a scratch copy of /repo) and /tmp/demo.rs,
# confirms: tests pass with the change, demo fails with it, demo passes on /repo.
set -e
ID=$1; S=/verif/seeded/$ID
mkdir -p $S
git -C /tmp/wt diff > $S/patch.diff
[ -s $S/patch.diff ] || { echo no diff; exit 1; }
cp /verif/tools/demo.sh $S/demo.sh; cp /tmp/demo.rs $S/demo.rs
python3 - "$2" "$3" "$4" > $S/meta.json <<'P'
import json,sys
print(json.dumps(dict(property=sys.argv[1],needs=sys.argv[2],what_it_breaks=sys.argv[3]),indent=1))
P
( cd /tmp/wt && if bash $S/demo.sh >/tmp/demo.out 2>&1; then echo "DEMO PASSES WITH CHANGE"; tail -5 /tmp/demo.out; exit 1; else echo "demo fails with change: $(tail -1 /tmp/demo.out)"; fi )
( cd /repo && bash $S/demo.sh >/tmp/demo.out 2>&1 && echo "demo ok on clean" || { echo "DEMO FAILS ON CLEAN"; tail -15 /tmp/demo.out; exit 1; } )
( cd /tmp/wt && cargo test --workspace --no-fail-fast --offline -q -- --test-threads 8 > /tmp/plant.log 2>&1; grep -E "FAILED|test result: F|^error|[1-9][0-9]* failed" /tmp/plant.log | head -5; echo tests rc done )
cd /repo && git apply --check $S/patch.diff && echo applies
git apply $S/patch.diff; for c in $2 ${5}; do python3 /verif/run.py check $c | tail -4 | cut -c1-300; done; git checkout -q -- .
git -C /tmp/wt checkout -q -- .
