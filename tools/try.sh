#!/bin/bash
# tools/try.sh "checks": runs checks against the edits in /tmp/wt (a scratch copy of /repo), then reverts the edits unless KEEP is set
git -C /tmp/wt diff --stat | tail -1
for c in $1; do python3 /verif/run.py check $c --repo /tmp/wt 2>&1 | grep -v "^#" | tail -${2:-3} | cut -c1-260; done
[ -n "$KEEP" ] || git -C /tmp/wt checkout -q -- .
