#!/bin/bash
# try.sh SEED [CHECK...]: runs checks against a scratch copy with a planted bug.
# default: the check of the property it breaks
s=$1; shift
d=/verif/seeded/$s
c=${*:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
w=/tmp/try.$s
git -C /repo worktree add -q --detach $w HEAD 2>/dev/null
git -C $w apply $d/patch.diff || echo APPLY FAILS
for x in $c; do
  SMSVERIF_REPO=$w SMSVERIF_DIR=/tmp/try.out.$s ${SV:-/verif/analyzer/smsverif} check $x > /tmp/try.$s.$x.txt 2>&1
  echo "$s $x exit $? $(grep -v '^property\|^VIOLATION\|^  key' /tmp/try.$s.$x.txt | head -1 | cut -c1-220)"
done
git -C /repo worktree remove --force $w
