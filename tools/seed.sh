#!/bin/bash
# seed.sh ID PROP PKG "needs" "breaks": turns the modifications of the scratch
# worktree /tmp/wt and the test file /tmp/demo_test.go into /verif/seeded/ID,
# after confirming that it builds, passes the stable tests, and that the
# demonstration fails with it and passes without it.
id=$1; prop=$2; pkg=$3
d=/verif/seeded/$id
mkdir -p $d
git -C /tmp/wt diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo "no change"; exit 1; }
cp /tmp/demo_test.go $d/demo_test.go
cat > $d/demo.sh <<EOS
#!/bin/bash
# exit 0 when the property holds on this input
d=\$(cd "\$(dirname "\$0")" && pwd)
o=\$(mktemp)
echo "{\"Replace\":{\"\$PWD/$pkg/zz_seed_demo_test.go\":\"\$d/demo_test.go\"}}" > "\$o"
GOFLAGS=-buildvcs=false timeout 200 go test -overlay "\$o" -vet=off -count=1 -timeout 100s -run '^TestSeedDemo\$' ./$pkg
rc=\$?
rm -f "\$o"
exit \$rc
EOS
python3 - "$d/meta.json" "$prop" "$4" "$5" <<'EOS'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1],"w"),indent=1)
EOS
cd /tmp/wt && git diff --stat | tail -1
go build ./... || { echo BUILD FAILS; exit 1; }
go test ./... 2>&1 | grep -- '--- FAIL' | sed 's/ (.*//' | sort > /tmp/seed_fail.txt
# compare with the failures of the unchanged tree
[ -f /tmp/base_fail.txt ] || (cd /repo && go test ./... 2>&1 | grep -- '--- FAIL' | sed 's/ (.*//' | sort > /tmp/base_fail.txt)
if ! diff /tmp/base_fail.txt /tmp/seed_fail.txt >/tmp/seed_diff.txt; then echo "TESTS DIFFER"; head -5 /tmp/seed_diff.txt; fi
(cd /tmp/wt && bash $d/demo.sh > /tmp/seed_demo1.txt 2>&1); r1=$?
(cd /repo && bash $d/demo.sh > /tmp/seed_demo0.txt 2>&1); r0=$?
echo "demo: unchanged $r0 changed $r1"
[ $r0 = 0 ] && [ $r1 != 0 ] || { echo DEMO BAD; tail -5 /tmp/seed_demo0.txt; tail -5 /tmp/seed_demo1.txt; }
git -C /tmp/wt checkout -q -- .
