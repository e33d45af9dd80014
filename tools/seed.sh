#!/bin/bash
# seed.sh ID PROP: takes the change in the scratch worktree /tmp/wt/s and the demo in /tmp/seed/ID (main.go, meta.json),
# confirms both and stores them in seeded/ID.
set -e
id=$1; prop=$2; race=$3
wt=/tmp/wt/s
src=/tmp/seed/$id
out=/verif/seeded/$id
. /opt/vp/env.sh
rm -rf "$out"; mkdir -p "$out"
git -C $wt diff > "$out/patch.diff"
test -s "$out/patch.diff"
cp "$src"/main.go "$src"/meta.json "$out"/
cp /verif/tools/demo/world.go "$out"/
sed "s/RACEFLAG/$race/" /verif/tools/demo/demo.sh > "$out/demo.sh"; chmod +x "$out/demo.sh"
(cd $wt && gofmt -l $(git diff --name-only) && go build ./...)
(cd /repo && "$out/demo.sh" > /tmp/demo.ok 2>&1) || { echo "demo fails on the clean tree"; cat /tmp/demo.ok; exit 1; }
set +e
(cd $wt && "$out/demo.sh" > /tmp/demo.bad 2>&1); rc=$?
[ $rc != 0 ] && [ $rc != 9 ] || { echo "demo rc $rc on the changed tree"; cat /tmp/demo.bad; exit 1; }
tail -2 /tmp/demo.bad
(cd $wt && go test ./... 2>&1 | grep -v "no test files" | grep -E "^(ok|FAIL|---)" )
/tmp/against.sh $wt $prop | grep -v "^  {" | cut -c1-250 | tail -12
