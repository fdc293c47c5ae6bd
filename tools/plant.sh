#!/bin/bash
# plant.sh ID [CHECK...]: confirm seeded/ID (tests pass, demo fails with it and passes
# without it), then run its property's check (or the given ones) against it.
# Works on /repo's working tree, which must be clean, and restores it.
cd /repo || exit 9
[ -z "$(git status --porcelain)" ] || { echo "repo not clean"; exit 9; }
id=$1; shift
dir=/verif/seeded/$id
trap 'git -C /repo checkout -q -- .' EXIT
bash $dir/demo.sh >/tmp/plant.$id.d0 2>&1; d0=$?
git apply $dir/patch.diff || { echo "$id: does not apply"; exit 8; }
bash /opt/vp/build.sh >/dev/null 2>&1 || echo "$id: build failed"
bash /opt/vp/test.sh /tmp/plant.$id.json >/tmp/plant.$id.t 2>&1; t=$(tail -1 /tmp/plant.$id.t)
bash $dir/demo.sh >/tmp/plant.$id.d1 2>&1; d1=$?
prop=$(python3 -c "import json;print(json.load(open('$dir/meta.json'))['property'])")
checks=${*:-$prop}
for c in $checks; do
  (cd /verif && timeout 900 ./check $c quick >/tmp/plant.$id.$c.out 2>&1); rc=$?
  res="$res $c:rc=$rc,$(grep -c '^VIOLATION property='$c /tmp/plant.$id.$c.out)viol"
done
echo "$id ($prop): demo clean=$d0 planted=$d1; tests: $t; checks:$res"
