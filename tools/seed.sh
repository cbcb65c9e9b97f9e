#!/bin/bash
# seed.sh ID... : confirms seeded bugs (demo passes clean, fails with the bug,
# stable tests pass with the bug) and runs the check of their property.
. /opt/vp/env.sh
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 9; }
for id in "$@"; do
d=/verif/seeded/$id
tmp=$(mktemp -d /tmp/seed.XXXXXX)
cp -a $d $tmp/x; rm -f $tmp/x/*.diff $tmp/x/*.patch $tmp/x/meta.json
bash /opt/vp/build.sh >/dev/null 2>&1
(cd /repo && timeout 300 bash $tmp/x/demo.sh) >$tmp/demo.clean 2>&1; a=$?
if git -C /repo apply $d/patch.diff; then
  bash /opt/vp/build.sh >$tmp/build 2>&1; bl=$?
  bash /opt/vp/test.sh $tmp/out.json >/dev/null 2>&1
  miss=$(python3 - $tmp/out.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
bs=set(b.get('passed') or b.get('tests') or b.get('stable') or [])
print(len(bs-set(o.get('passed',[]))))
P
)
  (cd /repo && timeout 300 bash $tmp/x/demo.sh) >$tmp/demo.bug 2>&1; b=$?
  prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  if [ -z "$NOCHECK" ]; then
  (cd /verif && timeout 900 python3 check.py $prop quick) >$tmp/check 2>&1; c=$?
  v=$(grep -h VIOLATION $tmp/check | tail -1)
  o=$(grep -h 'failed obligation' $tmp/check | head -2 | cut -c1-150)
  fi
  git -C /repo checkout -q -- .
  echo "$id prop=$prop demo(clean)=$a build=$bl missing=$miss demo(bug)=$b check=$c $v"
  [ -n "$o" ] && echo "   $o"
  [ $a = 0 ] || tail -5 $tmp/demo.clean
  [ $b != 0 ] || tail -5 $tmp/demo.bug
  [ -n "$V" ] && tail -30 $tmp/check
fi
rm -rf "$tmp"
done
bash /opt/vp/build.sh >/dev/null 2>&1
