#!/bin/bash
# plant.sh ID PROPERTY [CHECKS...]: /tmp/w holds a copy of /repo with an edit applied; /verif/seeded/ID/ holds demo.sh.
# Builds and tests the copy, runs the demo against it and against /repo, writes patch.diff, runs the checks on the copy.
set -u
id=$1; prop=$2; shift 2
d=/verif/seeded/$id
export VPW=/tmp/w
mkdir -p /tmp/vpw/mk; for f in build.sh test.sh mk/prep.sh mk/rules.mk results.py; do sed 's|/repo|/tmp/w|g; s|/opt/vp/mk|/tmp/vpw/mk|g; s|/opt/vp/build.sh|/tmp/vpw/build.sh|' /opt/vp/$f > /tmp/vpw/$f; done
git -C /tmp/w diff > $d/patch.diff
[ -s $d/patch.diff ] || { echo "no patch"; exit 1; }
bash /tmp/vpw/test.sh /tmp/vpw/out.json > /tmp/vpw/log 2>&1
python3 - <<'P' || { tail -5 /tmp/vpw/log; exit 1; }
import json,sys
a=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); b=set(json.load(open('/tmp/vpw/out.json'))['passed'])
m=a-b
print("stable tests failing:",len(m),sorted(m)[:5]); sys.exit(1 if m else 0)
P
cp -r $d /tmp/vpw/demo; 
(cd /repo && timeout 300 bash /tmp/vpw/demo/demo.sh >/tmp/vpw/d0 2>&1); a=$?
(cd /tmp/w && timeout 300 bash /tmp/vpw/demo/demo.sh >/tmp/vpw/d1 2>&1); b=$?
rm -rf /tmp/vpw/demo
echo "demo: unchanged=$a patched=$b"; [ $a = 0 ] && [ $b != 0 ] || { tail -3 /tmp/vpw/d0 /tmp/vpw/d1; echo BAD-DEMO; }
for c in $prop "$@"; do VERIF_REPO=/tmp/w python3 /verif/check.py $c | tail -4; echo "check $c -> ${PIPESTATUS[0]}"; done
