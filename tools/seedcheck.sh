#!/bin/bash
# seedcheck.sh ID [noreg]: confirms a planted bug (build, stable tests, demo both ways) in /repo and runs
# the check of its property against it; always undoes the patch.  Development only: no check uses this.
s=/verif/seeded/$1; pid=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
cd /repo || exit 2; [ -z "$(git status --porcelain)" ] || { echo "/repo not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .; bash /opt/vp/build.sh >/dev/null 2>&1' EXIT
bash /opt/vp/build.sh >/dev/null 2>&1; bash $s/demo.sh >/tmp/sc.clean 2>&1; a=$?
git apply $s/patch.diff || exit 2
bash /opt/vp/test.sh /tmp/sc.json >/tmp/sc.t 2>&1
python3 - <<'P'
import json
s=json.load(open('/opt/vp/BASELINE.json'))['stable']; p=set(json.load(open('/tmp/sc.json'))['passed'])
m=[x for x in s if x not in p]; print('tests missing:', len(m), m[:5])
P
bash $s/demo.sh >/tmp/sc.bad 2>&1; b=$?
echo "demo clean=$a patched=$b"
cd /verif; timeout 900 python3 run_check.py $pid >/tmp/sc.check 2>&1; echo "check $pid exit=$? $(grep VIOLATION /tmp/sc.check | head -1)"
