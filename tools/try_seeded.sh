#!/bin/bash
# try_seeded.sh ID [CHECK...]: builds, tests and demonstrates seeded/ID in /repo, runs
# the check of its property (and others), and undoes it.
cd /verif
base() { git -C /repo checkout -q -- . ; }
trap base EXIT
id=$1; shift
d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
copy=$(mktemp -d /tmp/bnl-demo-XXXXXX); cp "$d"/demo* "$copy"; ls "$d" | grep -v 'demo\|patch\|meta' | while read f; do cp -r "$d/$f" "$copy"; done
cd /repo
[ -z "$(git status --porcelain)" ] || { echo "/repo isn't clean"; exit 2; }
bash /opt/vp/build.sh >/dev/null 2>&1
bash "$copy/demo.sh" >/tmp/demo.out 2>&1 && r0=ok || r0="FAILS($?)"
git apply "$d/patch.diff" || { echo "$id: does not apply"; exit 2; }
# Only lines of the original repository may change.
git diff -U0 | python3 -c "
import sys,re,subprocess
f=None
for l in sys.stdin:
    if l.startswith('--- '): f=l[6:].strip()
    m=re.match(r'@@ -(\d+)(?:,(\d+))? ',l)
    if m and m.group(2)!='0':
        a=int(m.group(1)); n=int(m.group(2) or 1)
        b=subprocess.check_output(['git','blame','-s','-L','%d,%d'%(a,a+n-1),'HEAD','--',f],text=True)
        for x in b.splitlines():
            if not x.lstrip('^').startswith('0ec8e86'): print('NOT ORIGINAL:',x)
"
bash /opt/vp/build.sh >/tmp/build.out 2>&1 && b=built || b="BUILD FAILS"
bash /opt/vp/test.sh /tmp/t.json >/dev/null 2>&1
t=$(python3 -c "
import json
t=json.load(open('/tmp/t.json')); b=json.load(open('/opt/vp/BASELINE.json'))
p=set(t.get('passed',[])); w=set(b['stable'])
print('tests %d/%d'%(len(w&p),len(w)))")
bash "$copy/demo.sh" >/tmp/demo.out2 2>&1 && r1="DOES NOT FAIL" || r1="fails"
echo "$id ($prop): demo $r0; $b, $t, demo $r1"
cd /verif
for c in ${*:-$prop}; do
  start=$(date +%s)
  ./check $c >/tmp/seed.out 2>&1; rc=$?
  echo "   $c exit $rc $(($(date +%s)-start)) s: $(grep -m1 '^violated' /tmp/seed.out | cut -c1-140)"
done
rm -rf "$copy"
