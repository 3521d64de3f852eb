# usage: fix.sh "message"; builds, tests, commits
cd /repo
bash /opt/vp/build.sh >/tmp/b.out 2>&1 || { echo BUILD FAIL; grep -m3 -A6 "^error" /tmp/b.out; exit 1; }
bash /opt/vp/test.sh /tmp/t.json >/tmp/t.out 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'))['stable']; r=json.load(open('/tmp/t.json'))
p=set(r['passed']); bad=[x for x in b if x not in p]
print('missing',bad)
raise SystemExit(1 if bad else 0)
P
[ $? = 0 ] || exit 1
git status --short | head -5
git commit -qam "$1" && git log --oneline -1
