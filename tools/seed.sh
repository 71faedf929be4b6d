#!/bin/bash
# seed.sh new ID PROPERTY [net]   make /verif/seeded/ID from the changes in /tmp/sw (a copy of /repo), main.rs from stdin
# seed.sh try ID                  confirm it: demo on both trees, stable tests, then the check (in /repo, undone after)
set -u
cmd=$1 id=${2:-}
dir=/verif/seeded/$id
case $cmd in
start)
  [ -d /tmp/sw ] || cp -a /repo /tmp/sw
  git -C /tmp/sw checkout -q -- . && git -C /tmp/sw fetch -q /repo HEAD && git -C /tmp/sw reset -q --hard FETCH_HEAD ;;
new)
  mkdir -p "$dir"
  git -C /tmp/sw diff > "$dir/patch.diff"
  [ -s "$dir/patch.diff" ] || { echo "no change"; exit 1; }
  cp /verif/tools/demo/demo.sh "$dir/"
  if [ "${4:-}" = net ]; then cp /verif/tools/demo/net.rs /verif/mc/src/{refc,tls,pki}.rs "$dir/"; fi
  cat > "$dir/main.rs"
  git -C /tmp/sw checkout -q -- . ;;
try)
  p=$(python3 -c "import json;print(json.load(open('$dir/meta.json'))['property'])")
  # only original lines
  python3 - "$dir/patch.diff" <<'P' || exit 1
import subprocess,sys,re
f=None; bad=0; n=0; touched=0
for l in open(sys.argv[1]):
    if l.startswith('--- a/'): f=l[6:].strip(); bl=subprocess.run(['git','-C','/repo','blame','-s',f],capture_output=True,text=True).stdout.split('\n'); continue
    if l.startswith('+++'): continue
    m=re.match(r'@@ -(\d+)',l)
    if m: n=int(m[1]); continue
    if f is None: continue
    if l.startswith('-'):
        touched+=1
        if not bl[n-1].startswith('^444a385'): print('not original:',f,n,bl[n-1]); bad=1
        n+=1
    elif l.startswith('+'): pass
    elif l.startswith(' '): n+=1
if not touched: print('no original line is changed'); bad=1
sys.exit(bad)
P
  [ -d /tmp/sw ] || cp -a /repo /tmp/sw
  cd /tmp/sw && git checkout -q -- . || exit 1
  bash "$dir/demo.sh" > /tmp/seed.clean 2>&1; c=$?
  git apply "$dir/patch.diff" || { echo "does not apply"; exit 1; }
  bash "$dir/demo.sh" > /tmp/seed.bug 2>&1; b=$?
  t=$(cargo test --workspace --no-fail-fast --offline 2>&1 | grep -c '^test .* ok$')
  git checkout -q -- .
  echo "$id: demo clean $c ($(tail -1 /tmp/seed.clean)), patched $b ($(tail -1 /tmp/seed.bug)), tests ok $t"
  [ -n "${DEMO_ONLY:-}" ] && exit 0
  git -C /repo apply "$dir/patch.diff" || exit 1
  (cd /verif && timeout 900 bash check.sh "$p" > /tmp/seed.check 2>&1); k=$?
  git -C /repo checkout -q -- .
  echo "$id: $p exit $k; $(grep -m1 VIOLATION /tmp/seed.check)" ;;
esac
