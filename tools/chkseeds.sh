#!/bin/bash
# Validates planted bugs and shows which checks catch them, in a scratch
# worktree: chkseeds.sh [-n] [ID...]; -n does not run the checks.
V=$(cd "$(dirname "$0")/.." && pwd); wt=/tmp/chkseeds.wt
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" GODEBUG=randautoseed=0
nocheck=; [ "$1" = -n ] && { nocheck=1; shift; }
[ $# -gt 0 ] || set -- $(ls "$V/seeded")
git -C /repo worktree list | grep -q " *$wt " || [ -d $wt ] || git -C /repo worktree add --detach -q $wt
git -C $wt checkout -q --detach "$(git -C /repo rev-parse HEAD)" && git -C $wt checkout -q -- .
cd $wt || exit 1
for id in "$@"; do
  d=$V/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])"); bad=
  cp -a "$d" /tmp/chkseeds.demo.$$; rm -f /tmp/chkseeds.demo.$$/{*.diff,meta.json}
  /tmp/chkseeds.demo.$$/demo.sh > /tmp/chkseeds.log 2>&1 || { bad="demo fails unpatched: $(tail -3 /tmp/chkseeds.log)"; }
  # Removed lines are original ones
  python3 - "$d/patch.diff" <<'P' || bad="$bad; changes lines of fixes"
import re,subprocess,sys
f=None; rem=0; bad=0
for l in open(sys.argv[1]):
    if l.startswith('--- a/'): f=l[6:].strip()
    elif l.startswith('@@'): n=int(re.match(r'@@ -(\d+)',l).group(1))
    elif l.startswith('-') and not l.startswith('---'):
        rem+=1
        o=subprocess.check_output(['git','blame','-s','-L%d,%d'%(n,n),'HEAD','--',f],text=True)
        if not o.startswith('^336275f'): bad+=1; print(sys.argv[1],o.strip())
        n+=1
    elif l.startswith(' '): n+=1
sys.exit(bad>0 or rem==0)
P
  if git apply "$d/patch.diff"; then
    go build ./... || bad="$bad; does not build"
    go test -vet=off -count=1 ./... > /tmp/chkseeds.log 2>&1 || bad="$bad; tests fail"
    /tmp/chkseeds.demo.$$/demo.sh > /tmp/chkseeds.log 2>&1; rc=$?
    grep -q "cannot run\|build failed" /tmp/chkseeds.log && bad="$bad; demo cannot run patched: $(tail -3 /tmp/chkseeds.log)"
    [ $rc = 0 ] && bad="$bad; demo passes patched"
    res=; [ "$nocheck" ] || { VERIF_SEED=1 VERIF_REPO=$wt timeout 900 "$V/run.sh" "$p" > /tmp/chkseeds.run 2>&1; c=$?; res=missed; [ $c = 1 ] && grep -q "^VIOLATION property=$p " /tmp/chkseeds.run && res="caught: $(grep -c ^VIOLATION /tmp/chkseeds.run)"; [ $c -gt 1 ] && res="missed, rc $c"; }
  else bad="$bad; does not apply"; fi
  echo "$id $p ${res:-unchecked} ${bad:+INVALID $bad}"
  git checkout -q -- .; git clean -qfd
  rm -rf "/tmp/chkseeds.demo.$$"
done
