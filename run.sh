#!/bin/bash
# run.sh ID: builds the program and the harness from /repo's working tree and
# decides property ID. Exit 0: held; 1 and a VIOLATION line: broken; else error.
export HOME=/root PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" GOPATH=/root/go GOCACHE=${GOCACHE:-/root/.cache/go-build}
unset BTRFSCUE_METADATA
id=${1:?usage: run.sh ID}
root=$(cd "$(dirname "$0")" && pwd)
repo=${VERIF_REPO:-/repo}
base=/dev/shm
avail=$(df -Pk $base 2>/dev/null | awk 'NR==2{print $4}')
[ -w $base ] && [ "${avail:-0}" -gt 2000000 ] || base=/tmp
scratch=$(mktemp -d $base/vfs.XXXXXX) || exit 2
chmod 755 "$scratch"
trap 'chmod -R u+rwx "$scratch" 2>/dev/null; rm -rf -- "$scratch"' EXIT
trap 'exit 2' INT TERM
race= ; needbin=1 ; binrace=
case $id in
  C07) race=-race needbin= ;;
  C17) binrace=1 ;;
  C05|C06|C08|C09|C22|C23|C24|C25|C26|C27|C28|C31|C32) needbin= ;;
esac
[ "$VERIF_TIER" = thorough ] && binrace=1 needbin=1
mkdir -p "$scratch/bin" "$scratch/work"
build() { # dir out flags pkg
  (cd "$1" && go build $3 -o "$2" "$4") >"$scratch/build.log" 2>&1 || { cat "$scratch/build.log"; echo "$id: error: build failed"; exit 2; }
}
hsrc=$root/harness
if [ "$repo" != /repo ]; then
  mkdir "$scratch/hsrc" && cp "$hsrc"/*.go "$hsrc"/go.mod "$hsrc"/go.sum "$scratch/hsrc/" && sed -i "s#=> /repo#=> $repo#" "$scratch/hsrc/go.mod"
  hsrc=$scratch/hsrc
fi
build "$hsrc" "$scratch/bin/harness" "$race" .
[ -n "$needbin" ] && build "$repo" "$scratch/bin/btrfscue" "" ./cmd/btrfscue
[ -n "$binrace" ] && build "$repo" "$scratch/bin/btrfscue-race" -race ./cmd/btrfscue
chmod -R a+rX "$scratch/bin"
export VERIF_ROOT=$root VERIF_SCRATCH=$scratch/work VERIF_BIN=$scratch/bin/btrfscue VERIF_BIN_RACE= VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=${VERIF_TIER:-quick}
[ -n "$binrace" ] && VERIF_BIN_RACE=$scratch/bin/btrfscue-race
"$scratch/bin/harness" "$id"
