#!/bin/bash
# ./run.sh C07            decide property C07 on /repo's working tree (VERIF_TIER, VERIF_SEED)
# ./run.sh replay FILE    run the recorded violating case again
# ./run.sh build          only check that the harness builds
# Exit 0: held on everything observed; 1: VIOLATION; 2: could not build; 3: inconclusive.
export HOME=${HOME:-/root}
[ -d /opt/veriftools/go1.27.3/bin ] && export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOFLAGS=-mod=readonly GOPROXY=off GOWORK=off GOSUMDB=off CGO_ENABLED=1
export GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
root=$(cd "$(dirname "$0")" && pwd) || exit 2
work=$(mktemp -d /tmp/gostlmon.XXXXXX) || exit 2
trap 'rm -rf "$work"' EXIT
cd "$root/harness" || exit 2
go build -buildvcs=false -o "$work/mon" . || { echo "the harness does not build against /repo"; exit 2; }
export MON_ROOT=$root MON_TMP=$work
case "$1" in
build) exit 0 ;;
replay)
    id=$(sed -n 's/^ *"property": "\(.*\)",*$/\1/p' "$2" | head -1)
    set -- "$1" "$(cd "$OLDPWD" 2> /dev/null; realpath "$2")" ;;
*) id=$1 ;;
esac
for need in $("$work/mon" needs "$id"); do
    case $need in
    race)
        go build -race -buildvcs=false -o "$work/mon.race" . || { echo "the harness does not build with -race"; exit 2; }
        export MON_RACE_BIN=$work/mon.race ;;
    cover)
        go build -cover -covermode=atomic -coverpkg=gostlmon,github.com/liyue201/gostl/... -buildvcs=false -o "$work/mon.cover" . || { echo "the harness does not build with -cover"; exit 2; }
        export MON_COVER_BIN=$work/mon.cover ;;
    esac
done
mkdir -p "$root/evidence"
if [ "$1" = replay ]; then "$work/mon" replay "$2"; else "$work/mon" run "$id"; fi
