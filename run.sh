#!/bin/bash
# run.sh ID [-replay FILE | -case CASE]   builds the checker of a property from /repo's working tree and runs it
# (VERIF_TIER=quick|thorough)
export HOME=/root GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export VERIF_ROOT=$(cd "$(dirname "$0")" && pwd)
id=$1
dir=$(mktemp -d /tmp/ogdlmc.XXXXXX) || exit 2
trap 'rm -rf "$dir"' EXIT
export TMPDIR=$dir MC_BUILD=$dir
cd "$VERIF_ROOT/mc" || exit 2
fail() { echo "$1" >&2; exit 2; }
flags=
case $id in
C26|C27|C28|C29) go run ./cmd/overlay net "$dir" || fail "cannot make the overlay"
     flags="-tags=verifnet -overlay=$dir/overlay.json"
     case $id in C28|C29) go build -race $flags -o "$dir/race" ./cmd/mc || fail "cannot build with the race detector" ;; esac ;;
C22) go run ./cmd/overlay sched "$dir" || fail "cannot make the overlay"
     flags="-tags=verifsched -overlay=$dir/overlay.json"
     go build -race -o "$dir/race" ./cmd/c22race || fail "cannot build with the race detector" ;;
C34) for i in gpath json2ogdl xml2ogdl gtemplate; do
	 go build -o "$dir/$i" github.com/rveen/ogdl/cmd/$i || fail "cannot build $i"
     done ;;
C10) go run ./cmd/overlay os "$dir" || fail "cannot make the overlay"
     flags="-tags=verifos -overlay=$dir/overlay.json" ;;
esac
go build $flags -o "$dir/checker" ./cmd/mc || fail "cannot build the checker of $id"
case $2 in
-replay) "$dir/checker" -replay "$3" ;;
-case) "$dir/checker" -case "$id" "$3" ;;
*) "$dir/checker" "$id" ;;
esac
