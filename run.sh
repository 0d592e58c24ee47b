#!/bin/bash
# run.sh <property> [quick|thorough] [extra chk flags]: rebuilds the code under test from /repo's
# working tree together with the checker, then decides one property.
# run.sh --replay FILE judges one saved case again; run.sh --setup only builds.
HERE=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/vp/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export HOME=/root GOENV=off GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOWORK=off
export GOFLAGS="-mod=readonly -buildvcs=false"
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
B=$(mktemp -d /tmp/verif-bin.XXXXXX) || exit 3
trap 'rm -rf "$B"' EXIT
cd "$HERE/harness" || exit 3
build() { go build -o "$B/chk" ./cmd/chk && go build -o "$B/drv" ./cmd/drv && go build -o "$B/cli" github.com/gabivlj/candice/cmd/build && go build -o "$B/compiler" github.com/gabivlj/candice/cmd/compiler && (cd /repo && go build -o "$B/lsp" ./cmd/autocomplete); }
build > "$B/log" 2>&1 || { cat "$B/log"; echo "run.sh: build failed"; exit 3; }
export VERIF_DRV=$B/drv VERIF_CLI=$B/cli VERIF_ROOT=$HERE VERIF_REPO=/repo
case "$1" in
--setup) echo built; exit 0 ;;
--replay) "$B/chk" -replay "$2"; exit $? ;;
esac
P=$1; T=${2:-quick}; shift; shift
"$B/chk" -prop "$P" -tier "$T" "$@"
