#!/bin/bash
# run.sh ID - rebuild the harness from /repo's working tree and run one check.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GOSUMDB=off TZ=UTC CGO_ENABLED=${CGO_ENABLED:-1}
export HOME=${HOME:-/root}
id=$1
if [ "$id" = setup ]; then
  # warm the build cache, so that each check only rebuilds what changed
  (cd /repo && go build -o /dev/null ./cmd/grate2tsv && go build -race -o /dev/null ./cmd/grate2tsv)
  (cd harness && go build -o /dev/null ./cmd/vgrate && go build -race -o /dev/null ./cmd/vgrate)
  exit $?
fi
b=$(mktemp -d /tmp/vgrate-build.XXXXXX) || exit 2
trap 'rm -rf "$b"' EXIT
flags=()
case $id in C19) flags=(-race);; esac
(cd harness && go build "${flags[@]}" -o "$b/vgrate" ./cmd/vgrate) || { echo "error: build failed"; exit 2; }
export VGRATE_BUILD="$b"
"$b/vgrate" check "$id"
rc=$?
exit $rc
