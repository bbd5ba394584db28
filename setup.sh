#!/bin/bash
# setup.sh: warms the build cache for the harness, with and without the race detector, and for xgotext.
verif=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
export GOFLAGS="-mod=readonly -buildvcs=false"
tmp=$(mktemp -d /tmp/verif.XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
cd "$verif/harness" || exit 2
go build -o "$tmp/vh" . && go build -race -o "$tmp/vhr" . && cd /repo && go build -o "$tmp/xgotext" ./cli/xgotext
