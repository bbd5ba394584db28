#!/bin/bash
# check.sh ID [quick|thorough] [--replay FILE]: builds the harness against /repo's working tree and runs one check.
id=${1:?usage: check.sh ID [quick|thorough] [--replay FILE]}; shift
tier=${VERIF_TIER:-quick}
case "${1:-}" in quick|thorough) tier=$1; shift;; esac
extra=()
if [ "${1:-}" = --replay ]; then extra=(-replay "$(realpath "$2")"); fi
verif=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
export GOFLAGS="-mod=readonly -buildvcs=false"
tmp=$(mktemp -d /tmp/verif.XXXXXX) || exit 2
trap 'rm -rf "$tmp"' EXIT
cd "$verif/harness" || exit 2
race=
grep -qE "^$id\$" race.list && race=-race
go build $race -o "$tmp/vh" . || { echo "BUILD-FAILED property=$id"; exit 2; }
case $id in
C3[123])
	(cd /repo && go build -o "$tmp/xgotext" ./cli/xgotext) || { echo "BUILD-FAILED property=$id"; exit 2; }
	export XGOTEXT="$tmp/xgotext";;
esac
"$tmp/vh" -check "$id" -tier "$tier" -seed "${VERIF_SEED:-1}" -dir "$tmp/run" -verif "$verif" "${extra[@]}"
