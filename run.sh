#!/bin/bash
# run.sh ID: builds the harness against /repo's working tree and runs a check.
# Exit 0: held; 1: violated (VIOLATION line); 2: no answer.
set -u
id=${1:?usage: run.sh ID [flags]}; shift
root=$(cd "$(dirname "$0")" && pwd)
# shellcheck disable=SC1091
. /opt/vp/env.sh
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS="-mod=mod -buildvcs=false" GOSUMDB=off
export VERIF_ROOT=$root
scratch=$(mktemp -d /tmp/verif-run.XXXXXX) || exit 2
trap 'cd / && rm -rf -- "${scratch:?}"' EXIT
export TMPDIR=$scratch
race=()
case $id in C18|C19|C30) race=(-race);; esac
cp -r "$root/harness" "$scratch/harness" || exit 2
cd "$scratch/harness" || exit 2
if ! go build "${race[@]}" -o "$scratch/vh" ./cmd/vh; then
	echo "inconclusive: the harness does not build"
	exit 2
fi
cd "$scratch" || exit 2
"$scratch/vh" check "$id" "$@"
