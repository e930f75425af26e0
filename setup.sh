#!/bin/bash
# Builds the framework once, to see that it builds and to warm the build cache.
set -eu
root=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
export GOSUMDB=off
scratch=$(mktemp -d /tmp/verif-setup.XXXXXX)
trap 'cd / && rm -rf -- "${scratch:?}"' EXIT
cp -r "$root/harness" "$scratch/harness"
cd "$scratch/harness"
go build -o "$scratch/vh" ./cmd/vh
"$scratch/vh" list
