#!/bin/bash
# Builds the simulation once, which also warms the Go build cache.
HERE=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d /tmp/verif-dst.XXXXXX) || exit 3
trap 'rm -rf "$W"' EXIT
bash "$HERE/build.sh" "$W"
