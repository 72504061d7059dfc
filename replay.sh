#!/bin/bash
# replay.sh FILE [-trace]: plays a replay file against /repo's working tree.
HERE=$(cd "$(dirname "$0")" && pwd)
F=$(realpath "$1"); shift
W=$(mktemp -d /tmp/verif-dst.XXXXXX) || exit 3
trap 'rm -rf "$W"' EXIT
bash "$HERE/build.sh" "$W" >"$W/build.log" 2>&1 || { tail -40 "$W/build.log" >&2; exit 3; }
"$W/sim" replay "$@" "$F"
