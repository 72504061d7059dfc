#!/bin/bash
# check.sh PROPERTY [quick|thorough]: builds the simulation from /repo's working tree and searches.
# exit 0: held everywhere explored; 1: violation; anything else: error of the check.
HERE=$(cd "$(dirname "$0")" && pwd)
PROP=$1
TIER=${2:-${VERIF_TIER:-quick}}
SEED=${VERIF_SEED:-1}
W=$(mktemp -d /tmp/verif-dst.XXXXXX) || exit 3
trap 'rm -rf "$W"' EXIT
if ! bash "$HERE/build.sh" "$W" >"$W/build.log" 2>&1; then
  tail -40 "$W/build.log" >&2
  echo "check error: the simulation of /repo cannot be built" >&2
  exit 3
fi
case $TIER in
  quick) set -- -n "${VERIF_N:-40000}" -secs "${VERIF_SECS:-60}" ;;
  thorough) set -- -secs "${VERIF_SECS:-600}" ;;
  *) echo "unknown tier $TIER" >&2; exit 3 ;;
esac
"$W/sim" check -prop "$PROP" -tier "$TIER" -seed "$SEED" -verif "$HERE" "$@"
