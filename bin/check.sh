#!/bin/bash
# check.sh ID [quick|thorough] [more options of `mosim check`]
. "$(dirname "$0")/env.sh"
ID="$1"; TIER="${VERIF_TIER:-quick}"; shift
case "$1" in quick|thorough) TIER="$1"; shift;; esac
build_sim >&2 || { echo "check.sh: cannot build the simulator" >&2; exit 3; }
build_mofmt >&2 || { echo "check.sh: cannot build mofmt" >&2; exit 3; }
cd "$VERIF" && mkdir -p evidence replays
exec "$MOSIM" check --property "$ID" --tier "$TIER" --seed "${VERIF_SEED:-1}" --bin "$MOFMT" --plain "$PLAIN" --shim "$SHIM" \
  --evidence "evidence/$ID.json" --replays replays --known known-findings.txt "$@"
