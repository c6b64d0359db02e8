#!/bin/bash
# replay.sh FILE: executes one scenario against /repo's current tree.
. "$(dirname "$0")/env.sh"
build_sim >&2 && build_mofmt >&2 || exit 3
exec "$MOSIM" replay "$@" --bin "$MOFMT" --plain "$PLAIN" --shim "$SHIM"
