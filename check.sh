#!/bin/bash
# check.sh <property> [quick|thorough] [extra arguments for mc]
V="$(cd "$(dirname "$0")" && pwd)"
ID="$1"; TIER="${2:-${VERIF_TIER:-quick}}"; shift; shift
bash "$V/build.sh" || exit 2
export VERIF_DIR="$V"
exec "$V/target/debug/mc" "$ID" --tier "$TIER" "$@"
