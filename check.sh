#!/bin/bash
# Usage: check.sh <property id> [quick|thorough]
# Rebuilds the model checker against /repo's working tree and explores.
here="$(cd "$(dirname "$0")" && pwd)"
id="$1"; tier="${2:-${VERIF_TIER:-quick}}"
export MC_VERIF="$here"
bin="$("$here/build.sh")" || { echo "build failed" >&2; exit 2; }
exec "$bin" run "$id" "$tier"
