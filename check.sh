#!/bin/bash
# usage: check.sh <property> [quick|thorough]
# Rebuilds the harness against /repo's working tree and decides one property.
cd "$(dirname "$0")" || exit 2
ID=$1; TIER=${2:-${VERIF_TIER:-quick}}
BIN=$(bash harness/build.sh) || { echo "BUILD FAILED"; exit 2; }
exec "$BIN" check "$ID" "$TIER"
