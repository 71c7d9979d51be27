#!/bin/bash
# check.sh ID [quick|thorough]: builds the checker against /repo's current
# working tree and runs the check of one property.
ID=${1:?usage: check.sh ID [tier]}
VERIF_DIR=$(cd "$(dirname "$0")" && pwd)
export VERIF_DIR
export VERIF_TIER=${2:-${VERIF_TIER:-quick}}
export VERIF_SEED=${VERIF_SEED:-1}
. "$VERIF_DIR/env.sh"
W=$(mktemp -d /tmp/zzverif.XXXXXX) || exit 2
trap 'rm -rf -- "$W"' EXIT
export TMPDIR="$W"
bash "$VERIF_DIR/build.sh" "$W" "$ID" || exit 2
"$W/zzverif" check "$ID"
