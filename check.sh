#!/bin/bash
# check.sh ID [quick|thorough]: decides one property on the working tree of /repo
set -u
. "$(dirname "$0")/env.sh"
[ $# -ge 2 ] && export VERIF_TIER="$2"
export VERIF_SEED="${VERIF_SEED:-1}"
SIM_TMP="$(mktemp -d "${TMPDIR:-/tmp}/microsim-XXXXXX")" || exit 2
export SIM_TMP
cd "$SIM_VERIF/sim" && go build -o "$SIM_TMP/" ./cmd/drive ./cmd/instr || { rm -rf "$SIM_TMP"; exit 2; }
exec "$SIM_TMP/drive" check "$1"
