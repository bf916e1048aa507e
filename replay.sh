#!/bin/bash
# replay.sh FILE: re-executes a replay file against the working tree of /repo
set -u
. "$(dirname "$0")/env.sh"
SIM_TMP="$(mktemp -d "${TMPDIR:-/tmp}/microsim-XXXXXX")" || exit 2
export SIM_TMP
F="$(realpath "$1")"
cd "$SIM_VERIF/sim" && go build -o "$SIM_TMP/" ./cmd/drive ./cmd/instr || { rm -rf "$SIM_TMP"; exit 2; }
exec "$SIM_TMP/drive" replay "$F"
