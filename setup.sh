#!/bin/bash
# Warms the build cache: builds the driver, the instrumenter and both flavours of the worker once.
set -u
. "$(dirname "$0")/env.sh"
SIM_TMP="$(mktemp -d "${TMPDIR:-/tmp}/microsim-XXXXXX")" || exit 2
export SIM_TMP
cd "$SIM_VERIF/sim" && go build -o "$SIM_TMP/" ./cmd/drive ./cmd/instr || { rm -rf "$SIM_TMP"; exit 2; }
exec "$SIM_TMP/drive" check warm
