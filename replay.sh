#!/bin/bash
# replay.sh FILE: re-run a recorded violation exactly, with its trace.
here="$(cd "$(dirname "$0")" && pwd)"
export SIM_ROOT="$here"
prog=simcheck
grep -q '"property": *"C19"' "$1" && prog=simenums
bash "$here/sim/build.sh" $prog || { echo "build failed"; exit 3; }
exec "${SIM_TARGET:-$here/sim/target}/debug/$prog" replay "$@"
