#!/bin/bash
# check.sh PROPERTY: build the simulator against /repo's working tree, then search.
here="$(cd "$(dirname "$0")" && pwd)"
export SIM_ROOT="$here"
mkdir -p "$here/evidence" "$here/replays"
# scenarios that are slow to compile live in a program of their own
case "$1" in C19) prog=simenums;; *) prog=simcheck;; esac
bash "$here/sim/build.sh" $prog || { echo "build failed"; exit 3; }
exec "${SIM_TARGET:-$here/sim/target}/debug/$prog" run "$@"
