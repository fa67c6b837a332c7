#!/bin/sh
# Replays a violation file (or a seed: replay.sh [-release] PROPERTY SEED) against the simulator built from /repo's working tree; --all prints the whole trace.
dir=$(dirname "$(readlink -f "$0")")
if [ "$1" = replay ]; then shift; fi
build=debug
if [ "$1" = -release ]; then build=release; shift; fi
if [ -f "$1" ] && grep -q "^build release" "$1"; then build=release; fi
bin=$(python3 "$dir/build_sim.py" -$build "${K8PSH_REPO:-/repo}" 2>/dev/null | tail -1) || exit 2
case $1 in
C[0-9]*) exec "$bin" trace --prop "$1" --seed "$2" ;;
*) exec "$bin" replay "$@" ;;
esac
