#!/bin/bash
# replay.sh FILE: rebuilds the plain harness from /repo and re-executes a recorded counterexample
here=$(cd "$(dirname "$0")" && pwd); f=$1
prop=$(awk '$1=="property"{print $2}' "$f"); bin=$(/opt/veriftools/pyvenv/bin/python3 -B $here/engine/sxbuild.py plain $here/harness/$prop.cpp) || exit 3
tmp=$(mktemp); awk '$1=="input"{print $2,$3}' "$f" > $tmp
read -r _ c s < <(grep '^case ' "$f")
SX_VERBOSE=1 SX_MODE=$(awk '$1=="mode"{print $2}' "$f") SX_TIER=$(awk '$1=="tier"{print $2}' "$f") SX_INPUTS=$tmp timeout 30 $bin $c $s; r=$?; rm -f $tmp; exit $r
