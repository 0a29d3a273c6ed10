#!/bin/bash
# Builds the daemon from the current directory's tree against a simulated event
# loop and bus (sim.tgz), runs scenario.json and lets check.py judge the output.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 9
trap 'rm -rf "$tmp"' EXIT
tar -xzf "$here/sim.tgz" -C "$tmp" || exit 9
v=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1])).get("variant",0))' "$here/scenario.json")
VERIF_REPO=$PWD VERIF_BUILD=$tmp/build python3 "$tmp/bin/build.py" --variants "$v" --copies 6 || exit 9
MALLOC_PERTURB_=165 timeout 60 "$tmp/build/sim" "$here/scenario.json" "$tmp/scratch" > "$tmp/out" 2>/dev/null </dev/null
python3 "$here/check.py" "$tmp/out"
