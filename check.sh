#!/bin/bash
# usage: check.sh PROPERTY quick|thorough
# exit 0: held on everything explored; 1: VIOLATION line printed; 2: the machinery could not decide.
here=$(cd "$(dirname "$0")" && pwd)
prop=$1
tier=${2:-quick}
seed=${VERIF_SEED:-1}
"$here/build.sh" > "$here/build.log.$$" 2>&1 || { cat "$here/build.log.$$"; rm -f "$here/build.log.$$"; echo "ERROR: the simulator does not build on this tree"; exit 2; }
rm -f "$here/build.log.$$"
bin="$here/build/run.$$"
cp "$here/build/simrun" "$bin"
trap 'rm -f "$bin"' EXIT
"$bin" check -prop "$prop" -tier "$tier" -seed "$seed" -evidence "$here/evidence/$prop.json" \
	-known "$here/known-findings.txt" -replays "$here/replays"
