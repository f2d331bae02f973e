#!/bin/bash
# Rebuilds the simulator from /repo's current working tree into /verif/build (git-ignored).
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
mkdir -p "$here/build"
exec 9>"$here/build/.lock"
flock 9
set -e
cd "$here/simgen"
go build -o "$here/build/simgen" .
"$here/build/simgen" -repo /repo -out "$here/build/gen" -sim "$here/sim" -harness "$here/harness"
cd /repo
go build -overlay "$here/build/gen/overlay.json" -modfile "$here/build/gen/go.mod" -o "$here/build/simrun.new" ./zzverif/main
cp "$here/build/simrun.new" "$here/build/simrun.$$"
mv "$here/build/simrun.$$" "$here/build/simrun"
