#!/bin/bash
# usage: replay.sh FILE   re-executes a recorded violation; exit 1 if it reproduces exactly.
here=$(cd "$(dirname "$0")" && pwd)
"$here/build.sh" >/dev/null || exit 2
exec "$here/build/simrun" replay "$1"
