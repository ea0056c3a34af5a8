#!/bin/bash
# check.sh ID: analyses /repo's current source for property ID.
# Exit 0: holds; exit 1 with a VIOLATION line: broken.
here="$(cd "$(dirname "$0")/.." && pwd)"
id="$1"
bin="$here/bin/ustackverif"
fresh=1
if [ ! -x "$bin" ]; then fresh=0; else
  for f in "$here"/analyzer/*.go; do [ "$f" -nt "$bin" ] && fresh=0; done
fi
if [ $fresh = 0 ]; then bash "$here/tools/build.sh" >&2 || exit 3; fi
export GOPROXY=off GOWORK=off GOTOOLCHAIN=local CGO_ENABLED=0
exec "$bin" -repo /repo -verif "$here" -property "$id"
