#!/bin/bash
# usage: bash check.sh <property id> quick|thorough [--replay FILE]
# Rebuilds the harness against /repo's working tree and explores one property.
here=$(cd "$(dirname "$0")" && pwd)
. "$here/build.sh"
kind=
[ "$1" = C25 ] && kind=threads
if ! build $kind; then
  echo "the harness does not build against /repo; no verdict" >&2
  exit 2
fi
MC_ROOT="$here" exec "$mc" "$@"
