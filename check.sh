#!/bin/bash
# check.sh ID: decides one property on the current working tree of /repo.
# Exit 0: held on everything explored. 1: VIOLATION printed. Anything else: the check itself failed.
here=$(cd "$(dirname "$0")" && pwd)
bin=$("$here/build.sh" "$1") || exit 3
mkdir -p "$here/evidence" "$here/replays"
cd "$here" || exit 3
JPSIM_ROOT="$here" exec "$bin" check "$1"
