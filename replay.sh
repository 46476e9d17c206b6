#!/bin/bash
# replay.sh FILE: executes a replay file against the current working tree of /repo.
here=$(cd "$(dirname "$0")" && pwd)
file=$(realpath "$1") || exit 3
bin=$("$here/build.sh" "$(grep -o '"C[0-9][0-9]"' "$file" | head -1 | tr -d '"')") || exit 3
cd "$here" && JPSIM_ROOT="$here" exec "$bin" replay "$file"
