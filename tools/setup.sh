#!/bin/bash
# Build every check program once (each check builds again what changed).
ROOT="$(cd "$(dirname "$0")/.." && pwd)"
cd "$ROOT" || exit 2
mkdir -p evidence replays
bash harness/build.sh --bins && bash harness/build-python.sh || exit 1
# used where it is available
bash harness/build-memory.sh --bin codec || echo 'no build with a memory error detector'
exit 0
