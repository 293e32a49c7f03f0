#!/bin/bash
# Builds everything once, so that the checks only have to rebuild what changed.
set -u
ROOT="$(cd "$(dirname "$0")/.." && pwd)"
. "$ROOT/tools/build.sh"
build_all release checked dev nofeature || exit 2
build_miri || echo "the interpreter is not available" >&2
exit 0
