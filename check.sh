#!/bin/bash
# check.sh <property>: builds the harness against the current state of /repo and
# runs the check of one property. Exit 0: held, 1: violated, else: no verdict.
set -u
ID="$1"
ROOT="$(cd "$(dirname "$0")" && pwd)"
cd "$ROOT" || exit 2
. "$ROOT/tools/build.sh"

extra=()
case "$ID" in
  C21)
    build_all release checked dev nofeature || exit 2
    extra+=(--cmd-dev "$(bin_of dev)" --cmd-nofeature "$(bin_of nofeature)")
    ;;
  C10)
    build_miri &
    miri=$!
    build_all release checked || exit 2
    if wait $miri; then
      extra+=(--cmd-miri "$ROOT/miri" --cmd-threads "$TARGET/miri/debug/threads")
    fi
    ;;
  *) build_all release checked || exit 2 ;;
esac
ulimit -v 12000000 2>/dev/null
ulimit -c 0
exec "$(bin_of release)" supervise "$ID" --root "$ROOT" --src /repo/src \
  --checked "$(bin_of checked)" --release "$(bin_of release)" "${extra[@]}"
