# Sourced. Builds the harness in one or several configurations, each in its own
# target directory, from the current contents of /repo.

TARGET="$ROOT/target"
mkdir -p "$TARGET" "$ROOT/evidence" "$ROOT/work"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS RUSTC_WRAPPER CARGO_TARGET_DIR

# The state of everything that the build depends on, by content: time stamps do
# not tell after files were restored or copied.
state_of() {
  {
    (cd /repo && find . \( -path ./target -o -path ./.git \) -prune -o -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum)
    (cd "$ROOT/harness" && find . -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum)
    (cd "$ROOT/miri" && find . -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum)
    rustc -vV
  } | sha256sum | cut -d' ' -f1
}

# profile arguments of a configuration
args_of() {
  case "$1" in
    release) echo "--release" ;;
    checked) echo "--profile checked" ;;
    dev) echo "" ;;
    nofeature) echo "--release --no-default-features" ;;
  esac
}

bin_of() {
  case "$1" in
    release | nofeature) echo "$TARGET/$1/release/verif" ;;
    checked) echo "$TARGET/$1/checked/verif" ;;
    dev) echo "$TARGET/$1/debug/verif" ;;
  esac
}

build_one() {
  local c="$1" state="$2" dir="$TARGET/$1" wrapper=
  mkdir -p "$dir"
  (
    flock 9 || exit 2
    if [ -f "$dir/state" ] && [ "$(cat "$dir/state")" = "$state" ] && [ -x "$(bin_of "$c")" ]; then
      exit 0
    fi
    rm -f "$dir/state"
    cd "$ROOT/harness" || exit 2
    export CARGO_TARGET_DIR="$dir"
    case "$c" in release | checked) wrapper="$ROOT/tools/rustc_cov.sh" ;; esac
    cargo clean --offline $(args_of "$c" | sed 's/--no-default-features//') -p eth_trie_utils -p sut -p verif >/dev/null 2>&1
    if [ -n "$wrapper" ] && RUSTC_WRAPPER="$wrapper" cargo build --offline -q $(args_of "$c") >"$dir/log" 2>&1; then
      :
    elif cargo build --offline -q $(args_of "$c") >"$dir/log" 2>&1; then
      :
    else
      cat "$dir/log" >&2
      echo "build failed ($c)" >&2
      exit 2
    fi
    echo "$state" >"$dir/state"
  ) 9>"$dir/lock"
}

build_all() {
  local state pids=() c rc=0
  state="$(state_of)"
  for c in "$@"; do
    build_one "$c" "$state" &
    pids+=($!)
  done
  for p in "${pids[@]}"; do
    wait "$p" || rc=2
  done
  return $rc
}

# The program for the interpreter; fails quietly where that is not available.
build_miri() {
  local state dir="$TARGET/miri"
  state="$(state_of)"
  mkdir -p "$dir"
  (
    flock 9 || exit 1
    if [ -f "$dir/state" ] && [ "$(cat "$dir/state")" = "$state" ]; then
      exit 0
    fi
    rm -f "$dir/state"
    cd "$ROOT/miri" || exit 1
    export CARGO_TARGET_DIR="$dir"
    cargo clean --offline -p eth_trie_utils -p threads >/dev/null 2>&1
    CARGO_TARGET_DIR="$dir/miri" cargo +nightly clean --offline --target x86_64-unknown-linux-gnu -p eth_trie_utils -p threads >/dev/null 2>&1
    cargo build --offline -q >"$dir/log" 2>&1 || exit 1
    # Builds, and stops at the wrong number of arguments.
    cargo +nightly miri run --offline -q -- 0 x >"$dir/log" 2>&1
    grep -q "left == right" "$dir/log" || exit 1
    echo "$state" >"$dir/state"
  ) 9>"$dir/lock"
}
