#!/bin/bash
# run.sh ID            run the check of property ID (VERIF_TIER quick|thorough, VERIF_SEED)
# run.sh --build       build the harness only
# run.sh --replay FILE run a recorded violation again
set -u
here="$(cd "$(dirname "$0")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
export CARGO_NET_OFFLINE=true MON_ROOT="$here"
export CARGO_TARGET_DIR="$here/target"
unset RUSTFLAGS
build() {
  if ! out=$(cd "$here/harness" && cargo build --offline 2>&1); then
    echo "$out" | tail -40 >&2
    echo "run.sh: the harness does not build against /repo" >&2
    exit 2
  fi
}
# The same harness with the address sanitizer (needs the nightly toolchain).
asan() {
  if out=$(cd "$here/harness" && RUSTUP_TOOLCHAIN=nightly RUSTFLAGS="-Zsanitizer=address --cap-lints warn" \
      CARGO_TARGET_DIR="$here/target/asan" timeout 600 cargo build --offline --target x86_64-unknown-linux-gnu 2>&1); then
    export MON_ASAN_EXE="$here/target/asan/x86_64-unknown-linux-gnu/debug/mon"
  else
    echo "$out" | tail -5 >&2
    echo "run.sh: no build with the address sanitizer" >&2
  fi
}
case "${1:-}" in
  --build) build; asan; exit 0 ;;
  --replay) build; grep -q '^build asan' "$2" && asan; exec "$here/target/debug/mon" replay "$2" ;;
  C01|C23) asan ;;
esac
build
exec "$here/target/debug/mon" run "$@"
