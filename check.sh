#!/bin/bash
# check.sh <property> [--thorough] [--case <label>]: rebuilds the checker
# against /repo's working tree and runs it. Exit 0: held, 1: violation.
export HOME=/root PATH=/usr/local/bin:/root/.cargo/bin:$PATH
export CARGO_HOME=/root/.cargo RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
here=$(cd "$(dirname "$0")" && pwd) || exit 2
export VERIF_ROOT="$here" CARGO_TARGET_DIR="$here/target"
if ! cargo build --release --offline --locked --manifest-path "$here/mc/Cargo.toml" > "$here/target-build.log" 2>&1; then
  cat "$here/target-build.log" >&2
  echo "check.sh: the checker does not build" >&2
  exit 2
fi
if [ "$1" = build ] || [ "$1" = C22 ]; then
  # the command line tools, as /repo builds them
  if ! cargo build --release --offline --bins --manifest-path "$here/../repo/Cargo.toml" --target-dir "$here/target/tools" > "$here/target-build.log" 2>&1; then
    cat "$here/target-build.log" >&2
    echo "check.sh: the tools do not build" >&2
    exit 2
  fi
fi
[ "$1" = build ] && exit 0
ulimit -v 20000000 # a runaway allocation ends the worker, not the machine
exec "$here/target/release/mc" "$@"
