#!/bin/bash
# check.sh build            builds the harness against /repo's working tree
# check.sh ID [TIER]        builds, then runs the check of property ID
# Exit 0: held; 1: VIOLATION line printed; 2: no verdict.
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUST_BACKTRACE=0
here=$(cd "$(dirname "$0")" && pwd)
export CARGO_TARGET_DIR=$here/target PBT_ROOT=$here
ulimit -n "$(ulimit -Hn)" 2>/dev/null
mkdir -p "$CARGO_TARGET_DIR" "$here/evidence"
build() {
    # cargo looks at modification times; the content decides here.
    local sum
    sum=$( (cd /repo && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum | cut -d' ' -f1)
    if [ -d "$CARGO_TARGET_DIR/debug" ] && [ "$(cat "$CARGO_TARGET_DIR/repo.sum" 2>/dev/null)" != "$sum" ]; then
        (cd "$here/harness" && cargo clean --offline -q -p htrpc 2>/dev/null)
    fi
    if ! (cd "$here/harness" && cargo build --offline -q 2>"$CARGO_TARGET_DIR/build.log"); then
        tail -n 40 "$CARGO_TARGET_DIR/build.log" >&2
        echo "the harness does not build" >&2
        return 2
    fi
    echo "$sum" >"$CARGO_TARGET_DIR/repo.sum"
}
case "$1" in
    build) build || exit 2 ;;
    C*)
        build || exit 2
        exec "$CARGO_TARGET_DIR/debug/pbt" run "$1" ${2:+--tier "$2"} ;;
    *) echo "usage: check.sh build | check.sh ID [quick|thorough]" >&2; exit 2 ;;
esac
