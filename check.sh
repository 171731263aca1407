#!/bin/bash
# check.sh <property> [quick|thorough]   decide one property on /repo's current working tree
# check.sh build                         only build
# check.sh replay <file> | selfcheck [--runs n]
here="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}"
export PATH="$HOME/.cargo/bin:/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH"
export RUSTUP_TOOLCHAIN=1.82.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
export CARGO_TARGET_DIR="$here/target" VERIF_DIR="$here" RUSTC_WRAPPER=
unset RUSTFLAGS RUSTDOCFLAGS
export VERIF_SEED="${VERIF_SEED:-1}"
log="$(mktemp)"
trap 'rm -f "$log"' EXIT
# cargo decides by file times; make sure that a changed source is never taken for an old one
sum="$( (cd /repo && find src Cargo.toml build.rs -type f -print0 2>/dev/null | sort -z | xargs -0 sha256sum; cd "$here/sim" && find . -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum)"
if [ "$sum" != "$(cat "$CARGO_TARGET_DIR/.sources" 2>/dev/null)" ] && [ -d "$CARGO_TARGET_DIR/release" ]; then
    cargo clean --release --offline --manifest-path "$here/sim/Cargo.toml" -p rsasl -p rsasl-sim >/dev/null 2>&1
fi
if ! cargo build --release --offline --locked --manifest-path "$here/sim/Cargo.toml" >"$log" 2>&1; then
    cat "$log"
    echo "harness: build failed"
    exit 3
fi
echo "$sum" >"$CARGO_TARGET_DIR/.sources"
bin="$here/target/release/rsasl-sim"
case "$1" in
    build) exit 0 ;;
    replay|selfcheck|list) "$bin" "$@" ;;
    *) "$bin" check "$1" --tier "${2:-${VERIF_TIER:-quick}}" ;;
esac
