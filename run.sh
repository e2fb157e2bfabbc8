#!/bin/bash
# run.sh check <property> | replay <file> | build
# Builds the simulator against /repo's working tree and runs it.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd) || exit 2
export PATH="$PATH:/root/.cargo/bin"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUST_BACKTRACE=0
export CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET CARGO_BUILD_RUSTFLAGS
export CARGO_TARGET_DIR="$here/target"
export VERIF_ROOT="$here"

build() {
    mkdir -p "$here/target" || return 1
    # The build tool goes by modification times; go by contents, whatever the times say.
    local now
    now=$(cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f \( -name '*.rs' -o -name '*.toml' \) -print0 \
        | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum) || return 1
    if [ "$now" != "$(cat "$here/target/repo.sum" 2>/dev/null)" ]; then
        rm -f "$here/target/repo.sum"
        (cd "$here/sim" && cargo clean --release --offline -p ahrs-sim -p open_ahrs -p linalg -p quaternion -p utils) >/dev/null 2>&1
    fi
    (cd "$here/sim" && cargo build --release --offline) >"$here/target/build.log" 2>&1 || return 1
    printf '%s\n' "$now" >"$here/target/repo.sum"
}

if ! build; then
    echo "check error: the simulator does not build against /repo" >&2
    tail -n 60 "$here/target/build.log" >&2
    exit 2
fi
case "$1" in
    build) exit 0 ;;
    check | replay) exec "$here/target/release/ahrs-sim" "$1" "$2" ;;
    *) exec "$here/target/release/ahrs-sim" "$@" ;;
esac
