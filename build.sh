#!/bin/bash
# Builds the simulator with the library from /repo's current working tree. Sourced by the other scripts.
export RUSTUP_TOOLCHAIN=${RUSTUP_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu}
export CARGO_NET_OFFLINE=true
SIM="${here:-$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)}/sim"
STD_BIN="$SIM/target/release/ntfs-sim"
NOSTD_BIN="$SIM/target-nostd/release/ntfs-sim"
unset CARGO_TARGET_DIR RUSTFLAGS CARGO_ENCODED_RUSTFLAGS

build_one() { # target dir, further arguments
    local dir=$1
    shift
    # Cargo trusts modification times; the library and the simulator are always compiled anew.
    if [ -d "$dir/release/.fingerprint" ]; then
        find "$dir/release/.fingerprint" -mindepth 1 -maxdepth 1 -name 'ntfs-*' -exec rm -r {} +
    fi
    local log
    log=$(mktemp)
    if ! (cd "$SIM" && cargo build --release --offline --target-dir "$dir" "$@") >"$log" 2>&1; then
        grep -E -A12 '^error' "$log" | head -60 >&2
        tail -n 5 "$log" >&2
        echo "the simulator does not build against this tree" >&2
        unlink "$log"
        return 1
    fi
    unlink "$log"
}
build_nostd() { build_one "$SIM/target-nostd" --no-default-features; }
build_one "$SIM/target" || { [ "${BASH_SOURCE[0]}" = "$0" ] && exit 2 || return 2; }
