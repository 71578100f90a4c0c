#!/bin/bash
# Run with cwd = the repository, after its build. Exit 0: behaves as it should; non-zero: broken.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
export HOME=/root CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTUP_TOOLCHAIN=stable
export PATH="/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:$PATH"
unset RUSTFLAGS RUSTC_WRAPPER CARGO_TARGET_DIR
work=$(mktemp -d /tmp/rgbdemo.XXXXXX) || exit 9
case "$work" in /tmp/rgbdemo.??????) trap 'rm -rf "$work"' EXIT ;; *) exit 9 ;; esac
mkdir -p "$work/src"
cp "$here/demo.rs" "$work/src/main.rs"
[ -f "$here/harness.rs" ] && cp "$here/harness.rs" "$work/src/harness.rs"
cp "$repo/Cargo.lock" "$work/Cargo.lock"
features=$(cat "$here/features" 2>/dev/null)
cat > "$work/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
rgb-core = { path = "$repo"${features} }
ultrasonic = "0.12.0-rc.2"
bp-core = "0.12.0-rc.2"
commit_verify = "~0.12.0-rc.1"
strict_encoding = "2.9.1"
amplify = "~4.9.0"
[profile.release]
opt-level = 1
TOML
profile=$(cat "$here/profile" 2>/dev/null)
export CARGO_TARGET_DIR="${DEMO_TARGET_DIR:-$work/target}"
cd "$work" || exit 9
if [ -f "$here/forbid" ]; then
    # The demonstration is whether the library can be built with the named lint forbidden for all of its code.
    cargo build --offline --quiet --locked --all-features --manifest-path "$repo/Cargo.toml" > "$work/log" 2>&1 || { tail -40 "$work/log"; exit 8; }
    cargo rustc --offline --quiet --locked --all-features --manifest-path "$repo/Cargo.toml" --lib -- -F "$(cat "$here/forbid")" > "$work/log" 2>&1 && exit 0
    tail -20 "$work/log"
    exit 7
fi
if [ -f "$here/witness" ]; then
    # The demonstration is whether the program is accepted by the compiler; first, that anything can be built at all.
    cp src/main.rs "$work/program.rs"
    echo 'extern crate rgbcore; fn main() {}' > src/main.rs
    cargo build --offline --quiet > "$work/log" 2>&1 || { tail -40 "$work/log"; echo "nothing can be built"; exit 8; }
    cp "$work/program.rs" src/main.rs
    if cargo build --offline --quiet > "$work/log" 2>&1; then got=accepted; else got=rejected; tail -20 "$work/log"; fi
    echo "the program is $got"
    [ "$got" = "$(cat "$here/witness")" ] && exit 0
    exit 7
fi
cargo build --offline --quiet $profile > "$work/log" 2>&1 || { tail -40 "$work/log"; echo "demo does not build"; exit 8; }
if [ -n "$profile" ]; then timeout 120 "$CARGO_TARGET_DIR/release/demo"; else timeout 120 "$CARGO_TARGET_DIR/debug/demo"; fi
