#!/bin/bash
# Builds the crate of /repo's tree in a scratch directory with demo.rs as its main program and runs it there.
here=$(cd "$(dirname "$0")" && pwd)
repo=/repo/rust
export PATH="$HOME/.cargo/bin:/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_PROFILE_DEV_DEBUG=line-tables-only
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
S=$(mktemp -d /tmp/qsdemo.XXXXXX) || exit 3
trap 'rm -rf "$S"' EXIT
mkdir -p "$S/c" "$S/run" "$S/t/debug"
cp -r "$repo/src" "$S/c/src"
sed 's/^name = "rust"/name = "qsdemo"/' "$repo/Cargo.toml" > "$S/c/Cargo.toml"
sed 's/^name = "rust"$/name = "qsdemo"/' "$repo/Cargo.lock" > "$S/c/Cargo.lock"
for p in deps build .fingerprint; do
  [ -d "$repo/target/debug/$p" ] && cp -a "$repo/target/debug/$p" "$S/t/debug/$p"
done
sed -i 's/^\(pub \)\?fn main()/#[allow(dead_code)]\nfn original_main()/' "$S/c/src/main.rs"
cat "$here/demo.rs" >> "$S/c/src/main.rs"
cd "$S/c" || exit 3
timeout 280 cargo build --offline --target-dir "$S/t" >"$S/log" 2>&1 || { tail -30 "$S/log"; echo "demo does not build"; exit 4; }
cd "$S/run" || exit 3
timeout 100 "$S/t/debug/qsdemo"
