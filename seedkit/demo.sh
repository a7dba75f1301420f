#!/bin/bash
# Runs demo.rs (beside this file) as an integration test of one crate, against a scratch copy of ./rust.
here=$(cd "$(dirname "$0")" && pwd)
crate=$(cat "$here/crate")          # directory of the crate below rust/
src=$(pwd)/rust
tmp=$(mktemp -d /tmp/xi-demo.XXXXXX)
trap 'rm -rf "$tmp"' EXIT
export CARGO_HOME=${CARGO_HOME:-/root/.cargo} RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR=$tmp/target CARGO_PROFILE_DEV_DEBUG=0 CARGO_INCREMENTAL=0
unset RUSTFLAGS RUSTC_WRAPPER
mkdir "$tmp/ws"
(cd "$src" && tar cf - --exclude=target --exclude=syntect-plugin .) | (cd "$tmp/ws" && tar xf -)
python3 - "$tmp/ws/Cargo.toml" <<'P'
import re, sys
p = sys.argv[1]
s = open(p, encoding="utf-8").read()
s = re.sub(r'(?m)^\s*"syntect-plugin",?[ \t]*\n', "", s)
h, m, t = s.partition("[patch.crates-io]")
t = re.sub(r"(?m)^onig(_sys)?\s*=\s*\{\s*git\b.*\n?", "", t)
open(p, "w", encoding="utf-8").write(h + m + t)
P
mkdir -p "$tmp/ws/$crate/tests" "$tmp/work"
cp "$here/demo.rs" "$tmp/ws/$crate/tests/seed_demo.rs"
cd "$tmp/ws/$crate" || exit 2
export XI_DEMO_DIR=$tmp/work
cargo test --offline --test seed_demo --no-run >"$tmp/build.log" 2>&1 || { tail -40 "$tmp/build.log"; exit 3; }
timeout -k 5 100 cargo test --offline --test seed_demo -- --test-threads 1
