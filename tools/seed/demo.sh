#!/bin/bash
# Run with cwd /repo. Builds main.rs against the current tree (in a scratch directory) and runs it: exit 0 iff it is content.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$t"' EXIT
unset CARGO_TARGET_DIR RUSTFLAGS RUSTC_WRAPPER
export HOME=/root PATH=/usr/local/bin:/usr/bin:/bin RUSTUP_TOOLCHAIN=1.72.1 RUSTC_BOOTSTRAP=1 CARGO_NET_OFFLINE=true
python3 - "$repo" "$t/sffi" <<'P' || exit 2
import os, re, shutil, sys
repo, dst = sys.argv[1:]
os.makedirs(dst + "/guide")
for p in ("src", "guide/assets"):
    shutil.copytree(f"{repo}/{p}", f"{dst}/{p}", symlinks=True)
for p in ("build.rs", "README.md", "LICENSE"):
    shutil.copy(f"{repo}/{p}", f"{dst}/{p}")
t = open(f"{repo}/Cargo.toml").read()
t = re.sub(r"(?ms)^\[dependencies\.napi\]\n.*?(?=^\[)", "", t)
t = re.sub(r"(?ms)^js = \[.*?^\]\n", "", t)
for s in (r"\[workspace\]", r"\[dev-dependencies\]", r"\[\[test\]\]", r"\[lints\.rust\]"):
    t = re.sub(r"(?ms)^" + s + r"\n.*?(?=^\[|\Z)", "", t)
open(f"{dst}/Cargo.toml", "w").write(t)
P
mkdir -p "$t/d/src" && cp "$here/main.rs" "$t/d/src/main.rs" && cp "$here/demo.lock" "$t/d/Cargo.lock" || exit 2
cat > "$t/d/Cargo.toml" <<'C'
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
libc = "0.2"
serde = "1"
safer-ffi = { path = "../sffi", default-features = false, features = ["std", "dyn-traits", "futures", "serde", "log", "headers", "python-headers", "async-fn"] }
[profile.dev]
debug = 1
C
if [ -f "$here/tokio" ]; then
    cp "$repo/Cargo.lock" "$t/d/Cargo.lock"
    sed -i 's/"async-fn"\]/"async-fn", "tokio"]/; s/^libc = .*/&\ntokio = { version = "1.26", features = ["rt-multi-thread"] }/' "$t/d/Cargo.toml"
fi
if [ -f "$here/stabby" ]; then
    cp "$repo/Cargo.lock" "$t/d/Cargo.lock"
    sed -i 's/"async-fn"\]/"async-fn", "stabby"]/; s/^libc = .*/&\nstabby = { version = "36.1.1", default-features = false }/' "$t/d/Cargo.toml"
fi
export CARGO_PKG_NAME=demo CARGO_CRATE_NAME=demo
cd "$t/d" && cargo build --offline -q >build.log 2>&1 || { cat build.log; exit 3; }
if [ -f "$here/run.sh" ]; then bash "$here/run.sh" "$t/d/target/debug/demo" "$t"; else timeout 60 "$t/d/target/debug/demo"; fi
