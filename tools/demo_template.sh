#!/bin/bash
# Builds /repo's library (the part that compiles here) with demo.rs in a scratch directory and runs it.
# Exit 0: behaves; nonzero: the defect shows.
HERE=$(cd "$(dirname "$0")" && pwd)
S=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$S"' EXIT
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=1.77.2-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_TARGET_DIR=$S/target CARGO_PROFILE_DEV_DEBUG=0
mkdir -p "$S/lib" "$S/demo/src" || exit 2
cp -r src "$S/lib/src" || exit 2
rm -rf "$S/lib/src/parser/semantic_info" "$S/lib/src/bin/hun_law/main.rs"
[ -e build.rs ] && cp build.rs "$S/lib/"
python3 - "$S" <<'PY' || exit 2
import re, sys
s = sys.argv[1]
m = open("Cargo.toml", encoding="utf-8").read()
m = re.sub(r"(?ms)^\[workspace\]\n.*?(?=^\[)", "", m)
m = re.sub(r"(?m)^hun_law_grammar\s*=[^\n]*\n", "", m)
m = re.sub(r"(?ms)^\[dev-dependencies\]\n.*?(?=^\[|\Z)", "", m)
m = re.sub(r"(?ms)^\[\[(test|bin|bench|example)\]\]\n.*?(?=^\[|\Z)", "", m)
m = m.replace("[package]\n", "[package]\nautobins = false\n", 1)
open(s + "/lib/Cargo.toml", "w", encoding="utf-8").write(m)
p = s + "/lib/src/parser/mod.rs"
t = open(p, encoding="utf-8").read()
open(p, "w", encoding="utf-8").write(re.sub(r"(?m)^\s*(pub(\([^)]*\))?\s+)?mod\s+semantic_info\s*;[^\n]*\n?", "", t))
open(s + "/demo/Cargo.toml", "w").write('''[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
hun_law = { path = "../lib" }
anyhow = "*"
''')
PY
cp /opt/vp/scope.lock "$S/demo/Cargo.lock" 2>/dev/null
cp "$HERE"/*.rs "$S/demo/src/" && mv "$S/demo/src/demo.rs" "$S/demo/src/main.rs" || exit 2
cd "$S/demo" || exit 2
cargo build --offline -q 2> "$S/log" || { cat "$S/log"; exit 2; }
timeout 120 "$S/target/debug/demo"
