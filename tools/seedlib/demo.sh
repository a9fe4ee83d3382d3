#!/bin/bash
# Builds demo.rs (beside this file) against the tree in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
[ -f /opt/vp/lib/env.sh ] && . /opt/vp/lib/env.sh
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/pkg" "$tmp/d/src"
for f in "$repo"/*; do
  case "$(basename "$f")" in target|Cargo.toml|Cargo.lock|factrs-typetag) ;; *) ln -s "$f" "$tmp/pkg/";; esac
done
python3 - "$repo/Cargo.toml" "$tmp/pkg/Cargo.toml" <<'P'
import re, sys
t = open(sys.argv[1]).read()
for r in (r"(?m)^typetag\s*=.*\n", r"(?m)^serde\s*=\s*\{.*\n", r"(?m)^serde\s*=\s*\[[^\]]*\]\n", r"(?ms)^rerun\s*=\s*\{.*?\}\n", r"(?m)^rerun\s*=\s*\[[^\]]*\]\n",
          r"(?ms)^serde_json\s*=\s*\{.*?\}\n", r"(?m)^serde_json\s*=\s*\[[^\]]*\]\n", r"(?ms)^\[dev-dependencies\].*?(?=^\[|\Z)", r"(?ms)^\[\[(example|test|bench)\]\].*?(?=^\[|\Z)"):
    t = re.sub(r, "", t)
open(sys.argv[2], "w").write(t)
P
cp "$here/demo.rs" "$tmp/d/src/main.rs"
feats=""; [ -f "$here/features" ] && feats=$(cat "$here/features")
cat > "$tmp/d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
factrs = { path = "$tmp/pkg", features = [$feats] }
nalgebra = "0.33.2"
paste = "1"
[workspace]
T
cp "$repo/Cargo.lock" "$tmp/d/Cargo.lock"
cd "$tmp/d" && cargo build --offline -q 2>"$tmp/err" || { tail -30 "$tmp/err"; exit 3; }
timeout 120 "$CARGO_TARGET_DIR/debug/demo"
