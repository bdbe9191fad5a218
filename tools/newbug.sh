#!/bin/bash
# usage: tools/newbug.sh <id> <property>   with the change applied in the worktree /tmp/mut/repo and
# /tmp/mut/main.rs the demonstration: verifies everything and writes seeded/<id>/
set -eu
id=$1; prop=$2; needs=$3; breaks=$4
d=/verif/seeded/$id; mkdir -p "$d"
git -C /tmp/mut/repo diff > "$d/patch.diff"
[ -s "$d/patch.diff" ] || { echo "no change"; exit 1; }
cp /tmp/mut/main.rs "$d/main.rs"
cat > "$d/demo.sh" <<'D'
#!/bin/bash
# run with cwd /repo: builds main.rs against it; main.rs exits nonzero when the property is broken
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
dir="$(mktemp -d)"
mkdir "$dir/src"
cp "$here/main.rs" "$dir/src/main.rs"
cp "$repo/Cargo.lock" "$dir/Cargo.lock"
cat > "$dir/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
yaml-subset = { path = "$repo", features = ["serde"] }
serde = { version = "1", features = ["derive"] }
[workspace]
T
CARGO_TARGET_DIR="$dir/target" cargo build --offline --quiet --manifest-path "$dir/Cargo.toml" 2>"$dir/log" || { cat "$dir/log"; rm -rf "$dir"; exit 2; }
timeout 60 "$dir/target/debug/demo"
rc=$?
rm -rf "$dir"
exit $rc
D
chmod +x "$d/demo.sh"
python3 - "$d" "$prop" "$needs" "$breaks" <<'P'
import json,sys
d,p,n,b=sys.argv[1:]
json.dump({"property":p,"needs":n,"what_it_breaks":b},open(d+"/meta.json","w"),indent=1)
P
cd /repo && "$d/demo.sh" >/dev/null || { echo "demo fails on the unchanged tree"; exit 1; }
cd /tmp/mut/repo
t=$(CARGO_TARGET_DIR=/tmp/mut/target INSTA_UPDATE=no cargo test --offline --all-features 2>&1 | grep -E "^test result" | head -1); echo "$t"
case "$t" in *"97 passed; 0 failed"*) ;; *) echo "TESTS CATCH IT"; exit 1;; esac
if "$d/demo.sh"; then echo "demo does not fail with the change"; exit 1; fi
git -C /repo apply --check "$d/patch.diff" && echo "OK $id"
