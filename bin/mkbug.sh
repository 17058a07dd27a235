#!/bin/bash
# mkbug.sh ID PROP "needs" "what" crates...   (main.rs on stdin; patch = current /repo diff)
set -e
ID=$1 PROP=$2 NEEDS=$3 WHAT=$4; shift 4
D=/verif/seeded/$ID; mkdir -p $D
git -C /repo diff > $D/patch.diff
git -C /repo checkout -- .
test -s $D/patch.diff
cat > $D/main.rs
cp /verif/harness/Cargo.lock $D/Cargo.lock
sed -i 's/name = "vph"/name = "vpdemo"/' $D/Cargo.lock
cat > $D/Cargo.toml <<X
[package]
name = "vpdemo"
version = "0.1.0"
edition = "2024"
[workspace]
[[bin]]
name = "vpdemo"
path = "main.rs"
[dependencies]
trunk-ir = { path = "/repo/crates/trunk-ir" }
tribute-ir = { path = "/repo/crates/tribute-ir" }
tribute-core = { path = "/repo/crates/tribute-core" }
tribute-passes = { path = "/repo/crates/tribute-passes" }
trunk-ir-cranelift-backend = { path = "/repo/crates/trunk-ir-cranelift-backend" }
trunk-ir-wasm-backend = { path = "/repo/crates/trunk-ir-wasm-backend" }
serde_json = "1"
[profile.dev]
debug = "line-tables-only"
X
cat > $D/demo.sh <<'X'
#!/bin/bash
# builds the small program beside this file against /repo and runs it
D=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH="/usr/local/bin:/usr/bin:/bin:/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TARGET_DIR=/repo/target RUSTC_WRAPPER=
unset RUSTFLAGS RUSTDOCFLAGS LD_LIBRARY_PATH
W=$(mktemp -d /tmp/vpdemo.XXXXXX) || exit 3
trap 'rm -rf "$W"' EXIT
cp "$D/main.rs" "$D/Cargo.toml" "$D/Cargo.lock" "$W/" && cd "$W" || exit 3
cargo build --offline -q || exit 3
timeout 60 /repo/target/debug/vpdemo "$W"
X
python3 - "$D/meta.json" "$PROP" "$NEEDS" "$WHAT" <<'X'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1],"w"),indent=1)
X
