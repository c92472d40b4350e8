#!/bin/bash
# Builds the explorer against /repo's current working tree. Output: /verif/target/debug/mc
set -u
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:/usr/local/bin:/usr/local/sbin:/usr/bin:/usr/sbin:/bin:/sbin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUST_BACKTRACE=0
unset CARGO_BUILD_RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
V="$(cd "$(dirname "$0")" && pwd)"
export CARGO_TARGET_DIR="$V/target"
unset RUSTFLAGS
mkdir -p "$CARGO_TARGET_DIR"
exec 9>"$CARGO_TARGET_DIR/.verif-lock"
flock 9
# cargo compares modification times; compare contents too, so that no change in /repo goes unseen
stamp="$(cd /repo && find src Cargo.toml Cargo.lock build.rs -type f ! -path src/core/types/parser.rs -print0 2>/dev/null | sort -z | xargs -0 sha256sum | sha256sum)"
cd "$V/mc" || exit 2
if [ "$stamp" != "$(cat "$CARGO_TARGET_DIR/.verif-stamp" 2>/dev/null)" ] || [ ! -f /repo/src/core/types/parser.rs ] || [ ! -f /repo/src/sql/parser.rs ]; then
    cargo clean --offline -p cathlamet >/dev/null 2>&1
fi
# build.rs regenerates the tracked src/sql/parser.rs when the grammar differs: put the tracked file back afterwards
cp -p /repo/src/sql/parser.rs "$CARGO_TARGET_DIR/sql-parser.rs.saved" 2>/dev/null
restore() { if [ -f "$CARGO_TARGET_DIR/sql-parser.rs.saved" ] && ! cmp -s /repo/src/sql/parser.rs "$CARGO_TARGET_DIR/sql-parser.rs.saved"; then cp -p "$CARGO_TARGET_DIR/sql-parser.rs.saved" /repo/src/sql/parser.rs; fi; }
trap restore EXIT
# when the hooks of one area do not compile against the current tree, the checks of the other areas still work
attempt() { RUSTFLAGS="--cfg cathlamet_verif -Awarnings $1" cargo build --offline -q --no-default-features --features "$2" >"$CARGO_TARGET_DIR/build.log" 2>&1; }
if ! attempt "" "storage sql" && ! attempt "--cfg cathlamet_verif_no_tables" "storage sql" && ! { cp "$CARGO_TARGET_DIR/build.log" "$CARGO_TARGET_DIR/build-all.log"; attempt "--cfg cathlamet_verif_no_sql" "storage"; } && ! attempt "--cfg cathlamet_verif_no_sql --cfg cathlamet_verif_no_tables" "storage" \
    && ! attempt "--cfg cathlamet_verif_no_storage" "sql" && ! attempt "--cfg cathlamet_verif_no_sql --cfg cathlamet_verif_no_storage" ""; then
    tail -n 60 "$CARGO_TARGET_DIR/build.log" >&2
    echo "build of the checks against /repo failed" >&2
    exit 2
fi
echo "$stamp" >"$CARGO_TARGET_DIR/.verif-stamp"
exit 0
