#!/bin/bash
# Builds /repo's sources (cwd) with the stand-in for the missing crate spacemath that lies beside
# this file, in a scratch directory, and runs demo.rs against them.
HERE="$(cd "$(dirname "$0")" && pwd)"
W="$(mktemp -d /tmp/demo.XXXXXX)"
trap 'rm -rf "$W"' EXIT
mkdir -p "$W/bugi" "$W/demo/src" "$W/run"
cp -a src "$W/bugi/"
cp -a "$HERE/spacemath" "$W/"
sed -E 's#^spacemath *=.*#spacemath = { path = "../spacemath" }#' Cargo.toml > "$W/bugi/Cargo.toml"
cp "$HERE/demo.rs" "$W/demo/src/main.rs"
cp "$HERE/demo.Cargo.toml" "$W/demo/Cargo.toml"
cp "$HERE/demo.Cargo.lock" "$W/demo/Cargo.lock"
export PATH="/root/.cargo/bin:$PATH" CARGO_TARGET_DIR="$W/target" CARGO_TERM_COLOR=never
(cd "$W/demo" && cargo build --offline) > "$W/log" 2>&1 || { tail -30 "$W/log"; exit 3; }
if [ -f "$HERE/needs_cli" ]; then
    cp "$HERE/demo.Cargo.lock" "$W/bugi/Cargo.lock"
    (cd "$W/bugi" && cargo build --offline --bin bugi) > "$W/log" 2>&1 || { tail -30 "$W/log"; exit 3; }
    export BUGI_BIN="$W/target/debug/bugi"
fi
cd "$W/run" && timeout 120 "$W/target/debug/demo" 2> "$W/err"
rc=$?
grep -v "^ " "$W/err" | head -8
exit $rc
