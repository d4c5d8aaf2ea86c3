#!/bin/bash
# mirdump.sh REPO OUT.json : dump the MIR of REPO's crate (cargo check only; nothing of it runs).
set -u
REPO=${1:?} OUT=${2:?}
HERE=$(cd "$(dirname "$0")" && pwd); ROOT=$(dirname "$HERE")
export MD_BUILD=${MD_BUILD:-$ROOT/build}
mkdir -p "$MD_BUILD" || exit 3
exec 9>"$MD_BUILD/lock"; flock 9
export MD_SYSROOT=$(rustc +nightly --print sysroot) || exit 3
SRC=$ROOT/driver/src/main.rs
SUM=$( (sha256sum < "$SRC"; "$MD_SYSROOT/bin/rustc" --version) | sha256sum | cut -c1-32)
if [ ! -x "$MD_BUILD/mirdump" ] || [ "$(cat "$MD_BUILD/mirdump.sum" 2>/dev/null)" != "$SUM" ]; then
  "$MD_SYSROOT/bin/rustc" --edition 2021 -O "$SRC" -o "$MD_BUILD/mirdump" >"$MD_BUILD/driver.log" 2>&1 || { tail -20 "$MD_BUILD/driver.log"; exit 3; }
  echo "$SUM" > "$MD_BUILD/mirdump.sum"
fi
T=$MD_BUILD/target
rm -f "$OUT"
rm -rf "$T"/debug/build/hmmcl-sandbox "$T"/debug/incremental "$T"/debug/.fingerprint/hmmcl-sandbox-*
cd "$REPO" || exit 3
cp Cargo.lock "$MD_BUILD/Cargo.lock.before"
CARGO_INCREMENTAL=0 RUSTC="$HERE/rustc-stable.sh" RUSTC_WORKSPACE_WRAPPER="$HERE/wrap.sh" MIRDUMP_CRATE=hmmcl_sandbox MIRDUMP_OUT="$OUT" \
  CARGO_TARGET_DIR="$T" RUSTC_BOOTSTRAP=-1 cargo +nightly check -p hmmcl-sandbox --lib --offline >"$MD_BUILD/cargo.log" 2>&1
rc=$?
cmp -s Cargo.lock "$MD_BUILD/Cargo.lock.before" || cp "$MD_BUILD/Cargo.lock.before" Cargo.lock
[ $rc = 0 ] && [ -s "$OUT" ] && exit 0
tail -30 "$MD_BUILD/cargo.log"; exit 3
