#!/bin/bash
# usage: export.sh OUT.json  -- builds the driver if needed and exports /repo's MIR.
set -e
HERE=$(cd "$(dirname "$0")/.." && pwd)
OUT=$(realpath -m "${1:?}")
export PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin
export HOME=/root CARGO_HOME=/root/.cargo CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTC_WRAPPER RUSTUP_TOOLCHAIN RUSTFLAGS
SYS=$(rustc +nightly --print sysroot)
B=$HERE/build
mkdir -p "$B"
exec 9>"$B/.lock"
flock 9
if [ ! -x "$B/jlx-driver" ] || [ "$HERE/driver/main.rs" -nt "$B/jlx-driver" ]; then
  rustc +nightly --edition 2021 -O -Awarnings -C link-args=-Wl,-rpath,$SYS/lib "$HERE/driver/main.rs" -o "$B/jlx-driver.$$"
  mv "$B/jlx-driver.$$" "$B/jlx-driver"
fi
rm -f "$OUT"
export CARGO_TARGET_DIR=$B/target
export JLX_CRATE=japanese_law_xml_schema JLX_OUT=$OUT
export LD_LIBRARY_PATH=$SYS/lib
export RUSTC_WORKSPACE_WRAPPER=$B/jlx-driver
rm -rf "$B"/target/debug/.fingerprint/japanese_law_xml_schema-* "$B"/target/debug/build/japanese_law_xml_schema "$B"/target/debug/incremental
cd "${JLX_REPO:-/repo}"
cargo +nightly check --offline --lib --quiet --locked
test -s "$OUT"
