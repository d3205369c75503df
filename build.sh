#!/bin/bash
# Builds one harness binary (or all) from the current tree of /repo.
set -e
V=${VERIF_DIR:-/verif}
. /opt/vp/rs/env.sh >/dev/null 2>&1 || true
unset RUSTFLAGS
export CARGO_INCREMENTAL=0 CARGO_TARGET_DIR=$V/target RUST_BACKTRACE=0
cd "$V/sim"
if [ -z "$1" ] || [ "$1" = dst-tools ]; then
  # the tools themselves, exactly as users build them
  CARGO_TARGET_DIR=$V/target-tools cargo build --manifest-path /repo/Cargo.toml -p rustsat-tools --bins --locked --offline -q
fi
if [ -z "$1" ] || [ "$1" = dst-py ]; then
  # the Python package, laid out as it is installed
  CARGO_TARGET_DIR=$V/target-tools cargo build --manifest-path /repo/Cargo.toml -p rustsat-pyapi --locked --offline -q
  mkdir -p "$V/target-tools/py"
  cp -rT /repo/pyapi/python/rustsat "$V/target-tools/py/rustsat"
  cp "$V/target-tools/debug/librustsat_pyapi.so" "$V/target-tools/py/rustsat/rustsat.abi3.so"
fi
if [ -n "$1" ]; then cargo build --offline -q -p "$1"; else cargo build --offline -q; fi
