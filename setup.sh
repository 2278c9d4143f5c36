#!/bin/bash
# Prebuild the MIR driver and the dependency artefacts of both feature configurations.
set -e
cd "$(dirname "$0")"
export PYTHONDONTWRITEBYTECODE=1
python3 -c 'from checks import common; common.build_driver(); [common.Dump(f).close() for f in ("full","none")]'
(cd witness && CARGO_TARGET_DIR=../.build/witness RUSTFLAGS=-Awarnings cargo check --offline --keep-going --bins -q >/dev/null 2>&1) || true
echo setup done
