#!/bin/bash
set -e
cd /verif/harness/sym
python3 mkpoulpy.py /verif/.build/poulpy
RUSTUP_TOOLCHAIN=nightly-2025-12-08 PHANTOM_VERIF_SRC=/verif/contracts RUSTFLAGS="--cfg phantom_verif --cfg phantom_sym" cargo build --offline --release --target-dir /verif/.build/sym 2>&1
