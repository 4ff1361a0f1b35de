#!/bin/bash
# Nothing has to be prepared: every check builds what it needs from /repo's working tree.
# Warm the build caches where they persist; failures here are not fatal.
set -u
export PHANTOM_VERIF_SRC=/verif/contracts CARGO_NET_OFFLINE=true RUSTFLAGS="-C target-feature=+avx2,+fma"
mkdir -p /verif/.build /verif/evidence
exit 0
