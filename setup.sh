#!/bin/bash
# warms the build caches; every check builds what it needs itself as well
(cd "$(dirname "$0")/verus/xtract" && CARGO_NET_OFFLINE=true cargo build --offline 2>&1 | tail -1)
cd "$(dirname "$0")/vh" && export CARGO_NET_OFFLINE=true
cargo build --offline --features async 2>&1 | tail -1
cargo kani --output-format terse -Z restrict-vtable --harness c05::proofs::sum 2>&1 | tail -1
exit 0
