#!/bin/sh
# Offline build of the framework: Java operator override and the driver binaries.
cd "$(dirname "$0")" || exit 1
python3 -B -c "import sys; sys.path.insert(0,'lib'); import runner; runner.build_java()" || exit 1
CARGO_TARGET_DIR="$PWD/harness/target"; export CARGO_TARGET_DIR
(cd harness && cargo build --release --offline -q) || exit 1
(cd harness-ffi && cargo build --release --offline -q) || exit 1
(cd harness-ffi && cargo build --release --offline -q -p rustfst-ffi) || exit 1
(cd harness-cli && cargo build --release --offline -q) || exit 1
