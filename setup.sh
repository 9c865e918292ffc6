#!/bin/bash
# builds the extractor and the replay driver
set -e
cd "$(dirname "$0")"
(cd tools/vx && cargo +stable build --release --offline -q --target-dir ../../target/vx)
(cd replay && cargo +stable build --offline -q --target-dir ../target/replay)
(cd replay && cargo +stable build --release --offline -q --target-dir ../target/replay-opt)
command -v verus >/dev/null
