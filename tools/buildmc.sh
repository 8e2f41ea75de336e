#!/bin/sh
# build the model checker binary from /repo's working tree
cd "$(dirname "$0")/../mc" || exit 2
export CARGO_TARGET_DIR="$(cd .. && pwd)/target/mc"
export RUSTFLAGS="-Zsanitizer=thread -Zexternal-clangrt"
exec cargo +nightly build --release -Zbuild-std --target x86_64-unknown-linux-gnu --offline "$@"
