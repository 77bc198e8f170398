#!/bin/bash
# Builds the checker (which links /repo's library) and the command line tool, outside /repo.
cd "$(dirname "$0")" || exit 2
source ./env.sh
cargo build --offline --manifest-path mc/Cargo.toml --target-dir target || exit 3
cargo build --offline --manifest-path /repo/Cargo.toml -p parser --target-dir target/cli || exit 3
