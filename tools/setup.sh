#!/bin/sh
# Everything a check needs is built by the check itself from /repo's working tree; this only
# verifies that the tools are there.
set -e
cargo --version
rustc --version
python3 --version
test -f /repo/ssz/Cargo.toml
mkdir -p "$(dirname "$0")/../evidence"
