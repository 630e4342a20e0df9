#!/bin/bash
# builds the MIR driver and the dependency metadata the checks need, offline
set -e
cd "$(dirname "$0")"
O=$(mktemp -d)
bash engine/dump.sh "$O"
rm -rf "$O"
(cd rx && cargo build --release --offline -q)
echo setup done
