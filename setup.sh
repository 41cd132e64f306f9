#!/bin/bash
# Builds the executors once, so that the checks only rebuild what changed.
set -e
cd "$(dirname "$0")"
export CARGO_TARGET_DIR="$PWD/work/target" CARGO_NET_OFFLINE=true
mkdir -p work
for c in rt fe; do
  if [ -d $c ]; then (cd $c && cargo build --offline --quiet); fi
done
