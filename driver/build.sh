#!/bin/bash
# builds the MIR dumper into $1 (a directory)
set -e
D=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$1"
rustc +nightly --edition 2021 -O -C linker=cc -o "$1/mirdump.tmp.$$" "$D/src/main.rs"
mv "$1/mirdump.tmp.$$" "$1/mirdump"
