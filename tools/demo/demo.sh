#!/bin/bash
# Builds the driver beside this file against the sources in the current directory (/repo) and
# runs it. Exit 0: the property holds for the demonstrated case; nonzero: it does not.
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$PWD
W=$(mktemp -d) || exit 99
trap 'rm -rf "$W"' EXIT
cp -r "$HERE/shims" "$HERE/real" "$HERE/driver" "$W/" || exit 99
sed -i "s#/repo/src#$REPO/src#" "$W/real/Cargo.toml" || exit 99
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$W/target"
unset RUSTFLAGS
cd "$W/driver" || exit 99
cargo build --offline -q @ARGS@ 2>"$W/log" || { cat "$W/log"; echo "the driver does not build"; exit 99; }
@RUN@
