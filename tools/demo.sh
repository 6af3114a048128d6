#!/bin/bash
# Builds the program beside this script against the htp crate in the current directory and runs it.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
unset CARGO_PROFILE_DEV_DEBUG
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src"
cp "$here/main.rs" "$d/src/main.rs" || exit 2
[ -f Cargo.lock ] && cp Cargo.lock "$d/Cargo.lock"
printf '[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[dependencies]\nhtp = { path = "%s" }\n' "$PWD" > "$d/Cargo.toml"
CARGO_TARGET_DIR="$d/target" timeout 250 cargo run --offline -q --manifest-path "$d/Cargo.toml"
