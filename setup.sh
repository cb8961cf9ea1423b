#!/bin/bash
# Builds the harnesses from the committed files and /repo's working tree, without and with the hooks.
cd "$(dirname "$0")" || exit 2
. ./env.sh
cargo build --offline --manifest-path harness/Cargo.toml --bin vf || exit
cargo build --offline --manifest-path convert/Cargo.toml --bin convert || exit
hooks_for P21
exec cargo build --offline --manifest-path harness/Cargo.toml --bin vf
