#!/bin/bash
# Builds every monitor once, so that the checks only rebuild what changed in /repo.
cd /verif || exit 1
. ./env.sh
cargo build --offline --manifest-path harness/Cargo.toml --bins || exit 1
. ./tsan.sh
tsan_build || exit 1
. ./recur.sh
recur_build
