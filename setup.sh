#!/bin/bash
# Builds the harness once so that later checks only rebuild what changed.
cd "$(dirname "$(readlink -f "$0")")" || exit 1
. ./build.sh
mkdir -p target evidence
(cd harness && cargo build --offline --locked) || exit 1
(cd noalloc && cargo build --offline --locked) || exit 1
bash tools/gen_derive.sh "$(pwd)" 1 600 && (cd target/derive-gen && cargo build --offline) || exit 1
