#!/bin/bash
# gen_derive.sh VERIF SEED COUNT: writes target/derive-gen, the crate of generated derive(Value) types (C19)
V=$1 D=$1/target/derive-gen
mkdir -p "$D/src" || exit 1
python3 "$V/derive/gen.py" "$D" "$2" "$3" || exit 1
sed "s#@VERIF@#$V#" "$V/derive/Cargo.toml.in" >"$D/Cargo.toml"
cp "$V/derive/main.rs" "$V/derive/rt.rs" "$D/src/"
cp "$V/harness/Cargo.lock" "$D/Cargo.lock"
