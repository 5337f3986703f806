#!/bin/bash
cd "$(dirname "$0")" || exit 2
. ./env.sh
exec cargo build --release --offline --manifest-path harness/Cargo.toml
