#!/bin/bash
# builds the extractor and the bounded search; the checks rebuild them themselves when they are missing or /repo has changed
cd "$(dirname "$0")" || exit 1
. /opt/vp/env.sh
export CARGO_NET_OFFLINE=true
unset RUSTFLAGS
(cd up4x && CARGO_TARGET_DIR=../build/up4x cargo build --offline) || exit 1
python3 tools/mirror.py /repo build/mirror || exit 1
(cd harness && CARGO_TARGET_DIR=../build/harness RUSTFLAGS='--cfg up4_verif' cargo build --offline) || exit 1
(cd harness/read && CARGO_TARGET_DIR=../../build/harness RUSTFLAGS='--cfg up4_verif' cargo build --offline) || exit 1
