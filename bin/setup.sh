#!/bin/bash
# builds the symbolic executor and every harness crate from the committed files and /repo's working tree
set -e
cd /verif
mkdir -p .build evidence
(. bin/env.sh; cd engine; CARGO_TARGET_DIR=/verif/.build/engine cargo build --release 2>&1 | tail -3)
for c in $(python3 bin/props.py crates); do bash bin/build.sh $c; done
