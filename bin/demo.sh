#!/bin/bash
# compiles demo.rs against the crates build.sh left in target/ and runs it; run with cwd /repo
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
T=/repo/target/debug/deps
new() { ls -t $T/lib$1-*.rlib | head -1; }
ext() { for c in cairo_m_compiler_parser cairo_m_compiler_semantic cairo_m_compiler_diagnostics cairo_m_formatter cairo_m_project; do grep -q "\b$c\b" $D/demo.rs && echo --extern $c=$(new $c); done; }
cd /repo
try() { rustc --edition 2021 -A warnings -C debuginfo=0 -L dependency=$T $(ext) "$@" -o $W/demo $D/demo.rs 2>$W/err; }
if grep -q '\bsalsa::' $D/demo.rs; then for s in $T/libsalsa-*.rlib; do try --extern salsa=$s && break; done; else try; fi
[ -x $W/demo ] || { cat $W/err; exit 3; }
cd $W && exec timeout 60 ./demo
