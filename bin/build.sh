#!/bin/bash
# builds harness crate $1 from /repo's working tree and leaves its whole-program LLVM IR in .build/ll/$1.ll
set -e
. /verif/bin/env.sh
LLVM=/root/.rustup/toolchains/nightly-x86_64-unknown-linux-gnu/lib/rustlib/x86_64-unknown-linux-gnu/bin
cd /verif/h
B=/verif/.build
mkdir -p $B/ll
build() {
  rm -f $B/h/release/deps/$1-*.bc $B/h/release/deps/$1-*.o
  cargo -Z checksum-freshness rustc -p $1 --release -- -C save-temps -C no-vectorize-loops -C no-vectorize-slp 2>&1 | tail -${2:-5}
  test ${PIPESTATUS[0]} -eq 0
}
take() {
  bc=$(ls -t $B/h/release/deps/$1-*.$1.*-cgu.0.rcgu.bc 2>/dev/null | head -1)
  [ -n "$bc" ] || return 1
  $LLVM/llvm-dis "$bc" -o $B/ll/$1.ll.tmp
  mv $B/ll/$1.ll.tmp $B/ll/$1.ll
  sha256sum < $B/h/release/$1 > $B/ll/$1.stamp
  rm -f $B/h/release/deps/$1-*.bc
}
build $1 $2
take $1 && exit 0
# cargo found nothing to do: the IR at hand has to be the one of this binary
[ -f $B/ll/$1.ll ] && [ "$(sha256sum < $B/h/release/$1)" = "$(cat $B/ll/$1.stamp 2>/dev/null)" ] && exit 0
rm -rf $B/h/release/.fingerprint/$1-*
build $1 $2
take $1
