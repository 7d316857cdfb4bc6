#!/bin/bash
# build one harness group: bh.sh GROUP
set -e
cd /verif
export RUSTUP_TOOLCHAIN=1.71.1 CARGO_NET_OFFLINE=true; unset RUSTFLAGS
[ -f .build/vxrt.o ] || gcc -O1 -c rt/vxrt.c -o .build/vxrt.o
cd h/$1; [ -f Cargo.lock ] || cp /opt/vp/ws/Cargo.lock Cargo.lock
cargo rustc --target x86_64-unknown-linux-gnu --release --offline --target-dir /verif/.build/h-$1 -- --emit=llvm-ir,link -C no-vectorize-loops -C no-vectorize-slp -C link-arg=/verif/.build/vxrt.o
ls -la /verif/.build/h-$1/x86_64-unknown-linux-gnu/release/deps/vxh-*.ll /verif/.build/h-$1/x86_64-unknown-linux-gnu/release/vxh
