#!/bin/bash
# build the engine
cd /verif/vx && RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true cargo build --release --offline --target-dir /verif/.build/vx 2>&1 | grep -E "^(error|warning: unused)|-->" | head -30
