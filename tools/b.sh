#!/bin/bash
cd /verif/mc && RUSTUP_TOOLCHAIN=1.99.0 cargo build --release --offline --target-dir /verif/target 2>&1 | grep -E "^error" -A9
