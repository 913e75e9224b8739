#!/bin/bash
# developer build: errors only
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
cd /verif/harness && cargo build --offline --target-dir /verif/target/h --message-format short 2>&1 | grep -vE "^/repo|^mcpool|warning: .dir-sig|deprecated" | grep -E "error|warning: un|warning: .mc|Finished" | head -${1:-40}
