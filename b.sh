cd /verif/harness && touch -c /repo/src/lib.rs /repo/src/main.rs && RUSTUP_TOOLCHAIN=stable RUSTFLAGS="--cfg av1enc_verif -Awarnings" cargo build --offline --target-dir /verif/target 2>&1 | grep -A12 "^error" | head -${1:-60}
