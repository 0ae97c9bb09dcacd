cd /verif/extract; RUSTUP_TOOLCHAIN=1.88.0 cargo build --offline --target-dir /verif/build/xt 2>&1 | grep -E "^error" -A9 | head -40
