# sourced by the check scripts
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTFLAGS="--cfg tokio_unstable" CARGO_TARGET_DIR=/verif/target
