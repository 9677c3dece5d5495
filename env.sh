# Sourced by check.sh and setup.sh: the offline build environment of the harness.
export PATH="$HOME/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUST_BACKTRACE=0
export CARGO_INCREMENTAL=1
export CARGO_TARGET_DIR=/verif/target
export RUSTFLAGS="--cfg rxw_mc -Awarnings"
