export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export PATH="/root/.cargo/bin:$PATH"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUST_BACKTRACE=0
export MC_ROOT=/verif
export MC_CLI=/verif/target/cli/debug/parser
mkdir -p /verif/target
