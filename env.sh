# sourced by setup.sh and run.py's children
export HOME=${HOME:-/root}
export RUSTUP_TOOLCHAIN=1.72.1
export CARGO_NET_OFFLINE=true
export CARGO_TERM_COLOR=never
export RUST_BACKTRACE=0
export CI=true
