# Build environment of the monitors: same toolchain and flags as the repository's own build.
_d=$PWD; . /opt/vp/env.sh >/dev/null 2>&1; cd "$_d"
export CARGO_TARGET_DIR=/verif/.target
export RUSTUP_TOOLCHAIN=1.70.0 RUSTC=/opt/vp/shim/rustc RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=0 CARGO_PROFILE_DEV_OPT_LEVEL=2
export RUSTFLAGS="-C target-cpu=x86-64-v2"
