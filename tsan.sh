# The monitor of C23 built with ThreadSanitizer (the repository's own toolchain, a nightly, has it).
TSAN_DIR=/verif/.target-tsan
tsan_build() {
  CARGO_TARGET_DIR=$TSAN_DIR RUSTFLAGS="-C target-cpu=x86-64-v2 -Zsanitizer=thread" CARGO_PROFILE_DEV_DEBUG=1 \
    cargo build --offline --manifest-path /verif/harness/Cargo.toml --target x86_64-unknown-linux-gnu --bin vm_conc
}
export VMON_TSAN_BIN=$TSAN_DIR/x86_64-unknown-linux-gnu/debug/vm_conc
