# The monitor of C25, built with the library's hooks compiled in.
HOOKS_DIR=/verif/.target-hooks
recur_build() {
  CARGO_TARGET_DIR=$HOOKS_DIR RUSTFLAGS="-C target-cpu=x86-64-v2 --cfg plonky_hooks" \
    cargo build --offline --manifest-path /verif/harness/Cargo.toml --bin vm_recur
}
RECUR_BIN=$HOOKS_DIR/debug/vm_recur
