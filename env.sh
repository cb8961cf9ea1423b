# Build settings shared by setup and every check. The library denies lints that newer compilers
# extend, so lints are capped; output goes to target/ here, outside git and outside /repo.
# Sourced from the directory that holds it.
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export RUSTFLAGS="--cap-lints=warn" CARGO_TARGET_DIR="$PWD/target" RUST_BACKTRACE=0
unset CARGO_INCREMENTAL CARGO_BUILD_TARGET CARGO_PROFILE_DEV_DEBUG
# The guarded hooks in /repo are compiled in only for the checks that need them, in a directory of their own.
hooks_for() {
  case "$1" in P21|P22) RUSTFLAGS="$RUSTFLAGS --cfg verif_hooks"; CARGO_TARGET_DIR="$PWD/target-hooks";; esac
}
# P23 needs optional features of the library, so it is a crate of its own.
crate_for() { crate=harness bin=vf; if [ "$1" = P23 ]; then crate=convert bin=convert; fi; }
