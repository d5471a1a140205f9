# Toolchain and flags of every simulator build (same toolchain and cfg as /opt/vp/env.sh).
export RUSTUP_TOOLCHAIN=1.90.0 RUSTUP_AUTO_INSTALL=0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_TARGET_DIR=/verif/sim/target CARGO_INCREMENTAL=0 RUSTFLAGS="--cfg tracing_unstable --cfg tokio_unstable"
unset CARGO_BUILD_TARGET CARGO_PROFILE_DEV_DEBUG
