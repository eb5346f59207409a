# Sourced by setup.sh and check.sh: the same toolchain settings as /opt/vp/build.sh, own target directory.
export HOME=/root CARGO_HOME=/root/.cargo
export PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_TARGET_DIR="${OCACHECK_TARGET:-/verif/target}"
unset RUSTFLAGS RUST_LOG
