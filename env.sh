# Sourced by run.sh and setup.sh: same toolchain and flags as /opt/vp/env.sh, plus the guard of the hooks in /repo;
# own target directory (git-ignored). /opt/vp/env.sh changes directory, so save and restore it.
_d=$PWD
. /opt/vp/env.sh
cd "$_d" || exit 2
export RUSTFLAGS="$RUSTFLAGS --cfg verif_hooks"
export CARGO_TARGET_DIR=/verif/target CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=0 CARGO_PROFILE_DEV_OPT_LEVEL=2
export RUST_BACKTRACE=0
