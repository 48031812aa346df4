# Sourced by run.sh and setup.sh: builds the harness from /repo's current files.
# Cargo compares time stamps; a changed file with an old time stamp would go unseen, so the fingerprints of
# the crates of /repo are removed first and those crates are always compiled again.
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
build_harness() { # target directory, cargo options
  local target=$1
  shift
  mkdir -p "$target"
  (
    flock 9
    rm -rf "$target"/debug/.fingerprint/i18n_*
    # With coverage counters in the crates of /repo, or without where that is not possible.
    export CARGO_TARGET_DIR=$target
    RUSTC_WRAPPER=$PWD/tools/rustc-cov cargo build --offline --manifest-path "$PWD/harness/Cargo.toml" "$@" >"$target/build.log" 2>&1 ||
      cargo build --offline --manifest-path "$PWD/harness/Cargo.toml" "$@" >"$target/build.log" 2>&1
  ) 9>"$target/lock" || { echo "ERROR: the harness does not build:"; tail -40 "$target/build.log"; return 1; }
}
