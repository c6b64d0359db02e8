# Common to the scripts here: where things are, and how to build them offline.
export PATH="/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:$PATH"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
VERIF="$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)"
REPO="${MOFMT_REPO:-/repo}"
BUILD="$VERIF/build"
MOSIM="$VERIF/sim/target/release/mosim"
SHIM="$BUILD/shim.so"
MOFMT="$BUILD/mofmt/release/mofmt"
PLAIN="$BUILD/plain/release/mofmt"

build_sim() {
  mkdir -p "$BUILD" || return 3
  (cd "$VERIF/sim" && CARGO_TARGET_DIR="$VERIF/sim/target" cargo build --release --offline --quiet) || return 3
  if [ ! -e "$SHIM" ] || [ "$VERIF/shim/shim.c" -nt "$SHIM" ]; then
    gcc -O2 -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0 -shared -fPIC -w -o "$SHIM.$$" "$VERIF/shim/shim.c" -ldl && mv "$SHIM.$$" "$SHIM" || return 3
  fi
}

# The shipped program, unmodified, from /repo's working tree: as it is released,
# and with arithmetic overflow checked, as in a debug build, so that it shows.
compile() {
  mkdir -p "$2"
  # cargo compares times; without its fingerprints it compiles what is there now
  find "$2" -maxdepth 3 -path '*/.fingerprint/mofmt-*' -prune -exec rm -rf {} +
  CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS=$1 CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS=$1 \
    cargo build --release --offline --quiet --bin mofmt --manifest-path "$REPO/Cargo.toml" --target-dir "$2"
}
build_mofmt() {
  compile false "$BUILD/plain" & local other=$!
  compile true "$BUILD/mofmt"; local r=$?
  wait $other && return $r
}
