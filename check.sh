#!/bin/bash
# check.sh PROPERTY [TIER] | check.sh --replay FILE : builds the harness against /repo's working tree, then runs a monitor.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR=$PWD REPO_DIR=${REPO_DIR:-/repo}
export HOME=/root PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin LANG=C.UTF-8 CARGO_TERM_COLOR=never
unset RUSTFLAGS RUSTDOCFLAGS CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=$PWD/build/target
mkdir -p build/run
build() {
  # cargo decides by modification time: the crate under test is always compiled again
  rm -rf "$CARGO_TARGET_DIR"/release/.fingerprint/rphonetic-*
  (cd harness && RUSTC_WRAPPER=$PWD/wrapper.sh cargo build --release --offline -q) >build/build.log 2>&1 || {
    cat build/build.log; echo "the harness doesn't build against $REPO_DIR"; exit 2; }
}
# the builds for C29: sanitizers (with the standard library) and Miri
sanitizers() {
  local n=nightly-x86_64-unknown-linux-gnu t=x86_64-unknown-linux-gnu s
  for s in address thread memory; do
    rm -rf "$PWD/build/san-$s/$t"/release/{san,.fingerprint/rphonetic-*,build/rphonetic}
    (cd san && RUSTUP_TOOLCHAIN=$n RUSTFLAGS="-Zsanitizer=$s --cfg san_$s" CARGO_TARGET_DIR=$VERIF_DIR/build/san-$s \
      cargo build --release --offline -q -Zbuild-std --target $t) >build/san-$s.log 2>&1 &
  done
  rm -rf "$PWD/build/san-miri/miri/$t"/debug/{san,.fingerprint/rphonetic-*,build/rphonetic}
  (cd san && RUSTUP_TOOLCHAIN=$n MIRIFLAGS=-Zmiri-disable-isolation CARGO_TARGET_DIR=$VERIF_DIR/build/san-miri \
    cargo miri run --offline -q --target $t -- control none) >build/san-miri.log 2>&1 &
  [ $# = 0 ] || "$@"
  wait
  for s in san-address/$t/release san-thread/$t/release san-memory/$t/release san-miri/miri/$t/debug; do
    [ -e build/$s/san ] || { cat build/san-*.log; echo "no build/$s/san against $REPO_DIR"; exit 2; }
  done
}
# the builds for C32: other features and options, and other platforms (WebAssembly; and one run by Miri, whose standard library is built first)
others() {
  local n=nightly-x86_64-unknown-linux-gnu p
  rm -rf "$PWD"/build/bld/{release,debug,small}/{bld,.fingerprint/rphonetic-*}
  one() { (cd builds && CARGO_TARGET_DIR=$VERIF_DIR/build/bld cargo build --offline -q "${@:2}") >"build/bld-$1.log" 2>&1; }
  (one release --release; one small --profile small --features embedded_bm) &
  one debug --features embedded_dm &
  p=wasm32-unknown-unknown
  rm -rf "$PWD/build/bld/$p"/debug/{bld.wasm,deps/bld*.wasm,.fingerprint/rphonetic-*}
  # (with the compiler of the harness, since another standard library may know another version of Unicode)
  (export RUSTC_BOOTSTRAP=1 CARGO_TARGET_DIR=$VERIF_DIR/build/bld
   lib=$(rustc --print sysroot)/lib/rustlib/src/rust/library; cd builds/wasm
   cargo build --offline -q --features embedded_bm --target $p -Zbuild-std=std,panic_abort \
     --config "patch.crates-io.dlmalloc.path='$(echo "$lib"/vendor/dlmalloc-*)'") >build/bld-wasm.log 2>&1 &
  p=s390x-unknown-linux-gnu
  rm -rf "$PWD/build/bld/miri/$p"/debug/{bld,.fingerprint/rphonetic-*}
  (export RUSTUP_TOOLCHAIN=$n MIRIFLAGS=-Zmiri-disable-isolation CARGO_TARGET_DIR=$VERIF_DIR/build/bld XDG_CACHE_HOME=$VERIF_DIR/build/cache
   cd builds && cargo miri setup -q --target $p && cargo miri run --offline -q --target $p -- none) >build/bld-s390x.log 2>&1 &
  [ $# = 0 ] || "$@"
  wait
}
vh=$CARGO_TARGET_DIR/release/vh
case $1 in
  --setup) build; exit 0 ;;
  --replay) if grep -q '"property": *"C29"' "$2"; then sanitizers build; elif grep -q '"property": *"C32"' "$2"; then others build; else build; fi; exec "$vh" replay "$2" ;;
  C29) sanitizers build ;;
  C32) others build ;;
  *) build ;;
esac
exec "$vh" run "$1" "${2:-${VERIF_TIER:-quick}}" "${VERIF_SEED:-1}"
