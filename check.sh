#!/bin/bash
# check.sh build            build the harness against /repo's working tree
# check.sh <id> <tier>      build, then decide one property (tier: quick | thorough)
# check.sh replay <file>    build, then re-run one replay file
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=/repo
export MXVERIF_HOME=$HERE
export MXVERIF_REPO=$REPO
cd "$HERE/harness" || exit 2

# Cargo decides by time stamps; make sure that changed content is always rebuilt.
STAMP=$(cd $REPO && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
build() { # target dir
  if [ "$(cat "$1/repo.stamp" 2>/dev/null)" != "$STAMP" ]; then
    rm -rf "$1"/debug/.fingerprint/mx-message-*
  fi
  mkdir -p "$1"
  CARGO_TARGET_DIR=$1 timeout -k 5 "$2" cargo build --offline -q 2>"$1/build.log" || return 1
  echo "$STAMP" > "$1/repo.stamp"
  BIN=$1/debug/mxverif
}
# Fast build first (parallel front end, incremental); if that fails for any reason, a plain one.
if ! RUSTC_BOOTSTRAP=1 RUSTFLAGS="-Zthreads=8" build "$HERE/target" 500; then
  if ! CARGO_INCREMENTAL=0 build "$HERE/target/plain" 600; then
    tail -40 "$HERE/target/plain/build.log"
    echo "ERROR: the harness does not build against $REPO"
    exit 2
  fi
fi
case "$1" in
  build) exit 0 ;;
  replay) exec "$BIN" replay "$2" ;;
  *)
    # the thorough tier also searches under coverage guidance, with a build of its own
    if [ "$2" = thorough ]; then
      PLAIN=$BIN
      if RUSTC_WRAPPER="$HERE/tools/cov-rustc.sh" RUSTC_BOOTSTRAP=1 RUSTFLAGS="-Zthreads=8" build "$HERE/target/cov" 1500; then
        export MXVERIF_FUZZ=$BIN
      fi
      BIN=$PLAIN
    fi
    exec "$BIN" check "$1" "${2:-quick}" ;;
esac
