#!/bin/bash
# run.sh ID | --replay FILE | --setup
# Builds the check for one property from /repo's working tree and runs it.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR=$PWD
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable CARGO_INCREMENTAL=0
export CARGO_TARGET_DIR=$PWD/target
ulimit -c 0

bin_of() {
  case "$1" in
    C01|C02|C03|C04|C05|C06|C07|C08) echo coder ;;
    C09|C10|C11|C12|C16) echo cli ;;
    C13|C14|C15|C17|C18) echo obu ;;
    C19|C20|C21) echo sym ;;
    C22|C23|C28) echo tab ;;
    C24|C25|C26|C27|C29|C30) echo tile ;;
    C31) echo stream ;;
    *) echo "unknown property $1" >&2; exit 2 ;;
  esac
}

build() { # build the check binary $1 against /repo as it is now
  touch -c /repo/src/lib.rs /repo/src/main.rs
  RUSTFLAGS="--cfg av1enc_verif -Awarnings" cargo build --offline --quiet --manifest-path harness/Cargo.toml --bin "$1" 1>&2 || { echo "ERROR: the check does not build against /repo" >&2; exit 2; }
}

build_cli() { # the av1enc program itself, without hooks
  [ -e /repo/Cargo.lock ] || cp /opt/vp/av1enc/Cargo.lock /repo/Cargo.lock 2>/dev/null
  RUSTFLAGS="-Awarnings" cargo build --offline --quiet --manifest-path /repo/Cargo.toml --bin av1enc --target-dir "$PWD/target/cli" 1>&2 || { echo "ERROR: /repo does not build" >&2; exit 2; }
  export AV1ENC_BIN=$PWD/target/cli/debug/av1enc
}

case "$1" in
  --setup)
    for b in coder cli obu sym tab tile stream; do build "$b"; done
    build_cli
    exit 0 ;;
  --replay)
    f=$(realpath "$2") || exit 2
    id=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$f") || exit 2
    set -- replay "$f" ;;
  *) id=$1; set -- run "$1" ;;
esac
b=$(bin_of "$id") || exit 2
build "$b"
[ "$b" = cli ] && build_cli
exec "$CARGO_TARGET_DIR/debug/$b" "$@"
