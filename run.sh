#!/bin/bash
# usage: run.sh ID   build what the check needs from /repo's working tree, then run it
# usage: run.sh --build-all   build everything (setup)
set -u
cd "$(dirname "$0")" || exit 2
HERE=$PWD
export VERIF_DIR=$HERE
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
ASAN_TARGET=x86_64-unknown-linux-gnu

# content hash of what is built (mtimes are not trusted)
src_hash() {
  (cd /repo && find . \( -name target -o -name 'target-*' -o -name .git \) -prune -o -type f \
     \( -name '*.rs' -o -name '*.toml' -o -name '*.lock' -o -name '*.lds' \) -print0 | sort -z | xargs -0 sha256sum) | sha256sum | cut -d' ' -f1
}
HASH=$(src_hash)

# fresh STAMP CRATEDIR PKGS... : forget build results of the repository's packages if its contents changed
fresh() {
  local stamp=$1 dir=$2 old; shift 2
  old=$(cat "$stamp" 2>/dev/null || true)
  if [ "$old" != "$HASH" ]; then
    local args=()
    for p in "$@"; do args+=(-p "$p"); done
    (cd "$dir" && "${CLEAN[@]}" "${args[@]}") >/dev/null 2>&1 || true
  fi
}
log() { echo "== $*" >&2; }
build() { # what
  local out=$HERE/.build.log rc=0
  case $1 in
    codec)
      CLEAN=(cargo clean --offline --profile release); fresh codec/target/.hash-release codec openjp2
      (cd codec && cargo build --offline --release) >"$out" 2>&1 || rc=1
      [ $rc = 0 ] && echo "$HASH" > codec/target/.hash-release ;;
    plain)
      CLEAN=(cargo clean --offline --profile plain); fresh codec/target/.hash-plain codec openjp2
      (cd codec && cargo build --offline --profile plain) >"$out" 2>&1 || rc=1
      [ $rc = 0 ] && echo "$HASH" > codec/target/.hash-plain ;;
    asan)
      CLEAN=(cargo +nightly clean --offline --profile release --target $ASAN_TARGET --target-dir target/asan); fresh codec/target/.hash-asan codec openjp2
      (cd codec && RUSTFLAGS="-Zsanitizer=address --cfg asan" CARGO_TARGET_DIR=target/asan cargo +nightly build --offline --release --target $ASAN_TARGET) >"$out" 2>&1 || rc=1
      [ $rc = 0 ] && echo "$HASH" > codec/target/.hash-asan ;;
    server|server-plain)
      local prof=release feat=hooks
      [ "$1" = server-plain ] && prof=plain
      CLEAN=(cargo clean --offline --profile $prof); fresh server/target/.hash-$prof server laya
      if ! (cd server && RUSTFLAGS="--cfg verif_hooks" cargo build --offline --profile $prof) >"$out" 2>&1; then
        # the hook does not fit this tree: what can be seen over HTTP is judged instead
        feat=http
        (cd server && cargo build --offline --profile $prof) >"$out" 2>&1 || rc=1
      fi
      [ $rc = 0 ] && { echo "$HASH" > server/target/.hash-$prof; echo $feat > server/target/.feat-$prof; } ;;
    laya)
      local T=$HERE/server/target/bin
      old=$(cat server/target/.hash-bin 2>/dev/null || true)
      if [ "$old" != "$HASH" ]; then
        for r in dev release; do
          cargo clean --offline --manifest-path /repo/Cargo.toml --target-dir "$T" --profile $r -p laya >/dev/null 2>&1 || true
        done
      fi
      { cargo build --offline --manifest-path /repo/Cargo.toml --bin laya-server --target-dir "$T" &&
        cargo build --offline --release --manifest-path /repo/Cargo.toml --bin laya-server --target-dir "$T"; } >"$out" 2>&1 || rc=1
      [ $rc = 0 ] && echo "$HASH" > server/target/.hash-bin ;;
  esac
  if [ $rc != 0 ]; then
    tail -40 "$out" >&2
    echo "build of $1 failed" >&2
    exit 2
  fi
}
CODEC=$HERE/codec/target/release/codec
PLAIN=$HERE/codec/target/plain/codec
ASAN=$HERE/codec/target/asan/$ASAN_TARGET/release/codec
export ASAN_OPTIONS=detect_leaks=0:allocator_may_return_null=1:handle_abort=0

case ${1:-} in
  --build-all)
    build server; build server-plain; build laya
    build codec; build plain; build asan; exit 0 ;;
  C01|C02|C03|C04|C05|C06|C07|C08)
    build server; build server-plain; build laya
    S=$HERE/server
    export VERIF_SERVER_BIN=$S/target/bin/debug/laya-server VERIF_SERVER_BIN_ALT=$S/target/bin/release/laya-server
    export VERIF_WORKER=$S/target/release/server VERIF_WORKER_ALT=$S/target/plain/server
    case $1 in C01|C02|C03|C04)
      if [ "$(cat $S/target/.feat-release $S/target/.feat-plain | sort -u)" = hooks ]; then
        VKIT_ALT_EXE=$S/target/plain/server exec "$S/target/release/server" check "$1"
      fi ;;
    esac
    VKIT_EXE=$S/in-ns.sh VKIT_ALT_EXE=$S/in-ns-alt.sh exec "$S/target/release/server" check "$1" ;;
  C10|C11|C12|C13|C14|C15|C16|C17|C18|C20|C21|C22|C23|C24)
    build codec; build plain
    VKIT_ALT_EXE=$PLAIN exec "$CODEC" check "$1" ;;
  C19|C25|C26)
    build codec; build plain; build asan
    VKIT_ALT_EXE=$PLAIN:$ASAN exec "$CODEC" check "$1" ;;
  *) echo "unknown check ${1:-}" >&2; exit 2 ;;
esac
