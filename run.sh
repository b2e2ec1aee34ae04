#!/bin/bash
# run.sh PROPERTY [replay FILE]   builds the harness of PROPERTY from /repo's working tree and runs it
# run.sh build [HARNESS...]        builds only
# Exit: 0 held, 1 violation (VIOLATION line), 2 the harness does not build, 3 no verdict in time.
HERE="$(cd "$(dirname "$0")" && pwd)"
export RUSTUP_TOOLCHAIN=nightly-2024-10-18 CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 VERIF_ROOT="$HERE"
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER
TARGET="$HERE/kit/target"
# cargo goes by file times; where the sources differ from those last built here, rebuild the repository's crates whatever the times say
fresh() {
  local now; now="$(cd /repo && find crates vercre-* -path '*/target' -prune -o \( -name '*.rs' -o -name Cargo.toml \) -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum)"
  [ "$now" = "$(cat "$TARGET/.sources" 2>/dev/null)" ] && return
  for c in core dif-exch macros openid w3c-vc status iso-mdl issuer verifier holder; do rm -rf "$TARGET/debug/.fingerprint/vercre-$c-"*; done
  echo "$now" > "$TARGET/.sources"
}
build() { (cd "$HERE/kit/$1" && cargo build -q --offline --target-dir "$TARGET" 2>"$TARGET.$1.log") || { tail -60 "$TARGET.$1.log" >&2; echo "harness $1 does not build" >&2; return 2; }; }
mkdir -p "$TARGET" "$HERE/evidence/replay"
fresh
harness() {
  case "$1" in
    C01|C02|C03|C04|C05|C06) echo h-core ;;
    C07|C08|C09|C10) echo h-dif ;;
    C11|C12) echo h-macros ;;
    C13|C14|C15|C16|C17|C18|C19|C20) echo h-model ;;
    C21|C22|C23|C24|C25|C26|C27|C28|C29|C30|C31) echo h-flow ;;
    *) return 1 ;;
  esac
}
if [ "$1" = build ]; then
  shift; [ $# -gt 0 ] || set -- h-core h-dif h-macros h-model h-flow
  for h in "$@"; do build "$h" || exit 2; done
  # the crates the macros expand to
  case " $* " in *" h-macros "*) "$TARGET/debug/h-macros" warm || exit 2 ;; esac
  exit 0
fi
H="$(harness "$1")" || { echo "unknown property $1" >&2; exit 2; }
build "$H" || exit 2
[ "$2" = replay ] && export VERIF_REPLAY="$(realpath "$3")"
# memory run away with is a crash of the case, not of the sandbox
ulimit -v 24000000
"$TARGET/debug/$H" "$1"; rc=$?
# a replayed case that ends the process or does not return still fails
if [ -n "$VERIF_REPLAY" ] && { [ $rc -ge 128 ] || [ $rc = 42 ]; }; then echo "replay: ends with status $rc"; rc=1; fi
exit $rc
