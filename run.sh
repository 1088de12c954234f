#!/bin/bash
# run.sh check ID | replay FILE | build : build the harness from /repo's working tree, then run it.
cd "$(dirname "$0")" || exit 3
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable CARGO_TERM_COLOR=never
unset CARGO_TARGET_DIR RUSTFLAGS CARGO_BUILD_TARGET RUSTC_WRAPPER
export KMSVER_ROOT="$PWD"
profiles=release bin=release
case "$1 $2" in
"build "*) profiles="release plain strict" ;;
"check P27") profiles="plain strict" bin=strict ;;
"replay "*) grep -q '"property": "P27"' "$2" && profiles="plain strict" bin=strict ;;
esac
for p in $profiles; do
  f=; [ $p = plain ] && f=--no-default-features
  out=$(cd harness && cargo build --profile $p $f --locked --offline 2>&1) || { printf '%s\n' "$out" | grep -A12 -E '^error' | tail -60 >&2; echo "build failed" >&2; exit 3; }
done
[ "$1" = build ] && exit 0
exec harness/target/$bin/kmsver "$@"
