#!/bin/bash
# Builds, from /repo's current working tree: the simulated CLI, the simulated library harness and the driver.
# Everything goes to /verif/.build (git-ignored). Nothing in /repo is written.
set -euo pipefail
VERIF=$(cd "$(dirname "$0")" && pwd); REPO=${CV_REPO:-/repo}; B=${CV_BUILD:-$VERIF/.build}
mkdir -p "$B"; exec 9>"$B/.lock"; flock 9
export RUSTUP_TOOLCHAIN=1.87 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_ENCODED_RUSTFLAGS || true
H=$(cat "$VERIF/simrt/simrt.c" "$VERIF/simrt/proto.h" "$VERIF/build.sh" | sha256sum | cut -c1-16)
RT="$B/simrt-$H.o"
[ -f "$RT" ] || { rm -f "$B"/simrt-*.o; gcc -O2 -g -fno-ipa-reference -fno-ipa-modref -fno-ipa-pure-const -fno-ipa-ra -fno-delete-null-pointer-checks -fno-builtin -w -c "$VERIF/simrt/simrt.c" -o "$RT.tmp" && mv "$RT.tmp" "$RT"; }
FL="-Zsanitizer=thread -Zexternal-clangrt -Cllvm-args=-tsan-instrument-memory-accesses=0 -Cllvm-args=-tsan-instrument-func-entry-exit=0 -Cllvm-args=-tsan-instrument-memintrinsics=0 -Clink-arg=$RT -Clink-arg=-Wl,--wrap=main -Clink-arg=-ldl"
# the build is keyed by the content of the sources, not by their timestamps
S=$(cd "$REPO" && find carcara/src cli/src Cargo.toml Cargo.lock carcara/Cargo.toml cli/Cargo.toml -type f | LC_ALL=C sort | xargs sha256sum | sha256sum | cut -c1-32)
S="$S-$H-$( (cat "$VERIF"/harness/src/*.rs "$VERIF"/harness/Cargo.* 2>/dev/null || true) | sha256sum | cut -c1-16)"
T="$B/sim"; mkdir -p "$T"
driver() { ( cd "$VERIF/driver" && CARGO_TARGET_DIR="$B/driver" cargo build --release --offline -q 2>"$B/driver.log" ) || { cat "$B/driver.log" >&2; return 3; }; }
fresh() { [ ! -d "$1" ] || find "$1" -maxdepth 1 \( -name 'carcara*' -o -name 'simharness*' \) -exec rm -rf {} +; }
cli() {
  fresh "$T/c/x86_64-unknown-linux-gnu/release/.fingerprint"
  ( cd "$REPO" && RUSTC_BOOTSTRAP=1 RUSTFLAGS="$FL" CARGO_PROFILE_RELEASE_DEBUG=0 CARGO_TARGET_DIR="$T/c" cargo build --release --offline --locked -q --target x86_64-unknown-linux-gnu -p carcara-cli 2>"$T/cli.log" ) || { tail -40 "$T/cli.log" >&2; return 3; }
  cp "$T/c/x86_64-unknown-linux-gnu/release/carcara" "$T/cli.tmp" && mv "$T/cli.tmp" "$T/cli"
}
# The harness uses the library's interface: if that changed incompatibly, only the checks that need it give up.
lib() {
  rm -rf "$B/harness"; mkdir -p "$B/harness/src"; cp "$VERIF"/harness/src/*.rs "$B/harness/src/"; cp "$VERIF/harness/Cargo.lock" "$B/harness/"
  sed "s#@REPO@#$REPO#" "$VERIF/harness/Cargo.toml" > "$B/harness/Cargo.toml"
  fresh "$T/h/x86_64-unknown-linux-gnu/release/.fingerprint"
  local R="$T/h/x86_64-unknown-linux-gnu/release"; rm -f "$R/simharness" "$R/simmulti"
  ( cd "$B/harness" && RUSTC_BOOTSTRAP=1 RUSTFLAGS="$FL" CARGO_TARGET_DIR="$T/h" cargo build --keep-going --release --offline -q --target x86_64-unknown-linux-gnu 2>"$T/lib.log" ) || { tail -40 "$T/lib.log" >&2; echo "library harness does not build: only the checks that need it fail" >&2; }
  for x in simharness:lib simmulti:multi; do if [ -x "$R/${x%%:*}" ]; then cp "$R/${x%%:*}" "$T/${x##*:}.tmp" && mv "$T/${x##*:}.tmp" "$T/${x##*:}"; else rm -f "$T/${x##*:}"; fi; done
}
driver & PD=$!
RC=0
if [ "$(cat "$T/stamp" 2>/dev/null || true)" != "$S" ] || [ ! -x "$T/cli" ]; then
  rm -f "$T/stamp"; lib & PL=$!; cli & PC=$!
  wait $PC || RC=3
  wait $PL || true
  [ $RC != 0 ] || echo "$S" > "$T/stamp"
fi
wait $PD || RC=3
exit $RC
