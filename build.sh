#!/bin/bash
# build.sh BIN...: build the simulator binaries against /repo's current working tree.
# The beancount parser's combinator types take minutes with the default trait solver and seconds
# with the next one, so that is tried first; the plain build is the fallback.
# Prints the directory with the binaries on its last line.
set -u
here="$(cd "$(dirname "$0")" && pwd)"
sim="$here/sim"
repo=/repo
mkdir -p "$sim/target"
exec 9>"$sim/target/.build.lock"
flock 9
# cargo notices changes by modification time only: make it look at the contents
stamp="$(cd "$repo" && find . -type f -not -path './target/*' -not -path './.git/*' -not -path '*/target/*' -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)"
bins=()
for b in "$@"; do bins+=(--bin "$b"); done

build() { # dir, flags...
  local dir="$1"; shift
  if [ "$(cat "$dir/.repo-stamp" 2>/dev/null)" != "$stamp" ]; then
    rm -rf "$dir"/debug/.fingerprint/beancount-parser-lima-*
  fi
  (cd "$sim" && env "$@" CARGO_INCREMENTAL=0 CARGO_TARGET_DIR="$dir" cargo build --offline "${bins[@]}" 2>"$dir/build.log" 1>&2)
  local rc=$?
  [ $rc -eq 0 ] && echo "$stamp" >"$dir/.repo-stamp"
  return $rc
}

fast="$sim/target/fast"; plain="$sim/target/plain"
wrap=()
# with threads, every basic block and access to shared memory of the library can be a switch point
if [ "$1" = limaconc ]; then fast="$sim/target/conc"; wrap=("RUSTC_WRAPPER=$here/tools/rustc-conc.sh"); fi
mkdir -p "$fast" "$plain"
if build "$fast" RUSTC_BOOTSTRAP=1 RUSTFLAGS="-Znext-solver=globally -Awarnings" "${wrap[@]}"; then
  echo "$fast/debug"; exit 0
fi
if grep -Eq "cannot be (shared|sent) between threads safely" "$fast/build.log"; then
  cat "$fast/build.log" >&2; exit 2
fi
# an ordinary error in the sources fails the same way in both, so look for the cause first
if build "$plain" RUSTFLAGS="-Awarnings"; then
  echo "$plain/debug"; exit 0
fi
cat "$plain/build.log" >&2
exit 2
