#!/bin/bash
# check.sh CXX [quick|thorough]: build the simulator against /repo as it is and decide one property.
# Exit 0: held; 1 with a VIOLATION line: broken; 2: no answer (/repo does not build, ...).
set -u
here="$(cd "$(dirname "$0")" && pwd)"
prop="$1"
tier="${2:-${VERIF_TIER:-quick}}"
bin=limasim; [ "$prop" = C05 ] && bin=limaconc
log="$here/out/build-$prop.log"
mkdir -p "$here/out" "$here/evidence"
if ! dir="$("$here/build.sh" "$bin" 2>"$log")"; then
  # sources, parser or results which cannot be shared between threads show at compile time
  if [ "$prop" = C05 ] && grep -Eq "cannot be (shared|sent) between threads safely" "$log" && "$here/build.sh" limasim >/dev/null 2>&1; then
    echo "the types are no longer Send and Sync:"
    grep -E -A6 "cannot be (shared|sent) between threads safely" "$log" | head -40
    cp "$log" "$here/out/C05-send-sync.txt"
    cat >"$here/evidence/C05.json" <<J
{"property":"C05","tier":"$tier","seed":${VERIF_SEED:-1},"level":"exploration","coverage":{"evaluations":0,"distinct_nontrivial":0,"rule":"decided by the compiler: the types are not Send and Sync","samples":[]},"wall_s":0,"violations":1}
J
    echo "VIOLATION property=C05 replay=$here/out/C05-send-sync.txt"
    exit 1
  fi
  tail -30 "$log" >&2
  exit 2
fi
LIMASIM_VERIF="$here" VERIF_TIER="$tier" exec "$dir/$bin" check "$prop" --tier "$tier"
