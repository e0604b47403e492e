#!/bin/bash
# build both simulator binaries against /repo, so that the checks only rebuild what changed
here="$(cd "$(dirname "$0")" && pwd)"
"$here/build.sh" limasim && "$here/build.sh" limaconc
