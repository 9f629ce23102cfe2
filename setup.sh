#!/bin/bash
# Builds every check once, from the committed files and /repo's tree.
ROOT=$(cd "$(dirname "$0")" && pwd)
bins=$(cd "$ROOT/harness/src/bin" && ls c*.rs | grep -v c18 | sed 's/\.rs$//')
bash "$ROOT/build.sh" seq $bins || exit 1
[ -f "$ROOT/harness/src/bin/c18.rs" ] && { bash "$ROOT/build.sh" dbg c18 || exit 1; }
[ -f "$ROOT/harness/src/bin/c28.rs" ] && { bash "$ROOT/build.sh" par c28 || exit 1; }
[ -f "$ROOT/harness/src/bin/c29.rs" ] && { bash "$ROOT/build.sh" cli lambdaworks-stark || exit 1; }
exit 0
