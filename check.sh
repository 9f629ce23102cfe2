#!/bin/bash
# check.sh ID TIER : rebuilds what the check of property ID needs from /repo's tree and runs it.
ROOT=$(cd "$(dirname "$0")" && pwd)
id=$1; export VERIF_TIER=${2:-quick} VERIF_ROOT=$ROOT
export VERIF_SEED=${VERIF_SEED:-1}
bin=$(echo "$id" | tr 'A-Z' 'a-z')
case $id in
  C18) profile=dbg; sub=checked ;;
  *) profile=seq; sub=release ;;
esac
bash "$ROOT/build.sh" $profile "$bin" || exit 2
case $id in
  C28) bash "$ROOT/build.sh" par c28 || exit 2; export VERIF_PAR_BIN=$ROOT/target/par/release/c28 ;;
  C29) bash "$ROOT/build.sh" cli lambdaworks-stark || exit 2; export VERIF_CLI_BIN=$ROOT/target/cli/release/lambdaworks-stark ;;
esac
exec "$ROOT/target/$profile/$sub/$bin"
