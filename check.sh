#!/bin/bash
# check.sh PROPERTY [quick|thorough] [engine flags]: decide one property on /repo's current tree.
cd "$(dirname "$0")" || exit 2
VERIF=$PWD
P=$1; T=${2:-${VERIF_TIER:-quick}}; shift; shift
. ./env.sh
bash setup.sh >&2 || exit 2
export VERIF_TIER=$T
exec "$VERIF/.build/engine" -verif "$VERIF" -prop "$P" -tier "$T" "$@"
