#!/bin/bash
# usage: check.sh PROPERTY [tier]      decides one property against /repo's working tree
set -u
cd "$(dirname "$0")"; ROOT=$PWD
. ./env.sh
TIER=${2:-${VERIF_TIER:-quick}}
WORK=$(mktemp -d /tmp/vh.XXXXXXXX) || exit 3
trap 'rm -rf "$WORK"' EXIT
(cd harness && go build -tags timetzdata -o "$WORK/vh" .) || { echo "CHECK ERROR: the harness does not build against /repo"; exit 3; }
if [ "$1" = P05 ]; then
  (cd harness && CGO_ENABLED=1 go build -race -tags timetzdata -o "$WORK/vhrace" .) || { echo "CHECK ERROR: no race build"; exit 3; }
fi
"$WORK/vh" check -prop "$1" -tier "$TIER" -seed "${VERIF_SEED:-1}" -root "$ROOT" -work "$WORK"
