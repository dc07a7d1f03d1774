#!/bin/bash
# Warms the build caches; the checks build what they need themselves.
set -eu
cd "$(dirname "$0")"
. ./env.sh
WORK=$(mktemp -d /tmp/vh.XXXXXXXX)
trap 'rm -rf "$WORK"' EXIT
(cd harness && go build -tags timetzdata -o "$WORK/vh" . && CGO_ENABLED=1 go build -race -tags timetzdata -o "$WORK/vhrace" .)
"$WORK/vh" list
