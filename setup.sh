#!/bin/bash
# Warms the Go build cache; every check also builds what it needs by itself.
VERIF=$(cd "$(dirname "$0")" && pwd)
. "$VERIF/lib.sh"
W=$(mktemp -d "${TMPDIR:-/tmp}/verif-setup-XXXXXX") || exit 2
trap 'rm -rf "$W"' EXIT
workspace "$W" "${VERIF_REPO:-/repo}" core || exit 2
go build -o "$W/checker" verif/mc/core || exit 2
exit 0
