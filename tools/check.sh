#!/bin/bash
# tools/check.sh PROPERTY [TIER] [LEVEL]
cd "$(dirname "$0")/.." || exit 2
[ -x bin/govc ] || bash build.sh || exit 2
exec bin/govc check -prop "$1" -tier "${2:-quick}" -level "${3:-proof}"
