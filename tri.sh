#!/bin/bash
# short triage output:  ./tri.sh C02 [args]   (all sub-checks run on after a failure)
cd "$(dirname "$0")"; case "$PWD" in /tmp/dev/*) export VERIF_REPO=${VERIF_REPO:-/tmp/dev/repo};; esac
VERIF_TRIAGE=1 VERIF_STRICT=${STRICT-1} nice -n 15 ./check "$@" 2>&1 | grep -v "^VIOLATION" | cut -c1-${W:-420}
