#!/bin/bash
# Usage: check.sh <property> [quick|thorough]
cd "$(dirname "$0")" || exit 2
./build_engine.sh || exit 2
exec ./bin/gosym check -prop="$1" -tier="${2:-${VERIF_TIER:-quick}}" -repo=/repo -harness=/verif/harness -known=/verif/known-findings.txt -evidence=/verif/evidence
