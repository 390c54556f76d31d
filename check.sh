#!/bin/bash
# check.sh <property> [quick|thorough] [--json FILE] [--baseline]
cd "$(dirname "$0")" || exit 2
exec python3-vt -u govc/vc/run.py "$@"
