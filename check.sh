#!/bin/bash
# check.sh C01: decide one property of /repo's current sources
cd "$(dirname "$0")" || exit 2
exec python3 tools/driver/check.py "$@"
