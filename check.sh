#!/bin/sh
# check.sh ID [quick|thorough]: decides one property on the current source tree
exec python3 "$(dirname "$0")/engine/run.py" "$@"
