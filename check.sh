#!/bin/sh
# check.sh ID | check.sh --replay DIR
cd "$(dirname "$0")" && exec python3 tools/run.py "$@"
