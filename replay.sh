#!/bin/bash
# replay.sh FILE: runs one saved case against /repo's current working tree
exec python3 "$(dirname "$(realpath "$0")")/run.py" --replay "$1"
