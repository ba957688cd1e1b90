#!/bin/sh
# check.sh <ID> [options]: runs the check of one property
cd "$(dirname "$0")" && exec python3-vt vc/check.py "$@"
