#!/bin/sh
# usage: check.sh PROPERTY [quick|thorough]
cd "$(dirname "$0")" || exit 3
exec python3 rules/run.py "$@"
