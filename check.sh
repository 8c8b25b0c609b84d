#!/bin/sh
# check.sh PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE]
cd "$(dirname "$0")" && exec python3 tools/check.py "$@"
