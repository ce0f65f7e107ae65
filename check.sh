#!/bin/bash
# bash check.sh PROPERTY [--thorough]
cd "$(dirname "$(realpath "$0")")" && exec /usr/bin/python3 -B harness/check.py "$@"
