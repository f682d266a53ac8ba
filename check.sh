#!/bin/sh
# check.sh <property> [--tier quick|thorough]
cd "$(dirname "$0")" && exec python3 -B -m gra.check "$@"
