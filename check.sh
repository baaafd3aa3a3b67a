#!/bin/bash
# check.sh PROPERTY [quick|thorough] | setup | replay FILE
exec python3 "$(dirname "$(readlink -f "$0")")/tools/check.py" "$@"
