#!/bin/bash
# usage: check.sh PROPERTY
exec python3 "$(dirname "$0")/tools/check.py" "$@"
