#!/bin/bash
# usage: run.sh PROPERTY quick|thorough
cd "$(dirname "$0")" || exit 2
exec python3 lib/checks.py "$1" "${2:-quick}"
