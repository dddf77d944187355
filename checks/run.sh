#!/bin/bash
# usage: run.sh PROPERTY quick|thorough
cd "$(dirname "${BASH_SOURCE[0]}")/.."
exec python3 checks/main.py "$@"
