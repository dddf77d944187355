#!/bin/bash
# Builds the harnesses from /repo's current sources into the given directory.
# usage: build.sh OUTDIR target...
set -euo pipefail
HERE=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
REPO=${REPO:-/repo}
OUT=$1
shift
CLINGO=/opt/vp/pydeps/lib/python3.12/site-packages/clingo
CLINGO_SO=$CLINGO/_clingo.cpython-312-x86_64-linux-gnu.so
mkdir -p "$OUT"
make -s --no-print-directory -j8 -f "$HERE/Makefile" HERE="$HERE" REPO="$REPO" OUT="$OUT" CLINGO="$CLINGO" CLINGO_SO="$CLINGO_SO" PYTHON=/opt/vp/pydeps/bin/python "$@"
