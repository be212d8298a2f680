#!/bin/bash
# Which lines and branches of the package do the quick checks reach?
# usage: tools/cover.sh OUTDIR [Cxx ...]   (slow: compiled code runs interpreted)
here=$(cd "$(dirname "$0")/.." && pwd)
out=$1; shift
mkdir -p "$out"
for c in ${@:-$(seq -f 'C%02g' 1 20)}; do
  GE_COVER=$out "$here/check" "$c" quick | tail -1
done
cd "$out" && /opt/venv/bin/python -m coverage combine --data-file=cov.all --keep cov.[!a]* &&
  /opt/venv/bin/python -m coverage report --rcfile="$here/tools/cover.rc" --data-file=cov.all -m
