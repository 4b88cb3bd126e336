#!/bin/bash
# Nothing to compile: check that the interpreter and the stand-ins load
set -e
cd "$(dirname "$0")"
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
echo 'import env, privcount.counter; print "ok"' > "$t/s.py"
MC_SCRATCH=$t ./mc/jy.sh "$t/s.py" | grep -q ok
