#!/bin/sh
# nothing to build: the checks parse /repo's current source on every run. This only tests that the tools are there.
set -e
cd "$(dirname "$0")"
python3-vt -c "import z3, engine.symex, engine.speclib" 
cvc5 --version >/dev/null
jython -B -c "import ast" 
mkdir -p evidence
