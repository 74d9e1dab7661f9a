#!/bin/sh
# nothing to build: the checks compile /repo's current sources themselves; this only looks whether the tools are there
for t in goto-cc goto-instrument cbmc z3 cvc5 gcc python3; do command -v $t >/dev/null || { echo "missing tool: $t"; exit 1; }; done
mkdir -p evidence out
