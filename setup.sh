#!/bin/bash
# nothing to build; check that the interpreter, the solvers and the code under test are there
cd "$(dirname "$0")" || exit 1
echo '(check-sat)' | z3-new -in | grep -q sat || { echo "no z3-new"; exit 1; }
echo '(set-logic QF_LIA)(check-sat)' | cvc5 --lang smt2 | grep -q sat || { echo "no cvc5"; exit 1; }
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="${PILO_REPO:-/repo}:." /opt/venv/bin/python -c 'import pilo, sx.api' || exit 1
mkdir -p evidence replays
