#!/bin/bash
# revert.sh COMMIT CHECK...: runs checks with a commit of /repo undone in the working tree
c=$1; shift
git -C /repo diff $c~1 $c | git -C /repo apply -R || exit 9
for k in "$@"; do python3 /verif/bin/check.py $k | tail -${LINES_SHOWN:-3}; done
git -C /repo checkout -- .
