#!/bin/bash
# unfix.sh COMMIT ID...: undo a repair in /repo's working tree, run the checks, put it back
c=$1; shift
git -C /repo diff $c $c~1 | git -C /repo apply || exit 2
for i in "$@"; do timeout 900 python3 /verif/check.py $i > /tmp/unfix.$i.log 2>&1; echo "unfix $c $i rc=$?"; tail -2 /tmp/unfix.$i.log | cut -c1-200; done
git -C /repo checkout -- .
