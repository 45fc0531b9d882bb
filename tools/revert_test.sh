#!/bin/bash
# revert_test.sh COMMIT PROP...: run the checks on a copy of /repo where one fix is reverted
c=$1; shift
d=$(mktemp -d /tmp/m/rv.XXXX)
git clone -q /repo $d/r && cd $d/r && git config user.email a@b && git config user.name a
if git revert -n $c >/dev/null 2>&1; then
  for p in "$@"; do
    o=$(ODES_REPO=$d/r timeout 900 python3 /verif/check.py $p 2>&1); rc=$?
    echo "$c $p rc=$rc $(echo "$o" | grep '^# ' | head -2 | cut -c1-220)"
    [ $rc -gt 1 ] && echo "$o" | tail -5
  done
else echo "$c revert conflict"; fi
rm -rf "$d"
