#!/bin/bash
# try.sh ID CHECK...: run checks against a planted bug (applies to /repo and undoes it)
cd /verif
git -C /repo apply /verif/seeded/$1/patch.diff || exit 9
id=$1; shift
for c in "$@"; do ./check $c quick > /tmp/try.$id.$c 2>&1; echo "$id $c rc=$? $(grep -c undecided: /tmp/try.$id.$c) undec; $(grep -E '^    key' /tmp/try.$id.$c | head -3 | tr '\n' ' ')"; done
git -C /repo checkout -q -- .
