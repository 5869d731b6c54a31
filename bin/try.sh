#!/bin/bash
# try.sh PATCH TIER ID...: run checks against a patched copy of /repo, mounted
# over /repo in a private mount namespace; prints one line per check.
patch=$(realpath "$1"); tier=$2; shift 2
d=$(mktemp -d /tmp/try.XXXXXX); mkdir $d/ev
cp -a /repo $d/repo
git -C $d/repo apply "$patch" || { echo "patch does not apply"; rm -rf "$d"; exit 4; }
export V="$(cd "$(dirname "$0")/.." && pwd)"
unshare -Urm bash -c '
  mount --bind '$d'/repo /repo && mount --bind '$d'/ev $V/evidence || exit 5
  if [ -n "$TESTS" ]; then bash /opt/vp/test.sh '$d'/t.json > '$d'/t.log 2>&1; echo "tests rc=$?"; fi
  for p in "$@"; do
    s=$(date +%s)
    python3 $V/bin/check.py $p '$tier' > '$d'/o 2> '$d'/e; rc=$?
    echo "$p rc=$rc $(( $(date +%s) - s ))s $(head -1 '$d'/o | cut -c1-60) $(grep "^C[0-9]*:" '$d'/e | head -1 | cut -c1-${WIDTH:-220})"
    [ $rc -gt 1 ] && tail -5 '$d'/e
  done' x "$@"
rm -rf "$d"
