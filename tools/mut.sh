#!/bin/bash
# mut.sh CHECK FILE SEDEXPR : try a change on a scratch copy of /repo (bind-mounted over /repo in a
# mount namespace of its own, the real tree stays as it is) and run one check.
w=$(mktemp -d /tmp/mut.XXXXXX)
cp -a /repo "$w/repo"
unshare -m bash -c '
  mount --bind "$1/repo" /repo || exit 9
  sed -i "$4" /repo/$3
  if git -C /repo diff --quiet; then echo "NOCHANGE $4"; exit; fi
  cd /verif
  timeout 900 python3 run.py check $2 > $1/out 2>&1; rc=$?
  echo "rc=$rc $2 $(grep -a -A1 "^MESSAGE" $1/out | tail -1 | cut -c1-160) $(grep -a "cases," $1/out | tail -1) :: $4"
  cp $1/out /tmp/mut.$2.out
' x "$w" "$1" "$2" "$3"
rm -rf "$w"
