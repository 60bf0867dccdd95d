#!/bin/bash
# tools/tryseed.sh PATCH PROP... : run checks with a patch applied to a scratch copy bind-mounted over /repo
set -e
p=$(readlink -f "$1"); shift
t=$(mktemp -d /tmp/try_XXXXXX)
cp -a /repo "$t/repo"
git -C "$t/repo" apply "$p"
for q in "$@"; do
  unshare -Urm bash -c "mount --bind $t/repo /repo && cd /verif && ./check $q" 2>&1 | grep -v "^obligation" | cut -c1-250
done
rm -rf "$t"
