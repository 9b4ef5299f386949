#!/bin/bash
# try_revert.sh COMMIT ID...: the checks must report what the commit repaired.
commit=$1; shift
tree=$(mktemp -d /tmp/bnl-try-XXXXXX)
git -C /repo worktree add -q --detach "$tree/w" HEAD
if git -C "$tree/w" revert -n "$commit" >/dev/null 2>&1; then
  for id in "$@"; do
    printf '%s %s: ' "$(git -C /repo log -1 --format=%h "$commit")" "$id"
    BNL_REPO="$tree/w" /verif/check "$id" >"$tree/out" 2>&1
    echo "exit $? $(grep -m1 '^violated' "$tree/out" | cut -c1-150)"
  done
else
  echo "$commit: does not revert cleanly"
fi
git -C /repo worktree remove --force "$tree/w"
rm -rf "$tree"
