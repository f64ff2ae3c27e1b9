#!/bin/bash
# refresh the patches of the planted bugs after a commit in /repo moved the lines around them
cd "$(dirname "$0")/../seeded" || exit 1
for d in */; do
  p=$PWD/${d}patch.diff
  git -C /repo apply --check "$p" 2>/dev/null && continue
  t=$(mktemp -d)
  git -C /repo worktree add -q --detach "$t/w" HEAD
  if patch -d "$t/w" -p1 -F3 -s --no-backup-if-mismatch <"$p"; then git -C "$t/w" diff >"$p"; echo "refreshed $d"; else echo "STALE $d"; fi
  git -C /repo worktree remove --force "$t/w"
  rmdir "$t"
done
