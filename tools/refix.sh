#!/bin/bash
# For every repaired defect: take the repair back in a scratch worktree and see whether the check of its property reports it again.
# usage: refix.sh SCRATCH [COMMIT...]   (run from a copy of /verif; prints one line per commit)
S=$1; shift; V=$(cd "$(dirname "$0")/.." && pwd)
mkdir -p "$S"; L=("$@"); [ ${#L[@]} = 0 ] && L=($(grep '^fixed:' "$V/KNOWN_FINDINGS.txt" | awk '{print $3}'))
for h in "${L[@]}"; do
  p=$(grep "^fixed:.* $h " "$V/KNOWN_FINDINGS.txt" | sed 's/.*property=\(C[0-9]*\).*/\1/')
  git -C /repo worktree remove --force "$S/wt" 2>/dev/null; GIT_LFS_SKIP_SMUDGE=1 git -C /repo worktree add -f --detach "$S/wt" HEAD >/dev/null 2>&1
  if ! git -C "$S/wt" revert -n $h >/dev/null 2>&1; then echo "$h $p conflict"; git -C "$S/wt" revert --abort 2>/dev/null; continue; fi
  out=$(VERIF_REPO="$S/wt" VERIF_BUILD="$S/b" python3 "$V/check.py" $p 2>&1); rc=$?
  echo "$h $p rc=$rc $(echo "$out" | grep -m1 -E '^C[0-9]+: |error:|failed' | cut -c1-160)"
done
git -C /repo worktree remove --force "$S/wt" 2>/dev/null; git -C /repo worktree prune
