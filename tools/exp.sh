#!/bin/bash
# exp.sh <patch|-R commit> <props...>: applies a change to a scratch copy of /repo and runs checks of a scratch
# copy of /verif against it (neither /repo nor /verif is touched). Used during development only.
E=${EXP:-/tmp/exp}
mkdir -p $E/verif
[ -d $E/repo ] || git clone -q /repo $E/repo
(cd $E/repo && git fetch -q origin && git checkout -q -f origin/HEAD && git clean -qfd -e target)
rsync -a --delete --exclude target --exclude .git --exclude evidence --exclude replays --exclude seeded /verif/ $E/verif/ 2>/dev/null ||
  (cd /verif && tar cf - --exclude=target --exclude=.git --exclude=evidence --exclude=replays --exclude=seeded . | (cd $E/verif && tar xf -))
sed -i "s|path = \"/repo\"|path = \"$E/repo\"|" $E/verif/harness/Cargo.toml
if [ "$1" = -R ]; then (cd $E/repo && git diff $2 $2^ | git apply -) || exit 9; n="revert $2"; shift 2
elif [ "$1" = none ]; then n=none; shift
else (cd $E/repo && git apply "$1") || { echo "APPLY FAILED $1"; exit 9; }; n=$1; shift; fi
for p in "$@"; do
  s=$(date +%s)
  out=$(REPO_ROOT=$E/repo bash $E/verif/check.sh $p 2>&1); rc=$?
  echo "[$n] $p rc=$rc $(( $(date +%s)-s ))s $(echo "$out" | grep -E 'VIOLATION|error|note:' | head -2 | tr '\n' ' ')"
  [ -n "$SHOW" ] && echo "$out" | tail -${SHOW} | cut -c1-600
done
