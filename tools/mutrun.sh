#!/bin/bash
# mutrun.sh LIST BINS PROPS SECONDS RESULT [WORKERS]: tries every change of the list (mutgen.py) in a private copy of /repo and /verif (mount namespaces)
# and records whether a check, or only the tests, or nothing notices it. Development tool, not used by the checks.
L=$1 B=$2 P=$3 S=$4 R=$5 W=${6:-8}
mkdir -p /tmp/mw
for k in $(seq 0 $((W-1))); do
  mkdir -p /tmp/mw/$k; rsync -a --delete /repo/ /tmp/mw/$k/repo/ 2>/dev/null || { rm -rf /tmp/mw/$k/repo; cp -a /repo /tmp/mw/$k/repo; }
  rsync -a --delete --exclude .git /verif/ /tmp/mw/$k/verif/ 2>/dev/null || { rm -rf /tmp/mw/$k/verif; cp -a /verif /tmp/mw/$k/verif; }
  unshare -m bash -c "mount --make-rprivate /; mount --bind /tmp/mw/$k/repo /repo && mount --bind /tmp/mw/$k/verif /verif && cd / && python3 /verif/tools/mutwork.py $L $k $W $B $P $S $R" > /tmp/mw/$k.log 2>&1 &
done
wait
