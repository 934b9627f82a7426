#!/bin/bash
# tools/mutant.sh [-R] PATCH PROP...   run checks against a scratch copy of /repo with PATCH applied (-R: reversed)
R=""; [ "$1" = -R ] && { R=-R; shift; }
P=$(readlink -f "$1"); shift
D=$(mktemp -d /tmp/mut.XXXXXX)
cp -a /repo/src "$D/src"; cd "$D" && git init -q . 2>/dev/null
git apply $R "$P" || { echo "APPLY FAILED $P"; rm -rf "$D"; exit 3; }
rc=0
for p in "$@"; do
  o=$(cd /verif && VERIF_REPO_SRC=$D/src python3 run_check.py $p 2>&1); r=$?
  echo "$(basename $(dirname $P))/$(basename $P) $p exit=$r"; [ -n "$VERBOSE" ] && echo "$o" | grep -v "^KNOWN" | cut -c1-400 | head -${VERBOSE}
done
rm -rf "$D"
