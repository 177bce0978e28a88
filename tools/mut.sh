#!/bin/bash
# tools/mut.sh NAME PATCH(or -R commit) PROP...   -- runs checks against a scratch copy of /repo with a change applied.
set -e
name=$1; shift
patch=$1; shift
d=/tmp/mut_$name
rm -rf "$d"; mkdir -p "$d"
R=${MUT_REPO:-/repo}; (cd "$R" && git ls-files -z | tar c --null -T -) | tar x -C "$d"
cd "$d"; git init -q .; 
if [ "$patch" = "-R" ]; then git -C /repo show "$1" | git apply -R; shift; else git apply "$patch"; fi
mkdir -p /tmp/mutb; b=/tmp/mutb/$name; rm -rf "$b"; 
for p in "$@"; do
  VERIF_REPO=$d VERIF_BUILD=$b timeout 1800 /verif/bin/check $p quick > /tmp/mut_$name.$p.log 2>&1 && rc=0 || rc=$?
  echo "$name $p rc=$rc $(grep -m1 -A1 VIOLATION /tmp/mut_$name.$p.log | cut -c1-260 | tr '\n' ' ')"
done
rm -rf "$d" "$b"
