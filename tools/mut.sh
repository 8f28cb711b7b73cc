#!/bin/bash
# mut.sh FILE 'sed-expr' UNIT...: run units on a mutated scratch copy of /repo
f=$1; e=$2; shift 2
d=$(mktemp -d /tmp/mut.XXXX)
cp -a /repo/. $d/
sed -i -E "$e" $d/$f
(cd $d && git diff --stat | tail -1)
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GOSUMDB=off
/verif/bin/gossa-989b9a96febe89ed $d > $d/ssa.json || echo EXTRACT FAIL
cd /verif/vc; SSA=$d/ssa.json python3-vt rununit.py "$@" 2>&1 | cut -c1-220
rm -rf "$d"
