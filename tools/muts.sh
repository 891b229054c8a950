#!/bin/bash
# muts.sh ID < lines "FILE<TAB>OLD<TAB>NEW" (literal text, \n for newlines): run a check on scratch copies with one edit each, print the verdict
id=$1
one() {
  f=$1; old=$2; new=$3
  d=$(mktemp -d /tmp/mut.XXXXXX)
  cp -a /repo/include /repo/src /repo/tools $d/ ; ln -s /repo/_build $d/_build
  python3 - "$d/$f" "$old" "$new" <<'P'
import sys
p,o,n=sys.argv[1:4]
o=o.replace('\\n','\n').replace('\\t','\t'); n=n.replace('\\n','\n').replace('\\t','\t')
s=open(p).read()
open(p,'w').write(s.replace(o,n,1))
P
  if cmp -s /repo/$f $d/$f; then echo "NOCHANGE $f $old"; rm -rf $d; return; fi
  HV_REPO=$d timeout 900 python3-vt /verif/hv/run.py $id > $d/out 2>&1; rc=$?
  { diff -u /repo/$f $d/$f | tail -n +3 | grep '^[-+]' | cut -c1-120 | head -4
  echo "=> rc $rc: $(grep -c '^FAILED' $d/out) failed; $(grep -c '^UNDEC' $d/out) undecided; $(grep '^VIOLATION' $d/out | cut -c1-200) $(grep ' obligations, ' $d/out | sed 's/.*, //')"; } 
  rm -rf $d
}
n=0
while IFS=$'\t' read -r f o w; do
  [ -z "$f" ] && continue
  one "$f" "$o" "$w" > /tmp/mutres.$id.$n & n=$((n+1))
  while [ $(jobs -r | wc -l) -ge ${MUTJ:-3} ]; do sleep 0.3; done
done
wait
for ((k=0;k<n;k++)); do cat /tmp/mutres.$id.$k; done
rm -f /tmp/mutres.$id.*
