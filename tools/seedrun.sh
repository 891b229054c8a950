#!/bin/bash
# seedrun.sh NAME...: run the property's check on a scratch copy with each planted change applied
for n in "$@"; do
  id=${n%%-*}; d=$(mktemp -d /tmp/seed.XXXXXX)
  cp -a /repo/include /repo/src /repo/tools $d/; ln -s /repo/_build $d/_build
  (cd $d && patch -s -p1 < /verif/seeded/$n/patch.diff)
  t=$(date +%s); HV_REPO=$d timeout 900 python3-vt /verif/hv/run.py $id > $d/out 2>&1; rc=$?
  echo "$n: rc $rc $(grep '^VIOLATION' $d/out | cut -c1-120) $(( $(date +%s) - t ))s"
  rm -rf $d
done
