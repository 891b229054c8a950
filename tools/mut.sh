#!/bin/bash
# mut.sh ID FILE SED-EXPR [run.py args]: run a check on a scratch copy of /repo with one edit
id=$1; f=$2; e=$3; shift 3
d=$(mktemp -d /tmp/mut.XXXXXX)
cp -a /repo/include /repo/src /repo/tools $d/ ; ln -s /repo/_build $d/_build
sed -i -E "$e" $d/$f
diff -u /repo/$f $d/$f | tail -n +3 | grep '^[-+]'
HV_REPO=$d python3-vt /verif/hv/run.py $id "$@" 2>&1 | tail -25
rm -rf $d
