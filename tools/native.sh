#!/bin/sh
# native.sh ID [args]: build and run a replay harness by hand
cd /verif && python3-vt - "$@" <<'PY'
import sys, os, tempfile, shutil
sys.path.insert(0,'/verif')
from hv import run
pid=sys.argv[1]; mod=run.load_spec(pid); w=tempfile.mkdtemp(); log=[]
e=run.build_native(pid,mod,w,log); print('\n'.join(log))
if e:
    rc,out,h=run.run_native(e, sys.argv[2:] or ['--search','1'], mod.REPLAY.get('timeout',120), w)
    print('rc',rc,'hung',h); print(out[-3000:])
shutil.rmtree(w)
PY
