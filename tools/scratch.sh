#!/bin/bash
# scratch.sh LIST.py NAME DIR  : leave an edited copy of the sources in DIR
python3 - "$@" <<'P'
import sys, importlib.util, shutil, os
sp = importlib.util.spec_from_file_location('m', sys.argv[1]); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
x = [x for x in m.M if x[0] == sys.argv[2]][0]
d = sys.argv[3]
shutil.rmtree(d, ignore_errors=True); shutil.copytree('/repo/src', d + '/src'); os.symlink('/repo/3rdparty', d + '/3rdparty')
for f, a, b in x[3]:
    p = d + '/src/' + f; s = open(p).read(); assert a in s, (f, a); open(p, 'w').write(s.replace(a, b, 1))
P
