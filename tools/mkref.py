"""Authoring aid: mkref.py ID OUTDIR: a clone of /repo with one refactoring applied."""
import sys, glob, importlib.util, subprocess
for f in sorted(glob.glob('/verif/tools/refactors/*.py')):
    sp = importlib.util.spec_from_file_location('m', f); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
    for n, ed in m.REF:
        if n == sys.argv[1]:
            subprocess.run(['git', 'clone', '-q', '--shared', '/repo', sys.argv[2]], check=True)
            for f, a, b in ed:
                p = sys.argv[2] + '/' + f; s = open(p).read(); assert a in s; open(p, 'w').write(s.replace(a, b, 1))
