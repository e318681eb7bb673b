"""Developer helper: mut.py FILE OLD NEW [--f QUAL...] [--p PROP...]: verify functions or run
checks against a scratch copy with one replacement."""
import os, shutil, subprocess, sys, tempfile
i = sys.argv.index('--f') if '--f' in sys.argv else len(sys.argv)
j = sys.argv.index('--p') if '--p' in sys.argv else len(sys.argv)
k = min(i, j)
f, reps = sys.argv[1], sys.argv[2:k]
d = tempfile.mkdtemp(prefix='mut', dir='/tmp')
shutil.copytree('/repo', d + '/r', symlinks=True, ignore=shutil.ignore_patterns('.git'))
p = f'{d}/r/arroba/{f}'
s = open(p).read()
for a, b in zip(reps[::2], reps[1::2]):
    assert a in s, a
    s = s.replace(a, b, 1)
open(p, 'w').write(s)
env = dict(os.environ, VERIF_REPO=d + '/r')
try:
    if i < len(sys.argv):
        subprocess.run(['python3-vt', '/verif/engine/dev.py'] + sys.argv[i + 1:j if j > i else None],
                       env=env, cwd='/verif/engine')
    if j < len(sys.argv):
        for q in sys.argv[j + 1:]:
            subprocess.run(['python3-vt', '/verif/run.py', '--property', q, '--repo', d + '/r'],
                           cwd='/verif', env=env)
finally:
    shutil.rmtree(d)
