"""seed.py make ID PROPERTY FILE -- reads a JSON spec on stdin:
{"edits": [[file, old, new], ...], "demo": python source, "needs":..., "what_it_breaks":..., "property":...}
Writes /verif/seeded/ID and confirms it in a scratch copy (tests pass, demo fails; demo passes clean).
seed.py check ID... re-confirms."""
import json, os, re, shutil, subprocess, sys, tempfile
SEED = '/verif/seeded'
PY = '/opt/venv/bin/python'
BASE = set(json.load(open('/opt/vp/BASELINE.json')).get('stable', []) or [])
ENV = {'HOME': '/root', 'LANG': 'C.UTF-8', 'TZ': 'UTC', 'PYTHONDONTWRITEBYTECODE': '1',
       'PYTHONHASHSEED': '0', 'PATH': '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin'}


def demo(i, cwd):
    d = tempfile.mkdtemp(prefix='seeddemo')
    for f in os.listdir(f'{SEED}/{i}'):
        if f not in ('patch.diff', 'meta.json'):
            shutil.copy(f'{SEED}/{i}/{f}', d)
    try:
        r = subprocess.run(['bash', f'{d}/demo.sh'], cwd=cwd, env=ENV, capture_output=True, text=True, timeout=300)
        return r.returncode, (r.stdout + r.stderr)[-600:]
    finally:
        shutil.rmtree(d)


def tests(cwd):
    r = subprocess.run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300', '--tb=short',
                        '--continue-on-collection-errors', '--hypothesis-profile=ci', '-rA',
                        '--ignore=arroba/tests/test_datastore_storage.py',
                        '--deselect=arroba/tests/test_testdata.py::test_fn', '-o', 'junit_family=xunit2',
                        f'--junitxml={cwd}/../j.xml', 'arroba/tests'] + sorted(
                            f'arroba/tests/hypothesis/{f}' for f in os.listdir(f'{cwd}/arroba/tests/hypothesis')
                            if f.endswith('_test.py')), cwd=cwd, env=ENV, capture_output=True, text=True)
    out = f'{cwd}/../t.json'
    subprocess.run(['/usr/bin/python3', '/opt/vp/results.py', out, f'junit:{cwd}/../j.xml'], capture_output=True)
    return json.load(open(out))


def check(i, run_tests=True):
    tmp = tempfile.mkdtemp(prefix='seed')
    try:
        cwd = tmp + '/repo'
        shutil.copytree('/repo', cwd, symlinks=True, ignore=shutil.ignore_patterns('.git'))
        subprocess.run(['git', 'init', '-q'], cwd=cwd)
        c0, o0 = demo(i, cwd)
        subprocess.run(['git', 'apply', f'{SEED}/{i}/patch.diff'], cwd=cwd, check=True)
        c1, o1 = demo(i, cwd)
        bad = []
        if run_tests:
            t = tests(cwd)
            base = json.load(open('/opt/vp/BASELINE.json'))
            p0 = set(passed(base)); p1 = set(passed(t))
            bad = sorted(p0 - p1)
        ok = c0 == 0 and c1 != 0 and not bad
        print(f'{i}: {"OK" if ok else "BAD"} clean={c0} patched={c1} broken_tests={bad[:5]}')
        if not ok or run_tests:
            print('   clean:', o0[-300:] if c0 else '', '\n   patched:', o1[-300:])
        return ok
    finally:
        shutil.rmtree(tmp)


def passed(j):
    for k in ('stable', 'stable_passing', 'passed', 'pass'):
        if k in j:
            v = j[k]
            return v if isinstance(v, list) else list(v)
    raise SystemExit(f'keys {list(j)[:9]}')


def make(i):
    s = json.load(sys.stdin) if not os.path.exists(f'/tmp/seeds/{i}.json') else json.load(open(f'/tmp/seeds/{i}.json'))
    build(i, s)


def build(i, s):
    d = f'{SEED}/{i}'
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='seed')
    try:
        subprocess.run(['git', 'clone', '-q', '/repo', tmp + '/r'], check=True)
        for f, old, new in s['edits']:
            p = f'{tmp}/r/arroba/{f}'
            t = open(p).read()
            assert t.count(old) == 1, (f, old, t.count(old))
            open(p, 'w').write(t.replace(old, new))
        diff = subprocess.run(['git', 'diff'], cwd=tmp + '/r', capture_output=True, text=True).stdout
        open(d + '/patch.diff', 'w').write(diff)
    finally:
        shutil.rmtree(tmp)
    open(d + '/demo.py', 'w').write(s['demo'].strip() + '\n')
    open(d + '/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\n'
                                    'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['what_it_breaks']},
              open(d + '/meta.json', 'w'), indent=1)
    return check(i)


if __name__ == '__main__':
    if sys.argv[1] == 'make':
        make(sys.argv[2])
    else:
        fast = '--fast' in sys.argv
        for i in [a for a in sys.argv[2:] if a[0] != '-'] or sorted(os.listdir(SEED)):
            check(i, not fast)
