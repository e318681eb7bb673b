#!/usr/bin/env python3-vt
"""Runs one property's check: generates and discharges the obligations from the current
source of the repository, runs the bounded cross-check, writes the evidence.

  python3-vt run.py --property C01 [--tier quick|thorough] [--repo /repo]
"""
import argparse, ast, hashlib, json, os, pickle, subprocess, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.setrecursionlimit(20000)
if os.environ.get('PYTHONHASHSEED') != '0':      # the same terms in the same order every time
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property', required=True)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--repo', default=os.environ.get('VERIF_REPO') or '/repo')
    ap.add_argument('--no-finder', action='store_true')
    ap.add_argument('--no-proof', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    os.environ['VERIF_REPO'] = a.repo
    sys.path[:0] = [os.path.join(HERE, 'engine'), os.path.join(HERE, 'contracts')]
    import props
    p = props.PROPS[a.property]
    seed = int(os.environ.get('VERIF_SEED') or 1)
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    t0 = time.time()
    known = load_known(a.property)

    # the bounded cross-check runs beside the proof
    fproc = None
    if p.get('finder') and not a.no_finder:
        fproc = start_finder(p, a, seed, tier, 40 if tier == 'quick' else 400, 'a')
    proof = {'obligations': [], 'failed': [], 'functions': [], 'lemmas': [], 'models': [],
             'assumed': [], 'trusted_contracts': []}
    if not a.no_proof:
        import solve
        solve.DEADLINE[0] = t0 + (560 if tier == 'quick' else 2400)
        if fproc:
            solve.STOP[0] = lambda: found(fproc[1], known)
        proof = prove(p, a, tier)
    finds, fstats = [], {}
    if fproc:
        finds, fstats = end_finder(fproc)
    new = [f for f in finds if f['key'] not in known['open']]
    if proof['failed'] and not new and p.get('finder') and not a.no_finder:
        # look harder for a failing input
        fp = start_finder(p, a, seed + 1000, tier, 90 if tier == 'quick' else 600, 'b',
                          hint=[n for n, d in proof['failed']])
        more, st2 = end_finder(fp)
        for k, v in st2.items():
            if isinstance(v, int):
                fstats[k] = fstats.get(k, 0) + v
        finds += more
        new = [f for f in finds if f['key'] not in known['open']]
    write_evidence(a, p, proof, finds, fstats, seed, tier, time.time() - t0, known, new)
    for k in known['open']:
        print(f'KNOWN-FINDING: property={a.property} {known["open"][k]}')
    n_ok = sum(1 for o in proof['obligations'] if o[1] == 'proved')
    print(f'{a.property}: {n_ok}/{len(proof["obligations"])} obligations discharged over '
          f'{len(proof["functions"])} functions and {len(proof["lemmas"])} lemmas; '
          f'bounded cross-check: {fstats.get("cases", 0)} cases; {time.time() - t0:.1f}s')
    rdir = os.path.join(HERE, 'replays')
    os.makedirs(rdir, exist_ok=True)
    if new:
        for n, f in enumerate(new[:3]):
            path = os.path.join(rdir, f'{a.property}-{n}.json')
            json.dump({'property': a.property, 'kind': 'failing input', 'finder': p['finder'],
                       'key': f['key'], 'what': f['what'], 'input': f['input'],
                       'replay_cmd': f'/opt/venv/bin/python {HERE}/finders/{p["finder"]} '
                                     f'--property {a.property} --replay {path}',
                       'failed_obligations': [n for n, d in proof['failed']]},
                      open(path, 'w'), indent=1)
            print(f'  failing input: {f["what"][:400]}')
        path = os.path.join(rdir, f'{a.property}-0.json')
        print(f'VIOLATION property={a.property} replay={path}')
        sys.exit(1)
    if proof['failed']:
        path = os.path.join(rdir, f'{a.property}-obligation.json')
        json.dump({'property': a.property, 'kind': 'failed obligation',
                   'obligation': proof['failed'][0][0],
                   'verifier_output': proof['failed'][0][1],
                   'all_failed': proof['failed']}, open(path, 'w'), indent=1)
        for n, d in proof['failed'][:8]:
            print(f'  failed obligation: {n}')
            if a.v:
                print('     ', str(d)[:600])
        print(f'VIOLATION property={a.property} replay={path} no-failing-input-found')
        sys.exit(1)
    sys.exit(0)


def load_known(prop):
    out = {'open': {}, 'fixed': []}
    f = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(f):
        for line in open(f):
            line = line.strip()
            if line.startswith(f'open: property={prop} '):
                # open: property=ID key=KEY description
                rest = line.split(' ', 2)[2]
                key, _, desc = rest.partition(' ')
                out['open'][key.removeprefix('key=')] = desc
            elif line.startswith(f'fixed: property={prop} '):
                out['fixed'].append(line)
    return out


def start_finder(p, a, seed, tier, budget, tag, hint=()):
    rdir = os.path.join(HERE, 'replays')
    os.makedirs(rdir, exist_ok=True)
    out = os.path.join(rdir, f'{a.property}.{tag}.out.json')
    if os.path.exists(out):
        os.unlink(out)
    cmd = ['/opt/venv/bin/python', os.path.join(HERE, 'finders', p['finder']),
           '--property', a.property, '--seed', str(seed), '--tier', tier,
           '--budget', str(budget), '--out', out, '--hint', json.dumps(list(hint)[:20])]
    env = dict(os.environ, PYTHONPATH=a.repo, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1',
               VERIF_REPO=a.repo)
    log = open(out + '.log', 'w')
    pr = subprocess.Popen(cmd, env=env, stdout=log, stderr=subprocess.STDOUT, cwd='/tmp',
                          start_new_session=True)
    return pr, out, budget, log


def found(out, known):
    """the cross-check has already reported a failing input"""
    try:
        return any(f['key'] not in known['open'] for f in json.load(open(out))['findings'])
    except Exception:
        return False


def end_finder(f):
    pr, out, budget, log = f
    try:
        pr.wait(timeout=budget * 2 + 120)
    except subprocess.TimeoutExpired:
        import signal
        os.killpg(pr.pid, signal.SIGKILL)
        pr.wait()
    log.close()
    try:
        d = json.load(open(out))
        return d['findings'], d['stats']
    except Exception:
        tail = open(out + '.log').read()[-1500:]
        # the cross-check could not run: the code under test cannot even be driven
        return ([{'key': 'finder-crash', 'what': 'the real code could not be exercised: ' + tail,
                  'input': {'log': tail}}], {'cases': 0, 'crashed': True})


# ---------------------------------------------------------------------------
def prove(p, a, tier):
    import registry, contract, solve
    from core import Program
    out = {'obligations': [], 'failed': [], 'functions': [], 'lemmas': [], 'models': set(),
           'trusted_contracts': set(), 'assumed': [], 'dropped': 0, 'errors': []}
    try:
        prog = Program()
        reg = registry.build(prog)
    except Exception as e:
        out['failed'].append(('contracts attach to the source', traceback.format_exc()))
        out['models'] = []
        out['trusted_contracts'] = []
        return out
    done, todo = set(), list(p.get('functions', []))
    while todo:
        todo = [q for q in dict.fromkeys(todo) if q not in done]
        if not todo:
            break
        done |= set(todo)

        def one(q):
            c = reg.contracts.get(q)
            if c is None:
                return {'q': q, 'failed': [(q, 'no contract')], 'obl': [], 'uses': [],
                        'models': [], 'wall': 0, 'paths': 0}
            r = contract.verify(prog, reg, q, jobs=4)
            return {'q': q, 'failed': r.failed, 'obl': r.obligations, 'wall': r.wall,
                    'paths': r.paths, 'uses': sorted(getattr(r, 'run', None).uses
                                                     if getattr(r, 'run', None) else []),
                    'models': sorted(reg.used), 'removed': len(r.run.removed)
                    if getattr(r, 'run', None) else 0}
        res = solve.parallel(todo, one, 6, item_wall=700)
        nxt = []
        for q, r in zip(todo, res):
            if r is None or isinstance(r, tuple):
                out['failed'].append((f'{q}: verification finishes',
                                      str(r[-1]) if r else 'no result within the limit'))
                continue
            out['functions'].append({'function': q, 'obligations': len(r['obl']),
                                     'paths': r['paths'], 'wall_s': round(r['wall'], 2)})
            out['obligations'] += r['obl']
            out['failed'] += r['failed']
            out['models'] |= set(r['models'])
            for u in r['uses']:
                c = reg.contracts[u]
                if c.trusted:
                    out['trusted_contracts'].add(u + (f' ({c.doc})' if c.doc else ''))
                elif u not in done:
                    nxt.append(u)
        todo = nxt
    if any(f['function'].startswith('mst.') for f in out['functions']):
        p = {**p, 'lemmas': list(p.get('lemmas', [])) + ['mst_*', 'seq_middle']}
    lems = props_lemmas(reg, p)
    pairs = [(n, i) for n in lems for i in range(len(reg.lemmas[n].obligations))]

    def lem(ni):
        n, i = ni
        return registry.prove_lemma_part(reg, n, i)
    for (n, i), r in zip(pairs, solve.parallel(pairs, lem, 8, item_wall=200)):
        if r is None:
            r = (reg.lemmas[n].obligations[i][0], 'unknown', 'z3', 0.0, 'no result')
        lab, st, be, t, det = r
        out['obligations'].append((f'lemma {n}: {lab}', st, be, t, 0, 'lemma'))
        if st != 'proved':
            out['failed'].append((f'lemma {n}: {lab}', det))
    out['lemmas'] = lems
    if not out['obligations']:
        out['failed'].append(('obligations were generated', 'none were'))
    from theory import AXIOMS
    out['axioms'] = sorted({g for g in AXIOMS if not g.startswith('lemma:')})
    out['models'] = sorted(out['models'])
    out['trusted_contracts'] = sorted(out['trusted_contracts'])
    return out


def props_lemmas(reg, p):
    l = p.get('lemmas', [])
    if l == 'all':
        return list(reg.lemmas)
    out = []
    for n in reg.lemmas:
        if any(n == x or (x.endswith('*') and n.startswith(x[:-1])) for x in l):
            out.append(n)
    missing = [x for x in l if not x.endswith('*') and x not in reg.lemmas]
    if missing:
        raise KeyError(f'lemmas {missing}')
    return out


def write_evidence(a, p, proof, finds, fstats, seed, tier, wall, known, new):
    obl = proof['obligations']
    backends = {}
    for o in obl:
        if o[1] == 'proved':
            backends[o[2]] = backends.get(o[2], 0) + 1
    nviol = len(new) or (1 if proof['failed'] else 0)
    level = p.get('level', 'proof')
    cov = {
        'obligations': len(obl),
        'discharged': sum(1 for o in obl if o[1] == 'proved'),
        'checker_cmd': f'python3-vt /verif/run.py --property {a.property} --tier {tier}',
        'trusted_base': (['the obligation generator /verif/engine (symbolic execution of the '
                          'source, cut at contracts and loop invariants)', 'z3 ' + z3ver()] +
                         [f'axioms: {g}' for g in proof.get('axioms', [])] +
                         [f'model of {m}' for m in proof.get('models', [])] +
                         [f'trusted contract: {t}' for t in proof.get('trusted_contracts', [])]),
        'by_backend': backends,
        'solver_seconds': round(sum(o[3] for o in obl), 2),
        'functions_under_contract': proof['functions'],
        'lemmas': proof['lemmas'],
        'failed_obligations': [n for n, d in proof['failed']][:50],
        'bounded_cross_check': dict(fstats, label='bounded: never counted as proved',
                                    findings=len(finds)),
    }
    if 'cases' in fstats:
        cov['evaluations'] = int(fstats.get('cases', 0))
        cov['distinct_nontrivial'] = int(fstats.get('distinct', fstats.get('cases', 0)))
        cov['rule'] = fstats.get('rule', '')
        cov['samples'] = fstats.get('samples', [])
    if level == 'other':
        cov['explanation'] = p.get('explanation', '')
    ev = {'property': a.property, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': p.get('assumptions', []) + COMMON, 'wall_s': round(wall, 2),
          'violations': nviol}
    d = os.path.join(HERE, 'evidence')
    os.makedirs(d, exist_ok=True)
    json.dump(ev, open(os.path.join(d, f'{a.property}.json'), 'w'), indent=1)


COMMON = [
    'integers are mathematical (Python integers are)',
    'partial correctness: termination is not proved',
    'log calls and the text of exception messages are dropped',
    'single thread unless the property says otherwise; no asynchronous exceptions',
    'the Python semantics the obligation generator implements are those of CPython 3.12',
]


def z3ver():
    try:
        import z3
        return z3.get_version_string()
    except Exception:
        return ''


if __name__ == '__main__':
    main()
