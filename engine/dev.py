"""Developer driver: verify functions / lemmas by name."""
import sys, os, time
if os.environ.get('PYTHONHASHSEED') != '0':      # the same terms in the same order every time
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.dirname(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(__file__)), 'contracts'))
import registry, contract, solve
from core import Program

if __name__ == '__main__':
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('quals', nargs='*')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('-j', type=int, default=8)
    ap.add_argument('--show', action='store_true')
    ap.add_argument('--lemmas', action='store_true')
    ap.add_argument('--dump', help='print the facts of failing obligations whose name contains this')
    a = ap.parse_args()
    prog = Program()
    reg = registry.build(prog)
    if a.lemmas:
        for n in (a.quals or reg.lemmas):
            for lab, st, be, t, det in registry.prove_lemma(reg, n, a.j):
                print(f'{st:8} {t:6.2f}s lemma {n}: {lab}', '' if st == 'proved' else det[:3000])
        sys.exit()
    if a.dump:
        orig = solve.solve_all
        seen = set()

        def sa(vcs, reg, jobs=4, effort=1, **kw):
            orig(vcs, reg, jobs, effort, **kw)
            for v in vcs:
                if a.dump in v.name and v.status != 'proved' and v.name not in seen:
                    seen.add(v.name)
                    print('=' * 20, v.name, v.path)
                    for f in v.facts:
                        print('  *', str(f).replace('\n', ' ')[:3000])
                    print('  |-', v.goal)
        contract.solve.solve_all = sa
    for q in a.quals:
        t = time.time()
        r = contract.verify(prog, reg, q, a.j, log=print if a.v else None)
        print(('OK  ' if r.ok else 'FAIL'), q, f'{len(r.obligations)} obligations, {r.paths} paths,'
              f' {time.time() - t:.1f}s')
        for n, d in r.failed:
            print('   ', n, '::', str(d)[:1500])
        if a.v:
            for o in sorted(r.obligations, key=lambda o: -o[3])[:8]:
                print('     ', o)
