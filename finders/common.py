"""Shared driver for the bounded cross-checks. They run the real code and compare it with an
independent oracle; deterministic for a seed and a tier. A finding is a concrete failing
input that can be replayed."""
import argparse, json, logging, os, random, sys, time, traceback

logging.disable(logging.CRITICAL)

REPO = os.environ.get('VERIF_REPO', '/repo')
if REPO not in sys.path:
    sys.path.insert(0, REPO)
HERE = os.path.dirname(os.path.abspath(__file__))


class Fail(Exception):
    """The property does not hold on this input."""


class Finder:
    """checks: property -> list of (name, gen(rng, n) -> input or None, run(input)).
    gen gets a case number; returning None ends that check. run raises Fail."""

    def __init__(self, checks, rule=''):
        self.checks, self.rule = checks, rule

    def main(self):
        ap = argparse.ArgumentParser()
        ap.add_argument('--property', required=True)
        ap.add_argument('--seed', type=int, default=1)
        ap.add_argument('--tier', default='quick')
        ap.add_argument('--budget', type=float, default=40)
        ap.add_argument('--out')
        ap.add_argument('--hint', default='[]')
        ap.add_argument('--replay')
        a = ap.parse_args()
        checks = self.checks[a.property]
        if a.replay:
            d = json.load(open(a.replay))
            name = d['key'].split('|')[0]
            for n, gen, run in checks:
                if n == name:
                    try:
                        run(d['input'])
                    except Fail as e:
                        print('reproduced:', e)
                        sys.exit(1)
                    print('holds on this input')
                    sys.exit(0)
            sys.exit(2)
        findings, per, samples = [], {}, []
        total, distinct = 0, set()
        t0 = time.time()
        scale = {'quick': 1, 'thorough': 12}[a.tier] * (3 if a.seed > 1000 else 1)
        for k, (name, gen, run) in enumerate(checks):
            rng = random.Random(f'{a.seed}/{name}')
            n = 0
            limit = t0 + a.budget * (k + 1) / len(checks)
            while True:
                case = gen(rng, n, scale)
                if case is None:
                    break
                n += 1
                distinct.add(hash(json.dumps(case, sort_keys=True, default=str)))
                if n == 1:
                    samples.append({'check': name, 'input': json.loads(json.dumps(
                        case, default=str))})
                try:
                    run(case)
                except Fail as e:
                    small = self.shrink(case, run)
                    msg = str(e)
                    try:
                        run(small)
                    except Fail as e2:
                        msg = str(e2)
                    except Exception:
                        pass
                    findings.append({'key': name, 'what': f'{name}: {msg}', 'input': small})
                    break
                except Exception as e:
                    findings.append({'key': name, 'what': f'{name}: unexpected '
                                     f'{type(e).__name__}: {e}\n' + traceback.format_exc()[-1500:],
                                     'input': case})
                    break
                if time.time() > limit:
                    break
            per[name] = n
            total += n
        out = {'findings': findings, 'stats': {
            'cases': total, 'distinct': len(distinct), 'per_check': per, 'rule': self.rule,
            'samples': samples[:6], 'secs': round(time.time() - t0, 1)}}
        if a.out:
            json.dump(out, open(a.out + '.tmp', 'w'), default=str)
            os.replace(a.out + '.tmp', a.out)
        else:
            print(json.dumps(out, indent=1, default=str))
        sys.stdout.flush()
        os._exit(1 if findings else 0)

    def shrink(self, case, run):
        """Drops elements of lists while the failure remains."""
        t0 = time.time()

        def fails(c):
            try:
                run(c)
            except Fail:
                return True
            except Exception:
                return False
            return False
        changed = True
        while changed and time.time() - t0 < 5:
            changed = False
            if isinstance(case, dict):
                for k, v in list(case.items()):
                    if isinstance(v, list):
                        i = 0
                        while i < len(v) and time.time() - t0 < 5:
                            c = dict(case)
                            c[k] = v[:i] + v[i + 1:]
                            if fails(c):
                                case, v, changed = c, c[k], True
                            else:
                                i += 1
        return case
