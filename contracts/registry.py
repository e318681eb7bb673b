"""Builds the registry of contracts, models and lemmas."""
import importlib, os, sys
import lib, solve
from contract import Contract
from core import VC
from theory import AXIOMS

MODULES = ['c_util', 'c_crypto', 'c_uri', 'c_did', 'c_plc', 'c_lease', 'c_storage', 'c_mst', 'c_commit', 'c_xrpc']


def build(prog):
    reg = lib.Lib()
    reg.prog = prog
    for m in MODULES:
        importlib.import_module(m).register(reg)
    return reg


def prove_lemma_part(reg, name, k):
    """Lemmas may use lemmas stated earlier, never themselves or later ones."""
    import time
    names = list(reg.lemmas)
    later = {f'lemma:{n}' for n in names[names.index(name):]}
    o = reg.lemmas[name].obligations[k]
    lab, hyps, goal = o[:3]
    opt = o[3] if len(o) > 3 else {}
    excl = later | set(opt.get('exclude', ()))
    t0 = time.time()
    plan = solve.PLAN[2]
    if opt.get('nl'):
        plan = [(solve.RL[0], 2, solve.T2)] + plan
    why = ''
    for rl, seed, ex in plan:
        r, why, s = solve.check(hyps, goal, rl, seed, excl | set(ex))
        if str(r) == 'unsat':
            return (lab, 'proved', 'z3', time.time() - t0, '')
    return (lab, 'unknown', 'z3', time.time() - t0, f'{r} {why} {goal}')


def prove_lemma(reg, name, jobs=4):
    n = len(reg.lemmas[name].obligations)
    res = solve.parallel(list(range(n)), lambda k: prove_lemma_part(reg, name, k), jobs)
    return [r or (o[0], 'unknown', 'z3', 0.0, 'solver ended')
            for o, r in zip(reg.lemmas[name].obligations, res)]
