"""C15 symmetries of the diffraction problem"""
import mlib
from driver import Gen
ID = 'C15'
TRACE = 'C15Trace'


def models(tier):
    return [('SymmetryModel', 'SymmetryModel.cfg')]


def gens(tier, seed):
    n, j = (240, 40) if tier == 'quick' else (5000, 500)
    return [Gen('GenSymmetry', 'C15Gen.cfg', sim=n, seed=seed), Gen('GenSymmetry', 'C15GenJax.cfg', sim=j, seed=seed)]


def lane(s):
    return 'any' if s['cfg']['b'] != 1 else 'jax:' + s['cfg']['kind'] + str(mlib.spread(s, 2))


def cover(s):
    c = s['cfg']
    return [f"backend={c['b']}", f"route={mlib.route(c)}"] + ['op=' + o['op'] for o in s['ops']] + ['reversed'] * len(s['back'])


def replay(s):
    ev = [dict(ev='solve', i=i, **mlib.observe(c)) for i, c in enumerate([s['cfg']] + s['alts'])]
    return ev + [dict(ev='back', **mlib.observe(c)) for c in s['back']]
