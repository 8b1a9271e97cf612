"""C04 planar, conical and 2D formulations agree"""
import mlib
from driver import Gen
ID = 'C04'
TRACE = 'C04Trace'


def models(tier):
    return [('PresentModel', 'PresentModel.cfg')]


def gens(tier, seed):
    n, j = (300, 42) if tier == 'quick' else (6000, 600)
    return [Gen('GenPresent', 'C04Gen.cfg', sim=n, seed=seed), Gen('GenPresent', 'C04GenJax.cfg', sim=j, seed=seed)]


def lane(s):
    return 'any' if s['cfg']['b'] != 1 else f"jax:{mlib.spread(s, 4)}"


def cover(s):
    c = s['cfg']
    return [f"backend={c['b']}", f"from={mlib.route(c)}"] + [f"to={mlib.route(dict(d, kind='1d'))}" for d in s['alts']]


def replay(s):
    return [dict(ev='solve', i=i, **mlib.observe(c)) for i, c in enumerate([s['cfg']] + s['alts'])]
