"""C09 thin-film optics and layer lists"""
import mlib
from driver import Gen
ID = 'C09'
TRACE = 'C09Trace'


def models(tier):
    return [('SlabModel', 'SlabModel.cfg')]


def gens(tier, seed):
    n, j, m, k = (260, 60, 150, 24) if tier == 'quick' else (6000, 1000, 3000, 300)
    return [Gen('GenSlab', 'C09Gen.cfg', sim=n, seed=seed, tag='film'), Gen('GenSlab', 'C09GenJax.cfg', sim=j, seed=seed, tag='film'),
            Gen('GenLayers', 'C09Layers.cfg', sim=m, seed=seed, tag='layers'), Gen('GenLayers', 'C09LayersJax.cfg', sim=k, seed=seed, tag='layers')]


def lane(s):
    return 'any' if s['cfg']['b'] != 1 else f"jax:{s['cfg']['kind']}{mlib.spread(s, 2)}"


def cover(s):
    c = s['cfg']
    return [f"backend={c['b']}", f"route={mlib.route(c)}", 'set=' + s['gen']] + ['op=' + o for o in s['ops']]


def replay(s):
    return [dict(ev='solve', i=i, **mlib.observe(c)) for i, c in enumerate([s['cfg']] + s['alts'])]
