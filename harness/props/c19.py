"""C19 complex amplitudes"""
import mlib
from driver import Gen
ID = 'C19'
TRACE = 'C19Trace'


def models(tier):
    return [('AmpModel', 'AmpModel.cfg')]


def gens(tier, seed):
    n, j = (300, 40) if tier == 'quick' else (6000, 500)
    return [Gen('GenAmp', 'C19Gen.cfg', sim=n, seed=seed), Gen('GenAmp', 'C19GenJax.cfg', sim=j, seed=seed)]


def lane(s):
    return mlib.lane(s['cfg'])


def cover(s):
    c = s['cfg']
    return [f"backend={c['b']}", f"route={mlib.route(c)}", 'work=' + s['work']]


def replay(s):
    return [dict(ev='solve', i=i, **mlib.jres(mlib.run(c['b'], **mlib.conc(c)), amp=True)) for i, c in enumerate([s['cfg']] + s['alts'])]
