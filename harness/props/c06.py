"""C06 polarisation settings"""
import math
import mlib
from driver import Gen
ID = 'C06'
TRACE = 'C06Trace'


def models(tier):
    return [('PolModel', 'PolModel.cfg')]


def gens(tier, seed):
    n, j = (330, 36) if tier == 'quick' else (6000, 500)
    return [Gen('GenPol', 'C06Gen.cfg', sim=n, seed=seed), Gen('GenPol', 'C06GenJax.cfg', sim=j, seed=seed)]


def lane(s):
    return 'any' if s['cfg']['b'] != 1 else f"jax:{s['cfg']['kind']}{mlib.spread(s, 2)}"


def last(s):
    if s['sets']:
        return s['sets'][-1]
    if s['ctor']['psi'] != 'none':
        return dict(by='psi', v=int(s['ctor']['psi']))
    return dict(by='pol', v=0 if s['ctor']['pol'] == 'none' else int(s['ctor']['pol']))


def cover(s):
    c = s['cfg']
    a = last(s)
    return [f"backend={c['b']}", f"kind={c['kind']}", f"sets={len(s['sets'])}", f"last={a['by']}{a['v']}"]


def replay(s):
    c = s['cfg']
    kw = mlib.conc(c)
    kw.pop('pol', None)
    kw.pop('psi', None)
    ct = {}
    if s['ctor']['pol'] != 'none':
        ct['pol'] = int(s['ctor']['pol']) / 100
    if s['ctor']['psi'] != 'none':
        ct['psi'] = math.radians(int(s['ctor']['psi']))
    m = mlib.mee(c['b'], **kw, **ct)

    def read(k):
        return dict(ev='set', k=k, pol=mlib.real1(m.pol), psi=mlib.real1(m.psi))
    ev = [read(0)]
    for k, a in enumerate(s['sets'], 1):
        for f, v in mlib.polargs(a).items():
            setattr(m, f, v)
        ev.append(read(k))
    ev.append(dict(ev='solve', **mlib.jres(mlib.solve(m), amp=True)))
    a = last(s)
    q = mlib.polargs(a)
    p = q['pol'] if 'pol' in q else 1 - math.degrees(q['psi']) / 90
    twin = dict(psi=math.pi / 2 * (1 - p)) if 'pol' in q or not 0 <= p <= 1 else dict(pol=p)
    ev.append(dict(ev='twin', **mlib.jres(mlib.run(c['b'], **kw, **twin), amp=True)))
    for q in (0, 1):
        ev.append(dict(ev='pure', pol=q, **mlib.jres(mlib.run(c['b'], **kw, pol=q))))
    return ev
