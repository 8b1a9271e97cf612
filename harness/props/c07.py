"""C07 descriptions of one geometry"""
import numpy as np
import mlib
from driver import Gen
ID = 'C07'
TRACE = 'C07Trace'


def models(tier):
    return [('ReprModel', 'ReprModel.cfg')]


def gens(tier, seed):
    n, j = (150, 24) if tier == 'quick' else (3000, 300)
    return [Gen('GenRepr', 'C07Gen.cfg', sim=n, seed=seed), Gen('GenRepr', 'C07GenJax.cfg', sim=j, seed=seed)]


def lane(s):
    return 'any' if s['cfg']['b'] != 1 else f"jax:{s['cfg']['kind']}{mlib.spread(s, 2)}"


def cover(s):
    c = s['cfg']
    return [f"backend={c['b']}", f"route={mlib.route(c)}"] + [a['how'] + a.get('mode', '') + a.get('style', '') for a in s['alts']]


def vector(c, layers, kw):
    """boxes in pixel lines -> rectangle objects"""
    px, py = kw['period']
    w, h = px / c['shape']['cols'], py / c['shape']['rows']
    return [[mlib.index(l['base']),
             [['rectangle', (b['c0'] + b['c1']) / 2 * w, py - (b['r0'] + b['r1']) / 2 * h, (b['c1'] - b['c0']) * w, (b['r1'] - b['r0']) * h,
               mlib.index(b['v']), 0, 0, 0] for b in l['boxes']]] for l in layers]


def dfs(c, mode, k):
    kw = mlib.conc(c)
    cell = np.repeat(kw['ucell'], k, axis=2)
    if c['shape']['rows'] > 1:
        cell = np.repeat(cell, k, axis=1)
    kw.update(ucell=cell, fourier_type=0, enhanced_dfs=mode == 'enh')
    return mlib.jres(mlib.run(c['b'], **kw))


def replay(s):
    c = s['cfg']
    ev = [dict(ev='solve', i=0, **mlib.observe(c))]
    for i, a in enumerate(s['alts'], 1):
        if a['how'] == 'refine':
            ev.append(dict(ev='solve', i=i, **mlib.observe(a['cfg'])))
        elif a['how'] == 'vector':
            kw = mlib.conc(c)
            kw['ucell'] = vector(c, a['layers'], kw)
            ev.append(dict(ev='solve', i=i, **mlib.jres(mlib.run(c['b'], **kw))))
        else:
            # the coarse sampling is already fine against the shortest wave kept
            sh = c['shape']
            k = max(1 if a['mode'] == 'enh' else 8, *(-(-(8 * f + 4) // n) if f > 5 else 1 for f, n in ((sh['fx'], sh['cols']), (sh['fy'], sh['rows']))))
            ev.append(dict(ev='dfs', i=i, c=dfs(c, a['mode'], k), f=dfs(c, a['mode'], 4 * k)))
    return ev
