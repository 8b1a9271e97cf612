"""C18 anisotropic layers (PyTorch backend)"""
import numpy as np
import mlib
from driver import Gen
ID = 'C18'
TRACE = 'C18Trace'


def models(tier):
    return [('AxialModel', 'AxialModel.cfg')]


def gens(tier, seed):
    n, c, p = (110, 110, 60) if tier == 'quick' else (3000, 3000, 1500)
    return [Gen('GenAniso', 'C18Gen.cfg', sim=n, seed=seed), Gen('GenAniso', 'C18GenClear.cfg', sim=c, seed=seed), Gen('GenAniso', 'C18Planar.cfg', sim=p, seed=seed)]


def cover(s):
    return ['kind=' + s['kind']] + ['law=' + l for l in s['laws']]


def index3(d):
    return mlib.index(d['x']) if d['scalar'] else [mlib.index(d[k]) for k in 'xyz']


def cell(r, prog, kw):
    c = r['cfg']
    if r['how'] == 'iso':
        return kw['ucell']
    if r['how'] == 'aniso':
        return np.stack([np.asarray(mlib.cell_of(dict(c, cell=m))) for m in (c['cell'], r['y'], r['z'])], axis=-1)
    px, py = kw['period']
    w, h = px / c['shape']['cols'], py / c['shape']['rows']
    box = lambda b: ['rectangle', (b['c0'] + b['c1']) / 2 * w, py - (b['r0'] + b['r1']) / 2 * h, (b['c1'] - b['c0']) * w, (b['r1'] - b['r0']) * h, index3(b), 0, 1, 1]
    return [[index3(l['base']), [box(b) for b in l['boxes']]] for l in prog]


def replay(s):
    ev, old = [], None
    for i, r in enumerate(s['runs']):
        kw = mlib.conc(r['cfg'])
        kw['ucell'] = cell(r, s['prog'], kw)
        if s['laws'][i] == 'again':     # the object that solved the device before this one, settings reassigned
            m = old
            for k, v in kw.items():
                if k == 'psi' or k == 'pol' or k != 'ucell':
                    setattr(m, k, v)
            m.ucell = mlib.arr(2, kw['ucell'])
        else:
            m = mlib.mee(2, **kw)
        if s['laws'][i] == 'base' and s['kind'] in ('iso', 'free', 'sym'):
            old = m
        elif s['laws'][i] == 'moved':
            old = m
        ev.append(dict(ev='solve', i=i + 1, **mlib.jres(mlib.solve(m))))
    return ev
