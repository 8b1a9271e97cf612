"""C08 vector objects"""
import math
import numpy as np
import mlib
from driver import Gen
ID = 'C08'
TRACE = 'C08Trace'


def models(tier):
    return [('PaintModel', 'PaintModel.cfg')]


def gens(tier, seed):
    p, pj, t, tj, s = (150, 14, 36, 5, 200) if tier == 'quick' else (4000, 250, 1000, 60, 3000)
    return [Gen('GenPaint', 'C08Paint.cfg', sim=p, seed=seed, depth=80), Gen('GenPaint', 'C08PaintJax.cfg', sim=pj, seed=seed, depth=80),
            Gen('GenPaint', 'C08Turn.cfg', sim=t, seed=seed), Gen('GenPaint', 'C08TurnJax.cfg', sim=tj, seed=seed),
            Gen('GenPaint', 'C08Shape.cfg', sim=s, seed=seed)]


def lane(s):
    b = s['s']['b'] if s['kind'] == 'shape' else s['cfg']['b']
    return 'any' if b != 1 else f"jax:{mlib.spread(s, 4)}"


def cover(s):
    if s['kind'] == 'shape':
        return ['shape=' + s['s']['shape'], f"backend={s['s']['b']}"]
    return ['kind=' + s['kind'], f"backend={s['cfg']['b']}"]


def box(b, w, h, py):
    """a box of the grid, spelled with quarter turns"""
    cx, cy, lx, ly = (b['c0'] + b['c1']) / 2 * w, py - (b['r0'] + b['r1']) / 2 * h, (b['c1'] - b['c0']) * w, (b['r1'] - b['r0']) * h
    if b['k'] % 2:
        lx, ly = ly, lx
    return ['rectangle', cx, cy, lx, ly, mlib.index(b['v']), (b['k'] + 4 * b['m']) * math.pi / 2, b['nt'], b['np']]


def flat(slabs):
    f = lambda v: float(np.real(mlib.to_np(v)).reshape(-1)[0])
    return [[f(o[0][0]), f(o[0][1]), f(o[1][0]), f(o[1][1])] for o in slabs]


def shown(slabs):
    """the region the boxes cover, as disjoint boxes: strips between successive edges in y, edges closer than 1e-7 taken as one"""
    def snap(v):
        u = np.unique(v)
        first = np.concatenate([[True], np.diff(u) > 1e-7])
        return u[first][np.searchsorted(u[first], v, side='right') - 1]
    b = np.array(slabs, dtype=float).reshape(-1, 4)
    if not np.isfinite(b).all():
        return slabs
    b[:, [0, 2]], b[:, [1, 3]] = snap(b[:, [0, 2]]), snap(b[:, [1, 3]])
    out, ys = [], np.unique(b[:, [0, 2]])
    for y0, y1 in zip(ys, ys[1:]):
        end = -np.inf
        for x0, x1 in sorted((r[1], r[3]) for r in b if r[0] <= y0 and r[2] >= y1 and r[3] > r[1]):
            if x0 > end:
                out.append([y0, x0, y1, x1])
            else:
                out[-1][3] = max(x1, end)
            end = max(end, x1)
    return out


def replay(s):
    if s['kind'] == 'shape':
        d = s['s']
        col, ev = 1.75, []
        for i, b in enumerate((d['b'], (d['b'] + 1 + d['nt'] % 2) % 3)):
            m = mlib.mee(b, period=[10., 10.], wavelength=1., fto=[1, 1])
            o = getattr(m, d['shape'])(*[float(d[k]) for k in ('cx', 'cy', 'lx', 'ly')], col, float(d['angle']), d['nt'], d['np'])
            ev.append(dict(ev='slabs', i=i, b=[[mlib.num(v) for v in r] for r in flat(o)], u=[[mlib.num(v) for v in r] for r in shown(flat(o))], same=all(complex(x[2]) == col for x in o)))
        return ev
    c = s['cfg']
    kw = mlib.conc(c)
    px, py = kw['period']

    def go(cell, i):
        return dict(ev='solve', i=i, **mlib.jres(mlib.run(c['b'], **dict(kw, ucell=cell))))
    if s['kind'] == 'paint':
        X, Y = [np.concatenate([[0], np.cumsum(s[k])]) for k in ('wx', 'wy')]
        w, h = px / int(X[-1]), py / int(Y[-1])
        at = lambda b: dict(b, r0=int(Y[b['r0']]), r1=int(Y[b['r1']]), c0=int(X[b['c0']]), c1=int(X[b['c1']]))
        drawn = [[mlib.index(l['base']), [box(at(b), w, h, py) for b in l['boxes']]] for l in s['prog']]
        return [go(drawn, 0), go(np.repeat(np.repeat(kw['ucell'], s['wy'], axis=1), s['wx'], axis=2), 1)]
    u = min(px, py) / 100
    others = [[mlib.index(lay[0][0]), []] for lay in c['cell'][1:]]
    base = mlib.index(s['base'])
    m = mlib.mee(c['b'], **{k: v for k, v in kw.items() if k != 'ucell'})

    def drawing(turn):
        out = []
        for r in s['objs']:
            lx, ly, ang = r['lx'] * u, r['ly'] * u, float(r['angle'])
            if r['shape'] == 'rectangle':
                lx, ly, ang = (ly, lx, ang + math.pi / 2) if turn == 1 else (lx, ly, ang + turn * math.pi / 2)
            out.append([r['shape'], r['cx'] / 100 * px, r['cy'] / 100 * py, lx, ly, mlib.index(r['v']), ang, r['nt'], r['np']])
        return out
    parts = []
    for o in drawing(0):
        parts += [['rectangle', (x0 + x1) / 2, (y0 + y1) / 2, x1 - x0, y1 - y0, o[5], 0, 1, 1] for y0, x0, y1, x1 in flat(getattr(m, o[0])(*o[1:])) if y1 - y0 > 1e-9 * u and x1 - x0 > 1e-9 * u]
    return [go([[base, d]] + others, i) for i, d in enumerate((drawing(0), parts, drawing(2), drawing(1)))]
