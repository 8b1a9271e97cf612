"""C13 gradients and optimiser steps"""
import numpy as np
import mlib
from driver import Gen
ID = 'C13'
SETTLE = False
TRACE = 'C13Trace'
H = 1e-4
LIMIT = 300


def models(tier):
    return [('DescentModel', 'DescentModel.cfg')]


def gens(tier, seed):
    a, c, j, o, d, x = (36, 24, 11, 60, 36, 16) if tier == 'quick' else (900, 600, 150, 1500, 800, 300)
    return [Gen('GenGrad', f, sim=n, seed=seed) for f, n in (('C13Gen.cfg', a), ('C13GenClear.cfg', c), ('C13GenJax.cfg', j), ('C13Own.cfg', o), ('C13Draw.cfg', d), ('C13Axes.cfg', x))]


def lane(s):
    return 'any' if s['cfg']['b'] != 1 else f"jax:{mlib.spread(s, 6)}"


def cover(s):
    return [f"backend={s['cfg']['b']}"] + [a['act'] + ':' + (a['what'] if 'what' in a else '+'.join(a.get('pois', []))) for a in s['acts']]


def lossfn(spec):
    """a loss over a result; works on the arrays of every backend"""
    k = spec['s']
    w = lambda i: ((i * k + 3) % 7 - 2) / 5

    def f(r):
        if spec['kind'] == 'amp':
            v = [x.reshape(-1) for x in (r.res.R_s, r.res.R_p, r.res.T_s, r.res.T_p)]
            v = [a.real ** 2 + a.imag ** 2 for a in v]
            return sum(w(i + 2 * j) * a[i] for j, a in enumerate(v) for i in range(len(a)))
        a, b = r.de_ri.reshape(-1), r.de_ti.reshape(-1)
        lin = sum(w(i) * a[i] + w(i + 1) * b[i] for i in range(len(a)))
        return lin if spec['kind'] == 'lin' else (lin - 0.4) ** 2 + sum(b[i] ** 2 for i in range(len(b)))
    return f


def value(b, kw, loss):
    """the loss at settings kw, by the numpy backend where it speaks for b"""
    if b == 1:
        return float(np.real(loss(mlib.mee(0, **kw).conv_solve())))
    torch = mlib.backend_mod(2)
    with torch.no_grad():
        return float(loss(mlib.mee(2, **kw).conv_solve()))


def comps_of(v, cap):
    """(index, direction) of the components of a setting"""
    v = np.asarray(v)
    idx = list(np.ndindex(v.shape))
    if cap and len(idx) > cap:
        idx = [idx[i] for i in np.linspace(0, len(idx) - 1, cap).astype(int)]
    return [(i, 're') for i in idx] + ([(i, 'im') for i in idx] if np.iscomplexobj(v) else [])


def nudged(v, i, part, t):
    v = np.array(v, dtype=complex if np.iscomplexobj(v) else float)
    v[i] += t * (1j if part == 'im' else 1)
    return v


def give(poi, v):
    return v if poi == 'ucell' else (v.tolist() if v.ndim else float(np.real(v)))


def stencil(at):
    return [at(t * H) for t in (-2, -1, 1, 2)]


def settings(c):
    kw = mlib.conc(c)
    if 'psi' not in kw and kw['pol'] not in (0, 1):
        kw['psi'] = np.pi / 2 * (1 - kw.pop('pol'))
    return kw


def flatten(v):
    v = mlib.to_np(v)
    v = np.asarray(v)
    r = [float(x) for x in np.real(v).reshape(-1)]
    return r + ([float(x) for x in np.imag(v).reshape(-1)] if np.iscomplexobj(v) else [])


def strs(xs):
    return [mlib.num(x) for x in xs]


def replay(s):
    b, cur, ev = s['cfg']['b'], settings(s['cfg']), []
    first = s['acts'][0]
    loss = lossfn(dict(kind='sq', s=1))
    if first['act'] in ('own', 'draw', 'axes'):
        torch = mlib.backend_mod(2)
        loss = lossfn(first['loss'])
        part, ref = globals()[first['act']](torch, b, cur, first, loss)
        return [dict(ev='grad', i=1, parts=[part]), ref]
    m = mlib.mee(b, **cur)
    for n, a in enumerate(s['acts'], 1):
        if a['act'] == 'set':
            cur['thickness'] = [t / 10000 for t in a['thick']]
            m.thickness = list(cur['thickness'])
        elif a['act'] == 'solve':
            ev.append(dict(ev='solve', got=mlib.num(np.real(mlib.to_np(loss(m.conv_solve())))), ref=mlib.num(value(b, cur, loss))))
        elif a['act'] == 'grad':
            lf = lossfn(a['loss'])
            before = {p: strs(flatten(getattr(m, p))) for p in a['pois']}
            g = m.grad(list(a['pois']), m.conv_solve, lf)
            g = {p: mlib.to_np(g[p]) for p in a['pois']}
            parts = []
            for p in a['pois']:
                v = np.asarray(cur[p])
                cs = []
                for i, d in comps_of(v, 8):
                    st = stencil(lambda t: value(b, dict(cur, **{p: give(p, nudged(v, i, d, t))}), lf))
                    x = g[p][i]
                    cs.append(dict(g=mlib.num(np.imag(x) if d == 'im' else np.real(x)), part=d, st=strs(st)))
                parts.append(dict(poi=p, comps=cs, before=before[p], after=strs(flatten(getattr(m, p)))))
            ev.append(dict(ev='grad', i=n, parts=parts))
        else:
            ev.append(fit(m, b, cur, a, n))
    ev.append(dict(ev='solve', got=mlib.num(np.real(mlib.to_np(loss(m.conv_solve())))), ref=mlib.num(value(b, cur, loss))))
    return ev


def fit(m, b, cur, a, n):
    lf, pois, rate, mom = lossfn(a['loss']), list(a['pois']), float(a['rate']), float(a['m'])
    if b == 1:
        import optax
        ret = m.fit(pois, m.conv_solve, lf, optax.sgd(rate, momentum=mom or None), a['k'])
        ret = [ret[p] for p in pois]
    else:
        torch = mlib.backend_mod(2)
        ret = m.fit(pois, m.conv_solve, lf, torch.optim.SGD, dict(lr=rate, momentum=mom), a['k'])
    now = {p: np.asarray(cur[p]) for p in pois}
    vel = {p: np.zeros_like(now[p]) for p in pois}
    out = {p: dict(poi=p, path=[strs(flatten(now[p]))], sts=[]) for p in pois}
    for _ in range(a['k']):
        at = dict(cur, **{p: give(p, now[p]) for p in pois})
        step = {}
        for p in pois:
            sts, slope = [], []
            for i, d in comps_of(now[p], 0):
                v = stencil(lambda t: value(b, dict(at, **{p: give(p, nudged(now[p], i, d, t))}), lf))
                sts.append(strs(v))
                slope.append((8 * (v[2] - v[1]) - (v[3] - v[0])) / (12 * H))
            k = now[p].size
            g = np.array(slope[:k]).reshape(now[p].shape)
            if len(slope) > k:
                g = g + 1j * np.array(slope[k:]).reshape(now[p].shape)
            step[p] = g
            out[p]['sts'].append(sts)
        for p in pois:
            vel[p] = mom * vel[p] + step[p]
            now[p] = now[p] - rate * vel[p]
            out[p]['path'].append(strs(flatten(now[p])))
    for k, p in enumerate(pois):
        got = mlib.to_np(getattr(m, p))
        out[p].update(got=strs(flatten(got)), ret=strs(flatten(ret[k])))
        cur[p] = give(p, got)
    return dict(ev='fit', i=n, parts=[out[p] for p in pois])


def finish(torch, b, cur, lf, poi, leaf, base, build, cap=8):
    """compare leaf.grad with quotients of the loss over build(value)"""
    g = leaf.grad
    g = np.full(base.shape, np.nan) if g is None else mlib.to_np(g)
    def val(x):
        with torch.no_grad():
            return float(lf(build(x)))
    cs = []
    for i, d in comps_of(base, cap):
        st = stencil(lambda t: val(torch.tensor(nudged(base, i, d, t))))
        cs.append(dict(g=mlib.num(np.imag(g[i]) if d == 'im' else np.real(g[i])), part=d, st=strs(st)))
    held = strs(flatten(base))
    ref = mlib.num(val(torch.tensor(base)))
    return dict(poi=poi, comps=cs, before=held, after=strs(flatten(leaf.detach()))), ref


def own(torch, b, cur, a, lf):
    what, how = a['what'], a['how']
    key = {'mixed': 'thickness', 'period1': 'period'}.get(what, what)
    base = np.asarray(cur[key])
    if what == 'mixed':
        base = base[:1]
    if what == 'period1':
        base = base[:1]
    base = base.astype(complex if np.iscomplexobj(base) else float)

    def build(x):
        v = [x[0]] + list(cur['thickness'])[1:] if what == 'mixed' else x
        rest = dict(cur)
        if how == 'ctor':
            return mlib.mee(2, **dict(rest, **{key: v})).conv_solve()
        m = mlib.mee(2, **rest)
        if how == 'attr':
            setattr(m, key, v)
            return m.conv_solve()
        return m.conv_solve(**{key: v})
    leaf = torch.tensor(base, requires_grad=True)
    out = lf(build(leaf))
    out.backward()
    part, ref = finish(torch, b, cur, lf, key, leaf, base, build)
    return part, dict(ev='solve', got=mlib.num(float(out.detach())), ref=ref)


def draw(torch, b, cur, a, lf):
    px, py = cur['period']
    u = min(px, py) / 100
    at, what = a['at'] - 1, a['what']

    def num(o, k):
        return {'cx': o['cx'] / 100 * px, 'cy': o['cy'] / 100 * py, 'lx': o['lx'] * u, 'ly': o['ly'] * u, 'angle': float(o['angle']), 'v': mlib.index(o['v'])}[k]
    base = np.asarray(num(a['prog'][at], what))

    def build(x):
        cell = []
        for l, o in enumerate(a['prog']):
            g = lambda k: x if (l, k) == (at, what) else num(o, k)
            nt, np_ = (o['nt'], o['np']) if o['shape'] == 'rectangle' else (6 + 2 * o['nt'], 6 + 2 * o['nt'])
            cell.append([mlib.index(o['base']), [[o['shape'], g('cx'), g('cy'), g('lx'), g('ly'), g('v'), g('angle'), nt, np_]]])
        return mlib.mee(2, **dict(cur, ucell=cell)).conv_solve()
    leaf = torch.tensor(base, requires_grad=True)
    out = lf(build(leaf))
    out.backward()
    part, ref = finish(torch, b, cur, lf, what, leaf, base, build)
    return part, dict(ev='solve', got=mlib.num(float(out.detach())), ref=ref)


def axes(torch, b, cur, a, lf):
    # E and H modes of an isotropic layer may nearly coincide; the solver's broadening of the mode derivative is a setting
    cur = dict(cur, perturbation=1e-14)
    base = np.stack([cur['ucell'] + k / 100 for k in a['more']], axis=-1)

    def build(x):
        return mlib.mee(2, **dict(cur, ucell=x)).conv_solve()
    leaf = torch.tensor(base, requires_grad=True)
    out = lf(build(leaf))
    out.backward()
    part, ref = finish(torch, b, cur, lf, 'ucell', leaf, base, build, cap=9)
    return part, dict(ev='solve', got=mlib.num(float(out.detach())), ref=ref)
