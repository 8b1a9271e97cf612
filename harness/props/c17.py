"""C17 single and double precision"""
import numpy as np
import mlib
from driver import Gen
ID = 'C17'
NUDGE = 1e-7
TRACE = 'C17Trace'


def models(tier):
    return [('PrecisionModel', 'PrecisionModel.cfg')]


def gens(tier, seed):
    a, c, j = (260, 180, 16) if tier == 'quick' else (3000, 2000, 200)
    return [Gen('GenPrecision', f, sim=n, seed=seed) for f, n in (('C17Gen.cfg', a), ('C17GenClear.cfg', c), ('C17GenJax.cfg', j))]


def lane(s):
    return 'any' if s['cfg']['b'] != 1 else f"jax:{mlib.spread(s, 5)}"


def cover(s):
    return [f"backend={s['cfg']['b']}"] + [a['act'] + (':' + a['name'] if 'name' in a else '') for a in s['acts']]


def named(b, name):
    if name in '01':
        return int(name)
    if name.startswith('np'):
        return {'np128': np.complex128, 'np64': np.complex64}[name]
    return getattr(mlib.backend_mod(b), {'own128': 'complex128', 'own64': 'complex64'}[name])


def pixels(c, kw):
    """the cell as one rectangle per pixel"""
    px, py = kw['period']
    a = kw['ucell']
    L, R, C = a.shape
    num = lambda v: complex(v) if np.iscomplexobj(a) else float(v)
    return [[num(a[l, 0, 0]), [['rectangle', (x + .5) * px / C, py - (r + .5) * py / R, px / C, py / R, num(a[l, r, x]), 0, 0, 0] for r in range(R) for x in range(C)]] for l in range(L)]


def eff(r):
    v, t = [], []
    for part in ('res', 'te', 'tm'):
        if r[part] is None:
            continue
        for f in mlib.FIELDS:
            t.append(str(r[part][f].dtype))
            if f.startswith('de'):
                v += mlib.nums(r[part][f])
    return v, sorted(set(t))


RES = dict(res_x=5, res_y=3, res_z=3)


def fld(m):
    a = mlib.to_np(m.calculate_field(**RES))
    f = a.reshape(-1).astype(complex)
    f = f[np.linspace(0, f.size - 1, min(60, f.size)).astype(int)]
    return [mlib.num(x) for z in f for x in (z.real, z.imag)], [str(a.dtype)]


def replay(s):
    c, ev = s['cfg'], []
    b, kw, cell = c['b'], mlib.conc(s['cfg']), None
    if s['acts'][0]['vec']:
        kw['ucell'] = pixels(c, kw)

    def build(name):
        import copy
        return mlib.mee(b, type_complex=named(b, name), **copy.deepcopy(kw))
    m, prec = build(s['acts'][0]['name']), s['acts'][0]['p']
    for i, a in enumerate(s['acts'], 1):
        if a['act'] == 'switch':
            m.type_complex, prec = named(b, a['name']), a['p']
        elif a['act'] == 'set':
            k = a['field'] if a['field'] in kw else 'psi'
            setattr(m, k, mlib.conv(b, k, kw[k]))
        elif a['act'] in ('solve', 'field'):
            x, y = build('0'), build('0' if prec == 'double' else '1')
            r = [mlib.solve(o) for o in (m, x, y)]
            (g, t), (e, _), (q, _) = [eff(o) if a['act'] == 'solve' else fld(z) for o, z in zip(r, (m, x, y))]
            ev.append(dict(ev=a['act'], i=i, got=g, exact=e, same=q, types=t))
    return ev
