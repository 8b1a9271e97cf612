"""C05 results depend on the current settings only"""
import hashlib
import numpy as np
import mlib
from driver import Gen
ID = 'C05'
SETTLE = False
TRACE = 'C05Trace'
LIMIT = 150


def models(tier):
    return [('SessionModel', 'SessionModel.cfg')]


def gens(tier, seed):
    n, j = (120, 10) if tier == 'quick' else (2500, 150)
    return [Gen('GenSession', 'C05Gen.cfg', sim=n, seed=seed), Gen('GenSession', 'C05GenJax.cfg', sim=j, seed=seed)]


def lane(s):
    return 'any' if s['b'] != 1 else f"jax:{mlib.spread(s, 4)}"


def cover(s):
    return [f"backend={s['b']}"] + [a['act'] + (':' + a['field'] if a['act'] == 'set' else '') for a in s['acts']]


def cell(name, b):
    """menu of unit cells (two layers each)"""
    r = np.random.default_rng(5)
    if name == 'a':
        return mlib.arr(b, np.where(r.random((2, 1, 8)) < .5, 1.0, 2.2))
    if name == 'b':
        return mlib.arr(b, np.where(r.random((2, 1, 8)) < .5, 1.5, 2.0 - 0.3j))
    if name == 'c':
        return mlib.arr(b, np.where(r.random((2, 4, 6)) < .5, 1.0, 1.9))
    if name == 'h':
        return mlib.arr(b, np.stack([np.full((1, 6), 1.7), np.array([[1., 1, 2, 2, 3, 1]])]))
    if name == 's':
        return mlib.arr(b, np.where(r.random((1, 3, 5)) < .5, 1.3, 2.1))
    if name == 'x':
        return mlib.arr(b, np.array([[[1., 1, 2.5 - .2j, 2.5 - .2j, 1.6]]]))
    if name == 't':
        return mlib.arr(b, np.where(r.random((3, 1, 7)) < .5, 1.2, 2.4))
    if name == 'u':
        return mlib.arr(b, np.where(r.random((3, 4, 4)) < .5, 1.0, 1.8 - 0.05j))
    if name in 'def':
        c = np.where(r.random((2, 1, 8)) < .5, 1.0, 2.2) + (0j if name == 'e' else 0)
        c[1, 0, 5] += dict(d=.3, e=-.2j, f=0)[name]
        return mlib.arr(b, c if name != 'f' else c[::-1].copy())
    if name in 'pqr':
        return mlib.arr(b, np.where(r.random(24) < .5, 1.1, 2.3).reshape(dict(p=(2, 2, 6), q=(2, 3, 4), r=(2, 1, 12))[name]))
    P = (1.1, 1.3)
    if name == 'n':
        return [[1.0, [['rectangle', .5 * P[0], .5 * P[1], .4 * P[0], .3 * P[1], 2.0, -0.4, 3, 4]]], [1.5, [['rectangle', .45 * P[0], .5 * P[1], .3 * P[0], .2 * P[1], 2.4, -1.9, 2, 5]]]]
    if name == 'v':
        return [[1.0, [['rectangle', .5 * P[0], .4 * P[1], .5 * P[0], .5 * P[1], 2.0, 0, 0, 0]]],
                [1.5, [['rectangle', .3 * P[0], .5 * P[1], .2 * P[0], .6 * P[1], 2.4 - 0.1j, 0, 0, 0], ['rectangle', .6 * P[0], .6 * P[1], .3 * P[0], .3 * P[1], 1.1, 0, 0, 0]]]]
    return [[2.0, [['rectangle', .45 * P[0], .5 * P[1], .3 * P[0], .4 * P[1], 1.0, 0.4, 3, 4]]], [1.2, [['rectangle', .5 * P[0], .5 * P[1], .4 * P[0], .4 * P[1], 1.9, 0, 0, 0]]]]


def value(f, v, b):
    """(attribute, python value) of a menu entry"""
    fl = lambda t: [float(x) for x in t.split(',')]
    if f == 'cell':
        return 'ucell', cell(v, b)
    if f == 'fto':
        return 'fto', [int(x) for x in v.split(',')]
    if f == 'phi':
        return 'phi', None if v == 'none' else float(v)
    if f == 'pol':
        return v[:3], float(v[3:])
    if f == 'nbot':
        return 'n_bot', complex(v) if 'j' in v else float(v)
    if f == 'thick':
        return 'thickness', np.array(fl(v)) if v == '0.7,0.05' else fl(v)
    if f == 'period':
        return 'period', fl(v)
    if f == 'ft':
        return 'fourier_type', int(v)
    if f == 'enh':
        return 'enhanced_dfs', v == '1'
    return {'theta': 'theta', 'wl': 'wavelength', 'ntop': 'n_top'}[f], float(v)


def digest(o):
    h = hashlib.sha1()

    def go(x):
        if isinstance(x, (list, tuple)):
            h.update(b'[')
            for y in x:
                go(y)
            h.update(b']')
        elif isinstance(x, (str, type(None))):
            h.update(repr(x).encode())
        else:
            a = mlib.to_np(x)
            h.update(str(a.dtype).encode() + str(a.shape).encode() + a.tobytes())
    go(o)
    return h.hexdigest()[:12]


def flat(a):
    a = np.asarray(a).astype(complex).reshape(-1)
    return [mlib.num(v) for p in a for v in (p.real, p.imag)]


def jsolve(o):
    v, shape = [], []
    for k in ('res', 'te', 'tm'):
        if o[k] is not None:
            shape += [k] + list(o[k]['de_ri'].shape)
            for f in ('de_ri', 'de_ti', 'de_ri_s', 'de_ri_p', 'de_ti_s', 'de_ti_p'):
                v += mlib.nums(o[k][f])
            for f in ('R_s', 'R_p', 'T_s', 'T_p'):
                v += flat(o[k][f])
    return dict(shape=[str(x) for x in shape], v=v)


def jfield(a):
    a = mlib.to_np(a)
    f = a.reshape(-1)
    n = min(40, f.size)
    return dict(shape=[str(x) for x in a.shape], v=flat(f[np.linspace(0, f.size - 1, n).astype(int)]) + flat([f.sum()]))


def asked(a):
    x, y, z = (int(t) for t in a['grid'].split(','))
    return dict(res_x=x, res_y=y, res_z=z, set_field_input=tuple(t == '1' for t in a['inp']))


def replay(s):
    b = s['b']
    pool, objs, ev, given = {}, {}, [], []

    def get(f, v):
        if (f, v) not in pool:
            pool[(f, v)] = value(f, v, b)
        return pool[(f, v)]

    def inputs():
        return [digest(pool[k][1]) for k in sorted(pool)]

    def build(st, fresh):
        return mlib.mee(b, **dict((value(f, v, b) if fresh else get(f, v)) for f, v in sorted(st.items())))

    def bind(x):
        mlib.tick(b)
        return x
    for i, a in enumerate(s['acts'], 1):
        if a['act'] == 'new':
            objs[a['obj']] = build(a['set'], False)
            continue
        m = objs[a['obj']]
        if a['act'] == 'set':
            k, v = get(a['field'], a['value'])
            setattr(m, k, v)
            continue
        ref = build(a['set'], True)
        how = a['grid'] + a['inp'] if 'grid' in a else ''
        kw = dict([get(a['field'], a['value'])]) if a['act'] == 'with' else {}
        before = inputs()
        if a['act'] in ('solve', 'with'):
            bind(0)
            r = m.conv_solve(**kw)
            after = inputs()
            got = jsolve(as_dict(r))
            given.append((r, got))
            ev.append(dict(ev='solve', i=i, how='', got=got, ref=jsolve(mlib.solve(ref)), before=before, after=after))
        elif a['act'] == 'field':
            f = m.calculate_field(**asked(a))
            after = inputs()
            got = jfield(f)
            given.append((f, got))
            mlib.solve(ref)
            ev.append(dict(ev='field', i=i, how=how, got=got, ref=jfield(ref.calculate_field(**asked(a))), before=before, after=after))
        else:
            r, f = m.conv_solve_field(**asked(a))
            after = inputs()
            got, gof = jsolve(as_dict(r)), jfield(f)
            given += [(r, got), (f, gof)]
            rr = mlib.solve(ref)
            ev.append(dict(ev='solve', i=i, how='', got=got, ref=jsolve(rr), before=before, after=after))
            ev.append(dict(ev='field', i=i, how=how, got=gof, ref=jfield(ref.calculate_field(**asked(a))), before=before, after=after))
    now = [jsolve(as_dict(r)) if hasattr(r, 'res') else jfield(r) for r, _ in given]
    ev.append(dict(ev='audit', then=[digest([g['v']]) for _, g in given], now=[digest([g['v']]) for g in now]))
    return ev


def as_dict(r):
    return dict(res=mlib.sub(r.res), te=mlib.sub(r.res_te_inc), tm=mlib.sub(r.res_tm_inc))
