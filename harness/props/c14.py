"""C14 settings: spellings and refusals"""
import math
import numpy as np
import mlib
from driver import Gen
ID = 'C14'
SETTLE = False
TRACE = 'C14Trace'


def models(tier):
    return [('SettingsModel', 'SettingsModel.cfg')]


def gens(tier, seed):
    n, j = (480, 16) if tier == 'quick' else (5000, 250)
    return [Gen('GenSettings', 'C14Gen.cfg', sim=n, seed=seed), Gen('GenSettings', 'C14GenJax.cfg', sim=j, seed=seed)]


def lane(s):
    return 'any' if s['b'] != 1 else f"jax:{mlib.spread(s, 4)}"


def cover(s):
    o = [f"backend={s['b']}"]
    for a in s['acts']:
        o.append(a['act'] + (':' + a['field'] + ':' + a['sp']['how'] if 'field' in a else ''))
    return o


ATTR = dict(thick='thickness', wl='wavelength', cell='ucell', prec='type_complex')


def raster(name, layers):
    """integer-valued or binary-fraction cells, exact in every number type"""
    a = np.array([[[1, 2, 2, 1, 1, 3]], [[2, 1, 1, 1, 3, 3]]])[:layers]
    return a if name == '1' else np.array([[[1, 2, 2], [1, 1, 3]], [[2, 1, 3], [2, 1, 3]]])[:layers]


def vector(layers):
    return [[1.0, [['rectangle', 0.5, 0.6, 0.5, 0.4, 2.0, 0, 0, 0]]], [1.5, [['rectangle', 0.4, 0.5, 0.25, 0.5, 2.5, 0, 0, 0]]]][:layers]


def conv(f, x):
    x = float(x)
    return math.radians(x) if f == 'psi' else x


def make(b, f, sp, layers):
    """the python value a spelling stands for"""
    how, v = sp['how'], sp['v']
    m = mlib.backend_mod(b)
    if how == 'str':
        return 'meent'
    if how == 'dict':
        return {'a': 1}
    if how == 'none':
        return None
    if f == 'cell':
        if how == 'list':
            return vector(layers)
        if how == 'tuple':
            return tuple(vector(layers))
        if how == 'float':
            return 2.0
        if how == 'strarray':
            return np.full((layers, 1, 4), 'x')
        if how == 'bool':
            return mlib.arr(b, np.ones((layers, 1, 4), bool))
        if how == 'flat':
            return mlib.arr(b, np.ones((layers, 4)))
        if how == 'pairs':
            return mlib.arr(b, np.ones((layers, 1, 4, 2)))
        a = raster(v[0], layers).astype(how)
        return a if len(v[0]) + layers == 3 else mlib.arr(b, a)
    if f == 'prec' and how == 'float64':
        return np.float64
    x = [conv(f, t) for t in v]
    if f == 'fto':
        x = [int(t) for t in x]
    if how == 'int':
        return int(x[0])
    if how == 'float':
        return float(x[0])
    if how == 'complex':
        return complex(x[0])
    if how == 'npint':
        return np.int64(x[0])
    if how == 'npfloat':
        return np.float64(x[0])
    if how == 'array0':
        return np.array(x[0])
    if how == 'own0':
        return mlib.arr(b, np.array(x[0]))
    if how == 'list':
        return x
    if how == 'tuple':
        return tuple(x)
    a = np.array(x, dtype=int if f == 'fto' else float)
    return a if how == 'array' else mlib.arr(b, a)


def sc(x):
    return mlib.real1(np.asarray(x) if not hasattr(x, 'detach') else x)


def show(m):
    return dict(fto=[mlib.num(v) for v in m.fto], period=mlib.nums(mlib.to_np(m.period)), thick=mlib.nums(mlib.to_np(m.thickness)), theta=sc(m.theta),
                phi='none' if m.phi is None else sc(m.phi), pol=sc(m.pol), psi=mlib.num(math.degrees(float(sc(m.psi)))), wl=sc(m.wavelength))


def plain(st, layers):
    cell = vector(layers) if st['kind'] == 'vector' else raster(st['cell'], layers).astype(complex)
    f = lambda xs: [float(frac(x)) for x in xs]
    return dict(fto=[int(frac(x)) for x in st['fto']], period=f(st['period']), thickness=f(st['thick']), theta=float(frac(st['theta'])),
                phi=None if st['phi'] == 'none' else float(frac(st['phi'])), pol=float(frac(st['pol'])), wavelength=float(frac(st['wl'])), ucell=cell, **FIXED)


def frac(x):
    from fractions import Fraction
    return Fraction(x)


FIXED = dict(n_top=1.25, n_bot=1.75)


def eff(o):
    v = []
    for f in ('de_ri', 'de_ti', 'de_ri_s', 'de_ri_p', 'de_ti_s', 'de_ti_p'):
        v += mlib.nums(o['res'][f])
    return dict(shape=mlib.shape_of(o['res']['de_ri']), v=v)


BADNEW = dict(backend=dict(backend=3), prec=dict(type_complex=7), pol=dict(pol=1.25), fto=dict(fto=[1, 2, 3]))


def replay(s):
    b, layers, ev, m = s['b'], s['layers'], [], None
    for i, a in enumerate(s['acts'], 1):
        if a['act'] == 'new':
            kw = {ATTR.get(f, f): make(b, f, sp, layers) for f, sp in a['sp'].items()}
            import meent
            m = meent.call_mee(backend=b, **kw, **FIXED)
            ev.append(dict(ev='new', i=i, now=show(m)))
        elif a['act'] == 'set':
            setattr(m, ATTR.get(a['field'], a['field']), make(b, a['field'], a['sp'], layers))
            ev.append(dict(ev='set', i=i, now=show(m)))
        elif a['act'] in ('bad', 'odd'):
            x = make(b, a['field'], a['sp'], layers)
            try:
                setattr(m, ATTR.get(a['field'], a['field']), x)
                ok = True
            except Exception:
                ok = False
            ev.append(dict(ev=a['act'], i=i, raised=not ok, now=show(m)))
            if ok and a['act'] == 'odd':
                k = {'psi': 'pol'}.get(a['field'], a['field'])
                setattr(m, k, plain(a['set'], layers)[k])
        elif a['act'] == 'badnew':
            import meent
            kw = dict(backend=b)
            kw.update(BADNEW[a['what']])
            try:
                meent.call_mee(**kw)
                ok = True
            except Exception:
                ok = False
            ev.append(dict(ev='badnew', what=a['what'], raised=not ok))
        else:
            st = a['set']
            e = dict(ev='solve', i=i, got=eff(mlib.solve(m)), ref=eff(mlib.run(b, **plain(st, layers))), now=show(m))
            mixed = b == 2 and st['pol'] not in ('0', '1')  # the listed finding of C03
            if b and not mixed:
                e['num'] = eff(mlib.run(0, **plain(st, layers)))
            ev.append(e)
    return ev
