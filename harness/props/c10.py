"""C10 reconstructed fields"""
import math
import numpy as np
import mlib
from driver import Gen
ID = 'C10'
TRACE = 'C10Trace'
LIMIT = 150


def models(tier):
    return [('FieldModel', 'FieldModel.cfg')]


def gens(tier, seed):
    n, l, p, j = (80, 50, 60, 8) if tier == 'quick' else (2500, 1200, 800, 120)
    return [Gen('GenField', 'C10Gen.cfg', sim=n, seed=seed), Gen('GenField', 'C10GenClear.cfg', sim=l, seed=seed), Gen('GenField', 'C10Planar.cfg', sim=p, seed=seed), Gen('GenField', 'C10GenJax.cfg', sim=j, seed=seed)]


def lane(s):
    return mlib.lane(s['cfg'])


def cover(s):
    c = s['cfg']
    return [f"backend={c['b']}", f"route={mlib.route(c)}", f"layers={c['shape']['layers']}", f"inputs={sum(s['grid']['inp'])}"]


def cartesian(b, pol, f):
    """six Cartesian components, varying as exp(-ikr): the numpy and jax planar solver returns three, torch documents another convention"""
    if f.shape[-1] == 3:
        z = np.zeros_like(f[..., 0])
        f = np.stack((z, f[..., 0], z, f[..., 1], z, f[..., 2]) if pol == 0 else (f[..., 1], z, f[..., 2], z, f[..., 0], z), -1)
    return f.conj() * np.array([-1, 1, -1, 1, -1, 1]) if b == 2 else f


def orders(c, kw, f):
    """plane wave amplitudes of f[plane, y, x, component] sampled over exactly one period (end points included), and how well they reproduce the samples"""
    ph = kw['phi'] or 0.
    k0 = 2 * math.pi / kw['wavelength']
    s = kw['n_top'] * math.sin(kw['theta'])
    px, py = kw['period']
    fx, fy = kw['fto']
    kx = s * math.cos(ph) + np.arange(-fx, fx + 1) * kw['wavelength'] / px
    ky = s * math.sin(ph) + np.arange(-fy, fy + 1) * kw['wavelength'] / py
    x = np.linspace(0, px, f.shape[2])
    y = np.linspace(0, py, f.shape[1])[::-1]
    ex, ey = np.exp(-1j * k0 * np.outer(x, kx)), np.exp(-1j * k0 * np.outer(y, ky))
    n, m = f.shape[2] - 1, f.shape[1] - 1
    if m == 0:
        a = np.einsum('xa,zyxc->zyac', ex[:n].conj(), f[:, :, :n]) / n
        back = np.einsum('xa,zyac->zyxc', ex, a)
    else:
        a = np.einsum('xa,yb,zyxc->zbac', ex[:n].conj(), ey[1:].conj(), f[:, 1:, :n]) / n / m
        back = np.einsum('xa,yb,zbac->zyxc', ex, ey, a)
    return a, float(np.abs(back - f).max())


def synth(kw, a, nx, ny):
    """the field of plane waves a[plane, order y, order x, component] on another lateral grid"""
    ph = kw['phi'] or 0.
    k0 = 2 * math.pi / kw['wavelength']
    s = kw['n_top'] * math.sin(kw['theta'])
    ks = [s * u + np.arange(-f, f + 1) * kw['wavelength'] / p for u, f, p in zip((math.cos(ph), math.sin(ph)), kw['fto'], kw['period'])]
    ex = np.exp(-1j * k0 * np.outer(np.linspace(0, kw['period'][0], nx), ks[0]))
    if ny is None:
        return np.einsum('xa,zyac->zyxc', ex, a)
    return np.einsum('xa,yb,zbac->zyxc', ex, np.exp(-1j * k0 * np.outer(np.linspace(0, kw['period'][1], ny)[::-1], ks[1])), a)


def replay(s):
    c, g = s['cfg'], s['grid']
    kw = mlib.conc(c)
    r = mlib.route(c)
    inp = tuple(g['inp']) if r != '1d' else (True, False, False)
    ny = g['y'] + 1 if r != '1d' else 1
    names = [n for n, i in zip(('res', 'te', 'tm'), inp) if i]

    def measure(b, nx, ny, nz, both=False):
        m = mlib.mee(b, **dict(kw, phi=None if r == '1d' and b == 0 else kw['phi']))
        if both:
            o, f = m.conv_solve_field(res_x=nx, res_y=ny, res_z=nz, set_field_input=inp)
            o = mlib.result(o)
        else:
            o = mlib.solve(m)
            f = m.calculate_field(res_x=nx, res_y=ny, res_z=nz, set_field_input=inp)
        f = mlib.to_np(f)
        sh = list(f.shape)
        if f.ndim == 4:
            f = f[None]
        return o, sh, [cartesian(b, kw.get('pol'), f[i]) for i in range(f.shape[0])]

    def js(a):
        return [[[[mlib.num(v.real), mlib.num(v.imag)] for v in w] for w in p.reshape(-1, 6)] for p in a]
    o, sh, fs = measure(c['b'], g['x'] + 1, ny, g['z'])
    ev = [dict(ev='solve', **mlib.jres(o)), dict(ev='grid', shape=sh, want=names)]
    amps = []
    for n, f in zip(names, fs):
        a, res = orders(c, kw, f)
        amps.append(a)
        ev.append(dict(ev='field', inp=n, a=js(a), resid=mlib.num(res), big=mlib.num(np.abs(f).max())))
    # the same planes sampled on another lateral grid, through the combined call
    k = g['fine']
    o2, _, f2 = measure(c['b'], g['x'] * k + 1, 1 if r == '1d' else g['y'] * k + 1, g['z'], both=True)
    d = max(float(np.abs(u[:, ::-1][:, ::(k if r != '1d' else 1), ::k][:, ::-1] - v).max() if u.shape[0] == v.shape[0] else 9e9) for u, v in zip(f2, fs))
    ev.append(dict(ev='again', gap=mlib.num(d), big=mlib.num(max(np.abs(f).max() for f in fs)), **mlib.jres(o2)))
    # very coarse grids: few points, one plane or two (top and bottom) per layer
    q = g['few']
    _, sh3, f3 = measure(c['b'], q['x'], 1 if r == '1d' else q['y'], q['z'])
    pick = [l * g['z'] + z for l in range(c['shape']['layers']) for z in ([0] if q['z'] == 1 else [0, g['z'] - 1])]
    gap = 0.
    for a, u in zip(amps, f3):
        v = synth(kw, a[pick], q['x'], None if r == '1d' else q['y'])
        gap = max(gap, float(np.abs(u - v).max()) if u.shape == v.shape else 9e9)
    ev.append(dict(ev='few', gap=mlib.num(gap if len(f3) == len(amps) else 9e9), big=mlib.num(max(np.abs(f).max() for f in fs)), shape=sh3))
    if c['b'] != 0:
        _, _, f0 = measure(0, g['x'] + 1, ny, g['z'])
        for n, f in zip(names, f0):
            ev.append(dict(ev='ref', inp=n, a=js(orders(c, kw, f)[0])))
    return ev
