"""Thin adaptor over meent's PUBLIC api (call_mee, attribute setters, conv_solve,
calculate_field).  Nothing here touches private helpers, so behaviour-preserving
rewrites of meent cannot disturb the checks."""
import os, sys, warnings, io, contextlib
for k, v in dict(JAX_PLATFORMS='cpu', CUDA_VISIBLE_DEVICES='', MPLBACKEND='agg', OMP_NUM_THREADS='1',
                 OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1', PYTHONDONTWRITEBYTECODE='1').items():
    os.environ.setdefault(k, v)
sys.dont_write_bytecode = True
REPO = os.environ.get('MEENT_REPO', '/repo')
if REPO not in sys.path:
    sys.path.insert(0, REPO)
import numpy as np
_mods = {}

def backend_mod(b):
    """array module conversion helper"""
    if b == 1 and 'jnp' not in _mods:
        import jax
        jax.config.update('jax_enable_x64', True)
        import jax.numpy as jnp
        _mods['jnp'] = jnp
    if b == 2 and 'torch' not in _mods:
        import torch
        torch.set_num_threads(1)
        _mods['torch'] = torch
    return {0: np, 1: _mods.get('jnp'), 2: _mods.get('torch')}[b]

def arr(b, a):
    m = backend_mod(b)
    a = np.asarray(a)
    if b == 0:
        return a.copy()
    if b == 1:
        return m.array(a)
    return m.tensor(a.copy())

def to_np(x):
    if x is None:
        return None
    if hasattr(x, 'detach'):
        x = x.detach().cpu().resolve_conj().numpy()
    return np.array(x)

def conv(b, k, v):
    if k == 'ucell' and isinstance(v, np.ndarray):
        return arr(b, v)
    return v

def mee(b, **cfg):
    import meent
    backend_mod(b)
    return meent.call_mee(backend=b, **{k: conv(b, k, v) for k, v in cfg.items()})

FIELDS = ['R_s', 'R_p', 'T_s', 'T_p', 'de_ri', 'de_ri_s', 'de_ri_p', 'de_ti', 'de_ti_s', 'de_ti_p']

def sub(r):
    return None if r is None else {f: to_np(getattr(r, f)) for f in FIELDS}

_njax = [0]


def tick(b):
    """JAX keeps every compiled program; drop them now and then"""
    if b == 1:
        _njax[0] += 1
        if _njax[0] % 80 == 0:
            import jax
            jax.clear_caches()


def solve(m):
    tick(getattr(m, 'backend', 0))
    return result(m.conv_solve())


def result(r):
    return dict(res=sub(r.res), te=sub(r.res_te_inc), tm=sub(r.res_tm_inc), de_ri=to_np(r.de_ri), de_ti=to_np(r.de_ti))

def run(b, **cfg):
    return solve(mee(b, **cfg))


# ------------------------------------------------------------------ Device.tla configurations -> meent arguments
import math
from fractions import Fraction


def index(code):
    n, k = divmod(code, 1000)
    if k > 900:
        return n / 100 + 10.0 ** (900 - k)
    return n / 100 - 1j * (k / 100) if k else n / 100


def angle(phi):
    return None if phi['none'] else math.atan2(phi['s'], phi['c']) + 2 * math.pi * phi['w']


def theta_of(c):
    return math.asin(Fraction(c['sin']) / 20)


def cell_of(c):
    a = np.array([[[index(v) for v in row] for row in lay] for lay in c['cell']])
    return a.astype(complex) if c['cplx'] else a


def polargs(p):
    if p['by'] in ('pol', 'share'):
        return dict(pol=p['v'] / (100 if p['by'] == 'pol' else 10000))
    return dict(psi=math.radians(p['v'] / (1 if p['by'] == 'psi' else 1000)))


NUDGE = [0.0]    # relative change of the wavelength, see driver.steady


def conc(c):
    lam = float(c['lam'])
    return dict(n_top=c['ntop'] / 100, n_bot=index(c['nbot']), theta=theta_of(c), phi=angle(c['phi']),
                period=[lam * 20 / float(Fraction(c['qx'])), lam * 20 / float(Fraction(c['qy']))], wavelength=lam * (1 + NUDGE[0]), fto=[c['shape']['fx'], c['shape']['fy']],
                thickness=[t / 10000 * lam for t in c['thick']], ucell=cell_of(c), fourier_type=0 if c['ft'] in (0, 2) else 1,
                enhanced_dfs=c['ft'] == 0, use_pinv=c.get('pinv', False), **polargs(c['pol']))


def num(x):
    x = float(x)
    return repr(x) if math.isfinite(x) else 'nan'


def nums(a):
    return [num(v) for v in np.asarray(a).real.reshape(-1)]


def shape_of(a):
    return list(np.asarray(a).shape)


def jsub(r):
    """efficiencies of one result record, flattened row-major"""
    return dict(shape=shape_of(r['de_ri']), R=nums(r['de_ri']), T=nums(r['de_ti']), Rs=nums(r['de_ri_s']), Rp=nums(r['de_ri_p']),
                Ts=nums(r['de_ti_s']), Tp=nums(r['de_ti_p']), tshape=shape_of(r['de_ti']))


def pairs(a):
    return [[num(v.real), num(v.imag)] for v in np.asarray(a).astype(complex).reshape(-1)]


def jamp(r):
    return dict(Rs=pairs(r['R_s']), Rp=pairs(r['R_p']), Ts=pairs(r['T_s']), Tp=pairs(r['T_p']))


def real1(x):
    return num(complex(to_np(x).reshape(-1)[0]).real)


def jres(o, amp=False):
    e = dict(res=jsub(o['res']), split=o['te'] is not None and o['tm'] is not None)
    if e['split']:
        e['te'], e['tm'] = jsub(o['te']), jsub(o['tm'])
    if amp:
        e['amp'] = {k: jamp(o[k]) for k in ('res', 'te', 'tm') if o[k] is not None}
    e['top'] = dict(R=nums(o['de_ri']), T=nums(o['de_ti']))
    return e


def observe(c, **over):
    kw = conc(c)
    kw.update(over)
    return jres(run(c['b'], **kw))


def route(c):
    """which formulation the documentation promises"""
    if c['kind'] == '2d' or c['shape']['rows'] > 1 or c['shape']['fy'] > 0:
        return '2d'
    return '1d' if (c['phi']['none'] or (c['b'] == 2 and c['phi']['s'] == 0 and c['phi']['c'] > 0)) and c['pol'] in (dict(by='pol', v=0), dict(by='pol', v=100)) else 'con'


def lane(c):
    if c['b'] != 1:
        return 'any'
    s = c['shape']
    return f"jax:{s['rows']}x{s['cols']}:{s['fx']},{s['fy']}:{route(c)}"


def spread(s, n):
    """a stable bucket for a scenario"""
    import json, zlib
    return zlib.crc32(json.dumps(s, sort_keys=True).encode()) % n
