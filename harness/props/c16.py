"""C16 fitted dispersion models"""
import os, shutil, tempfile, warnings
import numpy as np
import mlib
from props.c11 import mod, CASE
from driver import Gen
ID = 'C16'
SETTLE = False
TRACE = 'C16Trace'
MODEL = dict(bbev='model brendel-bormann-ev', bbcm='model brendel-bormann-cm')


def models(tier):
    return [('DispModel', 'DispModel.cfg')]


def gens(tier, seed):
    n, j = (120, 30) if tier == 'quick' else (4000, 800)
    return [Gen('GenDisp', 'C16Gen.cfg', sim=n, seed=seed), Gen('GenDisp', 'C16GenJax.cfg', sim=j, seed=seed)]


def lane(s):
    return 'any' if all(a['b'] != 1 for a in s['asks']) else f"jax:{mlib.spread(s, 3)}"


def cover(s):
    return ['fit=' + s['fit']['kind']] + [f"backend={a['b']}" for a in s['asks']] + ['by=' + a['by'] for a in s['asks']]


def write(path, s):
    f = s['fit']
    head = f"formula {f['form']}" if f['kind'] == 'sellmeier' else MODEL.get(f['kind'])
    cs, rng = ' '.join(f['cs']), f"{s['lo']} - {s['hi']} m"
    if f['kind'] == 'bad':
        how = f['cs'][0]
        head, cs = 'formula 1', '0 0.7 6.8e-08 0.4 1.1e-07'
        if how in ('formula 3', 'formula', 'model nonesuch'):
            head = how
        elif how == 'bad number':
            cs = '0 0.7 6.8e-08 0.4x 1.1e-07'
        elif how == 'odd poles':
            cs = '0 0.7 6.8e-08 0.4'
        elif how == 'missing range':
            rng = None
        elif how == 'no coefficients':
            cs = None
    with open(path, 'w') as o:
        o.write(f'Wavelength(m)\tn\tk\n# material: X\n# source: someone - 3 (1999): p. 4\n# type: {head}\n')
        if cs is not None:
            o.write(f'# coefficients: {cs}\n# coefficient_unit: m\n')
        if rng is not None:
            o.write(f'# range: {rng}\n')


def fit_files():
    import meent
    res = {}
    for d, _, fs in os.walk(os.path.join(os.path.dirname(meent.__file__), 'nk_data')):
        for n in sorted(fs):
            h = {}
            for x in open(os.path.join(d, n), encoding='utf-8').read().splitlines()[1:]:
                if x.startswith('#'):
                    k, _, v = x[1:].partition(':')
                    h[k.strip()] = v.strip()
            if n.endswith('.txt') and 'coefficients' in h:
                res[n[:-4]] = h
    return res


def shipped_fit(u):
    fs = fit_files()
    name = sorted(fs)[u % len(fs)]
    h = fs[name]
    t = h['type']
    lo, hi = h['range'].replace(' m', '').split(' - ')
    kind = 'sellmeier' if t.startswith('formula') else {v: k for k, v in MODEL.items()}[t]
    return name, dict(ev='fit', fit=dict(kind=kind, form=int(t.split()[1]) if kind == 'sellmeier' else 0, cs=h['coefficients'].split()), lo=lo, hi=hi)


BAD = dict(zero=0, negative=-0.3, infinite=float('inf'), nan=float('nan'), text='much', none=None, pair=[1, 2])


def spec_of(f, s):
    from meent import dispersion
    if f['kind'] == 'sheet':
        return dispersion.graphene_falkovsky(*[float(v) for v in f['cs']])
    if f['kind'] == 'cond':
        kw = dict(fermi_level=0.4, mobility=1e4, temperature=300, thickness=3.4e-10)
        kw[list(kw)[f['form'] - 1]] = BAD[f['cs'][0]]
        return dispersion.graphene_falkovsky(**kw)
    return dict(formula=f['form'] if f['kind'] == 'sellmeier' else MODEL[f['kind']][6:], coefficients=[float(v) for v in f['cs']], wavelength_range=(float(s['lo']), float(s['hi'])))


def replay(s):
    root = tempfile.mkdtemp(prefix='verif_fit_')
    f, ev, name = s['fit'], [], 'Fit_x'
    try:
        import meent
        lib = root
        if f['kind'] == 'shipped':
            name, e = shipped_fit(f['form'])
            ev.append(e)
            lib = None
        elif f['kind'] not in ('sheet', 'cond'):
            os.makedirs(root + '/sub')
            write(root + '/sub/' + name + '.txt', s)
        if f['kind'] in ('sellmeier', 'bbev', 'bbcm', 'shipped'):
            m = next(x for x in meent.list_materials(lib) if x['name'] == name.upper())
            ev.append(dict(ev='listed', lo=mlib.num(m['wl_min']), hi=mlib.num(m['wl_max'])))
        for i, a in enumerate(s['asks']):
            m = mod(a['b'])
            ws = [float(w) for w in a['ws']]
            if a['badw']:
                ws[-1] = float(a['badw'])
            wl = ws[0] if a['form'] == 'scalar' else np.array(ws) if a['form'] == 'array' else mlib.arr(a['b'], np.array(ws))
            with warnings.catch_warnings(record=True) as got:
                warnings.simplefilter('always')
                try:
                    if f['kind'] in ('sheet', 'cond') or (a['by'] == 'spec' and f['kind'] in ('sellmeier', 'bbev', 'bbcm')):
                        v = m.find_nk_index(spec_of(f, s), None, wl)
                    else:
                        v = m.find_nk_index(CASE[a['case']](name) + ('__real' if a['real'] else ''), m.read_material_table(lib), wl)
                except Exception as x:
                    if f['kind'] in ('bad', 'cond') or a['badw']:
                        ev.append(dict(ev='refused', i=i + 1, how=type(x).__name__))
                        continue
                    raise
            v = mlib.to_np(v)
            ev.append(dict(ev='look', i=i + 1, shape=list(v.shape), re=[mlib.num(x) for x in v.real.reshape(-1)], im=[mlib.num(x) for x in v.imag.reshape(-1)],
                           warned=any(issubclass(w.category, UserWarning) and 'empty' not in str(w.message) for w in got)))
        return ev
    finally:
        shutil.rmtree(root, ignore_errors=True)
