"""C11 tabulated materials"""
import os, shutil, tempfile, warnings, importlib
import numpy as np
import mlib
from driver import Gen
ID = 'C11'
SETTLE = False
TRACE = 'C11Trace'


def models(tier):
    return [('NkModel', 'NkModel.cfg')]


def gens(tier, seed):
    n, j = (120, 24) if tier == 'quick' else (5000, 600)
    return [Gen('GenNk', 'C11Gen.cfg', sim=n, seed=seed), Gen('GenNk', 'C11GenJax.cfg', sim=j, seed=seed),
            Gen('GenNk', 'C11Ship.cfg', sim=j, seed=seed)]


def lane(s):
    return 'jax:ship' if 'shipped' in s else 'any' if all(a['b'] != 1 for a in s['asks']) else f"jax:{mlib.spread(s, 3)}"


def cover(s):
    if 'shipped' in s:
        return ['shipped tables']
    return [f"backend={a['b']}" for a in s['asks']] + ['wavelengths=' + a['form'] for a in s['asks']] + ['file=' + t['form'] for t in s['lib']]


def mod(b):
    mlib.backend_mod(b)
    return importlib.import_module(f"meent.on_{['numpy', 'jax', 'torch'][b]}.modeler.modeling")


def spell(w, ex, how):
    """one decimal number, three ways of writing it"""
    return [f'{w}e{ex}', f'{w / 1000:.3f}e{ex + 3}', f'{w}.0E{ex:+03d}'][how] if w % 1 == 0 else f'{w}e{ex}'


def lay(root, lib):
    for t in lib:
        d = os.path.join(root, *['deep', 'er'][:t['sub']])
        os.makedirs(d, exist_ok=True)
        if t['form'] == 'txt':
            with open(os.path.join(d, t['name'] + '.txt'), 'w') as f:
                f.write('Wavelength(m)\tn\tk\n')
                for k, v in (('source', t['src']), ('type', t['note']), ('conditions', t['cond'])):
                    if v:
                        f.write(f'# {k}: {v}\n')
                for r in t['rows']:
                    f.write('\t'.join([spell(r['w'], t['ex'], t['exp']), f"{r['n']}e-4", f"{r['k']}e-4"] + ['7.5'] * t['extra']) + '\n')
        else:
            from scipy.io import savemat
            col = lambda v: np.array(v).reshape(-1, 1)
            savemat(os.path.join(d, t['name'] + '.mat'), dict(WL=col([float(f"{r['w']}e{t['ex']}") for r in t['rows']]),
                                                             n=col([r['n'] / 1e4 for r in t['rows']]), k=col([r['k'] / 1e4 for r in t['rows']])))


CASE = dict(upper=str.upper, lower=str.lower, swap=str.swapcase, file=str)


def complex_type(b, single):
    m = mlib.backend_mod(b)
    return m.complex64 if single else m.complex128


_files, _ship = {}, {}


def shipped():
    """rows of the shipped tables, read without meent; only increasing ones define an interpolation"""
    if not _files:
        import meent
        for d, _, fs in os.walk(os.path.join(os.path.dirname(meent.__file__), 'nk_data')):
            for n in fs:
                if n.endswith('.txt'):
                    body = open(os.path.join(d, n), encoding='utf-8').read().splitlines()[1:]
                    rows = [tuple(map(float, x.split()[:3])) for x in body if x.strip() and not x.startswith('#')]
                    if len(rows) > 1 and all(p[0] < q[0] for p, q in zip(rows, rows[1:])):
                        _files[n[:-4]] = rows
        _ship['list'] = {e['name']: e for e in meent.list_materials()}
    return _files


def ask_shipped(i, a):
    files = shipped()
    name = sorted(files)[a['t'] % len(files)]
    rows = files[name]
    j = a['r'] % (len(rows) - 1)
    lo, hi = rows[0][0], rows[-1][0]
    w = {'in': rows[j][0] + (rows[j + 1][0] - rows[j][0]) * a['p'] / 8, 'below': lo * (1 - 2 ** -(a['p'] + 1)), 'above': hi * (1 + 2 ** -a['p'])}[a['at']]
    p, q = (rows[0],) * 2 if w < lo else (rows[-1],) * 2 if w > hi else (rows[j], rows[j + 1])
    m = mod(a['b'])
    if a['b'] not in _ship:
        _ship[a['b']] = m.read_material_table()
    with warnings.catch_warnings(record=True) as got:
        warnings.simplefilter('always')
        v = complex(mlib.to_np(m.find_nk_index(CASE[a['case']](name) + ('__real' if a['real'] else ''), _ship[a['b']], w)))
    e = _ship['list'][name.upper()]
    return dict(ev='ship', i=i + 1, name=name, w=mlib.num(w), lo=mlib.num(lo), hi=mlib.num(hi), wa=mlib.num(p[0]), wb=mlib.num(q[0]), na=mlib.num(p[1]), nb=mlib.num(q[1]),
                ka=mlib.num(p[2]), kb=mlib.num(q[2]), re=mlib.num(v.real), im=mlib.num(v.imag), warned=any(issubclass(x.category, UserWarning) for x in got),
                llo=mlib.num(e['wl_min']), lhi=mlib.num(e['wl_max']))


def replay(s):
    if 'shipped' in s:
        return [ask_shipped(i, a) for i, a in enumerate(s['shipped'])]
    root = tempfile.mkdtemp(prefix='verif_nk_')
    try:
        lay(root, s['lib'])
        import meent
        ev = [dict(ev='list', entries=[dict(key=next((t['name'] for t in s['lib'] if t['name'].upper() == e['name']), '?'), lo=mlib.num(e['wl_min']), hi=mlib.num(e['wl_max']),
                                            src=e['source'], cond=e['conditions']) for e in meent.list_materials(root)])]
        tables = {}
        for i, a in enumerate(s['asks']):
            b, t = a['b'], s['lib'][a['t'] - 1]
            m = mod(b)
            key = (b, a['single'])
            if key not in tables:
                tables[key] = m.read_material_table(nk_path=root, type_complex=complex_type(b, a['single']))
            name = ('no' if a['unknown'] else '') + CASE[a['case']](t['name']) + ('__real' if a['real'] else '')
            ws = [float(f"{w}e{t['ex'] - 3 + a['far']}") for w in a['ws']]
            wl = dict(scalar=lambda: ws[0], list=lambda: ws, array=lambda: np.array(ws), grid=lambda: np.array(ws).reshape(2, 2), own=lambda: mlib.arr(b, np.array(ws)))[a['form']]()
            with warnings.catch_warnings(record=True) as got:
                warnings.simplefilter('always')
                try:
                    v = m.find_nk_index(name, tables[key], wl)
                except KeyError:
                    ev.append(dict(ev='refused', i=i + 1))
                    continue
            v = mlib.to_np(v)
            ev.append(dict(ev='look', i=i + 1, shape=list(v.shape), re=[mlib.num(x) for x in v.real.reshape(-1)], im=[mlib.num(x) for x in v.imag.reshape(-1)],
                           complex=bool(np.iscomplexobj(v)), warned=any(issubclass(w.category, UserWarning) for w in got)))
        return ev
    finally:
        shutil.rmtree(root, ignore_errors=True)
