"""C12 filling id maps with materials"""
import shutil, tempfile
import numpy as np
import mlib
from props.c11 import mod, lay, CASE, complex_type
from driver import Gen
ID = 'C12'
SETTLE = False
TRACE = 'C12Trace'


def models(tier):
    return [('FillModel', 'FillModel.cfg')]


def gens(tier, seed):
    return [Gen('GenFill', 'C12Gen.cfg', sim=200 if tier == 'quick' else 8000, seed=seed)]


def cover(s):
    return [f"backend={s['b']}"] + ['material=' + m['by'] for f in s['fills'] for m in f['mats']]


SHIPPED = ['au_johnson', 'SiO2_Malitson', 'optprop_CaF2']
_tab = {}


def looked(b, w):
    if b not in _tab:
        _tab[b] = mod(b).read_material_table()
    return mlib.pairs([complex(mod(b).find_nk_index(n, _tab[b], w)) for n in SHIPPED])


def material(m, lib):
    if m['by'] == 'value':
        v = mlib.index(m['v'])
        return int(v) if m['as'] == 'int' and not isinstance(v, complex) and v == int(v) else v
    if m['by'] == 'name':
        return CASE[m['case']](lib[m['t'] - 1]['name']) + ('__real' if m['real'] else '')
    if m['by'] == 'ship':
        return SHIPPED[m['s'] - 1]
    return dict(formula=m['form'], coefficients=[float(c) for c in m['cs']], wavelength_range=(0., 1.))


def replay(s):
    root = tempfile.mkdtemp(prefix='verif_fill_')
    try:
        lay(root, s['lib'])
        b, ev, old = s['b'], [], []
        objs = []
        for _ in range(2):
            m = mlib.mee(b)
            if s['lib']:
                m.mat_table = mod(b).read_material_table(nk_path=root)
            objs.append(m)
        for i, f in enumerate(s['fills']):
            ids = np.array(f['ids']).reshape(f['shape']).astype(float if f['map'] == 'float' else int)
            given = mlib.arr(b, ids) if f['map'] == 'own' else ids.copy()
            mats = [material(x, s['lib']) for x in f['mats']]
            r = objs[f['o'] - 1].put_refractive_index_in_ucell(given, mats, float(f"{f['w']}e-12"), type_complex=complex_type(b, f['single']))
            a = mlib.to_np(r)
            old.append((r, a.copy()))
            ev.append(dict(ev='fill', i=i + 1, shape=list(a.shape), v=mlib.pairs(a), single=a.dtype == np.complex64, looked=looked(b, float(f"{f['w']}e-12")),
                           kept=bool(np.array_equal(mlib.to_np(given), ids)) and mats == [material(x, s['lib']) for x in f['mats']]))
        ev.append(dict(ev='kept', all=all(np.array_equal(mlib.to_np(r), a) for r, a in old)))
        return ev
    finally:
        shutil.rmtree(root, ignore_errors=True)
