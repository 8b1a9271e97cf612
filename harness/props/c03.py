"""C03 the backends agree"""
import math
import mlib
from driver import Gen
ID = 'C03'
TRACE = 'C03Trace'


def models(tier):
    return []


def gens(tier, seed):
    a, w = (150, 450) if tier == 'quick' else (2500, 9000)
    return [Gen('GenDevice', 'C03GenAll.cfg', sim=a, seed=seed, tag='all'), Gen('GenDevice', 'C03GenWide.cfg', sim=w, seed=seed, tag='wide')]


def lane(s):
    return mlib.lane(s['cfg'])


def cover(s):
    c = s['cfg']
    return ['backends=' + ('012' if c['b'] == 1 else '02'), f"route={mlib.route(c)}", f"ft={c['ft']}", f"pol={c['pol']['by']}{c['pol']['v']}"]


def replay(s):
    c = s['cfg']
    ev = [dict(ev='solve', b=0, **mlib.observe(dict(c, b=0)))]
    if c['pol']['v'] not in (0, 100) and mlib.route(c) != '1d':
        kw = mlib.conc(dict(c, b=0))
        kw['psi'] = -(kw['psi'] if 'psi' in kw else math.pi / 2 * (1 - kw.pop('pol')))
        ev.append(dict(ev='mirror', **mlib.jres(mlib.run(0, **kw))))
    for b in (1, 2) if c['b'] == 1 else (2,):
        ev.append(dict(ev='solve', b=b, **mlib.observe(dict(c, b=b))))
    return ev
