"""C02 physical efficiencies, order bookkeeping"""
import mlib
from driver import Gen
ID = 'C02'
TRACE = 'C02Trace'


def models(tier):
    return [('OrdersModel', 'OrdersModel.cfg')]


def gens(tier, seed):
    n = 400 if tier == 'quick' else 8000
    return [Gen('GenDevice', 'C02Gen.cfg', sim=n, seed=seed)]


def lane(s):
    return mlib.lane(s['cfg'])


def cover(s):
    c = s['cfg']
    return [f"backend={c['b']}", f"kind={c['kind']}", f"ft={c['ft']}", f"layers={c['shape']['layers']}"]


def replay(s):
    return [dict(ev='solve', **mlib.observe(s['cfg']))]
