"""C01 lossless energy conservation"""
import mlib
from driver import Gen
ID = 'C01'
TRACE = 'C01Trace'


def models(tier):
    return []


def gens(tier, seed):
    n = 400 if tier == 'quick' else 8000
    return [Gen('GenDevice', 'C01Gen.cfg', sim=n, seed=seed)]


def lane(s):
    return mlib.lane(s['cfg'])


def cover(s):
    c = s['cfg']
    return [f"backend={c['b']}", f"kind={c['kind']}", f"ft={c['ft']}", f"layers={c['shape']['layers']}"]


def replay(s):
    return [dict(ev='solve', **mlib.observe(s['cfg']))]
