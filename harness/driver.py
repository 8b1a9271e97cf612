"""Shared machinery: run TLC (design model, scenario generator, trace validator), replay scenarios on the
real code in worker processes, and turn the specification's verdict into exit code + evidence.

A property module (harness/props/<id>.py) provides
  ID
  models(tier)            -> [(module, cfg)]            exhaustive design models
  gens(tier, seed)        -> [Gen(...)]                 TLC scenario generators
  replay(scn)             -> [event, ...]               drive the real code, return trace events
  TRACE                   -> module name of the trace specification (cfg of the same name)
  lane(scn)               -> 'any' | 'jax:<shape key>'  (optional)
"""
import os, sys, json, time, re, subprocess, tempfile, shutil, signal, importlib, traceback, threading
import multiprocessing as mp
from dataclasses import dataclass, field

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, 'spec')
TLA = '/opt/veriftools/tla'
PY = '/opt/venv/bin/python'
EVID = os.path.join(ROOT, 'evidence')
KNOWN = os.path.join(ROOT, 'known_findings.txt')


class MachineryError(Exception):
    pass


@dataclass
class Gen:
    module: str
    cfg: str = None
    sim: int = 0          # >0: -simulate num; 0: exhaustive enumeration
    depth: int = 60
    seed: int = 1
    tag: str = ''
    env: dict = field(default_factory=dict)
    limit: int = 0        # keep at most that many scenarios (evenly spread)


_cls = None
_cls_lock = threading.Lock()


def classes():
    """compile the TLC module override (from source, on every run)"""
    global _cls
    with _cls_lock:
        if _cls is None:
            d = tempfile.mkdtemp(prefix='verif_cls_')
            r = subprocess.run(['javac', '-cp', f'{TLA}/tla2tools.jar', '-d', d, os.path.join(ROOT, 'java', 'BigRat.java')],
                               capture_output=True, text=True)
            if r.returncode:
                raise MachineryError('javac: ' + r.stderr)
            _cls = d
    return _cls


def tlc(module, cfg=None, args=(), env=None, workers=1, heap='3g', timeout=700, simulate=False):
    meta = tempfile.mkdtemp(prefix='verif_tlc_')
    cmd = ['java', f'-Xmx{heap}', '-Xss16m', '-XX:+UseParallelGC', '-XX:ParallelGCThreads=2',
           '-cp', f'{classes()}:{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar', f'-Djava.io.tmpdir={meta}',
           'tlc2.TLC', '-metadir', meta, '-noGenerateSpecTE', '-workers', str(workers), '-config', cfg or module + '.cfg']
    cmd += list(args) + [module + '.tla']
    e = dict(os.environ)
    e.update(env or {})
    t = time.time()
    try:
        r = subprocess.run(cmd, cwd=SPEC, capture_output=True, text=True, env=e, timeout=timeout)
        out, rc = r.stdout + r.stderr, r.returncode
    except subprocess.TimeoutExpired as x:
        out, rc = (x.stdout or b'').decode() if isinstance(x.stdout, bytes) else (x.stdout or ''), -1
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct', out)
    st = tuple(int(v.replace(',', '')) for v in m[-1]) if m else (0, 0)
    if not m:
        m = re.findall(r'([\d,]+) states checked', out) or re.findall(r'(\d+) states generated', out)
        if m:
            st = (int(m[-1].replace(',', '')),) * 2
    return dict(rc=rc, out=out, generated=st[0], distinct=st[1], wall=time.time() - t)


LINE = re.compile(r'^"?@(SCN|BAD|OBS) (.*)$')


def lines(out, kind):
    """lines printed by the specifications with PrintT("@KIND " \\o ToJson(..))"""
    res = []
    for ln in out.splitlines():
        m = LINE.match(ln)
        if m and m.group(1) == kind:
            s = m.group(2)
            if s.endswith('"'):
                s = s[:-1]
            s = s.replace('\\"', '"').replace('\\\\', '\\')
            try:
                res.append(json.loads(s))
            except Exception:
                raise MachineryError('unreadable line: ' + ln[:300])
    return res


def run_model(module, cfg):
    r = tlc(module, cfg, workers=2)
    ok = 'Model checking completed. No error has been found' in r['out']
    return dict(module=module, cfg=cfg, ok=ok, generated=r['generated'], distinct=r['distinct'], wall=round(r['wall'], 1), out=r['out'])


def run_gen(g):
    args = []
    if g.sim:
        args = ['-simulate', f'num={g.sim}', '-depth', str(g.depth), '-seed', str(g.seed)]
    r = tlc(g.module, g.cfg, args=args, env=g.env)
    scn = lines(r['out'], 'SCN')
    if ('Error:' in r['out']) or not scn:
        raise MachineryError(f'generator {g.module}/{g.cfg} failed:\n' + r["out"][-12000:])
    # distinct scenarios only, in the order generated
    seen, res = set(), []
    for s in scn:
        k = json.dumps(s, sort_keys=True)
        if k not in seen:
            seen.add(k)
            res.append(s)
    if g.limit and len(res) > g.limit:
        step = len(res) / g.limit
        res = [res[int(i * step)] for i in range(g.limit)]
    for s in res:
        s['gen'] = g.tag or g.module
    return res, r


# ------------------------------------------------------------------ replay workers
class _Late(BaseException):
    pass


def _alarm(*a):
    raise _Late()


def _one(prop, scn, limit):
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        return prop.replay(scn)
    except _Late:
        return [dict(ev='noreturn', why=f'no result within {limit} s')]
    except MachineryError:
        raise
    except Exception as x:
        tb = traceback.extract_tb(x.__traceback__)
        where = '; '.join(f'{os.path.basename(f.filename)}:{f.lineno}' for f in tb[-4:])
        return [dict(ev='exception', why=f'{type(x).__name__}: {x} at {where}'[:400])]
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def _spread(a, b):
    """largest difference between the numbers of two recordings of the same shape"""
    if isinstance(a, dict) and isinstance(b, dict):
        return max([_spread(a[k], b[k]) for k in a if k in b], default=0.0)
    if isinstance(a, list) and isinstance(b, list):
        return max([_spread(x, y) for x, y in zip(a, b)], default=0.0)
    try:
        d = abs(float(a) - float(b))
        return d if d == d else 0.0
    except (TypeError, ValueError):
        return 0.0


def _steady(prop, scn, limit, ev):
    """replay with the wavelength nudged: how far do the recorded numbers move?"""
    import mlib
    noise = 0.0
    try:
        for k in (1, -1, 2):
            mlib.NUDGE[0] = k * getattr(prop, 'NUDGE', 1e-12)
            noise = max(noise, _spread(ev, _one(prop, scn, limit)))
    finally:
        mlib.NUDGE[0] = 0.0
    return noise


def _worker(pname, own, shared, outq, limit):
    import warnings
    warnings.simplefilter('ignore')
    sys.path.insert(0, os.path.join(ROOT, 'harness'))
    devnull = open(os.devnull, 'w')
    sys.stdout = devnull
    sys.stderr = devnull
    try:
        prop = importlib.import_module('props.' + pname)
        for q in (own, shared):
            while True:
                try:
                    i, scn, old = q.get(timeout=0.5)
                except Exception:
                    break
                outq.put(('start', os.getpid(), i, None))
                outq.put(('done', os.getpid(), i, _one(prop, scn, limit) if old is None else [dict(noise=_steady(prop, scn, limit, old))]))
    except BaseException as x:
        outq.put(('fatal', os.getpid(), -1, traceback.format_exc()))
    outq.put(('bye', os.getpid(), -1, None))
    outq.close()
    outq.join_thread()


def replay_all(prop, scns, nproc=8, jaxproc=4, limit=200, budget=480, old=None):
    ctx = mp.get_context('spawn')
    pname = prop.__name__.split('.')[-1]
    lane = getattr(prop, 'lane', lambda s: 'any')
    shared, outq = ctx.Queue(), ctx.Queue()
    keys = sorted({lane(s) for s in scns} - {'any'})
    jaxn = min(jaxproc, max(1, len(keys))) if keys else 0
    # balance jax lanes over jax workers by number of scenarios
    own = [ctx.Queue() for _ in range(max(jaxn, 1))]
    load = [0] * max(jaxn, 1)
    for k in sorted(keys, key=lambda k: -sum(lane(s) == k for s in scns)):
        j = load.index(min(load))
        for i, s in enumerate(scns):
            if lane(s) == k:
                own[j].put((i, s, old and old[i]))
                load[j] += 1
        load[j] += 12  # compilation
    n = 0
    for i, s in enumerate(scns):
        if lane(s) == 'any':
            shared.put((i, s, old and old[i]))
            n += 1
    empty = ctx.Queue()
    nshared = min(max(nproc - jaxn, 1), max(n // 4, 1)) if n else 0
    procs = [ctx.Process(target=_worker, args=(pname, own[j], shared if n else empty, outq, limit), daemon=True) for j in range(jaxn)]
    procs += [ctx.Process(target=_worker, args=(pname, empty, shared, outq, limit), daemon=True) for _ in range(nshared)]
    env0 = dict(os.environ)
    os.environ.update(OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1', PYTHONHASHSEED='0',
                      XLA_FLAGS='--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1')
    for p in procs:
        p.start()
    os.environ.clear()
    os.environ.update(env0)
    res, started, alive, t0 = {}, {}, len(procs), time.time()
    while alive and len(res) < len(scns):
        try:
            kind, pid, i, ev = outq.get(timeout=2)
        except Exception:
            now = time.time()
            live = {p.pid for p in procs if p.is_alive()}
            for i, (pid, ts) in list(started.items()):
                if i not in res and (now - ts > limit + 60 or pid not in live):
                    why = 'no result' if pid in live else 'the process running it died'
                    res[i] = [dict(ev='noreturn', why=why)]
                    for p in procs:
                        if p.pid == pid and p.is_alive():
                            p.kill()
            if not live:
                break
            if now - t0 > budget:
                break
            continue
        if kind == 'start':
            started[i] = (pid, time.time())
        elif kind == 'done':
            res[i] = ev
        elif kind == 'fatal':
            for p in procs:
                p.kill()
            raise MachineryError('replay worker: ' + ev)
        elif kind == 'bye':
            alive -= 1
        if time.time() - t0 > budget:
            break
    for p in procs:
        p.join(timeout=0.2)
        if p.is_alive():
            p.kill()
    return res


# ------------------------------------------------------------------ trace validation
def validate(module, scns, events, chunks=6):
    """write the recorded traces and let the trace specification judge them"""
    idx = sorted(events)
    if not idx:
        raise MachineryError('no scenario was replayed')
    chunks = max(1, min(chunks, len(idx) // 4 or 1))
    d = tempfile.mkdtemp(prefix='verif_trace_')
    parts = [idx[k::chunks] for k in range(chunks)]
    jobs, results = [], [None] * chunks

    def work(k):
        path = os.path.join(d, f't{k}.ndjson')
        n = 0
        with open(path, 'w') as f:
            for i in parts[k]:
                f.write(json.dumps(dict(ev='scenario', id=i, scn=scns[i])) + '\n')
                n += 1
                for e in events[i]:
                    f.write(json.dumps(e) + '\n')
                    n += 1
            f.write(json.dumps(dict(ev='end')) + '\n')
            n += 1
        r = tlc(module, env=dict(TRACE=path), args=['-deadlock'], heap='2g')
        results[k] = (r, n)

    try:
        for k in range(chunks):
            t = threading.Thread(target=work, args=(k,))
            t.start()
            jobs.append(t)
        for t in jobs:
            t.join()
    finally:
        shutil.rmtree(d, ignore_errors=True)
    bad, obs, gen, dist, nlines = [], [], 0, 0, 0
    for k, (r, n) in enumerate(results):
        nlines += n
        if 'Model checking completed. No error has been found' not in r['out']:
            raise MachineryError(f'trace validation by {module} did not complete:\n' + r["out"][-12000:])
        bad += lines(r['out'], 'BAD')
        obs += lines(r['out'], 'OBS')
        gen += r['generated']
        dist += r['distinct']
    return dict(bad=bad, obs=obs, generated=gen, distinct=dist, lines=nlines)


def settle(prop, scns, ev, v, known):
    """violating scenarios are judged again, knowing what rounding alone does to them"""
    ids = sorted({b['id'] for b in v['bad'] if any(c not in known for c in b['clauses'])})
    ids = [i for i in ids if not any(e['ev'] in ('exception', 'noreturn') for e in ev[i])]
    if not getattr(prop, 'SETTLE', True) or not ids or len(ids) > 24:   # rounding does not strike that often
        return
    got = replay_all(prop, [scns[i] for i in ids], old=[ev[i] for i in ids], limit=200, budget=240)
    noisy = {ids[k]: g[0]['noise'] for k, g in got.items() if 'noise' in g[0]}
    again = validate(prop.TRACE, {i: dict(scns[i], noise=repr(n)) for i, n in noisy.items()}, {i: ev[i] for i in noisy})
    v['bad'] = [b for b in v['bad'] if b['id'] not in noisy] + again['bad']
    v['obs'] += [dict(noise=n, id=i) for i, n in noisy.items()]


def known():
    res = []
    if os.path.exists(KNOWN):
        for ln in open(KNOWN):
            m = re.match(r'known: property=(\S+) clause=(\S+) (.*)', ln.strip())
            if m:
                res.append(m.groups())
    return res


def short(o, n=1500):
    s = json.dumps(o)
    return o if len(s) <= n else s[:n] + '…'


def main(pid, tier='quick', only=None):
    t0 = time.time()
    os.environ.setdefault('VERIF_SEED', '1')
    seed = int(os.environ['VERIF_SEED'])
    sys.path.insert(0, os.path.join(ROOT, 'harness'))
    prop = importlib.import_module('props.' + pid.lower())
    try:
        mres, mthreads = [], []
        models = [] if only else prop.models(tier)

        def domodels():
            for m in models:
                mres.append(run_model(*m))
        mt = threading.Thread(target=domodels)
        mt.start()
        gres = []
        if only:
            scns = [json.load(open(only))['scenario']]
        else:
            scns, gs = [], prop.gens(tier, seed)
            slots = [None] * len(gs)
            errs = []

            def dogen(k):
                try:
                    slots[k] = run_gen(gs[k])
                except Exception as x:
                    errs.append(x)
            ths = [threading.Thread(target=dogen, args=(k,)) for k in range(len(gs))]
            [t.start() for t in ths]
            [t.join() for t in ths]
            if errs:
                raise errs[0]
            for s, r in slots:
                scns += s
                gres.append(r)
        tg = time.time() - t0
        budget = 420 if tier == 'quick' else 6 * 3600
        ev = replay_all(prop, scns, budget=budget, limit=getattr(prop, 'LIMIT', 200))
        tr = time.time() - t0
        v = validate(prop.TRACE, scns, ev)
        settle(prop, scns, ev, v, [c for p, c, d in known() if p == pid])
        mt.join()
        for m in mres:
            if not m['ok']:
                raise MachineryError(f"design model {m['module']}/{m['cfg']} fails:\n" + m['out'][-3000:])
    except MachineryError as x:
        print('MACHINERY ERROR:', x)
        return 3
    kn = {(p, c): d for p, c, d in known()}
    viol, kf = [], {}
    for b in v['bad']:
        cl = [c for c in b['clauses'] if (pid, c) not in kn]
        for c in b['clauses']:
            if (pid, c) in kn:
                kf.setdefault(c, []).append(b)
        if cl:
            viol.append(dict(b, clauses=cl))
    for c in kf:
        print(f'KNOWN-FINDING: property={pid} {kn[(pid, c)]} ({len(kf[c])} of the replayed scenarios)')
    rdir = os.path.join(EVID, 'replay')
    os.makedirs(rdir, exist_ok=True)
    seen = {}
    for b in viol:
        seen.setdefault(tuple(sorted(b['clauses'])), []).append(b)
    for n, (cl, bs) in enumerate(sorted(seen.items())[:12]):
        i = bs[0]['id']
        path = os.path.join(rdir, f'{pid}-{n}.json')
        json.dump(dict(property=pid, clauses=cl, verdict=bs[0], scenario=scns[i], events=ev.get(i)), open(path, 'w'), indent=1)
        detail = bs[0].get('why', '')
        print(f'VIOLATION property={pid} replay={path} clauses={",".join(cl)} scenarios={len(bs)} {str(detail)[:200]}')
    states = sum(m['generated'] for m in mres) + sum(r['generated'] for r in gres) + v['generated']
    distinct = sum(m['distinct'] for m in mres) + sum(r['distinct'] for r in gres) + v['distinct']
    cover = {}
    for i in ev:
        for k in getattr(prop, 'cover', lambda s: [])(scns[i]):
            cover[k] = cover.get(k, 0) + 1
    evd = dict(property=pid, tier=tier, seed=seed, level='model_checking',
               coverage=dict(states=distinct, transitions=states, traces_validated_against_impl=len(ev),
                             trace_lines=v['lines'], scenarios_generated=len(scns), scenarios_replayed=len(ev),
                             design_models=[{k: m[k] for k in ('module', 'cfg', 'generated', 'distinct', 'wall')} for m in mres],
                             observations=len(v['obs']), dimension_counts=cover,
                             samples=[dict(scenario=short(scns[i]), events=short(ev[i])) for i in sorted(ev)[:2]]),
               assumptions=getattr(prop, 'ASSUME', []), wall_s=round(time.time() - t0, 1), violations=len(viol),
               known_findings=sorted(kf))
    json.dump(evd, open(os.path.join(EVID, pid + '.json'), 'w'), indent=1)
    print(f'{pid} {tier}: {len(ev)}/{len(scns)} scenarios replayed, {v["lines"]} trace lines, {len(viol)} violations, '
          f'gen {tg:.0f}s replay {tr - tg:.0f}s total {time.time() - t0:.0f}s')
    if _cls:
        shutil.rmtree(_cls, ignore_errors=True)
    return 1 if viol else 0
