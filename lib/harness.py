"""Runner shared by all checks.

A check module (checks/cNN.py) drives the real jschon code (copied from the
working tree of /repo into a scratch directory, together with the metaschema
files of /verif/metaschemas which /repo keeps in an empty git submodule) with
seeded, count-bounded workloads while monitors (reference models, structural
invariants, trace checkers) judge every observed call.

Verdicts: 0 held on everything observed, 1 violated (VIOLATION line + replay
file), 2 inconclusive (monitors not reached, watchdog), 3 harness error.
"""
import hashlib, importlib, json, os, random, shutil, signal, sys, tempfile, time, traceback, warnings
import multiprocessing as mp
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('JSV_REPO', '/repo')
NPROC = int(os.environ.get('JSV_NPROC', '8'))
CASE_WALL = 30.0            # wall seconds before a case is re-run under the step counter
STEP_LIMIT = 4_000_000      # interpreted jschon lines: deterministic non-termination verdict
RUN_WALL = {'quick': 240.0, 'thorough': 780.0}


class Violation(Exception):
    def __init__(self, msg, **witness):
        super().__init__(msg)
        self.msg = msg
        self.witness = witness


class CaseTimeout(BaseException):
    pass


class StepLimit(BaseException):
    pass


def check(cond, msg, **witness):
    if not cond:
        raise Violation(msg, **witness)


def short(x, n=700):
    r = x if isinstance(x, str) else repr(x)
    return r if len(r) <= n else r[:n] + f'...({len(r)} chars)'


class Ctx:
    """Per-worker monitor state: event counters, distinct states, samples."""

    def __init__(self, prop, tier, seed, scratch):
        self.prop, self.tier, self.seed, self.scratch = prop, tier, seed, scratch
        self.ev = Counter()
        self.states = set()
        self.samples = []
        self.unit = None
        self.evals = 0
        self.store = {}     # free for checks (per-worker objects)

    def event(self, kind, n=1):
        self.ev[kind] += n

    def state(self, *sig):
        """Record a distinct non-trivial case/state signature."""
        self.states.add(hashlib.blake2b(repr(sig).encode('utf-8', 'surrogatepass'), digest_size=8).digest())

    def sample(self, obj, p=None):
        if len(self.samples) < 3:
            self.samples.append(obj)

    def tmpdir(self):
        d = tempfile.mkdtemp(prefix='w-', dir=self.scratch)
        return d


def make_scratch():
    d = tempfile.mkdtemp(prefix='jsv-')
    shutil.copytree(os.path.join(REPO, 'jschon'), os.path.join(d, 'tree', 'jschon'),
                    ignore=shutil.ignore_patterns('__pycache__', '*.pyc'))
    cat = os.path.join(d, 'tree', 'jschon', 'catalog')
    for name in ('json-schema-2019-09', 'json-schema-2020-12', 'json-schema-next'):
        dst = os.path.join(cat, name)
        if not os.path.exists(os.path.join(dst, 'schema.json')):
            shutil.copytree(os.path.join(VERIF, 'metaschemas', name), dst, dirs_exist_ok=True)
    return d


def activate(scratch):
    """Import jschon from the scratch tree."""
    sys.dont_write_bytecode = True
    warnings.simplefilter('ignore')
    tree = os.path.join(scratch, 'tree')
    sys.path.insert(0, tree)
    for k in [k for k in sys.modules if k == 'jschon' or k.startswith('jschon.')]:
        del sys.modules[k]
    import jschon
    assert jschon.__file__.startswith(tree), jschon.__file__
    return jschon


def in_repo_code(tb, scratch):
    tree = os.path.join(scratch, 'tree')
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(tree):
            return True
        tb = tb.tb_next
    return False


def case_rng(prop, seed, unit, i):
    return random.Random(f'{prop}|{seed}|{unit}|{i}')


def _run_case(mod, ctx, unit, fn, i, stepped=False):
    """Run one case; returns None or a violation record."""
    rng = case_rng(ctx.prop, ctx.seed, unit, i)
    ctx.unit = unit
    rec = dict(property=ctx.prop, unit=unit, index=i, seed=ctx.seed, tier=ctx.tier)

    def on_alarm(*_):
        raise CaseTimeout()

    signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, 200.0 if stepped else CASE_WALL)
    if stepped:
        tree = os.path.join(ctx.scratch, 'tree')
        n = [0]

        def tracer(frame, event, arg):
            if not frame.f_code.co_filename.startswith(tree):
                return None
            n[0] += 1
            if n[0] > STEP_LIMIT:
                raise StepLimit()
            return tracer
        sys.settrace(tracer)
    try:
        try:
            fn(ctx, rng)
        finally:
            sys.settrace(None)
            signal.setitimer(signal.ITIMER_REAL, 0)
        ctx.evals += 1
        return None
    except Violation as e:
        return {**rec, 'kind': 'monitor', 'message': e.msg,
                'witness': {k: short(v, 4000) for k, v in e.witness.items()}}
    except StepLimit:
        return {**rec, 'kind': 'nontermination',
                'message': f'no termination within {STEP_LIMIT} interpreted lines of jschon'}
    except CaseTimeout:
        if stepped:
            return {**rec, 'kind': 'timeout', 'message': 'watchdog'}
        return _run_case(mod, ctx, unit, fn, i, stepped=True)
    except Exception as e:
        if in_repo_code(e.__traceback__, ctx.scratch):
            tb = ''.join(traceback.format_exception(e))
            return {**rec, 'kind': 'exception',
                    'message': f'unexpected {type(e).__name__} from jschon: {short(str(e), 300)}',
                    'witness': {'traceback': tb if len(tb) < 5000 else tb[:2000] + ' [...] ' + tb[-3000:], 'last': short(ctx.store.get('last', ''), 4000)}}
        if not isinstance(e, (OSError, MemoryError, ImportError, AssertionError)):
            # what was observed has a form that the monitor cannot read (on the unchanged tree no workload does this)
            return {**rec, 'kind': 'exception', 'message': f'an observation has an unexpected form: {type(e).__name__}: {short(str(e), 300)}',
                    'witness': {'traceback': traceback.format_exc()[-5000:], 'last': short(ctx.store.get('last', ''), 4000)}}
        return {**rec, 'kind': 'harness', 'message': 'harness error',
                'witness': {'traceback': traceback.format_exc()[-5000:], 'last': short(ctx.store.get('last', ''), 4000)}}


def _worker(w, nproc, propid, tier, seed, scratch, plan, conn, deadline):
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    ctx = Ctx(propid, tier, seed, scratch)
    out = dict(viol=[], harness=None, truncated=False, timeouts=0)
    try:
        activate(scratch)
        mod = importlib.import_module('checks.' + propid.lower())
        if hasattr(mod, 'setup'):
            try:
                mod.setup(ctx)
            except Exception as e:
                if in_repo_code(e.__traceback__, scratch):
                    out['viol'].append(dict(property=propid, unit='setup', index=0, seed=seed, tier=tier,
                                            kind='exception',
                                            message=f'unexpected {type(e).__name__} from jschon in set-up: {e}',
                                            witness={'traceback': traceback.format_exc()[-5000:]}))
                    plan = []
                else:
                    raise
        stop = False
        # interleave the units so that truncation is fair
        idx = {u: w for u, n in plan}
        live = [(u, n) for u, n in plan if w < n]
        step = {u: max(1, n // 50) for u, n in plan}
        while live and not stop:
            for u, n in list(live):
                fn = mod.UNITS[u][0]
                for _ in range(step[u]):
                    i = idx[u]
                    if i >= n:
                        live.remove((u, n))
                        break
                    idx[u] += nproc
                    if time.time() > deadline:
                        out['truncated'] = True
                        stop = True
                        break
                    r = _run_case(mod, ctx, u, fn, i)
                    if r is not None:
                        if r['kind'] == 'harness':
                            out['harness'] = r
                            stop = True
                            break
                        if r['kind'] == 'timeout':
                            out['timeouts'] += 1
                            if out['timeouts'] > 2:
                                stop = True
                                break
                            continue
                        out['viol'].append(r)
                        if len(out['viol']) >= 2:
                            stop = True
                            break
                if stop:
                    break
        if hasattr(mod, 'teardown'):
            mod.teardown(ctx)
    except BaseException:
        out['harness'] = dict(kind='harness', message='worker crashed',
                              witness={'traceback': traceback.format_exc()[-5000:]})
    out.update(ev=dict(ctx.ev), states=b''.join(ctx.states), samples=ctx.samples, evals=ctx.evals)
    conn.send(out)
    conn.close()


def load_known(propid):
    path = os.path.join(VERIF, 'known_findings.jsonl')
    res = []
    if os.path.exists(path):
        for line in open(path, encoding='utf-8'):
            line = line.strip()
            if line:
                r = json.loads(line)
                if r.get('property') == propid and r.get('status') == 'known':
                    res.append(r)
    return res


def run_check(propid, tier, seed, only=None):
    t0 = time.time()
    sys.path.insert(0, VERIF)
    scratch = make_scratch()
    try:
        # the module is imported in the parent only for its tables
        meta = _tables(propid, scratch)
        plan = []
        for u, (nq, nt) in meta['units'].items():
            n = nq if tier == 'quick' else nt
            if os.environ.get('JSV_SCALE'):
                n = max(1, int(n * float(os.environ['JSV_SCALE'])))
            if only is None or u in only:
                plan.append((u, n))
        mpc = mp.get_context('fork')
        deadline = t0 + RUN_WALL[tier]
        procs = []
        for w in range(NPROC):
            a, b = mpc.Pipe(False)
            p = mpc.Process(target=_worker, args=(w, NPROC, propid, tier, seed, scratch, plan, b, deadline))
            p.start()
            b.close()
            procs.append((p, a))
        outs = []
        lost = 0
        for p, a in procs:
            try:
                if a.poll(max(1.0, deadline + 260 - time.time())):
                    outs.append(a.recv())
                else:
                    lost += 1
                    p.kill()
            except EOFError:
                lost += 1
            p.join(10)
        return finish(propid, tier, seed, meta, plan, outs, lost, t0, partial=only is not None)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _tables(propid, scratch):
    mpc = mp.get_context('fork')
    a, b = mpc.Pipe(False)

    def f():
        try:
            activate(scratch)
        except Exception as e:
            b.send(dict(error=traceback.format_exc(), repo=in_repo_code(e.__traceback__, scratch)))
            os._exit(0)
        mod = importlib.import_module('checks.' + propid.lower())
        b.send(dict(units={u: v[1:3] for u, v in mod.UNITS.items()}, rule=mod.RULE,
                    required=getattr(mod, 'REQUIRED', {}), assumptions=getattr(mod, 'ASSUMPTIONS', [])))
        os._exit(0)
    p = mpc.Process(target=f)
    p.start()
    b.close()
    r = a.recv()
    p.join()
    if 'error' in r:
        print(r['error'], file=sys.stderr)
        print('jschon cannot be imported', file=sys.stderr)
        sys.exit(2)
    return r


def finish(propid, tier, seed, meta, plan, outs, lost, t0, partial=False):
    ev = Counter()
    states = set()
    samples, viols, harness = [], [], []
    evals = timeouts = 0
    trunc = False
    for o in outs:
        ev.update(o['ev'])
        b = o['states']
        states.update(b[i:i + 8] for i in range(0, len(b), 8))
        samples += o['samples'][:1]
        viols += o['viol']
        evals += o['evals']
        timeouts += o['timeouts']
        trunc |= o['truncated']
        if o['harness']:
            harness.append(o['harness'])
    evdir = os.path.join(VERIF, 'evidence')
    os.makedirs(os.path.join(evdir, 'replay'), exist_ok=True)
    known = {k['id']: k for k in load_known(propid)}
    new, seen_known = [], {}
    for v in viols:
        kf = classify(v, known)
        if kf:
            seen_known[kf] = v
        else:
            new.append(v)
    code = 0
    notes = []
    for kid, k in known.items():
        print(f"KNOWN-FINDING: property={propid} {k['id']}: {k['what']}")
    if new:
        code = 1
        new.sort(key=lambda v: (v['unit'], v['index']))
        kinds = set()
        for v in new:
            key = (v['unit'], v['message'][:60])
            if key in kinds:
                continue
            kinds.add(key)
            path = os.path.join(evdir, 'replay', f"{propid}-{seed}-{v['unit']}-{v['index']}.json")
            with open(path, 'w') as f:
                json.dump(v, f, indent=1)
            print(f'VIOLATION property={propid} replay={path}')
            print(f"  unit={v['unit']} case={v['index']}: {v['message']}")
            for k, x in v.get('witness', {}).items():
                print(f'    {k}: {short(x, 1500)}')
            if len(kinds) >= 3:
                break
    elif harness:
        code = 3
        print('HARNESS ERROR', harness[0]['message'], harness[0].get('unit'), harness[0].get('index'))
        print(harness[0]['witness'].get('traceback'))
        print(harness[0]['witness'].get('last'))
    else:
        missing = {k: (ev.get(k, 0), n) for k, n in meta['required'].items() if ev.get(k, 0) < n * .6}
        if missing and not partial:
            code = 2
            notes.append(f'INCONCLUSIVE: monitors not reached often enough (seen, needed): {missing}')
        if lost:
            code = 2
            notes.append(f'INCONCLUSIVE: {lost} worker(s) gave no answer')
        if timeouts:
            code = 2
            notes.append(f'INCONCLUSIVE: {timeouts} case(s) hit the watchdog')
    if trunc:
        notes.append('workload truncated by the wall-clock budget; verdict covers what ran')
    wall = round(time.time() - t0, 2)
    evidence = dict(
        property=propid, tier=tier, seed=seed, level='exploration',
        coverage=dict(evaluations=evals, distinct_nontrivial=len(states), rule=meta['rule'],
                      samples=samples[:6] or ['(none recorded)'],
                      monitor_events={k: ev[k] for k in sorted(ev)},
                      workload={u: n for u, n in plan}, truncated=trunc),
        assumptions=meta['assumptions'], wall_s=wall, violations=len(new))
    with open(os.path.join(evdir, f'{propid}.json'), 'w') as f:
        json.dump(evidence, f, indent=1, ensure_ascii=True, default=repr)
    for n in notes:
        print(n)
    print(f"{propid} {tier} seed={seed}: {evals} cases, {len(states)} distinct non-trivial, "
          f"{sum(ev.values())} monitor events, {wall}s -> exit {code}")
    return code


def classify(v, known):
    """Known findings are keyed by mechanism: the monitor names it in the witness."""
    kf = v.get('witness', {}).get('mechanism')
    return kf if kf in known else None


def replay(path):
    v = json.load(open(path))
    sys.path.insert(0, VERIF)
    scratch = make_scratch()
    try:
        activate(scratch)
        mod = importlib.import_module('checks.' + v['property'].lower())
        ctx = Ctx(v['property'], v['tier'], v['seed'], scratch)
        if hasattr(mod, 'setup'):
            mod.setup(ctx)
        r = _run_case(mod, ctx, v['unit'], mod.UNITS[v['unit']][0], v['index'])
        print(json.dumps(r, indent=1))
        return 1 if r else 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
