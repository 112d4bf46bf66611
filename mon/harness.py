"""
Common runner of the runtime monitors.

A check module (mon/checks/<id>.py) defines

    PROPERTY, LEVEL, RULE   strings for the evidence file
    KINDS                   {kind: (function(ctx), cases in the quick tier, cases in the thorough tier)}
    MINIMUM                 {counter: value} that a run must reach, or it is inconclusive (exit 2)

Every case is a pure function of (seed, property, kind, index): the case function draws all its random choices from
ctx.rng, runs the real code, and lets its oracles judge what they observed.  An oracle that sees a wrong thing raises
Violation with a mechanism (a stable short name of what went wrong).  An exception out of the code under test, where
the property says it must work, is a violation too.  An exception out of the harness itself is an error of the check
(exit 2), never a verdict.
"""
import contextlib
import ctypes
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import pickle
import random
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
KNOWN = os.path.join(VERIF, 'known_findings.json')


class Violation(Exception):
    def __init__(self, mechanism, message, **detail):
        super().__init__(f'{mechanism}: {message}')
        self.mechanism = mechanism
        self.message = message
        self.detail = detail


class Inconclusive(Exception):
    """The case could not be judged (for example the machine ran out of something)."""


class CpuLimit(BaseException):
    """The case used more processor time than any correct execution can need."""


def jsonable(x, depth=0):
    if depth > 6:
        return '...'
    if isinstance(x, (bytes, bytearray)):
        return x.hex() if len(x) <= 2000 else x[:2000].hex() + f'...({len(x)} bytes)'
    if isinstance(x, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v, depth + 1) for v in list(x)[:200]]
    if isinstance(x, (int, str, float, bool)) or x is None:
        return x
    return repr(x)[:500]


def in_repo(filename):
    return filename.startswith(REPO + '/ccnpy/')


def raised_by_code_under_test(exc):
    """True if a frame of /repo/ccnpy is on the traceback of the exception."""
    tb = exc.__traceback__
    while tb is not None:
        if in_repo(tb.tb_frame.f_code.co_filename):
            return True
        tb = tb.tb_next
    return False


def where(exc):
    frames = [f for f in traceback.extract_tb(exc.__traceback__) if in_repo(f.filename)]
    if not frames:
        return ''
    f = frames[-1]
    return f'{os.path.relpath(f.filename, REPO)}:{f.lineno} in {f.name}'


class Ctx:
    """What a case function gets."""

    def __init__(self, prop, tier, seed, kind, index, stats):
        self.prop, self.tier, self.seed, self.kind, self.index = prop, tier, seed, kind, index
        h = hashlib.sha256(f'{seed}:{prop}:{kind}:{index}'.encode()).digest()
        self.rng = random.Random(int.from_bytes(h, 'big'))
        self._stats = stats
        self._scratch = None
        self.config = None      # a description of the case, for the replay file

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def count(self, name, n=1):
        c = self._stats['counters']
        c[name] = c.get(name, 0) + n

    def maximum(self, name, value):
        c = self._stats['maxima']
        c[name] = max(c.get(name, value), value)

    def distinct(self, *key):
        """Record that this case was non-trivial, under a key that tells it from the others."""
        self._stats['distinct'].add(hashlib.blake2b(repr(key).encode(), digest_size=8).digest())

    def seen(self, name, value):
        """Record a value of a small state space the monitors observed."""
        self._stats['seen'].setdefault(name, set()).add(value)

    def sample(self, obj):
        s = self._stats['samples']
        if len(s) < 3:
            s.append(jsonable(obj))

    def fail(self, mechanism, message, **detail):
        raise Violation(mechanism, message, **detail)

    def check(self, cond, mechanism, message, **detail):
        self._stats['assertions'] += 1
        if not cond:
            raise Violation(mechanism, message() if callable(message) else message, **detail)

    @contextlib.contextmanager
    def must_work(self, what):
        """The property says this part must succeed: an exception out of the code under test is a violation."""
        try:
            yield
        except (Violation, Inconclusive):
            raise
        except MemoryError as e:
            raise Violation(f'{what}-memory', f'{what} ran out of memory') from e
        except RecursionError as e:
            raise Violation(f'{what}-recursion', f'{what} recursed without end: {where(e)}') from e
        except Exception as e:
            if raised_by_code_under_test(e):
                raise Violation(f'{what}-raised-{type(e).__name__}',
                                f'{what} raised {type(e).__name__}: {str(e)[:300]} at {where(e)}') from e
            raise

    def scratch(self):
        if self._scratch is None:
            self._scratch = tempfile.mkdtemp(prefix='ccnpy-mon-')
        return self._scratch

    def cleanup(self):
        if self._scratch is not None:
            shutil.rmtree(self._scratch, ignore_errors=True)
            self._scratch = None


def new_stats():
    return {'counters': {}, 'maxima': {}, 'distinct': set(), 'seen': {}, 'samples': [], 'assertions': 0,
            'evaluations': 0, 'skipped': 0, 'by_kind': {}, 'violations': [], 'errors': [], 'inconclusive': []}


def merge(into, s):
    for k, v in s['counters'].items():
        into['counters'][k] = into['counters'].get(k, 0) + v
    for k, v in s['maxima'].items():
        into['maxima'][k] = max(into['maxima'].get(k, v), v)
    for k, v in s['by_kind'].items():
        into['by_kind'][k] = into['by_kind'].get(k, 0) + v
    for k, v in s['seen'].items():
        into['seen'].setdefault(k, set()).update(v)
    into['distinct'] |= s['distinct']
    into['samples'].extend(s['samples'])
    for k in ('assertions', 'evaluations', 'skipped'):
        into[k] += s[k]
    for k in ('violations', 'errors', 'inconclusive'):
        into[k].extend(s[k])


class NullOut:
    encoding = 'utf-8'

    def write(self, s):
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False

    def fileno(self):
        raise OSError('no fileno')


@contextlib.contextmanager
def quiet():
    so, se = sys.stdout, sys.stderr
    sys.stdout = NullOut()
    try:
        yield
    finally:
        sys.stdout, sys.stderr = so, se


def _on_cpu_limit(signum, frame):
    raise CpuLimit()


def reset_globals():
    """Each case starts from the state of a new process, as far as the public API lets us."""
    try:
        from ccnpy.flic.name_constructor.SchemaImplFactory import SchemaImplFactory
        SchemaImplFactory.reset_nc_id()
    except Exception:
        pass
    try:
        from ccnpy.core.ContentObject import ContentObject
        if hasattr(ContentObject, 'USE_BRIEF_OUTPUT'):
            ContentObject.USE_BRIEF_OUTPUT = False
    except Exception:
        pass


# Rules, not names, so that no time zone files are needed
ZONES = ['UTC0', 'JST-9', 'EST5EDT,M3.2.0,M11.1.0', 'XYZ-5:45', 'NZST-12NZDT,M9.5.0,M4.1.0/3', 'ABC11']


def set_zone(prop, kind, index):
    """No value may depend on where in the world the program runs: the cases, and the programs they start, run all over it."""
    os.environ['TZ'] = ZONES[hashlib.sha256(f'{prop} {kind} {index}'.encode()).digest()[0] % len(ZONES)]
    time.tzset()


def run_case(module, tier, seed, kind, index, stats, cpu_limit):
    fn = module.KINDS[kind][0]
    set_zone(module.PROPERTY, kind, index)
    ctx = Ctx(module.PROPERTY, tier, seed, kind, index, stats)
    reset_globals()
    signal.signal(signal.SIGPROF, _on_cpu_limit)
    signal.setitimer(signal.ITIMER_PROF, cpu_limit)
    v = None
    try:
        with quiet():
            fn(ctx)
        stats['evaluations'] += 1
        stats['by_kind'][kind] = stats['by_kind'].get(kind, 0) + 1
    except Violation as e:
        v = (e.mechanism, e.message, e.detail, traceback.format_exc())
    except Inconclusive as e:
        stats['inconclusive'].append(f'{kind}/{index}: {e}')
    except CpuLimit as e:
        if raised_by_code_under_test(e):
            v = ('no-termination', f'still running after {cpu_limit} s of processor time at {where(e)}', {},
                 traceback.format_exc())
        else:
            stats['inconclusive'].append(f'{kind}/{index}: processor time limit outside the code under test')
    except MemoryError as e:
        stats['inconclusive'].append(f'{kind}/{index}: out of memory')
    except Exception as e:
        tb = traceback.format_exc()
        if type(e).__name__ in ('WireError', 'ModelError'):     # an independent decoder cannot read what the library wrote
            v = (f'unreadable-{type(e).__name__}', f'what was written is not in the wire format: {str(e)[:300]}', {}, tb)
        elif isinstance(e, (AttributeError, TypeError)) and "'NoneType' object" in str(e) and not raised_by_code_under_test(e):
            v = ('no-answer', f'the library gave nothing where a value is due: {str(e)[:300]}', {}, tb)
        elif raised_by_code_under_test(e):
            v = (f'raised-{type(e).__name__}', f'{type(e).__name__}: {str(e)[:300]} at {where(e)}', {}, tb)
        else:
            stats['errors'].append(f'{kind}/{index}: {tb[-1500:]}')
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        ctx.cleanup()
    if v is not None:
        stats['evaluations'] += 1
        stats['by_kind'][kind] = stats['by_kind'].get(kind, 0) + 1
        stats['violations'].append({'property': module.PROPERTY, 'kind': kind, 'index': index, 'seed': seed,
                                    'tier': tier, 'mechanism': v[0], 'message': v[1], 'detail': jsonable(v[2]),
                                    'case': jsonable(ctx.config), 'traceback': v[3][-3000:]})
    return v


def _worker(module_name, tier, seed, tasks, nxt, out, deadline, cpu_limit, stop):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except (ValueError, OSError):
        pass
    module = importlib.import_module(module_name)
    stats = new_stats()
    if hasattr(module, 'worker_init'):
        module.worker_init()
    while True:
        with nxt.get_lock():
            i = nxt.value
            nxt.value += 1
        if i >= len(tasks):
            break
        if time.time() > deadline or stop.value >= 6:
            stats['skipped'] += 1
            continue
        kind, index = tasks[i]
        if run_case(module, tier, seed, kind, index, stats, cpu_limit) is not None:
            with stop.get_lock():
                stop.value += 1
    with open(out, 'wb') as f:
        pickle.dump(stats, f)
    os._exit(0)


def known_findings(prop):
    try:
        with open(KNOWN) as f:
            return [k for k in json.load(f)['findings'] if k['property'] == prop and k.get('status') == 'open']
    except FileNotFoundError:
        return []


def main(prop, replay=None):
    sys.path.insert(0, REPO)
    module_name = f'mon.checks.{prop.lower()}'
    module = importlib.import_module(module_name)
    import ccnpy
    if not ccnpy.__path__ or not list(ccnpy.__path__)[0].startswith(REPO):
        print(f'error: ccnpy imported from {list(ccnpy.__path__)}', file=sys.stderr)
        return 2
    tier = os.environ.get('VERIF_TIER', 'quick')
    tier = tier if tier in ('quick', 'thorough') else 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1

    if replay is not None:
        r = json.load(open(replay))
        stats = new_stats()
        v = run_case(module, r['tier'], r['seed'], r['kind'], r['index'], stats, 300)
        for x in stats['errors'] + stats['inconclusive']:
            print(x)
        if v is None:
            print('replay: no violation')
            return 2 if stats['errors'] or stats['inconclusive'] else 0
        print(v[3])
        print(f'VIOLATION property={prop} replay={replay}')
        return 1

    start = time.time()
    scale = float(os.environ.get('VERIF_SCALE', '1'))
    budget = float(os.environ.get('VERIF_BUDGET', '600' if tier == 'quick' else '3000'))
    only = os.environ.get('VERIF_KIND')
    tasks = []
    for kind, (fn, nq, nt) in module.KINDS.items():
        if only and kind != only:
            continue
        n = nq if tier == 'quick' else nt
        if n > 1:
            n = max(1, int(n * scale))
        tasks.append([(kind, i) for i in range(n)])
    # interleave the kinds evenly, long case kinds first where there are few of them
    order = []
    for t in tasks:
        for j, x in enumerate(t):
            order.append((j / len(t), len(t), x))
    order.sort(key=lambda o: (o[0], o[1]))
    tasks = [o[2] for o in order]

    shutil.rmtree(os.path.join(VERIF, 'evidence', 'replay', prop), ignore_errors=True)
    workdir = tempfile.mkdtemp(prefix='ccnpy-mon-run-')
    total = new_stats()
    lost = 0
    try:
        ctxm = mp.get_context('fork')
        nxt = ctxm.Value('i', 0)
        stop = ctxm.Value('i', 0)
        nproc = min(8, os.cpu_count() or 1, max(1, len(tasks)))
        if getattr(module, 'PROCESSES', None):
            nproc = min(nproc, module.PROCESSES)
        procs = []
        sys.stdout.flush()
        for w in range(nproc):
            out = os.path.join(workdir, f'w{w}')
            p = ctxm.Process(target=_worker, args=(module_name, tier, seed, tasks, nxt, out, start + budget,
                                                   getattr(module, 'CPU_LIMIT', 100), stop))
            p.start()
            procs.append((p, out))
        hard = start + budget + 200
        for p, out in procs:
            p.join(max(1, hard - time.time()))
            if p.is_alive():
                p.kill()
                p.join()
            if os.path.exists(out):
                with open(out, 'rb') as f:
                    merge(total, pickle.load(f))
            else:
                lost += 1
    finally:
        shutil.rmtree(workdir, ignore_errors=True)
    if hasattr(module, 'finish'):
        module.finish(total, tier, seed)

    known = known_findings(prop)
    reported, listed = [], []
    for v in sorted(total['violations'], key=lambda v: (v['kind'], v['index'])):
        k = next((k for k in known if k['mechanism'] == v['mechanism'] and k.get('kind', v['kind']) == v['kind']), None)
        (listed if k else reported).append((v, k))
    for what in sorted({k['what'] for _, k in listed}):
        print(f'KNOWN-FINDING: property={prop} {what}')
    seen = set()
    for v, _ in reported:
        if v['mechanism'] in seen or len(seen) >= 5:
            continue
        seen.add(v['mechanism'])
        d = os.path.join(VERIF, 'evidence', 'replay', prop)
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f'{v["kind"]}-{v["index"]}.json')
        with open(path, 'w') as f:
            json.dump(v, f, indent=1)
        print(f'  {v["kind"]}/{v["index"]} {v["mechanism"]}: {v["message"]}')
        print(f'VIOLATION property={prop} replay={path}')

    coverage = {
        'evaluations': total['evaluations'],
        'distinct_nontrivial': len(total['distinct']),
        'rule': module.RULE,
        'samples': sorted(total['samples'], key=lambda s: json.dumps(s, sort_keys=True))[:3],
        'oracle_assertions': total['assertions'],
        'cases_by_kind': dict(sorted(total['by_kind'].items())),
        'observed': dict(sorted(total['counters'].items())),
        'maxima': dict(sorted(total['maxima'].items())),
        'states_seen': {k: len(v) for k, v in sorted(total['seen'].items())},
    }
    if getattr(module, 'EXHAUSTIVE', None):
        coverage['exhaustive_part'] = module.EXHAUSTIVE
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': module.LEVEL, 'coverage': coverage,
        'assumptions': getattr(module, 'ASSUMPTIONS', []),
        'wall_s': round(time.time() - start, 3), 'violations': len(reported),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', f'{prop}.json'), 'w') as f:
        json.dump(evidence, f, indent=1)

    if reported:
        return 1
    problems = []
    if lost:
        problems.append(f'{lost} worker processes gave no result')
    problems += total['errors'][:3]
    if total['inconclusive']:
        problems.append(f'{len(total["inconclusive"])} inconclusive cases, such as {total["inconclusive"][0]}')
    if not only and scale >= 1:
        for name, value in getattr(module, 'MINIMUM', {}).items():
            got = total['counters'].get(name, total['evaluations'] if name == 'evaluations' else
                                        len(total['distinct']) if name == 'distinct' else 0)
            if got < value:
                problems.append(f'observed only {got} of {name}, the minimum is {value}')
    if problems:
        for p in problems:
            print(f'INCONCLUSIVE property={prop} {p}')
        return 2
    print(f'{prop} ok: {total["evaluations"]} cases, {len(total["distinct"])} distinct, '
          f'{total["assertions"]} oracle assertions, {total["skipped"]} skipped, {time.time() - start:.1f} s')
    return 0
