"""C22: building is deterministic."""
import gc
import hashlib
import io
import json
import os
import pickle
import random
import subprocess
import sys

from .. import gen, treemodel, wire
from ..harness import REPO, VERIF

PROPERTY = 'C22'
LEVEL = 'exploration'
RULE = ('A case builds one file several times with the same options and compares the recorded packet logs, packet by '
        'packet in the order written: octet by octet where nothing is random, and in the normal form of the decrypted, '
        'independently decoded packets (hashes replaced by the position of the packet in the log; nonce, wrapped key, '
        'signature time and signature of the root left out) where encryption or signing is. Between the builds the process '
        'builds, reads and fails at other things, collects garbage, reseeds the random generator, shares option objects or '
        'uses other kinds of input; families of nearly equal configurations are built in one order here and in the other order in another process; other builds run in processes with other hash seeds, time zones and locales. Distinct '
        'cases are distinct (options, way of building again) pairs.')
MINIMUM = {'evaluations': 200, 'distinct': 900, 'builds_compared': 900, 'packets_compared': 5000, 'processes': 12,
           'process_builds': 120, 'relatives_compared': 200, 'encrypted_compared': 250, 'equal_chunks': 200, 'later_numbers': 200, 'objects_again': 50}


class Lone:
    """As much of a context as gen.Run asks for, in another process."""

    def __init__(self):
        self.config = None

    def count(self, *a):
        pass

    def must_work(self, what):
        import contextlib
        return contextlib.nullcontext()


def reset():
    from ccnpy.flic.name_constructor.SchemaImplFactory import SchemaImplFactory
    SchemaImplFactory.reset_nc_id()


def normal(log, root_hash, cfg, renumber=False):
    """The packets in the order written, without what is random or dated by design."""
    first = {}
    for i, (h, _) in enumerate(log):
        first.setdefault(h, i)
    keys = gen.ref_keys(cfg)
    # the root alone has the wrapped key
    pkts = [(h, wire.dec_packet(w), w) for h, w in log]
    for h, p, _ in pkts:
        if h == root_hash:
            treemodel.open_manifest(p, keys)
    ids = {}

    def nc(n):
        if not renumber or n is None:
            return n
        return ids.setdefault(n, len(ids) + 1)
    # constructors are numbered by their order in the root
    if renumber:
        for h, p, _ in pkts:
            if h == root_hash:
                for n, _ in treemodel.open_manifest(p, keys)[1]['ncdefs']:
                    nc(n)
    out = []
    for h, p, w in pkts:
        d = {k: p[k] for k in ('name', 'expiry', 'payload_type', 'fcid', 'ptype')}
        if not renumber:
            d['length'] = len(w)
        if p['is_manifest']:
            man, node = treemodel.open_manifest(p, keys)
            if man['ctx'] is not None:
                c = man['ctx']
                d['ctx'] = {k: c[k] for k in ('kind', 'keynum_raw', 'mode_raw', 'kdf_alg', 'kdf_info_raw') if k in c}
                d['keyid'] = c.get('keyid')
                d['nonce_length'], d['tag_length'] = len(c['nonce']), len(man['tag'])
            d['node'] = {k: node[k] for k in ('subtree_size', 'subtree_digest', 'locators', 'vendors', 'pad')}
            d['ncdefs'] = [(nc(n), s) for n, s in node['ncdefs']]
            d['groups'] = [{**{k: v for k, v in g.items() if k not in ('pointers', 'ncid')}, 'ncid': nc(g['ncid']),
                            'pointers': [first.get(x, x) for x in g['pointers']]} for g in node['groups']]
        else:
            d['payload'] = p['payload']
        s = p['sig']
        d['sig'] = None if s is None else {k: v for k, v in s.items() if k not in ('sigtime', 'signature_time', 'sig_time', 'time')}
        d['sig_length'] = None if p['vpayload'] is None else len(p['vpayload'])
        out.append(d)
    return out


def exact(cfg):
    return cfg['enc'] is None and cfg['signer'] != 'rsa'


def build(ctx, cfg, data, source=None, opts=None):
    if opts is None:
        r = gen.Run(ctx, cfg, data, source=source)
        return r.writer.log, r.root_hash, r
    from ccnpy.flic.ManifestTree import ManifestTree
    w = gen.RecordingWriter()
    with ctx.must_work('build'):
        root = ManifestTree(io.BytesIO(data) if source is None else source, w, opts).build()
    return w.log, bytes(root.content_object_hash().value()), None


def compare(ctx, cfg, a, b, how, renumber=False):
    (la, ra), (lb, rb) = a, b
    ctx.check(len(la) == len(lb), 'packet-count', f'{how}: {len(la)} packets the first time, {len(lb)} the second')
    if not renumber:
        # everything that is neither encrypted nor a signed root is the same to the octet
        for i, ((ha, wa), (hb, wb)) in enumerate(zip(la, lb)):
            if exact(cfg) or (ha != ra and (cfg['enc'] is None or not wire.dec_packet(wa)['is_manifest'])):
                ctx.check(wa == wb and ha == hb, 'octets', lambda: f'{how}: packet {i} of {len(la)} has other octets: {wa.hex()[:300]} / {wb.hex()[:300]}')
    else:
        for i, ((ha, wa), (hb, wb)) in enumerate(zip(la, lb)):
            if not wire.dec_packet(wa)['is_manifest']:
                ctx.check(wa == wb and ha == hb, 'octets', f'{how}: data packet {i} of {len(la)} has other octets')
    try:
        na, nb = normal(la, ra, cfg, renumber), normal(lb, rb, cfg, renumber)
    except treemodel.ModelError as e:
        ctx.fail('tree-' + e.mechanism, e.message)
    for i, (x, y) in enumerate(zip(na, nb)):
        ctx.check(x == y, 'packet', lambda: f'{how}: packet {i} of {len(la)} differs in {[k for k in x if x[k] != y.get(k)]}: {x} / {y}'[:900])
    ctx.count('builds_compared')
    ctx.count('packets_compared', len(la))
    if cfg['enc']:
        ctx.count('encrypted_compared')
    ctx.distinct(how, renumber, repr(sorted(cfg.items(), key=lambda i: i[0])))


class Failing:
    def put(self, packet):
        raise OSError('no space left on device')


def history(ctx, rng):
    """Anything else a process may have done before."""
    from ccnpy.flic.ManifestTree import ManifestTree
    for _ in range(rng.randrange(1, 4)):
        act = rng.choice(['build', 'build', 'read', 'fail-write', 'fail-read', 'seed', 'gc', 'print', 'parse'])
        if act in ('build', 'read', 'print'):
            cfg = gen.rand_cfg(rng, top=2500)
            cfg['size'] = rng.randrange(0, 2500)
            keep = ctx.config
            r = gen.Run(ctx, cfg)
            ctx.config = keep
            if act == 'read':
                gen.library_read(ctx, gen.memory_reader([w for _, w in r.writer.log]), r.name, r.root.content_object_hash(), gen.keystore(cfg))
            if act == 'print':
                for p in r.writer.packets[:4]:
                    repr(p), str(p)
        elif act == 'fail-write':
            cfg = gen.rand_cfg(rng, top=2000)
            try:
                ManifestTree(io.BytesIO(b'x' * 100), Failing(), gen.options(cfg)).build()
            except OSError:
                pass
        elif act == 'fail-read':
            cfg = gen.rand_cfg(rng, top=2000)

            class Bad:
                def read(self, n=-1):
                    raise OSError('input/output error')
            try:
                ManifestTree(Bad(), gen.RecordingWriter(), gen.options(cfg)).build()
            except OSError:
                pass
        elif act == 'seed':
            random.seed(rng.randrange(1 << 30))
        elif act == 'gc':
            gc.collect()
        elif act == 'parse':
            from array import array
            from ccnpy.core.Packet import Packet
            try:
                Packet.deserialize(array('B', rng.randbytes(40)))
            except Exception:
                pass
        ctx.count('history_' + act.replace('-', '_'))


def small_cfg(rng):
    cfg = gen.rand_cfg(rng, top=8000)
    cfg['size'] = rng.choice([0, 1, rng.randrange(1, 500), rng.randrange(1, 8000), rng.randrange(1, 8000)])
    return cfg


def again(ctx):
    """In one process, after other things."""
    rng = ctx.rng
    cfg = small_cfg(rng)
    data = gen.rand_data(random.Random(cfg['data_seed']), cfg['size'])
    ctx.config = cfg
    reset()
    la, ra, _ = build(ctx, cfg, data)
    one = (la, ra)
    with ctx.must_work('setup'):
        opts = gen.options(cfg)
    for how in rng.sample(['at-once', 'history', 'same-options', 'same-options', 'real-file', 'buffered', 'after-itself', 'options-before',
                           'other-directory'], 5):
        source, o = None, None
        if how in ('history', 'options-before'):
            if how == 'options-before':
                with ctx.must_work('setup'):
                    o = gen.options(cfg)
            history(ctx, rng)
        elif how == 'same-options':
            o = opts
            if rng.random() < .5:
                reset()
                build(ctx, cfg, rng.randbytes(rng.randrange(0, 3000)), opts=o)
        elif how in ('real-file', 'buffered'):
            path = os.path.join(ctx.scratch(), 'f')
            with open(path, 'wb') as f:
                f.write(data)
            source = open(path, 'rb', buffering=0 if how == 'real-file' else rng.choice([-1, 2, 8192]))
        elif how == 'after-itself':
            for _ in range(3):
                reset()
                build(ctx, cfg, data)
        elif how == 'other-directory':
            os.environ['CCNPY_TEST'] = str(rng.random())
        reset()
        lb, rb, _ = build(ctx, cfg, data, source, o)
        if source is not None:
            source.close()
        compare(ctx, cfg, one, (lb, rb), how)
    # without setting the numbering of name constructors back
    for _ in range(2):
        if rng.random() < .7:
            history(ctx, rng)
        lb, rb, _ = build(ctx, cfg, data)
        big = [n for _, w in [x for x in lb if x[0] == rb] for n in ncids(w, cfg)]
        if not big or max(big) < 256:       # a longer number may change the plan
            compare(ctx, cfg, one, (lb, rb), 'later-numbers', renumber=True)
            ctx.count('later_numbers')
    ctx.sample(cfg)


def ncids(w, cfg):
    return [n for n, _ in treemodel.open_manifest(wire.dec_packet(w), gen.ref_keys(cfg))[1]['ncdefs']]


def chunks(ctx):
    """Equal chunks of a hashed tree are one packet, and one file."""
    from ccnpy.flic.tree.TreeIO import TreeIO
    rng = ctx.rng
    cfg = small_cfg(rng)
    while cfg['schema'] != 'hashed':
        cfg = small_cfg(rng)
    cfg['size'] = 8000
    r0 = gen.Run(ctx, cfg, b'a' * 8000)
    sizes = [len(p['payload']) for p in (wire.dec_packet(w) for _, w in r0.writer.log) if p['is_data']]
    n = sizes[0]
    kinds = [rng.randbytes(n) for _ in range(rng.randrange(1, 5))]
    seq = [rng.choice(kinds) for _ in range(rng.randrange(2, 14))]
    data = b''.join(seq) + rng.choice([b'', kinds[0][:n // 2], b'x'])
    cfg['size'] = len(data)
    d = os.path.join(ctx.scratch(), 'packets')
    os.mkdir(d)
    reset()
    with ctx.must_work('directory'):
        inner = TreeIO.PacketDirectoryWriter(d)
    r = gen.Run(ctx, cfg, data, inner=inner)
    got = [(h, wire.dec_packet(w)) for h, w in r.writer.log]
    got = [(h, p['payload']) for h, p in got if p['is_data']]
    ctx.check(b''.join(p or b'' for _, p in got) == data, 'chunk-data', 'the data packets are not the file')
    by_payload, by_hash = {}, {}
    for h, p in got:
        ctx.check(by_payload.setdefault(p, h) == h, 'equal-chunks', 'equal chunks of a hashed tree gave different packets')
        ctx.check(by_hash.setdefault(h, p) == p, 'different-chunks', 'different chunks gave the same hash')
    ctx.count('equal_chunks', len(got) - len(by_payload))
    files = [f for f in os.listdir(d) if not f.endswith('.link')]
    ctx.check(len(files) == len({h for h, _ in r.writer.log}), 'files', f'{len(files)} files for {len({h for h, _ in r.writer.log})} different packets')
    reset()
    lb, rb, _ = build(ctx, cfg, data)
    compare(ctx, cfg, (r.writer.log, r.root_hash), (lb, rb), 'equal-chunks')


CHILD = '''
import sys, pickle, os
sys.path.insert(0, {verif!r}); sys.path.insert(0, {repo!r})
sys.stdout = open(os.devnull, 'w')
from mon import gen
from mon.checks import c22
import random
jobs = pickle.load(sys.stdin.buffer)
out = []
for cfg, data, hist in jobs:
    try:
        if hist is not None:
            c22.history(c22.Lone(), random.Random(hist))
        c22.reset()
        log, root, _ = c22.build(c22.Lone(), cfg, data)
        out.append((log, root))
    except Exception as e:
        out.append(repr(e))
pickle.dump(out, os.fdopen(1, 'wb'))
'''


def processes(ctx):
    """The same builds in processes with other hash seeds, time zones, locales and histories."""
    rng = ctx.rng
    jobs, here = [], []
    for _ in range(10):
        cfg = small_cfg(rng)
        data = gen.rand_data(random.Random(cfg['data_seed']), cfg['size'])
        reset()
        log, root, _ = build(ctx, cfg, data)
        here.append((log, root))
        jobs.append((cfg, data, rng.randrange(1 << 30) if rng.random() < .5 else None))
    env = dict(os.environ, PYTHONHASHSEED=str(rng.randrange(1, 1 << 32)), TZ=rng.choice(['UTC', 'Asia/Tokyo', 'America/New_York', 'XYZ-5:45']),
               LC_ALL=rng.choice(['C', 'C.UTF-8', 'POSIX']))
    opts = rng.choice([[], ['-O'], ['-X', 'utf8'], ['-B']])
    p = subprocess.run([sys.executable] + opts + ['-c', CHILD.format(verif=VERIF, repo=REPO)], input=pickle.dumps(jobs), stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, env=env, cwd=ctx.scratch(), timeout=300)
    if p.returncode != 0:
        raise RuntimeError(p.stderr[-800:].decode('utf-8', 'replace'))
    for (cfg, data, hist), a, b in zip(jobs, here, pickle.loads(p.stdout)):
        ctx.config = cfg
        ctx.check(not isinstance(b, str), 'other-process', lambda: f'the build works here and fails in another process: {b}')
        compare(ctx, cfg, a, b, 'other-process')
        ctx.count('process_builds')
    ctx.count('processes')


def relative(rng, cfg):
    """Nearly the same configuration."""
    c = json.loads(json.dumps({k: v for k, v in cfg.items() if k not in NAMES + ('enc',)}))
    for k in NAMES:
        c[k] = [list(x) for x in cfg[k]] if k.endswith('locators') and cfg[k] else cfg[k] if cfg[k] is None else list(cfg[k])
    c['enc'] = cfg['enc'] and dict(cfg['enc'])
    for _ in range(rng.choice([1, 1, 1, 2])):
        what = rng.choice(['longer', 'longer', 'longer', 'shorter', 'last', 'longer', 'mps', 'degree', 'expiry', 'flags', 'enc', 'data', 'signer', 'size'])
        if what in ('longer', 'shorter', 'last'):
            k = rng.choice([k for k in NAMES if c[k] is not None])
            n = c[k][0] if k.endswith('locators') else c[k]
            if what == 'longer' or not n:
                n = n + [(1, rng.choice([b'm', b'x' * rng.randrange(1, 60)]))]
            elif what == 'shorter' and len(n) > 1:
                n = n[:-1]
            else:
                n = n[:-1] + [(n[-1][0], n[-1][1] + rng.choice([b'z', b'y' * rng.randrange(1, 60)]))]
            c[k] = [n] if k.endswith('locators') else n
            a, b = (c['name'] if c[k] is None else c[k] for k in ('manifest_prefix', 'data_prefix'))
            if c['schema'] == 'segmented' and a == b:
                c['manifest_prefix'] = a + [(1, b'manifest')]
        elif what == 'mps':
            c['mps'] += rng.choice([-1, 1, 1, 2, 30, 32, 64, 256])
        elif what == 'degree':
            c['degree'] = rng.choice([None, 2, 3, (c['degree'] or 5) + 1])
        elif what == 'expiry':
            k = rng.choice(['root_expiry', 'manifest_expiry', 'data_expiry'])
            c[k] = None if c[k] is not None and rng.random() < .5 else gen.rand_expiry(rng)
        elif what == 'flags':
            k = rng.choice(['node_subtree', 'group_subtree', 'group_leaf'])
            c[k] = not c[k]
        elif what == 'enc' and c['enc']:
            c['enc']['key'] = rng.randbytes(len(c['enc']['key']))
        elif what == 'data':
            c['data_seed'] += 1
        elif what == 'signer':
            c['signer'] = rng.choice(['none', 'crc', 'rsa'])
        else:
            c['size'] += rng.choice([1, 2, 300])
    return c


NAMES = ('name', 'manifest_prefix', 'data_prefix', 'manifest_locators', 'data_locators')


def relatives(ctx):
    """A family of nearly equal configurations, built here in one order and in another process in the other order."""
    rng = ctx.rng
    cfg = small_cfg(rng)
    cfg['mps'] += 250          # the longer names
    if rng.random() < .6:
        k = rng.choice([k for k in NAMES if cfg[k] is not None])
        n = [(1, b'a rather long common beginning of ' * rng.choice([1, 2, 4]))[:2]] + (cfg[k][0] if k.endswith('locators') else cfg[k])
        cfg[k] = [n] if k.endswith('locators') else n
        if k == 'name' and cfg['manifest_prefix'] == n:
            cfg['manifest_prefix'] = n + [(1, b'mm')]
        cfg['mps'] += 200
    if rng.random() < .7:
        # more chunks than one manifest holds, and the packet size decides
        cfg['degree'] = None
        cfg['size'] = min(40000, cfg['mps'] * rng.choice([8, 14, 25, 40]))
    family = [cfg]
    while len(family) < 9:
        family.append(relative(rng, rng.choice(family)))
    jobs, here = [], []
    for c in family:
        data = gen.rand_data(random.Random(c['data_seed']), c['size'])
        ctx.config = c
        reset()
        log, root, _ = build(ctx, c, data)
        here.append((log, root))
        jobs.append((c, data, None))
    p = subprocess.run([sys.executable, '-c', CHILD.format(verif=VERIF, repo=REPO)], input=pickle.dumps(jobs[::-1]), stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, cwd=ctx.scratch(), timeout=300)
    if p.returncode != 0:
        raise RuntimeError(p.stderr[-800:].decode('utf-8', 'replace'))
    for (c, data, _), a, b in zip(jobs, here, pickle.loads(p.stdout)[::-1]):
        ctx.config = c
        ctx.check(not isinstance(b, str), 'other-process', lambda: f'the build works here and fails in another process: {b}')
        compare(ctx, c, a, b, 'relatives')
        ctx.count('relatives_compared')


def object_again(ctx):
    """One tree object that is built again, at once or in its two steps."""
    from ccnpy.flic.ManifestTree import ManifestTree
    rng = ctx.rng
    cfg = gen.rand_cfg(rng, top=6000)
    ctx.config = cfg
    data = gen.rand_data(random.Random(cfg['data_seed']), cfg['size'])
    w = gen.RecordingWriter()
    with ctx.must_work('build'):
        tree = ManifestTree(io.BytesIO(data), w, gen.options(cfg))
        chunks = len(w.log)
        root = tree.build()
    la, ra = list(w.log), bytes(root.content_object_hash().value())
    for how in rng.sample(['build', 'build', 'steps', 'other-root'], rng.randrange(1, 4)):
        n = len(w.log)
        with ctx.must_work('build again'):
            if how == 'build':
                root = tree.build()
            else:
                top = tree.build_top()
                root = tree.build_root(top_manifest_packet=top)
                if how == 'other-root':     # the same top below another signed root
                    del w.log[-1]
                    root = tree.build_root(top)
        compare(ctx, cfg, (la, ra), (la[:chunks] + w.log[n:], bytes(root.content_object_hash().value())), f'a tree object, {how} again')
        ctx.count('objects_again')


KINDS = {
    'object': (object_again, 60, 2000),
    'relatives': (relatives, 32, 1500),
    'again': (again, 180, 6000),
    'chunks': (chunks, 60, 2000),
    'processes': (processes, 16, 300),
}
