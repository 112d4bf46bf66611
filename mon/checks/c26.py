"""C26: trees built or read side by side do not disturb each other."""
import io
import os
import random
import threading

from .. import gen, handmade, treemodel, wire
from ..harness import Violation
from . import c22
from .c05 import octets

PROPERTY = 'C26'
LEVEL = 'exploration'
RULE = ('A case runs several builds and readings in one process, one at a time, and hands over between them only where the '
        'library calls out: at each packet written or requested, each read of the input and each write of data. A seeded '
        'scheduler chooses who goes on: at random, in turn, in bursts, or one that stops at a chosen point until the '
        'others have ended, at every point in turn. Options, keys, key stores, packet stores and directories are shared or '
        'not. Every log of packets must be, in the normal form of the determinism check, that of the same build alone, and '
        'every file read the file. Distinct cases are distinct schedules.')
MINIMUM = {'evaluations': 150, 'distinct': 300, 'switches': 3000, 'builds_compared': 500, 'files_compared': 400,
           'stops': 180, 'shared_options': 30, 'shared_store': 35, 'late_trees': 40}


class Abort(BaseException):
    pass


class Scheduler:
    """One task runs at a time; at each point it may hand over."""

    def __init__(self, ctx, choose):
        self.ctx, self.choose = ctx, choose
        self.tasks = {}
        self.back = threading.Semaphore(0)
        self.local = threading.local()
        self.dead = False
        self.order = []
        self.points = {}

    def add(self, name, fn):
        t = Task(self, name, fn)
        self.tasks[name] = t
        return t

    def point(self):
        t = getattr(self.local, 'task', None)
        if t is None:
            return
        self.points[t.name] = self.points.get(t.name, 0) + 1
        self.back.release()
        t.go.acquire()
        if self.dead:
            raise Abort()

    def run(self):
        """-> in the order of adding, the results"""
        alive = list(self.tasks)
        for t in self.tasks.values():
            t.thread.start()
        last = None
        try:
            while alive:
                n = self.choose(alive, self)
                self.order.append(n)
                if n != last:
                    self.ctx.count('switches')
                last = n
                t = self.tasks[n]
                t.go.release()
                self.back.acquire()
                if t.ended:
                    alive.remove(n)
                    if t.error is not None:
                        raise t.error
        finally:
            self.dead = True
            for n in alive:
                self.tasks[n].go.release()
            for t in self.tasks.values():
                t.thread.join(20)
        self.ctx.distinct(tuple(self.order))
        return [t.result for t in self.tasks.values()]


class Task:
    def __init__(self, sched, name, fn):
        self.sched, self.name, self.fn = sched, name, fn
        self.go = threading.Semaphore(0)
        self.ended, self.error, self.result = False, None, None
        self.thread = threading.Thread(target=self.main, daemon=True)

    def main(self):
        self.sched.local.task = self
        self.go.acquire()
        try:
            if not self.sched.dead:
                self.result = self.fn()
        except Abort:
            return
        except BaseException as e:
            self.error = e
        self.ended = True
        self.sched.back.release()


class Source(io.RawIOBase):
    def __init__(self, data, point):
        self.f, self.point_ = io.BytesIO(data), point

    def readable(self):
        return True

    def read(self, n=-1):
        self.point_()
        return self.f.read(n)


class Reader:
    def __init__(self, inner, point):
        self.inner, self.point_ = inner, point

    def get(self, *a, **kw):
        self.point_()
        return self.inner.get(*a, **kw)

    def close(self):
        pass


class Sink(gen.Sink):
    def __init__(self, point):
        super().__init__()
        self.point_ = point

    def write(self, b):
        b = bytes(b)
        self.point_()
        return super().write(b)


# -- the tasks

class Job:
    """A build or a reading, which can be done alone or beside others."""

    def __init__(self, ctx, cfg, data, opts=None, ks=None):
        self.ctx, self.cfg, self.data, self.opts, self.ks = ctx, cfg, data, opts, ks

    def judge(self, result):
        raise NotImplementedError


class Build(Job):
    inner = None        # a shared packet output

    def alone(self):
        c22.reset()
        log, root, _ = c22.build(self.ctx, self.cfg, self.data)
        self.expected = (log, root)

    def run(self, point):
        from ccnpy.flic.ManifestTree import ManifestTree
        from ccnpy.flic.tree.ManifestGraph import ManifestGraph
        w = gen.RecordingWriter(self.inner)
        w.before = lambda p: point()
        with self.ctx.must_work('build'):
            o = self.opts or gen.options(self.cfg)
            root = ManifestTree(Source(self.data, point), w, o, manifest_graph=ManifestGraph() if len(self.data) % 2 else None).build()
        return w.log, octets(root.content_object_hash().value())

    def judge(self, result):
        c22.compare(self.ctx, self.cfg, self.expected, result, 'beside others', renumber=True)


class Read(Job):
    def alone(self):
        c22.reset()
        log, root, _ = c22.build(self.ctx, self.cfg, self.data)
        self.log, self.root = log, root
        self.reader = None

    def run(self, point):
        from ccnpy.core.HashValue import HashValue
        from ccnpy.flic.tree.Traversal import Traversal
        sink = Sink(point)
        with self.ctx.must_work('read'):
            t = Traversal(packet_input=Reader(self.reader, point), data_writer=sink, keystore=self.ks or gen.keystore(self.cfg),
                          build_graph=len(self.data) % 2 == 1)
            t.traverse(gen.name_obj(self.cfg['name']), HashValue.create_sha256(list(self.root)))
        return sink.value(), t.count()

    def judge(self, result):
        v, n = result
        self.ctx.check(v == self.data, 'file', f'a file of {len(self.data)} octets read beside others is another file, of {len(v)} octets')
        want = treemodel.read_tree({h: w for h, w in self.log}, self.root, gen.ref_keys(self.cfg))
        self.ctx.check(n == len(want.preorder), 'count', f'the count of a reading beside others is {n}, alone {len(want.preorder)}')
        self.ctx.count('files_compared')


def rand_choose(rng):
    k = rng.choice(['random', 'turn', 'bursts', 'starve'])
    st = {'cur': None, 'left': 0, 'victim': None}

    def choose(alive, s):
        if k == 'random':
            return rng.choice(alive)
        if k == 'turn':
            if st['cur'] in alive:
                i = (alive.index(st['cur']) + 1) % len(alive)
            else:
                i = 0
            st['cur'] = alive[i]
            return alive[i]
        if k == 'bursts':
            if st['left'] <= 0 or st['cur'] not in alive:
                st['cur'], st['left'] = rng.choice(alive), rng.choice([1, 2, 3, 10, 40])
            st['left'] -= 1
            return st['cur']
        # one waits from some point on until the others have ended
        if st['victim'] is None:
            st['victim'], st['left'] = rng.choice(alive), rng.randrange(0, 30)
        if st['victim'] in alive and s.points.get(st['victim'], 0) < st['left'] and rng.random() < .7:
            return st['victim']
        others = [a for a in alive if a != st['victim']]
        return rng.choice(others) if others else st['victim']
    return choose


def small_cfg(rng, top=1500):
    cfg = gen.rand_cfg(rng, top=top)
    cfg['signer_key'] = None
    cfg['size'] = rng.choice([0, 1, rng.randrange(1, top), rng.randrange(1, top)])
    if cfg['enc'] and cfg['enc']['rsa']:
        cfg['enc']['rsa'] = rng.choice(['a1024', 'a1024', 'c2048'])
    if rng.random() < .4 and cfg['mps'] < 3000:
        # several levels
        cfg['degree'], cfg['size'] = rng.choice([2, 2, 3, 4]), rng.randrange(1, cfg['mps'] * 12)
    return cfg


def jobs(ctx, n):
    from ccnpy.crypto.InsecureKeystore import InsecureKeystore
    rng = ctx.rng
    out = []
    shared_ks = InsecureKeystore()
    shared_ks.add_rsa_key('signer', gen.rsa_key('a1024'))
    shared_ks.add_rsa_key('w', gen.rsa_key('c2048'))
    use_shared = rng.random() < .5
    nums = set()
    for i in range(n):
        cfg = small_cfg(rng)
        if out and rng.random() < .4:       # the same again, or with one difference
            other = rng.choice(out)
            cfg = dict(other.cfg)
            r = rng.random()
            if r < .25:
                cfg['size'] = rng.randrange(0, max(1500, cfg['size']))
            elif r < .5:
                cfg['schema'] = cfg['schema']
                cfg['data_seed'] = rng.randrange(1 << 30)
            elif r < .6 and cfg['enc']:
                cfg['enc'] = dict(cfg['enc'], key=rng.randbytes(len(cfg['enc']['key'])))
        data = gen.rand_data(random.Random(cfg['data_seed']), cfg['size'])
        cls = Build if rng.random() < .55 else Read
        opts = None
        same = [j for j in out if isinstance(j, Build) and j.cfg == cfg]
        if cls is Build and (same or rng.random() < .3):
            if same and same[0].opts is not None:
                opts = same[0].opts
                ctx.count('shared_options')
            else:
                with ctx.must_work('setup'):
                    opts = gen.options(cfg)
        j = cls(ctx, cfg, data, opts)
        e = cfg['enc']
        if use_shared and cls is Read and (e is None or e['num'] not in nums):
            if e is not None:
                nums.add(e['num'])
                if e['kind'] == 'aead':
                    shared_ks.add_aes_key(gen.aead_params(e))
            j.ks = shared_ks
        out.append(j)
    # another build with the very same options
    b = [j for j in out if isinstance(j, Build) and j.opts is not None]
    if b and rng.random() < .7:
        k = rng.choice(b)
        data = k.data if rng.random() < .4 else gen.rand_data(rng, rng.randrange(0, max(1500, k.cfg['size'])))
        out.append(Build(ctx, dict(k.cfg, size=len(data)), data, k.opts))
        ctx.count('shared_options')
    return out


def stores(ctx, js):
    """Shared packet stores, or one each."""
    from array import array
    from ccnpy.core.Packet import Packet
    from ccnpy.flic.tree.TreeIO import TreeIO
    rng = ctx.rng
    reads = [j for j in js if isinstance(j, Read)]
    builds = [j for j in js if isinstance(j, Build)]
    k = rng.choice(['own', 'own', 'memory', 'dict', 'directory'])
    everything = {}
    for j in reads:
        everything.update({h: w for h, w in j.log})
    d = None
    if k in ('memory', 'dict') and reads:
        shared = gen.memory_reader(everything.values()) if k == 'memory' else handmade.DictReader(everything)
        for j in reads:
            j.reader = shared
        ctx.count('shared_store')
    else:
        for j in reads:
            j.reader = gen.memory_reader([w for _, w in j.log]) if rng.random() < .6 else handmade.DictReader(dict(j.log))
    if k == 'directory':
        d = os.path.join(ctx.scratch(), 'packets')
        os.makedirs(d, exist_ok=True)
        with ctx.must_work('directory'):
            one = TreeIO.PacketDirectoryWriter(d)
            for w in everything.values():
                one.put(Packet.deserialize(array('B', w)))
            for j in builds:
                j.inner = one if rng.random() < .5 else TreeIO.PacketDirectoryWriter(d)
            for j in reads:
                j.reader = TreeIO.PacketDirectoryReader(d)
        ctx.count('shared_store')
    return d


def beside(ctx):
    rng = ctx.rng
    js = jobs(ctx, rng.randrange(2, 5))
    for j in js:
        ctx.config = j.cfg
        j.alone()
    d = stores(ctx, js)
    c22.reset()
    for _ in range(2):
        s = Scheduler(ctx, rand_choose(rng))
        for i, j in enumerate(js):
            s.add(i, lambda j=j: j.run(s.point))
        for j, r in zip(js, s.run()):
            ctx.config = j.cfg
            j.judge(r)
            if isinstance(j, Build) and j.inner is not None:
                for h, w in r[0]:
                    p = os.path.join(d, h.hex())
                    ctx.check(os.path.exists(p), 'directory', 'a packet written beside others is not in the directory')
                    with open(p, 'rb') as f:
                        ctx.check(f.read() == w, 'directory-octets', 'a packet file written beside others has other octets')
        ctx.maximum('tasks', len(js))
        ctx.maximum('schedule_length', len(s.order))
    ctx.sample([j.cfg for j in js])


def stops(ctx):
    """Two tasks; the first stops at one point, at each point in turn, while the second runs to its end."""
    rng = ctx.rng
    js = jobs(ctx, 2)[:2]
    if rng.random() < .4:       # a reading and a build of the same
        js = [Build(ctx, js[0].cfg, js[0].data), Read(ctx, js[0].cfg, js[0].data)]
        rng.shuffle(js)
    for j in js:
        ctx.config = j.cfg
        j.alone()
        j.inner = None
    for j in js:
        if isinstance(j, Read):
            j.reader = gen.memory_reader([w for _, w in j.log])
    k, top = 0, 12 if not ctx.thorough else 200
    ks = list(range(400)) if ctx.thorough else None
    n = None
    tried = 0
    while True:
        c22.reset()
        at = k

        def choose(alive, s):
            if 0 in alive and (s.points.get(0, 0) < at or 1 not in alive):
                return 0
            return 1 if 1 in alive else 0
        s = Scheduler(ctx, choose)
        for i, j in enumerate(js):
            s.add(i, lambda j=j: j.run(s.point))
        for j, r in zip(js, s.run()):
            ctx.config = j.cfg
            j.judge(r)
        ctx.count('stops')
        n = s.points.get(0, 0)
        tried += 1
        k += max(1, n // top)
        if k > n:
            break
    ctx.maximum('points', n)


def late(ctx):
    """After many other trees in the process."""
    from ccnpy.core.HashValue import HashValue
    from ccnpy.flic.name_constructor.NameConstructorContext import NameConstructorContext
    rng = ctx.rng
    c22.reset()
    cfg = small_cfg(rng)
    with ctx.must_work('setup'):
        o = gen.options(dict(cfg, enc=None, signer='none'))
        many = 33000 if ctx.index % 12 == 0 else rng.choice([100, 126, 127, 128, 129, 300, 1000])
        for _ in range(many):
            NameConstructorContext.create(o)
    for _ in range(2):
        r = gen.Run(ctx, cfg)
        v = r.view()
        ctx.check(v.content() == r.data, 'late-file', 'a tree built after many others is of another file')
        for h, w in r.writer.log:
            ctx.check(h == r.root_hash or len(w) <= cfg['mps'], 'late-size', f'after many other trees a packet has {len(w)} octets, {cfg["mps"]} are allowed')
        ids = {n for n, _ in v.root.node['ncdefs']}
        ctx.check(len(ids) == len(v.root.node['ncdefs']), 'late-ids', 'two name constructors of a tree have the same number')
        sink, _ = gen.library_read(ctx, gen.memory_reader([w for _, w in r.writer.log]), r.name, HashValue.create_sha256(list(r.root_hash)), gen.keystore(cfg))
        ctx.check(sink.value() == r.data, 'late-read', 'a tree built after many others reads as another file')
        ctx.count('late_trees')
        ctx.maximum('constructor_number', max(ids))
        ctx.distinct('late', max(ids), r.shape())
        cfg = small_cfg(rng)
    c22.reset()


KINDS = {
    'beside': (beside, 170, 6000),
    'stops': (stops, 60, 1000),
    'late': (late, 36, 300),
}
