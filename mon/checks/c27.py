"""C27: packets are written children first, and a failed build leaves no root."""
import errno
import io
import os
import random

from .. import gen, treemodel, wire
from . import c22
from .c01 import OneOctet, ShortReads
from .c05 import octets

PROPERTY = 'C27'
LEVEL = 'fault_enumeration'
RULE = ('A case builds a tree with a monitor at the packet output that opens every packet as it is written (with an '
        'independent decryption) and demands that everything it points to was written before, and that the root comes '
        'last. It then builds the tree again with one fault at each packet write, each read of the input, each signature, '
        'each encryption, each packet file and each link file in turn (every index in a small tree, a sample that always has the first '
        'and the last few in a large one): the very error raised there must come out of the build, nothing may be asked or '
        'written after it, what was written before is what the undisturbed build writes, without a root, and the next '
        'build, with the same options, writes what the undisturbed build writes. Distinct cases are distinct (tree, kind '
        'of fault, index of fault).')
MINIMUM = {'evaluations': 200, 'distinct': 1800, 'puts_watched': 18000, 'pointers_watched': 14000, 'put_faults': 800,
           'read_faults': 500, 'root_put_faults': 100, 'rebuilds': 1100, 'disk_faults': 110, 'link_faults': 40, 'encrypt_faults': 60,
           'sign_faults': 15, 'same_tree_again': 110, 'over_description': 70}
CPU_LIMIT = 200


class Refused(Exception):
    pass


class Halt(BaseException):
    pass


def rand_error(rng):
    return rng.choice([
        lambda: OSError(errno.ENOSPC, 'No space left on device'), lambda: OSError(errno.EIO, 'Input/output error'),
        lambda: BrokenPipeError(errno.EPIPE, 'Broken pipe'), lambda: ValueError('refused'), lambda: KeyError('refused'),
        lambda: IndexError('refused'), lambda: TypeError('refused'), lambda: RuntimeError('refused'),
        lambda: EOFError('refused'), lambda: AttributeError('refused'), lambda: MemoryError(), lambda: Refused('refused'),
        lambda: KeyboardInterrupt(), lambda: Halt(), lambda: TimeoutError(errno.ETIMEDOUT, 'timed out'),
        lambda: InterruptedError(errno.EINTR, 'interrupted'), lambda: BlockingIOError(errno.EAGAIN, 'again'),
        lambda: FileExistsError(errno.EEXIST, 'exists'), lambda: NotImplementedError('refused'), lambda: AssertionError('refused'),
        lambda: FileNotFoundError(errno.ENOENT, 'no such file'), lambda: OverflowError('refused'), lambda: UnicodeError('refused')])()


class Store:
    """A packet output that watches the order, and refuses one packet."""

    def __init__(self, cfg, at=None, error=None, keep=False, inner=None):
        self.cfg, self.at, self.error, self.keep, self.inner = cfg, at, error, keep, inner
        self.log = []
        self.tries = 0
        self.failed = None          # the number of tries at the failure

    def put(self, packet):
        k = self.tries
        self.tries += 1
        w = (octets(packet.content_object_hash().value()), bytes(packet.serialize()))
        if self.at == k:
            if self.keep:
                self.log.append(w)
            self.failed = self.tries
            raise self.error
        self.log.append(w)
        if self.inner is not None:
            self.inner.put(packet)

    def close(self):
        pass


class Source(io.RawIOBase):
    """An input that fails at one read."""

    def __init__(self, inner, at=None, error=None):
        self.inner, self.at, self.error = inner, at, error
        self.reads = 0
        self.failed = None

    def readable(self):
        return True

    def read(self, n=-1):
        k = self.reads
        self.reads += 1
        if self.at == k:
            self.failed = self.reads
            raise self.error
        return self.inner.read(n)


def keys(cfg):
    """All that is needed to open a manifest on its own."""
    k = gen.ref_keys(cfg)
    e = cfg['enc']
    if e is not None and e['kind'] == 'oaep':
        k.add_aead(e['num'], e['key'], e['salt'])
    return k


def watch(ctx, cfg, log, root=None, before=()):
    """Children first; the root, if one is allowed, last."""
    ks = keys(cfg)
    seen = set(before)
    for i, (h, w) in enumerate(log):
        try:
            p = wire.dec_packet(w)
            node = treemodel.open_manifest(p, ks)[1] if p['is_manifest'] else None
        except (wire.WireError, KeyError) as e:
            ctx.fail('malformed', f'packet {i} of {len(log)} is malformed: {e}')
        except treemodel.ModelError as e:
            ctx.fail('closed', f'packet {i} of {len(log)}: {e}')
        ctx.check(p['hash'] == h, 'hash', f'packet {i} has another hash than it says')
        if node is not None:
            for g in node['groups']:
                for x in g['pointers']:
                    ctx.check(x in seen, 'order', f'packet {i} of {len(log)} was written before a packet it points to')
                    ctx.count('pointers_watched')
            if node['ncdefs'] or h == root:
                ctx.check(h == root, 'root-left', f'packet {i} is a root, and the build has not ended well')
                ctx.check(i == len(log) - 1, 'root-last', f'the root is packet {i} of {len(log)}')
        seen.add(h)
        ctx.count('puts_watched')
    if root is not None:
        ctx.check(log and log[-1][0] == root, 'root-last', f'the last packet written is not the root returned')


def build(ctx, cfg, data, store, source, opts, graph=False, tree=None):
    """-> (root hash, None, tree) or (None, error, tree)"""
    from ccnpy.flic.ManifestTree import ManifestTree
    from ccnpy.flic.tree.ManifestGraph import ManifestGraph
    try:
        if tree is None:
            c22.reset()
            tree = ManifestTree(source, store, opts, manifest_graph=ManifestGraph() if graph else None)
        root = tree.build()
        ctx.check(root is not None, 'nothing', 'a build returned nothing')
        return octets(root.content_object_hash().value()), None, tree
    except BaseException as e:
        if type(e).__name__ in ('Timeout', 'CpuLimit', 'Violation'):
            raise
        return None, e, tree


def small_cfg(rng, top):
    cfg = gen.rand_cfg(rng, top=top)
    for _ in range(rng.choice([0, 1, 2, 3])):       # rather many small packets
        other = gen.rand_cfg(rng, top=top)
        if other['mps'] < cfg['mps']:
            cfg = other
    if cfg['schema'] == 'segmented' or rng.random() < .6:
        cfg['size'] = rng.choice([0, 1, rng.randrange(1, top), rng.randrange(1, top), rng.randrange(top // 2, top)])
    if cfg['enc'] and cfg['enc']['rsa']:
        cfg['enc']['rsa'] = 'a1024'
        if cfg['enc']['salt'] is None:      # drawn by the encryptor, and known only with the root
            cfg['enc']['salt'] = rng.randrange(1 << 32)
    return cfg


def setting(ctx, top=5000, secured=False):
    rng = ctx.rng
    cfg = small_cfg(rng, top)
    while secured and (cfg['enc'] is None or cfg['signer'] == 'none' and rng.random() < .7):
        cfg = small_cfg(rng, top)
    ctx.config = cfg
    data = gen.rand_data(random.Random(cfg['data_seed']), cfg['size'])
    kind = rng.choice(['full', 'full', 'full', 'short', 'one']) if len(data) < 120 else rng.choice(['full', 'full', 'full', 'short'])
    seed = rng.randrange(1 << 30)

    def inner():
        return {'full': io.BytesIO, 'short': lambda d: ShortReads(d, random.Random(seed)), 'one': OneOctet}[kind](data)
    with ctx.must_work('setup'):
        opts = gen.options(cfg)
    store, source = Store(cfg), Source(inner())
    graph = rng.random() < .3
    with ctx.must_work('build'):
        root, e, _ = build(ctx, cfg, data, store, source, opts, graph)
        if e is not None:
            raise e
    watch(ctx, cfg, store.log, root)
    return cfg, data, inner, opts, store.log, root, source.reads, graph


def indices(ctx, n, most):
    if n <= most:
        return list(range(n))
    ks = {0, 1, 2, n - 1, n - 2, n - 3, n - 4}
    while len(ks) < most:
        ks.add(ctx.rng.randrange(n))
    return sorted(ks)


def failed(ctx, cfg, what, k, n, e, error, store, tries, clean):
    ctx.check(e is not None, what + '-swallowed', lambda: f'{what} {k} of {n} failed with {error!r}, and the build returned a root')
    ctx.check(e is error, what + '-error', lambda: f'{what} {k} of {n} failed with {error!r}, the build with {e!r}')
    e.__traceback__ = None
    ctx.check(store.tries == tries, what + '-after', f'after {what} {k} of {n} had failed, {store.tries - tries} packets were written')
    watch(ctx, cfg, store.log)
    # what was written is what would have been written
    ctx.check(len(store.log) < len(clean), what + '-more', f'{what} {k} of {n} failed, and {len(store.log)} packets were written, {len(clean)} in a whole tree')
    for i, ((h, w), (h2, w2)) in enumerate(zip(store.log, clean)):
        p = wire.dec_packet(w)
        if c22.exact(cfg) or not p['is_manifest']:
            ctx.check(w == w2, what + '-before', f'packet {i}, written before {what} {k} of {n} failed, is not the one of a build that does not fail')
        else:
            q = wire.dec_packet(w2)
            ctx.check(p['name'] == q['name'] and p['ptype'] == q['ptype'], what + '-before', f'packet {i}, written before {what} {k} of {n} failed, is not the one of a build that does not fail')


def again(ctx, cfg, data, inner, opts, clean, root, graph):
    """The next build, with the same options."""
    store, source = Store(cfg), Source(inner())
    with ctx.must_work('rebuild'):
        r, e, _ = build(ctx, cfg, data, store, source, opts, graph)
        if e is not None:
            raise e
    watch(ctx, cfg, store.log, r)
    c22.compare(ctx, cfg, (clean, root), (store.log, r), 'after a failure', renumber=True)
    ctx.count('rebuilds')


def puts(ctx):
    rng = ctx.rng
    cfg, data, inner, opts, clean, root, reads, graph = setting(ctx)
    n = len(clean)
    for k in indices(ctx, n, 26 if not ctx.thorough else 300):
        error, keep = rand_error(rng), rng.random() < .3 and k < n - 1
        store, source = Store(cfg, k, error, keep), Source(inner())
        o = opts if rng.random() < .7 else gen.options(cfg)
        r, e, tree = build(ctx, cfg, data, store, source, o, graph)
        failed(ctx, cfg, 'write', k, n, e, error, store, k + 1, clean)
        ctx.check(len(store.log) == k + keep, 'write-lost', f'{k} packets could be written, {len(store.log)} were')
        ctx.count('put_faults')
        ctx.count('root_put_faults', k == n - 1)
        ctx.distinct('put', repr(cfg), k)
        ctx.seen('error', type(error).__name__)
        if rng.random() < .5 or k >= n - 2:
            again(ctx, cfg, data, inner, o, clean, root, graph)
        if tree is not None and k < n and rng.random() < .5:
            # the build was refused; the same tree is built once more, over the packets already there
            have = [h for h, _ in store.log]
            store.at, b = None, len(store.log)
            with ctx.must_work('same-tree'):
                r, e, _ = build(ctx, cfg, data, store, None, None, graph, tree)
                if e is not None:
                    raise e
            watch(ctx, cfg, store.log[b:], r, have)
            try:
                v = treemodel.read_tree(dict(store.log), r, keys(cfg))
            except treemodel.ModelError as x:
                ctx.fail('same-tree-' + x.mechanism, f'built again after write {k} of {n} failed: {x.message}')
            ctx.check(v.content() == data, 'same-tree-file', f'built again after write {k} of {n} failed, the tree is of another file')
            ctx.count('same_tree_again')
    again(ctx, cfg, data, inner, opts, clean, root, graph)
    ctx.sample(dict(cfg=cfg, packets=n))


def reading(ctx):
    rng = ctx.rng
    cfg, data, inner, opts, clean, root, reads, graph = setting(ctx)
    ctx.check(reads >= 1, 'no-read', 'the input was not read')
    for k in indices(ctx, reads, 16 if not ctx.thorough else 300):
        error = rand_error(rng)
        store, source = Store(cfg), Source(inner(), k, error)
        r, e, _ = build(ctx, cfg, data, store, source, opts, graph)
        failed(ctx, cfg, 'read', k, reads, e, error, store, store.tries, clean)
        ctx.check(source.reads == source.failed, 'read-after', f'after read {k} of {reads} had failed, there were {source.reads - source.failed} more')
        ctx.check(all(wire.dec_packet(w)['is_data'] for _, w in store.log), 'read-manifest', f'read {k} of {reads} failed, and a manifest was written')
        ctx.count('read_faults')
        ctx.distinct('read', repr(cfg), k)
        if rng.random() < .4:
            again(ctx, cfg, data, inner, opts, clean, root, graph)
    again(ctx, cfg, data, inner, opts, clean, root, graph)


def calls(obj, method, at, error):
    """Fails the call number at of a method of one object."""
    f = getattr(obj, method)
    st = {'n': 0, 'tries': None}

    def g(*a, **kw):
        k = st['n']
        st['n'] += 1
        if k == at:
            if st.get('store') is not None:
                st['tries'] = st['store'].tries
            raise error
        return f(*a, **kw)
    setattr(obj, method, g)
    return st


def signing(ctx):
    """The signer or the encryptor fails."""
    rng = ctx.rng
    cfg, data, inner, opts, clean, root, reads, graph = setting(ctx, 4000, True)
    for obj, method, what in ((opts.signer, 'sign', 'sign'), (opts.manifest_encryptor, 'encrypt', 'encrypt')):
        if obj is None:
            continue
        st = calls(obj, method, -1, None)
        c22.reset()
        again(ctx, cfg, data, inner, opts, clean, root, graph)
        n = st['n']
        delattr(obj, method)
        ctx.check(n >= 1, what + '-none', f'a tree with {what} was built without it')
        for k in indices(ctx, n, 10 if not ctx.thorough else 60):
            error = rand_error(rng)
            store = Store(cfg)
            st = calls(obj, method, k, error)
            st['store'] = store
            r, e, _ = build(ctx, cfg, data, store, Source(inner()), opts, graph)
            delattr(obj, method)
            failed(ctx, cfg, what, k, n, e, error, store, st['tries'], clean)
            ctx.count(what + '_faults')
            ctx.distinct(what, repr(cfg), k)
            if rng.random() < .3:
                again(ctx, cfg, data, inner, opts, clean, root, graph)
        again(ctx, cfg, data, inner, opts, clean, root, graph)


def disk(ctx):
    """A directory where one packet file should be."""
    from ccnpy.flic.tree.TreeIO import TreeIO
    rng = ctx.rng
    d = ctx.scratch()
    cfg = small_cfg(rng, 2000)
    cfg['enc'] = None
    if cfg['signer'] == 'rsa':
        cfg['signer'] = 'crc'
    ctx.config = cfg
    data = gen.rand_data(random.Random(cfg['data_seed']), cfg['size'])
    link = rng.random() < .3
    c22.reset()
    clean, root, _ = c22.build(ctx, cfg, data)
    watch(ctx, cfg, clean, root)
    n = len(clean)
    first = {}
    for i, (h, _) in enumerate(clean):
        first.setdefault(h, i)
    for j, k in enumerate(indices(ctx, n, 6 if not ctx.thorough else 40)):
        h = clean[k][0]
        p = os.path.join(d, f'p{j}')
        os.mkdir(p)
        os.mkdir(os.path.join(p, h.hex()))
        c22.reset()
        with ctx.must_work('directory'):
            opts = gen.options(cfg)
            store = Store(cfg, inner=TreeIO.PacketDirectoryWriter(p, link_named_objects=link))
        r, e, _ = build(ctx, cfg, data, store, io.BytesIO(data), opts)
        ctx.check(e is not None, 'disk-swallowed', f'packet {k} of {n} could not be saved, and the build returned a root')
        ctx.check(isinstance(e, OSError), 'disk-error', lambda: f'packet {k} of {n} could not be saved, and the build failed with {e!r}')
        ctx.check(len(store.log) == first[h] + 1, 'disk-after', f'packet {first[h]} of {n} could not be saved, {len(store.log)} were put')
        files = {x for x in os.listdir(p) if os.path.isfile(os.path.join(p, x)) and not x.endswith('.link')}
        want = {x.hex() for x, _ in clean[:first[h]]}
        ctx.check(files == want, 'disk-files', f'packet {first[h]} of {n} could not be saved; {len(files)} files are there instead of {len(want)}')
        ctx.check(root.hex() not in files, 'disk-root', 'a failed build left a root')
        os.rmdir(os.path.join(p, h.hex()))
        c22.reset()
        with ctx.must_work('rebuild'):
            store = Store(cfg, inner=TreeIO.PacketDirectoryWriter(p, link_named_objects=link))
            r, e, _ = build(ctx, cfg, data, store, io.BytesIO(data), opts)
            if e is not None:
                raise e
        for x, w in clean:
            with open(os.path.join(p, x.hex()), 'rb') as f:
                ctx.check(f.read() == w, 'disk-octets', 'a packet file written after a failure has other octets')
        ctx.count('disk_faults')
        ctx.count('rebuilds')
        ctx.distinct('disk', repr(cfg), k)
    # the same for the link from the name of a packet
    with ctx.must_work('names'):
        links = {h: None if (nm := wire.dec_packet(w)['name']) is None else TreeIO.get_link_name(gen.name_obj(nm)) for h, w in clean}
    named = [i for i, (h, _) in enumerate(clean) if links[h] is not None]
    for j, k in enumerate(indices(ctx, len(named), 3 if not ctx.thorough else 20)):
        k = named[k]
        bad = links[clean[k][0]]
        at = next(i for i in named if links[clean[i][0]] == bad)        # names may repeat
        p = os.path.join(d, f'l{j}')
        os.mkdir(p)
        os.mkdir(os.path.join(p, bad))
        c22.reset()
        with ctx.must_work('directory'):
            opts = gen.options(cfg)
            store = Store(cfg, inner=TreeIO.PacketDirectoryWriter(p, link_named_objects=True))
        r, e, _ = build(ctx, cfg, data, store, io.BytesIO(data), opts)
        ctx.check(e is not None, 'link-swallowed', f'the link to packet {at} of {n} could not be saved, and the build returned a root')
        ctx.check(isinstance(e, OSError), 'link-error', lambda: f'the link to packet {at} of {n} could not be saved, and the build failed with {e!r}')
        ctx.check(len(store.log) == at + 1, 'link-after', f'the link to packet {at} of {n} could not be saved, {len(store.log)} packets were put')
        files = {x for x in os.listdir(p) if os.path.isfile(os.path.join(p, x))} - {v for v in links.values() if v}
        ctx.check(files <= {x.hex() for x, _ in clean[:at + 1]} and files >= {x.hex() for x, _ in clean[:at]}, 'link-files',
                  f'the link to packet {at} of {n} could not be saved; {len(files)} packet files are there')
        os.rmdir(os.path.join(p, bad))
        c22.reset()
        with ctx.must_work('rebuild'):
            store = Store(cfg, inner=TreeIO.PacketDirectoryWriter(p, link_named_objects=True))
            r, e, _ = build(ctx, cfg, data, store, io.BytesIO(data), opts)
            if e is not None:
                raise e
        ctx.check(os.path.isfile(os.path.join(p, bad)), 'link-missing', 'a build after a failure leaves no link')
        ctx.count('link_faults')
        ctx.count('rebuilds')
        ctx.distinct('link', repr(cfg), k)


def description(ctx):
    """Trees over the description of a file, through one naming context, some refused."""
    from ccnpy.flic.ManifestTree import ManifestTree
    from ccnpy.flic.name_constructor.NameConstructorContext import NameConstructorContext
    rng = ctx.rng
    cfg = small_cfg(rng, 5000)
    ctx.config = cfg
    data = gen.rand_data(random.Random(cfg['data_seed']), cfg['size'])
    with ctx.must_work('chunk'):
        opts = gen.options(cfg)
        nc = NameConstructorContext.create(opts)
        chunks = Store(cfg)
        meta = nc.data_schema_impl.chunk_data(io.BytesIO(data), chunks)
    have = dict(chunks.log)
    with ctx.must_work('build'):
        store = Store(cfg)
        root = ManifestTree(meta, store, opts, name_context=nc).build()
    n = store.tries
    watch(ctx, cfg, store.log, octets(root.content_object_hash().value()), have)
    for k in indices(ctx, n, 8 if not ctx.thorough else 60):
        error = rand_error(rng)
        store = Store(cfg, k, error)
        got = None
        try:
            ManifestTree(meta, store, opts, name_context=nc).build()
        except BaseException as e:
            got = e
        ctx.check(got is error, 'described-error', lambda: f'write {k} of {n} failed with {error!r}, the build with {got!r}')
        ctx.check(store.tries == k + 1, 'described-after', f'after write {k} of {n} had failed, {store.tries - k - 1} packets were written')
        watch(ctx, cfg, store.log, None, have)
        with ctx.must_work('rebuild'):
            store = Store(cfg)
            r = ManifestTree(meta, store, opts, name_context=nc).build()
            r = octets(r.content_object_hash().value())
        watch(ctx, cfg, store.log, r, have)
        try:
            v = treemodel.read_tree({**have, **dict(store.log)}, r, keys(cfg))
        except treemodel.ModelError as x:
            ctx.fail('described-' + x.mechanism, x.message)
        ctx.check(v.content() == data, 'described-file', 'a tree built after a failure is of another file')
        ctx.count('over_description')
        ctx.count('put_faults')
        ctx.count('rebuilds')
        ctx.distinct('described', repr(cfg), k)


def order(ctx):
    """Larger trees, nothing fails."""
    for _ in range(3):
        setting(ctx, 30000)
        ctx.distinct('order', repr(ctx.config))


KINDS = {
    'puts': (puts, 150, 2500),
    'reading': (reading, 140, 1500),
    'signing': (signing, 40, 500),
    'disk': (disk, 40, 800),
    'description': (description, 50, 1000),
    'order': (order, 40, 1500),
}
