"""C01: a tree reads back as exactly the file it was built from."""
import io
import os
import random
import tempfile

from .. import gen, wire

PROPERTY = 'C01'
LEVEL = 'exploration'
RULE = ('A case builds one tree (or a systematic row of them) with the real library from generated options and file '
        'octets, records the wire octets of every packet at the packet output, and reads the tree back four ways: with '
        'the traversal over the packet objects, over packets reparsed from their octets, over a directory, and with a '
        'reference reader that shares no code with the library. Every reading must deliver exactly the file. Distinct '
        'cases are distinct tree shapes (schema, packet count, packet size, degree, encryption, annotations).')
MINIMUM = {'evaluations': 1200, 'distinct': 700, 'library_reads': 2500, 'reference_reads': 1500,
           'encrypted_trees': 300, 'deep_trees': 1, 'numbers_over_two_octets': 1, 'directory_reads': 60, 'empty_files': 10}
CPU_LIMIT = 200


class OneOctet:
    """Delivers the file one octet per read, so every chunk is one octet."""

    def __init__(self, data):
        self.f = io.BytesIO(data)

    def read(self, n=-1):
        return self.f.read(1)


class ShortReads:
    """Delivers between one octet and what was asked for, like a pipe or a socket."""

    def __init__(self, data, rng):
        self.f, self.rng = io.BytesIO(data), rng

    def read(self, n=-1):
        if n is None or n < 0:
            return self.f.read()
        return self.f.read(self.rng.randrange(1, n + 1) if n > 0 else 0)


def same(ctx, got, want, how):
    if got == want:
        return ctx.check(True, '', '')
    i = next((i for i, (a, b) in enumerate(zip(got, want)) if a != b), min(len(got), len(want)))
    ctx.fail('wrong-file', f'{how} delivered {len(got)} octets of a file of {len(want)}; they differ from octet {i} on')


def judge(ctx, r, objects=True, reparsed=True, reference=True):
    cfg = r.cfg
    hv = r.root.content_object_hash()
    if reference:
        v = r.view()
        ctx.count('reference_reads')
        same(ctx, v.content(), r.data, 'the reference reader')
        ctx.maximum('deepest_tree', max(m.depth for m in v.manifests))
    if objects:
        from ccnpy.flic.tree.TreeIO import TreeIO
        sink, _ = gen.library_read(ctx, TreeIO.PacketMemoryReader(r.writer.packets), r.name, hv, gen.keystore(cfg))
        ctx.count('library_reads')
        same(ctx, sink.value(), r.data, 'the reader in memory')
    if reparsed:
        with ctx.must_work('reparse'):
            reader = gen.memory_reader([w for _, w in r.writer.log])
        sink, _ = gen.library_read(ctx, reader, r.name, hv, gen.keystore(cfg), what='read-reparsed')
        ctx.count('library_reads')
        same(ctx, sink.value(), r.data, 'the reader of reparsed packets')
    ctx.distinct(*r.shape())
    ctx.maximum('most_packets', len(r.writer.log))
    if cfg['enc']:
        ctx.count('encrypted_trees')
    if not r.data:
        ctx.count('empty_files')
    ctx.seen('schema_x_enc_x_signer', (cfg['schema'], cfg['enc'] and cfg['enc']['kind'] + cfg['enc']['alg'], cfg['signer']))


def tree(ctx):
    cfg = gen.rand_cfg(ctx.rng, top=12000 if not ctx.thorough else 60000)
    r = gen.Run(ctx, cfg)
    judge(ctx, r)
    ctx.sample({'schema': cfg['schema'], 'size': cfg['size'], 'mps': cfg['mps'], 'degree': cfg['degree'],
                'packets': len(r.writer.log)})


def mixed(ctx):
    """One naming schema for the manifests and another for the data."""
    cfg = gen.rand_mixed(ctx.rng)
    judge(ctx, gen.Run.mixed(ctx, cfg))
    n = ctx.rng.randrange(1, 300)
    data = ctx.rng.randbytes(n)
    judge(ctx, gen.Run.mixed(ctx, dict(cfg, size=n), data=data, source=OneOctet(data)))


def source(ctx):
    """The same file through sources that behave differently."""
    cfg = gen.rand_cfg(ctx.rng, top=6000)
    data = gen.rand_data(ctx.rng, cfg['size'])
    how = ctx.rng.choice(['short', 'short', 'file', 'raw', 'one', 'pipe'])
    if how == 'one':
        data = data[:400]
        src = OneOctet(data)
    elif how == 'short':
        src = ShortReads(data, ctx.rng)
    else:
        path = os.path.join(ctx.scratch(), 'in')
        with open(path, 'wb') as f:
            f.write(data)
        if how == 'pipe':
            rd, wr = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(rd)
                    i = 0
                    while i < len(data):
                        n = 1 + (i * 7919) % 900
                        os.write(wr, data[i:i + n])
                        i += n
                finally:
                    os._exit(0)
            os.close(wr)
            src = os.fdopen(rd, 'rb', buffering=0)
        else:
            src = open(path, 'rb', buffering=0 if how == 'raw' else -1)
    try:
        r = gen.Run(ctx, cfg, data=data, source=src)
    finally:
        if hasattr(src, 'close'):
            src.close()
        if how == 'pipe':
            os.waitpid(pid, 0)
    ctx.seen('sources', how)
    judge(ctx, r, objects=False)


def boundary(ctx):
    """File sizes exactly on, one below and one above a whole number of chunks."""
    cfg = gen.rand_cfg(ctx.rng, top=12000)
    cfg['mps'] = max(cfg['mps'], 600)
    probe = gen.Run(ctx, dict(cfg, size=20000, enc=None), data=bytes(20000))
    p = max(len(d) for d in probe.view().data)
    degree = cfg['degree'] or 6
    k = ctx.rng.choice([1, 2, 3, degree - 1, degree, degree + 1, 2 * degree, degree * degree, degree * degree + 1,
                        ctx.rng.randrange(1, 60)])
    k = max(1, min(k, 120))
    for size in (k * p - 1, k * p, k * p + 1):
        c = dict(cfg, size=size)
        judge(ctx, gen.Run(ctx, c), objects=False)
    ctx.count('boundary_rows')


GRID_DEGREES = [2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 17, 20, 25, 29, 33, 40]


def grid(ctx):
    """Systematic: every number of one-octet chunks in a range, for one degree and schema."""
    degree = GRID_DEGREES[ctx.index % len(GRID_DEGREES)]
    block = ctx.index // len(GRID_DEGREES)
    schema = gen.SCHEMAS[(ctx.index + block) % 3]
    cfg = gen.rand_cfg(ctx.rng)
    while cfg['schema'] != schema:
        cfg = gen.rand_cfg(ctx.rng)
    if cfg['enc'] and cfg['enc']['kind'] == 'oaep':
        cfg['enc']['rsa'] = 'a1024'
    cfg.update(degree=degree, mps=2600)
    # a step of 1 over the whole range, spread over the blocks
    step = 4 if not ctx.thorough else 2
    for n in range(1 + block % step, (60 if not ctx.thorough else 400), step):
        data = bytes(gen.random.Random(n).randbytes(n)) if ctx.rng.random() < .8 else bytes(n)
        r = gen.Run(ctx, dict(cfg, size=n), data=data, source=OneOctet(data))
        judge(ctx, r, objects=False, reparsed=n % 3 == 0)
        ctx.count('grid_trees')
        ctx.distinct('grid', degree, n)


def deep(ctx):
    """A chain of many levels, and larger trees of small degree, read under the interpreter's ordinary limits."""
    degree, n = [(2, 1300), (3, 1500), (4, 1500), (2, 700), (5, 3000)][ctx.index % 5]
    cfg = gen.rand_cfg(ctx.rng, enc=ctx.index % 5 == 3)
    if cfg['enc']:
        cfg['enc'] = gen.rand_enc(ctx.rng, kinds=('aead',), weights=(1,))
    cfg.update(degree=degree, mps=1500)
    data = ctx.rng.randbytes(n)
    r = gen.Run(ctx, dict(cfg, size=n), data=data, source=OneOctet(data))
    judge(ctx, r, objects=False)
    ctx.count('deep_trees')


def wide(ctx):
    """Packet sizes up to the largest the format has."""
    cfg = gen.rand_cfg(ctx.rng)
    cfg['degree'] = ctx.rng.choice([None, None, 100, 700])
    cfg['mps'] = ctx.rng.choice([65535, 65534, 40000, 9000, 8192, 32768])
    if ctx.rng.random() < .5:
        n = ctx.rng.choice([300, 900, cfg['mps'] // 36 + ctx.rng.randrange(-3, 40)])
        data = ctx.rng.randbytes(n)
        r = gen.Run(ctx, dict(cfg, size=n), data=data, source=OneOctet(data))
    else:
        cfg['size'] = ctx.rng.choice([0, 64000, 65535, 65536, 200000, 1000000])
        r = gen.Run(ctx, cfg)
    judge(ctx, r, objects=False)


def directory(ctx):
    from ccnpy.flic.tree.TreeIO import TreeIO
    cfg = gen.rand_cfg(ctx.rng, top=4000)
    d = os.path.join(ctx.scratch(), 'store')
    os.mkdir(d)
    with ctx.must_work('directory'):
        w = TreeIO.PacketDirectoryWriter(directory=d)
    r = gen.Run(ctx, cfg, inner=w)
    with ctx.must_work('directory'):
        reader = TreeIO.PacketDirectoryReader(d)
    sink, _ = gen.library_read(ctx, reader, r.name, r.root.content_object_hash(), gen.keystore(cfg), what='read-directory')
    same(ctx, sink.value(), r.data, 'the directory reader')
    files = {}
    for f in os.listdir(d):
        try:
            h = bytes.fromhex(f)
        except ValueError:
            continue        # not named by a hash
        with open(os.path.join(d, f), 'rb') as fh:
            files[h] = fh.read()
    try:
        v = gen.treemodel.read_tree(files, r.root_hash, gen.ref_keys(cfg))
    except gen.treemodel.ModelError as e:
        ctx.fail('directory-' + e.mechanism, e.message)
    same(ctx, v.content(), r.data, 'the reference reader of the directory')
    ctx.count('directory_reads')


def big(ctx):
    """More chunks than fit a two octet chunk number."""
    cfg = gen.rand_cfg(random.Random(ctx.index), enc=False)
    while cfg['schema'] != 'segmented':
        cfg = gen.rand_cfg(ctx.rng, enc=False)
    cfg.update(degree=None, mps=1500)
    data = ctx.rng.randbytes(66000)
    r = gen.Run(ctx, dict(cfg, size=len(data)), data=data, source=OneOctet(data))
    judge(ctx, r, objects=False)


def numbers(ctx):
    """More chunks and more manifest numbers than fit two octets."""
    rng = random.Random(ctx.seed * 100 + ctx.index)
    cfg = gen.rand_cfg(rng, enc=False)
    while cfg['schema'] != 'segmented':
        cfg = gen.rand_cfg(rng, enc=False)
    # as many manifests on a level as the tree leaves room for: their numbers grow with the room
    cfg.update(degree=17, mps=2000, signer='crc', node_subtree=False, group_subtree=False, group_leaf=False)
    data = rng.randbytes(70000 + rng.randrange(1500))      # a level more than 17 ** 4 pointers need
    r = gen.Run(ctx, dict(cfg, size=len(data)), data=data, source=OneOctet(data))
    judge(ctx, r, objects=False)
    last = 0
    for _, w in r.writer.log:
        p = wire.dec_packet(w)
        if p['is_manifest'] and p['name'] and p['name'][-1][0] == 0x10:
            last = max(last, int.from_bytes(p['name'][-1][1], 'big'))
    ctx.maximum('highest_manifest_number', last)
    ctx.count('numbers_over_two_octets', last > 0xFFFF)


KINDS = {
    'numbers': (numbers, 1, 4),
    'tree': (tree, 1100, 30000),
    'mixed': (mixed, 60, 2000),
    'source': (source, 120, 3000),
    'boundary': (boundary, 60, 2000),
    'grid': (grid, len(GRID_DEGREES) * 4, len(GRID_DEGREES) * 20),
    'wide': (wide, 24, 300),
    'deep': (deep, 3, 10),
    'directory': (directory, 100, 3000),
    'big': (big, 0, 1),
}
