"""C19: several files through one naming context keep separate numbers."""
import hashlib
import io

from .. import gen, handmade, treemodel, wire
from .c01 import OneOctet, ShortReads

PROPERTY = 'C19'
LEVEL = 'exploration'
RULE = ('A case chunks several files one after the other through one naming context, and builds trees over the '
        'descriptions before, between and after, some twice with other options, some after an input that failed. The '
        'monitor numbers the data packets in the write log itself, and compares each name, final chunk number, '
        'description entry, and the file that the reference reader and the library read back. Distinct cases are '
        'distinct (file, first number, schema).')
MINIMUM = {'evaluations': 170, 'distinct': 500, 'chunks': 5000, 'trees_read': 500, 'failed_inputs': 12, 'second_trees': 30}


class Failing(io.RawIOBase):
    """An input that fails after some octets."""

    def __init__(self, data, at):
        self.f, self.at = io.BytesIO(data), at

    def read(self, n=-1):
        if self.f.tell() + (n if n > 0 else 0) > self.at:
            raise OSError('input/output error')
        return self.f.read(n)


class Context:
    """The model of one naming context."""

    def __init__(self, ctx, cfg):
        from ccnpy.flic.name_constructor.NameConstructorContext import NameConstructorContext
        self.ctx, self.cfg = ctx, cfg
        self.writer = gen.RecordingWriter()
        with ctx.must_work('context'):
            self.options = gen.options(cfg)
            self.nc = NameConstructorContext.create(self.options)
        self.next = 0
        self.used = set()
        self.prefix = cfg['data_prefix'] if cfg['data_prefix'] is not None else cfg['name']

    def data_name(self, number):
        if self.cfg['schema'] == 'hashed':
            return None
        if self.cfg['schema'] == 'prefix':
            return self.prefix
        return self.prefix + [(5, wire.varint(number))]

    def judge(self, packets, meta, data, first):
        """The data packets just written, and the description of their file."""
        ctx = self.ctx
        entries = list(meta.chunk_metadata)
        ctx.check(len(meta) == len(entries) == len(packets) >= 1, 'entries', f'{len(packets)} data packets were written, the description lists {len(entries)}')
        ctx.check(meta.total_bytes == len(data), 'total', f'the description says {meta.total_bytes} octets, the file has {len(data)}')
        got = b''
        for i, (h, w) in enumerate(packets):
            p = wire.dec_packet(w)
            number = first + i
            last = i == len(packets) - 1
            ctx.check(p['is_data'], 'not-data', 'chunking wrote something else than a data packet')
            ctx.check(p['name'] == self.data_name(number), 'name', f'chunk {i} of the file is named {p["name"]}, it is number {number}')
            want = number if last and self.cfg['schema'] == 'segmented' else None
            ctx.check(p['fcid'] == want, 'final-chunk', f'chunk {i} of {len(packets)}, number {number}, has final chunk number {p["fcid"]}')
            if self.cfg['schema'] == 'segmented':
                ctx.check(number not in self.used, 'reused', f'number {number} is used twice')
                self.used.add(number)
            e = meta[i]
            ctx.check(e is entries[i], 'index', 'the description gives other entries by index than in its list')
            ctx.check(e.chunk_number == number, 'chunk-number', f'the description says {e.chunk_number} for chunk number {number}')
            size = len(p['payload'] or b'')
            ctx.check(e.payload_bytes == size, 'chunk-size', f'the description says {e.payload_bytes} octets for a chunk of {size}')
            ctx.check(bytes(e.content_object_hash.value()) == p['hash'], 'chunk-hash', f'the description has another hash for chunk {i}')
            got += p['payload'] or b''
            ctx.count('chunks')
        ctx.check(got == data, 'content', 'the data packets together are not the file')
        with ctx.must_work('iterate'):
            one, two = iter(meta), meta.reverse_iterator()
            backward = []
            for _ in entries:       # two iterations that take turns
                backward.append((next(one).chunk_number, next(two).chunk_number))
            files = [e.file_name() for e in entries]
            rest = next(one, None), next(two, None)
        want = [(first + i, first + i) for i in reversed(range(len(packets)))]
        ctx.check(backward == want and rest == (None, None), 'backward', lambda: f'iterating backward over a description of {len(packets)} chunks from number {first} gives {backward[:6]}')
        ctx.check(files == [h.hex() for h, _ in packets], 'file-name', 'the description has another file name for a chunk than its hash')
        ctx.count('iterated')

    def chunk(self, data):
        before = len(self.writer.log)
        r = self.ctx.rng.random()
        src = io.BytesIO(data) if r < .8 else ShortReads(data, self.ctx.rng) if r < .9 else io.BufferedReader(io.BytesIO(data))
        with self.ctx.must_work('chunk'):
            meta = self.nc.data_schema_impl.chunk_data(src, self.writer)
        packets = self.writer.log[before:]
        self.judge(packets, meta, data, self.next)
        self.ctx.distinct(hashlib.md5(data).digest(), self.next, self.cfg['schema'])
        self.next += len(packets)
        return meta

    def fail(self, data):
        """An input that fails part of the way."""
        before = len(self.writer.log)
        try:
            self.nc.data_schema_impl.chunk_data(Failing(data, self.ctx.rng.randrange(len(data))), self.writer)
        except OSError:
            self.ctx.count('failed_inputs')
        else:
            self.ctx.fail('failure-swallowed', 'the input failed, and chunking it raised nothing')
        done = len(self.writer.log) - before
        if self.cfg['schema'] == 'segmented':
            for i, (h, w) in enumerate(self.writer.log[before:]):
                p = wire.dec_packet(w)
                self.ctx.check(p['name'] == self.data_name(self.next + i), 'name', 'a chunk of a failed file has a wrong number')
                self.used.add(self.next + i)
        # The number in flight may be skipped or not: find out from what the next file gets
        self.next += done
        return done

    def build(self, meta, data, options=None, cfg=None):
        from ccnpy.core.HashValue import HashValue
        from ccnpy.flic.ManifestTree import ManifestTree
        ctx, cfg = self.ctx, cfg or self.cfg
        before = len(self.writer.log)
        with ctx.must_work('build'):
            t = ManifestTree(meta, self.writer, options or self.options, name_context=self.nc)
            root = t.build()
        self.read(root, data, cfg)
        ctx.check(all(wire.dec_packet(w)['is_manifest'] for _, w in self.writer.log[before:]), 'data-again', 'building over a description wrote data packets')

    def read(self, root, data, cfg):
        from ccnpy.core.HashValue import HashValue
        ctx = self.ctx
        h = bytes(root.content_object_hash().value())
        try:
            v = treemodel.read_tree(self.writer.store(), h, gen.ref_keys(cfg))
        except treemodel.ModelError as e:
            ctx.fail('tree-' + e.mechanism, e.message)
        ctx.check(v.content() == data, 'other-file', f'the tree of a file of {len(data)} octets holds {len(v.content())} octets that are not the file')
        reader = handmade.DictReader(self.writer.store()) if ctx.rng.random() < .5 else gen.memory_reader([w for _, w in self.writer.log])
        sink, _ = gen.library_read(ctx, reader, gen.name_obj(cfg['name']), HashValue.create_sha256(list(h)), gen.keystore(cfg))
        ctx.check(sink.value() == data, 'reads-as-other', 'the tree of a file reads back as another file')
        ctx.count('trees_read')

    def whole(self, data):
        """Chunk and build in one go, with the same context."""
        from ccnpy.flic.ManifestTree import ManifestTree
        ctx = self.ctx
        before = len(self.writer.log)
        with ctx.must_work('build'):
            root = ManifestTree(io.BytesIO(data), self.writer, self.options, name_context=self.nc).build()
        packets = [x for x in self.writer.log[before:] if wire.dec_packet(x[1])['is_data']]
        for i, (_, w) in enumerate(packets):
            p = wire.dec_packet(w)
            ctx.check(p['name'] == self.data_name(self.next + i), 'name', f'chunk {i} of the file is named {p["name"]}, it is number {self.next + i}')
            want = self.next + i if i == len(packets) - 1 and self.cfg['schema'] == 'segmented' else None
            ctx.check(p['fcid'] == want, 'final-chunk', f'chunk {i} of {len(packets)} has final chunk number {p["fcid"]}')
            ctx.count('chunks')
        ctx.check(b''.join(wire.dec_packet(w)['payload'] or b'' for _, w in packets) == data, 'content', 'the data packets together are not the file')
        self.next += len(packets)
        self.read(root, data, self.cfg)


def rand_file(rng, cfg):
    r = rng.random()
    if r < .1:
        return b''
    n = rng.choice([1, rng.randrange(1, 500), rng.randrange(1, 6000), rng.randrange(1, 20000)])
    n = min(n, 60 * cfg['mps'])
    if r < .2:      # whole chunks, or nearly
        n = max(1, n - n % 7)
    return gen.rand_data(rng, n)


def one_case(ctx, cfg, nfiles):
    rng = ctx.rng
    ctx.config = cfg
    c = Context(ctx, cfg)
    todo = []
    files = []
    for _ in range(nfiles):
        data = rng.choice(files) if files and rng.random() < .2 else rand_file(rng, cfg)
        files.append(data)
        r = rng.random()
        if r < .08 and data:
            n = c.fail(data)
            data2 = rand_file(rng, cfg)
            # whether the number in flight is lost is not specified, only that none is used twice
            before = len(c.writer.log)
            with ctx.must_work('chunk'):
                meta = c.nc.data_schema_impl.chunk_data(io.BytesIO(data2), c.writer)
            first = meta[0].chunk_number
            ctx.check(c.next <= first <= c.next + 1, 'after-failure', f'after a failure that used numbers up to {c.next - 1}, the next file starts at {first}')
            c.next = first
            c.judge(c.writer.log[before:], meta, data2, first)
            c.next += len(meta)
            todo.append((meta, data2))
            continue
        if r < .2:
            c.whole(data)
            continue
        todo.append((c.chunk(data), data))
        while todo and rng.random() < .5:
            c.build(*todo.pop(rng.randrange(len(todo))))
    rng.shuffle(todo)
    for meta, data in todo:
        c.build(meta, data)
        if rng.random() < .3:       # another tree over the same description
            cfg2 = dict(cfg, degree=rng.choice([None, 2, 3, 5, 9]), node_subtree=rng.random() < .5, group_leaf=rng.random() < .5,
                        signer=rng.choice(['none', 'crc', 'rsa']), enc=None if rng.random() < .5 else cfg['enc'])
            with ctx.must_work('options'):
                o = gen.options(cfg2)
            c.build(meta, data, o, cfg2)
            ctx.count('second_trees')
    ctx.maximum('numbers', c.next)
    ctx.sample({'schema': cfg['schema'], 'files': [len(f) for f in files], 'numbers': c.next})


def segmented(ctx):
    while True:
        cfg = gen.rand_cfg(ctx.rng, top=20000)
        if cfg['schema'] == 'segmented':
            break
    one_case(ctx, cfg, ctx.rng.randrange(2, 6))


def any_schema(ctx):
    one_case(ctx, gen.rand_cfg(ctx.rng, top=20000), ctx.rng.randrange(2, 5))


def many(ctx):
    """Many files, so that numbers pass 255 and 65535."""
    rng = ctx.rng
    while True:
        cfg = gen.rand_cfg(rng, enc=False)
        if cfg['schema'] == 'segmented':
            break
    cfg['expiry'] = None
    cfg['degree'] = None
    c = Context(ctx, cfg)
    ctx.config = cfg
    todo = []
    border = 65536 if ctx.thorough and rng.random() < .3 else 256
    while c.next < border - 3:
        left = border - 3 - c.next
        n = min(left, rng.choice([1, 1, 2, 5, 60, 60 if border == 256 else 9000]))
        size = max(1, n - 1) * max(20, cfg['mps'] // 3)
        data = gen.rand_bytes(rng, size)
        todo.append((c.chunk(data), data))
    for _ in range(8):
        data = gen.rand_bytes(rng, rng.randrange(1, 3 * cfg['mps']))
        todo.append((c.chunk(data), data))
    for meta, data in rng.sample(todo[:-8], min(len(todo) - 8, 6)) + todo[-8:]:
        c.build(meta, data)
    ctx.maximum('numbers', c.next)


KINDS = {'segmented': (segmented, 110, 1500), 'any_schema': (any_schema, 60, 800), 'many': (many, 16, 120)}
