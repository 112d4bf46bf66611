"""C17: a name constructor holds on its branch only."""
import os

from .. import gen, handmade, wire
from . import c09
from .c05 import A

PROPERTY = 'C17'
LEVEL = 'exploration'
RULE = ('A case makes a tree of manifests out of octets: name constructors of every kind are defined, redefined and used at '
        'every level, packets are shared between branches with different definitions, start numbers lie at the borders '
        'of octets, and some groups refer to a constructor that is defined only above, beside or below. The monitor '
        'logs every request of the reader, and compares names, hashes and order with a reference interpreter of the '
        'scopes, which also says which trees must fail and where. Reading also begins at manifests below the root of built trees, with the constructors the builder hands out. Distinct cases are distinct trees.')
MINIMUM = {'evaluations': 700, 'distinct': 800, 'requests': 20000, 'undefined': 120, 'redefinitions': 1500,
           'shared_under_other_scope': 300, 'segments': 6000,
           'read_from_below': 250, 'read_without': 50}

IDS = [0, 1, 2, 3, 255, 256, 1 << 32]
STARTS = [0, 0, 1, 2, 254, 255, 256, 65534, 65535, (1 << 24) - 1, (1 << 32) - 2, 1 << 40]


def rand_schema(rng):
    k = rng.choice(gen.SCHEMAS)
    return (k, None if k == 'hashed' else gen.rand_name(rng), rng.choice([5, 0x10, 5, 0x10, 1, 0x1234]),
            [gen.rand_name(rng)] if k == 'hashed' else ())


def rand_start(rng, schema=None):
    if schema is not None and schema[0] != 'segmented' and rng.random() < .5:
        return None
    return rng.choice(STARTS) if rng.random() < .8 else rng.randrange(1 << 20)


def name_under(schema, start, i):
    if schema[0] == 'hashed':
        return None
    if schema[0] == 'prefix':
        return schema[1]
    return schema[1] + [(schema[2], wire.varint(start + i))]


class M:
    """A manifest to be made."""

    def __init__(self):
        self.defs, self.groups = {}, []         # groups: [ncid, start, [child]]
        self.free = set()


class D:
    def __init__(self, payload):
        self.payload = payload


def assemble(ctx, root, how=None, enc=None):
    """-> {hash: octets}; sets .hash of every part. The names are in .name."""
    from ccnpy.core.Tlv import Tlv
    from ccnpy.flic.tlvs.Node import Node
    store, done = {}, set()

    def make(x):
        if id(x) in done:
            return
        if isinstance(x, D):
            x.hash, w = handmade.data(x.payload, getattr(x, 'name', None))
        else:
            for g in x.groups:
                for c in g[2]:
                    make(c)
            octets = handmade.node([handmade.group([c.hash for c in g[2]], g[0], g[1]) for g in x.groups],
                                   [handmade.ncdef(i, handmade.schema(*s)) for i, s in x.defs.items()])
            if enc is not None:
                octets = c09.encrypt(ctx, enc, Node.parse(Tlv.deserialize(A(octets))))
            x.hash, w = handmade.manifest(octets, getattr(x, 'name', None), how if x is root else None)
        store[x.hash] = w
        done.add(id(x))
    make(root)
    return store


def interpret(root, limit=4000):
    """-> (requests [(name, hash)], payloads, undefined?, number of visits) by the scoping rule."""
    log, out = [], []
    stack = [(iter([(root, None, {})]))]
    scopes = {}
    while stack:
        nxt = next(stack[-1], None)
        if nxt is None:
            stack.pop()
            continue
        if nxt == 'undefined':
            return log, out, True, scopes
        x, name, scope = nxt
        log.append((name, x.hash))
        if len(log) > limit:
            return log, out, None, scopes
        if isinstance(x, D):
            out.append(x.payload)
            continue
        inner = {**scope, **x.defs}
        scopes.setdefault(x.hash, set()).add(repr(sorted(inner.items())))

        def kids(x=x, inner=inner):
            for ncid, start, cs in x.groups:
                for i, c in enumerate(cs):
                    if ncid not in inner:
                        yield 'undefined'
                    yield c, name_under(inner[ncid], start, i), inner
        stack.append(kids())
    return log, out, False, scopes


def compare(ctx, got, want, undefined, what, root_name):
    ctx.count('requests', len(got))
    want = [(root_name, want[0][1])] + want[1:] if want else want
    for i, (g, w) in enumerate(zip(got, want)):
        ctx.check(g[1] == w[1], 'order', f'{what}: request {i} asks for another packet than the tree says')
        ctx.check(g[0] == w[0], 'name', f'{what}: request {i} for {w[1].hex()[:12]} is under the name {g[0]}, the constructor gives {w[0]}')
        if w[0] and i and w[0][-1][0] in (5, 0x10):
            ctx.count('segments')
    if undefined:
        ctx.check(len(got) <= len(want), 'undefined-request', f'{what}: {len(got)} requests, but the constructor is undefined after {len(want)}')
    else:
        ctx.check(len(got) == len(want), 'requests', f'{what}: {len(got)} requests for {len(want)} pointers')


def dag(rng):
    """Parts shared between branches: -> root"""
    ids = rng.sample(IDS, rng.choice([1, 2, 2, 3]))
    pool = []
    for level in range(rng.randrange(1, 6)):
        new = []
        for _ in range(rng.randrange(1, 4)):
            m = M()
            for i in ids:
                if rng.random() < .4:
                    m.defs[i] = rand_schema(rng)
            for _ in range(rng.choice([1, 1, 2, 3])):
                kids = [rng.choice(pool) if pool and rng.random() < .6 else D(rng.randbytes(rng.randrange(1, 8)))
                        for _ in range(rng.choice([1, 2, 2, 3]))]
                m.groups.append([rng.choice(ids), rand_start(rng), kids])
            new.append(m)
        pool += new
    root = M()
    for i in ids:
        root.defs[i] = rand_schema(rng)
    for _ in range(rng.choice([1, 2, 3])):
        root.groups.append([rng.choice(ids), rand_start(rng), rng.sample(pool, min(len(pool), rng.randrange(1, 4)))])
    if rng.random() < .35:
        del root.defs[rng.choice(ids)]
    return root


def traverse(t, how, name, h, ctx):
    from ccnpy.core.HashValue import HashValue
    t.traverse(root_name=gen.name_obj(name), hash_restriction=HashValue.create_sha256(list(h)))


def shared(ctx):
    """Nameless packets, shared between scopes."""
    from ccnpy.flic.tree.Traversal import Traversal
    rng = ctx.rng
    e = gen.rand_enc(rng, ('aead', 'oaep'), (3, 1)) if rng.random() < .2 else None
    enc = gen.encryptor(e)
    cfg = {'signer': 'none', 'enc': e}
    ks = gen.keystore(cfg) if e else None
    how = rng.choice([None, 'crc'])
    trees = []
    for _ in range(rng.choice([1, 2, 3])):
        for _ in range(30):
            root = dag(rng)
            store = assemble(ctx, root, how)
            if interpret(root)[2] is not None:
                break
        else:
            continue
        if enc is not None:
            store = assemble(ctx, root, how, enc)
        trees.append((root, store, interpret(root)))
    name = gen.rand_name(rng)
    reader = handmade.DictReader({})
    sink = gen.Sink()
    t = Traversal(packet_input=reader, data_writer=sink, keystore=ks)
    again = rng.random() < .5
    for n, (root, store, (log, out, undefined, scopes)) in enumerate(trees):
        if not again:
            reader, sink = handmade.DictReader({}), gen.Sink()
            t = Traversal(packet_input=reader, data_writer=sink, keystore=ks)
        reader.store, reader.log = store, []
        before = len(sink.writes)
        what = f'tree {n}'
        ctx.distinct(root.hash, undefined)
        ctx.count('redefinitions', sum(1 for x in scopes.values() if x))
        ctx.count('shared_under_other_scope', sum(1 for x in scopes.values() if len(x) > 1))
        if undefined:
            ctx.count('undefined')
            try:
                traverse(t, how, name, root.hash, ctx)
            except Exception as ex:
                ctx.seen('undefined_error', type(ex).__name__)
            else:
                ctx.fail('undefined-accepted', f'{what}: a group refers to a constructor that is undefined there, and reading raises nothing')
        else:
            with ctx.must_work('traverse'):
                traverse(t, how, name, root.hash, ctx)
        compare(ctx, reader.log, log, undefined, what, name)
        got = b''.join(sink.writes[before:])
        if undefined:
            ctx.check(b''.join(out).startswith(got), 'data', f'{what}: the data read are not those of the tree')
        else:
            ctx.check(got == b''.join(out), 'data', f'{what}: the data read are not those of the tree')
    ctx.sample({'requests': len(trees[0][2][0]) if trees else 0, 'undefined': trees[0][2][2] if trees else None})


def scoped(ctx):
    """Named packets in the library's own stores, which refuse a wrong name."""
    from ccnpy.core.Packet import Packet
    from ccnpy.flic.tree.Traversal import Traversal
    from ccnpy.flic.tree.TreeIO import TreeIO
    rng = ctx.rng
    ids = rng.sample(IDS, rng.choice([1, 2, 3]))
    left = [rng.randrange(5, 60)]

    def grow(scope, depth):
        m = M()
        for i in ids:
            if rng.random() < .35:
                m.defs[i] = rand_schema(rng)
        if not scope and not m.defs:
            m.defs[rng.choice(ids)] = rand_schema(rng)
        ctx.count('redefinitions', sum(1 for i in m.defs if i in scope))
        inner = {**scope, **m.defs}
        for _ in range(rng.choice([1, 1, 2, 3])):
            ncid = rng.choice(list(inner))
            start = rand_start(rng, inner[ncid])
            kids = []
            for i in range(rng.choice([1, 2, 3, 4])):
                left[0] -= 1
                c = D(rng.randbytes(rng.randrange(1, 30))) if depth <= 0 or left[0] < 0 or rng.random() < .5 else grow(inner, depth - 1)
                c.name = None if rng.random() < .2 else name_under(inner[ncid], start, i)
                kids.append(c)
            m.groups.append([ncid, start, kids])
        return m
    root = grow({}, rng.randrange(1, 6))
    root.name = gen.rand_name(rng)
    if rng.random() < .3:       # a group that refers to what is defined elsewhere only
        every = []

        def walk(m, scope):
            inner = {**scope, **m.defs}
            for g in m.groups:
                every.append((g, inner))
                for c in g[2]:
                    if isinstance(c, M):
                        walk(c, inner)
        walk(root, {})
        cand = [(g, [i for i in ids if i not in s] or [77]) for g, s in every]
        better = [x for x in cand if x[1] != [77]]
        g, other = rng.choice(better or cand)
        g[0] = rng.choice(other)
    store = assemble(ctx, root, rng.choice([None, 'crc', 'a1024']))
    log, out, undefined, scopes = interpret(root)
    ctx.distinct(root.hash, undefined)
    which = rng.choice(['dict', 'memory', 'directory'])
    if which == 'dict':
        reader = handmade.DictReader(store)
    elif which == 'memory':
        reader = TreeIO.PacketMemoryReader([Packet.deserialize(A(w)) for w in store.values()])
    else:
        d = os.path.join(ctx.scratch(), 'd')
        os.mkdir(d)
        for h, w in store.items():
            with open(os.path.join(d, h.hex()), 'wb') as f:
                f.write(w)
        reader = TreeIO.PacketDirectoryReader(d)
    sink = gen.Sink()
    t = Traversal(packet_input=reader, data_writer=sink, keystore=None)
    if undefined:
        ctx.count('undefined')
        try:
            traverse(t, None, root.name, root.hash, ctx)
        except Exception as ex:
            ctx.seen('undefined_error', type(ex).__name__)
        else:
            ctx.fail('undefined-accepted', 'a group refers to a constructor that is undefined there, and reading raises nothing')
        ctx.check(b''.join(out).startswith(sink.value()), 'data', 'the data read are not those of the tree')
    else:
        with ctx.must_work('traverse'):
            traverse(t, None, root.name, root.hash, ctx)
        ctx.check(sink.value() == b''.join(out), 'data', 'the data read are not those of the tree')
    if which == 'dict':
        compare(ctx, reader.log, log, undefined, 'tree', root.name)


def built(ctx):
    """Trees of the real builder: the requests are those the reference reader makes."""
    from ccnpy.core.HashValue import HashValue
    from ccnpy.flic.tree.Traversal import Traversal
    rng = ctx.rng
    cfg = gen.rand_cfg(rng, top=15000)
    run = gen.Run(ctx, cfg)
    view = run.view()
    reader = handmade.DictReader(run.writer.store())
    with ctx.must_work('traverse'):
        Traversal(packet_input=reader, data_writer=None, keystore=gen.keystore(cfg)).traverse(
            run.name, HashValue.create_sha256(list(run.root_hash)))
    want = sorted(view.preorder[1:], key=repr)
    got = sorted(reader.log[1:], key=repr)
    ctx.check(got == want, 'built-requests', 'the reader asks for other names than the name constructors of the built tree give')
    ctx.count('requests', len(got))
    ctx.distinct('built', run.root_hash)


def below(ctx):
    """Reading begins at manifests below the root, with the name constructors that the builder hands out."""
    from ccnpy.core.Packet import Packet
    from ccnpy.flic.tree.Traversal import Traversal
    rng = ctx.rng
    cfg = gen.rand_cfg(rng, enc=rng.random() < .5, top=20000)
    if cfg['enc'] and cfg['enc']['kind'] == 'oaep':
        cfg['enc'] = None           # only the root carries the wrapped key
    cfg['degree'] = rng.choice([2, 3, 5, cfg['degree']])
    run = gen.Run(ctx, cfg)
    view = run.view()
    with ctx.must_work('export'):
        schemas = run.tree.name_context().export_schemas()
    before = {k: repr(v) for k, v in schemas.items()}
    store = run.writer.store()
    m = None
    for m in [view.root] * (rng.random() < .3) + rng.sample(view.manifests, min(len(view.manifests), 6)) + view.manifests[1:2]:
        reader, sink = handmade.DictReader(store), gen.Sink()
        with ctx.must_work('below'):
            nc = Traversal.NameConstructorCache(copy=schemas)
            t = Traversal(packet_input=reader, data_writer=sink, keystore=gen.keystore(cfg))
            t.preorder(Packet.deserialize(A(store[m.hash])), nc)
        ctx.check(reader.log == view.preorder[m.at + 1:m.end], 'below-requests', 'reading from a manifest below the root asks for other names, or in another order, than reading from the root')
        ctx.check(sink.value() == b''.join(view.data[m.first:m.last]), 'below-data', 'reading from a manifest below the root gives other octets than its part of the file')
        ctx.check(t.count() == m.end - m.at, 'below-count', 'reading from a manifest below the root counts other packets than it visits')
        ctx.count('read_from_below')
        ctx.count('requests', len(reader.log))
    ctx.check({k: repr(v) for k, v in schemas.items()} == before, 'below-changed', 'reading changed the name constructors it was given')
    # without any, nothing below the root can be read, unless the reader has seen the root
    if len(view.manifests) > 1:
        m = view.manifests[1]
        reader, sink = handmade.DictReader(store), gen.Sink()
        try:
            Traversal(packet_input=reader, data_writer=sink, keystore=gen.keystore(cfg)).preorder(Packet.deserialize(A(store[m.hash])))
        except Exception:
            ctx.count('read_without')
        else:
            ctx.check(False, 'below-undefined', 'a manifest whose name constructors are not known was read')
        ctx.check(sink.value() == b'' and not reader.log, 'below-undefined', 'something was read below a manifest whose name constructors are not known')
    ctx.distinct('below', run.root_hash)


KINDS = {'below': (below, 90, 2000), 'shared': (shared, 400, 8000), 'scoped': (scoped, 350, 8000), 'built': (built, 60, 600)}
