"""C14: packets are named, numbered and labelled by the schema."""
from .. import gen, wire
from .c01 import OneOctet, ShortReads

PROPERTY = 'C14'
LEVEL = 'exploration'
RULE = ('A case builds one tree with the real library and records its packets. The monitor decodes every packet with an '
        'independent codec and judges name, number, expiry time, payload type and final chunk number of each against the '
        'options, over all schemas and prefixes, with file sizes around 256 and over 65536 chunks, and with degrees that '
        'give many manifests per level. Distinct cases are distinct tree shapes.')
MINIMUM = {'evaluations': 600, 'distinct': 400, 'data_packets': 20000, 'manifests': 6000, 'segmented_trees': 150,
           'over_256_chunks': 12, 'over_65536_chunks': 1, 'manifest_numbers': 2500, 'clashes': 60, 'near_clashes': 40, 'mixed_trees': 90, 'constructors_judged': 1000}
CPU_LIMIT = 300


def number_of(ctx, name, prefix, t, what):
    ctx.check(name is not None, 'nameless', f'{what} of a segmented tree has no name')
    ctx.check(name[:-1] == prefix and len(name) == len(prefix) + 1, 'prefix', f'{what} is not directly below its prefix', name=repr(name), prefix=repr(prefix))
    ctx.check(name[-1][0] == t, 'number-type', f'{what} is numbered with a name component of type {name[-1][0]}')
    v = name[-1][1]
    n = int.from_bytes(v, 'big')
    ctx.check(wire.varint(n) == v, 'number-form', f'{what} has number {n} encoded as {v.hex()}')
    return n


def constructors(ctx, cfg, view):
    """Every hash group refers to the name constructor that was configured for what it points to."""
    kinds = {'manifest': (cfg['schema'], cfg['manifest_prefix'], cfg['manifest_locators'], 0x10),
             'data': (cfg.get('data_schema', cfg['schema']), cfg['data_prefix'], cfg['data_locators'], 5)}
    wanted = {}
    for k, (schema, prefix, locators, suffix) in kinds.items():
        prefix = prefix if prefix is not None else cfg['name']
        if schema == 'hashed':
            # an empty name is a name
            wanted[k] = ('hashed', None, [list(n) for n in (locators if locators is not None else [cfg['name']])], None)
        else:
            wanted[k] = (schema, list(prefix), None, suffix if schema == 'segmented' else None)
    schemas, seen = {}, {}
    for m in view.manifests:
        schemas[m.hash] = dict(schemas[m.parent.hash]) if m.parent is not None else {}
        schemas[m.hash].update(m.node['ncdefs'])
        kids = iter(m.children)
        for g in m.node['groups']:
            s = schemas[m.hash][g['ncid']]
            for _ in g['pointers']:
                kind = next(kids)[0]
                key = (kind, id(s))
                if key not in seen:
                    locators = None if s['locators'] is None else [list(l['name']) for l in s['locators']]
                    seen[key] = (s['kind'], None if s['name'] is None else list(s['name']), locators, s.get('suffix'))
                    ctx.count('constructors_judged')
                    ctx.check(seen[key] == wanted[kind], 'constructor', f'a group that points to {kind} refers to {seen[key]}, configured is {wanted[kind]}')


def judge(ctx, r):
    cfg = r.cfg
    view = r.view()         # in file order
    root_hash = r.root_hash
    schema = cfg['schema']
    data_schema = cfg.get('data_schema', schema)
    mp = cfg['manifest_prefix'] if cfg['manifest_prefix'] is not None else cfg['name']
    dp = cfg['data_prefix'] if cfg['data_prefix'] is not None else cfg['name']
    numbers = {}
    order = []
    pkts = [(h, wire.dec_packet(w)) for h, w in r.writer.log]
    roots = 0
    for h, p in pkts:
        is_root = h == root_hash
        what = 'the root' if is_root else 'a manifest' if p['is_manifest'] else 'a data packet'
        ctx.check(p['ptype'] == 1, 'packet-type', f'{what} is not a content object packet')
        ctx.check(p['payload_type'] == (3 if p['is_manifest'] else 0), 'payload-type', f'{what} has payload type {p["payload_type"]}')
        want = cfg['root_expiry'] if is_root else cfg['manifest_expiry'] if p['is_manifest'] else cfg['data_expiry']
        ctx.check(p['expiry'] == want, 'expiry', f'{what} has expiry time {p["expiry"]}, {want} was configured')
        ctx.check(p['is_data'] or p['fcid'] is None, 'final-chunk-manifest', f'{what} states a final chunk number')
        if is_root:
            roots += 1
            ctx.check(p['name'] == cfg['name'], 'root-name', 'the root has another name than the configured one', name=repr(p['name']))
            continue
        ctx.count('manifests' if p['is_manifest'] else 'data_packets')
        schema_here = schema if p['is_manifest'] else data_schema
        if schema_here == 'hashed':
            ctx.check(p['name'] is None, 'hashed-name', f'{what} of a hashed tree has a name', name=repr(p['name']))
        elif schema_here == 'prefix':
            ctx.check(p['name'] == (mp if p['is_manifest'] else dp), 'prefix-name', f'{what} of a prefix tree is not named by its prefix', name=repr(p['name']))
        elif p['is_manifest']:
            n = number_of(ctx, p['name'], mp, 0x10, what)
            ctx.check(n not in numbers, 'manifest-number', f'two manifests have number {n}')
            numbers[n] = h
            ctx.count('manifest_numbers')
        else:
            order.append((number_of(ctx, p['name'], dp, 5, what), p))
    ctx.check(roots == 1, 'roots', f'{roots} packets are the root')
    data = [p for _, p in pkts if p['is_data']]
    if data_schema == 'segmented':
        ctx.count('segmented_trees')
        got = sorted(n for n, _ in order)
        ctx.check(got == list(range(len(got))), 'chunk-numbers', f'data packets are numbered {got[:5]}...{got[-5:]}')
        by = {p['hash']: n for n, p in order}
        seq = [by[h] for h in view.data_hashes]
        ctx.check(seq == list(range(len(seq))), 'chunk-order', f'data packets are numbered {seq[:8]}... in file order')
        last = len(order) - 1
        for n, p in order:
            ctx.check(p['fcid'] == (last if n == last else None), 'final-chunk', f'data packet {n} of {last + 1} states final chunk number {p["fcid"]}')
    else:
        for p in data:
            ctx.check(p['fcid'] is None, 'final-chunk-unnumbered', 'a data packet without a number states a final chunk number')
    constructors(ctx, cfg, view)
    ctx.distinct(*r.shape())
    ctx.seen('schemas', (schema, data_schema, cfg['manifest_prefix'] is None, cfg['data_prefix'] is None, mp == dp, cfg['manifest_locators'] is None,
                         cfg['data_locators'] is None))
    if len(view.data) > 256:
        ctx.count('over_256_chunks')
    if len(view.data) > 65536:
        ctx.count('over_65536_chunks')
    ctx.maximum('most_chunks', len(view.data))
    ctx.maximum('most_manifests', len(view.manifests))


def tree(ctx):
    cfg = gen.rand_cfg(ctx.rng, top=9000)
    judge(ctx, gen.Run(ctx, cfg))


def many(ctx):
    """One octet per chunk: many chunks and many manifests per level."""
    rng = ctx.rng
    cfg = gen.rand_cfg(rng, enc=rng.random() < .2)
    if rng.random() < .6:
        while cfg['schema'] != 'segmented':
            cfg = gen.rand_cfg(rng, enc=rng.random() < .2)
    cfg['mps'] += 800
    n = rng.choice([rng.randrange(1, 120), rng.randrange(1, 120), 255, 256, 257, 258, rng.randrange(250, 600)])
    cfg['degree'] = rng.choice([2, 3, 4, 5, 8, 12, None]) if n < 300 else rng.choice([4, 5, 8, 16, None])
    data = rng.randbytes(n)
    judge(ctx, gen.Run(ctx, dict(cfg, size=n), data=data, source=OneOctet(data)))


def source(ctx):
    rng = ctx.rng
    cfg = gen.rand_cfg(rng, top=5000)
    data = gen.rand_data(rng, cfg['size'])
    judge(ctx, gen.Run(ctx, cfg, data=data, source=ShortReads(data, rng)))


def metadata(ctx):
    """The naming context chunks the file before the tree is built."""
    import io
    rng = ctx.rng
    cfg = gen.rand_cfg(rng, top=5000)
    data = gen.rand_data(rng, cfg['size'])
    from ccnpy.flic.ManifestTree import ManifestTree
    from ccnpy.flic.name_constructor.NameConstructorContext import NameConstructorContext
    ctx.config = cfg
    writer = gen.RecordingWriter()
    with ctx.must_work('build'):
        o = gen.options(cfg)
        nc = NameConstructorContext.create(o)
        meta = nc.data_schema_impl.chunk_data(io.BytesIO(data), writer)
        t2 = ManifestTree(meta, writer, o, name_context=nc)
        root = t2.build()
    r = gen.Run.__new__(gen.Run)
    r.ctx, r.cfg, r.data, r.writer, r.root = ctx, cfg, data, writer, root
    r.root_hash = bytes(root.content_object_hash().value())
    ctx.check(r.view().content() == data, 'wrong-file', 'a tree over a chunked file is another file')
    judge(ctx, r)


def mixed(ctx):
    """One naming schema for the manifests and another for the data."""
    rng = ctx.rng
    cfg = gen.rand_mixed(rng, top=5000)
    r = gen.Run.mixed(ctx, cfg)
    ctx.check(r.view().content() == r.data, 'wrong-file', 'a tree with two naming schemas is another file')
    judge(ctx, r)
    n = rng.randrange(1, 300)
    data = rng.randbytes(n)
    judge(ctx, gen.Run.mixed(ctx, dict(cfg, size=n), data=data, source=OneOctet(data)))


def big(ctx):
    rng = ctx.rng
    cfg = gen.rand_cfg(rng, enc=False)
    while cfg['schema'] != 'segmented':
        cfg = gen.rand_cfg(rng, enc=False)
    cfg.update(degree=17, mps=1400, data_expiry=None)
    n = 70000 + rng.randrange(1, 40)        # a manifest level with numbers of three octets
    data = rng.randbytes(n)
    judge(ctx, gen.Run(ctx, dict(cfg, size=n), data=data, source=OneOctet(data)))


def clash(ctx):
    """Data and manifests of a segmented tree with one prefix: refused before anything is written."""
    import io
    from ccnpy.flic.ManifestTree import ManifestTree
    rng = ctx.rng
    for _ in range(4):
        cfg = gen.rand_cfg(rng, enc=False, top=3000)
        while cfg['schema'] != 'segmented':
            cfg = gen.rand_cfg(rng, enc=False, top=3000)
        other = rng.choice([gen.rand_name(rng), gen.near_name(rng, cfg['name'])])
        name = cfg['name']
        pair = rng.choice([(None, None), (None, list(name)), (list(name), None), (list(name), list(name)), (other, list(other)),
                           (None, other), (other, None), (other, gen.near_name(rng, other))])
        cfg['manifest_prefix'], cfg['data_prefix'] = pair
        a, b = (name if p is None else p for p in pair)
        if a != b:
            judge(ctx, gen.Run(ctx, cfg))
            ctx.count('near_clashes')
            continue
        writer = gen.RecordingWriter()
        try:
            ManifestTree(io.BytesIO(rng.randbytes(cfg['size'])), writer, gen.options(cfg)).build()
        except Exception:
            ctx.check(not writer.log, 'clash-written', 'packets were written for a segmented tree whose manifests and data have one prefix', config=cfg)
            ctx.count('clashes')
            ctx.distinct('clash', name, pair)
        else:
            ctx.check(False, 'clash-built', 'a segmented tree was built whose manifests and data have one prefix', config=cfg)


KINDS = {'mixed': (mixed, 60, 1500), 'clash': (clash, 60, 1500), 'big': (big, 1, 4), 'tree': (tree, 420, 12000), 'many': (many, 150, 4000), 'source': (source, 50, 1500), 'metadata': (metadata, 80, 1500)}
