"""C04: size annotations tell the truth."""
from .. import gen, treemodel, wire
from .c01 import OneOctet

PROPERTY = 'C04'
LEVEL = 'exploration'
RULE = ('A case builds a tree with the real library, walks the recorded octets with the reference reader, adds up the '
        'file octets below every manifest and pointer, and compares every size annotation of every node and hash group '
        'with its own sum, and the set of annotations present with the set asked for. The huge kind gives the builder '
        'chunk descriptions of up to 2^62 octets. The factory kind builds single manifests '
        'from pointers, groups and nodes and compares their octets with those an independent encoder makes of the values '
        'given. Distinct cases are distinct tree shapes and nodes.')
MINIMUM = {'evaluations': 600, 'distinct': 500, 'node_sizes': 3000, 'group_sizes': 3000, 'leaf_sizes': 2000, 'builder_groups': 800,
           'huge_trees': 20, 'factory_manifests': 300}


def judge(ctx, cfg, v, total):
    for m in v.manifests:
        node = m.node
        if cfg['node_subtree']:
            ctx.check(node['subtree_size'] is not None, 'node-size-missing', 'a node has no subtree size though asked for')
        else:
            ctx.check(node['subtree_size'] is None, 'node-size-unasked', 'a node has a subtree size nobody asked for')
        if node['subtree_size'] is not None:
            ctx.count('node_sizes')
            ctx.check(node['subtree_size'] == m.bytes, 'node-size-wrong',
                      f'node subtree size {node["subtree_size"]}, {m.bytes} octets are below it (depth {m.depth})')
        if m.is_root and cfg['node_subtree']:
            ctx.check(node['subtree_size'] == total, 'root-size', f'root says {node["subtree_size"]} of {total}')
        i = 0
        any_leaf = False
        for g in node['groups']:
            kids = m.children[i:i + len(g['pointers'])]
            i += len(g['pointers'])
            below = sum(k[2] if k[0] == 'data' else k[2].bytes for k in kids)
            leaf = sum(k[2] for k in kids if k[0] == 'data')
            direct = any(k[0] == 'data' for k in kids)
            if g['subtree_size'] is not None:
                ctx.count('group_sizes')
                ctx.check(cfg['group_subtree'], 'group-size-unasked', 'a group has a subtree size nobody asked for')
                ctx.check(g['subtree_size'] == below, 'group-size-wrong',
                          f'group subtree size {g["subtree_size"]}, {below} octets are below it (depth {m.depth})')
            else:
                ctx.check(not cfg['group_subtree'], 'group-size-missing', 'a group has no subtree size though asked for')
            if g['leaf_size'] is not None:
                ctx.count('leaf_sizes')
                ctx.check(cfg['group_leaf'], 'leaf-size-unasked', 'a group has a leaf size nobody asked for')
                ctx.check(g['leaf_size'] == leaf, 'leaf-size-wrong',
                          f'group leaf size {g["leaf_size"]}, {leaf} octets are in its data packets (depth {m.depth})')
            elif cfg['group_leaf'] and not m.is_root:
                ctx.check(not direct, 'leaf-size-missing', 'a group with data pointers has no leaf size though asked for')
    ctx.check(v.root.bytes == total, 'total', 'the tree does not cover the file')


def tree(ctx):
    cfg = gen.rand_cfg(ctx.rng, top=16000)
    r = gen.Run(ctx, cfg)
    judge(ctx, cfg, r.view(), len(r.data))
    ctx.distinct(*r.shape())
    ctx.sample({'sizes': [cfg['node_subtree'], cfg['group_subtree'], cfg['group_leaf']], 'size': cfg['size']})


def tall(ctx):
    cfg = gen.rand_cfg(ctx.rng)
    cfg['degree'] = ctx.rng.choice([2, 3, 3, 4, 5, 6, 9])
    cfg['mps'] = 2600
    cfg.update(zip(('node_subtree', 'group_subtree', 'group_leaf'), ctx.rng.choice(
        [(True, True, True), (False, True, False), (False, False, True), (False, True, True), (True, False, True)])))
    n = ctx.rng.randrange(20, 250)
    data = ctx.rng.randbytes(n)
    r = gen.Run(ctx, dict(cfg, size=n), data=data, source=OneOctet(data))
    judge(ctx, cfg, r.view(), n)
    ctx.distinct(*r.shape())


def huge(ctx):
    """Trees over chunk descriptions of sizes beyond 32 bits; the data packets stand for them."""
    from ccnpy.core.HashValue import HashValue
    from ccnpy.flic.ManifestTree import ManifestTree
    from ccnpy.flic.name_constructor.FileMetadata import ChunkMetadata, FileMetadata
    cfg = gen.rand_cfg(ctx.rng)
    cfg['schema'] = 'hashed'
    cfg['manifest_prefix'] = cfg['data_prefix'] = None
    cfg['mps'] = 2600
    n = ctx.rng.randrange(1, 120)
    ctx.config = dict(cfg, chunks=n)
    chunks, sizes, store = [], {}, {}
    for i in range(n):
        w = wire.packet(wire.content_object(payload_type=0, payload=b'%d' % i))
        h = gen.refcrypto.hashlib.sha256(w[8:]).digest()
        top = ctx.rng.choice([1 << 8, 1 << 16, 1 << 24, 1 << 32, 1 << 40, 1 << 48, 1 << 55])
        size = ctx.rng.choice([top - 1, top, top + 1, ctx.rng.randrange(1, top)])
        store[h], sizes[h] = w, size
        chunks.append(ChunkMetadata(chunk_number=i, payload_bytes=size, content_object_hash=HashValue.create_sha256(list(h)), name=None))
    total = sum(sizes.values())
    wr = gen.RecordingWriter()
    with ctx.must_work('build'):
        root = ManifestTree(FileMetadata(chunk_metadata=chunks, total_bytes=total), wr, gen.options(cfg)).build()
    store.update(wr.store())
    try:
        v = treemodel.read_tree(store, bytes(root.content_object_hash().value()), gen.ref_keys(cfg), size_of=sizes)
    except treemodel.ModelError as e:
        ctx.fail('tree-' + e.mechanism, e.message)
    judge(ctx, cfg, v, total)
    ctx.count('huge_trees')
    for h, w in wr.log:
        ctx.check(bytes(root.content_object_hash().value()) == h or len(w) <= cfg['mps'], 'oversize', 'a manifest is too long')
    ctx.maximum('largest_size_log2', total.bit_length())
    ctx.distinct('huge', n, total)


def factory(ctx):
    """Manifests built one at a time carry exactly the annotations given, as far as the options allow them."""
    from ccnpy.core.ExpiryTime import ExpiryTime
    from ccnpy.core.HashValue import HashValue
    from ccnpy.flic.ManifestFactory import ManifestFactory
    from ccnpy.flic.tlvs.GroupData import GroupData
    from ccnpy.flic.tlvs.HashGroup import HashGroup
    from ccnpy.flic.tlvs.LeafSize import LeafSize
    from ccnpy.flic.tlvs.NcId import NcId
    from ccnpy.flic.tlvs.Node import Node
    from ccnpy.flic.tlvs.NodeData import NodeData
    from ccnpy.flic.tlvs.Pointers import Pointers
    from ccnpy.flic.tlvs.StartSegmentId import StartSegmentId
    from ccnpy.flic.tlvs.SubtreeSize import SubtreeSize
    from .c05 import rncdef
    rng = ctx.rng
    cfg = gen.rand_cfg(rng)
    cfg['mps'] = 30000
    opts = gen.options(cfg)
    keys = gen.ref_keys(cfg)
    with ctx.must_work('factory'):
        fac = ManifestFactory(tree_options=opts)
    built = total = 0

    def num(cls, top=62):
        if rng.random() < .4:
            return None, None
        n = rng.choice([0, 1, 255, 256, (1 << 32) - 1, 1 << 32, rng.randrange(1 << top), rng.randrange(1000)])
        return n, (n if cls in (SubtreeSize, LeafSize) and rng.random() < .6 else cls(n))

    def ptrs():
        ds = [rng.randbytes(32) for _ in range(rng.choice([1, 1, 2, 3, 20]))]
        return ds, Pointers([HashValue.create_sha256(list(d)) for d in ds])

    for turn in range(rng.randrange(2, 7)):
        ns, ns_arg = num(SubtreeSize)
        gs, gs_arg = num(SubtreeSize)
        ls, ls_arg = num(LeafSize)
        nc, nc_arg = num(NcId)
        st, st_arg = num(StartSegmentId)
        defs = [rncdef(rng) for _ in range(rng.randrange(1, 3))] if rng.random() < .4 else None
        kind = rng.choice(['pointers', 'pointers', 'pointers', 'group', 'groups', 'node'])
        args = dict(node_subtree_size=ns_arg, nc_defs=defs and [d[0] for d in defs])
        nd = b''
        if (ns is not None and cfg['node_subtree']) or defs is not None:
            nd = wire.tlv(0, (wire.tlv(2, wire.varint(ns)) if ns is not None and cfg['node_subtree'] else b'') +
                          b''.join(d[1] for d in defs or []))

        def group():
            ds, p = ptrs()
            a, b = rng.choice([None, rng.randrange(1 << 40)]), rng.choice([None, rng.randrange(1 << 20)])
            gd = None if a is None and b is None else GroupData(subtree_size=None if a is None else SubtreeSize(a),
                                                                nc_id=None if b is None else NcId(b))
            w = wire.hash_group(b'' if gd is None else wire.group_data(subtree_size=a, ncid=b), wire.pointers(ds))
            return HashGroup(group_data=gd, pointers=p), w
        if kind == 'pointers':
            ds, source = ptrs()
            args.update(group_subtree_size=gs_arg, group_leaf_size=ls_arg, nc_id=nc_arg, start_segment_id=st_arg)
            g, f = gs if cfg['group_subtree'] else None, ls if cfg['group_leaf'] else None
            gd = b'' if g is f is nc is st is None else wire.group_data(subtree_size=g, leaf_size=f, ncid=nc, start=st)
            want = nd + wire.hash_group(gd, wire.pointers(ds))
        elif kind == 'group':
            source, w = group()
            want = nd + w
        elif kind == 'groups':
            gl = [group() for _ in range(rng.randrange(1, 4))]
            source, want = [x[0] for x in gl], nd + b''.join(x[1] for x in gl)
        else:
            gl = [group() for _ in range(rng.randrange(1, 4))]
            source = Node(node_data=NodeData(subtree_size=7) if rng.random() < .5 else None, hash_groups=[x[0] for x in gl])
            want = (wire.tlv(0, wire.tlv(2, b'\x07')) if source.has_node_data() else b'') + b''.join(x[1] for x in gl)
        nm = gen.rand_name(rng) if rng.random() < .5 else None
        ex = rng.randrange(1 << 41) if rng.random() < .4 else None
        full = turn == 0 or rng.random() < .5
        sign = rng.random() < .4
        ctx.config = {'cfg': cfg, 'kind': kind, 'args': [ns, gs, ls, nc, st], 'defs': defs and [d[1] for d in defs], 'want': want}
        with ctx.must_work('build'):
            p = fac.build_packet(source, name=gen.name_obj(nm), expiry_time=None if ex is None else ExpiryTime(ex / 1000),
                                 signer=gen.signer(cfg) if sign else None, include_full_security_context=full, **args)
            w = bytes(p.serialize())
        try:
            d = wire.dec_packet(w)
            man, plain = treemodel.plain_node(d, keys)
        except (wire.WireError, treemodel.ModelError) as e:
            ctx.fail('factory-packet', f'{e}')
        built, total = built + 1, total + len(w)
        ctx.check(bytes(plain) == want, 'factory-node',
                  lambda: f'built from {kind}, the node is {bytes(plain).hex()[:300]}, the values given make {want.hex()[:300]}')
        ctx.check((d['name'], d['expiry']) == (nm, ex), 'factory-name', f'name {d["name"]}, expiry {d["expiry"]}; given {nm}, {ex}')
        ctx.check((man['node'] is None) == (cfg['enc'] is not None), 'factory-encryption', 'encrypted though not asked to be, or the other way round')
        if cfg['enc'] is not None and cfg['enc']['kind'] == 'oaep':
            ctx.check(('keyid' in man['ctx'] and man['ctx']['keyid'] is not None) == full, 'factory-wrapper',
                      f'asked for the full security context: {full}, the manifest has the other')
        signed = sign and cfg['signer'] != 'none'
        ctx.check((d['alg'] is not None) == signed, 'factory-signed', f'asked for a signature: {signed}')
        ctx.check((fac.cnt_manifests, fac.cnt_manifest_bytes) == (built, total), 'factory-counts',
                  f'{built} manifests of {total} octets were built, the factory counts {fac.cnt_manifests} of {fac.cnt_manifest_bytes}')
        ctx.count('factory_manifests')
        ctx.distinct('factory', want)


def builder(ctx):
    """A group built pointer by pointer: the order of the pointers, the sizes and the limits."""
    from ccnpy.core.HashValue import HashValue
    from ccnpy.flic.HashGroupBuilder import HashGroupBuilder
    from ccnpy.flic.tlvs.NcId import NcId
    from ccnpy.flic.tlvs.StartSegmentId import StartSegmentId
    rng = ctx.rng
    for _ in range(4):
        many = rng.random() < .1       # up to the most a group can hold
        limits = [rng.choice([None, 300, 1000, 1500] if many else [None, 0, 1, 2, 5, 20]) for _ in range(2)]
        with ctx.must_work('builder'):
            b = HashGroupBuilder(**{k: v for k, v in zip(('max_direct', 'max_indirect'), limits) if v is not None})
        want, counts, sizes = [], [0, 0], [0, 0]
        history = []
        ctx.config = {'limits': limits, 'history': history}
        steps = rng.randrange(300, 1700) if many else rng.randrange(1, 40)
        mostly = rng.choice([.05, .5, .95]) if many else .5
        for _ in range(steps):
            which, front = int(rng.random() < mostly), rng.random() < .5
            digest = rng.randbytes(32)
            size = rng.choice([None, 0, 1, 255, 1 << 32, rng.randrange(1 << (50 if many else 58)), rng.randrange(5000)])
            full = limits[which] is not None and counts[which] >= limits[which]
            ctx.check((b.is_direct_full(), b.is_indirect_full()) == tuple(l is not None and c >= l for c, l in zip(counts, limits)), 'builder-full',
                      f'a builder with {counts} of {limits} pointers says full: {b.is_direct_full()} {b.is_indirect_full()}')
            call = getattr(b, ('prepend_' if front else 'append_') + ('indirect' if which else 'direct'))
            args = {} if size is None else {'subtree_size' if which else 'leaf_size': size}
            history.append((which, front, size))
            hv = HashValue.create_sha256(list(digest))
            if full:
                try:
                    call(hv, **args)
                except Exception:
                    ctx.count('builder_refusals')
                else:
                    ctx.check(False, 'builder-limit', f'a builder took a pointer beyond its limit of {limits[which]}')
            else:
                with ctx.must_work('builder-add'):
                    call(hv, **args)
                want.insert(0 if front else len(want), digest)
                counts[which] += 1
                sizes[which] += size or 0
            if want and rng.random() < (.01 if many else .3):
                leaf, sub = rng.random() < .5, rng.random() < .5
                nc = rng.choice([None, 0, rng.randrange(1 << 20)])
                st = rng.choice([None, 0, rng.randrange(1 << 30)])
                with ctx.must_work('builder-group'):
                    got = bytes(b.hash_group(nc_id=None if nc is None else NcId(nc), start_segment_id=None if st is None else StartSegmentId(st),
                                             include_leaf_size=leaf, include_subtree_size=sub).serialize())
                gd = b'' if not leaf and not sub and nc is st is None else wire.group_data(
                    subtree_size=sum(sizes) if sub else None, leaf_size=sizes[0] if leaf else None, ncid=nc, start=st)
                ctx.check(got == wire.hash_group(gd, wire.pointers(want)), 'builder-group',
                          lambda: f'{counts} pointers of {sizes} octets make the group {got.hex()[:200]}')
                ctx.count('builder_groups')
        ctx.check((b.direct_count(), b.indirect_count(), b.direct_size(), b.indirect_size()) == (*counts, *sizes), 'builder-counts',
                  f'the builder counts {b.direct_count()} and {b.indirect_count()} pointers of {b.direct_size()} and {b.indirect_size()} octets, not {counts} of {sizes}')
        ctx.distinct('builder', limits, counts, sizes)


KINDS = {
    'builder': (builder, 80, 2500),
    'factory': (factory, 300, 10000),
    'tree': (tree, 1200, 40000),
    'tall': (tall, 150, 5000),
    'huge': (huge, 120, 4000),
}
