"""C02: packets fit the configured maximum packet size."""
import random

from .. import gen, wire

PROPERTY = 'C02'
LEVEL = 'exploration'
RULE = ('A case builds trees with the real library and measures the wire octets of every packet at the packet output: '
        'length against the configured maximum, length against the header (by an independent codec), and equal payload '
        'sizes. The sweep kind moves the maximum octet by octet, so that every remainder of a full manifest is met; the '
        'small kind goes below the smallest workable maximum; the numbers kind builds trees over 70000 chunks at the '
        'smallest maximum with a given number of pointers, so that full manifests have numbers of three octets. Distinct cases are distinct (options, maximum) pairs.')
MINIMUM = {'evaluations': 700, 'distinct': 4000, 'refused': 100, 'exactly_full': 20, 'small_accepted': 200,
           'numbers_over_two_octets': 2}
CPU_LIMIT = 200


def judge(ctx, r):
    cfg, mps = r.cfg, r.cfg['mps']
    payloads = []
    for h, w in r.writer.log:
        try:
            p = wire.dec_packet(w)
        except wire.WireError as e:
            ctx.fail('malformed-packet', f'packet {h.hex()[:16]}: {e}')
        root = h == r.root_hash
        ctx.check(root or len(w) <= mps, 'oversize',
                  lambda: f'a {"manifest" if p["is_manifest"] else "data"} packet has {len(w)} octets, the maximum is {mps}')
        if not root:
            ctx.maximum('fill_permille', len(w) * 1000 // mps)
            if len(w) == mps:
                ctx.count('exactly_full')
                ctx.seen('full_kinds', p['is_manifest'])
        if p['is_data']:
            payloads.append(len(p['payload'] or b''))
    if len(payloads) > 1:
        ctx.check(len(set(payloads[:-1])) == 1 and payloads[-1] <= payloads[0], 'uneven-chunks',
                  lambda: f'data packets carry {sorted(set(payloads[:-1]))} octets, the last {payloads[-1]}')
    ctx.count('packets_measured', len(r.writer.log))
    return payloads


def tree(ctx):
    cfg = gen.rand_cfg(ctx.rng, top=20000)
    r = gen.Run(ctx, cfg)
    judge(ctx, r)
    ctx.distinct(*r.shape())
    ctx.sample({'mps': cfg['mps'], 'schema': cfg['schema'], 'longest': max(len(w) for _, w in r.writer.log)})


def sweep(ctx):
    """The maximum moves octet by octet; many children, so that some manifests are full."""
    cfg = gen.rand_cfg(ctx.rng, top=20000)
    cfg['degree'] = None
    base = cfg['mps']
    span = 40 if not ctx.thorough else 80
    for d in range(span):
        m = base + d
        per = max(2, m // 36)
        size = ctx.rng.choice([3, per * 2, per * per]) * 40
        r = gen.Run(ctx, dict(cfg, mps=m, size=min(size, 9000)))
        judge(ctx, r)
        ctx.distinct('sweep', cfg['data_seed'], m)


def counts(ctx):
    """One-octet chunks: many pointers, long segment numbers, tall trees, at one maximum."""
    from .c01 import OneOctet
    cfg = gen.rand_cfg(ctx.rng)
    cfg['degree'] = None
    n = ctx.rng.choice([255, 256, 257, 300, 400, 600, 900])
    data = ctx.rng.randbytes(n)
    r = gen.Run(ctx, dict(cfg, size=n), data=data, source=OneOctet(data))
    judge(ctx, r)
    ctx.distinct('counts', n, cfg['mps'], cfg['schema'])


def small(ctx):
    """A maximum around and below what two pointers need: refused, or kept."""
    from ccnpy.flic.ManifestTree import ManifestTree
    import io
    cfg = gen.rand_cfg(ctx.rng, top=800)
    top = cfg['mps']
    cfg['size'] = ctx.rng.randrange(0, 1500)
    data = gen.rand_data(ctx.rng, cfg['size'])
    lo = ctx.rng.randrange(0, 60)
    for m in range(lo, top, 29 if not ctx.thorough else 7):
        c = dict(cfg, mps=m)
        ctx.config = c
        w = gen.RecordingWriter()
        try:
            root = ManifestTree(io.BytesIO(data), w, gen.options(c)).build()
        except Exception as e:
            ctx.count('refused')
            ctx.seen('refusals', type(e).__name__)
            root = None
        root_hash = None if root is None else bytes(root.content_object_hash().value())
        for h, b in w.log:
            p = wire.dec_packet(b)
            ctx.check(h == root_hash or len(b) <= m, 'oversize-small',
                      lambda: f'a packet of {len(b)} octets (manifest: {p["is_manifest"]}) although the maximum is {m}')
        if root is not None:
            ctx.count('small_accepted')
            try:
                v = gen.treemodel.read_tree(w.store(), root_hash, gen.ref_keys(c))
            except gen.treemodel.ModelError as e:
                ctx.fail('tree-' + e.mechanism, e.message)
            ctx.check(v.content() == data, 'small-wrong-file', 'the tree does not hold the file')
        ctx.distinct('small', ctx.index, m)


def large(ctx):
    cfg = gen.rand_cfg(ctx.rng)
    cfg.update(degree=None, mps=ctx.rng.choice([65535, 65000, 33333, 20000]),
               size=ctx.rng.choice([0, 10, 70000, 400000]))
    judge(ctx, gen.Run(ctx, cfg))
    ctx.distinct('large', cfg['mps'], cfg['size'], cfg['schema'])


def numbers(ctx):
    """Manifests as full as they get, with manifest and chunk numbers of three octets."""
    import hashlib
    from ccnpy.core.HashValue import HashValue
    from ccnpy.flic.ManifestTree import ManifestTree
    from ccnpy.flic.name_constructor.FileMetadata import ChunkMetadata, FileMetadata
    rng = random.Random(ctx.seed * 1000 + ctx.index)
    cfg = gen.rand_cfg(rng, enc=False)
    while cfg['schema'] != 'segmented':
        cfg = gen.rand_cfg(rng, enc=False)
    if ctx.index % 2 == 0:
        cfg['enc'] = gen.rand_enc(rng, kinds=('aead',), weights=(1,))
        cfg['enc'].update(kdf=None, kdf_info=None, kdf_salt=None, key=cfg['enc']['key'] * (32 // len(cfg['enc']['key'])))
    if ctx.index < 2 or rng.random() < .5:
        # nothing in a manifest is shorter than what is reserved for it, but the numbers
        cfg.update(node_subtree=False, group_subtree=False, group_leaf=False)
    n = 70000 + rng.randrange(1000)
    digests = [hashlib.sha256(b'%d' % i).digest() for i in range(n)]
    each = rng.choice([1, 10, 1000, 1 << 36])
    chunks = [ChunkMetadata(i, each, HashValue.create_sha256(d)) for i, d in enumerate(digests)]

    def run(some, m, degree):
        c = dict(cfg, mps=m, degree=degree)
        ctx.config = dict(c, chunks=len(some))
        w = gen.RecordingWriter()
        try:
            root = ManifestTree(FileMetadata(some, n * each), w, gen.options(c)).build()
        except ValueError:
            return None, None
        root = bytes(root.content_object_hash().value())
        keys = gen.ref_keys(c)
        most, last = 0, 0
        for h, b in w.log:
            ctx.check(h == root or len(b) <= m, 'oversize',
                      lambda: f'a manifest of {len(b)} octets, with {len(some)} chunks described, although the maximum is {m}')
            if h != root:
                p = wire.dec_packet(b)
                ctx.count('exactly_full', len(b) == m)
                last = max(last, int.from_bytes(p['name'][-1][1], 'big'))
                if len(some) < 1000:
                    node = gen.treemodel.open_manifest(p, keys)[1]
                    most = max(most, sum(len(g['pointers']) for g in node['groups']))
        ctx.count('packets_measured', len(w.log))
        return most, last
    lo, hi = 1, 4000            # the smallest maximum with 17 pointers to a manifest
    while hi - lo > 1:
        mid = (lo + hi) // 2
        if (run(chunks[:200], mid, None)[0] or 0) >= 17:
            hi = mid
        else:
            lo = mid
    for m in (hi, hi + 1):
        _, last = run(chunks, m, None)
        ctx.maximum('highest_manifest_number', last or 0)
        ctx.count('numbers_over_two_octets', (last or 0) > 0xFFFF)
        ctx.distinct('numbers', ctx.index, m)


def mixed(ctx):
    """One naming schema for the manifests and another for the data."""
    from .c01 import OneOctet
    cfg = gen.rand_mixed(ctx.rng, top=9000)
    cfg['degree'] = None
    base = cfg['mps']
    n = ctx.rng.choice([100, 255, 257, 300, 400])
    data = ctx.rng.randbytes(n)
    for d in range(0, 34 if not ctx.thorough else 70, 3 if not ctx.thorough else 1):
        c = dict(cfg, mps=base + d)
        if d % 2:
            r = gen.Run.mixed(ctx, dict(c, size=n), data=data, source=OneOctet(data))
        else:
            r = gen.Run.mixed(ctx, c)
        judge(ctx, r)
        ctx.distinct('mixed', ctx.index, d)


KINDS = {
    'mixed': (mixed, 36, 1000),
    'numbers': (numbers, 2, 12),
    'tree': (tree, 1000, 40000),
    'sweep': (sweep, 60, 2000),
    'counts': (counts, 60, 2000),
    'small': (small, 120, 4000),
    'large': (large, 16, 200),
}
