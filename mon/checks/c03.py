"""C03: the written packets form exactly one tree over the file."""
from collections import Counter

from .. import gen, wire
from .c01 import OneOctet

PROPERTY = 'C03'
LEVEL = 'exploration'
RULE = ('A case builds a tree with the real library, records every packet put to the output, and walks the recorded '
        'octets with the reference reader: reachability, dangling pointers, multiplicity of every packet against the '
        'number of times it was written, pointer counts against the degree, one pointer in the root. Distinct cases are '
        'distinct tree shapes; the grid kind is systematic in chunk count and degree.')
MINIMUM = {'evaluations': 800, 'distinct': 900, 'manifests_judged': 8000, 'pointers_followed': 60000,
           'repeated_packets': 100}


def judge(ctx, r):
    cfg = r.cfg
    v = r.view()
    log = r.writer.log
    is_man = {}
    for h, w in log:
        if h not in is_man:
            is_man[h] = wire.dec_packet(w)['is_manifest']
    orphans = set(is_man) - v.reached
    ctx.check(not orphans, 'orphan', lambda: f'{len(orphans)} of {len(is_man)} packets written are not reachable from '
                                             f'the root, manifests among them: {sum(is_man[h] for h in orphans)}')
    written = Counter(h for h, _ in log if not is_man[h])
    met = Counter(v.data_hashes)
    ctx.check(written == met, 'data-multiplicity',
              lambda: f'the walk meets {sum(met.values())} data packets, {sum(written.values())} were written')
    ctx.check(v.content() == r.data, 'file-order', 'the data packets in the order of the walk are not the file')
    wm = Counter(h for h, _ in log if is_man[h])
    mm = Counter(m.hash for m in v.manifests)
    ctx.check(wm == mm, 'manifest-multiplicity',
              lambda: f'the walk meets {sum(mm.values())} manifests, {sum(wm.values())} were written')
    repeated = sum(1 for c in (written + wm).values() if c > 1)
    ctx.count('repeated_packets', repeated)
    for m in v.manifests:
        n = sum(len(g['pointers']) for g in m.node['groups'])
        ctx.count('manifests_judged')
        ctx.count('pointers_followed', n)
        if m.is_root:
            ctx.check(n == 1, 'root-pointers', f'the root has {n} pointers')
        else:
            ctx.check(n >= 1, 'empty-manifest', 'a manifest has no pointers')
            if cfg['degree'] is not None:
                ctx.check(n <= cfg['degree'], 'degree-exceeded', f'a manifest has {n} pointers, the degree is {cfg["degree"]}')
        for g in m.node['groups']:
            ctx.check(len(g['pointers']) > 0, 'empty-group', 'a hash group has no pointers')
    ctx.check(sum(m.is_root for m in v.manifests) == 1 and v.root.hash == r.root_hash, 'root', 'more than one root')
    ctx.maximum('deepest', max(m.depth for m in v.manifests))
    ctx.distinct(*r.shape())


def tree(ctx):
    cfg = gen.rand_cfg(ctx.rng, top=16000)
    r = gen.Run(ctx, cfg)
    judge(ctx, r)
    ctx.sample({'schema': cfg['schema'], 'degree': cfg['degree'], 'packets': len(r.writer.log), 'size': cfg['size']})


def repeats(ctx):
    """Files of equal chunks: the same packet, and the same manifest, many times."""
    cfg = gen.rand_cfg(ctx.rng, enc=ctx.rng.random() < .3)
    n = ctx.rng.randrange(1, 120)
    data = bytes(n) if ctx.rng.random() < .5 else bytes(ctx.rng.randrange(2) for _ in range(n))
    r = gen.Run(ctx, dict(cfg, size=n), data=data, source=OneOctet(data))
    judge(ctx, r)


def grid(ctx):
    degree = 2 + ctx.index % 40
    cfg = gen.rand_cfg(ctx.rng)
    cfg.update(degree=degree, mps=3000)
    block = ctx.index // 40
    step = 9 if not ctx.thorough else 2
    for n in range(1 + (block * 4 + degree) % step, 110 if not ctx.thorough else 900, step):
        data = ctx.rng.randbytes(n)
        r = gen.Run(ctx, dict(cfg, size=n), data=data, source=OneOctet(data))
        judge(ctx, r)
        ctx.distinct('grid', degree, n)


def tall(ctx):
    degree, n = ctx.rng.choice([(2, 300), (3, 900), (4, 1500), (5, 1500), (7, 2500), (None, 2500)])
    n += ctx.rng.randrange(40)
    cfg = gen.rand_cfg(ctx.rng)
    if degree is not None:
        cfg['mps'] = 3000
    cfg['degree'] = degree
    data = ctx.rng.randbytes(n)
    judge(ctx, gen.Run(ctx, dict(cfg, size=n), data=data, source=OneOctet(data)))


def mixed(ctx):
    """One naming schema for the manifests and another for the data."""
    cfg = gen.rand_mixed(ctx.rng, top=5000)
    judge(ctx, gen.Run.mixed(ctx, cfg))
    n = ctx.rng.randrange(1, 300)
    data = ctx.rng.randbytes(n)
    judge(ctx, gen.Run.mixed(ctx, dict(cfg, size=n), data=data, source=OneOctet(data)))


KINDS = {
    'mixed': (mixed, 60, 1500),
    'tree': (tree, 1200, 40000),
    'repeats': (repeats, 150, 5000),
    'grid': (grid, 80, 800),
    'tall': (tall, 16, 300),
}
