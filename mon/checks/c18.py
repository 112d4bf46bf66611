"""C18: the tree plan always has room for the file."""
from .. import gen, treemodel

PROPERTY = 'C18'
LEVEL = 'exploration'
RULE = ('The plans for every small number of data objects and of pointers, and for sampled large ones, are compared with '
        'an exhaustive search over all splits in integer arithmetic: pointers, capacity, room for the interior and leaf '
        'manifests, and minimality. Manifest numbers are drawn from every level in random interleavings up to the '
        'number of manifests a level of the tree can have. Plans of real trees are followed from the packet sizes to '
        'the manifests written. Distinct cases are distinct plans (objects, pointers) and number sequences.')
MINIMUM = {'evaluations': 260, 'distinct': 36000, 'plans': 36000, 'numbers_drawn': 300000, 'trees_compared': 60, 'waste_plans': 2000}
EXHAUSTIVE = 'all plans for 1..600 data objects with 2..63 pointers (thorough: 1..4000 with 2..130)'


def need(n, d, m):
    """The least number of interior manifests of a split, by the capacity of its full trees."""
    p = d + m
    if n <= p:
        return 0
    # k interior manifests have k*d direct pointers, and k*m - (k-1) of the indirect ones lead to leaves of p pointers
    return -((p - n) // (m * (p - 1)))


def room(k, d, m):
    """The data objects k interior manifests, and the leaves below them, can point to."""
    return k * d + (k * m - k + 1) * (d + m) if k else d + m


def judge(ctx, r, n, p, best=None, waste=True):
    what = f'the plan for {n} data objects and {p} pointers'
    d, m, k, leaf = r.direct_per_node(), r.indirect_per_node(), r.num_internal_nodes(), r.num_leaf_nodes()
    ctx.check(d >= 0 and m >= 0 and k >= 0 and leaf >= 0, 'negative', f'{what} is {d} direct, {m} indirect, {k} interior, {leaf} leaves')
    ctx.check(d + m <= p and r.num_pointers() == p, 'pointers', f'{what} splits into {d} and {m}')
    ctx.check(r.num_data_objects() == n, 'objects', f'{what} says it is for {r.num_data_objects()} objects')
    ctx.check(k * d + leaf * p >= n, 'capacity', f'{what} holds {k * d + leaf * p}: {d} direct, {m} indirect, {k} interior, {leaf} leaves')
    ctx.check(k + leaf >= 1 and r.total_nodes() == k + leaf, 'total', f'{what} has {r.total_nodes()} manifests of {k} and {leaf}')
    ctx.check(leaf <= 1 if k == 0 else k * m >= k - 1 + leaf, 'no-room', f'{what}: {k} interior manifests with {m} indirect pointers cannot lead to {leaf} leaves')
    if best is None:
        best = min(need(n, p - x, x) for x in range(1, p)) if n > p else 0
    if waste:
        if n > p:
            least = min(room(need(n, p - x, x), p - x, x) for x in range(1, p) if need(n, p - x, x) == best) - n
        else:
            least = p - n
        ctx.check(r.waste() == room(k, d, m) - n, 'waste', f'{what} says it leaves room for {r.waste()}, it leaves {room(k, d, m) - n}')
        ctx.check(r.waste() == least, 'not-least-waste', f'{what} leaves room for {r.waste()} objects unused, another with {best} interior manifests leaves {least}')
    ctx.check(k == best, 'not-minimal', f'{what} needs {k} interior manifests, {best} would do')
    h = r.tree_height()
    if m >= 2:
        reach = sum(m ** i for i in range(h + 1)) if h < 70 else 1 << 70
    else:
        reach = h + 1
    ctx.check(h >= 0 and reach >= k + leaf, 'height', f'{what}: no tree of height {h} and degree {m} has {k + leaf} manifests')
    ctx.count('plans')
    ctx.distinct(n, p)


def plan(ctx, n, p):
    from ccnpy.flic.tree.TreeOptimizer import TreeOptimizer
    with ctx.must_work('plan'):
        return TreeOptimizer(num_direct_nodes=n, num_pointers=p).minimize_k_min_waste()


def small(ctx):
    """One number of pointers, every number of objects."""
    p = 2 + ctx.index
    for n in range(1, 4001 if ctx.thorough else 601):
        judge(ctx, plan(ctx, n, p), n, p)
    ctx.sample({'pointers': p, 'plan for 500': repr(plan(ctx, 500, p))})


def large(ctx):
    from ccnpy.flic.tree.TreeOptimizer import TreeOptimizer
    rng = ctx.rng
    for _ in range(12):
        p = rng.choice([2, 3, 4, rng.randrange(2, 60), rng.randrange(2, 400), rng.randrange(2, 2100)])
        n = rng.choice([rng.randrange(1, 10 ** 4), rng.randrange(1, 10 ** 7), rng.randrange(1, 10 ** 12)])
        if rng.random() < .5:       # exactly full trees, and one more and less
            m = rng.randrange(1, p)
            k = rng.choice([0, 1, 2, rng.randrange(1, 1000), rng.randrange(1, 10 ** 8)])
            n = max(1, k * (p - m) + (k * m - k + 1) * p + rng.choice([-1, 0, 1]))
        judge(ctx, plan(ctx, n, p), n, p)
        # the splits themselves
        t = TreeOptimizer(num_direct_nodes=n, num_pointers=p)
        for m in rng.sample(range(1, p), min(p - 1, 6)):
            with ctx.must_work('calculate'):
                k = t.calculate_k(p - m, m)
                full = t.calculate_n(k, p - m, m)
            ctx.check(k == need(n, p - m, m), 'interior-count', f'a split of {p - m} and {m} for {n} objects needs {need(n, p - m, m)} interior manifests, not {k}')
            ctx.check(full >= n, 'capacity', f'{k} interior manifests of {p - m} and {m} pointers hold {full}, not {n}')


def waste(ctx):
    """The plans of least waste."""
    from ccnpy.flic.tree.TreeOptimizer import TreeOptimizer
    rng = ctx.rng
    for _ in range(60):
        p = rng.choice([2, 3, 4, rng.randrange(2, 60), rng.randrange(2, 60), rng.randrange(2, 300)])
        n = rng.choice([rng.randrange(1, 4 * p), rng.randrange(1, 3000), rng.randrange(1, 10 ** 9)])
        what = f'for {n} data objects and {p} pointers, the plan of least waste'
        least = min(room(need(n, p - x, x), p - x, x) for x in range(1, p)) - n if n > p else p - n
        with ctx.must_work('waste'):
            some = list(TreeOptimizer(num_direct_nodes=n, num_pointers=p).minimize_waste())
            lowest = TreeOptimizer(num_direct_nodes=n, num_pointers=p).minimize_waste_min_height()
        ctx.check(len(some) > 0, 'no-plan', what + ' is not found')
        for r in some + [lowest]:
            d, m, k, leaf = r.direct_per_node(), r.indirect_per_node(), r.num_internal_nodes(), r.num_leaf_nodes()
            ctx.check(d >= 0 and m >= 0 and d + m == p == r.num_pointers() and r.num_data_objects() == n, 'waste-split', f'{what} is {r!r}')
            ctx.check(k * d + leaf * p >= n, 'waste-capacity', f'{what} holds {k * d + leaf * p}: {r!r}')
            # a single manifest without indirect pointers counts as interior or as leaf
            ctx.check((leaf <= 1 if k == 0 else k * m >= k - 1 + leaf) and k + leaf >= 1, 'waste-no-room', f'{what} cannot lead to its leaves: {r!r}')
            ctx.check(r.waste() == least, 'waste-not-least', f'{what} leaves room for {r.waste()}, {least} is possible: {r!r}')
            ctx.check(lowest.tree_height() <= r.tree_height(), 'waste-not-lowest', f'{what} has height {lowest.tree_height()}, another one {r.tree_height()}')
            ctx.count('waste_plans')
        ctx.distinct('waste', n, p)


def numbers(ctx):
    """Manifest numbers of a whole tree, level by level in any interleaving."""
    from ccnpy.flic.tree.ManifestIdFactory import ManifestIdFactory
    rng = ctx.rng
    top = 60000 if ctx.thorough else 12000
    degree = rng.choice([1, 2, 2, 3, 4, 5, rng.randrange(2, 60), rng.randrange(2, 2000)])
    height, total = 0, 1
    while height < 40 and total + degree ** (height + 1) <= top and rng.random() < .95:
        height += 1
        total += degree ** height
    if rng.random() < .2:
        height += 1         # a level that is too large to draw in full
    with ctx.must_work('factory'):
        f = ManifestIdFactory(tree_degree=degree, max_height=height)
    left = {h: min(degree ** h, top) for h in range(height + 1)}
    seen = {}
    order = rng.choice(['random', 'up', 'down', 'runs'])
    levels = list(left)
    while levels:
        h = {'random': lambda: rng.choice(levels), 'up': lambda: levels[0], 'down': lambda: levels[-1],
             'runs': lambda: rng.choice(levels)}[order]()
        for _ in range(rng.randrange(1, 200) if order == 'runs' else 1):
            if not left[h]:
                break
            with ctx.must_work('next-number'):
                i = f.get_next_id(h)
            left[h] -= 1
            ctx.check(isinstance(i, int) and i >= 0, 'negative-number', f'manifest number {i} at level {h} of a tree of degree {degree} and height {height}')
            ctx.check(i not in seen, 'number-repeated', f'manifest number {i} is drawn at levels {seen.get(i)} and {h} of a tree of degree {degree} and height {height}')
            seen[i] = h
            ctx.count('numbers_drawn')
        if not left[h]:
            levels.remove(h)
    ctx.distinct('numbers', degree, height, order, len(seen))


def trees(ctx):
    """From the packet size to the plan to the manifests of a real tree."""
    import io
    import random
    from ccnpy.flic.ManifestFactory import ManifestFactory
    from ccnpy.flic.ManifestTree import ManifestTree
    from ccnpy.flic.name_constructor.NameConstructorContext import NameConstructorContext
    from ccnpy.flic.tree.TreeParameters import TreeParameters
    rng = ctx.rng
    ctx.config = cfg = gen.rand_cfg(rng, top=60000 if ctx.thorough else 25000)
    cfg['enc'] = cfg['enc'] if rng.random() < .5 else None
    if rng.random() < .5:
        cfg['degree'], cfg['mps'] = rng.choice([2, 3, 4, 5]), rng.randrange(700, 1000)
    data = gen.rand_data(random.Random(cfg['data_seed']), cfg['size'])
    w = gen.RecordingWriter()
    with ctx.must_work('build'):
        o = gen.options(cfg)
        nc = NameConstructorContext.create(o)
        meta = nc.data_schema_impl.chunk_data(io.BytesIO(data), w)
        params = TreeParameters.create_optimized_tree(file_metadata=meta, manifest_factory=ManifestFactory(tree_options=o), name_ctx=nc)
        root = ManifestTree(meta, w, o, name_context=nc).build()
    n, p = len(meta), params.num_pointers_per_node()
    d, m = params.internal_direct_per_node(), params.internal_indirect_per_node()
    ctx.check(params.total_direct_nodes() == n and p >= 2 and d + m == p and (cfg['degree'] is None or p <= cfg['degree']),
              'parameters', f'{n} objects, degree {cfg["degree"]}: the parameters are {params!r}')
    r = plan(ctx, n, p)
    judge(ctx, r, n, p)
    ctx.check((r.direct_per_node(), r.indirect_per_node(), r.total_nodes(), r.tree_height()) == (d, m, params.total_nodes(), params.tree_height()),
              'parameters', f'the parameters {params!r} are not the plan {r!r}')
    try:
        view = treemodel.read_tree(w.store(), bytes(root.content_object_hash().value()), gen.ref_keys(cfg))
    except treemodel.ModelError as e:
        ctx.fail('tree-' + e.mechanism, e.message)
    ctx.check(view.content() == data, 'content', 'the tree is not the file')
    made = [x for x in view.manifests if not x.is_root]
    for x in made:
        direct = sum(1 for c in x.children if c[0] == 'data')
        indirect = len(x.children) - direct
        ctx.check(direct + indirect <= p and indirect <= m and (not indirect or direct <= d), 'split',
                  f'a manifest has {direct} direct and {indirect} indirect pointers, the plan is {d} and {m}')
    interior = sum(1 for x in made if any(c[0] == 'manifest' for c in x.children))
    ctx.maximum('manifests', len(made))
    ctx.check(interior >= r.num_internal_nodes(), 'impossible', f'{interior} interior manifests hold what needs {r.num_internal_nodes()}')
    ctx.check(max(x.depth for x in made) - 1 <= params.tree_height(), 'height', f'the tree is {max(x.depth for x in made) - 1} high, its plan says {params.tree_height()}')
    ctx.count('trees_compared')


KINDS = {'small': (small, 62, 129), 'large': (large, 80, 600), 'waste': (waste, 30, 400), 'numbers': (numbers, 90, 900), 'trees': (trees, 70, 600)}
