"""C24: a traversal visits and reports exactly the tree."""
import os
import re

from .. import gen, handmade, treemodel, wire
from . import c09, c17
from .c19 import Context

PROPERTY = 'C24'
LEVEL = 'exploration'
RULE = ('A case builds a tree with the real library, or makes one of shared parts by hand, and reads it with the monitor at '
        'the packet input and at the data output: the request log, the write log, the interleaving of both, the count and '
        'the saved graph are compared with the walk of an independent reader; also for a traversal used for several trees, '
        'entered at an inner packet, without data output, or without keys. The graph collected while building is compared '
        'the same way. Distinct cases are distinct trees and ways of reading.')
MINIMUM = {'evaluations': 250, 'distinct': 500, 'requests': 15000, 'writes': 7000, 'graphs': 500, 'edges': 5000,
           'told_graphs': 150, 'paused': 30, 'labels': 100, 'tree_labels': 2000, 'built_graphs': 150, 'reused': 100, 'shared_packets': 3000}


STATEMENT = re.compile(r'^\s*"?(?:0x)?([0-9a-fA-F]{4,64})"?(?:\s*->\s*"?(?:0x)?([0-9a-fA-F]{4,64})"?)?(?:\s*\[(.*)\])?\s*;?\s*$', re.M)
KIND = re.compile(r'\b(color|shape)="?(\w+)')


def graph_file(ctx, g):
    """-> ({node: kind}, [(from, to)], {node: number it is labelled with})"""
    path = os.path.join(ctx.scratch(), 'graph.dot')
    with ctx.must_work('save-graph'):
        g.save(path)
    with open(path, encoding='utf-8', errors='replace') as f:
        text = f.read()
    ctx.check(re.match(r'\s*(strict\s+)?digraph\b', text) and text.rstrip().endswith('}'), 'graph-syntax', 'the saved graph is not a dot file of a directed graph')
    nodes, edges = {}, []
    labels = {}
    for m in STATEMENT.finditer(text):
        a, b, attrs = m.groups()
        if b is None:
            nodes[a.lower()] = tuple(sorted(KIND.findall(attrs or '')))
            number = re.search(r'label="?(\d+)"?(?:,|$)', attrs or '')
            if number:
                labels[a.lower()] = number.group(1)
        else:
            edges.append((a.lower(), b.lower()))
    return nodes, edges, labels


def expected_graph(views):
    """-> ({hash: is data}, {hash: [child hash in order of first pointer]})"""
    nodes, edges = {}, {}
    for v in views:
        for h in v.data_hashes:
            nodes[h] = True
        for m in v.manifests:
            nodes[m.hash] = False
            e = edges.setdefault(m.hash, [])
            for g in m.node['groups']:
                for p in g['pointers']:
                    if p not in e:
                        e.append(p)
    return nodes, edges


def judge_graph(ctx, g, views, what):
    """In the file, a packet is named by the first octets of its hash."""
    nodes, edges = expected_graph(views)
    named, got_edges, labels = graph_file(ctx, g)
    digits = min(map(len, named), default=8)
    ctx.check(digits >= 6, 'graph-names', f'{what} names packets by {digits} digits')
    of = {}
    for h in nodes:
        of.setdefault(h.hex()[:digits], []).append(h)
    if len(of) < len(nodes):
        ctx.count('alike_in_graph')
        return      # two packets look alike in the file
    got = {n[:digits]: n for n in named}
    ctx.check(len(named) == len(nodes) and set(got) == set(of), 'graph-nodes', lambda: f'{what} has {len(named)} nodes, the tree {len(nodes)} packets: only in '
              f'the graph {sorted(set(got) - set(of))[:5]}, only in the tree {sorted(set(of) - set(got))[:5]}')
    kind = {True: set(), False: set()}
    for h, is_data in nodes.items():
        kind[is_data].add(named[got[h.hex()[:digits]]])
    ctx.check(not kind[True] & kind[False], 'graph-kinds', f'{what} shows manifests and data alike')
    ctx.check(() not in kind[True] | kind[False], 'graph-kinds', f'{what} does not show what some packet is')
    got_edges = [(a[:digits], b[:digits]) for a, b in got_edges]
    want = {(p.hex()[:digits], c.hex()[:digits]) for p, cs in edges.items() for c in cs}
    ctx.check(len(got_edges) == len(set(got_edges)), 'graph-duplicates', f'{what} has an edge twice')
    ctx.check(set(got_edges) == want, 'graph-edges', lambda: f'{what} has {len(got_edges)} edges, the tree {len(want)} pointers: only in the graph '
              f'{sorted(set(got_edges) - want)[:5]}, only in the tree {sorted(want - set(got_edges))[:5]}')
    mine = {}
    for p, c in got_edges:
        mine.setdefault(p, []).append(c)
    for p, cs in edges.items():
        ctx.check(mine.get(p.hex()[:digits], []) == [c.hex()[:digits] for c in cs], 'graph-order', f'{what} has the pointers of a manifest in another order')
    labels = {a[:digits]: k for a, k in labels.items()}
    for p in [p for v in views if not isinstance(v, View) for p in v.data_pkts + [m.pkt for m in v.manifests]]:
        if p['name'] and p['name'][-1][0] in (5, 0x10) and 1 <= len(p['name'][-1][1]) <= 8:
            number = str(int.from_bytes(p['name'][-1][1], 'big'))
            shown = labels.get(p['hash'].hex()[:digits])
            ctx.check(shown == number, 'graph-label', lambda: f'{what} labels {"data" if p["is_data"] else "manifest"} number {number} with {shown}')
            ctx.count('tree_labels')
    ctx.count('graphs')
    ctx.count('edges', len(want))


class Log:
    """Requests and writes in the order they happen."""

    def __init__(self, store, by_name=None):
        self.rd = handmade.DictReader(store, by_name)
        self.events = []

    def get(self, *a, **kw):
        p = self.rd.get(*a, **kw)
        self.events.append(('get',) + self.rd.log[-1])
        return p

    def write(self, b):
        self.events.append(('write', bytes(b)))
        return len(b)

    def close(self):
        pass

    def take(self):
        e, self.events, self.rd.log = self.events, [], []
        return e


def judge(ctx, events, requests, view, store, count, root_name='-', writing=True, skip_root=False):
    """requests: [(name, hash)] of the reference reader; the first is the root."""
    got = [e[1:] for e in events if e[0] == 'get']
    writes = [e[1] for e in events if e[0] == 'write']
    want = list(requests)
    if root_name != '-':
        want[0] = (root_name, want[0][1])
    visits = len(want)
    if skip_root:
        want = want[1:]
    ctx.check(len(got) == len(want), 'request-count', f'{len(got)} requests for {len(want)} pointers')
    for i, (g, w) in enumerate(zip(got, want)):
        ctx.check(g[1] == w[1], 'request-order', f'request {i} of {len(want)} asks for {g[1] and g[1].hex()[:12]}, the tree says {w[1] and w[1].hex()[:12]}')
        ctx.check(g[0] == w[0], 'request-name', f'request {i} of {len(want)} is under the name {g[0]}, the tree says {w[0]}')
    if writing:
        ctx.check(len(writes) == len(view), 'write-count', f'{len(writes)} writes for {len(view)} data packets')
        for i, (g, w) in enumerate(zip(writes, view)):
            ctx.check(g == w, 'write', f'write {i} is {len(g)} octets that are not the payload of data packet {i}')
        ctx.count('writes', len(writes))
    ctx.check(count == visits, 'count', f'the count is {count} after {visits} packets')
    ctx.count('requests', len(got))
    if len({h for _, h in want}) < len(want):
        ctx.count('shared_packets', len(want) - len({h for _, h in want}))


def reads(ctx, store, view, root_hash, root, name, ks, requests, encrypted):
    """The ways to read one tree."""
    from ccnpy.core.HashValue import HashValue
    from ccnpy.flic.tree.Traversal import Traversal
    rng = ctx.rng
    comps = wire.dec_packet(store[root_hash])['name']
    for how in rng.sample(['whole', 'whole', 'by-name', 'preorder', 'no-output', 'inner', 'again'], 3):
        by = {tuple(comps): store[root_hash]} if comps is not None else {}
        log = Log(store, by)
        build = rng.random() < .6
        keys = ks if encrypted or rng.random() < .7 else None
        with ctx.must_work('traversal'):
            t = Traversal(packet_input=log, data_writer=None if how == 'no-output' else log, keystore=keys, build_graph=build)
        ctx.check(t.count() == 0, 'count', f'the count is {t.count()} before anything was read')
        h = HashValue.create_sha256(list(root_hash))
        v, reqs = view, requests
        with ctx.must_work('read'):
            if how == 'preorder':
                t.preorder(root)
            elif how == 'by-name' and comps is not None:
                t.traverse(name)
            elif how == 'inner':
                # a manifest that needs nothing of the path above: the root does
                t.preorder(log.rd.get(hash_restriction=h), Traversal.NameConstructorCache())
            else:
                t.traverse(name, h)
        e = log.take()
        rn = '-' if how in ('preorder', 'inner') else comps
        if how == 'by-name' and comps is not None:
            reqs = [(comps, None)] + reqs[1:]
            rn = '-'
            ctx.check(e[0] == ('get', comps, None), 'request-name', f'the first request is {e[0]}')
            e[0] = ('get', comps, None)
        judge(ctx, e, reqs, v.data, store, t.count(), rn if how != 'by-name' else '-', how != 'no-output', how in ('preorder', 'inner'))
        if build:
            judge_graph(ctx, t.get_graph(), [v], f'the graph of a traversal ({how})')
        if how == 'again':
            n = t.count()
            with ctx.must_work('read'):
                t.traverse(name, h)
            judge(ctx, log.take(), reqs, v.data, store, t.count() - n, comps)
            if rng.random() < .5:
                t.reset_count()
                ctx.check(t.count() == 0, 'reset', 'the count is not 0 after setting it back')
                with ctx.must_work('read'):
                    t.traverse(name, h)
                judge(ctx, log.take(), reqs, v.data, store, t.count(), comps)
            if build:
                judge_graph(ctx, t.get_graph(), [v], 'the graph of a traversal used twice')
            ctx.count('reused')
        ctx.distinct(how, build, root_hash)


def tree(ctx):
    from ccnpy.flic.tree.ManifestGraph import ManifestGraph
    rng = ctx.rng
    cfg = gen.rand_cfg(rng, top=9000)
    graph = ManifestGraph() if rng.random() < .6 else None
    run = gen.Run(ctx, cfg, graph=graph)
    view = run.view()
    if graph is not None:
        judge_graph(ctx, graph, [view], 'the graph of a build')
        ctx.count('built_graphs')
    reads(ctx, run.writer.store(), view, run.root_hash, run.root, run.name, gen.keystore(cfg), view.preorder, cfg['enc'] is not None)
    ctx.maximum('packets', len(view.preorder))
    ctx.sample(cfg)


def shared(ctx):
    """Equal chunks, so that packets have several pointers."""
    rng = ctx.rng
    cfg = gen.rand_cfg(rng, top=9000)
    cfg['schema'] = 'hashed' if rng.random() < .7 else 'prefix'
    if cfg['schema'] == 'hashed':
        cfg['manifest_prefix'] = cfg['data_prefix'] = None
    else:
        cfg['manifest_locators'] = cfg['data_locators'] = None
    from ccnpy.flic.tree.ManifestGraph import ManifestGraph
    g = ManifestGraph()
    run = gen.Run(ctx, cfg, rng.choice([b'\0', b'ab']) * rng.randrange(1, 7000), graph=g)
    view = run.view()
    judge_graph(ctx, g, [view], 'the graph of a build')
    ctx.count('built_graphs')
    reads(ctx, run.writer.store(), view, run.root_hash, run.root, run.name, gen.keystore(cfg), view.preorder, cfg['enc'] is not None)


class View:
    pass


def by_hand(ctx):
    """Trees of shared manifests, as other writers may make them."""
    from array import array
    from ccnpy.core.Packet import Packet
    from ccnpy.crypto.InsecureKeystore import InsecureKeystore
    rng = ctx.rng
    while True:
        root = c17.dag(rng)
        root.name = gen.rand_name(rng)
        e = gen.rand_enc(rng, kinds=('none', 'aead'), weights=(3, 1))
        store = c17.assemble(ctx, root, None, gen.encryptor(e) if e else None)
        log, out, undefined, _ = c17.interpret(root, 1500)
        if undefined is False:
            break
    v = View()
    v.data = out
    seen = {}

    def walk(x):
        if id(x) in seen:
            return
        seen[id(x)] = x
        if isinstance(x, c17.M):
            for g in x.groups:
                for c in g[2]:
                    walk(c)
    walk(root)
    parts = list({x.hash: x for x in seen.values()}.values())
    v.data_hashes = [x.hash for x in parts if isinstance(x, c17.D)]
    v.manifests = []
    for x in parts:
        if isinstance(x, c17.M):
            m = View()
            m.hash = x.hash
            m.node = {'groups': [{'pointers': [c.hash for c in g[2]]} for g in x.groups]}
            v.manifests.append(m)
    ks = InsecureKeystore()
    if e:
        ks.add_aes_key(gen.aead_params(e))
    p = Packet.deserialize(array('B', store[root.hash]))
    reads(ctx, store, v, root.hash, p, gen.name_obj(root.name), ks, log, e is not None)


def several(ctx):
    """One traversal and one graph over several trees."""
    from ccnpy.crypto.InsecureKeystore import InsecureKeystore
    from ccnpy.flic.tree.ManifestGraph import ManifestGraph
    from ccnpy.flic.tree.Traversal import Traversal
    rng = ctx.rng
    runs, store = [], {}
    g = ManifestGraph()
    ks = InsecureKeystore()
    ks.add_rsa_key('s', gen.rsa_key('a1024'))
    ks.add_rsa_key('w', gen.rsa_key('c2048'))
    for i in range(rng.randrange(2, 4)):
        cfg = gen.rand_cfg(rng, top=4000)
        cfg['signer_key'] = None
        if cfg['enc']:
            cfg['enc']['num'] = i * 1000 + rng.randrange(1000)
            if cfg['enc']['kind'] == 'aead':
                ks.add_aes_key(gen.aead_params(cfg['enc']))
        r = gen.Run(ctx, cfg, graph=g)
        runs.append((r, r.view()))
        store.update(r.writer.store())
        judge_graph(ctx, g, [v for _, v in runs], 'the graph of several builds')
        ctx.count('built_graphs')
    log = Log(store)
    with ctx.must_work('traversal'):
        t = Traversal(log, log, ks, build_graph=True)
    read = []
    for _ in range(rng.randrange(2, 5)):
        r, v = rng.choice(runs)
        before = t.count()
        if rng.random() < .3:
            t.reset_count()
            before = 0
        with ctx.must_work('read'):
            t.traverse(r.name, r.root.content_object_hash())
        judge(ctx, log.take(), v.preorder, v.data, store, t.count() - before, r.cfg['name'])
        read.append(v)
        judge_graph(ctx, t.get_graph(), read, 'the graph of a traversal of several trees')
        ctx.count('reused')
        ctx.distinct('several', r.root_hash, len(read))


def large(ctx):
    """One octet per chunk."""
    from ccnpy.flic.tree.ManifestGraph import ManifestGraph
    from .c01 import OneOctet
    rng = ctx.rng
    cfg = gen.rand_cfg(rng, enc=rng.random() < .3)
    cfg['mps'] += 300
    cfg['degree'] = rng.choice([2, 3, 5, 9, None])
    n = rng.randrange(200, 700 if not ctx.thorough else 3000)
    g = ManifestGraph()
    data = rng.randbytes(n)
    run = gen.Run(ctx, dict(cfg, size=n), data, source=OneOctet(data), graph=g)
    view = run.view()
    judge_graph(ctx, g, [view], 'the graph of a build')
    ctx.count('built_graphs')
    reads(ctx, run.writer.store(), view, run.root_hash, run.root, run.name, gen.keystore(cfg), view.preorder, cfg['enc'] is not None)
    ctx.maximum('packets', len(view.preorder))


def collected(ctx):
    """A graph that is told about packets one by one, with pauses, and saved in between."""
    from ccnpy.core.HashValue import HashValue
    from ccnpy.flic.HashGroupBuilder import HashGroupBuilder
    from ccnpy.flic.tlvs.NcId import NcId
    from ccnpy.flic.tlvs.Node import Node
    from ccnpy.flic.tree.ManifestGraph import ManifestGraph
    rng = ctx.rng
    n = rng.randrange(3, 30)
    heads = rng.sample(range(1 << 24), n)
    hs = [h.to_bytes(3, 'big') + rng.randbytes(29) for h in heads]
    name = gen.rand_name(rng)
    entries = {}
    for i, h in enumerate(hs):
        number = rng.choice([None, rng.randrange(5), rng.randrange(1 << 24)])
        nm = name and number is not None and gen.name_obj(name + [(rng.choice([5, 0x10]), wire.varint(number))]) or None
        if nm is None:
            number = None
            if rng.random() < .05:
                nm = gen.name_obj(name + [(rng.choice([5, 0x10]), rng.randbytes(rng.choice([9, 300, 2500])))])        # no number
        if rng.random() < .5:
            entries[h] = (True, [], nm, number, None)
            continue
        children, groups = [], []
        for _ in range(rng.randrange(1, 4)):
            b = HashGroupBuilder()
            for _ in range(rng.randrange(1, 5)):
                c = rng.choice(hs)
                b.append_direct(HashValue.create_sha256(c))
                if c not in children:
                    children.append(c)
            groups.append(b.hash_group(nc_id=NcId(1)))
        entries[h] = (False, children, nm, number, Node(hash_groups=groups))
    with ctx.must_work('graph'):
        g = ManifestGraph()
    told, paused, seen_pause = {}, False, 0
    for step in range(rng.randrange(5, 40)):
        r = rng.random()
        if r < .1:
            with ctx.must_work('pause'):
                g.pause()
            paused = True
        elif r < .25:
            with ctx.must_work('resume'):
                g.resume()
            paused = False
        elif r < .75:
            h = rng.choice(hs)
            data, _, nm, _, node = entries[h]
            with ctx.must_work('add'):
                if data:
                    g.add_data(data_hash=HashValue.create_sha256(h), name=nm)
                else:
                    g.add_manifest(hash_value=HashValue.create_sha256(h), node=node, name=nm)
            if paused:
                ctx.count('paused')
            else:
                told[h] = entries[h]
        else:
            got, got_edges, labels = graph_file(ctx, g)
            digits = min(map(len, got), default=6)
            got = {a[:digits]: k for a, k in got.items()}
            labels = {a[:digits]: k for a, k in labels.items()}
            want = {h.hex()[:digits] for h in told} | {c.hex()[:digits] for e in told.values() for c in e[1]}
            ctx.check({a[:digits] for a in got} == want, 'told-nodes', lambda: f'a graph that was told of {len(told)} packets shows {len(got)} nodes, not {len(want)}')
            want = [(h.hex()[:digits], c.hex()[:digits]) for h, e in told.items() for c in e[1]]
            ctx.check(sorted((a[:digits], b[:digits]) for a, b in got_edges) == sorted(want), 'told-edges', lambda: f'a graph that was told of {len(told)} packets shows {len(got_edges)} pointers, not {len(want)}')
            kinds = {True: set(), False: set()}
            for h, e in told.items():
                attrs = got[h.hex()[:digits]]
                kinds[e[0]].add(attrs)
                if e[3] is not None:
                    ctx.check(labels.get(h.hex()[:digits]) == str(e[3]), 'told-label', lambda: f'packet number {e[3]} has the label {labels.get(h.hex()[:digits])}')
                    ctx.count('labels')
            ctx.check(not kinds[True] & kinds[False] and () not in kinds[True] | kinds[False], 'told-kinds', 'a graph shows manifests and data alike')
            ctx.count('told_graphs')
            ctx.distinct('told', step, *told)


KINDS = {
    'collected': (collected, 80, 3000),
    'tree': (tree, 130, 6000),
    'shared': (shared, 40, 1500),
    'by_hand': (by_hand, 80, 3000),
    'several': (several, 40, 1500),
    'large': (large, 8, 200),
}
