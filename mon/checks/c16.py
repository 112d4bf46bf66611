"""C16: packet stores keep every packet exactly."""
import contextlib
import hashlib
import os
import socket
import threading

from .. import gen, handmade, refcrypto, wire
from . import c07, c08
from .c05 import A, octets

PROPERTY = 'C16'
LEVEL = 'exploration'
RULE = ('A case puts random packets and whole trees, some of them repeatedly, in random order into memory stores, flat and '
        'nested directory stores with and without links, and a network writer. A model (a dictionary of octets by '
        'SHA-256) predicts every later get, iteration, counter, directory listing, file content and the octets a socket '
        'receives; links are parsed and verified independently. Distinct cases are distinct (store, packet) pairs.')
MINIMUM = {'evaluations': 200, 'distinct': 2500, 'gets': 7000, 'files_compared': 2000, 'links_followed': 350,
           'network_packets': 600, 'repeated_puts': 1000}


def pool(ctx, n):
    """[(packet object, octets, name or None, is manifest)]"""
    from ccnpy.core.Packet import Packet
    rng = ctx.rng
    out = []
    if rng.random() < .4:
        cfg = gen.rand_cfg(rng, top=5000)
        cfg['size'] = rng.randrange(0, 4000)
        run = gen.Run(ctx, cfg)
        out = [(p, w) for p, (_, w) in zip(run.writer.packets, run.writer.log)][:3 * n]
    with ctx.must_work('packet'):
        while len(out) < n:
            r = rng.random()
            if r < .6:
                v = c07.rand_values(rng)
                if rng.random() < .1:
                    v['payload'] = rng.randbytes(rng.choice([0, 1, 8000, 60000])) if v['ptype'] in (0, None, 1) else v['payload']
                w = c07.octets_of(v)
                p = c07.build(rng, v) if rng.random() < .5 else Packet.deserialize(A(w))
            elif r < .8 and out:        # the same name, another packet
                nm = wire.dec_packet(rng.choice(out)[1])['name']
                w = handmade.data(rng.randbytes(rng.randrange(0, 30)), nm, rng.choice([None, 'crc']))[1]
                p = Packet.deserialize(A(w))
            else:                       # names that look alike as text
                base = rng.choice([[(1, b'a/b')], [(1, b'a'), (1, b'b')], [(1, b'a~b')], [(1, b'a'), (2, b'b')], [(1, b'a?b')],
                                   [(1, b'a?c')], [(1, b'a#b')], [(1, b'a#c')], [(1, b'a%2Fb')], [(1, b'a;b')], [(1, b'\\xff')], [(1, b'\xff')],
                                   [(1, b'a/Name=b')], [(1, b'..')], [(1, b'.')], [(1, b'..'), (1, b'..'), (1, b'x')], [(5, b'\1')],
                                   [(5, b'\0\1')], [(0x10, b'\1')], [(1, b'a\0')], [(1, b'a')], [(1, b'a ')], [(1, b'A')], [(1, b'/a')], [(1, b'a/')]])
                w = handmade.data(rng.randbytes(5), base, rng.choice([None, 'crc']))[1]
                p = Packet.deserialize(A(w))
            out.append((p, w))
    res = []
    for p, w in out:
        d = wire.dec_packet(w)
        res.append((p, w, d['name'], d['is_manifest']))
    return res


def sequence(ctx, items):
    seq = list(items)
    ctx.rng.shuffle(seq)
    for _ in range(ctx.rng.randrange(0, len(items) + 1)):
        seq.insert(ctx.rng.randrange(len(seq) + 1), ctx.rng.choice(items))
        ctx.count('repeated_puts')
    return seq


def hash_obj(rng, h):
    from ccnpy.core.HashValue import HashValue
    return HashValue.create_sha256(c07.container(rng, h, ('bytes', 'array', 'list')))


def must_get(ctx, reader, w, name, h, what):
    with ctx.must_work(f'{what}-get'):
        p = reader.get(gen.name_obj(name), hash_obj(ctx.rng, h))
    ctx.check(p is not None and octets(p.serialize()) == w, f'{what}-octets', f'{what}: packet {h.hex()[:16]} comes back with other octets', packet=w)
    ctx.count('gets')


def must_not_get(ctx, reader, name, h, what):
    try:
        p = reader.get(gen.name_obj(name), hash_obj(ctx.rng, h))
    except Exception:
        ctx.count('gets')
        return
    ctx.check(p is None, f'{what}-invented', f'{what}: a packet that was never put is found')


def other_name(rng, name):
    if name is not None and rng.random() < .6:
        return gen.near_name(rng, name)
    n = gen.rand_name(rng)
    return n if n != name else n + [(1, b'other')]


def memory(ctx):
    from ccnpy.core.Packet import Packet
    from ccnpy.flic.tree.TreeIO import TreeIO
    rng = ctx.rng
    items = pool(ctx, rng.randrange(3, 30))
    by_hash, order = {}, []
    w_store = TreeIO.PacketMemoryWriter()
    twin = TreeIO.PacketMemoryWriter()
    # readers of a store that is still being filled
    early, early_at = [], rng.choice([0, 0, rng.randrange(0, 30)])
    for p, w, name, _ in sequence(ctx, items):
        if len(order) == early_at:
            early.append(('memory reader made before the packets', TreeIO.PacketMemoryReader(w_store)))
        h = hashlib.sha256(w[8:]).digest()
        with ctx.must_work('memory-put'):
            w_store.put(p)
        by_hash.setdefault(h, (w, name))
        order.append(w)
        ctx.distinct('memory', w)
        if rng.random() < .2:
            x = rng.choice(list(by_hash))
            must_get(ctx, w_store, by_hash[x][0], by_hash[x][1], x, 'memory')
            for what, r in early:
                must_get(ctx, r, by_hash[x][0], by_hash[x][1], x, what)
    readers = early + [('memory', w_store), ('memory reader of a writer', TreeIO.PacketMemoryReader(w_store)),
               ('memory reader of a list', TreeIO.PacketMemoryReader([Packet.deserialize(A(w)) for w in order]))]
    for what, r in readers:
        hs = list(by_hash)
        rng.shuffle(hs)
        for h in hs:
            w, name = by_hash[h]
            must_get(ctx, r, w, name, h, what)
            if name is None and rng.random() < .3:
                must_get(ctx, r, w, gen.rand_name(rng), h, what)
            elif rng.random() < .3:
                try:
                    r.get(gen.name_obj(other_name(rng, name)), hash_obj(rng, h))
                except Exception:
                    pass
                else:
                    ctx.check(name is None, 'wrong-name', f'{what}: a packet is returned for a request by another name')
        for _ in range(4):
            x = bytearray(rng.choice(hs))
            x[rng.randrange(32)] ^= 1 << rng.randrange(8)
            must_not_get(ctx, r, by_hash[hs[0]][1], bytes(x), what)
        with ctx.must_work('memory-iterate'):
            got = [octets(p.serialize()) for p in r]
            one = [octets(r[i].serialize()) for i in range(len(order))]
        ctx.check(got == order, 'order', f'{what}: iterating gives other packets than were put, or another order')
        ctx.check(one == order, 'index', f'{what}: indexing gives other packets than were put, or another order')
    ctx.check(len(w_store) == len(by_hash), 'count', f'the store says {len(w_store)} packets, {len(by_hash)} distinct ones were put')
    ctx.check(w_store.total_bytes_by_packet == sum(map(len, order)), 'octet-count', 'total_bytes_by_packet is not the octets put')
    ctx.check(w_store.total_bytes_by_hash == sum(len(w) for w, _ in by_hash.values()), 'octet-count', 'total_bytes_by_hash is not the octets of the distinct packets')
    for w in order:
        twin.put(Packet.deserialize(A(w)))
    ctx.check(twin == w_store and w_store == twin, 'store-equality', 'two stores with the same packets are not equal')
    ctx.sample({'puts': len(order), 'distinct': len(by_hash)})


def independent_link(ctx, w, name, model, signer):
    """-> the hash the link leads to"""
    try:
        d = wire.dec_packet(w)
        ctx.check(d['is_link'] and d['sig'] is not None, 'link-type', 'the link file is not a signed link')
        l = wire.dec_link(d['payload'])
        comps, digest = l['name'], l['digest']
    except (wire.WireError, KeyError, ValueError) as e:
        ctx.fail('link-malformed', f'the link is malformed: {e}', packet=w)
    ctx.check(d['name'] == name, 'link-name', f'the link of {name} is named {d["name"]}')
    ctx.check(comps == name, 'link-target', f'the link of {name} leads to the name {comps}')
    ctx.check(c08.independent(w), 'link-signature', 'the signature of the link does not verify', packet=w)
    if signer == 'rsa':
        ctx.check(d['sig']['alg'] != 'crc32c' and d['sig']['keyid'] == refcrypto.keyid('a1024'), 'link-signer', 'the link is not signed by the signer')
    ctx.check(digest is not None and digest in model, 'link-dangling', 'the link leads to a packet that was never put')
    return digest


def directory(ctx):
    from ccnpy.core.Packet import Packet
    from ccnpy.flic.tree.TreeIO import TreeIO
    rng = ctx.rng
    d = os.path.join(ctx.scratch(), 'store')
    items = pool(ctx, rng.randrange(3, 24))
    nested = rng.random() < .3
    links = rng.random() < .6
    sg = rng.choice(['none', 'crc', 'rsa'])
    for cls in (TreeIO.PacketDirectoryWriter, TreeIO.PacketDirectoryReader):
        try:
            cls(d)
        except Exception:
            pass
        else:
            ctx.fail('no-directory', f'{cls.__name__} accepts a directory that does not exist')
    os.mkdir(d)

    def path(h):
        x = h.hex()
        return os.path.join(d, x[:2], x[2:4], x) if nested else os.path.join(d, x)
    model, names = {}, {}
    stored = set()      # what this writer has seen
    if rng.random() < .3 and not nested:        # leftovers of a write that was cut short
        p, w, _, _ = rng.choice(items)
        with open(path(hashlib.sha256(w[8:]).digest()), 'wb') as f:
            f.write(w[:rng.randrange(len(w))])
        leftover = hashlib.sha256(w[8:]).digest()
    kw = {'link_named_objects': links, 'signer': gen.signer({'signer': sg}), 'nested': nested}
    for k, default in (('link_named_objects', False), ('nested', False), ('signer', None)):
        if kw[k] == default and rng.random() < .5:
            del kw[k]
    writer = TreeIO.PacketDirectoryWriter(d, **kw)
    put_octets, seq = 0, sequence(ctx, items)
    for i, (p, w, name, is_man) in enumerate(seq):
        h = hashlib.sha256(w[8:]).digest()
        if rng.random() < .05:
            counters(ctx, writer, stored, put_octets, model)
            writer = TreeIO.PacketDirectoryWriter(d, **kw)
            stored, put_octets = set(), 0
        with ctx.must_work('directory-put'):
            writer.put(p)
        put_octets += len(w)
        stored.add(h)
        model[h] = (w, name, is_man)
        if links and name is not None:
            names[tuple(name)] = h
        ctx.distinct('nested' if nested else 'flat', links, w)
        ctx.check(os.path.isfile(path(h)) and open(path(h), 'rb').read() == w, 'file', f'file {h.hex()} does not hold the packet just put')
        if rng.random() < .1 and not nested:
            x = rng.choice(list(model))
            must_get(ctx, TreeIO.PacketDirectoryReader(d), model[x][0], model[x][1], x, 'directory')
    counters(ctx, writer, stored, put_octets, model)
    with ctx.must_work('directory-close'):
        writer.close()
    # the listing
    files = {}
    for base, _, fs in os.walk(d):
        for f in fs:
            files[os.path.relpath(os.path.join(base, f), d)] = open(os.path.join(base, f), 'rb').read()
    for h, (w, name, _) in model.items():
        f = os.path.relpath(path(h), d)
        ctx.check(files.get(f) == w, 'file', f'file {f} does not hold the packet exactly')
        files.pop(f)
        ctx.count('files_compared')
    ctx.check(len(files) == len(names), 'listing', f'the directory has {len(files)} files beside the packets, and {len(names)} names have links: {sorted(files)[:4]}')
    found = {}
    for f, w in files.items():
        nm = wire.dec_packet(w)['name']
        ctx.check(nm is not None and tuple(nm) in names, 'link-name', f'file {f} is a link of a name that was never put')
        ctx.check(tuple(nm) not in found, 'link-twice', f'two links for the name {nm}')
        found[tuple(nm)] = independent_link(ctx, w, nm, model, sg)
        ctx.check(found[tuple(nm)] == names[tuple(nm)], 'link-stale', f'the link of {nm} does not lead to the last packet of that name')
    if nested:
        return
    reader = TreeIO.PacketDirectoryReader(d)
    for h, (w, name, _) in model.items():
        must_get(ctx, reader, w, name, h, 'directory')
        with ctx.must_work('load'):
            p = Packet.load(path(h))
        ctx.check(octets(p.serialize()) == w and bytes(p.content_object_hash().value()) == h, 'load', 'a stored packet loads as another one')
    for nm, h in names.items():
        with ctx.must_work('get-by-name'):
            p = reader.get(gen.name_obj(list(nm)), None)
        ctx.check(octets(p.serialize()) == model[h][0], 'by-name', f'getting {nm} gives another packet')
        ctx.count('links_followed')
    for _ in range(3):
        x = bytearray(rng.choice(list(model)))
        x[rng.randrange(32)] ^= 1 << rng.randrange(8)
        must_not_get(ctx, reader, None, bytes(x), 'directory')
        nm = gen.rand_name(rng)
        if tuple(nm) not in names:
            try:
                p = reader.get(gen.name_obj(nm), None)
            except Exception:
                pass
            else:
                ctx.check(p is None, 'directory-invented', f'a packet is found under the name {nm}, which has none')


def counters(ctx, writer, stored, put_octets, model):
    man = [h for h in stored if model[h][2]]
    size = {h: len(model[h][0]) for h in stored}
    for field, want in (('total_bytes_by_packet', put_octets), ('total_bytes_by_hash', sum(size.values())),
                        ('cnt_manifest', len(man)), ('cnt_data', len(stored) - len(man)),
                        ('bytes_manifest', sum(size[h] for h in man)),
                        ('bytes_data', sum(size.values()) - sum(size[h] for h in man))):
        got = getattr(writer, field)
        ctx.check(got == want, 'counter-' + field, f'{field} is {got} after writing {want}')


class Listener:
    """A forwarder that only records what it is sent, on the loopback interface."""

    def __init__(self, rng):
        self.s = socket.socket()
        self.s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rng.choice([2048, 65536]))
        self.s.bind(('127.0.0.1', 0))
        self.s.listen(4)
        self.s.settimeout(60)
        self.port = self.s.getsockname()[1]
        self.got = bytearray()
        self.error = None
        self.step = rng.choice([100, 4096, 65536])
        self.thread = threading.Thread(target=self.run, daemon=True)
        self.thread.start()

    def run(self):
        try:
            c, _ = self.s.accept()
            c.settimeout(60)
            while True:
                b = c.recv(self.step)
                if not b:
                    break
                self.got += b
            c.close()
        except OSError as e:
            self.error = e

    def finish(self):
        self.thread.join(100)
        self.s.close()
        if self.thread.is_alive() or self.error:
            from ..harness import Inconclusive
            raise Inconclusive(f'the listener failed: {self.error}')
        return bytes(self.got)


@contextlib.contextmanager
def short_sends(ctx, wanted):
    """A network on which send takes only part of what it is given, as it may."""
    real = socket.socket
    rng = ctx.rng

    class Short(real):
        def send(self, data, *a):
            data = memoryview(data).cast('B')
            n = len(data)
            if n > 1 and rng.random() < .8:
                n = rng.randrange(1, n)
                ctx.count('sends_cut_short')
            return real.send(self, data[:n], *a)

        def sendmsg(self, buffers, *a):
            whole = b''.join(bytes(b) for b in buffers)
            if len(whole) > 1 and rng.random() < .8:
                whole = whole[:rng.randrange(1, len(whole))]
            return real.sendmsg(self, [whole], *a)
    if not wanted:
        yield
        return
    socket.socket = Short
    try:
        yield
    finally:
        socket.socket = real


def network(ctx):
    with short_sends(ctx, ctx.rng.random() < .5):
        network_case(ctx)


def network_case(ctx):
    """Packets, and whole trees as they are built, over a socket."""
    from ccnpy.flic.tree.TreeIO import TreeIO
    rng = ctx.rng
    lis = Listener(rng)
    with ctx.must_work('connect'):
        writer = TreeIO.PacketNetworkWriter('127.0.0.1', lis.port)
    if rng.random() < .5:
        cfg = gen.rand_cfg(rng, top=60000)
        run = gen.Run(ctx, cfg, inner=writer)
        want = [w for _, w in run.writer.log]
    else:
        want = []
        for p, w, _, _ in sequence(ctx, pool(ctx, rng.randrange(1, 30))):
            with ctx.must_work('network-put'):
                writer.put(p)
            want.append(w)
    with ctx.must_work('close'):
        writer.close()
    got = lis.finish()
    ctx.check(got == b''.join(want), 'network', f'the socket received {len(got)} octets that are not the {len(want)} packets of {sum(map(len, want))} octets in order')
    ctx.count('network_packets', len(want))
    for w in want:
        ctx.distinct('net', w)


def trees(ctx):
    """Whole trees through every store, read back."""
    from ccnpy.flic.tree.TreeIO import TreeIO
    rng = ctx.rng
    cfg = gen.rand_cfg(rng, top=20000)
    d = os.path.join(ctx.scratch(), 'd')
    os.mkdir(d)
    mem = TreeIO.PacketMemoryWriter()
    flat = TreeIO.PacketDirectoryWriter(d, link_named_objects=rng.random() < .5)

    class Both:
        def put(self, packet):
            mem.put(packet)
            flat.put(packet)
    with ctx.must_work('build'):
        run = gen.Run(ctx, cfg, inner=Both())
    view = run.view()
    want = {h: w for h, w in run.writer.log}
    ctx.check(len(mem) == len(want) and flat.cnt_manifest + flat.cnt_data == len(want), 'tree-count', 'the stores count other packets than were written')
    ctx.check(flat.cnt_manifest == len({m.hash for m in view.manifests}), 'tree-count', 'the directory counts other manifests than the tree has')
    ctx.check(flat.cnt_data == len(set(view.data_hashes)), 'tree-count', 'the directory counts other data packets than the tree has')
    for what, r in (('memory', mem), ('directory', TreeIO.PacketDirectoryReader(d))):
        names = {v: n for n, v in view.preorder}
        for h, w in want.items():
            must_get(ctx, r, w, wire.dec_packet(w)['name'], h, what)
            ctx.distinct(what, w)
        sink, _ = gen.library_read(ctx, r, run.name, hash_obj(rng, run.root_hash), gen.keystore(cfg))
        ctx.check(sink.value() == run.data, f'{what}-read', f'the tree in the {what} reads as another file')


KINDS = {'memory': (memory, 80, 900), 'directory': (directory, 240, 2000), 'network': (network, 50, 400), 'trees': (trees, 40, 400)}
