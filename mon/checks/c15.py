"""C15: a faulty store never makes a reader return wrong data silently."""
import os

from .. import gen, handmade, wire

PROPERTY = 'C15'
LEVEL = 'fault_enumeration'
RULE = ('A case builds a tree with the real library, and reads it from a store in which one packet at a time is missing, '
        'replaced, altered, truncated, swapped with a sibling or renamed, or is delivered wrongly only from some request '
        'on; or it makes a tree by hand in which one pointer leads to a packet that has its hash but cannot be used. '
        'The oracle requires an error and that the octets delivered before it are a prefix of the file; then the '
        'store is repaired, and the same and a fresh reader must deliver the whole file. Distinct cases are distinct '
        '(tree, packet, fault) triples.')
MINIMUM = {'evaluations': 150, 'distinct': 5000, 'faults_rejected': 5000, 'recoveries': 400, 'directory_faults': 1200,
           'encrypted_faults': 1500, 'late_faults': 40, 'unusable': 400}


def small_cfg(rng):
    while True:
        cfg = gen.rand_cfg(rng, top=9000)
        cfg['size'] = rng.choice([1, rng.randrange(1, 600), rng.randrange(600, 9000), rng.randrange(600, 9000)])
        if cfg['size'] // cfg['mps'] < 40:
            return cfg


class HostileReader(handmade.DictReader):
    """The store answers with something else for one hash, from its n-th request on."""

    def __init__(self, store, bad, answer, since=0):
        super().__init__(store)
        self.bad, self.answer, self.since, self.asked, self.fired = bad, answer, since, 0, False

    def get(self, name=None, hash_restriction=None, *rest, **others):
        from array import array
        from ccnpy.core.Packet import Packet
        h = bytes(hash_restriction.value())
        if h == self.bad:
            self.asked += 1
            if self.asked > self.since:
                self.fired = True
                if self.answer is None or isinstance(self.answer, Exception):
                    if self.answer is None:
                        return None
                    raise self.answer
                return Packet.deserialize(array('B', self.answer))
        return super().get(name, hash_restriction)


def attempt(reader, name, hv, ks, t=None, sink=None):
    from ccnpy.flic.tree.Traversal import Traversal
    sink = sink if sink is not None else gen.Sink()
    t = t or Traversal(packet_input=reader, data_writer=sink, keystore=ks)
    try:
        t.traverse(root_name=name, hash_restriction=hv)
    except Exception as e:      # the property asks for an error, of any kind
        return e, sink, t
    return None, sink, t


def forged(rng, w, cfg, same_payload):
    """A well-formed packet of the same name and type, even signed with the same key, that is another packet."""
    p = wire.dec_packet(w)
    payload = p['payload'] or b''
    kw = {}
    if same_payload:
        kw = {'expiry_ms': rng.randrange(1 << 40)}
    elif payload:
        i = rng.randrange(len(payload))
        payload = payload[:i] + bytes([payload[i] ^ (1 << rng.randrange(8))]) + payload[i + 1:]
    else:
        payload = b'x'
    how = {'rsa': cfg.get('signer_key') or 'a1024', 'crc': 'crc', 'none': None}[cfg['signer']]
    return handmade.packet(wire.content_object(p['name'], payload_type=p['payload_type'], payload=payload, **kw), how)[1]


def bit(rng, w, lo=8):
    i = rng.randrange(lo, len(w))
    return w[:i] + bytes([w[i] ^ (1 << rng.randrange(8))]) + w[i + 1:]


def octet_faults(rng, store, h, view, cfg, n):
    """-> [(fault, octets put in its place, must it raise)]"""
    w = store[h]
    parents = [m for m in view.manifests if any(c[1] == h for c in m.children)]
    out = []
    for m in parents[:1]:
        kids = [c[1] for c in m.children]
        i = kids.index(h)
        for j in (i - 1, i + 1):
            if 0 <= j < len(kids) and kids[j] != h:
                out.append(('sibling', store[kids[j]], True))
        out.append(('parent', store[m.hash], True))
    others = [x for x in store if x != h]
    if others:
        out.append(('other', store[rng.choice(others)], True))
    out.append(('forged', forged(rng, w, cfg, False), True))
    out.append(('re-made', forged(rng, w, cfg, True), True))
    for _ in range(3):
        out.append(('bit', bit(rng, w), True))
    out.append(('last-bit', w[:-1] + bytes([w[-1] ^ 1]), True))
    out.append(('header-bit', bit(rng, w[:8], 0) + w[8:], False))
    cut = rng.randrange(1, len(w))
    out.append(('truncated', w[:cut], True))
    out.append(('cut-one', w[:-1], True))
    out.append(('empty', b'', True))
    out.append(('header-only', w[:8], True))
    k = rng.randrange(8, len(w))
    out.append(('zeroed', w[:k] + bytes(len(w) - k), True))
    out.append(('trailing', w + rng.choice([b'\0', b'\0\0\0\0', b'garbage', w]), False))
    out.append(('doubled-octet', w[:k] + w[k:k + 1] + w[k:], True))
    out.append(('short-octet', w[:k] + w[k + 1:], True))
    p = wire.dec_packet(w)
    if p['sig'] is not None:
        body = wire.tlv(*wire.tlvs(w[8:])[0])
        out.append(('signature-stripped', wire.packet(body), True))
        out.append(('signature-crc', handmade.packet(body, 'crc')[1], True))
        out.append(('signature-other', handmade.packet(body, 'b1024')[1], True))
    out = [f for f in out if f[1] != w]
    return out if len(out) <= n else rng.sample(out, n)


def judge(ctx, err, sink, data, what, must, fired=True, w=None):
    got = sink.value()
    if err is None:
        ctx.check(got == data, 'silent-wrong-data', f'{what}: reading raised nothing and delivered {len(got)} octets that are not the file of {len(data)}', packet=w)
        ctx.check(not must or not fired, 'accepted', f'{what}: reading raised nothing', packet=w)
    else:
        ctx.check(data.startswith(got), 'wrong-prefix', f'{what}: the {len(got)} octets delivered before the error are not a prefix of the file', packet=w)
        ctx.count('faults_rejected')


def tree(ctx):
    cfg = small_cfg(ctx.rng)
    data = None
    if ctx.rng.random() < .4:       # equal chunks: the same packet is requested again and again
        cfg['schema'], cfg['size'] = 'hashed', ctx.rng.randrange(3000, 9000)
        cfg['manifest_prefix'] = cfg['data_prefix'] = None
        data = bytes([ctx.rng.randrange(256)]) * cfg['size']
        if ctx.rng.random() < .5:
            data = data[:2000] + gen.rand_bytes(ctx.rng, 1000) + data[3000:]
    run = gen.Run(ctx, cfg, data)
    view = run.view()
    if view.content() != run.data:
        ctx.fail('tree', 'the undamaged tree is not the file')
    return cfg, run, view


def keystores(rng, cfg):
    out = [gen.keystore(cfg)]
    if cfg['enc'] is None:
        out.append(None)
    return out


def packets(rng, store, run, k):
    hs = list(store)
    if len(hs) > k:
        hs = list({run.root_hash} | set(rng.sample(hs, k - 1)))
    return hs


def in_memory(ctx):
    """A store that answers a hash with something else."""
    from ccnpy.core.HashValue import HashValue
    rng = ctx.rng
    cfg, run, view = tree(ctx)
    store = run.writer.store()
    hv = HashValue.create_sha256(list(run.root_hash))
    visits = view.data_hashes
    for h in packets(rng, store, run, 40 if ctx.thorough else 10):
        fs = [('missing', KeyError('no such packet'), True), ('nothing', None, True),
              ('io-error', OSError('read error'), True), ('stop', StopIteration(), True), ('eof', EOFError(), True)]
        fs = rng.sample(fs, 2) + octet_faults(rng, store, h, view, cfg, 30 if ctx.thorough else 8)
        first = None
        for fault, octets, must in fs:
            ks = rng.choice(keystores(rng, cfg))
            n = visits.count(h)
            since = rng.randrange(n) if n > 1 and rng.random() < .7 else 0
            reader = HostileReader(store, h, octets, since)
            what = f'{fault} of packet {h.hex()[:16]} from request {since}'
            err, sink, t = attempt(reader, run.name, hv, ks)
            if not reader.fired and reader.asked:       # it need not ask for a packet again that it has had
                reader = HostileReader(store, h, octets, 0)
                err, sink, t = attempt(reader, run.name, hv, ks)
            if not reader.fired:
                ctx.fail('not-requested', f'packet {h.hex()[:16]} of the tree was asked for {reader.asked} times, it is visited {max(1, n)} times')
            judge(ctx, err, sink, run.data, what, must, True, octets if isinstance(octets, bytes) else None)
            ctx.distinct(h, fault, since, octets if isinstance(octets, bytes) else repr(octets))
            ctx.seen('faults', fault)
            if since:
                ctx.count('late_faults')
            if cfg['enc']:
                ctx.count('encrypted_faults')
            if first is None and err is not None:
                first = (reader, sink, t, ks)
        if first is not None:
            reader, sink, t, ks = first
            reader.bad = None
            if rng.random() < .5:       # the same reader goes on
                before = len(sink.writes)
                err, sink, _ = attempt(reader, run.name, hv, ks, t, sink)
                got = b''.join(sink.writes[before:])
            else:
                err, sink, _ = attempt(reader, run.name, hv, ks)
                got = sink.value()
            ctx.check(err is None, 'no-recovery', lambda: f'after the store was repaired, reading raised {type(err).__name__}: {str(err)[:200]}')
            ctx.check(got == run.data, 'recovery-wrong', 'after the store was repaired, another file was read')
            ctx.count('recoveries')
    ctx.sample({'config': cfg, 'packets': len(store)})


def library_memory(ctx):
    """The library's own memory reader with packets missing or replaced."""
    from array import array
    from ccnpy.core.HashValue import HashValue
    from ccnpy.core.Packet import Packet
    from ccnpy.flic.tree.TreeIO import TreeIO
    rng = ctx.rng
    cfg, run, view = tree(ctx)
    store = run.writer.store()
    hv = HashValue.create_sha256(list(run.root_hash))
    for h in packets(rng, store, run, 40 if ctx.thorough else 9):
        for fault, octets, must in [('missing', None, True)] + octet_faults(rng, store, h, view, cfg, 30 if ctx.thorough else 6):
            ks = rng.choice(keystores(rng, cfg))
            try:
                ps = [Packet.deserialize(array('B', w)) for x, w in store.items() if x != h]
                if octets is not None:
                    ps.insert(rng.randrange(len(ps) + 1), Packet.deserialize(array('B', octets)))
            except Exception:
                ctx.count('not_parsed')
                continue
            err, sink, t = attempt(TreeIO.PacketMemoryReader(ps), run.name, hv, ks)
            judge(ctx, err, sink, run.data, f'{fault} of packet {h.hex()[:16]} in memory', must, True, octets)
            ctx.distinct('m', h, fault, octets)
            if cfg['enc']:
                ctx.count('encrypted_faults')
        with ctx.must_work('clean-read'):
            sink, _ = gen.library_read(ctx, gen.memory_reader(store.values()), run.name, hv, gen.keystore(cfg))
        ctx.check(sink.value() == run.data, 'recovery-wrong', 'the undamaged store gives another file')


def directory(ctx):
    """The same in a directory, with files as the packets."""
    from ccnpy.core.HashValue import HashValue
    from ccnpy.flic.tree.TreeIO import TreeIO
    rng = ctx.rng
    d = os.path.join(ctx.scratch(), 'store')
    os.mkdir(d)
    cfg = small_cfg(rng)
    links = cfg['schema'] == 'hashed' and rng.random() < .5
    if links:
        cfg['name'] = gen.rand_name(rng, uri_safe=True)
    with ctx.must_work('store'):
        run = gen.Run(ctx, cfg, inner=TreeIO.PacketDirectoryWriter(d, link_named_objects=links))
    view = run.view()
    store = run.writer.store()
    hv = HashValue.create_sha256(list(run.root_hash))

    def path(h):
        return os.path.join(d, h.hex())

    def put(h, w):
        with open(path(h), 'wb') as f:
            f.write(w)
    for h, w in store.items():
        ctx.check(os.path.exists(path(h)) and open(path(h), 'rb').read() == w, 'file', f'file {h.hex()} does not hold the packet')
    for h in packets(rng, store, run, 40 if ctx.thorough else 9):
        fs = [('missing', None, True), ('renamed', None, True), ('swapped', None, True), ('is-directory', None, True)]
        for fault, octets, must in rng.sample(fs, 2) + octet_faults(rng, store, h, view, cfg, 30 if ctx.thorough else 7):
            ks = rng.choice(keystores(rng, cfg))
            other = rng.choice([x for x in store if x != h]) if len(store) > 1 else None
            if fault == 'missing':
                os.remove(path(h))
            elif fault == 'renamed':
                os.rename(path(h), path(h) + rng.choice(['.bak', '0', '~']))
            elif fault == 'is-directory':
                os.remove(path(h))
                os.mkdir(path(h))
            elif fault == 'swapped':
                put(h, store[other])
                put(other, store[h])
            else:
                put(h, octets)
            reader = TreeIO.PacketDirectoryReader(d)
            err, sink, t = attempt(reader, run.name, hv, ks)
            judge(ctx, err, sink, run.data, f'{fault} of file {h.hex()[:16]}', must, True, octets)
            ctx.count('directory_faults')
            ctx.distinct('d', h, fault, octets)
            ctx.seen('faults', 'directory ' + fault)
            if cfg['enc']:
                ctx.count('encrypted_faults')
            # repair
            if fault == 'is-directory':
                os.rmdir(path(h))
            put(h, store[h])
            if fault == 'swapped':
                put(other, store[other])
            if rng.random() < .15:
                if rng.random() < .5:
                    before = len(sink.writes)
                    err, sink, _ = attempt(reader, run.name, hv, ks, t, sink)
                    got = b''.join(sink.writes[before:])
                else:
                    err, sink, _ = attempt(TreeIO.PacketDirectoryReader(d), run.name, hv, ks)
                    got = sink.value()
                ctx.check(err is None, 'no-recovery', lambda: f'after the directory was repaired, reading raised {type(err).__name__}: {str(err)[:200]}')
                ctx.check(got == run.data, 'recovery-wrong', 'after the directory was repaired, another file was read')
                ctx.count('recoveries')


def histories(ctx):
    """Faults come and go while one keystore serves many attempts, several packets are damaged at a time."""
    from ccnpy.core.HashValue import HashValue
    rng = ctx.rng
    cfg, run, view = tree(ctx)
    store = run.writer.store()
    hv = HashValue.create_sha256(list(run.root_hash))
    damaged = dict(store)
    bad = {}
    ks = rng.choice(keystores(rng, cfg))
    hs = list(store)
    for _ in range(40 if ctx.thorough else 14):
        if bad and rng.random() < .5:
            for h in ([rng.choice(list(bad))] if rng.random() < .5 else list(bad)):
                damaged[h] = store[h]
                del bad[h]
        else:
            for _ in range(rng.choice([1, 1, 2, 3])):
                h = rng.choice(hs)
                f = [x for x in octet_faults(rng, store, h, view, cfg, 30) if x[2]]
                fault, octets, _m = rng.choice(f)
                if rng.random() < .25:
                    fault, octets = 'missing', None
                    damaged.pop(h, None)
                else:
                    damaged[h] = octets
                bad[h] = fault
        err, sink, _ = attempt(handmade.DictReader(damaged), run.name, hv, ks)
        if bad:
            judge(ctx, err, sink, run.data, f'faults {sorted(set(bad.values()))}', True)
            ctx.distinct('h', tuple(sorted((h, damaged.get(h)) for h in bad)))
        else:
            ctx.check(err is None, 'no-recovery', lambda: f'with every packet repaired, reading raised {type(err).__name__}: {str(err)[:200]}')
            ctx.check(sink.value() == run.data, 'recovery-wrong', 'with every packet repaired, another file was read')
            ctx.count('recoveries')


def unusable(ctx):
    """A pointer leads to a packet that has the hash asked for, but that no reader can use."""
    from array import array
    from ccnpy.core.HashValue import HashValue
    from ccnpy.core.Packet import Packet
    from ccnpy.crypto.InsecureKeystore import InsecureKeystore
    from ccnpy.flic.tree.Traversal import Traversal
    from ccnpy.flic.tree.TreeIO import TreeIO
    rng = ctx.rng
    H = handmade
    how = rng.choice([None, None, 'crc', 'a1024'])
    kind = rng.choice(['hashed', 'prefix', 'segmented'])
    prefix = gen.rand_name(rng)
    root_name = gen.rand_name(rng)
    co = wire.content_object
    locs = [gen.rand_name(rng)] if kind == 'hashed' else ()
    defs = [H.ncdef(3, H.schema(kind, prefix, 5, locs))]
    faults = ['none', 'key', 'link', 'untyped', 'type', 'no-payload', 'garbage', 'empty', 'no-groups', 'unknown-key', 'unknown-constructor',
              'no-constructor', 'dangling', 'cut', 'name', 'other-name']
    if kind != 'hashed':
        faults += ['near-name'] * 2
    if kind == 'segmented':
        faults += ['no-segment', 'off-by-one']
    for fault in faults:
        store = {}

        def nm(i):
            return None if kind == 'hashed' else prefix if kind == 'prefix' else prefix + [(5, wire.varint(i))]

        def leaf(i):
            b = rng.randbytes(rng.randrange(1, 40))
            h, w = H.data(b, nm(i), how)
            store[h] = w
            return h, b

        def ptrs(hs, first):
            return H.group(hs, 3, first if kind == 'segmented' else None)
        good, after = [leaf(i) for i in range(rng.randrange(0, 4))], rng.randrange(0, 3)
        i = len(good)
        t = {'none': (0, b'usable'), 'key': (1, rng.randbytes(20)), 'link': (2, wire.link_tuple(gen.rand_name(rng), None, rng.randbytes(32))),
             'untyped': (None, b'abc'), 'type': (rng.choice([4, 7, 255]), b'abc'), 'no-payload': (0, None),
             'garbage': (3, rng.randbytes(rng.randrange(1, 60))), 'empty': (3, b''), 'no-groups': (3, wire.tlv(1, b'')),
             'unknown-key': (3, wire.tlv(0, wire.tlv(0, wire.tlv(0, b'\x63') + wire.tlv(1, bytes(12)) + wire.tlv(2, b'\1'))) +
                             wire.tlv(2, bytes(40)) + wire.tlv(3, bytes(16))),
             'unknown-constructor': (3, None), 'no-constructor': (3, None), 'dangling': (3, None), 'cut': (3, None), 'no-segment': (3, None)}
        under = []
        if t.get(fault) == (3, None):
            under = [leaf(100 + k) for k in range(rng.randrange(1, 3))]
            hs = [h for h, _ in under]
            g = {'unknown-constructor': lambda: H.group(hs, 77, 100), 'no-constructor': lambda: H.group(hs, None, 100),
                 'no-segment': lambda: H.group(hs, 3), 'dangling': lambda: ptrs([rng.randbytes(32)] + hs, 100),
                 'cut': lambda: ptrs(hs, 100)}[fault]()
            n = H.node([g])
            t[fault] = (3, n[:-rng.randrange(1, len(n))] if fault == 'cut' else n)
        if fault in ('name', 'other-name', 'off-by-one', 'near-name'):
            b = rng.randbytes(9)
            bad_name = gen.rand_name(rng) if kind == 'hashed' or fault != 'off-by-one' else prefix + [(5, wire.varint(i + 1))]
            if fault == 'other-name' and kind != 'hashed':
                bad_name = (nm(i) or []) + [(1, b'x')]
            if fault == 'near-name':
                bad_name = gen.near_name(rng, nm(i))
            while bad_name in (nm(i), *locs):   # drawn by chance
                bad_name = bad_name + [(1, b'y')]
            bad, w = H.data(b, bad_name, how)
        else:
            bad, w = H.packet(co(nm(i), payload_type=t[fault][0], payload=t[fault][1]), how)
        store[bad] = w
        rest = [leaf(i + 1 + k) for k in range(after)]
        hs = [h for h, _ in good] + [bad] + [h for h, _ in rest]
        want = b''.join(b for _, b in good)
        if rng.random() < .5:       # a level between
            mh, mw = H.manifest(H.node([ptrs(hs, 0)]), nm(500), how)
            store[mh] = mw
            rh, rw = H.manifest(H.node([H.group([mh], 3, 500)] if kind == 'segmented' else [H.group([mh], 3)], defs), root_name, how)
        else:
            rh, rw = H.manifest(H.node([ptrs(hs, 0)], defs), root_name, how)
        store[rh] = rw
        ks = InsecureKeystore()
        ks.add_rsa_key('s', gen.rsa_key('a1024'))
        hv = HashValue.create_sha256(list(rh))
        ctx.config = {'fault': fault, 'schema': kind, 'packet': w, 'root': rw}
        named = fault in ('name', 'other-name', 'off-by-one', 'near-name')
        where = rng.choice(['memory', 'directory'] if named else ['memory', 'directory', 'any'])
        if where == 'memory':
            try:
                reader = TreeIO.PacketMemoryReader([Packet.deserialize(array('B', x)) for x in store.values()])
            except Exception:
                ctx.count('not_parsed')
                continue
        elif where == 'directory':
            d = os.path.join(ctx.scratch(), f'{fault}-{ctx.index}-{len(os.listdir(ctx.scratch()))}')
            os.mkdir(d)
            for h, x in store.items():
                with open(os.path.join(d, h.hex()), 'wb') as f:
                    f.write(x)
            reader = TreeIO.PacketDirectoryReader(d)
        else:
            reader = H.DictReader(store)
        graph = rng.random() < .3
        sink = gen.Sink()
        with ctx.must_work('reader'):
            tr = Traversal(packet_input=reader, data_writer=sink, keystore=ks, build_graph=graph)
        err, sink, _ = attempt(reader, gen.name_obj(root_name), hv, ks, tr, sink)
        what = f'{kind} tree in {where}, packet {len(good)} is {fault}'
        if fault == 'none':         # the same tree with nothing wrong
            ctx.check(err is None, 'usable-refused', lambda: f'{kind} tree in {where}: reading raised {type(err).__name__}: {str(err)[:200]}')
            ctx.check(sink.value() == want + b'usable' + b''.join(b for _, b in rest), 'usable-wrong', f'{kind} tree in {where}: another file was read')
            continue
        ctx.check(err is not None, 'unusable-accepted', f'{what}: reading raised nothing', packet=w)
        ctx.check(want.startswith(sink.value()), 'unusable-prefix', f'{what}: {len(sink.value())} octets were delivered, {len(want)} lie before it', packet=w)
        ctx.count('unusable')
        ctx.seen('faults', 'unusable ' + fault)
        ctx.distinct('u', fault, where, w, rh)


KINDS = {'unusable': (unusable, 60, 1500), 'in_memory': (in_memory, 60, 500), 'library_memory': (library_memory, 35, 250),
         'directory': (directory, 45, 350), 'histories': (histories, 45, 300)}
