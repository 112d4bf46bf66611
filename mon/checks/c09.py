"""C09: an altered or wrongly keyed encrypted manifest never decrypts."""
from .. import gen, handmade, refcrypto, wire
from .c05 import A, octets, rnode

PROPERTY = 'C09'
LEVEL = 'exploration'
RULE = ('A case encrypts random nodes with the real library under random parameters, checks that the right reader and an '
        'independent implementation get the node back exactly, and then puts in faults: every octet of the manifest '
        'altered, lengths and boundaries moved, parts exchanged with other manifests of the same key, contexts rewritten '
        'with every field changed, and readers with other keys, salts, modes, numbers and derivations. Each fault must '
        'give an error, from a fresh reader and from one that just read the good manifest, and in a tree no octet of the '
        'file may come out. Distinct cases are distinct altered manifests and reader parameters.')
MINIMUM = {'evaluations': 330, 'distinct': 30000, 'good_decryptions': 700, 'faults_rejected': 40000, 'wrong_readers': 700,
           'tree_faults': 700}


def small_node(rng):
    """A node whose encryption is small enough to alter every octet."""
    for _ in range(20):
        o, w, v, gs, _ = rnode(rng)
        if len(v) < 260:
            if rng.random() < .25:
                from ccnpy.flic.tlvs.Node import Node
                n = rng.randrange(9)
                return Node(node_data=o.node_data(), hash_groups=o.hash_groups(), pad_length=len(w) + 4 + n), v + wire.tlv(0xFFE, bytes(n))
            return o, v
    from ccnpy.flic.tlvs.HashGroup import HashGroup
    from ccnpy.flic.tlvs.Node import Node
    from ccnpy.flic.tlvs.Pointers import Pointers
    from ccnpy.core.HashValue import HashValue
    d = rng.randbytes(32)
    return (Node(hash_groups=[HashGroup(pointers=Pointers([HashValue.create_sha256(d)]))]),
            wire.tlv(1, wire.tlv(7, wire.tlv(1, d))))


def rand_params(rng, kind=None):
    e = None
    while e is None or (kind and e['kind'] != kind):
        e = gen.rand_enc(rng, kinds=('aead', 'oaep'), weights=(5, 3))
    if e['rsa']:
        e['rsa'] = rng.choice(['a1024', 'a1024', 'c2048'])
    return e


def encrypt(ctx, enc, node, wrapper=True):
    """-> manifest octets"""
    from ccnpy.flic.tlvs.Manifest import Manifest
    with ctx.must_work('encrypt'):
        if wrapper and 'Oaep' in type(enc).__name__:
            c, n, t = enc.encrypt(node, include_wrapper=True)
        else:
            c, n, t = enc.encrypt(node)
        return octets(Manifest(security_ctx=c, node=n, auth_tag=t).serialize())


class Reader:
    """Something that decrypts manifests, made anew or kept."""

    def __init__(self, e, keys=None):
        from ccnpy.crypto.InsecureKeystore import InsecureKeystore
        from ccnpy.flic.RsaOaepCtx.RsaOaepDecryptor import RsaOaepDecryptor
        from ccnpy.flic.aeadctx.AeadDecryptor import AeadDecryptor
        if e['kind'] == 'aead':
            self.d = AeadDecryptor(gen.aead_params(e))
        else:
            ks = InsecureKeystore()
            ks.add_rsa_key('k', gen.rsa_key(e['rsa']))
            for p in keys or ():
                ks.add_aes_key(p)
            self.d = RsaOaepDecryptor(ks)

    def open(self, m):
        """-> node octets"""
        from ccnpy.flic.tlvs.Manifest import Manifest
        man = Manifest.deserialize(A(m))
        return octets(self.d.decrypt_manifest(man).node().serialized_value())


class CachedReader(Reader):
    """The reader as a traversal makes it, out of a keystore."""

    def __init__(self, e):
        from ccnpy.crypto.InsecureKeystore import InsecureKeystore
        from ccnpy.flic.tree.DecryptorCache import DecryptorCache
        ks = InsecureKeystore()
        if e['kind'] == 'aead':
            ks.add_aes_key(gen.aead_params(e))
        else:
            ks.add_rsa_key('k', gen.rsa_key(e['rsa']))
        self.c = DecryptorCache(ks)

    def open(self, m):
        from ccnpy.flic.tlvs.Manifest import Manifest
        man = Manifest.deserialize(A(m))
        self.d = self.c.get_or_create(man.security_ctx())
        return octets(self.d.decrypt_manifest(man).node().serialized_value())


def good(ctx, reader, m, plain, what='decrypt'):
    with ctx.must_work(what):
        got = reader.open(m)
    ctx.check(got == plain, 'wrong-node', f'a manifest decrypts to a node other than the one encrypted', manifest=m, node=plain, got=got)
    ctx.count('good_decryptions')


def independently(ctx, e, m, plain):
    d = wire.dec_manifest(m)
    key, salt = e['key'], e['salt']
    if e['kind'] == 'oaep':
        x = refcrypto.unwrap(e['rsa'], d['ctx'])
        ctx.check(x is not None and x[1] == key, 'independent-unwrap', 'an independent implementation cannot unwrap the key')
        salt = x[0]
    got = refcrypto.decrypt_node(d['sec'], d['ctx'], d['cipher'], d['tag'], key, salt, e['kdf_salt'])
    ctx.check(got == plain, 'independent-decrypt', 'an independent implementation does not decrypt the manifest', manifest=m)
    return d


def canonical(m):
    from ccnpy.flic.tlvs.Manifest import Manifest
    try:
        return octets(Manifest.deserialize(A(m)).serialize())
    except Exception:
        return None


def must_fail(ctx, readers, bad, original, what):
    if bad == original:
        return
    ctx.distinct(bad)
    c = canonical(bad)
    if c is None:
        ctx.count('faults_unparseable')
        ctx.count('faults_rejected')
        return
    if c == original:
        return          # the parser understands it as the original
    for make in readers:
        r = make() if callable(make) else make
        try:
            got = r.open(bad)
        except Exception as ex:
            ctx.seen('rejected_by', type(ex).__name__)
            ctx.count('faults_rejected')
            continue
        ctx.fail(f'altered-{what}-decrypts', f'a manifest with altered {what} decrypts to {len(got)} octets', manifest=bad, original=original)


def regions(m):
    """-> [(what, lo, hi)] of the value octets and headers of a manifest"""
    out = []
    off = 0
    for t, v in wire.tlvs(m):
        what = {0: 'context', 2: 'ciphertext', 3: 'tag', 1: 'node'}[t]
        out.append((what + '-header', off, off + 4))
        out.append((what, off + 4, off + 4 + len(v)))
        off += 4 + len(v)
    return out


def alter(ctx):
    """Every octet of the manifest."""
    rng = ctx.rng
    e = rand_params(rng)
    ctx.config = e
    node, _ = small_node(rng)
    with ctx.must_work('setup'):
        enc = gen.encryptor(e)
    m = encrypt(ctx, enc, node)
    plain = octets(node.serialized_value())
    independently(ctx, e, m, plain)
    warm, cached = Reader(e), CachedReader(e)
    for r in (warm, cached, warm):
        good(ctx, r, m, plain)
    step = 1 if ctx.thorough or len(m) < 330 else 2
    for what, lo, hi in regions(m):
        for i in range(lo + (0 if hi - lo < 60 else rng.randrange(step)), hi, 1 if hi - lo < 60 else step):
            b = bytearray(m)
            b[i] ^= rng.choice([1, 2, 4, 8, 16, 32, 64, 128, rng.randrange(1, 256)])
            # a fresh unwrapping is slow; the altered wrapped key is what C12 looks at
            rs = [warm, cached] if e['kind'] == 'oaep' and rng.random() < .8 else [warm, lambda: Reader(e), lambda: CachedReader(e)]
            must_fail(ctx, rs, bytes(b), m, what)
    good(ctx, warm, m, plain, 'decrypt-after-failures')
    good(ctx, cached, m, plain, 'decrypt-after-failures')
    good(ctx, Reader(e), m, plain)


def build(d):
    return d['sec'] + wire.tlv(2, d['cipher']) + wire.tlv(3, d['tag'])


def sec_fields(d):
    """-> (context type, [(t, v)])"""
    t, x = wire.tlvs(wire.tlvs(d['sec'])[0][1])[0]
    return t, wire.tlvs(x)


def sec_build(t, fields):
    return wire.tlv(0, wire.tlv(t, b''.join(wire.tlv(a, b) for a, b in fields)))


def splice(ctx):
    """Parts moved within a manifest and between manifests of the same and other keys."""
    rng = ctx.rng
    e = rand_params(rng)
    ctx.config = e
    with ctx.must_work('setup'):
        enc = gen.encryptor(e)
    ms, plains, ds = [], [], []
    for i in range(3):
        node, _ = small_node(rng)
        if i == 1 and rng.random() < .5:
            node = nodes0
        nodes0 = node
        m = encrypt(ctx, enc, node)
        p = octets(node.serialized_value())
        ms.append(m), plains.append(p), ds.append(independently(ctx, e, m, p))
    warm = Reader(e)
    for m, p in zip(ms, plains):
        good(ctx, warm, m, p)
    rs = [warm, lambda: Reader(e), lambda: CachedReader(e)]
    for a in range(3):
        for b in range(3):
            if a == b:
                continue
            for part in ('sec', 'cipher', 'tag', ('sec', 'tag'), ('cipher', 'tag'), ('sec', 'cipher')):
                d = dict(ds[a])
                for k in (part if isinstance(part, tuple) else (part,)):
                    d[k] = ds[b][k]
                if part == ('sec', 'tag') and d['cipher'] == ds[b]['cipher']:
                    continue
                x = build(d)
                if x in ms:
                    continue
                must_fail(ctx, rs, x, ms[a], 'parts')
    d0 = ds[0]
    c, t = d0['cipher'], d0['tag']
    for k in list(range(1, min(len(c), 40))) + [len(c)]:
        must_fail(ctx, rs, build(dict(d0, cipher=c[:-k], tag=c[-k:] + t)), ms[0], 'boundary')
        must_fail(ctx, rs, build(dict(d0, cipher=c[:-k])), ms[0], 'ciphertext')
        must_fail(ctx, rs, build(dict(d0, cipher=c[k:])), ms[0], 'ciphertext')
        must_fail(ctx, rs, build(dict(d0, cipher=c + rng.randbytes(k))), ms[0], 'ciphertext')
        if k <= 16:
            must_fail(ctx, rs, build(dict(d0, cipher=c + t[:k], tag=t[k:])), ms[0], 'boundary')
            must_fail(ctx, rs, build(dict(d0, tag=t[:-k])), ms[0], 'tag')
            must_fail(ctx, rs, build(dict(d0, tag=t[k:])), ms[0], 'tag')
            must_fail(ctx, rs, build(dict(d0, tag=t + bytes(k))), ms[0], 'tag')
    must_fail(ctx, rs, d0['sec'] + wire.tlv(2, c), ms[0], 'tag')
    must_fail(ctx, rs, d0['sec'] + wire.tlv(3, t), ms[0], 'ciphertext')
    must_fail(ctx, rs, wire.tlv(2, c) + wire.tlv(3, t), ms[0], 'context')
    must_fail(ctx, rs, d0['sec'] + wire.tlv(1, c) + wire.tlv(3, t), ms[0], 'node type')
    must_fail(ctx, rs, build(dict(d0, tag=bytes(16))), ms[0], 'tag')
    must_fail(ctx, rs, build(dict(d0, tag=bytes(16), cipher=bytes(len(c)))), ms[0], 'tag')
    # the context rewritten
    ty, fs = sec_fields(d0)
    for i, (ft, fv) in enumerate(fs):
        for v in variants(rng, fv):
            g = list(fs)
            g[i] = (ft, v)
            must_fail(ctx, rs, build(dict(d0, sec=sec_build(ty, g))), ms[0], 'context field')
        must_fail(ctx, rs, build(dict(d0, sec=sec_build(ty, fs[:i] + fs[i + 1:]))), ms[0], 'context field')
    for mode in range(0, 6):
        g = [(a, bytes([mode]) if a == 2 else b) for a, b in fs]
        must_fail(ctx, rs, build(dict(d0, sec=sec_build(ty, g))), ms[0], 'mode')
    for k in (1, 2, 3):
        for info in (None, b'', b'x', e['kdf_info']):
            kd = wire.tlv(6, bytes([k])) + (b'' if info is None else wire.tlv(7, info))
            g = [x for x in fs if x[0] != 5]
            for at in range(len(g) + 1):
                must_fail(ctx, rs, build(dict(d0, sec=sec_build(ty, g[:at] + [(5, kd)] + g[at:]))), ms[0], 'kdf')
    must_fail(ctx, rs, build(dict(d0, sec=sec_build(1 - ty, fs))), ms[0], 'context type')
    good(ctx, warm, ms[0], plains[0], 'decrypt-after-failures')


def variants(rng, v):
    n = len(v)
    yield v[:-1]
    yield v[1:]
    yield v + b'\0'
    yield b'\0' + v
    yield bytes(n)
    yield rng.randbytes(n)
    yield v[::-1]
    if n:
        b = bytearray(v)
        b[rng.randrange(n)] ^= 1 << rng.randrange(8)
        yield bytes(b)


def wrong(ctx):
    """Readers whose parameters differ from the writer's."""
    rng = ctx.rng
    e = rand_params(rng, 'aead')
    ctx.config = e
    node, _ = small_node(rng)
    with ctx.must_work('setup'):
        enc = gen.encryptor(e)
    m = encrypt(ctx, enc, node)
    plain = octets(node.serialized_value())
    good(ctx, Reader(e), m, plain)
    good(ctx, CachedReader(e), m, plain)
    # what the reader says about key derivation does not matter, the context does
    other = dict(e, kdf=None if e['kdf'] else 2, kdf_info=b'else')
    good(ctx, Reader(other), m, plain, 'decrypt-with-own-derivation')
    changed = []
    b = bytearray(e['key'])
    b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
    changed.append(('key', dict(e, key=bytes(b))))
    changed.append(('key', dict(e, key=rng.randbytes(len(e['key'])))))
    changed.append(('key length', dict(e, key=(e['key'] + e['key'])[:16 if len(e['key']) == 32 else 32])))
    changed.append(('cipher', dict(e, alg='CCM' if e['alg'] == 'GCM' else 'GCM')))
    changed.append(('key number', dict(e, num=e['num'] + 1 if e['num'] < 1 << 60 else 3)))
    changed.append(('salt', dict(e, salt=rng.choice([x for x in (None, 0, 1, 0xFFFFFFFF, 7) if x != e['salt']]))))
    if e['salt'] is not None:
        changed.append(('salt', dict(e, salt=e['salt'] ^ (1 << rng.randrange(32)))))
    if e['kdf']:
        # no salt and a salt of zeros are the same thing to HKDF
        changed.append(('kdf salt', dict(e, kdf_salt=(e['kdf_salt'] or 0) ^ (1 << rng.randrange(32)))))
    for what, x in changed:
        for cls in (Reader, CachedReader):
            ctx.distinct(what, repr(x))
            try:
                r = cls(x)
                got = r.open(m)
            except Exception as ex:
                ctx.seen('rejected_by', type(ex).__name__)
                ctx.count('wrong_readers')
                continue
            ctx.fail('wrong-' + what.replace(' ', '-') + '-decrypts', f'a reader with another {what} gets {len(got)} octets', reader=repr(x), manifest=m)


def wrong_oaep(ctx):
    """Readers of wrapped keys that hold another content key under the number of the tree."""
    rng = ctx.rng
    e = rand_params(rng, 'oaep')
    ctx.config = e
    node, _ = small_node(rng)
    with ctx.must_work('setup'):
        enc = gen.encryptor(e)
    plain = octets(node.serialized_value())
    m = encrypt(ctx, enc, node)
    m2 = encrypt(ctx, enc, node, wrapper=False)
    d = wire.dec_manifest(m)
    salt, key = refcrypto.unwrap(e['rsa'], d['ctx'])
    right = dict(e, salt=salt)
    for x in (m, m2):
        good(ctx, Reader(e, keys=[gen.aead_params(right)]), x, plain, 'decrypt-with-known-key')
    r = Reader(e)
    good(ctx, r, m, plain)
    good(ctx, r, m2, plain)
    for what, x in (('key', dict(right, key=rng.randbytes(len(key)))), ('salt', dict(right, salt=salt ^ 1)), ('salt', dict(right, salt=None)),
                    ('cipher', dict(right, alg='CCM' if e['alg'] == 'GCM' else 'GCM'))):
        for y in (m, m2):
            try:
                got = Reader(e, keys=[gen.aead_params(x)]).open(y)
            except Exception as ex:
                ctx.seen('rejected_by', type(ex).__name__)
                ctx.count('wrong_readers')
                continue
            ctx.fail('wrong-' + what + '-decrypts', f'a reader with another {what} gets {len(got)} octets', manifest=y)
    try:
        got = Reader(e).open(m2)
    except Exception:
        ctx.count('wrong_readers')
    else:
        ctx.fail('no-key-decrypts', f'a reader without the content key gets {len(got)} octets')
    ctx.distinct(m)


def trees(ctx):
    """Trees with an altered encrypted manifest under a plain root, and trees read with the wrong key."""
    from ccnpy.core.HashValue import HashValue
    from ccnpy.flic.tree.Traversal import Traversal
    rng = ctx.rng
    cfg = gen.rand_cfg(rng, top=2500)
    cfg['size'] = max(1, cfg['size'])
    while not cfg['enc'] or cfg['enc']['kind'] != 'aead':
        cfg['enc'] = gen.rand_enc(rng)
    e = cfg['enc']
    r = gen.Run(ctx, cfg)
    v = r.view()
    store = r.writer.store()
    name = gen.name_obj(cfg['name'])

    def read(store, root, cfg):
        sink = gen.Sink()
        try:
            Traversal(handmade.DictReader(store), sink, gen.keystore(cfg)).traverse(name, HashValue.create_sha256(root))
            return sink, None
        except Exception as ex:
            ctx.seen('tree_rejected_by', type(ex).__name__)
            return sink, ex
    sink, err = read(store, r.root_hash, cfg)
    ctx.check(err is None and sink.value() == r.data, 'good-tree', lambda: f'a good tree is not read: {err!r}')
    b = bytearray(e['key'])
    b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
    wrong_readers = [('key', dict(e, key=bytes(b))), ('salt', dict(e, salt=(e['salt'] or 0) ^ 0x100)), ('number', dict(e, num=e['num'] ^ 1))]
    if e['kdf']:
        wrong_readers.append(('kdf-salt', dict(e, kdf_salt=(e['kdf_salt'] or 0) ^ 2)))
    for what, x in wrong_readers:
        sink, err = read(store, r.root_hash, dict(cfg, enc=x))
        ctx.check(err is not None, f'wrong-{what}-read', f'a tree is read with another {what}')
        ctx.check(not sink.writes, f'wrong-{what}-octets', f'{len(sink.value())} octets of the file came out with another {what}')
        ctx.count('tree_faults')
    # every manifest below the root, altered, under a plain root that points to the altered one
    sch = handmade.ncdef(1, handmade.schema('hashed', locs=[[(1, b'l')]]))
    for m in v.manifests[1:6]:
        p = wire.dec_packet(store[m.hash])
        man = m.pkt['payload']
        for what, lo, hi in regions(man):
            if hi == lo:
                continue
            for _ in range(2):
                b = bytearray(man)
                b[rng.randrange(lo, hi)] ^= 1 << rng.randrange(8)
                c = canonical(bytes(b))
                if c is None or c == man:
                    continue
                # a prefix schema of the manifest's own name, so that its name does not get in the way
                h, w = handmade.packet(wire.content_object(p['name'], payload_type=3, payload=bytes(b)))
                s = sch if p['name'] is None else handmade.ncdef(1, handmade.schema('prefix', p['name']))
                h2, w2 = handmade.manifest(handmade.node([handmade.group([h], 1)], [s]), cfg['name'])
                s2 = dict(store)
                s2[h], s2[h2] = w, w2
                sink, err = read(s2, h2, cfg)
                ctx.check(err is not None, 'altered-manifest-read', f'a tree with an altered encrypted manifest ({what}) is read')
                ctx.check(not sink.writes, 'altered-manifest-octets', f'octets came out of an altered encrypted manifest ({what})')
                ctx.count('tree_faults')
    ctx.distinct(*r.shape())


KINDS = {'alter': (alter, 90, 2500), 'splice': (splice, 60, 1500), 'wrong': (wrong, 80, 3000),
         'wrong_oaep': (wrong_oaep, 30, 600), 'trees': (trees, 90, 2500)}
