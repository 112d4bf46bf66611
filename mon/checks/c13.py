"""C13: derived keys are HKDF keys of the stated inputs."""
from .. import gen, refcrypto, wire
from .c05 import A, octets
from .c09 import Reader, encrypt, rand_params, small_node

PROPERTY = 'C13'
LEVEL = 'exploration'
RULE = ('A case runs the real derivation function, encryptors and trees over random and boundary inputs. The derivation '
        'is compared with an independent HKDF of RFC 5869 (and its published vectors), every recorded manifest must '
        'decrypt under the independently derived key and under no other candidate: not the raw key, not the key derived '
        'with another hash, salt, info, key number or mode. Distinct cases are distinct derivation inputs and manifests.')
MINIMUM = {'evaluations': 500, 'distinct': 5000, 'derivations': 5000, 'manifests_under_derived_key': 1500,
           'separations': 8000, 'published_vectors': 3}

H = bytes.fromhex
VECTORS = [
    (1, H('0b' * 22), H('000102030405060708090a0b0c'), H('f0f1f2f3f4f5f6f7f8f9'), 42,
     H('3cb25f25faacd57a90434f64d0362f2a2d2d0a90cf1a5a4c5db02d56ecc4c5bf34007208d5b887185865')),
    (1, bytes(range(0x50)), bytes(range(0x60, 0xb0)), bytes(range(0xb0, 0x100)), 82,
     H('b11e398dc80327a1c8e7f78c596a49344f012eda2d4efad8a050cc4c19afa97c59045a99cac7827271cb41c65e590e09da3275600c2f09b8367793a9aca3db71cc30c58179ec3e87c14c01d5c1f3434f1d87')),
    (1, H('0b' * 22), b'', b'', 42, H('8da4e775a563c18f715f802a063c5a31b8a11f5c5ee1879ec3454e5f3c738d2d9d201395faa4b61a96c8')),
]
SIZE = {1: 32, 2: 48, 3: 64}


def lib_derive(alg, key, length, info, salt):
    from ccnpy.crypto.HpkeKdfIdentifiers import HpkeKdfIdentifiers
    from ccnpy.crypto.KDF import KDF
    return octets(KDF.derive(kdf_id=HpkeKdfIdentifiers.from_number(alg), input_key=key, length=length, info=info, salt=salt))


def derive(ctx):
    rng = ctx.rng
    if ctx.index < len(VECTORS):
        alg, key, salt, info, n, want = VECTORS[ctx.index]
        assert refcrypto.hkdf(alg, key, salt, info, n) == want
        with ctx.must_work('derive'):
            got = lib_derive(alg, key, n, info, salt)
        ctx.check(got == want, 'published-vector', f'the published vector {ctx.index + 1} is not derived')
        ctx.count('published_vectors')
    for _ in range(16):
        alg = rng.choice([1, 2, 3])
        key = rng.randbytes(rng.choice([1, 16, 16, 24, 32, 32, 64, 65, 128, 200]))
        salt = rng.choice([None, None, b'', bytes(4), rng.randbytes(4), rng.randbytes(rng.randrange(1, 200))])
        info = rng.choice([None, b'', b'FLIC', rng.randbytes(rng.randrange(1, 300))])
        n = rng.choice([1, 15, 16, 17, 31, 32, 33, SIZE[alg], SIZE[alg] + 1, 64, 255 * SIZE[alg], rng.randrange(1, 600)])
        with ctx.must_work('derive'):
            got = lib_derive(alg, key, n, info, salt)
            again = lib_derive(alg, key, n, info, salt)
        want = refcrypto.hkdf(alg, key, salt, info or b'', n)
        ctx.check(got == want, 'derive', 'the derivation differs from RFC 5869', alg=alg, key=key, salt=salt, info=info, length=n)
        ctx.check(again == got, 'derive-again', 'the derivation is not deterministic')
        ctx.count('derivations')
        ctx.distinct(alg, key, salt, info, n)
        # any other input, another key
        for a2, k2, s2, i2 in ((alg % 3 + 1, key, salt, info), (alg, key[:-1] + bytes([key[-1] ^ 1]), salt, info),
                               (alg, key, (salt or b'') + b'\1', info), (alg, key, salt, (info or b'') + b'\0'),
                               (alg, key, info, salt) if (info or b'').rstrip(b'\0') != (salt or b'').rstrip(b'\0') else (alg, key + b'\1', salt, info)):
            m = min(max(n, 16), 255 * 32)
            with ctx.must_work('derive'):
                x, y = lib_derive(a2, k2, m, i2, s2), lib_derive(alg, key, m, info, salt)
            ctx.check(x != y, 'derive-separation', 'different inputs give the same key')
            ctx.count('separations')
    for alg in (1, 2, 3):
        try:
            x = lib_derive(alg, b'k' * 16, 255 * SIZE[alg] + 1, b'', None)
        except Exception:
            ctx.check(True, '', '')
        else:
            ctx.fail('too-long', f'{len(x)} octets were derived, more than HKDF can give')
    for bad in (0, 4, 0xFFFF):
        try:
            lib_derive(bad, b'k' * 16, 16, b'', None)
        except Exception:
            ctx.check(True, '', '')
        else:
            ctx.fail('unknown-kdf', f'key derivation {bad} is not refused')


def candidates(e, c, salt):
    """Wrong keys a buggy implementation could have used -> [(what, key)]"""
    key, ks = e['key'], e['kdf_salt']
    ksb = None if ks is None else ks.to_bytes(4, 'big')
    info = b'FLIC' + c['keynum_raw'] + c['mode_raw'] + c['kdf_info_raw']
    out = [('the key itself', key)]
    h = c['kdf_alg']

    def add(what, alg, s, i):
        out.append((what, refcrypto.hkdf(alg, key, s, i, len(key))))
    for a in (1, 2, 3):
        if a != h:
            add('another hash', a, ksb, info)
    add('no information', h, ksb, b'')
    add('no prefix', h, ksb, info[4:])
    add('no key number', h, ksb, b'FLIC' + c['mode_raw'] + c['kdf_info_raw'])
    add('no mode', h, ksb, b'FLIC' + c['keynum_raw'] + c['kdf_info_raw'])
    if c['kdf_info_raw']:
        add('no derivation information', h, ksb, b'FLIC' + c['keynum_raw'] + c['mode_raw'])
        add('the raw derivation information', h, ksb, b'FLIC' + c['keynum_raw'] + c['mode_raw'] + c['kdf_info_raw'][4:])
    if ks:
        add('no salt', h, None, info)
    add('the salt of the cipher', h, salt.to_bytes(4, 'big') if salt else b'\1', info) if (salt or 1) != (ks or 0) else None
    return out


def judge(ctx, e, m, plain, what):
    d = wire.dec_manifest(m)
    c = d['ctx']
    ctx.check(c['kdf_alg'] == e['kdf'], 'kdf-alg', f'{what}: derivation {c["kdf_alg"]} in the context, {e["kdf"]} was asked for')
    want = b'' if e['kdf_info'] is None else wire.tlv(7, e['kdf_info'])
    ctx.check(c['kdf_info_raw'] == want, 'kdf-info', f'{what}: other derivation information in the context than was asked for')
    salt = e['salt']
    iv = (b'' if salt is None else salt.to_bytes(4, 'big')) + c['nonce']
    right = refcrypto.content_key(c, e['key'], e['kdf_salt'])
    got = refcrypto.aead_decrypt(c['mode'], right, iv, d['cipher'], d['tag'], d['sec'])
    for name, k in candidates(e, c, salt):
        if k == right:
            continue
        x = refcrypto.aead_decrypt(c['mode'], k, iv, d['cipher'], d['tag'], d['sec'])
        ctx.check(x is None, 'wrong-key-used', f'{what} is encrypted under {name}', manifest=m)
        ctx.count('separations')
    ctx.check(got is not None, 'derived-key', f'{what} is not encrypted under the derived key', manifest=m)
    ctx.check(plain is None or got == plain, 'wrong-node', f'{what} holds another node')
    ctx.count('manifests_under_derived_key')
    ctx.distinct(m)
    return right


TEXTS = ['a', ' a', 'a ', 'FLIC\n', '\ta', 'A', '0X12', 'a\0', ' ', '\u00e9\u6587 ', '%41']


def with_kdf(rng, kind=None):
    e = rand_params(rng, kind)
    if e['rsa']:
        e['rsa'] = 'a1024'
        if e['salt'] is None:
            e['salt'] = rng.randrange(1 << 32)
    e['kdf'] = e['kdf'] or rng.choice([1, 2, 3])
    e['kdf_info'] = rng.choice([e['kdf_info'], None, b'', rng.randbytes(16), rng.randbytes(rng.randrange(1, 200)), wire.name(gen.rand_name(rng)), rng.choice(TEXTS).encode()])
    e['info_as'] = rng.choice([None, 'text', 'text', 'hex', 'list'])
    return e


def manifests(ctx):
    """Families of parameters that differ in one respect, under one key."""
    rng = ctx.rng
    e = with_kdf(rng)
    ctx.config = e
    node, _ = small_node(rng)
    plain = octets(node.serialized_value())
    fam = [e, dict(e, kdf=e['kdf'] % 3 + 1), dict(e, kdf_info=(e['kdf_info'] or b'') + b'\0'), dict(e, num=e['num'] ^ 1),
           dict(e, alg='GCM' if e['alg'] == 'CCM' else 'CCM')]
    fam += [dict(e, kdf_info=i) for i in ((e['kdf_info'] or b'x') + b' ', b'\n' + (e['kdf_info'] or b'x')) if rng.random() < .5]
    if e['kdf_info'] is not None:
        fam.append(dict(e, kdf_info=None))
    else:
        fam.append(dict(e, kdf_info=b''))
    if e['kind'] == 'aead':
        fam.append(dict(e, kdf_salt=(e['kdf_salt'] or 0) ^ (1 << rng.randrange(32))))
    keys, ms = [], []
    for f in fam:
        with ctx.must_work('setup'):
            enc = gen.encryptor(f)
        for _ in range(2):
            m = encrypt(ctx, enc, node)
            k = judge(ctx, f, m, plain, 'a manifest')
            with ctx.must_work('decrypt'):
                got = Reader(f).open(m)
            ctx.check(got == plain, 'decrypt', 'a manifest under a derived key does not decrypt to its node')
        keys.append(k)
        ms.append(m)
    ctx.check(len(set(keys)) == len(keys), 'separation', 'different derivation inputs gave the same key')
    ctx.count('separations', len(keys))


def trees(ctx):
    rng = ctx.rng
    cfg = gen.rand_cfg(rng, top=4000)
    e = cfg['enc'] = with_kdf(rng)
    cfg['mps'] += 560 + len(e['kdf_info'] or b'')
    if rng.random() < .5:
        cfg['size'], cfg['degree'] = cfg['mps'] * rng.randrange(3, 20), rng.choice([2, 3, 5])
    r = gen.Run(ctx, cfg)
    keys = set()
    for h, w in r.writer.log:
        p = wire.dec_packet(w)
        if p['is_manifest']:
            keys.add(judge(ctx, e, p['payload'], None, 'the root' if h == r.root_hash else 'a manifest of a tree'))
    ctx.check(len(keys) == 1, 'one-key', 'the manifests of a tree are under different derived keys')
    ctx.check(r.view().content() == r.data, 'wrong-file', 'the manifests decrypted with the derived key lead to another file')
    sink, _ = gen.library_read(ctx, gen.memory_reader([w for _, w in r.writer.log]), r.name, r.root.content_object_hash(), gen.keystore(cfg))
    ctx.check(sink.value() == r.data, 'wrong-file', 'the library reads another file')
    ctx.distinct(*r.shape())
    ctx.sample({'kdf': e['kdf'], 'kind': e['kind'], 'alg': e['alg'], 'bits': len(e['key']) * 8})


KINDS = {'derive': (derive, 330, 8000), 'manifests': (manifests, 110, 3000), 'trees': (trees, 110, 3000)}
