"""C08: signatures and checksums verify exactly what was signed."""
import os

from .. import gen, handmade, refcrypto, wire
from .c05 import A, octets
from .c07 import build, octets_of, rand_values

PROPERTY = 'C08'
LEVEL = 'exploration'
RULE = ('A case signs packets with the real library, with RSA keys or a checksum and every option of the validation '
        'algorithm, and verifies them with an independent implementation, with the library verifier and with the '
        'validator, also after saving and loading. Then faults are put in: octets altered in body, algorithm and '
        'signature, parts exchanged between packets, other keys; each altered packet that still parses must be '
        'rejected, and so must a tree whose root or whose inner packets carry a bad signature. Distinct cases are '
        'distinct signed or altered octets.')
MINIMUM = {'evaluations': 380, 'distinct': 9000, 'verified': 1500, 'alterations_rejected': 5000, 'tree_rejections': 300, 'others_verified': 80}

KEYS = ['a1024', 'b1024', 'c2048', 'e3072', 'f4096']


def keystore(names=KEYS, public=False):
    from ccnpy.crypto.InsecureKeystore import InsecureKeystore
    from ccnpy.crypto.RsaKey import RsaKey
    ks = InsecureKeystore()
    for n in names:
        k = gen.rsa_key(n)
        ks.add_rsa_key(n, RsaKey(k.public_key_pem()) if public else k)
    return ks


def sign_body(rng, ctx, body):
    """-> (packet, key or None, options)"""
    from datetime import datetime, timedelta, timezone
    from ccnpy.core.KeyLink import KeyLink
    from ccnpy.core.Link import Link
    from ccnpy.core.Packet import Packet
    from ccnpy.core.SignatureTime import SignatureTime
    from ccnpy.crypto.Crc32c import Crc32cSigner
    from ccnpy.crypto.RsaSha256 import RsaSha256Signer
    if rng.random() < .3:
        s = Crc32cSigner()
        alg, key, opt = s.validation_alg(), None, {}
    else:
        key = rng.choice(KEYS)
        s = RsaSha256Signer(gen.rsa_key(key))
        ms = rng.choice([0, 1, 1700000000123, rng.randrange(1 << 42)])
        kl = gen.rand_name(rng) if rng.random() < .4 else None
        opt = {'include': rng.random() < .35, 'link': kl, 'ms': rng.choice([None, ms])}
        when = opt['ms']
        if when is not None:
            when = SignatureTime(ms / 1000) if rng.random() < .5 else \
                datetime(1970, 1, 1, tzinfo=timezone.utc) + timedelta(milliseconds=ms)
        alg = s.validation_alg(include_public_key=opt['include'],
                               key_link=None if kl is None else KeyLink(Link(name=gen.name_obj(kl))), signature_time=when)
    vp = s.sign(body.serialize(), alg.serialize())
    return Packet.create_signed_content_object(body, alg, vp), key, opt


def independent(w):
    """Does the packet verify?  -> True, False; key from the key id"""
    p = wire.dec_packet(w)
    signed = p['body'] + p['alg']
    if p['sig']['alg'] == 'crc32c':
        return p['vpayload'] == refcrypto.crc32c(signed).to_bytes(4, 'big')
    key = next(k for k in KEYS if refcrypto.keyid(k) == p['sig']['keyid'])
    return refcrypto.rsa_verify(key, signed, p['vpayload'])


def verifier(key):
    from ccnpy.crypto.Crc32c import Crc32cVerifier
    from ccnpy.crypto.RsaKey import RsaKey
    from ccnpy.crypto.RsaSha256 import RsaSha256Verifier
    return Crc32cVerifier() if key is None else RsaSha256Verifier(RsaKey(gen.rsa_key(key).public_key_pem()))


def accepts(ctx, p, ks, after=None):
    """after: a packet that the validator has validated before"""
    from ccnpy.core.Packet import Packet
    from ccnpy.core.PacketValidator import PacketValidator
    v = PacketValidator(ks)
    if after is not None:
        after = Packet.deserialize(A(after))
        with ctx.must_work('validation-before'):
            v.validate_packet(after)
    try:
        v.validate_packet(p)
        return True
    except Exception as e:
        ctx.seen('rejected_by', type(e).__name__)
        return False


def must_accept(ctx, p, key, what):
    from ccnpy.core.PacketValidator import PacketValidator
    for ks in (keystore(), keystore(public=True), keystore([key] if key else [])):
        with ctx.must_work(f'{what}-validation'):
            PacketValidator(ks).validate_packet(p)
    with ctx.must_work(f'{what}-verification'):
        ok = verifier(key).verify(p.body().serialize(), p.validation_alg().serialize(), validation_payload=p.validation_payload())
    ctx.check(ok is True, f'{what}-verify', 'a good signature is not verified by the library')
    ctx.count('verified')


def must_reject(ctx, w, key, original, what):
    """w is the octets of an altered packet."""
    from ccnpy.core.Packet import Packet
    ctx.distinct(w)
    try:
        p = Packet.deserialize(A(w))
    except Exception:
        ctx.count('alterations_unparseable')
        return
    if p.validation_alg() is None or octets(p.serialize())[8:] == original[8:]:
        return
    ctx.check(not accepts(ctx, p, keystore()), f'altered-{what}-accepted', f'a packet with altered {what} passes validation',
              octets=w, original=original)
    ctx.check(not accepts(ctx, p, keystore(), original), f'altered-{what}-accepted-later',
              f'a packet with altered {what} passes validation by a validator that has validated the original', octets=w, original=original)
    if key is not None or octets(p.validation_alg().serialize()) == wire.alg_crc32c():
        v = verifier(key)
        try:
            o = Packet.deserialize(A(original))
            v.verify(o.body().serialize(), o.validation_alg().serialize(), validation_payload=o.validation_payload())
        except Exception:
            pass
        try:
            ok = v.verify(p.body().serialize(), p.validation_alg().serialize(), validation_payload=p.validation_payload())
        except Exception:
            ok = False
        ctx.check(not ok, f'altered-{what}-verified', f'a packet with altered {what} is verified', octets=w, original=original)
    ctx.count('alterations_rejected')


def alter(rng, b):
    b = bytearray(b)
    k = rng.randrange(6)
    i = rng.randrange(len(b)) if b else 0
    if k <= 2 and b:
        b[i] ^= 1 << rng.randrange(8)
    elif k == 3 and b:
        b[i] = (b[i] + rng.randrange(1, 256)) & 255
    elif k == 4 and len(b) > 1:
        j = rng.randrange(len(b))
        b[i], b[j] = b[j], b[i]
    elif b:
        b[-1] ^= 0x80
    return bytes(b)


def packets(ctx):
    from ccnpy.core.Packet import Packet
    rng = ctx.rng
    prev = None
    for n in range(2):
        v = rand_values(rng)
        v['alg'] = None
        if v['payload'] is None or rng.random() < .3:
            v['payload'], v['ptype'] = rng.randbytes(rng.choice([0, 1, 100, 1400, 9000])), 0
        ctx.config = {k: repr(x)[:200] for k, x in v.items()}
        with ctx.must_work('sign'):
            body = build(rng, v).body()
            p, key, opt = sign_body(rng, ctx, body)
            w = octets(p.serialize())
        ctx.distinct(w)
        try:
            d = wire.dec_packet(w)
        except wire.WireError as e:
            ctx.fail('signed-malformed', f'a signed packet is malformed: {e}')
        ctx.check(d['body'] == octets_of(v)[8:], 'signed-body', 'signing changed the body')
        if key is None:
            ctx.check(d['sig'] == {'alg': 'crc32c'}, 'alg', 'wrong validation algorithm for a checksum')
        else:
            s = d['sig']
            ctx.check(s['alg'] == 'rsa' and s['keyid'] == refcrypto.keyid(key), 'alg-keyid', 'wrong algorithm or key id')
            ctx.check(s['public_key'] == (refcrypto.public_der(key) if opt['include'] else None), 'alg-public-key', 'wrong embedded public key')
            ctx.check((s['key_link'] and s['key_link']['name']) == opt['link'], 'alg-key-link', 'wrong key link')
            if opt['ms'] is not None:
                ctx.check(s['sigtime'] == opt['ms'], 'alg-time', 'wrong signature time')
            else:
                import time
                ctx.check(s['sigtime'] is not None and abs(s['sigtime'] / 1000 - time.time()) < 600, 'alg-now', 'the signature time is not now')
        ctx.check(independent(w), 'independent', 'an independent implementation rejects the signature')
        must_accept(ctx, p, key, 'fresh')
        path = os.path.join(ctx.scratch(), 's')
        with ctx.must_work('reload'):
            p.save(path)
            p2, p3 = Packet.load(path), Packet.deserialize(A(w))
        must_accept(ctx, p2, key, 'loaded')
        must_accept(ctx, p3, key, 'reparsed')
        if key is not None:
            with ctx.must_work('getters'):
                pk = p3.validation_alg().public_key()
                ctx.check((pk is not None) == opt['include'], 'embedded-key', 'the embedded key is not found after reparsing')
                if pk is not None:
                    ctx.check(octets(pk.public_key_der()) == refcrypto.public_der(key) and pk.keyid() == gen.rsa_key(key).keyid(), 'embedded-key', 'another key is found')
                ctx.check(octets(p3.validation_alg().keyid().value()) == refcrypto.keyid(key), 'keyid', 'another key id is found after reparsing')
        # faults
        nb, na = len(d['body']), len(d['alg'])
        regions = [('body', 8, 8 + nb), ('algorithm', 8 + nb, 8 + nb + na), ('signature', 8 + nb + na, len(w))]
        for what, lo, hi in regions:
            for _ in range(6 if not ctx.thorough else 14):
                x = alter(rng, w[lo + (4 if rng.random() < .8 else 0):hi])
                m = w[:hi - len(x)] + x + w[hi:]
                if m != w:
                    must_reject(ctx, m, key, w, what)
        sig = d['vpayload']
        for x in (sig[:-1], sig + b'\0', b'\0' + sig, b'', bytes(len(sig)), sig[::-1] if sig[::-1] != sig else b'', sig * 2):
            must_reject(ctx, wire.packet(d['body'], d['alg'], wire.validation_payload(x)), key, w, 'signature')
        # a longer or shorter body under the same signature
        v2 = dict(v)
        v2['payload'] = v['payload'] + b'x'
        must_reject(ctx, wire.packet(octets_of(v2)[8:], d['alg'], wire.validation_payload(sig)), key, w, 'body')
        if prev is not None:
            pw, pd, pkey = prev
            if pd['body'] != d['body']:
                must_reject(ctx, wire.packet(d['body'], pd['alg'], wire.validation_payload(pd['vpayload'])), pkey, w, 'signature')
                must_reject(ctx, wire.packet(pd['body'], d['alg'], wire.validation_payload(sig)), key, pw, 'body')
            if pd['alg'] != d['alg'] and key is not None:
                must_reject(ctx, wire.packet(d['body'], pd['alg'], wire.validation_payload(sig)), pkey, w, 'algorithm')
        # only the body signed, only the algorithm signed, or in the wrong order, or by another key
        if key is not None:
            other = rng.choice([k for k in KEYS if k != key])
            for who, data in ((key, d['body']), (key, d['alg']), (key, d['alg'] + d['body']), (key, w[:8] + d['body'] + d['alg']),
                              (other, d['body'] + d['alg'])):
                f = wire.packet(d['body'], d['alg'], wire.validation_payload(refcrypto.rsa_sign(who, data)))
                must_reject(ctx, f, key, w, 'signer')
            # signed by others, who may leave out the time
            alg = wire.alg_rsa(refcrypto.keyid(key), rng.choice([None, refcrypto.public_der(key)]), rng.choice([None, wire.link_tuple(gen.rand_name(rng))]))
            f = wire.packet(d['body'], alg, wire.validation_payload(refcrypto.rsa_sign(key, d['body'] + alg)))
            with ctx.must_work('timeless-parse'):
                q = Packet.deserialize(A(f))
            ctx.check(octets(q.serialize()) == f, 'timeless-octets', 'a packet signed without a time serializes to other octets')
            must_accept(ctx, q, key, 'timeless')
            # signed by others, who may write the elements in another order and numbers in another width
            body2 = wire.other_order(rng, d['body'])
            alg = rng.choice([d['alg'], wire.other_order(rng, d['alg'])])
            f = wire.packet(body2, alg, wire.validation_payload(refcrypto.rsa_sign(key, body2 + alg)))
            try:
                q = Packet.deserialize(A(f))
            except Exception:
                ctx.count('others_refused')
            else:
                must_accept(ctx, q, key, 'other-order')
                ctx.count('others_verified')
                if body2 != d['body']:
                    must_reject(ctx, wire.packet(body2, d['alg'], wire.validation_payload(sig)), key, w, 'order')
            # another key's id with this key's signature, the own public key embedded: the id decides
            alg = wire.alg_rsa(refcrypto.keyid(other), refcrypto.public_der(key), None, 5)
            must_reject(ctx, wire.packet(d['body'], alg, wire.validation_payload(refcrypto.rsa_sign(key, d['body'] + alg))), other, w, 'key id')
        else:
            for data in (d['body'], d['alg'], d['alg'] + d['body'], w[:8] + d['body'] + d['alg']):
                f = wire.packet(d['body'], d['alg'], wire.validation_payload(refcrypto.crc32c(data).to_bytes(4, 'big')))
                must_reject(ctx, f, key, w, 'checksum')
        prev = (w, d, key)


def keys(ctx):
    """The key object itself: any split into buffers, PSS, other keys, altered data."""
    from cryptography.hazmat.primitives import hashes
    from cryptography.hazmat.primitives.asymmetric import padding
    from ccnpy.crypto.Crc32c import Crc32cSigner
    from ccnpy.crypto.RsaKey import RsaKey
    rng = ctx.rng
    data = rng.randbytes(rng.choice([0, 1, 63, 64, 65, 1000, 20000]))
    k = rng.choice(KEYS)
    key, pub = gen.rsa_key(k), RsaKey(gen.rsa_key(k).public_key_pem())
    cut = sorted(rng.randrange(len(data) + 1) for _ in range(rng.randrange(4)))
    parts = [data[a:b] for a, b in zip([0] + cut, cut + [len(data)])]
    if rng.random() < .5:
        parts = [A(x) for x in parts]
    with ctx.must_work('sign'):
        s = octets(key.sign(*parts))
        ps = octets(key.sign(*parts, use_pss_padding=True))
        crc = octets(Crc32cSigner().sign(*parts).payload())
    ctx.check(crc == refcrypto.crc32c(data).to_bytes(4, 'big'), 'crc', 'a checksum over several buffers is not the CRC32C of their octets')
    ctx.check(refcrypto.rsa_verify(k, data, s), 'rsa', 'a signature over several buffers does not verify independently')
    try:
        refcrypto.private(k).public_key().verify(ps, data, padding.PSS(padding.MGF1(hashes.SHA256()), padding.PSS.MAX_LENGTH), hashes.SHA256())
    except refcrypto.InvalidSignature:
        ctx.fail('pss', 'a PSS signature does not verify independently')
    for x in (key, pub):
        with ctx.must_work('verify'):
            r = [x.verify(*parts, signature=s), x.verify(data, signature=A(s)), x.verify(data, signature=ps, use_pss_padding=True),
                 x.verify(data, signature=ps), x.verify(data, signature=s, use_pss_padding=True),
                 x.verify(data + b'\0', signature=s), x.verify(*([data[:-1]] if data else [b'\0']), signature=s)]
        ctx.check(r == [True, True, True] + [False] * 4, 'verify', lambda: f'verify gives {r}')
        ctx.count('verified')
        for _ in range(4):
            t = alter(rng, s)
            if t != s:
                ctx.check(not x.verify(data, signature=t), 'altered-signature-verified', 'an altered signature verifies')
                ctx.count('alterations_rejected')
        for o in KEYS:
            if o != k:
                ctx.check(not gen.rsa_key(o).verify(data, signature=s), 'other-key-verified', 'a signature verifies with another key')
    try:
        pub.sign(data)
        ctx.fail('public-signs', 'a public key signs')
    except ValueError:
        pass
    ctx.distinct(s)


def trees(ctx):
    """Trees with signed roots; altered roots must stop the traversal before it writes anything."""
    from ccnpy.core.Packet import Packet
    from ccnpy.flic.tree.Traversal import Traversal
    rng = ctx.rng
    cfg = gen.rand_cfg(rng, top=4000)
    cfg['signer'] = rng.choice(['crc', 'rsa'])
    r = gen.Run(ctx, cfg)
    w = r.writer.log[-1][1]
    d = wire.dec_packet(w)
    ctx.check(d['sig'] is not None and independent(w), 'root-signature', 'the root manifest carries no good signature')
    ctx.check((d['sig']['alg'] == 'rsa') == (cfg['signer'] == 'rsa'), 'root-signer', 'the root was signed in another way')
    for _, x in r.writer.log[:-1]:
        ctx.check(wire.dec_packet(x)['sig'] is None, 'inner-signature', 'a packet below the root is signed')

    def read(root_octets, restrict=None):
        sink = gen.Sink()
        rd = handmade.DictReader(r.writer.store(), {tuple(cfg['name']): root_octets})
        try:
            Traversal(rd, sink, gen.keystore(cfg)).traverse(gen.name_obj(cfg['name']), restrict)
            return sink, None
        except Exception as e:
            return sink, e
    sink, e = read(w)
    ctx.check(e is None and sink.value() == r.data, 'good-root', lambda: f'a tree with a good signature is not read: {e!r}')
    ctx.count('verified')
    nb, na = len(d['body']), len(d['alg'])
    for what, lo, hi in (('body', 8, 8 + nb), ('algorithm', 8 + nb, 8 + nb + na), ('signature', 8 + nb + na, len(w))):
        for _ in range(4):
            x = alter(rng, w[lo + 4:hi])
            m = w[:hi - len(x)] + x + w[hi:]
            if m == w:
                continue
            try:
                p = Packet.deserialize(A(m))
                if octets(p.serialize())[8:] == w[8:] or p.validation_alg() is None:
                    continue
            except Exception:
                continue
            sink, e = read(m)
            ctx.check(e is not None, 'altered-root-read', f'a tree whose root has altered {what} is read', octets=m)
            ctx.check(not sink.writes, 'altered-root-octets', 'file octets were delivered under a root with a bad signature')
            ctx.count('tree_rejections')
    # signed by another key under the right key id
    if cfg['signer'] == 'rsa':
        m = wire.packet(d['body'], d['alg'], wire.validation_payload(refcrypto.rsa_sign('c2048' if cfg['signer_key'] == 'b1024' else 'b1024', d['body'] + d['alg'])))
        sink, e = read(m)
        ctx.check(e is not None and not sink.writes, 'other-signer-read', 'a tree whose root is signed by another key is read')
        ctx.count('tree_rejections')
    ctx.distinct(*r.shape())


def inner(ctx):
    """Trees made by hand, whose inner packets are signed; one of them badly."""
    from ccnpy.flic.tree.Traversal import Traversal
    rng = ctx.rng
    how = rng.choice(['crc', 'a1024'])
    store = {}

    def put(x):
        store[x[0]] = x[1]
        return x[0]
    sch = handmade.ncdef(1, handmade.schema('hashed', locs=[[(1, b'l')]]))
    chunks = [rng.randbytes(rng.randrange(1, 30)) for _ in range(6)]

    def tree(bad):
        store.clear()

        def spoil(x, n):
            h, w = x
            if n != bad:
                return x
            b = bytearray(w)
            b[-1] ^= 1 << rng.randrange(8)
            return handmade.digest(bytes(b)), bytes(b)
        leaf = [put(spoil(handmade.data(c, how=how), i)) for i, c in enumerate(chunks)]
        m1 = put(spoil(handmade.manifest(handmade.node([handmade.group(leaf[1:3], 1)]), how=how), 6))
        m2 = put(spoil(handmade.manifest(handmade.node([handmade.group(leaf[4:], 1)]), how=how), 7))
        top = put(spoil(handmade.manifest(handmade.node([handmade.group([leaf[0], m1, leaf[3], m2], 1)]), how=how), 8))
        return put(spoil(handmade.manifest(handmade.node([handmade.group([top], 1)], [sch]), [(1, b'r')], how=how), 9))

    from ccnpy.core.HashValue import HashValue
    for bad in [None] + list(range(10)):
        root = tree(bad)
        sink = gen.Sink()
        err = None
        try:
            Traversal(handmade.DictReader(store), sink, keystore()).traverse(gen.name_obj([(1, b'r')]), HashValue.create_sha256(root))
        except Exception as e:
            err = e
        if bad is None:
            ctx.check(err is None and sink.writes == chunks, 'good-inner', lambda: f'a tree of signed packets is not read: {err!r}')
            ctx.count('verified')
        else:
            ctx.check(err is not None, 'bad-inner-read', f'a tree is read in full though the signature of packet {bad} is bad')
            first = {0: 0, 1: 1, 2: 2, 3: 3, 4: 4, 5: 5, 6: 1, 7: 4, 8: 0, 9: 0}[bad]
            ctx.check(sink.writes == chunks[:first], 'bad-inner-octets', f'octets from under the bad packet {bad} were delivered')
            ctx.count('tree_rejections')
        ctx.distinct(root)


def factory(ctx):
    """Manifest packets made one by one, signed by any signer or none."""
    from ccnpy.core.Packet import Packet
    from ccnpy.crypto.Crc32c import Crc32cSigner
    from ccnpy.crypto.RsaSha256 import RsaSha256Signer
    from ccnpy.flic.ManifestFactory import ManifestFactory
    rng = ctx.rng
    cfg = gen.rand_cfg(rng, enc=False)
    cfg['mps'] = 5000
    with ctx.must_work('factory'):
        f = ManifestFactory(tree_options=gen.options(cfg))
    for _ in range(4):
        key = rng.choice(KEYS + ['crc', None])
        signer = None if key is None else Crc32cSigner() if key == 'crc' else RsaSha256Signer(gen.rsa_key(key))
        hs = [gen.rand_bytes(rng, 32) for _ in range(rng.randrange(1, 9))]
        from ccnpy.core.HashValue import HashValue
        from ccnpy.flic.tlvs.Pointers import Pointers
        with ctx.must_work('factory'):
            p = f.build_packet(source=Pointers([HashValue.create_sha256(h) for h in hs]), name=gen.name_obj(rng.choice([None, cfg['name']])), signer=signer)
            w = octets(p.serialize())
        ctx.distinct(w)
        d = wire.dec_packet(w)
        ctx.check((d['sig'] is None) == (key is None), 'factory-signed', 'a manifest packet is signed though no signer was given, or not signed though one was')
        if key is None:
            continue
        ctx.check(d['sig']['alg'] == ('crc32c' if key == 'crc' else 'rsa') and (key == 'crc' or d['sig']['keyid'] == refcrypto.keyid(key)),
                  'factory-signer', 'a manifest packet is signed by another signer than the one given')
        ctx.check(independent(w), 'factory-signature', 'the signature of a manifest packet does not verify independently', octets=w)
        must_accept(ctx, p, None if key == 'crc' else key, 'factory')
        must_accept(ctx, Packet.deserialize(A(w)), None if key == 'crc' else key, 'factory-reparsed')


KINDS = {'factory': (factory, 60, 1500), 'packets': (packets, 220, 8000), 'keys': (keys, 60, 1500), 'trees': (trees, 70, 2500), 'inner': (inner, 40, 800)}
