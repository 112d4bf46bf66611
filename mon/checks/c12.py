"""C12: a wrapped content key opens with the right private key and context only."""
from .. import gen, handmade, refcrypto, wire
from .c05 import A, octets
from .c09 import Reader, build, encrypt, rand_params, sec_build, sec_fields, small_node

PROPERTY = 'C12'
LEVEL = 'exploration'
RULE = ('A case builds trees and manifests in RSA-OAEP mode with the real library and opens the wrapped key with an '
        'independent implementation of the published construction; makes wrapped keys and encrypted manifests by hand '
        'that the library must open; and puts in faults: other private keys, public keys only, altered wrapped keys, and '
        'contexts with another key number, mode or derivation information under which the node was encrypted again, so '
        'that only the wrapping can tell. Distinct cases are distinct wrapped keys and altered ones.')
MINIMUM = {'evaluations': 300, 'distinct': 2500, 'unwrapped_independently': 200, 'opened_by_library': 350,
           'unwrap_faults': 3500, 'trees': 110, 'context_faults': 1200, 'encrypted_again': 200}

RSA = ['a1024', 'b1024', 'c2048']


def keystore(*keys):
    from ccnpy.crypto.InsecureKeystore import InsecureKeystore
    ks = InsecureKeystore()
    for i, k in enumerate(keys):
        ks.add_rsa_key(f'k{i}', gen.rsa_key(k) if isinstance(k, str) else k)
    return ks


def public_only(n):
    from ccnpy.crypto.RsaKey import RsaKey
    return RsaKey(gen.rsa_key(n).public_key_pem())


def make_encryptor(ctx, e, public=False):
    from ccnpy.flic.RsaOaepCtx.RsaOaepEncryptor import RsaOaepEncryptor
    with ctx.must_work('setup'):
        k = public_only(e['rsa']) if public else gen.rsa_key(e['rsa'])
        if e.get('generated'):
            return RsaOaepEncryptor.create_with_new_content_key(wrapping_key=k, kdf_data=gen.aead_params(e).kdf_data)
        return RsaOaepEncryptor(wrapping_key=k, params=gen.aead_params(e))


def independent(ctx, e, c):
    """Open the wrapped key of a decoded context -> (salt, key)"""
    ctx.check(c['kind'] == 'oaep', 'context-kind', 'the security context is not RSA-OAEP')
    ctx.check(c['keyid'] == refcrypto.keyid(e['rsa']), 'keyid', 'the wrapper names another key than the wrapping key')
    ctx.check(c['hashalg_raw'] == wire.tlv(3, b'\1'), 'hashalg', 'the wrapper does not say SHA-256')
    x = refcrypto.unwrap(e['rsa'], c)
    ctx.check(x is not None, 'wrap-spec', 'an independent implementation of the published wrapping cannot open the key')
    if not e.get('generated'):
        ctx.check(x[1] == e['key'], 'wrapped-key', 'another key than the content key is wrapped')
        ctx.check(e['salt'] is None or x[0] == e['salt'], 'wrapped-salt', 'another salt than the configured one is wrapped')
    ctx.count('unwrapped_independently')
    return x


def trees(ctx):
    from ccnpy.core.HashValue import HashValue
    from ccnpy.flic.tree.Traversal import Traversal
    rng = ctx.rng
    cfg = gen.rand_cfg(rng, top=4000)
    cfg['signer_key'] = None
    e = cfg['enc'] = rand_params(rng, 'oaep')
    e['rsa'] = rng.choice(RSA)
    if rng.random() < .3:
        e.update(generated=True, salt=None, alg='GCM')
    cfg['mps'] += 560
    if rng.random() < .4:
        cfg['size'], cfg['degree'] = cfg['mps'] * rng.randrange(3, 25), rng.choice([2, 3, 5])
    enc = make_encryptor(ctx, e, public=rng.random() < .4)
    r = gen.Run(ctx, cfg, enc=enc)
    n = 0
    for h, w in r.writer.log:
        p = wire.dec_packet(w)
        if not p['is_manifest']:
            continue
        n += 1
        c = wire.dec_manifest(p['payload'])['ctx']
        ctx.check(c is not None and c['kind'] == 'oaep', 'context-kind', 'a manifest is not in RSA-OAEP mode')
        has = [c['wrapped'] is not None, c['keyid'] is not None, c['hashalg_raw'] is not None]
        if h == r.root_hash:
            ctx.check(all(has), 'root-wrapper', 'the root does not carry the wrapped key')
            independent(ctx, e, c)
            ctx.distinct(c['wrapped'])
        else:
            ctx.check(not any(has), 'inner-wrapper', 'a manifest below the root carries the wrapped key')
    wires = [w for _, w in r.writer.log]
    name = gen.name_obj(cfg['name'])
    hv = r.root.content_object_hash()

    def read(ks):
        sink = gen.Sink()
        try:
            Traversal(gen.memory_reader(wires), sink, ks).traverse(name, hv)
        except Exception as ex:
            ctx.seen('rejected_by', type(ex).__name__)
            return sink, ex
        return sink, None
    signers = ['a1024'] if cfg['signer'] == 'rsa' else []
    others = [k for k in RSA if k != e['rsa']]
    good = [keystore(e['rsa'], *signers), keystore(*signers, e['rsa'], *others), keystore(*others, e['rsa'])]
    if 'a1024' == e['rsa']:
        good = good[:1] + good[2:]
    for ks in good + good[:1]:      # the last one a second time, with the key now known
        sink, err = read(ks)
        if err is not None:
            raise err
        ctx.check(sink.value() == r.data, 'wrong-file', 'a reader with the private key gets another file')
        ctx.count('opened_by_library')
    bad = [keystore(*[public_only(k) if k == e['rsa'] else k for k in RSA]), keystore(*others, public_only('a1024')), keystore()]
    for ks in bad:
        sink, err = read(ks)
        ctx.check(err is not None, 'wrong-reader', 'a reader without the private key reads a tree')
        ctx.check(not sink.writes, 'wrong-reader-octets', 'a reader without the private key gets octets of the file')
        ctx.count('unwrap_faults')
    ctx.count('trees')
    ctx.distinct(*r.shape())
    ctx.sample({'manifests': n, 'rsa': e['rsa'], 'generated': bool(e.get('generated'))})


def aead_data(c_kd, num, nonce, mode):
    from ccnpy.flic.aeadctx.AeadData import AeadData
    from ccnpy.flic.tlvs.AeadMode import AeadMode
    return AeadData(key_number=num, nonce=nonce, mode=AeadMode(mode), kdf_data=c_kd)


def kdf_data(alg, info):
    from ccnpy.flic.tlvs.KdfAlg import KdfAlg
    from ccnpy.flic.tlvs.KdfData import KdfData
    from ccnpy.flic.tlvs.KdfInfo import KdfInfo
    return None if alg is None else KdfData(KdfAlg(alg), None if info is None else KdfInfo(info))


def wrapped(ctx):
    """The wrapped key element alone, altered in every octet and opened under every wrong context."""
    from array import array
    from ccnpy.flic.RsaOaepCtx.WrappedKey import WrappedKey
    rng = ctx.rng
    e = rand_params(rng, 'oaep')
    e['rsa'] = rng.choice(['a1024', 'a1024', 'b1024', 'c2048'])
    if e['salt'] is None:
        e['salt'] = rng.randrange(1 << 32)
    ctx.config = e
    mode = refcrypto.mode_number(e['alg'], len(e['key']))
    info = e['kdf_info'] if e['kdf'] else None
    label = (b'FLIC RSA-OAEP' + wire.tlv(0, wire.varint(e['num'])) + wire.tlv(2, bytes([mode])) +
             (b'' if info is None else wire.tlv(7, info)) + wire.tlv(9, wire.hash_value(refcrypto.keyid(e['rsa']))) +
             wire.tlv(3, b'\1'))
    secret = e['salt'].to_bytes(4, 'big') + e['key']
    with ctx.must_work('wrap'):
        if rng.random() < .3:
            wk = WrappedKey.create(wrapping_key=public_only(e['rsa']), params=gen.aead_params(e))
        else:
            wk = WrappedKey.create(wrapping_key=gen.rsa_key(e['rsa']), params=gen.aead_params(e))
        value = octets(wk.value())
    ctx.distinct(value)
    ctx.check(refcrypto.oaep_decrypt(e['rsa'], value, label) == secret, 'wrap-spec', 'an independent implementation does not open the wrapped key')
    ctx.count('unwrapped_independently')
    nonce = A(rng.randbytes(8))
    priv = gen.rsa_key(e['rsa'])
    right = aead_data(kdf_data(e['kdf'], info), e['num'], nonce, mode)

    def library(v, key=priv, data=right):
        salt, k = WrappedKey(A(v)).decrypt(wrapping_key=key, aead_data=data)
        return salt, octets(k)
    mine = refcrypto.oaep_encrypt(e['rsa'], secret, label)
    for v in (value, mine):
        with ctx.must_work('unwrap'):
            got = library(v)
        ctx.check(got == (e['salt'], e['key']), 'unwrap', 'a wrapped key opens to another key or salt', got=repr(got))
        ctx.count('opened_by_library')

    def must_fail(what, v=value, key=priv, data=right):
        ctx.distinct(what, v, repr(data))
        try:
            got = library(v, key, data)
        except Exception as ex:
            ctx.seen('rejected_by', type(ex).__name__)
            ctx.count('unwrap_faults')
            return
        ctx.fail(f'{what}-unwraps', f'a wrapped key opens with {what}', got=repr(got))
    for i in range(0, len(value), 1 if ctx.thorough else 3):
        b = bytearray(value)
        b[(i + ctx.index) % len(value)] ^= 1 << rng.randrange(8)
        must_fail('an altered octet', bytes(b))
    must_fail('a truncated wrapped key', value[:-1])
    must_fail('an extended wrapped key', value + b'\0')
    must_fail('a wrapped key of zeros', bytes(len(value)))
    must_fail('the plain key', secret.rjust(len(value), b'\0'))
    for k in RSA:
        if k != e['rsa']:
            must_fail('another private key', key=gen.rsa_key(k))
    must_fail('the public key', key=public_only(e['rsa']))
    for num in {0, 1, e['num'] + 1, e['num'] ^ 0x100} - {e['num']}:
        if num < 1 << 64:
            must_fail('another key number', data=aead_data(kdf_data(e['kdf'], info), num, nonce, mode))
    for m in {1, 2, 3, 4} - {mode}:
        must_fail('another mode', data=aead_data(kdf_data(e['kdf'], info), e['num'], nonce, m))
    for i in (None, b'', b'other', (info or b'') + b'x', rng.randbytes(7)):
        if i != info:
            must_fail('another derivation information', data=aead_data(kdf_data(e['kdf'] or 1, i), e['num'], nonce, mode)) \
                if i is not None or e['kdf'] else None
    # wrapped for a wrong label, or with none
    for bad in (b'', label + b'\0', label[:-1], label.replace(b'OAEP', b'oaep'), label[4:]):
        must_fail('a wrong label', refcrypto.oaep_encrypt(e['rsa'], secret, bad))


def again(ctx, rng, e, m):
    """Who has opened a manifest can encrypt others under the same wrapped key."""
    from ccnpy.crypto.InsecureKeystore import InsecureKeystore
    from ccnpy.flic.RsaOaepCtx.RsaOaepImpl import RsaOaepImpl
    from ccnpy.flic.tlvs.Manifest import Manifest
    ks = InsecureKeystore()
    ks.add_rsa_key('k', gen.rsa_key(e['rsa']))
    node, _ = small_node(rng)
    plain = octets(node.serialized_value())
    nonces = {wire.dec_manifest(m)['ctx']['nonce']}
    for include in rng.sample([True, False, None], 3):
        with ctx.must_work('again'):
            impl = RsaOaepImpl.create(ks, Manifest.deserialize(A(m)).security_ctx())
            new = impl.create_encrypted_manifest(node, include_wrapper=include) if include is not None else impl.create_encrypted_manifest(node)
            w = octets(new.serialize())
        old, d = wire.dec_manifest(m)['ctx'], wire.dec_manifest(w)['ctx']
        same = all(d[k] == old[k] for k in ('wrapped', 'keyid', 'hashalg_raw'))
        ctx.check(same if include else d['wrapped'] is None and d['keyid'] is None and d['hashalg_raw'] is None, 'again-wrapper', 'a manifest made with an opened key carries another wrapped key than asked for', manifest=w)
        ctx.check((d['keynum'], d['mode']) == (old['keynum'], old['mode']) and d['nonce'] not in nonces, 'again-context', 'a manifest made with an opened key states another key number or mode, or an old nonce', manifest=w)
        nonces.add(d['nonce'])
        for first in (True, False) if include else (False,):
            rd = Reader(e)
            with ctx.must_work('again-open'):
                if not first:
                    rd.open(m)
                got = rd.open(w)
            ctx.check(got == plain, 'again-opens', 'a manifest made with an opened key opens to another node', manifest=w)
            ctx.count('opened_by_library')
        ctx.count('encrypted_again')


def handmade_manifests(ctx):
    """Manifests encrypted by an independent implementation, right and wrong."""
    rng = ctx.rng
    e = rand_params(rng, 'oaep')
    e['rsa'] = rng.choice(['a1024', 'a1024', 'c2048'])
    if e['salt'] is None:
        e['salt'] = rng.randrange(1 << 32)
    ctx.config = e
    node, _ = small_node(rng)
    plain = octets(node.serialized_value())
    mode = refcrypto.mode_number(e['alg'], len(e['key']))

    def make(num=e['num'], mode=mode, kdf=e['kdf'], info=e['kdf_info'] if e['kdf'] else None, wrap_num=None, wrap_mode=None,
             wrap_info=False, rsa=e['rsa'], key=e['key'], wrapper=True, say=None):
        """A manifest encrypted correctly under its context, whose wrapped key may be for another context."""
        kd = b'' if kdf is None else wire.tlv(5, wire.tlv(6, bytes([kdf])) + (b'' if info is None else wire.tlv(7, info)))
        base = wire.tlv(0, wire.varint(num)) + wire.tlv(1, rng.randbytes(8)) + wire.tlv(2, bytes([mode])) + kd
        wn, wm = num if wrap_num is None else wrap_num, mode if wrap_mode is None else wrap_mode
        wi = info if wrap_info is False else wrap_info
        keyid = wire.tlv(9, wire.hash_value(refcrypto.keyid(say or rsa)))
        label = (b'FLIC RSA-OAEP' + wire.tlv(0, wire.varint(wn)) + wire.tlv(2, bytes([wm])) +
                 (b'' if wi is None else wire.tlv(7, wi)) + keyid + wire.tlv(3, b'\1'))
        wk = refcrypto.oaep_encrypt(rsa, e['salt'].to_bytes(4, 'big') + key, label)
        sec = wire.tlv(0, wire.tlv(1, base + (keyid + wire.tlv(3, b'\1') + wire.tlv(4, wk) if wrapper else b'')))
        c = wire.dec_security_ctx(wire.tlvs(sec)[0][1])
        ck = refcrypto.content_key(c, key)
        cipher, tag = refcrypto.aead_encrypt(mode, ck, e['salt'].to_bytes(4, 'big') + c['nonce'], plain, sec)
        return sec + wire.tlv(2, cipher) + wire.tlv(3, tag)
    m = make()
    ctx.distinct(m)
    rd = Reader(e)
    for r in (rd, rd, Reader(e)):
        with ctx.must_work('open-handmade'):
            got = r.open(m)
        ctx.check(got == plain, 'handmade', 'a manifest encrypted to the published construction opens to another node', manifest=m)
        ctx.count('opened_by_library')
    # without a wrapper: only after the root has been read
    m2 = make(wrapper=False)
    with ctx.must_work('open-handmade'):
        got = rd.open(m2)
    ctx.check(got == plain, 'handmade', 'a manifest without wrapper does not open after the root')
    again(ctx, rng, e, m)

    def must_fail(what, bad):
        ctx.distinct(bad)
        try:
            got = Reader(e).open(bad)
        except Exception as ex:
            ctx.seen('rejected_by', type(ex).__name__)
            ctx.count('context_faults')
            return
        ctx.fail(f'{what.replace(" ", "-")}-opens', f'a manifest opens although its key was wrapped for {what}', manifest=bad)
    must_fail('no reader', make(wrapper=False))
    for num in {0, 1, e['num'] + 1, e['num'] ^ 0x80} - {e['num']}:
        if num < 1 << 64:
            must_fail('another key number', make(num=num, wrap_num=e['num']))
            must_fail('another key number', make(wrap_num=num))
    same_len = {16: (1, 3), 32: (2, 4)}[len(e['key'])]
    for wm in {1, 2, 3, 4} - {mode}:
        must_fail('another mode', make(wrap_mode=wm))
        if wm in same_len:
            must_fail('another mode', make(mode=wm, wrap_mode=mode))
    if e['kdf']:
        for wi in (None, b'', b'other', (e['kdf_info'] or b'') + b'\0'):
            if wi != e['kdf_info']:
                must_fail('another derivation information', make(wrap_info=wi))
                must_fail('another derivation information', make(info=wi, wrap_info=e['kdf_info']))
    else:
        must_fail('another derivation information', make(wrap_info=b'x'))
        must_fail('another derivation information', make(kdf=1, info=b'x', wrap_info=None))
    for k in RSA:
        if k != e['rsa']:
            must_fail('another private key', make(rsa=k))
            must_fail('another private key', make(rsa=k, say=e['rsa']))
    # a key whose length is not that of the mode
    other = e['key'] * 2 if len(e['key']) == 16 else e['key'][:16]
    d = wire.dec_manifest(m)
    label = refcrypto.oaep_label(d['ctx'])
    t, fs = sec_fields(d)
    for bad in (other, b'', e['key'][:-1], e['key'] + b'\0'):
        wk = refcrypto.oaep_encrypt(e['rsa'], e['salt'].to_bytes(4, 'big') + bad, label)
        sec = sec_build(t, [(a, wk if a == 4 else b) for a, b in fs])
        must_fail('a key of another length', build(dict(d, sec=sec)))


KINDS = {'trees': (trees, 120, 2500), 'wrapped': (wrapped, 110, 2500), 'handmade': (handmade_manifests, 90, 2500)}
