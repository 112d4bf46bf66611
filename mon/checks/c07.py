"""C07: a content object hash identifies exactly the object."""
import hashlib
import os
import random

from .. import gen, refcrypto, wire
from .c05 import A, container, octets, rand_num

PROPERTY = 'C07'
LEVEL = 'exploration'
RULE = ('A case draws packet values, builds the packet several times from different containers (bytes, arrays, lists, '
        'parsed octets, files), with other fixed headers, and with one value after the header changed by a little. The '
        'monitor compares every reported hash with SHA-256 of the octets after the header, and every equality and '
        'inequality, both ways round, with equality of the octets, also for names, name components and hash values, and '
        'against foreign objects. Distinct cases are distinct packet octets.')
MINIMUM = {'evaluations': 450, 'distinct': 1400, 'comparisons': 40000, 'near_misses': 5000, 'saved_and_loaded': 500, 'others_accepted': 300}


def rand_values(rng):
    kind = rng.choice(['data', 'data', 'manifest', 'link', 'key', 'bare'])
    v = {'name': gen.rand_name(rng, 0, 4) if rng.random() < .75 else None,
         'expiry': rng.choice([None, None, rng.randrange(1 << 42)]),
         'ptype': {'data': 0, 'manifest': 3, 'link': 2, 'key': 1, 'bare': None}[kind],
         'payload': None if rng.random() < .08 else rng.randbytes(rng.choice([rng.randrange(0, 60), rng.randrange(0, 60), rng.randrange(0, 9000)])),
         'fcid': rng.choice([None, None, rand_num(rng)]), 'alg': None}
    if kind == 'manifest':
        v['payload'] = wire.tlv(1, wire.hash_group(wire.group_data(ncid=1), wire.pointers([rng.randbytes(32)])))
    if kind == 'link':
        v['payload'] = wire.link_tuple(gen.rand_name(rng), rng.randbytes(32), rng.randbytes(32))
    r = rng.random()
    if r < .25:
        v['alg'], v['vp'] = ('crc',), rng.randbytes(rng.choice([4, 4, 4, 5, 300]))
    elif r < .6:
        v['alg'] = ('rsa', rng.randbytes(32), rng.choice([None, gen.rand_name(rng)]),
                    rng.randrange(1 << 42) if rng.random() < .9 else None)      # others may sign without a time
        v['vp'] = rng.randbytes(rng.choice([64, 128, 256, 256, 384, 512, 1024, rng.randrange(1, 3000)]))
    return v


def octets_of(v, fields=0, ptype=1):
    alg = vp = b''
    if v['alg'] is not None:
        alg = wire.alg_crc32c() if v['alg'][0] == 'crc' else wire.alg_rsa(
            v['alg'][1], None, None if v['alg'][2] is None else wire.link_tuple(v['alg'][2]), v['alg'][3])
        vp = wire.validation_payload(v['vp'])
    return wire.packet(wire.content_object(v['name'], v['expiry'], v['ptype'], v['payload'], v['fcid']), alg, vp)


def name_of(rng, comps):
    from ccnpy.core.Name import Name, NameComponent
    if comps is None:
        return None
    r = rng.random()
    if r < .3:
        from ccnpy.core.Tlv import Tlv
        return Name.parse(Tlv.deserialize(A(wire.name(comps))))
    n = Name([NameComponent(t, container(rng, b)) for t, b in comps[:max(0, len(comps) - 1)]])
    if comps:
        n = n.append(NameComponent(comps[-1][0], container(rng, comps[-1][1])))
    return n


def build(rng, v, header=None):
    """The packet object of the values, from containers chosen by rng."""
    from ccnpy.core.ContentObject import ContentObject
    from ccnpy.core.ExpiryTime import ExpiryTime
    from ccnpy.core.FinalChunkId import FinalChunkId
    from ccnpy.core.HashValue import HashValue
    from ccnpy.core.KeyLink import KeyLink
    from ccnpy.core.Link import Link
    from ccnpy.core.Packet import Packet
    from ccnpy.core.Payload import Payload
    from ccnpy.core.PayloadType import PayloadType
    from ccnpy.core.SignatureTime import SignatureTime
    from ccnpy.core.Tlv import Tlv
    from ccnpy.core.ValidationAlg import ValidationAlg, ValidationAlg_Crc32c, ValidationAlg_RsaSha256
    from ccnpy.core.ValidationPayload import ValidationPayload
    body = ContentObject(name=name_of(rng, v['name']),
                         payload_type=None if v['ptype'] is None else PayloadType(v['ptype']),
                         payload=None if v['payload'] is None else Payload(container(rng, v['payload'])),
                         expiry_time=None if v['expiry'] is None else ExpiryTime(v['expiry'] / 1000),
                         final_chunk_id=None if v['fcid'] is None else FinalChunkId(v['fcid']))
    alg = vp = None
    if v['alg'] is not None:
        if v['alg'][0] == 'crc':
            alg = ValidationAlg_Crc32c()
        else:
            _, k, l, t = v['alg']
            alg = ValidationAlg.parse(Tlv.deserialize(A(wire.alg_rsa(k, None, None if l is None else wire.link_tuple(l))))) if t is None else \
                ValidationAlg_RsaSha256(keyid=HashValue.create_sha256(container(rng, k)),
                                          key_link=None if l is None else KeyLink(Link(name=name_of(rng, l))),
                                          signature_time=SignatureTime(t / 1000))
        vp = ValidationPayload(container(rng, v['vp'], ('bytes', 'array', 'list')))
    if header is not None:
        return Packet(header, body, alg, vp)
    if alg is None:
        return Packet.create_content_object(body)
    return Packet.create_signed_content_object(body, alg, vp)


def near(rng, v):
    """The values with one small change after the fixed header."""
    w = dict(v)
    for _ in range(20):
        k = rng.randrange(9)
        if k == 0 and v['payload']:
            b = bytearray(v['payload'])
            b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
            w['payload'] = bytes(b)
        elif k == 1 and v['payload'] is not None:
            w['payload'] = v['payload'] + b'\0' if rng.random() < .5 or not v['payload'] else v['payload'][:-1]
        elif k == 2:
            w['name'] = None if v['name'] is not None and rng.random() < .3 else (v['name'] or []) + [(1, b'x')]
        elif k == 3 and v['name']:
            i = rng.randrange(len(v['name']))
            t, b = v['name'][i]
            w['name'] = v['name'][:i] + [({1: 2, 2: 1, 5: 0x10, 0x10: 5}.get(t, 1), b)] + v['name'][i + 1:]
        elif k == 4:
            w['expiry'] = rng.choice([0, 1]) if v['expiry'] is None else rng.choice([None, v['expiry'] + 1])
        elif k == 5:
            w['ptype'] = rng.choice([x for x in (None, 0, 1) if x != v['ptype']])
            if v['ptype'] in (2, 3) or v['payload'] is None:
                w['ptype'] = v['ptype']
        elif k == 6:
            w['fcid'] = rng.choice([0, 1, 256]) if v['fcid'] is None else rng.choice([None, v['fcid'] ^ 1])
        elif k == 7 and v['alg'] is not None:
            b = bytearray(v['vp'])
            b[rng.choice([0, len(b) - 1, rng.randrange(len(b)), rng.randrange(len(b))])] ^= 1 << rng.randrange(8)
            w['vp'] = bytes(b)
        elif k == 8:
            if v['alg'] is None:
                w['alg'], w['vp'] = ('crc',), bytes(4)
            elif v['alg'][0] == 'rsa':
                w['alg'] = ('rsa', v['alg'][1], v['alg'][2], rng.choice([0, 1]) if v['alg'][3] is None else rng.choice([None, v['alg'][3] ^ 1]))
            else:
                w['alg'] = None
        if octets_of(w)[8:] != octets_of(v)[8:]:
            return w
        w = dict(v)
    w['payload'] = (v['payload'] or b'') + b'!'
    return w


def compare(ctx, a, b, equal, what):
    with ctx.must_work('comparison'):
        got = [a == b, b == a, not (a != b), not (b != a)]
    ctx.count('comparisons', 4)
    ctx.check(got == [equal] * 4, f'{what}-equality',
              lambda: f'{what}: octets are {"equal" if equal else "different"}, but ==, reversed ==, not != and reversed '
                      f'not != are {got}')


def hash_of(p):
    return octets(p.content_object_hash().value())


def packets(ctx):
    from ccnpy.core.FixedHeader import FixedHeader
    from ccnpy.core.Packet import Packet
    rng = ctx.rng
    group = []
    for n in range(3):
        v = rand_values(rng)
        ctx.config = {k: repr(x)[:200] for k, x in v.items()}
        want = octets_of(v)
        h = hashlib.sha256(want[8:]).digest()
        ctx.distinct(want)
        with ctx.must_work('build'):
            objs = [build(rng, v) for _ in range(3)]
            objs.append(Packet.deserialize(A(want)))
            objs.append(Packet.deserialize(objs[0].serialize()))
            path = os.path.join(ctx.scratch(), f'p{n}')
            objs[1].save(path)
            on_disk = open(path, 'rb').read()
            objs.append(Packet.load(path))
            objs[-1].save(path)
            objs.append(Packet.load(path))
        ctx.count('saved_and_loaded')
        ctx.check(on_disk == want, 'saved-octets', 'a saved packet file holds other octets than the packet')
        for o in objs:
            ctx.check(octets(o.serialize()) == want, 'octets', 'the octets changed through building, saving, loading or reparsing')
            ctx.check(hash_of(o) == h, 'hash', 'the hash is not the SHA-256 of the octets after the fixed header')
            ctx.check(o.content_object_hash().hash_algorithm() == 1, 'hash-algorithm', 'the hash is not labelled SHA-256')
        for a in objs:
            for b in objs:
                compare(ctx, a, b, True, 'packet')
                compare(ctx, a.body(), b.body(), True, 'content object')
                compare(ctx, a.content_object_hash(), b.content_object_hash(), True, 'hash value')
                ctx.check(hash(a.content_object_hash()) == hash(b.content_object_hash()), 'hash-of-hash',
                          'equal hash values have different Python hashes')
                if v['name'] is not None:
                    compare(ctx, a.body().name(), b.body().name(), True, 'name')
                if v['alg'] is not None:
                    compare(ctx, a.validation_alg(), b.validation_alg(), True, 'validation algorithm')
                    compare(ctx, a.validation_payload(), b.validation_payload(), True, 'validation payload')
        # other fixed headers: another packet, the same hash
        for _ in range(2):
            fields = [rng.randrange(256) for _ in range(3)]
            plen = rng.choice([8, len(want), 65535, rng.randrange(8, 65536)])
            with ctx.must_work('other-header'):
                o = build(rng, v, FixedHeader(packet_type=1, packet_length=plen, fields=fields))
                ow = octets(o.serialize())
            ctx.check(ow[8:] == want[8:] and ow[:8] == bytes([1, 1]) + plen.to_bytes(2, 'big') + bytes(fields) + b'\x08',
                      'other-header-octets', 'a packet with its own fixed header has wrong octets')
            ctx.check(hash_of(o) == h, 'hash-header', 'the hash depends on the fixed header')
            compare(ctx, o, objs[0], ow == want, 'packet with another header')
            compare(ctx, o.content_object_hash(), objs[0].content_object_hash(), True, 'hash value')
        # neighbours: another hash
        for _ in range(5):
            w = near(rng, v)
            nw = octets_of(w)
            with ctx.must_work('near'):
                o = build(rng, w) if rng.random() < .5 else Packet.deserialize(A(nw))
            ctx.count('near_misses')
            ctx.check(octets(o.serialize()) == nw, 'octets', 'a packet has wrong octets')
            ctx.check(hash_of(o) == hashlib.sha256(nw[8:]).digest(), 'hash', 'the hash is not the SHA-256 of the octets after the fixed header')
            compare(ctx, o, objs[rng.randrange(len(objs))], False, 'packet')
            compare(ctx, o.body(), objs[0].body(), octets(o.body().serialize()) == octets(objs[0].body().serialize()), 'content object')
            compare(ctx, o.content_object_hash(), objs[0].content_object_hash(), False, 'hash value')
            if w['name'] is not None and v['name'] is not None:
                compare(ctx, o.body().name(), objs[0].body().name(), w['name'] == v['name'], 'name')
        for foreign in (None, 0, 'packet', want, A(want), [], object()):
            for x in (objs[0], objs[0].body(), objs[0].content_object_hash()) + ((objs[0].body().name(),) if v['name'] is not None else ()):
                with ctx.must_work('comparison'):
                    ctx.check((x == foreign) is False or (x == foreign) is NotImplemented, 'foreign-equality',
                              f'a {type(x).__name__} equals a {type(foreign).__name__}')
        group.append((want, objs[0]))
    for wa, a in group:
        for wb, b in group:
            compare(ctx, a, b, wa == wb, 'packet')


def others(ctx):
    """Packets another implementation may send: the elements in another order, numbers of another width."""
    from ccnpy.core.Packet import Packet
    rng = ctx.rng
    for n in range(4):
        v = rand_values(rng)
        base = octets_of(v)
        d = wire.dec_packet(base)
        seen = {}
        for _ in range(6):
            alg = d['alg'] and (wire.other_order(rng, d['alg']) if rng.random() < .5 else d['alg'])
            w = wire.packet(wire.other_order(rng, d['body']), alg or b'', wire.validation_payload(d['vpayload']) if d['alg'] else b'')
            ctx.config = {'octets': w.hex()[:2000]}
            try:
                p = Packet.deserialize(A(w))
            except Exception:
                ctx.count('others_refused')
                continue
            ctx.count('others_accepted' if w != base else 'others_same')
            ctx.distinct(w)
            with ctx.must_work('other'):
                path = os.path.join(ctx.scratch(), 'o')
                p.save(path)
                on_disk = open(path, 'rb').read()
                q = Packet.load(path)
            for x in (p, q):
                ctx.check(octets(x.serialize()) == w == on_disk, 'other-octets', 'a packet of another implementation is saved or sent on with other octets')
                ctx.check(hash_of(x) == hashlib.sha256(w[8:]).digest(), 'other-hash', 'the hash of a packet of another implementation is not the SHA-256 of its octets')
                ctx.check(len(x) == len(w) and len(x.body()) == len(octets(x.body().serialize())), 'other-length', 'the length is not that of the octets')
            compare(ctx, p, q, True, 'packet')
            for ow, o in seen.items():
                compare(ctx, p, o, ow == w, 'packet')
                compare(ctx, p.body(), o.body(), octets(p.body().serialize()) == octets(o.body().serialize()), 'content object')
                compare(ctx, p.content_object_hash(), o.content_object_hash(), ow == w, 'hash value')
            seen[w] = p


def names(ctx):
    """Names, name components and hash values that nearly agree."""
    from ccnpy.core.HashValue import HashValue
    from ccnpy.core.Name import NameComponent
    rng = ctx.rng
    base = gen.rand_name(rng, 1, 4) or [(1, b'')]
    var = [base, list(base), base[:-1], base + [(1, b'')], base + [base[-1]], list(reversed(base)), [(base[0][0], base[0][1] + b'\0')] + base[1:],
           [(2 if base[0][0] == 1 else 1, base[0][1])] + base[1:],
           base[:-1] + [(base[-1][0], base[-1][1][:1]), (base[-1][0], base[-1][1][1:])],
           [(base[0][0], b''.join(v for _, v in base))], []]
    objs = [(wire.name(c), name_of(rng, c)) for c in var + var]
    for wa, a in objs:
        ctx.check(octets(a.serialize()) == wa and len(a) == len(wa), 'name-octets', 'a name has wrong octets')
        ctx.distinct(wa)
        for wb, b in objs:
            compare(ctx, a, b, wa == wb, 'name')
            ctx.count('near_misses', wa != wb)
    comps = []
    for c in var:
        for t, v in c:
            o = NameComponent(t, container(rng, v))
            comps.append((wire.tlv(t, v), o))
    comps = comps[:24]
    for wa, a in comps:
        for wb, b in comps:
            compare(ctx, a, b, wa == wb, 'name component')
            if wa == wb:
                ctx.check(hash(a) == hash(b), 'component-hash', 'equal name components have different Python hashes')
    d = rng.randbytes(32)
    hv = []
    for x in (d, d[:-1] + bytes([d[-1] ^ 1]), bytes([d[0] ^ 0x80]) + d[1:], d[:31], d + b'\0', b''):
        for alg in (1, 2):
            for _ in range(2):
                hv.append((wire.tlv(alg, x), HashValue(alg, container(rng, x))))
    for wa, a in hv:
        for wb, b in hv:
            compare(ctx, a, b, wa == wb, 'hash value')
            if wa == wb:
                ctx.check(hash(a) == hash(b), 'hash-of-hash', 'equal hash values have different Python hashes')
    ctx.check(len({o for _, o in hv}) == len({w for w, _ in hv}), 'hash-set', 'a set of hash values merges or splits them')


def trees(ctx):
    """Every packet of a tree: reported hash, reloaded hash."""
    from ccnpy.core.Packet import Packet
    r = gen.Run(ctx, gen.rand_cfg(ctx.rng, top=5000))
    by_hash = {}
    for (h, w), p in zip(r.writer.log, r.writer.packets):
        ctx.check(hashlib.sha256(w[8:]).digest() == h, 'hash', 'a tree packet reports a hash that is not that of its octets')
        ctx.check(hash_of(p) == h, 'hash-later', 'a tree packet reports another hash later on')
        ctx.check(by_hash.setdefault(h, w) == w, 'collision', 'two different packets have the same hash')
    for h, w in by_hash.items():
        path = os.path.join(ctx.scratch(), 'p')
        with ctx.must_work('reload'):
            p = Packet.deserialize(A(w))
            p.save(path)
            q = Packet.load(path)
        ctx.check(hash_of(p) == h and hash_of(q) == h and octets(q.serialize()) == w, 'hash', 'the hash changed through reparsing, saving and loading')
        ctx.count('saved_and_loaded')
    ctx.distinct(*r.shape())


KINDS = {'packets': (packets, 330, 12000), 'names': (names, 60, 1500), 'trees': (trees, 80, 2500), 'others': (others, 60, 2000)}
