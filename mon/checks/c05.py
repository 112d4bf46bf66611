"""C05: the wire format is exact in both directions."""
import random
import uuid
from array import array

from .. import gen, refcrypto, wire

PROPERTY = 'C05'
LEVEL = 'exploration'
RULE = ('A case builds random elements of every class of the wire format with the real library, next to the octets an '
        'independent encoder prescribes for the same values, and compares: serialized octets, reported length, equality '
        'of the parsed object with the built one, its field values, and the octets of the parsed object. Distinct cases '
        'are distinct prescribed octet strings.')
MINIMUM = {'evaluations': 500, 'distinct': 10000, 'elements': 10000, 'packets_both_ways': 500,
           'signed_packets': 60, 'compared': 10000}


def A(b):
    return array('B', bytes(b))


def container(rng, b, kinds=('bytes', 'array', 'list')):
    k = rng.choice(kinds)
    return bytes(b) if k == 'bytes' else A(b) if k == 'array' else list(b)


def as_text(rng, b):
    """Octet strings may be given as text too: in hex with 0x, or as themselves."""
    if rng.random() < .3:
        t = rng.choice(TEXTS)
        return t, t.encode()
    if rng.random() < .15:
        h = b.hex()
        return '0x' + (h.upper() if rng.random() < .3 else h), b
    return container(rng, b), b


TEXTS = ['', ' ', 'a', ' a', 'a ', 'FLIC\n', '\ta', 'A', '0', '0X12', '12ab', 'a\0', '\0', 'x' * 300, '\u00e9\u6587', 'a\u0301', '%41', "b'x'", 'None']


def rand_num(rng):
    e = rng.choice([1, 1, 2, 3, 4, 5, 6, 7, 8]) * 8
    return rng.choice([0, 1, 255, 256, 65535, 65536, (1 << 24) - 1, 1 << 24, (1 << 32) - 1, 1 << 32, (1 << 53) + 1,
                       (1 << e) - 1, rng.randrange(1 << e), rng.randrange(256)])


def octets(x):
    """The octets of whatever container a getter returns."""
    if isinstance(x, (bytes, bytearray)):
        return bytes(x)
    if isinstance(x, array):
        return x.tobytes()
    if isinstance(x, list):
        return bytes(x)
    return bytes(x)


def ser(x):
    """The octets of an optional element."""
    return None if x is None else octets(x.serialize())


def val(x):
    return None if x is None else x.value()


class E:
    """An element: the object, its prescribed octets, how to parse it, and what its fields must be."""

    def __init__(self, kind, obj, want, parse=None, fields=(), eq=True, length=True):
        self.kind, self.obj, self.want, self.parse, self.fields, self.eq, self.length = kind, obj, want, parse, fields, eq, length


def tlvparse(cls):
    from ccnpy.core.Tlv import Tlv
    return lambda b: cls.parse(Tlv.deserialize(A(b)))


def e_number(rng, module, name, t, getter):
    import importlib
    cls = getattr(importlib.import_module(module), name)
    n = rand_num(rng)
    return E(name, cls(n), wire.tlv(t, wire.varint(n)), tlvparse(cls), [(lambda o: getattr(o, getter)(), n)] if getter else [])


def e_octets(rng, module, name, t, lo=0, hi=60):
    import importlib
    cls = getattr(importlib.import_module(module), name)
    b = rng.randbytes(rng.randrange(lo, hi))
    given, b = as_text(rng, b) if lo == 0 else (container(rng, b), b)
    return E(name, cls(given), wire.tlv(t, b), tlvparse(cls), [(lambda o: octets(o.value()), b)])


def hv(rng):
    from ccnpy.core.HashValue import HashValue
    if rng.random() < .8:
        d = rng.randbytes(32)
        return HashValue.create_sha256(container(rng, d)), wire.tlv(1, d), 1, d
    d = rng.randbytes(64)
    return HashValue(2, container(rng, d)), wire.tlv(2, d), 2, d


def e_hash(rng):
    from ccnpy.core.HashValue import HashValue
    o, w, alg, d = hv(rng)
    return E('HashValue', o, w, lambda b: HashValue.deserialize(A(b)),
             [(lambda o: o.hash_algorithm(), alg), (lambda o: octets(o.value()), d)])


def e_hashtlv(rng, module, name, t):
    import importlib
    cls = getattr(importlib.import_module(module), name)
    o, w, alg, d = hv(rng)
    return E(name, cls(o), wire.tlv(t, w), tlvparse(cls), [(lambda o: octets(o.digest().value()), d)])


def rname(rng):
    from ccnpy.core.Name import Name, NameComponent
    comps = gen.rand_name(rng, 0, 5)
    objs = []
    for t, v in comps:
        if t == 1 and rng.random() < .5:
            objs.append(NameComponent.create_name_segment(container(rng, v)))
        elif t == 2 and rng.random() < .5:
            objs.append(NameComponent.create_ipid_segment(container(rng, v)))
        else:
            objs.append(NameComponent(t, container(rng, v)))
    r = rng.random()
    if r < .1:
        n = rand_num(rng)
        objs.append(NameComponent.create_chunk_segment(n))
        comps.append((5, wire.varint(n)))
    elif r < .2:
        n = rand_num(rng)
        objs.append(NameComponent.create_manifest_id(n))
        comps.append((0x10, wire.varint(n)))
    o = Name(objs) if objs or rng.random() < .3 else Name()
    if r > .9:
        n = rand_num(rng)
        o = o.append_chunk_id(n) if rng.random() < .5 else o.append_manifest_id(n)
        comps.append((5 if o.component(o.count() - 1).is_chunk_id_segment() else 0x10, wire.varint(n)))
    return o, comps


def e_name(rng):
    from ccnpy.core.Name import Name
    o, comps = rname(rng)
    return E('Name', o, wire.name(comps), tlvparse(Name),
             [(lambda o: o.count(), len(comps)),
              (lambda o: [(o.component(i).type(), octets(o.component(i).value())) for i in range(o.count())], comps),
              (lambda o: [(o.component(i).is_name_segment(), o.component(i).is_chunk_id_segment(),
                           o.component(i).is_manifest_id_segment()) for i in range(o.count())],
               [(t == 1, t == 5, t == 0x10) for t, _ in comps])])


def rlink(rng, need_name=False):
    from ccnpy.core.Link import Link
    nm = rname(rng) if need_name or rng.random() < .8 else None
    k = hv(rng) if rng.random() < .4 else None
    d = hv(rng) if rng.random() < .4 else None
    given = nm and nm[0]
    if rng.random() < .15:
        # a name may be given as its text
        parts = [''.join(rng.choice('abcxyz.-_09~!') for _ in range(rng.randrange(1, 9))) + 'n' for _ in range(rng.randrange(1, 4))]
        nm, given = (None, [(1, p.encode()) for p in parts]), 'ccnx:/' + '/'.join(parts)
    o = Link(name=given, keyid=k and k[0], digest=d and d[0])
    w = (wire.name(nm[1]) if nm else b'') + (wire.tlv(2, k[1]) if k else b'') + (wire.tlv(3, d[1]) if d else b'')
    return o, w, nm, k, d


def e_link(rng):
    from ccnpy.core.Link import Link
    o, w, nm, k, d = rlink(rng)
    return E('Link', o, w, lambda b: Link.deserialize(A(b)),
             [(lambda o: ser(o.name()), nm and wire.name(nm[1])), (lambda o: ser(o.keyid()), k and k[1]),
              (lambda o: ser(o.digest()), d and d[1]), (lambda o: bytes(iter(o)), w)])


def e_keylink(rng):
    from ccnpy.core.KeyLink import KeyLink
    o, w, *_ = rlink(rng)
    return E('KeyLink', KeyLink(o), wire.tlv(0xE, w), tlvparse(KeyLink))


def rlocators(rng):
    from ccnpy.flic.tlvs.Locator import Locator
    from ccnpy.flic.tlvs.Locators import Locators
    ls = [rlink(rng, True) for _ in range(rng.randrange(1, 4))]
    return Locators([Locator(l[0]) for l in ls]), wire.tlv(6, b''.join(wire.tlv(0xD, l[1]) for l in ls)), ls


def e_locators(rng):
    from ccnpy.flic.tlvs.Locators import Locators
    o, w, ls = rlocators(rng)
    return E('Locators', o, w, tlvparse(Locators),
             [(lambda o: o.count(), len(ls)), (lambda o: [octets(x.name().serialize()) for x in o], [wire.name(l[2][1]) for l in ls]),
              (lambda o: [ser(o[i]) for i in range(len(ls))], [wire.tlv(0xD, l[1]) for l in ls])])


def e_locator(rng):
    """Locators made by every way there is."""
    from ccnpy.flic.tlvs.Locator import Locator
    from ccnpy.flic.tlvs.Locators import Locators
    if rng.random() < .5:
        comps = [bytes(rng.choice(b'abcxyz0189') for _ in range(rng.randrange(1, 9))) for _ in range(rng.randrange(1, 4))]
        uri, w = 'ccnx:/' + b'/'.join(comps).decode(), wire.name([(1, c) for c in comps])
        if rng.random() < .5:
            return E('Locator', Locator.from_uri(uri), wire.tlv(0xD, w), tlvparse(Locator), [(lambda o: ser(o.name()), w)])
        return E('Locators', Locators.from_uri(uri), wire.tlv(6, wire.tlv(0xD, w)), tlvparse(Locators),
                 [(lambda o: [ser(x.name()) for x in o], [w])])
    nm = rname(rng)
    w = wire.name(nm[1])
    if rng.random() < .5:
        return E('Locator', Locator.from_name(nm[0]), wire.tlv(0xD, w), tlvparse(Locator), [(lambda o: ser(o.name()), w)])
    return E('Locators', Locators.from_name(nm[0]), wire.tlv(6, wire.tlv(0xD, w)), tlvparse(Locators),
             [(lambda o: [ser(x.name()) for x in o], [w])])


def rtime(rng):
    return rng.choice([0, 1, 999, 1000, 253402300799999, rng.randrange(1 << 41), rng.randrange(1 << 32) * 1000,
                       rng.randrange(253402300800000)])


def e_time(rng, name, t):
    import importlib
    from datetime import datetime, timedelta, timezone
    cls = getattr(importlib.import_module('ccnpy.core.' + name), name)
    ms = rtime(rng)
    if rng.random() < .4 and ms < 250000000000000:
        tz = timezone(timedelta(hours=rng.randrange(-11, 12)))
        dt = (datetime(1970, 1, 1, tzinfo=timezone.utc) + timedelta(milliseconds=ms)).astimezone(tz)
        o = cls.from_datetime(dt)
    else:
        o = cls(ms / 1000)
    return E(name, o, wire.tlv(t, wire.u64(ms)), tlvparse(cls), [(lambda o: o.milliseconds(), ms)])


def rschema(rng):
    from ccnpy.flic.tlvs import NcSchema as N
    from ccnpy.flic.tlvs.ProtocolFlags import ProtocolFlags
    from ccnpy.flic.tlvs.SuffixComponentType import SuffixComponentType
    fl = rng.randbytes(rng.randrange(0, 5)) if rng.random() < .3 else None
    flo = None if fl is None else ProtocolFlags(container(rng, fl))
    flw = b'' if fl is None else wire.tlv(1, fl)
    k = rng.choice('HPS')
    if k == 'H':
        lo, lw, _ = rlocators(rng)
        return (N.HashSchema(locators=lo, flags=flo), wire.tlv(0x10, lw + flw), N.HashSchema,
                [(lambda o: ser(o.locators()), lw), (lambda o: ser(o.flags()), flw or None), (lambda o: o.count(), len(lo.locators()))])
    lo = rlocators(rng) if rng.random() < .3 else None
    nm = rname(rng)
    lw = lo[1] if lo else b''
    nw = wire.name(nm[1])
    fields = [(lambda o: ser(o.locators()), lw or None), (lambda o: ser(o.flags()), flw or None), (lambda o: ser(o.name()), nw),
              (lambda o: o.count(), len(lo[2]) if lo else 0)]
    if k == 'P':
        return (N.PrefixSchema(name=nm[0], locators=lo and lo[0], flags=flo), wire.tlv(0x11, nw + lw + flw), N.PrefixSchema, fields)
    st = rng.choice([5, 0x10, 0, 255, 256, 65535, rng.randrange(65536)])
    if rng.random() < .4:
        f = rng.choice(['m', 'd'])
        st = 0x10 if f == 'm' else 5
        c = N.SegmentedSchema.create_for_manifest if f == 'm' else N.SegmentedSchema.create_for_data
        o = c(name=nm[0], locators=lo and lo[0], flags=flo)
    else:
        o = N.SegmentedSchema(name=nm[0], suffix_type=SuffixComponentType(st), locators=lo and lo[0], flags=flo)
    n = rand_num(rng)
    fields += [(lambda o: o.suffix_type().value(), st),
               (lambda o: (o.suffix_type().create_name_component(n).type(),
                           octets(o.suffix_type().create_name_component(n).value())), (st, wire.varint(n)))]
    return o, wire.tlv(0x12, nw + wire.tlv(2, st.to_bytes(2, 'big')) + lw + flw), N.SegmentedSchema, fields


def e_schema(rng):
    from ccnpy.flic.tlvs.NcSchema import NcSchema
    o, w, cls, fields = rschema(rng)
    return E(cls.__name__, o, w, tlvparse(rng.choice([cls, NcSchema])), [(lambda o: type(o).__name__, cls.__name__)] + fields)


def rncdef(rng):
    from ccnpy.flic.tlvs.NcDef import NcDef
    from ccnpy.flic.tlvs.NcId import NcId
    o, w, *_ = rschema(rng)
    n = rand_num(rng)
    return NcDef(NcId(n), o), wire.tlv(4, wire.tlv(5, wire.varint(n)) + w), n, w


def e_ncdef(rng):
    from ccnpy.flic.tlvs.NcDef import NcDef
    o, w, n, sw = rncdef(rng)
    return E('NcDef', o, w, tlvparse(NcDef), [(lambda o: o.nc_id().id(), n), (lambda o: ser(o.schema()), sw)])


def rvendor(rng):
    from ccnpy.flic.tlvs.Vendor import Vendor
    pen = rng.choice([0, 1, 255, 256, 65535, 65536, 0xFFFFFF, rng.randrange(1 << 24)])
    b = rng.randbytes(rng.randrange(0, 20))
    return Vendor(pen, container(rng, b)), wire.tlv(0xFFF, pen.to_bytes(3, 'big') + b), pen, b


def e_vendor(rng):
    from ccnpy.flic.tlvs.Vendor import Vendor
    o, w, pen, b = rvendor(rng)
    return E('Vendor', o, w, tlvparse(Vendor), [(lambda o: o.pen(), pen), (lambda o: octets(o.payload()), b)])


def maybe(rng, f, p=.5):
    return f() if rng.random() < p else None


def rnodedata(rng):
    from ccnpy.flic.tlvs.NodeData import NodeData
    from ccnpy.flic.tlvs.SubtreeDigest import SubtreeDigest
    from ccnpy.flic.tlvs.SubtreeSize import SubtreeSize
    size = maybe(rng, lambda: rand_num(rng))
    dig = maybe(rng, lambda: hv(rng), .3)
    loc = maybe(rng, lambda: rlocators(rng), .3)
    defs = [rncdef(rng) for _ in range(rng.choice([0, 0, 1, 2, 3]))]
    vend = [rvendor(rng) for _ in range(rng.choice([0, 0, 0, 1, 2]))]
    so = None if size is None else SubtreeSize(size) if rng.random() < .5 else size
    o = NodeData(subtree_size=so, subtree_digest=dig and SubtreeDigest(dig[0]), locators=loc and loc[0],
                 vendors=[v[0] for v in vend] if vend else rng.choice([None, []]),
                 nc_defs=[d[0] for d in defs] if defs else rng.choice([None, []]))
    w = wire.tlv(0, (b'' if size is None else wire.tlv(2, wire.varint(size))) + (wire.tlv(3, dig[1]) if dig else b'') +
                 (loc[1] if loc else b'') + b''.join(d[1] for d in defs) + b''.join(v[1] for v in vend))
    return o, w, size, defs, vend, dig and wire.tlv(3, dig[1]), loc and loc[1]


def e_nodedata(rng):
    from ccnpy.flic.tlvs.NodeData import NodeData
    o, w, size, defs, vend, dig, loc = rnodedata(rng)
    return E('NodeData', o, w, tlvparse(NodeData),
             [(lambda o: val(o.subtree_size()), size), (lambda o: ser(o.subtree_digest()), dig), (lambda o: ser(o.locators()), loc),
              (lambda o: [octets(d.serialize()) for d in (o.nc_defs() or [])], [d[1] for d in defs]),
              (lambda o: [octets(d.serialize()) for d in (o.vendor_tags() or [])], [v[1] for v in vend])])


def rgroupdata(rng):
    from ccnpy.flic.tlvs.GroupData import GroupData
    from ccnpy.flic.tlvs.LeafDigest import LeafDigest
    from ccnpy.flic.tlvs.LeafSize import LeafSize
    from ccnpy.flic.tlvs.NcId import NcId
    from ccnpy.flic.tlvs.StartSegmentId import StartSegmentId
    from ccnpy.flic.tlvs.SubtreeDigest import SubtreeDigest
    from ccnpy.flic.tlvs.SubtreeSize import SubtreeSize
    n = [maybe(rng, lambda: rand_num(rng)) for _ in range(4)]
    sd, ld = maybe(rng, lambda: hv(rng), .2), maybe(rng, lambda: hv(rng), .2)
    o = GroupData(subtree_size=None if n[0] is None else SubtreeSize(n[0]), subtree_digest=sd and SubtreeDigest(sd[0]),
                  leaf_size=None if n[1] is None else LeafSize(n[1]), leaf_digest=ld and LeafDigest(ld[0]),
                  nc_id=None if n[2] is None else NcId(n[2]), start_segment_id=None if n[3] is None else StartSegmentId(n[3]))

    def num(t, v):
        return b'' if v is None else wire.tlv(t, wire.varint(v))
    w = wire.tlv(0xB, num(2, n[0]) + (wire.tlv(3, sd[1]) if sd else b'') + num(0, n[1]) + (wire.tlv(1, ld[1]) if ld else b'') +
                 num(5, n[2]) + num(4, n[3]))
    return o, w, n, sd and wire.tlv(3, sd[1]), ld and wire.tlv(1, ld[1])


def e_groupdata(rng):
    from ccnpy.flic.tlvs.GroupData import GroupData
    o, w, n, sd, ld = rgroupdata(rng)
    return E('GroupData', o, w, tlvparse(GroupData),
             [(lambda o: [ser(o.subtree_digest()), ser(o.leaf_digest())], [sd, ld]),
              (lambda o: [val(o.subtree_size()), val(o.leaf_size()), val(o.nc_id()), val(o.start_segment_id())], n)])


def rpointers(rng):
    from ccnpy.flic.tlvs.Pointers import Pointers
    hs = [hv(rng) for _ in range(rng.choice([1, 1, 2, 5, 30]))]
    return Pointers([h[0] for h in hs]), wire.tlv(7, b''.join(h[1] for h in hs)), [h[3] for h in hs]


def e_pointers(rng):
    from ccnpy.flic.tlvs.Pointers import Pointers
    o, w, ds = rpointers(rng)
    return E('Pointers', o, w, tlvparse(Pointers),
             [(lambda o: len(o), len(ds)), (lambda o: [octets(h.value()) for h in o], ds)], length=False)


def rgroup(rng):
    from ccnpy.flic.tlvs.HashGroup import HashGroup
    gd = maybe(rng, lambda: rgroupdata(rng), .8)
    po, pw, ds = rpointers(rng)
    return HashGroup(group_data=gd and gd[0], pointers=po), wire.tlv(1, (gd[1] if gd else b'') + pw), gd, ds


def e_group(rng):
    from ccnpy.flic.tlvs.HashGroup import HashGroup
    o, w, gd, ds = rgroup(rng)
    return E('HashGroup', o, w, tlvparse(HashGroup), [(lambda o: [octets(h.value()) for h in o.pointers()], ds),
                                                      (lambda o: ser(o.group_data()), gd and gd[1])])


def rnode(rng, pad=False):
    from ccnpy.flic.tlvs.Node import Node
    nd = maybe(rng, lambda: rnodedata(rng), .6)
    gs = [rgroup(rng) for _ in range(rng.choice([1, 1, 2, 4]))]
    v = (nd[1] if nd else b'') + b''.join(g[1] for g in gs)
    o = Node(node_data=nd and nd[0], hash_groups=[g[0] for g in gs])
    return o, wire.tlv(1, v), v, gs, nd


def e_node(rng):
    from ccnpy.flic.tlvs.Node import Node
    o, w, v, gs, nd = rnode(rng)

    def walk(o):
        out = []
        for x in o:
            out.append((x.nc_id, octets(x.hash_value.value()), x.segment_id))
        return out
    fields = [(lambda o: [octets(h.value()) for h in o.hash_values()], [d for g in gs for d in g[3]]),
              (lambda o: octets(o.serialized_value()), v), (lambda o: o.has_node_data(), nd is not None),
              (lambda o: ser(o.node_data()), nd and nd[1]), (lambda o: [ser(g) for g in o.hash_groups()], [g[1] for g in gs])]
    loc = nd and nd[6]
    fields.append((lambda o: ser(o.node_locator()[0]), loc and loc[4:8 + int.from_bytes(loc[6:8], 'big')]))
    if all(g[2] is not None and g[2][2][2] is not None for g in gs):
        want = [(g[2][2][2], d, None if g[2][2][3] is None else g[2][2][3] + i) for g in gs for i, d in enumerate(g[3])]
        fields.append((walk, want))
    return E('Node', o, w, tlvparse(Node), fields)


def e_padded_node(rng):
    """A padded node has exactly the length asked for, where padding can reach it, and the same parse."""
    from ccnpy.flic.tlvs.Node import Node
    o, w, v, gs, _ = rnode(rng)
    n = len(w) + rng.randrange(0, 60)
    nd = o.node_data()
    p = Node(node_data=nd, hash_groups=o.hash_groups(), pad_length=n)
    deficit = n - len(w)
    want = w if deficit < 4 else wire.tlv(1, v + wire.tlv(0xFFE, bytes(deficit - 4)))
    return E('PaddedNode', p, want, tlvparse(Node),
             [(lambda o: [octets(h.value()) for h in o.hash_values()], [d for g in gs for d in g[3]]), (lambda o: ser(o.node_data()), nd and octets(nd.serialize())),
              (lambda o: octets(o.serialized_value()), want[4:]), (lambda o: [ser(g) for g in o.hash_groups()], [g[1] for g in gs])])


def e_pad(rng):
    from ccnpy.core.Pad import Pad
    n = rng.choice([0, 1, 2, rng.randrange(300)])
    return E('Pad', Pad(n), wire.tlv(0xFFE, bytes(n)), tlvparse(Pad), [(lambda o: octets(o.value()), bytes(n))])


def rkdfdata(rng):
    from ccnpy.flic.tlvs.KdfAlg import KdfAlg
    from ccnpy.flic.tlvs.KdfData import KdfData
    from ccnpy.flic.tlvs.KdfInfo import KdfInfo
    alg = rng.choice([1, 2, 3])
    info = maybe(rng, lambda: rng.randbytes(rng.randrange(0, 30)))
    io = None
    if info is not None:
        given, info = as_text(rng, info)
        io = KdfInfo(given)
    if rng.random() < .15:
        u = uuid.UUID(bytes=rng.randbytes(16))
        io, info = KdfInfo(u), u.bytes
    r = rng.random()
    if r < .2:
        alg = 1
        o = KdfData.create_hkdf_sha256(io) if rng.random() < .5 else KdfData.create_hkdf_sha256(kdf_info=io)
    elif r < .6:
        o = KdfData({1: KdfAlg.create_hkdf_sha256, 2: KdfAlg.create_hkdf_sha384, 3: KdfAlg.create_hkdf_sha512}[alg](), io)
    else:
        o = KdfData(KdfAlg(alg), io)
    if rng.random() < .2:
        nm = rname(rng)
        o, info = KdfData.copy_with_name(o, nm[0]), wire.name(nm[1])
    return o, wire.tlv(5, wire.tlv(6, wire.varint(alg)) + (b'' if info is None else wire.tlv(7, info))), alg, info


def e_kdfdata(rng):
    from ccnpy.flic.tlvs.KdfData import KdfData
    o, w, alg, info = rkdfdata(rng)
    return E('KdfData', o, w, tlvparse(KdfData),
             [(lambda o: o.kdf_alg().value(), alg), (lambda o: None if o.kdf_info() is None else octets(o.kdf_info().value()), info)])


def raeaddata(rng):
    from ccnpy.flic.aeadctx.AeadData import AeadData
    from ccnpy.flic.tlvs.AeadMode import AeadMode
    from ccnpy.flic.tlvs.Nonce import Nonce
    from ccnpy.flic.tlvs.KeyNumber import KeyNumber
    n = rand_num(rng)
    nonce = rng.randbytes(rng.choice([8, 12]))
    mode = rng.choice([1, 2, 3, 4])
    kd = maybe(rng, lambda: rkdfdata(rng))
    mo = {1: AeadMode.create_aes_gcm_128, 2: AeadMode.create_aes_gcm_256, 3: AeadMode.create_aes_ccm_128,
          4: AeadMode.create_aes_ccm_256}[mode]()
    o = AeadData(key_number=KeyNumber(n) if rng.random() < .5 else n,
                 nonce=Nonce(container(rng, nonce)) if rng.random() < .5 else A(nonce), mode=mo, kdf_data=kd and kd[0])
    w = wire.tlv(0, wire.varint(n)) + wire.tlv(1, nonce) + wire.tlv(2, bytes([mode])) + (kd[1] if kd else b'')
    return o, w, n, nonce, (mode, kd and kd[1])


def rctx(rng):
    from ccnpy.flic.tlvs.AeadCtx import AeadCtx
    from ccnpy.flic.tlvs.RsaOaepCtx import RsaOaepCtx
    ao, aw, n, nonce, mode = raeaddata(rng)
    if rng.random() < .5:
        return AeadCtx(ao), wire.tlv(0, wire.tlv(0, aw)), 'AeadCtx', n, nonce, mode, None
    wr = rwrapper(rng) if rng.random() < .7 else None
    return (RsaOaepCtx(ao, wr and wr[0]), wire.tlv(0, wire.tlv(1, aw + (wr[1] if wr else b''))), 'RsaOaepCtx', n, nonce, mode,
            wr)


def rwrapper(rng):
    from ccnpy.core.HashValue import HashFunctionType
    from ccnpy.core.KeyId import KeyId
    from ccnpy.core.KeyLink import KeyLink
    from ccnpy.flic.RsaOaepCtx.HashAlg import HashAlg
    from ccnpy.flic.RsaOaepCtx.RsaOaepWrapper import RsaOaepWrapper
    from ccnpy.flic.RsaOaepCtx.WrappedKey import WrappedKey
    ko, kw, _, kd = hv(rng)
    wrapped = rng.randbytes(rng.choice([128, 256]))
    kl = maybe(rng, lambda: rlink(rng), .3)
    args = dict(key_id=KeyId(ko), wrapped_key=WrappedKey(container(rng, wrapped)), key_link=kl and KeyLink(kl[0]))
    alg = rng.choice([1, 1, 2])
    if alg == 1 and rng.random() < .7:
        wo = RsaOaepWrapper.create_sha256(**args)
    else:
        wo = RsaOaepWrapper(hash_alg=HashAlg(rng.choice([alg, {1: HashFunctionType.T_SHA_256, 2: HashFunctionType.T_SHA_512}[alg]])), **args)
    klw = wire.tlv(0xE, kl[1]) if kl else None
    ww = wire.tlv(9, kw) + (klw or b'') + wire.tlv(3, bytes([alg])) + wire.tlv(4, wrapped)
    fields = [(lambda o: ser(o.key_id()), wire.tlv(9, kw)), (lambda o: ser(o.key_link()), klw),
              (lambda o: (o.is_sha_256(), o.is_sha_512()), (alg == 1, alg == 2)),
              (lambda o: octets(o.wrapped_key().value()), wrapped)]
    return wo, ww, fields


def e_wrapper(rng):
    from ccnpy.core.Tlv import Tlv
    from ccnpy.flic.RsaOaepCtx.RsaOaepWrapper import RsaOaepWrapper
    o, w, fields = rwrapper(rng)
    return E('RsaOaepWrapper', o, w, lambda b: RsaOaepWrapper.parse(A(b)), fields)


def mode_of(o):
    m = o.aead_data().mode()
    return (m.value(), m.is_aes_gcm_128(), m.is_aes_gcm_256(), m.is_aes_ccm_128(), m.is_aes_ccm_256(), m.key_bits())


def e_ctx(rng):
    from ccnpy.flic.tlvs.SecurityCtx import SecurityCtx
    o, w, kind, n, nonce, (mode, kd), wr = rctx(rng)
    f = [(mode_of, (mode, mode == 1, mode == 2, mode == 3, mode == 4, 128 if mode in (1, 3) else 256)),
         (lambda o: ser(o.aead_data().kdf_data()), kd),
         (lambda o: type(o).__name__, kind), (lambda o: o.key_number().value(), n), (lambda o: octets(o.nonce().value()), nonce)]
    if kind == 'RsaOaepCtx':
        f.append((lambda o: ser(o.rsa_oaep_wrapper()), wr and wr[1]))
        f.append((lambda o: 0 if o.rsa_oaep_wrapper() is None else len(o.rsa_oaep_wrapper()), len(wr[1]) if wr else 0))
        if wr:
            f += [((lambda g: lambda o: g(o.rsa_oaep_wrapper()))(g), x) for g, x in wr[2]]
            f.append((lambda o: ser(o.key_id()), wr[2][0][1]))
    return E(kind, o, w, tlvparse(SecurityCtx), f)


def rmanifest(rng):
    from ccnpy.flic.tlvs.AuthTag import AuthTag
    from ccnpy.flic.tlvs.EncryptedNode import EncryptedNode
    from ccnpy.flic.tlvs.Manifest import Manifest
    if rng.random() < .6:
        o, w, *_ = rnode(rng)
        return Manifest(node=o), w, False, [(lambda o: (ser(o.security_ctx()), ser(o.node()), ser(o.auth_tag())), (None, w, None))]
    c = rctx(rng)
    b, t = rng.randbytes(rng.randrange(1, 200)), rng.randbytes(16)
    return (Manifest(security_ctx=c[0], node=EncryptedNode(container(rng, b)), auth_tag=AuthTag(container(rng, t))),
            c[1] + wire.tlv(2, b) + wire.tlv(3, t), True,
            [(lambda o: (ser(o.security_ctx()), ser(o.node()), ser(o.auth_tag())), (c[1], wire.tlv(2, b), wire.tlv(3, t)))])


def e_manifest(rng):
    from ccnpy.flic.tlvs.Manifest import Manifest
    o, w, enc, f = rmanifest(rng)
    return E('Manifest', o, w, lambda b: Manifest.deserialize(A(b)), [(lambda o: o.is_encrypted(), enc)] + f)


def ralg(rng):
    from datetime import datetime, timedelta, timezone
    from ccnpy.core.KeyLink import KeyLink
    from ccnpy.core.SignatureTime import SignatureTime
    from ccnpy.core.ValidationAlg import ValidationAlg_Crc32c, ValidationAlg_RsaSha256
    if rng.random() < .3:
        return ValidationAlg_Crc32c(), wire.alg_crc32c(), None
    k = hv(rng)
    pk = rng.choice([None, None, 'a1024', 'c2048'])
    kl = maybe(rng, lambda: rlink(rng), .4)
    ms = rtime(rng) % 250000000000000
    if rng.random() < .5:
        st = SignatureTime(ms / 1000)
    else:
        st = datetime(1970, 1, 1, tzinfo=timezone.utc) + timedelta(milliseconds=ms)
    klo = None if kl is None else kl[0] if rng.random() < .5 else KeyLink(kl[0])
    if pk is not None and rng.random() < .5:
        k = None
    o = ValidationAlg_RsaSha256(keyid=k and k[0], public_key=None if pk is None else gen.rsa_key(pk), key_link=klo, signature_time=st)
    kw = k[1] if k else wire.tlv(1, refcrypto.keyid(pk))
    w = wire.tlv(3, wire.tlv(4, wire.tlv(9, kw) + (b'' if pk is None else wire.tlv(0xB, refcrypto.public_der(pk))) +
                             (b'' if kl is None else wire.tlv(0xE, kl[1])) + wire.tlv(0xF, wire.u64(ms))))
    return o, w, (kw, pk, ms, kl and kl[1])


def link_octets(o):
    """What the key link links to; a built algorithm may give back the Link it was made with."""
    b = ser(o.key_link())
    return b[4:] if b is not None and b[:2] == b'\x00\x0e' else b


def e_alg(rng):
    from ccnpy.core.ValidationAlg import ValidationAlg
    o, w, x = ralg(rng)
    f = []
    if x is not None:
        f = [(lambda o: octets(o.keyid().serialize()), x[0]), (lambda o: o.signature_time().milliseconds(), x[2]),
             (lambda o: None if o.public_key() is None else octets(o.public_key().public_key_der()), x[1] and refcrypto.public_der(x[1])),
             (link_octets, x[3]), (lambda o: ser(o.signature_time()), wire.tlv(0xF, wire.u64(x[2])))]
    return E(type(o).__name__, o, w, tlvparse(ValidationAlg), f)


def when(ms, rng=None):
    from datetime import datetime, timedelta, timezone
    t = datetime(1970, 1, 1, tzinfo=timezone.utc) + timedelta(milliseconds=ms)
    # the same moment on another clock of the world
    return t if rng is None or ms < 10 ** 9 else t.astimezone(timezone(timedelta(minutes=rng.choice([0, -660, -210, 60, 345, 840]))))


def rbody(rng):
    from ccnpy.core.ContentObject import ContentObject
    from ccnpy.core.ExpiryTime import ExpiryTime
    from ccnpy.core.FinalChunkId import FinalChunkId
    from ccnpy.core.Payload import Payload
    from ccnpy.core.PayloadType import PayloadType
    nm = maybe(rng, lambda: rname(rng), .7)
    ex = maybe(rng, lambda: rtime(rng), .4)
    kind = rng.choice(['data', 'data', 'data', 'manifest', 'link', 'raw', 'nopayload'])
    exo = None if ex is None else ExpiryTime(ex / 1000)
    fc = None
    if kind == 'data':
        b = rng.randbytes(rng.choice([0, 1, rng.randrange(200), 3000]))
        fc = maybe(rng, lambda: rand_num(rng), .3)
        pl = container(rng, b)
        o = ContentObject.create_data(name=nm and nm[0], payload=Payload(pl) if rng.random() < .5 else pl,
                                      expiry_time=when(ex, rng) if ex is not None and ex < 250000000000000 and rng.random() < .4 else exo,
                                      final_chunk_id=None if fc is None else FinalChunkId(fc) if rng.random() < .5 else fc)
        pt = 0
    elif kind == 'manifest':
        mo, b, *_ = rmanifest(rng)
        if exo is None and rng.random() < .5:
            o = ContentObject.create_manifest(mo, name=nm and nm[0])
        elif exo is not None and ex < 250000000000000 and rng.random() < .5:
            o = ContentObject.create_manifest(mo, name=nm and nm[0], expiry_time=when(ex, rng))
        else:
            o = mo.content_object(name=nm and nm[0], expiry_time=exo)
        pt = 3
    elif kind == 'link':
        lo, b, *_ = rlink(rng)
        nm = nm or rname(rng)
        if ex is not None and ex < 250000000000000 and rng.random() < .8:
            o = ContentObject.create_link(lo, name=nm[0], expiry_time=when(ex, rng))
        else:
            ex = exo = None
            o = ContentObject.create_link(lo, name=nm[0])
        pt = 2
    elif kind == 'raw':
        pt = rng.choice([0, 1, 2, 3, None])
        b = rng.randbytes(rng.randrange(0, 50)) if pt in (0, 1, None) else rlink(rng)[1] if pt == 2 else rmanifest(rng)[1]
        fc = maybe(rng, lambda: rand_num(rng), .3)
        o = ContentObject(name=nm and nm[0], payload_type=None if pt is None else PayloadType(pt), payload=Payload(container(rng, b)),
                          expiry_time=exo, final_chunk_id=None if fc is None else FinalChunkId(fc))
    else:
        b, pt = None, None
        o = ContentObject.create_data(name=nm and nm[0], expiry_time=exo)
    w = wire.content_object(nm and nm[1], ex, pt, b, fc)
    return o, w, nm, ex, pt, b, fc


def kind_of(o):
    t = o.payload_type()
    if t is None:
        return None
    ks = [i for i, x in enumerate((t.is_data(), t.is_key(), t.is_link(), t.is_manifest())) if x]
    return ks[0] if len(ks) == 1 else ks


def e_payload_type(rng):
    from ccnpy.core.PayloadType import PayloadType
    t = rng.randrange(4)
    o = PayloadType(t) if rng.random() < .3 else [PayloadType.create_data_type, PayloadType.create_key_type,
                                                  PayloadType.create_link_type, PayloadType.create_manifest_type][t]()
    return E('PayloadType', o, wire.tlv(5, bytes([t])), tlvparse(PayloadType),
             [(lambda o: (o.is_data(), o.is_key(), o.is_link(), o.is_manifest()), (t == 0, t == 1, t == 2, t == 3))])


def e_header(rng):
    from ccnpy.core.FixedHeader import FixedHeader
    n, fields, hl, pt = rng.choice([8, 9, 255, 256, 65535, rng.randrange(8, 65536)]), bytes(3), 8, rng.choice([0, 1, 2])
    r = rng.random()
    if r < .25:
        hop = rng.randrange(256)
        o, pt, fields = FixedHeader.create_interest(packet_length=n, hop_limit=hop), 0, bytes([hop, 0, 0])
    elif r < .5:
        o, pt = FixedHeader.create_content_object(packet_length=n), 1
    else:
        fields, hl = rng.choice([bytes(3), rng.randbytes(3)]), rng.choice([8, 8, 9, 40, 255])
        o = FixedHeader(packet_type=pt, packet_length=n, fields=A(fields) if rng.random() < .5 else list(fields), header_length=hl)
    return E('FixedHeader', o, bytes([1, pt]) + n.to_bytes(2, 'big') + fields + bytes([hl]), lambda b: FixedHeader.deserialize(A(b)),
             [(lambda o: (o.version(), o.packet_length(), o.header_length()), (1, n, hl)),
              (lambda o: (o.is_interest(), o.is_content_object(), o.is_interest_return()), (pt == 0, pt == 1, pt == 2))], length=False)


def e_small(rng):
    """Elements with one small value."""
    from ccnpy.core.ValidationPayload import ValidationPayload
    from ccnpy.flic.RsaOaepCtx.HashAlg import HashAlg
    from ccnpy.flic.tlvs.AeadMode import AeadMode
    from ccnpy.flic.tlvs.KdfAlg import KdfAlg
    from ccnpy.flic.tlvs.SuffixComponentType import SuffixComponentType
    k = rng.randrange(5)
    if k == 0:
        b = rng.randbytes(rng.randrange(0, 300))
        return E('ValidationPayload', ValidationPayload(container(rng, b)), wire.tlv(4, b), tlvparse(ValidationPayload),
                 [(lambda o: octets(o.payload()), b)])
    if k == 1:
        n = rng.choice([1, 2])
        return E('HashAlg', HashAlg(n), wire.tlv(3, bytes([n])), tlvparse(HashAlg), [(lambda o: o.value(), n)])
    if k == 2:
        n = rng.choice([1, 2, 3, 4])
        return E('AeadMode', AeadMode(n), wire.tlv(2, bytes([n])), tlvparse(AeadMode), [(lambda o: o.value(), n)])
    if k == 3:
        n = rng.choice([1, 2, 3])
        return E('KdfAlg', KdfAlg(n), wire.tlv(6, bytes([n])), tlvparse(KdfAlg), [(lambda o: o.value(), n)])
    n = rng.choice([0, 5, 0x10, 65535, rng.randrange(65536)])
    return E('SuffixComponentType', SuffixComponentType(n), wire.tlv(2, n.to_bytes(2, 'big')), tlvparse(SuffixComponentType),
             [(lambda o: o.value(), n)])


def e_body(rng):
    from ccnpy.core.ContentObject import ContentObject
    o, w, nm, ex, pt, b, fc = rbody(rng)
    f = [(lambda o: ser(o.name()), nm and wire.name(nm[1])),
         (lambda o: None if o.expiry_time() is None else o.expiry_time().milliseconds(), ex),
         (lambda o: None if o.payload() is None else octets(o.payload().value()), b),
         (lambda o: o.is_manifest(), pt == 3), (lambda o: o.is_link(), pt == 2), (kind_of, pt),
         (lambda o: (o.is_content_object(), o.is_interest()), (True, False)),
         (lambda o: ser(o.final_chunk_id()), None if fc is None else wire.tlv(7, wire.varint(fc)))]
    return E('ContentObject', o, w, tlvparse(ContentObject), f)


def e_packet(rng):
    from ccnpy.core.Packet import Packet
    from ccnpy.core.ValidationPayload import ValidationPayload
    body = rbody(rng)
    if rng.random() < .5:
        o = Packet.create_content_object(body[0])
        w = wire.packet(body[1])
        signed = False
        aw = v = None
    else:
        ao, aw, _ = ralg(rng)
        v = rng.randbytes(rng.choice([4, 128, 256]))
        o = Packet.create_signed_content_object(body[0], ao, ValidationPayload(container(rng, v)))
        w = wire.packet(body[1], aw, wire.tlv(4, v))
        signed = True
    h = refcrypto.hashlib.sha256(w[8:]).digest()
    f = [(lambda o: octets(o.content_object_hash().value()), h), (lambda o: (ser(o.validation_alg()), ser(o.validation_payload())), (aw, None if v is None else wire.tlv(4, v))),
         (lambda o: ser(o.body()), body[1]), (lambda o: ser(o.header()), w[:8]),
         (lambda o: o.header().packet_length(), len(w)), (lambda o: o.body().is_content_object(), True)]
    return E('SignedPacket' if signed else 'Packet', o, w, lambda b: Packet.deserialize(A(b)), f)


T = 'ccnpy.flic.tlvs.'
ELEMENTS = [
    e_hash, e_name, e_link, e_keylink, e_locators, e_locator, e_payload_type, e_header, e_small, e_small, e_wrapper, e_schema, e_ncdef, e_vendor, e_nodedata, e_groupdata, e_pointers, e_group,
    e_node, e_padded_node, e_pad, e_kdfdata, e_ctx, e_manifest, e_alg, e_body, e_packet, e_packet,
    lambda r: e_time(r, 'ExpiryTime', 6), lambda r: e_time(r, 'SignatureTime', 0xF),
    lambda r: e_number(r, 'ccnpy.core.FinalChunkId', 'FinalChunkId', 7, None),
    lambda r: e_number(r, T + 'NcId', 'NcId', 5, 'id'), lambda r: e_number(r, T + 'KeyNumber', 'KeyNumber', 0, 'value'),
    lambda r: e_number(r, T + 'StartSegmentId', 'StartSegmentId', 4, 'value'),
    lambda r: e_number(r, T + 'SubtreeSize', 'SubtreeSize', 2, 'size'), lambda r: e_number(r, T + 'LeafSize', 'LeafSize', 0, 'size'),
    lambda r: e_octets(r, 'ccnpy.core.Payload', 'Payload', 1), lambda r: e_octets(r, T + 'Nonce', 'Nonce', 1),
    lambda r: e_octets(r, T + 'AuthTag', 'AuthTag', 3), lambda r: e_octets(r, T + 'EncryptedNode', 'EncryptedNode', 2, 0, 300),
    lambda r: e_octets(r, T + 'KdfInfo', 'KdfInfo', 7), lambda r: e_octets(r, T + 'ProtocolFlags', 'ProtocolFlags', 1),
    lambda r: e_octets(r, 'ccnpy.flic.RsaOaepCtx.WrappedKey', 'WrappedKey', 4, 0, 260),
    lambda r: e_hashtlv(r, 'ccnpy.core.KeyId', 'KeyId', 9), lambda r: e_hashtlv(r, T + 'LeafDigest', 'LeafDigest', 1),
    lambda r: e_hashtlv(r, T + 'SubtreeDigest', 'SubtreeDigest', 3),
]


def judge(ctx, e):
    ctx.config = {'kind': e.kind, 'want': e.want}
    with ctx.must_work('serialize'):
        got = octets(e.obj.serialize())
        n = len(e.obj) if e.length else None
    ctx.check(got == e.want, f'{e.kind}-octets', lambda: f'{e.kind} serializes to {got.hex()[:200]}, the format prescribes {e.want.hex()[:200]}')
    if e.length:
        ctx.check(n == len(got), f'{e.kind}-length', f'{e.kind} says it has {n} octets and has {len(got)}')
    for i, (f, want) in enumerate(e.fields):
        with ctx.must_work('fields'):
            v = f(e.obj)
        ctx.check(v == want, f'{e.kind}-built-field-{i}', lambda: f'field {i} of the built {e.kind} is {v!r}, not {want!r}'[:400])
    if e.parse is not None:
        with ctx.must_work('parse'):
            p = e.parse(e.want)
            again = octets(p.serialize())
            n2 = len(p) if e.length else None
            same = p == e.obj and e.obj == p
        ctx.check(again == e.want, f'{e.kind}-reserialize', lambda: f'a parsed {e.kind} serializes to other octets: {again.hex()[:200]}')
        if e.length:
            ctx.check(n2 == len(e.want), f'{e.kind}-parsed-length', f'a parsed {e.kind} says it has {n2} octets of {len(e.want)}')
        ctx.check(bool(same), f'{e.kind}-equal', lambda: f'the parsed {e.kind} does not equal the built one: {e.want.hex()[:200]}')
        for i, (f, want) in enumerate(e.fields):
            with ctx.must_work('fields'):
                v = f(p)
            ctx.check(v == want, f'{e.kind}-parsed-field-{i}', lambda: f'field {i} of the parsed {e.kind} is {v!r}, not {want!r}'[:400])
    ctx.count('elements')
    ctx.seen('element_kinds', e.kind)
    if e.kind.endswith('Packet'):
        ctx.count('packets_both_ways')
    if e.kind == 'SignedPacket':
        ctx.count('signed_packets')
    ctx.distinct(e.kind, e.want)


def elements(ctx):
    for make in ELEMENTS:
        with ctx.must_work('construct'):
            e = make(ctx.rng)
            other = make(ctx.rng)
        judge(ctx, e)
        if type(other.obj) is type(e.obj):
            with ctx.must_work('compare'):
                same, differ = e.obj == other.obj, e.obj != other.obj
            ctx.check((bool(same), bool(differ)) == (e.want == other.want, e.want != other.want), f'{e.kind}-compare',
                      lambda: f'two {e.kind} of octets {e.want.hex()[:100]} and {other.want.hex()[:100]} compare {"equal" if same else "different"}')
            ctx.count('compared')
    if ctx.index == 0:
        ctx.sample({'kind': e.kind, 'octets': e.want})


def trees(ctx):
    """The same for the packets of whole trees: what a strict independent parser reads, encoded again independently."""
    from ccnpy.core.Packet import Packet
    cfg = gen.rand_cfg(ctx.rng, top=6000)
    r = gen.Run(ctx, cfg)
    seen = set()
    for (h, w), obj in zip(r.writer.log, r.writer.packets):
        if h in seen:
            continue
        seen.add(h)
        try:
            p = wire.dec_packet(w)
        except wire.WireError as e:
            ctx.fail('tree-packet-malformed', f'{e}')
        alg = b'' if p['alg'] is None else p['alg']
        vp = b'' if p['vpayload'] is None else wire.tlv(4, p['vpayload'])
        want = wire.packet(wire.content_object(p['name'], p['expiry'], p['payload_type'], p['payload'], p['fcid']), alg, vp)
        ctx.check(want == w, 'tree-packet-octets', 'a tree packet is not in the prescribed order or form')
        ctx.check(p['hash'] == h, 'tree-packet-hash', 'the reported hash is not the SHA-256 of the octets')
        with ctx.must_work('reparse'):
            q = Packet.deserialize(A(w))
            same = q == obj and obj == q
        ctx.check(bool(same), 'tree-packet-equal', 'a reparsed tree packet does not equal the written one')
        ctx.check(octets(q.serialize()) == w and len(q) == len(w) and len(obj) == len(w), 'tree-packet-again', 'a reparsed tree packet serializes differently')
        ctx.count('packets_both_ways')
    ctx.distinct(*r.shape())


KINDS = {
    'elements': (elements, 700, 30000),
    'trees': (trees, 150, 5000),
}
