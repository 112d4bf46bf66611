"""C21: values survive the trip through packets unchanged."""
import importlib
import os
from datetime import datetime, timedelta, timezone

from .. import gen, refcrypto, wire
from . import c05
from .c05 import A, container, octets, tlvparse

PROPERTY = 'C21'
LEVEL = 'exploration'
RULE = ('A case takes one kind of value - numbers of every numeric class (all powers of two up to 64 bits and their '
        'neighbours, and every width), times (datetimes of all zones, seconds, and every 64-bit millisecond count), names '
        'with any component type and octets, octet strings up to the longest, 24-bit vendor numbers, 16-bit component types, '
        '32-bit salts - puts it into elements, manifests and packets, sends those through octets, files and wrapped keys, '
        'and compares the values the getters return, and the values an independent decoder finds, with those put in. '
        'Values just and far out of range must raise. Distinct cases are distinct (class, value) pairs.')
MINIMUM = {'evaluations': 250, 'distinct': 15000, 'round_trips': 25000, 'refusals': 2500, 'packets': 300, 'times': 1500,
           'files': 100, 'salts': 30, 'forms': 8}

T = 'ccnpy.flic.tlvs.'
NUMBERS = [  # class, how to make it, its TLV type, how to ask for the value
    ('ccnpy.core.FinalChunkId', 'FinalChunkId', 7, None), (T + 'NcId', 'NcId', 5, 'id'), (T + 'KeyNumber', 'KeyNumber', 0, 'value'),
    (T + 'StartSegmentId', 'StartSegmentId', 4, 'value'), (T + 'SubtreeSize', 'SubtreeSize', 2, 'size'), (T + 'LeafSize', 'LeafSize', 0, 'size'),
    (T + 'KdfAlg', 'KdfAlg', 6, 'value'),
]
BOUNDARY = sorted({x for k in range(65) for x in ((1 << k) - 2, (1 << k) - 1, 1 << k, (1 << k) + 1) if 0 <= x < 1 << 64})
OUTSIDE = [-1, -2, -255, -256, -(1 << 31), -(1 << 63), -(1 << 64), 1 << 64, (1 << 64) + 1, (1 << 64) + 255, 1 << 65, 1 << 72, 1 << 128,
           (1 << 72) - 1, 10 ** 30]
NOT_NUMBERS = [1.5, -0.5, 3.0000001, float('nan'), float('inf'), None, 'x', '', b'', [], [1, 'a'], object()]


def cls_of(module, name):
    return getattr(importlib.import_module(module), name)


def refused(ctx, what, make, value):
    """The value must raise; an object made of it must not exist."""
    try:
        o = make(value)
    except Exception:
        ctx.check(True, '', '')
        ctx.count('refusals')
        ctx.distinct('refused', what, repr(value)[:60])
        return
    try:
        w = octets(o.serialize()).hex()[:80]
    except Exception:
        w = repr(o)[:80]
    ctx.fail(f'{what}-accepted', f'{what} accepts {value!r:.60} and makes {w} of it')


def same(ctx, what, want, got, value):
    ctx.check(got == want, f'{what}-changed', lambda: f'{what}: {want!r:.80} came back as {got!r:.80}', value=repr(value)[:200])
    ctx.count('round_trips')


def number_values(rng, n=60):
    out = list(BOUNDARY) if rng.random() < .5 else rng.sample(BOUNDARY, 60)
    for _ in range(n):
        out.append(rng.randrange(1 << rng.randrange(1, 65)))
    return out


def numbers(ctx):
    rng = ctx.rng
    module, name, t, getter = NUMBERS[ctx.index % len(NUMBERS)]
    cls = cls_of(module, name)
    ctx.config = {'class': name}

    def value_of(o):
        w = octets(o.serialize())
        a = int.from_bytes(w[4:], 'big')
        if getter is not None:
            ctx.check(getattr(o, getter)() == a, f'{name}-getter', lambda: f'{name}.{getter}() is {getattr(o, getter)()}, its octets are {w.hex()}')
        return a
    for n in number_values(rng):
        with ctx.must_work(name):
            o = cls(n)
            same(ctx, name, n, value_of(o), n)
            w = octets(o.serialize())
            same(ctx, name, n, value_of(tlvparse(cls)(w)), n)
        ctx.check(w == wire.tlv(t, wire.varint(n)), f'{name}-octets', f'{name}({n}) is {w.hex()}')
        for width in range(max(1, (n.bit_length() + 7) // 8), 9):       # what other encoders may send
            with ctx.must_work(name):
                p = tlvparse(cls)(wire.tlv(t, n.to_bytes(width, 'big')))
                same(ctx, name + '-width', n, value_of(p), (n, width))
        ctx.distinct(name, n)
    for x in OUTSIDE:
        refused(ctx, name, cls, x)
    for x in NOT_NUMBERS:
        if not (name == 'KeyNumber' and not isinstance(x, (float, type(None)))):    # it takes text and octets too
            refused(ctx, name, cls, x)
    for x in (b'\0' * 9, b'\1' * 9, b'\xff' * 200):
        try:
            o = tlvparse(cls)(wire.tlv(t, x))
        except Exception:
            ctx.count('refusals')
            continue
        # an object of it must at least not stand for another value
        same(ctx, name + '-overlong', int.from_bytes(x, 'big'), int.from_bytes(octets(o.serialize())[4:], 'big'), x)


def encoders(ctx):
    """The number encoders every element is made with: fixed and variable widths, and the raw element itself."""
    from ccnpy.core.Tlv import Tlv
    rng = ctx.rng
    values = number_values(rng, 200)
    near = [x + d for w in (8, 16, 24, 32, 64) for x in (1 << w, 1 << (w + 1), 3 << w, 1 << (w + 8), 1 << (2 * w)) for d in (-1, 0, 1)]
    for width in (16, 24, 32, 64):
        f = getattr(Tlv, f'uint{width}_to_array', None)
        if f is None:
            continue
        for n in values + near + OUTSIDE:
            if 0 <= n < 1 << width:
                with ctx.must_work('encoder'):
                    w = octets(f(n))
                    back = Tlv.array_to_number(f(n))
                same(ctx, f'uint{width}', (n, n.to_bytes(width // 8, 'big')), (back, w), n)
                ctx.distinct('uint', width, n)
            else:
                try:
                    w = f(n)
                except Exception:
                    ctx.check(True, '', '')
                    ctx.count('refusals')
                    continue
                ctx.fail(f'uint{width}-accepted', f'{n} as {width} bits is {octets(w).hex()}')
    for n in values + near + OUTSIDE:
        if 0 <= n < 1 << 64 and hasattr(Tlv, 'number_to_array'):
            with ctx.must_work('encoder'):
                w = octets(Tlv.number_to_array(n))
            same(ctx, 'number', (n, wire.varint(n)), (int.from_bytes(w, 'big'), w), n)
    t = rng.randrange(65536)
    for name, top in (('create_uint8', 8), ('create_uint16', 16), ('create_uint64', 64), ('create_varint', 64)):
        make = getattr(Tlv, name, None)
        if make is None:
            continue
        for n in rng.sample(values, 40) + near + OUTSIDE:
            if 0 <= n < 1 << top:
                with ctx.must_work('encoder'):
                    o = make(t, n)
                    got = Tlv.deserialize(A(octets(o.serialize())))
                same(ctx, name, (t, n), (got.type(), got.value_as_number()), n)
                if name != 'create_varint':
                    ctx.check(len(octets(o.serialize())) == 4 + top // 8, f'{name}-width', f'{name}({n}) has another width')
            else:
                refused(ctx, name, lambda n: make(t, n), n)
    for x in (-1, -256, 65536, 65537, 1 << 24, 1 << 32, 1.5, None, 'x'):
        refused(ctx, 'tlv-type', lambda x: Tlv(x, A(b'abc')), x)
    n = rng.choice([65536, 65537, 70000, 131072, 65536 + rng.randrange(70000)])
    refused(ctx, 'tlv-length', lambda x: Tlv(t, A(x)), bytes(n))
    n = rng.choice([0, 1, 65535, 65534, rng.randrange(65536)])
    v = rng.randbytes(n)
    with ctx.must_work('tlv'):
        got = Tlv.deserialize(A(octets(Tlv(t, A(v)).serialize())))
    same(ctx, 'tlv', (t, v), (got.type(), octets(got.value())), n)


def exhaustive(ctx):
    """Every component type and suffix type, vendor numbers and small chunk numbers; one slice of the range per case."""
    from ccnpy.core.Name import Name, NameComponent
    from ccnpy.flic.tlvs.SuffixComponentType import SuffixComponentType
    from ccnpy.flic.tlvs.Vendor import Vendor

    def reparsed(c):
        return tlvparse(Name)(octets(Name([c]).serialize())).component(0)
    rng = ctx.rng
    n = 32
    lo, hi = 65536 * (ctx.index % n) // n, 65536 * (ctx.index % n + 1) // n
    with ctx.must_work('component'):
        for v in range(lo, hi, 1 if ctx.thorough else 4):
            v = min(hi - 1, v + rng.randrange(4)) if not ctx.thorough else v
            c = reparsed(NameComponent(v, b'abc'))
            same(ctx, 'component-type', (v, b'abc'), (c.type(), octets(c.value())), v)
            s = tlvparse(SuffixComponentType)(octets(SuffixComponentType(v).serialize()))
            same(ctx, 'suffix-type', v, s.value(), v)
            for t, make, ask in ((5, NameComponent.create_chunk_segment, 'is_chunk_id_segment'), (0x10, NameComponent.create_manifest_id, 'is_manifest_id_segment')):
                c = reparsed(make(v))
                same(ctx, 'segment-number', (t, v), (c.type(), int.from_bytes(octets(c.value()), 'big')), v)
                if hasattr(c, ask):
                    ctx.check(getattr(c, ask)(), 'segment-kind', f'a component of type {t} does not say what it is')
            pen = rng.choice([v, v << 8, (v << 8) | 0xFF, rng.randrange(1 << 24)])
            x = tlvparse(Vendor)(octets(Vendor(pen, [1, 2, 3]).serialize()))
            same(ctx, 'vendor', (pen, b'\1\2\3'), (x.pen(), octets(x.payload())), pen)
            ctx.distinct('types', v)
    for x in [-1, -256, 65536, 65537, 1 << 17, 1 << 24, 1 << 64, 1.5, None, '1']:
        refused(ctx, 'component-type', lambda x: NameComponent(x, b'a'), x)
        refused(ctx, 'suffix-type', SuffixComponentType, x)
    for x in [-1, 1 << 24, (1 << 24) + 1, 1 << 32, 1 << 64, 1.5, None, 'x']:
        refused(ctx, 'vendor', lambda x: Vendor(x, b'a'), x)
    for x in OUTSIDE + [1.5, None, 'x']:
        refused(ctx, 'chunk-number', NameComponent.create_chunk_segment, x)
        refused(ctx, 'manifest-number', NameComponent.create_manifest_id, x)
    for x in ([256], [-1], [1.5], ['a']):
        refused(ctx, 'octets', lambda x: NameComponent(1, x), x)
        refused(ctx, 'vendor-octets', lambda x: Vendor(1, x), x)


def times(ctx):
    from ccnpy.core.ContentObject import ContentObject
    from ccnpy.core.ExpiryTime import ExpiryTime
    from ccnpy.core.Packet import Packet
    from ccnpy.core.SignatureTime import SignatureTime
    rng = ctx.rng
    epoch = datetime(1970, 1, 1, tzinfo=timezone.utc)
    last = 253402300799999
    for _ in range(60):
        cls, t = rng.choice([(ExpiryTime, 6), (SignatureTime, 0xF)])
        base = rng.choice([0, 1 << 31, 1 << 32, 1700000000, rng.randrange(1 << 33), rng.randrange(last // 1000)])
        ms = min(last, base * 1000 + rng.choice([0, 1, 499, 500, 501, 999, rng.randrange(1000)]))
        how = rng.choice(['seconds', 'datetime', 'datetime', 'parse', 'parse64', 'now', 'micro', 'local'])
        with ctx.must_work('time'):
            if how == 'seconds':
                o = cls(ms // 1000) if ms % 1000 == 0 and rng.random() < .5 else cls(ms / 1000)
            elif how == 'datetime':
                tz = timezone(timedelta(minutes=rng.randrange(-1439, 1440)))
                ms = min(max(ms, 90000000), last - 90000000)
                o = cls.from_datetime((epoch + timedelta(milliseconds=ms)).astimezone(tz))
            elif how == 'micro':        # the nearest millisecond
                us = rng.choice([-499, -300, 0, 1, 250, 499])
                ms = max(ms, 1)
                ms = min(ms, 4102444800000)
                o = cls.from_datetime(epoch + timedelta(milliseconds=ms, microseconds=us))
            elif how == 'local':        # a time without a zone is on the local clock
                ms = min(max(ms, 90000000), 4102444800000)
                o = cls.from_datetime(datetime.fromtimestamp(ms // 1000).replace(microsecond=ms % 1000 * 1000))
                ctx.count('local_times')
            elif how == 'now':
                lo = datetime.now(timezone.utc)
                o = cls.now()
                hi = datetime.now(timezone.utc)
                ms = o.milliseconds()
                ctx.check(round(lo.timestamp() * 1000) - 1 <= ms <= round(hi.timestamp() * 1000) + 1, 'time-now', f'{cls.__name__}.now() is {ms} between {lo} and {hi}')
            else:
                if how == 'parse64':
                    ms = rng.choice([(1 << 64) - 1, (1 << 63), (1 << 63) - 1, (1 << 53) + 1, (1 << 53) - 1, last, last + 1, rng.randrange(1 << rng.randrange(1, 65))])
                o = tlvparse(cls)(wire.tlv(t, wire.u64(ms)))
            w = octets(o.serialize())
            p = tlvparse(cls)(w)
            same(ctx, 'time', ms, o.milliseconds(), (how, ms))
            same(ctx, 'time', wire.tlv(t, wire.u64(ms)), w, (how, ms))
            same(ctx, 'time-parsed', (ms, w), (p.milliseconds(), octets(p.serialize())), (how, ms))
            if ms <= last:
                for x in (o, p):
                    d = (x.datetime() - epoch) / timedelta(milliseconds=1)
                    ctx.check(abs(d - ms) < .3, 'time-datetime', lambda: f'{ms} ms shows as {x.datetime()}')
                    ctx.check(abs(x.timestamp() * 1000 - ms) < .1, 'time-seconds', lambda: f'{ms} ms shows as {x.timestamp()} s')
            if t == 6 and rng.random() < .3:
                pk = Packet.deserialize(A(octets(Packet.create_content_object(ContentObject.create_data(name=None, expiry_time=o)).serialize())))
                same(ctx, 'time-in-packet', ms, pk.body().expiry_time().milliseconds(), ms)
        ctx.count('times')
        ctx.distinct('time', how, ms)
    for cls in (ExpiryTime, SignatureTime):
        for x in (-1, -.001, -1e9, 1e17, 2.0 ** 64, float('nan'), float('inf'), None, 'now'):
            refused(ctx, cls.__name__, cls, x)
        refused(ctx, cls.__name__ + '-datetime', cls.from_datetime, datetime(1969, 12, 31, 23, 59, 59, tzinfo=timezone.utc))


def names(ctx):
    from ccnpy.core.Name import Name, NameComponent
    rng = ctx.rng
    for _ in range(25):
        comps = []
        for _ in range(rng.choice([0, 1, 2, 5, 40])):
            t = rng.choice([1, 1, 2, 5, 0x10, 0, 0xFFFF, 0x1000, rng.randrange(65536)])
            b = rng.choice([b'', b'\0', rng.randbytes(rng.randrange(1, 30)), b'/', b'%', 'é'.encode(), b'\xff\xfe', rng.randbytes(300), bytes(rng.randrange(260))])
            comps.append((t, b))
        with ctx.must_work('name'):
            o = Name([NameComponent(t, container(rng, b)) for t, b in comps])
            if rng.random() < .3:
                n = rng.choice(BOUNDARY)
                o, (t, b) = rng.choice([(o.append_chunk_id(n), (5, wire.varint(n))), (o.append_manifest_id(n), (0x10, wire.varint(n))),
                                        (o.append(NameComponent(7, b'seven')), (7, b'seven'))])
                comps = comps + [(t, b)]
            w = octets(o.serialize())
            p = tlvparse(Name)(w)
            same(ctx, 'name-octets', wire.name(comps), w, comps)
            for x in (o, p):
                same(ctx, 'name', comps, [(x.component(i).type(), octets(x.component(i).value())) for i in range(x.count())], comps)
            ctx.check(p == o and o == p, 'name-equal', lambda: f'a parsed name does not equal the one sent: {w.hex()[:200]}')
        ctx.distinct('name', w)
    with ctx.must_work('uri'):
        parts = [rng.choice(['a', 'file.mp4', 'é', 'e\u0301', '日本', 'a-b_c~', 'A', '0', 'v1', 'x' * 200, '...', '\u2126', '\ufb01', 'İ', 'ß', '😀',
                             '\u00a0a', 'b\u3000', 'a\u2003b', 'x y', '\ufeff', '~', '=', '1=2', 'a:b', '@', '!', '*', "'", '\\', '0x10', '-', '00',
                             ''.join(chr(rng.choice([rng.randrange(0xA1, 0xD800), rng.randrange(0x10000, 0x30000)])) for _ in range(rng.randrange(1, 8)))])
                 for _ in range(rng.randrange(1, 9))]
        o = Name.from_uri('ccnx:/' + '/'.join(parts))
        same(ctx, 'uri', [(1, x.encode()) for x in parts], [(o.component(i).type(), octets(o.component(i).value())) for i in range(o.count())], parts)
        for x in (o, tlvparse(Name)(octets(o.serialize())), Name([NameComponent(1, part.encode()) for part in parts])):
            same(ctx, 'name-text', parts, [x[i] for i in range(x.count())], parts)
    refused(ctx, 'long-component', lambda b: NameComponent(1, b), bytes(65536))
    refused(ctx, 'long-name', lambda k: Name([NameComponent(1, bytes(k))] * 2), 32768)
    with ctx.must_work('name'):
        w = octets(Name([NameComponent(1, bytes(65531))]).serialize())
        same(ctx, 'longest-name', wire.name([(1, bytes(65531))]), w, 'longest')
    refused(ctx, 'longer-name', lambda k: Name([NameComponent(1, bytes(k))]), 65532)


def payloads(ctx):
    """Octet strings up to the longest a packet takes, through octets and files."""
    from ccnpy.core.ContentObject import ContentObject
    from ccnpy.core.Packet import Packet
    from ccnpy.core.Payload import Payload
    rng = ctx.rng
    top = 65535 - 8 - 4 - 5 - 4     # header, content object, payload type, payload
    sizes = [0, 1, 3, 4, 127, 128, 255, 256, 257, 4095, 4096, 32767, 32768, top - 1, top] + [rng.randrange(top) for _ in range(3)]
    for n in rng.sample(sizes, 6) + [top]:
        b = rng.randbytes(n) if rng.random() < .7 else bytes([rng.choice([0, 255])]) * n
        with ctx.must_work('payload'):
            how = rng.choice(['bytes', 'array', 'list', 'payload'])
            x = {'bytes': b, 'array': A(b), 'list': list(b), 'payload': Payload(container(rng, b))}[how]
            o = Packet.create_content_object(ContentObject.create_data(name=None, payload=x))
            w = octets(o.serialize())
            p = Packet.deserialize(A(w))
            same(ctx, 'payload', b, octets(p.body().payload().value()), (how, n))
            same(ctx, 'payload-octets', wire.packet(wire.content_object(None, payload_type=0, payload=b)), w, (how, n))
            path = os.path.join(ctx.scratch(), f'p{n}')
            o.save(path)
            q = Packet.load(path)
            same(ctx, 'payload-file', b, octets(q.body().payload().value()), (how, n))
            same(ctx, 'packet-file', w, octets(q.serialize()), (how, n))
        ctx.count('files')
        ctx.count('packets')
        ctx.distinct('payload', how, n, b[:8])

    def make(n):
        return Packet.create_content_object(ContentObject.create_data(name=None, payload=bytes(n)))
    for n in (top + 1, top + 2, 65531, 65532, 65535, 65536, 70000, 1 << 20):
        refused(ctx, 'long-packet', make, n)
    for x in ([256], [-1], [0, 1, 1.5], ['a'], 5.5, object()):
        refused(ctx, 'payload-octets', Payload, x)


def fields(ctx):
    """Whole packets with every field at its limits, through an independent decoder, octets and a file."""
    from ccnpy.core.Packet import Packet
    rng = ctx.rng
    old = c05.rand_num
    c05.rand_num = lambda r: r.choice(BOUNDARY)
    try:
        for make in (c05.e_packet, c05.e_packet, c05.e_manifest, c05.e_ctx, c05.e_groupdata, c05.e_nodedata, c05.e_ncdef, c05.e_link,
                     c05.e_locators, c05.e_alg, c05.e_kdfdata, c05.e_hash, c05.e_node, c05.e_body):
            with ctx.must_work('construct'):
                e = make(rng)
            c05.judge(ctx, e)
            ctx.count('round_trips', 2 * len(e.fields))
            if e.kind in ('Packet', 'SignedPacket'):
                with ctx.must_work('file'):
                    path = os.path.join(ctx.scratch(), 'p')
                    e.obj.save(path)
                    q = Packet.load(path)
                    for f, want in e.fields:
                        same(ctx, 'field-from-file', want, f(q), e.want)
                ctx.count('packets')
                ctx.count('files')
    finally:
        c05.rand_num = old


def forms(ctx):
    """Numbers given in the other forms that are taken: octets, text, and plain numbers in place of elements."""
    from ccnpy.core.ContentObject import ContentObject
    from ccnpy.crypto.AeadKey import AeadGcm
    from ccnpy.flic.aeadctx.AeadData import AeadData
    from ccnpy.flic.aeadctx.AeadParameters import AeadParameters
    from ccnpy.flic.tlvs.AeadMode import AeadMode
    from ccnpy.flic.tlvs.KeyNumber import KeyNumber
    from ccnpy.flic.tlvs.NodeData import NodeData
    from ccnpy.flic.tlvs.Nonce import Nonce
    rng = ctx.rng

    def number(w):
        return int.from_bytes(octets(w)[4:], 'big')

    def least(n):
        return max(1, (n.bit_length() + 7) // 8)
    shapes = {
        'KeyNumber-octets': lambda n: KeyNumber(n.to_bytes(rng.randrange(least(n), max(9, least(n) + 1)), 'big')),
        'KeyNumber-text': lambda n: KeyNumber(rng.choice(['%d', '0x%x', '0X%X', '0o%o']) % n),
        'KeyNumber-binary': lambda n: KeyNumber(bin(n)),
        'AeadData': lambda n: AeadData(key_number=n, nonce=Nonce(bytes(8)), mode=AeadMode(1)).key_number(),
        'AeadParameters': lambda n: AeadParameters(key=AeadGcm(bytes(16)), key_number=n).key_number,
        'NodeData': lambda n: NodeData(subtree_size=n).subtree_size(),
        'final-chunk': lambda n: ContentObject.create_data(payload=b'x', final_chunk_id=n).final_chunk_id(),
    }
    for n in rng.sample(BOUNDARY, 60) + [0, 1, 255, 256, (1 << 64) - 1]:
        for what, make in shapes.items():
            with ctx.must_work(what):
                w = make(n).serialize()
            same(ctx, 'form-' + what, n, number(w), n)
            ctx.distinct('form', what, n)
    for n in OUTSIDE:
        for what, make in shapes.items():
            if n >= 0 or 'octets' not in what:
                refused(ctx, 'form-' + what, make, n)
    for x in ('', ' ', 'x', '0x', '0xg', '1.5', '08', '1e3', '--1', '-1'):
        refused(ctx, 'form-text', KeyNumber, x)
    ctx.count('forms')


def salts(ctx):
    """Salts and keys through wrapped keys, and out of their range."""
    from ccnpy.crypto.AeadKey import AeadCcm, AeadGcm
    from ccnpy.flic.RsaOaepCtx.WrappedKey import WrappedKey
    from ccnpy.flic.aeadctx.AeadData import AeadData
    from ccnpy.flic.aeadctx.AeadParameters import AeadParameters
    from ccnpy.flic.tlvs.AeadMode import AeadMode
    from ccnpy.flic.tlvs.KeyNumber import KeyNumber
    from ccnpy.flic.tlvs.Nonce import Nonce
    rng = ctx.rng
    for _ in range(4):
        salt = rng.choice([0, 1, 255, 256, 65535, 65536, (1 << 24), (1 << 31), (1 << 32) - 1, rng.randrange(1 << 32)])
        n = rng.choice([16, 32])
        key = rng.choice([bytes(n), b'\xff' * n, b'\0' + rng.randbytes(n - 1), rng.randbytes(n)])
        with ctx.must_work('wrap'):
            cls = rng.choice([AeadGcm, AeadCcm])
            k = cls(container(rng, key, ('bytes', 'array')))
            num = KeyNumber(rng.choice(BOUNDARY))
            rsa = gen.rsa_key(rng.choice(['a1024', 'c2048']))
            params = AeadParameters(key=k, key_number=num, aead_salt=salt)
            x = WrappedKey.create(wrapping_key=rsa, params=params)
            mode = {(AeadGcm, 16): AeadMode.create_aes_gcm_128, (AeadGcm, 32): AeadMode.create_aes_gcm_256,
                    (AeadCcm, 16): AeadMode.create_aes_ccm_128, (AeadCcm, 32): AeadMode.create_aes_ccm_256}[cls, n]()
            y = tlvparse(WrappedKey)(octets(x.serialize()))
            s, got = y.decrypt(wrapping_key=rsa, aead_data=AeadData(key_number=num, nonce=Nonce(bytes(8)), mode=mode, kdf_data=None))
        same(ctx, 'wrapped-salt', salt, s, salt)
        same(ctx, 'wrapped-key', key, octets(got), key)
        ctx.count('salts')
        ctx.distinct('salt', salt, key)
    for field in ('aead_salt', 'kdf_salt'):
        for x in (-1, 1 << 32, (1 << 32) + 1, 1 << 64, 1.5, 'x'):
            refused(ctx, field, lambda x: AeadParameters(key=AeadGcm(bytes(16)), key_number=KeyNumber(1), **{field: x}), x)
    for cls in (AeadGcm, AeadCcm):
        for n in (0, 1, 15, 17, 31, 33, 64):
            refused(ctx, cls.__name__, lambda n: cls(bytes(n)), n)


def trees(ctx):
    """The values given to a whole tree come out of its packets."""
    rng = ctx.rng
    cfg = gen.rand_cfg(rng, top=4000)
    cfg['size'] = rng.randrange(0, 3000)
    for k in ('root_expiry', 'manifest_expiry', 'data_expiry'):
        cfg[k] = rng.choice([None, 0, 1, 999, 1700000000123, 253402300799999, rng.randrange(1 << 41)])
    if cfg['enc']:
        cfg['enc']['num'] = rng.choice(BOUNDARY)
    run = gen.Run(ctx, cfg)
    view = run.view()
    for m in view.manifests:
        same(ctx, 'tree-expiry', cfg['root_expiry' if m.is_root else 'manifest_expiry'], m.pkt['expiry'], cfg)
        if cfg['enc']:
            same(ctx, 'tree-key-number', cfg['enc']['num'], m.man['ctx']['keynum'], cfg)
    same(ctx, 'tree-name', cfg['name'], view.root.pkt['name'], cfg)
    for p in view.data_pkts:
        same(ctx, 'tree-expiry', cfg['data_expiry'], p['expiry'], cfg)
    ctx.count('packets', len(run.writer.log))
    ctx.distinct('tree', *run.shape())


KINDS = {
    'numbers': (numbers, 63, 1500),
    'encoders': (encoders, 20, 1000),
    'exhaustive': (exhaustive, 32, 32),
    'times': (times, 60, 3000),
    'names': (names, 40, 2000),
    'payloads': (payloads, 30, 1000),
    'fields': (fields, 100, 6000),
    'forms': (forms, 16, 400),
    'salts': (salts, 12, 400),
    'trees': (trees, 60, 2000),
}
EXHAUSTIVE = 'thorough tier: all 65536 component types, suffix types and small chunk and manifest numbers'
