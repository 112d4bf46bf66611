"""C06: malformed octets are refused or understood, never worse."""
import copy
import struct
import time
from array import array

from .. import gen, wire
from . import c05

PROPERTY = 'C06'
LEVEL = 'exploration'
RULE = ('A case takes valid packets, manifests and names of the real library (plain, encrypted, signed, of every schema), '
        'or octets made up from the TLV grammar, changes them (octets, lengths, types, elements moved, doubled, dropped '
        'or swapped at any depth, numbers of odd widths) or cuts them at every octet, and parses them; or it puts each '
        'element of each structure in twice, at every place, with any of the others missing, relabels elements, puts in '
        'elements that have no place, leaves out needed ones, and ends structures within an element. The monitor '
        'watches for anything but an object or an ordinary error, for time, that nothing cut or doubled is accepted, and '
        'that what was accepted serializes to octets that parse to an equal object with the same octets and hash. Distinct cases are distinct octet strings.')
MINIMUM = {'evaluations': 280, 'distinct': 20000, 'accepted': 3000, 'refused': 8000, 'cuts': 4000, 'doubled': 3000, 'frayed': 2500,
           'relabelled': 3000, 'out_of_place': 600, 'done_without': 300, 'manifests_asked': 40, 'resized': 8000, 'resized_accepted': 3000, 'headers': 400, 'pads': 40}
CPU_LIMIT = 60
PARSE_SECONDS = 20


def parsers():
    from ccnpy.core.ContentObject import ContentObject
    from ccnpy.core.Name import Name
    from ccnpy.core.Packet import Packet
    from ccnpy.core.Tlv import Tlv
    from ccnpy.flic.tlvs.Manifest import Manifest
    return {
        'packet': Packet.deserialize,
        'object': lambda b: ContentObject.parse(Tlv.deserialize(b)),
        'name': lambda b: Name.parse(Tlv.deserialize(b)),
        'manifest': Manifest.deserialize,
    }


def attempt(ctx, kind, fn, octets):
    """-> object or None; anything but an ordinary error is a violation"""
    t = time.process_time()
    try:
        o = fn(array('B', octets))
    except (RecursionError, MemoryError, SystemError) as e:
        ctx.fail(f'{kind}-{type(e).__name__}', f'parsing {len(octets)} octets as a {kind} ended in {type(e).__name__}',
                 octets=octets)
    except Exception as e:
        ctx.count('refused')
        ctx.seen('errors', type(e).__name__)
        o = None
    except BaseException as e:
        if type(e).__name__ == 'CpuLimit':
            raise
        ctx.fail(f'{kind}-{type(e).__name__}', f'parsing ended in {type(e).__name__}', octets=octets)
    t = time.process_time() - t
    ctx.check(t < PARSE_SECONDS, f'{kind}-slow', f'parsing {len(octets)} octets took {t:.1f} s', octets=octets)
    return o


def observe(ctx, kind, octets, fns):
    """Parse the octets, and hold what was accepted to its word."""
    octets = bytes(octets)
    ctx.distinct(octets)
    fn = fns[kind]
    o = attempt(ctx, kind, fn, octets)
    if o is None:
        return None
    ctx.count('accepted')
    ctx.count('accepted_' + kind)
    try:
        w = bytes(o.serialize())
    except Exception as e:
        ctx.fail(f'{kind}-accepted-unserializable', f'an accepted {kind} cannot be serialized: {type(e).__name__}: {e}',
                 octets=octets)
    try:
        o2 = fn(array('B', w))
    except Exception as e:
        ctx.fail(f'{kind}-accepted-unreadable',
                 f'an accepted {kind} serializes to octets that are refused: {type(e).__name__}: {e}',
                 octets=octets, serialized=w)
    ctx.check(o2 is not None and bytes(o2.serialize()) == w, f'{kind}-unstable',
              f'an accepted {kind} serializes differently each time it is reloaded', octets=octets, serialized=w)
    ctx.check(o2 == o, f'{kind}-unequal', f'an accepted {kind} is not equal to itself reloaded', octets=octets)
    if kind == 'packet':
        ctx.check(bytes(o2.content_object_hash().value()) == bytes(o.content_object_hash().value()), 'packet-hash',
                  'an accepted packet changes its hash when reloaded', octets=octets)
        if o.body() is not None and getattr(o.body(), 'is_manifest', lambda: False)() and o.body().payload() is not None:
            observe(ctx, 'manifest', bytes(o.body().payload().value()), fns)
    return o


# ---------------------------------------------------------------- seeds

def seeds(ctx):
    """Octets of valid packets of a tree, and of packets of random fields."""
    rng = ctx.rng
    out = []
    cfg = gen.rand_cfg(rng, top=6000)
    r = gen.Run(ctx, cfg)
    log = [b for _, b in r.writer.log]
    out.append(log[-1])
    out += [rng.choice(log) for _ in range(3)]
    for _ in range(6):
        out.append(rand_packet(rng))
    return out


def rand_packet(rng):
    kind = rng.choice(['data', 'link', 'key', 'none'])
    payload = rng.randbytes(rng.randrange(0, 60))
    if kind == 'link':
        payload = wire.link_tuple(gen.rand_name(rng), rng.choice([None, rng.randbytes(32)]), rng.choice([None, rng.randbytes(32)]))
    body = wire.content_object(rng.choice([None, gen.rand_name(rng)]), rng.choice([None, rng.randrange(1 << 42)]),
                               {'data': 0, 'link': 2, 'key': 1, 'none': None}[kind], payload,
                               rng.choice([None, c05.rand_num(rng)]))
    alg = vp = b''
    r = rng.random()
    if r < .3:
        alg, vp = wire.alg_crc32c(), wire.validation_payload(rng.randbytes(4))
    elif r < .6:
        alg = wire.alg_rsa(rng.randbytes(32), None,
                           rng.choice([None, wire.link_tuple(gen.rand_name(rng))]), rng.randrange(1 << 42))
        vp = wire.validation_payload(rng.randbytes(128))
    return wire.packet(body, alg, vp)


# ---------------------------------------------------------------- element trees, without any idea of the types

def parse_tree(buf, depth=0):
    """A list of [type, value or list]; a value is taken apart wherever it happens to have the form of TLVs."""
    try:
        parts = wire.tlvs(buf)
    except wire.WireError:
        return None
    if not parts:
        return None
    out = []
    for t, v in parts:
        sub = parse_tree(v, depth + 1) if depth < 9 and len(v) >= 4 else None
        if sub is not None and any(x[0] > 0x1fff for x in sub):
            sub = None
        out.append([t, sub if sub is not None else v])
    return out


def encode_tree(tree):
    out = b''
    for t, v in tree:
        if isinstance(v, list):
            v = encode_tree(v)
        out += struct.pack('>HH', t & 0xFFFF, len(v) & 0xFFFF) + v
    return out


def nodes(tree, acc=None):
    acc = [] if acc is None else acc
    for i, (t, v) in enumerate(tree):
        acc.append((tree, i))
        if isinstance(v, list):
            nodes(v, acc)
    return acc


TYPES = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 0xB, 0xD, 0xE, 0xF, 0x10, 0x11, 0x12, 0xFFE, 0xFFF, 0x7F, 0x1000]


def mutate_tree(rng, tree):
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        ns = nodes(tree)
        if not ns:
            return
        lst, i = rng.choice(ns)
        k = rng.randrange(11)
        if k == 0:
            lst[i][0] = rng.choice(TYPES)
        elif k == 1:
            del lst[i]
        elif k == 2:
            lst.insert(i, [lst[i][0], lst[i][1]])
        elif k == 3 and len(lst) > 1:
            j = rng.randrange(len(lst))
            lst[i], lst[j] = lst[j], lst[i]
        elif k == 4:
            lst[i][1] = rng.randbytes(rng.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 31, 32, 33, 64]))
        elif k == 5:
            lst[i][1] = bytes(rng.randrange(1, 9)) + bytes([rng.randrange(256)])
        elif k == 6:
            lst.insert(i, [rng.choice(TYPES), rng.randbytes(rng.randrange(0, 9))])
        elif k == 7:
            l2, j = rng.choice(ns)
            if j < len(l2):
                lst[i] = [l2[j][0], l2[j][1] if not isinstance(l2[j][1], list) else encode_tree(l2[j][1])]
        elif k == 8 and isinstance(lst[i][1], list):
            rng.shuffle(lst[i][1])
        elif k == 9:
            lst[i][1] = b''
        else:
            v = lst[i][1]
            b = bytearray(encode_tree(v) if isinstance(v, list) else v)
            if b:
                b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
                lst[i][1] = bytes(b)


def with_header(rng, body, fix=True):
    n = 8 + len(body)
    r = rng.random()
    ptype = 1 if r < .85 else rng.choice([0, 2, 3, 255])
    hlen = 8 if rng.random() < .93 else rng.choice([0, 7, 9, 12, 20, 255])
    plen = n if rng.random() < .9 else rng.choice([0, 7, 8, n - 1, n + 1, 65535])
    return struct.pack('>BBHBBBB', 1, ptype, plen & 0xFFFF, 0, 0, 0, hlen) + body


def mutate_octets(rng, b):
    b = bytearray(b)
    for _ in range(rng.choice([1, 1, 1, 2, 3, 8])):
        if not b:
            break
        k = rng.randrange(7)
        i = rng.randrange(len(b))
        if k == 0:
            b[i] ^= 1 << rng.randrange(8)
        elif k == 1:
            b[i] = rng.choice([0, 1, 2, 3, 4, 0x7f, 0x80, 0xff, rng.randrange(256)])
        elif k == 2:
            del b[i:i + rng.choice([1, 1, 2, 4, 20])]
        elif k == 3:
            b[i:i] = rng.randbytes(rng.choice([1, 1, 2, 4, 20]))
        elif k == 4:
            j = rng.randrange(len(b))
            b[i:i] = b[j:j + rng.randrange(1, 60)]
        elif k == 5 and len(b) > 12:
            i = rng.randrange(8, len(b) - 1)
            b[i:i + 2] = struct.pack('>H', max(0, min(65535, struct.unpack('>H', b[i:i + 2])[0] + rng.choice([-4, -1, 1, 4]))))
        else:
            b[i:i + 4] = rng.randbytes(min(4, len(b) - i))
    return bytes(b)


def mutants(ctx):
    rng = ctx.rng
    fns = parsers()
    for seed in seeds(ctx):
        o = observe(ctx, 'packet', seed, fns)
        ctx.check(o is not None, 'valid-refused', 'a valid packet is refused', octets=seed)
        for kind, m in mutant_octets(rng, seed, 40 if ctx.thorough else 16):
            observe(ctx, kind, m, fns)
    ctx.sample({'mutant': m})


def mutant_octets(rng, seed, count):
    """(kind, octets) made from those of a valid packet"""
    tree = parse_tree(seed[8:])
    for _ in range(count):
        t = copy.deepcopy(tree)
        mutate_tree(rng, t)
        yield 'packet', with_header(rng, encode_tree(t))
        yield 'packet', mutate_octets(rng, seed)
        if rng.random() < .3:
            sub = rng.choice(nodes(tree))
            e = copy.deepcopy([sub[0][sub[1]]])
            mutate_tree(rng, e)
            yield rng.choice(['object', 'name', 'manifest']), encode_tree(e)


def grammar(ctx):
    """Octets from the TLV grammar with types taken from all over the format."""
    fns = parsers()
    for kind, b in grammar_octets(ctx.rng, 120 if ctx.thorough else 40):
        observe(ctx, kind, b, fns)


def grammar_octets(rng, count):
    """(kind, octets)"""
    fns = parsers()

    def rand_tlv(depth, t=None):
        t = rng.choice(TYPES) if t is None else t
        if depth <= 0 or rng.random() < .35:
            r = rng.random()
            if r < .4:
                v = rng.randbytes(rng.choice([0, 1, 1, 2, 3, 4, 8, 9]))
            elif r < .7:
                v = wire.tlv(1, rng.randbytes(32))
            else:
                v = rng.randbytes(rng.randrange(0, 40))
        else:
            v = b''.join(rand_tlv(depth - 1) for _ in range(rng.randrange(0, 5)))
        return wire.tlv(t, v)

    def of(parent, depth):
        """A TLV in the place where the format has one, filled by chance."""
        kids = {2: [0, 6, 5, 1, 7], 'node': [0, 1, 1, 0xFFE], 'nodedata': [2, 3, 6, 4, 0xFFF], 'hg': [0xB, 7],
                'gd': [2, 3, 0, 1, 5, 4]}[parent]
        return [k for k in kids if rng.random() < .7] if rng.random() < .8 else [rng.choice(kids) for _ in range(rng.randrange(6))]

    def number():
        return rng.randbytes(rng.choice([1, 1, 2, 3, 4, 5, 7, 8])) if rng.random() < .93 else rng.randbytes(rng.choice([0, 9, 16]))

    def hashv():
        return wire.tlv(rng.choice([1, 1, 1, 2, 3]), rng.randbytes(rng.choice([32, 32, 32, 64, 0, 1])))

    def name():
        return b''.join(wire.tlv(rng.choice([1, 1, 2, 5, 0x10, 0x7777]), rng.randbytes(rng.randrange(0, 9))) for _ in range(rng.randrange(0, 4)))

    def link():
        return b''.join([wire.tlv(0, name())] * (rng.random() < .8) + [wire.tlv(2, hashv())] * (rng.random() < .4) +
                        [wire.tlv(3, hashv())] * (rng.random() < .4))

    def locators():
        return b''.join(wire.tlv(0xD, link()) for _ in range(rng.randrange(0, 3)))

    def schema():
        t = rng.choice([0x10, 0x11, 0x12, 0x13])
        v = b''
        if t != 0x10 and rng.random() < .9:
            v += wire.tlv(0, name())
        if t == 0x12 and rng.random() < .9:
            v += wire.tlv(2, rng.choice([b'\x00\x05', b'\x00\x10', rng.randbytes(2), number()]))
        if rng.random() < .6:
            v += wire.tlv(6, locators())
        if rng.random() < .3:
            v += wire.tlv(1, rng.randbytes(rng.randrange(0, 5)))
        return wire.tlv(t, v)

    def nodedata():
        v = b''
        for k in of('nodedata', 0):
            x = {2: number, 3: hashv, 6: locators, 4: lambda: wire.tlv(5, number()) + schema(),
                 0xFFF: lambda: rng.randbytes(rng.randrange(0, 9))}[k]()
            v += wire.tlv(k, x)
        return v

    def hashgroup():
        v = b''
        for k in of('hg', 0):
            if k == 7:
                v += wire.tlv(7, b''.join(hashv() for _ in range(rng.randrange(0, 4))))
            else:
                g = b''
                for q in of('gd', 0):
                    g += wire.tlv(q, hashv() if q in (3, 1) else number())
                v += wire.tlv(0xB, g)
        return v

    def node():
        v = b''
        for k in of('node', 0):
            v += wire.tlv(k, {0: nodedata, 1: hashgroup, 0xFFE: lambda: bytes(rng.randrange(0, 9))}[k]())
        return wire.tlv(1, v)

    def manifest():
        if rng.random() < .6:
            return node()
        kdf = wire.tlv(5, b''.join([wire.tlv(6, number())] * (rng.random() < .9) + [wire.tlv(7, rng.randbytes(4))] * (rng.random() < .5)))
        base = (wire.tlv(0, number()) + wire.tlv(1, rng.randbytes(rng.choice([8, 12, 1]))) +
                wire.tlv(2, bytes([rng.choice([1, 2, 3, 4, 4, 7])])) + (kdf if rng.random() < .5 else b''))
        t = rng.choice([0, 1])
        if t == 1:
            base += ((wire.tlv(9, hashv()) if rng.random() < .8 else b'') + (wire.tlv(0xE, link()) if rng.random() < .3 else b'') +
                     (wire.tlv(3, number()) if rng.random() < .8 else b'') + (wire.tlv(4, rng.randbytes(128)) if rng.random() < .8 else b''))
        parts = [wire.tlv(0, wire.tlv(t, base)), wire.tlv(2, rng.randbytes(rng.randrange(0, 99))), wire.tlv(3, rng.randbytes(16))]
        if rng.random() < .1:
            rng.shuffle(parts)
        return b''.join(parts)

    def co():
        v = b''
        isman = rng.random() < .5
        for k in of(2, 0):
            x = {0: name, 6: lambda: rng.randbytes(8 if rng.random() < .9 else rng.randrange(0, 12)),
                 5: lambda: bytes([3 if isman else rng.randrange(5)]),
                 1: lambda: manifest() if isman else rng.randbytes(rng.randrange(0, 40)), 7: number}[k]()
            v += wire.tlv(k, x)
        return wire.tlv(2, v)

    for _ in range(count):
        yield 'manifest', manifest()
        b = co()
        yield 'object', b
        alg = b''
        if rng.random() < .5:
            alg = rng.choice([wire.alg_crc32c(), wire.tlv(3, wire.tlv(4, b''.join(
                [wire.tlv(9, hashv())] * (rng.random() < .6) + [wire.tlv(0xE, link())] * (rng.random() < .3) +
                [wire.tlv(0xB, rng.randbytes(20))] * (rng.random() < .1) + [wire.tlv(0xF, rng.randbytes(8))] * (rng.random() < .9)))),
                rand_tlv(2, 3)])
            alg += wire.validation_payload(rng.randbytes(rng.choice([0, 4, 128])))
        yield 'packet', with_header(rng, b + alg)
        yield 'name', wire.tlv(0, name())
        yield rng.choice(['name', 'object', 'manifest']), rand_tlv(4)
        yield 'packet', with_header(rng, rand_tlv(4, 2) + (rand_tlv(3, 3) if rng.random() < .5 else b''))
        yield rng.choice(list(fns)), rng.randbytes(rng.randrange(0, 60))


def cuts(ctx):
    """A packet cut in the middle of an element, at every octet."""
    rng = ctx.rng
    fns = parsers()
    for seed in seeds(ctx)[:5]:
        p = wire.dec_packet(seed)
        ends = {8 + len(p['body'])}
        if p['alg'] is not None:
            ends.add(8 + len(p['body']) + len(p['alg']))
        points = list(range(len(seed)))
        if len(points) > 500:
            points = sorted(set(rng.sample(points, 300)) | set(range(60)) | set(range(len(seed) - 60, len(seed))))
        for i in points:
            if i in ends or i == 8:
                # between two elements: this may be a shorter packet, but must not be worse
                if i > 8:
                    observe(ctx, 'packet', seed[:i], fns)
                continue
            o = attempt(ctx, 'packet', fns['packet'], seed[:i])
            ctx.count('cuts')
            ctx.check(o is None, 'cut-accepted', f'a packet of {len(seed)} octets cut to {i} octets is accepted',
                      octets=seed, cut=i)
            ctx.distinct(seed[:i])
        # the same inside a manifest or a name standing alone
        if p['is_manifest']:
            man = p['payload']
            tops = []
            n = 0
            for t, v in wire.tlvs(man):
                n += 4 + len(v)
                tops.append(n)
            for i in (range(len(man)) if len(man) < 300 else rng.sample(range(len(man)), 200)):
                if i in tops or i == 0:
                    continue
                o = attempt(ctx, 'manifest', fns['manifest'], man[:i])
                ctx.count('cuts')
                ctx.check(o is None, 'cut-manifest-accepted', f'a manifest of {len(man)} octets cut to {i} octets is accepted',
                          octets=man, cut=i)
        if p['name'] is not None:
            nm = wire.name(p['name'])
            for i in range(len(nm)):
                o = attempt(ctx, 'name', fns['name'], nm[:i])
                ctx.count('cuts')
                ctx.check(o is None, 'cut-name-accepted', f'a name of {len(nm)} octets cut to {i} octets is accepted',
                          octets=nm, cut=i)


def big(ctx):
    """Long octet strings: many tiny elements, deep nesting, huge lengths."""
    rng = ctx.rng
    fns = parsers()
    for kind, b in big_octets(rng, ctx.index % 7):
        observe(ctx, kind, b, fns)
    ctx.count('long_inputs')


def big_octets(rng, k):
    if k == 0:
        b = wire.tlv(0, b''.join(wire.tlv(rng.choice([1, 5, 0x10]), rng.randbytes(rng.randrange(2))) for _ in range(12000))[:65532 // 4 * 4 - 8])
    elif k == 1:
        b = b''
        while len(b) < 60000:
            b = wire.tlv(rng.choice(TYPES), b)
    elif k == 2:
        b = wire.tlv(1, b'\x00\x01\x00\x00' * 16000)
    elif k == 3:
        b = wire.tlv(1, wire.tlv(1, wire.tlv(7, b''.join(wire.tlv(1, rng.randbytes(32)) for _ in range(1800)))))
    elif k == 4:
        b = wire.tlv(0, b''.join(wire.tlv(0xFFE, b'') for _ in range(16000)))
    elif k == 5:
        b = wire.tlv(2, wire.tlv(0, b'\x00\x01\x00\x00' * 15000))
    else:
        # thousands of groups that have no pointers, or none of their own
        none = rng.choice([b'', wire.tlv(7, b''), wire.tlv(0xB, wire.tlv(5, b'\1')), wire.tlv(0xB, wire.tlv(5, b'\1')) + wire.tlv(7, b'')])
        some = wire.tlv(0xB, wire.tlv(5, b'\1')) + wire.tlv(7, wire.tlv(1, rng.randbytes(32)))
        b = wire.tlv(1, wire.tlv(1, none) * 3000 + wire.tlv(1, some) * 2)
    for kind in ('name', 'object', 'manifest'):
        yield kind, b
    for t in (0, 1, 5, 6):
        yield 'packet', with_header(rng, wire.tlv(2, wire.tlv(t, b[4:])) if len(b) < 65400 else b)
    if len(b) < 65400:
        yield 'packet', with_header(rng, wire.tlv(2, wire.tlv(5, b'\3') + wire.tlv(1, b)))


# ---------------------------------------------------------------- an element twice

def structures(rng):
    """{name: (parser kind, octets around the elements, [(element name, maker, needed)])}, every element once at most"""
    T = wire.tlv

    def hashv():
        return T(1, rng.randbytes(32))

    def name():
        return T(0, b''.join(T(1, rng.randbytes(rng.randrange(1, 6))) for _ in range(rng.randrange(1, 4))))

    def number():
        return rng.randbytes(rng.choice([1, 2, 4, 8]))

    def locators():
        return T(6, T(0xD, name() + (T(3, hashv()) if rng.random() < .5 else b'')))

    def schema():
        return rng.choice([lambda: T(0x10, locators()), lambda: T(0x11, name()), lambda: T(0x12, name() + T(2, b'\0\5'))])()

    def ncdef():
        return T(4, T(5, number()) + schema())

    def group():
        return T(1, T(0xB, T(4, number())) + T(7, hashv() + hashv()))

    def body():
        return T(2, name() + T(5, b'\0') + T(1, rng.randbytes(9)))

    def kdf():
        return T(5, T(6, b'\0\1') + T(7, rng.randbytes(5)))

    def aead():
        return T(0, number()) + T(1, rng.randbytes(12)) + T(2, b'\1')

    def crypted():
        return T(2, rng.randbytes(40)) + T(3, rng.randbytes(16))

    def plain(b):
        return T(1, b)

    header = b'\1\1\0\x50\0\0\0\x08'
    keyid, alg_link, when = ('key id', lambda: T(9, hashv()), 1), ('key link', lambda: T(0xE, name()), 0), ('time', lambda: T(0xF, rng.randbytes(8)), 0)
    ctx_fields = [('key number', lambda: T(0, number()), 1), ('nonce', lambda: T(1, rng.randbytes(12)), 1),
                  ('mode', lambda: T(2, b'\1'), 1), ('kdf', kdf, 0)]
    return {
        'packet': ('packet', lambda b: header + b,
                   [('body', body, 1), ('algorithm', lambda: T(3, T(2, b'')), 0), ('signature', lambda: T(4, rng.randbytes(4)), 0)]),
        'object': ('object', lambda b: T(2, b),
                   [('name', name, 0), ('expiry', lambda: T(6, b'\0\0' + rng.randbytes(6)), 0), ('payload type', lambda: T(5, bytes([rng.randrange(3)])), 0),
                    ('payload', lambda: T(1, rng.randbytes(rng.randrange(0, 20))), 0), ('final chunk', lambda: T(7, number()), 0)]),
        'object in a packet': ('packet', lambda b: header + T(2, b) + T(3, T(2, b'')) + T(4, b'abcd'),
                               [('name', name, 0), ('payload type', lambda: T(5, b'\0'), 0), ('payload', lambda: T(1, rng.randbytes(20)), 0)]),
        'algorithm': ('packet', lambda b: header + body() + T(3, T(4, b)) + T(4, rng.randbytes(128)), [keyid, alg_link, when]),
        'node data': ('manifest', lambda b: plain(T(0, b) + group()),
                      [('size', lambda: T(2, number()), 0), ('digest', lambda: T(3, hashv()), 0), ('locators', locators, 0)]),
        'definition': ('manifest', lambda b: plain(T(0, T(4, b)) + group()), [('number', lambda: T(5, number()), 1), ('schema', schema, 1)]),
        'hashed schema': ('manifest', lambda b: plain(T(0, T(4, T(5, b'\1') + T(0x10, b))) + group()), [('locators', locators, 1)]),
        'prefix schema': ('manifest', lambda b: plain(T(0, T(4, T(5, b'\1') + T(0x11, b))) + group()), [('name', name, 1)]),
        'segmented schema': ('manifest', lambda b: plain(T(0, T(4, T(5, b'\1') + T(0x12, b))) + group()),
                             [('name', name, 1), ('suffix', lambda: T(2, b'\0\5'), 1)]),
        'node': ('manifest', lambda b: plain(b + group()), [('node data', lambda: T(0, T(2, number()) + ncdef()), 0), ('pad', lambda: T(0xFFE, bytes(rng.randrange(9))), 0)]),
        'group': ('manifest', lambda b: plain(T(1, b)), [('group data', lambda: T(0xB, T(4, number())), 0), ('pointers', lambda: T(7, hashv()), 1)]),
        'group data': ('manifest', lambda b: plain(T(1, T(0xB, b) + T(7, hashv()))),
                       [('size', lambda: T(2, number()), 0), ('digest', lambda: T(3, hashv()), 0), ('leaf size', lambda: T(0, number()), 0),
                        ('leaf digest', lambda: T(1, hashv()), 0), ('start', lambda: T(5, number()), 0), ('constructor', lambda: T(4, number()), 0)]),
        'aead context': ('manifest', lambda b: T(0, T(0, b)) + crypted(), ctx_fields),
        'oaep context': ('manifest', lambda b: T(0, T(1, b)) + crypted(),
                         ctx_fields + [keyid, alg_link, ('hash', lambda: T(3, b'\0\1'), 1), ('wrapped key', lambda: T(4, rng.randbytes(128)), 1)]),
        'kdf': ('manifest', lambda b: T(0, T(0, aead() + T(5, b))) + crypted(), [('algorithm', lambda: T(6, b'\0\1'), 1), ('info', lambda: T(7, rng.randbytes(4)), 0)]),
        'link': ('manifest', lambda b: plain(T(0, T(6, T(0xD, b))) + group()),
                 [('name', name, 0), ('key id', lambda: T(2, hashv()), 0), ('digest', lambda: T(3, hashv()), 0)]),
        'manifest': ('manifest', lambda b: b, [('context', lambda: T(0, T(0, aead())), 1), ('node', lambda: T(2, rng.randbytes(30)), 1),
                                               ('tag', lambda: T(3, rng.randbytes(16)), 1)]),
    }


def doubled(ctx):
    rng = ctx.rng
    fns = parsers()
    for what, (kind, around, elements) in structures(rng).items():
        # with all elements once it is accepted
        ok = around(b''.join(make() for _, make, _ in elements))
        o = attempt(ctx, kind, fns[kind], ok)
        ctx.check(o is not None, 'whole-refused', f'a {what} with every element once is refused', octets=ok)
        for twice, make2, _ in elements:
            for r in range(6 if ctx.thorough else 3):
                present = [(n, make()) for n, make, needed in elements
                           if n == twice or r == 0 or rng.random() < (.8 if needed else .5)]
                first = dict(present)[twice]
                how = rng.random()
                # again, another one, or an empty one
                second = first if how < .3 else first[:2] + b'\0\0' if how < .5 else make2()
                i = rng.randrange(len(present) + 1) if r else len(present)
                octs = around(b''.join(b for _, b in present[:i]) + second + b''.join(b for _, b in present[i:]))
                o = attempt(ctx, kind, fns[kind], octs)
                ctx.count('doubled')
                ctx.seen('doubled_elements', what + ': ' + twice)
                ctx.distinct(octs)
                ctx.check(o is None, 'doubled-accepted', f'a {what} with its {twice} twice is accepted', octets=octs)


def frayed(ctx):
    """An element whose last part is cut off, in lengths that are right around it."""
    rng = ctx.rng
    fns = parsers()
    T = wire.tlv
    hv = T(1, rng.randbytes(32))
    group = T(1, T(7, hv))
    plain = lambda b: T(1, b)
    sts = structures(rng)
    del sts['node']
    sts.update({
        'a name': ('name', lambda b: T(0, b), [('component', lambda: T(1, rng.randbytes(3)), 1)]),
        'name of a link': ('manifest', lambda b: plain(T(0, T(6, T(0xD, T(0, b)))) + group), [('component', lambda: T(1, rng.randbytes(3)), 1)]),
        'pointers': ('manifest', lambda b: plain(T(1, T(7, b))), [('pointer', lambda: T(1, rng.randbytes(32)), 1)]),
        'locators': ('manifest', lambda b: plain(T(0, T(6, b)) + group), [('locator', lambda: T(0xD, T(0, T(1, b'x'))), 1)]),
        'whole node': ('manifest', plain, [('node data', lambda: T(0, T(2, b'\5')), 0), ('group', lambda: T(1, T(7, T(1, rng.randbytes(32)))), 1)]),
        'validation algorithm': ('packet', lambda b: b'\1\1\0\x50\0\0\0\x08' + T(2, T(1, b'x')) + T(3, b) + T(4, b'abcd'), [('crc', lambda: T(2, b''), 1)]),
        'security context': ('manifest', lambda b: T(0, b) + T(2, bytes(20)) + T(3, bytes(16)),
                             [('aead', lambda: T(rng.randrange(2), T(0, b'\1') + T(1, bytes(12)) + T(2, b'\1')), 1)]),
        'digest of a node': ('manifest', lambda b: plain(T(0, T(3, b)) + group), [('hash', lambda: T(1, rng.randbytes(32)), 1)]),
        'digest of a group': ('manifest', lambda b: plain(T(1, T(0xB, T(rng.choice([1, 3]), b)) + T(7, hv))), [('hash', lambda: T(1, rng.randbytes(32)), 1)]),
        'key id': ('packet', lambda b: b'\1\1\0\x50\0\0\0\x08' + T(2, T(1, b'x')) + T(3, T(4, T(9, b))) + T(4, b'abcd'), [('hash', lambda: T(1, rng.randbytes(32)), 1)]),
        'hash of a link': ('manifest', lambda b: plain(T(0, T(6, T(0xD, T(0, T(1, b'x')) + T(rng.choice([2, 3]), b)))) + group), [('hash', lambda: T(1, rng.randbytes(32)), 1)]),
        'whole object': ('object', lambda b: T(2, b), [('payload', lambda: T(1, rng.randbytes(4)), 0)]),
    })
    for what, (kind, around, elements) in sts.items():
        whole = [(n, make()) for n, make, needed in elements if needed or rng.random() < .7]
        parts = [b for _, b in whole]
        ok = around(b''.join(parts))
        for _ in range(5 if not ctx.thorough else 12):
            n = rng.randrange(1, 8)
            t = rng.choice([0, 1, 2, 7, rng.randrange(65536)])
            tail = (t.to_bytes(2, 'big') + (rng.choice([n, n + 1, 255, 65535])).to_bytes(2, 'big') + bytes(n))[:n]
            if rng.random() < .3 and parts:
                tail = rng.choice(parts)[:-1]
            octs = around(b''.join(parts) + tail)
            o = attempt(ctx, kind, fns[kind], octs)
            ctx.count('frayed')
            ctx.seen('frayed_elements', what)
            ctx.distinct(octs)
            ctx.check(o is None, 'frayed-accepted', f'a {what} that ends within an element is accepted', octets=octs, tail=tail)


NO_PLACE = ('Packet', 'SignedPacket', 'ContentObject', 'Link', 'KeyLink', 'Locator', 'Locators', 'Manifest', 'NcDef', 'Node', 'NodeData')
NEEDED = (('packet', 'body'), ('packet', 'algorithm'), ('packet', 'signature'), ('algorithm', 'key id'), ('aead context', 'key number'),
          ('aead context', 'nonce'), ('oaep context', 'key number'), ('oaep context', 'nonce'), ('oaep context', 'key id'),
          ('kdf', 'algorithm'), ('link', 'name'), ('manifest', 'node'))


def strict(ctx):
    """No element is taken for one of another type, dropped where it has no place, or done without where it is needed."""
    from ccnpy.core.ContentObject import ContentObject
    from ccnpy.core.HashValue import HashValue
    from ccnpy.core.Tlv import Tlv
    from ccnpy.flic.tlvs.Manifest import Manifest
    rng = ctx.rng
    for make in c05.ELEMENTS:
        with ctx.must_work('construct'):
            e = make(rng)
        cls = type(e.obj)
        if e.parse is None:
            continue
        if hasattr(cls, 'class_type') and hasattr(cls, 'parse') and cls is not HashValue:
            t = int.from_bytes(e.want[:2], 'big')
            others = [x for x in (t ^ 1, t + 1, 0xFFE, 0xFFF, 0x7777, *range(0x13)) if x != t]
            for x in rng.sample(others, 4):
                octs = x.to_bytes(2, 'big') + e.want[2:]
                o = attempt(ctx, 'element', lambda b: cls.parse(Tlv.deserialize(b)), octs)
                ctx.count('relabelled')
                ctx.check(o is None, 'taken-for-another', f'a TLV of type {x} is accepted as a {e.kind}, which has type {t}', octets=octs)
        if e.kind in NO_PLACE:
            head, value = ((e.want[:8], e.want[8:]) if 'Packet' in e.kind else (b'', e.want) if e.kind in ('Link', 'Manifest') else
                           (e.want[:2], e.want[4:]))
            parts = [wire.tlv(*x) for x in wire.tlvs(value)]
            for x in rng.sample([0x20, 0x30, 0x7777, 0x1000, 0xFFD], 2):
                i = rng.randrange(len(parts) + 1)
                b = b''.join(parts[:i]) + wire.tlv(x, rng.randbytes(rng.randrange(5))) + b''.join(parts[i:])
                if len(head) + len(b) > 60000:
                    continue
                octs = head[:2] + (len(b) + 8).to_bytes(2, 'big') + head[4:] + b if len(head) == 8 else head + len(b).to_bytes(2, 'big') + b if head else b
                o = attempt(ctx, e.kind, lambda b: e.parse(bytes(b)), octs)
                ctx.count('out_of_place')
                ctx.seen('out_of_place_in', e.kind)
                ctx.check(o is None, 'dropped', f'a {e.kind} with an element of type {x}, for which it has no place, is accepted', octets=octs)
        if e.kind == 'ContentObject':
            with ctx.must_work('content object'):
                o = ContentObject.parse(Tlv.deserialize(array('B', e.want)))
                is_manifest = o.is_manifest()
            try:
                Manifest.from_content_object(o)
                got = True
            except Exception:
                got = False
            ctx.check(got == is_manifest, 'manifest-of-other', lambda: f'a content object {"that is" if is_manifest else "that is not"} a '
                      f'manifest {"gives" if got else "does not give"} one: {e.want.hex()[:300]}')
            ctx.count('manifests_asked')
    fns = parsers()
    st = structures(rng)
    for what, dropped in NEEDED:
        kind, around, elements = st[what]
        octs = around(b''.join(make() for n, make, needed in elements if n != dropped and (needed or what == 'packet' or rng.random() < .6)))
        o = attempt(ctx, kind, fns[kind], octs)
        ctx.count('done_without')
        ctx.check(o is None, 'done-without', f'a {what} without {dropped} is accepted', octets=octs)
        ctx.distinct(octs)


NUMBERS = ('PayloadType', 'HashAlg', 'ExpiryTime', 'SignatureTime', 'FinalChunkId', 'NcId', 'KeyNumber', 'StartSegmentId', 'SubtreeSize', 'LeafSize',
           'SuffixComponentType', 'KdfAlg', 'AeadMode')


def resized(ctx):
    """Every element with its value cut short to each length, or with octets after it: what is accepted comes out as it went in."""
    from ccnpy.core.FixedHeader import FixedHeader
    from ccnpy.core.Packet import Packet
    from ccnpy.core.Tlv import Tlv
    from ccnpy.flic.tlvs.Vendor import Vendor
    rng = ctx.rng
    fns = parsers()
    for make in c05.ELEMENTS:
        with ctx.must_work('construct'):
            e = make(rng)
        cls = type(e.obj)
        if e.parse is None or not (hasattr(cls, 'class_type') and hasattr(cls, 'parse')) or len(e.want) > 2000:
            continue
        value = e.want[4:]
        lengths = sorted(set(range(min(len(value), 20))) | {rng.randrange(len(value) + 1) for _ in range(5)})
        for v in [value[:n] for n in lengths] + [value + rng.randbytes(n) for n in (1, 2, 4)]:
            octs = wire.tlv(int.from_bytes(e.want[:2], 'big'), v)
            ctx.distinct(octs)
            ctx.count('resized')
            o = attempt(ctx, 'element', lambda b: cls.parse(Tlv.deserialize(b)), octs)
            if o is None:
                ctx.seen('refused_in_some_size', e.kind)
                continue
            with ctx.must_work('serialize'):
                back = bytes(o.serialize())
            same = back == octs or e.kind in NUMBERS and back[:2] == octs[:2] and int.from_bytes(back[4:], 'big') == int.from_bytes(v, 'big')
            ctx.check(same, 'resized', f'a {e.kind} of {len(v)} octets is accepted, and comes out as other octets', octets=octs, back=back)
            ctx.seen('accepted_in_some_size', e.kind)
            ctx.count('resized_accepted')
    T = wire.tlv
    for n in range(6):
        octs = T(0xFFF, rng.randbytes(n))
        o = attempt(ctx, 'element', lambda b: Vendor.parse(Tlv.deserialize(b)), octs)
        ctx.check((o is not None) == (n >= 3), 'vendor-size', f'a vendor element of {n} octets is {"refused" if o is None else "accepted"}', octets=octs)
    for pad in (bytes(rng.randrange(9)), rng.randbytes(rng.randrange(1, 9)), bytes(rng.randrange(4)) + b'\1' + bytes(rng.randrange(2))):
        octs = T(1, T(1, T(7, T(1, rng.randbytes(32)))) + T(0xFFE, pad))
        o = attempt(ctx, 'manifest', fns['manifest'], octs)
        ctx.check(o is None or bytes(o.serialize()) == octs, 'pad-dropped', f'a node with the pad {pad.hex()} is accepted, and comes out as other octets', octets=octs)
        ctx.check(o is not None or any(pad), 'pad-refused', 'a padded node is refused', octets=octs)
        ctx.count('pads')
    body = T(2, T(1, rng.randbytes(rng.randrange(20))))
    for kind, field in (('packet length', 2), ('header length', 7), ('version', 0)):
        for x in (*range(12), rng.randrange(256)):
            h = bytearray(b'\1\1\0\0\0\0\0\x08')
            h[3] = 8 + len(body)
            h[field + (field == 2)] = x
            good = x == 1 if field == 0 else x >= 8
            o = attempt(ctx, 'header', FixedHeader.deserialize, bytes(h))
            ctx.check((o is not None) == good, 'header-size', f'a fixed header with {kind} {x} is {"refused" if o is None else "accepted"}', octets=h)
            if o is not None:
                ctx.check(bytes(o.serialize()) == bytes(h), 'header-octets', f'a fixed header with {kind} {x} comes out as other octets', octets=h)
            good = x == h[3] if field == 2 else x == 8 if field == 7 else good
            if field != 7 or x < 8:
                o = attempt(ctx, 'packet', Packet.deserialize, bytes(h) + body)
                ctx.check(field == 2 or (o is not None) == good, 'packet-size', f'a packet with {kind} {x} is {"refused" if o is None else "accepted"}', octets=bytes(h) + body)
            ctx.count('headers')


KINDS = {'resized': (resized, 30, 1500), 'frayed': (frayed, 40, 2000), 'strict': (strict, 60, 3000), 'doubled': (doubled, 40, 1500), 'mutants': (mutants, 110, 3000), 'grammar': (grammar, 110, 4000), 'cuts': (cuts, 60, 1200), 'big': (big, 14, 70)}
