"""C25: looking at objects does not change them."""
import contextlib
from enum import Enum
import hashlib
import io
import random
import inspect
import os
from array import array

from .. import gen, handmade, refcrypto, treemodel, wire
from . import c05, c06, c07, c08, c17, c22
from .c05 import A, octets

PROPERTY = 'C25'
LEVEL = 'exploration'
RULE = ('A case makes every object twice from the same values or octets and leaves one alone. On the other, and on the parts '
        'its accessors hand out, it does a random sequence of observations (print, pretty-print, compare, hash, measure, '
        'iterate, abandon an iteration, nest two, serialize, ask every getter, validate, decrypt, save, read). After that '
        'both must give the same octets, the prescribed ones, the same hash and the same values of every getter, and '
        'nothing may have raised. Every constructor is watched for changes to its arguments, and objects are used as parts of several others. Whatever mutated or made up octets the parsers accept is looked at too. Trees are built while their packets are being looked at, some with all debug output on, and read many times from one '
        'store of shared objects. Distinct cases are distinct (kind, octets).')
MINIMUM = {'evaluations': 500, 'distinct': 3000, 'observations': 45000, 'objects': 5000, 'getters': 250000, 'trees_observed': 60,
           'readings': 200, 'validated': 300, 'constructions': 5000, 'extended': 150, 'decrypted': 600,
           'odd_accepted': 1200, 'talkative_trees': 10}


def library(o):
    return type(o).__module__.startswith('ccnpy')


_getters = {}


def getters(cls):
    """Public methods and properties that take nothing."""
    if cls not in _getters:
        out = []
        for n in sorted(dir(cls)):
            if n.startswith('_') or n in ('save', 'load', 'generate', 'pause', 'resume', 'close', 'reset_count', 'plot', 'reverse_iterator'):
                continue
            raw = inspect.getattr_static(cls, n)
            if isinstance(raw, (classmethod, staticmethod)) or not inspect.isfunction(raw):
                continue
            ps = list(inspect.signature(raw).parameters.values())[1:]
            if all(p.default is not p.empty or p.kind in (p.VAR_POSITIONAL, p.VAR_KEYWORD) for p in ps):
                out.append(n)
        _getters[cls] = out
    return _getters[cls]


def norm(x, depth=0):
    """A value in a form that can be kept and compared."""
    if x is None or isinstance(x, (bool, int, float, str)):
        return x
    if isinstance(x, (bytes, bytearray)):
        return bytes(x)
    if isinstance(x, array):
        return x.tobytes()
    if depth > 5:
        return type(x).__name__
    if isinstance(x, dict):
        return tuple((norm(k, depth + 1), norm(v, depth + 1)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return tuple(norm(v, depth + 1) for v in x)
    if library(x):
        if hasattr(x, 'serialize'):
            return type(x).__name__, octets(x.serialize())
        if hasattr(x, '__dataclass_fields__'):
            return type(x).__name__, tuple((f, norm(getattr(x, f), depth + 1)) for f in x.__dataclass_fields__)
        return type(x).__name__
    return repr(x) if '0x' not in repr(x) else type(x).__name__


def values(ctx, o, deep=True):
    """Everything the public getters of an object and of its parts say."""
    out = []
    todo, seen = [(type(o).__name__, o)], set()
    while todo:
        path, x = todo.pop()
        if id(x) in seen or len(seen) > 200:
            continue
        seen.add(id(x))
        if hasattr(x, 'serialize'):
            out.append((path, 'octets', octets(x.serialize())))
        if '__len__' in dir(type(x)):
            out.append((path, 'len', len(x)))
        for n in getters(type(x)):
            try:
                v = getattr(x, n)()
            except Exception as e:
                v = f'raised {type(e).__name__}'
            ctx.count('getters')
            out.append((path, n, norm(v)))
            if deep and library(v):
                todo.append((path + '.' + n, v))
            elif deep and isinstance(v, list):
                todo.extend((f'{path}.{n}[{i}]', y) for i, y in enumerate(v) if library(y))
    return out


def parts(rng, o, steps=3):
    """A random part of an object, or itself."""
    for _ in range(rng.randrange(steps + 1)):
        g = getters(type(o))
        if not g:
            break
        try:
            v = getattr(o, rng.choice(g))()
        except Exception:
            continue
        if isinstance(v, (list, tuple)) and v:
            v = rng.choice(v)
        if library(v) and not hasattr(v, '__next__'):
            o = v
    return o


@contextlib.contextmanager
def works(ctx, what, o):
    try:
        yield
    except Exception as e:
        from ..harness import Violation
        if isinstance(e, Violation):
            raise
        ctx.fail(f'{what}-raised-{type(e).__name__}', f'{what} of a {type(o).__name__} raised {type(e).__name__}: {str(e)[:200]}')


def iterable(o):
    """A node is iterated by name constructor: every group must have one."""
    if type(o).__name__ == 'Node':
        return all(g.group_data() is not None and g.group_data().nc_id() is not None for g in o.hash_groups())
    return True


def same_text(ctx, o):
    """Pretty text is the plain text with other spaces."""
    from ccnpy.core.DisplayFormatter import DisplayFormatter
    t = DisplayFormatter.prettify(o)
    ctx.check(''.join(filter(str.isalnum, t)) == ''.join(filter(str.isalnum, str(o))), 'pretty-text', lambda: f'{str(o)[:300]} is shown as {t[:300]}')
    ctx.count('pretty_texts')


def observe(ctx, o, other=None, pretty=.02):
    """One random observation."""
    rng = ctx.rng
    op = rng.choice(['repr', 'str', 'eq', 'hash', 'len', 'iter', 'part-iter', 'nested-iter', 'serialize', 'getter', 'format', 'bool', 'eq-foreign', 'dict'])
    if rng.random() < pretty:
        op = 'pretty'
    T = type(o)
    with works(ctx, op, o):
        if op == 'repr':
            ctx.check(isinstance(repr(o), str), 'repr', 'no text')
        elif op == 'str':
            ctx.check(str(o) == str(o), 'str-changes', f'a {T.__name__} prints otherwise the second time')
        elif op == 'format':
            f'{o} {o!r}', '%s %r' % (o, o)
        elif op == 'pretty':
            if len(str(o)) < 6000:
                same_text(ctx, o)
        elif op == 'eq':
            ctx.check(bool(o == o) and not (o != o), 'unequal-itself', f'a {T.__name__} does not equal itself')
            if other is not None and type(other) is T and T.__eq__ is not object.__eq__:
                ctx.check(bool(o == other) and bool(other == o), 'unequal-twin', f'a {T.__name__} that was looked at does not equal its twin')
        elif op == 'eq-foreign':
            for f in (None, 0, 'x', b'', [], object()):
                ctx.check(not (o == f), 'equal-foreign', f'a {T.__name__} equals {f!r}')
        elif op == 'hash':
            if T.__hash__ is not None:
                ctx.check(hash(o) == hash(o), 'hash-changes', f'a {T.__name__} hashes otherwise the second time')
        elif op == 'dict':
            if T.__hash__ is not None:
                d = {o: 1}
                repr(o)
                ctx.check(d.get(o) == 1 and o in {o}, 'dict', f'a {T.__name__} is not found in a dictionary')
        elif op == 'len' and hasattr(T, '__len__'):
            len(o)
        elif op == 'bool':
            if o:
                pass
        elif op == 'serialize' and hasattr(T, 'serialize'):
            ctx.check(octets(o.serialize()) == octets(o.serialize()), 'serialize-again', f'a {T.__name__} serializes to other octets the second time')
        elif op in ('iter', 'part-iter', 'nested-iter') and hasattr(T, '__iter__') and iterable(o):
            if op == 'part-iter':
                for i, x in enumerate(o):
                    if i >= rng.randrange(3):
                        break
            elif op == 'nested-iter':
                n = 0
                for x in o:
                    m = sum(1 for _ in o)
                    repr(o)
                    n += 1
                    if n > 3:
                        break
            whole = [norm(x) for x in o]
            ctx.check(whole == [norm(x) for x in o], 'iterate-again', f'a {T.__name__} gives other items the second time')
            # stepwise, with other looks between
            if len(whole) < 300:
                it, got = iter(o), []
                while True:
                    if rng.random() < .1:
                        repr(o), sum(1 for _ in o), (o == other)
                    x = next(it, it)
                    if x is it:
                        break
                    got.append(norm(x))
                ctx.check(got == whole, 'iterate-disturbed', f'an iteration over a {T.__name__} is disturbed by looking at it')
        elif op == 'getter':
            for n in rng.sample(getters(T), min(3, len(getters(T)))):
                try:
                    getattr(o, n)()
                except Exception:
                    pass
    ctx.count('observations')


def compare(ctx, seen, twin, kind, want=None):
    a, b = values(ctx, seen), values(ctx, twin)
    for x, y in zip(a, b):
        ctx.check(x == y, f'{kind}-changed', lambda: f'after looking, {x[0]} {x[1]} is {x[2]!r}, untouched it is {y[2]!r}'[:600])
    ctx.check(len(a) == len(b), f'{kind}-parts', f'after looking, a {kind} has {len(a)} values, untouched {len(b)}')
    for o in (seen, twin):
        got = octets(o.serialize())
        ctx.check(want is None or got == want, f'{kind}-octets', lambda: f'the octets are {got.hex()[:200]}, they were {want.hex()[:200]}')
        if type(o).__eq__ is not object.__eq__:
            ctx.check(bool(seen == twin), f'{kind}-equal', f'a {kind} that was looked at does not equal its twin')
    ctx.count('objects')


def twice(rng, make):
    """The same thing made twice."""
    st = rng.getstate()
    a = make(rng)
    rng.setstate(st)
    return a, make(rng)


def elements(ctx):
    rng = ctx.rng
    for make in rng.sample(c05.ELEMENTS, 8):
        with ctx.must_work('construct'):
            a, b = twice(rng, make)
        pairs = [(a.obj, b.obj)]
        if a.parse is not None:
            with ctx.must_work('parse'):
                pairs.append((a.parse(a.want), a.parse(a.want)))
        for x, y in pairs:
            for _ in range(rng.randrange(3, 14)):
                p = parts(rng, x)
                observe(ctx, p, y if p is x else None)
            compare(ctx, x, y, a.kind, a.want)
            ctx.seen('kinds', a.kind)
        ctx.distinct(a.kind, a.want)


def heavy(ctx, p, w, ks):
    """Whole operations on a packet."""
    from ccnpy.core.Packet import Packet
    from ccnpy.core.PacketValidator import PacketValidator
    from ccnpy.flic.tlvs.Manifest import Manifest
    from ccnpy.flic.tree.TreeIO import TreeIO
    rng = ctx.rng
    op = rng.choice(['validate', 'validate', 'validate', 'save', 'memory', 'manifest', 'pretty'])
    with works(ctx, op, p):
        if op == 'validate':
            PacketValidator(ks).validate_packet(p)
            ctx.count('validated')
        elif op == 'save':
            f = os.path.join(ctx.scratch(), 'p')
            p.save(f)
            with open(f, 'rb') as g:
                ctx.check(g.read() == w, 'saved', 'a packet was saved as other octets')
            ctx.check(Packet.load(f) == p, 'loaded', 'a saved packet loads as another')
        elif op == 'memory':
            m = TreeIO.PacketMemoryReader([p])
            ctx.check(m.get(name=p.body().name(), hash_restriction=p.content_object_hash()) == p, 'memory', 'a store returns another packet')
        elif op == 'manifest' and p.body().payload_type() is not None and p.body().payload_type().is_manifest():
            m = Manifest.from_content_object(p.body())
            for _ in range(3):
                observe(ctx, parts(rng, m))
        elif op == 'pretty':
            if len(w) < 1200 and rng.random() < .3:
                same_text(ctx, p)
    ctx.count('observations')


def packets(ctx):
    """Packets of all kinds, signed, with names that are not text."""
    from ccnpy.core.ContentObject import ContentObject
    from ccnpy.core.Packet import Packet
    from ccnpy.core.Tlv import Tlv
    rng = ctx.rng
    ks = c08.keystore()
    for _ in range(3):
        r = rng.random()
        if r < .4:
            v = c07.rand_values(rng)
            w = c07.octets_of(v)
            with ctx.must_work('construct'):
                x, y = twice(rng, lambda q: c07.build(q, v))
        else:
            how = rng.choice([None, 'crc', 'a1024', 'b1024'])
            nm = gen.rand_name(rng) if rng.random() < .8 else None
            if rng.random() < .5:
                w = handmade.data(rng.randbytes(rng.choice([0, 1, 50, 3000])), nm, how)[1]
            else:
                w = handmade.manifest(handmade.node([handmade.group([rng.randbytes(32) for _ in range(rng.randrange(1, 9))], 1, rng.choice([None, 0, 300]))],
                                                    [handmade.ncdef(1, handmade.schema(*c17.rand_schema(rng)))]), nm, how)[1]
            with ctx.must_work('parse'):
                x, y = Packet.deserialize(A(w)), Packet.deserialize(A(w))
            if how is not None:
                for _ in range(2):
                    heavy(ctx, x, w, ks)
        h = hashlib.sha256(w[8:]).digest()
        for _ in range(rng.randrange(4, 16)):
            p = parts(rng, x)
            observe(ctx, p, y if p is x else None)
            if rng.random() < .15 and r >= .4:
                heavy(ctx, x, w, ks)
            if rng.random() < .2:
                ctx.check(octets(x.content_object_hash().value()) == h, 'hash', 'the hash of a packet changed')
        compare(ctx, x, y, 'packet', w)
        ctx.check(octets(x.content_object_hash().value()) == h, 'hash', 'the hash of a packet changed')
        ctx.distinct('packet', w)


def odd(ctx):
    """Whatever the parsers accept, however strange, can be looked at."""
    rng = ctx.rng
    fns = c06.parsers()
    if ctx.index % 7 == 0:
        octs = c06.big_octets(rng, rng.choice([1, 6, 6, rng.randrange(7)]))
    elif ctx.index % 2:
        octs = c06.grammar_octets(rng, 16)
    else:
        octs = (m for _ in range(4) for m in c06.mutant_octets(rng, c06.rand_packet(rng) if rng.random() < .5 else odd_seed(rng), 8))
    for kind, b in octs:
        look_at(ctx, kind, b, fns)
    n = gen.rand_name(rng) + [(rng.choice([1, 2, 5, 5, 0x10, 0x10, 0x1234]), rng.randbytes(rng.choice([0, 8, 9, 1780, 1790, 5000])))]
    look_at(ctx, 'name', wire.name(n), fns)
    look_at(ctx, 'packet', wire.packet(wire.content_object(n, None, rng.choice([None, 0, 1, 2, 3, 4]), rng.choice([None, b'', b'\0']))), fns)


def odd_seed(rng):
    """A manifest with everything in it, or payload that is not what its type says."""
    if rng.random() < .3:
        return wire.packet(wire.content_object(gen.rand_name(rng), None, rng.choice([2, 3]), rng.choice([None, b'', rng.randbytes(rng.randrange(40))])))
    return handmade.manifest(handmade.node([handmade.group([rng.randbytes(32) for _ in range(rng.randrange(1, 5))], 1, rng.choice([None, 0, 300])) for _ in range(rng.randrange(1, 4))],
                                           [handmade.ncdef(1, handmade.schema(*c17.rand_schema(rng)))]), gen.rand_name(rng), rng.choice([None, 'crc', 'a1024']))[1]


def look_at(ctx, kind, b, fns):
    rng = ctx.rng
    try:
        x, y = fns[kind](A(b)), fns[kind](A(b))
    except Exception:
        return
    ctx.count('odd_accepted')
    ctx.count('odd_' + kind)
    for what, look in (('repr', repr), ('str', str), ('len', len), ('eq', lambda o: o == y)):
        with works(ctx, what, x):
            look(x)
    for _ in range(rng.randrange(2, 6)):
        p = parts(rng, x)
        observe(ctx, p, y if p is x else None, pretty=.002)
    if len(b) < 9000:
        compare(ctx, x, y, kind)
    ctx.distinct(kind, b)
    if kind == 'packet' and x.body() is not None and x.body().is_content_object() and x.body().is_manifest() and x.body().payload() is not None:
        look_at(ctx, 'manifest', octets(x.body().payload().value()), fns)


def encrypted(ctx):
    """Decrypting, any number of times, leaves the manifest, the keys and the parameters alone."""
    from ccnpy.core.Tlv import Tlv
    from ccnpy.crypto.InsecureKeystore import InsecureKeystore
    from ccnpy.flic.RsaOaepCtx.RsaOaepDecryptor import RsaOaepDecryptor
    from ccnpy.flic.aeadctx.AeadDecryptor import AeadDecryptor
    from ccnpy.flic.tlvs.Manifest import Manifest
    from ccnpy.flic.tlvs.Node import Node
    from . import c09
    rng = ctx.rng
    e = c09.rand_params(rng)
    with ctx.must_work('encryptor'):
        enc = gen.encryptor(e)
        ks = InsecureKeystore()
        if e['kind'] == 'aead':
            par = gen.aead_params(e)
            dec = AeadDecryptor(par)
        else:
            ks.add_rsa_key('k', gen.rsa_key(e['rsa']))
            dec = RsaOaepDecryptor(ks)
    for _ in range(3):
        o, w, v, gs, _ = c05.rnode(rng)
        with ctx.must_work('parse'):
            node, twin = (Node.parse(Tlv.deserialize(A(w))) for _ in range(2))
        m = c09.encrypt(ctx, enc, node)
        compare(ctx, node, twin, 'node-encrypted')
        for _ in range(2):
            c09.encrypt(ctx, enc, node)
        with ctx.must_work('parse'):
            x, y = Manifest.deserialize(A(m)), Manifest.deserialize(A(m))
        for _ in range(rng.randrange(3, 9)):
            if rng.random() < .5:
                with works(ctx, 'decrypt', x):
                    d = dec.decrypt_manifest(x) if rng.random() < .6 else Manifest(node=dec.decrypt_node(x.security_ctx(), x.node(), x.auth_tag()))
                ctx.check(octets(d.node().serialize()) == wire.tlv(1, v), 'decrypted', 'the manifest decrypts to another node')
                observe(ctx, parts(rng, d))
                ctx.count('decrypted')
            else:
                p = parts(rng, x)
                observe(ctx, p, y if p is x else None)
            if rng.random() < .3:
                with works(ctx, 'repr', enc):
                    repr(enc), repr(dec), str(ks)
        compare(ctx, x, y, 'encrypted-manifest', m)
        ctx.distinct('encrypted', m)


@contextlib.contextmanager
def talkative(ctx, opts):
    """With the debug output of everything turned on."""
    import sys
    from ccnpy.flic.tree.Traversal import Traversal  # noqa: so that the classes are loaded
    on = []
    for name, m in list(sys.modules.items()):
        if name.startswith('ccnpy') and m is not None:
            for c in list(vars(m).values()):
                if inspect.isclass(c) and c.__module__ == name and vars(c).get('DEBUG') is False:
                    c.DEBUG = True
                    on.append(c)
    with contextlib.suppress(AttributeError):
        opts.debug = True
    ctx.count('talkative_trees')
    ctx.maximum('debug_switches', len(on))
    try:
        yield
    finally:
        for c in on:
            c.DEBUG = False


def trees(ctx):
    with contextlib.ExitStack() as stack:
        _trees(ctx, stack)


def _trees(ctx, stack):
    """A tree built while its packets are looked at, and read many times from shared objects."""
    from ccnpy.core.HashValue import HashValue
    from ccnpy.flic.tree.TreeIO import TreeIO
    rng = ctx.rng
    cfg = gen.rand_cfg(rng, top=4000)
    cfg['size'] = rng.randrange(0, 4000)
    data = gen.rand_data(random.Random(cfg['data_seed']), cfg['size'])
    c22.reset()
    a = gen.Run(ctx, cfg, data)
    # the same, with every packet and the options looked at as it is written
    from ccnpy.flic.ManifestTree import ManifestTree
    w = gen.RecordingWriter()
    with ctx.must_work('setup'):
        opts = gen.options(cfg)
    ks = gen.keystore(cfg)
    if rng.random() < .3:
        stack.enter_context(talkative(ctx, opts))

    def look(packet):
        for _ in range(rng.randrange(0, 5)):
            observe(ctx, parts(rng, packet))
        for old in rng.sample(w.packets, min(1, len(w.packets))):
            observe(ctx, parts(rng, old))
        if rng.random() < .2:
            repr(opts), str(opts)
    w.before = look
    c22.reset()
    with ctx.must_work('build'):
        root = ManifestTree(io.BytesIO(data), w, opts).build()
    rh = octets(root.content_object_hash().value())
    c22.compare(ctx, cfg, (a.writer.log, a.root_hash), (w.log, rh), 'observed')
    ctx.count('trees_observed')
    # read from shared objects, with looks between and during
    objs = list(w.packets)
    before = [octets(p.serialize()) for p in objs]
    mem = TreeIO.PacketMemoryReader(objs)

    class Looking:
        def get(self, *a, **kw):
            p = mem.get(*a, **kw)
            if rng.random() < .3:
                observe(ctx, parts(rng, p))
            return p

        def close(self):
            pass
    n = rng.randrange(2, 6)
    for i in range(n):
        reader = rng.choice([mem, Looking()])
        sink, t = gen.library_read(ctx, reader, opts.name, HashValue.create_sha256(list(rh)), rng.choice([ks, ks, gen.keystore(cfg)]))
        ctx.check(sink.value() == data, 'reads-otherwise', f'reading {i + 1} of one tree gives another file')
        ctx.count('readings')
        if rng.random() < .5:
            for p in rng.sample(objs, min(3, len(objs))):
                observe(ctx, parts(rng, p))
    for (h, o), p, b in zip(w.log, objs, before):
        ctx.check(octets(p.serialize()) == o == b, 'tree-octets', 'a packet has other octets after its tree was read')
        ctx.check(octets(p.content_object_hash().value()) == h, 'tree-hash', 'a packet has another hash after its tree was read')
    ctx.sample(cfg)


def snapshot(x, depth=0):
    """The octets of an argument of a constructor, if it has any."""
    if isinstance(x, (bytes, bytearray)):
        return bytes(x)
    if isinstance(x, array):
        return x.tobytes()
    if isinstance(x, (list, tuple, dict)) and depth < 3:
        return type(x).__name__, tuple(snapshot(y, depth + 1) for y in (x.items() if isinstance(x, dict) else x))
    if library(x) and hasattr(x, 'serialize') and not inspect.isclass(x):
        try:
            return octets(x.serialize())
        except Exception:
            return None
    return x if isinstance(x, (int, str, float, type(None))) else None


@contextlib.contextmanager
def watched_constructors(ctx):
    """Every constructor of the library, and the operations that make an object of others, must leave its arguments alone."""
    import sys
    from ..harness import REPO
    undo = []

    def watch(cls, name, raw):
        def wrapper(self, *args, **kw):
            before = snapshot((args, kw))
            me = snapshot(self) if name != '__init__' else None
            out = raw(self, *args, **kw)
            ctx.count('constructions')
            ctx.check(snapshot((args, kw)) == before, f'{cls.__name__}-argument', f'{cls.__name__}.{name} changes what it is given')
            if name != '__init__':
                ctx.check(snapshot(self) == me, f'{cls.__name__}-{name}', f'{cls.__name__}.{name} changes the object')
            return out
        wrapper.__name__ = name
        undo.append((cls, name, raw))
        setattr(cls, name, wrapper)
    for m in list(sys.modules.values()):
        if not getattr(m, '__name__', '').startswith('ccnpy'):
            continue
        for cls in list(vars(m).values()):
            if inspect.isclass(cls) and cls.__module__ == m.__name__ and not issubclass(cls, (Exception, Enum)):
                for name in ('__init__', 'extend', '__add__'):
                    raw = vars(cls).get(name)
                    if inspect.isfunction(raw) and (name == '__init__' or 'serialize' in dir(cls)):
                        watch(cls, name, raw)
    try:
        yield
    finally:
        for cls, name, raw in undo:
            setattr(cls, name, raw)


def names_from_names(ctx, comps):
    """Names made of other names: a family tree, none of which changes."""
    from ccnpy.core.Name import Name, NameComponent
    rng = ctx.rng
    with works(ctx, 'appending', None):
        family = [(gen.name_obj(comps) if comps or rng.random() < .5 else Name(), list(comps))]
        for _ in range(rng.randrange(1, 8)):
            n, have = rng.choice(family)
            k = rng.choice([0, 255, 256, 65536, rng.randrange(1 << 40)])
            how = rng.choice(['chunk', 'manifest', 'component'])
            if how == 'chunk':
                family.append((n.append_chunk_id(k), have + [(5, wire.varint(k))]))
            elif how == 'manifest':
                family.append((n.append_manifest_id(k), have + [(0x10, wire.varint(k))]))
            else:
                t, v = gen.rand_component(rng)
                family.append((n.append(NameComponent(t, v)), have + [(t, v)]))
            rng.choice(family)[0].as_uri()
        for n, have in family:
            ctx.check(octets(n.serialize()) == wire.name(have) and n.count() == len(have) and len(n) == len(wire.name(have)) and
                      [(n.component(i).type(), octets(n.component(i).value())) for i in range(len(have))] == have,
                      'name-changed', lambda: f'{n} should have the components {have}')
            observe(ctx, n, gen.name_obj(have))


def groups_from_builder(ctx):
    """Groups taken from a builder that goes on: each stays as it was when it was taken."""
    from ccnpy.core.HashValue import HashValue
    from ccnpy.flic.HashGroupBuilder import HashGroupBuilder
    from ccnpy.flic.tlvs.Node import Node
    from ccnpy.flic.tlvs.NcId import NcId
    rng = ctx.rng
    with works(ctx, 'building groups', None):
        b, have, taken = HashGroupBuilder(), [], []
        for _ in range(rng.randrange(2, 9)):
            h = rng.randbytes(32)
            hv = HashValue.create_sha256(list(h))
            how = rng.randrange(4)
            (b.append_direct, b.prepend_direct, b.append_indirect, b.prepend_indirect)[how](hv, rng.choice([None, 5]))
            have = [h] + have if how % 2 else have + [h]
            if rng.random() < .6:
                g = b.hash_group(nc_id=NcId(7))
                taken.append((g, list(have)))
                taken.append((Node(hash_groups=[g]).hash_groups()[0], list(have)))
        for g, hs in taken:
            want = b''.join(wire.tlv(1, h) for h in hs)
            ps = g.pointers()
            ctx.check([octets(p.value()) for p in ps] == hs and len(ps) == len(hs) and [octets(ps[i].value()) for i in range(len(ps))] == hs,
                      'group-changed', f'a group of {len(hs)} pointers has {len(ps)} after the builder went on')
            ctx.check(octets(ps.serialize())[4:] == want, 'group-octets', 'a group has other octets after the builder went on')
            ctx.check([octets(x.hash_value.value()) for x in Node(hash_groups=[g])] == hs, 'group-changed', 'iterating a node gives other pointers than its octets')
        ctx.count('groups', len(taken))


def reuse(ctx):
    """Objects used as parts of others: none of them changes."""
    from ccnpy.core.Link import Link
    from ccnpy.core.Name import Name, NameComponent
    from ccnpy.core.Tlv import Tlv
    from ccnpy.core.KeyLink import KeyLink
    from ccnpy.core.HashValue import HashValue
    rng = ctx.rng
    with watched_constructors(ctx):
        for make in rng.sample(c05.ELEMENTS, 10):
            with ctx.must_work('construct'):
                make(rng)
        for _ in range(6):
            # one name, used many times
            comps = gen.rand_name(rng)
            with ctx.must_work('construct'):
                n = gen.name_obj(comps)
                want = octets(n.serialize())
                h = HashValue.create_sha256(list(rng.randbytes(32)))
                hw = octets(h.serialize())
                made = []
                for _ in range(3):
                    kw = {}
                    if rng.random() < .8:
                        kw['name'] = n
                    if rng.random() < .5:
                        kw['keyid'] = h
                    if rng.random() < .5:
                        kw['digest'] = h
                    if kw:
                        made.append((Link(**kw), kw))
                for o, kw in made:
                    got = octets(o.serialize())
                    ctx.check(got[:len(wire.name(comps))] == wire.name(comps) if 'name' in kw else True, 'link-name', 'a link has another name than it was given')
                    rest = octets(Link(**kw).serialize())
                    ctx.check(rest == got, 'made-again', f'a second link of the same parts has other octets: {got.hex()} / {rest.hex()}')
            ctx.check(octets(n.serialize()) == want and octets(h.serialize()) == hw, 'part-changed', 'a name or hash changed when it was put in a link')
            t1, t2 = rng.randrange(65536), rng.randrange(65536)
            v1, v2 = rng.randbytes(rng.randrange(0, 60)), rng.randbytes(rng.randrange(0, 60))
            with ctx.must_work('extend'):
                a, b = Tlv(t1, c05.container(rng, v1, ('array', 'list', 'bytes'))), Tlv(t2, A(v2))
                for other, w2 in ((b, v2), (b, v2), (Tlv(t2, A(v2)), v2)):
                    c = a.extend(other)
                    ctx.check(octets(c.serialize()) == wire.tlv(t1, v1 + wire.tlv(t2, w2)), 'extend', 'a TLV extended by another has other octets')
                    ctx.check(octets(a.serialize()) == wire.tlv(t1, v1) and octets(a.value()) == v1 and len(a) == 4 + len(v1) and
                              octets(b.serialize()) == wire.tlv(t2, v2) and octets(b.value()) == v2, 'extend-changes', 'extending a TLV changes it')
            ctx.count('extended')
            ctx.distinct('reuse', comps, v1, v2)
            names_from_names(ctx, [] if rng.random() < .2 else comps)
            groups_from_builder(ctx)
        # a whole tree made of shared options
        cfg = gen.rand_cfg(rng, top=2000)
        gen.Run(ctx, cfg)


KINDS = {
    'reuse': (reuse, 40, 1500),
    'elements': (elements, 380, 12000),
    'packets': (packets, 280, 6000),
    'odd': (odd, 70, 2500),
    'encrypted': (encrypted, 120, 2500),
    'trees': (trees, 90, 3000),
}
