"""Generators of tree configurations and data, and the builder that runs the real library on them."""
import io
import random

from . import refcrypto, treemodel
from .harness import Violation

SCHEMAS = ('hashed', 'prefix', 'segmented')

_pool = ['a', 'b', 'file', 'video.mp4', 'x' * 40, 'm', 'd', 'données', '例え', 'a b', 'a=b', '~x', '0', 'Name=z', 'v1.2.3', '%41',
         'chunk', '日本', '-', '_', "o'neil", '"q"', 'a+b', '\u00e9', 'ff' * 10]


def rand_bytes(rng, n):
    return rng.randbytes(n)


def rand_component(rng):
    r = rng.random()
    if r < .7:
        return (1, rng.choice(_pool).encode())
    if r < .8:
        return (1, rand_bytes(rng, rng.randrange(1, 12)))
    if r < .85:
        return (2, rand_bytes(rng, rng.randrange(1, 6)))
    if r < .9:
        return (1, b'')
    if r < .95:
        return (rng.choice([5, 0x10]), bytes([rng.randrange(256)]))
    return (rng.randrange(0x1000, 0x2000), rand_bytes(rng, rng.randrange(0, 9)))


def rand_name(rng, lo=1, hi=4, uri_safe=False):
    n = rng.randrange(lo, hi + 1) if lo != 1 or rng.random() > .04 else 0
    if uri_safe:
        return [(1, rng.choice([p for p in _pool if p not in ('%41',)]).encode()) for _ in range(n)]
    return [rand_component(rng) for _ in range(n)]


def near_name(rng, name):
    """Another name, that differs from this one as little as names can."""
    name = list(name)
    ways = ['add', 'type', 'zero-first', 'zero-last', 'bit'] + (['drop', 'swap', 'merge', 'case', 'split'] if name else [])
    for _ in range(30):
        n, how = list(name), rng.choice(ways if name else ['add'])
        i = rng.randrange(len(n)) if n else 0
        if how == 'add':
            n.insert(rng.randrange(len(n) + 1), rng.choice([(1, b''), (1, b'x'), (5, b'\0'), (5, b'')] + name))
        elif how == 'drop':
            del n[i]
        elif how == 'swap':
            rng.shuffle(n)
        elif how == 'merge' and len(n) > 1:
            i = rng.randrange(len(n) - 1)
            n[i:i + 2] = [(n[i][0], n[i][1] + n[i + 1][1])]
        elif how == 'split':
            t, v = n[i]
            k = rng.randrange(len(v) + 1)
            n[i:i + 1] = [(t, v[:k]), (t, v[k:])]
        elif n:
            # the last component tells chunks apart
            i = rng.choice([i, len(n) - 1])
            t, v = n[i]
            n[i] = {'type': (rng.choice([x for x in (1, 4, 5, 6, 0x1000, t ^ 0x100) if x != t]), v), 'zero-first': (t, b'\0' + v), 'zero-last': (t, v + b'\0'),
                    'case': (t, v.swapcase()), 'bit': (t, (bytes([v[0] ^ 1 << rng.randrange(8)]) + v[1:]) if v else b'\1')}.get(how, (t, v))
        if n and n != name:
            return n
    return name + [(1, b'other')]


def rand_data(rng, size):
    k = rng.random()
    if k < .55:
        return rand_bytes(rng, size)
    if k < .7:
        return bytes([rng.randrange(256)]) * size
    if k < .85:
        p = rand_bytes(rng, rng.randrange(1, 700))
        return (p * (size // len(p) + 1))[:size]
    # long runs: equal chunks between different ones
    out = bytearray()
    while len(out) < size:
        out += bytes([rng.randrange(3)]) * rng.randrange(1, 2000)
    return bytes(out[:size])


def rand_size(rng, top=40000):
    r = rng.random()
    if r < .06:
        return 0
    if r < .12:
        return rng.randrange(1, 4)
    if r < .35:
        return rng.randrange(1, 2000)
    if r < .8:
        return rng.randrange(1, max(2, top // 3))
    return rng.randrange(1, top)


def rand_expiry(rng):
    r = rng.random()
    if r < .2:
        return 0
    if r < .4:
        return rng.randrange(1, 1000)
    return rng.randrange(0, 4102444800000)


def rand_enc(rng, kinds=('none', 'aead', 'oaep'), weights=(5, 3, 2)):
    kind = rng.choices(kinds, weights[:len(kinds)])[0]
    if kind == 'none':
        return None
    e = {'kind': kind,
         'alg': rng.choice(['GCM', 'CCM']),
         'key': rand_bytes(rng, rng.choice([16, 32])),
         'num': rng.choice([0, 1, 255, 256, 0xFFFFFFFF, 0x123456789abcdef0, rng.randrange(1 << 16)]),
         'salt': rng.choice([None, 0, 1, 0xFFFFFFFF, rng.randrange(1 << 32)]),
         'kdf': None, 'kdf_info': None, 'kdf_salt': None, 'rsa': None}
    if rng.random() < .45:
        e['kdf'] = rng.choice([1, 2, 3])
        e['kdf_info'] = rng.choice([None, rand_bytes(rng, rng.randrange(1, 30)), b'FLIC info'])
        if kind == 'aead':
            e['kdf_salt'] = rng.choice([None, 0, rng.randrange(1 << 32)])
    if kind == 'oaep':
        e['rsa'] = rng.choice(['a1024', 'c2048'])
    return e


def rand_cfg(rng, enc=True, top=40000, small_mps=True):
    """A JSON-able description of one tree."""
    schema = rng.choice(SCHEMAS)
    cfg = {'schema': schema, 'size': rand_size(rng, top), 'data_seed': rng.randrange(1 << 30)}
    cfg['name'] = rand_name(rng)
    cfg['manifest_prefix'] = cfg['data_prefix'] = cfg['manifest_locators'] = cfg['data_locators'] = None
    if schema == 'segmented':
        r = rng.random()
        if r < .4:
            cfg['manifest_prefix'], cfg['data_prefix'] = rand_name(rng), None
        elif r < .5:
            cfg['manifest_prefix'], cfg['data_prefix'] = None, rand_name(rng)
        elif r < .8:
            cfg['manifest_prefix'], cfg['data_prefix'] = cfg['name'] + [(1, b'm')], cfg['name'] + [(1, b'd')]
        else:
            cfg['manifest_prefix'], cfg['data_prefix'] = rand_name(rng), rand_name(rng)
        a = cfg['manifest_prefix'] if cfg['manifest_prefix'] is not None else cfg['name']
        b = cfg['data_prefix'] if cfg['data_prefix'] is not None else cfg['name']
        if a == b:
            cfg['manifest_prefix'] = a + [(1, b'manifest')]
    elif schema == 'prefix':
        r = rng.random()
        if r < .4:
            cfg['manifest_prefix'], cfg['data_prefix'] = rand_name(rng), rand_name(rng)
        elif r < .6:
            cfg['manifest_prefix'] = cfg['data_prefix'] = rand_name(rng)
        elif r < .75:
            cfg['data_prefix'] = rand_name(rng)
    else:
        r = rng.random()
        if r < .35:
            cfg['manifest_locators'], cfg['data_locators'] = [rand_name(rng)], [rand_name(rng)]
        elif r < .5:
            cfg['data_locators'] = [rand_name(rng)]
        elif r < .6:
            cfg['manifest_locators'] = cfg['data_locators'] = [rand_name(rng)]
    for k in ('root_expiry', 'manifest_expiry', 'data_expiry'):
        cfg[k] = rand_expiry(rng) if rng.random() < .35 else None
    for k in ('node_subtree', 'group_subtree', 'group_leaf'):
        cfg[k] = rng.random() < .5
    cfg['degree'] = rng.choice([None, None, None, 2, 2, 3, 4, 5, 7, 8, 11, 20, 40])
    cfg['enc'] = rand_enc(rng) if enc else None
    cfg['signer'] = rng.choices(['none', 'crc', 'rsa'], [2, 3, 3])[0]
    cfg['signer_key'] = rng.choice(['b1024', 'c2048', 'e3072', 'f4096']) if rng.random() < .12 else None
    names = [cfg['name'], cfg['manifest_prefix'], cfg['data_prefix']] + (cfg['manifest_locators'] or []) + (cfg['data_locators'] or [])
    longest = sum(sum(4 + len(v) for _, v in n) for n in names if n)
    base = 230 + longest
    if cfg['enc']:
        base += 120
        if cfg['enc']['kind'] == 'oaep':
            base += 420
    if small_mps:
        cfg['mps'] = base + rng.choice([60, 75, 90, 110, 150, 200, 300, 500, 900, 1500, 4000, rng.randrange(60, 1500)])
    else:
        cfg['mps'] = base + rng.randrange(300, 3000)
    return cfg


def name_obj(components):
    from ccnpy.core.Name import Name, NameComponent
    if components is None:
        return None
    return Name([NameComponent(t, bytes(v)) for t, v in components])


def locators_obj(names):
    from ccnpy.core.Link import Link
    from ccnpy.flic.tlvs.Locator import Locator
    from ccnpy.flic.tlvs.Locators import Locators
    if names is None:
        return None
    return Locators([Locator(Link(name=name_obj(n))) for n in names])


_rsa = {}


def rsa_key(n):
    from ccnpy.crypto.RsaKey import RsaKey
    if n not in _rsa:
        _rsa[n] = RsaKey(refcrypto.pem(n))
    return _rsa[n]


def aead_key(e):
    from ccnpy.crypto.AeadKey import AeadCcm, AeadGcm
    return (AeadGcm if e['alg'] == 'GCM' else AeadCcm)(e['key'])


def info_form(info, how):
    """The derivation information in one of the forms it may be given in."""
    if how == 'hex':
        return '0x' + info.hex()
    if how == 'text' and not info.startswith(b'0x'):
        try:
            return info.decode()
        except UnicodeDecodeError:
            return info
    return list(info) if how == 'list' else info


def aead_params(e):
    from ccnpy.flic.aeadctx.AeadParameters import AeadParameters
    from ccnpy.flic.tlvs.KdfAlg import KdfAlg
    from ccnpy.flic.tlvs.KdfData import KdfData
    from ccnpy.flic.tlvs.KdfInfo import KdfInfo
    kd = None
    if e['kdf'] is not None:
        kd = KdfData(KdfAlg(e['kdf']), None if e['kdf_info'] is None else KdfInfo(info_form(e['kdf_info'], e.get('info_as'))))
    return AeadParameters(key=aead_key(e), key_number=e['num'], aead_salt=e['salt'], kdf_data=kd,
                          kdf_salt=e['kdf_salt'])


def encryptor(e):
    from ccnpy.flic.RsaOaepCtx.RsaOaepEncryptor import RsaOaepEncryptor
    from ccnpy.flic.aeadctx.AeadEncryptor import AeadEncryptor
    if e is None:
        return None
    if e['kind'] == 'aead':
        return AeadEncryptor(aead_params(e))
    if e.get('generated'):
        return RsaOaepEncryptor.create_with_new_content_key(wrapping_key=rsa_key(e['rsa']),
                                                            kdf_data=aead_params(e).kdf_data)
    return RsaOaepEncryptor(wrapping_key=rsa_key(e['rsa']), params=aead_params(e))


def signer(cfg):
    from ccnpy.crypto.Crc32c import Crc32cSigner
    from ccnpy.crypto.RsaSha256 import RsaSha256Signer
    if cfg['signer'] == 'rsa':
        return RsaSha256Signer(rsa_key(cfg.get('signer_key') or 'a1024'))
    if cfg['signer'] == 'crc':
        return Crc32cSigner()
    return None


def keystore(cfg, rsa=True):
    """A keystore a legitimate reader would hold."""
    from ccnpy.crypto.InsecureKeystore import InsecureKeystore
    ks = InsecureKeystore()
    if cfg['signer'] == 'rsa':
        ks.add_rsa_key('signer', rsa_key(cfg.get('signer_key') or 'a1024'))
    e = cfg['enc']
    if e is not None:
        if e['kind'] == 'aead':
            ks.add_aes_key(aead_params(e))
        else:
            ks.add_rsa_key('wrap', rsa_key(e['rsa']))
    return ks


def ref_keys(cfg):
    k = treemodel.Keys()
    e = cfg['enc']
    if e is not None:
        if e['kind'] == 'aead':
            k.add_aead(e['num'], e['key'], e['salt'], e['kdf_salt'])
        else:
            k.add_rsa(e['rsa'])
    return k


def options(cfg, enc=None):
    from ccnpy.core.ExpiryTime import ExpiryTime
    from ccnpy.flic.ManifestTreeOptions import ManifestTreeOptions
    from ccnpy.flic.name_constructor.SchemaType import SchemaType

    def exp(ms):
        return None if ms is None else ExpiryTime(ms / 1000)
    kw = {}
    if cfg.get('mps') is not None:
        kw['max_packet_size'] = cfg['mps']
    return ManifestTreeOptions(
        name=name_obj(cfg['name']),
        schema_type={'hashed': SchemaType.HASHED, 'prefix': SchemaType.PREFIX, 'segmented': SchemaType.SEGMENTED}[cfg['schema']],
        signer=signer(cfg),
        manifest_prefix=name_obj(cfg['manifest_prefix']), data_prefix=name_obj(cfg['data_prefix']),
        manifest_locators=locators_obj(cfg['manifest_locators']), data_locators=locators_obj(cfg['data_locators']),
        root_expiry_time=exp(cfg['root_expiry']), manifest_expiry_time=exp(cfg['manifest_expiry']),
        data_expiry_time=exp(cfg['data_expiry']),
        manifest_encryptor=enc if enc is not None else encryptor(cfg['enc']),
        add_node_subtree_size=cfg['node_subtree'], add_group_subtree_size=cfg['group_subtree'],
        add_group_leaf_size=cfg['group_leaf'], max_tree_degree=cfg['degree'], **kw)


def rand_mixed(rng, enc=True, top=9000):
    """A configuration with one naming schema for the manifests and another, or another one of the same kind, for the data."""
    cfg = rand_cfg(rng, enc=enc, top=top)
    cfg['data_schema'] = rng.choice(['hashed', 'prefix', 'segmented'])
    cfg['ids'] = rng.choice([(1, 2), (2, 1), (0, 1), (300, 5), (7, 70000)])
    for k in ('manifest', 'data'):
        if rng.random() < .4:
            cfg[k + '_prefix'] = rand_name(rng)
        if rng.random() < .3:
            cfg[k + '_locators'] = [rand_name(rng)]
    if cfg['schema'] == cfg['data_schema'] == 'segmented':
        a, b = (cfg[k] if cfg[k] is not None else cfg['name'] for k in ('manifest_prefix', 'data_prefix'))
        if a == b:
            cfg['data_prefix'] = list(a) + [(1, b'data')]
    longest = sum(4 + len(v) for k in ('name', 'manifest_prefix', 'data_prefix') for _, v in cfg[k] or [])
    cfg['mps'] += 60 + longest      # a schema with numbers and names needs more room than one without
    return cfg


def mixed_context(cfg, manifest_options, data_options):
    from ccnpy.flic.name_constructor.HashSchemaImpl import HashSchemaImpl
    from ccnpy.flic.name_constructor.NameConstructorContext import NameConstructorContext
    from ccnpy.flic.name_constructor.PrefixSchemaImpl import PrefixSchemaImpl
    from ccnpy.flic.name_constructor.SegmentedSchemaImpl import SegmentedSchemaImpl
    from ccnpy.flic.tlvs.NcId import NcId
    from ccnpy.flic.tlvs.NcSchema import HashSchema, PrefixSchema, SegmentedSchema

    def impl(kind, ncid, opts, prefix, locators, make):
        name = name_obj(prefix if prefix is not None else cfg['name'])
        if kind == 'hashed':
            return HashSchemaImpl(nc_id=NcId(ncid), schema=HashSchema(locators=locators_obj(locators if locators is not None else [cfg['name']])),
                                  tree_options=opts)
        if kind == 'prefix':
            return PrefixSchemaImpl(nc_id=NcId(ncid), schema=PrefixSchema(name=name), tree_options=opts)
        return SegmentedSchemaImpl(nc_id=NcId(ncid), schema=make(name=name), tree_options=opts)
    return NameConstructorContext(
        manifest_schema_impl=impl(cfg['schema'], cfg['ids'][0], manifest_options, cfg['manifest_prefix'], cfg['manifest_locators'], SegmentedSchema.create_for_manifest),
        data_schema_impl=impl(cfg['data_schema'], cfg['ids'][1], data_options, cfg['data_prefix'], cfg['data_locators'], SegmentedSchema.create_for_data))


class RecordingWriter:
    """The monitor at the packet output: keeps the wire bytes of each packet at the moment it was written."""

    def __init__(self, inner=None):
        self.log = []           # (hash reported by the library, wire bytes)
        self.packets = []
        self.inner = inner
        self.before = None      # a callback before each put

    def put(self, packet):
        if self.before is not None:
            self.before(packet)
        self.log.append((bytes(packet.content_object_hash().value()), bytes(packet.serialize())))
        self.packets.append(packet)
        if self.inner is not None:
            self.inner.put(packet)

    def close(self):
        pass

    def store(self):
        return {h: b for h, b in self.log}


class ShortReader(io.RawIOBase):
    """A file-like whose content is produced on demand."""


class Run:
    """One tree built by the library."""

    def __init__(self, ctx, cfg, data=None, inner=None, graph=None, source=None, enc=None):
        from ccnpy.flic.ManifestTree import ManifestTree
        self.ctx, self.cfg = ctx, cfg
        ctx.config = cfg
        self.data = data if data is not None else rand_data(random.Random(cfg['data_seed']), cfg['size'])
        self.writer = RecordingWriter(inner)
        with ctx.must_work('setup'):
            self.options = options(cfg, enc)
        with ctx.must_work('build'):
            self.tree = ManifestTree(source if source is not None else io.BytesIO(self.data), self.writer,
                                     self.options, manifest_graph=graph)
            self.root = self.tree.build()
        if self.root is None or not hasattr(self.root, 'content_object_hash'):
            raise Violation('no-root', f'the build returned {self.root!r} instead of the root packet')
        self.root_hash = bytes(self.root.content_object_hash().value())
        self.name = self.options.name
        ctx.count('trees_built')
        ctx.count('packets_observed', len(self.writer.log))

    @classmethod
    def mixed(cls, ctx, cfg, data=None, source=None):
        """A tree whose manifests follow the naming schema cfg['schema'] and whose data follows cfg['data_schema']."""
        from ccnpy.flic.ManifestTree import ManifestTree
        r = cls.__new__(cls)
        r.ctx, r.cfg = ctx, cfg
        ctx.config = cfg
        r.data = data if data is not None else rand_data(random.Random(cfg['data_seed']), cfg['size'])
        r.writer = RecordingWriter()
        with ctx.must_work('setup'):
            enc = encryptor(cfg['enc'])
            r.options = options(cfg, enc)
            context = mixed_context(cfg, r.options, options(dict(cfg, schema=cfg['data_schema']), enc))
        with ctx.must_work('build'):
            r.tree = ManifestTree(source if source is not None else io.BytesIO(r.data), r.writer, r.options, name_context=context)
            r.root = r.tree.build()
        if r.root is None or not hasattr(r.root, 'content_object_hash'):
            raise Violation('no-root', f'the build returned {r.root!r} instead of the root packet')
        r.root_hash = bytes(r.root.content_object_hash().value())
        r.name = r.options.name
        ctx.count('trees_built')
        ctx.count('packets_observed', len(r.writer.log))
        ctx.count('mixed_trees')
        ctx.seen('mixtures', (cfg['schema'], cfg['data_schema']))
        return r

    def view(self):
        """What the reference reader sees."""
        try:
            return treemodel.read_tree(self.writer.store(), self.root_hash, ref_keys(self.cfg))
        except treemodel.ModelError as e:
            raise Violation('tree-' + e.mechanism, e.message)

    def shape(self):
        """A short description of the tree, for counting distinct cases."""
        c = self.cfg
        e = c['enc']
        return (c['schema'], len(self.writer.log), c['mps'], c['degree'], e and (e['kind'], e['alg'], len(e['key']), e['kdf']),
                c['node_subtree'], c['group_subtree'], c['group_leaf'])


class Sink:
    """The monitor at the application data output."""

    def __init__(self):
        self.writes = []

    def write(self, b):
        self.writes.append(bytes(b))
        return len(b)

    def value(self):
        return b''.join(self.writes)


def memory_reader(wire_packets):
    """Every packet reparsed from its wire bytes, as after a restart."""
    from array import array
    from ccnpy.core.Packet import Packet
    from ccnpy.flic.tree.TreeIO import TreeIO
    return TreeIO.PacketMemoryReader([Packet.deserialize(array('B', w)) for w in wire_packets])


def library_read(ctx, reader, name, hash_value, ks, what='read', build_graph=False):
    from ccnpy.flic.tree.Traversal import Traversal
    sink = Sink()
    with ctx.must_work(what):
        t = Traversal(packet_input=reader, data_writer=sink, keystore=ks, build_graph=build_graph)
        t.traverse(root_name=name, hash_restriction=hash_value)
    return sink, t
