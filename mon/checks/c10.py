"""C10: an encrypted tree reveals no manifest content and follows the cipher spec."""
from .. import gen, refcrypto, wire
from ..handmade import digest

PROPERTY = 'C10'
LEVEL = 'exploration'
RULE = ('A case builds an encrypted tree with the real library and records its packets. The leak checker looks at every '
        'manifest payload for a plain node, for windows of every packet digest, of the locators, prefixes and key '
        'material, and of the decrypted node itself. An independent implementation of the cipher construction decrypts '
        'every manifest, and the fields of its context must be the configured ones. Distinct cases are distinct tree '
        'shapes and single manifests.')
MINIMUM = {'evaluations': 400, 'distinct': 1500, 'manifests_decrypted': 2500, 'windows_searched': 500000,
           'deep_trees': 20, 'manifest_factory': 60, 'tight_refused': 30,
           'tight_built': 30, 'tight_single': 100}


def windows(b, n):
    return {b[i:i + n] for i in range(len(b) - n + 1)}


def dull(w):
    """A window that could turn up by chance or by structure."""
    return len(set(w)) < len(w) // 2 + 1


class Leaks:
    """All windows of the secrets, each with what it is."""

    def __init__(self):
        self.w8, self.w4 = {}, {}

    def add(self, what, b, n=8):
        b = bytes(b)
        d = self.w8 if n == 8 else self.w4
        for x in windows(b, n):
            if not dull(x):
                d.setdefault(x, what)

    def search(self, payload, skip=()):
        for n, d in ((8, self.w8), (4, self.w4)):
            if d:
                for i in range(len(payload) - n + 1):
                    x = payload[i:i + n]
                    if x in d and x not in skip:
                        return d[x], i
        return None


def expected_ctx(ctx, e, d, is_root, generated=False):
    c = d['ctx']
    ctx.check(c['kind'] == e['kind'], 'context-kind', f'the security context is {c["kind"]}')
    if not generated:
        ctx.check(c['keynum'] == e['num'], 'key-number', f'key number {c["keynum"]} in the context, {e["num"]} was configured')
        ctx.check(c['mode'] == refcrypto.mode_number(e['alg'], len(e['key'])), 'mode', f'mode {c["mode"]} in the context')
    ctx.check(c['kdf_alg'] == e['kdf'], 'kdf', f'key derivation {c["kdf_alg"]} in the context, {e["kdf"]} was configured')
    want = b'' if e['kdf'] is None or e['kdf_info'] is None else wire.tlv(7, e['kdf_info'])
    ctx.check(c['kdf_info_raw'] == want, 'kdf-info', 'the key derivation information in the context is not the configured one')


def judge_manifest(ctx, payload, e, keys, is_root, what, leaks, plain=None, what_is_tree=True):
    """-> plain octets of the node"""
    try:
        d = wire.dec_manifest(payload)
    except (wire.WireError, KeyError) as ex:
        ctx.fail('malformed', f'{what} is malformed: {ex}', payload=payload)
    ctx.check(d['node'] is None and d['sec'] is not None, 'plain-node', f'{what} carries a plain node', payload=payload)
    expected_ctx(ctx, e, d, is_root, e.get('generated'))
    if e['kind'] == 'oaep' and d['ctx']['wrapped'] is not None and d['ctx']['keynum'] not in keys:
        x = refcrypto.unwrap(e['rsa'], d['ctx'])
        ctx.check(x is not None, 'unwrap', f'the wrapped key of {what} does not unwrap independently')
        keys[d['ctx']['keynum']] = (x[1], x[0], None)
        leaks.add('the content key', x[1])
        leaks.add('the content key', x[1], 4)
        if not e.get('generated'):
            ctx.check(x[1] == e['key'] and (e['salt'] is None or x[0] == e['salt']), 'wrapped-key', 'another key or salt is wrapped')
    ctx.check(d['ctx']['keynum'] in keys, 'no-key', f'{what} is encrypted under a key nobody has')
    key, salt, kdf_salt = keys[d['ctx']['keynum']]
    got = refcrypto.decrypt_node(d['sec'], d['ctx'], d['cipher'], d['tag'], key, salt, kdf_salt)
    ctx.check(got is not None, 'cipher-spec', f'an independent implementation of the cipher cannot decrypt {what}', payload=payload)
    ctx.check(len(got) == len(d['cipher']) and len(d['tag']) == 16, 'cipher-length', f'{what}: ciphertext of {len(d["cipher"])} octets and tag of {len(d["tag"])} for a node of {len(got)}')
    if plain is not None:
        ctx.check(got == plain, 'wrong-node', f'{what} decrypts to another node')
    elif what_is_tree:
        try:
            wire.dec_node(got)
        except (wire.WireError, KeyError) as ex:
            ctx.fail('malformed-node', f'{what} decrypts to something that is no node: {ex}', node=got)
    ctx.count('manifests_decrypted')
    # the node itself in clear, anywhere: 6 octets of it that are not of structure
    own = {w for w in windows(got, 12)}
    pw = [payload[i:i + 12] for i in range(len(payload) - 11)]
    ctx.count('windows_searched', len(pw))
    for i, w in enumerate(pw):
        ctx.check(w not in own or dull(w), 'plaintext-leak', lambda: f'{what} shows octets of its node in clear at {i}', payload=payload, node=got)
    hit = leaks.search(payload)
    ctx.check(hit is None, 'leak', lambda: f'{what} shows part of {hit[0]} in clear at octet {hit[1]}', payload=payload)
    return got


def name_windows(leaks, what, comps):
    """Names as they stand in the octets of a node."""
    if comps:
        leaks.add(what, wire.name(comps))


def tree(ctx):
    rng = ctx.rng
    cfg = gen.rand_cfg(rng, top=9000)
    cfg['enc'] = gen.rand_enc(rng, kinds=('aead', 'oaep'), weights=(3, 2))
    cfg['mps'] = cfg['mps'] + (540 if cfg['enc']['kind'] == 'oaep' else 120)
    if rng.random() < .5:
        cfg['size'] = cfg['mps'] * rng.randrange(3, 30)
        cfg['degree'] = rng.choice([2, 3, 4, 7])
    if cfg['enc']['kind'] == 'oaep' and rng.random() < .25:
        cfg['enc'].update(generated=True, salt=None, kdf_salt=None, alg='GCM')
    one(ctx, cfg)


def deep(ctx):
    rng = ctx.rng
    cfg = gen.rand_cfg(rng, top=12000)
    cfg['enc'] = gen.rand_enc(rng, kinds=('aead', 'oaep'), weights=(3, 2))
    if cfg['enc']['rsa']:
        cfg['enc']['rsa'] = 'a1024'
    cfg['degree'] = rng.choice([2, 2, 3])
    cfg['mps'] = cfg['mps'] % 300 + 900
    cfg['size'] = cfg['mps'] * rng.randrange(20, 70)
    r = one(ctx, cfg)
    ctx.count('deep_trees')


def one(ctx, cfg):
    e = cfg['enc']
    r = gen.Run(ctx, cfg)
    leaks = Leaks()
    for h, w in r.writer.log:
        leaks.add('the digest of a packet', h)
    # data is in clear in the data packets, but no manifest has a reason to hold any
    for n in cfg['manifest_locators'] or []:
        name_windows(leaks, 'the manifest locator', n)
    for n in cfg['data_locators'] or []:
        name_windows(leaks, 'the data locator', n)
    name_windows(leaks, 'the manifest prefix', cfg['manifest_prefix'])
    name_windows(leaks, 'the data prefix', cfg['data_prefix'])
    name_windows(leaks, 'the root name', cfg['name'])
    keys = {}
    if not e.get('generated'):
        leaks.add('the content key', e['key'])
        leaks.add('the content key', e['key'], 4)
        if e['salt'] and not dull(e['salt'].to_bytes(4, 'big')):
            leaks.add('the salt', e['salt'].to_bytes(4, 'big'), 4)
        if e['kdf_salt'] and not dull(e['kdf_salt'].to_bytes(4, 'big')):
            leaks.add('the key derivation salt', e['kdf_salt'].to_bytes(4, 'big'), 4)
    if e['kind'] == 'aead':
        keys[e['num']] = (e['key'], e['salt'], e['kdf_salt'])
    # the key derivation information is public, and may hold anything
    n = 0
    pk = [(h, w, wire.dec_packet(w)) for h, w in r.writer.log]
    pk.reverse()            # root first
    ctx.check(pk[0][0] == r.root_hash, 'root-last', 'the last packet written is not the root')
    for h, w, p in pk:
        if not p['is_manifest']:
            ctx.check(p['is_data'], 'packet-type', 'a packet is neither data nor manifest')
            continue
        is_root = h == r.root_hash
        got = judge_manifest(ctx, p['payload'], e, keys, is_root, 'the root manifest' if is_root else 'a manifest', leaks)
        n += 1
        ctx.distinct(h)
    ctx.check(n >= 2, 'no-manifests', 'a tree has no manifest below the root')
    # the whole is a tree over the file for somebody who has the keys
    if not e.get('generated'):
        ctx.check(r.view().content() == r.data, 'wrong-file', 'the decrypted manifests lead to another file')
    ctx.distinct(*r.shape())
    ctx.seen('cipher', (e['kind'], e['alg'], len(e['key']), e['kdf'], e['salt'] is None, e['kdf_info'] is None, e['kdf_salt'] is None))
    ctx.sample({'schema': cfg['schema'], 'manifests': n, 'enc': e['kind'] + e['alg'], 'kdf': e['kdf']})
    return r


def factory(ctx):
    """Manifests made one by one: the manifest factory and the encryptors."""
    from ccnpy.flic.ManifestFactory import ManifestFactory
    from ccnpy.flic.aeadctx.AeadImpl import AeadImpl
    from .c05 import octets
    from .c09 import rand_params, small_node
    rng = ctx.rng
    e = rand_params(rng)
    ctx.config = e
    leaks = Leaks()
    leaks.add('the content key', e['key'])
    leaks.add('the content key', e['key'], 4)
    keys = {e['num']: (e['key'], e['salt'], e['kdf_salt'])} if e['kind'] == 'aead' else {}
    with ctx.must_work('setup'):
        enc = gen.encryptor(e)
    cfg = gen.rand_cfg(rng)
    cfg['enc'] = e
    cfg['mps'] = 9000
    for _ in range(4):
        node, _ = small_node(rng)
        plain = octets(node.serialized_value())
        with ctx.must_work('factory'):
            f = ManifestFactory(tree_options=gen.options(cfg, enc=enc))
            kw = {'include_full_security_context': True} if e['kind'] == 'oaep' and not keys else {}
            how = rng.choice(['node', 'groups', 'group', 'pointers'])
            src = node if how == 'node' else list(node.hash_groups()) if how == 'groups' else \
                node.hash_groups()[0] if how == 'group' else node.hash_groups()[0].pointers()
            m = octets(f.build_packet(source=src, name=gen.name_obj(cfg['name']), **kw).body().payload().value())
        if how != 'node':
            plain = None
        got = judge_manifest(ctx, m, e, keys, False, 'a manifest', leaks, plain=plain, what_is_tree=False)
        ctx.distinct(m)
        if e['kind'] == 'aead':
            plain = octets(node.serialized_value())
            with ctx.must_work('aead'):
                m = octets(AeadImpl(gen.aead_params(e)).create_encrypted_manifest(node).serialize())
            judge_manifest(ctx, m, e, keys, False, 'a manifest', leaks, plain=plain, what_is_tree=False)
            ctx.distinct(m)
        ctx.count('manifest_factory')


def tight(ctx):
    """Packet sizes at which encrypted manifests fit badly or not at all: the build may refuse, but nothing it wrote is in clear."""
    import io
    import random
    from ccnpy.flic.ManifestFactory import ManifestFactory
    from ccnpy.flic.ManifestTree import ManifestTree
    from .c09 import small_node
    rng = ctx.rng
    cfg = gen.rand_cfg(rng, top=3000)
    cfg['enc'] = gen.rand_enc(rng, kinds=('aead', 'oaep'), weights=(1, 2))
    e = cfg['enc']
    if e['kind'] == 'oaep' and rng.random() < .3:
        e['rsa'] = 'e3072'
    ctx.config = cfg
    data = gen.rand_data(random.Random(cfg['data_seed']), cfg['size'])
    with ctx.must_work('setup'):
        enc = gen.encryptor(e)
    sizes = sorted(rng.sample(range(60, cfg['mps'] + 400), 8 if ctx.thorough else 5))
    for mps in sizes:
        cfg['mps'] = mps
        writer = gen.RecordingWriter()
        try:
            root = ManifestTree(io.BytesIO(data), writer, gen.options(cfg, enc=enc)).build()
            ctx.count('tight_built')
        except Exception:
            root = None
            ctx.count('tight_refused')
        packets = list(writer.log)
        if root is not None:
            packets.append((None, bytes(root.serialize())))
        for h, w in packets:
            p = wire.dec_packet(w)
            if p['is_manifest']:
                d = wire.dec_manifest(p['payload'])
                ctx.check(d['node'] is None and d['sec'] is not None, 'plain-node',
                          f'with packets of at most {mps} octets, a manifest carries a plain node', payload=p['payload'])
                ctx.count('tight_manifests')
        ctx.distinct('tight', cfg['schema'], mps, e['kind'], len(packets))
        # and one manifest by itself
        node, _ = small_node(rng)
        for full in (False, True):
            try:
                f = ManifestFactory(tree_options=gen.options(cfg, enc=enc))
                src = rng.choice([node, list(node.hash_groups()), node.hash_groups()[0], node.hash_groups()[0].pointers()])
                kw = {'include_full_security_context': True} if full else {}
                p = f.build_packet(source=src, name=gen.name_obj(cfg['name']), **kw)
                m = wire.dec_packet(bytes(p.serialize()))
            except Exception:
                ctx.count('tight_refused')
                continue
            d = wire.dec_manifest(m['payload'])
            ctx.check(d['node'] is None and d['sec'] is not None, 'plain-node',
                      f'with packets of at most {mps} octets, a manifest made by itself carries a plain node', payload=m['payload'])
            ctx.count('tight_single')


KINDS = {'tight': (tight, 60, 2500), 'tree': (tree, 340, 9000), 'deep': (deep, 30, 600), 'factory': (factory, 60, 2500)}
