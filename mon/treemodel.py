"""
A reference reader of FLIC trees over wire bytes.  It shares no code with the library: it parses every packet with
wire.py, decrypts with refcrypto.py, follows the name constructors, and records what it saw, so that the checks can
judge the structure, the names, the sizes and the data.
"""
from . import refcrypto, wire
from .wire import WireError


class ModelError(Exception):
    """The packets do not form a tree that a reader of the format could follow."""

    def __init__(self, mechanism, message):
        super().__init__(f'{mechanism}: {message}')
        self.mechanism = mechanism
        self.message = message


class ManifestVisit:
    __slots__ = ('hash', 'depth', 'pkt', 'node', 'man', 'first', 'bytes', 'parent', 'children', 'at', 'end', 'last', 'is_root')


def schema_name(schema, segment_id):
    kind, s = schema['kind'], schema
    if kind == 'hashed':
        return None
    if kind == 'prefix':
        return s['name']
    if segment_id is None:
        raise ModelError('no-segment-id', 'a segmented schema is used by a hash group with no start segment id')
    return s['name'] + [(s['suffix'], wire.varint(segment_id))]


class Keys:
    """What the reader holds: AEAD keys by number, and RSA private keys to unwrap with."""

    def __init__(self):
        self.aead = {}          # number -> (key, salt, kdf_salt)
        self.rsa = {}           # keyid -> name of the key file

    def add_aead(self, number, key, salt=None, kdf_salt=None):
        self.aead[number] = (key, salt, kdf_salt)
        return self

    def add_rsa(self, keyname):
        self.rsa[refcrypto.keyid(keyname)] = keyname
        return self


class TreeView:
    def __init__(self):
        self.data = []          # payload of each data packet, in reading order
        self.data_hashes = []
        self.data_pkts = []
        self.data_requests = [] # (name requested, hash, depth)
        self.manifests = []     # ManifestVisit in pre-order
        self.reached = set()
        self.root = None
        self.preorder = []      # (name asked for, hash) of every packet visited, in pre-order

    def content(self):
        return b''.join(self.data)


def open_manifest(pkt, keys):
    man, plain = plain_node(pkt, keys)
    return man, wire.dec_node(plain)


def plain_node(pkt, keys):
    """The decoded manifest and the octets of its node, decrypted where need be."""
    man = wire.dec_manifest(pkt['payload'])
    if man['node'] is not None:
        return man, man['node']
    ctx = man['ctx']
    if ctx['kind'] == 'oaep' and ctx['keynum'] not in keys.aead:
        if ctx['keyid'] not in keys.rsa:
            raise ModelError('no-key', 'no RSA key to unwrap the content key with')
        x = refcrypto.unwrap(keys.rsa[ctx['keyid']], ctx)
        if x is None:
            raise ModelError('unwrap', 'the wrapped key does not unwrap')
        keys.aead[ctx['keynum']] = (x[1], x[0], None)
    if ctx['keynum'] not in keys.aead:
        raise ModelError('no-key', f'no AEAD key number {ctx["keynum"]}')
    key, salt, kdf_salt = keys.aead[ctx['keynum']]
    plain = refcrypto.decrypt_node(man['sec'], ctx, man['cipher'], man['tag'], key, salt, kdf_salt)
    if plain is None:
        raise ModelError('decrypt', 'an independent implementation of the cipher cannot decrypt a manifest')
    return man, plain


def read_tree(store, root_hash, keys=None, max_visits=2_000_000, size_of=None):
    """
    :param store: {hash bytes: packet bytes}
    :param size_of: {hash of a data packet: octets it stands for}, where that is not the length of its payload
    """
    keys = keys or Keys()
    view = TreeView()
    decoded = {}

    def get(h, name, what):
        if h not in store:
            raise ModelError('dangling-pointer', f'{what} points to {h.hex()}, which was never written')
        if h not in decoded:
            try:
                p = wire.dec_packet(store[h])
            except (WireError, KeyError) as e:
                raise ModelError('bad-packet', f'{what}: packet {h.hex()} is malformed: {e}')
            if p['hash'] != h:
                raise ModelError('hash-mismatch', f'packet stored as {h.hex()} has hash {p["hash"].hex()}')
            decoded[h] = p
        return decoded[h]

    opened = {}
    root = get(root_hash, None, 'the root request')
    if not root['is_manifest']:
        raise ModelError('root-type', 'the root packet is not a manifest')

    # explicit stack of (packet, depth, schemas, parent, segment name expected)
    stack = [(root, 0, {}, None, None)]
    visits = 0
    path = []
    while stack:
        item = stack.pop()
        if item[0] is None:     # leave marker
            m = item[1]
            m.bytes = sum(c[2] if c[0] == 'data' else c[2].bytes for c in m.children)
            m.end, m.last = len(view.preorder), len(view.data)
            path.pop()
            continue
        p, depth, schemas, parent, name = item
        view.preorder.append((name, p['hash']))
        visits += 1
        if visits > max_visits:
            raise ModelError('too-many', 'the tree does not end')
        view.reached.add(p['hash'])
        if p['is_data']:
            view.data.append(p['payload'] if p['payload'] is not None else b'')
            view.data_hashes.append(p['hash'])
            view.data_pkts.append(p)
            if parent is not None:
                n = len(view.data[-1]) if size_of is None else size_of[p['hash']]
                parent.children.append(('data', p['hash'], n))
            continue
        if not p['is_manifest']:
            raise ModelError('child-type', f'packet {p["hash"].hex()} is neither data nor manifest')
        if p['hash'] in path:
            raise ModelError('cycle', 'a manifest contains itself')
        m = ManifestVisit()
        m.hash, m.depth, m.pkt, m.parent, m.first, m.children = p['hash'], depth, p, parent, len(view.data), []
        m.is_root, m.at = parent is None, len(view.preorder) - 1
        if p['hash'] not in opened:
            try:
                opened[p['hash']] = open_manifest(p, keys)
            except (WireError, KeyError) as e:
                raise ModelError('bad-manifest', f'manifest {p["hash"].hex()} is malformed: {type(e).__name__} {e}')
        m.man, m.node = opened[p['hash']]
        view.manifests.append(m)
        if parent is not None:
            parent.children.append(('manifest', p['hash'], m))
        else:
            view.root = m
        path.append(p['hash'])
        schemas = dict(schemas)
        for ncid, s in m.node['ncdefs']:
            schemas[ncid] = s
        kids = []
        for g in m.node['groups']:
            if g['ncid'] is None or g['ncid'] not in schemas:
                raise ModelError('no-schema', f'hash group refers to name constructor {g["ncid"]}, which is not '
                                              f'defined on the path from the root')
            s = schemas[g['ncid']]
            for i, h in enumerate(g['pointers']):
                nm = schema_name(s, None if g['start'] is None else g['start'] + i)
                c = get(h, nm, f'manifest {p["hash"].hex()[:16]}')
                if c['name'] != nm:
                    raise ModelError('name-mismatch', f'packet {h.hex()[:16]} is named {c["name"]}, but its manifest '
                                                      f'says to request it as {nm}')
                kids.append((c, depth + 1, schemas, m, nm))
        stack.append((None, m))
        stack.extend(reversed(kids))
    return view
