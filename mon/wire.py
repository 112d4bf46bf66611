"""
An independent codec for CCNx 1.0 packets and FLIC manifests, written from the wire format and not from the library.
It works on bytes and plain Python values.  It is strict: anything the format does not allow raises WireError.

Everything here is deliberately simple: a TLV is (type, value bytes), a name is a list of (type, bytes).
"""
import hashlib
import struct


class WireError(Exception):
    pass


# ---------------------------------------------------------------- encode

def tlv(t, v):
    if not 0 <= t <= 0xFFFF or len(v) > 0xFFFF:
        raise WireError('tlv range')
    return struct.pack('>HH', t, len(v)) + bytes(v)


def varint(n):
    """Shortest of 1, 2, 3, 4 octets, or 8."""
    for size in (1, 2, 3, 4, 8):
        if n < 1 << (8 * size):
            return n.to_bytes(size, 'big')
    raise WireError('varint range')


def u64(n):
    return n.to_bytes(8, 'big')


def name(components):
    return tlv(0, b''.join(tlv(t, v) for t, v in components))


def hash_value(digest, alg=1):
    return tlv(alg, digest)


def link_tuple(components, keyid=None, digest=None):
    out = b''
    if components is not None:
        out += name(components)
    if keyid is not None:
        out += tlv(2, hash_value(keyid))
    if digest is not None:
        out += tlv(3, hash_value(digest))
    return out


def content_object(components=None, expiry_ms=None, payload_type=None, payload=None, final_chunk_id=None):
    out = b''
    if components is not None:
        out += name(components)
    if expiry_ms is not None:
        out += tlv(6, u64(expiry_ms))
    if payload_type is not None:
        out += tlv(5, bytes([payload_type]))
    if payload is not None:
        out += tlv(1, payload)
    if final_chunk_id is not None:
        out += tlv(7, varint(final_chunk_id))
    return tlv(2, out)


def alg_crc32c():
    return tlv(3, tlv(2, b''))


def alg_rsa(keyid=None, public_key=None, key_link=None, sigtime_ms=None):
    out = b''
    if keyid is not None:
        out += tlv(9, hash_value(keyid))
    if public_key is not None:
        out += tlv(0xB, public_key)
    if key_link is not None:
        out += tlv(0xE, key_link)
    if sigtime_ms is not None:
        out += tlv(0xF, u64(sigtime_ms))
    return tlv(3, tlv(4, out))


def packet(body, alg=b'', vpayload=b'', ptype=1, fields=0):
    total = 8 + len(body) + len(alg) + len(vpayload)
    if total > 0xFFFF:
        raise WireError('packet too long')
    return struct.pack('>BBH', 1, ptype, total) + struct.pack('>I', (fields << 8) | 8) + body + alg + vpayload


def other_order(rng, body):
    """The content object or validation algorithm as another implementation may write it: the elements in another order, numbers of another width."""
    t, v = one(body)
    inner = None if t == 2 else one(v)
    parts = list(tlvs(v if inner is None else inner[1]))
    if t == 2:
        wide = rng.random() < .5
        parts = [(k, (bytes(rng.randrange(1, 4)) + x if len(x) < 5 else x) if wide and k in (5, 7) else
                  (x.lstrip(b'\0') or b'\0') if wide and k == 6 and rng.random() < .5 else x) for k, x in parts]
    rng.shuffle(parts)
    v = b''.join(tlv(k, x) for k, x in parts)
    return tlv(t, v if inner is None else tlv(inner[0], v))


def validation_payload(v):
    return tlv(4, v)


def locators(links):
    return tlv(6, b''.join(tlv(0xD, l) for l in links))


def pointers(digests):
    return tlv(7, b''.join(hash_value(d) for d in digests))


def group_data(subtree_size=None, subtree_digest=None, leaf_size=None, leaf_digest=None, ncid=None, start=None):
    out = b''
    if subtree_size is not None:
        out += tlv(2, varint(subtree_size))
    if subtree_digest is not None:
        out += tlv(3, hash_value(subtree_digest))
    if leaf_size is not None:
        out += tlv(0, varint(leaf_size))
    if leaf_digest is not None:
        out += tlv(1, hash_value(leaf_digest))
    if ncid is not None:
        out += tlv(5, varint(ncid))
    if start is not None:
        out += tlv(4, varint(start))
    return tlv(0xB, out)


def hash_group(gd, ptrs):
    return tlv(1, (gd or b'') + ptrs)


# ---------------------------------------------------------------- decode

def tlvs(buf):
    """Split a buffer into (type, value); it must be covered exactly."""
    out = []
    i = 0
    n = len(buf)
    while i < n:
        if n - i < 4:
            raise WireError(f'{n - i} stray octets at {i}')
        t, l = struct.unpack_from('>HH', buf, i)
        if i + 4 + l > n:
            raise WireError(f'TLV {t} of length {l} at {i} runs over the end')
        out.append((t, bytes(buf[i + 4:i + 4 + l])))
        i += 4 + l
    return out


def one(buf):
    x = tlvs(buf)
    if len(x) != 1:
        raise WireError(f'expected one TLV, got {len(x)}')
    return x[0]


def unique(buf, order=None):
    d = {}
    for t, v in tlvs(buf):
        if t in d:
            raise WireError(f'TLV type {t} twice')
        if order is not None and t not in order:
            raise WireError(f'TLV type {t} not allowed here')
        d[t] = v
    return d


def number(v):
    if not 1 <= len(v) <= 8:
        raise WireError(f'number of {len(v)} octets')
    n = int.from_bytes(v, 'big')
    if varint(n) != v:
        raise WireError(f'number {n} not in the shortest form: {v.hex()}')
    return n


def dec_u64(v):
    if len(v) != 8:
        raise WireError('uint64 length')
    return int.from_bytes(v, 'big')


def dec_hash(v):
    t, d = one(v)
    if t != 1 or len(d) != 32:
        raise WireError(f'hash value type {t} length {len(d)}')
    return d


def dec_name(v):
    return tlvs(v)


def dec_link(v):
    d = unique(v, (0, 2, 3))
    return {'name': dec_name(d[0]) if 0 in d else None,
            'keyid': dec_hash(d[2]) if 2 in d else None,
            'digest': dec_hash(d[3]) if 3 in d else None}


def dec_packet(buf):
    buf = bytes(buf)
    if len(buf) < 8:
        raise WireError('short header')
    ver, ptype, plen = struct.unpack_from('>BBH', buf, 0)
    hlen = buf[7]
    if ver != 1 or hlen != 8 or plen != len(buf):
        raise WireError(f'fixed header version {ver} packet length {plen} header length {hlen} for {len(buf)} octets')
    parts = tlvs(buf[hlen:])
    types = [t for t, _ in parts]
    if types not in ([2], [2, 3, 4]):
        raise WireError(f'packet TLVs {types}')
    body = tlv(*parts[0])
    f = unique(parts[0][1], (0, 6, 5, 1, 7))
    p = {'ptype': ptype, 'fields': buf[4:7], 'raw': buf, 'body': body,
         'alg': tlv(*parts[1]) if len(parts) > 1 else None,
         'vpayload': parts[2][1] if len(parts) > 1 else None,
         'name': dec_name(f[0]) if 0 in f else None,
         'expiry': dec_u64(f[6]) if 6 in f else None,
         'payload_type': f[5][0] if 5 in f and len(f[5]) == 1 else None,
         'payload': f.get(1),
         'fcid': number(f[7]) if 7 in f else None}
    if 5 in f and len(f[5]) != 1:
        raise WireError('payload type length')
    p['hash'] = hashlib.sha256(buf[hlen:]).digest()
    p['is_data'] = p['payload_type'] in (None, 0)
    p['is_key'] = p['payload_type'] == 1
    p['is_link'] = p['payload_type'] == 2
    p['is_manifest'] = p['payload_type'] == 3
    p['sig'] = dec_alg(parts[1][1]) if len(parts) > 1 else None
    return p


def dec_alg(v):
    t, x = one(v)
    if t == 2:
        if x:
            raise WireError('CRC32C with a value')
        return {'alg': 'crc32c'}
    if t == 4:
        d = unique(x, (9, 0xB, 0xE, 0xF))
        return {'alg': 'rsa', 'keyid': dec_hash(d[9]) if 9 in d else None, 'public_key': d.get(0xB),
                'key_link': dec_link(d[0xE]) if 0xE in d else None,
                'sigtime': dec_u64(d[0xF]) if 0xF in d else None}
    raise WireError(f'validation algorithm {t}')


def dec_manifest(payload):
    """-> {'sec': bytes or None, 'ctx': {...}, 'node': bytes of the node's value or None, 'cipher':, 'tag':}"""
    parts = tlvs(payload)
    types = [t for t, _ in parts]
    if types == [1]:
        return {'sec': None, 'ctx': None, 'node': parts[0][1], 'cipher': None, 'tag': None}
    if types == [0, 2, 3]:
        return {'sec': tlv(*parts[0]), 'ctx': dec_security_ctx(parts[0][1]), 'node': None,
                'cipher': parts[1][1], 'tag': parts[2][1]}
    raise WireError(f'manifest TLVs {types}')


def dec_security_ctx(v):
    t, x = one(v)
    if t not in (0, 1):
        raise WireError(f'security context {t}')
    allowed = (0, 1, 2, 5) if t == 0 else (0, 1, 2, 5, 9, 0xE, 3, 4)
    d = unique(x, allowed)
    for need in (0, 1, 2):
        if need not in d:
            raise WireError(f'security context without {need}')
    ctx = {'kind': 'aead' if t == 0 else 'oaep', 'keynum': number(d[0]), 'keynum_raw': tlv(0, d[0]),
           'nonce': d[1], 'mode': d[2][0] if len(d[2]) == 1 else None, 'mode_raw': tlv(2, d[2]),
           'kdf_alg': None, 'kdf_info_raw': b''}
    if ctx['mode'] not in (1, 2, 3, 4):
        raise WireError('AEAD mode')
    if 5 in d:
        k = unique(d[5], (6, 7))
        ctx['kdf_alg'] = number(k[6])
        if 7 in k:
            ctx['kdf_info_raw'] = tlv(7, k[7])
    ctx['wrapped'] = d.get(4)
    ctx['keyid'] = dec_hash(d[9]) if 9 in d else None
    ctx['keyid_raw'] = tlv(9, d[9]) if 9 in d else None
    ctx['hashalg_raw'] = tlv(3, d[3]) if 3 in d else None
    ctx['keylink'] = dec_link(d[0xE]) if 0xE in d else None
    return ctx


def dec_schema(v):
    t, x = one(v)
    if t == 0x10:
        d = unique(x, (6, 1))
        return {'kind': 'hashed', 'name': None, 'locators': dec_locators(d[6]), 'flags': d.get(1)}
    if t == 0x11:
        d = unique(x, (0, 6, 1))
        return {'kind': 'prefix', 'name': dec_name(d[0]), 'locators': dec_locators(d[6]) if 6 in d else None,
                'flags': d.get(1)}
    if t == 0x12:
        d = unique(x, (0, 2, 6, 1))
        if len(d[2]) != 2:
            raise WireError('suffix type length')
        return {'kind': 'segmented', 'name': dec_name(d[0]), 'suffix': int.from_bytes(d[2], 'big'),
                'locators': dec_locators(d[6]) if 6 in d else None, 'flags': d.get(1)}
    raise WireError(f'schema {t}')


def dec_locators(v):
    out = []
    for t, x in tlvs(v):
        if t != 0xD:
            raise WireError(f'locator {t}')
        out.append(dec_link(x))
    return out


def dec_node(v):
    node = {'subtree_size': None, 'subtree_digest': None, 'locators': None, 'ncdefs': [], 'vendors': [],
            'groups': [], 'has_data': False, 'pad': 0}
    for i, (t, x) in enumerate(tlvs(v)):
        if t == 0:
            if i != 0:
                raise WireError('node data not first')
            node['has_data'] = True
            for t2, y in tlvs(x):
                if t2 == 2:
                    node['subtree_size'] = number(y)
                elif t2 == 3:
                    node['subtree_digest'] = dec_hash(y)
                elif t2 == 6:
                    node['locators'] = dec_locators(y)
                elif t2 == 4:
                    p = tlvs(y)
                    if len(p) != 2 or p[0][0] != 5:
                        raise WireError('NcDef')
                    node['ncdefs'].append((number(p[0][1]), dec_schema(tlv(*p[1]))))
                elif t2 == 0xFFF:
                    node['vendors'].append((y[:3], y[3:]))
                else:
                    raise WireError(f'node data {t2}')
        elif t == 1:
            g = {'subtree_size': None, 'subtree_digest': None, 'leaf_size': None, 'leaf_digest': None,
                 'ncid': None, 'start': None, 'pointers': None, 'has_data': False}
            for t2, y in tlvs(x):
                if t2 == 0xB:
                    g['has_data'] = True
                    d = unique(y, (2, 3, 0, 1, 5, 4))
                    g['subtree_size'] = number(d[2]) if 2 in d else None
                    g['subtree_digest'] = dec_hash(d[3]) if 3 in d else None
                    g['leaf_size'] = number(d[0]) if 0 in d else None
                    g['leaf_digest'] = dec_hash(d[1]) if 1 in d else None
                    g['ncid'] = number(d[5]) if 5 in d else None
                    g['start'] = number(d[4]) if 4 in d else None
                elif t2 == 7:
                    g['pointers'] = []
                    for t3, z in tlvs(y):
                        if t3 != 1 or len(z) != 32:
                            raise WireError('pointer')
                        g['pointers'].append(z)
                else:
                    raise WireError(f'hash group {t2}')
            if g['pointers'] is None:
                raise WireError('hash group without pointers')
            node['groups'].append(g)
        elif t == 0xFFE:
            if any(x):
                raise WireError('pad is not zero')
            node['pad'] += 4 + len(x)
        else:
            raise WireError(f'node {t}')
    return node
