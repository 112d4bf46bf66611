"""Trees made by hand out of wire octets, for what the library's own builder never makes."""
import hashlib

from . import refcrypto, wire


def schema(kind, name=None, suffix=None, locs=()):
    l = b'' if not locs else wire.locators([wire.link_tuple(n) for n in locs])
    if kind == 'hashed':
        return wire.tlv(0x10, l)
    if kind == 'prefix':
        return wire.tlv(0x11, wire.name(name) + l)
    return wire.tlv(0x12, wire.name(name) + wire.tlv(2, suffix.to_bytes(2, 'big')) + l)


def ncdef(ncid, s):
    return wire.tlv(4, wire.tlv(5, wire.varint(ncid)) + s)


def node(groups, ncdefs=(), subtree_size=None):
    d = (b'' if subtree_size is None else wire.tlv(2, wire.varint(subtree_size))) + b''.join(ncdefs)
    return wire.tlv(1, (wire.tlv(0, d) if d else b'') + b''.join(groups))


def group(digests, ncid=None, start=None, **kw):
    gd = None
    if ncid is not None or start is not None or kw:
        gd = wire.group_data(ncid=ncid, start=start, **kw)
    return wire.hash_group(gd, wire.pointers(digests))


def sign(body, how=None, sigtime=1700000000000):
    """-> (alg octets, validation payload octets or None)"""
    if how is None:
        return b'', b''
    if how == 'crc':
        alg = wire.alg_crc32c()
        return alg, wire.validation_payload(refcrypto.crc32c(body + alg).to_bytes(4, 'big'))
    alg = wire.alg_rsa(refcrypto.keyid(how), None, None, sigtime)
    return alg, wire.validation_payload(refcrypto.rsa_sign(how, body + alg))


def packet(body, how=None):
    alg, vp = sign(body, how)
    w = wire.packet(body, alg, vp)
    return digest(w), w


def digest(w):
    return hashlib.sha256(w[8:]).digest()


def data(payload, name=None, how=None, **kw):
    return packet(wire.content_object(name, payload_type=0, payload=payload, **kw), how)


def manifest(n, name=None, how=None, **kw):
    return packet(wire.content_object(name, payload_type=3, payload=n, **kw), how)


class DictReader:
    """A packet input over {hash: octets}; it reparses each time and logs the requests."""

    def __init__(self, store, by_name=None):
        self.store, self.by_name, self.log = dict(store), by_name or {}, []

    def get(self, name=None, hash_restriction=None, *rest, **others):
        from array import array
        from ccnpy.core.Packet import Packet
        h = None if hash_restriction is None else bytes(hash_restriction.value())
        nm = None if name is None else [(name.component(i).type(), bytes(name.component(i).value())) for i in range(name.count())]
        self.log.append((nm, h))
        w = self.store[h] if h is not None else self.by_name[tuple(nm)]
        return Packet.deserialize(array('B', w))

    def close(self):
        pass
