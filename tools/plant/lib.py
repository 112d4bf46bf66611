"""What the demonstrations share: build a tree, read it back, look at its manifests.  Only the public interface."""
import contextlib
import io
import os
import sys
import tempfile
from array import array

from ccnpy.core.ContentObject import ContentObject
from ccnpy.core.ExpiryTime import ExpiryTime
from ccnpy.core.HashValue import HashValue
from ccnpy.core.Name import Name, NameComponent
from ccnpy.core.Packet import Packet
from ccnpy.core.Payload import Payload
from ccnpy.core.Tlv import Tlv
from ccnpy.crypto.AeadKey import AeadGcm, AeadCcm
from ccnpy.crypto.InsecureKeystore import InsecureKeystore
from ccnpy.crypto.RsaKey import RsaKey
from ccnpy.crypto.RsaSha256 import RsaSha256Signer
from ccnpy.flic.ManifestTree import ManifestTree
from ccnpy.flic.ManifestTreeOptions import ManifestTreeOptions
from ccnpy.flic.aeadctx.AeadEncryptor import AeadEncryptor
from ccnpy.flic.aeadctx.AeadDecryptor import AeadDecryptor
from ccnpy.flic.aeadctx.AeadParameters import AeadParameters
from ccnpy.flic.name_constructor.SchemaType import SchemaType
from ccnpy.flic.tlvs.Manifest import Manifest
from ccnpy.flic.tree.Traversal import Traversal
from ccnpy.flic.tree.TreeIO import TreeIO

SCHEMAS = {'hashed': SchemaType.HASHED, 'prefix': SchemaType.PREFIX, 'segmented': SchemaType.SEGMENTED}


def check(condition, message):
    if not condition:
        sys.stderr.write('DEMO: %s\n' % message)
        sys.exit(1)


def octets(n, seed=1):
    out = bytearray()
    x = seed * 2654435761 % 2 ** 32 or 1
    while len(out) < n:
        x = (x * 1664525 + 1013904223) % 2 ** 32
        out += x.to_bytes(4, 'big')
    return bytes(out[:n])


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def options(schema='hashed', name='ccnx:/example.com/file', **kw):
    if schema == 'segmented':
        kw.setdefault('manifest_prefix', Name.from_uri('ccnx:/example.com/manifest'))
        kw.setdefault('data_prefix', Name.from_uri('ccnx:/example.com/data'))
    kw.setdefault('signer', None)
    return ManifestTreeOptions(name=Name.from_uri(name), schema_type=SCHEMAS[schema], **kw)


def build(content, schema='hashed', out=None, name_context=None, graph=None, opts=None, **kw):
    """Returns (packet writer, root packet)"""
    out = TreeIO.PacketMemoryWriter() if out is None else out
    data = io.BytesIO(content) if isinstance(content, (bytes, bytearray)) else content
    opts = options(schema, **kw) if opts is None else opts
    with quiet():
        root = ManifestTree(data_input=data, packet_output=out, tree_options=opts, manifest_graph=graph,
                            name_context=name_context).build()
    return out, root


def read(store, root, keystore=None, traversal=None):
    """The octets of the file; store is a packet reader or a list of packets"""
    store = TreeIO.PacketMemoryReader(store) if isinstance(store, list) else store
    buf = TreeIO.DataBuffer()
    with quiet():
        t = Traversal(packet_input=store, data_writer=buf, keystore=keystore)
        t.traverse(root_name=root.body().name(), hash_restriction=root.content_object_hash())
    return buf.buffer.tobytes()


def reparse(packet):
    return Packet.deserialize(array('B', packet.serialize().tobytes()))


def manifest_of(packet):
    with quiet():
        return Manifest.from_content_object(packet.body())


def manifests(packets):
    """[(packet, manifest)] of the packets that are manifests"""
    return [(p, manifest_of(p)) for p in packets if p.body().is_manifest()]


def data_packets(packets):
    return [p for p in packets if not p.body().is_manifest()]


def fails(f, *exceptions):
    try:
        with quiet():
            f()
    except (exceptions or Exception):
        return True
    return False


def aes(bits=128, ccm=False, number=7, **kw):
    key = (AeadCcm if ccm else AeadGcm)(bytes(range(bits // 8)))
    return AeadParameters(key=key, key_number=number, **kw)


def keystore_of(*params):
    ks = InsecureKeystore()
    for p in params:
        ks.add_aes_key(p)
    return ks
