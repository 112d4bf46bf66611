"""Independent cryptography for the oracles: CRC32C by table, HKDF by hmac, and the cryptography package for AES, RSA."""
import hashlib
import hmac
import os

from cryptography.exceptions import InvalidSignature, InvalidTag
from cryptography.hazmat.primitives import hashes, serialization
from cryptography.hazmat.primitives.asymmetric import padding
from cryptography.hazmat.primitives.ciphers.aead import AESCCM, AESGCM

KEYDIR = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'keys')

_T = []
for _i in range(256):
    _c = _i
    for _ in range(8):
        _c = (_c >> 1) ^ (0x82F63B78 if _c & 1 else 0)
    _T.append(_c)


def crc32c(data):
    c = 0xFFFFFFFF
    for b in data:
        c = _T[(c ^ b) & 0xFF] ^ (c >> 8)
    return c ^ 0xFFFFFFFF


assert crc32c(b'123456789') == 0xE3069283


def hkdf(alg, key, salt, info, length):
    h = {1: 'sha256', 2: 'sha384', 3: 'sha512'}[alg]
    n = hashlib.new(h).digest_size
    prk = hmac.new(salt if salt is not None else bytes(n), key, h).digest()
    out = t = b''
    i = 1
    while len(out) < length:
        t = hmac.new(prk, t + info + bytes([i]), h).digest()
        out += t
        i += 1
    return out[:length]


MODES = {1: ('GCM', 16), 2: ('GCM', 32), 3: ('CCM', 16), 4: ('CCM', 32)}


def mode_number(kind, keylen):
    return {('GCM', 16): 1, ('GCM', 32): 2, ('CCM', 16): 3, ('CCM', 32): 4}[(kind, keylen)]


def content_key(ctx, key, kdf_salt=None):
    """The key that encrypts the node, for a decoded security context."""
    if ctx['kdf_alg'] is None:
        return key
    info = b'FLIC' + ctx['keynum_raw'] + ctx['mode_raw'] + ctx['kdf_info_raw']
    return hkdf(ctx['kdf_alg'], key, None if kdf_salt is None else kdf_salt.to_bytes(4, 'big'), info, len(key))


def aead_decrypt(mode, key, iv, cipher, tag, aad):
    """-> plaintext, or None if it does not authenticate"""
    kind, n = MODES[mode]
    if len(key) != n or len(tag) != 16:
        return None
    a = AESGCM(key) if kind == 'GCM' else AESCCM(key)
    try:
        return a.decrypt(iv, cipher + tag, aad)
    except InvalidTag:
        return None


def aead_encrypt(mode, key, iv, plain, aad):
    a = AESGCM(key) if MODES[mode][0] == 'GCM' else AESCCM(key)
    x = a.encrypt(iv, plain, aad)
    return x[:-16], x[-16:]


def decrypt_node(sec, ctx, cipher, tag, key, salt=None, kdf_salt=None):
    iv = (b'' if salt is None else salt.to_bytes(4, 'big')) + ctx['nonce']
    if len(iv) != 12:
        return None
    return aead_decrypt(ctx['mode'], content_key(ctx, key, kdf_salt), iv, cipher, tag, sec)


def pem(n):
    with open(os.path.join(KEYDIR, n + '.pem'), 'rb') as f:
        return f.read()


_keys = {}


def private(n):
    if n not in _keys:
        _keys[n] = serialization.load_pem_private_key(pem(n), None)
    return _keys[n]


def public_der(n):
    return private(n).public_key().public_bytes(serialization.Encoding.DER,
                                                serialization.PublicFormat.SubjectPublicKeyInfo)


def keyid(n):
    return hashlib.sha256(public_der(n)).digest()


def rsa_verify(n, data, signature):
    try:
        private(n).public_key().verify(signature, data, padding.PKCS1v15(), hashes.SHA256())
        return True
    except InvalidSignature:
        return False


def rsa_sign(n, data):
    return private(n).sign(data, padding.PKCS1v15(), hashes.SHA256())


def oaep_label(ctx):
    return (b'FLIC RSA-OAEP' + ctx['keynum_raw'] + ctx['mode_raw'] + ctx['kdf_info_raw'] + ctx['keyid_raw'] +
            ctx['hashalg_raw'])


def oaep_decrypt(n, cipher, label):
    try:
        return private(n).decrypt(cipher, padding.OAEP(mgf=padding.MGF1(hashes.SHA256()), algorithm=hashes.SHA256(),
                                                       label=label))
    except ValueError:
        return None


def unwrap(n, ctx):
    """-> (salt, key) from a full RSA-OAEP security context, or None"""
    if ctx['wrapped'] is None or ctx['keyid_raw'] is None or ctx['hashalg_raw'] is None:
        return None
    x = oaep_decrypt(n, ctx['wrapped'], oaep_label(ctx))
    if x is None or len(x) < 20:
        return None
    return int.from_bytes(x[:4], 'big'), x[4:]


def oaep_encrypt(n, plain, label):
    return private(n).public_key().encrypt(plain, padding.OAEP(mgf=padding.MGF1(hashes.SHA256()),
                                                                algorithm=hashes.SHA256(), label=label))
