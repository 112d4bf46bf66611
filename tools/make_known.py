"""Writes known_findings.json: open findings (none now) and the record of repaired defects."""
import json, os, subprocess
F = [
 ('C07', 'fix: compare Names by wire format', 'a parsed name was never equal to the same name built from text, so named packets could not be fetched'),
 ('C01', 'fix: root manifest carries the top', 'a segmented tree lower than planned could not be read: the root asked for manifest number 0'),
 ('C02', 'fix: size non-root manifests', 'manifests with a name, expiry time or size annotations exceeded the maximum packet size'),
 ('C04', 'fix: group subtree sizes count', 'group subtree sizes of interior manifests were too small when nodes carried no sizes'),
 ('C01', 'fix: an empty file builds', 'building a tree of an empty file crashed'),
 ('C16', 'fix: reading a packet by its link name', 'reading a directory by link name raised NameError'),
 ('C15', 'fix: a fetched packet must match', 'a packet stored under another packet\'s hash was accepted as that packet'),
 ('C13', 'fix: encrypt with the derived key', 'with a KDF, manifests were encrypted under the undiversified key'),
 ('C12', 'fix: wrap a key with a KDF that has no', 'wrapping a key with a KDF but no KdfInfo crashed'),
 ('C12', 'fix: RsaOaepDecryptor.decrypt_node', 'decrypting a node with RSA-OAEP called its context as a function'),
 ('C12', 'fix: RSA-OAEP encryption without', 'RSA-OAEP encryption without an AEAD salt crashed'),
 ('C08', 'fix: a packet signed with an embedded', 'a packet with an embedded public key could not be made or loaded'),
 ('C08', 'fix: a packet signed with a key link', 'a packet with a key link could not be loaded'),
 ('C20', 'fix: the command line password', 'an encrypted PEM key could not be used from the command line'),
 ('C20', 'fix: the writer and the reader derive', 'without --key-num the reader derived another key number than the writer'),
 ('C20', 'fix: packet_reader prints an encrypted', 'packet_reader crashed on an encrypted manifest without the AES key'),
 ('C20', 'fix: packet_reader shows a wrapped', 'packet_reader crashed on a manifest with a wrapped key when it lacked the key'),
 ('C20', 'fix: manifest_reader --hash', 'manifest_reader --hash did not accept a hex hash'),
 ('C21', 'fix: a Timestamp could lose', 'some times lost a millisecond on the way to the wire'),
 ('C21', 'fix: every time of 64 bits', 'a packet with a time over 2^53 ms came back with another time, or could not be parsed'),
 ('C23', 'fix: a missing AES key is reported', 'after one failed lookup, the reader treated a missing AES key as an empty decryptor'),
 ('C01', "fix: a tree deeper than the interpreter's", 'a tree of degree 2 over 500 chunks or more could not be read: RecursionError'),
 ('C01', 'fix: a tree whose name is not UTF-8', 'a hashed tree whose root name is not UTF-8 text could not be read'),
 ('C07', 'fix: objects are equal exactly when', 'equality ignored the TLV type, told bytes from array, changed by iterating an object, and crashed on None'),
 ('C05', 'fix: a name constructor schema may', 'a name constructor schema with protocol flags could not be built or parsed'),
 ('C21', 'fix: a number that does not fit', 'a number over 64 bits, or a time before 1970, was truncated silently'),
 ('C06', 'fix: a packet with optional headers', 'a packet with a header length over 8 serialized to octets that cannot be read'),
 ('C09', 'fix: an authentication tag must', 'octets moved between ciphertext and authentication tag: the altered manifest still decrypted'),
 ('C18', 'fix: a plan has no negative', 'the plan for one data object had -1 interior manifests and 0 manifests in all'),
 ('C16', 'fix: no two names may share', 'two named objects whose names look alike as text shared one link file, so the first was not found by name'),
 ('C08', 'fix: a manifest packet is signed by', 'ManifestFactory.build_packet signed with another signer than the one it was given, or crashed'),
 ('C23', 'fix: a reader uses the key most recently', 'a traversal kept using the first key it saw under a key number after another was added, so the second tree did not decrypt'),
 ('C25', 'fix: two iterations over one object', 'a second iteration over Pointers, a Tlv, Link, HashValue or Timestamp cut the first one short'),
 ('C25', 'fix: an object made from a list', 'printing a ValidationPayload, or a packet with one, that was made from a list of octets raised TypeError'),
 ('C06', 'fix: a manifest with two authentication', 'a manifest with two authentication tags was accepted, and only the second was kept'),
 ('C06', 'fix: a validation algorithm with an element', 'a signature algorithm with two key ids, key links, public keys or times was accepted, and only the last was kept'),
 ('C25', 'fix: a Name of no components', 'printing, counting or linking a Name() raised TypeError'),
 ('C25', 'fix: a hash group changed when', 'the pointers of a group taken from a HashGroupBuilder changed when the builder went on, its octets did not'),
 ('C24', 'fix: a graph could not hold a packet', 'collecting a graph failed for a tree whose root, or prefix, is a name of no components'),
 ('C25', 'fix: packets with an unreadable or absent', 'printing a parsed packet raised when its payload was not the manifest or link its payload type says, or was absent'),
 ('C25', 'fix: a context with an unknown AEAD mode', 'a manifest with an unknown AEAD mode was parsed, but printing it raised ValueError'),
 ('C25', 'fix: a node with groups of no pointers', 'a node with a hash group without pointers could not be printed, and 1000 empty hash groups ended an iteration with RecursionError'),
 ('C07', 'fix: a signature without a time', 'a packet signed without a signature time had other octets and another hash each time it was parsed, and its good signature was refused'),
 ('C25', 'fix: names with a very long number', 'a name with a chunk or manifest number of 1800 octets could not be printed or put into a graph'),
 ('C06', 'fix: octets after the only element', 'octets after the algorithm of a signature, the security context of a manifest or the value of a digest were dropped, so the altered packet was accepted'),
 ('C03', 'fix: a tree whose data is numbered', 'a tree of hashed or prefix manifests over segmented data could not be read: leaf manifests did not say which number their pointers start at'),
 ('C06', 'fix: a vendor element too short', 'a vendor element of fewer octets than its enterprise number needs was accepted, and came out as other octets'),
 ('C05', 'fix: the pad of a node', 'the pad of a node was dropped when the node was parsed, and a pad element could not be parsed itself'),
 ('C24', 'fix: the graph collected while building', 'the graph collected while a tree is built labelled its data packets by hash where the traversal graph labels them by number'),
 ('C05', 'fix: the locator of a node', 'asking a node with locators for its locator raised AttributeError'),
 ('C20', 'fix: a file of any octets', 'without --output, the manifest reader dropped every octet that is not UTF-8 text within its packet'),
 ('C07', 'fix: a parsed content object keeps', 'a parsed packet with its elements in another order, or numbers of another width, had the wrong hash and lost its good signature'),
]
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines()
fixed = []
for prop, subj, what in F:
    c = [l.split(' ', 1)[0] for l in log if l.split(' ', 1)[1].startswith(subj)]
    assert len(c) == 1, (subj, c)
    fixed.append(f'fixed: property={prop} {c[0]} {what}')
extra = sum(1 for l in log if l.split(' ', 1)[1].startswith('fix:')) - len(F)
assert extra == 0, extra
json.dump({'findings': [], 'fixed': fixed}, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json'), 'w'), indent=1)
