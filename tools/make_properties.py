"""Writes /verif/properties.jsonl.  Run it after editing the list below."""
import json
import os

P = []


def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = {'id': id, 'title': title, 'statement': statement,
         'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
         'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}}
    if state:
        d['anchors']['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe:
        d['anchors']['observe_at'] = observe
    d['anchors']['hook_needed'] = None
    P.append(d)


T = 'ccnpy/flic/tree/'
F = 'ccnpy/flic/'

p('C01', 'A tree reads back as exactly the file it was built from',
  'Reading a tree from its root returns exactly the octets of the file, in order, for every file content and length '
  'and every supported combination of naming schema (one for the whole tree, or one for its manifests and another for its data), prefixes or locators, names, expiry times, size annotations, '
  'signer, encryption, tree degree and packet size. The result is the same whether the packets are read from memory, '
  'after being reparsed from their wire octets, or from a directory, and whether the input file delivers full or short '
  'reads. A reader that knows only the wire format, and not this library, gets the same octets.',
  ['inputs', 'configurations'],
  'All file contents (empty, one octet, multiples of the payload size, repetitive, random, larger than 65536 chunks) '
  'times all build options a user can set.',
  'The tests build a handful of trees with fixed data, mostly one schema at a time; the product of options and of tree '
  'shapes (which the optimizer picks from file size and packet size) is far too large to list.',
  [F + 'ManifestTree.py', T + 'TreeBuilder.py', T + 'Traversal.py', F + 'name_constructor/SchemaImpl.py'],
  [('reverse pre-order construction', T + 'TreeBuilder.py'), ('pre-order traversal', T + 'Traversal.py'),
   ('chunking', F + 'name_constructor/SchemaImpl.py')],
  [('segment head/tail', 'the data pointers not yet placed in the tree', T + 'TreeBuilder.py')],
  ['packet output', 'application data output'])

p('C02', 'Packets fit the configured maximum packet size',
  'Every data packet and every manifest below the root is at most the configured maximum packet size on the wire, and '
  'the packet length in its header is its true length. When the input delivers full reads, all data packets of a file '
  'but the last carry the same number of payload octets. A maximum too small for a manifest of two pointers is '
  'refused with an error, never exceeded.',
  ['inputs', 'configurations'],
  'All file sizes (including files over 2^32 octets, whose size fields are longer) times all options that change the '
  'overhead: names, expiry times, size annotations, encryption, schemas, and every packet size down to the minimum.',
  'Tests use a few packet sizes with slack left over; an overhead of one octet shows only when the pointers fill the '
  'packet to the last octet, and the sizes of the number fields depend on the file.',
  [T + 'ManifestSizeCalculator.py', F + 'name_constructor/SchemaImpl.py', F + 'ManifestFactory.py'],
  [('largest manifest estimate', T + 'ManifestSizeCalculator.py'), ('payload size estimate', F + 'name_constructor/SchemaImpl.py')],
  None, ['packet output'])

p('C03', 'The written packets form exactly one tree over the file',
  'Every packet written for a file is reachable from the root, every pointer leads to a packet that was written, and a '
  'pre-order walk meets the data packets in file order, each exactly as often as it was written. The root has exactly '
  'one pointer, and every other manifest has at least one pointer and at most as many as the configured tree degree. '
  'Every manifest below the root is pointed to by exactly one manifest per time it was written.',
  ['inputs', 'configurations'],
  'All chunk counts times all degrees and packet sizes: every (chunks, pointers per manifest) pair gives a different '
  'shape.',
  'Tests look at about ten shapes; an off-by-one in the bottom-up construction shows for particular residues of chunk '
  'count and degree only.',
  [T + 'TreeBuilder.py', T + 'TreeOptimizer.py', T + 'TreeParameters.py', F + 'HashGroupBuilder.py'],
  [('bottom-up construction', T + 'TreeBuilder.py'), ('shape optimization', T + 'TreeOptimizer.py'),
   ('group builders', T + 'HashGroupBuilderPair.py')],
  [('segment head/tail', 'the data pointers not yet placed', T + 'TreeBuilder.py')], ['packet output'])

p('C04', 'Size annotations tell the truth',
  'Every subtree size of a node is the number of file octets below that manifest, every subtree size of a hash group is '
  'the number of file octets below its pointers, and every leaf size is the number of file octets in the data packets '
  'it points to directly. An annotation that was asked for is in every manifest below the root, the root carries the '
  'total file size, and an annotation that was not asked for is nowhere. A single manifest built from pointers, hash '
  'groups or a node carries exactly the values given for it, less the annotations its options leave out. '
  'A group built pointer by pointer holds its pointers in the order given, states the sums of the sizes given, and takes '
  'no more pointers than its limits.',
  ['inputs', 'configurations'],
  'All file sizes, including over 2^32 octets, times the eight combinations of annotations, times schemas with one and '
  'with two groups per manifest.',
  'Tests check that annotations exist and compare a few numbers in one-level trees; the sums propagate through the '
  'levels of arbitrary trees.',
  [F + 'HashGroupBuilder.py', T + 'TreeBuilder.py', T + 'HashGroupBuilderPair.py', F + 'ManifestFactory.py'],
  [('size sums', F + 'HashGroupBuilder.py'), ('node sizes', T + 'TreeBuilder.py')], None, ['packet output'])

p('C05', 'The wire format is exact in both directions',
  'Every packet and manifest element the library can build serializes to exactly the octets the CCNx and FLIC formats '
  'prescribe, and its reported length is the length of those octets. Parsing the prescribed octets gives an object '
  'equal to the one built directly, with the same field values, that serializes to the same octets.',
  ['inputs'],
  'All combinations of optional fields and all field values of all packet, content object, validation, manifest, '
  'security context, node, hash group, name constructor, link and locator elements.',
  'Tests compare a few fixed encodings per element; the encodings depend on which optional fields are there and on '
  'number widths.',
  ['ccnpy/core/Packet.py', 'ccnpy/core/ContentObject.py', 'ccnpy/core/Tlv.py', F + 'tlvs/Manifest.py', F + 'tlvs/Node.py',
   F + 'tlvs/GroupData.py', F + 'tlvs/NcSchema.py', F + 'tlvs/RsaOaepCtx.py', F + 'tlvs/AeadCtx.py'],
  [('TLV encoding', 'ccnpy/core/Tlv.py'), ('optional field parsing', 'ccnpy/core/TlvType.py')], None,
  ['serialize and deserialize of every public element'])

p('C06', 'Malformed octets are refused or understood, never worse',
  'Parsing arbitrary octets as a packet, name or manifest ends in bounded time with an object or an ordinary error. '
  'What is accepted serializes to octets that parse to an equal packet with the same hash. A packet cut off in the '
  'middle of an element is never accepted, also where the lengths around it are right, and neither is one in which an element that may occur once occurs twice. No element is '
  'taken for one of another type, and an element that has no place in a packet, content object, link, manifest or node '
  'is refused there, not dropped. An element of any length is refused or comes out with the value it came in with.',
  ['inputs'],
  'All octet strings; sampled as random strings, mutations, splices, truncations and length corruptions of real packets '
  'of every kind.',
  'Tests feed a handful of broken inputs; a hang or runaway recursion needs an unusual length field.',
  ['ccnpy/core/Packet.py', 'ccnpy/core/Tlv.py', 'ccnpy/core/Name.py', F + 'tlvs/Manifest.py', F + 'tlvs/Node.py'],
  [('length check', 'ccnpy/core/Tlv.py'), ('element loops', 'ccnpy/core/Packet.py')], None, ['packet and manifest parser'])

p('C07', 'A content object hash identifies exactly the object',
  'The hash of a content object is the SHA-256 of its wire octets after the fixed header, and stays the same through '
  'saving, loading and reparsing. It does not depend on the fixed header, and packets that differ anywhere after it '
  'have different hashes. Packets, names and hashes compare equal exactly when their octets do, whatever containers '
  'they were built from.',
  ['inputs'],
  'All packets: signed and unsigned, named and nameless, all payloads and field combinations, built or parsed.',
  'Tests check one hash per packet type; equality between built and parsed objects depends on the container type each '
  'field happens to use.',
  ['ccnpy/core/Packet.py', 'ccnpy/core/HashValue.py', 'ccnpy/core/Name.py'],
  [('hash computation', 'ccnpy/core/Packet.py'), ('equality', 'ccnpy/core/HashValue.py')], None, ['packet constructor and parser'])

p('C08', 'Signatures and checksums verify exactly what was signed',
  'Every packet signed by this library verifies, in this library and in an independent implementation, with the '
  'signer\'s public key, also after saving and loading and with any choice of embedded key, key link and signature '
  'time. A packet whose body, validation algorithm or signature was altered, or that was signed by another key, is '
  'rejected by the validator and by a tree traversal whenever the needed key is at hand. Checksummed packets behave in '
  'the same way.',
  ['inputs', 'fault_sequences'],
  'All packet contents, all signer options, all single-octet alterations of a signed packet, all key mismatches.',
  'Tests verify a few good packets and one bad signature; soundness is about every altered octet.',
  ['ccnpy/core/PacketValidator.py', 'ccnpy/crypto/RsaSha256.py', 'ccnpy/crypto/RsaKey.py', 'ccnpy/crypto/Crc32c.py',
   'ccnpy/core/ValidationAlg.py'],
  [('validator', 'ccnpy/core/PacketValidator.py'), ('RSA signer and verifier', 'ccnpy/crypto/RsaSha256.py'),
   ('CRC signer and verifier', 'ccnpy/crypto/Crc32c.py')], None, ['validator verdict', 'traversal'])

p('C09', 'An altered or wrongly keyed encrypted manifest never decrypts',
  'Decrypting an encrypted manifest gives exactly the node that was encrypted, or an error. Any alteration of its '
  'ciphertext, authentication tag or security context, or a different key, salt, key derivation or mode, gives an '
  'error, never another node and never file octets.',
  ['inputs', 'fault_sequences'],
  'All nodes, ciphers, key sizes, salts, key derivations and wrapped keys; every octet position altered; every '
  'parameter of the reader changed.',
  'Tests decrypt what they encrypted; tampering is tried in one place.',
  [F + 'aeadctx/AeadImpl.py', F + 'RsaOaepCtx/RsaOaepImpl.py', 'ccnpy/crypto/AeadKey.py', T + 'DecryptorCache.py'],
  [('authenticated decryption', 'ccnpy/crypto/AeadKey.py'), ('context as associated data', F + 'aeadctx/AeadImpl.py')],
  None, ['decryptor', 'traversal'])

p('C10', 'An encrypted tree reveals no manifest content and follows the cipher spec',
  'With encryption on, no manifest of a tree, the root included, carries a plain node, and no child hash, locator, '
  'name constructor, size or key material appears in clear in any manifest payload. Every encrypted manifest decrypts '
  'in an independent implementation of the published cipher construction (AES-GCM or AES-CCM, salt and nonce as IV, '
  'security context as associated data, derived key where one was asked for) to the node the tree needs.',
  ['inputs', 'configurations'],
  'All trees, schemas, ciphers, key sizes, salts and key derivations.',
  'Tests round-trip through the same code on both sides, so a wrong key, IV or associated data on both sides is '
  'invisible to them.',
  [F + 'ManifestFactory.py', F + 'aeadctx/AeadImpl.py', F + 'RsaOaepCtx/RsaOaepImpl.py'],
  [('encryption of every manifest', F + 'ManifestFactory.py'), ('IV and key', F + 'aeadctx/AeadImpl.py')], None,
  ['packet output'])

p('C11', 'No nonce is ever used twice under one key',
  'No two encryptions under the same key use the same nonce, within one encryptor, between encryptors made from the '
  'same parameters, between processes, and whatever the program does to seed the ordinary random generator. Nonce and '
  'salt together always fill the 12 octet IV, and every generated content key and salt is fresh.',
  ['histories', 'configurations'],
  'All sequences of encryptions, with and without salt, over encryptor instances, trees and processes (forked ones too).',
  'A test that encrypts once or twice cannot see a reuse.',
  [F + 'aeadctx/AeadImpl.py', 'ccnpy/crypto/AeadKey.py', F + 'RsaOaepCtx/RsaOaepEncryptor.py'],
  [('nonce generation', 'ccnpy/crypto/AeadKey.py')], [('nonce', 'per-encryption random octets', 'ccnpy/crypto/AeadKey.py')],
  ['security context of every encrypted manifest'])

p('C12', 'A wrapped content key opens with the right private key and context only',
  'In RSA-OAEP mode the root manifest carries the content key and salt wrapped for the given public key, and a reader '
  'that holds only the private key reads the whole tree; the wrapping follows the published construction, including '
  'its label. Another private key, an altered wrapped key, or a changed key number, mode or key derivation information '
  'in the context does not unwrap. Only the root carries the wrapped key. Who has opened it can encrypt further manifests '
  'under the same key, which open in the same way.',
  ['inputs', 'configurations', 'fault_sequences'],
  'All content keys, salts, key numbers, modes and key derivations; all alterations of the wrapped key and its context.',
  'Tests wrap and unwrap one key with the same code.',
  [F + 'RsaOaepCtx/WrappedKey.py', F + 'RsaOaepCtx/RsaOaepWrapper.py', F + 'RsaOaepCtx/RsaOaepImpl.py',
   F + 'RsaOaepCtx/RsaOaepDecryptor.py', 'ccnpy/crypto/RsaKey.py'],
  [('key wrapping', F + 'RsaOaepCtx/WrappedKey.py'), ('unwrap on first use', F + 'RsaOaepCtx/RsaOaepImpl.py')], None,
  ['root manifest', 'reader keystore'])

p('C13', 'Derived keys are HKDF keys of the stated inputs',
  'With a key derivation function, a manifest is encrypted under HKDF, with the stated hash, of the key, the salt and '
  'the fixed info built from key number, mode and the given info, and never under the key itself. Different info, salt, '
  'hash, key number or mode give different keys. The derivation function itself equals RFC 5869 for every hash, length, '
  'salt and info.',
  ['inputs', 'configurations'],
  'All keys, lengths, salts, infos and the three hash functions.',
  'Tests compare one derived value; most trees use the defaults.',
  ['ccnpy/crypto/KDF.py', F + 'aeadctx/AeadImpl.py', F + 'tlvs/KdfData.py', 'ccnpy/crypto/HpkeKdfIdentifiers.py'],
  [('HKDF', 'ccnpy/crypto/KDF.py'), ('fixed info', F + 'aeadctx/AeadImpl.py')], None, ['derivation result', 'encrypted manifests'])

p('C14', 'Packets are named, numbered and labelled by the schema',
  'The root has exactly the configured name; in a hashed tree every other packet is nameless; in a prefix tree every '
  'packet has its prefix as name; in a segmented tree data packets are numbered 0, 1, 2 ... in file order below the data '
  'prefix, and every manifest has a manifest number below the manifest prefix that no other manifest has. In a segmented '
  'tree the last data packet, and no other packet of any schema, states the final chunk number. Expiry times and payload '
  'types are exactly those configured for the root, the manifests and the data. Every hash group refers to a name '
  'constructor with exactly the schema and the prefix or locator configured for what it points to: the name of the root '
  'where none is configured. A segmented tree whose manifests and data would have one prefix is refused.',
  ['inputs', 'configurations'],
  'All schemas, prefixes equal and different, all file sizes including more than 255 and 65535 chunks, all expiry times, '
  'all tree shapes.',
  'Tests check the names of small trees; number widths change at 256, 65536 and numbering depends on the tree shape.',
  [F + 'name_constructor/SegmentedSchemaImpl.py', F + 'name_constructor/PrefixSchemaImpl.py',
   F + 'name_constructor/HashSchemaImpl.py', F + 'name_constructor/NameConstructorContext.py', T + 'ManifestIdFactory.py'],
  [('name constructors', F + 'name_constructor/SchemaImpl.py'), ('manifest numbering', T + 'ManifestIdFactory.py')],
  [('next ids', 'per level counters of manifest numbers', T + 'ManifestIdFactory.py')], ['packet output'])

p('C15', 'A faulty store never makes a reader return wrong data silently',
  'When a packet of a tree is missing, replaced by another packet, altered, truncated, swapped with its sibling or '
  'renamed in the store, reading the tree raises an error, and the octets delivered before it are a prefix of the '
  'file. This holds for every packet of the tree, in memory and in a directory, for plain and encrypted trees, whether '
  'or not packets are signed. The same holds for a pointer to a packet that is neither data nor a readable manifest, '
  'or that has another name than the one its name constructor gives. A reader with the undamaged store, even after a '
  'failed attempt, succeeds.',
  ['fault_sequences', 'inputs'],
  'Every single packet of a tree times every fault, and sequences of faults and repairs.',
  'Tests read intact stores; the faults are one per packet and kind.',
  [T + 'Traversal.py', T + 'TreeIO.py', 'ccnpy/core/PacketValidator.py'],
  [('hash check of each fetched packet', T + 'Traversal.py'), ('stores', T + 'TreeIO.py')], None,
  ['packet input', 'application data output'])

p('C16', 'Packet stores keep every packet exactly',
  'A packet put in a memory or directory store (flat or nested) is found again under its hash with identical octets, '
  'however many packets are written, twice or not, in any order; and a directory holds one file per distinct packet, '
  'named by the hash, that contains exactly the packet. With linking on, a named object is found by its name through a '
  'valid signed link; the counters of distinct packets and octets match what was written; the network writer sends '
  'exactly the packets in order.',
  ['histories', 'inputs'],
  'All sequences of puts and gets over all kinds of packets, names and signers.',
  'Tests put a few packets once each.',
  [T + 'TreeIO.py', 'ccnpy/core/Link.py', 'ccnpy/core/Packet.py'],
  [('memory store', T + 'TreeIO.py'), ('directory store', T + 'TreeIO.py'), ('network writer', T + 'TreeIO.py')],
  [('by_hash', 'distinct packets of a store', T + 'TreeIO.py')], ['files on disk', 'socket'])

p('C17', 'A name constructor holds on its branch only',
  'Reading a manifest requests each child under the name given by the constructor its hash group refers to, with the '
  'group\'s start number plus the position of the pointer. A definition in a manifest holds for that manifest and '
  'everything below it, replaces one of the same number from above, and never reaches its siblings or its parent. A '
  'group that refers to an undefined constructor is an error. Reading may begin at any manifest of a built tree with the constructors that the '
  'builder hands out, and gives that part of the tree.',
  ['inputs', 'configurations'],
  'All trees of manifests with arbitrary placements, redefinitions and uses of constructors of every schema.',
  'The builder only ever defines constructors in the root, so tests of built trees never see scoping.',
  [T + 'Traversal.py', F + 'name_constructor/SchemaImplFactory.py', F + 'tlvs/Node.py', F + 'tlvs/SuffixComponentType.py'],
  [('per-branch constructor cache', T + 'Traversal.py'), ('segment number iteration', F + 'tlvs/Node.py')],
  [('constructor cache', 'the definitions in force on the current branch', T + 'Traversal.py')], ['requests at the packet input'])

p('C18', 'The tree plan always has room for the file',
  'For every number of data objects and of pointers per manifest, the chosen plan splits the pointers into direct and '
  'indirect ones without exceeding them, and the tree it describes holds all the data objects. No other split needs '
  'fewer interior manifests, and none that needs as few leaves less room unused; a plan of least waste leaves no more '
  'room unused than any split. Manifest numbers drawn for the levels of a tree are never repeated and never negative.',
  ['inputs'],
  'All pairs of data object count and pointer count; checked exhaustively up to a bound and sampled beyond.',
  'Tests try about ten pairs; the formulas use logarithms and rounding that go wrong at particular values.',
  [T + 'TreeOptimizer.py', T + 'OptimizerResult.py', T + 'TreeParameters.py', T + 'ManifestIdFactory.py'],
  [('plan search', T + 'TreeOptimizer.py'), ('height', T + 'OptimizerResult.py'), ('numbering', T + 'ManifestIdFactory.py')],
  None, ['plan', 'built tree'])

p('C19', 'Several files through one naming context keep separate numbers',
  'Chunking several files one after the other through the same naming context numbers their data packets '
  'consecutively, never reusing a number, and each file\'s description lists exactly its own chunks with their true '
  'numbers, sizes and hashes. A tree built over such a description reads back as that file alone.',
  ['histories', 'inputs'],
  'All sequences of file sizes through one context, for all schemas.',
  'No test chunks more than one file through a context.',
  [F + 'name_constructor/SchemaImpl.py', F + 'name_constructor/FileMetadata.py', F + 'ManifestTree.py'],
  [('chunk counter', F + 'name_constructor/SchemaImpl.py')],
  [('next chunk id', 'the number of the next data packet', F + 'name_constructor/SchemaImpl.py')], ['packet output'])

p('C20', 'The command line tools write, read and show files faithfully',
  'The manifest writer leaves exactly the packets that its options ask for (schema, names, degree, packet size, expiry '
  'times, keys, encryption, root signature, links). The file is read back by the manifest reader, '
  'given the root name and hash, or the name alone where links were written, and the matching keys, as exactly the same '
  'file. With a wrong key, or with an altered or missing packet file, the reader exits with an error and does not write '
  'the file in full. The packet reader shows every packet file without failing, shows an encrypted manifest\'s '
  'pointers only with the right key, fails for a packet whose signature was altered if it has the key, and changes no file. The writer asks for a password it is not given. What cannot be done ends with an error and no root.',
  ['configurations', 'inputs', 'fault_sequences'],
  'All option combinations of the three tools: schemas, locators, prefixes, degree, packet size, expiry, keys and '
  'passwords, ciphers, salts, key derivation, wrapping, links.',
  'Tests call parts of the tools with fixed arguments.',
  ['ccnpy/apps/manifest_writer.py', 'ccnpy/apps/manifest_reader.py', 'ccnpy/apps/packet_reader.py', 'ccnpy/apps/cli_utils.py',
   'ccnpy/apps/packet_utils.py'],
  [('option handling', 'ccnpy/apps/cli_utils.py'), ('writer', 'ccnpy/apps/manifest_writer.py'),
   ('reader', 'ccnpy/apps/manifest_reader.py')], None, ['files', 'exit status', 'standard output'])

p('C21', 'Values survive the trip through packets unchanged',
  'Numbers, times to the millisecond, names, chunk numbers, sizes, vendor numbers, digests, salts and payloads put into '
  'a packet come back with the same value when the packet is parsed, over the whole range of each field. A value out of '
  'the range of its field is refused with an error, not truncated. No value depends on the time zone of the machine.',
  ['inputs'],
  'All values of every field: widths 1 to 8 octets, boundaries, all millisecond times of the next centuries.',
  'Tests use small numbers and whole seconds.',
  ['ccnpy/core/Tlv.py', 'ccnpy/core/Timestamp.py', 'ccnpy/core/Name.py', F + 'tlvs/Vendor.py', F + 'tlvs/SuffixComponentType.py'],
  [('number encoding', 'ccnpy/core/Tlv.py'), ('time encoding', 'ccnpy/core/Timestamp.py')], None, ['accessors of parsed objects'])

p('C22', 'Building is deterministic',
  'Building the same file twice with the same options gives the same packets in the same order, octet by octet, apart '
  'from what is random or dated by design (nonces, generated keys, the signature time and signature of the root) and '
  'the identifiers of name constructors, which are numbered on through a process: regardless of what the process built or read before and of hash randomization. In a hashed tree equal chunks give '
  'the same packet, which stores keep once.',
  ['histories', 'configurations'],
  'All files and options, after arbitrary earlier activity in the process, in separate processes with different hash '
  'seeds.',
  'Tests build each tree once, in a fresh state.',
  [F + 'ManifestTree.py', F + 'name_constructor/SchemaImplFactory.py', T + 'TreeBuilder.py'],
  [('numbering of constructors', F + 'name_constructor/SchemaImplFactory.py')],
  [('constructor number counter', 'process-wide', F + 'name_constructor/SchemaImplFactory.py')], ['packet output'])

p('C23', 'The keystore returns exactly the key that was added',
  'A lookup by key number returns the parameters most recently added under that number, a lookup by key id the key with '
  'that id, and a lookup by name the key most recently added under that name; a lookup of anything else is a not-found '
  'error every time. Keys loaded from PEM files, encrypted or not, private or public, have the key id of their public '
  'key, and wrong passwords are refused.',
  ['histories', 'inputs'],
  'All sequences of adding and looking up keys, through the keystore and through readers that cache decryptors.',
  'Tests add one or two keys and look each up once.',
  ['ccnpy/crypto/InsecureKeystore.py', 'ccnpy/crypto/RsaKey.py', T + 'DecryptorCache.py'],
  [('key maps', 'ccnpy/crypto/InsecureKeystore.py'), ('decryptor cache', T + 'DecryptorCache.py')],
  [('key maps', 'keys by number, id and name', 'ccnpy/crypto/InsecureKeystore.py'),
   ('last decryptor', 'cached by key number', T + 'DecryptorCache.py')], ['lookup results', 'traversal'])

p('C24', 'A traversal visits and reports exactly the tree',
  'A traversal fetches each packet of the tree exactly once per pointer to it, in pre-order, and writes the payload of '
  'each data packet exactly once, as one write per data packet in file order. Its count is the number of packets '
  'visited, and the graph it can collect, like the graph collected while building, has exactly the manifests and data of '
  'the tree as nodes and their pointers as ordered edges (the saved file names each packet by the first octets of its '
  'hash, and shows repeated pointers between two packets once, tells manifests from data, and labels packets whose names end in a number with it). While a graph is paused, nothing is added to it.',
  ['inputs', 'configurations'],
  'All trees of all schemas, plain and encrypted, and traversals used several times.',
  'Tests compare the count of a few trees.',
  [T + 'Traversal.py', T + 'ManifestGraph.py'],
  [('pre-order visit', T + 'Traversal.py'), ('graph entries', T + 'ManifestGraph.py')], None,
  ['packet input', 'application data output', 'saved graph'])

p('C25', 'Looking at objects does not change them',
  'Printing, pretty-printing, comparing, hashing, measuring, iterating, serializing, validating, decrypting or reading a '
  'packet or manifest any number of times in any order never fails for packets the library can build or parse, and '
  'leaves the octets, hash and field values of every object unchanged. So does putting it into other objects; '
  'extending one TLV by another, or a name by a component, changes neither, and a hash group taken from its builder '
  'stays as it was when the builder goes on. Serializing again gives the same octets; reading the same tree again '
  'gives the same file. Pretty-printed text is the printed text with other spacing.',
  ['histories', 'inputs'],
  'All sequences of observing operations on all kinds of packets, including names that are not text.',
  'Tests serialize once; shared mutable buffers are handed out by accessors.',
  ['ccnpy/core/Packet.py', 'ccnpy/core/FixedHeader.py', 'ccnpy/core/Tlv.py', F + 'tlvs/Node.py', F + 'tlvs/Manifest.py',
   'ccnpy/core/DisplayFormatter.py'],
  [('cached wire format', 'ccnpy/core/TlvType.py'), ('buffers', 'ccnpy/core/Tlv.py')],
  [('wire format buffers', 'mutable arrays shared by accessors', 'ccnpy/core/Tlv.py')], ['objects before and after'])

p('C26', 'Trees built or read side by side do not disturb each other',
  'When the building and reading of several trees, with different or the same options, keys and stores, are interleaved '
  'in one process, at any packet boundary, each tree and each file read is the same as if it had been handled alone. '
  'This holds after any number of earlier trees in the process.',
  ['schedules', 'histories'],
  'All interleavings at packet boundaries of several builds and reads in one thread, and any number of earlier builds.',
  'Tests handle one tree at a time; shared counters and caches show only when two are alive.',
  [F + 'name_constructor/SchemaImplFactory.py', T + 'Traversal.py', T + 'DecryptorCache.py', T + 'TreeIO.py'],
  [('per-instance state', T + 'TreeBuilder.py'), ('constructor numbers', F + 'name_constructor/SchemaImplFactory.py')],
  [('constructor number counter', 'process-wide', F + 'name_constructor/SchemaImplFactory.py')],
  ['packet output and input, used as scheduling points'])

p('C27', 'Packets are written children first, and a failed build leaves no root',
  'While a tree is built, every packet is written after all the packets it points to and the root is written last, so '
  'at any moment every manifest in the store is complete below. If the store refuses any packet, the input fails '
  'at any read, or a signature or an encryption fails, the build raises that error, writes nothing more and does not '
  'return or store a root. A build repeated after a failure succeeds.',
  ['crash_points', 'fault_sequences'],
  'Every write and every read of a build as the point of failure, over all kinds of trees.',
  'Tests never fail a write.',
  [T + 'TreeBuilder.py', F + 'ManifestTree.py', F + 'name_constructor/SchemaImpl.py'],
  [('bottom-up construction', T + 'TreeBuilder.py'), ('root last', F + 'ManifestTree.py')], None,
  ['packet output', 'file input'])

path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(path, 'w') as f:
    for d in P:
        assert len(d['title']) <= 80, d['title']
        f.write(json.dumps(d) + '\n')
print(len(P), 'properties')
