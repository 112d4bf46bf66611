From e9aaa4a87e3325e36e0b74ddc99e0df97cf26bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:50 +0000
Subject: [PATCH 01/52] fix: compare Names by wire format, so a parsed name
 equals a built one

---
 ccnpy/core/Name.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ccnpy/core/Name.py b/ccnpy/core/Name.py
index ee1fb81..b66b613 100755
--- a/ccnpy/core/Name.py
+++ b/ccnpy/core/Name.py
@@ -95,7 +95,8 @@ class Name(TlvType):
         return len(self._tlv)
 
     def __eq__(self, other):
-        return self.__dict__ == other.__dict__
+        # Compare the wire format: a component's value may be bytes or array, depending on how it was made.
+        return isinstance(other, Name) and self.serialize() == other.serialize()
 
     def __str__(self):
         return "NAME: %r" % [f'{c.type()} = {c.value()}' for c in self._components]
-- 
2.43.0


From 7bebe75db8a7974dd2043c6741cd1637b0c38037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:28 +0000
Subject: [PATCH 02/52] fix: root manifest carries the top manifest's id as its
 start segment id

---
 ccnpy/flic/ManifestTree.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ccnpy/flic/ManifestTree.py b/ccnpy/flic/ManifestTree.py
index 6c7b3f1..1fb6f21 100755
--- a/ccnpy/flic/ManifestTree.py
+++ b/ccnpy/flic/ManifestTree.py
@@ -102,9 +102,12 @@ class ManifestTree:
         """
         ptr = Pointers([top_manifest_packet.content_object_hash()])
 
-        # if the top manifest is SegmentedSchema, we need to include the fact that the chunk_id is 0
+        # if the top manifest is SegmentedSchema, we need to include its manifest id, which is the last
+        # name component.  It is 0 when the tree has the planned height, but the tree can be shorter.
         if self._name_ctx.manifest_schema_impl.uses_name_id():
-            start_segment_id=StartSegmentId(0)
+            top_name = top_manifest_packet.body().name()
+            top_manifest_id = top_name.component(top_name.count() - 1).value_as_number()
+            start_segment_id=StartSegmentId(top_manifest_id)
         else:
             start_segment_id=None
 
-- 
2.43.0


From 919bb8a3b5c5e13643e122c66c086de308133fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:35 +0000
Subject: [PATCH 03/52] fix: size non-root manifests with their name, expiry
 time and sizes, so they fit max_packet_size

---
 ccnpy/flic/tree/ManifestSizeCalculator.py | 30 +++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/ccnpy/flic/tree/ManifestSizeCalculator.py b/ccnpy/flic/tree/ManifestSizeCalculator.py
index 9213860..ab5dffa 100644
--- a/ccnpy/flic/tree/ManifestSizeCalculator.py
+++ b/ccnpy/flic/tree/ManifestSizeCalculator.py
@@ -72,6 +72,10 @@ class ManifestSizeCalculator:
                 "A filled manifest packet is %r bytes with %r hashes, a hash is %r bytes, and exceeds max_size %r" %
                 (length, num_hashes, hash_value_len, self._max_packet_size))
 
+        # The estimate above does not account for the manifest name, expiry time, and the sizes.
+        slack = self._max_packet_size - self._minimum_filled_length(hv)
+        num_hashes = min(num_hashes, int(slack // hash_value_len) + 2)
+
         #print("calculate_max_pointers = %r in length %r, actual length %r" % (num_hashes, max_packet_size, length))
 
         if num_hashes < 2:
@@ -108,6 +112,32 @@ class ManifestSizeCalculator:
 
         return packet
 
+    def _minimum_filled_length(self, hv) -> int:
+        """
+        :return: The length of a non-root manifest with 1 direct and 1 indirect pointer that has every field the tree
+            will use, at its largest.  No group is larger than the file.
+        """
+        tree_options = self._manifest_factory.tree_options()
+        manifest_schema = self._name_ctx.manifest_schema_impl
+        direct_id = indirect_id = None
+        if manifest_schema.uses_name_id():
+            direct_id = StartSegmentId(SchemaImpl._MAX_CHUNK_ID)
+            indirect_id = StartSegmentId(self.__MAX_MANIFEST_ID)
+
+        hgb = HashGroupBuilderPair(name_ctx=self._name_ctx, max_direct=1, max_indirect=1)
+        hgb.prepend_direct(hv, leaf_size=self._total_bytes)
+        hgb.append_indirect(hv, subtree_size=self._total_bytes if self._name_ctx.hash_group_count() == 2 else 0)
+        hash_groups = hgb.hash_groups(include_leaf_size=tree_options.add_group_leaf_size,
+                                      include_subtree_size=tree_options.add_group_subtree_size,
+                                      direct_start_segment_id=direct_id,
+                                      indirect_start_segment_id=indirect_id)
+
+        packet = self._manifest_factory.build_packet(source=hash_groups,
+                                                     node_subtree_size=self._total_bytes,
+                                                     name=manifest_schema.get_name(self.__MAX_MANIFEST_ID),
+                                                     expiry_time=tree_options.manifest_expiry_time)
+        return len(packet)
+
     def _build_single_hash_group(self, indirect_ptrs, direct_ptrs, nc_id):
         # We use total bytes for the subtree size and leaf size.  This might end up reserving one one more byte
         # than necessary if it overflows.
-- 
2.43.0


From e67abdd20c7410aca919c578d4cf5eb62deccfc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:17 +0000
Subject: [PATCH 04/52] fix: group subtree sizes count the children even when
 nodes do not carry sizes

---
 ccnpy/flic/tree/TreeBuildReturnValue.py |  2 +-
 ccnpy/flic/tree/TreeBuilder.py          | 12 +++---------
 2 files changed, 4 insertions(+), 10 deletions(-)

diff --git a/ccnpy/flic/tree/TreeBuildReturnValue.py b/ccnpy/flic/tree/TreeBuildReturnValue.py
index 69ded05..f5b77aa 100644
--- a/ccnpy/flic/tree/TreeBuildReturnValue.py
+++ b/ccnpy/flic/tree/TreeBuildReturnValue.py
@@ -29,4 +29,4 @@ class TreeBuilderReturnValue:
     node: Node
     manifest: Optional[Manifest] = None
     packet: Optional[Packet] = None
-
+    subtree_size: Optional[int] = None
diff --git a/ccnpy/flic/tree/TreeBuilder.py b/ccnpy/flic/tree/TreeBuilder.py
index 5d9f6a3..18d70e6 100755
--- a/ccnpy/flic/tree/TreeBuilder.py
+++ b/ccnpy/flic/tree/TreeBuilder.py
@@ -327,7 +327,7 @@ class TreeBuilder:
         packet = self._factory.build_packet(source=node,
                                             name=self._get_next_manifest_name(level),
                                             expiry_time=self._tree_options.manifest_expiry_time)
-        return_value = TreeBuilderReturnValue(packet=packet, node=node)
+        return_value = TreeBuilderReturnValue(packet=packet, node=node, subtree_size=direct_size + indirect_size)
         return return_value
 
     def _build_leaf_packet(self, head: int, tail: int, level: int):
@@ -411,7 +411,7 @@ class TreeBuilder:
     def _interior_add_right_most_child(self, builders: HashGroupBuilderPair, right_most_child: TreeBuilderReturnValue):
         if right_most_child is not None:
             builders.append_indirect(hash_value=right_most_child.packet.content_object_hash(),
-                                     subtree_size=self._get_optional_subtree_size(right_most_child.node.node_data()))
+                                     subtree_size=right_most_child.subtree_size)
 
     def _interior_add_indirect(self, builders: HashGroupBuilderPair, segment, level: int):
         # Reserve space at the head of the segment for this node's direct pointers before
@@ -422,7 +422,7 @@ class TreeBuilder:
         while not builders.is_indirect_full() and not segment.empty():
             child = self._bottom_up_preorder(segment, level - 1)
             builders.prepend_indirect(hash_value=child.packet.content_object_hash(),
-                                      subtree_size=self._get_optional_subtree_size(child.node.node_data()))
+                                      subtree_size=child.subtree_size)
 
         # Pull back our reservation and put those pointers in our direct children
         segment.decrement_head(reserve_count)
@@ -441,12 +441,6 @@ class TreeBuilder:
         # we did not execute the while loop
         return None
 
-    def _get_optional_subtree_size(self, node_data: NodeData):
-        if self._tree_options.add_node_subtree_size:
-            return node_data.subtree_size().size()
-        else:
-            return None
-
     def _add_manifest_to_graph(self, return_value: TreeBuilderReturnValue):
         if self._manifest_graph is not None:
             self._manifest_graph.add_manifest(return_value.packet.content_object_hash(),
-- 
2.43.0


From dd649d1b08f1aa7e755cd59636355a0add8bb591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:40 +0000
Subject: [PATCH 05/52] fix: an empty file builds a tree with one empty chunk
 instead of crashing

---
 ccnpy/flic/name_constructor/SchemaImpl.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ccnpy/flic/name_constructor/SchemaImpl.py b/ccnpy/flic/name_constructor/SchemaImpl.py
index 58b2c4c..12d5078 100644
--- a/ccnpy/flic/name_constructor/SchemaImpl.py
+++ b/ccnpy/flic/name_constructor/SchemaImpl.py
@@ -96,7 +96,8 @@ class SchemaImpl(ABC):
         payload_size = self._calculate_data_payload_size()
 
         payload_value = data_input.read(payload_size)
-        while len(payload_value) > 0:
+        # An empty file is one empty chunk, so it has something to put in the manifest
+        while len(payload_value) > 0 or len(chunk_metadata) == 0:
             total_file_bytes += len(payload_value)
             chunk_id = self._get_and_increment_next_chunk_id()
             if chunk_id > self._MAX_CHUNK_ID:
-- 
2.43.0


From c02e32ff892e8e57907bfd68d952daec417e7489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:18 +0000
Subject: [PATCH 06/52] fix: reading a packet by its link name raised NameError

---
 ccnpy/flic/tree/TreeIO.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ccnpy/flic/tree/TreeIO.py b/ccnpy/flic/tree/TreeIO.py
index 95b86dd..a2c3898 100755
--- a/ccnpy/flic/tree/TreeIO.py
+++ b/ccnpy/flic/tree/TreeIO.py
@@ -268,9 +268,9 @@ class TreeIO:
                 link = Link.deserialize(p.body().payload().value())
                 hash_path = self.to_path(link.digest())
                 packet = Packet.load(hash_path)
-                print(f"Dereferenced link {filename} to load packet {packet.content_object_hash()}")
+                print(f"Dereferenced link {link_path} to load packet {packet.content_object_hash()}")
                 return packet
-            raise FileNotFoundError(f'Could not find link {filename}')
+            raise FileNotFoundError(f'Could not find link {link_path}')
 
         def close(self):
             pass
-- 
2.43.0


From b816f565807bc96e9ca9f443f7a0a82aeccdae8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:18 +0000
Subject: [PATCH 07/52] fix: a fetched packet must match the hash it was
 requested by

---
 ccnpy/flic/tree/Traversal.py | 12 +++++++++++-
 ccnpy/flic/tree/TreeIO.py    | 14 ++++++++++----
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/ccnpy/flic/tree/Traversal.py b/ccnpy/flic/tree/Traversal.py
index ba8842c..d5e8827 100755
--- a/ccnpy/flic/tree/Traversal.py
+++ b/ccnpy/flic/tree/Traversal.py
@@ -85,6 +85,8 @@ class Traversal:
         """
         nc_cache = Traversal.NameConstructorCache()
         root_packet = self._packet_input.get(name=root_name, hash_restriction=hash_restriction)
+        if hash_restriction is not None:
+            self._check_hash(packet=root_packet, hash_value=hash_restriction)
         self.logger.debug('Traversal root packet: %s', root_packet)
 
         self._validator.validate_packet(packet=root_packet)
@@ -212,4 +214,12 @@ class Traversal:
         schema_impl = nc_cache.cache[nc_id]
         interest_name = schema_impl.get_name(segment_id)
         self.logger.debug('fetch_packet: %s, %s', interest_name, hash_value)
-        return self._packet_input.get(name=interest_name, hash_restriction=hash_value)
+        packet = self._packet_input.get(name=interest_name, hash_restriction=hash_value)
+        if packet is not None:
+            self._check_hash(packet=packet, hash_value=hash_value)
+        return packet
+
+    @staticmethod
+    def _check_hash(packet: Packet, hash_value: HashValue):
+        if packet.content_object_hash() != hash_value:
+            raise ValueError(f'Requested packet hash {hash_value}, but got packet {packet.content_object_hash()}')
diff --git a/ccnpy/flic/tree/TreeIO.py b/ccnpy/flic/tree/TreeIO.py
index a2c3898..4a2308b 100755
--- a/ccnpy/flic/tree/TreeIO.py
+++ b/ccnpy/flic/tree/TreeIO.py
@@ -239,13 +239,18 @@ class TreeIO:
                 return self._get_by_name(name)
 
             # ccnx does not use forwarding hint
-            path = self.to_path(hash_restriction)
-            p = Packet.load(path)
+            p = self._get_by_hash(hash_restriction)
             if p.body().name() is not None:
                 if name != p.body().name():
                     raise ValueError(f'Found packet hash {hash_restriction}, but request name {name} does not match packet {p.body().name()}')
             return p
 
+        def _get_by_hash(self, hash_restriction: HashValue) -> Packet:
+            p = Packet.load(self.to_path(hash_restriction))
+            if p.content_object_hash() != hash_restriction:
+                raise ValueError(f'Packet stored as {hash_restriction} has hash {p.content_object_hash()}')
+            return p
+
         def _get_by_name(self, name: Name) -> Packet:
             """
             Try fetching a link with that name, otherwise search the directory
@@ -266,8 +271,9 @@ class TreeIO:
             # TODO: we should validate p, but that needs a keystore
             if p.body().is_link():
                 link = Link.deserialize(p.body().payload().value())
-                hash_path = self.to_path(link.digest())
-                packet = Packet.load(hash_path)
+                packet = self._get_by_hash(link.digest())
+                if packet.body().name() != name:
+                    raise ValueError(f'Link {link_path} for {name} leads to a packet named {packet.body().name()}')
                 print(f"Dereferenced link {link_path} to load packet {packet.content_object_hash()}")
                 return packet
             raise FileNotFoundError(f'Could not find link {link_path}')
-- 
2.43.0


From 05de3a6c6e866cff76882ab1e67d8b7dd7af3ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:52 +0000
Subject: [PATCH 08/52] fix: encrypt with the derived key when a KDF is used

---
 ccnpy/crypto/HpkeKdfIdentifiers.py   |  7 +++++
 ccnpy/flic/RsaOaepCtx/RsaOaepImpl.py |  9 +++---
 ccnpy/flic/aeadctx/AeadImpl.py       | 41 ++++++++++++++++++----------
 3 files changed, 38 insertions(+), 19 deletions(-)

diff --git a/ccnpy/crypto/HpkeKdfIdentifiers.py b/ccnpy/crypto/HpkeKdfIdentifiers.py
index 319fe9c..da95741 100644
--- a/ccnpy/crypto/HpkeKdfIdentifiers.py
+++ b/ccnpy/crypto/HpkeKdfIdentifiers.py
@@ -36,3 +36,10 @@ class HpkeKdfIdentifiers(Enum):
             if x.str_name == name.upper():
                 return x
         return KeyError(f'Not found: {name}')
+
+    @classmethod
+    def from_number(cls, number: int):
+        for x in HpkeKdfIdentifiers:
+            if x.number == number:
+                return x
+        raise ValueError(f'Unsupported KDF number: {number}')
diff --git a/ccnpy/flic/RsaOaepCtx/RsaOaepImpl.py b/ccnpy/flic/RsaOaepCtx/RsaOaepImpl.py
index 5a4b91e..b9b9534 100755
--- a/ccnpy/flic/RsaOaepCtx/RsaOaepImpl.py
+++ b/ccnpy/flic/RsaOaepCtx/RsaOaepImpl.py
@@ -178,10 +178,11 @@ class RsaOaepImpl(AeadImpl):
             if not (mode.is_aes_ccm_128() or mode.is_aes_ccm_256()):
                 raise DecryptionError(f'The AES key is for CCM but the manifest is not encrypted with CCM (security ctx type {security_ctx.class_type()})')
 
-        plaintext = self._params.key.decrypt(iv=self._iv_from_nonce(security_ctx.aead_data().nonce().value()),
-                                      ciphertext=encrypted_node.value(),
-                                      associated_data=security_ctx.serialize(),
-                                      auth_tag=auth_tag.value())
+        key = self._derive_key(self._params.key, security_ctx.aead_data().kdf_data())
+        plaintext = key.decrypt(iv=self._iv_from_nonce(security_ctx.aead_data().nonce().value()),
+                                ciphertext=encrypted_node.value(),
+                                associated_data=security_ctx.serialize(),
+                                auth_tag=auth_tag.value())
 
         node_tlv = Node.create_tlv(plaintext)
         node = Node.parse(node_tlv)
diff --git a/ccnpy/flic/aeadctx/AeadImpl.py b/ccnpy/flic/aeadctx/AeadImpl.py
index a359fa5..e788f16 100755
--- a/ccnpy/flic/aeadctx/AeadImpl.py
+++ b/ccnpy/flic/aeadctx/AeadImpl.py
@@ -14,6 +14,7 @@
 import logging
 import math
 from array import array
+from typing import Optional
 
 from .AeadData import AeadData
 from .AeadParameters import AeadParameters
@@ -21,11 +22,13 @@ from ..tlvs.AeadCtx import AeadCtx
 from ..tlvs.AeadMode import AeadMode
 from ..tlvs.AuthTag import AuthTag
 from ..tlvs.EncryptedNode import EncryptedNode
+from ..tlvs.KdfData import KdfData
 from ..tlvs.Manifest import Manifest
 from ..tlvs.Node import Node
 from ..tlvs.SecurityCtx import AeadSecurityCtx
 from ...crypto.AeadKey import AeadKey, AeadGcm, AeadCcm
 from ...crypto.DecryptionError import DecryptionError
+from ...crypto.HpkeKdfIdentifiers import HpkeKdfIdentifiers
 from ...crypto.KDF import KDF
 
 
@@ -40,27 +43,33 @@ class AeadImpl:
 
     def __init__(self, params: AeadParameters):
         """
-        If using a KDF and `KdfInfo` is not present, you must set the `KdfInfo` with the CCNx name before
-        creating the `AeadImpl`.
+        If using a KDF and `KdfInfo` is not present, you should set the `KdfInfo` with the CCNx name before
+        creating the `AeadImpl`, so the derived key is unique.
         """
         self._params = params
         self.logger.debug(self)
 
-    def  _derive_key(self, key: AeadKey) -> AeadKey:
-        if self._params.kdf_data is None:
+    def _derive_key(self, key: AeadKey, kdf_data: Optional[KdfData]) -> AeadKey:
+        """
+        The key that encrypts a manifest: the AEAD key itself or, with a KDF, the key derived from it.
+
+        :param kdf_data: The KdfData of the manifest's security context
+        """
+        if kdf_data is None:
             return key
-        assert self._params.kdf_data.kdf_info() is not None
 
         mode = AeadMode.from_key(key)
+        # Without a KdfInfo, the FixedInfo is unique per key number
+        kdf_info = b'' if kdf_data.kdf_info() is None else kdf_data.kdf_info().serialize().tobytes()
         fixed_info = (b'FLIC'
                       + self._params.key_number.serialize().tobytes()
                       + mode.serialize().tobytes()
-                      + self._params.kdf_data.kdf_info().serialize().tobytes())
-        derived_bytes = KDF.derive(kdf_id=self._params.kdf_data.kdf_alg().value(),
+                      + kdf_info)
+        derived_bytes = KDF.derive(kdf_id=HpkeKdfIdentifiers.from_number(kdf_data.kdf_alg().value()),
                                      input_key=key.key(),
                                      length=math.ceil(len(key) / 8),
                                      info=fixed_info,
-                                     salt=self._params.kdf_salt
+                                     salt=self._params.kdf_salt_bytes
                                      )
         if isinstance(key, AeadGcm):
             return AeadGcm(derived_bytes)
@@ -141,9 +150,10 @@ class AeadImpl:
         iv = self._iv_from_nonce(security_ctx.nonce().value())
 
         plaintext = node.serialized_value()
-        ciphertext, a = self._params.key.encrypt(iv=iv,
-                                          plaintext=plaintext,
-                                          associated_data=security_ctx.serialize())
+        key = self._derive_key(self._params.key, security_ctx.aead_data().kdf_data())
+        ciphertext, a = key.encrypt(iv=iv,
+                                    plaintext=plaintext,
+                                    associated_data=security_ctx.serialize())
 
         encrypted_node = EncryptedNode(ciphertext)
         auth_tag = AuthTag(a)
@@ -194,10 +204,11 @@ class AeadImpl:
             if not (security_ctx.aead_data().mode().is_aes_ccm_128() or security_ctx.aead_data().mode().is_aes_ccm_256()):
                 raise DecryptionError(f'The AES key is for CCM but the manifest is not encrypted with CCM (security ctx type {security_ctx.class_type()})')
 
-        plaintext = self._params.key.decrypt(iv=self._iv_from_nonce(security_ctx.nonce().value()),
-                                      ciphertext=encrypted_node.value(),
-                                      associated_data=security_ctx.serialize(),
-                                      auth_tag=auth_tag.value())
+        key = self._derive_key(self._params.key, security_ctx.aead_data().kdf_data())
+        plaintext = key.decrypt(iv=self._iv_from_nonce(security_ctx.nonce().value()),
+                                ciphertext=encrypted_node.value(),
+                                associated_data=security_ctx.serialize(),
+                                auth_tag=auth_tag.value())
 
         node_tlv = Node.create_tlv(plaintext)
         node = Node.parse(node_tlv)
-- 
2.43.0


From b4777aaad4e26d0fc4e82fe2d10644ec580dbd91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:52 +0000
Subject: [PATCH 09/52] fix: wrap a key with a KDF that has no KdfInfo

---
 ccnpy/flic/RsaOaepCtx/WrappedKey.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccnpy/flic/RsaOaepCtx/WrappedKey.py b/ccnpy/flic/RsaOaepCtx/WrappedKey.py
index c02b684..6f4b7fe 100644
--- a/ccnpy/flic/RsaOaepCtx/WrappedKey.py
+++ b/ccnpy/flic/RsaOaepCtx/WrappedKey.py
@@ -37,7 +37,7 @@ class WrappedKey(OctetTlvType):
     def _create_label(key_number: KeyNumber, mode: AeadMode,
                       kdf_data: Optional[KdfData], key_id: KeyId, hash_alg: HashAlg):
 
-        if kdf_data is not None:
+        if kdf_data is not None and kdf_data.kdf_info() is not None:
             kdf_bytes = kdf_data.kdf_info().serialize().tobytes()
         else:
             kdf_bytes = b''
-- 
2.43.0


From 0c7009e2ab2b20eb9cf7d5ec1abfd9b9c7619cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:52 +0000
Subject: [PATCH 10/52] fix: RsaOaepDecryptor.decrypt_node called its security
 context

---
 ccnpy/flic/RsaOaepCtx/RsaOaepDecryptor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccnpy/flic/RsaOaepCtx/RsaOaepDecryptor.py b/ccnpy/flic/RsaOaepCtx/RsaOaepDecryptor.py
index a3e34c7..3ba9161 100755
--- a/ccnpy/flic/RsaOaepCtx/RsaOaepDecryptor.py
+++ b/ccnpy/flic/RsaOaepCtx/RsaOaepDecryptor.py
@@ -55,5 +55,5 @@ class RsaOaepDecryptor(ManifestDecryptor):
         return impl.decrypt_manifest(manifest)
 
     def decrypt_node(self, security_ctx, encrypted_node, auth_tag):
-        impl = self._get_impl(security_ctx=security_ctx())
+        impl = self._get_impl(security_ctx=security_ctx)
         return impl.decrypt_node(security_ctx, encrypted_node, auth_tag)
-- 
2.43.0


From ea063125bae9354cf4e4eb4553f9e1ad56fedc4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:12 +0000
Subject: [PATCH 11/52] fix: RSA-OAEP encryption without an AEAD salt generates
 one instead of crashing

---
 ccnpy/flic/RsaOaepCtx/RsaOaepEncryptor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ccnpy/flic/RsaOaepCtx/RsaOaepEncryptor.py b/ccnpy/flic/RsaOaepCtx/RsaOaepEncryptor.py
index a92b824..76e7993 100755
--- a/ccnpy/flic/RsaOaepCtx/RsaOaepEncryptor.py
+++ b/ccnpy/flic/RsaOaepCtx/RsaOaepEncryptor.py
@@ -11,6 +11,7 @@
 #  WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
 #  See the License for the specific language governing permissions and
 #  limitations under the License.
+import dataclasses
 import os
 import uuid
 from typing import Optional
@@ -54,6 +55,9 @@ class RsaOaepEncryptor(ManifestEncryptor):
                 kdf_data=kdf_data))
 
     def __init__(self, wrapping_key: RsaKey, params: AeadParameters):
+        if params.aead_salt is None:
+            # The wrapped key always has a salt
+            params = dataclasses.replace(params, aead_salt=int.from_bytes(os.urandom(4)))
         self._wrapped_key = WrappedKey.create(wrapping_key=wrapping_key, params=params)
         self._wrapper = RsaOaepWrapper.create_sha256(key_id=KeyId(wrapping_key.keyid()), wrapped_key=self._wrapped_key)
         self._impl = RsaOaepImpl(wrapper=self._wrapper, aead_params=params)
-- 
2.43.0


From 03b819d484ed123ebe9abc6771defa6b76f7e38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:00 +0000
Subject: [PATCH 12/52] fix: a packet signed with an embedded public key can be
 made and loaded

---
 ccnpy/core/ValidationAlg.py |  8 ++++----
 ccnpy/crypto/RsaKey.py      | 17 ++++++++++++++---
 2 files changed, 18 insertions(+), 7 deletions(-)

diff --git a/ccnpy/core/ValidationAlg.py b/ccnpy/core/ValidationAlg.py
index b3468ef..3939ec8 100755
--- a/ccnpy/core/ValidationAlg.py
+++ b/ccnpy/core/ValidationAlg.py
@@ -128,7 +128,7 @@ class ValidationAlg_RsaSha256(ValidationAlg):
         tlvs.append(KeyId(keyid))
 
         if public_key is not None:
-            tlvs.append(Tlv(self.__T_PUBLICKEY, public_key.der()))
+            tlvs.append(Tlv(self.__T_PUBLICKEY, public_key.public_key_der()))
 
         if key_link is not None:
             tlvs.append(Tlv(KeyLink.class_type(), key_link))
@@ -189,9 +189,9 @@ class ValidationAlg_RsaSha256(ValidationAlg):
             elif inner_tlv.type() == SignatureTime.class_type():
                 signature_time = SignatureTime.parse(inner_tlv)
             elif inner_tlv.type() == cls.__T_PUBLICKEY:
-                der = inner_tlv.value()
-                # TODO: convert from DER to Public Key
-                raise RuntimeError("Not implemented")
+                # Due to the circular reference between core and crypto, need to defer the loading of RsaKey
+                from ..crypto.RsaKey import RsaKey
+                public_key = RsaKey.from_public_key_der(inner_tlv.value())
             elif inner_tlv.type() == KeyLink.class_type():
                 # TODO: process a LINK type
                 raise RuntimeError("Not implemented")
diff --git a/ccnpy/crypto/RsaKey.py b/ccnpy/crypto/RsaKey.py
index 73aa630..14255cb 100755
--- a/ccnpy/crypto/RsaKey.py
+++ b/ccnpy/crypto/RsaKey.py
@@ -31,9 +31,6 @@ from ..core.HashValue import HashValue
 
 
 class RsaKey:
-    """
-    TODO: Need a way to create an RSA key from the DER encoded public key
-    """
     logger = logging.getLogger(__name__)
     _SHA256_OVERHEAD = 66 #RSA OAEP overhead for sha 256 hash
 
@@ -281,6 +278,20 @@ class RsaKey:
             pem = key_file.read()
             return cls(pem, password)
 
+    @classmethod
+    def from_public_key_der(cls, der):
+        """
+        Creates a key that can only verify from the DER encoded public key.
+
+        :param der: Bytes or an array, as from `public_key_der`
+        :return: An RsaKey
+        """
+        public_key = serialization.load_der_public_key(bytes(der), backend=default_backend())
+        pem = public_key.public_bytes(
+                encoding = serialization.Encoding.PEM,
+                format = serialization.PublicFormat.SubjectPublicKeyInfo)
+        return cls(pem_key=pem)
+
     def keyid(self) -> HashValue:
         """
         sha256 of the public key in DER format returned in a ccnpy.HashValue
-- 
2.43.0


From ba94f66c80ebcea6d6934c0473f8a71f171cbe70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:07 +0000
Subject: [PATCH 13/52] fix: a packet signed with a key link can be loaded

---
 ccnpy/core/ValidationAlg.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ccnpy/core/ValidationAlg.py b/ccnpy/core/ValidationAlg.py
index 3939ec8..49531d0 100755
--- a/ccnpy/core/ValidationAlg.py
+++ b/ccnpy/core/ValidationAlg.py
@@ -131,7 +131,7 @@ class ValidationAlg_RsaSha256(ValidationAlg):
             tlvs.append(Tlv(self.__T_PUBLICKEY, public_key.public_key_der()))
 
         if key_link is not None:
-            tlvs.append(Tlv(KeyLink.class_type(), key_link))
+            tlvs.append(key_link if isinstance(key_link, KeyLink) else KeyLink(key_link))
 
         if signature_time is None:
             signature_time = datetime.now(UTC)
@@ -193,8 +193,7 @@ class ValidationAlg_RsaSha256(ValidationAlg):
                 from ..crypto.RsaKey import RsaKey
                 public_key = RsaKey.from_public_key_der(inner_tlv.value())
             elif inner_tlv.type() == KeyLink.class_type():
-                # TODO: process a LINK type
-                raise RuntimeError("Not implemented")
+                key_link = KeyLink.parse(inner_tlv)
             offset += len(inner_tlv)
         return cls(keyid=keyid, public_key=public_key, key_link=key_link, signature_time=signature_time)
 
-- 
2.43.0


From bcdb0ca432dab5dadfc351d60c7fb29bf55528dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:14 +0000
Subject: [PATCH 14/52] fix: the command line password of an encrypted PEM key
 is a str

---
 ccnpy/crypto/RsaKey.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ccnpy/crypto/RsaKey.py b/ccnpy/crypto/RsaKey.py
index 14255cb..a9bc014 100755
--- a/ccnpy/crypto/RsaKey.py
+++ b/ccnpy/crypto/RsaKey.py
@@ -66,6 +66,9 @@ class RsaKey:
     def __initialize_private_key(self, pem_key, password):
         if password is not None and len(password) == 0:
             password = None
+        if isinstance(password, str):
+            # such as from the command line
+            password = password.encode('utf-8')
         self._private_key = serialization.load_pem_private_key(
                                 pem_key,
                                 password=password,
-- 
2.43.0


From 8ba2708c94735812c75b10744d314ee8c2dc77a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:42 +0000
Subject: [PATCH 15/52] fix: the writer and the reader derive the same default
 key number from the key

---
 ccnpy/apps/cli_utils.py       | 9 ++++++++-
 ccnpy/apps/manifest_writer.py | 4 ----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/ccnpy/apps/cli_utils.py b/ccnpy/apps/cli_utils.py
index 9cafdcb..a803baa 100644
--- a/ccnpy/apps/cli_utils.py
+++ b/ccnpy/apps/cli_utils.py
@@ -13,6 +13,7 @@
 #  limitations under the License.
 import argparse
 import getpass
+import hashlib
 import logging
 import uuid
 from typing import Optional
@@ -101,11 +102,17 @@ def kdf_data_from_cli(args) -> Optional[KdfData]:
     else:
         return None
 
+def key_number_from_cli_args(args) -> Optional[KeyNumber]:
+    """If not given, the key number is the left 8 bytes of the sha256 of the key."""
+    if args.key_num is None and args.enc_key is not None:
+        return KeyNumber(int.from_bytes(hashlib.sha256(args.enc_key).digest()[0:8], byteorder='big'))
+    return args.key_num
+
 def aead_parameters_from_cli(args):
     key = aes_key_from_cli_args(args)
     params = AeadParameters(
         key=key,
-        key_number=args.key_num,
+        key_number=key_number_from_cli_args(args),
         aead_salt=args.salt,
         kdf_data=kdf_data_from_cli(args),
         kdf_salt=args.kdf_salt)
diff --git a/ccnpy/apps/manifest_writer.py b/ccnpy/apps/manifest_writer.py
index b1df5ec..0150b0e 100755
--- a/ccnpy/apps/manifest_writer.py
+++ b/ccnpy/apps/manifest_writer.py
@@ -149,10 +149,6 @@ def run():
 
     fixup_key_password(args)
 
-    if args.enc_key is not None and args.key_num is None:
-        # TODO: use something like the left 8 bytes of a sha256
-        args.key_num = hash(args.enc_key)
-
     if args.use_tcp:
         packet_writer = TreeIO.PacketNetworkWriter("127.0.0.1", 9896)
     else:
-- 
2.43.0


From a4da5c5f83441e807a56cc53fe84fdf12909a8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:17 +0000
Subject: [PATCH 16/52] fix: packet_reader prints an encrypted manifest it has
 no AES key for, instead of crashing

---
 ccnpy/apps/packet_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ccnpy/apps/packet_utils.py b/ccnpy/apps/packet_utils.py
index 92c0909..4393f4e 100644
--- a/ccnpy/apps/packet_utils.py
+++ b/ccnpy/apps/packet_utils.py
@@ -80,6 +80,9 @@ def decrypt_manifest(keystore: InsecureKeystore, manifest: Manifest) -> Manifest
         print(f"Unsupported encryption mode: {security_ctx}")
         return None
 
+    if decryptor is None:
+        return None
+
     try:
         return decryptor.decrypt_manifest(manifest)
     except DecryptionError as e:
-- 
2.43.0


From bae1afe059a38c1ca6250de5285025caa0c37797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:26 +0000
Subject: [PATCH 17/52] fix: manifest_reader --hash takes a hex hash

---
 ccnpy/apps/manifest_reader.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ccnpy/apps/manifest_reader.py b/ccnpy/apps/manifest_reader.py
index 75d9d8e..54ddbc6 100755
--- a/ccnpy/apps/manifest_reader.py
+++ b/ccnpy/apps/manifest_reader.py
@@ -22,6 +22,12 @@ from ccnpy.crypto.InsecureKeystore import InsecureKeystore
 from ccnpy.flic.tree.Traversal import Traversal
 from ccnpy.flic.tree.TreeIO import TreeIO
 from .cli_utils import add_encryption_cli_args, fixup_key_password, create_keystore
+from ..core.HashValue import HashValue
+
+
+def _str_to_hash_value(value: str) -> HashValue:
+    """Accepts a hex string with or without a leading 0x"""
+    return HashValue.create_sha256(bytes.fromhex(value.removeprefix('0x')))
 
 
 class ManifestReader(ABC):
@@ -120,7 +126,8 @@ def run():
     parser = argparse.ArgumentParser()
 
     parser.add_argument('--name', dest="name", default=None, help='CCNx URI for root manifest', required=True)
-    parser.add_argument('--hash', dest="hash_restriction", default=None, help='CCNx URI for root manifest', required=False)
+    parser.add_argument('--hash', dest="hash_restriction", type=_str_to_hash_value, default=None,
+                        help='SHA256 hash of the root manifest (hex string)', required=False)
 
     parser.add_argument('-i', dest="in_dir", default='.', help="input directory (default=%r)" % '.')
     parser.add_argument('-T', dest="use_tcp", default=False, action=argparse.BooleanOptionalAction,
-- 
2.43.0


From b4e5128917cc3bfc6cc5b693beaf51387d268727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:11 +0000
Subject: [PATCH 18/52] fix: a Timestamp could lose a millisecond, which
 changed a packet's hash when reloaded

---
 ccnpy/core/Timestamp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccnpy/core/Timestamp.py b/ccnpy/core/Timestamp.py
index d6c2f12..1878b6b 100755
--- a/ccnpy/core/Timestamp.py
+++ b/ccnpy/core/Timestamp.py
@@ -75,7 +75,7 @@ class Timestamp(TlvType, ABC):
         Python timestamp in milliseconds as integer
         :return:
         """
-        msec = int(self.timestamp() * 1000)
+        msec = round(self.timestamp() * 1000)
         return msec
 
     def datetime(self):
-- 
2.43.0


From c95f19b42661d1124891840ca1bf79b931275e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:28 +0000
Subject: [PATCH 19/52] fix: a missing AES key is reported every time, not only
 the first time

---
 ccnpy/flic/tree/DecryptorCache.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ccnpy/flic/tree/DecryptorCache.py b/ccnpy/flic/tree/DecryptorCache.py
index bb120b9..f935b58 100644
--- a/ccnpy/flic/tree/DecryptorCache.py
+++ b/ccnpy/flic/tree/DecryptorCache.py
@@ -40,8 +40,10 @@ class DecryptorCache:
         key_num = security_ctx.key_number()
         if key_num == self._last_key_num:
             return self._last_decryptor
+        # Only remember the key number once there is a decryptor for it
+        decryptor = self._create(security_ctx)
         self._last_key_num = key_num
-        self._last_decryptor = self._create(security_ctx)
+        self._last_decryptor = decryptor
         return self._last_decryptor
 
     def _create(self, security_ctx: AeadSecurityCtx) -> ManifestDecryptor:
-- 
2.43.0


From b3cc69e06ae43aacc432180ca76f4691d1747d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:24 +0000
Subject: [PATCH 20/52] fix: a tree whose name is not UTF-8 can be read and
 printed

---
 ccnpy/core/Name.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ccnpy/core/Name.py b/ccnpy/core/Name.py
index b66b613..cedb3e5 100755
--- a/ccnpy/core/Name.py
+++ b/ccnpy/core/Name.py
@@ -58,7 +58,8 @@ class NameComponent(Tlv):
         if t == NameComponent.__T_CHUNKID:
             return f'ChunkId={Tlv.array_to_number(self.value())}'
         if t == NameComponent.__T_NAMESEGMENT:
-            return f'Name={self.value().decode('UTF-8')}'
+            # A name segment may be any octets, so it is not always UTF-8
+            return f'Name={bytes(self.value()).decode('UTF-8', errors='backslashreplace')}'
         if t == NameComponent.__T_MANIFESTID:
             return f'ManifestId={Tlv.array_to_number(self.value())}'
         if t == NameComponent.__T_IPID:
-- 
2.43.0


From 94e9b71bad82ad117ae05a0dece621cd2792acf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:07 +0000
Subject: [PATCH 21/52] fix: a tree deeper than the interpreter's recursion
 limit can be read

---
 ccnpy/flic/tree/Traversal.py | 42 ++++++++++++++++++++++++++++--------
 1 file changed, 33 insertions(+), 9 deletions(-)

diff --git a/ccnpy/flic/tree/Traversal.py b/ccnpy/flic/tree/Traversal.py
index d5e8827..eef6174 100755
--- a/ccnpy/flic/tree/Traversal.py
+++ b/ccnpy/flic/tree/Traversal.py
@@ -101,11 +101,37 @@ class Traversal:
         :param nc_cache: The name constructor cache.  It may be modified as we traverse down branches.
         :return:
         """
-        self.logger.debug('Preorder %s => %s', packet.content_object_hash(), packet)
-
         if nc_cache is None:
             nc_cache = Traversal.NameConstructorCache()
 
+        # An explicit stack, because a tree of a small degree is deeper than Python can recurse.  Each entry is a
+        # manifest and the iterator over its children.
+        visiting = []
+        next_packet = (packet, nc_cache)
+        try:
+            while next_packet is not None:
+                entry = self._visit(*next_packet)
+                if entry is not None:
+                    visiting.append(entry)
+
+                next_packet = None
+                while next_packet is None and len(visiting) > 0:
+                    next_packet = next(visiting[-1][1], None)
+                    if next_packet is None:
+                        visiting.pop()
+        except Exception as e:
+            for manifest, _ in reversed(visiting):
+                print(f'Error {e} processing {manifest}')
+            raise
+
+    def _visit(self, packet: Packet, nc_cache: NameConstructorCache):
+        """
+        Visit one packet.
+
+        :return: None for a data packet, (manifest, children iterator) for a manifest.
+        """
+        self.logger.debug('Preorder %s => %s', packet.content_object_hash(), packet)
+
         if not isinstance(packet, Packet):
             raise TypeError("node must be ccnpy.Packet")
 
@@ -122,11 +148,7 @@ class Traversal:
             self.logger.debug("Preorder: %s", manifest)
 
             nc_cache = self._update_nc_cache(nc_cache=nc_cache, manifest=manifest)
-            try:
-                self._visit_children(parent_packet=packet, manifest=manifest, nc_cache=nc_cache)
-            except Exception as e:
-                print(f'Error {e} processing {manifest}')
-                raise
+            return manifest, self._visit_children(parent_packet=packet, manifest=manifest, nc_cache=nc_cache)
 
         elif body.payload_type().is_data():
             self.logger.debug("Traversal: %s", body)
@@ -135,6 +157,7 @@ class Traversal:
                 self._manifest_graph.add_data(data_hash=packet.content_object_hash(), name=packet.body().name())
 
             self._write_data(body.payload())
+            return None
 
         else:
             raise ValueError("Unsupported payload type: %r" % body)
@@ -148,7 +171,8 @@ class Traversal:
         """
         A child may be a direct pointer to local data or an indirect pointer to another
         manifest.  In the pre-order traversal, we do not distinguish (nor can we) between these.
-        Our commitment is to visit all children in order.
+        Our commitment is to visit all children in order.  Yields the children as (packet, nc_cache), fetching
+        each one only when it is its turn.
 
         :param manifest:
         :param nc_cache: name constructor cache for the current branch
@@ -169,7 +193,7 @@ class Traversal:
             self.logger.debug('visit_children: child %s', packet)
 
             self._validator.validate_packet(packet=packet)
-            self.preorder(packet=packet, nc_cache=nc_cache)
+            yield packet, nc_cache
 
         if self.logger.isEnabledFor(logging.DEBUG):
             packet_id = DisplayFormatter.hexlify(parent_packet.content_object_hash().value())
-- 
2.43.0


From 83336690ff61aa72025864ca92e6266ea4500947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:30 +0000
Subject: [PATCH 22/52] fix: objects are equal exactly when their wire formats
 are

Equality compared the attributes, or the value without its type.  So a parsed object could differ from the built one
(bytes or array), an object that had been iterated over differed from itself before, objects of different TLV types
could be equal, and comparing with None crashed.
---
 ccnpy/core/ContentObject.py            | 2 +-
 ccnpy/core/FixedHeader.py              | 4 +---
 ccnpy/core/KeyLink.py                  | 2 +-
 ccnpy/core/Link.py                     | 2 +-
 ccnpy/core/Packet.py                   | 2 +-
 ccnpy/core/PayloadType.py              | 2 +-
 ccnpy/core/Timestamp.py                | 2 +-
 ccnpy/core/Tlv.py                      | 7 +------
 ccnpy/core/TlvType.py                  | 8 ++------
 ccnpy/core/ValidationAlg.py            | 2 +-
 ccnpy/core/ValidationPayload.py        | 2 +-
 ccnpy/flic/tlvs/GroupData.py           | 2 +-
 ccnpy/flic/tlvs/Locator.py             | 2 +-
 ccnpy/flic/tlvs/Locators.py            | 4 +---
 ccnpy/flic/tlvs/NcSchema.py            | 2 +-
 ccnpy/flic/tlvs/Node.py                | 4 +---
 ccnpy/flic/tlvs/NodeData.py            | 2 +-
 ccnpy/flic/tlvs/Pointers.py            | 2 +-
 ccnpy/flic/tlvs/SuffixComponentType.py | 2 +-
 ccnpy/flic/tlvs/Vendor.py              | 4 +---
 20 files changed, 21 insertions(+), 38 deletions(-)

diff --git a/ccnpy/core/ContentObject.py b/ccnpy/core/ContentObject.py
index ac03b4a..086bfe0 100755
--- a/ccnpy/core/ContentObject.py
+++ b/ccnpy/core/ContentObject.py
@@ -164,7 +164,7 @@ class ContentObject(TlvType):
         return "CO: {%r, %r, %r, %r, %r}" % (self.name(), self.expiry_time(), self.payload_type(), payload, self._final_chunk_id)
 
     def __eq__(self, other):
-        return self.__dict__ == other.__dict__
+        return isinstance(other, ContentObject) and self.serialize() == other.serialize()
 
     def __len__(self):
         """
diff --git a/ccnpy/core/FixedHeader.py b/ccnpy/core/FixedHeader.py
index 2e4e81e..1d11ecd 100755
--- a/ccnpy/core/FixedHeader.py
+++ b/ccnpy/core/FixedHeader.py
@@ -51,9 +51,7 @@ class FixedHeader:
                 DisplayFormatter.hexlify(self._fields), self._header_length)
 
     def __eq__(self, other):
-        if self.__dict__ == other.__dict__:
-            return True
-        return False
+        return isinstance(other, FixedHeader) and self.serialize() == other.serialize()
 
     def version(self):
         return self._ver
diff --git a/ccnpy/core/KeyLink.py b/ccnpy/core/KeyLink.py
index 38a439d..513b531 100755
--- a/ccnpy/core/KeyLink.py
+++ b/ccnpy/core/KeyLink.py
@@ -31,7 +31,7 @@ class KeyLink(TlvType):
         self._tlv = Tlv(self.class_type(), link)
 
     def __eq__(self, other):
-        return self.__dict__ == other.__dict__
+        return isinstance(other, KeyLink) and self.serialize() == other.serialize()
 
     def __repr__(self):
         return "KeyLink: {link: %r}" % self._link
diff --git a/ccnpy/core/Link.py b/ccnpy/core/Link.py
index 7a34c96..77f1ef5 100755
--- a/ccnpy/core/Link.py
+++ b/ccnpy/core/Link.py
@@ -69,7 +69,7 @@ class Link:
             self._wire_format.extend(Tlv(self.__T_OBJHASHRESTR, self._digest).serialize())
 
     def __eq__(self, other):
-        return self.__dict__ == other.__dict__
+        return isinstance(other, Link) and self.serialize() == other.serialize()
 
     def __repr__(self):
         return "Link(%r, %r, %r)" % (self._name, self._keyid, self._digest)
diff --git a/ccnpy/core/Packet.py b/ccnpy/core/Packet.py
index 068c91f..da249da 100755
--- a/ccnpy/core/Packet.py
+++ b/ccnpy/core/Packet.py
@@ -90,7 +90,7 @@ class Packet:
         return array.array("B", byte_list)
 
     def __eq__(self, other):
-        return self.__dict__ == other.__dict__
+        return isinstance(other, Packet) and self.serialize() == other.serialize()
 
     def __repr__(self):
         return "{Packet: {%r, %r, %r, %r}}" % (self._header, self._body, self._validation_alg, self._validation_payload)
diff --git a/ccnpy/core/PayloadType.py b/ccnpy/core/PayloadType.py
index c984e5b..f410596 100755
--- a/ccnpy/core/PayloadType.py
+++ b/ccnpy/core/PayloadType.py
@@ -50,7 +50,7 @@ class PayloadType(TlvType):
         return "PLDTYP: %r" % self.__to_string()
 
     def __eq__(self, other):
-        return self.__dict__ == other.__dict__
+        return isinstance(other, PayloadType) and self.serialize() == other.serialize()
 
     @classmethod
     def parse(cls, tlv):
diff --git a/ccnpy/core/Timestamp.py b/ccnpy/core/Timestamp.py
index 1878b6b..957fca3 100755
--- a/ccnpy/core/Timestamp.py
+++ b/ccnpy/core/Timestamp.py
@@ -40,7 +40,7 @@ class Timestamp(TlvType, ABC):
         self._wire_format = self._tlv.serialize()
 
     def __eq__(self, other):
-        return self.timestamp() == other.timestamp()
+        return isinstance(other, Timestamp) and self.serialize() == other.serialize()
 
     def __repr__(self):
         return "%r: %r" % (self.__class__.__name__, self.datetime().isoformat())
diff --git a/ccnpy/core/Tlv.py b/ccnpy/core/Tlv.py
index 918c9ee..a5955fb 100755
--- a/ccnpy/core/Tlv.py
+++ b/ccnpy/core/Tlv.py
@@ -94,12 +94,7 @@ class Tlv(Serializable):
         return output
 
     def __eq__(self, other):
-        result = False
-        if len(self) == len(other):
-            if self.value() == other.value():
-                result = True
-
-        return result
+        return isinstance(other, Tlv) and self._wire_format == other._wire_format
 
     def __hash__(self):
         return hash(self._wire_format.tobytes())
diff --git a/ccnpy/core/TlvType.py b/ccnpy/core/TlvType.py
index dd1fe93..b2a7fb4 100755
--- a/ccnpy/core/TlvType.py
+++ b/ccnpy/core/TlvType.py
@@ -130,9 +130,7 @@ class IntegerTlvType(TlvType, ABC):
         return len(self._tlv)
 
     def __eq__(self, other):
-        if not isinstance(other, IntegerTlvType):
-            return False
-        return self._value == other._value
+        return isinstance(other, IntegerTlvType) and self.serialize() == other.serialize()
 
     def __hash__(self):
         return hash(self._tlv)
@@ -183,9 +181,7 @@ class OctetTlvType(TlvType, ABC):
         return len(self._tlv)
 
     def __eq__(self, other):
-        if not isinstance(other, OctetTlvType):
-            return False
-        return self._value == other._value
+        return isinstance(other, OctetTlvType) and self.serialize() == other.serialize()
 
     def __repr__(self):
         return DisplayFormatter.hexlify(self._value)
diff --git a/ccnpy/core/ValidationAlg.py b/ccnpy/core/ValidationAlg.py
index 49531d0..fa3fc0a 100755
--- a/ccnpy/core/ValidationAlg.py
+++ b/ccnpy/core/ValidationAlg.py
@@ -76,7 +76,7 @@ class ValidationAlg_Crc32c(ValidationAlg):
                               Tlv(self.class_type(), []))
 
     def __eq__(self, other):
-        return self.__dict__ == other.__dict__
+        return isinstance(other, ValidationAlg_Crc32c) and self.serialize() == other.serialize()
 
     def __len__(self):
         return len(self._tlv)
diff --git a/ccnpy/core/ValidationPayload.py b/ccnpy/core/ValidationPayload.py
index 42e3fec..60e2258 100755
--- a/ccnpy/core/ValidationPayload.py
+++ b/ccnpy/core/ValidationPayload.py
@@ -31,7 +31,7 @@ class ValidationPayload(TlvType):
         self._tlv = Tlv(self.class_type(), self._payload)
 
     def __eq__(self, other):
-        return self.payload() == other.payload()
+        return isinstance(other, ValidationPayload) and self.serialize() == other.serialize()
 
     def __repr__(self):
         return "ValPld: %r" % DisplayFormatter.hexlify(self._payload)
diff --git a/ccnpy/flic/tlvs/GroupData.py b/ccnpy/flic/tlvs/GroupData.py
index 8a18be9..2fdbac1 100755
--- a/ccnpy/flic/tlvs/GroupData.py
+++ b/ccnpy/flic/tlvs/GroupData.py
@@ -76,7 +76,7 @@ class GroupData(TlvType):
         return len(self._tlv)
 
     def __eq__(self, other):
-        return self.__dict__ == other.__dict__
+        return isinstance(other, GroupData) and self.serialize() == other.serialize()
 
     def __repr__(self):
         return ("GroupData: {%r, %r, %r, %r, %r, %r}" %
diff --git a/ccnpy/flic/tlvs/Locator.py b/ccnpy/flic/tlvs/Locator.py
index d8bf315..851953a 100755
--- a/ccnpy/flic/tlvs/Locator.py
+++ b/ccnpy/flic/tlvs/Locator.py
@@ -64,7 +64,7 @@ class Locator(TlvType):
         return len(self._tlv)
 
     def __eq__(self, other):
-        return self.__dict__ == other.__dict__
+        return isinstance(other, Locator) and self.serialize() == other.serialize()
 
     def __repr__(self):
         return "Locator: %r" % self._link
diff --git a/ccnpy/flic/tlvs/Locators.py b/ccnpy/flic/tlvs/Locators.py
index 3316d38..6093dcb 100755
--- a/ccnpy/flic/tlvs/Locators.py
+++ b/ccnpy/flic/tlvs/Locators.py
@@ -69,9 +69,7 @@ class Locators(TlvType):
         return len(self._tlv)
 
     def __eq__(self, other):
-        if self.__dict__ == other.__dict__:
-            return True
-        return False
+        return isinstance(other, Locators) and self.serialize() == other.serialize()
 
     def __repr__(self):
         return f"Locators: {self._locators}"
diff --git a/ccnpy/flic/tlvs/NcSchema.py b/ccnpy/flic/tlvs/NcSchema.py
index 0ef9bb4..d2d1cb0 100644
--- a/ccnpy/flic/tlvs/NcSchema.py
+++ b/ccnpy/flic/tlvs/NcSchema.py
@@ -32,7 +32,7 @@ class NcSchema(TlvType, ABC):
     Generic supertype of the name constructor schemas
     """
     def __eq__(self, other):
-        return self.__dict__ == other.__dict__
+        return isinstance(other, NcSchema) and self.serialize() == other.serialize()
 
     @classmethod
     def parse(cls, tlv):
diff --git a/ccnpy/flic/tlvs/Node.py b/ccnpy/flic/tlvs/Node.py
index 800101d..a07a64a 100755
--- a/ccnpy/flic/tlvs/Node.py
+++ b/ccnpy/flic/tlvs/Node.py
@@ -113,9 +113,7 @@ class Node(TlvType):
         return len(self._tlv)
 
     def __eq__(self, other):
-        if self.__dict__ == other.__dict__:
-            return True
-        return False
+        return isinstance(other, Node) and self.serialize() == other.serialize()
 
     def __repr__(self):
         hash_values_len = len(self.hash_values())
diff --git a/ccnpy/flic/tlvs/NodeData.py b/ccnpy/flic/tlvs/NodeData.py
index c28e789..416926a 100755
--- a/ccnpy/flic/tlvs/NodeData.py
+++ b/ccnpy/flic/tlvs/NodeData.py
@@ -95,7 +95,7 @@ class NodeData(TlvType):
         return len(self._tlv)
 
     def __eq__(self, other):
-        return self.__dict__ == other.__dict__
+        return isinstance(other, NodeData) and self.serialize() == other.serialize()
 
     def __repr__(self):
         return "NodeData: {%r, %r, %r, %r, %r}" % (self._subtree_size, self._subtree_digest, self._locators, self._nc_defs, self._vendors)
diff --git a/ccnpy/flic/tlvs/Pointers.py b/ccnpy/flic/tlvs/Pointers.py
index 5648b84..55d21e0 100755
--- a/ccnpy/flic/tlvs/Pointers.py
+++ b/ccnpy/flic/tlvs/Pointers.py
@@ -51,7 +51,7 @@ class Pointers(TlvType):
         return len(self._hash_values)
 
     def __eq__(self, other):
-        return self.__dict__ == other.__dict__
+        return isinstance(other, Pointers) and self.serialize() == other.serialize()
 
     def __repr__(self):
         return "Ptrs: %r" % self._hash_values
diff --git a/ccnpy/flic/tlvs/SuffixComponentType.py b/ccnpy/flic/tlvs/SuffixComponentType.py
index 0ebbec4..dafeed7 100755
--- a/ccnpy/flic/tlvs/SuffixComponentType.py
+++ b/ccnpy/flic/tlvs/SuffixComponentType.py
@@ -43,7 +43,7 @@ class SuffixComponentType(TlvType):
         return "LeafSize: %02X" % self._value
 
     def __eq__(self, other):
-        return self.__dict__ == other.__dict__
+        return isinstance(other, SuffixComponentType) and self.serialize() == other.serialize()
 
     def value(self):
         return self._value
diff --git a/ccnpy/flic/tlvs/Vendor.py b/ccnpy/flic/tlvs/Vendor.py
index 49a312c..3135a44 100644
--- a/ccnpy/flic/tlvs/Vendor.py
+++ b/ccnpy/flic/tlvs/Vendor.py
@@ -46,9 +46,7 @@ class Vendor(TlvType):
         return len(self._tlv)
 
     def __eq__(self, other):
-        if self.__dict__ == other.__dict__:
-            return True
-        return False
+        return isinstance(other, Vendor) and self.serialize() == other.serialize()
 
     def __repr__(self):
         return "Vendor: pen: %r, payload: %r" % (self._pen, DisplayFormatter.hexlify(self._payload))
-- 
2.43.0


From 6ef2d7d7c9d37aba3d965bd28d74f49c93d39c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:35 +0000
Subject: [PATCH 23/52] fix: a name constructor schema may have protocol flags

---
 ccnpy/flic/tlvs/NcSchema.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccnpy/flic/tlvs/NcSchema.py b/ccnpy/flic/tlvs/NcSchema.py
index d2d1cb0..bcc4596 100644
--- a/ccnpy/flic/tlvs/NcSchema.py
+++ b/ccnpy/flic/tlvs/NcSchema.py
@@ -55,7 +55,7 @@ class ProtocolFlagsSchema(NcSchema, ABC):
     def __init__(self, flags: Optional[ProtocolFlags] = None):
         self._flags = flags
         super().__init__()
-        self._tlv = Tlv(self.class_type(), self._flags)
+        self._tlv = Tlv(self.class_type(), [self._flags])
 
     def __len__(self):
         return len(self._tlv)
-- 
2.43.0


From 850fdf9c5843150dad7348f48667fd908ba7f56d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:08 +0000
Subject: [PATCH 24/52] fix: a number that does not fit in 64 bits is refused,
 not truncated

---
 ccnpy/core/Tlv.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ccnpy/core/Tlv.py b/ccnpy/core/Tlv.py
index a5955fb..4207df4 100755
--- a/ccnpy/core/Tlv.py
+++ b/ccnpy/core/Tlv.py
@@ -203,8 +203,8 @@ class Tlv(Serializable):
         elif n < 0x100000000:
             byte_array = [n >> 24, (n >> 16) & 0xFF, (n >> 8) & 0xFF, n & 0xFF]
         else:
-            # skip to 8 bytes
-            byte_array = [(n >> 56) & 0xFF, (n >> 48) & 0xFF, (n >> 40) & 0xFF, (n >> 32) & 0xFF,
+            # skip to 8 bytes.  The first byte is not masked, so a number over 64 bits is an OverflowError.
+            byte_array = [n >> 56, (n >> 48) & 0xFF, (n >> 40) & 0xFF, (n >> 32) & 0xFF,
                           (n >> 24) & 0xFF, (n >> 16) & 0xFF, (n >> 8) & 0xFF, n & 0xFF]
 
         return array.array("B", byte_array)
@@ -217,7 +217,7 @@ class Tlv(Serializable):
         :param n:
         :return:
         """
-        byte_array = [(n >> 56) & 0xFF, (n >> 48) & 0xFF, (n >> 40) & 0xFF, (n >> 32) & 0xFF,
+        byte_array = [n >> 56, (n >> 48) & 0xFF, (n >> 40) & 0xFF, (n >> 32) & 0xFF,
                       (n >> 24) & 0xFF, (n >> 16) & 0xFF, (n >> 8) & 0xFF, n & 0xFF]
         return array.array("B", byte_array)
 
-- 
2.43.0


From 1a6442fdf1765607f0dd6f2e319204358ee0a4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:01 +0000
Subject: [PATCH 25/52] fix: a packet with optional headers keeps them when it
 is serialized again

---
 ccnpy/core/Packet.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ccnpy/core/Packet.py b/ccnpy/core/Packet.py
index da249da..19220a5 100755
--- a/ccnpy/core/Packet.py
+++ b/ccnpy/core/Packet.py
@@ -56,7 +56,7 @@ class Packet:
         fh = FixedHeader.create_content_object(packet_length=packet_length)
         return cls(header=fh, body=body, validation_alg=validation_alg, validation_payload=validation_payload)
 
-    def __init__(self, header, body, validation_alg=None, validation_payload=None):
+    def __init__(self, header, body, validation_alg=None, validation_payload=None, optional_headers=None):
         if not isinstance(header, FixedHeader):
             raise TypeError("header is not FixedHeader")
 
@@ -74,6 +74,8 @@ class Packet:
             raise TypeError("validation_alg and validation_payload must both be None or not None, not mixed")
 
         self._header = header
+        # The octets between the fixed header and the body, which the fixed header's header_length counts
+        self._optional_headers = optional_headers
         self._body = body
         self._validation_alg = validation_alg
         self._validation_payload = validation_payload
@@ -82,6 +84,8 @@ class Packet:
 
     def __serialize(self):
         byte_list = self._header.serialize()
+        if self._optional_headers is not None:
+            byte_list.extend(self._optional_headers)
         byte_list.extend(self._body.serialize())
         if self._validation_alg is not None:
             byte_list.extend(self._validation_alg.serialize())
@@ -105,6 +109,7 @@ class Packet:
         offset = 0
         header = FixedHeader.deserialize(buffer)
         offset += header.header_length()
+        optional_headers = buffer[cls.__FIXED_HEADER_LEN:offset]
 
         while offset < len(buffer):
             tlv = Tlv.deserialize(buffer[offset:])
@@ -126,7 +131,8 @@ class Packet:
             else:
                 raise RuntimeError("Unsupported packet TLV type %r" % tlv.type())
 
-        return cls(header=header, body=body, validation_alg=val_alg, validation_payload=val_payload)
+        return cls(header=header, body=body, validation_alg=val_alg, validation_payload=val_payload,
+                   optional_headers=optional_headers)
 
     @classmethod
     def load(cls, filename):
-- 
2.43.0


From e6b28355119a1973f92da6ff33fcf9dce61877d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:54 +0000
Subject: [PATCH 26/52] fix: an authentication tag must have its full length

The boundary between ciphertext and tag was not checked, so octets could
be moved from one to the other and the altered manifest still decrypted.
---
 ccnpy/crypto/AeadKey.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ccnpy/crypto/AeadKey.py b/ccnpy/crypto/AeadKey.py
index 274ec3d..5feb7d4 100755
--- a/ccnpy/crypto/AeadKey.py
+++ b/ccnpy/crypto/AeadKey.py
@@ -119,6 +119,9 @@ class AeadKey(ABC):
         if isinstance(associated_data, array.array):
             associated_data = associated_data.tobytes()
 
+        if len(auth_tag) != self._tag_len:
+            raise DecryptionError(f"The authentication tag must be {self._tag_len} bytes, got {len(auth_tag)}")
+
         combined = ciphertext + auth_tag
 
         if self.DEBUG:
-- 
2.43.0


From febcb662a344c5d93b093f865ca3384ec21215bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:12 +0000
Subject: [PATCH 27/52] fix: a manifest packet is signed by the signer it was
 asked for

ManifestFactory.build_packet ignored its signer argument and signed with
the one of the tree options, or crashed if there was none.
---
 ccnpy/flic/ManifestFactory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ccnpy/flic/ManifestFactory.py b/ccnpy/flic/ManifestFactory.py
index 92e3fa0..c22a52b 100755
--- a/ccnpy/flic/ManifestFactory.py
+++ b/ccnpy/flic/ManifestFactory.py
@@ -99,8 +99,8 @@ class ManifestFactory:
                                           expiry_time=expiry_time)
 
         if signer is not None:
-            validation_alg = self._tree_options.signer.validation_alg()
-            validation_payload = self._tree_options.signer.sign(body.serialize(), validation_alg.serialize())
+            validation_alg = signer.validation_alg()
+            validation_payload = signer.sign(body.serialize(), validation_alg.serialize())
             packet = Packet.create_signed_content_object(body, validation_alg, validation_payload)
         else:
             packet = Packet.create_content_object(body)
-- 
2.43.0


From e4682663bae93c4ba2fd1e1066c77b13606c696e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:43 +0000
Subject: [PATCH 28/52] fix: no two names may share a link file

---
 ccnpy/flic/tree/TreeIO.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/ccnpy/flic/tree/TreeIO.py b/ccnpy/flic/tree/TreeIO.py
index 4a2308b..eb3e073 100755
--- a/ccnpy/flic/tree/TreeIO.py
+++ b/ccnpy/flic/tree/TreeIO.py
@@ -18,7 +18,7 @@ from abc import ABC
 from array import array
 from pathlib import PurePath, Path
 from typing import Optional, Dict
-from urllib.parse import urlparse
+from urllib.parse import quote
 
 from .SizedPointer import SizedPointer
 from ..tlvs.Locators import Locators
@@ -39,12 +39,14 @@ class TreeIO:
 
     @staticmethod
     def get_link_name(name: Name) -> str:
-        url = urlparse(name.as_uri())
-        filename = url.path
-        safename=filename.replace('/','~')
+        # Percent-encode what a file name cannot hold, so that no two names share a link.
+        safename = ''
+        for i in range(name.count()):
+            component = name.component(i)
+            label = 'Name' if component.is_name_segment() else component.type()
+            value = quote(bytes(component.value()), safe='').replace('~', '%7E')
+            safename += f'~{label}={value}'
         return f'{safename}.link'
-        # name_bytes = name.serialize().tobytes()
-        # return f'{name_bytes.hex()}.link'
 
     class DataBuffer:
         def __init__(self):
-- 
2.43.0


From 5c5a044dcc8f95a6de9f5787e513774eaa85968d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:52 +0000
Subject: [PATCH 29/52] fix: a plan has no negative number of interior
 manifests

---
 ccnpy/flic/tree/TreeOptimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccnpy/flic/tree/TreeOptimizer.py b/ccnpy/flic/tree/TreeOptimizer.py
index d5750f5..bb00df7 100755
--- a/ccnpy/flic/tree/TreeOptimizer.py
+++ b/ccnpy/flic/tree/TreeOptimizer.py
@@ -87,7 +87,7 @@ class TreeOptimizer:
                 return 1
 
         k = math.ceil((self._num_direct_nodes - d - m) / (m * (d + m - 1)))
-        return k
+        return max(k, 0)
 
     @staticmethod
     def calculate_n(k, d, m):
-- 
2.43.0


From 672216e8db47e27dcb5444c9e13e01f93e649a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:17 +0000
Subject: [PATCH 30/52] fix: packet_reader shows a wrapped-key manifest it
 cannot open, instead of crashing

---
 ccnpy/apps/packet_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ccnpy/apps/packet_utils.py b/ccnpy/apps/packet_utils.py
index 4393f4e..d6962c1 100644
--- a/ccnpy/apps/packet_utils.py
+++ b/ccnpy/apps/packet_utils.py
@@ -87,3 +87,6 @@ def decrypt_manifest(keystore: InsecureKeystore, manifest: Manifest) -> Manifest
         return decryptor.decrypt_manifest(manifest)
     except DecryptionError as e:
         print(f"Failed decryption: {e}")
+    except (KeyIdNotFoundError, ValueError) as e:
+        # no key to unwrap the content key with, or the wrapped key is in another manifest
+        print(f"Manifest not decrypted: {e}")
-- 
2.43.0


From a68aad22abcd9846d03f551ca3a7cc41dda49e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:48 +0000
Subject: [PATCH 31/52] fix: every time of 64 bits survives parsing

---
 ccnpy/core/ExpiryTime.py    | 6 +++---
 ccnpy/core/SignatureTime.py | 6 +++---
 ccnpy/core/Timestamp.py     | 7 ++++---
 3 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/ccnpy/core/ExpiryTime.py b/ccnpy/core/ExpiryTime.py
index 10c0293..83013ca 100755
--- a/ccnpy/core/ExpiryTime.py
+++ b/ccnpy/core/ExpiryTime.py
@@ -23,11 +23,11 @@ class ExpiryTime(Timestamp):
     def class_type(cls):
         return cls.__T_EXPIRY
 
-    def __init__(self, timestamp):
+    def __init__(self, timestamp, milliseconds=None):
         """
         :param timestamp: Python datetime timestamp (seconds float)
         """
-        Timestamp.__init__(self, timestamp)
+        Timestamp.__init__(self, timestamp, milliseconds)
 
     @classmethod
     def parse(cls, tlv):
@@ -36,4 +36,4 @@ class ExpiryTime(Timestamp):
 
         msec = tlv.value_as_number()
         timestamp = msec / 1000.0
-        return cls(timestamp)
+        return cls(timestamp, msec)
diff --git a/ccnpy/core/SignatureTime.py b/ccnpy/core/SignatureTime.py
index 9564f9d..dfbbbe4 100755
--- a/ccnpy/core/SignatureTime.py
+++ b/ccnpy/core/SignatureTime.py
@@ -22,11 +22,11 @@ class SignatureTime(Timestamp):
     def class_type(cls):
         return cls.__T_SIGTIME
 
-    def __init__(self, timestamp):
+    def __init__(self, timestamp, milliseconds=None):
         """
         :param timestamp: Python datetime timestamp (seconds float)
         """
-        Timestamp.__init__(self, timestamp)
+        Timestamp.__init__(self, timestamp, milliseconds)
 
     @classmethod
     def parse(cls, tlv):
@@ -35,4 +35,4 @@ class SignatureTime(Timestamp):
 
         msec = tlv.value_as_number()
         timestamp = msec / 1000.0
-        return cls(timestamp)
+        return cls(timestamp, msec)
diff --git a/ccnpy/core/Timestamp.py b/ccnpy/core/Timestamp.py
index 957fca3..6b3e3b0 100755
--- a/ccnpy/core/Timestamp.py
+++ b/ccnpy/core/Timestamp.py
@@ -30,12 +30,14 @@ class Timestamp(TlvType, ABC):
     def from_datetime(cls, dt):
         return cls(round(dt.timestamp(), 3))
 
-    def __init__(self, timestamp):
+    def __init__(self, timestamp, milliseconds=None):
         """
         :param timestamp: Python datetime timestamp (seconds float)
+        :param milliseconds: The same time as integer milliseconds, if known (a float cannot hold all of them)
         """
         TlvType.__init__(self)
         self._timestamp = timestamp
+        self._milliseconds = round(timestamp * 1000) if milliseconds is None else milliseconds
         self._tlv = Tlv.create_uint64(self.class_type(), self.milliseconds())
         self._wire_format = self._tlv.serialize()
 
@@ -75,8 +77,7 @@ class Timestamp(TlvType, ABC):
         Python timestamp in milliseconds as integer
         :return:
         """
-        msec = round(self.timestamp() * 1000)
-        return msec
+        return self._milliseconds
 
     def datetime(self):
         try:
-- 
2.43.0


From f802aa04adca4f595663dc47034d47e0d8be6751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:32 +0000
Subject: [PATCH 32/52] fix: a reader uses the key most recently added under a
 key number

---
 ccnpy/flic/RsaOaepCtx/RsaOaepDecryptor.py |  5 ++++-
 ccnpy/flic/aeadctx/AeadImpl.py            |  3 +++
 ccnpy/flic/tree/DecryptorCache.py         | 23 +++++++----------------
 3 files changed, 14 insertions(+), 17 deletions(-)

diff --git a/ccnpy/flic/RsaOaepCtx/RsaOaepDecryptor.py b/ccnpy/flic/RsaOaepCtx/RsaOaepDecryptor.py
index 3ba9161..0fb832b 100755
--- a/ccnpy/flic/RsaOaepCtx/RsaOaepDecryptor.py
+++ b/ccnpy/flic/RsaOaepCtx/RsaOaepDecryptor.py
@@ -41,7 +41,10 @@ class RsaOaepDecryptor(ManifestDecryptor):
 
     def _get_impl(self, security_ctx: RsaOaepCtx) -> RsaOaepImpl:
         try:
-            return self._cache.get(key_id=security_ctx.key_id(), key_number=security_ctx.key_number())
+            impl = self._cache.get(key_id=security_ctx.key_id(), key_number=security_ctx.key_number())
+            # The keystore may have been given another key with the same number
+            if self._keystore.get_aes_key(security_ctx.key_number()) is impl.params():
+                return impl
         except KeyError:
             pass
 
diff --git a/ccnpy/flic/aeadctx/AeadImpl.py b/ccnpy/flic/aeadctx/AeadImpl.py
index e788f16..b03c9e9 100755
--- a/ccnpy/flic/aeadctx/AeadImpl.py
+++ b/ccnpy/flic/aeadctx/AeadImpl.py
@@ -49,6 +49,9 @@ class AeadImpl:
         self._params = params
         self.logger.debug(self)
 
+    def params(self) -> AeadParameters:
+        return self._params
+
     def _derive_key(self, key: AeadKey, kdf_data: Optional[KdfData]) -> AeadKey:
         """
         The key that encrypts a manifest: the AEAD key itself or, with a KDF, the key derived from it.
diff --git a/ccnpy/flic/tree/DecryptorCache.py b/ccnpy/flic/tree/DecryptorCache.py
index f935b58..eea9e2f 100644
--- a/ccnpy/flic/tree/DecryptorCache.py
+++ b/ccnpy/flic/tree/DecryptorCache.py
@@ -12,10 +12,8 @@
 #  See the License for the specific language governing permissions and
 #  limitations under the License.
 from ccnpy.crypto.InsecureKeystore import InsecureKeystore
-from ccnpy.flic.ManifestDecryptor import ManifestDecryptor
 from ccnpy.flic.RsaOaepCtx.RsaOaepDecryptor import RsaOaepDecryptor
 from ccnpy.flic.aeadctx.AeadDecryptor import AeadDecryptor
-from ccnpy.flic.aeadctx.AeadParameters import AeadParameters
 from ccnpy.flic.tlvs.AeadCtx import AeadCtx
 from ccnpy.flic.tlvs.RsaOaepCtx import RsaOaepCtx
 from ccnpy.flic.tlvs.SecurityCtx import AeadSecurityCtx
@@ -31,26 +29,19 @@ class DecryptorCache:
 
     def __init__(self, keystore: InsecureKeystore):
         self._keystore = keystore
-        self._last_key_num = None
+        self._last_params = None
         self._last_decryptor = None
         self._oaep_decryptor = RsaOaepDecryptor(keystore=self._keystore)
 
     def get_or_create(self, security_ctx: AeadSecurityCtx):
-        # TODO: This is not correct for RsaOaep, as it uses (keyid, keynum) pair as index
-        key_num = security_ctx.key_number()
-        if key_num == self._last_key_num:
-            return self._last_decryptor
-        # Only remember the key number once there is a decryptor for it
-        decryptor = self._create(security_ctx)
-        self._last_key_num = key_num
-        self._last_decryptor = decryptor
-        return self._last_decryptor
-
-    def _create(self, security_ctx: AeadSecurityCtx) -> ManifestDecryptor:
         # TODO: implement for RsaOaep too
         if isinstance(security_ctx, AeadCtx):
-            key_num = security_ctx.key_number()
-            return AeadDecryptor(self._keystore.get_aes_key(key_num))
+            # The keystore may have been given another key with the same number
+            params = self._keystore.get_aes_key(security_ctx.key_number())
+            if params is not self._last_params:
+                self._last_decryptor = AeadDecryptor(params)
+                self._last_params = params
+            return self._last_decryptor
 
         if isinstance(security_ctx, RsaOaepCtx):
             return self._oaep_decryptor
-- 
2.43.0


From 50963c4c667d394109b11d57aba5349544846755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:19 +0000
Subject: [PATCH 33/52] fix: two iterations over one object do not disturb each
 other

---
 ccnpy/core/HashValue.py     | 11 +----------
 ccnpy/core/Link.py          | 14 +-------------
 ccnpy/core/Timestamp.py     | 11 +----------
 ccnpy/core/Tlv.py           | 11 +----------
 ccnpy/flic/tlvs/Pointers.py | 11 +----------
 5 files changed, 5 insertions(+), 53 deletions(-)

diff --git a/ccnpy/core/HashValue.py b/ccnpy/core/HashValue.py
index 26de464..7840b0d 100755
--- a/ccnpy/core/HashValue.py
+++ b/ccnpy/core/HashValue.py
@@ -54,16 +54,7 @@ class HashValue(TlvType):
         self._wire_format = self._tlv.serialize()
 
     def __iter__(self):
-        self._offset = 0
-        return self
-
-    def __next__(self):
-        if self._offset == len(self._wire_format):
-            raise StopIteration
-
-        output = self._wire_format[self._offset]
-        self._offset += 1
-        return output
+        return iter(self._wire_format)
 
     def __alg_string(self):
         if self._hash_algorithm == HashFunctionType.T_SHA_256:
diff --git a/ccnpy/core/Link.py b/ccnpy/core/Link.py
index 77f1ef5..217bb12 100755
--- a/ccnpy/core/Link.py
+++ b/ccnpy/core/Link.py
@@ -55,9 +55,6 @@ class Link:
         self._name = name
         self._keyid = keyid
         self._digest = digest
-        # for iteration
-        self._offset = 0
-
         self._wire_format = array.array("B", [])
         if self._name is not None:
             self._wire_format.extend(self._name.serialize())
@@ -78,16 +75,7 @@ class Link:
         return len(self._wire_format)
 
     def __iter__(self):
-        self._offset = 0
-        return self
-
-    def __next__(self):
-        if self._offset == len(self._wire_format):
-            raise StopIteration
-
-        output = self._wire_format[self._offset]
-        self._offset += 1
-        return output
+        return iter(self._wire_format)
 
     def name(self) -> Optional[Name]:
         return self._name
diff --git a/ccnpy/core/Timestamp.py b/ccnpy/core/Timestamp.py
index 6b3e3b0..2a79dcf 100755
--- a/ccnpy/core/Timestamp.py
+++ b/ccnpy/core/Timestamp.py
@@ -51,16 +51,7 @@ class Timestamp(TlvType, ABC):
         return len(self._tlv)
 
     def __iter__(self):
-        self._offset = 0
-        return self
-
-    def __next__(self):
-        if self._offset == len(self._wire_format):
-            raise StopIteration
-
-        output = self._wire_format[self._offset]
-        self._offset += 1
-        return output
+        return iter(self._wire_format)
 
     def serialize(self):
         return self._tlv.serialize()
diff --git a/ccnpy/core/Tlv.py b/ccnpy/core/Tlv.py
index 4207df4..fa9d537 100755
--- a/ccnpy/core/Tlv.py
+++ b/ccnpy/core/Tlv.py
@@ -82,16 +82,7 @@ class Tlv(Serializable):
         return 4 + self.length()
 
     def __iter__(self):
-        self._offset = 0
-        return self
-
-    def __next__(self):
-        if self._offset == len(self._wire_format):
-            raise StopIteration
-
-        output = self._wire_format[self._offset]
-        self._offset += 1
-        return output
+        return iter(self._wire_format)
 
     def __eq__(self, other):
         return isinstance(other, Tlv) and self._wire_format == other._wire_format
diff --git a/ccnpy/flic/tlvs/Pointers.py b/ccnpy/flic/tlvs/Pointers.py
index 55d21e0..f4b3e40 100755
--- a/ccnpy/flic/tlvs/Pointers.py
+++ b/ccnpy/flic/tlvs/Pointers.py
@@ -60,16 +60,7 @@ class Pointers(TlvType):
         return self._hash_values[item]
 
     def __iter__(self):
-        self._offset = 0
-        return self
-
-    def __next__(self):
-        if self._offset == len(self):
-            raise StopIteration
-
-        output = self[self._offset]
-        self._offset += 1
-        return output
+        return iter(self._hash_values)
 
     @classmethod
     def parse(cls, tlv):
-- 
2.43.0


From ebba9509071b626c1c61df50d459d1fb72bded64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:13 +0000
Subject: [PATCH 34/52] fix: an object made from a list of octets can be
 printed

---
 ccnpy/core/DisplayFormatter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccnpy/core/DisplayFormatter.py b/ccnpy/core/DisplayFormatter.py
index ed6cd18..e4c8516 100755
--- a/ccnpy/core/DisplayFormatter.py
+++ b/ccnpy/core/DisplayFormatter.py
@@ -23,7 +23,7 @@ class DisplayFormatter:
     def hexlify(cls, value):
         if value is None:
             return "None"
-        return f'0x{str(binascii.hexlify(value), 'utf-8')}'
+        return f'0x{str(binascii.hexlify(bytes(value)), 'utf-8')}'
 
     @classmethod
     def prettify(cls, value):
-- 
2.43.0


From 75f185f83273481db0b4d3a4f30b0c308534df44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:52 +0000
Subject: [PATCH 35/52] fix: a manifest with two authentication tags is refused

---
 ccnpy/flic/tlvs/Manifest.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ccnpy/flic/tlvs/Manifest.py b/ccnpy/flic/tlvs/Manifest.py
index 2302a41..3ac903b 100755
--- a/ccnpy/flic/tlvs/Manifest.py
+++ b/ccnpy/flic/tlvs/Manifest.py
@@ -100,6 +100,7 @@ class Manifest:
                 assert node is None
                 node = EncryptedNode.parse(tlv)
             elif tlv.type() == AuthTag.class_type():
+                assert auth_tag is None
                 auth_tag = AuthTag.parse(tlv)
             else:
                 raise ValueError("Unsupported TLV %r" % tlv)
-- 
2.43.0


From 17a94e896a6790930100ad94d28d867be0634534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:52 +0000
Subject: [PATCH 36/52] fix: a validation algorithm with an element twice is
 refused

---
 ccnpy/core/ValidationAlg.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ccnpy/core/ValidationAlg.py b/ccnpy/core/ValidationAlg.py
index fa3fc0a..f030bbe 100755
--- a/ccnpy/core/ValidationAlg.py
+++ b/ccnpy/core/ValidationAlg.py
@@ -184,15 +184,19 @@ class ValidationAlg_RsaSha256(ValidationAlg):
         while offset < tlv.length():
             inner_tlv = Tlv.deserialize(tlv.value()[offset:])
             if inner_tlv.type() == KeyId.class_type():
+                assert keyid is None
                 keyid_tlv = KeyId.parse(inner_tlv)
                 keyid = keyid_tlv.digest()
             elif inner_tlv.type() == SignatureTime.class_type():
+                assert signature_time is None
                 signature_time = SignatureTime.parse(inner_tlv)
             elif inner_tlv.type() == cls.__T_PUBLICKEY:
+                assert public_key is None
                 # Due to the circular reference between core and crypto, need to defer the loading of RsaKey
                 from ..crypto.RsaKey import RsaKey
                 public_key = RsaKey.from_public_key_der(inner_tlv.value())
             elif inner_tlv.type() == KeyLink.class_type():
+                assert key_link is None
                 key_link = KeyLink.parse(inner_tlv)
             offset += len(inner_tlv)
         return cls(keyid=keyid, public_key=public_key, key_link=key_link, signature_time=signature_time)
-- 
2.43.0


From 55b6cdaf3be211d683b79af41a8114263b4dc481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:59 +0000
Subject: [PATCH 37/52] fix: a Name of no components could not be printed or
 counted

---
 ccnpy/core/Name.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccnpy/core/Name.py b/ccnpy/core/Name.py
index cedb3e5..d22b1c7 100755
--- a/ccnpy/core/Name.py
+++ b/ccnpy/core/Name.py
@@ -89,7 +89,7 @@ class Name(TlvType):
         :param components: An array of NameComponents
         """
         TlvType.__init__(self)
-        self._components = components
+        self._components = components if components is not None else []
         self._tlv = Tlv(self.class_type(), self._components)
 
     def __len__(self):
-- 
2.43.0


From 1a45236f09dacb533dace11b85a67ed3a0523c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:04 +0000
Subject: [PATCH 38/52] fix: a hash group changed when its builder went on

---
 ccnpy/flic/HashGroupBuilder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ccnpy/flic/HashGroupBuilder.py b/ccnpy/flic/HashGroupBuilder.py
index 64a5ea9..2813a41 100755
--- a/ccnpy/flic/HashGroupBuilder.py
+++ b/ccnpy/flic/HashGroupBuilder.py
@@ -106,7 +106,8 @@ class HashGroupBuilder:
 
         :return: ccnpy.flic.Pointers object
         """
-        return Pointers(hash_values=self._pointers)
+        # a copy, so pointers added later do not change what was returned
+        return Pointers(hash_values=list(self._pointers))
 
     def direct_count(self):
         return self._direct_count
-- 
2.43.0


From d74a319b37f4051ab9c71d4f040cd25db99c8ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:23 +0000
Subject: [PATCH 39/52] fix: a graph could not hold a packet whose name has no
 components

---
 ccnpy/flic/tree/ManifestGraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccnpy/flic/tree/ManifestGraph.py b/ccnpy/flic/tree/ManifestGraph.py
index 700ec69..6804455 100644
--- a/ccnpy/flic/tree/ManifestGraph.py
+++ b/ccnpy/flic/tree/ManifestGraph.py
@@ -64,7 +64,7 @@ class ManifestGraph:
 
     @classmethod
     def _label_from_name(cls, hash_value: HashValue, name: Name):
-        if name is not None:
+        if name is not None and name.count() > 0:
             last_segment = name.component(name.count()-1)
             if last_segment.type() in [NameComponent.manifest_id_type(), NameComponent.chunk_id_type()]:
                 return str(last_segment.value_as_number())
-- 
2.43.0


From 9e029d44fcb6b18e6e12a1fdd17c8bc28c822e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:13 +0000
Subject: [PATCH 40/52] fix: packets with an unreadable or absent payload could
 not be printed

---
 ccnpy/core/ContentObject.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/ccnpy/core/ContentObject.py b/ccnpy/core/ContentObject.py
index 086bfe0..a14072e 100755
--- a/ccnpy/core/ContentObject.py
+++ b/ccnpy/core/ContentObject.py
@@ -24,7 +24,6 @@ from .Payload import Payload
 from .PayloadType import PayloadType
 from .Tlv import Tlv
 from .TlvType import TlvType
-from ..exceptions.ParseError import ParseError
 
 
 class ContentObject(TlvType):
@@ -150,13 +149,17 @@ class ContentObject(TlvType):
             from ccnpy.flic.tlvs.Manifest import Manifest
             try:
                 payload = Manifest.deserialize(self._payload.value())
-            except ParseError as e:
-                payload = self._payload.value()
+            except Exception:
+                # It is not what the payload type says it is
+                payload = self._payload
 
         elif self.is_link():
-            payload = Link.deserialize(self._payload.value())
+            try:
+                payload = Link.deserialize(self._payload.value())
+            except Exception:
+                payload = self._payload
         else:
-            if self.USE_BRIEF_OUTPUT:
+            if self.USE_BRIEF_OUTPUT and self._payload is not None:
                 payload = f'(payload {len(self._payload)} bytes)'
             else:
                 payload = self.payload()
-- 
2.43.0


From c18bad3fa62741abacc7954cfc132e151b055a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:18 +0000
Subject: [PATCH 41/52] fix: a context with an unknown AEAD mode could be
 parsed but not printed

---
 ccnpy/flic/tlvs/AeadMode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccnpy/flic/tlvs/AeadMode.py b/ccnpy/flic/tlvs/AeadMode.py
index 2f79b5b..768a763 100755
--- a/ccnpy/flic/tlvs/AeadMode.py
+++ b/ccnpy/flic/tlvs/AeadMode.py
@@ -39,7 +39,7 @@ class AeadMode(IntegerTlvType):
             return "AES-CCM-128"
         if self._value == self.__AEAD_AES_256_CCM:
             return "AES-CCM-256"
-        raise ValueError("Unsupported mode %r" % self._value)
+        return "Unsupported"
 
     @classmethod
     def class_type(cls):
-- 
2.43.0


From c999ac22a79aa0d49ba1d1bafed84107462025a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:23 +0000
Subject: [PATCH 42/52] fix: a node with groups of no pointers could not be
 printed or iterated

---
 ccnpy/flic/tlvs/Node.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/ccnpy/flic/tlvs/Node.py b/ccnpy/flic/tlvs/Node.py
index a07a64a..a139939 100755
--- a/ccnpy/flic/tlvs/Node.py
+++ b/ccnpy/flic/tlvs/Node.py
@@ -49,13 +49,14 @@ class Node(TlvType):
             self._ptr_index = 0
 
         def __next__(self):
+            # Skip finished and empty groups.  A group can be without pointers.
+            while self._group_index < len(self._groups) and \
+                    self._ptr_index >= len(self._groups[self._group_index].pointers() or []):
+                self._ptr_index = 0
+                self._group_index += 1
             if self._group_index >= len(self._groups):
                 raise StopIteration
             hg = self._groups[self._group_index]
-            if self._ptr_index >= len(hg.pointers()):
-                self._ptr_index = 0
-                self._group_index += 1
-                return self.__next__()
             value = hg.pointers()[self._ptr_index]
             if hg.group_data() is None or hg.group_data().nc_id() is None:
                 raise ValueError("Every hash group must have a group data and NcId")
@@ -164,7 +165,7 @@ class Node(TlvType):
         """
         hash_values = []
         for hg in self._hash_groups:
-            for hv in hg.pointers():
+            for hv in hg.pointers() or []:
                 hash_values.append(hv)
         return hash_values
 
-- 
2.43.0


From 7a6ef0d8968932ec9dc6a1cee1290673d8b6f101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:11 +0000
Subject: [PATCH 43/52] fix: a signature without a time got the present time
 when it was parsed

---
 ccnpy/core/ValidationAlg.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ccnpy/core/ValidationAlg.py b/ccnpy/core/ValidationAlg.py
index f030bbe..7d8031b 100755
--- a/ccnpy/core/ValidationAlg.py
+++ b/ccnpy/core/ValidationAlg.py
@@ -199,7 +199,11 @@ class ValidationAlg_RsaSha256(ValidationAlg):
                 assert key_link is None
                 key_link = KeyLink.parse(inner_tlv)
             offset += len(inner_tlv)
-        return cls(keyid=keyid, public_key=public_key, key_link=key_link, signature_time=signature_time)
+        alg = cls(keyid=keyid, public_key=public_key, key_link=key_link, signature_time=signature_time)
+        # The signature and the hash are over the octets as they came, which may be without a signature time.
+        alg._tlv = Tlv(ValidationAlg.class_type(), tlv)
+        alg._signature_time = signature_time
+        return alg
 
     def serialize(self):
         return self._tlv.serialize()
-- 
2.43.0


From 6713c3855938a66cc751f75ba3dde31e677c0ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:44 +0000
Subject: [PATCH 44/52] fix: names with a very long number could not be printed
 or put into a graph

---
 ccnpy/core/Name.py               | 3 +++
 ccnpy/flic/tree/ManifestGraph.py | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/ccnpy/core/Name.py b/ccnpy/core/Name.py
index d22b1c7..a3fd164 100755
--- a/ccnpy/core/Name.py
+++ b/ccnpy/core/Name.py
@@ -55,6 +55,9 @@ class NameComponent(Tlv):
 
     def __repr__(self):
         t = self.type()
+        if t in (NameComponent.__T_CHUNKID, NameComponent.__T_MANIFESTID) and self.length() > 8:
+            # Not a number this library makes, and it may be too long for Python to print as one
+            return super().__repr__()
         if t == NameComponent.__T_CHUNKID:
             return f'ChunkId={Tlv.array_to_number(self.value())}'
         if t == NameComponent.__T_NAMESEGMENT:
diff --git a/ccnpy/flic/tree/ManifestGraph.py b/ccnpy/flic/tree/ManifestGraph.py
index 6804455..b57c383 100644
--- a/ccnpy/flic/tree/ManifestGraph.py
+++ b/ccnpy/flic/tree/ManifestGraph.py
@@ -66,7 +66,7 @@ class ManifestGraph:
     def _label_from_name(cls, hash_value: HashValue, name: Name):
         if name is not None and name.count() > 0:
             last_segment = name.component(name.count()-1)
-            if last_segment.type() in [NameComponent.manifest_id_type(), NameComponent.chunk_id_type()]:
+            if last_segment.type() in [NameComponent.manifest_id_type(), NameComponent.chunk_id_type()] and last_segment.length() <= 8:
                 return str(last_segment.value_as_number())
             else:
                 return name.as_uri()
-- 
2.43.0


From 1c7c63ba5603ffec6ff33b1208144d1b1ddaedd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:35 +0000
Subject: [PATCH 45/52] fix: octets after the only element of a TLV were
 dropped, so an altered signature algorithm, security context or digest was
 accepted

---
 ccnpy/core/HashTlvType.py      | 2 +-
 ccnpy/core/Link.py             | 4 ++--
 ccnpy/core/Tlv.py              | 8 ++++++++
 ccnpy/core/ValidationAlg.py    | 2 +-
 ccnpy/flic/tlvs/AeadCtx.py     | 2 +-
 ccnpy/flic/tlvs/RsaOaepCtx.py  | 2 +-
 ccnpy/flic/tlvs/SecurityCtx.py | 2 +-
 7 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/ccnpy/core/HashTlvType.py b/ccnpy/core/HashTlvType.py
index 27250ab..609d9e2 100644
--- a/ccnpy/core/HashTlvType.py
+++ b/ccnpy/core/HashTlvType.py
@@ -54,7 +54,7 @@ class HashTlvType(TlvType):
         if tlv.type() != cls.class_type():
             raise CannotParseError("Incorrect TLV type %r" % tlv.type())
 
-        inner_tlv = Tlv.deserialize(tlv.value())
+        inner_tlv = Tlv.deserialize_only(tlv.value())
         digest = HashValue.parse(inner_tlv)
         return cls(digest)
 
diff --git a/ccnpy/core/Link.py b/ccnpy/core/Link.py
index 217bb12..c842758 100755
--- a/ccnpy/core/Link.py
+++ b/ccnpy/core/Link.py
@@ -108,11 +108,11 @@ class Link:
                 name = Name.parse(tlv)
             elif tlv.type() == cls.__T_KEYIDRESTR:
                 assert keyid is None
-                inner_tlv = Tlv.deserialize(tlv.value())
+                inner_tlv = Tlv.deserialize_only(tlv.value())
                 keyid = HashValue.parse(inner_tlv)
             elif tlv.type() == cls.__T_OBJHASHRESTR:
                 assert digest is None
-                inner_tlv = Tlv.deserialize(tlv.value())
+                inner_tlv = Tlv.deserialize_only(tlv.value())
                 digest = HashValue.parse(inner_tlv)
             else:
                 raise ValueError("Unsupported TLV %r" % tlv)
diff --git a/ccnpy/core/Tlv.py b/ccnpy/core/Tlv.py
index fa9d537..9baa56a 100755
--- a/ccnpy/core/Tlv.py
+++ b/ccnpy/core/Tlv.py
@@ -104,6 +104,14 @@ class Tlv(Serializable):
 
         return cls(tlv_type, value)
 
+    @classmethod
+    def deserialize_only(cls, buffer):
+        """Like `deserialize`, for a buffer that holds exactly one TLV, so nothing after it is lost."""
+        tlv = cls.deserialize(buffer)
+        if len(tlv) != len(buffer):
+            raise ParseError(f'A TLV of {len(tlv)} octets is followed by {len(buffer) - len(tlv)} more')
+        return tlv
+
     @staticmethod
     def flatten(value):
         if isinstance(value, list):
diff --git a/ccnpy/core/ValidationAlg.py b/ccnpy/core/ValidationAlg.py
index 7d8031b..5d63b86 100755
--- a/ccnpy/core/ValidationAlg.py
+++ b/ccnpy/core/ValidationAlg.py
@@ -48,7 +48,7 @@ class ValidationAlg(TlvType):
         if tlv.type() != cls.class_type():
             raise ValueError("Incorrect TLV type %r" % tlv.type())
 
-        inner_tlv = Tlv.deserialize(tlv.value())
+        inner_tlv = Tlv.deserialize_only(tlv.value())
 
         if inner_tlv.type() == ValidationAlg_RsaSha256.class_type():
             return ValidationAlg_RsaSha256.parse(inner_tlv)
diff --git a/ccnpy/flic/tlvs/AeadCtx.py b/ccnpy/flic/tlvs/AeadCtx.py
index 1ea8bfb..327883e 100755
--- a/ccnpy/flic/tlvs/AeadCtx.py
+++ b/ccnpy/flic/tlvs/AeadCtx.py
@@ -65,7 +65,7 @@ class AeadCtx(AeadSecurityCtx):
         if tlv.type() != SecurityCtx.class_type():
             raise CannotParseError("Incorrect TLV type %r" % tlv.type())
 
-        inner_tlv = Tlv.deserialize(tlv.value())
+        inner_tlv = Tlv.deserialize_only(tlv.value())
 
         if inner_tlv.type() != cls.class_type():
             raise CannotParseError("Incorrect TLV type %r" % tlv)
diff --git a/ccnpy/flic/tlvs/RsaOaepCtx.py b/ccnpy/flic/tlvs/RsaOaepCtx.py
index 582f0f5..8085908 100755
--- a/ccnpy/flic/tlvs/RsaOaepCtx.py
+++ b/ccnpy/flic/tlvs/RsaOaepCtx.py
@@ -74,7 +74,7 @@ class RsaOaepCtx(AeadSecurityCtx):
         if tlv.type() != SecurityCtx.class_type():
             raise CannotParseError("Incorrect TLV type %r" % tlv.type())
 
-        inner_tlv = Tlv.deserialize(tlv.value())
+        inner_tlv = Tlv.deserialize_only(tlv.value())
 
         if inner_tlv.type() != cls.class_type():
             raise CannotParseError("Incorrect TLV type %r" % tlv)
diff --git a/ccnpy/flic/tlvs/SecurityCtx.py b/ccnpy/flic/tlvs/SecurityCtx.py
index f6626d6..e379394 100755
--- a/ccnpy/flic/tlvs/SecurityCtx.py
+++ b/ccnpy/flic/tlvs/SecurityCtx.py
@@ -55,7 +55,7 @@ class SecurityCtx(TlvType, ABC):
         if tlv.type() != cls.class_type():
             raise CannotParseError("Incorrect TLV type %r" % tlv)
 
-        inner_tlv = Tlv.deserialize(tlv.value())
+        inner_tlv = Tlv.deserialize_only(tlv.value())
         # NOTE: AeadCtx and RsaOaepCtx are responsible for putting the "SecurityCtx" TLV around
         # their own TLV, so they are also responsible for stripping it off.
         if inner_tlv.type() == AeadCtx.class_type():
-- 
2.43.0


From 2fcd03fef6d3cc176b4c578a7ba3ec951db18130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:53 +0000
Subject: [PATCH 46/52] fix: a tree whose data is numbered and whose manifests
 are not could not be read, as its leaf manifests had no start segment id

---
 ccnpy/flic/tree/ManifestSizeCalculator.py | 3 ++-
 ccnpy/flic/tree/TreeBuilder.py            | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/ccnpy/flic/tree/ManifestSizeCalculator.py b/ccnpy/flic/tree/ManifestSizeCalculator.py
index ab5dffa..1418e77 100644
--- a/ccnpy/flic/tree/ManifestSizeCalculator.py
+++ b/ccnpy/flic/tree/ManifestSizeCalculator.py
@@ -120,8 +120,9 @@ class ManifestSizeCalculator:
         tree_options = self._manifest_factory.tree_options()
         manifest_schema = self._name_ctx.manifest_schema_impl
         direct_id = indirect_id = None
-        if manifest_schema.uses_name_id():
+        if self._name_ctx.data_schema_impl.uses_name_id():
             direct_id = StartSegmentId(SchemaImpl._MAX_CHUNK_ID)
+        if manifest_schema.uses_name_id():
             indirect_id = StartSegmentId(self.__MAX_MANIFEST_ID)
 
         hgb = HashGroupBuilderPair(name_ctx=self._name_ctx, max_direct=1, max_indirect=1)
diff --git a/ccnpy/flic/tree/TreeBuilder.py b/ccnpy/flic/tree/TreeBuilder.py
index 18d70e6..23ca6d0 100755
--- a/ccnpy/flic/tree/TreeBuilder.py
+++ b/ccnpy/flic/tree/TreeBuilder.py
@@ -312,7 +312,7 @@ class TreeBuilder:
                 return self._interior_manifest(segment=segment, level=level, right_most_child=right_most_child)
 
     def _get_start_segment_id(self, head: int) -> Optional[StartSegmentId]:
-        if self._name_ctx.manifest_schema_impl.uses_name_id():
+        if self._name_ctx.data_schema_impl.uses_name_id():
             return StartSegmentId(self._file_metadata[head].chunk_number)
         else:
             return None
-- 
2.43.0


From 4d152ce1a4e02b79276cbdeee8a0a5a6d7508ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:26:15 +0000
Subject: [PATCH 47/52] fix: a vendor element too short for its enterprise
 number was accepted, and came out as other octets

---
 ccnpy/flic/tlvs/Vendor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ccnpy/flic/tlvs/Vendor.py b/ccnpy/flic/tlvs/Vendor.py
index 3135a44..37f3af4 100644
--- a/ccnpy/flic/tlvs/Vendor.py
+++ b/ccnpy/flic/tlvs/Vendor.py
@@ -65,7 +65,7 @@ class Vendor(TlvType):
         if tlv.type() != cls.class_type():
             raise CannotParseError("Incorrect TLV type %r" % tlv.type())
 
-        if len(tlv) < 3:
+        if tlv.length() < 3:
             raise ValueError("A Vendor TLV must have a 3-byte PEN")
 
         pen = Tlv.array_to_number(tlv.value()[0:3])
-- 
2.43.0


From 0136b68a980653bb62095cda5137364104a18774 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 07:41:44 +0000
Subject: [PATCH 48/52] fix: the pad of a node was dropped when it was parsed,
 and a pad could not be parsed itself

---
 ccnpy/core/Pad.py       | 10 ++++++----
 ccnpy/flic/tlvs/Node.py |  8 ++++++--
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/ccnpy/core/Pad.py b/ccnpy/core/Pad.py
index 8f60b27..452e46f 100755
--- a/ccnpy/core/Pad.py
+++ b/ccnpy/core/Pad.py
@@ -40,8 +40,10 @@ class Pad(OctetTlvType):
 
     @classmethod
     def parse(cls, tlv):
-        result = super().parse(tlv)
-        for b in result.value_bytes():
+        if tlv.type() != cls.class_type():
+            raise CannotParseError("Incorrect TLV type %r" % tlv.type())
+
+        for b in tlv.value():
             if b != 0:
-                raise ValueError(f'The value of a PAD must all be 0s, got: {result.value()}')
-        return result
+                raise ValueError(f'The value of a PAD must all be 0s, got: {tlv.value()}')
+        return cls(length=tlv.length())
diff --git a/ccnpy/flic/tlvs/Node.py b/ccnpy/flic/tlvs/Node.py
index a139939..52fd21a 100755
--- a/ccnpy/flic/tlvs/Node.py
+++ b/ccnpy/flic/tlvs/Node.py
@@ -179,6 +179,7 @@ class Node(TlvType):
 
         node_data = None
         hash_groups = []
+        pad = None
 
         offset = 0
         while offset < tlv.length():
@@ -194,11 +195,14 @@ class Node(TlvType):
                 hash_groups.append(hash_group)
 
             elif inner_tlv.type() == Pad.class_type():
-                pass
+                assert pad is None
+                pad = Pad.parse(inner_tlv)
             else:
                 raise ParseError("Unsupported inner TLV type %r" % inner_tlv)
 
-        return cls(node_data=node_data, hash_groups=hash_groups)
+        # A padded node keeps its length, so it serializes as it was
+        pad_length = len(tlv) if pad is not None else None
+        return cls(node_data=node_data, hash_groups=hash_groups, pad_length=pad_length)
 
     @classmethod
     def create_tlv(cls, value):
-- 
2.43.0


From 47f19f0bc5a456f9c945684537cad4cb501a6ac2 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 07:43:05 +0000
Subject: [PATCH 49/52] fix: the graph collected while building did not label
 data packets with their numbers

---
 ccnpy/flic/tree/TreeBuilder.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ccnpy/flic/tree/TreeBuilder.py b/ccnpy/flic/tree/TreeBuilder.py
index 23ca6d0..0245f31 100755
--- a/ccnpy/flic/tree/TreeBuilder.py
+++ b/ccnpy/flic/tree/TreeBuilder.py
@@ -449,7 +449,11 @@ class TreeBuilder:
 
     def _add_data_to_graph(self, chunk_metadata: ChunkMetadata):
         if self._manifest_graph is not None:
+            name = chunk_metadata.name
+            if name is None:
+                # chunk_data() does not put the names in the metadata
+                name = self._name_ctx.data_schema_impl.get_name(chunk_metadata.chunk_number)
             self._manifest_graph.add_data(
                 data_hash=chunk_metadata.content_object_hash,
-                name=chunk_metadata.name)
+                name=name)
 
-- 
2.43.0


From 983caf35a5e5141b183e57ebad90b66caecf8185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:13:57 +0000
Subject: [PATCH 50/52] fix: the locator of a node that has locators can be
 asked for

---
 ccnpy/flic/tlvs/Node.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ccnpy/flic/tlvs/Node.py b/ccnpy/flic/tlvs/Node.py
index 52fd21a..3b2ea76 100755
--- a/ccnpy/flic/tlvs/Node.py
+++ b/ccnpy/flic/tlvs/Node.py
@@ -147,14 +147,13 @@ class Node(TlvType):
     def node_locator(self):
         """
         A short-cut to calling node_data().locators()[0]
-        :return: (node_data().locators[0], node_data.locators.final()) or (None, None)
+        :return: (node_data().locators[0], None) or (None, None).  Locators do not carry a final flag.
         """
         locator = None
         final = None
         if self._node_data is not None:
             locators = self._node_data.locators()
             if locators is not None:
-                final = locators.final()
                 locator = locators[0]
         return locator, final
 
-- 
2.43.0


From 5b67b789ea2ab5e9d324ea794816cddc0f2720b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:29:57 +0000
Subject: [PATCH 51/52] fix: a file of any octets can be read to standard
 output

---
 ccnpy/apps/manifest_reader.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ccnpy/apps/manifest_reader.py b/ccnpy/apps/manifest_reader.py
index 54ddbc6..6cc88bf 100755
--- a/ccnpy/apps/manifest_reader.py
+++ b/ccnpy/apps/manifest_reader.py
@@ -56,9 +56,12 @@ class StdOutWrapper:
             self._out = None
 
     def write(self, value):
-        if not isinstance(value, str):
-            value = value.tobytes().decode('utf-8', errors='ignore')
-        self._out.write(value)
+        if isinstance(value, str):
+            self._out.write(value)
+        else:
+            # the file may hold any octets, so it goes below the text layer
+            self._out.flush()
+            self._out.buffer.write(value)
 
 class ManifestNetworkReader(ManifestReader):
     pass
-- 
2.43.0


From ba4daed4c6f6a3e70e2e1a3d4cd59e7b071ed45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:56:50 +0000
Subject: [PATCH 52/52] fix: a parsed content object keeps the octets it came
 with

Its elements may come in another order, and its numbers in another width, than this
library writes. The hash, the signature and the saved octets were those of the
object as this library would have written it, so the hash was wrong and a good
signature was refused.
---
 ccnpy/core/ContentObject.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ccnpy/core/ContentObject.py b/ccnpy/core/ContentObject.py
index a14072e..7c398e6 100755
--- a/ccnpy/core/ContentObject.py
+++ b/ccnpy/core/ContentObject.py
@@ -220,7 +220,10 @@ class ContentObject(TlvType):
             else:
                 raise ValueError("Unsupported ContentObject TLV %r" % inner_tlv.type())
 
-        return cls(name=name, payload_type=payload_type, payload=payload, expiry_time=expiry_time, final_chunk_id=final_chunk_id)
+        content_object = cls(name=name, payload_type=payload_type, payload=payload, expiry_time=expiry_time, final_chunk_id=final_chunk_id)
+        # The signature and the hash are over the octets as they came, with the elements in any order.
+        content_object._tlv = tlv
+        return content_object
 
     def serialize(self):
         return self._tlv.serialize()
-- 
2.43.0

