From 49594f701f9cfa57019b4fe2506a79e5db7f2302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:45 +0000
Subject: [PATCH 01/13] fix: seal an empty plaintext in a final chunk

An empty payload carried no chunk at all, so every file could be truncated
to its nonce and was still accepted as an empty message.
---
 src/age/stream.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/age/stream.py b/src/age/stream.py
index 9a34a08..05d7d7b 100644
--- a/src/age/stream.py
+++ b/src/age/stream.py
@@ -14,7 +14,8 @@ def _pack_nonce(nonce: int, last_block: bool = False) -> bytes:
 
 
 def _chunk(data, size):
-    for i in range(0, len(data), size):
+    # empty data is a single empty chunk
+    for i in range(0, max(len(data), 1), size):
         yield data[i : i + size]
 
 
@@ -22,7 +23,7 @@ def stream_encrypt(key: bytes, data: bytes) -> bytes:
     assert len(key) == 32
 
     aead = ChaCha20Poly1305(key)
-    blocks = math.ceil(len(data) / PLAINTEXT_BLOCK_SIZE)
+    blocks = max(math.ceil(len(data) / PLAINTEXT_BLOCK_SIZE), 1)
 
     encrypted = b""
     for nonce, block in enumerate(_chunk(data, PLAINTEXT_BLOCK_SIZE)):
@@ -38,7 +39,7 @@ def stream_decrypt(key: bytes, data: bytes) -> bytes:
     assert len(key) == 32
 
     aead = ChaCha20Poly1305(key)
-    blocks = math.ceil(len(data) / CIPHERTEXT_BLOCK_SIZE)
+    blocks = max(math.ceil(len(data) / CIPHERTEXT_BLOCK_SIZE), 1)
 
     decrypted = b""
     for nonce, block in enumerate(_chunk(data, CIPHERTEXT_BLOCK_SIZE)):
-- 
2.43.0


From 84aee4157ffbd5a9a595989e45b3929b330ac919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:45 +0000
Subject: [PATCH 02/13] fix: try the remaining identities after one was
 rejected with ValueError

An SSH identity that does not match a stanza aborted decryption although
another identity or stanza would have matched.
---
 src/age/recipients/helpers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/age/recipients/helpers.py b/src/age/recipients/helpers.py
index 4814876..d67e332 100644
--- a/src/age/recipients/helpers.py
+++ b/src/age/recipients/helpers.py
@@ -31,7 +31,8 @@ def decrypt_file_key(
         for key in _filter_keys_for_recipient(recipient, keys):
             try:
                 return recipient.decrypt(key)
-            except InvalidTag:
+            except (InvalidTag, ValueError):
+                # the SSH recipients raise ValueError for a key they were not made for
                 continue
 
     raise NoIdentity("No matching key")
-- 
2.43.0


From 91c808a0b37ed4364f66c3439e415d3e4430edfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:45 +0000
Subject: [PATCH 03/13] fix: refuse to encrypt if a recipient denotes no key

Such a recipient was dropped silently and could not read the output.
---
 src/age/cli.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/age/cli.py b/src/age/cli.py
index 9337a64..7b6ebd4 100644
--- a/src/age/cli.py
+++ b/src/age/cli.py
@@ -65,7 +65,11 @@ def encrypt(
 
     keys = []
     for recipient in recipients:
-        keys.extend(resolve_public_key(recipient, aliases=aliases))
+        recipient_keys = resolve_public_key(recipient, aliases=aliases)
+        if not recipient_keys:
+            print(f"Could not resolve recipient '{recipient}'.", file=sys.stderr)
+            sys.exit(1)
+        keys.extend(recipient_keys)
 
     if ask_password:
         if recipients:
-- 
2.43.0


From f3b96ae3005ea67fb4294bd45dd7a9d9cbe89824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:45 +0000
Subject: [PATCH 04/13] fix: hash HMAC keys only if they exceed the block size

RFC 2104 hashes keys longer than the block size (64 bytes), not keys longer
than the digest.
---
 src/age/primitives/hmac.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/age/primitives/hmac.py b/src/age/primitives/hmac.py
index 018f6e8..e3ab5df 100644
--- a/src/age/primitives/hmac.py
+++ b/src/age/primitives/hmac.py
@@ -7,7 +7,7 @@ __all__ = ["HMAC"]
 
 
 def _reduce_key(key: bytes) -> bytes:
-    if len(key) > 32:
+    if len(key) > 64:  # block size of SHA-256
         digest = hashes.Hash(hashes.SHA256(), backend=default_backend())
         digest.update(key)
         key = digest.finalize()
-- 
2.43.0


From bbca4ec67c9595466dc86ab4bdadfeaf2abdc721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:45 +0000
Subject: [PATCH 05/13] fix: refuse armor labels with line breaks

The reader cannot read such a label back.
---
 src/age/utils/asciiarmor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/age/utils/asciiarmor.py b/src/age/utils/asciiarmor.py
index 238cd07..22b85cb 100644
--- a/src/age/utils/asciiarmor.py
+++ b/src/age/utils/asciiarmor.py
@@ -14,7 +14,7 @@ def _is_valid_label(label: str) -> bool:
     if label.upper() != label:
         return False
 
-    if "-" in label:
+    if "-" in label or "\n" in label or "\r" in label:
         return False
 
     if label.startswith(" ") or label.endswith(" "):
-- 
2.43.0


From 11e92af6ccdbf4183059af451a576e87a46e8a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:23 +0000
Subject: [PATCH 06/13] fix: authenticate the header as read

The MAC was computed over the parsed header written out again, so changes of
white space, line structure or ignored lines went unnoticed.
---
 src/age/file.py   |  5 ++---
 src/age/format.py | 12 ++++++++++--
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/age/file.py b/src/age/file.py
index 1740986..18edd1a 100644
--- a/src/age/file.py
+++ b/src/age/file.py
@@ -103,9 +103,8 @@ class Decryptor(io.RawIOBase):
                 recipients.append(recipient)
 
         self._file_key = decrypt_file_key(recipients, identities)
-        header_stream = io.BytesIO()
-        dump_header(header, header_stream, mac=None)
-        HMAC(self._hkdf(HEADER_HKDF_LABEL)).verify(header_stream.getvalue(), mac)
+        # the MAC covers the header as it was read, not as it would be written
+        HMAC(self._hkdf(HEADER_HKDF_LABEL)).verify(header.raw, mac)
         # TODO: Should we try another identity if HMAC validation fails?
 
     def _decrypt_body(self):
diff --git a/src/age/format.py b/src/age/format.py
index de9e866..3ac866e 100644
--- a/src/age/format.py
+++ b/src/age/format.py
@@ -25,6 +25,8 @@ class Header:
             recipients = []
 
         self.recipients: typing.List[Recipient] = recipients
+        # bytes covered by the MAC, as they were read by load_header()
+        self.raw: bytes = b""
 
 
 AGE_INTRO = "age-encryption.org/v1"
@@ -34,12 +36,13 @@ AEAD = "ChaChaPoly"
 
 
 def load_header(stream: typing.BinaryIO) -> typing.Tuple[Header, bytes]:
-    first_line = stream.readline().strip()
+    raw_line = stream.readline()
 
-    if first_line.decode("utf-8", "replace") != AGE_INTRO:
+    if raw_line.strip().decode("utf-8", "replace") != AGE_INTRO:
         raise ParserError("File signature not found.")
 
     header = Header()
+    header.raw = raw_line
 
     line = ""
     for raw_line in stream:
@@ -53,9 +56,14 @@ def load_header(stream: typing.BinaryIO) -> typing.Tuple[Header, bytes]:
         elif len(header.recipients) > 0:
             header.recipients[-1].body += line.strip()
 
+        header.raw += raw_line
+
     assert line.startswith(FOOTER_PREFIX)
     prefix, encoded_mac = line.split()
     assert prefix == FOOTER_PREFIX
+    if line.rstrip() != FOOTER_PREFIX + " " + encoded_mac:
+        raise ParserError("Malformed header footer.")
+    header.raw += FOOTER_PREFIX.encode("utf-8")
     mac = decode(encoded_mac)
 
     return header, mac
-- 
2.43.0


From b10e55bd3ac03be09aff93fac70f234ce76765bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:23 +0000
Subject: [PATCH 07/13] fix: reject truncated fields and trailing data in
 OpenSSH keys

Fields running over the end of the file were cut short silently, and only
the first seven bytes after the key were checked to be padding.
---
 src/age/openssh_keys.py | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/age/openssh_keys.py b/src/age/openssh_keys.py
index b382024..8349ba5 100644
--- a/src/age/openssh_keys.py
+++ b/src/age/openssh_keys.py
@@ -33,12 +33,17 @@ def _read_struct(stream: typing.BinaryIO, fmt: str) -> tuple:
     # read struct format from stream
     size = struct.calcsize(fmt)
     buf = stream.read(size)
+    if len(buf) != size:
+        raise InvalidKeyFile("Unexpected end of data")
     return struct.unpack(fmt, buf)
 
 
 def _sshbuf_get_cstring(stream: typing.BinaryIO) -> bytes:
     (length,) = _read_struct(stream, ">I")  # read data in the format: 32-bit length, data[length]
-    return stream.read(length)
+    data = stream.read(length)
+    if len(data) != length:
+        raise InvalidKeyFile("Unexpected end of data")
+    return data
 
 
 def _sshbuf_get_bignum2(stream: typing.BinaryIO) -> int:
@@ -46,6 +51,8 @@ def _sshbuf_get_bignum2(stream: typing.BinaryIO) -> int:
 
     # check
     # https://github.com/openssh/openssh-portable/blob/5a273a33ca1410351cb484af7db7c13e8b4e8e4e/sshbuf-getput-basic.c#L604
+    if not data:
+        raise InvalidKeyFile("Empty bignum")
     if data[0] & 0x80:
         raise ValueError("Negative bignums are not supported")
 
@@ -260,15 +267,11 @@ def load_openssh_private_key(
     # discard key comment
     _sshbuf_get_cstring(decrypted_stream)
 
-    # check deterministic padding: \x01\x02\x03\x04.. up til max. \x07
-    for i in range(1, 8):
-        try:
-            (pad,) = _read_struct(decrypted_stream, "B")
-        except struct.error:
-            # EOF
-            break
-        if pad != i:
-            raise InvalidKeyFile("Broken file padding")
+    # check deterministic padding: \x01\x02\x03\x04.. up to one byte less than a cipher block
+    block_bytes = 8 if ciphername == b"none" else 16
+    padding = decrypted_stream.read()
+    if len(padding) >= block_bytes or padding != bytes(range(1, len(padding) + 1)):
+        raise InvalidKeyFile("Broken file padding")
 
     return key
 
-- 
2.43.0


From 4cd74224e3b37286813622018b06d58ae63b4fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:23 +0000
Subject: [PATCH 08/13] fix: skip SSH key files that cannot be loaded

A passphrase-protected, damaged or unsupported ~/.ssh/id_* file made every
decryption fail, also if it was not needed.
---
 src/age/keyloader.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/age/keyloader.py b/src/age/keyloader.py
index 64ce240..9697a01 100644
--- a/src/age/keyloader.py
+++ b/src/age/keyloader.py
@@ -5,6 +5,7 @@ import re
 import typing
 
 import requests
+from cryptography.exceptions import UnsupportedAlgorithm
 from cryptography.hazmat.backends import default_backend
 from cryptography.hazmat.primitives.asymmetric import ed25519 as crypto_ed25519
 from cryptography.hazmat.primitives.asymmetric import rsa as crypto_rsa
@@ -14,7 +15,7 @@ from age.keys.agekey import AgePrivateKey, AgePublicKey
 from age.keys.base import DecryptionKey, EncryptionKey
 from age.keys.ed25519 import Ed25519PrivateKey, Ed25519PublicKey
 from age.keys.rsa import RSAPrivateKey, RSAPublicKey
-from age.openssh_keys import InvalidKeyFile, load_openssh_private_key
+from age.openssh_keys import load_openssh_private_key
 
 
 def load_keys_txt(filename="~/.config/age/keys.txt") -> typing.List[DecryptionKey]:
@@ -53,8 +54,11 @@ def load_ssh_private_key(filename, password=None) -> typing.Optional[DecryptionK
         try:
             # OpenSSH private keys are special snowflakes
             private_key = load_openssh_private_key(pem_data, passphrase=password)
-        except InvalidKeyFile:
+        except Exception:  # not an OpenSSH key, protected, damaged or unsupported
             return None
+    except (TypeError, UnsupportedAlgorithm):
+        # encrypted, but there is no password, or of an unsupported kind
+        return None
 
     if isinstance(private_key, crypto_rsa.RSAPrivateKey):
         return RSAPrivateKey(private_key)
-- 
2.43.0


From cd8b18a31e89e5222338bce40405c9e19ff94cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:31 +0000
Subject: [PATCH 09/13] fix: refuse armor with excess base64 padding

---
 src/age/utils/asciiarmor.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/age/utils/asciiarmor.py b/src/age/utils/asciiarmor.py
index 22b85cb..c623279 100644
--- a/src/age/utils/asciiarmor.py
+++ b/src/age/utils/asciiarmor.py
@@ -53,7 +53,11 @@ def read_ascii_armored(
                             elif len(buffer_line) < PEM_LINE_LENGTH and i != len(buffer) - 1:
                                 raise ValueError("PEM line too short")
 
-                    data = base64.b64decode("".join(buffer), validate=True)
+                    encoded = "".join(buffer)
+                    data = base64.b64decode(encoded, validate=True)
+                    if base64.b64encode(data).decode("ascii") != encoded:
+                        # b64decode() tolerates excess padding
+                        raise ValueError("malformed base64")
                     yield (in_label, data)
 
                     in_label = None
-- 
2.43.0


From b16aa250ecefc195d903921b963978c62221ac51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:31 +0000
Subject: [PATCH 10/13] fix: do not fetch github: lines found in key files

---
 src/age/keyloader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/age/keyloader.py b/src/age/keyloader.py
index 9697a01..3200953 100644
--- a/src/age/keyloader.py
+++ b/src/age/keyloader.py
@@ -124,7 +124,7 @@ def resolve_public_key(
         return resolved_from_alias
 
     # resolve "github:" links
-    if keystr.startswith("github:"):
+    if read_urls and keystr.startswith("github:"):
         _, _, username = keystr.partition(":")
         github_url = f"https://github.com/{username}.keys"
         return resolve_public_key(github_url)
-- 
2.43.0


From fcaba2981840997bf5fc55c4d7553709b77dd324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:58 +0000
Subject: [PATCH 11/13] fix: load OpenSSH ECDSA keys on NIST P-384

---
 src/age/openssh_keys.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/age/openssh_keys.py b/src/age/openssh_keys.py
index 8349ba5..83d019d 100644
--- a/src/age/openssh_keys.py
+++ b/src/age/openssh_keys.py
@@ -107,6 +107,7 @@ def _deserialize_ecdsa_private_key(stream: typing.BinaryIO) -> ec.EllipticCurveP
 
     curves: typing.Dict[bytes, typing.Type[ec.EllipticCurve]] = {
         b"nistp256": ec.SECP256R1,
+        b"nistp384": ec.SECP384R1,
         b"nistp521": ec.SECP521R1,
         b"nistp224": ec.SECP224R1,
     }
-- 
2.43.0


From 36a984e35dc8c79fc02c9b4ebfd9cf6e84404d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:34 +0000
Subject: [PATCH 12/13] fix: accept a whole block of padding in OpenSSH keys

Other writers than OpenSSH, the cryptography library among them, add a whole
block if the data is already aligned.
---
 src/age/openssh_keys.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/age/openssh_keys.py b/src/age/openssh_keys.py
index 83d019d..f8e1ab5 100644
--- a/src/age/openssh_keys.py
+++ b/src/age/openssh_keys.py
@@ -268,10 +268,10 @@ def load_openssh_private_key(
     # discard key comment
     _sshbuf_get_cstring(decrypted_stream)
 
-    # check deterministic padding: \x01\x02\x03\x04.. up to one byte less than a cipher block
+    # check deterministic padding: \x01\x02\x03\x04.. up to one cipher block (some writers fill a whole one)
     block_bytes = 8 if ciphername == b"none" else 16
     padding = decrypted_stream.read()
-    if len(padding) >= block_bytes or padding != bytes(range(1, len(padding) + 1)):
+    if len(padding) > block_bytes or padding != bytes(range(1, len(padding) + 1)):
         raise InvalidKeyFile("Broken file padding")
 
     return key
-- 
2.43.0


From c459a80b389070d6aab9400aae3d4f5bc748f344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:32 +0000
Subject: [PATCH 13/13] fix: encrypt reads its input before it writes any
 output

With the same file as input and output the header written first emptied the
input, and the command reported success for an encryption of nothing.
---
 src/age/cli.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/age/cli.py b/src/age/cli.py
index 7b6ebd4..6a12754 100644
--- a/src/age/cli.py
+++ b/src/age/cli.py
@@ -86,12 +86,15 @@ def encrypt(
         print("You must specify at least one recipient.", file=sys.stderr)
         sys.exit(1)
 
+    # read everything before the first write, infile and outfile can be the same file
+    plaintext = infile.read()
+
     if ascii_armored:
         # ignoring mypy error because RawIOBase satisfies BinaryIO (doesn't it?)
         outfile = AsciiArmoredOutput(AGE_PEM_LABEL, outfile)  # type: ignore
 
     with Encryptor(keys, outfile) as encryptor:
-        encryptor.write(infile.read())
+        encryptor.write(plaintext)
 
 
 def decrypt(
-- 
2.43.0

