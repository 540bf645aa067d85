From 1974eda31e6b6f482d096b73039878d6da5e5ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:04 +0000
Subject: [PATCH 01/25] fix: encode request frame addresses little-endian like
 they are decoded

---
 elgas/frames.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elgas/frames.py b/elgas/frames.py
index f05abdd..3664b64 100644
--- a/elgas/frames.py
+++ b/elgas/frames.py
@@ -33,9 +33,9 @@ class Request:
         out.append(self.TYPE)
         out.append(self.service)
         out.extend(self.length.to_bytes(2, "little"))
-        out.extend(self.destination_address_1.to_bytes(2, "big"))
+        out.extend(self.destination_address_1.to_bytes(2, "little"))
         out.append(self.destination_address_2)
-        out.extend(self.source_address_1.to_bytes(2, "big"))
+        out.extend(self.source_address_1.to_bytes(2, "little"))
         out.append(self.source_address_2)
         out.extend(self.data)
         redundancy_source = out[1:]
-- 
2.43.0


From e4a8ae346564d988deec75323b2347a17f1d5709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:04 +0000
Subject: [PATCH 02/25] fix: reject frames shorter than header, redundancy and
 end char

---
 elgas/frames.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/elgas/frames.py b/elgas/frames.py
index 3664b64..8119b38 100644
--- a/elgas/frames.py
+++ b/elgas/frames.py
@@ -54,6 +54,8 @@ class Request:
             raise ValueError("Data does not end with end char")
         service = constants.ServiceNumber(int.from_bytes(in_bytes[3:4], "little"))
         length = int.from_bytes(in_bytes[4:6], "little")
+        if length < 15:
+            raise ValueError(f"Length {length} is too short for a frame")
         if length != len(in_bytes) - 1:  # STX is not counted
             raise ValueError(
                 f"Length field does not correspond to length of data. Got {len(in_bytes)-1}, should be {length} "
@@ -136,6 +138,8 @@ class Response:
             raise ValueError("Data does not end with end char")
         service = constants.ServiceNumber(int.from_bytes(in_bytes[3:4], "little"))
         length = int.from_bytes(in_bytes[4:6], "little")
+        if length < 15:
+            raise ValueError(f"Length {length} is too short for a frame")
         if length != len(in_bytes) - 1:  # STX is not counted
             raise ValueError(
                 f"Length field does not correspond to length of data. Got {len(in_bytes)-1}, should be {length} "
-- 
2.43.0


From 5f1f910be1487ee77d3aa5fba3468363bf4ce81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:05 +0000
Subject: [PATCH 03/25] fix: raise ValueError for encrypted data that is not a
 valid envelope

---
 elgas/security.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/elgas/security.py b/elgas/security.py
index b57110e..fef2de6 100644
--- a/elgas/security.py
+++ b/elgas/security.py
@@ -69,11 +69,16 @@ class CipherContext:
         return header + cipher_text
 
     def decrypt(self, in_data: bytes):
+        if len(in_data) < 3:
+            raise ValueError("Encrypted data is too short")
         header = in_data[:3]
         encrypted = in_data[3:]
         original_length = int.from_bytes(header[:2], "little")
         key_id = header[2]
-        assert key_id == self.key_id
+        if key_id != self.key_id:
+            raise ValueError(
+                f"Encrypted with key id {key_id}, should be {self.key_id}"
+            )
         decrypted_data = decrypt(encrypted, self.key, self.key)
         crc = decrypted_data[-2:]
         for_crc = bytearray()
@@ -86,6 +91,10 @@ class CipherContext:
             raise ValueError(
                 f"Incorrect CRC in encrypted data. Got {crc} should be {correct_crc} "
             )
+        if original_length > len(decrypted_data) - 2:
+            raise ValueError(
+                f"Encrypted data is shorter than its length field {original_length}"
+            )
         original_data = decrypted_data[:original_length]
         return original_data
 
-- 
2.43.0


From 44b428c6ccfbd4c4aa975a378cce282385d1acd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:06 +0000
Subject: [PATCH 04/25] fix: discard data that cannot be interpreted as a frame
 instead of keeping it forever

---
 elgas/connection.py | 60 ++++++++++++++++++++++++---------------------
 1 file changed, 32 insertions(+), 28 deletions(-)

diff --git a/elgas/connection.py b/elgas/connection.py
index 3dffd59..fffb2c5 100644
--- a/elgas/connection.py
+++ b/elgas/connection.py
@@ -159,34 +159,38 @@ class ElgasConnection:
 
     def next_event(self) -> bytes:
 
-        if not self.buffer:
-            LOG.debug("Buffer empty. Need more data")
-            return state.NEED_DATA
-
-        # do we have an end char?
-        try:
-            end_char_index = self.buffer.index(b"\x0d") + 1
-        except ValueError:
-            # No end char in buffer and we need more data.
-            LOG.debug("No end char in data. Need more data")
-            return state.NEED_DATA
-
-        data = self.buffer[:end_char_index]
-        try:
-            response = frames.ResponseFactory.from_bytes(utils.return_characters(data))
-
-            LOG.debug("Received ELGAS response", response=response)
-
-            if isinstance(response, frames.EncryptedResponse):
-                response.data = self.cipher_context.decrypt(response.data)
-                LOG.debug("Decrypted ELGAS response", decrypted=response)
-
-            if len(response.data) == 1:
-                raise_error(response.data)
-
-        except ValueError:
-            LOG.debug("Cannot interpret data as frame. Need more data")
-            return state.NEED_DATA
+        while True:
+            if not self.buffer:
+                LOG.debug("Buffer empty. Need more data")
+                return state.NEED_DATA
+
+            # do we have an end char?
+            try:
+                end_char_index = self.buffer.index(b"\x0d") + 1
+            except ValueError:
+                # No end char in buffer and we need more data.
+                LOG.debug("No end char in data. Need more data")
+                return state.NEED_DATA
+
+            data = self.buffer[:end_char_index]
+            self.buffer = self.buffer[end_char_index:]
+            try:
+                response = frames.ResponseFactory.from_bytes(utils.return_characters(data))
+
+                LOG.debug("Received ELGAS response", response=response)
+
+                if isinstance(response, frames.EncryptedResponse):
+                    response.data = self.cipher_context.decrypt(response.data)
+                    LOG.debug("Decrypted ELGAS response", decrypted=response)
+
+                if len(response.data) == 1:
+                    raise_error(response.data)
+
+            except ValueError:
+                LOG.debug("Cannot interpret data as frame. Discarding it")
+                continue
+
+            break
 
         pdu = ResponsePduFactory.from_response(response)
         LOG.info("Received PDU", pdu=pdu)
-- 
2.43.0


From 86d268c461bd0f844a3c53d18fb14fdc1962c425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:07 +0000
Subject: [PATCH 05/25] fix: let error responses end the request they answer

---
 elgas/connection.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/elgas/connection.py b/elgas/connection.py
index fffb2c5..ff5e9e2 100644
--- a/elgas/connection.py
+++ b/elgas/connection.py
@@ -183,15 +183,18 @@ class ElgasConnection:
                     response.data = self.cipher_context.decrypt(response.data)
                     LOG.debug("Decrypted ELGAS response", decrypted=response)
 
-                if len(response.data) == 1:
-                    raise_error(response.data)
-
             except ValueError:
                 LOG.debug("Cannot interpret data as frame. Discarding it")
                 continue
 
             break
 
+        if len(response.data) == 1 and response.data != b"\x00":
+            # The request has been answered, with an error.
+            self.elgas_state.current_state = state.IDLE
+            self.buffer = bytearray()
+            raise_error(response.data)
+
         pdu = ResponsePduFactory.from_response(response)
         LOG.info("Received PDU", pdu=pdu)
         self.elgas_state.process_event(pdu)
-- 
2.43.0


From d1db6e82b4f38577d64e24020fd9b0cf940da545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:08 +0000
Subject: [PATCH 06/25] fix: raise an exception for error responses with
 several error bits set

---
 elgas/connection.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/elgas/connection.py b/elgas/connection.py
index ff5e9e2..5656cfc 100644
--- a/elgas/connection.py
+++ b/elgas/connection.py
@@ -47,21 +47,21 @@ def create_cipher_context(
 
 def raise_error(data: bytes):
     error = data[0]
-    if error == 0b00000001:
+    if error & 0b00000001:
         raise exceptions.WrongPasswordError()
-    elif error == 0b00000010:
+    elif error & 0b00000010:
         raise exceptions.SettingArchiveFull()
-    elif error == 0b00000100:
+    elif error & 0b00000100:
         raise exceptions.SwitchOff()
-    elif error == 0b00001000:
+    elif error & 0b00001000:
         raise exceptions.BlockedBuffer()
-    elif error == 0b00010000:
+    elif error & 0b00010000:
         raise exceptions.DataError()
-    elif error == 0b00100000:
+    elif error & 0b00100000:
         raise exceptions.CipherKeyError()
-    elif error == 0b01000000:
+    elif error & 0b01000000:
         raise exceptions.WrongEncryptionKeysError()
-    elif error == 0b10000000:
+    elif error & 0b10000000:
         raise exceptions.WriteError()
 
 
-- 
2.43.0


From 6168d69372b88d5f07fb444d1e0a483ceb6b9538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:09 +0000
Subject: [PATCH 07/25] fix: protocol error instead of AttributeError for
 encrypted response without key

---
 elgas/connection.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/elgas/connection.py b/elgas/connection.py
index 5656cfc..f5dd322 100644
--- a/elgas/connection.py
+++ b/elgas/connection.py
@@ -180,6 +180,10 @@ class ElgasConnection:
                 LOG.debug("Received ELGAS response", response=response)
 
                 if isinstance(response, frames.EncryptedResponse):
+                    if self.cipher_context is None:
+                        raise exceptions.LocalElgasProtocolError(
+                            "Received an encrypted response without an encryption key"
+                        )
                     response.data = self.cipher_context.decrypt(response.data)
                     LOG.debug("Decrypted ELGAS response", decrypted=response)
 
-- 
2.43.0


From 5ea2263f151e0f89ee88585660be93724f252a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:10 +0000
Subject: [PATCH 08/25] fix: protocol error instead of KeyError for a response
 of an unsupported service

---
 elgas/connection.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/elgas/connection.py b/elgas/connection.py
index f5dd322..cffc1e7 100644
--- a/elgas/connection.py
+++ b/elgas/connection.py
@@ -27,7 +27,12 @@ class ResponsePduFactory:
 
     @staticmethod
     def from_response(response: frames.Response):
-        klass = ResponsePduFactory.service_map[response.service]
+        try:
+            klass = ResponsePduFactory.service_map[response.service]
+        except KeyError:
+            raise exceptions.LocalElgasProtocolError(
+                f"Can't handle response with service {response.service!r}"
+            )
         return klass.from_bytes(response.data)
 
 
-- 
2.43.0


From f083d1daafa78f6cd06347227ac0a0e6ff9e4776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:10 +0000
Subject: [PATCH 09/25] fix: do not wait for a response to a request that could
 not be encoded

---
 elgas/connection.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/elgas/connection.py b/elgas/connection.py
index cffc1e7..35386d0 100644
--- a/elgas/connection.py
+++ b/elgas/connection.py
@@ -113,7 +113,16 @@ class ElgasConnection:
     def send(self, event) -> bytes:
 
         LOG.debug("Sending request PDU", pdu=event)
+        previous_state = self.elgas_state.current_state
         self.elgas_state.process_event(event)
+        try:
+            return self._to_wire(event)
+        except Exception:
+            # Nothing will be sent so there will be no response to wait for.
+            self.elgas_state.current_state = previous_state
+            raise
+
+    def _to_wire(self, event) -> bytes:
         application_data = event.to_bytes()
 
         if self.cipher_context:
-- 
2.43.0


From dee15d4e3d8c99e59e3c2a3d241e5bb817b56b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:11 +0000
Subject: [PATCH 10/25] fix: refuse an encryption key without key id instead of
 sending in plaintext

---
 elgas/connection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/elgas/connection.py b/elgas/connection.py
index 35386d0..b334445 100644
--- a/elgas/connection.py
+++ b/elgas/connection.py
@@ -42,6 +42,8 @@ def create_cipher_context(
     """
     If both encryption key and encryption key id is set then return a cipher context
     """
+    if connection.encryption_key is not None and connection.encryption_key_id is None:
+        raise ValueError("An encryption key needs an encryption key id")
     if connection.encryption_key is None or connection.encryption_key_id is None:
         return None
     else:
@@ -102,7 +104,6 @@ class ElgasConnection:
 
     encryption_key: Optional[bytes] = attr.ib(default=None)
     encryption_key_id: Optional[security.EncryptionKeyId] = attr.ib(default=None)
-    # TODO: Validate that there is an encryption key id if there is an encryption key.
 
     buffer: bytearray = attr.ib(init=False, factory=bytearray)
     elgas_state: state.ElgasState = attr.ib(factory=state.ElgasState)
-- 
2.43.0


From 3012e16b1ca9525fcc687c967a38c34cef5747c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:12 +0000
Subject: [PATCH 11/25] fix: refuse to encode times outside the years the
 device format can hold

---
 elgas/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/elgas/utils.py b/elgas/utils.py
index 7845e6b..f9ac04d 100644
--- a/elgas/utils.py
+++ b/elgas/utils.py
@@ -212,6 +212,8 @@ def datetime_to_bytes(timestamp: datetime) -> bytes:
     """
     Packs a datetime into a BCD encoded format
     """
+    if not 2000 <= timestamp.year <= 2099:
+        raise ValueError(f"Year {timestamp.year} can't be encoded, only 2000-2099")
     out = bytearray()
     out.extend(to_bdc(timestamp.second))
     out.extend(to_bdc(timestamp.minute))
-- 
2.43.0


From febeb15b0f6fda7ed469e29ae7f602360bf03c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:13 +0000
Subject: [PATCH 12/25] fix: refuse passwords that would shift the rest of the
 request

---
 elgas/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/elgas/utils.py b/elgas/utils.py
index f9ac04d..0eada11 100644
--- a/elgas/utils.py
+++ b/elgas/utils.py
@@ -173,6 +173,8 @@ def pad_password(password: str):
     Passwords are 6 characters long. But are sent as 10 characters where the last
     4 characters are insignificant.
     """
+    if len(password) != 6:
+        raise ValueError("Password should be 6 characters")
     possible_chars = "abcdefghijklmnopqrstuvxyzABCDEFGHIJKLMNOPQRSTUVXYZ0123456789"
     two_random = random.choices(possible_chars, k=2)
     # return password + "".join(four_random)
-- 
2.43.0


From 5654883ee3ae8f3a1cbbd478c7a3ae76eb281f2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:14 +0000
Subject: [PATCH 13/25] fix: read all four bytes of the oldest record id in
 archive responses

---
 elgas/application.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elgas/application.py b/elgas/application.py
index 6c84247..d10f0cf 100644
--- a/elgas/application.py
+++ b/elgas/application.py
@@ -253,7 +253,7 @@ class ReadArchiveByTimeResponse:
     @classmethod
     def from_bytes(cls, in_bytes: bytes):
         archive = constants.Archive(in_bytes[0])
-        oldest_record_id = int.from_bytes(in_bytes[1:4], "little")
+        oldest_record_id = int.from_bytes(in_bytes[1:5], "little")
         data = in_bytes[5:]
         return cls(
             archive=archive,
@@ -296,7 +296,7 @@ class ReadArchiveResponse:
     @classmethod
     def from_bytes(cls, in_bytes: bytes):
         archive = constants.Archive(in_bytes[0])
-        oldest_record_id = int.from_bytes(in_bytes[1:4], "little")
+        oldest_record_id = int.from_bytes(in_bytes[1:5], "little")
         data = in_bytes[5:]
         return cls(
             archive=archive,
-- 
2.43.0


From 9734cc39749c2e9484a8403947811c7c568d25fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:14 +0000
Subject: [PATCH 14/25] fix: service number of the write time response

---
 elgas/application.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elgas/application.py b/elgas/application.py
index d10f0cf..57c993c 100644
--- a/elgas/application.py
+++ b/elgas/application.py
@@ -160,7 +160,7 @@ class WriteTimeResponse:
 
     service: ClassVar[
         constants.ServiceNumber
-    ] = constants.ServiceNumber.READ_DEVICE_TIME
+    ] = constants.ServiceNumber.WRITE_DEVICE_TIME
 
     @classmethod
     def from_bytes(cls, in_bytes: bytes):
-- 
2.43.0


From fb7ff23dc877aa4dfe77ee76a070177a951cad5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:41 +0000
Subject: [PATCH 15/25] fix: fail instead of looping forever when no more data
 can be received

---
 elgas/transport.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/elgas/transport.py b/elgas/transport.py
index 3c76404..9c3f1dc 100644
--- a/elgas/transport.py
+++ b/elgas/transport.py
@@ -147,7 +147,10 @@ class BlockingTcpTransport:
 
         data = b""
         while len(data) < amount:
-            data += self.tcp_socket.recv(amount - len(data))
+            received = self.tcp_socket.recv(amount - len(data))
+            if not received:
+                raise ConnectionError("Connection was closed by peer")
+            data += received
 
         return data
 
@@ -250,7 +253,10 @@ class SerialTransport:
 
         data = b""
         while len(data) < amount:
-            data += self.serial_port.read(amount - len(data))
+            received = self.serial_port.read(amount - len(data))
+            if not received:
+                raise serial.SerialTimeoutException("No data received within timeout")
+            data += received
 
         return data
 
-- 
2.43.0


From a51916de6bfaecd5c3f53f72e8590d5d8d7f0cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:42 +0000
Subject: [PATCH 16/25] fix: start a clean session when the client connects

---
 elgas/client.py     | 1 +
 elgas/connection.py | 7 +++++++
 2 files changed, 8 insertions(+)

diff --git a/elgas/client.py b/elgas/client.py
index 5db6480..de5d896 100644
--- a/elgas/client.py
+++ b/elgas/client.py
@@ -39,6 +39,7 @@ class ElgasClient:
 
     def connect(self):
         self.transport.connect()
+        self.elgas_connection.reset()
 
     def disconnect(self):
         self.transport.disconnect()
diff --git a/elgas/connection.py b/elgas/connection.py
index b334445..6c49c6d 100644
--- a/elgas/connection.py
+++ b/elgas/connection.py
@@ -111,6 +111,13 @@ class ElgasConnection:
         default=attr.Factory(lambda self: create_cipher_context(self), takes_self=True)
     )
 
+    def reset(self):
+        """
+        Forget received data and outstanding request, to be used on a new link.
+        """
+        self.buffer = bytearray()
+        self.elgas_state.current_state = state.IDLE
+
     def send(self, event) -> bytes:
 
         LOG.debug("Sending request PDU", pdu=event)
-- 
2.43.0


From f4f7afcad5e01c9b2d8c9b8a8a9b3ab6c6188f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:43 +0000
Subject: [PATCH 17/25] fix: do not request the same parameters forever when
 the device sends none

---
 elgas/client.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/elgas/client.py b/elgas/client.py
index de5d896..20abc8f 100644
--- a/elgas/client.py
+++ b/elgas/client.py
@@ -4,7 +4,16 @@ from typing import *
 import attr
 import structlog
 
-from elgas import application, connection, constants, parser, state, transport, utils
+from elgas import (
+    application,
+    connection,
+    constants,
+    exceptions,
+    parser,
+    state,
+    transport,
+    utils,
+)
 
 LOG = structlog.get_logger("client")
 
@@ -100,6 +109,10 @@ class ElgasClient:
             total_parameter_data += response.data
             should_stop = response.is_end
             object_count += response.object_amount
+            if not should_stop and not response.object_amount:
+                raise exceptions.LocalElgasProtocolError(
+                    "Device has more parameters but did not send any"
+                )
             if not should_stop:
                 LOG.info("More parameters available", next_object_count=object_count)
 
-- 
2.43.0


From 44dd24a431cb3aa640f5890dea376e22db2c1ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:44 +0000
Subject: [PATCH 18/25] fix: reject parameter data that ends inside an object

---
 elgas/parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/elgas/parser.py b/elgas/parser.py
index 2c23eb5..f0551e2 100644
--- a/elgas/parser.py
+++ b/elgas/parser.py
@@ -34,6 +34,8 @@ class ScadaParameterParser:
             object_type = elgas.parameters.enumerations.ParameterObjectType(
                 working_data.pop(0)
             )
+            if length < 3 or length - 3 > len(working_data):
+                raise ValueError(f"Not enough data for an object of length {length}")
             data = working_data[: length - 3]
             object_list.append(
                 elgas.parameters.factory.ParameterFactory.from_bytes(object_type, data)
-- 
2.43.0


From ed0c2ff2c3776e7dd221e22f545ca7b232de7344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:45 +0000
Subject: [PATCH 19/25] fix: make DifferenceBaseCounter decodable

---
 elgas/parameters/difference_counter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elgas/parameters/difference_counter.py b/elgas/parameters/difference_counter.py
index 3938125..df46928 100644
--- a/elgas/parameters/difference_counter.py
+++ b/elgas/parameters/difference_counter.py
@@ -83,7 +83,7 @@ class DifferenceCounter:
         )
 
 
-class DifferenceBaseCounter:
+class DifferenceBaseCounter(DifferenceCounter):
     object_type: ClassVar[
         ParameterObjectType
     ] = ParameterObjectType.DIFFERENCE_BASE_COUNTER
-- 
2.43.0


From c80928ea83494173653dc54b411b26c4c8c5644f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:46 +0000
Subject: [PATCH 20/25] fix: register the correction counter in the parameter
 factories

---
 elgas/parameters/factory.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/elgas/parameters/factory.py b/elgas/parameters/factory.py
index 6a86d73..6f456cf 100644
--- a/elgas/parameters/factory.py
+++ b/elgas/parameters/factory.py
@@ -33,6 +33,8 @@ from elgas.parameters.difference_counter import (
 from elgas.parameters.energy import Energy, EnergySchema, ErrorEnergy, ErrorEnergySchema
 from elgas.parameters.enumerations import ParameterObjectType
 from elgas.parameters.error_counter import (
+    CorrectionCounter,
+    CorrectionCounterSchema,
     DoubleErrorCounter,
     DoubleErrorCounterSchema,
     ErrorCounter,
@@ -95,6 +97,7 @@ class ParameterFactory:
         ParameterObjectType.ERROR_STANDARD_COUNTER: ErrorStandardCounter,
         ParameterObjectType.COMPRESSIBILITY: Compressibility,
         ParameterObjectType.TIME_WINDOW: TimeWindow,
+        ParameterObjectType.CORRECTION_COUNTER: CorrectionCounter,
         ParameterObjectType.DOUBLE_COUNTER: DoubleCounter,
         ParameterObjectType.DOUBLE_ERROR_COUNTER: DoubleErrorCounter,
         ParameterObjectType.DIAGNOSTICS: Diagnostics,
@@ -142,6 +145,7 @@ class ParameterSchemaFactory:
         ParameterObjectType.ERROR_STANDARD_COUNTER: ErrorStandardCounterSchema,
         ParameterObjectType.COMPRESSIBILITY: CompressibilitySchema,
         ParameterObjectType.TIME_WINDOW: TimeWindowSchema,
+        ParameterObjectType.CORRECTION_COUNTER: CorrectionCounterSchema,
         ParameterObjectType.DOUBLE_COUNTER: DoubleCounterSchema,
         ParameterObjectType.DOUBLE_ERROR_COUNTER: DoubleErrorCounterSchema,
         ParameterObjectType.DIAGNOSTICS: DiagnosticsSchema,
-- 
2.43.0


From 814c8e49d2ee9ce62278e9f94f863bcacdd01c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:47 +0000
Subject: [PATCH 21/25] fix: make DeviceError and SumOfAlarms decodable

---
 elgas/parameters/device_error.py  | 21 +++++++++++++++------
 elgas/parameters/sum_of_alarms.py | 21 +++++++++++++++------
 2 files changed, 30 insertions(+), 12 deletions(-)

diff --git a/elgas/parameters/device_error.py b/elgas/parameters/device_error.py
index 19343ff..64be188 100644
--- a/elgas/parameters/device_error.py
+++ b/elgas/parameters/device_error.py
@@ -22,9 +22,9 @@ class DeviceError:
     in_binary_archive: bool
     in_data_archive: bool
     name: str
-    error_bit_order_in_actual_values: int
-    error_bit_order_in_binary_archive_record: int  # TODO: Are these switch . Seems weird to have them in reverse order further down in the structure.
-    error_bit_order_in_data_archive_record: int
+    error_bit_order_in_actual_values: Optional[int]
+    error_bit_order_in_binary_archive_record: Optional[int]  # TODO: Are these switch . Seems weird to have them in reverse order further down in the structure.
+    error_bit_order_in_data_archive_record: Optional[int]
     action_during_change: Optional[int]
     text_log_0: Optional[str]
     text_log_1: Optional[str]
@@ -63,6 +63,9 @@ class DeviceError:
             in_binary_archive=in_binary_archive,
             in_data_archive=in_data_archive,
             name=name,
+            error_bit_order_in_actual_values=None,
+            error_bit_order_in_binary_archive_record=None,
+            error_bit_order_in_data_archive_record=None,
             action_during_change=action_during_change,
             text_log_0=text_log_0,
             text_log_1=text_log_1,
@@ -81,9 +84,15 @@ class DeviceErrorSchema(marshmallow.Schema):
     in_binary_archive = marshmallow.fields.Boolean(required=True)
     in_data_archive = marshmallow.fields.Boolean(required=True)
     name = marshmallow.fields.String(required=True)
-    error_bit_order_in_actual_values = marshmallow.fields.Integer(required=True)
-    error_bit_order_in_binary_archive_record = marshmallow.fields.Integer(required=True)
-    error_bit_order_in_data_archive_record = marshmallow.fields.Integer(required=True)
+    error_bit_order_in_actual_values = marshmallow.fields.Integer(
+        required=True, allow_none=True
+    )
+    error_bit_order_in_binary_archive_record = marshmallow.fields.Integer(
+        required=True, allow_none=True
+    )
+    error_bit_order_in_data_archive_record = marshmallow.fields.Integer(
+        required=True, allow_none=True
+    )
     action_during_change = marshmallow.fields.Integer(required=True, allow_none=True)
     text_log_0 = marshmallow.fields.Integer(required=True, allow_none=True)
     text_log_1 = marshmallow.fields.Integer(required=True, allow_none=True)
diff --git a/elgas/parameters/sum_of_alarms.py b/elgas/parameters/sum_of_alarms.py
index 4d4a1cc..7c67109 100644
--- a/elgas/parameters/sum_of_alarms.py
+++ b/elgas/parameters/sum_of_alarms.py
@@ -22,9 +22,9 @@ class SumOfAlarms:
     in_binary_archive: bool
     in_data_archive: bool
     name: str
-    error_bit_order_in_actual_values: int
-    error_bit_order_in_binary_archive_record: int  # TODO: Are these switch . Seems weird to have them in reverse order further down in the structure.
-    error_bit_order_in_data_archive_record: int
+    error_bit_order_in_actual_values: Optional[int]
+    error_bit_order_in_binary_archive_record: Optional[int]  # TODO: Are these switch . Seems weird to have them in reverse order further down in the structure.
+    error_bit_order_in_data_archive_record: Optional[int]
     action_during_change: Optional[int]
     text_log_0: Optional[str]
     text_log_1: Optional[str]
@@ -63,6 +63,9 @@ class SumOfAlarms:
             in_binary_archive=in_binary_archive,
             in_data_archive=in_data_archive,
             name=name,
+            error_bit_order_in_actual_values=None,
+            error_bit_order_in_binary_archive_record=None,
+            error_bit_order_in_data_archive_record=None,
             action_during_change=action_during_change,
             text_log_0=text_log_0,
             text_log_1=text_log_1,
@@ -80,9 +83,15 @@ class SumOfAlarmsSchema(marshmallow.Schema):
     in_binary_archive = marshmallow.fields.Boolean(required=True)
     in_data_archive = marshmallow.fields.Boolean(required=True)
     name = marshmallow.fields.String(required=True)
-    error_bit_order_in_actual_values = marshmallow.fields.Integer(required=True)
-    error_bit_order_in_binary_archive_record = marshmallow.fields.Integer(required=True)
-    error_bit_order_in_data_archive_record = marshmallow.fields.Integer(required=True)
+    error_bit_order_in_actual_values = marshmallow.fields.Integer(
+        required=True, allow_none=True
+    )
+    error_bit_order_in_binary_archive_record = marshmallow.fields.Integer(
+        required=True, allow_none=True
+    )
+    error_bit_order_in_data_archive_record = marshmallow.fields.Integer(
+        required=True, allow_none=True
+    )
     action_during_change = marshmallow.fields.Integer(required=True, allow_none=True)
     text_log_0 = marshmallow.fields.String(required=True, allow_none=True)
     text_log_1 = marshmallow.fields.String(required=True, allow_none=True)
-- 
2.43.0


From 74f342ee4578b207febf011d94f0cc0d2391505b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:48 +0000
Subject: [PATCH 22/25] fix: log texts are strings in the DeviceError schema

---
 elgas/parameters/device_error.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elgas/parameters/device_error.py b/elgas/parameters/device_error.py
index 64be188..f557bfe 100644
--- a/elgas/parameters/device_error.py
+++ b/elgas/parameters/device_error.py
@@ -94,8 +94,8 @@ class DeviceErrorSchema(marshmallow.Schema):
         required=True, allow_none=True
     )
     action_during_change = marshmallow.fields.Integer(required=True, allow_none=True)
-    text_log_0 = marshmallow.fields.Integer(required=True, allow_none=True)
-    text_log_1 = marshmallow.fields.Integer(required=True, allow_none=True)
+    text_log_0 = marshmallow.fields.String(required=True, allow_none=True)
+    text_log_1 = marshmallow.fields.String(required=True, allow_none=True)
 
     @post_load
     def make_object(self, data, **kwargs):
-- 
2.43.0


From 562b7a54890c2115f3cfa41248f50ec8d1bc01b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:49 +0000
Subject: [PATCH 23/25] fix: load set points, error standard counters and
 modems as objects

---
 elgas/parameters/error_standard_counter.py | 5 +++++
 elgas/parameters/modem.py                  | 5 +++++
 elgas/parameters/setpoint.py               | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/elgas/parameters/error_standard_counter.py b/elgas/parameters/error_standard_counter.py
index 3609bbb..72a1df4 100644
--- a/elgas/parameters/error_standard_counter.py
+++ b/elgas/parameters/error_standard_counter.py
@@ -2,6 +2,7 @@ from typing import ClassVar, Optional
 
 import attr
 import marshmallow
+from marshmallow import post_load
 
 from elgas.parameters.enumerations import ParameterObjectType
 from elgas.utils import pop_many, pretty_text
@@ -98,3 +99,7 @@ class ErrorStandardCounterSchema(marshmallow.Schema):
     address_in_monthly_archive_record = marshmallow.fields.Integer(required=True)
     address_in_billing_archive_record = marshmallow.fields.Integer(required=True)
     decimals = marshmallow.fields.Integer(required=True, allow_none=True)
+
+    @post_load
+    def make_object(self, data, **kwargs):
+        return ErrorStandardCounter(**data)
diff --git a/elgas/parameters/modem.py b/elgas/parameters/modem.py
index ad12bb3..aa3041e 100644
--- a/elgas/parameters/modem.py
+++ b/elgas/parameters/modem.py
@@ -2,6 +2,7 @@ from typing import ClassVar, Optional
 
 import attr
 import marshmallow
+from marshmallow import post_load
 
 from elgas.parameters.enumerations import ParameterObjectType
 from elgas.utils import parse_ip_address, pop_many, pretty_text
@@ -116,3 +117,7 @@ class ModemSchema(marshmallow.Schema):
     transition_into_command_mode = marshmallow.fields.String(required=True)
     pin = marshmallow.fields.String(required=True)
     owner_sim_number = marshmallow.fields.String(required=True, allow_none=True)
+
+    @post_load
+    def make_object(self, data, **kwargs):
+        return Modem(**data)
diff --git a/elgas/parameters/setpoint.py b/elgas/parameters/setpoint.py
index 3bf8454..cce3f0a 100644
--- a/elgas/parameters/setpoint.py
+++ b/elgas/parameters/setpoint.py
@@ -3,6 +3,7 @@ from typing import ClassVar, Optional
 
 import attr
 import marshmallow
+from marshmallow import post_load
 
 from elgas.parameters.enumerations import ParameterObjectType
 from elgas.utils import pop_many, pretty_text
@@ -97,3 +98,7 @@ class SetPointSchema(marshmallow.Schema):
     action_during_change = marshmallow.fields.Integer(required=True, allow_none=True)
     text_log_0 = marshmallow.fields.String(required=True, allow_none=True)
     text_log_1 = marshmallow.fields.String(required=True, allow_none=True)
+
+    @post_load
+    def make_object(self, data, **kwargs):
+        return SetPoint(**data)
-- 
2.43.0


From f8e13cbc32f1a894dd8f6a13e3b90eb188774580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:03 +0000
Subject: [PATCH 24/25] fix: allow flow rates without decimals in the FlowRate
 schema

---
 elgas/parameters/flow_rate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elgas/parameters/flow_rate.py b/elgas/parameters/flow_rate.py
index c227a4a..503e19f 100644
--- a/elgas/parameters/flow_rate.py
+++ b/elgas/parameters/flow_rate.py
@@ -98,7 +98,7 @@ class FlowRateSchema(marshmallow.Schema):
     error_bit_order_in_data_archive = marshmallow.fields.Integer(required=True)
     address_in_daily_archive_record = marshmallow.fields.Integer(required=True)
     address_in_monthly_archive_record = marshmallow.fields.Integer(required=True)
-    decimals = marshmallow.fields.Integer(required=True)
+    decimals = marshmallow.fields.Integer(required=True, allow_none=True)
 
     @post_load
     def make_object(self, data, **kwargs):
-- 
2.43.0


From ac2d065747d6fea03453a0d570df4f457a0ae5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:50 +0000
Subject: [PATCH 25/25] fix: reject archive responses that end inside the
 record id

---
 elgas/application.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/elgas/application.py b/elgas/application.py
index 57c993c..b2cf325 100644
--- a/elgas/application.py
+++ b/elgas/application.py
@@ -252,6 +252,8 @@ class ReadArchiveByTimeResponse:
 
     @classmethod
     def from_bytes(cls, in_bytes: bytes):
+        if len(in_bytes) < 5:
+            raise ValueError("Archive response is too short")
         archive = constants.Archive(in_bytes[0])
         oldest_record_id = int.from_bytes(in_bytes[1:5], "little")
         data = in_bytes[5:]
@@ -295,6 +297,8 @@ class ReadArchiveResponse:
 
     @classmethod
     def from_bytes(cls, in_bytes: bytes):
+        if len(in_bytes) < 5:
+            raise ValueError("Archive response is too short")
         archive = constants.Archive(in_bytes[0])
         oldest_record_id = int.from_bytes(in_bytes[1:5], "little")
         data = in_bytes[5:]
-- 
2.43.0

