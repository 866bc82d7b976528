From 696d4f32042b89c6a1c78fdf47315b7fbcb0c37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:21 +0000
Subject: [PATCH 001/139] fix: Frame.try_from discards a frame whose body ends
 inside its address or control field instead of raising IndexError

---
 src/DLMS_SPODES/hdlc/frame.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/hdlc/frame.py b/src/DLMS_SPODES/hdlc/frame.py
index aa5e1a2..93020b7 100644
--- a/src/DLMS_SPODES/hdlc/frame.py
+++ b/src/DLMS_SPODES/hdlc/frame.py
@@ -749,7 +749,7 @@ class Frame:
         else:
             try:
                 return cls(value)
-            except ValueError as e:
+            except (ValueError, IndexError) as e:
                 logger.info(F'Wrong Frame: {e.args[0]}')
                 return None
             except NotEnoughDataError as e:
-- 
2.43.0


From 25466c42463003903b8722548f83426021025666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:21 +0000
Subject: [PATCH 002/139] fix: refuse a frame longer than the 11-bit length
 field can carry

---
 src/DLMS_SPODES/hdlc/frame.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/hdlc/frame.py b/src/DLMS_SPODES/hdlc/frame.py
index 93020b7..fae0612 100644
--- a/src/DLMS_SPODES/hdlc/frame.py
+++ b/src/DLMS_SPODES/hdlc/frame.py
@@ -38,7 +38,7 @@ class Format:
                 if self.type != 0xA:
                     raise FormatDataError(F'Frame format type not according HDLC Type 3, must be 0xA, got {hex(self.type)}')
         else:
-            if length.bit_length() <= 13:
+            if length.bit_length() <= 11:
                 value = length
                 if is_segmentation:
                     value |= 0b1010_1_00000000000
@@ -46,7 +46,7 @@ class Format:
                     value |= 0b1010_0_00000000000
                 self.__content = pack('>H', value)
             else:
-                raise ValueError(F'Frame length overflow, max be 2048, got {length}')
+                raise ValueError(F'Frame length overflow, max be 2047, got {length}')
 
     @property
     def content(self) -> bytes:
-- 
2.43.0


From 184a011e6ba4a93ecc323595cb7be6a6a0dfbf3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:21 +0000
Subject: [PATCH 003/139] fix: refuse HDLC addresses that do not fit in 14 bits
 instead of truncating them

---
 src/DLMS_SPODES/hdlc/frame.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/DLMS_SPODES/hdlc/frame.py b/src/DLMS_SPODES/hdlc/frame.py
index fae0612..e13343a 100644
--- a/src/DLMS_SPODES/hdlc/frame.py
+++ b/src/DLMS_SPODES/hdlc/frame.py
@@ -114,6 +114,9 @@ class Address:
             else:
                 self.__content = content
         else:
+            for it in (upper_address, lower_address):
+                if it is not None and not 0 <= it <= 0x3fff:
+                    raise ValueError(F"got address {it}, expected 0..16383")
             # calculate length
             if not lower_address:
                 if (upper_address & self.__MASK) == 0:
-- 
2.43.0


From d104af6c24bf530aac89f2ffd8cfbe9a3269f7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:26 +0000
Subject: [PATCH 004/139] fix: SNRM carries the own receive window, not the
 transmit window twice

---
 src/DLMS_SPODES/hdlc/negotiation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/hdlc/negotiation.py b/src/DLMS_SPODES/hdlc/negotiation.py
index d4b99b6..71441af 100644
--- a/src/DLMS_SPODES/hdlc/negotiation.py
+++ b/src/DLMS_SPODES/hdlc/negotiation.py
@@ -120,7 +120,7 @@ class Negotiation(Info):
         if self.window_transmit != WINDOW_DEFAULT:
             window_pack(self.WINDOW_SIZE_TRANSMIT, self.window_transmit)
         if self.window_receive != WINDOW_DEFAULT:
-            window_pack(self.WINDOW_SIZE_RECEIVE, self.window_transmit)
+            window_pack(self.WINDOW_SIZE_RECEIVE, self.window_receive)
         if offset == 3:
             offset = 0
         else:
-- 
2.43.0


From 325f29854d9d5088c3e2d3690c0ffe2927156fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:26 +0000
Subject: [PATCH 005/139] fix: room for all four negotiation parameters in SNRM
 (3 + 4 + 4 + 6 + 6 octets)

---
 src/DLMS_SPODES/hdlc/negotiation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/hdlc/negotiation.py b/src/DLMS_SPODES/hdlc/negotiation.py
index 71441af..e05215e 100644
--- a/src/DLMS_SPODES/hdlc/negotiation.py
+++ b/src/DLMS_SPODES/hdlc/negotiation.py
@@ -4,7 +4,7 @@ from ..hdlc.frame import Info
 from struct import pack_into, unpack_from
 from typing import ClassVar
 
-MAX_CONTENT_LENGTH = 0x16
+MAX_CONTENT_LENGTH = 0x17
 FORMAT_IDENTIFIER = 0x81
 GROUP_IDENTIFIER = 0x80
 MAX_INFO_DEFAULT = 128
-- 
2.43.0


From d3825e928c3f52111e58915d698026f6b9b7770f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:26 +0000
Subject: [PATCH 006/139] fix: SNRM follows the negotiation parameters instead
 of keeping the ones it was first built from

---
 src/DLMS_SPODES/hdlc/negotiation.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/DLMS_SPODES/hdlc/negotiation.py b/src/DLMS_SPODES/hdlc/negotiation.py
index e05215e..de610c6 100644
--- a/src/DLMS_SPODES/hdlc/negotiation.py
+++ b/src/DLMS_SPODES/hdlc/negotiation.py
@@ -1,5 +1,4 @@
 from dataclasses import dataclass
-from functools import cached_property
 from ..hdlc.frame import Info
 from struct import pack_into, unpack_from
 from typing import ClassVar
@@ -72,12 +71,10 @@ class Negotiation(Info):
                                 case wrong_tag:
                                     raise ValueError(F"got {wrong_tag=}, expected ")
             self.max_info_receive, self.max_info_transmit, self.window_receive, self.window_transmit = i_rx, i_tx, w_rx, w_tx
-            if hasattr(self, "SNRM"):
-                del self.SNRM
         except IndexError as e:
             raise ValueError(F"got wrong UA {content.hex(' ')}")
 
-    @cached_property
+    @property
     def SNRM(self) -> memoryview:
         def small_pack(field: int, data: int):
             nonlocal buf, offset
-- 
2.43.0


From 68dad750f661571d7da4df610b170cbc24041e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:26 +0000
Subject: [PATCH 007/139] fix: reject a UA whose last parameter is cut short

---
 src/DLMS_SPODES/hdlc/negotiation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/DLMS_SPODES/hdlc/negotiation.py b/src/DLMS_SPODES/hdlc/negotiation.py
index de610c6..6404438 100644
--- a/src/DLMS_SPODES/hdlc/negotiation.py
+++ b/src/DLMS_SPODES/hdlc/negotiation.py
@@ -29,6 +29,8 @@ class Negotiation(Info):
         """set from UA info"""
         def get_max_information_field(data: memoryview) -> tuple[int, memoryview]:
             data_len = data[0]
+            if data_len > len(data) - 1:
+                raise ValueError(F"got parameter length={data_len}, but only {len(data) - 1} octets are left")
             ret = int.from_bytes(data[1:1 + data_len], "big")
             if MIN_MAX_INFO_FIELD_LENGTH <= ret <= MAX_MAX_INFO_FIELD_LENGTH:
                 return ret, memoryview(data[1 + data_len:])
@@ -37,6 +39,8 @@ class Negotiation(Info):
 
         def get_window_size(data: memoryview) -> tuple[int, memoryview]:
             data_len = data[0]
+            if data_len > len(data) - 1:
+                raise ValueError(F"got parameter length={data_len}, but only {len(data) - 1} octets are left")
             ret = int.from_bytes(data[1:1 + data_len], "big")
             if MIN_WINDOW_SIZE <= ret <= MAX_WINDOW_SIZE:
                 return ret, memoryview(data[1 + data_len:])
-- 
2.43.0


From 3f62f03d3cf13025d2b1f455d04af3832299f2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:26 +0000
Subject: [PATCH 008/139] fix: ValueError, not IndexError, for an LLC header
 cut short

---
 src/DLMS_SPODES/hdlc/sub_layer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/DLMS_SPODES/hdlc/sub_layer.py b/src/DLMS_SPODES/hdlc/sub_layer.py
index 3a68c1f..7e36466 100644
--- a/src/DLMS_SPODES/hdlc/sub_layer.py
+++ b/src/DLMS_SPODES/hdlc/sub_layer.py
@@ -15,6 +15,8 @@ class LLC:
     def __init__(self, content: bytearray = None,
                  message: bytes = None):
         if message is None:
+            if len(content) < 3:
+                raise ValueError(F'Got {len(content)} octets, expected LLC header of 3')
             self.__destination_lsap = content.pop(0)
             if self.__destination_lsap not in (self.__DESTINATION__LSAP, self.__BROADCAST):
                 raise ValueError(F'Destination tag wrong, expected {hex(self.__DESTINATION__LSAP), hex(self.__BROADCAST)}, got {hex(self.__destination_lsap)}')
-- 
2.43.0


From 4b13494f0db4cf0f0344f68779c0e0573ec905b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:06 +0000
Subject: [PATCH 009/139] fix: refuse length octets that are cut short instead
 of reading a wrong length

---
 src/DLMS_SPODES/types/common_data_types.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 6b003b4..4cba879 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -67,6 +67,8 @@ def get_length_and_pdu(input_pdu: bytes) -> tuple[int, bytes]:
         raise ValueError('Value is empty')
     if bool(define_length & 0b10000000):
         content_start += define_length - 0x80
+        if len(input_pdu) < content_start:
+            raise ValueError(F'Length octets are cut short: {input_pdu.hex()}')
         length = int.from_bytes(input_pdu[1:content_start], 'big')
     else:
         length = define_length
-- 
2.43.0


From dc0ebe39ed54df015a523d854bcf65fbeacec9c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:10 +0000
Subject: [PATCH 010/139] fix: exact amount of length octets for lengths of
 2^32 and more

---
 src/DLMS_SPODES/types/common_data_types.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 4cba879..f3f1f79 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -4,7 +4,7 @@ from struct import pack, unpack
 from abc import ABC, abstractmethod
 from typing import Type, Any, Callable, TypeAlias, Self
 from collections import deque
-from math import log, ceil
+from math import ceil
 import datetime
 import logging
 from ..config_parser import config
@@ -53,7 +53,7 @@ def encode_length(length: int) -> bytes:
     elif length < 0x1_00_00_00_00:
         return pack(">BL", 0x84, length)
     else:
-        amount = int(log(length, 256)) + 1
+        amount = (length.bit_length() + 7) // 8
         return pack('B', 0x80 + amount) + length.to_bytes(amount, byteorder='big')
 
 
-- 
2.43.0


From bfba221613c221897dda840163af2f9ec6e81bb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:14 +0000
Subject: [PATCH 011/139] fix: take the next element after the received octets
 of an element, also if its length octets are not the shortest form

---
 src/DLMS_SPODES/types/common_data_types.py | 23 ++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index f3f1f79..bc08daa 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -218,15 +218,34 @@ def get_common_data_type_from(tag: bytes) -> Type[CommonDataType]:
         raise ValueError(F'type with tag:{tag[:1]} is absence in Common Data Type')
 
 
+_CONTENT_SIZES: dict[int, int] = {0: 0, 3: 1, 5: 4, 6: 4, 13: 1, 15: 1, 16: 2, 17: 1, 18: 2, 20: 8, 21: 8, 22: 1, 23: 4, 24: 8, 25: 12, 26: 5, 27: 4}
+""" contents size of types without length octets by tag """
+
+
+def _get_tail(value: bytes) -> bytes:
+    """ return value without its first element. The length octets in it may be longer than <encode_length> gives """
+    match tag := value[0]:
+        case 1 | 2:
+            amount, pdu = get_length_and_pdu(value[1:])
+            for _ in range(amount):
+                pdu = _get_tail(pdu)
+            return pdu
+        case 4 | 9 | 10 | 12:
+            length, pdu = get_length_and_pdu(value[1:])
+            return pdu[ceil(length / 8) if tag == 4 else length:]
+        case _:
+            return value[1 + _CONTENT_SIZES[tag]:]
+
+
 def get_instance_and_pdu(meta: Type[CommonDataType], value: bytes) -> tuple[CommonDataType, bytes]:
     instance = meta(value)
-    return instance, value[len(instance.encoding):]
+    return instance, _get_tail(value)
 
 
 def get_instance_and_pdu_from_value(value: bytes | bytearray) -> tuple[CommonDataType, bytes]:
     instance = get_common_data_type_from(value[:1])(value)
     try:    # TODO: remove it in future
-        return instance, value[len(instance.encoding):]
+        return instance, _get_tail(value)
     except Exception as e:
         print(F'{e.args}')
 
-- 
2.43.0


From 3bc91d0a303238dbeacd11cedfc7dbebd7f27ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:19 +0000
Subject: [PATCH 012/139] fix: clear() of boolean, bcd, floats and date/time
 types raised ValueError

---
 src/DLMS_SPODES/types/common_data_types.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index bc08daa..f0607a0 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -671,7 +671,7 @@ class Float(ABC):
         return str(self.decode())
 
     def clear(self):
-        self.contents = bytes(len(self))
+        self.__dict__['contents'] = bytes(len(self))
 
 
 class LIST(ABC):
@@ -752,7 +752,7 @@ class __DateTime(ABC):
         """"""
 
     def clear(self):
-        self.contents = self.DEFAULT
+        self.__dict__['contents'] = self.DEFAULT
 
 
 class __Date(ABC):
@@ -1472,7 +1472,7 @@ class Boolean(SimpleDataType):
         return False if self.contents == b'\x00' else True
 
     def clear(self):
-        self.contents = b'\x00'
+        self.__dict__['contents'] = b'\x00'
 
     def __int__(self):
         return 0 if self.contents == b'\x00' else 1
@@ -1739,7 +1739,7 @@ class Bcd(SimpleDataType):
         return self.TAG + self.contents
 
     def clear(self):
-        self.contents = b'\x00'
+        self.__dict__['contents'] = b'\x00'
 
     @property
     def contents_length(self) -> int: return 1
-- 
2.43.0


From c89602a7fd52fd9ded311d309c97e6e78226ff28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:24 +0000
Subject: [PATCH 013/139] fix: Bcd without a value had no contents

---
 src/DLMS_SPODES/types/common_data_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index f0607a0..41914b6 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -1717,7 +1717,7 @@ class Bcd(SimpleDataType):
 
     def __init__(self, value: bytes | bytearray | str | int | Self = None):
         match value:  # TODO: replace priority case
-            case None: bytes(self.contents_length)
+            case None:                                                       self.clear()
             case bytes():                                                    self.contents = self.from_bytes(value)
             case bytearray():                                                self.contents = bytes(value)
             case str():                                                      self.contents = self.from_str(value)
-- 
2.43.0


From b6828b1861031b4211c0772a0af223e0b1aa9e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:28 +0000
Subject: [PATCH 014/139] fix: BitString from bytearray had no contents

---
 src/DLMS_SPODES/types/common_data_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 41914b6..a58c928 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -1491,7 +1491,7 @@ class BitString(SimpleDataType):
                 self.contents = new_instance.contents
                 self.__length = len(new_instance)
             case bytes():                               self.contents = self.from_bytes(value)
-            case bytearray():                           self.from_bytearray(value)
+            case bytearray():                           self.contents = self.from_bytearray(value)
             case str():                                 self.contents = self.from_str(value)
             case int():                                 self.contents = self.from_int(value)
             case list():                                self.contents = self.from_list(value)
-- 
2.43.0


From dcbc5d8c9a8efbd93d09c63fd53ef45d2d1de4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:32 +0000
Subject: [PATCH 015/139] fix: BitString text with other characters than 0 and
 1 (0b1, 1_1, +1) is refused

---
 src/DLMS_SPODES/types/common_data_types.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index a58c928..3c3c8cf 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -1509,6 +1509,8 @@ class BitString(SimpleDataType):
             case _ as error:                                raise ValueError(F"got {TAG(error)}, expected {self.TAG}")
 
     def from_str(self, value: str) -> bytes:
+        if not set(value) <= {'0', '1'}:
+            raise ValueError(F'got bits {value}, expected only 0 and 1')
         self.__length = len(value)
         value = value + '0' * ((8 - self.__length) % 8)
         return bytes((int(value[count:(count + 8)], base=2) for count in range(0, self.__length, 8)))
-- 
2.43.0


From 0faee9bb9e9bad8e799fd2682f85613d8a24ad51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:36 +0000
Subject: [PATCH 016/139] fix: refuse contents of a wrong size for fixed size
 types

---
 src/DLMS_SPODES/types/common_data_types.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 3c3c8cf..93d4a0c 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -435,7 +435,7 @@ class Digital(ABC):
                     case self.TAG:                                                     raise ValueError(F'Length of contents for {self.TAG} must be at least '
                                                                                                         F'{self.LENGTH}, but got {len(length_and_contents)}')
                     case _ as wrong_tag:                                               raise ValueError(F'Expected {self.TAG} type, got {TAG(wrong_tag)}')
-            case bytearray():                                                          self.contents = bytes(value)  # Attention!!! changed method content getting from bytearray
+            case bytearray() if len(value) == self.LENGTH:                             self.contents = bytes(value)  # Attention!!! changed method content getting from bytearray
             case str('-') if self.SIGNED:                                              self.contents = bytes(self.LENGTH)
             case int() | float():                                                      self.contents = self.from_int(value)
             case str():                                                                self.contents = self.from_str(value)
@@ -610,7 +610,7 @@ class Float(ABC):
                     case self.TAG, _:                                              raise ValueError(F'Length of contents for {self.TAG} must be at least '
                                                                                                     F'{len(self)}, but got {len(length_and_contents)}')
                     case _ as wrong_tag, _:                                        raise ValueError(F'Expected {self.TAG} type, got {get_common_data_type_from(wrong_tag).TAG}')
-            case bytearray():                                                      self.contents = bytes(value)  # Attention!!! changed method content getting from bytearray
+            case bytearray() if len(value) == len(self):                           self.contents = bytes(value)  # Attention!!! changed method content getting from bytearray
             case str():                                                            self.contents = self.from_str(value)
             case int():                                                            self.contents = self.from_float(float(value))
             case float():                                                          self.contents = self.from_float(value)
@@ -696,7 +696,7 @@ class __DateTime(ABC):
                     case _ as wrong_tag:
                         raise ValueError(F"got {TAG(wrong_tag)}, expected {self.TAG} type")
             case None:                                                                 self.clear()
-            case bytearray():                                                          self.contents = bytes(value)  # Attention!!! changed method content getting from bytearray
+            case bytearray() if len(value) == len(self):                               self.contents = bytes(value)  # Attention!!! changed method content getting from bytearray
             case str():                                                                self.contents = self.from_str(value)
             case datetime.datetime():                                                  self.contents = self.from_datetime(value)
             case datetime.date():                                                      self.contents = self.from_date(value)
@@ -1429,7 +1429,7 @@ class Boolean(SimpleDataType):
         match value:
             case None:                                                       self.clear()
             case bytes():                                                    self.contents = self.from_bytes(value)
-            case bytearray():                                                self.contents = bytes(value)  # Attention!!! changed method content getting from bytearray
+            case bytearray() if len(value) == 1:                             self.contents = self.from_int(value[0])  # Attention!!! changed method content getting from bytearray
             case str():                                                      self.contents = self.from_str(value)
             case int():                                                      self.contents = self.from_int(value)
             case bool():                                                     self.contents = self.from_bool(value)
@@ -1721,7 +1721,7 @@ class Bcd(SimpleDataType):
         match value:  # TODO: replace priority case
             case None:                                                       self.clear()
             case bytes():                                                    self.contents = self.from_bytes(value)
-            case bytearray():                                                self.contents = bytes(value)
+            case bytearray() if len(value) == self.contents_length:          self.contents = bytes(value)
             case str():                                                      self.contents = self.from_str(value)
             case int():                                                      self.contents = self.from_int(value)
             case Bcd():                                                      self.contents = value.contents
@@ -1848,7 +1848,7 @@ class Enum(SimpleDataType, ABC):
                     case self.TAG if len(encoding) >= 2:                  self.contents = encoding[1:2]
                     case self.TAG:                                        raise ValueError(F'Length of contents for {self.__class__.__name__} must be at least 1, but got {len(encoding[1:])}')
                     case _ as wrong_tag:                                  call_wrong_tag_in_value(wrong_tag, self.TAG)
-            case bytearray():                                             self.contents = bytes(value)
+            case bytearray() if len(value) == 1:                          self.contents = bytes(value)
             case None:                                                    self.contents = self.from_none()
             case str():                                                   self.contents = self.from_str(value)
             case int():                                                   self.contents = self.from_int(value)
-- 
2.43.0


From cda9cf85ed8aa46c2c666b6bb1179e4b4af56bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:41 +0000
Subject: [PATCH 017/139] fix: Boolean from an unknown text raises ValueError
 instead of keeping no contents

---
 src/DLMS_SPODES/types/common_data_types.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 93d4a0c..4012b85 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -1460,6 +1460,8 @@ class Boolean(SimpleDataType):
         elif value == '1' or 'True'.startswith(value.title()) or 'Правда'.startswith(value.title()) or \
                 'Yes'.startswith(value.title()) or 'Да'.startswith(value.title()):
             return b'\x01'
+        else:
+            raise ValueError(F"can't create {self.TAG} from {value}")
 
     def from_bool(self, value: bool) -> bytes:
         return b'\x01' if value else b'\x00'
-- 
2.43.0


From 96ddd9c0dcbccccc6adfa750b7e5629131f78d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:35 +0000
Subject: [PATCH 018/139] fix: ValueError for an A-XDR object identifier that
 is empty or has a wrong amount of arc labels

---
 src/DLMS_SPODES/types/common_data_types.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 4012b85..5e03b56 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -1382,7 +1382,7 @@ class AXDR(ABC):
                         self.__dict__['is_xdr'] = True
                         self.__dict__['TAG'] = b'\x09'
                         length, pdu = get_length_and_pdu(length_and_contents)
-                        if length <= len(pdu):
+                        if 0 < length <= len(pdu):
                             xdr = pdu[:length]
                             values_in: deque[int] = deque(xdr)
                             values_index = iter(range(len(self.ELEMENTS)))
@@ -1402,9 +1402,13 @@ class AXDR(ABC):
                                 else:
                                     tmp += values_in.popleft()
                                     # self._set_value(next(values_index), tmp)
-                                    i = next(values_index)
+                                    i = next(values_index, None)
+                                    if i is None:
+                                        raise ValueError(F"got more than {len(self.ELEMENTS)} arc labels in {xdr.hex()}")
                                     values[i] = self.ELEMENTS[i].TYPE(tmp)
                                     tmp = 0
+                            if tmp or None in values:
+                                raise ValueError(F"arc labels are cut short in {xdr.hex()}")
                             self.__dict__['values'] = tuple(values)
                         else:
                             raise ValueError(F"expected {self.TAG} type, got {TAG(encoding[:1])}")
-- 
2.43.0


From 0cb2b80d6abf5e2f8b7fa9bd7577d9dd90d5f17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:39 +0000
Subject: [PATCH 019/139] fix: build AXDR structures from a sequence

---
 src/DLMS_SPODES/types/common_data_types.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 5e03b56..815c38b 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -1416,6 +1416,9 @@ class AXDR(ABC):
                         self.__dict__['is_xdr'] = False
                         super(AXDR, self).__init__(value)
             case None:                                              self.__init__(self.DEFAULT)
+            case _:
+                self.__dict__['is_xdr'] = False
+                super(AXDR, self).__init__(value)
 
     @property
     def contents(self) -> bytes:
-- 
2.43.0


From 61e1694adea6925e3105db8ff44f4f5c2bf719bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:43 +0000
Subject: [PATCH 020/139] fix: the length of an A-XDR object identifier is its
 amount of octets, not of arc labels

---
 src/DLMS_SPODES/types/common_data_types.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 815c38b..40fb0d3 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -1427,6 +1427,14 @@ class AXDR(ABC):
         else:
             return super(AXDR, self).contents
 
+    @property
+    def encoding(self) -> bytes:
+        if self.is_xdr:
+            contents = self.contents
+            return self.TAG + encode_length(len(contents)) + contents
+        else:
+            return super(AXDR, self).encoding
+
 
 class Boolean(SimpleDataType):
     """ boolean """
-- 
2.43.0


From 7cd8f8ba4c2f2f94182547b59a14a3c15ab9a035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:49 +0000
Subject: [PATCH 021/139] fix: Array.pop() without index raised TypeError

---
 src/DLMS_SPODES/types/common_data_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 40fb0d3..0518a93 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -311,7 +311,7 @@ class __Array(ABC):
             self.values.insert(index, element)
 
     def pop(self, index: int | None = None) -> CommonDataType:
-        return self.values.pop(index)
+        return self.values.pop(-1 if index is None else index)
 
     def __len__(self):
         return len(self.values)
-- 
2.43.0


From 922226c959b9ca59d36a9ba9740beeebf84fe74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:56 +0000
Subject: [PATCH 022/139] fix: a refused Array.set keeps the old elements

---
 src/DLMS_SPODES/types/common_data_types.py | 26 +++++++++++++---------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 0518a93..383c2bb 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -1161,16 +1161,22 @@ class Array(__Array, ComplexDataType):
         return [el.decode() for el in self.values]
 
     def set(self, value: bytes | bytearray | list | None):
-        self.clear()
-        if hasattr(self, 'cb_preset'):
-            self.cb_preset(value)
-        new_array = Array(value, type_=self.TYPE)
-        if self.TYPE is None and len(new_array) != 0:
-            self.set_type(new_array[0].__class__)
-        else:
-            """TYPE already initiated"""
-        for el in new_array:
-            self.append(self.TYPE(el))
+        old_values, old_type = list(self.values), self.TYPE
+        try:
+            self.clear()
+            if hasattr(self, 'cb_preset'):
+                self.cb_preset(value)
+            new_array = Array(value, type_=self.TYPE)
+            if self.TYPE is None and len(new_array) != 0:
+                self.set_type(new_array[0].__class__)
+            else:
+                """TYPE already initiated"""
+            for el in new_array:
+                self.append(self.TYPE(el))
+        except Exception:
+            self.__dict__['TYPE'] = old_type
+            self.values[:] = old_values
+            raise
         if hasattr(self, 'cb_post_set'):
             self.cb_post_set()
 
-- 
2.43.0


From b6f667855b0e9cb78522d79d057f4d6d543d1aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:00 +0000
Subject: [PATCH 023/139] fix: a refused Structure.set keeps all old elements

---
 src/DLMS_SPODES/types/common_data_types.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 383c2bb..5832a9d 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -1328,8 +1328,18 @@ class Structure(ComplexDataType):
         self.__dict__["NAME"] = value
 
     def set(self, value: bytes | bytearray | tuple | list | None):
-        for index, el_value in enumerate(self.get_types()(value)):
-            self[index].set(el_value)
+        new = self.get_types()(value)
+        if len(new) != len(self):
+            raise ValueError(F'Struct {self.__class__.__name__} got length:{len(new)}, expected length:{len(self)}')
+        old_encodings = [el.encoding for el in self.values]
+        index = 0
+        try:
+            for index, el_value in enumerate(new):
+                self[index].set(el_value)
+        except Exception:
+            for el, encoding in zip(self.values[:index], old_encodings):
+                el.set(encoding)
+            raise
 
     @property
     def contents(self) -> bytes:
-- 
2.43.0


From 89b53028f2624edc6096cf2e732dbae8a7167788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:41 +0000
Subject: [PATCH 024/139] fix: integers of more than 53 bits given as text lost
 their low digits

---
 src/DLMS_SPODES/types/common_data_types.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 5832a9d..371f1e3 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -482,7 +482,10 @@ class Digital(ABC):
             raise ValueError(F'value {value} out of range')
 
     def from_str(self, value: str) -> bytes:
-        return self.from_int(float(value))
+        try:
+            return self.from_int(int(value))
+        except ValueError:
+            return self.from_int(float(value))
 
     def clear(self):
         if self.DEFAULT:
-- 
2.43.0


From b6e7cf55ea302dddbda2a2520be59260b4a959fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:45 +0000
Subject: [PATCH 025/139] fix: a scaled value such as 0.29 was stored one step
 too low

---
 src/DLMS_SPODES/types/common_data_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 371f1e3..83d3e68 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -474,7 +474,7 @@ class Digital(ABC):
     def from_int(self, value: int | float) -> bytes:
         try:
             match self.SCALER_UNIT:
-                case ScalUnitType(): value *= 10**(-self.SCALER_UNIT.scaler.decode()+self.SCALER_UNIT.unit.get_scaler())
+                case ScalUnitType(): value = round(value * 10**(-self.SCALER_UNIT.scaler.decode()+self.SCALER_UNIT.unit.get_scaler()), 6)
                 case None:           """ no scaler """
                 case _ as error:     raise ValueError(F'Unknown scaler_unit: {error}')
             return int(value).to_bytes(self.LENGTH, 'big', signed=self.SIGNED)
-- 
2.43.0


From 1858a574fb058671c4133f874f6d2a72a1cc5440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:49 +0000
Subject: [PATCH 026/139] fix: hash of a digital with scaler raised TypeError

---
 src/DLMS_SPODES/types/common_data_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 83d3e68..946a23a 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -582,7 +582,7 @@ class Digital(ABC):
         return value, cursor_position
 
     def __hash__(self):
-        return self.decode()
+        return int.from_bytes(self.contents, 'big', signed=self.SIGNED)
 
 
 class Float(ABC):
-- 
2.43.0


From b403c8c392c86b51bcf211e54587037748b72725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:55 +0000
Subject: [PATCH 027/139] fix: a subclass of a limited digital keeps the limits

---
 src/DLMS_SPODES/types/common_data_types.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 946a23a..e6966bf 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -446,12 +446,12 @@ class Digital(ABC):
 
     def __init_subclass__(cls, **kwargs):
         """initiate type.VALUE from subclass arg"""
-        cls.VALUE = kwargs.get("value")
+        cls.VALUE = kwargs.get("value", cls.VALUE)
         if isinstance(cls.VALUE, int):
             """nothing"""
         else:
-            cls.MIN = kwargs.get("min")
-            cls.MAX = kwargs.get("max")
+            cls.MIN = kwargs.get("min", cls.MIN)
+            cls.MAX = kwargs.get("max", cls.MAX)
             if isinstance(cls.MIN, int) or isinstance(cls.MAX, int):
                 if cls.MIN is not None:
                     cls.DEFAULT = max(0, cls.MIN)
-- 
2.43.0


From 083d8f7d9bdfa06bd467b71736c3d0a2c05306af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:59 +0000
Subject: [PATCH 028/139] fix: Float32/Float64 coding by IEEE 754 (wrong
 exponent bias, zero, subnormals, rounding)

---
 src/DLMS_SPODES/types/common_data_types.py | 23 ++--------------------
 1 file changed, 2 insertions(+), 21 deletions(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index e6966bf..6eecfcb 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -639,30 +639,11 @@ class Float(ABC):
         """ Input float: <sign><integer>.<fraction>[e[-+]power] example: 1.0, -0.003, 1e+12, 4.5e-7 """
         if 'inf' in str(value):
             raise OverflowError(F'Float overflow error')
-        hex_string = value.hex()
-        sign, mantissa_and_exponent = hex_string.split('0x')
-        sign = 1 << (len(self) * 8 - 1) if sign else 0
-        mantissa, exponent = mantissa_and_exponent.split('p')
-        integer, fraction = mantissa.split('.')
-        integer = int(integer, base=16)
-        exponent = (int(exponent) + 2 ** (len(self) - 1) - 1)
-        if exponent >= 2 ** self.exponent_wide:
-            raise OverflowError(F'Exponent overflow error')
-        exponent <<= self.fraction_wide if integer else 0
-        fraction_quartet_amount = ceil(self.fraction_wide / 4)
-        offset = fraction_quartet_amount*4 - self.fraction_wide
-        fraction = int(fraction[:fraction_quartet_amount], base=16) >> offset
-        return (sign + exponent + fraction).to_bytes(len(self), 'big')
+        return pack('>f' if len(self) == 4 else '>d', value)
 
     def decode(self) -> float:
         """  return the build in float type IEEE 60559"""
-        sign = self.contents[0] >> 7
-        exponent = (int.from_bytes(self.contents[:2], 'big') & 0x7fff) >> (15 - self.exponent_wide)
-        fraction = int.from_bytes(self.contents[1:], 'big') & (1 << self.fraction_wide)-1
-        ret = 2 ** (exponent - 2**(self.exponent_wide-1)+1) * (1 + fraction/(1 << self.fraction_wide))
-        if sign:
-            ret *= -1
-        return ret
+        return unpack('>f' if len(self) == 4 else '>d', self.contents)[0]
 
     def validate_from(self, value: str, cursor_position=None) -> tuple[str, int]:
         # adding '0' for available set service symbols
-- 
2.43.0


From 514b149e9c048d97cda9a5e97f130ba0eaec34c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:03 +0000
Subject: [PATCH 029/139] fix: Float from a hex text out of range raises
 ValueError, Float from the other float type converts the value

---
 src/DLMS_SPODES/types/common_data_types.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 6eecfcb..8a06d29 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -617,18 +617,20 @@ class Float(ABC):
             case str():                                                            self.contents = self.from_str(value)
             case int():                                                            self.contents = self.from_float(float(value))
             case float():                                                          self.contents = self.from_float(value)
-            case Float():                                                          self.contents = value.contents
+            case self.__class__():                                                 self.contents = value.contents
+            case Float():                                                          self.contents = self.from_float(value.decode())
             case _:                                                                raise ValueError(F'Error create {self.TAG} with value {value}')
 
     def from_str(self, value: str) -> bytes:
         """ Input 1. float: <sign><integer>.<fraction>[e[-+]power] example: 1.0, -0.003, 1e+12, 4.5e-7
          2. hex_float:  <sign>0x<integer>.<fraction>p[+-]<power> example 0x1.e4d00p+15 (62056.0) """
         try:
-            return self.from_float(float(value))
-        except ValueError:
-            return self.from_float(float.fromhex(value))
+            try:
+                return self.from_float(float(value))
+            except ValueError:
+                return self.from_float(float.fromhex(value))
         except OverflowError:
-            raise ValueError
+            raise ValueError(F'value {value} out of range')
 
     @property
     def encoding(self) -> bytes:
-- 
2.43.0


From 2b5830214db7a09f88538f246f9af81f5473b68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:08 +0000
Subject: [PATCH 030/139] fix: validate_from of floats raised TypeError

---
 src/DLMS_SPODES/types/common_data_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 8a06d29..b950637 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -651,7 +651,7 @@ class Float(ABC):
         # adding '0' for available set service symbols
         if value[-1] in '.-+exp':
             value += '0'
-        return SimpleDataType(self).validate_from(value, cursor_position)
+        return super().validate_from(value, cursor_position)
 
     def __str__(self):
         return str(self.decode())
-- 
2.43.0


From 10a8e9f1666ec632362d3387a99e50c4b42b8edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:13 +0000
Subject: [PATCH 031/139] fix: DateTime.set_clock_status replaces the status
 octet

---
 src/DLMS_SPODES/types/common_data_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index b950637..d1b2763 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -2102,7 +2102,7 @@ class DateTime(__DateTime, __Date, __Time, SimpleDataType):
 
     def set_clock_status(self, value: str | int):
         """ now only set value """
-        self.contents = self.contents[:12] + int(value).to_bytes(1, 'big')
+        self.__dict__['contents'] = self.contents[:11] + int(value).to_bytes(1, 'big')
 
     def __str__(self):
         match unpack('>h', self.contents[9:11])[0]:
-- 
2.43.0


From 7d044a694dc30b31c1c908c29be97dd2b6f94e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:17 +0000
Subject: [PATCH 032/139] fix: DateTime text with a negative deviation

---
 src/DLMS_SPODES/types/common_data_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index d1b2763..ca31b38 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -2067,7 +2067,7 @@ class DateTime(__DateTime, __Date, __Time, SimpleDataType):
             match dev:
                 case '':  return b'\x80\x00'
                 case '-': return b'\x00\x00'
-                case _ if dev.isdigit() and -720 <= int(dev) <= 720:   return pack('>H', int(dev))
+                case _ if dev.removeprefix('-').isdigit() and -720 <= int(dev) <= 720:   return pack('>h', int(dev))
                 case _:           raise ValueError
 
         match value.split(sep=' ', maxsplit=2):
-- 
2.43.0


From 69a7746be783125da48384617ed6c04254e906ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:22 +0000
Subject: [PATCH 033/139] fix: DateTime from a datetime west of Greenwich

---
 src/DLMS_SPODES/types/common_data_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index ca31b38..957215a 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -2081,7 +2081,7 @@ class DateTime(__DateTime, __Date, __Time, SimpleDataType):
         """ convert from build to DLMS datetime, weekday not set for uniquely datetime """
         match value.utcoffset():
             case None: deviation = 0x8000
-            case _:    deviation = value.utcoffset().seconds // 60
+            case _:    deviation = int(value.utcoffset().total_seconds() // 60) & 0xffff
         return pack('>HBBBBBBBH',
                     value.year,
                     value.month,
-- 
2.43.0


From b1603b67eb36129350b8260f7caa7aaf310581cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:28 +0000
Subject: [PATCH 034/139] fix: DateTime.decode with a negative deviation

---
 src/DLMS_SPODES/types/common_data_types.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 957215a..eafdc34 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -2114,9 +2114,9 @@ class DateTime(__DateTime, __Date, __Time, SimpleDataType):
         return True if self.contents == b'\xff\xff\xff\xff\xff\xff\xff\xff\xff\x80\x00\xff' else False
 
     def decode(self) -> datetime.datetime:
-        year_highbyte, year_lowbyte, month, day_of_month, _, hour, minute, second, hundredths, deviation_highbyte, deviation_lowbyte, _ = self.contents
+        year_highbyte, year_lowbyte, month, day_of_month, _, hour, minute, second, hundredths, _, _, _ = self.contents
         year = year_highbyte*256+year_lowbyte
-        deviation = deviation_highbyte*256 + deviation_lowbyte
+        deviation = unpack('>h', self.contents[9:11])[0]
         return datetime.datetime(year=year if year != 0xffff else datetime.MINYEAR,
                                  month=month if month not in {0xff, 0xfe, 0xfd} else 1,
                                  day=day_of_month if day_of_month not in {0xff, 0xfe, 0xfd} else 1,
@@ -2124,7 +2124,7 @@ class DateTime(__DateTime, __Date, __Time, SimpleDataType):
                                  minute=minute if minute != 0xff else 0,
                                  second=second if second != 0xff else 0,
                                  microsecond=hundredths*10000 if hundredths != 0xff else 0,
-                                 tzinfo=datetime.timezone.utc if deviation == 0x8000 else datetime.timezone(datetime.timedelta(minutes=deviation)))
+                                 tzinfo=datetime.timezone.utc if deviation == -0x8000 else datetime.timezone(datetime.timedelta(minutes=deviation)))
 
     @property
     def time_zone(self) -> datetime.timezone | None:
-- 
2.43.0


From 411e7be53d69b574c32b90a8665221754830eeab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:33 +0000
Subject: [PATCH 035/139] fix: DateTime.time_zone for every deviation of
 -720..720

---
 src/DLMS_SPODES/types/common_data_types.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index eafdc34..a4627be 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -2129,10 +2129,10 @@ class DateTime(__DateTime, __Date, __Time, SimpleDataType):
     @property
     def time_zone(self) -> datetime.timezone | None:
         """ Return timezone from deviation """
-        deviation = self.contents[9]*256 + self.contents[10]
-        if deviation == 0x8000:
+        deviation = unpack('>h', self.contents[9:11])[0]
+        if deviation == -0x8000:
             return None
-        elif -720 <= deviation >= 720:
+        elif -720 <= deviation <= 720:
             return datetime.timezone(datetime.timedelta(minutes=deviation))
         else:
             raise ValueError(F'Deviation must be from -720..720 got {deviation}')
-- 
2.43.0


From f9bc7ab37bb2610122c1b1a756c95fb27c87199e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:37 +0000
Subject: [PATCH 036/139] fix: a weekday in a month without a day of month
 (every Tuesday) is a valid date

---
 src/DLMS_SPODES/types/common_data_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index a4627be..26577a1 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -826,7 +826,7 @@ class __Date(ABC):
             value[4:5].replace(b'\xff', b'\x01')
         if datetime.date(year_highbyte * 256 + year_lowbyte, month, day_of_month).weekday() != \
                 day_of_week - 1 and value[4:] != b'\xff' and value[0:2] != b'\xff\xff' and \
-                value[2:3] not in b'\xfd\xfe\xff' and value[2:3] not in b'\xfd\xfe\xff':
+                value[2:3] not in b'\xfd\xfe\xff' and value[3:4] not in b'\xfd\xfe\xff':
             raise ValueError('Error init Data: week day wrong')
 
     @property
-- 
2.43.0


From c573a825188a5526be39131add47267d59dce2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:42 +0000
Subject: [PATCH 037/139] fix: refuse a weekday out of 1..7, ff also in dates
 with not specified fields

---
 src/DLMS_SPODES/types/common_data_types.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 26577a1..5b3db66 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -828,6 +828,8 @@ class __Date(ABC):
                 day_of_week - 1 and value[4:] != b'\xff' and value[0:2] != b'\xff\xff' and \
                 value[2:3] not in b'\xfd\xfe\xff' and value[3:4] not in b'\xfd\xfe\xff':
             raise ValueError('Error init Data: week day wrong')
+        if not (1 <= value[4] <= 7 or value[4] == 0xff):
+            raise ValueError(F'Error init Data: got weekday={value[4]}, must be: 1..7, ff')
 
     @property
     def strfdate(self):
-- 
2.43.0


From b190cfe142d743c2ea154d914e7f0f185811408b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:48 +0000
Subject: [PATCH 038/139] fix: refuse hundredths of second above 99

---
 src/DLMS_SPODES/types/common_data_types.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 5b3db66..6e17367 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -988,7 +988,8 @@ class __Time(ABC):
             case _ as wrong_value:                    raise ValueError(F"got hundredths={wrong_value} from {self.TAG} contents, must be: 0..99, ff")
 
     def check_time(self):
-        datetime.time(*tuple(self.contents[0+self.__contents_offset: 4+self.__contents_offset].replace(b'\xff', b'\x00')))
+        *time, hundredths = self.contents[0+self.__contents_offset: 4+self.__contents_offset].replace(b'\xff', b'\x00')
+        datetime.time(*time, hundredths*10_000)
 
     @property
     def strftime(self) -> str:
-- 
2.43.0


From 32551c02277b46f97ce861543e694e64e1a5a9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:14 +0000
Subject: [PATCH 039/139] fix: DateTime.get_left_nearest_date(time) for not
 specified fields (month and day tuples, short months, no date at all)

---
 src/DLMS_SPODES/types/common_data_types.py | 28 ++++++++++------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 6e17367..c890906 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -2142,36 +2142,34 @@ class DateTime(__DateTime, __Date, __Time, SimpleDataType):
 
     def get_left_nearest_date(self, point: datetime.datetime) -> datetime.datetime | None:
         """ search and return date(datetime format) in left from point """
-        l_point: datetime.datetime = self.decode()
-        """ time in left from point """
-        months = range(point.month, 0, -1) if self.month is None else (self.month,)
-        """ months sequence from 12 to 1 with start from current month or self month """
-        days = range(point.day, 0, -1) if self.day is None else (self.day,)
-        """ days sequence from 31 to 1 with start from current day or self day """
+        tz = self.time_zone or datetime.timezone.utc
+        point = point.astimezone(tz)
+        time = datetime.time(self.hour or 0, self.minute or 0, self.second or 0, (self.hundredths or 0) * 10_000, tz)
+        """ the earliest time of day """
         for year in range(point.year, datetime.MINYEAR, -1) if self.year is None else (self.year, ):
-            l_point = l_point.replace(year=year)
-            for month in months:
-                l_point = l_point.replace(month=month)
-                for day in days:
-                    l_point = l_point.replace(day=day)
+            for month in range(12, 0, -1) if self.month is None else (self.month,):
+                for day in range(31, 0, -1) if self.day is None else (self.day,):
+                    try:
+                        l_point = datetime.datetime.combine(datetime.date(year, month, day), time)
+                    except ValueError:
+                        continue  # there is no such day in the month
                     if l_point > point:
                         continue
                     elif self.weekday is not None and self.weekday != (l_point.weekday() + 1):
                         continue
                     else:
                         return l_point
-                days = range(31, 0, -1) if self.day is None else point.day,
-            months = range(12, 0, -1) if self.month is None else point.month,
         return None
 
     def get_left_nearest_datetime(self, point: datetime.datetime) -> datetime.datetime | None:
         """ search and return datetime in left from point """
         l_point: datetime.datetime = self.get_left_nearest_date(point)
         """ time in left from point """
-        is_this_day: bool = l_point.date() == point.date()
-        """ flag of points equaling """
         if l_point is None:
             return None
+        point = point.astimezone(l_point.tzinfo)
+        is_this_day: bool = l_point.date() == point.date()
+        """ flag of points equaling """
         for hour in range(point.hour if is_this_day else 23, -1, -1) if self.hour is None else (self.hour,):
             l_point = l_point.replace(hour=hour)
             for minute in range(point.minute if is_this_day and l_point.hour == point.hour else 59, -1, -1) if self.minute is None else (self.minute,):
-- 
2.43.0


From 7aefcd354e859a119ce898348f5211c4b76fad1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:19 +0000
Subject: [PATCH 040/139] fix: text and default value of an Enum without
 elements

---
 src/DLMS_SPODES/types/common_data_types.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index c890906..bcf0a28 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -1889,7 +1889,7 @@ class Enum(SimpleDataType, ABC):
         if value.isdigit():
             return self.from_int(int(value))
         else:
-            for enum in self.ELEMENTS:
+            for enum in self.ELEMENTS or ():
                 if value == self.ELEMENTS[enum]:
                     return enum
             else:
@@ -1897,7 +1897,7 @@ class Enum(SimpleDataType, ABC):
 
     def from_none(self):
         """first key value"""
-        return next(iter(self.ELEMENTS))
+        return next(iter(self.ELEMENTS or (b'\x00',)))
 
     def validation(self):
         """ check value after inited. Maybe override """
@@ -1929,7 +1929,7 @@ class Enum(SimpleDataType, ABC):
             case _: super().__setattr__(key, value)
 
     def __str__(self):
-        return self.ELEMENTS[self.contents]
+        return str(int(self)) if self.ELEMENTS is None else self.ELEMENTS[self.contents]
 
     @property
     def value(self) -> str:
-- 
2.43.0


From 4ce7d2c75a14e97c40f0e2275a3497b240304c1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:23 +0000
Subject: [PATCH 041/139] fix: OctetStringDateTime/Date/Time check tag and
 size, ValueError if cut short

---
 src/DLMS_SPODES/types/cosem_service_types.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/DLMS_SPODES/types/cosem_service_types.py b/src/DLMS_SPODES/types/cosem_service_types.py
index 3713f4e..8530c59 100644
--- a/src/DLMS_SPODES/types/cosem_service_types.py
+++ b/src/DLMS_SPODES/types/cosem_service_types.py
@@ -95,8 +95,8 @@ class OctetStringDateTime(cdt.DateTime, tag=9, size=12):
 
     def __init__(self, value: bytes | bytearray | str | int | datetime.datetime | datetime.date | datetime.time = b'\x09\x0c\x07\xe4\x01\x01\xff\xff\xff\xff\xff\x80\x00\xff'):
         match value:  # TODO: common for all OctetDateTimes
-            case bytes() if value[1] == len(self): super().__init__(self.TAG+value[2:])
-            case bytes():                          raise ValueError(F'in create {self.__class__.__name__} got tag, size: {cdt.TAG(value[0])} {value[1]}, expected {self.TAG} {len(self)}')
+            case bytes() if value[:2] == bytes((*self.TAG, len(self))): super().__init__(self.TAG+value[2:])
+            case bytes():                          raise ValueError(F'in create {self.__class__.__name__} got tag, size: {value[:2].hex(" ")}, expected {self.TAG} {len(self)}')
             case _:                                super().__init__(value)
 
     @property
@@ -109,8 +109,8 @@ class OctetStringDate(cdt.Date, tag=9, size=5):
 
     def __init__(self, value: bytes | bytearray | str | int | datetime.datetime | datetime.date = b'\x09\x05\x07\xe4\x01\x01\xff'):
         match value:  # TODO: replace priority case
-            case bytes() if value[1] == len(self): super().__init__(self.TAG+value[2:])
-            case bytes():                          raise ValueError(F'in create {self.__class__.__name__} got tag, size: {cdt.TAG(value[0])} {value[1]}, expected {self.TAG} {len(self)}')
+            case bytes() if value[:2] == bytes((*self.TAG, len(self))): super().__init__(self.TAG+value[2:])
+            case bytes():                          raise ValueError(F'in create {self.__class__.__name__} got tag, size: {value[:2].hex(" ")}, expected {self.TAG} {len(self)}')
             case _:                                super().__init__(value)
 
     @property
@@ -123,8 +123,8 @@ class OctetStringTime(cdt.Time, tag=9, size=4):
 
     def __init__(self, value: bytes | bytearray | str | int | datetime.datetime | datetime.time = b'\x09\x04\x00\x00\x00\x00'):
         match value:  # TODO: replace priority case
-            case bytes() if value[1] == len(self): super().__init__(self.TAG+value[2:])
-            case bytes():                          raise ValueError(F'in create {self.__class__.__name__} got tag, size: {cdt.TAG(value[0])} {value[1]}, expected {self.TAG} {len(self)}')
+            case bytes() if value[:2] == bytes((*self.TAG, len(self))): super().__init__(self.TAG+value[2:])
+            case bytes():                          raise ValueError(F'in create {self.__class__.__name__} got tag, size: {value[:2].hex(" ")}, expected {self.TAG} {len(self)}')
             case _:                                super().__init__(value)
 
     @property
-- 
2.43.0


From b5849633bcfa0161195cd0f1bdccde8815b12a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:28 +0000
Subject: [PATCH 042/139] fix: CHOICE of an empty encoding or of an unknown tag
 with nested elements raised IndexError/AttributeError

---
 src/DLMS_SPODES/types/useful_types.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/DLMS_SPODES/types/useful_types.py b/src/DLMS_SPODES/types/useful_types.py
index acd79bf..7c184a8 100644
--- a/src/DLMS_SPODES/types/useful_types.py
+++ b/src/DLMS_SPODES/types/useful_types.py
@@ -395,21 +395,23 @@ class CHOICE(ABC):
         """ get instance from encoding or tag(with default value). For CommonDataType only """
         try:
             match value:
+                case bytes() as encoding if len(encoding) == 0:
+                    raise ValueError(F"for {self.__class__.__name__} got empty encoding")
                 case bytes() as encoding:
                     match self.ELEMENTS[encoding[0]]:
                         case SequenceElement() as el: return el.TYPE(encoding)
                         case dict() as ch:
-                            if encoding[1] in ch.keys():
+                            if len(encoding) > 1 and encoding[1] in ch.keys():
                                 return ch[encoding[1]].TYPE(encoding)  # use for choice cst.Time | DateTime | Date as OctetString
                             else:
-                                raise ValueError(F"got type with tag: {encoding[0]} and length: {encoding[1]}, expected length {tuple(ch.keys())}")
+                                raise ValueError(F"got type with tag: {encoding[0]} and length: {encoding[1:2].hex()}, expected length {tuple(ch.keys())}")
                         case err:                     raise ValueError(F"got {err.__name__}, expected {SequenceElement.__name__} or {dict.__name__}")
                 case int() if force:                  return cdt.get_common_data_type_from(value.to_bytes(1, "big"))()
                 case int() as tag:                    return self.ELEMENTS[tag].TYPE()
                 case None:                            return tuple(self.ELEMENTS.values())[0].TYPE()
                 case error:                           raise ValueError(F'Unknown value type {error}')
         except KeyError as e:
-            raise UserfulTypesException(F"for {self.__class__.__name__} got {cdt.CommonDataType.__name__}: {cdt.TAG(e.args[0].to_bytes(1))}; expected: {', '.join(map(lambda el: el.NAME, self.ELEMENTS.values()))}")
+            raise UserfulTypesException(F"for {self.__class__.__name__} got {cdt.CommonDataType.__name__}: {cdt.TAG(e.args[0].to_bytes(1))}; expected: {', '.join(map(lambda el: el.NAME, self.__get_elements()))}")
 
     def __get_elements(self) -> list[SequenceElement]:
         """all elements with nested values"""
-- 
2.43.0


From fe6c4cdf3e3371d1e9c660d0dbdc71a2c61da48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:58 +0000
Subject: [PATCH 043/139] fix: useful_types: refuse cut short length octets,
 exact amount of length octets

---
 src/DLMS_SPODES/types/useful_types.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/types/useful_types.py b/src/DLMS_SPODES/types/useful_types.py
index 7c184a8..0cf0e8d 100644
--- a/src/DLMS_SPODES/types/useful_types.py
+++ b/src/DLMS_SPODES/types/useful_types.py
@@ -3,7 +3,6 @@ from abc import ABC, abstractmethod
 from typing import Type, Any, Callable, Self, TypeAlias
 from struct import pack
 from dataclasses import dataclass, astuple, asdict, field, fields
-from math import log
 from ..types import common_data_types as cdt
 from ..exceptions import DLMSException
 from ..config_parser import get_values
@@ -27,7 +26,7 @@ def encode_length(length: int) -> bytes:
     elif length < 0x1_00_00_00_00:
         return pack(">BL", 0x84, length)
     else:
-        amount = int(log(length, 256)) + 1
+        amount = (length.bit_length() + 7) // 8
         return pack('B', 0x80 + amount) + length.to_bytes(amount, byteorder='big')
 
 
@@ -41,6 +40,8 @@ def get_length_and_pdu(input_pdu: bytes) -> tuple[int, bytes]:
         raise ValueError('in try getting length, got empty value')
     if bool(define_length & 0b10000000):
         content_start += define_length - 0x80
+        if len(input_pdu) < content_start:
+            raise ValueError(F'length octets are cut short: {input_pdu.hex()}')
         length = int.from_bytes(input_pdu[1:content_start], 'big')
     else:
         length = define_length
-- 
2.43.0


From 80b309c5bc1fcf2e869cc3bfb7b724e707385167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:03 +0000
Subject: [PATCH 044/139] fix: useful_types.OctetString took the first octets
 of its value as a length

---
 src/DLMS_SPODES/types/useful_types.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/DLMS_SPODES/types/useful_types.py b/src/DLMS_SPODES/types/useful_types.py
index 0cf0e8d..b5b15d5 100644
--- a/src/DLMS_SPODES/types/useful_types.py
+++ b/src/DLMS_SPODES/types/useful_types.py
@@ -146,11 +146,7 @@ class OctetString(UT):
     value: bytes
 
     def __init__(self, value: bytes):
-        length, pdu = get_length_and_pdu(value)
-        if length <= len(pdu):
-            self.value = pdu[:length]
-        else:
-            raise ValueError(F"for {self.__class__.__name__} got {length=}, but content length only: {len(pdu)}")
+        self.value = bytes(value)
 
     @classmethod
     def from_contents(cls, value: bytes) -> Self:
-- 
2.43.0


From e9d5b69531a385e0b1af4b8db75e28a55c3f93a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:07 +0000
Subject: [PATCH 045/139] fix: OctetString6 has six octets

---
 src/DLMS_SPODES/types/useful_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/useful_types.py b/src/DLMS_SPODES/types/useful_types.py
index b5b15d5..04d9639 100644
--- a/src/DLMS_SPODES/types/useful_types.py
+++ b/src/DLMS_SPODES/types/useful_types.py
@@ -204,7 +204,7 @@ class OctetString5(ConstSizeMixin, OctetString):
 class OctetString6(ConstSizeMixin, OctetString):
     @classmethod
     def SIZE(cls) -> int:
-        return 5
+        return 6
 
 
 class OctetString8(ConstSizeMixin, OctetString):
-- 
2.43.0


From a1d980619f21ea934f13967b7bf9a9eea0fd84da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:11 +0000
Subject: [PATCH 046/139] fix: useful_types integers are read from all their
 octets

---
 src/DLMS_SPODES/types/useful_types.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/useful_types.py b/src/DLMS_SPODES/types/useful_types.py
index 04d9639..9cce823 100644
--- a/src/DLMS_SPODES/types/useful_types.py
+++ b/src/DLMS_SPODES/types/useful_types.py
@@ -630,7 +630,9 @@ class INTEGER(ABC):
 
     @classmethod
     def from_contents(cls, value: bytes):
-        return cls(int.from_bytes(value[0:1], "big", signed=cls.SIGNED))
+        if len(value) < cls.LENGTH:
+            raise ValueError(F"for {cls.__name__} got contents length = {len(value)}, expected {cls.LENGTH}")
+        return cls(int.from_bytes(value[:cls.LENGTH], "big", signed=cls.SIGNED))
 
     @property
     def contents(self) -> bytes:
-- 
2.43.0


From 25e11f166c7f9ced437e397a9ca7c4f9097ef2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:16 +0000
Subject: [PATCH 047/139] fix: useful_types.Sequence.from_contents reads its
 elements from contents and refuses cut short contents with ValueError

---
 src/DLMS_SPODES/types/useful_types.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/DLMS_SPODES/types/useful_types.py b/src/DLMS_SPODES/types/useful_types.py
index 9cce823..f81e006 100644
--- a/src/DLMS_SPODES/types/useful_types.py
+++ b/src/DLMS_SPODES/types/useful_types.py
@@ -72,7 +72,7 @@ class UT(ABC):
 
 
 def get_instance_and_context(meta: Type[UT], value: bytes) -> tuple[UT, bytes]:
-    instance = meta(value)
+    instance = meta.from_contents(value)
     return instance, value[len(instance.contents):]
 
 
@@ -96,8 +96,6 @@ class Sequence(UT, ABC):
         for f in fields(cls):
             new, value = get_instance_and_context(f.type, value)
             values.append(new)
-            if not len(value):
-                break
         return cls(*values)
 
     def __str__(self):
-- 
2.43.0


From 51fd48c373f538be7adafc3d75df19be314feab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:20 +0000
Subject: [PATCH 048/139] fix: useful_types.BOOLEAN.from_str accepted no text

---
 src/DLMS_SPODES/types/useful_types.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/types/useful_types.py b/src/DLMS_SPODES/types/useful_types.py
index f81e006..979ec3a 100644
--- a/src/DLMS_SPODES/types/useful_types.py
+++ b/src/DLMS_SPODES/types/useful_types.py
@@ -482,9 +482,9 @@ class BOOLEAN(UT):
     @classmethod
     def from_str(cls, value: str):
         match value:
-            case "0", "False":
+            case "0" | "False":
                 return FALSE
-            case "1", "True":
+            case "1" | "True":
                 return TRUE
             case _:
                 raise ValueError(F"for {cls.__name__}.from_str got unknown {value=}")
-- 
2.43.0


From 82520613f34379982350267905359c6885526c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:24 +0000
Subject: [PATCH 049/139] fix: useful_types.BitString bits stay integers,
 contents raised ValueError after inverse()

---
 src/DLMS_SPODES/types/useful_types.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/types/useful_types.py b/src/DLMS_SPODES/types/useful_types.py
index 979ec3a..1326809 100644
--- a/src/DLMS_SPODES/types/useful_types.py
+++ b/src/DLMS_SPODES/types/useful_types.py
@@ -546,11 +546,11 @@ class BitString(UT):
         return ''.join(map(str, self.value))
 
     def __setitem__(self, key: int, value: int | bool):
-        self.value[key] = value
+        self.value[key] = int(value)
 
     def inverse(self, index: int):
         """ inverse one bit by index"""
-        self.value[index] = not self.value[index]
+        self.value[index] = int(not self.value[index])
 
     # def __lshift__(self, other):
     #     for i in range(other):
-- 
2.43.0


From f594c781de98b48b54048e5dd18c978acb212469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:28 +0000
Subject: [PATCH 050/139] fix: useful_types.Choice.from_str with a space in the
 value text

---
 src/DLMS_SPODES/types/useful_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/useful_types.py b/src/DLMS_SPODES/types/useful_types.py
index 1326809..3caf453 100644
--- a/src/DLMS_SPODES/types/useful_types.py
+++ b/src/DLMS_SPODES/types/useful_types.py
@@ -338,7 +338,7 @@ class Choice(UT):
 
     @classmethod
     def from_str(cls, value: str) -> Self:
-        tag, value2 = value.split(sep=" ")
+        tag, value2 = value.split(sep=" ", maxsplit=1)
         tag: str
         if not tag.isdigit():
             raise ValueError(F"in {value}, got {tag=}, expected is digit")
-- 
2.43.0


From d05344d27474c1e1dd1cdbb7f1875d5af24a7eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:33 +0000
Subject: [PATCH 051/139] fix: useful_types.Data kept no difference of
 bcd/integer, unsigned/enum, null-data/dont-care and encoded another tag

---
 src/DLMS_SPODES/types/useful_types.py | 28 ++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/DLMS_SPODES/types/useful_types.py b/src/DLMS_SPODES/types/useful_types.py
index 3caf453..a5411fe 100644
--- a/src/DLMS_SPODES/types/useful_types.py
+++ b/src/DLMS_SPODES/types/useful_types.py
@@ -346,6 +346,9 @@ class Choice(UT):
 
     @classmethod
     def _get_element_by_type(cls, value: Type[UT]) -> ChoiceElement:
+        for el in cls.ELEMENTS:
+            if value is el.type:
+                return el
         for el in cls.ELEMENTS:
             if issubclass(value, el.type):
                 return el
@@ -935,6 +938,25 @@ class CosemMethodDescriptor(Sequence):
     method_id: CosemObjectMethodId
 
 
+class Bcd(Integer8):
+    """ binary coded decimal """
+
+
+class Enum(Unsigned8):
+    """ ENUMERATED """
+
+
+class DontCare(Null):
+    """ dont-care """
+    @classmethod
+    def from_contents(cls, value: bytes) -> Self:
+        return cls()
+
+    @classmethod
+    def from_str(cls, value: str):
+        return cls()
+
+
 class Data(Choice):
     ELEMENTS = (
         ChoiceElement(name="null-data",             tag=0,  type=Null),
@@ -947,7 +969,7 @@ class Data(Choice):
         ChoiceElement(name="octet-string", tag=9, type=OctetString),
         ChoiceElement(name="visible-string",        tag=10, type=VisibleString),
         ChoiceElement(name="utf8-string",           tag=12, type=UTF8String),
-        ChoiceElement(name="bcd",                   tag=13, type=Integer8),
+        ChoiceElement(name="bcd",                   tag=13, type=Bcd),
         ChoiceElement(name="integer",               tag=15, type=Integer8),
         ChoiceElement(name="long",                  tag=16, type=Integer16),
         ChoiceElement(name="unsigned",              tag=17, type=Unsigned8),
@@ -955,11 +977,11 @@ class Data(Choice):
         # ChoiceElement(name="compact-array",         tag=19, type=...),
         ChoiceElement(name="long64",                tag=20, type=Integer64),
         ChoiceElement(name="long64-unsigned",       tag=21, type=Unsigned64),
-        ChoiceElement(name="enum",                  tag=22, type=Unsigned8),
+        ChoiceElement(name="enum",                  tag=22, type=Enum),
         # ChoiceElement(name="float32",               tag=23, IMPLICIT   OCTET STRING (SIZE(4)),
         # ChoiceElement(name="float64",               tag=24,  IMPLICIT   OCTET STRING (SIZE(8)),
         # ChoiceElement(name="date-time",             tag=25,  IMPLICIT   OCTET STRING (SIZE(12)),
         # ChoiceElement(name="date",                  tag=26,  IMPLICIT   OCTET STRING (SIZE(5)),
         # ChoiceElement(name="time",                  tag=27,  type=OCTET_STRING(4)),
-        ChoiceElement(name="dont-care",             tag=255, type=Null)
+        ChoiceElement(name="dont-care",             tag=255, type=DontCare)
     )
-- 
2.43.0


From cc38a5d9c49a766d7db389fd59e1755c269976c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:37 +0000
Subject: [PATCH 052/139] fix: ByteBuffer checks the space at the position it
 reads or writes, also at 0

---
 src/DLMS_SPODES/types/byte_buffer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/types/byte_buffer.py b/src/DLMS_SPODES/types/byte_buffer.py
index 6751b06..5d947ad 100644
--- a/src/DLMS_SPODES/types/byte_buffer.py
+++ b/src/DLMS_SPODES/types/byte_buffer.py
@@ -30,7 +30,7 @@ class ByteBuffer:
 
     def _check_space(self, space: int, pos: int = None):
         """check whether this buffer has enough `space` left for r/w op"""
-        if not pos:
+        if pos is None:
             pos = self.__pos
         if self.remaining(pos) < space:
             raise BufferError(F"{self} not enough more {space=}")
@@ -45,7 +45,7 @@ class ByteBuffer:
                  pos: int,
                  length: int = 1) -> memoryview:
         """return view to position"""
-        self._check_space(length)
+        self._check_space(length, pos)
         ret = self.buf[pos: pos + length]
         return ret
 
-- 
2.43.0


From 1df633c8c764f82acd265a3f34275869a96929a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:41 +0000
Subject: [PATCH 053/139] fix: ByteBuffer.write_pos with length 0 wrote the
 whole value

---
 src/DLMS_SPODES/types/byte_buffer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/byte_buffer.py b/src/DLMS_SPODES/types/byte_buffer.py
index 5d947ad..0a7e0c8 100644
--- a/src/DLMS_SPODES/types/byte_buffer.py
+++ b/src/DLMS_SPODES/types/byte_buffer.py
@@ -61,7 +61,7 @@ class ByteBuffer:
                   pos: int,
                   length: int = None) -> int:
         """keep data to position, return length data"""
-        if not length:
+        if length is None:
             length = len(value)
         self._check_space(length, pos)
         self.buf[pos: pos + length] = value
-- 
2.43.0


From a3cd4b7061698dce0108a330c112707ca8d2938a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:46 +0000
Subject: [PATCH 054/139] fix: ByteBuffer.set_pos accepts the end of the
 buffer, the position after reading all of it

---
 src/DLMS_SPODES/types/byte_buffer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/byte_buffer.py b/src/DLMS_SPODES/types/byte_buffer.py
index 0a7e0c8..ed75370 100644
--- a/src/DLMS_SPODES/types/byte_buffer.py
+++ b/src/DLMS_SPODES/types/byte_buffer.py
@@ -114,7 +114,7 @@ class ByteBuffer:
 
     def set_pos(self, index):
         """set new position, with check"""
-        if 0 <= index < len(self):
+        if 0 <= index <= len(self):
             self.__pos = index
         else:
             raise IndexError(F"{self} can't set {index=}")
-- 
2.43.0


From 749de6e1109f69895d92302989749e7f7b55ab78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:50 +0000
Subject: [PATCH 055/139] fix: Buffer.get_length takes the amount of length
 octets from the low seven bits

---
 src/DLMS_SPODES/types/cosem_pdu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/cosem_pdu.py b/src/DLMS_SPODES/types/cosem_pdu.py
index 474a5c6..3a4a627 100644
--- a/src/DLMS_SPODES/types/cosem_pdu.py
+++ b/src/DLMS_SPODES/types/cosem_pdu.py
@@ -34,7 +34,7 @@ class Buffer(ByteBuffer):
         """ return common element length from buffer, with increasing by decoding according to 8.1.3 Length octets ITU-T Rec. X.690 (07/2002) """
         define_length = self.get_uint8()
         if define_length & 0b10000000:
-            return self.get_uint(define_length >> 1)
+            return self.get_uint(define_length & 0x7f)
         else:
             return define_length
 
-- 
2.43.0


From 200bfe527a29ed7c845751c638e6bbd1a6c2a5d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:54 +0000
Subject: [PATCH 056/139] fix: Buffer.put_len writes lengths of 128 and more at
 the current position and goes on

---
 src/DLMS_SPODES/types/cosem_pdu.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/DLMS_SPODES/types/cosem_pdu.py b/src/DLMS_SPODES/types/cosem_pdu.py
index 3a4a627..43095d8 100644
--- a/src/DLMS_SPODES/types/cosem_pdu.py
+++ b/src/DLMS_SPODES/types/cosem_pdu.py
@@ -47,19 +47,13 @@ class Buffer(ByteBuffer):
         if length < 0x80:
             return self.put_int(length)
         elif length < 0x1_00:
-            _length1.pack_into(self.buf, 0,
-                               0x81, length)
-            return 2
+            return self.write(_length1.pack(0x81, length))
         elif length < 0x1_00_00:
-            _length2.pack_into(self.buf, 0,
-                               0x82, length)
-            return 3
+            return self.write(_length2.pack(0x82, length))
         elif length < 0x1_00_00_00_00:
-            _length4.pack_into(self.buf, 0,
-                               0x84, length)
-            return 5
+            return self.write(_length4.pack(0x84, length))
         else:
-            amount = int(log(length, 256)) + 1
+            amount = (length.bit_length() + 7) // 8
             ret: int = self.put_int(0x80 + amount)
             length: bytes = length.to_bytes(amount, byteorder='big')
             return ret + self.write(length)
-- 
2.43.0


From ccdfe0d20a61d46c35da08dd5cf4fe6e50acad82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:58 +0000
Subject: [PATCH 057/139] fix: cosem_pdu: exact amount of length octets for
 lengths of 2^32 and more

---
 src/DLMS_SPODES/types/cosem_pdu.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/DLMS_SPODES/types/cosem_pdu.py b/src/DLMS_SPODES/types/cosem_pdu.py
index 43095d8..4686754 100644
--- a/src/DLMS_SPODES/types/cosem_pdu.py
+++ b/src/DLMS_SPODES/types/cosem_pdu.py
@@ -2,7 +2,6 @@ from abc import ABC, abstractmethod
 from typing import Self, Type
 from dataclasses import dataclass
 from struct import pack, pack_into, Struct
-from math import log
 from .byte_buffer import ByteBuffer
 
 
@@ -17,7 +16,7 @@ def decide_len(length: int) -> int:
     elif length < 0x1_00_00_00_00:
         return 5
     else:
-        amount = int(log(length, 256)) + 1
+        amount = (length.bit_length() + 7) // 8
         return 1 + amount
 
 
@@ -75,7 +74,7 @@ def encode_length(length: int) -> bytes:
     elif length < 0x1_00_00_00_00:
         return pack(">BL", 0x84, length)
     else:
-        amount = int(log(length, 256)) + 1
+        amount = (length.bit_length() + 7) // 8
         return pack('B', 0x80 + amount) + length.to_bytes(amount, byteorder='big')
 
 
-- 
2.43.0


From 461db35b2b37ad1dc0812cac46ceae18a538bdce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:01 +0000
Subject: [PATCH 058/139] fix: cosem_pdu.INTEGER comparison raised
 AttributeError

---
 src/DLMS_SPODES/types/cosem_pdu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/cosem_pdu.py b/src/DLMS_SPODES/types/cosem_pdu.py
index 4686754..9895ffa 100644
--- a/src/DLMS_SPODES/types/cosem_pdu.py
+++ b/src/DLMS_SPODES/types/cosem_pdu.py
@@ -272,7 +272,7 @@ class INTEGER(Simple, ABC):
 
     def __gt__(self, other: Self):
         match other:
-            case INTEGER(): return self.contents > other.value
+            case INTEGER(): return int(self) > int(other)
             case _:          raise TypeError(F'Compare type is {other.__class__}, expected Digital')
 
     def __hash__(self):
-- 
2.43.0


From f2a8bb0190d4248388dfc3b0ae98ddac7dfc3022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:05 +0000
Subject: [PATCH 059/139] fix: cosem_pdu.Choice and SEQUENCE OF return their
 elements by index

---
 src/DLMS_SPODES/types/cosem_pdu.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/types/cosem_pdu.py b/src/DLMS_SPODES/types/cosem_pdu.py
index 9895ffa..a8c3892 100644
--- a/src/DLMS_SPODES/types/cosem_pdu.py
+++ b/src/DLMS_SPODES/types/cosem_pdu.py
@@ -631,7 +631,7 @@ class Choice(UT):
         return len(self.value) + 1
 
     def __getitem__(self, item):
-        raise self.value[item]
+        return self.value[item]
 
 
 class _SequenceOf(UT):
@@ -669,7 +669,7 @@ class _SequenceOf(UT):
         return decide_len(len(self.values)) + sum(map(len, self.values))
 
     def __getitem__(self, item):
-        raise self.values[item]
+        return self.values[item]
 
 
 def SEQUENCE_OF(value: Type[UT]) -> Type[_SequenceOf]:
-- 
2.43.0


From 14bc5aff89fac38bdc323f962a298395a216583a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:09 +0000
Subject: [PATCH 060/139] fix: cosem_pdu.Data kept no difference of
 bcd/integer, unsigned/enum, float32/time, null-data/dont-care and encoded
 another tag

---
 src/DLMS_SPODES/types/cosem_pdu.py | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/DLMS_SPODES/types/cosem_pdu.py b/src/DLMS_SPODES/types/cosem_pdu.py
index a8c3892..ed48e72 100644
--- a/src/DLMS_SPODES/types/cosem_pdu.py
+++ b/src/DLMS_SPODES/types/cosem_pdu.py
@@ -597,6 +597,9 @@ class Choice(UT):
 
     @classmethod
     def _get_element_by_type(cls, value: Type[UT]) -> ChoiceElement:
+        for el in cls.ELEMENTS:
+            if value is el.type:
+                return el
         for el in cls.ELEMENTS:
             if issubclass(value, el.type):
                 return el
@@ -679,6 +682,25 @@ def SEQUENCE_OF(value: Type[UT]) -> Type[_SequenceOf]:
     return SequenceOf
 
 
+class Bcd(Integer8):
+    """ binary coded decimal """
+
+
+class Enum(Unsigned8):
+    """ ENUMERATED """
+
+
+class Time(OctetString4):
+    """ OCTET STRING (SIZE(4)) """
+
+
+class DontCare(NULL):
+    """ dont-care """
+    @classmethod
+    def from_str(cls, value: str):
+        return cls.default()
+
+
 class Data(Choice):
     ELEMENTS = """define after, because has link to Self"""
 
@@ -694,7 +716,7 @@ Data.ELEMENTS = (
         ChoiceElement("octet-string",          9, OctetString),
         # ChoiceElement(name="visible-string",        10, VisibleString),
         # ChoiceElement(name="utf8-string",           12, UTF8String),
-        ChoiceElement("bcd",                   13, Integer8),
+        ChoiceElement("bcd",                   13, Bcd),
         ChoiceElement("integer",               15, Integer8),
         ChoiceElement("long",                  16, Integer16),
         ChoiceElement("unsigned",              17, Unsigned8),
@@ -702,11 +724,11 @@ Data.ELEMENTS = (
         # ChoiceElement("compact-array",         19, ...),
         ChoiceElement("long64",                20, Integer64),
         ChoiceElement("long64-unsigned",       21, Unsigned64),
-        ChoiceElement("enum",                  22, Unsigned8),
+        ChoiceElement("enum",                  22, Enum),
         ChoiceElement("float32",               23, OctetString4),
         ChoiceElement("float64",               24, OctetString8),
         ChoiceElement("date-time",             25, OctetString12),
         ChoiceElement("date",                  26, OctetString5),
-        ChoiceElement("time",                  27, OctetString4),
-        ChoiceElement("dont-care",             255, NULL)
+        ChoiceElement("time",                  27, Time),
+        ChoiceElement("dont-care",             255, DontCare)
     )
-- 
2.43.0


From d92ff34b3ca4dae074eae53b96a58cfc5fd40539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:58 +0000
Subject: [PATCH 061/139] fix: refuse the indefinite form of length octets, it
 was read as length 0

---
 src/DLMS_SPODES/types/common_data_types.py | 2 +-
 src/DLMS_SPODES/types/cosem_pdu.py         | 2 ++
 src/DLMS_SPODES/types/useful_types.py      | 2 +-
 3 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index bcf0a28..8b13ac5 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -67,7 +67,7 @@ def get_length_and_pdu(input_pdu: bytes) -> tuple[int, bytes]:
         raise ValueError('Value is empty')
     if bool(define_length & 0b10000000):
         content_start += define_length - 0x80
-        if len(input_pdu) < content_start:
+        if define_length == 0x80 or len(input_pdu) < content_start:
             raise ValueError(F'Length octets are cut short: {input_pdu.hex()}')
         length = int.from_bytes(input_pdu[1:content_start], 'big')
     else:
diff --git a/src/DLMS_SPODES/types/cosem_pdu.py b/src/DLMS_SPODES/types/cosem_pdu.py
index ed48e72..13a8fe1 100644
--- a/src/DLMS_SPODES/types/cosem_pdu.py
+++ b/src/DLMS_SPODES/types/cosem_pdu.py
@@ -32,6 +32,8 @@ class Buffer(ByteBuffer):
     def get_length(self) -> int:
         """ return common element length from buffer, with increasing by decoding according to 8.1.3 Length octets ITU-T Rec. X.690 (07/2002) """
         define_length = self.get_uint8()
+        if define_length == 0x80:
+            raise ValueError("the indefinite form has no length")
         if define_length & 0b10000000:
             return self.get_uint(define_length & 0x7f)
         else:
diff --git a/src/DLMS_SPODES/types/useful_types.py b/src/DLMS_SPODES/types/useful_types.py
index a5411fe..0c25b9d 100644
--- a/src/DLMS_SPODES/types/useful_types.py
+++ b/src/DLMS_SPODES/types/useful_types.py
@@ -40,7 +40,7 @@ def get_length_and_pdu(input_pdu: bytes) -> tuple[int, bytes]:
         raise ValueError('in try getting length, got empty value')
     if bool(define_length & 0b10000000):
         content_start += define_length - 0x80
-        if len(input_pdu) < content_start:
+        if define_length == 0x80 or len(input_pdu) < content_start:
             raise ValueError(F'length octets are cut short: {input_pdu.hex()}')
         length = int.from_bytes(input_pdu[1:content_start], 'big')
     else:
-- 
2.43.0


From 3b93c0348eb27de6de05db6d2e01646ef8ecff08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:58 +0000
Subject: [PATCH 062/139] fix: a scaled value of more than about 10^9 steps was
 stored one step too low

---
 src/DLMS_SPODES/types/common_data_types.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 8b13ac5..d4b9fba 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -1,5 +1,6 @@
 from itertools import chain
 from dataclasses import dataclass
+from decimal import Decimal
 from struct import pack, unpack
 from abc import ABC, abstractmethod
 from typing import Type, Any, Callable, TypeAlias, Self
@@ -474,7 +475,7 @@ class Digital(ABC):
     def from_int(self, value: int | float) -> bytes:
         try:
             match self.SCALER_UNIT:
-                case ScalUnitType(): value = round(value * 10**(-self.SCALER_UNIT.scaler.decode()+self.SCALER_UNIT.unit.get_scaler()), 6)
+                case ScalUnitType(): value = Decimal(F'{value:.15g}' if isinstance(value, float) else value).scaleb(self.SCALER_UNIT.unit.get_scaler()-self.SCALER_UNIT.scaler.decode())
                 case None:           """ no scaler """
                 case _ as error:     raise ValueError(F'Unknown scaler_unit: {error}')
             return int(value).to_bytes(self.LENGTH, 'big', signed=self.SIGNED)
-- 
2.43.0


From b74dd150ba43381ae96b2defe4a4bd3b1d4b697b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:32 +0000
Subject: [PATCH 063/139] fix: text of an integer just out of the 64-bit range
 was stored as its neighbour

---
 src/DLMS_SPODES/types/common_data_types.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index d4b9fba..0dce77c 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -484,9 +484,10 @@ class Digital(ABC):
 
     def from_str(self, value: str) -> bytes:
         try:
-            return self.from_int(int(value))
+            number = int(value)
         except ValueError:
-            return self.from_int(float(value))
+            number = float(value)
+        return self.from_int(number)
 
     def clear(self):
         if self.DEFAULT:
-- 
2.43.0


From ed8bfaad67f338b312761891abad13757218eaa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:06 +0000
Subject: [PATCH 064/139] fix: insert put an equal element into an array of
 unique elements

---
 src/DLMS_SPODES/types/common_data_types.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 0dce77c..515fcaf 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -309,6 +309,8 @@ class __Array(ABC):
 
     def insert(self, index: int, element: CommonDataType):
         if isinstance(element, self.TYPE):
+            if getattr(self, "unique", False) and element in self.values:
+                raise ValueError(F"element {element} already exist in {self.__class__.__name__}")
             self.values.insert(index, element)
 
     def pop(self, index: int | None = None) -> CommonDataType:
-- 
2.43.0


From 237191e792227a0e8ff0bf8750869dfb5130f180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:22 +0000
Subject: [PATCH 065/139] fix: set_year accepts the year 1 as its message says

---
 src/DLMS_SPODES/types/common_data_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 515fcaf..43015f4 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -784,7 +784,7 @@ class __Date(ABC):
 
     def set_year(self, value: int):
         """ set day """
-        if (9999 >= value > 1) or value == 0xffff:
+        if (9999 >= value >= 1) or value == 0xffff:
             contents = bytearray(self.contents)
             contents[:2] = value.to_bytes(2, 'big')
             self.set(contents)
-- 
2.43.0


From a6e193643292f72103d5c91d09b1521f2699a53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:26 +0000
Subject: [PATCH 066/139] fix: set_weekday refuses a weekday out of range
 instead of ignoring it

---
 src/DLMS_SPODES/types/common_data_types.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 43015f4..7468951 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -815,6 +815,8 @@ class __Date(ABC):
             contents = bytearray(self.contents)
             contents[4] = value
             self.set(contents)
+        else:
+            raise ValueError(F'Weekday out of range, got {value}, expected 1..7, 255')
 
     @abstractmethod
     def decode(self) -> datetime.datetime:
-- 
2.43.0


From c68d41f44e18f189576edd249d5a27946e2b4cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:35 +0000
Subject: [PATCH 067/139] fix: text of a string with the octet 98h, which
 cp1251 does not define, raised UnicodeDecodeError

---
 src/DLMS_SPODES/types/common_data_types.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 7468951..42c1f97 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -1685,7 +1685,7 @@ class OctetString(_String, SimpleDataType):
         temp = list()
         for i in self.contents:
             temp.append(i if i > 32 else 63)
-        return bytes(temp).decode(encoding)
+        return bytes(temp).decode(encoding, errors="replace").replace("\ufffd", "?")
 
     def __bytes__(self):
         return self.contents
@@ -1702,7 +1702,7 @@ class VisibleString(_String, SimpleDataType):
         return bytes(str(value), 'cp1251')
 
     def __str__(self):
-        return bytes([char if char >= 0x20 else 63 for char in self.contents]).decode(encoding='cp1251')
+        return self.decode()
 
     def __len__(self):
         return len(self.contents)
@@ -1712,7 +1712,7 @@ class VisibleString(_String, SimpleDataType):
         temp = list()
         for i in self.contents:
             temp.append(i if i >= 32 else 63)
-        return bytes(temp).decode(encoding)
+        return bytes(temp).decode(encoding, errors="replace").replace("\ufffd", "?")
 
     def to_str(self) -> str:
         return self.decode()
-- 
2.43.0


From 5c6e1aed90b043f1993850e7af69b0a0cbe9931f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:55 +0000
Subject: [PATCH 068/139] fix: Conformance from text, octets or number of
 another size is refused with ValueError

---
 src/DLMS_SPODES/types/implementations/bitstrings.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/DLMS_SPODES/types/implementations/bitstrings.py b/src/DLMS_SPODES/types/implementations/bitstrings.py
index e7ff596..eed33d8 100644
--- a/src/DLMS_SPODES/types/implementations/bitstrings.py
+++ b/src/DLMS_SPODES/types/implementations/bitstrings.py
@@ -49,10 +49,11 @@ class Conformance(cdt.BitString):
         match value[:1]:
             case self.TAG if len(self) <= len(pdu) * 8: return pdu[:3]
             case self.TAG:                              raise ValueError(F'Got pdu length:{len(pdu)}, expected at least {len(self) >> 3}')
-            case _ as error:                            raise TypeError(F'Expected {self.NAME} type, got {cdt.get_common_data_type_from(error).NAME}')
+            case _ as error:                            raise ValueError(F'Expected {self.TAG} type, got {cdt.TAG(error)}')
 
     def from_str(self, value: str) -> bytes:
-        value = value + '0' * ((8 - len(self)) % 8)
+        if len(value) != len(self) or not set(value) <= {'0', '1'}:
+            raise ValueError(F'got bits {value}, expected {len(self)} of 0 and 1')
         list_ = [value[count:(count + 8)] for count in range(0, len(self), 8)]
         value = b''
         for byte in list_:
@@ -60,8 +61,8 @@ class Conformance(cdt.BitString):
         return value
 
     def from_int(self, value: int) -> bytes:
-        if value < 0:
-            raise ValueError
+        if value < 0 or value >> len(self):
+            raise ValueError(F'got {value}, expected {len(self)} bits')
         res = 0
         start_bit = 2 ** (len(self) - 1)
         for i in range(len(self)):
@@ -70,6 +71,8 @@ class Conformance(cdt.BitString):
         return res.to_bytes(len(self) // 8, byteorder='big')
 
     def from_bytearray(self, value: bytearray) -> bytes:
+        if len(value) * 8 != len(self):
+            raise ValueError(F'got {len(value)} octets, expected {len(self) // 8}')
         return bytes(value)
 
     @classmethod
-- 
2.43.0


From 8ede6120cd6681ce389583a0564042e455e21f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:58 +0000
Subject: [PATCH 069/139] fix: flags from text of another size or with other
 characters than 0 and 1 are refused

---
 src/DLMS_SPODES/types/common_data_types.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 42c1f97..c8f60a8 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -379,6 +379,8 @@ class FlagMixin(ABC):
             case _ as bit_error: raise ValueError(F'Unused bit set: {bin(bit_error)}')
 
     def from_str(self, value: str) -> bytes:
+        if len(value) != len(self) or not set(value) <= {'0', '1'}:
+            raise ValueError(F'got bits {value}, expected {len(self)} of 0 and 1')
         value = value + '0' * ((8 - len(self)) % 8)
         list_ = [value[count:(count + 8)] for count in range(0, len(self), 8)]
         value = b''
-- 
2.43.0


From 5472b41160bcdf3781769534e44b4c77209b1b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:28 +0000
Subject: [PATCH 070/139] fix: an enumeration derived from another with its own
 elements took over the elements of its base

---
 src/DLMS_SPODES/types/common_data_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index c8f60a8..284d59f 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -1918,7 +1918,7 @@ class Enum(SimpleDataType, ABC):
 
     def __init_subclass__(cls, **kwargs):
         """initiate ELEMENTS name use config.toml"""
-        if not cls.ELEMENTS:
+        if not cls.ELEMENTS or "elements" in kwargs:
             elements: tuple[int, ...] = kwargs["elements"]
             try:
                 c = {par["e"]: par["v"] for par in config["DLMS"][cls.__name__]}
-- 
2.43.0


From 55cc33426b4bae844007e3487272698c4a3180ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:09 +0000
Subject: [PATCH 071/139] fix: a season that has not begun yet made the current
 season of the activity calendar a TypeError

---
 src/DLMS_SPODES/cosem_interface_classes/activity_calendar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/activity_calendar.py b/src/DLMS_SPODES/cosem_interface_classes/activity_calendar.py
index a4aea9a..68b0dd6 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/activity_calendar.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/activity_calendar.py
@@ -194,13 +194,13 @@ class ActivityCalendar(ic.COSEMInterfaceClasses):
     def get_current_season(self, server_time: datetime.datetime = None) -> Season:
         """ current server season by current time """
         server_time = self.collection.current_time if server_time is None else server_time
-        active_season: tuple[Season | None, datetime.datetime] = None, datetime.datetime(datetime.MINYEAR, 1, 1, tzinfo=datetime.timezone.utc)
+        active_season: tuple[Season | None, datetime.datetime | None] = None, None
         if self.season_profile_active is None:
             raise AttributeError(F'{self}: attribute Season profile is empty. Need receive it from server')
         for season in self.season_profile_active:
             season: Season
             left_point = season.season_start.get_left_nearest_datetime(server_time)
-            if active_season[1] < left_point:
+            if left_point is not None and (active_season[1] is None or active_season[1] < left_point):
                 active_season = season, left_point
         if active_season[0] is None:
             raise AttributeError('Season Not found in Activity calendar object')
-- 
2.43.0


From ff4f1a7fafd2f52473b65e6e375d8e55ac7e2428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:13 +0000
Subject: [PATCH 072/139] fix: the action of a day that starts at midnight was
 never the current one

---
 src/DLMS_SPODES/cosem_interface_classes/activity_calendar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/activity_calendar.py b/src/DLMS_SPODES/cosem_interface_classes/activity_calendar.py
index 68b0dd6..e65773f 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/activity_calendar.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/activity_calendar.py
@@ -237,11 +237,11 @@ class ActivityCalendar(ic.COSEMInterfaceClasses):
         """ current server day action by current time """
         server_time = self.collection.current_time
         day = self.get_current_day(server_time)
-        active: tuple[DayProfileAction | None, datetime.time] = None, datetime.time(hour=0, minute=0, second=0)
+        active: tuple[DayProfileAction | None, datetime.time | None] = None, None
         for day_profile_action in day.day_schedule:
             day_profile_action: DayProfileAction
             left_point = day_profile_action.start_time.get_left_nearest_time(server_time.time())
-            if left_point is not None and active[1] < left_point:
+            if left_point is not None and (active[1] is None or active[1] < left_point):
                 active = day_profile_action, left_point
         if active[0] is None:
             raise AttributeError('Action Not found in Activity calendar object')
-- 
2.43.0


From 384d5bf0ab699c68f4ddf9aa518a5cd7e7ecf7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:18 +0000
Subject: [PATCH 073/139] fix: the day id of Sunday was not validated

---
 src/DLMS_SPODES/cosem_interface_classes/activity_calendar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/activity_calendar.py b/src/DLMS_SPODES/cosem_interface_classes/activity_calendar.py
index e65773f..5e7918d 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/activity_calendar.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/activity_calendar.py
@@ -293,7 +293,7 @@ class ActivityCalendar(ic.COSEMInterfaceClasses):
                     weeks.append(week_profile.week_profile_name)
                 else:
                     duplicates.add(week_profile.week_profile_name)
-                for i in range(1, 7):
+                for i in range(1, 8):
                     if week_profile[i] not in days:
                         raise ic.ObjectValidationError(
                             ln=self.logical_name,
-- 
2.43.0


From 46ebbda55ef11ce7b50205768bab986e2e478348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:22 +0000
Subject: [PATCH 074/139] fix: special days repeating by not specified fields
 of the date never took place

---
 .../cosem_interface_classes/special_days_table.py    | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/special_days_table.py b/src/DLMS_SPODES/cosem_interface_classes/special_days_table.py
index aa72f74..dd547de 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/special_days_table.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/special_days_table.py
@@ -1,3 +1,4 @@
+import calendar
 import datetime
 from .__class_init__ import *
 
@@ -80,6 +81,15 @@ class SpecialDaysTable(ic.COSEMInterfaceClasses):
         except KeyError:  # At init time
             print('set delete NO:')
 
+    @staticmethod
+    def __is_match(pattern: bytes, date: datetime.date) -> bool:
+        """ pattern: contents of date, its not specified fields fit any date. Daylight savings months are unknown here """
+        last_day = calendar.monthrange(date.year, date.month)[1]
+        return (pattern[:2] in (b'\xff\xff', date.year.to_bytes(2, "big"))
+                and pattern[2] in (0xff, date.month)
+                and pattern[3] in (0xff, date.day, *((0xfe,) if date.day == last_day else (0xfd,) if date.day == last_day - 1 else ()))
+                and pattern[4] in (0xff, date.isoweekday()))
+
     def __delete_entry(self):
         """remove one entry by according delete method index. Call after execute"""
         for entry in self.entries.values:
@@ -97,7 +107,7 @@ class SpecialDaysTable(ic.COSEMInterfaceClasses):
         else:
             current_date: datetime.date = server_time.date()
             for spec_day_entry in self.entries:
-                if spec_day_entry.specialday_date.decode() == current_date:
+                if self.__is_match(spec_day_entry.specialday_date.contents, current_date):
                     return spec_day_entry.day_id
             else:
                 return None
-- 
2.43.0


From 34ae5d6c7750c848af4fc495c28bed4fbbb6690e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:28 +0000
Subject: [PATCH 075/139] fix: an empty image or a block size of 0 made the
 image transfer fail half-way or never end

---
 .../cosem_interface_classes/image_transfer/ver0.py            | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/image_transfer/ver0.py b/src/DLMS_SPODES/cosem_interface_classes/image_transfer/ver0.py
index 08765f1..65adc36 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/image_transfer/ver0.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/image_transfer/ver0.py
@@ -96,6 +96,10 @@ class ImageTransfer(ic.COSEMInterfaceClasses):
     def set_image_for_update(self, value: bytes, identifier: bytearray):
         """ set to image_for_update from bytes and set to first block if identifier is new """
         block_size: int = self.image_block_size.decode()
+        if block_size == 0:
+            raise ValueError(F"for {self} got image_block_size: 0")
+        if len(value) == 0:
+            raise ValueError(F"for {self} got empty image")
         self.clear_image()
         while len(value) != 0:
             self.__blocks_for_update.append(bytearray(value[:block_size]))
-- 
2.43.0


From 82aa1bdd62ac3ae00aa91652f99bfa3544832a21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:32 +0000
Subject: [PATCH 076/139] fix: a wrong negotiation field left the HDLC setup
 half changed or raised IndexError

---
 .../iec_hdlc_setup/ver1.py                        | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/iec_hdlc_setup/ver1.py b/src/DLMS_SPODES/cosem_interface_classes/iec_hdlc_setup/ver1.py
index e16cf1c..1b24709 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/iec_hdlc_setup/ver1.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/iec_hdlc_setup/ver1.py
@@ -79,18 +79,25 @@ class IECHDLCSetup(ic.COSEMInterfaceClasses):
         """ negotiation from client """
         if info[:2] == b'\x81\x80':
             info = info.removeprefix(b'\x81\x80')
+            if len(info) == 0:
+                raise ValueError('HDLS negotiation length is absent')
             length, info = info[0], info[1:]
             if length == len(info):
+                values: list[tuple[int, cdt.CommonDataType]] = []
                 while len(info) != 0:
+                    if len(info) < 2 or len(info) < 2 + info[1]:
+                        raise ValueError(F'HDLS negotiation parameter is cut short, got {info.hex(" ")}')
                     tag, value_length, info = info[:1], info[1], info[2:]
                     value, info = info[:value_length], info[value_length:]
                     match tag:
-                        case b'\x05': self.set_attr(5, cdt.LongUnsigned(int.from_bytes(value, 'big')))
+                        case b'\x05': values.append((5, cdt.LongUnsigned(int.from_bytes(value, 'big'))))
                                       # self.max_info_field_length_transmit.contents = (bytes(2)+value)[-2:]
-                        case b'\x06': self.set_attr(6, cdt.LongUnsigned(int.from_bytes(value, 'big')))
-                        case b'\x07': self.set_attr(3, cdt.Unsigned(int.from_bytes(value, 'big')))
-                        case b'\x08': self.set_attr(4, cdt.Unsigned(int.from_bytes(value, 'big')))
+                        case b'\x06': values.append((6, cdt.LongUnsigned(int.from_bytes(value, 'big'))))
+                        case b'\x07': values.append((3, cdt.Unsigned(int.from_bytes(value, 'big'))))
+                        case b'\x08': values.append((4, cdt.Unsigned(int.from_bytes(value, 'big'))))
                         case _:       raise ValueError(F'Invalid UA response. Got {tag.hex(" ")} from supported 05, 06, 07, 08')
+                for index, new_value in values:
+                    self.set_attr(index, new_value)
             else:
                 raise ValueError(F'HDLS negotiation length wrong, must be {length}, got {len(info)}')
         elif len(info) == 0:
-- 
2.43.0


From d1728295a4ee02f41d2251096d04d10ca38ac7fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:10 +0000
Subject: [PATCH 077/139] fix: a collection gave answers remembered from an
 earlier state or from another collection of the same type

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 9f23150..2ebe81f 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -1404,7 +1404,6 @@ class Collection:
                 logger.warning(F'Dont remove with: {logical_name}')
                 return False
 
-    @lru_cache(maxsize=100)  # amount of all classID
     def find_version(self, class_id: CosemClassId) -> cdt.Unsigned:
         """use for add new object from profile_generic if absence in object list"""
         return next(filter(lambda obj: obj.CLASS_ID == class_id, self.__container.values())).VERSION
@@ -1692,7 +1691,6 @@ class Collection:
         else:
             raise ValueError(F"object with {ln} is not {ScriptTable.CLASS_ID}")
 
-    @lru_cache(4)
     def get_association_id(self, client_sap: enums.ClientSAP) -> int:
         """return id(association instance) from it client address without current"""
         for ass in self.get_objects_by_class_id(classID.ASSOCIATION_LN):
@@ -1703,7 +1701,6 @@ class Collection:
         else:
             raise ValueError(F"absent association with {client_sap}")
 
-    @lru_cache(maxsize=1000)
     def is_readable(self, ln: cst.LogicalName,
                     index: int,
                     association_id: int,
@@ -1715,7 +1712,6 @@ class Collection:
             security_policy=security_policy
         )
 
-    @lru_cache(maxsize=1000)
     def is_writable(self, ln: cst.LogicalName,
                     index: int,
                     association_id: int,
@@ -1727,7 +1723,6 @@ class Collection:
             security_policy=security_policy
         )
 
-    @lru_cache(maxsize=1000)
     def is_accessible(self, ln: cst.LogicalName,
                       index: int,
                       association_id: int,
@@ -1741,7 +1736,6 @@ class Collection:
             m_id=m_id
         )
 
-    @lru_cache(maxsize=100)
     def get_name_and_type(self, value: structs.CaptureObjectDefinition) -> tuple[list[str], Type[cdt.CommonDataType]]:
         """ return names and type of element from collection"""
         names: list[str] = list()
-- 
2.43.0


From d80897d4f0439adb4fb49e33fdb5b555059cf931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:14 +0000
Subject: [PATCH 078/139] fix: objects taken out of a collection were still
 given by its shortcuts

---
 .../cosem_interface_classes/collection.py            | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 2ebe81f..cd4fcea 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -9,7 +9,7 @@ from struct import pack
 import datetime
 from dataclasses import dataclass
 from itertools import count, chain
-from functools import reduce, cached_property, lru_cache
+from functools import reduce, lru_cache
 from typing import TypeAlias, Iterator, Type, Self, Callable, Literal
 import logging
 from ..version import AppVersion
@@ -1510,11 +1510,11 @@ class Collection:
         else:
             return obj
 
-    @cached_property
+    @property
     def LDN(self) -> impl.data.LDN:
         return self.__get_object(o.LDN)
 
-    @cached_property
+    @property
     def current_association(self) -> AssociationLN:
         return self.__get_object(o.CURRENT_ASSOCIATION)
 
@@ -1524,7 +1524,7 @@ class Collection:
     def getAssociationBySAP(self, SAP: enums.ClientSAP) -> AssociationLN:
         return self.__get_object(bytes((0, 0, 40, 0, self.get_association_id(SAP), 255)))
 
-    @cached_property
+    @property
     def PUBLIC_ASSOCIATION(self) -> AssociationLN:
         return self.__get_object(bytes((0, 0, 40, 0, 1, 255)))
 
@@ -1547,7 +1547,7 @@ class Collection:
     def getIECHDLCSetup(self, ch: int = 0) -> IECHDLCSetup:
         return self.__get_object(bytes((0, ch, 22, 0, 0, 255)))
 
-    @cached_property
+    @property
     def TCP_UDP_setup(self) -> TCPUDPSetup:
         return self.__get_object(bytes((0, 0, 25, 0, 0, 255)))
 
@@ -1574,7 +1574,7 @@ class Collection:
     def firmware_version(self) -> Data:
         return self.__get_object(bytes((0, 0, 96, 1, 2, 255)))
 
-    @cached_property
+    @property
     def device_type(self) -> Data:
         return self.__get_object(bytes((0, 0, 96, 1, 1, 255)))
 
-- 
2.43.0


From 0fb52be5c31b302418c41461d4b4532467af52e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:17 +0000
Subject: [PATCH 079/139] fix: objects of a class could not be searched by
 CosemClassId

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index cd4fcea..724cf45 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -1459,8 +1459,8 @@ class Collection:
             raise exc.NoObject(F"not found at least one DLMS Objects from collection with {values=}")
 
     def get_objects_by_class_id(self, value: int | CosemClassId) -> list[InterfaceClass]:
-        class_id = CosemClassId(value)
-        return list(filter(lambda obj: obj.CLASS_ID == class_id, self.__container.values()))
+        class_id = int(value)
+        return list(filter(lambda obj: int(obj.CLASS_ID) == class_id, self.__container.values()))
 
     def get_objects_descriptions(self) -> list[tuple[cst.LogicalName, cdt.LongUnsigned, cdt.Unsigned]]:
         """ return container of objects for get device clone """
-- 
2.43.0


From 1378556b43b5df4209b0f37e4f88ad2d6a0bc0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:21 +0000
Subject: [PATCH 080/139] fix: interface class by groups A and C was searched
 by groups A and D

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 724cf45..de5444d 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -559,7 +559,7 @@ def get_type(class_id: CosemClassId,
                 c_m = func_map.get((ln.contents[:5]), None)
                 if not c_m:
                     # try search in C group
-                    c_m = func_map.get((ln.contents[:1]+ln.contents[3:4]), common_interface_class_map)
+                    c_m = func_map.get((ln.contents[:1]+ln.contents[2:3]), common_interface_class_map)
     return get_interface_class(class_map=c_m,
                                c_id=class_id,
                                ver=version)
-- 
2.43.0


From 0bcc49f24780e1bcb3c76ae11f0b321d2a64142a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:43 +0000
Subject: [PATCH 081/139] fix: setting the object list of an association raised
 TypeError and no object came to the collection

---
 src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py b/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py
index e65cd29..888a268 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py
@@ -341,7 +341,7 @@ class AssociationLN(ic.COSEMInterfaceClasses):
 
     def __set_to_collection(self):
         """add object to collection if it absense"""
-        self.object_list.selective_access = SelectiveAccessDescriptor()
+        self.object_list.selective_access = SelectiveAccessDescriptor(AccessSelector(), ut.Data.from_contents(b'\x00'))
         for obj_list_el in self.object_list:
             obj_list_el: ObjectListElement
             self.collection.add_if_missing(
-- 
2.43.0


From c84a0b200d3b2934f3954cde30bad2348f3f66f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:25 +0000
Subject: [PATCH 082/139] fix: comparing a version with one without patch, or
 selecting the nearest of such ones, raised TypeError

---
 src/DLMS_SPODES/version.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/DLMS_SPODES/version.py b/src/DLMS_SPODES/version.py
index eba8e65..dbad992 100644
--- a/src/DLMS_SPODES/version.py
+++ b/src/DLMS_SPODES/version.py
@@ -62,7 +62,7 @@ class AppVersion:
             return True
         elif self.__minor < other.minor:
             return False
-        if self.__patch is None:
+        if self.__patch is None or other.patch is None:
             return False
         elif self.__patch > other.patch:
             return True
@@ -78,7 +78,7 @@ class AppVersion:
             return True
         elif self.__minor < other.minor:
             return False
-        if self.__patch is None:
+        if self.__patch is None or other.patch is None:
             return True
         elif self.__patch > other.patch:
             return True
@@ -106,4 +106,4 @@ class AppVersion:
 
     def select_nearest(self, variants: list[AppVersion]) -> AppVersion | None:
         """ select left nearest from list in minor branch else return None """
-        return max(filter(lambda var: var.major == self.__major and var.minor == self.__minor and var.patch <= self.__patch, variants), default=None)
+        return max(filter(lambda var: var.major == self.__major and var.minor == self.__minor and self >= var, variants), default=None)
-- 
2.43.0


From ec93c12ce33f65f854f3e1b2207ad26b4cdab3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:29 +0000
Subject: [PATCH 083/139] fix: server versions without patch or without the
 main instance made the identification of a collection fail with TypeError

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index de5444d..6803ead 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -723,7 +723,7 @@ class Collection:
         else:
             if value.major != self.__server_ver[instance].major or value.minor != self.__server_ver[instance].minor:
                 raise ValueError(F"attempt set server version[{instance}]: {value}, existed {self.__server_ver[instance]}. Execute search of type")
-            elif value.patch <= self.__server_ver[instance].patch:
+            elif self.__server_ver[instance] >= value:
                 """success validation"""
             else:
                 raise ValueError(F"got more hi patch: {value} expected before {self.__server_ver[instance].patch}")
@@ -1319,7 +1319,7 @@ class Collection:
             if self.country_ver == AppVersion(3, 0):
                 self.__spec = "SPODES_3"
             if self.manufacturer == b"KPZ":
-                if self.server_ver and self.server_ver.get(0) < AppVersion(1, 3, 30):
+                if (server_ver := self.server_ver.get(0)) is not None and server_ver < AppVersion(1, 3, 30):
                     self.__spec = "KPZ1"
                 else:
                     self.__spec = "KPZ"
-- 
2.43.0


From 0545bdac391e754f04eef4a638b6a537e544a1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:32 +0000
Subject: [PATCH 084/139] fix: GSM diagnostic version 1 objects said their
 version is 0

---
 src/DLMS_SPODES/cosem_interface_classes/gsm_diagnostic/ver1.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/gsm_diagnostic/ver1.py b/src/DLMS_SPODES/cosem_interface_classes/gsm_diagnostic/ver1.py
index b4b2ac4..cc1eff6 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/gsm_diagnostic/ver1.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/gsm_diagnostic/ver1.py
@@ -27,6 +27,7 @@ class AdjacentCells(cdt.Array):
 
 
 class GSMDiagnostic(ver0.GSMDiagnostic):
+    VERSION = Version.V1
     A_ELEMENTS = (ver0.GSMDiagnostic.get_attr_element(2),
                   ver0.GSMDiagnostic.get_attr_element(3),
                   ver0.GSMDiagnostic.get_attr_element(4),
-- 
2.43.0


From 898b5dc104d16ca85418eefc82dfd312aca5ec80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:37 +0000
Subject: [PATCH 085/139] fix: name of an object with reserved OBIS groups
 raised ValueError or IndexError, also from adding it to a collection

---
 src/DLMS_SPODES/relation_to_OBIS.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/DLMS_SPODES/relation_to_OBIS.py b/src/DLMS_SPODES/relation_to_OBIS.py
index beb3ab7..ccb5dcf 100644
--- a/src/DLMS_SPODES/relation_to_OBIS.py
+++ b/src/DLMS_SPODES/relation_to_OBIS.py
@@ -47,7 +47,7 @@ def get_obj_names(electric_obj: int) -> str:
         case 131: return F"{rn.POWER_REACTIVE_FACTOR} {rn.ALL_PHASE}"
         case 133: return F"{rn.VOLTAGE_ASYMMETRY_COEFFICIENT}"
         case 147: return F"{rn.RU_TOTAL_DEVIATION_TIME} {rn.FOR} {rn.VOLTAGE}"
-        case _:   raise ValueError(F"getting electrical name by C group with unknown: C={electric_obj}")
+        case _:   return F"{rn.UNKNOWN} C={electric_obj}"
 
 
 def get_harmonics_name(classification: int) -> str:
@@ -59,7 +59,7 @@ def get_harmonics_name(classification: int) -> str:
         case 126:                             return rn.ALL_HARMONICS
         case 127:                             return rn.ALL_HARMONICS_TO_NOMINAL_VALUE_RATIO
         case _ if 120 >= classification >= 1: return F"{rn.HARMONIC} {classification}"
-        case _: raise ValueError(F"for get harmonics unknown {classification=}")
+        case _: return F"{rn.UNKNOWN} E={classification}"
 
 
 def get_processing_names(d: int) -> str:
@@ -124,7 +124,7 @@ def get_processing_names(d: int) -> str:
         case 129: return rn.RU_NEGATIVE_DEVIATION
         case 133: return F"{rn.RU_TOTAL_DEVIATION_TIME} {rn.BILLING_PERIOD}"
         case 134: return rn.RU_CHANGE_LIMIT_LEVEL
-        case _:  raise ValueError(F'Unknown Processing of measurement values {d}')
+        case _:  return F"{rn.UNKNOWN} D={d}"
 
 
 def get_rate(value: int) -> str:
@@ -407,7 +407,7 @@ def get_name(logical_name: cst.LogicalName) -> str:
             return F"{handle_B(b)}{rn.REACTIVE_FACTOR} {get_processing_names(d)}"
         case  1, 0, 147 as c, 133, 0: return F"{get_obj_names(c)} {rn.BILLING_PERIOD}"
         case  1, 0, 148, 36, 0: return F"{rn.OVER_VOLTAGE_COUNTER} {rn.BILLING_PERIOD}"
-        case 1, b, 81, 7, e if e < 78:
+        case 1, b, 81, 7, e if e < 78 and e % 10 < 8:
             angel_values = (rn.U_L1, rn.U_L2, rn.U_L3, rn.ERROR, rn.I_L1, rn.I_L2, rn.I_L3, rn.I_L0)
             to_, from_ = divmod(logical_name.e, 10)
             return F"{F'{rn.ANGLE_FROM} {angel_values[from_]} {rn.TO} {angel_values[to_]}'}{handle_B(b)}"
-- 
2.43.0


From f2d998c59de0f347f7a65e83a30008ce7a2b2c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:40 +0000
Subject: [PATCH 086/139] fix: country Finland (0) of a collection was replaced
 by any other

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 6803ead..bb0b995 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -675,7 +675,7 @@ class Collection:
         return self.__country
 
     def set_country(self, value: CountrySpecificIdentifiers):
-        if not self.__country:
+        if self.__country is None:
             self.__country = value
         else:
             if value != self.__country:
-- 
2.43.0


From 4854372865b40e5479f9656d8a3708a59f14661e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:11 +0000
Subject: [PATCH 087/139] fix: accessibility of a method with
 AUTHENTICATED_ACCESS raised TypeError or AttributeError

---
 .../cosem_interface_classes/association_ln/ver0.py       | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py b/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py
index 888a268..ababf23 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py
@@ -492,11 +492,10 @@ class AssociationLN(ic.COSEMInterfaceClasses):
             case pdu.MethodAccess.ACCESS:
                 return True
             case pdu.MethodAccess.AUTHENTICATED_ACCESS:
-                if not m_id:
+                if m_id is None:
+                    if self.authentication_mechanism_name is None:
+                        return False
                     m_id = self.authentication_mechanism_name.mechanism_id_element
-                if m_id >= mechanism_id.LOW:
-                    return True
-                else:
-                    return False
+                return int(m_id) >= int(mechanism_id.LOW)
             case err:
                 raise exc.ITEApplication(F"unsupport access: {err}")
-- 
2.43.0


From a4bac9c06a8cf34efc2d0293940a4e8ba748251a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:15 +0000
Subject: [PATCH 088/139] fix: objects of an association with no object list
 raised TypeError

---
 src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py b/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py
index ababf23..a10e356 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py
@@ -415,6 +415,8 @@ class AssociationLN(ic.COSEMInterfaceClasses):
             return descriptor
 
     def get_objects(self) -> list[ic.COSEMInterfaceClasses]:
+        if self.object_list is None:
+            raise exc.EmptyObj(F"{self} attr: 2")
         ret = list()
         for el in self.object_list:
             ret.append(self.collection.get_object(el.logical_name))
-- 
2.43.0


From 55199477fdbc171f778651e7681561fcc81267b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:20 +0000
Subject: [PATCH 089/139] fix: filter_by_ass of an association with no object
 list raised TypeError

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index bb0b995..22748b7 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -1427,7 +1427,10 @@ class Collection:
     def filter_by_ass(self, ass_id: int) -> list[InterfaceClass]:
         """return only association objects"""
         ret = list()
-        for olt in self.getASSOCIATION(ass_id).object_list:
+        association = self.getASSOCIATION(ass_id)
+        if association.object_list is None:
+            raise exc.EmptyObj(F'{association} attr: 2')
+        for olt in association.object_list:
             ret.append(self.__get_object(olt.logical_name.contents))
         return ret
 
-- 
2.43.0


From 820959a6b32f0811a5d44ce055370f5d87b2f60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:24 +0000
Subject: [PATCH 090/139] fix: get_writable_attr raised TypeError when an
 association has no object list

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 22748b7..eac39de 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -1473,6 +1473,8 @@ class Collection:
         """return all writable {obj.ln: {attribute_index}}"""
         ret: UsedAttributes = dict()
         for ass in filter(lambda it: it.logical_name.e != 0, self.get_objects_by_class_id(classID.ASSOCIATION_LN)):
+            if ass.object_list is None:
+                continue
             for list_type in ass.object_list:
                 for attr_access in list_type.access_rights.attribute_access:
                     if attr_access.access_mode.is_writable():
-- 
2.43.0


From dec5ae6438d8047fcb250050a42fa40b839c8ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:26 +0000
Subject: [PATCH 091/139] fix: relation group of total cost/payment objects
 (C=19, D from 50) raised TypeError

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index eac39de..cf7d454 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -2320,7 +2320,7 @@ def get_relation_group(ln: cst.LogicalName) -> RelationGroup:
         elif ln.c == 18 and ln.d == 0:
             return media_id.ARRAY_MANAGER_OBJECT
         elif ln.c == 19:
-            if (ln.d in range(0, 10) and ln.e == 0) or ln.d in range(10, 50) or ln.d in (range(50, 60) and ln.e in (1, 2)):
+            if (ln.d in range(0, 10) and ln.e == 0) or ln.d in range(10, 50) or (ln.d in range(50, 60) and ln.e in (1, 2)):
                 return media_id.PAYMENT_METERING_RELATED_OBJECTS
         elif ln.c == 20 and ln.d == 0 and ln.e in (0, 1):
             return media_id.IEC_LOCAL_PORT_SETUP_OBJECTS
-- 
2.43.0


From 2460a0255e25db552fb79e9e361fb1813b1b769c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:31 +0000
Subject: [PATCH 092/139] fix: relation group of modem objects with C=23 raised
 TypeError

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index cf7d454..51df488 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -2329,7 +2329,7 @@ def get_relation_group(ln: cst.LogicalName) -> RelationGroup:
         elif ln.c == 22 and ln.d == 0 and ln.e == 0:
             return media_id.IEC_HDLC_SETUP_OBJECTS
         elif ln.c == 23:
-            if (ln.d in 0, 1, 2 and ln.e == 0) or ln.d == 3:
+            if (ln.d in (0, 1, 2) and ln.e == 0) or ln.d == 3:
                 return media_id.IEC_TWISTED_PAIR_1_SETUP_OBJECTS
         elif ln.c == 24:
             if (ln.d in (0, 1, 4, 5, 6) and ln.e == 0) or (ln.d in (2, 8, 9)):
-- 
2.43.0


From 10dfdb4dff943597a4177826a4c0bbc9d7d7b8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:35 +0000
Subject: [PATCH 093/139] fix: relation group of gas objects with C=42 raised
 TypeError, flow rate is C=43

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 51df488..4db3e84 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -2615,8 +2615,8 @@ def get_relation_group(ln: cst.LogicalName) -> RelationGroup:
                 return media_id.MEASURED_VALUES_GAS_INDEXES_AND_INDEX_DIFFERENCES
             elif ln.d in chain(range(33, 42), range(52, 63), range(72, 81), range(90, 99)) and ln.f in chain(__range100_and_101_125_and_255, (126,)):
                 return media_id.MEASURED_VALUES_GAS_INDEXES_AND_INDEX_DIFFERENCES
-        elif ln.c == 42 and ln.e == 0:
-            if ln.d in chain(0, 1, 2, 13, range(15, 19), range(19, 31), range(35, 51), range(55, 71)) and ln.f == 255:
+        elif ln.c == 43 and ln.e == 0:
+            if ln.d in chain((0, 1, 2, 13), range(15, 19), range(19, 31), range(35, 51), range(55, 71)) and ln.f == 255:
                 return media_id.MEASURED_VALUES_GAS_FLOW_RATE
             elif ln.d in chain(range(31, 35), range(51, 55)) and ln.f in chain(__range100_and_101_125_and_255, (126,)):
                 return media_id.MEASURED_VALUES_GAS_FLOW_RATE
-- 
2.43.0


From 23157035fddc4da602509aec47ade73bb2d57c62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:40 +0000
Subject: [PATCH 094/139] fix: gas process values with D from 15 had no
 relation group

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 4db3e84..e2b8f82 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -2620,7 +2620,7 @@ def get_relation_group(ln: cst.LogicalName) -> RelationGroup:
                 return media_id.MEASURED_VALUES_GAS_FLOW_RATE
             elif ln.d in chain(range(31, 35), range(51, 55)) and ln.f in chain(__range100_and_101_125_and_255, (126,)):
                 return media_id.MEASURED_VALUES_GAS_FLOW_RATE
-        elif ln.c in chain((41, 42), range(44, 50)) and ln.d in (0, 2, 3, 10, 11, 13, range(15, 92)) and ln.e == 0 and ln.f == 255:
+        elif ln.c in chain((41, 42), range(44, 50)) and ln.d in chain((0, 2, 3, 10, 11, 13), range(15, 92)) and ln.e == 0 and ln.f == 255:
             return media_id.MEASURED_VALUES_GAS_PROCESS_VALUES
         elif ln.c in range(51, 56):
             if ln.d in (0, 2, 3, 10, 11) and ln.e in chain((0, 1), range(11, 29)) and ln.f == 255:
-- 
2.43.0


From 860ed04a88b105b0a9ff8fb5718acf36b296a1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:46 +0000
Subject: [PATCH 095/139] fix: get_filtered without a name pattern gave no
 objects

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index e2b8f82..c4e7dc2 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -2274,7 +2274,7 @@ def get_filtered(objects: list[InterfaceClass],
             continue
         elif media and get_media_id(obj.logical_name) not in media:
             continue
-        elif obj.logical_name not in patterns:
+        elif patterns and obj.logical_name not in patterns:
             continue
         new_list.append(obj)
     return new_list
-- 
2.43.0


From 9aba73729a335c65502e6038e19b3cf5b7001ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:50 +0000
Subject: [PATCH 096/139] fix: get_filtered by Hca, Thermal, Gas or Water gave
 objects of another medium

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index c4e7dc2..6444ce5 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -2252,7 +2252,7 @@ class LNPattern:
 def get_filtered(objects: list[InterfaceClass],
                  keys: tuple[CosemClassId | media_id.MediaId | LNPattern, ...]) -> list[InterfaceClass]:
     c_ids: list[CosemClassId] = list()
-    media: list[int] = list()
+    media: list[media_id.MediaId] = list()
     group: list[int] = list()
     patterns: list[LNPattern] = list()
     medias = tuple(m.subgroup for m in RelationGroups)
@@ -2261,7 +2261,7 @@ def get_filtered(objects: list[InterfaceClass],
             c_ids.append(k)
         elif isinstance(k, RelationGroup):
             if (s_g := k.subgroup) in medias:
-                media.append(s_g)
+                media.append(k)
             else:
                 group.append(s_g)
         elif isinstance(k, LNPattern):
-- 
2.43.0


From e0f7ffb2978879eec4adbf616717bb608a3bda85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:55 +0000
Subject: [PATCH 097/139] fix: get_attr_tree left empty branches

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 6444ce5..808eb17 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -1815,8 +1815,17 @@ class Collection:
                     stack.append((v, k_, v_))
             else:
                 raise ValueError('not support')
+        self.__remove_empty_branches(ret)
         return ret
 
+    @classmethod
+    def __remove_empty_branches(cls, tree: dict):
+        for k, v in tuple(tree.items()):
+            if isinstance(v, dict):
+                cls.__remove_empty_branches(v)
+            if len(v) == 0:
+                tree.pop(k)
+
     # def decode(self, file_name: str,
     #            root_tag: str = TagsName.DEVICE_ROOT.value):
     #     objects = self.__get_base_xml_element(root_tag)
-- 
2.43.0


From fa6350fa03f656a8de46ddfd2a5d4bc8826aee72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:08 +0000
Subject: [PATCH 098/139] fix: thermal error registers, lists, data profiles
 and part of energy values had no relation group

---
 .../cosem_interface_classes/collection.py     | 24 ++++++++-----------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 808eb17..16921f4 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -2579,20 +2579,16 @@ def get_relation_group(ln: cst.LogicalName) -> RelationGroup:
                     return media_id.MEASURED_VALUES_THERMAL_CONSUMPTION
             elif ln.d == 6 and ln.e == 255 and ln.f == 255:
                 return media_id.MEASURED_VALUES_THERMAL_CONSUMPTION
-        elif ln.e in range(10):
-            if ln.f in __range100_and_101_125_and_255:
-                if ln.c in range(1, 8) and ln.d in (5, 15):
-                    return media_id.MEASURED_VALUES_THERMAL_ENERGY
-                elif ln.c in (8, 9) and ln.d in (1, 4, 5, 12, 13, 14, 15):
-                    return media_id.MEASURED_VALUES_THERMAL_ENERGY
-            elif ln.c in range(10, 14):
-                if ln.d == 0 and ln.f == 255:
-                    return media_id.MEASURED_VALUES_THERMAL_ENERGY
-                elif ln.d in (4, 5, 14, 15) and ln.f in chain(range(100), range(101, 126)):
-                    return media_id.MEASURED_VALUES_THERMAL_ENERGY
-                elif ln.d in (6, 7, 10, 11) and ln.f == 255:
-                    return media_id.MEASURED_VALUES_THERMAL_ENERGY
-            elif ln.c in range(1, 14) and (ln.d in range(20, 26)) and ln.f == 255:
+        elif ln.c in range(8, 14) and ln.e in range(10):
+            if ln.c in (8, 9) and ln.d in (1, 4, 5, 12, 13, 14, 15) and ln.f in __range100_and_101_125_and_255:
+                return media_id.MEASURED_VALUES_THERMAL_ENERGY
+            elif ln.c in range(10, 14) and ln.d == 0 and ln.f == 255:
+                return media_id.MEASURED_VALUES_THERMAL_ENERGY
+            elif ln.c in range(10, 14) and ln.d in (4, 5, 14, 15) and ln.f in chain(range(100), range(101, 126)):
+                return media_id.MEASURED_VALUES_THERMAL_ENERGY
+            elif ln.c in range(10, 14) and ln.d in (6, 7, 10, 11) and ln.f == 255:
+                return media_id.MEASURED_VALUES_THERMAL_ENERGY
+            elif ln.d in range(20, 26) and ln.f == 255:
                 return media_id.MEASURED_VALUES_THERMAL_ENERGY
         elif ln.c == 97 and ln.d == 97 and ln.e in (0, 1, 2):
             return media_id.ERROR_REGISTER_OBJECTS_THERMAL
-- 
2.43.0


From ec03e056e31248d19311fdb68ca08ab697a593d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:58 +0000
Subject: [PATCH 099/139] fix: a scaled value was not the nearest number to its
 decimal fraction, so 16383 kW compared greater than 16383

---
 src/DLMS_SPODES/types/common_data_types.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 284d59f..c995a9c 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -507,7 +507,10 @@ class Digital(ABC):
         """ return the build in integer type or float type """
         match self.SCALER_UNIT:
             case None:           return int.from_bytes(self.contents, 'big', signed=self.SIGNED)
-            case ScalUnitType(): return int.from_bytes(self.contents, 'big', signed=self.SIGNED) * 10 ** (self.SCALER_UNIT.scaler.decode()-self.SCALER_UNIT.unit.get_scaler())
+            case ScalUnitType():
+                value = int.from_bytes(self.contents, 'big', signed=self.SIGNED)
+                power = self.SCALER_UNIT.scaler.decode()-self.SCALER_UNIT.unit.get_scaler()
+                return value * 10 ** power if power >= 0 else value / 10 ** -power
             case _ as error:     raise ValueError(F'Unknown scaler_unit type {error}')
 
     def __int__(self):
-- 
2.43.0


From cb9d545a42667d0a4f4f98470f02a0d131cd540c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:25 +0000
Subject: [PATCH 100/139] fix: copying attribute values between collections
 raised TypeError for most classes

---
 .../cosem_interface_classes/cosem_interface_class.py            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py b/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
index 9db8c49..55f80dd 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
@@ -285,7 +285,7 @@ class COSEMInterfaceClasses(ABC):
     def set_record_time(self, index: int, value: str | bytes | cdt.DateTime):
         self.__record_time[index-2] = cdt.DateTime(value)
 
-    def get_index_with_attributes(self) -> Iterator[tuple[int, cdt.CommonDataType | None]]:
+    def get_index_with_attributes(self, in_init_order: bool = False) -> Iterator[tuple[int, cdt.CommonDataType | None]]:
         """ if by initiation order is True then need override method for concrete class"""
         return iter(zip(range(1, self.get_attr_length()+1), self.__attributes))
 
-- 
2.43.0


From 9eac5d407d3d901ac1e33a639d76d0003d86421d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:29 +0000
Subject: [PATCH 101/139] fix: copy_objects_attr_values_from said True although
 an object was not written

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 16921f4..04cbb67 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -1500,7 +1500,7 @@ class Collection:
     def copy_objects_attr_values_from(self, other: Collection) -> bool:
         """ Copy collections values and return True if all was writen """
         if len(other) != 0:
-            return bool(reduce(lambda a, b: a or b, map(self.copy_obj_attr_values_from, other.values())))
+            return bool(reduce(lambda a, b: a and b, map(self.copy_obj_attr_values_from, other.values())))
         else:
             return False
 
-- 
2.43.0


From b0a6832b22b9d073eef81dd23d850e9d47f3b485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:33 +0000
Subject: [PATCH 102/139] fix: method descriptor of an object raised
 AttributeError

---
 .../cosem_interface_classes/cosem_interface_class.py       | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py b/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
index 55f80dd..5d606f6 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
@@ -363,9 +363,10 @@ class COSEMInterfaceClasses(ABC):
         """ TODO """
         match value:
             case int() as index:
-                return ut.CosemMethodDescriptor((CosemClassId(self.CLASS_ID.contents),
-                                                 cosemObjectInstanceId.CosemObjectInstanceId(self.logical_name.contents),
-                                                 ut.CosemObjectMethodId(index)))
+                return ut.CosemMethodDescriptor(
+                    self.CLASS_ID,
+                    cosemObjectInstanceId.CosemObjectInstanceId(self.logical_name.contents),
+                    ut.CosemObjectMethodId(index))
 
     def __hash__(self):
         return hash(self.logical_name)
-- 
2.43.0


From d2e8bb2966a42ebdf6e571267bf977ea77272bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:36 +0000
Subject: [PATCH 103/139] fix: attribute or method number 0 and negative ones
 stood for another attribute or method

---
 .../cosem_interface_classes/cosem_interface_class.py           | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py b/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
index 5d606f6..d409a26 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
@@ -192,11 +192,14 @@ class COSEMInterfaceClasses(ABC):
         """return element by order index. Override in each new class"""
         match i:
             case 1: return _LN_ELEMENT
+            case _ if i < 1: raise IndexError(F"not support {i=} as attribute")
             case _: return cls.A_ELEMENTS[i - 2]
 
     @classmethod
     def get_meth_element(cls, i: int) -> ICElement:
         """ implement in subclasses with methods """
+        if i < 1:
+            raise IndexError(F"not support {i=} as method")
         return cls.M_ELEMENTS[i - 1]
 
     @abstractmethod
-- 
2.43.0


From db5f0d2123f6a170cf69d356cfbb159092c90d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:54 +0000
Subject: [PATCH 104/139] fix: method next_period belonged to Register instead
 of DemandRegister

---
 .../cosem_interface_classes/demand_register/ver0.py           | 3 ++-
 src/DLMS_SPODES/cosem_interface_classes/register.py           | 4 +---
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/demand_register/ver0.py b/src/DLMS_SPODES/cosem_interface_classes/demand_register/ver0.py
index c484bb5..41eaec9 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/demand_register/ver0.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/demand_register/ver0.py
@@ -15,7 +15,8 @@ class DemandRegister(ic.COSEMInterfaceClasses):
                   ic.ICAElement("start_time_current", cst.OctetStringDateTime, classifier=ic.Classifier.DYNAMIC),
                   ic.ICAElement("period", cdt.DoubleLongUnsigned, min=1),
                   ic.ICAElement("number_of_periods", cdt.LongUnsigned, min=1, default=1))
-    M_ELEMENTS = ic.ICMElement("reset", integers.Only0),
+    M_ELEMENTS = (ic.ICMElement("reset", integers.Only0),
+                  ic.ICMElement("next_period", integers.Only0))
     scaler_unit_not_settable: bool
 
     @property
diff --git a/src/DLMS_SPODES/cosem_interface_classes/register.py b/src/DLMS_SPODES/cosem_interface_classes/register.py
index 1d78b4f..b0680c0 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/register.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/register.py
@@ -12,9 +12,7 @@ class Register(ic.COSEMInterfaceClasses):
     scaler_unit_not_settable: bool
     A_ELEMENTS = (ic.ICAElement("value", choices.register, classifier=ic.Classifier.NOT_SPECIFIC),
                   ic.ICAElement("scaler_unit", cdt.ScalUnitType))
-    M_ELEMENTS = (
-        ic.ICMElement("reset", integers.Only0),
-        ic.ICMElement("next_period", integers.Only0))
+    M_ELEMENTS = ic.ICMElement("reset", integers.Only0),
 
     def characteristics_init(self):
         self._cbs_attr_post_init.update({2: self.__set_value_data_type,
-- 
2.43.0


From ca3d5298e721a482e758f17b5c6e45e66c2e1ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:58 +0000
Subject: [PATCH 105/139] fix: record time of attribute 1 and below stood for
 that of another attribute

---
 .../cosem_interface_classes/cosem_interface_class.py          | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py b/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
index d409a26..bd81e8e 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
@@ -283,9 +283,13 @@ class COSEMInterfaceClasses(ABC):
             raise IndexError(F'not support {index=} as attribute')
 
     def get_record_time(self, index: int) -> cdt.DateTime | None:
+        if index < 2:
+            raise IndexError(F'not support {index=} for record time')
         return self.__record_time[index-2]
 
     def set_record_time(self, index: int, value: str | bytes | cdt.DateTime):
+        if index < 2:
+            raise IndexError(F'not support {index=} for record time')
         self.__record_time[index-2] = cdt.DateTime(value)
 
     def get_index_with_attributes(self, in_init_order: bool = False) -> Iterator[tuple[int, cdt.CommonDataType | None]]:
-- 
2.43.0


From 9c2530e1d75f4a995350b7653fbb442a51ce742c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:10 +0000
Subject: [PATCH 106/139] fix: encode() of a set attribute returned None
 instead of the encoded value

---
 .../cosem_interface_classes/cosem_interface_class.py           | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py b/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
index bd81e8e..bd763cf 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
@@ -232,7 +232,8 @@ class COSEMInterfaceClasses(ABC):
                 return self.get_attr_element(index).DATA_TYPE(value)
         else:
             ret = attr.copy()
-            return ret.set(value)
+            ret.set(value)
+            return ret
 
     def set_attr(self,
                  index: int,
-- 
2.43.0


From cdd57e0d5572c28b1f53ea59334d3d345fdafaf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:19 +0000
Subject: [PATCH 107/139] fix: a SPODES version of two parts which are no
 numbers was accepted

---
 src/DLMS_SPODES/cosem_interface_classes/implementations/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/implementations/data.py b/src/DLMS_SPODES/cosem_interface_classes/implementations/data.py
index 3403967..e31f272 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/implementations/data.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/implementations/data.py
@@ -365,7 +365,7 @@ class SPODES3SPODESVersionValue(cdt.OctetString):
     def __init__(self, value="332e30"):
         super(SPODES3SPODESVersionValue, self).__init__(value)
         match AppVersion.from_str(self.contents.decode("utf-8")):
-            case AppVersion(0, 0, 0): raise ValueError(F"got invalid SPODES VERSION VALUE with: {self}")
+            case AppVersion(0, 0, _): raise ValueError(F"got invalid SPODES VERSION VALUE with: {self}")
             case AppVersion(_, _, None): """valid version"""
             case _: raise ValueError(F"got invalid SPODES VERSION VALUE with: {self}")
 
-- 
2.43.0


From e259585bdbe6f0300696df5e7da81a8a5cf90fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:34 +0000
Subject: [PATCH 108/139] fix: insert put an element with a used key into
 tables which refuse it at appending

---
 src/DLMS_SPODES/types/common_data_types.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index c995a9c..a079705 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -311,8 +311,12 @@ class __Array(ABC):
         if isinstance(element, self.TYPE):
             if getattr(self, "unique", False) and element in self.values:
                 raise ValueError(F"element {element} already exist in {self.__class__.__name__}")
+            self.append_validate(element)
             self.values.insert(index, element)
 
+    def append_validate(self, element: CommonDataType):
+        """validate before append last value. In override here need insert <raise> in some events and register callbacks"""
+
     def pop(self, index: int | None = None) -> CommonDataType:
         return self.values.pop(-1 if index is None else index)
 
@@ -1137,9 +1141,6 @@ class Array(__Array, ComplexDataType):
         """for override elements validator if it consist ID's. """
         return self.TYPE()
 
-    def append_validate(self, element: CommonDataType):
-        """validate before append last value. In override here need insert <raise> in some events and register callbacks"""
-
     def __setattr__(self, key, value: CommonDataType):
         match key:
             case 'TYPE' | 'values' as prop:                                         raise ValueError(F"don't support set {prop}")
-- 
2.43.0


From 68d53d084ec6090de118eadd357b62534077329e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:38 +0000
Subject: [PATCH 109/139] fix: an entry of the special days table could not be
 given its own index again, so neither a new date

---
 src/DLMS_SPODES/cosem_interface_classes/special_days_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/special_days_table.py b/src/DLMS_SPODES/cosem_interface_classes/special_days_table.py
index dd547de..6d11b0c 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/special_days_table.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/special_days_table.py
@@ -26,7 +26,7 @@ class Entries(cdt.Array):
     def append_validate(self, element: SpecDayEntry):
         """validate and insert callback for validate change SpecDayEntry"""
         self.__check_index(element.index)
-        element.index.register_cb_preset(self.__check_index)
+        element.index.register_cb_preset(lambda value: None if cdt.LongUnsigned(value) == element.index else self.__check_index(value))
 
     def __check_index(self, value):
         """validate day_id from DayProfile"""
-- 
2.43.0


From d6ea782ac7862a331ce0054097df2adc22b53dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:40 +0000
Subject: [PATCH 110/139] fix: cosem_pdu.Choice of equal strings, nulls or
 nested elements compared unequal

---
 src/DLMS_SPODES/types/cosem_pdu.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/DLMS_SPODES/types/cosem_pdu.py b/src/DLMS_SPODES/types/cosem_pdu.py
index 13a8fe1..6cf42a1 100644
--- a/src/DLMS_SPODES/types/cosem_pdu.py
+++ b/src/DLMS_SPODES/types/cosem_pdu.py
@@ -617,10 +617,7 @@ class Choice(UT):
             raise ValueError(F"not find tag: {value} in {cls.__name__}")
 
     def __eq__(self, other: Self):
-        if self._get_element_by_type(self.value.__class__) == other._get_element_by_type(other.value.__class__) and self.value == other.value:
-            return True
-        else:
-            return False
+        return isinstance(other, Choice) and self._get_element_by_type(self.value.__class__) == other._get_element_by_type(other.value.__class__) and bytes(self) == bytes(other)
 
     @classmethod
     def default(cls) -> Self:
-- 
2.43.0


From a6fb0a2510ae6a0938581d68c2a701fc2d26b8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:44 +0000
Subject: [PATCH 111/139] fix: cosem_pdu.Sequence.from_str with too few or too
 many elements made an incomplete sequence

---
 src/DLMS_SPODES/types/cosem_pdu.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/DLMS_SPODES/types/cosem_pdu.py b/src/DLMS_SPODES/types/cosem_pdu.py
index 6cf42a1..aed1f6b 100644
--- a/src/DLMS_SPODES/types/cosem_pdu.py
+++ b/src/DLMS_SPODES/types/cosem_pdu.py
@@ -492,6 +492,8 @@ class Sequence(UT):
     @classmethod
     def from_str(cls, value: str) -> Self:
         values = value.split(" ")
+        if len(values) != len(cls.__annotations__):
+            raise ValueError(F"for {cls.__name__} got {len(values)} elements in {value=}, expected {len(cls.__annotations__)}")
         return cls(tuple(el.from_str(val) for el, val in zip(cls.__annotations__.values(), values)))
 
     def __str__(self):
-- 
2.43.0


From 128d4ad70e9eca113971a5227adf8a00e4125cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:48 +0000
Subject: [PATCH 112/139] fix: a text of another size made a cosem_pdu octet
 string which does not fit its type

---
 src/DLMS_SPODES/types/cosem_pdu.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/cosem_pdu.py b/src/DLMS_SPODES/types/cosem_pdu.py
index aed1f6b..88270c2 100644
--- a/src/DLMS_SPODES/types/cosem_pdu.py
+++ b/src/DLMS_SPODES/types/cosem_pdu.py
@@ -378,7 +378,10 @@ class StringMixin(Simple, ABC):
     @classmethod
     def from_str(cls, value: str) -> Self:
         """ input as hex code """
-        return cls(memoryview(value.encode("utf-8")))
+        ret = cls(memoryview(value.encode("utf-8")))
+        if not isinstance(ret, VarSizeMixin):
+            ret.validate()
+        return ret
 
     def __str__(self):
         return self.contents.hex(' ')
-- 
2.43.0


From 6671436350981ca663c80c30421de70dc8e088af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:51 +0000
Subject: [PATCH 113/139] fix: useful_types.Sequence with a nested sequence had
 no contents

---
 src/DLMS_SPODES/types/useful_types.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/types/useful_types.py b/src/DLMS_SPODES/types/useful_types.py
index 0c25b9d..11a07e0 100644
--- a/src/DLMS_SPODES/types/useful_types.py
+++ b/src/DLMS_SPODES/types/useful_types.py
@@ -86,8 +86,8 @@ class Sequence(UT, ABC):
     @property
     def contents(self):
         data = bytearray()
-        for it in astuple(self, tuple_factory=iter):
-            data.extend(it.contents)
+        for f in fields(self):
+            data.extend(getattr(self, f.name).contents)
         return bytes(data)
 
     @classmethod
-- 
2.43.0


From 9ed0336fcb3cb05d09b387c9a5a6acbfd3a7dad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:55 +0000
Subject: [PATCH 114/139] fix: a version text with superscript digits raised
 ValueError

---
 src/DLMS_SPODES/version.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/version.py b/src/DLMS_SPODES/version.py
index dbad992..e0d6d2f 100644
--- a/src/DLMS_SPODES/version.py
+++ b/src/DLMS_SPODES/version.py
@@ -18,7 +18,7 @@ class AppVersion:
     def from_str(cls, value: str):
         match value.split(sep='.', maxsplit=2):
             case (major, minor, patch):
-                match major.isdigit(), minor.isdigit(), patch.isdigit():
+                match major.isdecimal(), minor.isdecimal(), patch.isdecimal():
                     case True, True, True:                        return cls(int(major), int(minor), int(patch))
                     case True, True, False:
                         patch_seq = bytearray(patch, 'utf-8')
@@ -29,7 +29,7 @@ class AppVersion:
                         return cls(int(major), int(minor), int(patch_seq[:digit_pos]), patch_seq[digit_pos:].decode())
                     case _:                                      return cls(0, 0, 0)
             case (major, minor):
-                match major.isdigit(), minor.isdigit():
+                match major.isdecimal(), minor.isdecimal():
                     case True, True:                        return cls(int(major), int(minor))
                     case _:                                      return cls(0, 0)
             case _:                                              return cls(0, 0, 0)
-- 
2.43.0


From 2241c4693cb6beaec8c305253d33d6a0355e7baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:26 +0000
Subject: [PATCH 115/139] fix: arc labels of more than 14 bits lost their high
 bits

---
 src/DLMS_SPODES/types/common_data_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index a079705..63deb44 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -1413,7 +1413,7 @@ class AXDR(ABC):
                             values[i] = self.ELEMENTS[i].TYPE(two_values[1])
                             tmp = 0
                             while values_in:
-                                tmp = (tmp & 0b0111_1111) << 7
+                                tmp <<= 7
                                 if values_in[0] >= 0b1000_0000:
                                     tmp += values_in.popleft() & 0b0111_1111
                                 else:
-- 
2.43.0


From c7241a26bf58fce3e8d7103ddf7661737c2ee2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:42 +0000
Subject: [PATCH 116/139] fix: copying an attribute of another type into one
 which holds an array raised AttributeError

---
 .../cosem_interface_classes/cosem_interface_class.py            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py b/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
index bd763cf..d8c8725 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
@@ -177,7 +177,7 @@ class COSEMInterfaceClasses(ABC):
                         cb_func()
                         self._cbs_attr_post_init.pop(i)
                 else:
-                    if isinstance(arr := self.__attributes[i-1], cdt.Array):
+                    if isinstance(arr := self.__attributes[i-1], cdt.Array) and isinstance(value, cdt.Array):
                         arr.set_type(value.TYPE)
                     try:
                         self.set_attr(
-- 
2.43.0


From 044c2f6143c7b36946b641039a307d59deb6ab83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:37 +0000
Subject: [PATCH 117/139] fix: a copied object does not share its read-only
 values with the source

---
 .../cosem_interface_classes/cosem_interface_class.py            | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py b/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
index d8c8725..ed28b2b 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
@@ -172,7 +172,7 @@ class COSEMInterfaceClasses(ABC):
                     if cb_func := self._cbs_attr_before_init.get(i, None):
                         cb_func(value)                    # Todo: 'a' as 'new_value' in set_attr are can use?
                         self._cbs_attr_before_init.pop(i)
-                    self.__attributes[i-1] = value
+                    self.__attributes[i-1] = value.copy()
                     if cb_func := self._cbs_attr_post_init.get(i, None):
                         cb_func()
                         self._cbs_attr_post_init.pop(i)
-- 
2.43.0


From b2e43676723a01461b8c4b3593da63630b3fa0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:40 +0000
Subject: [PATCH 118/139] fix: a collection with an association without its
 list is copied

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 04cbb67..383d995 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -618,8 +618,8 @@ class Collection:
             new_obj: InterfaceClass = obj.__class__(obj.logical_name)
             new_collection.__container[obj.logical_name.contents] = new_obj
             new_obj.collection = new_collection
-            if obj.CLASS_ID == classID.ASSOCIATION_LN:
-                if max_ass is None or (obj.object_list and len(max_ass.object_list) < len(obj.object_list)):
+            if obj.CLASS_ID == classID.ASSOCIATION_LN and obj.object_list is not None:
+                if max_ass is None or len(max_ass.object_list) < len(obj.object_list):
                     max_ass = obj
         obj_for_set = max_ass.get_objects()
         ass_id: int = max_ass.logical_name.e
-- 
2.43.0


From 91eecb824cf8889bf9cd48b39a3e22eefe2f4543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:32 +0000
Subject: [PATCH 119/139] fix: a device whose type is not a string and is not
 in the library is reported as NoConfig

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 383d995..1844aa6 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -2075,12 +2075,12 @@ def get_dir_entry(m: bytes, t: cdt.CommonDataType, ver: AppVersion) -> os.DirEnt
     if (man := get_manufactures_container().get(m)) is None:
         raise exc.NoConfig(F"no support manufacturer: {m.decode('utf-8', errors='strict')}")
     elif (type_ := man.get(t.encoding)) is None:
-        raise exc.NoConfig(F"no support type {t.to_str()}, with manufacturer: {m.decode('utf-8', errors='strict')}")
+        raise exc.NoConfig(F"no support type {t}, with manufacturer: {m.decode('utf-8', errors='strict')}")
     elif (f := type_.get(ver)) is None:
         if searched_version := ver.select_nearest(type_.keys()):
             return type_.get(searched_version)
         else:
-            raise exc.NoConfig(F"no support version {ver} with manufacturer: {m.decode('utf-8', errors='strict')}, type: {t.to_str()}")
+            raise exc.NoConfig(F"no support version {ver} with manufacturer: {m.decode('utf-8', errors='strict')}, type: {t}")
     logger.info(F"got collection from library by path: {f.path}")
     return f
 
-- 
2.43.0


From d7dc4ce08f72dc8e81eba1817935ff606b7e3c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:58 +0000
Subject: [PATCH 120/139] fix: parameter file names its values as the reader
 expects

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 1844aa6..ab5ba99 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -1243,7 +1243,7 @@ class Collection:
                     is_empty = False
                     if not object_node:
                         object_node = ET.SubElement(objects, 'object', attrib={'ln': str(obj.logical_name)})
-                    ET.SubElement(object_node, 'attribute', attrib={'index': str(i)}).text = attr.encoding.hex()
+                    ET.SubElement(object_node, 'attr', attrib={'index': str(i)}).text = attr.encoding.hex()
         if not is_empty:
             # TODO: '<!DOCTYPE ITE_util_tree SYSTEM "setting.dtd"> or xsd
             xml_string = ET.tostring(objects, encoding='cp1251', method='xml')
-- 
2.43.0


From 6ebfbba3a06e07e512206d8d591b3c45f6810ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:01 +0000
Subject: [PATCH 121/139] fix: parameter file takes the rights of the
 association asked for

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index ab5ba99..5c53832 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -1233,7 +1233,7 @@ class Collection:
                     """skip ln"""
                 elif obj.get_attr_element(i).classifier == ic.Classifier.DYNAMIC:
                     """skip DYNAMIC attributes"""
-                elif not col.is_writable(obj.logical_name, i, 3):
+                elif not col.is_writable(obj.logical_name, i, association_id):
                     """skip not writable"""
                 elif col.get_object(obj.logical_name).get_attr(i) == attr:
                     """skip not changed attr value"""
-- 
2.43.0


From 4b4bc9737b5e14f4917211376b494c6f713855cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:04 +0000
Subject: [PATCH 122/139] fix: parameter file passes over attributes not
 initiated

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 5c53832..ab5677c 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -1231,6 +1231,8 @@ class Collection:
             for i, attr in obj.get_index_with_attributes():
                 if i == 1:
                     """skip ln"""
+                elif attr is None:
+                    """skip not initiated attributes"""
                 elif obj.get_attr_element(i).classifier == ic.Classifier.DYNAMIC:
                     """skip DYNAMIC attributes"""
                 elif not col.is_writable(obj.logical_name, i, association_id):
-- 
2.43.0


From e7d320d5c61772f69c1363baed3d119823c76c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:08 +0000
Subject: [PATCH 123/139] fix: value of a foreign type does not end the
 restoring of a parameter file

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index ab5677c..a712ea2 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -1057,7 +1057,7 @@ class Collection:
                             except exc.NoObject as e:
                                 logger.error(F"Can't fill {new_object} attr: {indexes[-1]}. Skip. {e}.")
                                 break
-                            except exc.ITEApplication as e:
+                            except (exc.ITEApplication, ut.UserfulTypesException) as e:
                                 logger.error(F"Can't fill {new_object} attr: {indexes[-1]}. {e}")
                             except IndexError:
                                 logger.error(F'Object "{new_object}" not has attr: {index}')
@@ -1092,7 +1092,7 @@ class Collection:
                         except exc.NoObject as e:
                             logger.error(F"Can't fill {new_object} attr: {indexes[-1]}. Skip. {e}.")
                             break
-                        except exc.ITEApplication as e:
+                        except (exc.ITEApplication, ut.UserfulTypesException) as e:
                             logger.error(F"Can't fill {new_object} attr: {indexes[-1]}. {e}")
                         except IndexError:
                             logger.error(F'Object "{new_object}" not has attr: {index}')
@@ -1117,7 +1117,7 @@ class Collection:
                             except exc.NoObject as e:
                                 logger.error(F"Can't fill {new_object} attr: {index}. Skip. {e}.")
                                 break
-                            except exc.ITEApplication as e:
+                            except (exc.ITEApplication, ut.UserfulTypesException) as e:
                                 logger.error(F"Can't fill {new_object} attr: {index}. {e}")
                             except IndexError:
                                 logger.error(F'Object "{new_object}" not has attr: {index}')
-- 
2.43.0


From 1c65a0191c14197927b9c2d53e7ec29b83e3b38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:31 +0000
Subject: [PATCH 124/139] fix: template's verified mark is read back from the
 attribute it is saved in

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index a712ea2..33d739d 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -2043,7 +2043,7 @@ def from_xml4(filename: str) -> tuple[list[Collection], UsedAttributes, bool]:
                         logger.error(F'Object {new_object} attr:{index} do not fill: {e}')
         case _ as error:
             raise exc.VersionError(error, additional='Xml')
-    return cols, used, bool(int(objects.findtext("verified", default="0")))
+    return cols, used, bool(int(objects.attrib.get("verified", "0")))
 
 
 if config is not None:
-- 
2.43.0


From d3dd4370fe523af8fdc934895425c82828c2d52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:34 +0000
Subject: [PATCH 125/139] fix: second node of an object in a template does not
 forget the attributes of the first

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 33d739d..757d7dc 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -771,7 +771,7 @@ class Collection:
                         raise ValueError(F"got object with {ln=} not find in collection. Abort attribute setting")
                     else:
                         new_object = new.get_object(logical_name)
-                        used[logical_name] = set()
+                        used.setdefault(logical_name, set())
                     for attr in obj.findall("attr"):
                         index: int = int(attr.attrib.get("index"))
                         used[logical_name].add(index)
@@ -2008,7 +2008,7 @@ def from_xml4(filename: str) -> tuple[list[Collection], UsedAttributes, bool]:
                         logger.warning(F"got object with {ln=} not find in collection: {col}")
                     else:
                         objs.append(col.get_object(logical_name))
-                used[logical_name] = set()
+                used.setdefault(logical_name, set())
                 for attr in obj.findall("attr"):
                     index: int = int(attr.attrib.get("index"))
                     used[logical_name].add(index)
-- 
2.43.0


From 57303832f87fd2415bd80de7ea7e56111d24665f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:38 +0000
Subject: [PATCH 126/139] fix: empty array, text or False inside a structure
 does not cut the rest of it off the saved file

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 757d7dc..49e566b 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -1184,7 +1184,7 @@ class Collection:
                                     while stack:
                                         node, name, value_it = stack[-1]
                                         value = next(value_it, None)
-                                        if value:
+                                        if value is not None:
                                             if not isinstance(name, str):
                                                 name = next(name).NAME
                                             if isinstance(value, cdt.Array):
@@ -1942,7 +1942,7 @@ def to_xml4(collections: list[Collection],
                             while stack:
                                 node, name, value_it = stack[-1]
                                 value = next(value_it, None)
-                                if value:
+                                if value is not None:
                                     if not isinstance(name, str):
                                         name = next(name).NAME
                                     if isinstance(value, cdt.Array):
-- 
2.43.0


From 67123eae84f7f49312973fca17181be48a458d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:01 +0000
Subject: [PATCH 127/139] fix: value of a template unfit for one collection is
 still set in the others

---
 .../cosem_interface_classes/collection.py     | 58 +++++++++----------
 1 file changed, 29 insertions(+), 29 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 49e566b..b26f7a8 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -2012,35 +2012,35 @@ def from_xml4(filename: str) -> tuple[list[Collection], UsedAttributes, bool]:
                 for attr in obj.findall("attr"):
                     index: int = int(attr.attrib.get("index"))
                     used[logical_name].add(index)
-                    try:
-                        match attr.attrib.get("type", "simple"):
-                            case "simple":
-                                for new_object in objs:
-                                    new_object.set_attr(index, attr.text)
-                            case "array" | "struct":
-                                stack = [(list(), iter(attr))]
-                                while stack:
-                                    v1, v2 = stack[-1]
-                                    v = next(v2, None)
-                                    if v is None:
-                                        stack.pop()
-                                    elif v.tag == "simple":
-                                        v1.append(v.text)
-                                    else:
-                                        v1.append(list())
-                                        stack.append((v1[-1], iter(v)))
-                                for new_object in objs:
-                                    new_object.set_attr(index, v1)
-                    except exc.ITEApplication as e:
-                        logger.error(F"Can't fill {new_object} attr: {index}. {e}")
-                    except IndexError:
-                        logger.error(F'Object "{new_object}" not has attr: {index}')
-                    except TypeError as e:
-                        logger.error(F'Object {new_object} attr:{index} do not write, encoding wrong : {e}')
-                    except ValueError as e:
-                        logger.error(F'Object {new_object} attr:{index} do not fill: {e}')
-                    except AttributeError as e:
-                        logger.error(F'Object {new_object} attr:{index} do not fill: {e}')
+                    match attr.attrib.get("type", "simple"):
+                        case "array" | "struct":
+                            value = list()
+                            stack = [(value, iter(attr))]
+                            while stack:
+                                v1, v2 = stack[-1]
+                                v = next(v2, None)
+                                if v is None:
+                                    stack.pop()
+                                elif v.tag == "simple":
+                                    v1.append(v.text)
+                                else:
+                                    v1.append(list())
+                                    stack.append((v1[-1], iter(v)))
+                        case _:
+                            value = attr.text
+                    for new_object in objs:
+                        try:
+                            new_object.set_attr(index, value)
+                        except exc.ITEApplication as e:
+                            logger.error(F"Can't fill {new_object} attr: {index}. {e}")
+                        except IndexError:
+                            logger.error(F'Object "{new_object}" not has attr: {index}')
+                        except TypeError as e:
+                            logger.error(F'Object {new_object} attr:{index} do not write, encoding wrong : {e}')
+                        except ValueError as e:
+                            logger.error(F'Object {new_object} attr:{index} do not fill: {e}')
+                        except AttributeError as e:
+                            logger.error(F'Object {new_object} attr:{index} do not fill: {e}')
         case _ as error:
             raise exc.VersionError(error, additional='Xml')
     return cols, used, bool(int(objects.attrib.get("verified", "0")))
-- 
2.43.0


From 6726bf48a63d3b2b9e8b0f575d268bb0279d676a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:26 +0000
Subject: [PATCH 128/139] fix: a second value of another type in a demand
 register is refused with ValueError

---
 src/DLMS_SPODES/cosem_interface_classes/demand_register/ver0.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/demand_register/ver0.py b/src/DLMS_SPODES/cosem_interface_classes/demand_register/ver0.py
index 41eaec9..2c96ecd 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/demand_register/ver0.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/demand_register/ver0.py
@@ -66,7 +66,7 @@ class DemandRegister(ic.COSEMInterfaceClasses):
         if self.current_average_value is not None and self.last_average_value is not None and self.current_average_value.TAG != self.last_average_value.TAG:
             self.clear_attr(attr_index)
             raise ValueError(F"got {self.get_attr_element(attr_index)} with: {attr_value=}, expected "
-                             F"{cdt.get_common_data_type_from(self.current_average_value.TAG if attr_index == 3 else self.last_average_value.TAG).NAME}")
+                             F"{cdt.get_common_data_type_from(self.current_average_value.TAG if attr_index == 3 else self.last_average_value.TAG).TAG}")
         match attr_value:
             case cdt.Array() | cdt.CompactArray() | cdt.Structure(): self.set_attr(4, cdt.ScalUnitType(b'\x02\x02\x0f\x00\x16\xff'))
             case cdt.Digital() | cdt.Float():                        attr_value.SCALER_UNIT = self.scaler_unit
-- 
2.43.0


From 77823d44e6e019dd2a5a0a04f99a280032707e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:34 +0000
Subject: [PATCH 129/139] fix: a copy of a scaled number takes its new value in
 the same units

---
 src/DLMS_SPODES/types/common_data_types.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 63deb44..e1009dc 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -480,6 +480,10 @@ class Digital(ABC):
         """ override SimpleDataType for send scaler_unit . use only for check and send contents """
         return self.__class__(value, self.SCALER_UNIT)
 
+    def get_copy(self, value) -> Self:
+        """ override CommonDataType: the value is read in units, as by set """
+        return self._new_instance(value)
+
     def from_int(self, value: int | float) -> bytes:
         try:
             match self.SCALER_UNIT:
-- 
2.43.0


From 4f29ae4e60d63841d11b74938122fab4b27ec451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:47 +0000
Subject: [PATCH 130/139] fix: an attribute value made from a text is read in
 the attribute's units

---
 .../cosem_interface_classes/cosem_interface_class.py          | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py b/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
index ed28b2b..6d6c287 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
@@ -231,9 +231,7 @@ class COSEMInterfaceClasses(ABC):
             else:
                 return self.get_attr_element(index).DATA_TYPE(value)
         else:
-            ret = attr.copy()
-            ret.set(value)
-            return ret
+            return attr.get_copy(value)
 
     def set_attr(self,
                  index: int,
-- 
2.43.0


From 41e5dd5cde70e6f3f8b76131a0e91cdac7ecd893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:48:52 +0000
Subject: [PATCH 131/139] fix: a secret set before the mechanism is erased
 every time

---
 .../cosem_interface_classes/cosem_interface_class.py         | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py b/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
index 6d6c287..a3d9121 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
@@ -247,7 +247,10 @@ class COSEMInterfaceClasses(ABC):
             self.__attributes[index-1] = new_value
             if cb_func := self._cbs_attr_post_init.get(index, None):
                 cb_func()
-                self._cbs_attr_post_init.pop(index)
+                if self.__attributes[index-1] is not None:
+                    self._cbs_attr_post_init.pop(index)
+                else:
+                    """erased by callback, is waiting for next init"""
             else:
                 """without callback post init"""
         else:
-- 
2.43.0


From 53b19f4f5cec90c657d92de5e9096e291e5a66ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:50 +0000
Subject: [PATCH 132/139] fix: a port's interface replaces the old one instead
 of mixing with its bits

---
 src/DLMS_SPODES/cosem_interface_classes/implementations/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/implementations/data.py b/src/DLMS_SPODES/cosem_interface_classes/implementations/data.py
index e31f272..e23f6e4 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/implementations/data.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/implementations/data.py
@@ -118,7 +118,7 @@ class ChannelNumberValue(cdt.Unsigned):
 
     @interface.setter
     def interface(self, value: enu.Interface):
-        self.set((int(self) & 0b0001_1111) | (value << 3))
+        self.set((int(self) & 0b0000_0111) | (value << 3))
 
     def get_report(self, with_unit: bool = True) -> str:
         return F"Номер канала связи: {self.channel.name}, Тип интерфейса: {self.interface.name}"
-- 
2.43.0


From 14f6627366ebf3332dd713bbffe772fbc5188a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:53 +0000
Subject: [PATCH 133/139] fix: report of flag events shows the flags above the
 eighth

---
 src/DLMS_SPODES/cosem_interface_classes/events.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/events.py b/src/DLMS_SPODES/cosem_interface_classes/events.py
index 45f3498..97dcc29 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/events.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/events.py
@@ -9,7 +9,7 @@ match get_current_language():
 class FlagEvents(dict):
     """ special class for flag events indication """
     def get_report(self, value: int) -> str:
-        return ". ".join(filter(lambda it_: it_ is not None, map(lambda it: self.get(2 ** it, F"unknown bit: {it}"), filter(lambda it: value & 2 ** it, range(8)))))+F"({value})"
+        return ". ".join(filter(lambda it_: it_ is not None, map(lambda it: self.get(2 ** it, F"unknown bit: {it}"), filter(lambda it: value & 2 ** it, range(value.bit_length())))))+F"({value})"
 
 
 class Events(dict):
-- 
2.43.0


From 601eef73a0b5fd9643524ab4eb64fabbefd67453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:56 +0000
Subject: [PATCH 134/139] fix: report of an object does not stop at an empty
 element

---
 src/DLMS_SPODES/cosem_interface_classes/reports.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/reports.py b/src/DLMS_SPODES/cosem_interface_classes/reports.py
index e659574..0aec4f2 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/reports.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/reports.py
@@ -32,7 +32,7 @@ def get_obj_report(
                 name, value_it = stack[-1]
                 indent = F"{' '*(len(stack) + 1)}"
                 value = next(value_it, None)
-                if value:
+                if value is not None:
                     if not isinstance(name, str):
                         name = next(name).NAME
                     if isinstance(value, cdt.Array):
-- 
2.43.0


From 3c69ead645715b7de59a65e2038add3c6e1028e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:49:56 +0000
Subject: [PATCH 135/139] fix: the display readout takes captured objects
 (class id was made from octets)

---
 .../cosem_interface_classes/implementations/profile_generic.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/implementations/profile_generic.py b/src/DLMS_SPODES/cosem_interface_classes/implementations/profile_generic.py
index b0e657e..ea88372 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/implementations/profile_generic.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/implementations/profile_generic.py
@@ -61,7 +61,7 @@ class SPODES3DisplayReadout(ver1.ProfileGeneric):
         # rename CaptureObjectDefinition's and adding object if it absense in collection
         for el_value in self.capture_objects:
             el_value: structs.CaptureObjectDefinition
-            obj = self.collection.add_if_missing(class_id=ut.CosemClassId(el_value.class_id.contents),
+            obj = self.collection.add_if_missing(class_id=ut.CosemClassId(int(el_value.class_id)),
                                                  version=None,
                                                  logical_name=el_value.logical_name)
             # self.collection.raise_before(obj, self)
-- 
2.43.0


From f92d2bc06318eb5c8c95da32d06989140e290194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:23:17 +0000
Subject: [PATCH 136/139] fix: typing a float keeps the line as typed (the zero
 added for the check stayed in it: 1e5 became 1e50)

---
 src/DLMS_SPODES/types/common_data_types.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index e1009dc..e837fa6 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -666,9 +666,8 @@ class Float(ABC):
 
     def validate_from(self, value: str, cursor_position=None) -> tuple[str, int]:
         # adding '0' for available set service symbols
-        if value[-1] in '.-+exp':
-            value += '0'
-        return super().validate_from(value, cursor_position)
+        super().validate_from(F'{value}0' if value[-1] in '.-+exp' else value, cursor_position)
+        return value, cursor_position
 
     def __str__(self):
         return str(self.decode())
-- 
2.43.0


From 7c8b75064c9e8ee35dd5384e5fe4eccfaa65b4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:23:21 +0000
Subject: [PATCH 137/139] fix: an open place can be typed first in a date or
 time (IndexError)

---
 src/DLMS_SPODES/types/common_data_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index e837fa6..f701264 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -735,7 +735,7 @@ class __DateTime(ABC):
     def validate_from(self, value: str, cursor_position: int) -> tuple[str, int]:
         while len(value) > cursor_position and value[cursor_position] == '_':
             value = value[:cursor_position] + value[cursor_position+1:]
-        while value[cursor_position-2] == '_':
+        while cursor_position > 1 and value[cursor_position-2] == '_':
             value = value[:cursor_position-2] + value[cursor_position-1:]
             cursor_position -= 1
         try:
-- 
2.43.0


From 3a3205a944527955d33170fc697461562f1afef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:23:24 +0000
Subject: [PATCH 138/139] fix: the cursor follows the separator put into a
 logical name (the next digit came before the last)

---
 src/DLMS_SPODES/types/cosem_service_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/cosem_service_types.py b/src/DLMS_SPODES/types/cosem_service_types.py
index 8530c59..7af6b71 100644
--- a/src/DLMS_SPODES/types/cosem_service_types.py
+++ b/src/DLMS_SPODES/types/cosem_service_types.py
@@ -51,7 +51,7 @@ class LogicalName(cdt.OctetString, size=6):
         except ValueError:
             with_separator = F'{value[:-1]}.{value[-1]}'
             type(self)(with_separator)  # check possible
-            return with_separator, cursor_position
+            return with_separator, cursor_position + 1 if cursor_position == len(value) else cursor_position
 
     def __hash__(self):
         return int.from_bytes(self.contents, 'big')
-- 
2.43.0


From 0ff72b6eee64661160eee61495ef150adf47b1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:23:27 +0000
Subject: [PATCH 139/139] fix: a secret can be shown as letters (TypeError:
 octets instead of text)

---
 .../cosem_interface_classes/association_ln/ver0.py            | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py b/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py
index a10e356..d36ff0b 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py
@@ -205,9 +205,9 @@ class LLCSecret(cdt.OctetString):
 
     def __str__(self):
         match self.__representation:
-            case Representation.ASCII:                       return cdt.VisibleString.__str__(self)
+            case Representation.ASCII:                       return cdt.VisibleString.decode(self)
             case Representation.HIDDEN:                      return self.__hide_all(super(LLCSecret, self).__str__())
-            case Representation.ASCII_HIDDEN:                return self.__hide_all(cdt.VisibleString.__str__(self))
+            case Representation.ASCII_HIDDEN:                return self.__hide_all(cdt.VisibleString.decode(self))
             case _:                                          return super(LLCSecret, self).__str__()
 
 
-- 
2.43.0

