From 3fadc90c58aba31732af2eab29ac7a283dfbc66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:33 +0000
Subject: [PATCH 01/54] fix: decode and encode uint64 and acc64 points as
 unsigned

---
 sunspec/core/suns.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sunspec/core/suns.py b/sunspec/core/suns.py
index 3204939..063be93 100644
--- a/sunspec/core/suns.py
+++ b/sunspec/core/suns.py
@@ -182,8 +182,8 @@ suns_point_type_info = {
     SUNS_TYPE_BITFIELD32: (2, suns_is_impl_bitfield32, util.data_to_u32, util.u32_to_data, suns_to_long, 0),
     SUNS_TYPE_IPADDR: (2, suns_is_impl_ipaddr, util.data_to_u32, util.u32_to_data, suns_to_long, 0),
     SUNS_TYPE_INT64: (4, suns_is_impl_int64, util.data_to_s64, util.s64_to_data, suns_to_long, 0),
-    SUNS_TYPE_UINT64: (4, suns_is_impl_uint64, util.data_to_s64, util.s64_to_data, suns_to_long, 0),
-    SUNS_TYPE_ACC64: (4, suns_is_impl_acc64, util.data_to_s64, util.s64_to_data, suns_to_long, 0),
+    SUNS_TYPE_UINT64: (4, suns_is_impl_uint64, util.data_to_u64, util.u64_to_data, suns_to_long, 0),
+    SUNS_TYPE_ACC64: (4, suns_is_impl_acc64, util.data_to_u64, util.u64_to_data, suns_to_long, 0),
     SUNS_TYPE_IPV6ADDR: (8, suns_is_impl_ipv6addr, util.data_to_ipv6addr, util.ipv6addr_to_data, suns_to_str, 0),
     SUNS_TYPE_FLOAT32: (2, suns_is_impl_float32, util.data_to_float, util.float_to_data32, suns_to_float, 0),
     SUNS_TYPE_STRING: (None, suns_is_impl_string, util.data_to_str, util.str_to_data, suns_to_str, ''),
-- 
2.43.0


From 0138d2835e4764820b14ba598b0899dce218f55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:33 +0000
Subject: [PATCH 02/54] fix: accept the length argument in eui48_to_data so
 eui48 points can be written

---
 sunspec/core/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunspec/core/util.py b/sunspec/core/util.py
index 2c59734..0475d42 100644
--- a/sunspec/core/util.py
+++ b/sunspec/core/util.py
@@ -150,7 +150,7 @@ def str_to_data(s, slen=None):
         slen += 1
     return struct.pack(str(slen) + 's', s)
 
-def eui48_to_data(eui48):
+def eui48_to_data(eui48, len=None):
     return (b'\x00\x00' + base64.b16decode(eui48.replace(':', '')))
 
 
-- 
2.43.0


From 82747759780e9c2c7c0cef97c839086153807325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:33 +0000
Subject: [PATCH 03/54] fix: str_to_data returns exactly the requested length
 for short strings

---
 sunspec/core/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sunspec/core/util.py b/sunspec/core/util.py
index 0475d42..648e00a 100644
--- a/sunspec/core/util.py
+++ b/sunspec/core/util.py
@@ -141,11 +141,12 @@ def float_to_data(f, len=None):
     return struct.pack('>d', f)
 
 def str_to_data(s, slen=None):
+    pad = slen is None and len(s) < 16
     if slen is None:
         slen = len(s)
     if sys.version_info > (3,):
         s = bytes(s, 'latin-1')
-    if slen < 16:
+    if pad:
         s += b'\x00'
         slen += 1
     return struct.pack(str(slen) + 's', s)
-- 
2.43.0


From e2d05e413b7f8f10fb8c872c503d035a49bb1039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:33 +0000
Subject: [PATCH 04/54] fix: value of an unimplemented scaled point is None
 instead of a TypeError

---
 sunspec/core/device.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index cafc223..b2d82bd 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -510,7 +510,7 @@ class Point(object):
     # use older property format to support earlier python 2.x versions
     def value_getter(self):
 
-        if self.value_sf:
+        if self.value_sf and self.value_base is not None:
             return self.value_base * math.pow(10, self.value_sf)
         else:
             return self.value_base
-- 
2.43.0


From b962f10edf45f27f8b860aa5e0be15257a39dc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:28 +0000
Subject: [PATCH 05/54] fix: TCP writes longer than the maximum request size
 select the right data

---
 sunspec/core/modbus/client.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index 7509187..11b4d8e 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -943,8 +943,8 @@ class ModbusClientDeviceTCP(object):
                     write_count = self.max_count
                 else:
                     write_count = count
-                    start = (write_offset * 2)
-                    end = int((write_offset + write_count) * 2)
+                start = int(write_offset * 2)
+                end = int((write_offset + write_count) * 2)
                 self._write(addr + write_offset, data[start:end])
                 count -= write_count
                 write_offset += write_count
-- 
2.43.0


From 61e12dbf70a13c094593e30f6504ac6b7cdbc5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:28 +0000
Subject: [PATCH 06/54] fix: report socket receive failures as Modbus client
 errors

---
 sunspec/core/modbus/client.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index 11b4d8e..566af5c 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -761,7 +761,12 @@ class ModbusClientDeviceTCP(object):
             raise ModbusClientError('Socket write error: %s' % str(e))
 
         while len_remaining > 0:
-            c = self.socket.recv(len_remaining)
+            try:
+                c = self.socket.recv(len_remaining)
+            except socket.timeout as e:
+                raise ModbusClientTimeout('Response timeout: %s' % str(e))
+            except Exception as e:
+                raise ModbusClientError('Socket read error: %s' % str(e))
             # print('c = {0}'.format(c))
             len_read = len(c);
             if len_read > 0:
@@ -876,7 +881,12 @@ class ModbusClientDeviceTCP(object):
             raise ModbusClientError('Socket write error: %s' % str(e))
 
         while len_remaining > 0:
-            c = self.socket.recv(len_remaining)
+            try:
+                c = self.socket.recv(len_remaining)
+            except socket.timeout as e:
+                raise ModbusClientTimeout('Response timeout: %s' % str(e))
+            except Exception as e:
+                raise ModbusClientError('Socket read error: %s' % str(e))
             # print('c = {0}'.format(c))
             len_read = len(c);
             if len_read > 0:
-- 
2.43.0


From 29c29446f448b2a8095850889e3ce0decfd437bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:28 +0000
Subject: [PATCH 07/54] fix: report serial port failures during a request as
 Modbus client errors

---
 sunspec/core/modbus/client.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index 566af5c..6c28dae 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -236,14 +236,17 @@ class ModbusClientRTU(object):
                 s += '%02X' % (ord(c))
             trace_func(s)
 
-        self.serial.flushInput()
         try:
+            self.serial.flushInput()
             self.serial.write(req)
         except Exception as e:
             raise ModbusClientError('Serial write error: %s' % str(e))
 
         while len_remaining > 0:
-            c = self.serial.read(len_remaining)
+            try:
+                c = self.serial.read(len_remaining)
+            except Exception as e:
+                raise ModbusClientError('Serial read error: %s' % str(e))
             if type(c) == bytes and sys.version_info > (3,):
                 temp = ""
                 for i in c:
@@ -359,8 +362,8 @@ class ModbusClientRTU(object):
                 s += '%02X' % (ord(c))
             trace_func(s)
 
-        self.serial.flushInput()
         try:
+            self.serial.flushInput()
             if sys.version_info > (3,):
                 req = bytes(req, "latin-1")
             self.serial.write(req)
@@ -368,7 +371,10 @@ class ModbusClientRTU(object):
             raise ModbusClientError('Serial write error: %s' % str(e))
 
         while len_remaining > 0:
-            c = self.serial.read(len_remaining)
+            try:
+                c = self.serial.read(len_remaining)
+            except Exception as e:
+                raise ModbusClientError('Serial read error: %s' % str(e))
             if type(c) == bytes and sys.version_info > (3,):
                 temp = ""
                 for i in c:
-- 
2.43.0


From f223acce3a200a622adeb5325b3931393ca956a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:28 +0000
Subject: [PATCH 08/54] fix: a failed TCP connect does not leave an unconnected
 socket behind

---
 sunspec/core/modbus/client.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index 6c28dae..eec6364 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -733,6 +733,7 @@ class ModbusClientDeviceTCP(object):
 
             self.socket.connect((self.ipaddr, self.ipport))
         except Exception as e:
+            self.disconnect()
             raise ModbusClientError('Connection error: %s' % str(e))
 
     def disconnect(self):
-- 
2.43.0


From fcbe141459f0bf070180220ba21a872dddc1d9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:28 +0000
Subject: [PATCH 09/54] fix: TCP disconnect forgets the socket even when
 closing it fails

---
 sunspec/core/modbus/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index eec6364..28b9cf8 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -743,9 +743,9 @@ class ModbusClientDeviceTCP(object):
         try:
             if self.socket:
                 self.socket.close()
-            self.socket = None
         except Exception:
             pass
+        self.socket = None
 
     def _read(self, addr, count, op=FUNC_READ_HOLDING):
 
-- 
2.43.0


From 5f0fabf840ef5788684e493c4b47341dce5a9cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:28 +0000
Subject: [PATCH 10/54] fix: request tracing works on byte strings

---
 sunspec/core/modbus/client.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index 28b9cf8..263ad30 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -232,8 +232,8 @@ class ModbusClientRTU(object):
 
         if trace_func:
             s = '{}:{}[addr={}] ->'.format(self.name, str(slave_id), addr)
-            for c in req:
-                s += '%02X' % (ord(c))
+            for c in bytearray(req):
+                s += '%02X' % (c)
             trace_func(s)
 
         try:
@@ -758,8 +758,8 @@ class ModbusClientDeviceTCP(object):
 
         if self.trace_func:
             s = '{}:{}:{}[addr={}] ->'.format(self.ipaddr, str(self.ipport), str(self.slave_id), addr)
-            for c in req:
-                s += '%02X' % (ord(c))
+            for c in bytearray(req):
+                s += '%02X' % (c)
             self.trace_func(s)
 
         try:
@@ -878,8 +878,8 @@ class ModbusClientDeviceTCP(object):
 
         if self.trace_func:
             s = '{}:{}:{}[addr={}] ->'.format(self.ipaddr, str(self.ipport), str(self.slave_id), addr)
-            for c in req:
-                s += '%02X' % (ord(c))
+            for c in bytearray(req):
+                s += '%02X' % (c)
             self.trace_func(s)
 
         try:
-- 
2.43.0


From f947042e934f2834dcadccba4a3f9f2fe57b73dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:28 +0000
Subject: [PATCH 11/54] fix: mapped devices report map errors as Modbus client
 errors

---
 sunspec/core/modbus/client.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index 263ad30..dbb383f 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -1023,9 +1023,12 @@ class ModbusClientDeviceMapped(object):
 
         if name is not None:
             self.modbus_map = mbmap.ModbusMap(slave_id)
-            self.modbus_map.from_xml(name, pathlist)
+            try:
+                self.modbus_map.from_xml(name, pathlist)
+            except mbmap.ModbusMapError as e:
+                raise ModbusClientError(str(e))
         else:
-            raise mbmap.ModbusMapError('No modbus map file provided during initialization')
+            raise ModbusClientError('No modbus map file provided during initialization')
 
     def close(self):
         """Close the device. Called when device is not longer in use.
@@ -1054,7 +1057,10 @@ class ModbusClientDeviceMapped(object):
         """
 
         if self.modbus_map is not None:
-            return self.modbus_map.read(addr, count, op)
+            try:
+                return self.modbus_map.read(addr, count, op)
+            except mbmap.ModbusMapError as e:
+                raise ModbusClientError(str(e))
         else:
             raise ModbusClientError('No modbus map set for device')
 
@@ -1072,7 +1078,10 @@ class ModbusClientDeviceMapped(object):
         """
 
         if self.modbus_map is not None:
-            return self.modbus_map.write(addr, data)
+            try:
+                return self.modbus_map.write(addr, data)
+            except mbmap.ModbusMapError as e:
+                raise ModbusClientError(str(e))
         else:
             raise ModbusClientError('No modbus map set for device')
 
-- 
2.43.0


From 1a937969e0ff95c330ddad5bd5ea97e92e736d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:28 +0000
Subject: [PATCH 12/54] fix: closing an RTU device twice does not unregister a
 newer client of the port

---
 sunspec/core/modbus/client.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index dbb383f..0105b11 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -216,10 +216,10 @@ class ModbusClientRTU(object):
         if self.devices.get(slave_id):
             del self.devices[slave_id]
 
-        # if no more devices using the client interface, close and remove the client
-        if len(self.devices) == 0:
-            self.close()
-            modbus_rtu_client_remove(self.name)
+            # if no more devices using the client interface, close and remove the client
+            if len(self.devices) == 0:
+                self.close()
+                modbus_rtu_client_remove(self.name)
 
     def _read(self, slave_id, addr, count, op=FUNC_READ_HOLDING, trace_func=None):
         resp = ''
-- 
2.43.0


From 29b9dfbd191406bdd08a601bcf3772bac5582c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:28 +0000
Subject: [PATCH 13/54] fix: an exception response with code 0 is an exception,
 not a success

---
 sunspec/core/modbus/client.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index 0105b11..ca1ae24 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -276,7 +276,7 @@ class ModbusClientRTU(object):
         if not checkCRC(resp[:-2], crc):
             raise ModbusClientError('CRC error')
 
-        if except_code:
+        if except_code is not None:
             raise ModbusClientException('Modbus exception %d' % (except_code))
 
         return resp[3:-2]
@@ -404,7 +404,7 @@ class ModbusClientRTU(object):
         if not checkCRC(resp[:-2], crc):
             raise ModbusClientError('CRC error')
 
-        if except_code:
+        if except_code is not None:
             raise ModbusClientException('Modbus exception: %d' % (except_code))
         else:
             if sys.version_info > (3,):
@@ -803,7 +803,7 @@ class ModbusClientDeviceTCP(object):
                 s += '%02X' % (ord(c))
             self.trace_func(s)
 
-        if except_code:
+        if except_code is not None:
             raise ModbusClientException('Modbus exception %d' % (except_code))
 
         return resp[(TCP_HDR_LEN + 3):]
@@ -929,7 +929,7 @@ class ModbusClientDeviceTCP(object):
                 s += '%02X' % (ord(c))
             self.trace_func(s)
 
-        if except_code:
+        if except_code is not None:
             raise ModbusClientException('Modbus exception: %d' % (except_code))
 
     def write(self, addr, data):
-- 
2.43.0


From bd21883c62c3130163a503475012e3fc061c77db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:28 +0000
Subject: [PATCH 14/54] fix: an RTU read returns bytes when the response
 carries no data

---
 sunspec/core/modbus/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index ca1ae24..b0ce2a5 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -326,7 +326,7 @@ class ModbusClientRTU(object):
                     count -= read_count
                     read_offset += read_count
                 else:
-                    return
+                    break
         else:
             raise ModbusClientError('Client serial port not open: %s' % self.name)
 
-- 
2.43.0


From 469b3a727abff9f070f42936c6e7464dd727ab5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:07 +0000
Subject: [PATCH 15/54] fix: write_points clears the modified flag only after
 the write succeeded

---
 sunspec/core/client.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sunspec/core/client.py b/sunspec/core/client.py
index 4962a9a..3e328dd 100755
--- a/sunspec/core/client.py
+++ b/sunspec/core/client.py
@@ -418,6 +418,7 @@ class ClientModel(device.Model):
         addr = None
         next_addr = None
         data = b''
+        points = []
 
         for block in self.blocks:
             for point in block.points_list:
@@ -431,13 +432,19 @@ class ClientModel(device.Model):
                     else:
                         if point_addr != next_addr:
                             block.model.device.write(addr, data)
+                            for p in points:
+                                p.dirty = False
+                            points = []
                             addr = point_addr
                             data = b''
                     next_addr = point_addr + point_len
                     data += point_data
-                    point.dirty = False
+                    points.append(point)
             if addr is not None:
                 block.model.device.write(addr, data)
+                for p in points:
+                    p.dirty = False
+                points = []
                 addr = None
 
 class ClientBlock(device.Block):
-- 
2.43.0


From 2ec7a019e8e55ca2fe69d929bca13a3a2b790063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:07 +0000
Subject: [PATCH 16/54] fix: reading a model reports an empty response instead
 of ignoring it

---
 sunspec/core/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunspec/core/client.py b/sunspec/core/client.py
index 3e328dd..f15bb9b 100755
--- a/sunspec/core/client.py
+++ b/sunspec/core/client.py
@@ -364,7 +364,7 @@ class ClientModel(device.Model):
                         else:
                             read_len = self.addr + self.len - addr
                         data += self.device.read(addr, read_len)
-                if data:
+                if data is not None:
                     # print('data len = ', len(data))
                     data_len = len(data)/2
                     if data_len != self.len:
-- 
2.43.0


From d975e7e717627a657b671141a2916b43ce4ae378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:07 +0000
Subject: [PATCH 17/54] fix: scan reports a connection failure as
 SunSpecClientError

---
 sunspec/core/client.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sunspec/core/client.py b/sunspec/core/client.py
index f15bb9b..a28fed1 100755
--- a/sunspec/core/client.py
+++ b/sunspec/core/client.py
@@ -236,7 +236,10 @@ class ClientDevice(device.Device):
 
         connect = False
         if self.modbus_device and type(self.modbus_device) == modbus.ModbusClientDeviceTCP:
-            self.modbus_device.connect()
+            try:
+                self.modbus_device.connect()
+            except modbus.ModbusClientError as e:
+                raise SunSpecClientError('Modbus error: %s' % str(e))
             connect = True
 
             if delay is not None:
-- 
2.43.0


From 4f018e48f77d46603c1a50bd9c521921f13f436d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:07 +0000
Subject: [PATCH 18/54] fix: scan works when the base address is known and does
 not duplicate models

---
 sunspec/core/client.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sunspec/core/client.py b/sunspec/core/client.py
index a28fed1..e38a78d 100755
--- a/sunspec/core/client.py
+++ b/sunspec/core/client.py
@@ -262,8 +262,15 @@ class ClientDevice(device.Device):
 
                 if delay is not None:
                     time.sleep(delay)
+        else:
+            # base address already known
+            data = self.read(self.base_addr, 3)
+            if data[:4] != b'SunS':
+                raise SunSpecClientError('Device responded - not SunSpec register map')
 
         if self.base_addr is not None:
+            self.models_list = []
+            self.models = {}
             # print('base address = %s' % (self.base_addr))
             model_id = util.data_to_u16(data[4:6])
             addr = self.base_addr + 2
-- 
2.43.0


From a8e20779c8fcf5bb87e806597b8431ad11e6dcc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:07 +0000
Subject: [PATCH 19/54] fix: an unresolvable scale factor raises SunSpecError

---
 sunspec/core/device.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index b2d82bd..c8e7d06 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -765,7 +765,7 @@ class Model(object):
                         if point.sf_point is None:
                             # ### what state should model be left in on exception
                             raise SunSpecError('Unable to resolve scale factor point %s for point %s in model %s' %
-                                point.point_type.sf, point.point_type.pid, self.id)
+                                (point.point_type.sf, point.point_type.id, self.id))
 
                 block_addr += block_len
                 block_type = self.model_type.repeating_block
-- 
2.43.0


From de3e24ccc6ebbb496cfd9628d12109d3b730c770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:07 +0000
Subject: [PATCH 20/54] fix: PICS documents with a device address or without a
 model length load

---
 sunspec/core/device.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index c8e7d06..d2e1f93 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -165,7 +165,7 @@ class Device(object):
                 d = element
             if d.tag != pics.PICS_DEVICE:
                 raise SunSpecError("Unexpected device tag: '%s'" % (d.tag))
-            self.base_addr = d.attrib.get(pics.PICS_ATTR_BASE_ADDR, pics.PICS_BASE_ADDR_DEFAULT)
+            self.base_addr = int(d.attrib.get(pics.PICS_ATTR_BASE_ADDR, pics.PICS_BASE_ADDR_DEFAULT))
             addr = self.base_addr + 2
 
             for m in d.findall('*'):
@@ -181,6 +181,8 @@ class Device(object):
                 if model_len is not None:
                     # raise SunSpecError('Module len error in model %d' % (model_id))
                     model_len = int(model_len)
+                else:
+                    model_len = 0
 
                 # move address past model id and length (even though address is not real in the case)
                 model = Model(self, model_id, addr + 2, model_len)
-- 
2.43.0


From 860e52958b8166543095397ffe15ede60642b8f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:07 +0000
Subject: [PATCH 21/54] fix: a PICS point marked not implemented has no value

---
 sunspec/core/device.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index d2e1f93..06dec84 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -551,6 +551,7 @@ class Point(object):
                 self.impl = self.point_type.is_impl(value)
         else:
             self.impl = False
+            self.value_base = None
 
         if self.impl and value is not None:
             self.value_base = value
-- 
2.43.0


From 5ac5902d37c191f6687717be92044cee51c91716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:07 +0000
Subject: [PATCH 22/54] fix: a zip file in the path list does not affect later
 paths

---
 sunspec/core/util.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sunspec/core/util.py b/sunspec/core/util.py
index 648e00a..cf53bca 100644
--- a/sunspec/core/util.py
+++ b/sunspec/core/util.py
@@ -211,6 +211,7 @@ class PathList(object):
         # traverse path list until first instance of file found
         for p in self.path:
             file_path = ''
+            zip_file_path = ''
             element_list = p.split(os.sep)
             sep = os.sep
 
-- 
2.43.0


From cb329c3b1301dc991ff7415c758adaa6810cb019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:13 +0000
Subject: [PATCH 23/54] fix: the base address of a loaded Modbus map is a
 number

---
 sunspec/core/modbus/mbmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunspec/core/modbus/mbmap.py b/sunspec/core/modbus/mbmap.py
index 0a010d3..00b8967 100644
--- a/sunspec/core/modbus/mbmap.py
+++ b/sunspec/core/modbus/mbmap.py
@@ -186,7 +186,7 @@ class ModbusMap(object):
             if value is None:
                 raise ModbusMapError('Unsupported function: %s' % (func))
             self.func = value
-            self.base_addr = root.attrib.get(MBMAP_ADDR, 40000)
+            self.base_addr = int(root.attrib.get(MBMAP_ADDR, MBMAP_BASE_ADDR_DEFAULT))
             self.ns = root.attrib.get(MBMAP_NS)
             self.lid = root.attrib.get(MBMAP_LID)
             self.mapid = root.attrib.get(MBMAP_MAPID)
-- 
2.43.0


From c0b9d5d442f3e55e767c630ee3204abb87a741c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:13 +0000
Subject: [PATCH 24/54] fix: mbmap strings without a length occupy two
 characters per register

---
 sunspec/core/modbus/mbmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunspec/core/modbus/mbmap.py b/sunspec/core/modbus/mbmap.py
index 00b8967..a8cf344 100644
--- a/sunspec/core/modbus/mbmap.py
+++ b/sunspec/core/modbus/mbmap.py
@@ -248,7 +248,7 @@ class ModbusMap(object):
                     rlen = 4
                 elif rtype == MBMAP_REGS_TYPE_STRING:
                     if rlen == 0:
-                        rlen = (len(text) + 3)/4
+                        rlen = (len(text) + 1)//2
 
                     # Python 3 compatibility for byte strings
                     if sys.version_info > (3,):
-- 
2.43.0


From 61e0f4ebb0e03c3cd29a7f9690bf8777e8751c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:13 +0000
Subject: [PATCH 25/54] fix: register counts of hex data in Modbus maps are
 integers

---
 sunspec/core/modbus/mbmap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sunspec/core/modbus/mbmap.py b/sunspec/core/modbus/mbmap.py
index a8cf344..c638746 100644
--- a/sunspec/core/modbus/mbmap.py
+++ b/sunspec/core/modbus/mbmap.py
@@ -140,7 +140,7 @@ class ModbusMap(object):
                             else:
                                 data += c
 
-            mmr = ModbusMapRegs(offset, len(data)/2, data, MBMAP_REGS_ACCESS_RW)
+            mmr = ModbusMapRegs(offset, len(data)//2, data, MBMAP_REGS_ACCESS_RW)
             self.regs.append(mmr)
             f.close()
         except Exception as e:
@@ -263,7 +263,7 @@ class ModbusMap(object):
                     if text_len % 4 != 0:
                         raise ModbusMapError('Hex string content length must be a multiple of 4 bytes')
                     if rlen == 0:
-                        rlen = text_len/4
+                        rlen = text_len//4
                     text_index = 0
                     while text_index < text_len:
                         c = struct.pack('B', int(text[text_index:text_index + 2], 16))
-- 
2.43.0


From 23a22a9516b4ee79b88f599bbcd9ce336e1f5947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:13 +0000
Subject: [PATCH 26/54] fix: reject mbmap hex data longer than the declared
 register length

---
 sunspec/core/modbus/mbmap.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sunspec/core/modbus/mbmap.py b/sunspec/core/modbus/mbmap.py
index c638746..9173fff 100644
--- a/sunspec/core/modbus/mbmap.py
+++ b/sunspec/core/modbus/mbmap.py
@@ -264,6 +264,8 @@ class ModbusMap(object):
                         raise ModbusMapError('Hex string content length must be a multiple of 4 bytes')
                     if rlen == 0:
                         rlen = text_len//4
+                    if text_len > rlen * 4:
+                        raise ModbusMapError('Hex string content exceeds register length %d' % (rlen))
                     text_index = 0
                     while text_index < text_len:
                         c = struct.pack('B', int(text[text_index:text_index + 2], 16))
-- 
2.43.0


From bf79477f4073694bd4daa00fd406a455e7862921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:13 +0000
Subject: [PATCH 27/54] fix: serialised Modbus maps keep the access of their
 registers

---
 sunspec/core/modbus/mbmap.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sunspec/core/modbus/mbmap.py b/sunspec/core/modbus/mbmap.py
index 9173fff..f1547d3 100644
--- a/sunspec/core/modbus/mbmap.py
+++ b/sunspec/core/modbus/mbmap.py
@@ -316,7 +316,8 @@ class ModbusMap(object):
             element = ET.SubElement(parent, MBMAP_ROOT, attrib=attr)
 
         for regs in self.regs:
-            e = ET.SubElement(element, MBMAP_REGS, attrib={MBMAP_REGS_OFFSET: str(regs.offset), MBMAP_REGS_LEN: str(regs.count)})
+            e = ET.SubElement(element, MBMAP_REGS, attrib={MBMAP_REGS_OFFSET: str(regs.offset), MBMAP_REGS_LEN: str(regs.count),
+                                                                  MBMAP_REGS_ACCESS: str(regs.access)})
 
             if no_data is False:
                 s = ''
-- 
2.43.0


From 0182ed1503a8a39ad4bbf6425f986b4e3efaea51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:13 +0000
Subject: [PATCH 28/54] fix: Modbus map writes spanning register blocks store
 the right data

---
 sunspec/core/modbus/mbmap.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sunspec/core/modbus/mbmap.py b/sunspec/core/modbus/mbmap.py
index f1547d3..fa02d0b 100644
--- a/sunspec/core/modbus/mbmap.py
+++ b/sunspec/core/modbus/mbmap.py
@@ -419,7 +419,7 @@ class ModbusMap(object):
         """
 
         data_len = len(data)
-        count_remaining = data_len/2
+        count_remaining = data_len//2
 
         if data_len % 2 != 0:
             raise ModbusMapError('Data length not even number of bytes - addr: %d  data len: %d' % (addr, data_len))
@@ -439,7 +439,7 @@ class ModbusMap(object):
                     end = int(data_offset + (write_count * 2))
                     regs.write(offset, data[start:end])
                     offset += write_count
-                    data_offset += write_count
+                    data_offset += write_count * 2
                     count_remaining -= write_count
                 else:
                     continue
-- 
2.43.0


From a3c0592211b9ecce75b1eadb33b18449bd3b0720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:13 +0000
Subject: [PATCH 29/54] fix: SunSpec data models keep their namespace and index

---
 sunspec/core/data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sunspec/core/data.py b/sunspec/core/data.py
index f1d6260..ab82530 100644
--- a/sunspec/core/data.py
+++ b/sunspec/core/data.py
@@ -138,7 +138,7 @@ class DeviceData(object):
 
     def model_add(self, model_id=None, index=None, namespace=None):
 
-    	m = ModelData(model_id, namespace, index)
+    	m = ModelData(model_id, index, namespace)
     	self.model_data.append(m)
     	return m
 
@@ -247,7 +247,7 @@ class ModelData(object):
         if self.index is None and sys.version_info > (3,):
             self.index = -233
         if self.index > 1:
-            attr[SDX_MODEL_INDEX] = self.index
+            attr[SDX_MODEL_INDEX] = str(self.index)
         if self.index is -233 and sys.version_info > (3,):
             self.index = None
         if self.namespace:
-- 
2.43.0


From 59a4a508673d83dab61ac183e7b58880ddf07330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:13 +0000
Subject: [PATCH 30/54] fix: SunSpec data devices keep their timestamp when
 parsed

---
 sunspec/core/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunspec/core/data.py b/sunspec/core/data.py
index ab82530..04f02f4 100644
--- a/sunspec/core/data.py
+++ b/sunspec/core/data.py
@@ -157,7 +157,7 @@ class DeviceData(object):
         self.man = element.attrib.get(SDX_DEVICE_MAN)
         self.mod = element.attrib.get(SDX_DEVICE_MOD)
         self.sn = element.attrib.get(SDX_DEVICE_SN)
-        self.time = element.attrib.get(SDX_DEVICE_TIME)
+        self.timestamp = element.attrib.get(SDX_DEVICE_TIME)
         self.cid = element.attrib.get(SDX_DEVICE_CORRELATION_ID)
 
         for m in element.findall('*'):
-- 
2.43.0


From 22b10291ef3ad2c4eee9b57255f2c061f7c68eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:04 +0000
Subject: [PATCH 31/54] fix: point type comparison reports an attribute missing
 on one side

---
 sunspec/core/device.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index 06dec84..4310d35 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -1432,13 +1432,12 @@ class PointType(object):
         if point_type is None:
             return "PointType '%s' is None" % (str(self.id))
         if len(self.__dict__) != len(point_type.__dict__):
-            return "PointType '%s' attribute count not equal': %s  %s" % (str(self.id))
+            return "PointType '%s' attribute count not equal: %s  %s" % (str(self.id), len(self.__dict__), len(point_type.__dict__))
         for k, v in self.__dict__.items():
             if k != 'block_type':
                 value = point_type.__dict__.get(k)
-                if v is not None and value is not None:
-                    if value is None or v != value:
-                        return "PointType '{}' attribute '{}' not equal: {}  {}".format(str(self.id), str(k), str(v), str(value))
+                if v != value:
+                    return "PointType '{}' attribute '{}' not equal: {}  {}".format(str(self.id), str(k), str(v), str(value))
 
         return False
 
-- 
2.43.0


From 69f5f25815ef49a760b7eacff7f19e3c76cda248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:04 +0000
Subject: [PATCH 32/54] fix: point types with equal symbols compare equal

---
 sunspec/core/device.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index 4310d35..9594067 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -1455,6 +1455,14 @@ class Symbol(object):
         self.description = None
         self.notes = None
 
+    def __eq__(self, symbol):
+        return isinstance(symbol, Symbol) and self.__dict__ == symbol.__dict__
+
+    def __ne__(self, symbol):
+        return not self == symbol
+
+    __hash__ = object.__hash__
+
     def from_smdx(self, element, strings=False):
 
         for e in element.findall('*'):
-- 
2.43.0


From 0ccd74a34b201a17e33bea1ac8327a09df2f0d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:04 +0000
Subject: [PATCH 33/54] fix: comparing models without a definition does not
 raise

---
 sunspec/core/device.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index 9594067..34849e5 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -866,7 +866,13 @@ class Model(object):
         """
 
         if len(self.blocks) != len(model.blocks):
-            return 'model %s not equal - block counts: %d  %d' % (self.model_type.id, len(self.blocks), len(model.blocks))
+            return 'model %s not equal - block counts: %d  %d' % (self.id, len(self.blocks), len(model.blocks))
+        if self.id != model.id:
+            return 'model {} not equal - model id not equal: {}'.format(self.id, model.id)
+        if self.model_type is None or model.model_type is None:
+            if self.model_type is not model.model_type:
+                return 'model {} not equal - model type missing'.format(self.id)
+            return False
         s = self.model_type.not_equal(model.model_type)
         if s:
             return 'model {} not equal - model id not equal: {}'.format(self.model_type.id, s)
-- 
2.43.0


From a15be25bf5c6b991db1eb35cc62337835edf9765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:01 +0000
Subject: [PATCH 34/54] fix: list devices that have a model without a
 definition

---
 scripts/suns.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/suns.py b/scripts/suns.py
index 146e403..329c687 100644
--- a/scripts/suns.py
+++ b/scripts/suns.py
@@ -88,7 +88,7 @@ if __name__ == "__main__":
         sd.read()
 
         for model in sd.device.models_list:
-            if model.model_type.label:
+            if model.model_type is not None and model.model_type.label:
                 label = '%s (%s)' % (model.model_type.label, str(model.id))
             else:
                 label = '(%s)' % (str(model.id))
-- 
2.43.0


From bde35e8fafca54d3aee01e39d0de7005a54ee67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:19 +0000
Subject: [PATCH 35/54] fix: reject PICS blocks with an index out of range

---
 sunspec/core/device.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index 34849e5..985ee58 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -821,7 +821,7 @@ class Model(object):
                             block.from_pics(b)
                 else:
                     block_index = int(block_index)
-                    if len(self.blocks) < block_index:
+                    if block_index < 1 or len(self.blocks) <= block_index:
                         raise SunSpecError('Block index out of range: %s' % (str(block_index)))
                     self.blocks[block_index].from_pics(b)
             else:
-- 
2.43.0


From 5364b75663e208dcd3bcd5ec35a9f74cade6dedf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:18 +0000
Subject: [PATCH 36/54] fix: print every model of a device that has several of
 one kind

---
 sunspec/core/client.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sunspec/core/client.py b/sunspec/core/client.py
index e38a78d..9436cbc 100755
--- a/sunspec/core/client.py
+++ b/sunspec/core/client.py
@@ -884,8 +884,14 @@ class SunSpecClientDevice(object):
     def __str__(self):
 
         s = ''
-        for model in self.models:
-            s += str(self[model])
+        for name in self.models:
+            model = self[name]
+            if type(model) is list:
+                # first element of a model list is None
+                for m in model[1:]:
+                    s += str(m)
+            else:
+                s += str(model)
 
         return s
 
-- 
2.43.0


From 297b3a95dc59e6b9a0d1ba0ad11f2e623bfaedcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:06 +0000
Subject: [PATCH 37/54] fix: a PICS value that is the 'not implemented' pattern
 clears a value set before

---
 sunspec/core/device.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index 985ee58..131d4cc 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -553,8 +553,8 @@ class Point(object):
             self.impl = False
             self.value_base = None
 
-        if self.impl and value is not None:
-            self.value_base = value
+        if value is not None:
+            self.value_base = value if self.impl else None
 
     def to_pics(self, parent):
         """Adds the point to the parent element.
-- 
2.43.0


From ad1d5bfbb44621f5143051c77d51e9664ceba03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:21 +0000
Subject: [PATCH 38/54] fix: a scan that fails closes the connection it opened

---
 sunspec/core/client.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/sunspec/core/client.py b/sunspec/core/client.py
index 9436cbc..c888c3d 100755
--- a/sunspec/core/client.py
+++ b/sunspec/core/client.py
@@ -232,8 +232,6 @@ class ClientDevice(device.Device):
         SunSpec model definitions.
         """
 
-        error = ''
-
         connect = False
         if self.modbus_device and type(self.modbus_device) == modbus.ModbusClientDeviceTCP:
             try:
@@ -245,6 +243,16 @@ class ClientDevice(device.Device):
             if delay is not None:
                 time.sleep(delay)
 
+        try:
+            self._scan(progress, delay)
+        finally:
+            if connect:
+                self.modbus_device.disconnect()
+
+    def _scan(self, progress, delay):
+
+        error = ''
+
         if self.base_addr is None:
             for addr in self.base_addr_list:
                 # print('trying base address %s' % (addr))
@@ -313,9 +321,6 @@ class ClientDevice(device.Device):
                 error = 'Unknown error'
             raise SunSpecClientError(error)
 
-        if connect:
-            self.modbus_device.disconnect()
-
 class ClientModel(device.Model):
     """A derived class based on :const:`sunspec.core.device.Model`. It adds
     Modbus device access capability to the model base class.
-- 
2.43.0


From 7b7bb18f89e7f8fd7cf035318792b43e03c12300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:30 +0000
Subject: [PATCH 39/54] fix: a late TCP response is not taken for the answer to
 a later request

---
 sunspec/core/modbus/client.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index b0ce2a5..5ebbbb6 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -851,6 +851,12 @@ class ModbusClientDeviceTCP(object):
                     read_offset += read_count
                 else:
                     break
+        except ModbusClientException:
+            raise
+        except Exception:
+            # a late response must not be taken for the answer to a later request
+            self.disconnect()
+            raise
         finally:
             if local_connect:
                 self.disconnect()
@@ -965,6 +971,12 @@ class ModbusClientDeviceTCP(object):
                 self._write(addr + write_offset, data[start:end])
                 count -= write_count
                 write_offset += write_count
+        except ModbusClientException:
+            raise
+        except Exception:
+            # a late response must not be taken for the answer to a later request
+            self.disconnect()
+            raise
         finally:
             if local_connect:
                 self.disconnect()
-- 
2.43.0


From 64892f00fab8ffd1ce97657c6e184dd05e80ed36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:43 +0000
Subject: [PATCH 40/54] fix: a request that cannot be expressed is a Modbus
 client error

A model length that leads past register 65535, or any other address or
slave id outside its range, made reads and scans raise struct.error.
---
 sunspec/core/modbus/client.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index 5ebbbb6..b71e6d8 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -227,7 +227,10 @@ class ModbusClientRTU(object):
         len_found = False
         except_code = None
 
-        req = struct.pack('>BBHH', int(slave_id), op, int(addr), int(count))
+        try:
+            req = struct.pack('>BBHH', int(slave_id), op, int(addr), int(count))
+        except struct.error as e:
+            raise ModbusClientError('Request error: %s' % str(e))
         req += struct.pack('>H', computeCRC(req))
 
         if trace_func:
@@ -344,7 +347,10 @@ class ModbusClientRTU(object):
         len_data = len(data)
         count = int(len_data/2)
 
-        req = struct.pack('>BBHHB', int(slave_id), func, int(addr), count, len_data)
+        try:
+            req = struct.pack('>BBHHB', int(slave_id), func, int(addr), count, len_data)
+        except struct.error as e:
+            raise ModbusClientError('Request error: %s' % str(e))
         if sys.version_info > (3,):
             if type(data) is not bytes:
                 data = bytes(data, "latin-1")
@@ -754,7 +760,10 @@ class ModbusClientDeviceTCP(object):
         len_found = False
         except_code = None
 
-        req = struct.pack('>HHHBBHH', 0, 0, TCP_READ_REQ_LEN, int(self.slave_id), op, int(addr), int(count))
+        try:
+            req = struct.pack('>HHHBBHH', 0, 0, TCP_READ_REQ_LEN, int(self.slave_id), op, int(addr), int(count))
+        except struct.error as e:
+            raise ModbusClientError('Request error: %s' % str(e))
 
         if self.trace_func:
             s = '{}:{}:{}[addr={}] ->'.format(self.ipaddr, str(self.ipport), str(self.slave_id), addr)
@@ -876,7 +885,10 @@ class ModbusClientDeviceTCP(object):
 
         write_len = len(data)
         write_count = int(write_len/2)
-        req = struct.pack('>HHHBBHHB', 0, 0, TCP_WRITE_MULT_REQ_LEN + write_len, int(self.slave_id), func, int(addr), write_count, write_len)
+        try:
+            req = struct.pack('>HHHBBHHB', 0, 0, TCP_WRITE_MULT_REQ_LEN + write_len, int(self.slave_id), func, int(addr), write_count, write_len)
+        except struct.error as e:
+            raise ModbusClientError('Request error: %s' % str(e))
         if sys.version_info > (3,):
             if type(data) is not bytes:
                 data = bytes(data, "latin-1")
-- 
2.43.0


From 83fe31477eee12adff60ab9ded91d58c8b01e88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:57 +0000
Subject: [PATCH 41/54] fix: RTU devices with the same slave id do not close
 each other's port

Closing one of several devices opened with the same slave id closed the
serial port under the others.
---
 sunspec/core/modbus/client.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index b71e6d8..b17a59c 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -202,19 +202,30 @@ class ModbusClientRTU(object):
                 Device to add to the client.
         """
 
-        self.devices[slave_id] = device
+        self.devices.setdefault(slave_id, []).append(device)
 
-    def remove_device(self, slave_id):
+    def remove_device(self, slave_id, device=None):
         """Remove a device from the RTU client.
 
         Parameters:
 
             slave_id :
                 Modbus slave id.
+
+            device :
+                Device to remove from the client. If not specified, all devices
+                with the slave id are removed.
         """
 
-        if self.devices.get(slave_id):
-            del self.devices[slave_id]
+        devices = self.devices.get(slave_id, [])
+        remaining = [d for d in devices if device is not None and d is not device]
+
+        if len(remaining) < len(devices):
+            # several devices can use the same slave id
+            if remaining:
+                self.devices[slave_id] = remaining
+            else:
+                del self.devices[slave_id]
 
             # if no more devices using the client interface, close and remove the client
             if len(self.devices) == 0:
@@ -526,7 +537,7 @@ class ModbusClientDeviceRTU(object):
         """
 
         if self.client:
-            self.client.remove_device(self.slave_id)
+            self.client.remove_device(self.slave_id, self)
 
     def read(self, addr, count, op=FUNC_READ_HOLDING):
         """Read Modbus device registers.
-- 
2.43.0


From 7d647ad3d66fabdb9d44d53f00681ab8115c6d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:09 +0000
Subject: [PATCH 42/54] fix: a path into a zip file can end with a separator

Nothing was found on paths such as 'models.zip/' and 'models.zip/smdx/'.
---
 sunspec/core/util.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sunspec/core/util.py b/sunspec/core/util.py
index cf53bca..b823bbf 100644
--- a/sunspec/core/util.py
+++ b/sunspec/core/util.py
@@ -217,7 +217,9 @@ class PathList(object):
 
             for e in element_list:
                 if e == '':
-                    file_path += sep
+                    # an empty element is the root, or nothing within a zip file
+                    if not zip_file_path:
+                        file_path += sep
                 elif file_path and file_path != sep:
                     file_path += sep
                 file_path += e
-- 
2.43.0


From 4dcfdc13d379f63cf589a63389895a7f99dc7ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:09 +0000
Subject: [PATCH 43/54] fix: comparing devices includes the scale factor points

A scale factor that differs was not reported when the points using it are
unimplemented.
---
 sunspec/core/device.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index 131d4cc..1b324af 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -402,6 +402,10 @@ class Block(object):
             s = point.not_equal(block.points.get(point.point_type.id))
             if s:
                 return 'block %d not equal - %s' % (self.index, s)
+        for pid, point in self.points_sf.items():
+            s = point.not_equal(block.points_sf.get(pid))
+            if s:
+                return 'block %d not equal - %s' % (self.index, s)
         return False
 
     def __str__(self):
-- 
2.43.0


From 4b39c1a8eff7b74f1861609beef93621c6321ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:09 +0000
Subject: [PATCH 44/54] fix: a repeating block without length is an error

Loading such a model added repeating blocks until memory was exhausted.
---
 sunspec/core/device.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index 1b324af..01474e4 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -783,6 +783,8 @@ class Model(object):
                 block_len = int(block_type.len)
                 if end_addr == block_end:
                     break
+                if block_len <= 0:
+                    raise SunSpecError('Invalid repeating block length in model %s: %s' % (self.id, block_len))
         else:
             raise SunSpecError('Unknown model type - id: %s' % str(self.id))
 
-- 
2.43.0


From a7a50447302a378aa1c2488fbc1c60e9e80c3853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:09 +0000
Subject: [PATCH 45/54] fix: a read answered with the wrong number of registers
 is an error

A scan raised struct.error, or ended as if it were complete.
---
 sunspec/core/client.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sunspec/core/client.py b/sunspec/core/client.py
index c888c3d..c18c573 100755
--- a/sunspec/core/client.py
+++ b/sunspec/core/client.py
@@ -192,7 +192,10 @@ class ClientDevice(device.Device):
 
         try:
             if self.modbus_device is not None:
-                return self.modbus_device.read(addr, count)
+                data = self.modbus_device.read(addr, count)
+                if len(data) != count * 2:
+                    raise SunSpecClientError('Modbus read error: %s bytes received for %s registers' % (len(data), count))
+                return data
             else:
                 raise SunSpecClientError('No modbus device set for SunSpec device')
         except modbus.ModbusClientError as e:
-- 
2.43.0


From 362319ba4b3ca12bc77994cdf0fa6514c9aa1e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:09 +0000
Subject: [PATCH 46/54] fix: an RTU read does not accept the response of
 another slave

A late response was returned as the registers of the slave asked next.
---
 sunspec/core/modbus/client.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index b17a59c..0c1d6fa 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -293,6 +293,9 @@ class ModbusClientRTU(object):
         if except_code is not None:
             raise ModbusClientException('Modbus exception %d' % (except_code))
 
+        if ord(resp[0]) != int(slave_id) or ord(resp[1]) != op:
+            raise ModbusClientError('Unexpected response to read request')
+
         return resp[3:-2]
 
     def read(self, slave_id, addr, count, op=FUNC_READ_HOLDING, trace_func=None, max_count=REQ_COUNT_MAX):
-- 
2.43.0


From e324ccd5d154148fb0e7efd29d3114a815810d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:26 +0000
Subject: [PATCH 47/54] fix: a serial port that fails to close can be opened
 again

---
 sunspec/core/modbus/client.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index 0c1d6fa..110d7a1 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -229,8 +229,10 @@ class ModbusClientRTU(object):
 
             # if no more devices using the client interface, close and remove the client
             if len(self.devices) == 0:
-                self.close()
-                modbus_rtu_client_remove(self.name)
+                try:
+                    self.close()
+                finally:
+                    modbus_rtu_client_remove(self.name)
 
     def _read(self, slave_id, addr, count, op=FUNC_READ_HOLDING, trace_func=None):
         resp = ''
-- 
2.43.0


From 29b4a17208e02d9e616bacf0b97a420502cd78de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:26 +0000
Subject: [PATCH 48/54] fix: each request of a long read must be answered with
 its registers

---
 sunspec/core/modbus/client.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index 110d7a1..5317cfe 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -340,12 +340,11 @@ class ModbusClientRTU(object):
                 else:
                     read_count = count
                 data = self._read(slave_id, addr + read_offset, read_count, op=op, trace_func=trace_func)
-                if data:
-                    resp += data
-                    count -= read_count
-                    read_offset += read_count
-                else:
-                    break
+                if len(data) != read_count * 2:
+                    raise ModbusClientError('%s bytes received for %s registers' % (len(data), read_count))
+                resp += data
+                count -= read_count
+                read_offset += read_count
         else:
             raise ModbusClientError('Client serial port not open: %s' % self.name)
 
@@ -870,12 +869,11 @@ class ModbusClientDeviceTCP(object):
                     read_count = count
                 data = self._read(addr + read_offset, read_count, op=op)
 
-                if data:
-                    resp += data
-                    count -= read_count
-                    read_offset += read_count
-                else:
-                    break
+                if len(data) != read_count * 2:
+                    raise ModbusClientError('%s bytes received for %s registers' % (len(data), read_count))
+                resp += data
+                count -= read_count
+                read_offset += read_count
         except ModbusClientException:
             raise
         except Exception:
-- 
2.43.0


From fd6559650638b58363391e4a975a9296c5c8ea68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:26 +0000
Subject: [PATCH 49/54] fix: writing part of a register is a Modbus client
 error

---
 sunspec/core/modbus/client.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index 5317cfe..7761699 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -459,6 +459,9 @@ class ModbusClientRTU(object):
         write_offset = 0
         count = len(data)/2
 
+        if len(data) % 2:
+            raise ModbusClientError('Write data is not a whole number of registers')
+
         if self.serial is not None:
             while (count > 0):
                 if count > max_count:
@@ -982,6 +985,9 @@ class ModbusClientDeviceTCP(object):
         local_connect = False
         count = len(data)/2
 
+        if len(data) % 2:
+            raise ModbusClientError('Write data is not a whole number of registers')
+
         if self.socket is None:
             local_connect = True
             self.connect(self.timeout)
-- 
2.43.0


From da610ba672197917db562f6cfa7a8ef6cd4bf709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:07 +0000
Subject: [PATCH 50/54] fix: a write request carries at most 123 registers

---
 sunspec/core/modbus/client.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sunspec/core/modbus/client.py b/sunspec/core/modbus/client.py
index 7761699..675b238 100755
--- a/sunspec/core/modbus/client.py
+++ b/sunspec/core/modbus/client.py
@@ -39,6 +39,8 @@ PARITY_NONE = 'N'
 PARITY_EVEN = 'E'
 
 REQ_COUNT_MAX = 125
+# a write request carries its registers along with address and count
+REQ_WRITE_COUNT_MAX = 123
 
 FUNC_READ_HOLDING = 3
 FUNC_READ_INPUT = 4
@@ -462,6 +464,8 @@ class ModbusClientRTU(object):
         if len(data) % 2:
             raise ModbusClientError('Write data is not a whole number of registers')
 
+        max_count = min(max_count, REQ_WRITE_COUNT_MAX)
+
         if self.serial is not None:
             while (count > 0):
                 if count > max_count:
@@ -988,14 +992,16 @@ class ModbusClientDeviceTCP(object):
         if len(data) % 2:
             raise ModbusClientError('Write data is not a whole number of registers')
 
+        max_count = min(self.max_count, REQ_WRITE_COUNT_MAX)
+
         if self.socket is None:
             local_connect = True
             self.connect(self.timeout)
 
         try:
             while (count > 0):
-                if count > self.max_count:
-                    write_count = self.max_count
+                if count > max_count:
+                    write_count = max_count
                 else:
                     write_count = count
                 start = int(write_offset * 2)
-- 
2.43.0


From 42002f7d7b583b2a5da837f09ae2b89af5c4ccc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:24 +0000
Subject: [PATCH 51/54] fix: tracing a client device with trace=True prints the
 trace

---
 sunspec/core/client.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sunspec/core/client.py b/sunspec/core/client.py
index c18c573..4229176 100755
--- a/sunspec/core/client.py
+++ b/sunspec/core/client.py
@@ -41,6 +41,9 @@ PARITY_EVEN = modbus.PARITY_EVEN
 class SunSpecClientError(SunSpecError):
     pass
 
+def trace_print(s):
+    print(s)
+
 class ClientDevice(device.Device):
 
     """ClientDevice
@@ -107,7 +110,8 @@ class ClientDevice(device.Device):
             such as .5.
 
         trace :
-            Enable low level trace.
+            Enable low level trace. The trace is printed unless a trace
+            function is supplied.
 
     Raises:
 
@@ -153,6 +157,9 @@ class ClientDevice(device.Device):
         self.retry_count = 2
         self.base_addr_list = [40000, 0, 50000]
 
+        if trace and not callable(trace):
+            trace = trace_print
+
         try:
             if device_type == RTU:
                 self.modbus_device = modbus.ModbusClientDeviceRTU(slave_id, name, baudrate, parity, timeout, self, trace)
-- 
2.43.0


From 403b1948788550264f0eff7d5651bc7b5e334370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:24 +0000
Subject: [PATCH 52/54] fix: a Modbus map write that fails does not store its
 first part

---
 sunspec/core/modbus/mbmap.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sunspec/core/modbus/mbmap.py b/sunspec/core/modbus/mbmap.py
index fa02d0b..05adb36 100644
--- a/sunspec/core/modbus/mbmap.py
+++ b/sunspec/core/modbus/mbmap.py
@@ -425,6 +425,7 @@ class ModbusMap(object):
             raise ModbusMapError('Data length not even number of bytes - addr: %d  data len: %d' % (addr, data_len))
 
         data_offset = 0
+        writes = []
         offset = addr - int(self.base_addr)
         for regs in self.regs:
             if count_remaining > 0:
@@ -437,7 +438,7 @@ class ModbusMap(object):
                     # data += regs.read(offset, read_count)
                     start = data_offset
                     end = int(data_offset + (write_count * 2))
-                    regs.write(offset, data[start:end])
+                    writes.append((regs, offset, data[start:end]))
                     offset += write_count
                     data_offset += write_count * 2
                     count_remaining -= write_count
@@ -450,6 +451,9 @@ class ModbusMap(object):
         if count_remaining > 0:
            raise ModbusMapError('Data write error')
 
+        for regs, offset, regs_data in writes:
+            regs.write(offset, regs_data)
+
     def not_equal(self, mbmap):
         """ Determines if the specified modbus map instance is not equal based
         on the content of the map.  If not equal, returns a string indicating
-- 
2.43.0


From 03bdf5d5b45d717e332f58f500e14c77c68bf182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:24 +0000
Subject: [PATCH 53/54] fix: a PICS document keeps the base address of the
 device

---
 sunspec/core/device.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index 01474e4..57d3c90 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -232,6 +232,9 @@ class Device(object):
 
         attr = {pics.PICS_ATTR_VERSION: str(pics.PICS_VERSION)}
 
+        if self.base_addr is not None and self.base_addr != pics.PICS_BASE_ADDR_DEFAULT:
+            attr[pics.PICS_ATTR_BASE_ADDR] = str(self.base_addr)
+
         e = ET.SubElement(parent, pics.PICS_DEVICE, attrib=attr)
 
         for model in self.models_list:
-- 
2.43.0


From 4d6f9afed83abefb6290461c48887e46e0f6d253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:24 +0000
Subject: [PATCH 54/54] fix: definitions that differ in a model or block name
 compared equal

---
 sunspec/core/device.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sunspec/core/device.py b/sunspec/core/device.py
index 57d3c90..a7f9deb 100644
--- a/sunspec/core/device.py
+++ b/sunspec/core/device.py
@@ -1099,6 +1099,8 @@ class ModelType(object):
             return "ModelType attribute 'id' not equal: {}  {}".format(str(self.id), str(model_type.id))
         if self.len != model_type.len:
             return "ModelType attribute 'len' not equal: {}  {}".format(str(self.len), str(model_type.len))
+        if self.name != model_type.name:
+            return "ModelType attribute 'name' not equal: {}  {}".format(str(self.name), str(model_type.name))
         if self.label != model_type.label:
             return "ModelType attribute 'label' not equal: {}  {}".format(str(self.label), str(model_type.label))
         if self.description != model_type.description:
@@ -1221,6 +1223,8 @@ class BlockType(object):
             return "BlockType attribute 'type' not equal: {}  {}".format(str(self.type), str(block_type.type))
         if self.len != block_type.len:
             return "BlockType attribute 'len' not equal: {}  {}".format(str(self.len), str(block_type.len))
+        if self.name != block_type.name:
+            return "BlockType attribute 'name' not equal: {}  {}".format(str(self.name), str(block_type.name))
         if len(self.points) != len(block_type.points):
             return "BlockType '%s' point count not equal" % (str(self.type))
         for k, v in self.points.items():
-- 
2.43.0

