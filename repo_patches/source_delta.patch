From bc98e92785f264577da95eae4be3d0f2fe02a30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:25 +0000
Subject: [PATCH 01/75] fix: a remaining length of more than four bytes is
 malformed

---
 interoperability/mqtt/formats/MQTTV311/MQTTV311.py | 4 ++++
 interoperability/mqtt/formats/MQTTV5/MQTTV5.py     | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/interoperability/mqtt/formats/MQTTV311/MQTTV311.py b/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
index 57a518d..6e03e6f 100644
--- a/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
+++ b/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
@@ -82,6 +82,8 @@ def getPacket(aSocket):
     if digit & 128 == 0:
       break
     multiplier *= 128
+    if multiplier > 128**3: # the remaining length has at most 4 bytes
+      raise MQTTException("Remaining length is longer than 4 bytes")
   # receive the remaining length if there is any
   rest = bytes([])
   if remlength > 0:
@@ -159,6 +161,8 @@ class FixedHeaders:
       if digit & 128 == 0:
         break
       multiplier *= 128
+      if multiplier > 128**3: # the remaining length has at most 4 bytes
+        raise MQTTException("Remaining length is longer than 4 bytes")
     return (value, bytes)
 
 
diff --git a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
index 6bc45aa..1f7714f 100644
--- a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
+++ b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
@@ -294,6 +294,8 @@ def getPacket(aSocket):
     if digit & 128 == 0:
       break
     multiplier *= 128
+    if multiplier > 128**3: # a variable byte integer has at most 4 bytes
+      raise MalformedPacket("Remaining length is longer than 4 bytes")
   # receive the remaining length if there is any
   rest = bytes([])
   if remlength > 0:
-- 
2.43.0


From a019a03a5050829f1b15045fe97c77370704dc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:47 +0000
Subject: [PATCH 02/75] fix: the length prefix of a UTF-8 string counts bytes,
 not characters

---
 interoperability/mqtt/formats/MQTTV311/MQTTV311.py | 4 +++-
 interoperability/mqtt/formats/MQTTV5/MQTTV5.py     | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/interoperability/mqtt/formats/MQTTV311/MQTTV311.py b/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
index 6e03e6f..668482f 100644
--- a/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
+++ b/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
@@ -174,7 +174,9 @@ def readInt16(buf):
 
 def writeUTF(data):
   # data could be a string, or bytes.  If string, encode into bytes with utf-8
-  return writeInt16(len(data)) + (data if type(data) == type(b"") else bytes(data, "utf-8"))
+  if type(data) != type(b""):
+    data = bytes(data, "utf-8")
+  return writeInt16(len(data)) + data
 
 def readUTF(buffer, maxlen):
   if maxlen >= 2:
diff --git a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
index 1f7714f..3568dfe 100644
--- a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
+++ b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
@@ -384,7 +384,9 @@ def readInt32(buf):
 
 def writeUTF(data):
   # data could be a string, or bytes.  If string, encode into bytes with utf-8
-  return writeInt16(len(data)) + (data if type(data) == type(b"") else bytes(data, "utf-8"))
+  if type(data) != type(b""):
+    data = bytes(data, "utf-8")
+  return writeInt16(len(data)) + data
 
 def readUTF(buffer, maxlen):
   if maxlen >= 2:
-- 
2.43.0


From e0477c9f6044a2b114a68e18c3984f4822978a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:47 +0000
Subject: [PATCH 03/75] fix: MQTT 3.1.1 packets with non-ASCII strings were
 decoded at the wrong offsets

---
 .../mqtt/formats/MQTTV311/MQTTV311.py         | 30 +++++++++----------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/interoperability/mqtt/formats/MQTTV311/MQTTV311.py b/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
index 668482f..dcba489 100644
--- a/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
+++ b/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
@@ -197,7 +197,7 @@ def readUTF(buffer, maxlen):
       raise MQTTException("[MQTT-1.5.3-1] D800-DFFF found in UTF data "+buf)
   if buf.find("\uFEFF") != -1:
     logger.info("[MQTT-1.5.3-3] U+FEFF in UTF string")
-  return buf
+  return buf, length+2
 
 def writeBytes(buffer):
   return writeInt16(len(buffer)) + buffer
@@ -276,8 +276,8 @@ class Connects(Packets):
       assert self.fh.QoS == 0, "[MQTT-2.1.2-1] QoS was not 0, was %d" % self.fh.QoS
       assert self.fh.RETAIN == False, "[MQTT-2.1.2-1]"
 
-      self.ProtocolName = readUTF(buffer[curlen:], packlen - curlen)
-      curlen += len(self.ProtocolName) + 2
+      self.ProtocolName, valuelen = readUTF(buffer[curlen:], packlen - curlen)
+      curlen += valuelen
       assert self.ProtocolName == "MQTT", "Wrong protocol name %s" % self.ProtocolName
 
       self.ProtocolVersion = buffer[curlen]
@@ -303,12 +303,12 @@ class Connects(Packets):
       curlen += 2
       logger.info("[MQTT-3.1.3-3] Clientid must be present, and first field")
       logger.info("[MQTT-3.1.3-4] Clientid must be Unicode, and between 0 and 65535 bytes long")
-      self.ClientIdentifier = readUTF(buffer[curlen:], packlen - curlen)
-      curlen += len(self.ClientIdentifier) + 2
+      self.ClientIdentifier, valuelen = readUTF(buffer[curlen:], packlen - curlen)
+      curlen += valuelen
 
       if self.WillFlag:
-        self.WillTopic = readUTF(buffer[curlen:], packlen - curlen)
-        curlen += len(self.WillTopic) + 2
+        self.WillTopic, valuelen = readUTF(buffer[curlen:], packlen - curlen)
+        curlen += valuelen
         self.WillMessage = readBytes(buffer[curlen:])
         curlen += len(self.WillMessage) + 2
         logger.info("[MQTT-3.1.2-9] will topic and will message fields must be present")
@@ -317,8 +317,8 @@ class Connects(Packets):
 
       if self.usernameFlag:
         assert len(buffer) > curlen+2, "Buffer too short to read username length"
-        self.username = readUTF(buffer[curlen:], packlen - curlen)
-        curlen += len(self.username) + 2
+        self.username, valuelen = readUTF(buffer[curlen:], packlen - curlen)
+        curlen += valuelen
         logger.info("[MQTT-3.1.2-19] username must be in payload if user name flag is 1")
       else:
         logger.info("[MQTT-3.1.2-18] username must not be in payload if user name flag is 0")
@@ -469,11 +469,11 @@ class Publishes(Packets):
     assert len(buffer) >= packlen
     curlen = fhlen
     try:
-      self.topicName = readUTF(buffer[fhlen:], packlen - curlen)
+      self.topicName, valuelen = readUTF(buffer[fhlen:], packlen - curlen)
     except UnicodeDecodeError:
       logger.info("[MQTT-3.3.2-1] topic name in publish must be utf-8")
       raise
-    curlen += len(self.topicName) + 2
+    curlen += valuelen
     if self.fh.QoS != 0:
       self.messageIdentifier = readInt16(buffer[curlen:])
       logger.info("[MQTT-2.3.1-1] packet indentifier must be in publish if QoS is 1 or 2")
@@ -684,8 +684,8 @@ class Subscribes(Packets):
     leftlen = self.fh.remainingLength - 2
     self.data = []
     while leftlen > 0:
-      topic = readUTF(buffer[-leftlen:], leftlen)
-      leftlen -= len(topic) + 2
+      topic, topiclen = readUTF(buffer[-leftlen:], leftlen)
+      leftlen -= topiclen
       qos = buffer[-leftlen]
       assert qos in [0, 1, 2], "[MQTT-3-8.3-2] reserved bits must be zero"
       leftlen -= 1
@@ -789,8 +789,8 @@ class Unsubscribes(Packets):
     leftlen = self.fh.remainingLength - 2
     self.data = []
     while leftlen > 0:
-      topic = readUTF(buffer[-leftlen:], leftlen)
-      leftlen -= len(topic) + 2
+      topic, topiclen = readUTF(buffer[-leftlen:], leftlen)
+      leftlen -= topiclen
       self.data.append(topic)
     assert leftlen == 0
     assert self.fh.DUP == False, "[MQTT-2.1.2-1]"
-- 
2.43.0


From 04fc9f0a0ccdd66ac6bbb955b84bbab35f3edb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:58 +0000
Subject: [PATCH 04/75] fix: the user name and password flags were swapped when
 packing CONNECT

---
 interoperability/mqtt/formats/MQTTV311/MQTTV311.py | 2 +-
 interoperability/mqtt/formats/MQTTV5/MQTTV5.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/interoperability/mqtt/formats/MQTTV311/MQTTV311.py b/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
index dcba489..f6f171f 100644
--- a/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
+++ b/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
@@ -249,7 +249,7 @@ class Connects(Packets):
   def pack(self):
     connectFlags = bytes([(self.CleanSession << 1) | (self.WillFlag << 2) | \
                        (self.WillQoS << 3) | (self.WillRETAIN << 5) | \
-                       (self.usernameFlag << 6) | (self.passwordFlag << 7)])
+                       (self.passwordFlag << 6) | (self.usernameFlag << 7)])
     buffer = writeUTF(self.ProtocolName) + bytes([self.ProtocolVersion]) + \
               connectFlags + writeInt16(self.KeepAliveTimer)
     buffer += writeUTF(self.ClientIdentifier)
diff --git a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
index 3568dfe..ba287be 100644
--- a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
+++ b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
@@ -702,7 +702,7 @@ class Connects(Packets):
   def pack(self):
     connectFlags = bytes([(self.CleanStart << 1) | (self.WillFlag << 2) | \
                        (self.WillQoS << 3) | (self.WillRETAIN << 5) | \
-                       (self.usernameFlag << 6) | (self.passwordFlag << 7)])
+                       (self.passwordFlag << 6) | (self.usernameFlag << 7)])
     buffer = writeUTF(self.ProtocolName) + bytes([self.ProtocolVersion]) + \
               connectFlags + writeInt16(self.KeepAliveTimer)
     buffer += self.properties.pack()
-- 
2.43.0


From 5e3c7da5449a477dc9d8dbd0c1cb9edb1ce04aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:58 +0000
Subject: [PATCH 05/75] fix: a CONNECT ending with an empty user name or
 password was refused

---
 interoperability/mqtt/formats/MQTTV311/MQTTV311.py | 4 ++--
 interoperability/mqtt/formats/MQTTV5/MQTTV5.py     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/interoperability/mqtt/formats/MQTTV311/MQTTV311.py b/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
index f6f171f..21e3029 100644
--- a/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
+++ b/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
@@ -316,7 +316,7 @@ class Connects(Packets):
         self.WillTopic = self.WillMessage = None
 
       if self.usernameFlag:
-        assert len(buffer) > curlen+2, "Buffer too short to read username length"
+        assert len(buffer) >= curlen+2, "Buffer too short to read username length"
         self.username, valuelen = readUTF(buffer[curlen:], packlen - curlen)
         curlen += valuelen
         logger.info("[MQTT-3.1.2-19] username must be in payload if user name flag is 1")
@@ -325,7 +325,7 @@ class Connects(Packets):
         assert self.passwordFlag == False, "[MQTT-3.1.2-22] password flag must be 0 if username flag is 0"
 
       if self.passwordFlag:
-        assert len(buffer) > curlen+2, "Buffer too short to read password length"
+        assert len(buffer) >= curlen+2, "Buffer too short to read password length"
         self.password = readBytes(buffer[curlen:])
         curlen += len(self.password) + 2
         logger.info("[MQTT-3.1.2-21] password must be in payload if password flag is 0")
diff --git a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
index ba287be..a9116db 100644
--- a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
+++ b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
@@ -782,7 +782,7 @@ class Connects(Packets):
         self.WillTopic = self.WillMessage = None
 
       if self.usernameFlag:
-        assert len(buffer) > curlen+2, "Buffer too short to read username length"
+        assert len(buffer) >= curlen+2, "Buffer too short to read username length"
         self.username, valuelen = readUTF(buffer[curlen:], packlen - curlen)
         curlen += valuelen
         logger.info("[MQTT5-3.1.2-17] username must be in payload if user name flag is 1")
@@ -792,7 +792,7 @@ class Connects(Packets):
         assert self.passwordFlag == False, "[MQTT5-3.1.2-22] password flag must be 0 if username flag is 0"
 
       if self.passwordFlag:
-        assert len(buffer) > curlen+2, "Buffer too short to read password length"
+        assert len(buffer) >= curlen+2, "Buffer too short to read password length"
         self.password, valuelen = readBytes(buffer[curlen:])
         curlen += valuelen
         logger.info("[MQTT5-3.1.2-19] password must be in payload if password flag is 1")
-- 
2.43.0


From ee3b76770de88a1ba5682686f842148815e11fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:58 +0000
Subject: [PATCH 06/75] fix: a malformed MQTT 5 CONNECT raised NameError
 (traceback was not imported)

---
 interoperability/mqtt/formats/MQTTV5/MQTTV5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
index a9116db..4c79620 100644
--- a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
+++ b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
@@ -24,7 +24,7 @@ so that the tests that use this package can send invalid data for error testing.
 
 """
 
-import logging, struct
+import logging, struct, traceback
 
 logger = logging.getLogger('MQTT broker')
 
-- 
2.43.0


From 51cd62de4fca79a5e77ce18c57db8a5937756b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:58 +0000
Subject: [PATCH 07/75] fix: MQTT 5 allows a password without a user name

---
 interoperability/mqtt/formats/MQTTV5/MQTTV5.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
index 4c79620..6897b10 100644
--- a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
+++ b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
@@ -789,7 +789,6 @@ class Connects(Packets):
         logger.info("[MQTT5-3.1.3-12] username must be next and UTF-8 encoded string")
       else:
         logger.info("[MQTT5-3.1.2-16] username must not be in payload if user name flag is 0")
-        assert self.passwordFlag == False, "[MQTT5-3.1.2-22] password flag must be 0 if username flag is 0"
 
       if self.passwordFlag:
         assert len(buffer) >= curlen+2, "Buffer too short to read password length"
-- 
2.43.0


From 1d4bad07925446ed02d9ad8cb2baad8c72af0e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:07 +0000
Subject: [PATCH 08/75] fix: properties of 128 bytes or more were skipped one
 byte short

---
 interoperability/mqtt/formats/MQTTV5/MQTTV5.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
index 6897b10..7d00a47 100644
--- a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
+++ b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
@@ -645,8 +645,8 @@ class Properties(object):
   def unpack(self, buffer):
     self.clear()
     # deserialize properties into attributes from buffer received from network
-    propslen, VBIlen = VBIs.decode(buffer)
-    buffer = buffer[VBIlen:] # strip the bytes used by the VBI
+    propslen, propslenVBIlen = VBIs.decode(buffer)
+    buffer = buffer[propslenVBIlen:] # strip the bytes used by the VBI
     propslenleft = propslen
     while propslenleft > 0: # properties length is 0 if there are none
       identifier, VBIlen = VBIs.decode(buffer) # property identifier
@@ -661,7 +661,7 @@ class Properties(object):
       if not self.allowsMultiple(compressedName) and hasattr(self, compressedName):
         raise MQTTException("Property '%s' must not exist more than once" % property)
       setattr(self, propname, value)
-    return self, propslen + VBIlen
+    return self, propslen + propslenVBIlen
 
 
 class Connects(Packets):
-- 
2.43.0


From 7cc66d28c522d3092143882f5a52fcd2524209fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:07 +0000
Subject: [PATCH 09/75] fix: a property which overruns the property length or
 the packet is malformed

---
 interoperability/mqtt/formats/MQTTV5/MQTTV5.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
index 7d00a47..485e5ed 100644
--- a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
+++ b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
@@ -647,6 +647,8 @@ class Properties(object):
     # deserialize properties into attributes from buffer received from network
     propslen, propslenVBIlen = VBIs.decode(buffer)
     buffer = buffer[propslenVBIlen:] # strip the bytes used by the VBI
+    if propslen > len(buffer):
+      raise MalformedPacket("Not enough data for the properties")
     propslenleft = propslen
     while propslenleft > 0: # properties length is 0 if there are none
       identifier, VBIlen = VBIs.decode(buffer) # property identifier
@@ -656,6 +658,8 @@ class Properties(object):
       value, valuelen = self.readProperty(buffer, attr_type, propslenleft)
       buffer = buffer[valuelen:] # strip the bytes used by the value
       propslenleft -= valuelen
+      if propslenleft < 0:
+        raise MalformedPacket("Property longer than the property length")
       propname = self.getNameFromIdent(identifier)
       compressedName = propname.replace(' ', '')
       if not self.allowsMultiple(compressedName) and hasattr(self, compressedName):
-- 
2.43.0


From 324a7bbbd5a5e1a8160cc7d256e5773ba7c9cd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:07 +0000
Subject: [PATCH 10/75] fix: binary data which overruns the packet is malformed

---
 interoperability/mqtt/formats/MQTTV311/MQTTV311.py | 2 ++
 interoperability/mqtt/formats/MQTTV5/MQTTV5.py     | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/interoperability/mqtt/formats/MQTTV311/MQTTV311.py b/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
index 21e3029..824c637 100644
--- a/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
+++ b/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
@@ -204,6 +204,8 @@ def writeBytes(buffer):
 
 def readBytes(buffer):
   length = readInt16(buffer)
+  if length > len(buffer) - 2:
+    raise MQTTException("Length delimited binary data too long")
   return buffer[2:2+length]
 
 
diff --git a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
index 485e5ed..e6e89f0 100644
--- a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
+++ b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
@@ -414,6 +414,8 @@ def writeBytes(buffer):
 
 def readBytes(buffer):
   length = readInt16(buffer)
+  if length > len(buffer) - 2:
+    raise MalformedPacket("Length delimited binary data too long")
   return buffer[2:2+length], length+2
 
 
-- 
2.43.0


From fd343d538c91a45517558757a8e4b76f583c4424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:07 +0000
Subject: [PATCH 11/75] fix: PUBACK, PUBREC, PUBREL and PUBCOMP with properties
 could not be decoded

---
 interoperability/mqtt/formats/MQTTV5/MQTTV5.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
index e6e89f0..2353ae3 100644
--- a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
+++ b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
@@ -1114,7 +1114,7 @@ class Acks(Packets):
     assert len(buffer) >= 2
     assert PacketType(buffer) == self.ackType
     fhlen = self.fh.unpack(buffer, maximumPacketSize)
-    assert self.fh.remainingLength in [2, 3, 4], \
+    assert self.fh.remainingLength >= 2, \
         "%s packet is wrong length %d" % (self.ackName, self.fh.remainingLength)
     assert len(buffer) >= fhlen + self.fh.remainingLength
     self.packetIdentifier = readInt16(buffer[fhlen:])
@@ -1133,7 +1133,9 @@ class Acks(Packets):
       self.reasonCode.unpack(buffer[curlen:])
       curlen += 1
     if self.fh.remainingLength > 3:
-      self.properties.unpack(buffer[curlen:])
+      curlen += self.properties.unpack(buffer[curlen:])[1]
+    assert curlen == fhlen + self.fh.remainingLength, \
+        "%s packet is wrong length %d" % (self.ackName, self.fh.remainingLength)
     return fhlen + self.fh.remainingLength
 
   def __str__(self):
-- 
2.43.0


From eb86b040d8f38503fe6fa7a1b65b68370ef11e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:07 +0000
Subject: [PATCH 12/75] fix: SUBACK and UNSUBACK with other valid reason codes
 could not be decoded

---
 interoperability/mqtt/formats/MQTTV5/MQTTV5.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
index 2353ae3..d542598 100644
--- a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
+++ b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
@@ -1346,7 +1346,6 @@ class UnsubSubacks(Packets):
       else:
         reasonCode = ReasonCodes(self.packetType, "Success")
       reasonCode.unpack(buffer[-leftlen:])
-      assert reasonCode.value in [0, 1, 2, 0x80], "[MQTT5-3.9.3-2] return code in QoS must be 0, 1, 2 or 0x80"
       leftlen -= 1
       self.reasonCodes.append(reasonCode)
     assert leftlen == 0
-- 
2.43.0


From a9078c91b703adef9dd420ecabe69ecf08fdf8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:07 +0000
Subject: [PATCH 13/75] fix: an UNSUBSCRIBE without a topic filter was accepted

---
 interoperability/mqtt/formats/MQTTV311/MQTTV311.py | 1 +
 interoperability/mqtt/formats/MQTTV5/MQTTV5.py     | 1 +
 2 files changed, 2 insertions(+)

diff --git a/interoperability/mqtt/formats/MQTTV311/MQTTV311.py b/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
index 824c637..e00e5cf 100644
--- a/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
+++ b/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
@@ -794,6 +794,7 @@ class Unsubscribes(Packets):
       topic, topiclen = readUTF(buffer[-leftlen:], leftlen)
       leftlen -= topiclen
       self.data.append(topic)
+    assert len(self.data) > 0, "[MQTT-3.10.3-2] at least one topic filter must be in unsubscribe"
     assert leftlen == 0
     assert self.fh.DUP == False, "[MQTT-2.1.2-1]"
     assert self.fh.QoS == 1, "[MQTT-2.1.2-1]"
diff --git a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
index d542598..0af641a 100644
--- a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
+++ b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
@@ -1421,6 +1421,7 @@ class Unsubscribes(Packets):
       topic, topiclen = readUTF(buffer[-leftlen:], leftlen)
       leftlen -= topiclen
       self.topicFilters.append(topic)
+    assert len(self.topicFilters) > 0, "[MQTT5-3.10.3-2] at least one topic filter must be in unsubscribe"
     assert leftlen == 0
     assert self.fh.DUP == False, "[MQTT5-2.1.3-1]"
     assert self.fh.QoS == 1, "[MQTT5-2.1.3-1]"
-- 
2.43.0


From 66450eec30d8bf67895503bead7165e9012bcf6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:07 +0000
Subject: [PATCH 14/75] fix: reserved bits of the subscription options were not
 checked

---
 interoperability/mqtt/formats/MQTTV5/MQTTV5.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
index 0af641a..9cfec34 100644
--- a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
+++ b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
@@ -1214,6 +1214,7 @@ class SubscribeOptions(object):
     self.QoS = (b0 & 0x03)
     assert self.retainHandling in [0, 1, 2], "Retain handling should be 0, 1 or 2, not %d" % self.retainHandling
     assert self.QoS in [0, 1, 2], "QoS should be 0, 1 or 2, not %d" % self.QoS
+    assert b0 >> 6 == 0, "[MQTT5-3.8.3-5] reserved bits must be 0"
     return 1
 
   def __str__(self):
-- 
2.43.0


From ba38f08075f313cde59db88b15ec83470726b02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:07 +0000
Subject: [PATCH 15/75] fix: CONNACK (5.0) and UNSUBACK (3.1.1) of the wrong
 length were accepted

---
 interoperability/mqtt/formats/MQTTV311/MQTTV311.py | 1 +
 interoperability/mqtt/formats/MQTTV5/MQTTV5.py     | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/interoperability/mqtt/formats/MQTTV311/MQTTV311.py b/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
index e00e5cf..c34898a 100644
--- a/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
+++ b/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
@@ -833,6 +833,7 @@ class Unsubacks(Packets):
     assert len(buffer) >= 2
     assert MessageType(buffer) == UNSUBACK
     fhlen = self.fh.unpack(buffer)
+    assert self.fh.remainingLength == 2, "Unsuback packet is wrong length %d" % self.fh.remainingLength
     assert len(buffer) >= fhlen + self.fh.remainingLength
     self.messageIdentifier = readInt16(buffer[fhlen:])
     assert self.messageIdentifier > 0, "[MQTT-2.3.1-1] packet indentifier must be > 0"
diff --git a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
index 9cfec34..5520f9a 100644
--- a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
+++ b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
@@ -903,11 +903,13 @@ class Connacks(Packets):
     assert len(buffer) >= 4
     assert PacketType(buffer) == PacketTypes.CONNACK
     curlen = self.fh.unpack(buffer, maximumPacketSize)
+    packlen = curlen + self.fh.remainingLength
     assert buffer[curlen] in [0, 1], "Connect Acknowledge Flags"
     self.sessionPresent = (buffer[curlen] == 0x01)
     curlen += 1
     curlen += self.reasonCode.unpack(buffer[curlen:])
     curlen += self.properties.unpack(buffer[curlen:])[1]
+    assert curlen == packlen, "CONNACK packet is wrong length %d" % self.fh.remainingLength
     assert self.fh.DUP == False, "[MQTT5-2.1.3-1]"
     assert self.fh.QoS == 0, "[MQTT5-2.1.3-1]"
     assert self.fh.RETAIN == False, "[MQTT5-2.1.3-1]"
-- 
2.43.0


From ab2ddc1549bafaef954122470367005100e438fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:07 +0000
Subject: [PATCH 16/75] fix: an AUTH packet without reason code could not be
 decoded

---
 interoperability/mqtt/formats/MQTTV5/MQTTV5.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
index 5520f9a..3d9a19f 100644
--- a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
+++ b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
@@ -1614,8 +1614,9 @@ class Auths(Packets):
     assert self.fh.QoS == 0, "[MQTT5-2.1.3-1] AUTH reserved bits must be 0"
     assert self.fh.RETAIN == False, "[MQTT5-2.1.3-1] AUTH reserved bits must be 0"
     curlen = fhlen
-    curlen += self.reasonCode.unpack(buffer[curlen:])
-    curlen += self.properties.unpack(buffer[curlen:])[1]
+    if self.fh.remainingLength > 0: # reason code and properties can be omitted
+      curlen += self.reasonCode.unpack(buffer[curlen:])
+      curlen += self.properties.unpack(buffer[curlen:])[1]
     assert curlen == fhlen + self.fh.remainingLength, \
             "AUTH packet is wrong length %d %d" % (self.fh.remainingLength, curlen)
     return fhlen + self.fh.remainingLength
-- 
2.43.0


From b7632d603531716c14d38ba0d4ce53f276e02d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:07 +0000
Subject: [PATCH 17/75] fix: the Retain argument of the MQTT 3.1.1 packets was
 ignored

---
 .../mqtt/formats/MQTTV311/MQTTV311.py         | 26 +++++++++----------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/interoperability/mqtt/formats/MQTTV311/MQTTV311.py b/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
index c34898a..c9e9a47 100644
--- a/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
+++ b/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
@@ -384,7 +384,7 @@ class Connacks(Packets):
     self.fh = FixedHeaders(CONNACK)
     self.fh.DUP = DUP
     self.fh.QoS = QoS
-    self.fh.Retain = Retain
+    self.fh.RETAIN = Retain
     self.flags = 0
     self.returnCode = ReturnCode
     if buffer != None:
@@ -421,7 +421,7 @@ class Disconnects(Packets):
     self.fh = FixedHeaders(DISCONNECT)
     self.fh.DUP = DUP
     self.fh.QoS = QoS
-    self.fh.Retain = Retain
+    self.fh.RETAIN = Retain
     if buffer != None:
       self.unpack(buffer)
 
@@ -445,7 +445,7 @@ class Publishes(Packets):
     self.fh = FixedHeaders(PUBLISH)
     self.fh.DUP = DUP
     self.fh.QoS = QoS
-    self.fh.Retain = Retain
+    self.fh.RETAIN = Retain
     # variable header
     self.topicName = TopicName
     self.messageIdentifier = MsgId
@@ -511,7 +511,7 @@ class Pubacks(Packets):
     self.fh = FixedHeaders(PUBACK)
     self.fh.DUP = DUP
     self.fh.QoS = QoS
-    self.fh.Retain = Retain
+    self.fh.RETAIN = Retain
     # variable header
     self.messageIdentifier = MsgId
     if buffer != None:
@@ -548,7 +548,7 @@ class Pubrecs(Packets):
     self.fh = FixedHeaders(PUBREC)
     self.fh.DUP = DUP
     self.fh.QoS = QoS
-    self.fh.Retain = Retain
+    self.fh.RETAIN = Retain
     # variable header
     self.messageIdentifier = MsgId
     if buffer != None:
@@ -585,7 +585,7 @@ class Pubrels(Packets):
     self.fh = FixedHeaders(PUBREL)
     self.fh.DUP = DUP
     self.fh.QoS = QoS
-    self.fh.Retain = Retain
+    self.fh.RETAIN = Retain
     # variable header
     self.messageIdentifier = MsgId
     if buffer != None:
@@ -623,7 +623,7 @@ class Pubcomps(Packets):
     self.fh = FixedHeaders(PUBCOMP)
     self.fh.DUP = DUP
     self.fh.QoS = QoS
-    self.fh.Retain = Retain
+    self.fh.RETAIN = Retain
     # variable header
     self.messageIdentifier = MsgId
     if buffer != None:
@@ -660,7 +660,7 @@ class Subscribes(Packets):
     self.fh = FixedHeaders(SUBSCRIBE)
     self.fh.DUP = DUP
     self.fh.QoS = QoS
-    self.fh.Retain = Retain
+    self.fh.RETAIN = Retain
     # variable header
     self.messageIdentifier = MsgId
     # payload - list of topic, qos pairs
@@ -715,7 +715,7 @@ class Subacks(Packets):
     self.fh = FixedHeaders(SUBACK)
     self.fh.DUP = DUP
     self.fh.QoS = QoS
-    self.fh.Retain = Retain
+    self.fh.RETAIN = Retain
     # variable header
     self.messageIdentifier = MsgId
     # payload - list of qos
@@ -765,7 +765,7 @@ class Unsubscribes(Packets):
     self.fh = FixedHeaders(UNSUBSCRIBE)
     self.fh.DUP = DUP
     self.fh.QoS = QoS
-    self.fh.Retain = Retain
+    self.fh.RETAIN = Retain
     # variable header
     self.messageIdentifier = MsgId
     # payload - list of topics
@@ -818,7 +818,7 @@ class Unsubacks(Packets):
     self.fh = FixedHeaders(UNSUBACK)
     self.fh.DUP = DUP
     self.fh.QoS = QoS
-    self.fh.Retain = Retain
+    self.fh.RETAIN = Retain
     # variable header
     self.messageIdentifier = MsgId
     if buffer != None:
@@ -857,7 +857,7 @@ class Pingreqs(Packets):
     self.fh = FixedHeaders(PINGREQ)
     self.fh.DUP = DUP
     self.fh.QoS = QoS
-    self.fh.Retain = Retain
+    self.fh.RETAIN = Retain
     if buffer != None:
       self.unpack(buffer)
 
@@ -881,7 +881,7 @@ class Pingresps(Packets):
     self.fh = FixedHeaders(PINGRESP)
     self.fh.DUP = DUP
     self.fh.QoS = QoS
-    self.fh.Retain = Retain
+    self.fh.RETAIN = Retain
     if buffer != None:
       self.unpack(buffer)
 
-- 
2.43.0


From 36d1f9b420babeb41c444bbe2448a0874143cb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:07 +0000
Subject: [PATCH 18/75] fix: comparing MQTT 5 packets: reason codes, properties
 and options compare by value

---
 interoperability/mqtt/formats/MQTTV5/MQTTV5.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
index 3d9a19f..a1b8e32 100644
--- a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
+++ b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
@@ -135,6 +135,9 @@ class ReasonCodes:
   def getName(self):
     return self.__getName__(self.packetType, self.value)
 
+  def __eq__(self, other):
+    return isinstance(other, ReasonCodes) and self.value == other.value
+
   def __str__(self):
     return self.getName()
 
@@ -560,6 +563,9 @@ class Properties(object):
           data[compressedName] = str(data[compressedName])
     return data
 
+  def __eq__(self, other):
+    return isinstance(other, Properties) and self.pack() == other.pack()
+
   def isEmpty(self):
     rc = True
     for name in self.names.keys():
@@ -1219,6 +1225,9 @@ class SubscribeOptions(object):
     assert b0 >> 6 == 0, "[MQTT5-3.8.3-5] reserved bits must be 0"
     return 1
 
+  def __eq__(self, other):
+    return isinstance(other, SubscribeOptions) and self.pack() == other.pack()
+
   def __str__(self):
     return "{QoS="+str(self.QoS)+", noLocal="+str(self.noLocal)+\
         ", retainAsPublished="+str(self.retainAsPublished)+\
@@ -1375,7 +1384,7 @@ class UnsubSubacks(Packets):
   def __eq__(self, packet):
     return Packets.__eq__(self, packet) and \
            self.packetIdentifier == packet.packetIdentifier and \
-           self.data == packet.data
+           self.reasonCodes == packet.reasonCodes
 
 
 class Subacks(UnsubSubacks):
-- 
2.43.0


From d9a313bfcf8229bb7f5b9c8fb8ff513456d4088b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:14 +0000
Subject: [PATCH 19/75] fix: CONNACK can have the reason code Payload format
 invalid

---
 interoperability/mqtt/formats/MQTTV5/MQTTV5.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
index a1b8e32..58fc45e 100644
--- a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
+++ b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
@@ -205,7 +205,8 @@ class ReasonCodes:
           PacketTypes.PUBREC, PacketTypes.SUBACK, PacketTypes.DISCONNECT], },
     152 : { "Administrative action" : [PacketTypes.DISCONNECT] },
     153 : { "Payload format invalid" :
-            [PacketTypes.PUBACK, PacketTypes.PUBREC, PacketTypes.DISCONNECT]},
+            [PacketTypes.CONNACK, PacketTypes.PUBACK, PacketTypes.PUBREC,
+             PacketTypes.DISCONNECT]},
     154 : { "Retain not supported" :
             [PacketTypes.CONNACK, PacketTypes.DISCONNECT] },
     155 : { "QoS not supported" :
-- 
2.43.0


From 00e637e74a57055e0715c2c96e0d6c2619cba132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:10 +0000
Subject: [PATCH 20/75] fix: topic filters with + did not match empty levels,
 and . and $ mistook newlines

---
 interoperability/mqtt/brokers/V311/Topics.py | 4 ++--
 interoperability/mqtt/brokers/V5/Topics.py   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/interoperability/mqtt/brokers/V311/Topics.py b/interoperability/mqtt/brokers/V311/Topics.py
index 396c51f..9ad2fec 100644
--- a/interoperability/mqtt/brokers/V311/Topics.py
+++ b/interoperability/mqtt/brokers/V311/Topics.py
@@ -85,8 +85,8 @@ def topicMatches(wild, nonwild, wildCheck=True):
     else:
       "all other instances subsume the preceding or following slash"
       wild = wild.replace('#/', '(.*?/|^)').replace('/#', '(/.*?|$)')
-    wild = wild.replace('+', '[^/#]+?') # + does not match an empty level
-    if re.compile(wild+'$').match(nonwild) != None:
+    wild = wild.replace('+', '[^/]*') # + matches exactly one level, which can be empty
+    if re.compile(wild+r'\Z', re.DOTALL).match(nonwild) != None:
       rc = True
   return rc
 
diff --git a/interoperability/mqtt/brokers/V5/Topics.py b/interoperability/mqtt/brokers/V5/Topics.py
index 3ca6b9d..0a9ef11 100644
--- a/interoperability/mqtt/brokers/V5/Topics.py
+++ b/interoperability/mqtt/brokers/V5/Topics.py
@@ -90,8 +90,8 @@ def topicMatches(wild, nonwild, wildCheck=True):
     else:
       "all other instances subsume the preceding or following slash"
       wild = wild.replace('#/', '(.*?/|^)').replace('/#', '(/.*?|$)')
-    wild = wild.replace('+', '[^/#]+?') # + does not match an empty level
-    if re.compile(wild+'$').match(nonwild) != None:
+    wild = wild.replace('+', '[^/]*') # + matches exactly one level, which can be empty
+    if re.compile(wild+r'\Z', re.DOTALL).match(nonwild) != None:
       rc = True
   return rc
 
-- 
2.43.0


From 3b35e4aa7ec67b4b11e004b8c64467c52ef2a877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:27 +0000
Subject: [PATCH 21/75] fix: shared subscriptions to $ topics never matched,
 $share without / is no shared subscription

---
 .../mqtt/brokers/V5/SubscriptionEngines.py         | 14 ++++++++++----
 interoperability/mqtt/brokers/V5/Topics.py         |  2 +-
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/interoperability/mqtt/brokers/V5/SubscriptionEngines.py b/interoperability/mqtt/brokers/V5/SubscriptionEngines.py
index a4a1db1..27976a5 100644
--- a/interoperability/mqtt/brokers/V5/SubscriptionEngines.py
+++ b/interoperability/mqtt/brokers/V5/SubscriptionEngines.py
@@ -26,7 +26,13 @@ from .Subscriptions import *
 logger = logging.getLogger('MQTT broker')
 
 def isDollarTopic(name):
-  return name[0] == '$' and not name.startswith('$share/')
+  return name[0] == '$'
+
+def isDollarFilter(name):
+  if name.startswith('$share/') and name.count('/') >= 2:
+    # strip shared prefix $share/sharename/
+    name = name.split('/', 2)[2]
+  return isDollarTopic(name)
 
 class SubscriptionEngines:
 
@@ -68,7 +74,7 @@ class SubscriptionEngines:
      rc = None
      resubscribed = False
      if Topics.isValidTopicName(aTopic):
-       subscriptions = self.__subscriptions if not isDollarTopic(aTopic) else self.__dollar_subscriptions
+       subscriptions = self.__subscriptions if not isDollarFilter(aTopic) else self.__dollar_subscriptions
        for s in subscriptions:
          if s.getClientid() == aClientid and s.getTopic() == aTopic:
            s.resubscribe(options)
@@ -101,7 +107,7 @@ class SubscriptionEngines:
      "unsubscribe to one topic"
      matched = False
      if Topics.isValidTopicName(aTopic):
-       subscriptions = self.__subscriptions if not isDollarTopic(aTopic) else self.__dollar_subscriptions
+       subscriptions = self.__subscriptions if not isDollarFilter(aTopic) else self.__dollar_subscriptions
        for s in subscriptions:
          if s.getClientid() == aClientid and s.getTopic() == aTopic:
            logger.info("[MQTT-3.10.4-1] topic filters must be compared byte for byte")
@@ -182,7 +188,7 @@ class SubscriptionEngines:
    def getRetainedTopics(self, aTopic):
      "returns a list of topics for which retained publications exist"
      if Topics.isValidTopicName(aTopic):
-       retained = self.__retained if not isDollarTopic(aTopic) else self.__dollar_retained
+       retained = self.__retained if not isDollarFilter(aTopic) else self.__dollar_retained
        return retained.keys()
      else:
        return None
diff --git a/interoperability/mqtt/brokers/V5/Topics.py b/interoperability/mqtt/brokers/V5/Topics.py
index 0a9ef11..b4fa7bf 100644
--- a/interoperability/mqtt/brokers/V5/Topics.py
+++ b/interoperability/mqtt/brokers/V5/Topics.py
@@ -65,7 +65,7 @@ def topicMatches(wild, nonwild, wildCheck=True):
     assert nonwild.find('+') == nonwild.find('#') == -1
   assert isValidTopicName(wild) and isValidTopicName(nonwild)
 
-  if wild.startswith('$share'):
+  if wild.startswith('$share/'):
     # strip shared prefix $share/sharename/
     assert wild.count('/') >= 2
     wild = wild.split('/', 2)[2]
-- 
2.43.0


From 1ad7ebc9e12655922c6bfc82a44dfc8f30dbc187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:58 +0000
Subject: [PATCH 22/75] fix: reinitialize left the shared subscriptions and
 retained messages in place

---
 interoperability/mqtt/brokers/V311/SubscriptionEngines.py | 6 +++++-
 interoperability/mqtt/brokers/V5/Brokers.py               | 1 +
 interoperability/mqtt/brokers/V5/SubscriptionEngines.py   | 6 +++++-
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/interoperability/mqtt/brokers/V311/SubscriptionEngines.py b/interoperability/mqtt/brokers/V311/SubscriptionEngines.py
index e6939f8..534ae87 100644
--- a/interoperability/mqtt/brokers/V311/SubscriptionEngines.py
+++ b/interoperability/mqtt/brokers/V311/SubscriptionEngines.py
@@ -44,7 +44,11 @@ class SubscriptionEngines:
      self.__dollar_retained = self.sharedData["dollar_retained"]  
 
    def reinitialize(self):
-     self.__init__()
+     # the collections can be shared with other brokers, so they are emptied in place
+     self.__subscriptions.clear()
+     self.__dollar_subscriptions.clear()
+     self.__retained.clear()
+     self.__dollar_retained.clear()
 
    def subscribe(self, aClientid, topic, qos):
      if type(topic) == type([]):
diff --git a/interoperability/mqtt/brokers/V5/Brokers.py b/interoperability/mqtt/brokers/V5/Brokers.py
index 831c6a8..4efe171 100644
--- a/interoperability/mqtt/brokers/V5/Brokers.py
+++ b/interoperability/mqtt/brokers/V5/Brokers.py
@@ -40,6 +40,7 @@ class Brokers:
 
   def reinitialize(self):
     self.__clients = {}
+    self.willMessageClients.clear()
     self.se.reinitialize()
 
   def getClients(self):
diff --git a/interoperability/mqtt/brokers/V5/SubscriptionEngines.py b/interoperability/mqtt/brokers/V5/SubscriptionEngines.py
index 27976a5..495be94 100644
--- a/interoperability/mqtt/brokers/V5/SubscriptionEngines.py
+++ b/interoperability/mqtt/brokers/V5/SubscriptionEngines.py
@@ -54,7 +54,11 @@ class SubscriptionEngines:
      self.__dollar_retained = self.sharedData["dollar_retained"] 
 
    def reinitialize(self):
-     self.__init__()
+     # the collections can be shared with other brokers, so they are emptied in place
+     self.__subscriptions.clear()
+     self.__dollar_subscriptions.clear()
+     self.__retained.clear()
+     self.__dollar_retained.clear()
 
    def subscribe(self, aClientid, topic, options):
      if type(topic) == type([]):
-- 
2.43.0


From fe54c2cad80d1314939d6ccae1e8647c421383d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:25 +0000
Subject: [PATCH 23/75] fix: subscribers shared the properties of a
 publication, and options and identifiers of subscriptions were mixed up

---
 interoperability/mqtt/brokers/V5/Brokers.py | 132 ++++++++++----------
 1 file changed, 66 insertions(+), 66 deletions(-)

diff --git a/interoperability/mqtt/brokers/V5/Brokers.py b/interoperability/mqtt/brokers/V5/Brokers.py
index 4efe171..6596acc 100644
--- a/interoperability/mqtt/brokers/V5/Brokers.py
+++ b/interoperability/mqtt/brokers/V5/Brokers.py
@@ -20,7 +20,7 @@ import types, time, logging, random
 
 from . import Topics
 from .SubscriptionEngines import SubscriptionEngines
-from mqtt.formats.MQTTV5 import ProtocolError
+from mqtt.formats.MQTTV5 import ProtocolError, Properties, PacketTypes
 
 logger = logging.getLogger('MQTT broker')
 
@@ -117,25 +117,8 @@ class Brokers:
       raise ProtocolError("Topic alias invalid", topicAlias)
     return mytopic
 
-  def publish(self, aClientid, topic, message, qos, retained, properties, receivedTime):
-    """publish to all subscribed connected clients
-       also to any disconnected non-cleanstart clients with qos in [1,2]
-    """
-
-    def publishAction(options, subsprops, subsids=None):
-      if hasattr(properties, "SubscriptionIdentifier"):
-        delattr(properties, "SubscriptionIdentifier")
-      if subsids or hasattr(subsprops, "SubscriptionIdentifier"):
-        if subsids:
-          for subsid in subsids:
-            properties.SubscriptionIdentifier = subsid
-        else:
-          properties.SubscriptionIdentifier = subsprops.SubscriptionIdentifier[0]
-      out_qos = min(options.QoS, qos)
-      outretain = retained if options.retainAsPublished else False
-      self.__clients[subscriber].publishArrived(topic, message, out_qos, properties, receivedTime, outretain)
-
-    # topic alias
+  def resolveTopicAlias(self, aClientid, topic, properties):
+    "returns the topic of an incoming publication.  An alias is used or set, and has no meaning beyond that"
     if hasattr(properties, "TopicAlias"):
       if properties.TopicAlias == 0:
         raise ProtocolError("Topic alias invalid", properties.TopicAlias)
@@ -147,11 +130,45 @@ class Brokers:
           self.__clients[aClientid].topicAliasToNames[properties.TopicAlias] = topic
         else:
           raise ProtocolError("Topic alias invalid", self.__clients[aClientid].topicAliasMaximum)
-    assert len(topic) > 0
+      del properties.TopicAlias
+    if len(topic) == 0:
+      raise ProtocolError("Protocol error", "no topic name")
+    return topic
+
+  def outgoingProperties(self, properties):
+    "a copy of the properties of a publication or will message, for sending on or storing"
+    result = Properties(PacketTypes.PUBLISH)
+    if properties:
+      for name in properties.names.keys():
+        name = name.replace(' ', '')
+        if hasattr(properties, name) and name not in ["TopicAlias", "SubscriptionIdentifier", "WillDelayInterval"]:
+          setattr(result, name, getattr(properties, name))
+    return result
+
+  def publish(self, aClientid, topic, message, qos, retained, properties, receivedTime):
+    """publish to all subscribed connected clients
+       also to any disconnected non-cleanstart clients with qos in [1,2]
+    """
+
+    def publishAction(subscriptions):
+      "send one message to the subscriber as the result of these subscriptions"
+      options = None
+      outproperties = self.outgoingProperties(properties) # each subscriber has its own properties
+      for subscription in subscriptions:
+        subopts, subsprops = subscription.getOptions()
+        if options == None or subopts.QoS > options.QoS:
+          options = subopts
+        if hasattr(subsprops, "SubscriptionIdentifier"):
+          outproperties.SubscriptionIdentifier = subsprops.SubscriptionIdentifier
+      out_qos = min(options.QoS, qos)
+      outretain = retained if options.retainAsPublished else False
+      self.__clients[subscriber].publishArrived(topic, message, out_qos, outproperties, receivedTime, outretain)
+
+    topic = self.resolveTopicAlias(aClientid, topic, properties)
 
     if retained:
       logger.info("[MQTT-2.1.2-6] store retained message and QoS")
-      self.se.setRetained(topic, message, qos, receivedTime, properties)
+      self.se.setRetained(topic, message, qos, receivedTime, self.outgoingProperties(properties))
     else:
       logger.info("[MQTT-2.1.2-12] non-retained message - do not store")
 
@@ -164,66 +181,46 @@ class Brokers:
     for n in nonshared:
       if n.getClientid() not in clientids:
         clientids.add(n.getClientid())
-        subscriptions.append(n)
+        subscriptions.append((n.getClientid(), [s for s in nonshared if s.getClientid() == n.getClientid()]))
     sharenames = set()  # set of shared topic names
     for s in shared:
       sharenames.add(s.getTopic())
     for sname in list(sharenames):
-      subscriptions.append(random.choice([s for s in shared if s.getTopic() == sname]))
+      chosen = random.choice([s for s in shared if s.getTopic() == sname])
+      subscriptions.append((chosen.getClientid(), [chosen]))
     
-    subscribed_clients = [s.getClientid() for s in subscriptions]
-    for subscriber in subscribed_clients:  # all subscribed clients
+    for subscriber, matching in subscriptions:  # all subscribed clients
       # qos is lower of publication and subscription
-      overlapping = False
-      subscriptions = self.se.getSubscriptions(topic, subscriber)
-      if len(subscriptions) > 1:
+      if len(matching) > 1:
         logger.info("[MQTT-3.3.5-1] overlapping subscriptions")
-        overlapping = True
       if retained:
         logger.info("[MQTT-2.1.2-10] outgoing publish does not have retained flag set")
-      if self.overlapping_single:
-        if subscriber in self.__clients.keys():
-          options, subsprops = self.se.optionsOf(subscriber, topic)
-          # any other subscription ids?
-          subsids = []
-          nolocalfilter = []
-          if overlapping:
-            for subscription in subscriptions:
-              subopts, subprops = subscription.getOptions()
-              if not subopts.noLocal or subscriber != aClientid: # noLocal
-                nolocalfilter.append(subscription)
-                if hasattr(subprops, "SubscriptionIdentifier"):
-                  subsids += subprops.SubscriptionIdentifier
-          else:
-            if not options.noLocal or subscriber != aClientid: # noLocal
-              nolocalfilter = subscriptions
-          if len(nolocalfilter) > 0:
-            publishAction(options, subsprops, subsids=subsids)
+      if subscriber in self.__clients.keys():
+        matching = [s for s in matching if not s.getOptions()[0].noLocal or subscriber != aClientid] # noLocal
+        if self.overlapping_single:
+          if len(matching) > 0:
+            publishAction(matching)
         else:
-          # MQTT V3 subscription
-          out_qos = min(self.__broker3.se.qosOf(subscriber, topic), qos)
-          self.__broker3.getClient(subscriber).publishArrived(topic, message, out_qos)
+          for subscription in matching:
+            publishAction([subscription])
       else:
-        for subscription in subscriptions:
-          if subscriber in self.__clients.keys():
-            options, subsprops = subscription.getOptions()
-            if not options.noLocal or subscriber != aClientid: # noLocal
-              publishAction(options, subsprops)
-          else:
-            # MQTT V3 subscription
-            out_qos = min(self.__broker3.se.qosOf(subscriber, topic), qos)
-            self.__broker3.getClient(subscriber).publishArrived(topic, message, out_qos)
+        # MQTT V3 subscription
+        out_qos = min(self.__broker3.se.qosOf(subscriber, topic), qos)
+        self.__broker3.getClient(subscriber).publishArrived(topic, message, out_qos)
+    subscribed_clients = [subscriber for (subscriber, matching) in subscriptions]
     return subscribed_clients if len(subscribed_clients) > 0 else None
 
-  def __doRetained__(self, aClientid, topic, subsoptions, resubscribeds):
+  def __doRetained__(self, aClientid, topic, optionsprops, resubscribeds):
     # topic can be single, or a list
     if type(topic) != type([]):
       topic = [topic]
-      suboptions = [subsoptions]
+      optionsprops = [optionsprops]
     i = 0
     for t in topic: # t is a wildcard subscription topic
-      if subsoptions[i].retainHandling == 2 or \
-        (subsoptions[i].retainHandling == 1 and resubscribeds[i]):
+      subsoptions, subsprops = optionsprops[i]
+      # no retained messages are sent for shared subscriptions
+      if t.startswith('$share/') or subsoptions.retainHandling == 2 or \
+        (subsoptions.retainHandling == 1 and resubscribeds[i]):
         i += 1
         continue
       topicsUsed = []
@@ -237,14 +234,17 @@ class Brokers:
             properties = None
           else:
             (ret_msg, ret_qos, receivedTime, properties) = retained_message
-          thisqos = min(ret_qos, subsoptions[i].QoS)
+          thisqos = min(ret_qos, subsoptions.QoS)
+          properties = self.outgoingProperties(properties)
+          if hasattr(subsprops, "SubscriptionIdentifier"):
+            properties.SubscriptionIdentifier = subsprops.SubscriptionIdentifier
           self.__clients[aClientid].publishArrived(s, ret_msg, thisqos, properties, receivedTime, True)
       i += 1
 
   def subscribe(self, aClientid, topic, optionsprops):
     rc = self.se.subscribe(aClientid, topic, optionsprops)
     resubscribeds = [resubscribed for (x, resubscribed) in rc]
-    self.__doRetained__(aClientid, topic, [options for (options, props) in optionsprops], resubscribeds)
+    self.__doRetained__(aClientid, topic, optionsprops, resubscribeds)
     return rc
 
   def unsubscribe(self, aClientid, topic):
-- 
2.43.0


From 4a1433f7a849ebf295f41af3cd2b1fce811e284e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:53 +0000
Subject: [PATCH 24/75] fix: outbound publications: queued ones were
 duplicated, discarded ones kept their place, aliases outlived the connection

---
 .../mqtt/brokers/V5/MQTTBrokers.py            | 133 ++++++++++++------
 1 file changed, 93 insertions(+), 40 deletions(-)

diff --git a/interoperability/mqtt/brokers/V5/MQTTBrokers.py b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
index a75c9a0..164cc51 100644
--- a/interoperability/mqtt/brokers/V5/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
@@ -27,14 +27,18 @@ logger = logging.getLogger('MQTT broker')
 
 mybroker = None
 
-def respond(sock, packet, maximumPacketSize=500):
+def respond(sock, packet, maximumPacketSize=None):
+  "send a packet to a client.  Returns False if it has to be discarded"
+  client = mybroker.clients[sock] if sock in mybroker.clients.keys() else None
+  if maximumPacketSize == None:
+    maximumPacketSize = client.maximumPacketSize if client else MQTTV5.MAX_PACKET_SIZE
   # deal with expiry
   if packet.fh.PacketType == MQTTV5.PacketTypes.PUBLISH:
     if hasattr(packet.properties, "MessageExpiryInterval"):
       timespent = int(time.monotonic() - packet.receivedTime)
       if timespent >= packet.properties.MessageExpiryInterval:
         logger.info("[MQTT-3.3.2-5] Delete expired message")
-        return
+        return False
       else:
         try:
           logger.info("[MQTT-3.3.2-6] Message Expiry Interval set to received value minus time waiting in the server")
@@ -44,10 +48,16 @@ def respond(sock, packet, maximumPacketSize=500):
   packed = packet.pack()
   # deal with packet size
   packlen = len(packed)
+  if packlen > maximumPacketSize and packet.fh.PacketType != MQTTV5.PacketTypes.PUBLISH and hasattr(packet, "properties"):
+    for name in ["ReasonString", "UserProperty"]: # must not be sent if the packet gets too large because of them
+      if hasattr(packet.properties, name):
+        delattr(packet.properties, name)
+    packed = packet.pack()
+    packlen = len(packed)
   if packlen > maximumPacketSize:
     logger.error("[MQTT5-3.1.2-24] Packet too big to send to client packet size %d max packet size %d" % (packlen, maximumPacketSize))
     logger.info("[MQTT5-3.1.2-25] message must be discarded and behave as if it had been sent")
-    return
+    return False
   if hasattr(sock, "fileno"):
     packet_string = str(packet)
     if len(packet_string) > 256:
@@ -77,6 +87,7 @@ def respond(sock, packet, maximumPacketSize=500):
         assert bytes_sent == len(packed)
     except:
       traceback.print_exc()
+  return True
 
 class MQTTClients:
 
@@ -117,73 +128,104 @@ class MQTTClients:
   def resendPub(self, pub):
     logger.debug("resending %s", str(pub))
     logger.info("[MQTT-4.4.0-2] dup flag must be set on in re-publish")
-    if pub.fh.QoS == 0:
-      respond(self.socket, pub, self.maximumPacketSize)
-    elif pub.fh.QoS == 1:
+    sent = True
+    if pub.fh.QoS == 1:
       logger.info("[MQTT-2.1.2-3] Dup when resending QoS 1 publish id %d", pub.packetIdentifier)
       logger.info("[MQTT-2.3.1-4] Message id same as original publish on resend")
       logger.info("[MQTT-4.3.2-1] Resending QoS 1 with DUP flag")
-      respond(self.socket, pub, self.maximumPacketSize)
-      pub.fh.DUP = 1
+      sent = self.send(pub)
     elif pub.fh.QoS == 2:
       if pub.qos2state == "PUBREC":
         logger.info("[MQTT-2.1.2-3] Dup when resending QoS 2 publish id %d", pub.packetIdentifier)
         logger.info("[MQTT-2.3.1-4] Message id same as original publish on resend")
         logger.info("[MQTT-4.3.3-1] Resending QoS 2 with DUP flag")
-        respond(self.socket, pub, self.maximumPacketSize)
-        pub.fh.DUP = 1
+        sent = self.send(pub)
       else:
         resp = MQTTV5.Pubrels()
         logger.info("[MQTT-2.3.1-4] Message id same as original publish on resend")
         resp.packetIdentifier = pub.packetIdentifier
         respond(self.socket, resp, self.maximumPacketSize)
+    return sent
 
   def resend(self):
     logger.debug("resending unfinished publications %s", str(self.outbound))
     if len(self.outbound) > 0:
       logger.info("[MQTT-4.4.0-1] resending inflight QoS 1 and 2 messages")
-    for pub in self.outbound:
-      self.resendPub(pub)
+    # the receive maximum of the new connection applies to these too
+    self.queued = self.outbound + self.queued
+    self.outbound = []
     self.sendQueued()
 
   def sendFirst(self, pub):
+    resend = self.isInflight(pub)
     if pub.fh.QoS in [1, 2]:
-      pub.packetIdentifier = self.msgid
-      logger.debug("client id: %s msgid: %d", self.id, self.msgid)
-      if self.msgid == MQTTV5.MAX_PACKETID:
-        self.msgid = 1
-      else:
-        self.msgid += 1
+      if not resend:
+        while self.msgid in self.outmsgs.keys(): # ids in use must not be used again
+          self.nextMsgid()
+        pub.packetIdentifier = self.msgid
+        logger.debug("client id: %s msgid: %d", self.id, self.msgid)
+        self.nextMsgid()
       self.outbound.append(pub)
       self.outmsgs[pub.packetIdentifier] = pub
       logger.info("[MQTT-4.6.0-6] publish packets must be sent in order of receipt from any given client")
-    respond(self.socket, pub, self.maximumPacketSize)
+    sent = self.resendPub(pub) if resend else self.send(pub)
     if pub.fh.QoS > 0:
       pub.fh.DUP = 1
+      if not sent:
+        self.delivered(pub)
+
+  def isInflight(self, pub):
+    return pub.fh.QoS > 0 and self.outmsgs.get(pub.packetIdentifier) is pub
+
+  def nextMsgid(self):
+    if self.msgid == MQTTV5.MAX_PACKETID:
+      self.msgid = 1
+    else:
+      self.msgid += 1
+
+  def delivered(self, pub):
+    "the delivery is complete, or has been given up"
+    self.outbound = [other for other in self.outbound if other is not pub]
+    self.queued = [other for other in self.queued if other is not pub] # still to be sent again
+    del self.outmsgs[pub.packetIdentifier]
+
+  def send(self, pub):
+    """
+    Send a publication on the current connection.  The topic alias and the time left are
+    those at this moment, so they are set in a copy.  Returns False if it was discarded.
+    """
+    packet = copy.copy(pub)
+    packet.properties = copy.copy(pub.properties)
+    if self.topicAliasMaximum == 0:
+      logger.info("[MQTT5-3.1.2-27] if topic alias is 0, no topic aliases must be sent")
+    alias = None
+    if pub.topicName in self.outgoingTopicNamesToAliases:
+      alias = self.outgoingTopicNamesToAliases.index(pub.topicName) + 1 # Topic aliases start at 1
+      packet.topicName = ""
+    elif len(self.outgoingTopicNamesToAliases) < self.topicAliasMaximum:
+      logger.info("[MQTT5-3.1.2-26] Server must not send topic alias > max")
+      alias = len(self.outgoingTopicNamesToAliases) + 1 # add alias, include topic name as well as alias first time
+    if alias:
+      packet.properties.TopicAlias = alias
+      if len(packet.pack()) > self.maximumPacketSize: # it may fit without
+        alias = None
+        del packet.properties.TopicAlias
+        packet.topicName = pub.topicName
+    sent = respond(self.socket, packet, self.maximumPacketSize)
+    if sent and alias and pub.topicName not in self.outgoingTopicNamesToAliases:
+      self.outgoingTopicNamesToAliases.append(pub.topicName)
+    return sent
 
   def sendQueued(self):
     while len(self.queued) > 0 and len(self.outbound) < self.receiveMaximum:
-      self.outbound.append(self.queued.pop(0))
-      self.sendFirst(self.outbound[-1])
+      self.sendFirst(self.queued.pop(0))
 
   def publishArrived(self, topic, msg, qos, properties, receivedTime, retained=False):
     pub = MQTTV5.Publishes()
     if properties:
-      if hasattr(properties, 'TopicAlias'):
-        del properties.TopicAlias
       pub.properties = properties
     logger.info("[MQTT-3.2.3-3] topic name must match the subscription's topic filter")
-    # Topic alias
-    if self.topicAliasMaximum == 0:
-      logger.info("[MQTT5-3.1.2-27] if topic alias is 0, no topic aliases must be sent") 
-    if len(self.outgoingTopicNamesToAliases) < self.topicAliasMaximum and not topic in self.outgoingTopicNamesToAliases:
-      logger.info("[MQTT5-3.1.2-26] Server must not send topic alias > max") 
-      self.outgoingTopicNamesToAliases.append(topic)       # add alias
-      pub.topicName = topic # include topic name as well as alias first time
-    if topic in self.outgoingTopicNamesToAliases:
-      pub.properties.TopicAlias = self.outgoingTopicNamesToAliases.index(topic) + 1 # Topic aliases start at 1
-    else:
-      pub.topicName = topic
+    pub.topicName = topic
     pub.data = msg
     pub.fh.QoS = qos
     pub.fh.RETAIN = retained
@@ -206,8 +248,7 @@ class MQTTClients:
     if msgid in self.outmsgs.keys():
       pub = self.outmsgs[msgid]
       if pub.fh.QoS == 1:
-        self.outbound.remove(pub)
-        del self.outmsgs[msgid]
+        self.delivered(pub)
         self.sendQueued()
       else:
         logger.error("%s: Puback received for msgid %d, but QoS is %d", self.id, msgid, pub.fh.QoS)
@@ -219,9 +260,9 @@ class MQTTClients:
     if msgid in self.outmsgs.keys():
       pub = self.outmsgs[msgid]
       if pub.fh.QoS == 2:
+        rc = True
         if pub.qos2state == "PUBREC":
           pub.qos2state = "PUBCOMP"
-          rc = True
         else:
           logger.error("%s: Pubrec received for msgid %d, but message in wrong state", self.id, msgid)
       else:
@@ -230,13 +271,20 @@ class MQTTClients:
       logger.error("%s: Pubrec received for msgid %d, but no message found", self.id, msgid)
     return rc
 
+  def pubrecError(self, msgid):
+    "the receiver refuses the message, which ends its delivery"
+    if msgid in self.outmsgs.keys():
+      pub = self.outmsgs[msgid]
+      if pub.fh.QoS == 2 and pub.qos2state == "PUBREC":
+        self.delivered(pub)
+        self.sendQueued()
+
   def pubcomp(self, msgid):
     if msgid in self.outmsgs.keys():
       pub = self.outmsgs[msgid]
       if pub.fh.QoS == 2:
         if pub.qos2state == "PUBCOMP":
-          self.outbound.remove(pub)
-          del self.outmsgs[msgid]
+          self.delivered(pub)
           self.sendQueued()
         else:
           logger.error("Pubcomp received for msgid %d, but message in wrong state", msgid)
@@ -732,11 +780,16 @@ class MQTTBrokers:
   def pubrec(self, sock, packet):
     "confirmed reception of qos 2"
     myclient = self.clients[sock]
-    if myclient.pubrec(packet.packetIdentifier):
+    if packet.reasonCode.value >= 0x80:
+      myclient.pubrecError(packet.packetIdentifier)
+    else:
+      found = myclient.pubrec(packet.packetIdentifier)
       logger.info("[MQTT-3.5.4-1] must reply with pubrel in response to pubrec")
       resp = MQTTV5.Pubrels()
       logger.info("[MQTT5-2.2.1-5-pubrel] pubrel message id same as publish")
       resp.packetIdentifier = packet.packetIdentifier
+      if not found:
+        resp.reasonCode.set("Packet identifier not found")
       respond(sock, resp)
 
   def pubcomp(self, sock, packet):
-- 
2.43.0


From 1af5656457c9b1f8b249d81803df23113a5f6654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:53 +0000
Subject: [PATCH 25/75] fix: wills and expired sessions: the will is sent when
 the session ends, expired sessions do not take part any more

---
 interoperability/mqtt/brokers/V5/Brokers.py   | 29 +++++++++++++----
 .../mqtt/brokers/V5/MQTTBrokers.py            | 32 +++++++++++++------
 2 files changed, 44 insertions(+), 17 deletions(-)

diff --git a/interoperability/mqtt/brokers/V5/Brokers.py b/interoperability/mqtt/brokers/V5/Brokers.py
index 6596acc..72f8af1 100644
--- a/interoperability/mqtt/brokers/V5/Brokers.py
+++ b/interoperability/mqtt/brokers/V5/Brokers.py
@@ -81,30 +81,45 @@ class Brokers:
     logger.info("[MQTT-3.14.4-3] on receipt of disconnect, will message is deleted")
     self.__clients[aClientid].will = None
 
-  def setupWillMessage(self, aClientid):
+  def setupWillMessage(self, aClientid, sessionExpiryInterval=-1):
     "Sends the will message, if any, for a client"
-    if aClientid in self.__clients.keys() and self.__clients[aClientid].connected:
+    if aClientid in self.__clients.keys():
       if self.__clients[aClientid].will != None:
-        if self.__clients[aClientid].willDelayInterval > 0:
-          self.__clients[aClientid].delayedWillTime = time.monotonic() + self.__clients[aClientid].willDelayInterval
+        willDelayInterval = self.__clients[aClientid].willDelayInterval
+        if sessionExpiryInterval >= 0: # the will is sent when the session ends at the latest
+          willDelayInterval = min(willDelayInterval, sessionExpiryInterval)
+        if willDelayInterval > 0:
+          self.__clients[aClientid].delayedWillTime = time.monotonic() + willDelayInterval
           self.__clients[aClientid].willDelayInterval = 0 # will be changed on next connect
           self.willMessageClients.add(aClientid)
         else:
           self.sendWillMessage(aClientid)
 
   def disconnect(self, aClientid, willMessage=False, sessionExpiryInterval=-1):
-    if willMessage:
-      self.setupWillMessage(aClientid)
-    if aClientid in self.__clients.keys():
+    if aClientid in self.__clients.keys() and self.__clients[aClientid].connected:
+      # nothing more can be sent to this client, not even its own will message
       self.__clients[aClientid].connected = False
       if sessionExpiryInterval == 0:
         self.cleanSession(aClientid)
+      if willMessage:
+        self.setupWillMessage(aClientid, sessionExpiryInterval)
+    if aClientid in self.__clients.keys():
+      if sessionExpiryInterval == 0:
         del self.__clients[aClientid]
       else:
         logger.info("[MQTT5-3.1.2-23] broker must store the session data for client %s", aClientid)
         self.__clients[aClientid].sessionEndedTime = time.monotonic()
         self.__clients[aClientid].connected = False
 
+  def expireSessions(self):
+    "remove the sessions which have ended since their clients disconnected"
+    for client in list(self.__clients.values()):
+      if client.sessionExpired():
+        if client.delayedWillTime:
+          self.sendWillMessage(client.id)
+        self.cleanSession(client.id)
+        del self.__clients[client.id]
+
   def disconnectAll(self):
     for c in self.__clients.keys()[:]: # copy the array because disconnect will remove an element
       self.disconnect(c)
diff --git a/interoperability/mqtt/brokers/V5/MQTTBrokers.py b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
index 164cc51..41c4ac8 100644
--- a/interoperability/mqtt/brokers/V5/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
@@ -125,6 +125,11 @@ class MQTTClients:
     self.topicAliasMaximum = 0 # for server topic aliases
     self.outgoingTopicNamesToAliases = []
 
+  def sessionExpired(self):
+    "the session has ended: 0xFFFFFFFF means that it does not expire"
+    return not self.connected and 0 <= self.sessionExpiryInterval < 0xFFFFFFFF and \
+           time.monotonic() - self.sessionEndedTime > self.sessionExpiryInterval
+
   def resendPub(self, pub):
     logger.debug("resending %s", str(pub))
     logger.info("[MQTT-4.4.0-2] dup flag must be set on in re-publish")
@@ -329,12 +334,17 @@ class cleanupThreads(threading.Thread):
       # will delay
       if self.lock:
         self.lock.acquire()
-      for clientid in self.broker.willMessageClients.copy():
-        client = self.broker.getClient(clientid)
-        if client and time.monotonic() >= client.delayedWillTime:
-          self.broker.sendWillMessage(clientid)
-      if self.lock:
-        self.lock.release()
+      try:
+        for clientid in self.broker.willMessageClients.copy():
+          client = self.broker.getClient(clientid)
+          if client and time.monotonic() >= client.delayedWillTime:
+            self.broker.sendWillMessage(clientid)
+        self.broker.expireSessions()
+      except:
+        traceback.print_exc()
+      finally:
+        if self.lock:
+          self.lock.release()
 
   def stop(self):
     self.running = False
@@ -356,7 +366,7 @@ class MQTTBrokers:
     else:
       self.lock = threading.RLock()
 
-    self.cleanupThread = cleanupThreads(self.broker)
+    self.cleanupThread = cleanupThreads(self.broker, self.lock)
 
     logger.info("MQTT 5.0 Paho Test Broker")
     logger.info("Options %s", self.options)
@@ -498,7 +508,7 @@ class MQTTBrokers:
       if not me:
         logger.info("[MQTT5-3.1.2-6] no existing session and cleanstart set to 0")
       # has that state expired?
-      if me and me.sessionExpiryInterval >= 0 and time.monotonic() - me.sessionEndedTime > me.sessionExpiryInterval:
+      if me and me.sessionExpired():
         me = None
         clean = True
       else:
@@ -507,6 +517,10 @@ class MQTTBrokers:
         logger.info("[MQTT5-3.1.3-2] clientid used to retrieve client state")
         logger.info("[MQTT5-3.2.2-3] session present must be set to 1")
     resp.sessionPresent = True if me else False
+    previous = self.broker.getClient(packet.ClientIdentifier)
+    if me == None and previous and previous.delayedWillTime:
+      logger.info("[MQTT5-3.1.3-9] the session ends, so the delayed will is sent")
+      self.broker.sendWillMessage(packet.ClientIdentifier)
     # Connack topic alias maximum for incoming client created topic aliases
     if self.options["topicAliasMaximum"] > 0:
       resp.properties.TopicAliasMaximum = self.options["topicAliasMaximum"]
@@ -529,8 +543,6 @@ class MQTTBrokers:
     if hasattr(packet.WillProperties, "WillDelayInterval"):
       willDelayInterval = packet.WillProperties.WillDelayInterval
       delattr(packet.WillProperties, "WillDelayInterval") # must not be sent with will message
-    if willDelayInterval > sessionExpiryInterval:
-      willDelayInterval = sessionExpiryInterval
     if me == None:
       me = MQTTClients(packet.ClientIdentifier, packet.CleanStart, sessionExpiryInterval, willDelayInterval, keepalive, sock, self)
     else:
-- 
2.43.0


From 0a4c3228c603b00a802bec3caba0613d359962bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:00 +0000
Subject: [PATCH 26/75] fix: an error in a packet ended in an exception, with
 the client still registered and its will not sent

---
 .../mqtt/brokers/V5/MQTTBrokers.py            | 73 +++++++++++--------
 1 file changed, 41 insertions(+), 32 deletions(-)

diff --git a/interoperability/mqtt/brokers/V5/MQTTBrokers.py b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
index 41c4ac8..256ed85 100644
--- a/interoperability/mqtt/brokers/V5/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
@@ -390,13 +390,13 @@ class MQTTBrokers:
 
   def handleRequest(self, sock):
     "this is going to be called from multiple threads, so synchronize"
+    raw_packet = packet = None
+    try: # a client which sends only part of a packet must not hold up the others
+      raw_packet = MQTTV5.getPacket(sock)
+    except:
+      pass # handled by raw_packet == None
     self.lock.acquire()
-    raw_packet = None
     try:
-      try:
-        raw_packet = MQTTV5.getPacket(sock)
-      except:
-        pass # handled by raw_packet == None
       if raw_packet == None:
         logger.info("[MQTT-4.8.0-1] 'transient error' reading packet, closing connection")
         # will message
@@ -435,6 +435,11 @@ class MQTTBrokers:
           self.disconnect(sock, reasonCode=error.args[0], properties=disconnect_properties,
                           sendWillMessage=True)
           terminate = True
+        except Exception: # malformed packets also cause assertions and decoding errors
+          traceback.print_exc()
+          self.disconnect(sock, reasonCode="Implementation specific error" if packet else "Malformed packet",
+                          sendWillMessage=True)
+          terminate = True
     finally:
       self.lock.release()
     return terminate
@@ -449,8 +454,9 @@ class MQTTBrokers:
     if self.mscfile != None:
       self.mscfile.write("client%d=>broker[label=%s];\n" % (sock.fileno(), str(packet).split("(")[0]))
     if sock not in self.clients.keys() and packet.fh.PacketType != MQTTV5.PacketTypes.CONNECT:
-      self.disconnect(sock, packet)
       raise MQTTV5.MQTTException("[MQTT5-3.1.0-1-error] Connect was not first packet on socket")
+    elif not hasattr(self, MQTTV5.Packets.Names[packet.fh.PacketType].lower()):
+      raise MQTTV5.ProtocolError("Protocol error", "a client must not send this packet")
     else:
       if packet.fh.PacketType == MQTTV5.PacketTypes.CONNECT:
         logger.info("[MQTT5-3.1.0-1] Connect must be first packet on socket")
@@ -478,9 +484,12 @@ class MQTTBrokers:
       return
     logger.info("[MQTT5-3.1.2-2] Protocol version must be 5")
     if sock in self.clients.keys():    # is socket is already connected?
-      self.disconnect(sock, None)
       logger.info("[MQTT5-3.1.4-6] When rejecting connect, no more data must be processed")
-      raise MQTTV5.MQTTException("[MQTT5-3.1.0-2] Second connect packet")
+      raise MQTTV5.ProtocolError("Protocol error", "[MQTT5-3.1.0-2] Second connect packet")
+    if packet.WillFlag and (len(packet.WillTopic) == 0 or "+" in packet.WillTopic or "#" in packet.WillTopic):
+      resp.reasonCode.set("Topic name invalid")
+      respond(sock, resp)
+      raise MQTTV5.MQTTException("Will topic invalid")
     if len(packet.ClientIdentifier) == 0:
       packet.ClientIdentifier = str(uuid.uuid4()) # give the client a unique clientid
       logger.info("[MQTT5-3.1.3-6] 0-length clientid must be assigned a unique id %s", packet.ClientIdentifier)
@@ -559,7 +568,6 @@ class MQTTBrokers:
     # the topic alias maximum in the connect properties sets the maximum outgoing topic aliases for a client
     me.topicAliasMaximum = packet.properties.TopicAliasMaximum if hasattr(packet.properties, "TopicAliasMaximum") else 0
     me.maximumPacketSize = packet.properties.MaximumPacketSize if hasattr(packet.properties, "MaximumPacketSize") else MQTTV5.MAX_PACKET_SIZE
-    assert me.maximumPacketSize <= MQTTV5.MAX_PACKET_SIZE # is this the correct value?
     me.receiveMaximum = packet.properties.ReceiveMaximum if hasattr(packet.properties, "ReceiveMaximum") else MQTTV5.MAX_PACKETID
     assert me.receiveMaximum <= MQTTV5.MAX_PACKETID
     logger.info("[MQTT-4.1.0-1] server must store data for at least as long as the network connection lasts")
@@ -576,20 +584,22 @@ class MQTTBrokers:
 
   def disconnect(self, sock, packet=None, sendWillMessage=False, reasonCode=None, properties=None):
     logger.info("[MQTT-3.14.4-2] Client must not send any more packets after disconnect")
-    me = self.clients[sock]
-    me.clearTopicAliases()
-    # Session expiry
-    if packet and hasattr(packet.properties, "SessionExpiryInterval"):
-      if me.sessionExpiryInterval == 0 and packet.properties.SessionExpiryInterval > 0:
-        raise MQTTV5.ProtocolError("[MQTT-3.1.0-2] Can't reset SessionExpiryInterval from 0")
-      else:
-        me.sessionExpiryInterval = packet.properties.SessionExpiryInterval
-    if reasonCode:
-      resp = MQTTV5.Disconnects(reasonCode=reasonCode) # reasonCode is text
-      if properties:
-        resp.properties = properties
-      respond(sock, resp)
-    if sock in self.clients.keys():
+    if sock in self.clients.keys(): # without a connection, the socket is closed only
+      me = self.clients[sock]
+      # Session expiry
+      if packet and hasattr(packet.properties, "SessionExpiryInterval"):
+        if me.sessionExpiryInterval == 0 and packet.properties.SessionExpiryInterval > 0:
+          raise MQTTV5.ProtocolError("Protocol error", "Can't reset SessionExpiryInterval from 0")
+        else:
+          me.sessionExpiryInterval = packet.properties.SessionExpiryInterval
+      if packet and packet.reasonCode.value != 0: # only a normal disconnection removes the will message
+        sendWillMessage = True
+      me.clearTopicAliases()
+      if reasonCode:
+        resp = MQTTV5.Disconnects(reasonCode=reasonCode) # reasonCode is text
+        if properties:
+          resp.properties = properties
+        respond(sock, resp)
       self.broker.disconnect(me.id, willMessage=sendWillMessage,
           sessionExpiryInterval=me.sessionExpiryInterval)
       del self.clients[sock]
@@ -656,15 +666,18 @@ class MQTTBrokers:
   def publish(self, sock, packet):
     packet.receivedTime = time.monotonic()
     if packet.topicName.find("+") != -1 or packet.topicName.find("#") != -1:
-      raise MQTTV5.AcksProtocolError("Topic name invalid %s" % packet.topicName)
+      raise MQTTV5.AcksProtocolError("Topic name invalid", packet.topicName)
+    if hasattr(packet.properties, "SubscriptionIdentifier"):
+      raise MQTTV5.ProtocolError("Protocol error", "only the server sends subscription identifiers")
+    packet.topicName = self.broker.resolveTopicAlias(self.clients[sock].id, packet.topicName, packet.properties)
     # Test Topic to disconnect the client
     if packet.topicName.startswith("cmd/"):
         self.handleBehaviourPublish(sock, packet.topicName, packet.data)
     else:
-        if packet.fh.QoS > 0 and len(self.clients[sock].inbound) >= self.options["receiveMaximum"]:
-          self.disconnect(sock, reasonCode="Receive maximum of %d exceeded: %d" % 
-             (self.options["receiveMaximum"], len(self.clients[sock].inbound)+1), sendWillMessage=True)
-          return
+        inbound = self.clients[sock].inbound # a QoS 2 message sent again is counted once
+        if packet.fh.QoS > 0 and len(inbound) >= self.options["receiveMaximum"] and \
+            (packet.fh.QoS == 1 or packet.packetIdentifier not in inbound):
+          raise MQTTV5.ProtocolError("Receive maximum exceeded", self.options["receiveMaximum"], len(inbound)+1)
         if hasattr(packet.properties, "UserProperty") and len(packet.properties.UserProperty) > 1:
           logger.info("[MQTT-3.1.3-10] Must maintain order of user properties")
         if packet.fh.QoS == 0:
@@ -699,8 +712,6 @@ class MQTTBrokers:
                 logger.info("[MQTT-3.3.1-2] DUP flag is 1 on redelivery")
             else:
               myclient.inbound[packet.packetIdentifier] = packet
-              if len(packet.topicName) == 0 and hasattr(packet.properties, "TopicAlias"):
-                packet.topicName = self.broker.getAliasTopic(self.clients[sock].id, packet.properties.TopicAlias)
               subscribers = self.broker.se.getSubscriptions(packet.topicName)
           else:
             if packet.packetIdentifier in myclient.inbound:
@@ -711,8 +722,6 @@ class MQTTBrokers:
             else:
               myclient.inbound.append(packet.packetIdentifier)
               logger.info("[MQTT-4.3.3-2] server must store message in accordance with QoS 2")
-              if len(packet.topicName) == 0 and hasattr(packet.properties, "TopicAlias"):
-                packet.topicName = self.broker.getAliasTopic(self.clients[sock].id, packet.properties.TopicAlias)
               subscribers = self.broker.publish(self.clients[sock].id, packet.topicName,
                    packet.data, packet.fh.QoS, packet.fh.RETAIN, packet.properties,
                    packet.receivedTime)
-- 
2.43.0


From 3c6703e3357b2bf77580cabe014ec16bffd0779c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:00 +0000
Subject: [PATCH 27/75] fix: invalid topic filters and shared subscriptions
 with noLocal are refused

---
 .../mqtt/brokers/V5/MQTTBrokers.py            | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/interoperability/mqtt/brokers/V5/MQTTBrokers.py b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
index 256ed85..667ce80 100644
--- a/interoperability/mqtt/brokers/V5/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
@@ -21,6 +21,7 @@ import traceback, random, sys, string, copy, threading, logging, socket, time, u
 
 from mqtt.formats import MQTTV5
 
+from . import Topics
 from .Brokers import Brokers
 
 logger = logging.getLogger('MQTT broker')
@@ -620,6 +621,10 @@ class MQTTBrokers:
     topics = []
     optionss = []
     respqoss = []
+    for topicFilter, subsoption in packet.data: # nothing is subscribed to if one of them is invalid
+      self.checkTopicFilter(topicFilter)
+      if topicFilter.startswith("$share/") and subsoption.noLocal:
+        raise MQTTV5.ProtocolError("Protocol error", "noLocal in a shared subscription")
     for topicFilter, subsoption in packet.data:
       QoS = subsoption.QoS
       if topicFilter == "test/nosubscribe":
@@ -648,7 +653,21 @@ class MQTTBrokers:
       resp.properties.UserProperty = packet.properties.UserProperty
     respond(sock, resp)
 
+  def checkTopicFilter(self, topicFilter):
+    try:
+      valid = Topics.isValidTopicName(topicFilter)
+    except Exception:
+      valid = False
+    if valid and topicFilter.startswith("$share/"): # $share/sharename/filter
+      words = topicFilter.split("/", 2)
+      valid = len(words) == 3 and len(words[1]) > 0 and len(words[2]) > 0 and \
+              "+" not in words[1] and "#" not in words[1]
+    if not valid:
+      raise MQTTV5.ProtocolError("Topic filter invalid", topicFilter)
+
   def unsubscribe(self, sock, packet):
+    for topicFilter in packet.topicFilters:
+      self.checkTopicFilter(topicFilter)
     reasonCodes = self.broker.unsubscribe(self.clients[sock].id, packet.topicFilters)
     resp = MQTTV5.Unsubacks()
     logger.info("[MQTT5-2.2.1-6-unsuback] Unsuback has same message id as unsubscribe")
-- 
2.43.0


From e3ae77bade87808b0bb6f30082a1c71e85594047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:00 +0000
Subject: [PATCH 28/75] fix: the cmd/disconnectWithRC command of the MQTT 5
 broker

---
 interoperability/mqtt/brokers/V5/MQTTBrokers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/interoperability/mqtt/brokers/V5/MQTTBrokers.py b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
index 667ce80..1317921 100644
--- a/interoperability/mqtt/brokers/V5/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
@@ -768,13 +768,13 @@ class MQTTBrokers:
     Topic: 'cmd/disconnectWithRC', Payload: A Disconnect Return code
             - Disconnects with the specified return code and sample properties.
     """
-    logger.info("Command Mode: Topic: %s, Payload: %s" % (topic, int(data)))
+    logger.info("Command Mode: Topic: %s, Payload: %s", topic, data)
     if topic == "cmd/disconnectWithRC":
-        returnCode = int(data)
+        returnCode = MQTTV5.ReasonCodes(MQTTV5.PacketTypes.DISCONNECT, identifier=int(data)).getName()
         props = MQTTV5.Properties(MQTTV5.PacketTypes.DISCONNECT)
         props.ReasonString = "This is a custom Reason String"
         props.ServerReference = "tcp://localhost:1883"
-        props.UserPropertyList = [("key", "value")]
+        props.UserProperty = [("key", "value")]
         self.disconnect(sock,
                         None,
                         sendWillMessage=False,
-- 
2.43.0


From f3399f2126966ae91116c6729c6190f72e43bc86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:00 +0000
Subject: [PATCH 29/75] fix: problem information was sent to clients which do
 not want it

---
 interoperability/mqtt/brokers/V5/MQTTBrokers.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/interoperability/mqtt/brokers/V5/MQTTBrokers.py b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
index 1317921..a56703d 100644
--- a/interoperability/mqtt/brokers/V5/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
@@ -49,8 +49,11 @@ def respond(sock, packet, maximumPacketSize=None):
   packed = packet.pack()
   # deal with packet size
   packlen = len(packed)
-  if packlen > maximumPacketSize and packet.fh.PacketType != MQTTV5.PacketTypes.PUBLISH and hasattr(packet, "properties"):
-    for name in ["ReasonString", "UserProperty"]: # must not be sent if the packet gets too large because of them
+  # these must not be sent if the packet gets too large because of them, or if the client has not asked for them
+  unasked = client and client.requestProblemInformation == 0 and \
+    packet.fh.PacketType not in [MQTTV5.PacketTypes.CONNACK, MQTTV5.PacketTypes.DISCONNECT]
+  if (packlen > maximumPacketSize or unasked) and packet.fh.PacketType != MQTTV5.PacketTypes.PUBLISH and hasattr(packet, "properties"):
+    for name in ["ReasonString", "UserProperty"]:
       if hasattr(packet.properties, name):
         delattr(packet.properties, name)
     packed = packet.pack()
@@ -99,6 +102,7 @@ class MQTTClients:
     self.sessionEndedTime = 0
     self.maximumPacketSize = MQTTV5.MAX_PACKET_SIZE
     self.receiveMaximum = MQTTV5.MAX_PACKETID
+    self.requestProblemInformation = 1
     self.connected = False
     self.will = None
     self.willDelayInterval = willDelayInterval
@@ -569,6 +573,7 @@ class MQTTBrokers:
     # the topic alias maximum in the connect properties sets the maximum outgoing topic aliases for a client
     me.topicAliasMaximum = packet.properties.TopicAliasMaximum if hasattr(packet.properties, "TopicAliasMaximum") else 0
     me.maximumPacketSize = packet.properties.MaximumPacketSize if hasattr(packet.properties, "MaximumPacketSize") else MQTTV5.MAX_PACKET_SIZE
+    me.requestProblemInformation = packet.properties.RequestProblemInformation if hasattr(packet.properties, "RequestProblemInformation") else 1
     me.receiveMaximum = packet.properties.ReceiveMaximum if hasattr(packet.properties, "ReceiveMaximum") else MQTTV5.MAX_PACKETID
     assert me.receiveMaximum <= MQTTV5.MAX_PACKETID
     logger.info("[MQTT-4.1.0-1] server must store data for at least as long as the network connection lasts")
-- 
2.43.0


From 86faec4d1876a58c712d8c01478f2cf67c25b21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:35 +0000
Subject: [PATCH 30/75] fix: MQTT 3.1.1 subscriptions to test/QoS 1 only and
 test/QoS 0 only ended in a TypeError

---
 interoperability/mqtt/brokers/V311/MQTTBrokers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/interoperability/mqtt/brokers/V311/MQTTBrokers.py b/interoperability/mqtt/brokers/V311/MQTTBrokers.py
index 4375afa..f0e42ca 100644
--- a/interoperability/mqtt/brokers/V311/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V311/MQTTBrokers.py
@@ -352,9 +352,9 @@ class MQTTBrokers:
         respqoss.append(0x80)
       else:
         if p[0] == "test/QoS 1 only":
-          respqoss.append(min(1), p[1])
+          respqoss.append(min(1, p[1]))
         elif p[0] == "test/QoS 0 only":
-          respqoss.append(min(0), p[1])
+          respqoss.append(min(0, p[1]))
         else:
           respqoss.append(p[1])
         topics.append(p[0])
-- 
2.43.0


From 09add53ad2cbda86b95d0a666163bc98104079c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:35 +0000
Subject: [PATCH 31/75] fix: MQTT 3.1.1 UNSUBSCRIBE removed only the first of
 its topic filters

---
 interoperability/mqtt/brokers/V311/SubscriptionEngines.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/interoperability/mqtt/brokers/V311/SubscriptionEngines.py b/interoperability/mqtt/brokers/V311/SubscriptionEngines.py
index 534ae87..e94249c 100644
--- a/interoperability/mqtt/brokers/V311/SubscriptionEngines.py
+++ b/interoperability/mqtt/brokers/V311/SubscriptionEngines.py
@@ -83,8 +83,8 @@ class SubscriptionEngines:
        if len(aTopic) > 1:
          logger.info("[MQTT-3.10.4-6] each topic must be processed in sequence")
        for t in aTopic:
-         if not matched:
-           matched = self.__unsubscribe(aClientid, t)
+         if self.__unsubscribe(aClientid, t):
+           matched = True
      else:
        matched = self.__unsubscribe(aClientid, aTopic)
      if not matched:
-- 
2.43.0


From 6e32fa8516518af063bb54c0ded52560c08b4591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:35 +0000
Subject: [PATCH 32/75] fix: MQTT 3.1.1 outbound publications: DUP on the first
 sending, ids in use taken again, PUBREL missing

---
 .../mqtt/brokers/V311/MQTTBrokers.py          | 47 ++++++++++++-------
 1 file changed, 29 insertions(+), 18 deletions(-)

diff --git a/interoperability/mqtt/brokers/V311/MQTTBrokers.py b/interoperability/mqtt/brokers/V311/MQTTBrokers.py
index f0e42ca..0ed8e27 100644
--- a/interoperability/mqtt/brokers/V311/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V311/MQTTBrokers.py
@@ -61,24 +61,25 @@ class MQTTClients:
     logger.debug("resending unfinished publications %s", str(self.outbound))
     if len(self.outbound) > 0:
       logger.info("[MQTT-4.4.0-1] resending inflight QoS 1 and 2 messages")
-    for pub in self.outbound:
+    for pub in self.outbound[:]:
       logger.debug("resending "+str(pub))
       logger.info("[MQTT-4.4.0-2] dup flag must be set on in re-publish")
-      if pub.fh.QoS == 0:
+      if pub.fh.QoS == 0: # sent once only
+        self.outbound = [other for other in self.outbound if other is not pub]
         respond(self.socket, pub)
       elif pub.fh.QoS == 1:
-        pub.fh.DUP = 1
         logger.info("[MQTT-2.1.2-3] Dup when resending QoS 1 publish id %d", pub.messageIdentifier)
         logger.info("[MQTT-2.3.1-4] Message id same as original publish on resend")
         logger.info("[MQTT-4.3.2-1] Resending QoS 1 with DUP flag")
         respond(self.socket, pub)
+        pub.fh.DUP = 1
       elif pub.fh.QoS == 2:
         if pub.qos2state == "PUBREC":
           logger.info("[MQTT-2.1.2-3] Dup when resending QoS 2 publish id %d", pub.messageIdentifier)
-          pub.fh.DUP = 1
           logger.info("[MQTT-2.3.1-4] Message id same as original publish on resend")
           logger.info("[MQTT-4.3.3-1] Resending QoS 2 with DUP flag")
           respond(self.socket, pub)
+          pub.fh.DUP = 1
         else:
           resp = MQTTV3.Pubrels()
           logger.info("[MQTT-2.3.1-4] Message id same as original publish on resend")
@@ -99,29 +100,40 @@ class MQTTClients:
     if qos == 2:
       pub.qos2state = "PUBREC"
     if qos in [1, 2]:
+      while self.msgid in self.outmsgs.keys() and len(self.outmsgs) < 65535: # ids in use must not be used again
+        self.nextMsgid()
       pub.messageIdentifier = self.msgid
       logger.debug("client id: %s msgid: %d", self.id, self.msgid)
-      if self.msgid == 65535:
-        self.msgid = 1
-      else:
-        self.msgid += 1
+      self.nextMsgid()
       self.outbound.append(pub)
       self.outmsgs[pub.messageIdentifier] = pub
     logger.info("[MQTT-4.6.0-6] publish packets must be sent in order of receipt from any given client")
     if self.connected:
       respond(self.socket, pub)
+      if qos in [1, 2]:
+        pub.fh.DUP = 1 # from now on it is sent again
     else:
       if qos == 0 and not self.broker.dropQoS0:
         self.outbound.append(pub)
       if qos in [1, 2]:
         logger.info("[MQTT-3.1.2-5] storing of QoS 1 and 2 messages for disconnected client %s", self.id)
 
+  def nextMsgid(self):
+    if self.msgid == 65535:
+      self.msgid = 1
+    else:
+      self.msgid += 1
+
+  def delivered(self, pub):
+    "the delivery is complete"
+    self.outbound = [other for other in self.outbound if other is not pub]
+    del self.outmsgs[pub.messageIdentifier]
+
   def puback(self, msgid):
     if msgid in self.outmsgs.keys():
       pub = self.outmsgs[msgid]
       if pub.fh.QoS == 1:
-        self.outbound.remove(pub)
-        del self.outmsgs[msgid]
+        self.delivered(pub)
       else:
         logger.error("%s: Puback received for msgid %d, but QoS is %d", self.id, msgid, pub.fh.QoS)
     else:
@@ -132,9 +144,9 @@ class MQTTClients:
     if msgid in self.outmsgs.keys():
       pub = self.outmsgs[msgid]
       if pub.fh.QoS == 2:
+        rc = True
         if pub.qos2state == "PUBREC":
           pub.qos2state = "PUBCOMP"
-          rc = True
         else:
           logger.error("%s: Pubrec received for msgid %d, but message in wrong state", self.id, msgid)
       else:
@@ -148,8 +160,7 @@ class MQTTClients:
       pub = self.outmsgs[msgid]
       if pub.fh.QoS == 2:
         if pub.qos2state == "PUBCOMP":
-          self.outbound.remove(pub)
-          del self.outmsgs[msgid]
+          self.delivered(pub)
         else:
           logger.error("Pubcomp received for msgid %d, but message in wrong state", msgid)
       else:
@@ -450,11 +461,11 @@ class MQTTBrokers:
   def pubrec(self, sock, packet):
     "confirmed reception of qos 2"
     myclient = self.clients[sock]
-    if myclient.pubrec(packet.messageIdentifier):
-      logger.info("[MQTT-3.5.4-1] must reply with pubrel in response to pubrec")
-      resp = MQTTV3.Pubrels()
-      resp.messageIdentifier = packet.messageIdentifier
-      respond(sock, resp)
+    myclient.pubrec(packet.messageIdentifier)
+    logger.info("[MQTT-3.5.4-1] must reply with pubrel in response to pubrec")
+    resp = MQTTV3.Pubrels()
+    resp.messageIdentifier = packet.messageIdentifier
+    respond(sock, resp)
 
   def pubcomp(self, sock, packet):
     "confirmed reception of qos 2"
-- 
2.43.0


From 9dd66fd140075f0b57e064f92d4d6e1c68e65fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:59 +0000
Subject: [PATCH 33/75] fix: an error in an MQTT 3.1.1 packet ended in an
 exception, with the client still registered and its will not sent

---
 .../mqtt/brokers/V311/MQTTBrokers.py          | 38 ++++++++++++-------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/interoperability/mqtt/brokers/V311/MQTTBrokers.py b/interoperability/mqtt/brokers/V311/MQTTBrokers.py
index 0ed8e27..3db9799 100644
--- a/interoperability/mqtt/brokers/V311/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V311/MQTTBrokers.py
@@ -21,6 +21,7 @@ import traceback, random, sys, string, copy, threading, logging, socket, time, u
 
 from mqtt.formats import MQTTV311 as MQTTV3
 
+from . import Topics
 from .Brokers import Brokers
 
 logger = logging.getLogger('MQTT broker')
@@ -228,25 +229,30 @@ class MQTTBrokers:
 
   def handleRequest(self, sock):
     "this is going to be called from multiple threads, so synchronize"
-    self.lock.acquire()
     terminate = False
     raw_packet = None
+    try: # a client which sends only part of a packet must not hold up the others
+      raw_packet = MQTTV3.getPacket(sock)
+    except:
+      pass # handled by raw_packet == None
+    self.lock.acquire()
     try:
-      try:
-        raw_packet = MQTTV3.getPacket(sock)
-      except:
-        pass # handled by raw_packet == None
       if raw_packet == None:
         logger.info("[MQTT-4.8.0-1] 'transient error' reading packet, closing connection")
         # will message
         self.disconnect(sock, None, terminate=True)
         terminate = True
       else:
-        packet = MQTTV3.unpackPacket(raw_packet)
-        if packet:
-          terminate = self.handlePacket(packet, sock)
-        else:
-          raise MQTTV3.MQTTException("[MQTT-2.0.0-1] handleRequest: badly formed MQTT packet")
+        try:
+          packet = MQTTV3.unpackPacket(raw_packet)
+          if packet:
+            terminate = self.handlePacket(packet, sock)
+          else:
+            raise MQTTV3.MQTTException("[MQTT-2.0.0-1] handleRequest: badly formed MQTT packet")
+        except Exception: # malformed packet, or one which is not allowed
+          logger.exception("[MQTT-4.8.0-2] protocol violation, closing connection")
+          self.disconnect(sock, None, terminate=True)
+          terminate = True
     finally:
       self.lock.release()
     return terminate
@@ -258,7 +264,6 @@ class MQTTBrokers:
       packet_string = packet_string[:255] + '...' + (' payload length:' + str(len(packet.data)) if hasattr(packet, "data") else "")
     logger.debug("in: (%d) %s", sock.fileno(), packet_string)
     if sock not in self.clients.keys() and packet.fh.MessageType != MQTTV3.CONNECT:
-      self.disconnect(sock, packet)
       raise MQTTV3.MQTTException("[MQTT-3.1.0-1] Connect was not first packet on socket")
     else:
       getattr(self, MQTTV3.packetNames[packet.fh.MessageType].lower())(sock, packet)
@@ -282,9 +287,10 @@ class MQTTBrokers:
       logger.info("[MQTT-3.1.4-5] When rejecting connect, no more data must be processed")
       return
     if sock in self.clients.keys():    # is socket is already connected?
-      self.disconnect(sock, None)
       logger.info("[MQTT-3.1.4-5] When rejecting connect, no more data must be processed")
       raise MQTTV3.MQTTException("[MQTT-3.1.0-2] Second connect packet")
+    if packet.WillFlag and (len(packet.WillTopic) == 0 or "+" in packet.WillTopic or "#" in packet.WillTopic):
+      raise MQTTV3.MQTTException("[MQTT-3.3.2-2][MQTT-4.7.1-1] wildcards not allowed in will topic")
     if len(packet.ClientIdentifier) == 0:
       if self.zero_length_clientids == False or packet.CleanSession == False:
         if self.zero_length_clientids:
@@ -299,7 +305,7 @@ class MQTTBrokers:
         return
       else:
         logger.info("[MQTT-3.1.3-7] 0-length clientid must have cleansession true")
-        packet.ClientIdentifier = uuid.uuid4() # give the client a unique clientid
+        packet.ClientIdentifier = str(uuid.uuid4()) # give the client a unique clientid
         logger.info("[MQTT-3.1.3-6] 0-length clientid must be assigned a unique id %s", packet.ClientIdentifier)
     logger.info("[MQTT-3.1.3-5] Clientids of 1 to 23 chars and ascii alphanumeric must be allowed")
     if packet.ClientIdentifier in [client.id for client in self.clients.values()]: # is this client already connected on a different socket?
@@ -358,6 +364,8 @@ class MQTTBrokers:
     topics = []
     qoss = []
     respqoss = []
+    for p in packet.data: # nothing is subscribed to if one of them is invalid
+      Topics.isValidTopicName(p[0])
     for p in packet.data:
       if p[0] == "test/nosubscribe":
         respqoss.append(0x80)
@@ -382,6 +390,8 @@ class MQTTBrokers:
     respond(sock, resp)
 
   def unsubscribe(self, sock, packet):
+    for topicFilter in packet.data:
+      Topics.isValidTopicName(topicFilter)
     self.broker.unsubscribe(self.clients[sock].id, packet.data)
     resp = MQTTV3.Unsubacks()
     logger.info("[MQTT-2.3.1-7] Unsuback has same message id as unsubscribe")
@@ -394,6 +404,8 @@ class MQTTBrokers:
 
   def publish(self, sock, packet):
     packet.receivedTime = time.monotonic()
+    if len(packet.topicName) == 0:
+      raise MQTTV3.MQTTException("[MQTT-4.7.3-1] all topic names and filters must be at least 1 char")
     if packet.topicName.find("+") != -1 or packet.topicName.find("#") != -1:
       raise MQTTV3.MQTTException("[MQTT-3.3.2-2][MQTT-4.7.1-1] wildcards not allowed in topic name")
     if packet.fh.QoS == 0:
-- 
2.43.0


From ac6a5dfeb28932d9bf26b11da7029eeff0831485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:54 +0000
Subject: [PATCH 34/75] fix: MQTT 3.1.1 publications ignored the options,
 identifiers and sharing of MQTT 5 subscriptions, and $share filters of 3.1.1
 clients

---
 interoperability/mqtt/brokers/V311/Brokers.py | 14 +++++-----
 .../mqtt/brokers/V311/Subscriptions.py        |  3 +++
 interoperability/mqtt/brokers/V5/Brokers.py   | 27 +++++++++++--------
 .../mqtt/brokers/V5/SubscriptionEngines.py    | 12 ++++++---
 .../mqtt/brokers/V5/Subscriptions.py          |  3 +++
 5 files changed, 37 insertions(+), 22 deletions(-)

diff --git a/interoperability/mqtt/brokers/V311/Brokers.py b/interoperability/mqtt/brokers/V311/Brokers.py
index 143fb78..d3d94e4 100644
--- a/interoperability/mqtt/brokers/V311/Brokers.py
+++ b/interoperability/mqtt/brokers/V311/Brokers.py
@@ -107,6 +107,8 @@ class Brokers:
       logger.info("[MQTT-2.1.2-12] non-retained message - do not store")
 
     for subscriber in self.se.subscribers(topic):  # all subscribed clients
+      if subscriber not in self.__clients.keys():
+        continue # MQTT V5 subscriptions follow
       # qos is lower of publication and subscription
       if len(self.se.getSubscriptions(topic, subscriber)) > 1:
         logger.info("[MQTT-3.3.5-1] overlapping subscriptions")
@@ -114,17 +116,13 @@ class Brokers:
         logger.info("[MQTT-2.1.2-10] outgoing publish does not have retained flag set")
       if self.overlapping_single:   
         out_qos = min(self.se.qosOf(subscriber, topic), qos)
-        if subscriber in self.__clients.keys(): 
-          self.__clients[subscriber].publishArrived(topic, message, out_qos)
-        else:
-          self.__broker5.getClient(subscriber).publishArrived(topic, message, out_qos, None, None)
+        self.__clients[subscriber].publishArrived(topic, message, out_qos)
       else:
         for subscription in self.se.getSubscriptions(topic, subscriber):
           out_qos = min(subscription.getQoS(), qos)
-          if subscriber in self.__clients.keys():         
-            self.__clients[subscriber].publishArrived(topic, message, out_qos)
-          else:
-            self.__broker5.getClient(subscriber).publishArrived(topic, message, out_qos, None, None)
+          self.__clients[subscriber].publishArrived(topic, message, out_qos)
+    if self.__broker5:
+      self.__broker5.distribute(aClientid, topic, message, qos, retained, None, receivedTime, own=True)
 
   def __doRetained__(self, aClientid, topic, qos):
     # topic can be single, or a list
diff --git a/interoperability/mqtt/brokers/V311/Subscriptions.py b/interoperability/mqtt/brokers/V311/Subscriptions.py
index a5ec98f..e25715d 100644
--- a/interoperability/mqtt/brokers/V311/Subscriptions.py
+++ b/interoperability/mqtt/brokers/V311/Subscriptions.py
@@ -36,6 +36,9 @@ class Subscriptions:
   def getQoS(self):
     return self.__qos
 
+  def isShared(self):
+    return False # there are no shared subscriptions in MQTT V3
+
   def resubscribe(self, qos):
     logger.info("[MQTT-1.1.0-1] resubscription for client %s on topic %s", self.__clientid, self.__topic)
     logger.info("[MQTT-3.8.4-3] resubscription for client %s on topic %s", self.__clientid, self.__topic)
diff --git a/interoperability/mqtt/brokers/V5/Brokers.py b/interoperability/mqtt/brokers/V5/Brokers.py
index 72f8af1..ef6000e 100644
--- a/interoperability/mqtt/brokers/V5/Brokers.py
+++ b/interoperability/mqtt/brokers/V5/Brokers.py
@@ -165,6 +165,19 @@ class Brokers:
        also to any disconnected non-cleanstart clients with qos in [1,2]
     """
 
+    topic = self.resolveTopicAlias(aClientid, topic, properties)
+
+    if retained:
+      logger.info("[MQTT-2.1.2-6] store retained message and QoS")
+      self.se.setRetained(topic, message, qos, receivedTime, self.outgoingProperties(properties))
+    else:
+      logger.info("[MQTT-2.1.2-12] non-retained message - do not store")
+
+    return self.distribute(aClientid, topic, message, qos, retained, properties, receivedTime)
+
+  def distribute(self, aClientid, topic, message, qos, retained, properties, receivedTime, own=False):
+    "send a publication to all its subscribers, or to those of this broker only"
+
     def publishAction(subscriptions):
       "send one message to the subscriber as the result of these subscriptions"
       options = None
@@ -179,18 +192,10 @@ class Brokers:
       outretain = retained if options.retainAsPublished else False
       self.__clients[subscriber].publishArrived(topic, message, out_qos, outproperties, receivedTime, outretain)
 
-    topic = self.resolveTopicAlias(aClientid, topic, properties)
-
-    if retained:
-      logger.info("[MQTT-2.1.2-6] store retained message and QoS")
-      self.se.setRetained(topic, message, qos, receivedTime, self.outgoingProperties(properties))
-    else:
-      logger.info("[MQTT-2.1.2-12] non-retained message - do not store")
-
     subscriptions = self.se.subscriptions(topic)
     # For shared subscriptions, there is only one recipient
-    nonshared = [s for s in list(subscriptions) if not s.getTopic().startswith('$share/')]
-    shared = [s for s in list(subscriptions) if s.getTopic().startswith('$share/')]
+    nonshared = [s for s in list(subscriptions) if not s.isShared()]
+    shared = [s for s in list(subscriptions) if s.isShared()]
     subscriptions = []
     clientids = set()
     for n in nonshared:
@@ -218,7 +223,7 @@ class Brokers:
         else:
           for subscription in matching:
             publishAction([subscription])
-      else:
+      elif not own:
         # MQTT V3 subscription
         out_qos = min(self.__broker3.se.qosOf(subscriber, topic), qos)
         self.__broker3.getClient(subscriber).publishArrived(topic, message, out_qos)
diff --git a/interoperability/mqtt/brokers/V5/SubscriptionEngines.py b/interoperability/mqtt/brokers/V5/SubscriptionEngines.py
index 495be94..7099eea 100644
--- a/interoperability/mqtt/brokers/V5/SubscriptionEngines.py
+++ b/interoperability/mqtt/brokers/V5/SubscriptionEngines.py
@@ -19,6 +19,7 @@
 import types, logging
 
 from . import Topics, Subscriptions
+from ..V311 import Topics as V3Topics
 import mqtt.formats.MQTTV5 as MQTTV5
 
 from .Subscriptions import *
@@ -34,6 +35,11 @@ def isDollarFilter(name):
     name = name.split('/', 2)[2]
   return isDollarTopic(name)
 
+def subscriptionMatches(subscription, aTopic):
+  "MQTT V3 subscriptions can be in the same list"
+  matches = Topics.topicMatches if hasattr(subscription, "getOptions") else V3Topics.topicMatches
+  return matches(subscription.getTopic(), aTopic)
+
 class SubscriptionEngines:
 
    def __init__(self, sharedData={}):
@@ -133,9 +139,9 @@ class SubscriptionEngines:
      if Topics.isValidTopicName(aTopic):
        subscriptions = self.__subscriptions if not isDollarTopic(aTopic) else self.__dollar_subscriptions
        if aClientid == None:
-         rc = [sub for sub in subscriptions if Topics.topicMatches(sub.getTopic(), aTopic)]
+         rc = [sub for sub in subscriptions if subscriptionMatches(sub, aTopic)]
        else:
-         rc = [sub for sub in subscriptions if sub.getClientid() == aClientid and Topics.topicMatches(sub.getTopic(), aTopic)]
+         rc = [sub for sub in subscriptions if sub.getClientid() == aClientid and subscriptionMatches(sub, aTopic)]
      return rc
 
    def optionsOf(self, clientid, topic):
@@ -165,7 +171,7 @@ class SubscriptionEngines:
      if Topics.isValidTopicName(aTopic):
        subscriptions = self.__subscriptions if not isDollarTopic(aTopic) else self.__dollar_subscriptions
        for s in subscriptions:
-         if Topics.topicMatches(s.getTopic(), aTopic):
+         if subscriptionMatches(s, aTopic):
            result.add(s) # don't add a subscription twice
      return result
 
diff --git a/interoperability/mqtt/brokers/V5/Subscriptions.py b/interoperability/mqtt/brokers/V5/Subscriptions.py
index 5ffe9c3..e92464c 100644
--- a/interoperability/mqtt/brokers/V5/Subscriptions.py
+++ b/interoperability/mqtt/brokers/V5/Subscriptions.py
@@ -41,6 +41,9 @@ class Subscriptions:
   def getOptions(self):
     return self.__options
 
+  def isShared(self):
+    return self.__topic.startswith('$share/')
+
   def resubscribe(self, options):
     logger.info("[MQTT-1.1.0-1] resubscription for client %s on topic %s", self.__clientid, self.__topic)
     logger.info("[MQTT-3.8.4-3] resubscription for client %s on topic %s", self.__clientid, self.__topic)
-- 
2.43.0


From 69c93f5e1a26668f06bac10b1978c8e98779e6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:54 +0000
Subject: [PATCH 35/75] fix: a subscription identifier of 0 was accepted

---
 interoperability/mqtt/brokers/V5/MQTTBrokers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/interoperability/mqtt/brokers/V5/MQTTBrokers.py b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
index a56703d..0405bb7 100644
--- a/interoperability/mqtt/brokers/V5/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
@@ -623,6 +623,8 @@ class MQTTBrokers:
       self.disconnect(sock, None, reasonCode=reasonCode)
 
   def subscribe(self, sock, packet):
+    if 0 in getattr(packet.properties, "SubscriptionIdentifier", []):
+      raise MQTTV5.ProtocolError("Protocol error", "subscription identifier 0")
     topics = []
     optionss = []
     respqoss = []
-- 
2.43.0


From 239403bea67eef450f9008a504ff81399e5b2803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:08 +0000
Subject: [PATCH 36/75] fix: a receive maximum or maximum packet size of 0 was
 accepted in CONNECT

---
 interoperability/mqtt/brokers/V5/MQTTBrokers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/interoperability/mqtt/brokers/V5/MQTTBrokers.py b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
index 0405bb7..7e3c58a 100644
--- a/interoperability/mqtt/brokers/V5/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
@@ -495,6 +495,10 @@ class MQTTBrokers:
       resp.reasonCode.set("Topic name invalid")
       respond(sock, resp)
       raise MQTTV5.MQTTException("Will topic invalid")
+    if getattr(packet.properties, "ReceiveMaximum", 1) == 0 or getattr(packet.properties, "MaximumPacketSize", 1) == 0:
+      resp.reasonCode.set("Protocol error")
+      respond(sock, resp)
+      raise MQTTV5.MQTTException("Receive maximum or maximum packet size 0")
     if len(packet.ClientIdentifier) == 0:
       packet.ClientIdentifier = str(uuid.uuid4()) # give the client a unique clientid
       logger.info("[MQTT5-3.1.3-6] 0-length clientid must be assigned a unique id %s", packet.ClientIdentifier)
-- 
2.43.0


From 2d29386595191330c2357097f717e0eac0d5f8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:21 +0000
Subject: [PATCH 37/75] fix: keep alive timeouts were handled without the lock,
 in the middle of requests on other connections

---
 .../mqtt/brokers/V311/MQTTBrokers.py             | 16 ++++++++++------
 interoperability/mqtt/brokers/V5/MQTTBrokers.py  | 16 ++++++++++------
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/interoperability/mqtt/brokers/V311/MQTTBrokers.py b/interoperability/mqtt/brokers/V311/MQTTBrokers.py
index 3db9799..0a369f9 100644
--- a/interoperability/mqtt/brokers/V311/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V311/MQTTBrokers.py
@@ -484,9 +484,13 @@ class MQTTBrokers:
     self.clients[sock].pubcomp(packet.messageIdentifier)
 
   def keepalive(self, sock):
-    if sock in self.clients.keys():
-      client = self.clients[sock]
-      if client.keepalive > 0 and time.time() - client.lastPacket > client.keepalive * 1.5:
-        # keep alive timeout
-        logger.info("[MQTT-3.1.2-22] keepalive timeout for client %s", client.id)
-        self.disconnect(sock, None, terminate=True)
+    self.lock.acquire() # another connection of the client could be taking over
+    try:
+      if sock in self.clients.keys():
+        client = self.clients[sock]
+        if client.keepalive > 0 and time.time() - client.lastPacket > client.keepalive * 1.5:
+          # keep alive timeout
+          logger.info("[MQTT-3.1.2-22] keepalive timeout for client %s", client.id)
+          self.disconnect(sock, None, terminate=True)
+    finally:
+      self.lock.release()
diff --git a/interoperability/mqtt/brokers/V5/MQTTBrokers.py b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
index 7e3c58a..be80de6 100644
--- a/interoperability/mqtt/brokers/V5/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
@@ -848,9 +848,13 @@ class MQTTBrokers:
     self.clients[sock].pubcomp(packet.packetIdentifier)
 
   def keepalive(self, sock):
-    if sock in self.clients.keys():
-      client = self.clients[sock]
-      if client.keepalive > 0 and time.monotonic() - client.lastPacket > client.keepalive * 1.5:
-        # keep alive timeout
-        logger.info("[MQTT5-3.1.2-22] keepalive timeout for client %s", client.id)
-        self.disconnect(sock, None, sendWillMessage=True)
+    self.lock.acquire() # another connection of the client could be taking over
+    try:
+      if sock in self.clients.keys():
+        client = self.clients[sock]
+        if client.keepalive > 0 and time.monotonic() - client.lastPacket > client.keepalive * 1.5:
+          # keep alive timeout
+          logger.info("[MQTT5-3.1.2-22] keepalive timeout for client %s", client.id)
+          self.disconnect(sock, None, sendWillMessage=True)
+    finally:
+      self.lock.release()
-- 
2.43.0


From 345d898de587c0001e2e5272e6a0ee7e1ad59683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:18 +0000
Subject: [PATCH 38/75] fix: the listener read for ever from a connection which
 ended in the header of CONNECT

---
 interoperability/mqtt/brokers/listeners/TCPListeners.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/interoperability/mqtt/brokers/listeners/TCPListeners.py b/interoperability/mqtt/brokers/listeners/TCPListeners.py
index 35a9d83..21ed0da 100644
--- a/interoperability/mqtt/brokers/listeners/TCPListeners.py
+++ b/interoperability/mqtt/brokers/listeners/TCPListeners.py
@@ -170,8 +170,11 @@ class WebSocketTCPHandler(socketserver.StreamRequestHandler):
             if broker == None:
               connbuf = sock.recv(1)
               if connbuf == b'\x10': # connect packet
-                while connbuf[-4:] != b"MQTT" and len(connbuf) < 10:
-                  connbuf += sock.recv(1)
+                while connbuf[-4:] != b"MQTT" and len(connbuf) < 11: # up to 4 bytes of remaining length
+                  byte = sock.recv(1)
+                  if len(byte) == 0:
+                    break
+                  connbuf += byte
                 connbuf += sock.recv(1)
                 version = connbuf[-1]
                 if version == 4:
-- 
2.43.0


From c39c341e882f81d7bec5eb9fef42fafbe3a2b35a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:01 +0000
Subject: [PATCH 39/75] fix: a pause inside a packet ended MQTT 5 connections,
 and suspended the keep alive of MQTT 3.1.1 ones

---
 .../mqtt/brokers/listeners/TCPListeners.py    | 20 ++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/interoperability/mqtt/brokers/listeners/TCPListeners.py b/interoperability/mqtt/brokers/listeners/TCPListeners.py
index 21ed0da..836e37b 100644
--- a/interoperability/mqtt/brokers/listeners/TCPListeners.py
+++ b/interoperability/mqtt/brokers/listeners/TCPListeners.py
@@ -35,6 +35,20 @@ class BufferedSockets:
     self.socket = socket
     self.buffer = bytearray()
     self.websockets = False
+    self.idle = lambda: None # what to do each second without data in the middle of a packet
+
+  def receive(self, bufsize):
+    "the parts of a packet may come at any time, as long as the keep alive allows it"
+    while True:
+      if not (hasattr(self.socket, "pending") and self.socket.pending() > 0):
+        (i, o, e) = select.select([self.socket], [], [], 1)
+        if i == []:
+          self.idle()
+          continue
+      try:
+        return self.socket.recv(bufsize)
+      except socket.timeout:
+        self.idle()
 
   def rebuffer(self, data):
     self.buffer = data + self.buffer
@@ -81,7 +95,7 @@ class BufferedSockets:
         out = self.buffer[:bufsize]
         self.buffer = self.buffer[bufsize:]
       else:
-        out = self.buffer + self.socket.recv(bufsize - len(self.buffer))
+        out = self.buffer + self.receive(bufsize - len(self.buffer))
         self.buffer = bytes()
     return out
 
@@ -148,6 +162,10 @@ class WebSocketTCPHandler(socketserver.StreamRequestHandler):
     first = True
     broker = None
     sock = BufferedSockets(self.request)
+    def idle():
+      broker3.keepalive(sock)
+      broker5.keepalive(sock)
+    sock.idle = idle
     sock_no = sock.fileno()
     terminate = keptalive = False
     logger.info("Starting communications for socket %d", sock_no)
-- 
2.43.0


From 6c840b3810f8200b0fe32a9ebbd520cc5d29c29d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:55 +0000
Subject: [PATCH 40/75] fix: websockets: several packets in a frame stalled,
 control frames were taken as data, reading went on for ever after the end

---
 .../mqtt/brokers/listeners/TCPListeners.py    | 49 ++++++++++++++-----
 1 file changed, 37 insertions(+), 12 deletions(-)

diff --git a/interoperability/mqtt/brokers/listeners/TCPListeners.py b/interoperability/mqtt/brokers/listeners/TCPListeners.py
index 836e37b..d465b52 100644
--- a/interoperability/mqtt/brokers/listeners/TCPListeners.py
+++ b/interoperability/mqtt/brokers/listeners/TCPListeners.py
@@ -37,6 +37,10 @@ class BufferedSockets:
     self.websockets = False
     self.idle = lambda: None # what to do each second without data in the middle of a packet
 
+  def pending(self):
+    "is there data which select does not know of?"
+    return len(self.buffer) > 0 or (hasattr(self.socket, "pending") and self.socket.pending() > 0)
+
   def receive(self, bufsize):
     "the parts of a packet may come at any time, as long as the keep alive allows it"
     while True:
@@ -53,27 +57,34 @@ class BufferedSockets:
   def rebuffer(self, data):
     self.buffer = data + self.buffer
 
+  def receiveall(self, count):
+    data = bytearray()
+    while len(data) < count:
+      received = self.receive(count - len(data))
+      if len(received) == 0:
+        raise OSError("connection closed")
+      data += received
+    return data
+
   def wsrecv(self):
-    header1 = ord(self.socket.recv(1))
-    header2 = ord(self.socket.recv(1))
+    header1 = ord(self.receiveall(1))
+    header2 = ord(self.receiveall(1))
 
     opcode = (header1 & 0x0f)
     maskbit = (header2 & 0x80) == 0x80
     length = (header2 & 0x7f) # works for 0 to 125 inclusive
     if length == 126: # for 126 to 65535 inclusive
-      lb1 = ord(self.socket.recv(1))
-      lb2 = ord(self.socket.recv(1))
+      lb1 = ord(self.receiveall(1))
+      lb2 = ord(self.receiveall(1))
       length = lb1*256 + lb2
     elif length == 127:
       length = 0
       for i in range(0, 8):
-        length += ord(self.socket.recv(1)) * 2**((7 - i)*8)
+        length += ord(self.receiveall(1)) * 2**((7 - i)*8)
     assert maskbit == True
     if maskbit:
-      mask = self.socket.recv(4)
-    mpayload = bytearray()
-    while len(mpayload) < length:
-      mpayload += self.socket.recv(length - len(mpayload))
+      mask = self.receiveall(4)
+    mpayload = self.receiveall(length)
     buffer = bytearray()
     if maskbit:
       mi = 0
@@ -82,7 +93,12 @@ class BufferedSockets:
         mi = (mi+1)%4
     else:
       buffer = mpayload
-    self.buffer += buffer
+    if opcode == 8: # close
+      raise OSError("closed by the client")
+    elif opcode == 9: # ping
+      self.socket.sendall(bytearray([0x8A, len(buffer)]) + buffer)
+    elif opcode != 10: # pong
+      self.buffer += buffer
 
   def recv(self, bufsize):
     if self.websockets:
@@ -147,7 +163,13 @@ class WebSocketTCPHandler(socketserver.StreamRequestHandler):
 
   def handshake(self, client):
     GUID = "258EAFA5-E914-47DA-95CA-C5AB0DC85B11"
-    data = client.recv(1024).decode('utf-8')
+    data = bytearray()
+    while data.find(b"\r\n\r\n") == -1:
+      received = client.recv(1024)
+      if len(received) == 0:
+        raise OSError("connection closed")
+      data += received
+    data = data.decode('utf-8')
     headers = self.getheaders(data)
     digest = base64.b64encode(hashlib.sha1((headers['SEC-WEBSOCKET-KEY'] + GUID).encode("utf-8")).digest())
     resp = b"HTTP/1.1 101 Switching Protocols\r\n" +\
@@ -173,7 +195,10 @@ class WebSocketTCPHandler(socketserver.StreamRequestHandler):
       try:
         if not keptalive:
           logger.debug("Waiting for request")
-        (i, o, e) = select.select([sock], [], [], 1)
+        if sock.pending(): # several packets in one websocket frame or TLS record
+          (i, o, e) = ([sock], [], [])
+        else:
+          (i, o, e) = select.select([sock], [], [], 1)
         if i == [sock]:
           if first:
             char = sock.recv(1)
-- 
2.43.0


From c02ec62d63dc569d06f2c21680dacef46e4f154c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:31 +0000
Subject: [PATCH 41/75] fix: the clients sent packets again from the start when
 the socket had taken a part of them

---
 interoperability/mqtt/clients/V311/internal.py | 10 +++++-----
 interoperability/mqtt/clients/V311/main.py     |  2 +-
 interoperability/mqtt/clients/V5/internal.py   | 10 +++++-----
 interoperability/mqtt/clients/V5/main.py       |  2 +-
 4 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/interoperability/mqtt/clients/V311/internal.py b/interoperability/mqtt/clients/V311/internal.py
index 6aab0b4..a4f5641 100755
--- a/interoperability/mqtt/clients/V311/internal.py
+++ b/interoperability/mqtt/clients/V311/internal.py
@@ -75,7 +75,7 @@ class Receivers:
         self.outMsgs[packet.messageIdentifier].pubrec_received == True
         self.pubrel.messageIdentifier = packet.messageIdentifier
         logging.debug("out: %s", str(self.pubrel))
-        self.socket.send(self.pubrel.pack())
+        self.socket.sendall(self.pubrel.pack())
       else:
         raise Exception("PUBREC received for unknown msg id "+ \
                     str(packet.messageIdentifier))
@@ -93,7 +93,7 @@ class Receivers:
           del self.inMsgs[packet.messageIdentifier]
           self.pubcomp.messageIdentifier = packet.messageIdentifier
           logging.debug("out: %s", str(self.pubcomp))
-          self.socket.send(self.pubcomp.pack())
+          self.socket.sendall(self.pubcomp.pack())
         if callback == None:
           return (pub.topicName, pub.data, 2,
                            pub.fh.RETAIN, pub.messageIdentifier)
@@ -127,12 +127,12 @@ class Receivers:
                            packet.fh.RETAIN, packet.messageIdentifier):
             self.puback.messageIdentifier = packet.messageIdentifier
             logging.debug("out: %s", str(self.puback))
-            self.socket.send(self.puback.pack())
+            self.socket.sendall(self.puback.pack())
       elif packet.fh.QoS == 2:
         self.inMsgs[packet.messageIdentifier] = packet
         self.pubrec.messageIdentifier = packet.messageIdentifier
         logging.debug("out: %s", str(self.pubrec))
-        self.socket.send(self.pubrec.pack())
+        self.socket.sendall(self.pubrec.pack())
 
     else:
       raise Exception("Unexpected packet"+str(packet))
@@ -146,7 +146,7 @@ class Receivers:
       else:
         packet.fh.DUP = True
       logging.debug("out: %s", str(packet))
-      rc = self.socket.send(packet.pack())
+      rc = self.socket.sendall(packet.pack())
 
   def __call__(self, callback):
     self.running = True
diff --git a/interoperability/mqtt/clients/V311/main.py b/interoperability/mqtt/clients/V311/main.py
index e691dd5..67a55a6 100755
--- a/interoperability/mqtt/clients/V311/main.py
+++ b/interoperability/mqtt/clients/V311/main.py
@@ -39,7 +39,7 @@ def sendtosocket(mysocket, data):
   sent = 0
   length = len(data)
   while sent < length:
-    sent += mysocket.send(data)
+    sent += mysocket.send(data[sent:])
 
 class Callback:
 
diff --git a/interoperability/mqtt/clients/V5/internal.py b/interoperability/mqtt/clients/V5/internal.py
index 92c7989..740b19f 100755
--- a/interoperability/mqtt/clients/V5/internal.py
+++ b/interoperability/mqtt/clients/V5/internal.py
@@ -82,7 +82,7 @@ class Receivers:
         #self.outMsgs[packet.packetIdentifier].pubrec_received = True
         self.pubrel.packetIdentifier = packet.packetIdentifier
         logger.debug("out: %s", str(self.pubrel))
-        self.socket.send(self.pubrel.pack())
+        self.socket.sendall(self.pubrel.pack())
       else:
         raise Exception("PUBREC received for unknown msg id "+ \
                     str(packet.packetIdentifier))
@@ -100,7 +100,7 @@ class Receivers:
           del self.inMsgs[packet.packetIdentifier]
           self.pubcomp.packetIdentifier = packet.packetIdentifier
           logger.debug("out: %s", str(self.pubcomp))
-          self.socket.send(self.pubcomp.pack())
+          self.socket.sendall(self.pubcomp.pack())
         if callback == None:
           return (pub.topicName, pub.data, 2,
                            pub.fh.RETAIN, pub.packetIdentifier)
@@ -134,12 +134,12 @@ class Receivers:
                            packet.fh.RETAIN, packet.packetIdentifier, packet.properties):
             self.puback.packetIdentifier = packet.packetIdentifier
             logger.debug("out: %s", str(self.puback))
-            self.socket.send(self.puback.pack())
+            self.socket.sendall(self.puback.pack())
       elif packet.fh.QoS == 2:
         self.inMsgs[packet.packetIdentifier] = packet
         self.pubrec.packetIdentifier = packet.packetIdentifier
         logger.debug("out: %s", str(self.pubrec))
-        self.socket.send(self.pubrec.pack())
+        self.socket.sendall(self.pubrec.pack())
 
     else:
       raise Exception("Unexpected packet"+str(packet))
@@ -153,7 +153,7 @@ class Receivers:
       else:
         packet.fh.DUP = True
       logger.debug("out: %s", str(packet))
-      rc = self.socket.send(packet.pack())
+      rc = self.socket.sendall(packet.pack())
 
   def __call__(self, callback):
     self.running = True
diff --git a/interoperability/mqtt/clients/V5/main.py b/interoperability/mqtt/clients/V5/main.py
index 36e33aa..e5cb57c 100755
--- a/interoperability/mqtt/clients/V5/main.py
+++ b/interoperability/mqtt/clients/V5/main.py
@@ -40,7 +40,7 @@ def sendtosocket(mysocket, data):
   length = len(data)
   try:
     while sent < length:
-      sent += mysocket.send(data)
+      sent += mysocket.send(data[sent:])
   except:
     pass # could be socket error
   return sent
-- 
2.43.0


From 7e1f2d3951af52bcf95acb39ea060951b43c1eb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:31 +0000
Subject: [PATCH 42/75] fix: a pause inside a packet made the clients lose
 their place in the stream

---
 interoperability/mqtt/formats/MQTTV311/MQTTV311.py | 14 +++++++++++---
 interoperability/mqtt/formats/MQTTV5/MQTTV5.py     | 14 +++++++++++---
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/interoperability/mqtt/formats/MQTTV311/MQTTV311.py b/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
index c9e9a47..2a5b556 100644
--- a/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
+++ b/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
@@ -24,7 +24,7 @@ so that the tests that use this package can send invalid data for error testing.
 
 """
 
-import logging
+import logging, socket
 
 logger = logging.getLogger('MQTT broker')
 
@@ -58,6 +58,14 @@ def MessageType(byte):
   return rc
 
 
+def receive(aSocket, count):
+  "receive in the middle of a packet: a pause does not end it"
+  while True:
+    try:
+      return aSocket.recv(count)
+    except socket.timeout:
+      pass
+
 def getPacket(aSocket):
   "receive the next packet"
   buf = aSocket.recv(1) # get the first byte fixed header
@@ -73,7 +81,7 @@ def getPacket(aSocket):
   multiplier = 1
   remlength = 0
   while 1:
-    next = aSocket.recv(1)
+    next = receive(aSocket, 1)
     if len(next) == 0:
       return None
     buf += next
@@ -89,7 +97,7 @@ def getPacket(aSocket):
   if remlength > 0:
     while len(rest) < remlength:
       before = len(rest)
-      rest += aSocket.recv(remlength-len(rest))
+      rest += receive(aSocket, remlength-len(rest))
       if len(rest) == before: # no data was read
         # as we have no timeout on the read, no data probably means a socket error
         return None
diff --git a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
index 58fc45e..8d2289d 100644
--- a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
+++ b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
@@ -24,7 +24,7 @@ so that the tests that use this package can send invalid data for error testing.
 
 """
 
-import logging, struct, traceback
+import logging, socket, struct, traceback
 
 logger = logging.getLogger('MQTT broker')
 
@@ -273,6 +273,14 @@ class VBIs:  # Variable Byte Integer
     assert len(VBIs.encode(value)) == bytes, "[MQTT5-1.5.5-1] The encoded value MUST use the minimum number of bytes necessary"
     return (value, bytes)
 
+def receive(aSocket, count):
+  "receive in the middle of a packet: a pause does not end it"
+  while True:
+    try:
+      return aSocket.recv(count)
+    except socket.timeout:
+      pass
+
 def getPacket(aSocket):
   "receive the next packet"
   aSocket.settimeout(.3)
@@ -289,7 +297,7 @@ def getPacket(aSocket):
   multiplier = 1
   remlength = 0
   while 1:
-    next = aSocket.recv(1)
+    next = receive(aSocket, 1)
     if len(next) == 0:
       return None
     buf += next
@@ -305,7 +313,7 @@ def getPacket(aSocket):
   if remlength > 0:
     while len(rest) < remlength:
       before = len(rest)
-      rest += aSocket.recv(remlength-len(rest))
+      rest += receive(aSocket, remlength-len(rest))
       if len(rest) == before: # no data was read
         # as we have no timeout on the read, no data probably means a socket error
         return None
-- 
2.43.0


From 1b2d2e8612a2f9895ef3da32d1a2a2feb955f2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:31 +0000
Subject: [PATCH 43/75] fix: the clients went on reading for ever when the
 connection had ended, and the application was not told

---
 interoperability/mqtt/clients/V311/internal.py | 7 ++++++-
 interoperability/mqtt/clients/V5/internal.py   | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/interoperability/mqtt/clients/V311/internal.py b/interoperability/mqtt/clients/V311/internal.py
index a4f5641..e06455b 100755
--- a/interoperability/mqtt/clients/V311/internal.py
+++ b/interoperability/mqtt/clients/V311/internal.py
@@ -41,7 +41,10 @@ class Receivers:
   def receive(self, callback=None):
     packet = None
     try:
-      packet = MQTTV3.unpackPacket(MQTTV3.getPacket(self.socket))
+      raw_packet = MQTTV3.getPacket(self.socket)
+      if raw_packet == None:
+        raise OSError("connection closed")
+      packet = MQTTV3.unpackPacket(raw_packet)
     except:
       if not self.stopping and sys.exc_info()[0] != socket.timeout:
         logging.error("receive: unexpected exception %s", str(sys.exc_info()))
@@ -157,4 +160,6 @@ class Receivers:
       if not self.stopping and sys.exc_info()[0] != socket.error:
         logging.error("call: unexpected exception %s", str(sys.exc_info()))
         traceback.print_exc()
+      if not self.stopping and hasattr(callback, "connectionLost"):
+        callback.connectionLost(sys.exc_info()[1])
     self.running = False
diff --git a/interoperability/mqtt/clients/V5/internal.py b/interoperability/mqtt/clients/V5/internal.py
index 740b19f..ad550f3 100755
--- a/interoperability/mqtt/clients/V5/internal.py
+++ b/interoperability/mqtt/clients/V5/internal.py
@@ -44,7 +44,10 @@ class Receivers:
   def receive(self, callback=None):
     packet = None
     try:
-      packet = MQTTV5.unpackPacket(MQTTV5.getPacket(self.socket))
+      raw_packet = MQTTV5.getPacket(self.socket)
+      if raw_packet == None:
+        raise OSError("connection closed")
+      packet = MQTTV5.unpackPacket(raw_packet)
     except:
       if not self.stopping and sys.exc_info()[0] != socket.timeout:
         logger.info("receive: unexpected exception %s", str(sys.exc_info()))
@@ -164,4 +167,6 @@ class Receivers:
       if not self.stopping and sys.exc_info()[0] != socket.error:
         logger.error("call: unexpected exception %s", str(sys.exc_info()))
         traceback.print_exc()
+      if not self.stopping and hasattr(callback, "connectionLost"):
+        callback.connectionLost(sys.exc_info()[1])
     self.running = False
-- 
2.43.0


From c7c06b2555cb162fcf880669760a6696e8797560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:31 +0000
Subject: [PATCH 44/75] fix: the clients did not answer a repeated PUBREL

---
 interoperability/mqtt/clients/V311/internal.py | 4 +++-
 interoperability/mqtt/clients/V5/internal.py   | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/interoperability/mqtt/clients/V311/internal.py b/interoperability/mqtt/clients/V311/internal.py
index e06455b..04d0c6b 100755
--- a/interoperability/mqtt/clients/V311/internal.py
+++ b/interoperability/mqtt/clients/V311/internal.py
@@ -87,7 +87,9 @@ class Receivers:
       "release QOS 2 publication to client, & send PUBCOMP"
       msgid = packet.messageIdentifier
       if packet.messageIdentifier not in self.inMsgs.keys():
-        pass # what should we do here?
+        "it has been released already, or we do not know of it: let the server finish"
+        self.pubcomp.messageIdentifier = msgid
+        self.socket.sendall(self.pubcomp.pack())
       else:
         pub = self.inMsgs[packet.messageIdentifier]
         if callback == None or \
diff --git a/interoperability/mqtt/clients/V5/internal.py b/interoperability/mqtt/clients/V5/internal.py
index ad550f3..ae5ae09 100755
--- a/interoperability/mqtt/clients/V5/internal.py
+++ b/interoperability/mqtt/clients/V5/internal.py
@@ -94,7 +94,9 @@ class Receivers:
       "release QOS 2 publication to client, & send PUBCOMP"
       msgid = packet.packetIdentifier
       if packet.packetIdentifier not in self.inMsgs.keys():
-        pass # what should we do here?
+        "it has been released already, or we do not know of it: let the server finish"
+        self.pubcomp.packetIdentifier = msgid
+        self.socket.sendall(self.pubcomp.pack())
       else:
         pub = self.inMsgs[packet.packetIdentifier]
         if callback == None or \
-- 
2.43.0


From 4c20a988dcef53fca83bf800d813aa1ad6088e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:31 +0000
Subject: [PATCH 45/75] fix: the clients did not acknowledge QoS 1 messages
 received without callback

---
 interoperability/mqtt/clients/V311/internal.py | 2 ++
 interoperability/mqtt/clients/V5/internal.py   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/interoperability/mqtt/clients/V311/internal.py b/interoperability/mqtt/clients/V311/internal.py
index 04d0c6b..96bcd94 100755
--- a/interoperability/mqtt/clients/V311/internal.py
+++ b/interoperability/mqtt/clients/V311/internal.py
@@ -125,6 +125,8 @@ class Receivers:
                         packet.fh.RETAIN, packet.messageIdentifier)
       elif packet.fh.QoS == 1:
         if callback == None:
+          self.puback.messageIdentifier = packet.messageIdentifier
+          self.socket.sendall(self.puback.pack())
           return (packet.topicName, packet.data, 1,
                            packet.fh.RETAIN, packet.messageIdentifier)
         else:
diff --git a/interoperability/mqtt/clients/V5/internal.py b/interoperability/mqtt/clients/V5/internal.py
index ae5ae09..f34870b 100755
--- a/interoperability/mqtt/clients/V5/internal.py
+++ b/interoperability/mqtt/clients/V5/internal.py
@@ -132,6 +132,8 @@ class Receivers:
                         packet.fh.RETAIN, packet.packetIdentifier, packet.properties)
       elif packet.fh.QoS == 1:
         if callback == None:
+          self.puback.packetIdentifier = packet.packetIdentifier
+          self.socket.sendall(self.puback.pack())
           return (packet.topicName, packet.data, 1,
                            packet.fh.RETAIN, packet.packetIdentifier)
         else:
-- 
2.43.0


From 0e227031d5fc1e903e72360a408fa1edb64ca18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:31 +0000
Subject: [PATCH 46/75] fix: the MQTT 5 client sent PUBREL for a message which
 the server had refused

---
 interoperability/mqtt/clients/V5/internal.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/interoperability/mqtt/clients/V5/internal.py b/interoperability/mqtt/clients/V5/internal.py
index f34870b..40a8c71 100755
--- a/interoperability/mqtt/clients/V5/internal.py
+++ b/interoperability/mqtt/clients/V5/internal.py
@@ -81,7 +81,12 @@ class Receivers:
         raise Exception("No QoS 1 with that message id sent")
 
     elif packet.fh.PacketType == MQTTV5.PacketTypes.PUBREC:
-      if packet.packetIdentifier in self.outMsgs.keys():
+      if packet.packetIdentifier in self.outMsgs.keys() and packet.reasonCode.value >= 0x80:
+        "the server has refused the message: that is the end of it"
+        del self.outMsgs[packet.packetIdentifier]
+        if hasattr(callback, "published"):
+          callback.published(packet.packetIdentifier)
+      elif packet.packetIdentifier in self.outMsgs.keys():
         #self.outMsgs[packet.packetIdentifier].pubrec_received = True
         self.pubrel.packetIdentifier = packet.packetIdentifier
         logger.debug("out: %s", str(self.pubrel))
-- 
2.43.0


From ae2120734add4e3f59d353e7535f770552ed0421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:31 +0000
Subject: [PATCH 47/75] fix: the clients did not continue the exchanges of
 their session after connecting again

---
 interoperability/mqtt/clients/V311/internal.py | 6 ++++--
 interoperability/mqtt/clients/V311/main.py     | 5 ++---
 interoperability/mqtt/clients/V5/internal.py   | 6 ++++--
 interoperability/mqtt/clients/V5/main.py       | 5 ++---
 4 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/interoperability/mqtt/clients/V311/internal.py b/interoperability/mqtt/clients/V311/internal.py
index 96bcd94..8a478f7 100755
--- a/interoperability/mqtt/clients/V311/internal.py
+++ b/interoperability/mqtt/clients/V311/internal.py
@@ -31,6 +31,7 @@ class Receivers:
 
     self.inMsgs = {}
     self.outMsgs = {}
+    self.pubrecs = set() # identifiers of messages for which PUBREC has been received
 
     self.puback = MQTTV3.Pubacks()
     self.pubrec = MQTTV3.Pubrecs()
@@ -75,7 +76,7 @@ class Receivers:
 
     elif packet.fh.MessageType == MQTTV3.PUBREC:
       if packet.messageIdentifier in self.outMsgs.keys():
-        self.outMsgs[packet.messageIdentifier].pubrec_received == True
+        self.pubrecs.add(packet.messageIdentifier)
         self.pubrel.messageIdentifier = packet.messageIdentifier
         logging.debug("out: %s", str(self.pubrel))
         self.socket.sendall(self.pubrel.pack())
@@ -107,6 +108,7 @@ class Receivers:
       "finished with this message id"
       if packet.messageIdentifier in self.outMsgs.keys():
         del self.outMsgs[packet.messageIdentifier]
+        self.pubrecs.discard(packet.messageIdentifier)
         if hasattr(callback, "published"):
           callback.published(packet.messageIdentifier)
       else:
@@ -147,7 +149,7 @@ class Receivers:
   def resend(self):
     for packetid in self.outMsgs.keys():
       packet = self.outMsgs[packetid]
-      if packet.fh.QoS == 2 and hasattr(packet, "pubrec_received"):
+      if packetid in self.pubrecs:
         self.pubrel.messageIdentifier = packet.messageIdentifier
         packet = self.pubrel
       else:
diff --git a/interoperability/mqtt/clients/V311/main.py b/interoperability/mqtt/clients/V311/main.py
index 67a55a6..0f1ef03 100755
--- a/interoperability/mqtt/clients/V311/main.py
+++ b/interoperability/mqtt/clients/V311/main.py
@@ -133,10 +133,11 @@ class Client:
 
     self.cleansession = cleansession
     assert response.returnCode == 0, "connect was %s" % str(response)
-    if self.cleansession or self.__receiver == None:
+    if self.cleansession or self.__receiver == None or not (response.flags == 1):
       self.__receiver = internal.Receivers(self.sock)
     else:
       self.__receiver.socket = self.sock
+      self.__receiver.resend()
     if self.callback:
       id = _thread.start_new_thread(self.__receiver, (self.callback,))
     return response
@@ -169,8 +170,6 @@ class Client:
       publish.messageIdentifier = 0
     else:
       publish.messageIdentifier = self.__nextMsgid()
-      if publish.fh.QoS == 2:
-        publish.pubrec_received = False
       self.__receiver.outMsgs[publish.messageIdentifier] = publish
     publish.topicName = topic
     publish.data = payload
diff --git a/interoperability/mqtt/clients/V5/internal.py b/interoperability/mqtt/clients/V5/internal.py
index 40a8c71..efd628f 100755
--- a/interoperability/mqtt/clients/V5/internal.py
+++ b/interoperability/mqtt/clients/V5/internal.py
@@ -34,6 +34,7 @@ class Receivers:
 
     self.inMsgs = {}
     self.outMsgs = {}
+    self.pubrecs = set() # identifiers of messages for which PUBREC has been received
 
     self.puback = MQTTV5.Pubacks()
     self.pubrec = MQTTV5.Pubrecs()
@@ -87,7 +88,7 @@ class Receivers:
         if hasattr(callback, "published"):
           callback.published(packet.packetIdentifier)
       elif packet.packetIdentifier in self.outMsgs.keys():
-        #self.outMsgs[packet.packetIdentifier].pubrec_received = True
+        self.pubrecs.add(packet.packetIdentifier)
         self.pubrel.packetIdentifier = packet.packetIdentifier
         logger.debug("out: %s", str(self.pubrel))
         self.socket.sendall(self.pubrel.pack())
@@ -119,6 +120,7 @@ class Receivers:
       "finished with this message id"
       if packet.packetIdentifier in self.outMsgs.keys():
         del self.outMsgs[packet.packetIdentifier]
+        self.pubrecs.discard(packet.packetIdentifier)
         if hasattr(callback, "published"):
           callback.published(packet.packetIdentifier)
       else:
@@ -159,7 +161,7 @@ class Receivers:
   def resend(self):
     for packetid in self.outMsgs.keys():
       packet = self.outMsgs[packetid]
-      if packet.fh.QoS == 2 and hasattr(packet, "pubrec_received"):
+      if packetid in self.pubrecs:
         self.pubrel.packetIdentifier = packet.packetIdentifier
         packet = self.pubrel
       else:
diff --git a/interoperability/mqtt/clients/V5/main.py b/interoperability/mqtt/clients/V5/main.py
index e5cb57c..84730e9 100755
--- a/interoperability/mqtt/clients/V5/main.py
+++ b/interoperability/mqtt/clients/V5/main.py
@@ -150,10 +150,11 @@ class Client:
 
     self.cleanstart = cleanstart
     assert response.reasonCode.getName() == "Success", "connect was %s" % str(response)
-    if self.cleanstart or self.__receiver == None:
+    if self.cleanstart or self.__receiver == None or not response.sessionPresent:
       self.__receiver = internal.Receivers(self.sock)
     else:
       self.__receiver.socket = self.sock
+      self.__receiver.resend()
     if self.callback:
       id = _thread.start_new_thread(self.__receiver, (self.callback,))
     return response
@@ -188,8 +189,6 @@ class Client:
       publish.packetIdentifier = 0
     else:
       publish.packetIdentifier = self.__nextMsgid()
-      if publish.fh.QoS == 2:
-        pass #publish.pubrec_received = False
       self.__receiver.outMsgs[publish.packetIdentifier] = publish
     publish.topicName = topic
     if properties:
-- 
2.43.0


From 8cbd2d96f269f3fde919504869c2c831bcb9c122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:31 +0000
Subject: [PATCH 48/75] fix: the clients looked for ever for a packet
 identifier when 65534 of them were in use

---
 interoperability/mqtt/clients/V311/main.py | 4 ++--
 interoperability/mqtt/clients/V5/main.py   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/interoperability/mqtt/clients/V311/main.py b/interoperability/mqtt/clients/V311/main.py
index 0f1ef03..c320474 100755
--- a/interoperability/mqtt/clients/V311/main.py
+++ b/interoperability/mqtt/clients/V311/main.py
@@ -74,12 +74,12 @@ class Client:
   def __nextMsgid(self):
     def getWrappedMsgid():
       id = self.msgid + 1
-      if id == 65535:
+      if id > 65535:
         id = 1
       return id
 
     if len(self.__receiver.outMsgs) >= 65535:
-      raise "No slots left!!"
+      raise MQTTV3.MQTTException("No slots left!!")
     else:
       self.msgid = getWrappedMsgid()
       while self.msgid in self.__receiver.outMsgs.keys():
diff --git a/interoperability/mqtt/clients/V5/main.py b/interoperability/mqtt/clients/V5/main.py
index 84730e9..aeb3dd8 100755
--- a/interoperability/mqtt/clients/V5/main.py
+++ b/interoperability/mqtt/clients/V5/main.py
@@ -85,12 +85,12 @@ class Client:
   def __nextMsgid(self):
     def getWrappedMsgid():
       id = self.msgid + 1
-      if id == 65535:
+      if id > 65535:
         id = 1
       return id
 
     if len(self.__receiver.outMsgs) >= 65535:
-      raise "No slots left!!"
+      raise MQTTV5.MQTTException("No slots left!!")
     else:
       self.msgid = getWrappedMsgid()
       while self.msgid in self.__receiver.outMsgs.keys():
-- 
2.43.0


From 937bd77e4c44c91eb96521b3fba24293b59bc88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:31 +0000
Subject: [PATCH 49/75] fix: MQTT-SN messages had wrong or no lengths, and any
 length was accepted

PUBLISH was one byte short, client identifiers were counted in characters, and
messages of more than 255 bytes could not be packed at all. Lengths were not
compared with what arrived. Reading from a stream went on for ever after its end.
---
 .../mqtt/formats/MQTTSN/MQTTSN.py             | 56 ++++++++++++-------
 1 file changed, 36 insertions(+), 20 deletions(-)

diff --git a/interoperability/mqtt/formats/MQTTSN/MQTTSN.py b/interoperability/mqtt/formats/MQTTSN/MQTTSN.py
index 7da783b..1ecc7c4 100644
--- a/interoperability/mqtt/formats/MQTTSN/MQTTSN.py
+++ b/interoperability/mqtt/formats/MQTTSN/MQTTSN.py
@@ -100,7 +100,11 @@ def getPacket(aSocket):
   # now get the remaining length - the length field is the length of the
   # entire packet including the length field itself
   if buf[0] == 1: # indicates following two bytes are the length
-    buf += aSocket.recv(2)
+    while len(buf) < 3:
+      next = aSocket.recv(3 - len(buf))
+      if len(next) == 0:
+        return None
+      buf += next
     remlength = buf[1]*256 + buf[2] - 3
   else:
     remlength = buf[0] - 1
@@ -108,7 +112,10 @@ def getPacket(aSocket):
   rest = bytes([])
   if remlength > 0:
     while len(rest) < remlength:
-      rest += aSocket.recv(remlength-len(rest))
+      next = aSocket.recv(remlength-len(rest))
+      if len(next) == 0: # the end, within a message
+        return None
+      rest += next
   assert len(rest) == remlength
   return buf + rest
 
@@ -134,6 +141,22 @@ class MessageLens:
       buffer = bytes([1]) + writeInt16(x)
     return buffer
 
+  @staticmethod
+  def prefix(contents):
+    "contents is the message from the message type on - the length includes the length field itself"
+    length = len(contents) + 1
+    if length > 255:
+      length += 2
+    return MessageLens.encode(length) + contents
+
+  @staticmethod
+  def check(buffer):
+    "the length of the message must be that of the datagram it came in.  Returns the length of the length field"
+    messagelen, lenlen = MessageLens.decode(buffer)
+    if messagelen != len(buffer):
+      raise MQTTSNException("Message length %d is not the number of bytes received %d" % (messagelen, len(buffer)))
+    return lenlen
+
   @staticmethod
   def decode(buffer):
     if buffer[0] == 1:
@@ -165,7 +188,7 @@ class Flags:
   def __setattr__(self, name, value):
     names = ["DUP", "QoS", "RETAIN", "Will", "CleanSession", "TopicIdType"]
     if name not in names:
-      raise MQTTException(name + " Attribute name must be one of "+str(names))
+      raise MQTTSNException(name + " Attribute name must be one of "+str(names))
     object.__setattr__(self, name, value)
 
   def __str__(self):
@@ -210,16 +233,14 @@ class Connects(Messages):
       self.unpack(buffer)
 
   def pack(self):
-    msglen = 6 + len(self.ClientId)
-    buffer = bytes([msglen, MessageTypes.CONNECT]) + self.Flags.pack() +\
-      bytes([self.ProtocolId]) + writeInt16(self.Duration) + writeData(self.ClientId)
-    return buffer
+    return MessageLens.prefix(bytes([MessageTypes.CONNECT]) + self.Flags.pack() +\
+      bytes([self.ProtocolId]) + writeInt16(self.Duration) + writeData(self.ClientId))
 
   def unpack(self, buffer):
     assert len(buffer) >= 2
     assert MessageType(buffer) == MessageTypes.CONNECT
     try:
-      messagelen, lenlen = MessageLens.decode(buffer)
+      lenlen = MessageLens.check(buffer)
       self.Flags.unpack(buffer[lenlen + 1])
       self.ProtocolId = buffer[lenlen + 2]
       self.Duration = readInt16(buffer[lenlen + 3:])
@@ -249,18 +270,15 @@ class Connacks(Messages):
       self.unpack(buffer)
 
   def pack(self):
-    msglen = 3
-    buffer = bytes([msglen, MessageTypes.CONNACK, self.ReturnCode])
-    return buffer
+    return MessageLens.prefix(bytes([MessageTypes.CONNACK, self.ReturnCode]))
 
   def unpack(self, buffer):
     assert len(buffer) >= 3
     assert MessageType(buffer) == MessageTypes.CONNACK
     try:
-      messagelen, lenlen = MessageLens.decode(buffer)
-      assert lenlen == 1
-      assert messagelen == 3
-      self.ReturnCode = buffer[2]
+      lenlen = MessageLens.check(buffer)
+      assert len(buffer) == lenlen + 2
+      self.ReturnCode = buffer[lenlen + 1]
     except:
       logger.exception("Validating connack packet")
       raise
@@ -286,16 +304,14 @@ class Publishes(Messages):
       self.unpack(buffer)
 
   def pack(self):
-    msglen = 6 + len(self.Data)
-    buffer = bytes([msglen, self.messageType]) + self.Flags.pack() +\
-      writeInt16(self.TopicId) + writeInt16(self.MsgId) + writeData(self.Data)
-    return buffer
+    return MessageLens.prefix(bytes([self.messageType]) + self.Flags.pack() +\
+      writeInt16(self.TopicId) + writeInt16(self.MsgId) + writeData(self.Data))
 
   def unpack(self, buffer):
     assert len(buffer) >= 2
     assert MessageType(buffer) == MessageTypes.PUBLISH
     try:
-      messagelen, lenlen = MessageLens.decode(buffer)
+      lenlen = MessageLens.check(buffer)
       self.Flags.unpack(buffer[lenlen + 1])
       self.TopicId = readInt16(buffer[lenlen + 2:])
       self.MsgId = readInt16(buffer[lenlen + 4:])
-- 
2.43.0


From 5ea41a778b6eea490f76e45064f03c4ac751b7ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:38 +0000
Subject: [PATCH 50/75] fix: options of the server which follow a listener in
 its configuration were ignored

---
 interoperability/mqtt/brokers/start.py | 59 ++++++++++++++------------
 1 file changed, 33 insertions(+), 26 deletions(-)

diff --git a/interoperability/mqtt/brokers/start.py b/interoperability/mqtt/brokers/start.py
index 8b3ea62..f71b92c 100644
--- a/interoperability/mqtt/brokers/start.py
+++ b/interoperability/mqtt/brokers/start.py
@@ -54,6 +54,33 @@ def setup_persistence(persistence_filename):
   sharedData = root.mqtt["sharedData"]
   return connection, sharedData
 
+def process_option(words, options):
+    "an option which does not belong to a listener"
+    if words[0] == "loglevel":
+      if len(words) > 1:
+        if words[1].upper() == "DEBUG":
+          logger.setLevel(logging.DEBUG)
+    elif words[0] == "receive_maximum":
+      options["receiveMaximum"] = int(words[1])
+    elif words[0] == "topic_alias_maximum":
+      options["topicAliasMaximum"] = int(words[1])
+    elif words[0] in ["maximum_packet_size", "message_size_limit"]:
+      options["maximumPacketSize"] = int(words[1])
+    elif words[0] == "persistence" and words[1] == "true":
+      options["persistence"] = True
+    elif words[0] in ["maximum_qos", "retain_available", "subscription_identifier_available",
+            "shared_subscription_available", "server_keep_alive", "visual", "mscfile"]:
+      bools = {"true":True,'false':False}
+      result = words[1]
+      if words[1] in bools.keys():
+        result = bools[words[1]]
+      else:
+        try:
+          result = int(words[1])
+        except:
+          pass
+      options[words[0]] = result
+
 def process_config(config, options):
     servers_to_create = []
     lineno = 0
@@ -63,31 +90,9 @@ def process_config(config, options):
       if curline.startswith('#') or len(curline) == 0:
         continue
       words = curline.split()
-      if words[0] == "loglevel":
-        if len(words) > 1:
-          if words[1].upper() == "DEBUG":
-            logger.setLevel(logging.DEBUG)
-      elif words[0] == "receive_maximum":
-        options["receiveMaximum"] = int(words[1])
-      elif words[0] == "topic_alias_maximum":
-        options["topicAliasMaximum"] = int(words[1])
-      elif words[0] in ["maximum_packet_size", "message_size_limit"]:
-        options["maximumPacketSize"] = int(words[1])
-      elif words[0] == "persistence" and words[1] == "true":
-        options["persistence"] = True
-      elif words[0] in ["maximum_qos", "retain_available", "subscription_identifier_available",
-              "shared_subscription_available", "server_keep_alive", "visual", "mscfile"]:
-        bools = {"true":True,'false':False}
-        result = words[1]
-        if words[1] in bools.keys():
-          result = bools[words[1]]
-        else:
-          try:
-            result = int(words[1])
-          except:
-            pass
-        options[words[0]] = result
-      elif words[0] == "listener":
+      if words[0] != "listener":
+        process_option(words, options)
+      else:
         ca_certs = certfile = keyfile = None
         cert_reqs=ssl.CERT_REQUIRED
         bind_address = ""
@@ -100,7 +105,7 @@ def process_config(config, options):
         if len(words) >= 4:
           if words[3] in ["mqttsn", "http"]:
             protocol = words[3]
-        while lineno < len(config) and not config[lineno].strip().startswith("listener"):
+        while lineno < len(config) and config[lineno].split()[:1] != ["listener"]:
           curline = config[lineno].strip()
           lineno += 1
           if curline.startswith('#') or len(curline) == 0:
@@ -118,6 +123,8 @@ def process_config(config, options):
           elif words[0] == "allow_non_sni_connections":
             if words[1] == "false":
               allow_non_sni_connections = False
+          else:
+            process_option(words, options)
         if protocol == "mqtt":
           servers_to_create.append((TCPListeners, {"host":bind_address, "port":port, "TLS":TLS, "cert_reqs":cert_reqs,
                       "ca_certs":ca_certs, "certfile":certfile, "keyfile":keyfile, 
-- 
2.43.0


From faea782d5469d3d90167b5e744a6c86c4948da9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:38 +0000
Subject: [PATCH 51/75] fix: server_keep_alive in the configuration had no
 effect

---
 interoperability/mqtt/brokers/start.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/interoperability/mqtt/brokers/start.py b/interoperability/mqtt/brokers/start.py
index f71b92c..dbf6a58 100644
--- a/interoperability/mqtt/brokers/start.py
+++ b/interoperability/mqtt/brokers/start.py
@@ -66,10 +66,12 @@ def process_option(words, options):
       options["topicAliasMaximum"] = int(words[1])
     elif words[0] in ["maximum_packet_size", "message_size_limit"]:
       options["maximumPacketSize"] = int(words[1])
+    elif words[0] == "server_keep_alive":
+      options["serverKeepAlive"] = int(words[1])
     elif words[0] == "persistence" and words[1] == "true":
       options["persistence"] = True
     elif words[0] in ["maximum_qos", "retain_available", "subscription_identifier_available",
-            "shared_subscription_available", "server_keep_alive", "visual", "mscfile"]:
+            "shared_subscription_available", "visual", "mscfile"]:
       bools = {"true":True,'false':False}
       result = words[1]
       if words[1] in bools.keys():
@@ -164,7 +166,6 @@ def run(config=None):
     "retain_available":True,
     "subscription_identifier_available":True,
     "shared_subscription_available":True,
-    "server_keep_alive":None,
   }
 
   if config != None:
-- 
2.43.0


From cc08e3090fcb020b380fde877b813a7bdd4e70cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:38 +0000
Subject: [PATCH 52/75] fix: a configuration without listener ended the server,
 and the port of the command line was ignored

---
 interoperability/mqtt/brokers/start.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/interoperability/mqtt/brokers/start.py b/interoperability/mqtt/brokers/start.py
index dbf6a58..20d7ef4 100644
--- a/interoperability/mqtt/brokers/start.py
+++ b/interoperability/mqtt/brokers/start.py
@@ -83,7 +83,7 @@ def process_option(words, options):
           pass
       options[words[0]] = result
 
-def process_config(config, options):
+def process_config(config, options, default_port=1883):
     servers_to_create = []
     lineno = 0
     while lineno < len(config):
@@ -136,10 +136,12 @@ def process_config(config, options):
         elif protocol == "http":
           servers_to_create.append((HTTPListeners, {"host":bind_address, "port":port, "TLS":TLS, "cert_reqs":cert_reqs,
               "ca_certs":ca_certs, "certfile":certfile, "keyfile":keyfile}))
+    if len(servers_to_create) == 0: # no listener is configured: use the default one
+      servers_to_create.append((TCPListeners, {"port":default_port}))
     servers_to_create[-1][1]["serve_forever"] = True
     return servers_to_create, options
 
-def run(config=None):
+def run(config=None, port=1883):
   global logger, broker3, broker5, brokerSN, server
   logger = logging.getLogger('MQTT broker')
   logger.setLevel(logging.INFO)
@@ -169,7 +171,7 @@ def run(config=None):
   }
 
   if config != None:
-    servers_to_create, options = process_config(config, options)
+    servers_to_create, options = process_config(config, options, port)
 
   if options["persistence"]:
     logger.info("Using persistence")    
@@ -202,7 +204,7 @@ def run(config=None):
     if config == None:
       #TCPBridges.setBroker5(broker5)
       #TCPBridges.create(1886)
-      servers.append(TCPListeners.create(1883, serve_forever=True))
+      servers.append(TCPListeners.create(port, serve_forever=True))
     else:
       for server in servers_to_create:
         servers.append(server[0].create(**server[1]))
@@ -271,14 +273,14 @@ def main(argv):
     if o in ("-h", "--help"):
       usage()
       sys.exit()
-    elif o in ("--port"):
+    elif o in ("-p", "--port"):
       port = int(a)
     elif o in ("-c", "--config-file"):
       cfg = read_config(a)
     else:
       assert False, "unhandled option"
 
-  run(config=cfg)
+  run(config=cfg, port=port)
 
 def usage():
   print(
-- 
2.43.0


From 0be236011e576ba4f31a30a4ba1a06481ef87acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:20 +0000
Subject: [PATCH 53/75] fix: MQTT-SN clients could not connect (time.clock is
 no more)

---
 interoperability/mqtt/brokers/SN/Brokers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/interoperability/mqtt/brokers/SN/Brokers.py b/interoperability/mqtt/brokers/SN/Brokers.py
index 8049535..27c976e 100644
--- a/interoperability/mqtt/brokers/SN/Brokers.py
+++ b/interoperability/mqtt/brokers/SN/Brokers.py
@@ -57,7 +57,7 @@ class Brokers:
 
   def connect(self, aClient):
     aClient.connected = True
-    aClient.timestamp = time.clock()
+    aClient.timestamp = time.process_time()
     self.__clients[aClient.id] = aClient
     if aClient.cleansession:
       self.cleanSession(aClient.id)
@@ -84,7 +84,7 @@ class Brokers:
         del self.__clients[aClientid]
       else:
         logger.info("[MQTT-3.1.2-4] broker must store the session data for client %s", aClientid)
-        self.__clients[aClientid].timestamp = time.clock()
+        self.__clients[aClientid].timestamp = time.process_time()
         self.__clients[aClientid].connected = False 
         logger.info("[MQTT-3.1.2-10] will message is deleted after use or disconnect, for client %s", aClientid)
         logger.info("[MQTT-3.14.4-3] on receipt of disconnect, will message is deleted")
-- 
2.43.0


From 11637ff50ced17ee60d9a18a46f11c85a48fdf1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:20 +0000
Subject: [PATCH 54/75] fix: MQTT-SN CONNECT with another protocol or without
 client identifier was not answered

---
 interoperability/mqtt/brokers/SN/MQTTSNBrokers.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/interoperability/mqtt/brokers/SN/MQTTSNBrokers.py b/interoperability/mqtt/brokers/SN/MQTTSNBrokers.py
index 26c2879..791ad8d 100644
--- a/interoperability/mqtt/brokers/SN/MQTTSNBrokers.py
+++ b/interoperability/mqtt/brokers/SN/MQTTSNBrokers.py
@@ -250,7 +250,7 @@ class MQTTSNBrokers:
 
   def connect(self, sock, packet, callback):
     if packet.ProtocolId != 1:
-      logger.error("[MQTT-3.1.2-2] Wrong protocol version %d", packet.ProtocolVersion)
+      logger.error("[MQTT-3.1.2-2] Wrong protocol version %d", packet.ProtocolId)
       resp = MQTTSN.Connacks()
       resp.ReturnCode = 1
       respond(sock, callback, resp)
@@ -263,12 +263,12 @@ class MQTTSNBrokers:
       logger.info("[MQTT-3.1.4-5] When rejecting connect, no more data must be processed")
       raise MQTTSN.MQTTSNException("[MQTT-3.1.0-2] Second connect packet")
     if len(packet.ClientId) == 0:
-      if self.zero_length_clientids == False or packet.CleanSession == False:
+      if self.zero_length_clientids == False or packet.Flags.CleanSession == False:
         if self.zero_length_clientids:
           logger.info("[MQTT-3.1.3-8] Reject 0-length clientid with cleansession false")
         logger.info("[MQTT-3.1.3-9] if clientid is rejected, must send connack 2 and close connection")
         resp = MQTTSN.Connacks()
-        resp.returnCode = 2
+        resp.ReturnCode = 2
         respond(sock, callback, resp)
         logger.info("[MQTT-3.2.2-5] must close connection after non-zero connack")
         self.disconnect(sock, None)
-- 
2.43.0


From 0eee1184f8236df06fa3453464a499a6f6fc58a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:36 +0000
Subject: [PATCH 55/75] fix: MQTT-SN publications which were retained or had
 MQTT subscribers failed

---
 interoperability/mqtt/brokers/SN/Brokers.py | 23 ++++++++-------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/interoperability/mqtt/brokers/SN/Brokers.py b/interoperability/mqtt/brokers/SN/Brokers.py
index 27c976e..7548af8 100644
--- a/interoperability/mqtt/brokers/SN/Brokers.py
+++ b/interoperability/mqtt/brokers/SN/Brokers.py
@@ -98,35 +98,30 @@ class Brokers:
     """publish to all subscribed connected clients
        also to any disconnected non-cleansession clients with qos in [1,2]
     """
+    receivedTime = time.monotonic()
     if retained:
       logger.info("[MQTT-2.1.2-6] store retained message and QoS")
-      self.se.setRetained(topic, message, qos)
+      self.se.setRetained(topic, message, qos, receivedTime)
     else:
       logger.info("[MQTT-2.1.2-12] non-retained message - do not store")
 
     for subscriber in self.se.subscribers(topic):  # all subscribed clients
+      if subscriber not in self.__clients.keys():
+        continue # MQTT subscriptions follow
       # qos is lower of publication and subscription
       if len(self.se.getSubscriptions(topic, subscriber)) > 1:
         logger.info("[MQTT-3.3.5-1] overlapping subscriptions")
       if retained:
         logger.info("[MQTT-2.1.2-10] outgoing publish does not have retained flag set")
-      if self.overlapping_single:   
+      if self.overlapping_single:
         out_qos = min(self.se.qosOf(subscriber, topic), qos)
-        if subscriber in self.__clients.keys(): 
-          self.__clients[subscriber].publishArrived(topic, message, out_qos)
-        elif self.__broker3.getClient(subscriber):
-          self.__broker3.getClient(subscriber).publishArrived(topic, message, out_qos)
-        elif self.__broker5.getClient(subscriber):
-          self.__broker5.getClient(subscriber).publishArrived(topic, message, out_qos, None, None)
+        self.__clients[subscriber].publishArrived(topic, message, out_qos)
       else:
         for subscription in self.se.getSubscriptions(topic, subscriber):
           out_qos = min(subscription.getQoS(), qos)
-          if subscriber in self.__clients.keys():         
-            self.__clients[subscriber].publishArrived(topic, message, out_qos)
-          elif self.__broker3.getClient(subscriber):
-            self.__broker3.getClient(subscriber).publishArrived(topic, message, out_qos)
-          elif self.__broker5.getClient(subscriber):
-            self.__broker5.getClient(subscriber).publishArrived(topic, message, out_qos, None, None)
+          self.__clients[subscriber].publishArrived(topic, message, out_qos)
+    if self.__broker3: # it passes on to MQTT V5 subscribers as well
+      self.__broker3.publish(aClientid, topic, message, qos, retained, receivedTime)
 
   def __doRetained__(self, aClientid, topic, qos):
     # topic can be single, or a list
-- 
2.43.0


From 802ac7050ecf88d636bdd3f5894386c12fd7df96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:36 +0000
Subject: [PATCH 56/75] fix: MQTT-SN publications with wildcards or null in the
 topic name were passed on to MQTT clients

---
 interoperability/mqtt/brokers/SN/MQTTSNBrokers.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/interoperability/mqtt/brokers/SN/MQTTSNBrokers.py b/interoperability/mqtt/brokers/SN/MQTTSNBrokers.py
index 791ad8d..7c675eb 100644
--- a/interoperability/mqtt/brokers/SN/MQTTSNBrokers.py
+++ b/interoperability/mqtt/brokers/SN/MQTTSNBrokers.py
@@ -357,17 +357,23 @@ class MQTTSNBrokers:
     resp.messageIdentifier = packet.messageIdentifier
     respond(sock, resp)
 
+  def shortTopic(self, packet):
+    topic = MQTTSN.writeInt16(packet.TopicId).decode()
+    for c in "+#\0":
+      if c in topic:
+        raise MQTTSN.MQTTSNException("[MQTT-3.3.2-2][MQTT-4.7.1-1][MQTT-1.5.3-2] wildcards and null not allowed in topic name")
+    logger.debug("topic %s", topic)
+    return topic
+
   def publish(self, sock, packet, callback):
     if packet.Flags.QoS == -1:
       if packet.Flags.TopicIdType == 2:
-        topic = MQTTSN.writeInt16(packet.TopicId).decode()
-        logger.debug("topic %s", topic)
+        topic = self.shortTopic(packet)
       self.broker.publish("QoS -1", # no clientid for QoS -1
              topic, packet.Data, 0, packet.Flags.RETAIN)
     elif packet.Flags.QoS == 0:
       if packet.Flags.TopicIdType == 2:
-        topic = MQTTSN.writeInt16(packet.TopicId).decode()
-        logger.debug("topic %s", topic)
+        topic = self.shortTopic(packet)
       self.broker.publish(self.clients[sock].id,
              topic, packet.Data, packet.Flags.QoS, packet.Flags.RETAIN)
     elif packet.fh.QoS == 1:
-- 
2.43.0


From 8c697543fe4504c12dd567c487dfe98c5fd451bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:48 +0000
Subject: [PATCH 57/75] fix: the restart proxy lost the rest of a packet when a
 socket had taken a part of it

---
 interoperability/mqtt/restart/netproxy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/interoperability/mqtt/restart/netproxy.py b/interoperability/mqtt/restart/netproxy.py
index a823017..6d1fb26 100755
--- a/interoperability/mqtt/restart/netproxy.py
+++ b/interoperability/mqtt/restart/netproxy.py
@@ -122,7 +122,7 @@ class MQTTHandler(socketserver.StreamRequestHandler):
               #logger.debug(inbuf)
             except:
               traceback.print_exc()
-            brokers.send(inbuf)       # pass it on
+            brokers.sendall(inbuf)       # pass it on
           elif s == brokers:
             inbuf = MQTTV3.getPacket(brokers) # get one packet
             if inbuf == None:
@@ -131,7 +131,7 @@ class MQTTHandler(socketserver.StreamRequestHandler):
               logger.debug("S to C "+self.ids[id(clients)]+" "+repr(MQTTV3.unpackPacket(inbuf)))
             except:
               traceback.print_exc()
-            clients.send(inbuf)
+            clients.sendall(inbuf)
       if id(clients) in self.ids.keys():
         logger.info("client "+self.ids[id(clients)]+" connection closing")
     except:
-- 
2.43.0


From f6ed337518be84efb64fd4d897a1ff662f1c6ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:48 +0000
Subject: [PATCH 58/75] fix: connections through the restart proxy were mixed
 up, and those to the server not closed

---
 interoperability/mqtt/restart/netproxy.py | 45 +++++++++++++----------
 1 file changed, 25 insertions(+), 20 deletions(-)

diff --git a/interoperability/mqtt/restart/netproxy.py b/interoperability/mqtt/restart/netproxy.py
index 6d1fb26..50edcfc 100755
--- a/interoperability/mqtt/restart/netproxy.py
+++ b/interoperability/mqtt/restart/netproxy.py
@@ -101,46 +101,51 @@ class MQTTHandler(socketserver.StreamRequestHandler):
       self.versions = {}
     inbuf = True
     i = o = e = None
+    client = self.request
+    broker = None
     try:
-      clients = self.request
-      brokers = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
-      brokers.connect((brokerhost, brokerport))
+      broker = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
+      brokers, clients = broker, client # for the control connection
+      broker.connect((brokerhost, brokerport))
       while inbuf != None:
-        (i, o, e) = select.select([clients, brokers], [], [])
+        (i, o, e) = select.select([client, broker], [], [])
         for s in i:
-          if s == clients:
-            inbuf = MQTTV3.getPacket(clients) # get one packet
+          if s == client:
+            inbuf = MQTTV3.getPacket(client) # get one packet
             if inbuf == None:
               break
             try:
               packet = MQTTV3.unpackPacket(inbuf)
               if packet.fh.MessageType == MQTTV3.CONNECT:
-                self.ids[id(clients)] = packet.ClientIdentifier
-                self.versions[id(clients)] = 3
-              logger.debug("C to S "+self.ids[id(clients)]+" "+repr(packet))
+                self.ids[id(client)] = packet.ClientIdentifier
+                self.versions[id(client)] = 3
+              logger.debug("C to S "+self.ids[id(client)]+" "+repr(packet))
               #logger.debug([hex(b) for b in inbuf])
               #logger.debug(inbuf)
             except:
               traceback.print_exc()
-            brokers.sendall(inbuf)       # pass it on
-          elif s == brokers:
-            inbuf = MQTTV3.getPacket(brokers) # get one packet
+            broker.sendall(inbuf)       # pass it on
+          elif s == broker:
+            inbuf = MQTTV3.getPacket(broker) # get one packet
             if inbuf == None:
               break
             try:
-              logger.debug("S to C "+self.ids[id(clients)]+" "+repr(MQTTV3.unpackPacket(inbuf)))
+              logger.debug("S to C "+self.ids[id(client)]+" "+repr(MQTTV3.unpackPacket(inbuf)))
             except:
               traceback.print_exc()
-            clients.sendall(inbuf)
-      if id(clients) in self.ids.keys():
-        logger.info("client "+self.ids[id(clients)]+" connection closing")
+            client.sendall(inbuf)
+      if id(client) in self.ids.keys():
+        logger.info("client "+self.ids[id(client)]+" connection closing")
     except:
       #logger.debug(repr((i, o, e)) + " " + repr(inbuf))
       traceback.print_exc()
-    if id(clients) in self.ids.keys():
-      del self.ids[id(clients)]
-    elif id(clients) in self.versions.keys():
-      del self.versions[id(clients)]
+    finally:
+      if broker:
+        broker.close()
+    if id(client) in self.ids.keys():
+      del self.ids[id(client)]
+    elif id(client) in self.versions.keys():
+      del self.versions[id(client)]
 
 class ThreadingTCPServer(socketserver.ThreadingMixIn, socketserver.TCPServer):
   pass
-- 
2.43.0


From 591ddc359fc42cac98fd87b95d4456606f910216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:06 +0000
Subject: [PATCH 59/75] fix: MQTT 5 clients, and the options of their
 subscriptions, were missing from the HTTP API

---
 .../mqtt/brokers/listeners/HTTPListeners.py   | 24 +++++++++++++------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/interoperability/mqtt/brokers/listeners/HTTPListeners.py b/interoperability/mqtt/brokers/listeners/HTTPListeners.py
index 7c3da8c..ba5b7ab 100644
--- a/interoperability/mqtt/brokers/listeners/HTTPListeners.py
+++ b/interoperability/mqtt/brokers/listeners/HTTPListeners.py
@@ -26,6 +26,13 @@ from mqtt.brokers.V5 import MQTTBrokers as MQTTV5Brokers
 
 logger = logging.getLogger('MQTT broker')
 
+def convert(value):
+  if hasattr(value, "json"):
+    value = value.json()
+  elif type(value) in [list, tuple]:
+    value = [convert(v) for v in value]
+  return value
+
 def jsonize(obj):
   name = None
   if "__class__" in dir(obj):
@@ -35,6 +42,7 @@ def jsonize(obj):
     if not attrname.startswith("__"):
       value = getattr(obj, attrname)
       try:
+        value = convert(value)
         json.dumps(value)
         if attrname.startswith("_"+name+"__"):
           attrname = attrname[len(name)+3:] # remove class name for private attributes
@@ -45,17 +53,19 @@ def jsonize(obj):
 
 def get_client(clientid, *args):
   rc = 404; value = None
-  client = broker3.broker.getClient(clientid)
-  if client:
-    value = json.dumps(jsonize(client))
-    rc = 200
+  for broker in [broker3, broker5]:
+    client = broker.broker.getClient(clientid)
+    if client:
+      value = json.dumps(jsonize(client))
+      rc = 200
+      break
   return rc, value
 
 def get_clients(*args):
-  clientids = broker3.broker.getClients()
   clients = {}
-  for clientid in clientids:
-    clients[clientid] = jsonize(broker3.broker.getClient(clientid))
+  for broker in [broker3, broker5]:
+    for clientid in broker.broker.getClients():
+      clients[clientid] = jsonize(broker.broker.getClient(clientid))
   return 200, json.dumps(clients)
 
 def get_subscriptions(*args):
-- 
2.43.0


From b7adbaf8165aa30ed764d58d9ff29ddb0d2fe331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:06 +0000
Subject: [PATCH 60/75] fix: the HTTP API did not answer for retained messages
 from MQTT 5 or which are not text, and left out $ topics

---
 .../mqtt/brokers/listeners/HTTPListeners.py        | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/interoperability/mqtt/brokers/listeners/HTTPListeners.py b/interoperability/mqtt/brokers/listeners/HTTPListeners.py
index ba5b7ab..08a86d7 100644
--- a/interoperability/mqtt/brokers/listeners/HTTPListeners.py
+++ b/interoperability/mqtt/brokers/listeners/HTTPListeners.py
@@ -69,14 +69,18 @@ def get_clients(*args):
   return 200, json.dumps(clients)
 
 def get_subscriptions(*args):
-  return 200, json.dumps([jsonize(s) for s in sharedData["subscriptions"]])
+  subscriptions = sharedData["subscriptions"] + sharedData["dollar_subscriptions"]
+  return 200, json.dumps([jsonize(s) for s in subscriptions])
 
 def get_retained_messages(*args):
   out = {}
-  for topic in sharedData["retained"].keys():
-    value = list(sharedData["retained"][topic])
-    value[0] = value[0].decode()
-    out[topic] = value
+  for retained in [sharedData["retained"], sharedData["dollar_retained"]]:
+    for topic in retained.keys():
+      value = list(retained[topic])
+      value[0] = value[0].decode(errors="backslashreplace") # not all payloads are text
+      if len(value) > 3 and value[3] != None:
+        value[3] = value[3].json() # MQTT 5 properties
+      out[topic] = value
   return 200, json.dumps(out)
 
 class APIs:
-- 
2.43.0


From bd43fe24a0be5fe3ef6b1988625a46d26b0aba9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:21 +0000
Subject: [PATCH 61/75] fix: the HTTP API did not answer requests other than
 GET (no cgi module, wrong name)

---
 .../mqtt/brokers/listeners/HTTPListeners.py   | 65 ++++---------------
 1 file changed, 14 insertions(+), 51 deletions(-)

diff --git a/interoperability/mqtt/brokers/listeners/HTTPListeners.py b/interoperability/mqtt/brokers/listeners/HTTPListeners.py
index 08a86d7..59eb2f9 100644
--- a/interoperability/mqtt/brokers/listeners/HTTPListeners.py
+++ b/interoperability/mqtt/brokers/listeners/HTTPListeners.py
@@ -171,7 +171,7 @@ class requestHandler(http.server.BaseHTTPRequestHandler):
 
   def do_DELETE(self):
     logger.debug("do_DELETE")
-    rc = http.delete(urllib.request.unquote(self.path))
+    rc = api.delete(urllib.request.unquote(self.path))
     value = None
     if type(rc) == type((0,)):
       rc, value = rc
@@ -183,57 +183,25 @@ class requestHandler(http.server.BaseHTTPRequestHandler):
 
   def do_PATCH(self):
     logger.debug("do_PATCH")
-    self.headers["Content-Disposition"] = 'inline; filename=""'
-    form = cgi.FieldStorage(fp=self.rfile,
-                            headers=self.headers,
-                            environ={"REQUEST_METHOD": 'PATCH',
-                                      "CONTENT_TYPE": self.headers['Content-Type'], })
-    if self.headers["Content-Type"] == "application/json":
-      if type(form.value) == type(b""):
-        form.value = form.value.decode()
-      body = json.loads(form.value)
-    rc = http.patch(urllib.request.unquote(self.path), body)
-    value = None
-    if type(rc) == type((0,)):
-      rc, value = rc
-    self.send_response(rc)
-    self.send_header("Content-type", "application/json")
-    self.end_headers()
-    if value:
-      self.wfile.write(bytes(value + "\n", 'utf8'))
-    if persistence:
-      deviceAndThingDB._p_changed = True
-      transaction.commit()
+    self.do_body("patch")
 
   def do_POST(self):
     logger.debug("do_POST")
-    self.do_postput("post")
+    self.do_body("post")
 
   def do_PUT(self):
     logger.debug("do_PUT")
-    self.do_postput("put")
-
-  def do_postput(self, op):
-    # next line is workaround for bug: https://bugs.python.org/issue27308
-    self.headers["Content-Disposition"] = 'inline; filename=""'
-    form = cgi.FieldStorage(fp=self.rfile,
-                            headers=self.headers,
-                            environ={"REQUEST_METHOD": op.upper(),
-                                      "CONTENT_TYPE": self.headers['Content-Type'], })
-    body = {"Content-Type": self.headers['Content-Type']}
-    if self.headers["Content-Type"] == "application/json":
-      if type(form.value) == type(b""):
-        form.value = form.value.decode()
-      body = json.loads(form.value)
-    elif type(form.value) == type([]):
-      for key in form.keys():
-        if key == "schemaFile":
-          # a bit ugly, but everyone has to do it
-          # retrieve filename from the Content-Disposition header of the "file" part
-          body["schemaFileName"] = form[key].disposition_options["filename"]
-          body["Content-Type"] = form[key].type
-        body[key] = form[key].value
-    rc = getattr(http, op)(self.path, body)
+    self.do_body("put")
+
+  def do_body(self, op):
+    try:
+      body = self.rfile.read(int(self.headers["Content-Length"] or 0))
+      if self.headers["Content-Type"] == "application/json":
+        body = json.loads(body)
+    except ValueError:
+      rc = 400
+    else:
+      rc = getattr(api, op)(urllib.request.unquote(self.path), body)
     value = None
     if type(rc) == type((0,)):
       rc, value = rc
@@ -242,11 +210,6 @@ class requestHandler(http.server.BaseHTTPRequestHandler):
     self.end_headers()
     if value:
       self.wfile.write(bytes(value + "\n", 'utf8'))
-    """
-    if persistence:
-      deviceAndThingDB._p_changed = True
-      transaction.commit()
-    """
 
 def setBrokers(aBroker3, aBroker5, aBrokerSN):
   global broker3, broker5, brokerSN
-- 
2.43.0


From aa55b190d2054a523d854924a8e3cdd1a85b6aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:21 +0000
Subject: [PATCH 62/75] fix: an HTTP listener with TLS could not be created
 (ssl.wrap_socket is no more)

---
 .../mqtt/brokers/listeners/HTTPListeners.py            | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/interoperability/mqtt/brokers/listeners/HTTPListeners.py b/interoperability/mqtt/brokers/listeners/HTTPListeners.py
index 59eb2f9..b5be360 100644
--- a/interoperability/mqtt/brokers/listeners/HTTPListeners.py
+++ b/interoperability/mqtt/brokers/listeners/HTTPListeners.py
@@ -231,9 +231,13 @@ def create(port, host="", TLS=False, serve_forever=False,
     bind_address = host
   httpd = http.server.HTTPServer((bind_address, port), requestHandler)
   if TLS:
-    httpd.socket = ssl.wrap_socket(httpd.socket,
-      ca_certs=ca_certs, certfile=certfile, keyfile=keyfile,
-      cert_reqs=cert_reqs, server_side=True)
+    context = ssl.SSLContext(protocol=ssl.PROTOCOL_TLSv1_2)
+    if certfile:
+      context.load_cert_chain(certfile, keyfile)
+    if ca_certs:
+      context.load_verify_locations(ca_certs)
+    context.verify_mode = cert_reqs
+    httpd.socket = context.wrap_socket(httpd.socket, server_side=True)
   if serve_forever:
     httpd.serve_forever()
   else:
-- 
2.43.0


From e00c7d4ad7bdba6837a19308ae6c0c8f9596e673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:21 +0000
Subject: [PATCH 63/75] fix: HTTP listeners were not stopped with the server

---
 interoperability/mqtt/brokers/listeners/HTTPListeners.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/interoperability/mqtt/brokers/listeners/HTTPListeners.py b/interoperability/mqtt/brokers/listeners/HTTPListeners.py
index b5be360..e7b0918 100644
--- a/interoperability/mqtt/brokers/listeners/HTTPListeners.py
+++ b/interoperability/mqtt/brokers/listeners/HTTPListeners.py
@@ -244,3 +244,4 @@ def create(port, host="", TLS=False, serve_forever=False,
     thread = threading.Thread(target = httpd.serve_forever)
     thread.daemon = True
     thread.start()
+  return httpd
-- 
2.43.0


From 0b1267bb88bc92f19d16b8e4d16067356f590eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:21 +0000
Subject: [PATCH 64/75] fix: requests to the HTTP API failed when the state of
 the server changed meanwhile

---
 interoperability/mqtt/brokers/listeners/HTTPListeners.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/interoperability/mqtt/brokers/listeners/HTTPListeners.py b/interoperability/mqtt/brokers/listeners/HTTPListeners.py
index e7b0918..62ce2dd 100644
--- a/interoperability/mqtt/brokers/listeners/HTTPListeners.py
+++ b/interoperability/mqtt/brokers/listeners/HTTPListeners.py
@@ -120,7 +120,8 @@ class APIs:
             args = tuple(list(args) + [body])
           else:
             args = (body,)
-        rc = op[1](*args)
+        with lock: # the state must not change meanwhile
+          rc = op[1](*args)
         found = True
         break
     if not found:
-- 
2.43.0


From 66667ff7522736c221bb15d5882a656d75501f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:55 +0000
Subject: [PATCH 65/75] fix: websocket handshakes with a header without a space
 after the colon were refused

---
 interoperability/mqtt/brokers/listeners/TCPListeners.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/interoperability/mqtt/brokers/listeners/TCPListeners.py b/interoperability/mqtt/brokers/listeners/TCPListeners.py
index d465b52..b57aead 100644
--- a/interoperability/mqtt/brokers/listeners/TCPListeners.py
+++ b/interoperability/mqtt/brokers/listeners/TCPListeners.py
@@ -157,8 +157,8 @@ class WebSocketTCPHandler(socketserver.StreamRequestHandler):
     lines = data.splitlines()
     for curline in lines[1:]:
       if curline.find(":") != -1:
-        key, value = curline.split(": ", 1)
-        headers[key.upper()] = value     # headers are case insensitive
+        key, value = curline.split(":", 1) # there need not be a space
+        headers[key.upper()] = value.strip()     # headers are case insensitive
     return headers
 
   def handshake(self, client):
-- 
2.43.0


From 19514abfad1405d5e03a4acbcad7a21d4a046753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:55 +0000
Subject: [PATCH 66/75] fix: websocket text frames and frames with reserved
 opcodes were taken as MQTT data

---
 interoperability/mqtt/brokers/listeners/TCPListeners.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/interoperability/mqtt/brokers/listeners/TCPListeners.py b/interoperability/mqtt/brokers/listeners/TCPListeners.py
index b57aead..5c3c5eb 100644
--- a/interoperability/mqtt/brokers/listeners/TCPListeners.py
+++ b/interoperability/mqtt/brokers/listeners/TCPListeners.py
@@ -71,6 +71,7 @@ class BufferedSockets:
     header2 = ord(self.receiveall(1))
 
     opcode = (header1 & 0x0f)
+    assert opcode in [0, 2, 8, 9, 10], "[MQTT-6.0.0-1] binary data frames only"
     maskbit = (header2 & 0x80) == 0x80
     length = (header2 & 0x7f) # works for 0 to 125 inclusive
     if length == 126: # for 126 to 65535 inclusive
-- 
2.43.0


From 30c8306eea2118f055b220680cf248dfb8816d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:01 +0000
Subject: [PATCH 67/75] fix: mbt: a model whose pools are empty can be explored

coverage() divided by the number of values, which is zero as long as there
are only results of actions to come.
---
 interoperability/mbt/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interoperability/mbt/main.py b/interoperability/mbt/main.py
index af2f505..1ff1ea3 100644
--- a/interoperability/mbt/main.py
+++ b/interoperability/mbt/main.py
@@ -303,7 +303,7 @@ class Executions:
 					used += 1
 				else:
 					unused.append((choice, c))
-		return int((used / total) * 100)
+		return int((used / total) * 100) if total > 0 else 0
 
 	def getEnabledActions(self):
 		enableds = set()
-- 
2.43.0


From 5c1397844ebeee45f4a8fecc64f44a5ec015b37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:01 +0000
Subject: [PATCH 68/75] fix: mbt: actions without parameters are taken

enumerateChoices gave no combination for an action without parameters,
instead of the empty one, so that it was enabled but never called.
---
 interoperability/mbt/main.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/interoperability/mbt/main.py b/interoperability/mbt/main.py
index 1ff1ea3..b96e30e 100644
--- a/interoperability/mbt/main.py
+++ b/interoperability/mbt/main.py
@@ -197,13 +197,10 @@ class Actions:
 		return rc
 
 	def enumerateChoices(self, choices):
-		args = []
+		args = [[]]
 		for parm_name in self.getParmNames():
 			parm_type = self.getParmType(parm_name)
-			if args == []:
-				args = [[(parm_type, i)] for i in range(len(choices[parm_type]))]
-			else:
-				args = combine(args, [(parm_type, i) for i in range(len(choices[parm_type]))])
+			args = combine(args, [(parm_type, i) for i in range(len(choices[parm_type]))])
 		return args
 
 class Models:
-- 
2.43.0


From 0a338ea07d4eb75b870765c61f02ab44f0a5d88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:01 +0000
Subject: [PATCH 69/75] fix: mbt: exploration goes on after the end of a path,
 and ends

When no option was left after some action, the execution stayed there for
ever: the other paths were not explored, and run() did not return. Now the
next path begins, and the execution is finished when all have been taken.
---
 interoperability/mbt/main.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/interoperability/mbt/main.py b/interoperability/mbt/main.py
index b96e30e..a7d631b 100644
--- a/interoperability/mbt/main.py
+++ b/interoperability/mbt/main.py
@@ -378,6 +378,10 @@ class Executions:
 		next = self.trace.findNextPath(self.model.selectCallback)
 		if next == None:
 			logger.debug("No more options available")
+			if self.trace.curnode == self.trace.root:
+				self.finished = True # all paths have been taken
+			else:
+				self.restart()
 			return True
 		action = next[0]; args = list(next[1:])
 
-- 
2.43.0


From b7d2b4d265864458a16a403baec8c02831508561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:01 +0000
Subject: [PATCH 70/75] fix: mbt: an observation which arrives during the last
 wait counts

It was taken for missing, as only the number of waits was looked at. Without
a callback for matching, waiting raised AttributeError.
---
 interoperability/mbt/main.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/interoperability/mbt/main.py b/interoperability/mbt/main.py
index a7d631b..67e79b6 100644
--- a/interoperability/mbt/main.py
+++ b/interoperability/mbt/main.py
@@ -550,10 +550,12 @@ class Tests:
 		else:
 			observation1 = observation
 			while observation not in [x for x, y in self.added_results] and count < max_wait_count:
-				self.logger.debug("Waiting for observation '%s' in %s", observation, [x for x, y in self.added_results.keys()])
+				self.logger.debug("Waiting for observation '%s' in %s", observation, [x for x, y in self.added_results])
 				time.sleep(wait_interval)
 				count += 1
-		if count == max_wait_count:
+			if observation not in [x for x, y in self.added_results]:
+				observation1 = None
+		if observation1 == None:
 			self.logger.warn("### line %d, observation not found %s", self.lineno, observation)
 			self.failures += 1
 		else:
-- 
2.43.0


From c0a85e1f828be88f187adccdf288e5606f7d8d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:01 +0000
Subject: [PATCH 71/75] fix: mbt: a result which the test does not expect is a
 failure

The log of a test has no RESULT line for an action which returned nothing.
If such an action returned something, or raised an exception, when the test
was run, the test was successful all the same.
---
 interoperability/mbt/main.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/interoperability/mbt/main.py b/interoperability/mbt/main.py
index 67e79b6..1f2a296 100644
--- a/interoperability/mbt/main.py
+++ b/interoperability/mbt/main.py
@@ -506,10 +506,19 @@ class Tests:
 			rc = "exception "+traceback.format_exc()
 		self.last_action = action
 		self.last_rc = rc
+		self.unchecked = rc != None
+
+	def checkNoResult(self):
+		# the last action must not have had a result, if there was none in the test
+		if self.unchecked:
+			self.logger.warn("### unexpected result %s for action %s", self.last_rc, self.last_action)
+			self.failures += 1
+		self.unchecked = False
 
 	def handleResult(self, curline, words):
 		action = self.last_action
 		rc = self.last_rc
+		self.unchecked = False
 		if action.getReturnType() in self.checks.keys():
 			check_result = self.checks[action.getReturnType()](rc, words[3].split(" ", 1)[1])
 		elif type(rc) == type('') and rc.startswith("exception") and "exception" in self.checks.keys():
@@ -579,6 +588,7 @@ class Tests:
 		self.actions = {}
 		self.results = {}
 		self.stepping = stepping
+		self.unchecked = False
 		self.lineno = 0
 		for action in self.model.actions:
 			self.actions[action.getName()] = action
@@ -593,6 +603,8 @@ class Tests:
 			#words = words.split(" ", 3)
 			words = curline.split(" ", 3)
 			self.logger.debug("%d %s", self.lineno, curline)
+			if words[0] in ("CALL", "RESTART"):
+				self.checkNoResult()
 			if words[0] == "CALL":
 				self.handleCall(words)
 			elif words[0] == "RESULT":
@@ -602,6 +614,7 @@ class Tests:
 			elif words[0] == "RESTART":
 				self.handleRestart()
 			curline = logfile.readline()
+		self.checkNoResult()
 		logfile.close()
 		if self.failures == 0:
 			self.logger.info("Test %s successful. Tests passed %d", self.logfilename, self.passes)
-- 
2.43.0


From f7efc9ce9240b7e54c92749643f1bd22c080f1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:16 +0000
Subject: [PATCH 72/75] fix: with overlapping_single off, MQTT 3.1.1
 subscribers get one copy per subscription from MQTT 5 publishers too

---
 interoperability/mqtt/brokers/V5/Brokers.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/interoperability/mqtt/brokers/V5/Brokers.py b/interoperability/mqtt/brokers/V5/Brokers.py
index ef6000e..cdafb87 100644
--- a/interoperability/mqtt/brokers/V5/Brokers.py
+++ b/interoperability/mqtt/brokers/V5/Brokers.py
@@ -225,8 +225,13 @@ class Brokers:
             publishAction([subscription])
       elif not own:
         # MQTT V3 subscription
-        out_qos = min(self.__broker3.se.qosOf(subscriber, topic), qos)
-        self.__broker3.getClient(subscriber).publishArrived(topic, message, out_qos)
+        if self.overlapping_single:
+          out_qos = min(self.__broker3.se.qosOf(subscriber, topic), qos)
+          self.__broker3.getClient(subscriber).publishArrived(topic, message, out_qos)
+        else:
+          for subscription in matching:
+            out_qos = min(subscription.getQoS(), qos)
+            self.__broker3.getClient(subscriber).publishArrived(topic, message, out_qos)
     subscribed_clients = [subscriber for (subscriber, matching) in subscriptions]
     return subscribed_clients if len(subscribed_clients) > 0 else None
 
-- 
2.43.0


From 5205894b81e3ef40a5c4a26a07289d7a346b65f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:12 +0000
Subject: [PATCH 73/75] fix: the optional behaviours on the command line ended
 the server

---
 interoperability/mqtt/brokers/start.py | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/interoperability/mqtt/brokers/start.py b/interoperability/mqtt/brokers/start.py
index 20d7ef4..0c5d74b 100644
--- a/interoperability/mqtt/brokers/start.py
+++ b/interoperability/mqtt/brokers/start.py
@@ -141,7 +141,7 @@ def process_config(config, options, default_port=1883):
     servers_to_create[-1][1]["serve_forever"] = True
     return servers_to_create, options
 
-def run(config=None, port=1883):
+def run(config=None, port=1883, optional_behaviours={}):
   global logger, broker3, broker5, brokerSN, server
   logger = logging.getLogger('MQTT broker')
   logger.setLevel(logging.INFO)
@@ -170,6 +170,8 @@ def run(config=None, port=1883):
     "shared_subscription_available":True,
   }
 
+  options.update(optional_behaviours)
+
   if config != None:
     servers_to_create, options = process_config(config, options, port)
 
@@ -257,6 +259,9 @@ def read_config(filename):
   infile.close()
   return lines
 
+def is_on(value):
+  return value.lower() not in ["off", "false", "0"]
+
 def main(argv):
   try:
     opts, args = getopt.gnu_getopt(argv[1:], "hp:o:d:z:c:", ["help", "publish_on_pubrel=", "overlapping_single=",
@@ -265,8 +270,7 @@ def main(argv):
     print(err) # will print something like "option -a not recognized"
     usage()
     sys.exit(2)
-  overlapping_single = dropQoS0 = zero_length_clientids = True
-  publish_on_pubrel = False
+  optional_behaviours = {}
   port = 1883
   cfg = None
   for o, a in opts:
@@ -277,10 +281,18 @@ def main(argv):
       port = int(a)
     elif o in ("-c", "--config-file"):
       cfg = read_config(a)
+    elif o in ("-o", "--overlapping_single"):
+      optional_behaviours["overlapping_single"] = is_on(a)
+    elif o in ("-d", "--dropQoS0"):
+      optional_behaviours["dropQoS0"] = is_on(a)
+    elif o in ("-z", "--zero_length_clientids"):
+      optional_behaviours["zero_length_clientids"] = is_on(a)
+    elif o == "--publish_on_pubrel":
+      optional_behaviours["publish_on_pubrel"] = is_on(a)
     else:
       assert False, "unhandled option"
 
-  run(config=cfg, port=port)
+  run(config=cfg, port=port, optional_behaviours=optional_behaviours)
 
 def usage():
   print(
@@ -291,6 +303,12 @@ Eclipse Paho combined MQTT V311 and MQTT V5 broker
  -c --confile-file: the name of a configuration file
  --port= port number to listen to
 
+ optional behaviours, each true or false:
+ -o --overlapping_single= one message for all matching subscriptions of a client, instead of one for each
+ -d --dropQoS0= do not keep QoS 0 messages for disconnected clients
+ -z --zero_length_clientids= allow MQTT V311 clients without a client identifier
+ --publish_on_pubrel= QoS 2 messages are passed on when PUBREL is received, instead of PUBLISH
+
 """)
 
 if __name__ == "__main__":
-- 
2.43.0


From cf683ab29a8d8fcde246073c0178507feb06068d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:29 +0000
Subject: [PATCH 74/75] fix: the clients stopped receiving before the exchanges
 in flight were complete when disconnecting

---
 interoperability/mqtt/clients/V311/main.py | 2 +-
 interoperability/mqtt/clients/V5/main.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/interoperability/mqtt/clients/V311/main.py b/interoperability/mqtt/clients/V311/main.py
index c320474..12d1efb 100755
--- a/interoperability/mqtt/clients/V311/main.py
+++ b/interoperability/mqtt/clients/V311/main.py
@@ -179,7 +179,6 @@ class Client:
 
   def disconnect(self):
     if self.__receiver:
-      self.__receiver.stopping = True
       count = 0
       while (len(self.__receiver.inMsgs) > 0 or len(self.__receiver.outMsgs) > 0) and self.__receiver.paused == False:
         logger.debug("disconnecting %s %s", self.__receiver.inMsgs, self.__receiver.outMsgs)
@@ -187,6 +186,7 @@ class Client:
         count += 1
         if count == 20:
           break
+      self.__receiver.stopping = True
       if self.__receiver and self.__receiver.paused == False:
         assert self.__receiver.inMsgs == {}, self.__receiver.inMsgs
         assert self.__receiver.outMsgs == {}, self.__receiver.outMsgs
diff --git a/interoperability/mqtt/clients/V5/main.py b/interoperability/mqtt/clients/V5/main.py
index aeb3dd8..a0aa3f4 100755
--- a/interoperability/mqtt/clients/V5/main.py
+++ b/interoperability/mqtt/clients/V5/main.py
@@ -200,7 +200,6 @@ class Client:
 
   def disconnect(self, properties=None):
     if self.__receiver:
-      self.__receiver.stopping = True
       count = 0
       while (len(self.__receiver.inMsgs) > 0 or len(self.__receiver.outMsgs) > 0) and self.__receiver.paused == False:
         logger.debug("disconnecting %s %s", self.__receiver.inMsgs, self.__receiver.outMsgs)
@@ -208,6 +207,7 @@ class Client:
         count += 1
         if count == 20:
           break
+      self.__receiver.stopping = True
       if self.__receiver and self.__receiver.paused == False:
         assert self.__receiver.inMsgs == {}, self.__receiver.inMsgs
         assert self.__receiver.outMsgs == {}, self.__receiver.outMsgs
-- 
2.43.0


From 90663646b438c574783e221083386bca1ed95632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:42 +0000
Subject: [PATCH 75/75] fix: the clients' default callback could not be called

---
 interoperability/mqtt/clients/V311/main.py | 2 +-
 interoperability/mqtt/clients/V5/main.py   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/interoperability/mqtt/clients/V311/main.py b/interoperability/mqtt/clients/V311/main.py
index 12d1efb..ef24c88 100755
--- a/interoperability/mqtt/clients/V311/main.py
+++ b/interoperability/mqtt/clients/V311/main.py
@@ -53,7 +53,7 @@ class Callback:
   def published(self, msgid):
     logger.debug("default published %d", msgid)
 
-  def subscribed(self, msgid):
+  def subscribed(self, msgid, data):
     logger.debug("default subscribed %d", msgid)
 
   def unsubscribed(self, msgid):
diff --git a/interoperability/mqtt/clients/V5/main.py b/interoperability/mqtt/clients/V5/main.py
index a0aa3f4..925745a 100755
--- a/interoperability/mqtt/clients/V5/main.py
+++ b/interoperability/mqtt/clients/V5/main.py
@@ -50,14 +50,14 @@ class Callback:
   def connectionLost(self, cause):
     logger.debug("default connectionLost %s", str(cause))
 
-  def publishArrived(self, topicName, payload, qos, retained, msgid):
+  def publishArrived(self, topicName, payload, qos, retained, msgid, properties=None):
     logger.debug("default publishArrived %s %s %d %d %d", topicName, payload, qos, retained, msgid)
     return True
 
   def published(self, msgid):
     logger.debug("default published %d", msgid)
 
-  def subscribed(self, msgid):
+  def subscribed(self, msgid, data):
     logger.debug("default subscribed %d", msgid)
 
   def unsubscribed(self, msgid):
-- 
2.43.0

