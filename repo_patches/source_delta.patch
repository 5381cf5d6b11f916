From e9f39376c1554f36c4a4d52c885d664fb324a93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:52 +0000
Subject: [PATCH 01/83] fix: length prefix of a UTF-8 string counts bytes, not
 characters

---
 interoperability/mqtt/formats/MQTTV311/MQTTV311.py | 3 ++-
 interoperability/mqtt/formats/MQTTV5/MQTTV5.py     | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/interoperability/mqtt/formats/MQTTV311/MQTTV311.py b/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
index 57a518d..75fef50 100644
--- a/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
+++ b/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
@@ -170,7 +170,8 @@ def readInt16(buf):
 
 def writeUTF(data):
   # data could be a string, or bytes.  If string, encode into bytes with utf-8
-  return writeInt16(len(data)) + (data if type(data) == type(b"") else bytes(data, "utf-8"))
+  data = data if type(data) == type(b"") else bytes(data, "utf-8")
+  return writeInt16(len(data)) + data
 
 def readUTF(buffer, maxlen):
   if maxlen >= 2:
diff --git a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
index 6bc45aa..9eeb9b8 100644
--- a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
+++ b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
@@ -382,7 +382,8 @@ def readInt32(buf):
 
 def writeUTF(data):
   # data could be a string, or bytes.  If string, encode into bytes with utf-8
-  return writeInt16(len(data)) + (data if type(data) == type(b"") else bytes(data, "utf-8"))
+  data = data if type(data) == type(b"") else bytes(data, "utf-8")
+  return writeInt16(len(data)) + data
 
 def readUTF(buffer, maxlen):
   if maxlen >= 2:
-- 
2.43.0


From b146ea7a531d57a241b542abfaf186cb75bdbb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:52 +0000
Subject: [PATCH 02/83] fix: 3.1.1 unpack advances past a string by its length
 in bytes

---
 .../mqtt/formats/MQTTV311/MQTTV311.py          | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/interoperability/mqtt/formats/MQTTV311/MQTTV311.py b/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
index 75fef50..55d17f7 100644
--- a/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
+++ b/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
@@ -194,6 +194,10 @@ def readUTF(buffer, maxlen):
     logger.info("[MQTT-1.5.3-3] U+FEFF in UTF string")
   return buf
 
+def lenUTF(data):
+  "number of bytes that the string takes up in a packet, including its length"
+  return len(bytes(data, "utf-8")) + 2
+
 def writeBytes(buffer):
   return writeInt16(len(buffer)) + buffer
 
@@ -272,7 +276,7 @@ class Connects(Packets):
       assert self.fh.RETAIN == False, "[MQTT-2.1.2-1]"
 
       self.ProtocolName = readUTF(buffer[curlen:], packlen - curlen)
-      curlen += len(self.ProtocolName) + 2
+      curlen += lenUTF(self.ProtocolName)
       assert self.ProtocolName == "MQTT", "Wrong protocol name %s" % self.ProtocolName
 
       self.ProtocolVersion = buffer[curlen]
@@ -299,11 +303,11 @@ class Connects(Packets):
       logger.info("[MQTT-3.1.3-3] Clientid must be present, and first field")
       logger.info("[MQTT-3.1.3-4] Clientid must be Unicode, and between 0 and 65535 bytes long")
       self.ClientIdentifier = readUTF(buffer[curlen:], packlen - curlen)
-      curlen += len(self.ClientIdentifier) + 2
+      curlen += lenUTF(self.ClientIdentifier)
 
       if self.WillFlag:
         self.WillTopic = readUTF(buffer[curlen:], packlen - curlen)
-        curlen += len(self.WillTopic) + 2
+        curlen += lenUTF(self.WillTopic)
         self.WillMessage = readBytes(buffer[curlen:])
         curlen += len(self.WillMessage) + 2
         logger.info("[MQTT-3.1.2-9] will topic and will message fields must be present")
@@ -313,7 +317,7 @@ class Connects(Packets):
       if self.usernameFlag:
         assert len(buffer) > curlen+2, "Buffer too short to read username length"
         self.username = readUTF(buffer[curlen:], packlen - curlen)
-        curlen += len(self.username) + 2
+        curlen += lenUTF(self.username)
         logger.info("[MQTT-3.1.2-19] username must be in payload if user name flag is 1")
       else:
         logger.info("[MQTT-3.1.2-18] username must not be in payload if user name flag is 0")
@@ -468,7 +472,7 @@ class Publishes(Packets):
     except UnicodeDecodeError:
       logger.info("[MQTT-3.3.2-1] topic name in publish must be utf-8")
       raise
-    curlen += len(self.topicName) + 2
+    curlen += lenUTF(self.topicName)
     if self.fh.QoS != 0:
       self.messageIdentifier = readInt16(buffer[curlen:])
       logger.info("[MQTT-2.3.1-1] packet indentifier must be in publish if QoS is 1 or 2")
@@ -680,7 +684,7 @@ class Subscribes(Packets):
     self.data = []
     while leftlen > 0:
       topic = readUTF(buffer[-leftlen:], leftlen)
-      leftlen -= len(topic) + 2
+      leftlen -= lenUTF(topic)
       qos = buffer[-leftlen]
       assert qos in [0, 1, 2], "[MQTT-3-8.3-2] reserved bits must be zero"
       leftlen -= 1
@@ -785,7 +789,7 @@ class Unsubscribes(Packets):
     self.data = []
     while leftlen > 0:
       topic = readUTF(buffer[-leftlen:], leftlen)
-      leftlen -= len(topic) + 2
+      leftlen -= lenUTF(topic)
       self.data.append(topic)
     assert leftlen == 0
     assert self.fh.DUP == False, "[MQTT-2.1.2-1]"
-- 
2.43.0


From 7c1db0a578999a366a1b6270a1fbc667d6a9b20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:52 +0000
Subject: [PATCH 03/83] fix: user name and password flags of CONNECT were
 swapped when packing

---
 interoperability/mqtt/formats/MQTTV311/MQTTV311.py | 2 +-
 interoperability/mqtt/formats/MQTTV5/MQTTV5.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/interoperability/mqtt/formats/MQTTV311/MQTTV311.py b/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
index 55d17f7..ca7b881 100644
--- a/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
+++ b/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
@@ -248,7 +248,7 @@ class Connects(Packets):
   def pack(self):
     connectFlags = bytes([(self.CleanSession << 1) | (self.WillFlag << 2) | \
                        (self.WillQoS << 3) | (self.WillRETAIN << 5) | \
-                       (self.usernameFlag << 6) | (self.passwordFlag << 7)])
+                       (self.usernameFlag << 7) | (self.passwordFlag << 6)])
     buffer = writeUTF(self.ProtocolName) + bytes([self.ProtocolVersion]) + \
               connectFlags + writeInt16(self.KeepAliveTimer)
     buffer += writeUTF(self.ClientIdentifier)
diff --git a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
index 9eeb9b8..6a0ab1d 100644
--- a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
+++ b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
@@ -699,7 +699,7 @@ class Connects(Packets):
   def pack(self):
     connectFlags = bytes([(self.CleanStart << 1) | (self.WillFlag << 2) | \
                        (self.WillQoS << 3) | (self.WillRETAIN << 5) | \
-                       (self.usernameFlag << 6) | (self.passwordFlag << 7)])
+                       (self.usernameFlag << 7) | (self.passwordFlag << 6)])
     buffer = writeUTF(self.ProtocolName) + bytes([self.ProtocolVersion]) + \
               connectFlags + writeInt16(self.KeepAliveTimer)
     buffer += self.properties.pack()
-- 
2.43.0


From ea28ec7a710a383e0aab5e7953c4325c3f3b409f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:52 +0000
Subject: [PATCH 04/83] fix: 5.0 properties longer than 127 bytes were taken to
 have a one byte length

---
 interoperability/mqtt/formats/MQTTV5/MQTTV5.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
index 6a0ab1d..bdd4101 100644
--- a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
+++ b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
@@ -646,9 +646,9 @@ class Properties(object):
     buffer = buffer[VBIlen:] # strip the bytes used by the VBI
     propslenleft = propslen
     while propslenleft > 0: # properties length is 0 if there are none
-      identifier, VBIlen = VBIs.decode(buffer) # property identifier
-      buffer = buffer[VBIlen:] # strip the bytes used by the VBI
-      propslenleft -= VBIlen
+      identifier, identlen = VBIs.decode(buffer) # property identifier
+      buffer = buffer[identlen:] # strip the bytes used by the VBI
+      propslenleft -= identlen
       attr_type = self.properties[identifier][0]
       value, valuelen = self.readProperty(buffer, attr_type, propslenleft)
       buffer = buffer[valuelen:] # strip the bytes used by the value
-- 
2.43.0


From d9f1e034bd68b675437f56b6b11a4a03d7a00e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:21 +0000
Subject: [PATCH 05/83] fix: 5.0 unpack rejects unknown, overlong and repeated
 properties as malformed

---
 interoperability/mqtt/formats/MQTTV5/MQTTV5.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
index bdd4101..8a27123 100644
--- a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
+++ b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
@@ -411,6 +411,8 @@ def writeBytes(buffer):
 
 def readBytes(buffer):
   length = readInt16(buffer)
+  if length > len(buffer) - 2:
+    raise MalformedPacket("Length delimited binary data too long")
   return buffer[2:2+length], length+2
 
 
@@ -649,14 +651,18 @@ class Properties(object):
       identifier, identlen = VBIs.decode(buffer) # property identifier
       buffer = buffer[identlen:] # strip the bytes used by the VBI
       propslenleft -= identlen
+      if identifier not in self.properties.keys():
+        raise MalformedPacket("Unknown property identifier %d" % identifier)
       attr_type = self.properties[identifier][0]
       value, valuelen = self.readProperty(buffer, attr_type, propslenleft)
+      if valuelen > propslenleft:
+        raise MalformedPacket("Property value goes beyond the end of the properties")
       buffer = buffer[valuelen:] # strip the bytes used by the value
       propslenleft -= valuelen
       propname = self.getNameFromIdent(identifier)
       compressedName = propname.replace(' ', '')
       if not self.allowsMultiple(compressedName) and hasattr(self, compressedName):
-        raise MQTTException("Property '%s' must not exist more than once" % property)
+        raise ProtocolError("Protocol error")
       setattr(self, propname, value)
     return self, propslen + VBIlen
 
-- 
2.43.0


From 54dabba4c52be5fe01cc7598cb3141b62f96f9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:21 +0000
Subject: [PATCH 06/83] fix: traceback was used but not imported in MQTTV5

---
 interoperability/mqtt/formats/MQTTV5/MQTTV5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
index 8a27123..d58d1ca 100644
--- a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
+++ b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
@@ -24,7 +24,7 @@ so that the tests that use this package can send invalid data for error testing.
 
 """
 
-import logging, struct
+import logging, struct, traceback
 
 logger = logging.getLogger('MQTT broker')
 
-- 
2.43.0


From f995d9f304c22403228d6212099ce252afbf922f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:21 +0000
Subject: [PATCH 07/83] fix: 5.0 acknowledgements may have properties

---
 interoperability/mqtt/formats/MQTTV5/MQTTV5.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
index d58d1ca..d8c8b75 100644
--- a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
+++ b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
@@ -1112,7 +1112,7 @@ class Acks(Packets):
     assert len(buffer) >= 2
     assert PacketType(buffer) == self.ackType
     fhlen = self.fh.unpack(buffer, maximumPacketSize)
-    assert self.fh.remainingLength in [2, 3, 4], \
+    assert self.fh.remainingLength >= 2, \
         "%s packet is wrong length %d" % (self.ackName, self.fh.remainingLength)
     assert len(buffer) >= fhlen + self.fh.remainingLength
     self.packetIdentifier = readInt16(buffer[fhlen:])
@@ -1131,7 +1131,9 @@ class Acks(Packets):
       self.reasonCode.unpack(buffer[curlen:])
       curlen += 1
     if self.fh.remainingLength > 3:
-      self.properties.unpack(buffer[curlen:])
+      curlen += self.properties.unpack(buffer[curlen:])[1]
+    assert curlen == fhlen + self.fh.remainingLength, \
+        "%s packet is wrong length %d" % (self.ackName, self.fh.remainingLength)
     return fhlen + self.fh.remainingLength
 
   def __str__(self):
-- 
2.43.0


From d539c0096c3fb4671bf30509bbf3dd88381497c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:21 +0000
Subject: [PATCH 08/83] fix: SUBACK and UNSUBACK unpack accepts every reason
 code of the packet; equality used a missing attribute

---
 interoperability/mqtt/formats/MQTTV5/MQTTV5.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
index d8c8b75..8a32b7e 100644
--- a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
+++ b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
@@ -1343,8 +1343,7 @@ class UnsubSubacks(Packets):
         reasonCode = ReasonCodes(self.packetType, "Granted QoS 0")
       else:
         reasonCode = ReasonCodes(self.packetType, "Success")
-      reasonCode.unpack(buffer[-leftlen:])
-      assert reasonCode.value in [0, 1, 2, 0x80], "[MQTT5-3.9.3-2] return code in QoS must be 0, 1, 2 or 0x80"
+      reasonCode.unpack(buffer[-leftlen:]) # checks that the value is valid for this packet
       leftlen -= 1
       self.reasonCodes.append(reasonCode)
     assert leftlen == 0
@@ -1371,7 +1370,7 @@ class UnsubSubacks(Packets):
   def __eq__(self, packet):
     return Packets.__eq__(self, packet) and \
            self.packetIdentifier == packet.packetIdentifier and \
-           self.data == packet.data
+           self.reasonCodes == packet.reasonCodes
 
 
 class Subacks(UnsubSubacks):
-- 
2.43.0


From 306747a1c9334f995f56ed4f4f7f2781dcb1ceab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:21 +0000
Subject: [PATCH 09/83] fix: packets which hold equal reason codes, properties
 or subscribe options are equal

---
 interoperability/mqtt/formats/MQTTV5/MQTTV5.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
index 8a32b7e..3351a86 100644
--- a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
+++ b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
@@ -141,6 +141,10 @@ class ReasonCodes:
   def json(self):
     return self.getName()
 
+  def __eq__(self, other):
+    return isinstance(other, ReasonCodes) and \
+           self.packetType == other.packetType and self.value == other.value
+
   def pack(self):
     return bytes([self.value])
 
@@ -557,6 +561,10 @@ class Properties(object):
           data[compressedName] = str(data[compressedName])
     return data
 
+  def __eq__(self, other):
+    return isinstance(other, Properties) and \
+           self.packetType == other.packetType and self.json() == other.json()
+
   def isEmpty(self):
     rc = True
     for name in self.names.keys():
@@ -1214,6 +1222,9 @@ class SubscribeOptions(object):
     assert self.QoS in [0, 1, 2], "QoS should be 0, 1 or 2, not %d" % self.QoS
     return 1
 
+  def __eq__(self, other):
+    return isinstance(other, SubscribeOptions) and self.json() == other.json()
+
   def __str__(self):
     return "{QoS="+str(self.QoS)+", noLocal="+str(self.noLocal)+\
         ", retainAsPublished="+str(self.retainAsPublished)+\
-- 
2.43.0


From 87921f26f9612f9102988123375f4419f674987b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:21 +0000
Subject: [PATCH 10/83] fix: reserved bits of the subscription options must be
 zero

---
 interoperability/mqtt/formats/MQTTV5/MQTTV5.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
index 3351a86..6be9617 100644
--- a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
+++ b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
@@ -1218,6 +1218,7 @@ class SubscribeOptions(object):
     self.retainAsPublished = True if ((b0 >> 3) & 0x01) == 1 else False
     self.noLocal = True if ((b0 >> 2) & 0x01) == 1 else False
     self.QoS = (b0 & 0x03)
+    assert (b0 >> 6) == 0, "[MQTT5-3.8.3-5] reserved bits of the subscription options must be 0"
     assert self.retainHandling in [0, 1, 2], "Retain handling should be 0, 1 or 2, not %d" % self.retainHandling
     assert self.QoS in [0, 1, 2], "QoS should be 0, 1 or 2, not %d" % self.QoS
     return 1
-- 
2.43.0


From a8464c5f824a6db2ea22ad55378b8a764ddf13d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:21 +0000
Subject: [PATCH 11/83] fix: 5.0 CONNECT can have a password without a user
 name

---
 interoperability/mqtt/formats/MQTTV5/MQTTV5.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
index 6be9617..d2c8793 100644
--- a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
+++ b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
@@ -800,7 +800,6 @@ class Connects(Packets):
         logger.info("[MQTT5-3.1.3-12] username must be next and UTF-8 encoded string")
       else:
         logger.info("[MQTT5-3.1.2-16] username must not be in payload if user name flag is 0")
-        assert self.passwordFlag == False, "[MQTT5-3.1.2-22] password flag must be 0 if username flag is 0"
 
       if self.passwordFlag:
         assert len(buffer) > curlen+2, "Buffer too short to read password length"
-- 
2.43.0


From b79f203c1c6333d06b10c0d125271e2877c6ac4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:21 +0000
Subject: [PATCH 12/83] fix: empty user name or password at the end of CONNECT
 is valid

---
 interoperability/mqtt/formats/MQTTV311/MQTTV311.py | 4 ++--
 interoperability/mqtt/formats/MQTTV5/MQTTV5.py     | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/interoperability/mqtt/formats/MQTTV311/MQTTV311.py b/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
index ca7b881..8f02858 100644
--- a/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
+++ b/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
@@ -315,7 +315,7 @@ class Connects(Packets):
         self.WillTopic = self.WillMessage = None
 
       if self.usernameFlag:
-        assert len(buffer) > curlen+2, "Buffer too short to read username length"
+        assert len(buffer) >= curlen+2, "Buffer too short to read username length"
         self.username = readUTF(buffer[curlen:], packlen - curlen)
         curlen += lenUTF(self.username)
         logger.info("[MQTT-3.1.2-19] username must be in payload if user name flag is 1")
@@ -324,7 +324,7 @@ class Connects(Packets):
         assert self.passwordFlag == False, "[MQTT-3.1.2-22] password flag must be 0 if username flag is 0"
 
       if self.passwordFlag:
-        assert len(buffer) > curlen+2, "Buffer too short to read password length"
+        assert len(buffer) >= curlen+2, "Buffer too short to read password length"
         self.password = readBytes(buffer[curlen:])
         curlen += len(self.password) + 2
         logger.info("[MQTT-3.1.2-21] password must be in payload if password flag is 0")
diff --git a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
index d2c8793..6357dee 100644
--- a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
+++ b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
@@ -793,7 +793,7 @@ class Connects(Packets):
         self.WillTopic = self.WillMessage = None
 
       if self.usernameFlag:
-        assert len(buffer) > curlen+2, "Buffer too short to read username length"
+        assert len(buffer) >= curlen+2, "Buffer too short to read username length"
         self.username, valuelen = readUTF(buffer[curlen:], packlen - curlen)
         curlen += valuelen
         logger.info("[MQTT5-3.1.2-17] username must be in payload if user name flag is 1")
@@ -802,7 +802,7 @@ class Connects(Packets):
         logger.info("[MQTT5-3.1.2-16] username must not be in payload if user name flag is 0")
 
       if self.passwordFlag:
-        assert len(buffer) > curlen+2, "Buffer too short to read password length"
+        assert len(buffer) >= curlen+2, "Buffer too short to read password length"
         self.password, valuelen = readBytes(buffer[curlen:])
         curlen += valuelen
         logger.info("[MQTT5-3.1.2-19] password must be in payload if password flag is 1")
-- 
2.43.0


From c4fb96c8a68fd51831398029bb0b4fd8c2f6310a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:22 +0000
Subject: [PATCH 13/83] fix: remaining length field of more than 4 bytes is
 malformed

---
 interoperability/mqtt/formats/MQTTV311/MQTTV311.py | 3 +++
 interoperability/mqtt/formats/MQTTV5/MQTTV5.py     | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/interoperability/mqtt/formats/MQTTV311/MQTTV311.py b/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
index 8f02858..17e1303 100644
--- a/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
+++ b/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
@@ -81,6 +81,8 @@ def getPacket(aSocket):
     remlength += (digit & 127) * multiplier
     if digit & 128 == 0:
       break
+    if len(buf) > 4:
+      return None # the remaining length field must be no more than 4 bytes
     multiplier *= 128
   # receive the remaining length if there is any
   rest = bytes([])
@@ -159,6 +161,7 @@ class FixedHeaders:
       if digit & 128 == 0:
         break
       multiplier *= 128
+    assert bytes <= 4, "remaining length field must be no more than 4 bytes"
     return (value, bytes)
 
 
diff --git a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
index 6357dee..1ab1866 100644
--- a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
+++ b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
@@ -297,6 +297,8 @@ def getPacket(aSocket):
     remlength += (digit & 127) * multiplier
     if digit & 128 == 0:
       break
+    if len(buf) > 4:
+      return None # the remaining length field must be no more than 4 bytes
     multiplier *= 128
   # receive the remaining length if there is any
   rest = bytes([])
-- 
2.43.0


From 992f5c394005a39e97a31cdbe3a6ccc99c17e887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:47 +0000
Subject: [PATCH 14/83] fix: 3.1.1 will message or password which goes beyond
 the end of CONNECT is malformed

---
 interoperability/mqtt/formats/MQTTV311/MQTTV311.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/interoperability/mqtt/formats/MQTTV311/MQTTV311.py b/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
index 17e1303..a1fa5ca 100644
--- a/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
+++ b/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
@@ -206,6 +206,8 @@ def writeBytes(buffer):
 
 def readBytes(buffer):
   length = readInt16(buffer)
+  if length > len(buffer) - 2:
+    raise MQTTException("Length delimited binary data too long")
   return buffer[2:2+length]
 
 
-- 
2.43.0


From 314b6f70916c0612bd7c132e296fbc9d38474dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:47 +0000
Subject: [PATCH 15/83] fix: UNSUBSCRIBE without a topic filter is malformed

---
 interoperability/mqtt/formats/MQTTV311/MQTTV311.py | 1 +
 interoperability/mqtt/formats/MQTTV5/MQTTV5.py     | 1 +
 2 files changed, 2 insertions(+)

diff --git a/interoperability/mqtt/formats/MQTTV311/MQTTV311.py b/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
index a1fa5ca..accb80d 100644
--- a/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
+++ b/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
@@ -796,6 +796,7 @@ class Unsubscribes(Packets):
       topic = readUTF(buffer[-leftlen:], leftlen)
       leftlen -= lenUTF(topic)
       self.data.append(topic)
+    assert len(self.data) > 0, "[MQTT-3.10.3-2] at least one topic filter must be in unsubscribe"
     assert leftlen == 0
     assert self.fh.DUP == False, "[MQTT-2.1.2-1]"
     assert self.fh.QoS == 1, "[MQTT-2.1.2-1]"
diff --git a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
index 1ab1866..b61905a 100644
--- a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
+++ b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
@@ -1432,6 +1432,7 @@ class Unsubscribes(Packets):
       topic, topiclen = readUTF(buffer[-leftlen:], leftlen)
       leftlen -= topiclen
       self.topicFilters.append(topic)
+    assert len(self.topicFilters) > 0, "[MQTT5-3.10.3-2] at least one topic filter must be in unsubscribe"
     assert leftlen == 0
     assert self.fh.DUP == False, "[MQTT5-2.1.3-1]"
     assert self.fh.QoS == 1, "[MQTT5-2.1.3-1]"
-- 
2.43.0


From f03a8a8fc7bc74f5407fd70d373fd2d9dd2088da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:47 +0000
Subject: [PATCH 16/83] fix: MQTT-SN message lengths: PUBLISH was one short,
 byte length of client ids, messages of 256 bytes or more

---
 interoperability/mqtt/formats/MQTTSN/MQTTSN.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/interoperability/mqtt/formats/MQTTSN/MQTTSN.py b/interoperability/mqtt/formats/MQTTSN/MQTTSN.py
index 7da783b..f8c2a10 100644
--- a/interoperability/mqtt/formats/MQTTSN/MQTTSN.py
+++ b/interoperability/mqtt/formats/MQTTSN/MQTTSN.py
@@ -144,6 +144,12 @@ class MessageLens:
       value = buffer[0]
     return (value, bytes)
 
+  @staticmethod
+  def pack(body):
+    "put the message length, which counts its own bytes too, before the rest of the message"
+    length = len(body) + 1
+    return MessageLens.encode(length if length < 256 else length + 2) + body
+
 class Flags:
 
   def __init__(self):
@@ -210,10 +216,9 @@ class Connects(Messages):
       self.unpack(buffer)
 
   def pack(self):
-    msglen = 6 + len(self.ClientId)
-    buffer = bytes([msglen, MessageTypes.CONNECT]) + self.Flags.pack() +\
+    buffer = bytes([MessageTypes.CONNECT]) + self.Flags.pack() +\
       bytes([self.ProtocolId]) + writeInt16(self.Duration) + writeData(self.ClientId)
-    return buffer
+    return MessageLens.pack(buffer)
 
   def unpack(self, buffer):
     assert len(buffer) >= 2
@@ -286,10 +291,9 @@ class Publishes(Messages):
       self.unpack(buffer)
 
   def pack(self):
-    msglen = 6 + len(self.Data)
-    buffer = bytes([msglen, self.messageType]) + self.Flags.pack() +\
+    buffer = bytes([self.messageType]) + self.Flags.pack() +\
       writeInt16(self.TopicId) + writeInt16(self.MsgId) + writeData(self.Data)
-    return buffer
+    return MessageLens.pack(buffer)
 
   def unpack(self, buffer):
     assert len(buffer) >= 2
-- 
2.43.0


From e38a07d0210d9f6aa43275cf9cba6886ec9ce02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:29 +0000
Subject: [PATCH 17/83] fix: queued message was put twice into the list of
 in-flight messages

---
 interoperability/mqtt/brokers/V5/MQTTBrokers.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/interoperability/mqtt/brokers/V5/MQTTBrokers.py b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
index a75c9a0..12a3924 100644
--- a/interoperability/mqtt/brokers/V5/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
@@ -163,8 +163,7 @@ class MQTTClients:
 
   def sendQueued(self):
     while len(self.queued) > 0 and len(self.outbound) < self.receiveMaximum:
-      self.outbound.append(self.queued.pop(0))
-      self.sendFirst(self.outbound[-1])
+      self.sendFirst(self.queued.pop(0))
 
   def publishArrived(self, topic, msg, qos, properties, receivedTime, retained=False):
     pub = MQTTV5.Publishes()
-- 
2.43.0


From 67e13bbe1862351588b8f255a4c7ffb1c0eb438d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:29 +0000
Subject: [PATCH 18/83] fix: subscribers, retained and in-flight messages
 shared one properties object

---
 interoperability/mqtt/brokers/V5/Brokers.py     | 10 +++++++---
 interoperability/mqtt/brokers/V5/MQTTBrokers.py |  8 +++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/interoperability/mqtt/brokers/V5/Brokers.py b/interoperability/mqtt/brokers/V5/Brokers.py
index 831c6a8..8fb48aa 100644
--- a/interoperability/mqtt/brokers/V5/Brokers.py
+++ b/interoperability/mqtt/brokers/V5/Brokers.py
@@ -16,11 +16,11 @@
 *******************************************************************
 """
 
-import types, time, logging, random
+import types, time, logging, random, copy
 
 from . import Topics
 from .SubscriptionEngines import SubscriptionEngines
-from mqtt.formats.MQTTV5 import ProtocolError
+from mqtt.formats.MQTTV5 import ProtocolError, Properties, PacketTypes
 
 logger = logging.getLogger('MQTT broker')
 
@@ -121,7 +121,11 @@ class Brokers:
        also to any disconnected non-cleanstart clients with qos in [1,2]
     """
 
-    def publishAction(options, subsprops, subsids=None):
+    def publishAction(options, subsprops, subsids=None, properties=properties):
+      # a copy, because the properties differ for each subscriber
+      properties = copy.deepcopy(properties)
+      if properties == None:
+        properties = Properties(PacketTypes.PUBLISH)
       if hasattr(properties, "SubscriptionIdentifier"):
         delattr(properties, "SubscriptionIdentifier")
       if subsids or hasattr(subsprops, "SubscriptionIdentifier"):
diff --git a/interoperability/mqtt/brokers/V5/MQTTBrokers.py b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
index 12a3924..7a5b75e 100644
--- a/interoperability/mqtt/brokers/V5/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
@@ -39,6 +39,7 @@ def respond(sock, packet, maximumPacketSize=500):
         try:
           logger.info("[MQTT-3.3.2-6] Message Expiry Interval set to received value minus time waiting in the server")
           packet.properties.MessageExpiryInterval -= timespent
+          packet.receivedTime += timespent # the packet could be sent again
         except:
           traceback.print_exc()
   packed = packet.pack()
@@ -168,9 +169,10 @@ class MQTTClients:
   def publishArrived(self, topic, msg, qos, properties, receivedTime, retained=False):
     pub = MQTTV5.Publishes()
     if properties:
-      if hasattr(properties, 'TopicAlias'):
-        del properties.TopicAlias
-      pub.properties = properties
+      # a copy, because the properties differ for each subscriber
+      pub.properties = copy.deepcopy(properties)
+      if hasattr(pub.properties, 'TopicAlias'):
+        del pub.properties.TopicAlias
     logger.info("[MQTT-3.2.3-3] topic name must match the subscription's topic filter")
     # Topic alias
     if self.topicAliasMaximum == 0:
-- 
2.43.0


From 99d1d2c2b33aa8970f7a32fa47016d24e81e55ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:54 +0000
Subject: [PATCH 19/83] fix: will could not be sent to a subscriber with a
 subscription identifier or topic aliases

---
 interoperability/mqtt/brokers/V5/Brokers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/interoperability/mqtt/brokers/V5/Brokers.py b/interoperability/mqtt/brokers/V5/Brokers.py
index 8fb48aa..2452ee2 100644
--- a/interoperability/mqtt/brokers/V5/Brokers.py
+++ b/interoperability/mqtt/brokers/V5/Brokers.py
@@ -71,6 +71,7 @@ class Brokers:
       self.willMessageClients.remove(aClientid)
     logger.info("[MQTT5-3.1.2-8] sending will message for client %s", aClientid)
     willtopic, willQoS, willmsg, willRetain, willProperties = self.__clients[aClientid].will
+    willProperties.packetType = PacketTypes.PUBLISH # allows topic alias and subscription identifiers
     if willRetain:
       logger.info("[MQTT5-3.1.2-15] sending will message retained for client %s", aClientid)
     else:
-- 
2.43.0


From a11fe10b88124c51d3ec15c68883af9cc3b90518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:54 +0000
Subject: [PATCH 20/83] fix: topic alias of every incoming publish is set and
 resolved on arrival, not at PUBREL

---
 interoperability/mqtt/brokers/V5/Brokers.py   | 34 +++++++++++--------
 .../mqtt/brokers/V5/MQTTBrokers.py            |  5 +--
 2 files changed, 21 insertions(+), 18 deletions(-)

diff --git a/interoperability/mqtt/brokers/V5/Brokers.py b/interoperability/mqtt/brokers/V5/Brokers.py
index 2452ee2..ae91f19 100644
--- a/interoperability/mqtt/brokers/V5/Brokers.py
+++ b/interoperability/mqtt/brokers/V5/Brokers.py
@@ -117,6 +117,26 @@ class Brokers:
       raise ProtocolError("Topic alias invalid", topicAlias)
     return mytopic
 
+  def resolveTopicAlias(self, aClientid, topic, properties):
+    "returns the topic name of an incoming publish, having set its topic alias if there is one"
+    if hasattr(properties, "TopicAlias"):
+      if properties.TopicAlias == 0:
+        raise ProtocolError("Topic alias invalid", properties.TopicAlias)
+      if len(topic) == 0:
+        topic = self.getAliasTopic(aClientid, properties.TopicAlias)
+      else: # set incoming topic alias
+        if properties.TopicAlias in self.__clients[aClientid].topicAliasToNames.keys() or \
+            properties.TopicAlias <= self.topicAliasMaximum:
+          self.__clients[aClientid].topicAliasToNames[properties.TopicAlias] = topic
+        else:
+          raise ProtocolError("Topic alias invalid", self.__clients[aClientid].topicAliasMaximum)
+      del properties.TopicAlias
+    if len(topic) == 0:
+      raise ProtocolError("Protocol error") # neither topic name nor alias
+    if hasattr(properties, "SubscriptionIdentifier"):
+      del properties.SubscriptionIdentifier # must not be sent by a client
+    return topic
+
   def publish(self, aClientid, topic, message, qos, retained, properties, receivedTime):
     """publish to all subscribed connected clients
        also to any disconnected non-cleanstart clients with qos in [1,2]
@@ -139,20 +159,6 @@ class Brokers:
       outretain = retained if options.retainAsPublished else False
       self.__clients[subscriber].publishArrived(topic, message, out_qos, properties, receivedTime, outretain)
 
-    # topic alias
-    if hasattr(properties, "TopicAlias"):
-      if properties.TopicAlias == 0:
-        raise ProtocolError("Topic alias invalid", properties.TopicAlias)
-      if len(topic) == 0:
-        topic = self.getAliasTopic(aClientid, properties.TopicAlias)
-      else: # set incoming topic alias
-        if properties.TopicAlias in self.__clients[aClientid].topicAliasToNames.keys() or \
-            properties.TopicAlias <= self.topicAliasMaximum:
-          self.__clients[aClientid].topicAliasToNames[properties.TopicAlias] = topic
-        else:
-          raise ProtocolError("Topic alias invalid", self.__clients[aClientid].topicAliasMaximum)
-    assert len(topic) > 0
-
     if retained:
       logger.info("[MQTT-2.1.2-6] store retained message and QoS")
       self.se.setRetained(topic, message, qos, receivedTime, properties)
diff --git a/interoperability/mqtt/brokers/V5/MQTTBrokers.py b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
index 7a5b75e..3a43652 100644
--- a/interoperability/mqtt/brokers/V5/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
@@ -598,6 +598,7 @@ class MQTTBrokers:
     packet.receivedTime = time.monotonic()
     if packet.topicName.find("+") != -1 or packet.topicName.find("#") != -1:
       raise MQTTV5.AcksProtocolError("Topic name invalid %s" % packet.topicName)
+    packet.topicName = self.broker.resolveTopicAlias(self.clients[sock].id, packet.topicName, packet.properties)
     # Test Topic to disconnect the client
     if packet.topicName.startswith("cmd/"):
         self.handleBehaviourPublish(sock, packet.topicName, packet.data)
@@ -640,8 +641,6 @@ class MQTTBrokers:
                 logger.info("[MQTT-3.3.1-2] DUP flag is 1 on redelivery")
             else:
               myclient.inbound[packet.packetIdentifier] = packet
-              if len(packet.topicName) == 0 and hasattr(packet.properties, "TopicAlias"):
-                packet.topicName = self.broker.getAliasTopic(self.clients[sock].id, packet.properties.TopicAlias)
               subscribers = self.broker.se.getSubscriptions(packet.topicName)
           else:
             if packet.packetIdentifier in myclient.inbound:
@@ -652,8 +651,6 @@ class MQTTBrokers:
             else:
               myclient.inbound.append(packet.packetIdentifier)
               logger.info("[MQTT-4.3.3-2] server must store message in accordance with QoS 2")
-              if len(packet.topicName) == 0 and hasattr(packet.properties, "TopicAlias"):
-                packet.topicName = self.broker.getAliasTopic(self.clients[sock].id, packet.properties.TopicAlias)
               subscribers = self.broker.publish(self.clients[sock].id, packet.topicName,
                    packet.data, packet.fh.QoS, packet.fh.RETAIN, packet.properties,
                    packet.receivedTime)
-- 
2.43.0


From b6919e7d5665ecac01593db495f3f18891266b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:54 +0000
Subject: [PATCH 21/83] fix: DISCONNECT sent for a protocol error must have a
 valid reason code

---
 interoperability/mqtt/brokers/V5/MQTTBrokers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/interoperability/mqtt/brokers/V5/MQTTBrokers.py b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
index 3a43652..c2c9edb 100644
--- a/interoperability/mqtt/brokers/V5/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
@@ -522,7 +522,8 @@ class MQTTBrokers:
     # Session expiry
     if packet and hasattr(packet.properties, "SessionExpiryInterval"):
       if me.sessionExpiryInterval == 0 and packet.properties.SessionExpiryInterval > 0:
-        raise MQTTV5.ProtocolError("[MQTT-3.1.0-2] Can't reset SessionExpiryInterval from 0")
+        logger.error("[MQTT-3.1.0-2] Can't reset SessionExpiryInterval from 0")
+        raise MQTTV5.ProtocolError("Protocol error")
       else:
         me.sessionExpiryInterval = packet.properties.SessionExpiryInterval
     if reasonCode:
@@ -597,7 +598,7 @@ class MQTTBrokers:
   def publish(self, sock, packet):
     packet.receivedTime = time.monotonic()
     if packet.topicName.find("+") != -1 or packet.topicName.find("#") != -1:
-      raise MQTTV5.AcksProtocolError("Topic name invalid %s" % packet.topicName)
+      raise MQTTV5.AcksProtocolError("Topic name invalid")
     packet.topicName = self.broker.resolveTopicAlias(self.clients[sock].id, packet.topicName, packet.properties)
     # Test Topic to disconnect the client
     if packet.topicName.startswith("cmd/"):
-- 
2.43.0


From 7b54ebeca6d80fb2706c898ce44506d290ef9cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:54 +0000
Subject: [PATCH 22/83] fix: outgoing topic aliases are chosen when a publish
 is sent, as they belong to the connection

---
 .../mqtt/brokers/V5/MQTTBrokers.py            | 50 ++++++++++++-------
 1 file changed, 33 insertions(+), 17 deletions(-)

diff --git a/interoperability/mqtt/brokers/V5/MQTTBrokers.py b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
index c2c9edb..ba5f646 100644
--- a/interoperability/mqtt/brokers/V5/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
@@ -34,7 +34,7 @@ def respond(sock, packet, maximumPacketSize=500):
       timespent = int(time.monotonic() - packet.receivedTime)
       if timespent >= packet.properties.MessageExpiryInterval:
         logger.info("[MQTT-3.3.2-5] Delete expired message")
-        return
+        return False
       else:
         try:
           logger.info("[MQTT-3.3.2-6] Message Expiry Interval set to received value minus time waiting in the server")
@@ -48,7 +48,7 @@ def respond(sock, packet, maximumPacketSize=500):
   if packlen > maximumPacketSize:
     logger.error("[MQTT5-3.1.2-24] Packet too big to send to client packet size %d max packet size %d" % (packlen, maximumPacketSize))
     logger.info("[MQTT5-3.1.2-25] message must be discarded and behave as if it had been sent")
-    return
+    return False
   if hasattr(sock, "fileno"):
     packet_string = str(packet)
     if len(packet_string) > 256:
@@ -78,6 +78,7 @@ def respond(sock, packet, maximumPacketSize=500):
         assert bytes_sent == len(packed)
     except:
       traceback.print_exc()
+  return True
 
 class MQTTClients:
 
@@ -115,23 +116,48 @@ class MQTTClients:
     self.topicAliasMaximum = 0 # for server topic aliases
     self.outgoingTopicNamesToAliases = []
 
+  def send(self, pub):
+    """Send a publish, with a topic alias if allowed.  Aliases belong to the network connection,
+       so the alias is not kept in the publish, which might be sent again on another.
+       Returns False if the publish was discarded instead."""
+    topic = pub.topicName
+    newAlias = False
+    # Topic alias
+    if self.topicAliasMaximum == 0:
+      logger.info("[MQTT5-3.1.2-27] if topic alias is 0, no topic aliases must be sent") 
+    if topic in self.outgoingTopicNamesToAliases:
+      pub.topicName = ""
+    elif len(self.outgoingTopicNamesToAliases) < self.topicAliasMaximum:
+      logger.info("[MQTT5-3.1.2-26] Server must not send topic alias > max") 
+      self.outgoingTopicNamesToAliases.append(topic)       # add alias, include topic name as well first time
+      newAlias = True
+    if topic in self.outgoingTopicNamesToAliases:
+      pub.properties.TopicAlias = self.outgoingTopicNamesToAliases.index(topic) + 1 # Topic aliases start at 1
+    sent = respond(self.socket, pub, self.maximumPacketSize)
+    pub.topicName = topic
+    if hasattr(pub.properties, "TopicAlias"):
+      del pub.properties.TopicAlias
+    if newAlias and not sent:
+      self.outgoingTopicNamesToAliases.pop() # the client knows nothing of it
+    return sent
+
   def resendPub(self, pub):
     logger.debug("resending %s", str(pub))
     logger.info("[MQTT-4.4.0-2] dup flag must be set on in re-publish")
     if pub.fh.QoS == 0:
-      respond(self.socket, pub, self.maximumPacketSize)
+      self.send(pub)
     elif pub.fh.QoS == 1:
       logger.info("[MQTT-2.1.2-3] Dup when resending QoS 1 publish id %d", pub.packetIdentifier)
       logger.info("[MQTT-2.3.1-4] Message id same as original publish on resend")
       logger.info("[MQTT-4.3.2-1] Resending QoS 1 with DUP flag")
-      respond(self.socket, pub, self.maximumPacketSize)
+      self.send(pub)
       pub.fh.DUP = 1
     elif pub.fh.QoS == 2:
       if pub.qos2state == "PUBREC":
         logger.info("[MQTT-2.1.2-3] Dup when resending QoS 2 publish id %d", pub.packetIdentifier)
         logger.info("[MQTT-2.3.1-4] Message id same as original publish on resend")
         logger.info("[MQTT-4.3.3-1] Resending QoS 2 with DUP flag")
-        respond(self.socket, pub, self.maximumPacketSize)
+        self.send(pub)
         pub.fh.DUP = 1
       else:
         resp = MQTTV5.Pubrels()
@@ -158,7 +184,7 @@ class MQTTClients:
       self.outbound.append(pub)
       self.outmsgs[pub.packetIdentifier] = pub
       logger.info("[MQTT-4.6.0-6] publish packets must be sent in order of receipt from any given client")
-    respond(self.socket, pub, self.maximumPacketSize)
+    self.send(pub)
     if pub.fh.QoS > 0:
       pub.fh.DUP = 1
 
@@ -174,17 +200,7 @@ class MQTTClients:
       if hasattr(pub.properties, 'TopicAlias'):
         del pub.properties.TopicAlias
     logger.info("[MQTT-3.2.3-3] topic name must match the subscription's topic filter")
-    # Topic alias
-    if self.topicAliasMaximum == 0:
-      logger.info("[MQTT5-3.1.2-27] if topic alias is 0, no topic aliases must be sent") 
-    if len(self.outgoingTopicNamesToAliases) < self.topicAliasMaximum and not topic in self.outgoingTopicNamesToAliases:
-      logger.info("[MQTT5-3.1.2-26] Server must not send topic alias > max") 
-      self.outgoingTopicNamesToAliases.append(topic)       # add alias
-      pub.topicName = topic # include topic name as well as alias first time
-    if topic in self.outgoingTopicNamesToAliases:
-      pub.properties.TopicAlias = self.outgoingTopicNamesToAliases.index(topic) + 1 # Topic aliases start at 1
-    else:
-      pub.topicName = topic
+    pub.topicName = topic
     pub.data = msg
     pub.fh.QoS = qos
     pub.fh.RETAIN = retained
-- 
2.43.0


From 7b35b9d6be6a30e70d6d34a015e7e1515cb87ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:12 +0000
Subject: [PATCH 23/83] fix: discarded QoS 1 and 2 publish, expired or too
 large, kept its place in the send window for ever

---
 .../mqtt/brokers/V5/MQTTBrokers.py            | 20 ++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/interoperability/mqtt/brokers/V5/MQTTBrokers.py b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
index ba5f646..be02396 100644
--- a/interoperability/mqtt/brokers/V5/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
@@ -150,15 +150,17 @@ class MQTTClients:
       logger.info("[MQTT-2.1.2-3] Dup when resending QoS 1 publish id %d", pub.packetIdentifier)
       logger.info("[MQTT-2.3.1-4] Message id same as original publish on resend")
       logger.info("[MQTT-4.3.2-1] Resending QoS 1 with DUP flag")
-      self.send(pub)
       pub.fh.DUP = 1
+      if not self.send(pub):
+        self.finished(pub)
     elif pub.fh.QoS == 2:
       if pub.qos2state == "PUBREC":
         logger.info("[MQTT-2.1.2-3] Dup when resending QoS 2 publish id %d", pub.packetIdentifier)
         logger.info("[MQTT-2.3.1-4] Message id same as original publish on resend")
         logger.info("[MQTT-4.3.3-1] Resending QoS 2 with DUP flag")
-        self.send(pub)
         pub.fh.DUP = 1
+        if not self.send(pub):
+          self.finished(pub)
       else:
         resp = MQTTV5.Pubrels()
         logger.info("[MQTT-2.3.1-4] Message id same as original publish on resend")
@@ -169,7 +171,7 @@ class MQTTClients:
     logger.debug("resending unfinished publications %s", str(self.outbound))
     if len(self.outbound) > 0:
       logger.info("[MQTT-4.4.0-1] resending inflight QoS 1 and 2 messages")
-    for pub in self.outbound:
+    for pub in self.outbound[:]: # a publish can be discarded when resent
       self.resendPub(pub)
     self.sendQueued()
 
@@ -184,9 +186,17 @@ class MQTTClients:
       self.outbound.append(pub)
       self.outmsgs[pub.packetIdentifier] = pub
       logger.info("[MQTT-4.6.0-6] publish packets must be sent in order of receipt from any given client")
-    self.send(pub)
+    sent = self.send(pub)
     if pub.fh.QoS > 0:
-      pub.fh.DUP = 1
+      if sent:
+        pub.fh.DUP = 1
+      else:
+        self.finished(pub)
+
+  def finished(self, pub):
+    "the publish is complete, or has been discarded, so its packet id is free again"
+    self.outbound.remove(pub)
+    del self.outmsgs[pub.packetIdentifier]
 
   def sendQueued(self):
     while len(self.queued) > 0 and len(self.outbound) < self.receiveMaximum:
-- 
2.43.0


From c1af4830237d9518dc379ed950585ff2f6571ac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:56 +0000
Subject: [PATCH 24/83] fix: resent publishes must not exceed the receive
 maximum of the new connection

---
 .../mqtt/brokers/V5/MQTTBrokers.py            | 27 +++++++++++++------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/interoperability/mqtt/brokers/V5/MQTTBrokers.py b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
index be02396..7190850 100644
--- a/interoperability/mqtt/brokers/V5/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
@@ -171,18 +171,29 @@ class MQTTClients:
     logger.debug("resending unfinished publications %s", str(self.outbound))
     if len(self.outbound) > 0:
       logger.info("[MQTT-4.4.0-1] resending inflight QoS 1 and 2 messages")
-    for pub in self.outbound[:]: # a publish can be discarded when resent
-      self.resendPub(pub)
+    inflight = self.outbound
+    self.outbound = []
+    waiting = []
+    for pub in inflight:
+      released = pub.fh.QoS == 2 and pub.qos2state == "PUBCOMP"
+      if released or len(self.outbound) < self.receiveMaximum:
+        self.outbound.append(pub)
+        self.resendPub(pub) # a publish can be discarded when resent
+      else:
+        del self.outmsgs[pub.packetIdentifier]
+        waiting.append(pub)
+    self.queued = waiting + self.queued
     self.sendQueued()
 
   def sendFirst(self, pub):
     if pub.fh.QoS in [1, 2]:
-      pub.packetIdentifier = self.msgid
-      logger.debug("client id: %s msgid: %d", self.id, self.msgid)
-      if self.msgid == MQTTV5.MAX_PACKETID:
-        self.msgid = 1
-      else:
-        self.msgid += 1
+      if not pub.fh.DUP: # otherwise it has been sent before, and keeps its packet id
+        pub.packetIdentifier = self.msgid
+        logger.debug("client id: %s msgid: %d", self.id, self.msgid)
+        if self.msgid == MQTTV5.MAX_PACKETID:
+          self.msgid = 1
+        else:
+          self.msgid += 1
       self.outbound.append(pub)
       self.outmsgs[pub.packetIdentifier] = pub
       logger.info("[MQTT-4.6.0-6] publish packets must be sent in order of receipt from any given client")
-- 
2.43.0


From f0adec0e2873bd2f88ccd213f095715c1c179c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:56 +0000
Subject: [PATCH 25/83] fix: packet identifiers still in use must not be given
 to another publish

---
 interoperability/mqtt/brokers/V311/MQTTBrokers.py | 3 +++
 interoperability/mqtt/brokers/V5/MQTTBrokers.py   | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/interoperability/mqtt/brokers/V311/MQTTBrokers.py b/interoperability/mqtt/brokers/V311/MQTTBrokers.py
index 4375afa..a12a5a0 100644
--- a/interoperability/mqtt/brokers/V311/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V311/MQTTBrokers.py
@@ -99,6 +99,9 @@ class MQTTClients:
     if qos == 2:
       pub.qos2state = "PUBREC"
     if qos in [1, 2]:
+      if len(self.outmsgs) < 65535:
+        while self.msgid in self.outmsgs.keys(): # still in use
+          self.msgid = self.msgid + 1 if self.msgid < 65535 else 1
       pub.messageIdentifier = self.msgid
       logger.debug("client id: %s msgid: %d", self.id, self.msgid)
       if self.msgid == 65535:
diff --git a/interoperability/mqtt/brokers/V5/MQTTBrokers.py b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
index 7190850..479ba83 100644
--- a/interoperability/mqtt/brokers/V5/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
@@ -188,6 +188,8 @@ class MQTTClients:
   def sendFirst(self, pub):
     if pub.fh.QoS in [1, 2]:
       if not pub.fh.DUP: # otherwise it has been sent before, and keeps its packet id
+        while self.msgid in self.outmsgs.keys(): # still in use
+          self.msgid = self.msgid + 1 if self.msgid < MQTTV5.MAX_PACKETID else 1
         pub.packetIdentifier = self.msgid
         logger.debug("client id: %s msgid: %d", self.id, self.msgid)
         if self.msgid == MQTTV5.MAX_PACKETID:
-- 
2.43.0


From 659e1e646060909b55f7213bc615a2643bed9942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:56 +0000
Subject: [PATCH 26/83] fix: receive maximum does not apply to QoS 0, which was
 dropped when the send window was full

---
 interoperability/mqtt/brokers/V5/MQTTBrokers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/interoperability/mqtt/brokers/V5/MQTTBrokers.py b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
index 479ba83..c6f0b9c 100644
--- a/interoperability/mqtt/brokers/V5/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
@@ -234,7 +234,8 @@ class MQTTClients:
       logger.info("[MQTT-2.1.2-9] Set retained flag on retained messages")
     if qos == 2:
       pub.qos2state = "PUBREC"
-    if len(self.outbound) >= self.receiveMaximum or not self.connected:
+    if not self.connected or \
+       (len(self.outbound) >= self.receiveMaximum and (qos > 0 or not self.broker.options["dropQoS0"])):
       if qos > 0 or not self.broker.options["dropQoS0"]:
         self.queued.append(pub) # this should never be infinite in reality
       if qos > 0 and not self.connected:
-- 
2.43.0


From 54bf280a532e10471bf98a06364222c575fcd7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:56 +0000
Subject: [PATCH 27/83] fix: receive maximum check: resent QoS 2 publish is
 already counted, and reason code was invalid

---
 interoperability/mqtt/brokers/V5/MQTTBrokers.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/interoperability/mqtt/brokers/V5/MQTTBrokers.py b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
index c6f0b9c..d2eb938 100644
--- a/interoperability/mqtt/brokers/V5/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
@@ -644,9 +644,11 @@ class MQTTBrokers:
     if packet.topicName.startswith("cmd/"):
         self.handleBehaviourPublish(sock, packet.topicName, packet.data)
     else:
-        if packet.fh.QoS > 0 and len(self.clients[sock].inbound) >= self.options["receiveMaximum"]:
-          self.disconnect(sock, reasonCode="Receive maximum of %d exceeded: %d" % 
-             (self.options["receiveMaximum"], len(self.clients[sock].inbound)+1), sendWillMessage=True)
+        resent = packet.fh.QoS == 2 and packet.packetIdentifier in self.clients[sock].inbound
+        if packet.fh.QoS > 0 and not resent and len(self.clients[sock].inbound) >= self.options["receiveMaximum"]:
+          logger.error("Receive maximum of %d exceeded: %d", self.options["receiveMaximum"],
+             len(self.clients[sock].inbound)+1)
+          self.disconnect(sock, reasonCode="Receive maximum exceeded", sendWillMessage=True)
           return
         if hasattr(packet.properties, "UserProperty") and len(packet.properties.UserProperty) > 1:
           logger.info("[MQTT-3.1.3-10] Must maintain order of user properties")
-- 
2.43.0


From b3d207418f1fedf0c30c3e210d9849b3d2f64784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:56 +0000
Subject: [PATCH 28/83] fix: DISCONNECT with a non-zero reason code must
 publish the will

---
 interoperability/mqtt/brokers/V5/MQTTBrokers.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/interoperability/mqtt/brokers/V5/MQTTBrokers.py b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
index d2eb938..728c966 100644
--- a/interoperability/mqtt/brokers/V5/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
@@ -557,8 +557,14 @@ class MQTTBrokers:
 
   def disconnect(self, sock, packet=None, sendWillMessage=False, reasonCode=None, properties=None):
     logger.info("[MQTT-3.14.4-2] Client must not send any more packets after disconnect")
+    if sock not in self.clients.keys():
+      self.closeSocket(sock)
+      return
     me = self.clients[sock]
     me.clearTopicAliases()
+    if packet and packet.reasonCode.value != 0:
+      logger.info("[MQTT-3.14.4-3] will message is only deleted when the reason code is 0")
+      sendWillMessage = True
     # Session expiry
     if packet and hasattr(packet.properties, "SessionExpiryInterval"):
       if me.sessionExpiryInterval == 0 and packet.properties.SessionExpiryInterval > 0:
@@ -566,6 +572,7 @@ class MQTTBrokers:
         raise MQTTV5.ProtocolError("Protocol error")
       else:
         me.sessionExpiryInterval = packet.properties.SessionExpiryInterval
+        me.willDelayInterval = min(me.willDelayInterval, me.sessionExpiryInterval)
     if reasonCode:
       resp = MQTTV5.Disconnects(reasonCode=reasonCode) # reasonCode is text
       if properties:
@@ -575,6 +582,9 @@ class MQTTBrokers:
       self.broker.disconnect(me.id, willMessage=sendWillMessage,
           sessionExpiryInterval=me.sessionExpiryInterval)
       del self.clients[sock]
+    self.closeSocket(sock)
+
+  def closeSocket(self, sock):
     try:
       sock.shutdown(socket.SHUT_RDWR) # must call shutdown to close socket immediately
     except:
-- 
2.43.0


From 2a0b8cdac51062f10d578558b9ff44f0118138a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:27 +0000
Subject: [PATCH 29/83] fix: connection closed because of an error left the
 client connected and its will unsent

---
 .../mqtt/brokers/V311/MQTTBrokers.py            | 17 +++++++++++------
 interoperability/mqtt/brokers/V5/MQTTBrokers.py |  7 ++++++-
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/interoperability/mqtt/brokers/V311/MQTTBrokers.py b/interoperability/mqtt/brokers/V311/MQTTBrokers.py
index a12a5a0..7b244b3 100644
--- a/interoperability/mqtt/brokers/V311/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V311/MQTTBrokers.py
@@ -234,11 +234,16 @@ class MQTTBrokers:
         self.disconnect(sock, None, terminate=True)
         terminate = True
       else:
-        packet = MQTTV3.unpackPacket(raw_packet)
-        if packet:
-          terminate = self.handlePacket(packet, sock)
-        else:
-          raise MQTTV3.MQTTException("[MQTT-2.0.0-1] handleRequest: badly formed MQTT packet")
+        try:
+          packet = MQTTV3.unpackPacket(raw_packet)
+          if packet:
+            terminate = self.handlePacket(packet, sock)
+          else:
+            raise MQTTV3.MQTTException("[MQTT-2.0.0-1] handleRequest: badly formed MQTT packet")
+        except:
+          # the network connection will be closed
+          self.disconnect(sock, None, terminate=True)
+          raise
     finally:
       self.lock.release()
     return terminate
@@ -274,7 +279,7 @@ class MQTTBrokers:
       logger.info("[MQTT-3.1.4-5] When rejecting connect, no more data must be processed")
       return
     if sock in self.clients.keys():    # is socket is already connected?
-      self.disconnect(sock, None)
+      self.disconnect(sock, None, terminate=True)
       logger.info("[MQTT-3.1.4-5] When rejecting connect, no more data must be processed")
       raise MQTTV3.MQTTException("[MQTT-3.1.0-2] Second connect packet")
     if len(packet.ClientIdentifier) == 0:
diff --git a/interoperability/mqtt/brokers/V5/MQTTBrokers.py b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
index 728c966..ea92c0e 100644
--- a/interoperability/mqtt/brokers/V5/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
@@ -418,6 +418,11 @@ class MQTTBrokers:
           self.disconnect(sock, reasonCode=error.args[0], properties=disconnect_properties,
                           sendWillMessage=True)
           terminate = True
+        except:
+          # the network connection will be closed
+          if sock in self.clients.keys():
+            self.disconnect(sock, None, sendWillMessage=True)
+          raise
     finally:
       self.lock.release()
     return terminate
@@ -461,7 +466,7 @@ class MQTTBrokers:
       return
     logger.info("[MQTT5-3.1.2-2] Protocol version must be 5")
     if sock in self.clients.keys():    # is socket is already connected?
-      self.disconnect(sock, None)
+      self.disconnect(sock, None, sendWillMessage=True)
       logger.info("[MQTT5-3.1.4-6] When rejecting connect, no more data must be processed")
       raise MQTTV5.MQTTException("[MQTT5-3.1.0-2] Second connect packet")
     if len(packet.ClientIdentifier) == 0:
-- 
2.43.0


From 1187823787eceaa0eebe8354d708361b3c518706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:27 +0000
Subject: [PATCH 30/83] fix: delayed wills and keep alive checks take the lock
 of the broker

---
 .../mqtt/brokers/V311/MQTTBrokers.py          | 13 ++++----
 .../mqtt/brokers/V5/MQTTBrokers.py            | 31 +++++++++++--------
 2 files changed, 25 insertions(+), 19 deletions(-)

diff --git a/interoperability/mqtt/brokers/V311/MQTTBrokers.py b/interoperability/mqtt/brokers/V311/MQTTBrokers.py
index 7b244b3..347506a 100644
--- a/interoperability/mqtt/brokers/V311/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V311/MQTTBrokers.py
@@ -469,9 +469,10 @@ class MQTTBrokers:
     self.clients[sock].pubcomp(packet.messageIdentifier)
 
   def keepalive(self, sock):
-    if sock in self.clients.keys():
-      client = self.clients[sock]
-      if client.keepalive > 0 and time.time() - client.lastPacket > client.keepalive * 1.5:
-        # keep alive timeout
-        logger.info("[MQTT-3.1.2-22] keepalive timeout for client %s", client.id)
-        self.disconnect(sock, None, terminate=True)
+    with self.lock:
+      if sock in self.clients.keys():
+        client = self.clients[sock]
+        if client.keepalive > 0 and time.time() - client.lastPacket > client.keepalive * 1.5:
+          # keep alive timeout
+          logger.info("[MQTT-3.1.2-22] keepalive timeout for client %s", client.id)
+          self.disconnect(sock, None, terminate=True)
diff --git a/interoperability/mqtt/brokers/V5/MQTTBrokers.py b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
index ea92c0e..5d95687 100644
--- a/interoperability/mqtt/brokers/V5/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
@@ -322,12 +322,16 @@ class cleanupThreads(threading.Thread):
       # will delay
       if self.lock:
         self.lock.acquire()
-      for clientid in self.broker.willMessageClients.copy():
-        client = self.broker.getClient(clientid)
-        if client and time.monotonic() >= client.delayedWillTime:
-          self.broker.sendWillMessage(clientid)
-      if self.lock:
-        self.lock.release()
+      try:
+        for clientid in self.broker.willMessageClients.copy():
+          client = self.broker.getClient(clientid)
+          if client and time.monotonic() >= client.delayedWillTime:
+            self.broker.sendWillMessage(clientid)
+      except:
+        traceback.print_exc() # must not stop the other wills from being sent
+      finally:
+        if self.lock:
+          self.lock.release()
 
   def stop(self):
     self.running = False
@@ -349,7 +353,7 @@ class MQTTBrokers:
     else:
       self.lock = threading.RLock()
 
-    self.cleanupThread = cleanupThreads(self.broker)
+    self.cleanupThread = cleanupThreads(self.broker, self.lock)
 
     logger.info("MQTT 5.0 Paho Test Broker")
     logger.info("Options %s", self.options)
@@ -800,9 +804,10 @@ class MQTTBrokers:
     self.clients[sock].pubcomp(packet.packetIdentifier)
 
   def keepalive(self, sock):
-    if sock in self.clients.keys():
-      client = self.clients[sock]
-      if client.keepalive > 0 and time.monotonic() - client.lastPacket > client.keepalive * 1.5:
-        # keep alive timeout
-        logger.info("[MQTT5-3.1.2-22] keepalive timeout for client %s", client.id)
-        self.disconnect(sock, None, sendWillMessage=True)
+    with self.lock:
+      if sock in self.clients.keys():
+        client = self.clients[sock]
+        if client.keepalive > 0 and time.monotonic() - client.lastPacket > client.keepalive * 1.5:
+          # keep alive timeout
+          logger.info("[MQTT5-3.1.2-22] keepalive timeout for client %s", client.id)
+          self.disconnect(sock, None, sendWillMessage=True)
-- 
2.43.0


From 406bafc5451f7155a5dd14fe9e4fea1f1bc2f1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:27 +0000
Subject: [PATCH 31/83] fix: a client which sends a packet slowly must not
 block the others, or lose its connection

---
 interoperability/mqtt/brokers/V311/MQTTBrokers.py | 10 +++++-----
 interoperability/mqtt/brokers/V5/MQTTBrokers.py   | 10 +++++-----
 interoperability/mqtt/formats/MQTTV5/MQTTV5.py    |  2 ++
 3 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/interoperability/mqtt/brokers/V311/MQTTBrokers.py b/interoperability/mqtt/brokers/V311/MQTTBrokers.py
index 347506a..b5484a6 100644
--- a/interoperability/mqtt/brokers/V311/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V311/MQTTBrokers.py
@@ -220,14 +220,14 @@ class MQTTBrokers:
 
   def handleRequest(self, sock):
     "this is going to be called from multiple threads, so synchronize"
-    self.lock.acquire()
     terminate = False
     raw_packet = None
     try:
-      try:
-        raw_packet = MQTTV3.getPacket(sock)
-      except:
-        pass # handled by raw_packet == None
+      raw_packet = MQTTV3.getPacket(sock) # without the lock, so a slow client doesn't hold up the others
+    except:
+      pass # handled by raw_packet == None
+    self.lock.acquire()
+    try:
       if raw_packet == None:
         logger.info("[MQTT-4.8.0-1] 'transient error' reading packet, closing connection")
         # will message
diff --git a/interoperability/mqtt/brokers/V5/MQTTBrokers.py b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
index 5d95687..2015356 100644
--- a/interoperability/mqtt/brokers/V5/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
@@ -377,13 +377,13 @@ class MQTTBrokers:
 
   def handleRequest(self, sock):
     "this is going to be called from multiple threads, so synchronize"
-    self.lock.acquire()
     raw_packet = None
     try:
-      try:
-        raw_packet = MQTTV5.getPacket(sock)
-      except:
-        pass # handled by raw_packet == None
+      raw_packet = MQTTV5.getPacket(sock) # without the lock, so a slow client doesn't hold up the others
+    except:
+      pass # handled by raw_packet == None
+    self.lock.acquire()
+    try:
       if raw_packet == None:
         logger.info("[MQTT-4.8.0-1] 'transient error' reading packet, closing connection")
         # will message
diff --git a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
index b61905a..6bb8ef3 100644
--- a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
+++ b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
@@ -277,6 +277,7 @@ def getPacket(aSocket):
   "receive the next packet"
   aSocket.settimeout(.3)
   buf = aSocket.recv(1) # get the first byte fixed header
+  aSocket.settimeout(None) # the rest of the packet can take its time
   if len(buf) == 0:
     return None
   if str(aSocket).find("[closed]") != -1:
@@ -310,6 +311,7 @@ def getPacket(aSocket):
         # as we have no timeout on the read, no data probably means a socket error
         return None
   assert len(rest) == remlength
+  aSocket.settimeout(.3)
   return buf + rest
 
 
-- 
2.43.0


From 5a9e13c866d208ac2ab8c3e443676234a906976c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:46 +0000
Subject: [PATCH 32/83] fix: invalid $share filter broke every later publish;
 subscribe with an invalid filter must have no effect

---
 .../mqtt/brokers/V311/SubscriptionEngines.py         |  4 ++++
 .../mqtt/brokers/V5/SubscriptionEngines.py           |  6 ++++++
 interoperability/mqtt/brokers/V5/Topics.py           | 12 ++++++++++--
 3 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/interoperability/mqtt/brokers/V311/SubscriptionEngines.py b/interoperability/mqtt/brokers/V311/SubscriptionEngines.py
index e6939f8..0aef295 100644
--- a/interoperability/mqtt/brokers/V311/SubscriptionEngines.py
+++ b/interoperability/mqtt/brokers/V311/SubscriptionEngines.py
@@ -50,6 +50,8 @@ class SubscriptionEngines:
      if type(topic) == type([]):
        rc = []
        count = 0
+       for aTopic in topic: # no subscription is made if any filter is invalid
+         Topics.isValidTopicName(aTopic)
        for aTopic in topic:
          rc.append(self.__subscribe(aClientid, aTopic, qos[count]))
          count += 1
@@ -76,6 +78,8 @@ class SubscriptionEngines:
    def unsubscribe(self, aClientid, aTopic):
      matched = False
      if type(aTopic) == type([]):
+       for t in aTopic: # nothing is unsubscribed if any filter is invalid
+         Topics.isValidTopicName(t)
        if len(aTopic) > 1:
          logger.info("[MQTT-3.10.4-6] each topic must be processed in sequence")
        for t in aTopic:
diff --git a/interoperability/mqtt/brokers/V5/SubscriptionEngines.py b/interoperability/mqtt/brokers/V5/SubscriptionEngines.py
index a4a1db1..0de2e3e 100644
--- a/interoperability/mqtt/brokers/V5/SubscriptionEngines.py
+++ b/interoperability/mqtt/brokers/V5/SubscriptionEngines.py
@@ -54,6 +54,10 @@ class SubscriptionEngines:
      if type(topic) == type([]):
        rc = []
        count = 0
+       for aTopic in topic: # no subscription is made if any filter is invalid
+         Topics.isValidTopicName(aTopic)
+         if aTopic.startswith('$share/') and not Topics.isValidShare(aTopic):
+           raise MQTTV5.ProtocolError("Topic filter invalid")
        for aTopic in topic:
          rc.append(self.__subscribe(aClientid, aTopic, options[count]))
          count += 1
@@ -82,6 +86,8 @@ class SubscriptionEngines:
      rc = []
      matchedAny = False
      if type(aTopic) == type([]):
+       for t in aTopic: # nothing is unsubscribed if any filter is invalid
+         Topics.isValidTopicName(t)
        if len(aTopic) > 1:
          logger.info("[MQTT-3.10.4-6] each topic must be processed in sequence")
        for t in aTopic:
diff --git a/interoperability/mqtt/brokers/V5/Topics.py b/interoperability/mqtt/brokers/V5/Topics.py
index 3ca6b9d..a881b18 100644
--- a/interoperability/mqtt/brokers/V5/Topics.py
+++ b/interoperability/mqtt/brokers/V5/Topics.py
@@ -59,15 +59,23 @@ def isValidTopicName(aName):
   return rc
  
 
+def isValidShare(aFilter):
+  "is this $share/sharename/filter, with a share name which has no wildcards and a filter of at least one character?"
+  words = aFilter.split('/', 2)
+  return len(words) == 3 and words[0] == '$share' and len(words[2]) > 0 and \
+         len(words[1]) > 0 and words[1].find('+') == words[1].find('#') == -1
+
+
 def topicMatches(wild, nonwild, wildCheck=True):
 
   if wildCheck:
     assert nonwild.find('+') == nonwild.find('#') == -1
   assert isValidTopicName(wild) and isValidTopicName(nonwild)
 
-  if wild.startswith('$share'):
+  if wild.startswith('$share/'):
     # strip shared prefix $share/sharename/
-    assert wild.count('/') >= 2
+    if not isValidShare(wild):
+      return False
     wild = wild.split('/', 2)[2]
 
   rc = False
-- 
2.43.0


From 6aed7d7ac868635ce785627e3c3aa0b63acc95b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:46 +0000
Subject: [PATCH 33/83] fix: wildcards must match topic names which contain a
 newline

---
 interoperability/mqtt/brokers/V311/Topics.py | 2 +-
 interoperability/mqtt/brokers/V5/Topics.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/interoperability/mqtt/brokers/V311/Topics.py b/interoperability/mqtt/brokers/V311/Topics.py
index 396c51f..5f41fa3 100644
--- a/interoperability/mqtt/brokers/V311/Topics.py
+++ b/interoperability/mqtt/brokers/V311/Topics.py
@@ -86,7 +86,7 @@ def topicMatches(wild, nonwild, wildCheck=True):
       "all other instances subsume the preceding or following slash"
       wild = wild.replace('#/', '(.*?/|^)').replace('/#', '(/.*?|$)')
     wild = wild.replace('+', '[^/#]+?') # + does not match an empty level
-    if re.compile(wild+'$').match(nonwild) != None:
+    if re.compile(wild+'\\Z', re.DOTALL).match(nonwild) != None:
       rc = True
   return rc
 
diff --git a/interoperability/mqtt/brokers/V5/Topics.py b/interoperability/mqtt/brokers/V5/Topics.py
index a881b18..95f8ac4 100644
--- a/interoperability/mqtt/brokers/V5/Topics.py
+++ b/interoperability/mqtt/brokers/V5/Topics.py
@@ -99,7 +99,7 @@ def topicMatches(wild, nonwild, wildCheck=True):
       "all other instances subsume the preceding or following slash"
       wild = wild.replace('#/', '(.*?/|^)').replace('/#', '(/.*?|$)')
     wild = wild.replace('+', '[^/#]+?') # + does not match an empty level
-    if re.compile(wild+'$').match(nonwild) != None:
+    if re.compile(wild+'\\Z', re.DOTALL).match(nonwild) != None:
       rc = True
   return rc
 
-- 
2.43.0


From 3d66b7098dbbb1c3515f14fccc7d4ae73a6c0142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:46 +0000
Subject: [PATCH 34/83] fix: single level wildcard must match an empty level

---
 interoperability/mqtt/brokers/V311/Topics.py | 2 +-
 interoperability/mqtt/brokers/V5/Topics.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/interoperability/mqtt/brokers/V311/Topics.py b/interoperability/mqtt/brokers/V311/Topics.py
index 5f41fa3..8fedeea 100644
--- a/interoperability/mqtt/brokers/V311/Topics.py
+++ b/interoperability/mqtt/brokers/V311/Topics.py
@@ -85,7 +85,7 @@ def topicMatches(wild, nonwild, wildCheck=True):
     else:
       "all other instances subsume the preceding or following slash"
       wild = wild.replace('#/', '(.*?/|^)').replace('/#', '(/.*?|$)')
-    wild = wild.replace('+', '[^/#]+?') # + does not match an empty level
+    wild = wild.replace('+', '[^/#]*?') # + matches an empty level too
     if re.compile(wild+'\\Z', re.DOTALL).match(nonwild) != None:
       rc = True
   return rc
diff --git a/interoperability/mqtt/brokers/V5/Topics.py b/interoperability/mqtt/brokers/V5/Topics.py
index 95f8ac4..a683475 100644
--- a/interoperability/mqtt/brokers/V5/Topics.py
+++ b/interoperability/mqtt/brokers/V5/Topics.py
@@ -98,7 +98,7 @@ def topicMatches(wild, nonwild, wildCheck=True):
     else:
       "all other instances subsume the preceding or following slash"
       wild = wild.replace('#/', '(.*?/|^)').replace('/#', '(/.*?|$)')
-    wild = wild.replace('+', '[^/#]+?') # + does not match an empty level
+    wild = wild.replace('+', '[^/#]*?') # + matches an empty level too
     if re.compile(wild+'\\Z', re.DOTALL).match(nonwild) != None:
       rc = True
   return rc
-- 
2.43.0


From 4fd12f2045013f17bbf4c81e916486e000e718df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:14 +0000
Subject: [PATCH 35/83] fix: overlapping, shared and no-local options came from
 subscriptions other than those being satisfied

---
 interoperability/mqtt/brokers/V5/Brokers.py   | 87 ++++++++-----------
 .../mqtt/brokers/V5/SubscriptionEngines.py    | 17 ++--
 2 files changed, 41 insertions(+), 63 deletions(-)

diff --git a/interoperability/mqtt/brokers/V5/Brokers.py b/interoperability/mqtt/brokers/V5/Brokers.py
index ae91f19..5b09a38 100644
--- a/interoperability/mqtt/brokers/V5/Brokers.py
+++ b/interoperability/mqtt/brokers/V5/Brokers.py
@@ -142,22 +142,17 @@ class Brokers:
        also to any disconnected non-cleanstart clients with qos in [1,2]
     """
 
-    def publishAction(options, subsprops, subsids=None, properties=properties):
+    def publishAction(options, subsids):
       # a copy, because the properties differ for each subscriber
-      properties = copy.deepcopy(properties)
-      if properties == None:
-        properties = Properties(PacketTypes.PUBLISH)
-      if hasattr(properties, "SubscriptionIdentifier"):
-        delattr(properties, "SubscriptionIdentifier")
-      if subsids or hasattr(subsprops, "SubscriptionIdentifier"):
-        if subsids:
-          for subsid in subsids:
-            properties.SubscriptionIdentifier = subsid
-        else:
-          properties.SubscriptionIdentifier = subsprops.SubscriptionIdentifier[0]
+      subsproperties = copy.deepcopy(properties)
+      if subsproperties == None:
+        subsproperties = Properties(PacketTypes.PUBLISH)
+      for subsid in subsids:
+        subsproperties.SubscriptionIdentifier = subsid
+      # qos is lower of publication and subscription
       out_qos = min(options.QoS, qos)
       outretain = retained if options.retainAsPublished else False
-      self.__clients[subscriber].publishArrived(topic, message, out_qos, properties, receivedTime, outretain)
+      self.__clients[subscriber].publishArrived(topic, message, out_qos, subsproperties, receivedTime, outretain)
 
     if retained:
       logger.info("[MQTT-2.1.2-6] store retained message and QoS")
@@ -169,60 +164,48 @@ class Brokers:
     # For shared subscriptions, there is only one recipient
     nonshared = [s for s in list(subscriptions) if not s.getTopic().startswith('$share/')]
     shared = [s for s in list(subscriptions) if s.getTopic().startswith('$share/')]
-    subscriptions = []
+    recipients = [] # client and the subscriptions of that client which are to be satisfied
     clientids = set()
     for n in nonshared:
       if n.getClientid() not in clientids:
         clientids.add(n.getClientid())
-        subscriptions.append(n)
+        recipients.append((n.getClientid(), [s for s in nonshared if s.getClientid() == n.getClientid()]))
     sharenames = set()  # set of shared topic names
     for s in shared:
       sharenames.add(s.getTopic())
     for sname in list(sharenames):
-      subscriptions.append(random.choice([s for s in shared if s.getTopic() == sname]))
-    
-    subscribed_clients = [s.getClientid() for s in subscriptions]
-    for subscriber in subscribed_clients:  # all subscribed clients
-      # qos is lower of publication and subscription
-      overlapping = False
-      subscriptions = self.se.getSubscriptions(topic, subscriber)
+      chosen = random.choice([s for s in shared if s.getTopic() == sname])
+      recipients.append((chosen.getClientid(), [chosen]))
+
+    for subscriber, subscriptions in recipients:  # all subscribed clients
       if len(subscriptions) > 1:
         logger.info("[MQTT-3.3.5-1] overlapping subscriptions")
-        overlapping = True
       if retained:
         logger.info("[MQTT-2.1.2-10] outgoing publish does not have retained flag set")
-      if self.overlapping_single:
-        if subscriber in self.__clients.keys():
-          options, subsprops = self.se.optionsOf(subscriber, topic)
-          # any other subscription ids?
-          subsids = []
-          nolocalfilter = []
-          if overlapping:
+      if subscriber in self.__clients.keys():
+        # noLocal
+        subscriptions = [s for s in subscriptions if not s.getOptions()[0].noLocal or subscriber != aClientid]
+        if self.overlapping_single:
+          if len(subscriptions) > 0:
+            options = self.se.optionsOf(subscriptions)
+            subsids = []
             for subscription in subscriptions:
-              subopts, subprops = subscription.getOptions()
-              if not subopts.noLocal or subscriber != aClientid: # noLocal
-                nolocalfilter.append(subscription)
-                if hasattr(subprops, "SubscriptionIdentifier"):
-                  subsids += subprops.SubscriptionIdentifier
-          else:
-            if not options.noLocal or subscriber != aClientid: # noLocal
-              nolocalfilter = subscriptions
-          if len(nolocalfilter) > 0:
-            publishAction(options, subsprops, subsids=subsids)
+              subsids += getattr(subscription.getOptions()[1], "SubscriptionIdentifier", [])
+            publishAction(options, subsids)
         else:
-          # MQTT V3 subscription
-          out_qos = min(self.__broker3.se.qosOf(subscriber, topic), qos)
-          self.__broker3.getClient(subscriber).publishArrived(topic, message, out_qos)
-      else:
-        for subscription in subscriptions:
-          if subscriber in self.__clients.keys():
+          for subscription in subscriptions:
             options, subsprops = subscription.getOptions()
-            if not options.noLocal or subscriber != aClientid: # noLocal
-              publishAction(options, subsprops)
-          else:
-            # MQTT V3 subscription
-            out_qos = min(self.__broker3.se.qosOf(subscriber, topic), qos)
-            self.__broker3.getClient(subscriber).publishArrived(topic, message, out_qos)
+            publishAction(options, getattr(subsprops, "SubscriptionIdentifier", []))
+      elif self.__broker3 and self.__broker3.getClient(subscriber):
+        # MQTT V3 subscription
+        client = self.__broker3.getClient(subscriber)
+        qoss = [s.getQoS() for s in subscriptions]
+        if self.overlapping_single:
+          qoss = [max(qoss)]
+        # qos is lower of publication and subscription
+        for subqos in qoss:
+          client.publishArrived(topic, message, min(subqos, qos))
+    subscribed_clients = [clientid for clientid, subscriptions in recipients]
     return subscribed_clients if len(subscribed_clients) > 0 else None
 
   def __doRetained__(self, aClientid, topic, subsoptions, resubscribeds):
diff --git a/interoperability/mqtt/brokers/V5/SubscriptionEngines.py b/interoperability/mqtt/brokers/V5/SubscriptionEngines.py
index 0de2e3e..99d112c 100644
--- a/interoperability/mqtt/brokers/V5/SubscriptionEngines.py
+++ b/interoperability/mqtt/brokers/V5/SubscriptionEngines.py
@@ -134,22 +134,17 @@ class SubscriptionEngines:
          rc = [sub for sub in subscriptions if sub.getClientid() == aClientid and Topics.topicMatches(sub.getTopic(), aTopic)]
      return rc
 
-   def optionsOf(self, clientid, topic):
+   def optionsOf(self, subscriptions):
      # if there are overlapping subscriptions, choose maximum QoS
      chosen = None
-     for sub in self.getSubscriptions(topic, clientid):
+     for sub in subscriptions:
+       options, props = sub.getOptions()
        if chosen == None:
-         if hasattr(sub, "getOptions"):
-           chosen = sub.getOptions()
-         else: # MQTT V3 case
-           chosen = (MQTTV5.SubscribeOptions(QoS=sub.getQoS()), MQTTV5.Properties(MQTTV5.PacketTypes.SUBSCRIBE))
+         chosen = options
        else:
          logger.info("[MQTT-3.3.5-1] Overlapping subscriptions max QoS")
-         if sub.getQoS() > chosen[0].QoS:
-           if hasattr(sub, "getOptions"):
-             chosen = sub.getOptions()
-           else: # MQTT V3 case
-             chosen = (MQTTV5.SubscribeOptions(QoS=sub.getQoS()), MQTTV5.Properties(MQTTV5.PacketTypes.SUBSCRIBE))
+         if options.QoS > chosen.QoS:
+           chosen = options
        # Omit the following optimization because we want to check for condition [MQTT-3.3.5-1]
        #if chosen == 2:
        #  break
-- 
2.43.0


From 423b964b0a5a2221635eee9eb5e390106f287686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:47 +0000
Subject: [PATCH 36/83] fix: retained messages did not carry the subscription
 identifier, and were sent for shared subscriptions

---
 interoperability/mqtt/brokers/V5/Brokers.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/interoperability/mqtt/brokers/V5/Brokers.py b/interoperability/mqtt/brokers/V5/Brokers.py
index 5b09a38..5cab174 100644
--- a/interoperability/mqtt/brokers/V5/Brokers.py
+++ b/interoperability/mqtt/brokers/V5/Brokers.py
@@ -208,7 +208,7 @@ class Brokers:
     subscribed_clients = [clientid for clientid, subscriptions in recipients]
     return subscribed_clients if len(subscribed_clients) > 0 else None
 
-  def __doRetained__(self, aClientid, topic, subsoptions, resubscribeds):
+  def __doRetained__(self, aClientid, topic, subsoptions, resubscribeds, subsprops):
     # topic can be single, or a list
     if type(topic) != type([]):
       topic = [topic]
@@ -216,7 +216,8 @@ class Brokers:
     i = 0
     for t in topic: # t is a wildcard subscription topic
       if subsoptions[i].retainHandling == 2 or \
-        (subsoptions[i].retainHandling == 1 and resubscribeds[i]):
+        (subsoptions[i].retainHandling == 1 and resubscribeds[i]) or \
+        t.startswith('$share/'): # no retained messages are sent for a shared subscription
         i += 1
         continue
       topicsUsed = []
@@ -231,13 +232,19 @@ class Brokers:
           else:
             (ret_msg, ret_qos, receivedTime, properties) = retained_message
           thisqos = min(ret_qos, subsoptions[i].QoS)
+          properties = copy.deepcopy(properties)
+          for subsid in getattr(subsprops[i], "SubscriptionIdentifier", []):
+            if properties == None:
+              properties = Properties(PacketTypes.PUBLISH)
+            properties.SubscriptionIdentifier = subsid
           self.__clients[aClientid].publishArrived(s, ret_msg, thisqos, properties, receivedTime, True)
       i += 1
 
   def subscribe(self, aClientid, topic, optionsprops):
     rc = self.se.subscribe(aClientid, topic, optionsprops)
     resubscribeds = [resubscribed for (x, resubscribed) in rc]
-    self.__doRetained__(aClientid, topic, [options for (options, props) in optionsprops], resubscribeds)
+    self.__doRetained__(aClientid, topic, [options for (options, props) in optionsprops], resubscribeds,
+             [props for (options, props) in optionsprops])
     return rc
 
   def unsubscribe(self, aClientid, topic):
-- 
2.43.0


From 849d5669c301d917920378d232ec4df3bd4c5850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:47 +0000
Subject: [PATCH 37/83] fix: delayed will message was lost if its session was
 ended by a new connection

---
 interoperability/mqtt/brokers/V5/MQTTBrokers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/interoperability/mqtt/brokers/V5/MQTTBrokers.py b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
index 2015356..e7fb3ff 100644
--- a/interoperability/mqtt/brokers/V5/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
@@ -508,6 +508,10 @@ class MQTTBrokers:
       if me:
         logger.info("[MQTT5-3.1.3-2] clientid used to retrieve client state")
         logger.info("[MQTT5-3.2.2-3] session present must be set to 1")
+    if clean and packet.ClientIdentifier in self.broker.willMessageClients:
+      # the session of the delayed will has ended
+      self.broker.cleanSession(packet.ClientIdentifier)
+      self.broker.sendWillMessage(packet.ClientIdentifier)
     resp.sessionPresent = True if me else False
     # Connack topic alias maximum for incoming client created topic aliases
     if self.options["topicAliasMaximum"] > 0:
-- 
2.43.0


From d4666a5682dddb5834c5336a810d79e5af34a877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:47 +0000
Subject: [PATCH 38/83] fix: a client's own will message was sent to its
 closing connection, after any DISCONNECT

---
 interoperability/mqtt/brokers/V311/Brokers.py | 1 +
 interoperability/mqtt/brokers/V5/Brokers.py   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/interoperability/mqtt/brokers/V311/Brokers.py b/interoperability/mqtt/brokers/V311/Brokers.py
index 143fb78..5b0b70a 100644
--- a/interoperability/mqtt/brokers/V311/Brokers.py
+++ b/interoperability/mqtt/brokers/V311/Brokers.py
@@ -64,6 +64,7 @@ class Brokers:
   def terminate(self, aClientid):
     "Abrupt disconnect which also causes a will msg to be sent out"
     if aClientid in self.__clients.keys() and self.__clients[aClientid].connected:
+      self.__clients[aClientid].connected = False # the will message must not be sent to the closing connection
       if self.__clients[aClientid].will != None:
         logger.info("[MQTT-3.1.2-8] sending will message for client %s", aClientid)
         willtopic, willQoS, willmsg, willRetain = self.__clients[aClientid].will
diff --git a/interoperability/mqtt/brokers/V5/Brokers.py b/interoperability/mqtt/brokers/V5/Brokers.py
index 5cab174..ab0903d 100644
--- a/interoperability/mqtt/brokers/V5/Brokers.py
+++ b/interoperability/mqtt/brokers/V5/Brokers.py
@@ -84,6 +84,7 @@ class Brokers:
   def setupWillMessage(self, aClientid):
     "Sends the will message, if any, for a client"
     if aClientid in self.__clients.keys() and self.__clients[aClientid].connected:
+      self.__clients[aClientid].connected = False # the will message must not be sent to the closing connection
       if self.__clients[aClientid].will != None:
         if self.__clients[aClientid].willDelayInterval > 0:
           self.__clients[aClientid].delayedWillTime = time.monotonic() + self.__clients[aClientid].willDelayInterval
-- 
2.43.0


From 45a524d748ae95d0a65e2dec917b6e41d3ae3f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:47 +0000
Subject: [PATCH 39/83] fix: PUBREC with an error reason code was answered with
 PUBREL

---
 interoperability/mqtt/brokers/V5/MQTTBrokers.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/interoperability/mqtt/brokers/V5/MQTTBrokers.py b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
index e7fb3ff..8d6e7a7 100644
--- a/interoperability/mqtt/brokers/V5/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
@@ -271,6 +271,14 @@ class MQTTClients:
       logger.error("%s: Pubrec received for msgid %d, but no message found", self.id, msgid)
     return rc
 
+  def pubrecError(self, msgid):
+    "the publish has been refused, so there is no pubrel"
+    if msgid in self.outmsgs.keys():
+      pub = self.outmsgs[msgid]
+      if pub.fh.QoS == 2 and pub.qos2state == "PUBREC":
+        self.finished(pub)
+        self.sendQueued()
+
   def pubcomp(self, msgid):
     if msgid in self.outmsgs.keys():
       pub = self.outmsgs[msgid]
@@ -796,7 +804,9 @@ class MQTTBrokers:
   def pubrec(self, sock, packet):
     "confirmed reception of qos 2"
     myclient = self.clients[sock]
-    if myclient.pubrec(packet.packetIdentifier):
+    if packet.reasonCode.value >= 0x80:
+      myclient.pubrecError(packet.packetIdentifier)
+    elif myclient.pubrec(packet.packetIdentifier):
       logger.info("[MQTT-3.5.4-1] must reply with pubrel in response to pubrec")
       resp = MQTTV5.Pubrels()
       logger.info("[MQTT5-2.2.1-5-pubrel] pubrel message id same as publish")
-- 
2.43.0


From 259acf4a7337df3adc5301fb95d756958657680f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:47 +0000
Subject: [PATCH 40/83] fix: cmd/disconnectWithRC command did not work

---
 interoperability/mqtt/brokers/V5/MQTTBrokers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/interoperability/mqtt/brokers/V5/MQTTBrokers.py b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
index 8d6e7a7..588992c 100644
--- a/interoperability/mqtt/brokers/V5/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
@@ -758,11 +758,11 @@ class MQTTBrokers:
         props = MQTTV5.Properties(MQTTV5.PacketTypes.DISCONNECT)
         props.ReasonString = "This is a custom Reason String"
         props.ServerReference = "tcp://localhost:1883"
-        props.UserPropertyList = [("key", "value")]
+        props.UserProperty = ("key", "value")
         self.disconnect(sock,
                         None,
                         sendWillMessage=False,
-                        reasonCode=returnCode,
+                        reasonCode=MQTTV5.ReasonCodes(MQTTV5.PacketTypes.DISCONNECT, identifier=returnCode).getName(),
                         properties=props)
 
 
-- 
2.43.0


From 54ad7992004a4705f9c22abe0eb965fb8899fcf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:47 +0000
Subject: [PATCH 41/83] fix: reinitialize separated the data shared by the
 brokers, and left delayed wills of clients no longer known

---
 interoperability/mqtt/brokers/V311/SubscriptionEngines.py | 6 +++++-
 interoperability/mqtt/brokers/V5/Brokers.py               | 1 +
 interoperability/mqtt/brokers/V5/SubscriptionEngines.py   | 6 +++++-
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/interoperability/mqtt/brokers/V311/SubscriptionEngines.py b/interoperability/mqtt/brokers/V311/SubscriptionEngines.py
index 0aef295..cc58ca0 100644
--- a/interoperability/mqtt/brokers/V311/SubscriptionEngines.py
+++ b/interoperability/mqtt/brokers/V311/SubscriptionEngines.py
@@ -44,7 +44,11 @@ class SubscriptionEngines:
      self.__dollar_retained = self.sharedData["dollar_retained"]  
 
    def reinitialize(self):
-     self.__init__()
+     # the data is shared with other brokers
+     for store in [self.__subscriptions, self.__dollar_subscriptions]:
+       del store[:]
+     for store in [self.__retained, self.__dollar_retained]:
+       store.clear()
 
    def subscribe(self, aClientid, topic, qos):
      if type(topic) == type([]):
diff --git a/interoperability/mqtt/brokers/V5/Brokers.py b/interoperability/mqtt/brokers/V5/Brokers.py
index ab0903d..2bc32ad 100644
--- a/interoperability/mqtt/brokers/V5/Brokers.py
+++ b/interoperability/mqtt/brokers/V5/Brokers.py
@@ -40,6 +40,7 @@ class Brokers:
 
   def reinitialize(self):
     self.__clients = {}
+    self.willMessageClients.clear()
     self.se.reinitialize()
 
   def getClients(self):
diff --git a/interoperability/mqtt/brokers/V5/SubscriptionEngines.py b/interoperability/mqtt/brokers/V5/SubscriptionEngines.py
index 99d112c..faaa663 100644
--- a/interoperability/mqtt/brokers/V5/SubscriptionEngines.py
+++ b/interoperability/mqtt/brokers/V5/SubscriptionEngines.py
@@ -48,7 +48,11 @@ class SubscriptionEngines:
      self.__dollar_retained = self.sharedData["dollar_retained"] 
 
    def reinitialize(self):
-     self.__init__()
+     # the data is shared with other brokers
+     for store in [self.__subscriptions, self.__dollar_subscriptions]:
+       del store[:]
+     for store in [self.__retained, self.__dollar_retained]:
+       store.clear()
 
    def subscribe(self, aClientid, topic, options):
      if type(topic) == type([]):
-- 
2.43.0


From 31a370b669bb014955218fd86b06dc88b1c2f27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:21 +0000
Subject: [PATCH 42/83] fix: packets other than PUBLISH were not limited to the
 maximum packet size of the client

---
 interoperability/mqtt/brokers/V5/MQTTBrokers.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/interoperability/mqtt/brokers/V5/MQTTBrokers.py b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
index 588992c..a02add2 100644
--- a/interoperability/mqtt/brokers/V5/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
@@ -27,7 +27,9 @@ logger = logging.getLogger('MQTT broker')
 
 mybroker = None
 
-def respond(sock, packet, maximumPacketSize=500):
+def respond(sock, packet, maximumPacketSize=None):
+  if maximumPacketSize == None:
+    maximumPacketSize = mybroker.clients[sock].maximumPacketSize if sock in mybroker.clients.keys() else MQTTV5.MAX_PACKET_SIZE
   # deal with expiry
   if packet.fh.PacketType == MQTTV5.PacketTypes.PUBLISH:
     if hasattr(packet.properties, "MessageExpiryInterval"):
@@ -44,6 +46,11 @@ def respond(sock, packet, maximumPacketSize=500):
           traceback.print_exc()
   packed = packet.pack()
   # deal with packet size
+  if packet.fh.PacketType != MQTTV5.PacketTypes.PUBLISH:
+    for name in ["UserProperty", "ReasonString"]: # these must be left out if they make the packet too big
+      if len(packed) > maximumPacketSize and hasattr(packet, "properties") and hasattr(packet.properties, name):
+        delattr(packet.properties, name)
+        packed = packet.pack()
   packlen = len(packed)
   if packlen > maximumPacketSize:
     logger.error("[MQTT5-3.1.2-24] Packet too big to send to client packet size %d max packet size %d" % (packlen, maximumPacketSize))
-- 
2.43.0


From 7d3e5011898ef2a4c3985fdf67f9371ff79ced00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:21 +0000
Subject: [PATCH 43/83] fix: CONNECT with a maximum packet size over the
 protocol limit was refused, and zero maximums accepted

---
 interoperability/mqtt/brokers/V5/MQTTBrokers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/interoperability/mqtt/brokers/V5/MQTTBrokers.py b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
index a02add2..8b94173 100644
--- a/interoperability/mqtt/brokers/V5/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
@@ -497,6 +497,9 @@ class MQTTBrokers:
       logger.info("[MQTT5-3.1.3-5] Clientids of 1 to 23 chars and ascii alphanumeric must be allowed")
       if False: # reject clientid test
         logger.info("[MQTT5-3.1.3-8] server rejects clientid - may return connack")
+    for name in ["ReceiveMaximum", "MaximumPacketSize"]:
+      if getattr(packet.properties, name, 1) == 0:
+        raise MQTTV5.ProtocolError("Protocol error")
     if packet.ClientIdentifier in [client.id for client in self.clients.values()]: # is this client already connected on a different socket?
       for cursock in self.clients.keys():
         if self.clients[cursock].id == packet.ClientIdentifier:
@@ -568,9 +571,8 @@ class MQTTBrokers:
     # the topic alias maximum in the connect properties sets the maximum outgoing topic aliases for a client
     me.topicAliasMaximum = packet.properties.TopicAliasMaximum if hasattr(packet.properties, "TopicAliasMaximum") else 0
     me.maximumPacketSize = packet.properties.MaximumPacketSize if hasattr(packet.properties, "MaximumPacketSize") else MQTTV5.MAX_PACKET_SIZE
-    assert me.maximumPacketSize <= MQTTV5.MAX_PACKET_SIZE # is this the correct value?
+    me.maximumPacketSize = min(me.maximumPacketSize, MQTTV5.MAX_PACKET_SIZE)
     me.receiveMaximum = packet.properties.ReceiveMaximum if hasattr(packet.properties, "ReceiveMaximum") else MQTTV5.MAX_PACKETID
-    assert me.receiveMaximum <= MQTTV5.MAX_PACKETID
     logger.info("[MQTT-4.1.0-1] server must store data for at least as long as the network connection lasts")
     self.clients[sock] = me
     me.will = (packet.WillTopic, packet.WillQoS, packet.WillMessage, packet.WillRETAIN, packet.WillProperties) if packet.WillFlag else None
-- 
2.43.0


From 1fd0bffc2548141e488a3e2625500174d4d37a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:21 +0000
Subject: [PATCH 44/83] fix: 3.1.1 UNSUBSCRIBE stopped at the first matching
 filter, and SUBSCRIBE to the test topics failed

---
 interoperability/mqtt/brokers/V311/MQTTBrokers.py         | 8 ++++----
 interoperability/mqtt/brokers/V311/SubscriptionEngines.py | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/interoperability/mqtt/brokers/V311/MQTTBrokers.py b/interoperability/mqtt/brokers/V311/MQTTBrokers.py
index b5484a6..dca185c 100644
--- a/interoperability/mqtt/brokers/V311/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V311/MQTTBrokers.py
@@ -296,7 +296,7 @@ class MQTTBrokers:
         return
       else:
         logger.info("[MQTT-3.1.3-7] 0-length clientid must have cleansession true")
-        packet.ClientIdentifier = uuid.uuid4() # give the client a unique clientid
+        packet.ClientIdentifier = str(uuid.uuid4()) # give the client a unique clientid
         logger.info("[MQTT-3.1.3-6] 0-length clientid must be assigned a unique id %s", packet.ClientIdentifier)
     logger.info("[MQTT-3.1.3-5] Clientids of 1 to 23 chars and ascii alphanumeric must be allowed")
     if packet.ClientIdentifier in [client.id for client in self.clients.values()]: # is this client already connected on a different socket?
@@ -360,9 +360,9 @@ class MQTTBrokers:
         respqoss.append(0x80)
       else:
         if p[0] == "test/QoS 1 only":
-          respqoss.append(min(1), p[1])
+          respqoss.append(min(1, p[1]))
         elif p[0] == "test/QoS 0 only":
-          respqoss.append(min(0), p[1])
+          respqoss.append(min(0, p[1]))
         else:
           respqoss.append(p[1])
         topics.append(p[0])
@@ -425,7 +425,7 @@ class MQTTBrokers:
         else:
           myclient.inbound.append(packet.messageIdentifier)
           logger.info("[MQTT-4.3.3-2] server must store message in accordance with QoS 2")
-          self.broker.publish(myclient, packet.topicName, packet.data, packet.fh.QoS, packet.fh.RETAIN,
+          self.broker.publish(myclient.id, packet.topicName, packet.data, packet.fh.QoS, packet.fh.RETAIN,
                       packet.receivedTime)
       resp = MQTTV3.Pubrecs()
       logger.info("[MQTT-2.3.1-6] pubrec messge id same as publish")
diff --git a/interoperability/mqtt/brokers/V311/SubscriptionEngines.py b/interoperability/mqtt/brokers/V311/SubscriptionEngines.py
index cc58ca0..848246d 100644
--- a/interoperability/mqtt/brokers/V311/SubscriptionEngines.py
+++ b/interoperability/mqtt/brokers/V311/SubscriptionEngines.py
@@ -87,8 +87,8 @@ class SubscriptionEngines:
        if len(aTopic) > 1:
          logger.info("[MQTT-3.10.4-6] each topic must be processed in sequence")
        for t in aTopic:
-         if not matched:
-           matched = self.__unsubscribe(aClientid, t)
+         if self.__unsubscribe(aClientid, t):
+           matched = True
      else:
        matched = self.__unsubscribe(aClientid, aTopic)
      if not matched:
-- 
2.43.0


From bc1240e5368ee42f1909bd755cc1cac414240123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:21 +0000
Subject: [PATCH 45/83] fix: 3.1.1 messages queued for a disconnected client
 were first sent with DUP set, and QoS 0 ones on every connection

---
 interoperability/mqtt/brokers/V311/MQTTBrokers.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/interoperability/mqtt/brokers/V311/MQTTBrokers.py b/interoperability/mqtt/brokers/V311/MQTTBrokers.py
index dca185c..b1e1b2f 100644
--- a/interoperability/mqtt/brokers/V311/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V311/MQTTBrokers.py
@@ -61,24 +61,25 @@ class MQTTClients:
     logger.debug("resending unfinished publications %s", str(self.outbound))
     if len(self.outbound) > 0:
       logger.info("[MQTT-4.4.0-1] resending inflight QoS 1 and 2 messages")
-    for pub in self.outbound:
+    for pub in self.outbound[:]:
       logger.debug("resending "+str(pub))
       logger.info("[MQTT-4.4.0-2] dup flag must be set on in re-publish")
       if pub.fh.QoS == 0:
+        self.outbound.remove(pub)
         respond(self.socket, pub)
       elif pub.fh.QoS == 1:
-        pub.fh.DUP = 1
         logger.info("[MQTT-2.1.2-3] Dup when resending QoS 1 publish id %d", pub.messageIdentifier)
         logger.info("[MQTT-2.3.1-4] Message id same as original publish on resend")
         logger.info("[MQTT-4.3.2-1] Resending QoS 1 with DUP flag")
         respond(self.socket, pub)
+        pub.fh.DUP = 1 # DUP is not set the first time it is sent
       elif pub.fh.QoS == 2:
         if pub.qos2state == "PUBREC":
           logger.info("[MQTT-2.1.2-3] Dup when resending QoS 2 publish id %d", pub.messageIdentifier)
-          pub.fh.DUP = 1
           logger.info("[MQTT-2.3.1-4] Message id same as original publish on resend")
           logger.info("[MQTT-4.3.3-1] Resending QoS 2 with DUP flag")
           respond(self.socket, pub)
+          pub.fh.DUP = 1
         else:
           resp = MQTTV3.Pubrels()
           logger.info("[MQTT-2.3.1-4] Message id same as original publish on resend")
@@ -113,6 +114,8 @@ class MQTTClients:
     logger.info("[MQTT-4.6.0-6] publish packets must be sent in order of receipt from any given client")
     if self.connected:
       respond(self.socket, pub)
+      if qos in [1, 2]:
+        pub.fh.DUP = 1 # from now on
     else:
       if qos == 0 and not self.broker.dropQoS0:
         self.outbound.append(pub)
-- 
2.43.0


From 3b45c1d0e6c286d60fb37ad1b991df897f1ae524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:21 +0000
Subject: [PATCH 46/83] fix: 3.1.1 QoS 2 PUBLISH with an empty topic name was
 acknowledged

---
 interoperability/mqtt/brokers/V311/MQTTBrokers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/interoperability/mqtt/brokers/V311/MQTTBrokers.py b/interoperability/mqtt/brokers/V311/MQTTBrokers.py
index b1e1b2f..4bbc4e5 100644
--- a/interoperability/mqtt/brokers/V311/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V311/MQTTBrokers.py
@@ -394,6 +394,8 @@ class MQTTBrokers:
 
   def publish(self, sock, packet):
     packet.receivedTime = time.monotonic()
+    if len(packet.topicName) == 0:
+      raise MQTTV3.MQTTException("[MQTT-4.7.3-1] topic name must be at least one character long")
     if packet.topicName.find("+") != -1 or packet.topicName.find("#") != -1:
       raise MQTTV3.MQTTException("[MQTT-3.3.2-2][MQTT-4.7.1-1] wildcards not allowed in topic name")
     if packet.fh.QoS == 0:
-- 
2.43.0


From a7f41c611af49ab4747ebdd156ed12d1da639f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:21 +0000
Subject: [PATCH 47/83] fix: publications of 3.1.1 clients did not take account
 of the options of 5.0 subscriptions

---
 interoperability/mqtt/brokers/V311/Brokers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/interoperability/mqtt/brokers/V311/Brokers.py b/interoperability/mqtt/brokers/V311/Brokers.py
index 5b0b70a..502dabb 100644
--- a/interoperability/mqtt/brokers/V311/Brokers.py
+++ b/interoperability/mqtt/brokers/V311/Brokers.py
@@ -101,6 +101,9 @@ class Brokers:
     """publish to all subscribed connected clients
        also to any disconnected non-cleansession clients with qos in [1,2]
     """
+    if self.__broker5: # subscriptions are shared with the V5 broker, including those of V3 clients
+      self.__broker5.publish(aClientid, topic, message, qos, retained, None, receivedTime)
+      return
     if retained:
       logger.info("[MQTT-2.1.2-6] store retained message and QoS")
       self.se.setRetained(topic, message, qos, receivedTime)
-- 
2.43.0


From d55c07a7cfa685a82bef50b4f29378b88f60341e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:33 +0000
Subject: [PATCH 48/83] fix: connection closed within the first bytes of
 CONNECT left a thread looping

---
 interoperability/mqtt/brokers/listeners/TCPListeners.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/interoperability/mqtt/brokers/listeners/TCPListeners.py b/interoperability/mqtt/brokers/listeners/TCPListeners.py
index 35a9d83..324f3d5 100644
--- a/interoperability/mqtt/brokers/listeners/TCPListeners.py
+++ b/interoperability/mqtt/brokers/listeners/TCPListeners.py
@@ -170,8 +170,10 @@ class WebSocketTCPHandler(socketserver.StreamRequestHandler):
             if broker == None:
               connbuf = sock.recv(1)
               if connbuf == b'\x10': # connect packet
-                while connbuf[-4:] != b"MQTT" and len(connbuf) < 10:
-                  connbuf += sock.recv(1)
+                char = connbuf
+                while connbuf[-4:] != b"MQTT" and len(connbuf) < 11 and len(char) > 0:
+                  char = sock.recv(1)
+                  connbuf += char
                 connbuf += sock.recv(1)
                 version = connbuf[-1]
                 if version == 4:
-- 
2.43.0


From 83d1f741438f18f541a6725542a4c922dee58fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:33 +0000
Subject: [PATCH 49/83] fix: WebSocket frames holding several packets, arriving
 in pieces, or with control opcodes were not handled

---
 .../mqtt/brokers/listeners/TCPListeners.py    | 62 +++++++++++++++----
 1 file changed, 49 insertions(+), 13 deletions(-)

diff --git a/interoperability/mqtt/brokers/listeners/TCPListeners.py b/interoperability/mqtt/brokers/listeners/TCPListeners.py
index 324f3d5..5a1e489 100644
--- a/interoperability/mqtt/brokers/listeners/TCPListeners.py
+++ b/interoperability/mqtt/brokers/listeners/TCPListeners.py
@@ -35,31 +35,49 @@ class BufferedSockets:
     self.socket = socket
     self.buffer = bytearray()
     self.websockets = False
+    self.closed = False # by a websocket close frame, or end of data
 
   def rebuffer(self, data):
     self.buffer = data + self.buffer
 
+  def pending(self):
+    "is there data already received, that select doesn't know about?"
+    return len(self.buffer) > 0 or (hasattr(self.socket, "pending") and self.socket.pending() > 0)
+
+  def recvall(self, count):
+    "receive exactly count bytes"
+    data = self.socket.recv(count)
+    while len(data) < count:
+      more = self.socket.recv(count - len(data))
+      if len(more) == 0:
+        raise EOFError("websocket connection closed")
+      data += more
+    return data
+
   def wsrecv(self):
-    header1 = ord(self.socket.recv(1))
-    header2 = ord(self.socket.recv(1))
+    char = self.socket.recv(1)
+    self.socket.settimeout(None) # the rest of the frame can take its time
+    if len(char) == 0:
+      self.closed = True
+      return
+    header1 = ord(char)
+    header2 = ord(self.recvall(1))
 
     opcode = (header1 & 0x0f)
     maskbit = (header2 & 0x80) == 0x80
     length = (header2 & 0x7f) # works for 0 to 125 inclusive
     if length == 126: # for 126 to 65535 inclusive
-      lb1 = ord(self.socket.recv(1))
-      lb2 = ord(self.socket.recv(1))
+      lb1 = ord(self.recvall(1))
+      lb2 = ord(self.recvall(1))
       length = lb1*256 + lb2
     elif length == 127:
       length = 0
       for i in range(0, 8):
-        length += ord(self.socket.recv(1)) * 2**((7 - i)*8)
+        length += ord(self.recvall(1)) * 2**((7 - i)*8)
     assert maskbit == True
     if maskbit:
-      mask = self.socket.recv(4)
-    mpayload = bytearray()
-    while len(mpayload) < length:
-      mpayload += self.socket.recv(length - len(mpayload))
+      mask = self.recvall(4)
+    mpayload = self.recvall(length) if length > 0 else b""
     buffer = bytearray()
     if maskbit:
       mi = 0
@@ -68,11 +86,16 @@ class BufferedSockets:
         mi = (mi+1)%4
     else:
       buffer = mpayload
-    self.buffer += buffer
+    if opcode == 8: # close
+      self.closed = True
+    elif opcode == 9: # ping
+      self.sendframe(0x8A, buffer)
+    elif opcode != 10: # not a pong
+      self.buffer += buffer
 
   def recv(self, bufsize):
     if self.websockets:
-      while len(self.buffer) < bufsize:
+      while len(self.buffer) < bufsize and not self.closed:
         self.wsrecv()
       out = self.buffer[:bufsize]
       self.buffer = self.buffer[bufsize:]
@@ -89,9 +112,12 @@ class BufferedSockets:
     return getattr(self.socket, name)
 
   def send(self, data):
+    return self.sendframe(0x82, data)
+
+  def sendframe(self, opcode, data):
     header = bytearray()
     if self.websockets:
-      header.append(0x82) # opcode
+      header.append(opcode)
       l = len(data)
       if l < 126:
         header.append(l)
@@ -155,7 +181,17 @@ class WebSocketTCPHandler(socketserver.StreamRequestHandler):
       try:
         if not keptalive:
           logger.debug("Waiting for request")
-        (i, o, e) = select.select([sock], [], [], 1)
+        if sock.pending():
+          (i, o, e) = ([sock], [], [])
+        else:
+          (i, o, e) = select.select([sock], [], [], 1)
+        if i == [sock] and sock.websockets and not sock.pending():
+          try:
+            sock.wsrecv()
+          except Exception:
+            sock.closed = True
+          if not sock.pending() and not sock.closed:
+            continue # no MQTT data in the frame
         if i == [sock]:
           if first:
             char = sock.recv(1)
-- 
2.43.0


From 044a1aa32b18bbd6891fafe840f9327211828af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:33 +0000
Subject: [PATCH 50/83] fix: WebSocket handshake arriving in several pieces was
 not recognized

---
 .../mqtt/brokers/listeners/TCPListeners.py           | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/interoperability/mqtt/brokers/listeners/TCPListeners.py b/interoperability/mqtt/brokers/listeners/TCPListeners.py
index 5a1e489..2978eea 100644
--- a/interoperability/mqtt/brokers/listeners/TCPListeners.py
+++ b/interoperability/mqtt/brokers/listeners/TCPListeners.py
@@ -153,13 +153,19 @@ class WebSocketTCPHandler(socketserver.StreamRequestHandler):
     lines = data.splitlines()
     for curline in lines[1:]:
       if curline.find(":") != -1:
-        key, value = curline.split(": ", 1)
-        headers[key.upper()] = value     # headers are case insensitive
+        key, value = curline.split(":", 1)
+        headers[key.upper()] = value.strip()     # headers are case insensitive
     return headers
 
   def handshake(self, client):
     GUID = "258EAFA5-E914-47DA-95CA-C5AB0DC85B11"
-    data = client.recv(1024).decode('utf-8')
+    data = b""
+    while not data.endswith(b"\r\n\r\n"): # the request can arrive in several pieces
+      char = client.recv(1)
+      if len(char) == 0 or len(data) > 65535:
+        raise EOFError("incomplete websocket handshake")
+      data += char
+    data = data.decode('utf-8')
     headers = self.getheaders(data)
     digest = base64.b64encode(hashlib.sha1((headers['SEC-WEBSOCKET-KEY'] + GUID).encode("utf-8")).digest())
     resp = b"HTTP/1.1 101 Switching Protocols\r\n" +\
-- 
2.43.0


From 58b9c5ef06f9a86b02917b45a78b0861e41ab2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:32 +0000
Subject: [PATCH 51/83] fix: keepalive did not apply to a connection stalled in
 the middle of a packet

---
 .../mqtt/brokers/listeners/TCPListeners.py    | 23 ++++++++++++++-----
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/interoperability/mqtt/brokers/listeners/TCPListeners.py b/interoperability/mqtt/brokers/listeners/TCPListeners.py
index 2978eea..cbabcc6 100644
--- a/interoperability/mqtt/brokers/listeners/TCPListeners.py
+++ b/interoperability/mqtt/brokers/listeners/TCPListeners.py
@@ -36,6 +36,7 @@ class BufferedSockets:
     self.buffer = bytearray()
     self.websockets = False
     self.closed = False # by a websocket close frame, or end of data
+    self.idle = None # called regularly while waiting for data
 
   def rebuffer(self, data):
     self.buffer = data + self.buffer
@@ -44,18 +45,25 @@ class BufferedSockets:
     "is there data already received, that select doesn't know about?"
     return len(self.buffer) > 0 or (hasattr(self.socket, "pending") and self.socket.pending() > 0)
 
+  def rawrecv(self, count):
+    if self.idle: # keepalives apply to a connection in the middle of a packet too
+      while not (hasattr(self.socket, "pending") and self.socket.pending() > 0) and \
+            select.select([self.socket], [], [], 1)[0] == []:
+        self.idle()
+    return self.socket.recv(count)
+
   def recvall(self, count):
     "receive exactly count bytes"
-    data = self.socket.recv(count)
+    data = self.rawrecv(count)
     while len(data) < count:
-      more = self.socket.recv(count - len(data))
+      more = self.rawrecv(count - len(data))
       if len(more) == 0:
         raise EOFError("websocket connection closed")
       data += more
     return data
 
   def wsrecv(self):
-    char = self.socket.recv(1)
+    char = self.rawrecv(1)
     self.socket.settimeout(None) # the rest of the frame can take its time
     if len(char) == 0:
       self.closed = True
@@ -104,7 +112,7 @@ class BufferedSockets:
         out = self.buffer[:bufsize]
         self.buffer = self.buffer[bufsize:]
       else:
-        out = self.buffer + self.socket.recv(bufsize - len(self.buffer))
+        out = self.buffer + self.rawrecv(bufsize - len(self.buffer))
         self.buffer = bytes()
     return out
 
@@ -180,6 +188,10 @@ class WebSocketTCPHandler(socketserver.StreamRequestHandler):
     first = True
     broker = None
     sock = BufferedSockets(self.request)
+    def idle():
+      broker3.keepalive(sock)
+      broker5.keepalive(sock)
+    sock.idle = idle
     sock_no = sock.fileno()
     terminate = keptalive = False
     logger.info("Starting communications for socket %d", sock_no)
@@ -230,8 +242,7 @@ class WebSocketTCPHandler(socketserver.StreamRequestHandler):
           keptalive = False
           first = False
         elif (i, o, e) == ([], [], []):
-          broker3.keepalive(sock)
-          broker5.keepalive(sock)
+          idle()
           keptalive = True
         else:
           break
-- 
2.43.0


From 7d1550eb81ca294ce658f93f81eb72f409f8b3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:32 +0000
Subject: [PATCH 52/83] fix: client sent the start of a packet again after a
 partial write

---
 interoperability/mqtt/clients/V311/main.py | 2 +-
 interoperability/mqtt/clients/V5/main.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/interoperability/mqtt/clients/V311/main.py b/interoperability/mqtt/clients/V311/main.py
index e691dd5..67a55a6 100755
--- a/interoperability/mqtt/clients/V311/main.py
+++ b/interoperability/mqtt/clients/V311/main.py
@@ -39,7 +39,7 @@ def sendtosocket(mysocket, data):
   sent = 0
   length = len(data)
   while sent < length:
-    sent += mysocket.send(data)
+    sent += mysocket.send(data[sent:])
 
 class Callback:
 
diff --git a/interoperability/mqtt/clients/V5/main.py b/interoperability/mqtt/clients/V5/main.py
index 36e33aa..e5cb57c 100755
--- a/interoperability/mqtt/clients/V5/main.py
+++ b/interoperability/mqtt/clients/V5/main.py
@@ -40,7 +40,7 @@ def sendtosocket(mysocket, data):
   length = len(data)
   try:
     while sent < length:
-      sent += mysocket.send(data)
+      sent += mysocket.send(data[sent:])
   except:
     pass # could be socket error
   return sent
-- 
2.43.0


From 4baf683a2af5fcd8bda34c5481c45ef292c500c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:32 +0000
Subject: [PATCH 53/83] fix: client did not keep track of PUBRECs, and did not
 answer a repeated PUBREL

---
 interoperability/mqtt/clients/V311/internal.py | 18 ++++++++++++------
 interoperability/mqtt/clients/V311/main.py     |  2 --
 interoperability/mqtt/clients/V5/internal.py   | 18 ++++++++++++------
 interoperability/mqtt/clients/V5/main.py       |  2 --
 4 files changed, 24 insertions(+), 16 deletions(-)

diff --git a/interoperability/mqtt/clients/V311/internal.py b/interoperability/mqtt/clients/V311/internal.py
index 6aab0b4..233c172 100755
--- a/interoperability/mqtt/clients/V311/internal.py
+++ b/interoperability/mqtt/clients/V311/internal.py
@@ -31,6 +31,7 @@ class Receivers:
 
     self.inMsgs = {}
     self.outMsgs = {}
+    self.pubrecs = set() # ids of outMsgs for which PUBREC has been received
 
     self.puback = MQTTV3.Pubacks()
     self.pubrec = MQTTV3.Pubrecs()
@@ -71,8 +72,9 @@ class Receivers:
         raise Exception("No QoS 1 with that message id sent")
 
     elif packet.fh.MessageType == MQTTV3.PUBREC:
-      if packet.messageIdentifier in self.outMsgs.keys():
-        self.outMsgs[packet.messageIdentifier].pubrec_received == True
+      if packet.messageIdentifier in self.outMsgs.keys() and \
+        self.outMsgs[packet.messageIdentifier].fh.QoS == 2:
+        self.pubrecs.add(packet.messageIdentifier)
         self.pubrel.messageIdentifier = packet.messageIdentifier
         logging.debug("out: %s", str(self.pubrel))
         self.socket.send(self.pubrel.pack())
@@ -84,7 +86,10 @@ class Receivers:
       "release QOS 2 publication to client, & send PUBCOMP"
       msgid = packet.messageIdentifier
       if packet.messageIdentifier not in self.inMsgs.keys():
-        pass # what should we do here?
+        # the message was completed before, but the PUBCOMP might have been lost
+        self.pubcomp.messageIdentifier = packet.messageIdentifier
+        logging.debug("out: %s", str(self.pubcomp))
+        self.socket.send(self.pubcomp.pack())
       else:
         pub = self.inMsgs[packet.messageIdentifier]
         if callback == None or \
@@ -100,7 +105,8 @@ class Receivers:
 
     elif packet.fh.MessageType == MQTTV3.PUBCOMP:
       "finished with this message id"
-      if packet.messageIdentifier in self.outMsgs.keys():
+      if packet.messageIdentifier in self.pubrecs:
+        self.pubrecs.remove(packet.messageIdentifier)
         del self.outMsgs[packet.messageIdentifier]
         if hasattr(callback, "published"):
           callback.published(packet.messageIdentifier)
@@ -140,8 +146,8 @@ class Receivers:
   def resend(self):
     for packetid in self.outMsgs.keys():
       packet = self.outMsgs[packetid]
-      if packet.fh.QoS == 2 and hasattr(packet, "pubrec_received"):
-        self.pubrel.messageIdentifier = packet.messageIdentifier
+      if packet.fh.QoS == 2 and packetid in self.pubrecs:
+        self.pubrel.messageIdentifier = packetid
         packet = self.pubrel
       else:
         packet.fh.DUP = True
diff --git a/interoperability/mqtt/clients/V311/main.py b/interoperability/mqtt/clients/V311/main.py
index 67a55a6..329b98d 100755
--- a/interoperability/mqtt/clients/V311/main.py
+++ b/interoperability/mqtt/clients/V311/main.py
@@ -169,8 +169,6 @@ class Client:
       publish.messageIdentifier = 0
     else:
       publish.messageIdentifier = self.__nextMsgid()
-      if publish.fh.QoS == 2:
-        publish.pubrec_received = False
       self.__receiver.outMsgs[publish.messageIdentifier] = publish
     publish.topicName = topic
     publish.data = payload
diff --git a/interoperability/mqtt/clients/V5/internal.py b/interoperability/mqtt/clients/V5/internal.py
index 92c7989..38945d9 100755
--- a/interoperability/mqtt/clients/V5/internal.py
+++ b/interoperability/mqtt/clients/V5/internal.py
@@ -34,6 +34,7 @@ class Receivers:
 
     self.inMsgs = {}
     self.outMsgs = {}
+    self.pubrecs = set() # ids of outMsgs for which PUBREC has been received
 
     self.puback = MQTTV5.Pubacks()
     self.pubrec = MQTTV5.Pubrecs()
@@ -78,8 +79,9 @@ class Receivers:
         raise Exception("No QoS 1 with that message id sent")
 
     elif packet.fh.PacketType == MQTTV5.PacketTypes.PUBREC:
-      if packet.packetIdentifier in self.outMsgs.keys():
-        #self.outMsgs[packet.packetIdentifier].pubrec_received = True
+      if packet.packetIdentifier in self.outMsgs.keys() and \
+        self.outMsgs[packet.packetIdentifier].fh.QoS == 2:
+        self.pubrecs.add(packet.packetIdentifier)
         self.pubrel.packetIdentifier = packet.packetIdentifier
         logger.debug("out: %s", str(self.pubrel))
         self.socket.send(self.pubrel.pack())
@@ -91,7 +93,10 @@ class Receivers:
       "release QOS 2 publication to client, & send PUBCOMP"
       msgid = packet.packetIdentifier
       if packet.packetIdentifier not in self.inMsgs.keys():
-        pass # what should we do here?
+        # the message was completed before, but the PUBCOMP might have been lost
+        self.pubcomp.packetIdentifier = packet.packetIdentifier
+        logger.debug("out: %s", str(self.pubcomp))
+        self.socket.send(self.pubcomp.pack())
       else:
         pub = self.inMsgs[packet.packetIdentifier]
         if callback == None or \
@@ -107,7 +112,8 @@ class Receivers:
 
     elif packet.fh.PacketType == MQTTV5.PacketTypes.PUBCOMP:
       "finished with this message id"
-      if packet.packetIdentifier in self.outMsgs.keys():
+      if packet.packetIdentifier in self.pubrecs:
+        self.pubrecs.remove(packet.packetIdentifier)
         del self.outMsgs[packet.packetIdentifier]
         if hasattr(callback, "published"):
           callback.published(packet.packetIdentifier)
@@ -147,8 +153,8 @@ class Receivers:
   def resend(self):
     for packetid in self.outMsgs.keys():
       packet = self.outMsgs[packetid]
-      if packet.fh.QoS == 2 and hasattr(packet, "pubrec_received"):
-        self.pubrel.packetIdentifier = packet.packetIdentifier
+      if packet.fh.QoS == 2 and packetid in self.pubrecs:
+        self.pubrel.packetIdentifier = packetid
         packet = self.pubrel
       else:
         packet.fh.DUP = True
diff --git a/interoperability/mqtt/clients/V5/main.py b/interoperability/mqtt/clients/V5/main.py
index e5cb57c..f160ed9 100755
--- a/interoperability/mqtt/clients/V5/main.py
+++ b/interoperability/mqtt/clients/V5/main.py
@@ -188,8 +188,6 @@ class Client:
       publish.packetIdentifier = 0
     else:
       publish.packetIdentifier = self.__nextMsgid()
-      if publish.fh.QoS == 2:
-        pass #publish.pubrec_received = False
       self.__receiver.outMsgs[publish.packetIdentifier] = publish
     publish.topicName = topic
     if properties:
-- 
2.43.0


From 4964f3e72a0a2769ed72d45365837b74463340f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:32 +0000
Subject: [PATCH 54/83] fix: client answered a PUBREC with an error reason code
 with PUBREL

---
 interoperability/mqtt/clients/V5/internal.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/interoperability/mqtt/clients/V5/internal.py b/interoperability/mqtt/clients/V5/internal.py
index 38945d9..9539e45 100755
--- a/interoperability/mqtt/clients/V5/internal.py
+++ b/interoperability/mqtt/clients/V5/internal.py
@@ -81,6 +81,11 @@ class Receivers:
     elif packet.fh.PacketType == MQTTV5.PacketTypes.PUBREC:
       if packet.packetIdentifier in self.outMsgs.keys() and \
         self.outMsgs[packet.packetIdentifier].fh.QoS == 2:
+        if packet.reasonCode.value >= 0x80: # refused, so there is no PUBREL
+          del self.outMsgs[packet.packetIdentifier]
+          if hasattr(callback, "published"):
+            callback.published(packet.packetIdentifier)
+          return
         self.pubrecs.add(packet.packetIdentifier)
         self.pubrel.packetIdentifier = packet.packetIdentifier
         logger.debug("out: %s", str(self.pubrel))
-- 
2.43.0


From d8d5ee7aa8869660965fca1c3f70cffa3682f5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:49 +0000
Subject: [PATCH 55/83] fix: MQTT-SN CONNECT failed, and publications did not
 reach MQTT subscribers properly

---
 interoperability/mqtt/brokers/SN/Brokers.py       | 9 ++++++---
 interoperability/mqtt/brokers/SN/MQTTSNBrokers.py | 4 ++--
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/interoperability/mqtt/brokers/SN/Brokers.py b/interoperability/mqtt/brokers/SN/Brokers.py
index 8049535..4acd697 100644
--- a/interoperability/mqtt/brokers/SN/Brokers.py
+++ b/interoperability/mqtt/brokers/SN/Brokers.py
@@ -57,7 +57,7 @@ class Brokers:
 
   def connect(self, aClient):
     aClient.connected = True
-    aClient.timestamp = time.clock()
+    aClient.timestamp = time.process_time()
     self.__clients[aClient.id] = aClient
     if aClient.cleansession:
       self.cleanSession(aClient.id)
@@ -84,7 +84,7 @@ class Brokers:
         del self.__clients[aClientid]
       else:
         logger.info("[MQTT-3.1.2-4] broker must store the session data for client %s", aClientid)
-        self.__clients[aClientid].timestamp = time.clock()
+        self.__clients[aClientid].timestamp = time.process_time()
         self.__clients[aClientid].connected = False 
         logger.info("[MQTT-3.1.2-10] will message is deleted after use or disconnect, for client %s", aClientid)
         logger.info("[MQTT-3.14.4-3] on receipt of disconnect, will message is deleted")
@@ -98,9 +98,12 @@ class Brokers:
     """publish to all subscribed connected clients
        also to any disconnected non-cleansession clients with qos in [1,2]
     """
+    if self.__broker5: # subscriptions are shared with the V5 broker
+      self.__broker5.publish(aClientid, topic, message, qos, retained, None, time.monotonic())
+      return
     if retained:
       logger.info("[MQTT-2.1.2-6] store retained message and QoS")
-      self.se.setRetained(topic, message, qos)
+      self.se.setRetained(topic, message, qos, time.monotonic())
     else:
       logger.info("[MQTT-2.1.2-12] non-retained message - do not store")
 
diff --git a/interoperability/mqtt/brokers/SN/MQTTSNBrokers.py b/interoperability/mqtt/brokers/SN/MQTTSNBrokers.py
index 26c2879..e1f45af 100644
--- a/interoperability/mqtt/brokers/SN/MQTTSNBrokers.py
+++ b/interoperability/mqtt/brokers/SN/MQTTSNBrokers.py
@@ -263,7 +263,7 @@ class MQTTSNBrokers:
       logger.info("[MQTT-3.1.4-5] When rejecting connect, no more data must be processed")
       raise MQTTSN.MQTTSNException("[MQTT-3.1.0-2] Second connect packet")
     if len(packet.ClientId) == 0:
-      if self.zero_length_clientids == False or packet.CleanSession == False:
+      if self.zero_length_clientids == False or packet.Flags.CleanSession == False:
         if self.zero_length_clientids:
           logger.info("[MQTT-3.1.3-8] Reject 0-length clientid with cleansession false")
         logger.info("[MQTT-3.1.3-9] if clientid is rejected, must send connack 2 and close connection")
@@ -276,7 +276,7 @@ class MQTTSNBrokers:
         return
       else:
         logger.info("[MQTT-3.1.3-7] 0-length clientid must have cleansession true")
-        packet.ClientId = uuid.uuid4() # give the client a unique clientid
+        packet.ClientId = str(uuid.uuid4()) # give the client a unique clientid
         logger.info("[MQTT-3.1.3-6] 0-length clientid must be assigned a unique id %s", packet.ClientId)
     logger.info("[MQTT-3.1.3-5] Clientids of 1 to 23 chars and ascii alphanumeric must be allowed")
     if packet.ClientId in [client.id for client in self.clients.values()]: # is this client already connected on a different socket?
-- 
2.43.0


From 5c1addb2a384807525ec3b87a95fa275ecc7a871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:49 +0000
Subject: [PATCH 56/83] fix: restart proxy mixed up the sockets of simultaneous
 connections

---
 interoperability/mqtt/restart/netproxy.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/interoperability/mqtt/restart/netproxy.py b/interoperability/mqtt/restart/netproxy.py
index a823017..8b97d12 100755
--- a/interoperability/mqtt/restart/netproxy.py
+++ b/interoperability/mqtt/restart/netproxy.py
@@ -31,8 +31,8 @@ logger.setLevel(logging.INFO)
 
 break_connections = False
 
-global options, brokers, clients
-brokers = clients = None
+global options
+connections = set() # all open sockets, to clients and brokers
 options = {}
 options["control_connection"] = "localhost:7777"
 options["control_topic"] = "Eclipse/Paho/restart_test/proxy_control"
@@ -60,15 +60,14 @@ class ControlBrokers:
     self.client.subscribe(self.receiveTopic, 2)
 
   def on_message(self, client, userdata, msg):
-    global brokers, clients
     logger.info("Received "+str(msg.payload.decode()))
     self.messages.append((client, userdata, msg))
     break_connections = True
-    logger.info("Terminating client")
-    try:
-        brokers.close()
-        clients.close()
-    except:
+    logger.info("Terminating clients")
+    for sock in list(connections):
+      try:
+        sock.shutdown(socket.SHUT_RDWR) # the handler will close it
+      except:
         pass
 
   def on_publish(self, client, userdata, data):
@@ -94,7 +93,6 @@ class ControlBrokers:
 class MQTTHandler(socketserver.StreamRequestHandler):
 
   def handle(self):
-    global brokers, clients, options, break_connections, control_broker
     if not hasattr(self, "ids"):
       self.ids = {}
     if not hasattr(self, "versions"):
@@ -104,6 +102,7 @@ class MQTTHandler(socketserver.StreamRequestHandler):
     try:
       clients = self.request
       brokers = socket.socket(socket.AF_INET, socket.SOCK_STREAM)
+      connections.update([clients, brokers])
       brokers.connect((brokerhost, brokerport))
       while inbuf != None:
         (i, o, e) = select.select([clients, brokers], [], [])
@@ -122,7 +121,7 @@ class MQTTHandler(socketserver.StreamRequestHandler):
               #logger.debug(inbuf)
             except:
               traceback.print_exc()
-            brokers.send(inbuf)       # pass it on
+            brokers.sendall(inbuf)       # pass it on
           elif s == brokers:
             inbuf = MQTTV3.getPacket(brokers) # get one packet
             if inbuf == None:
@@ -131,12 +130,14 @@ class MQTTHandler(socketserver.StreamRequestHandler):
               logger.debug("S to C "+self.ids[id(clients)]+" "+repr(MQTTV3.unpackPacket(inbuf)))
             except:
               traceback.print_exc()
-            clients.send(inbuf)
+            clients.sendall(inbuf)
       if id(clients) in self.ids.keys():
         logger.info("client "+self.ids[id(clients)]+" connection closing")
     except:
       #logger.debug(repr((i, o, e)) + " " + repr(inbuf))
       traceback.print_exc()
+    connections.difference_update([clients, brokers])
+    brokers.close()
     if id(clients) in self.ids.keys():
       del self.ids[id(clients)]
     elif id(clients) in self.versions.keys():
-- 
2.43.0


From 5240f7f76ac42c977beafca6ef865e47b9265f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:22 +0000
Subject: [PATCH 57/83] fix: model actions without parameters were never
 explored

---
 interoperability/mbt/main.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/interoperability/mbt/main.py b/interoperability/mbt/main.py
index af2f505..7ac81bb 100644
--- a/interoperability/mbt/main.py
+++ b/interoperability/mbt/main.py
@@ -197,13 +197,10 @@ class Actions:
 		return rc
 
 	def enumerateChoices(self, choices):
-		args = []
+		args = [[]] # one way to call an action with no parameters
 		for parm_name in self.getParmNames():
 			parm_type = self.getParmType(parm_name)
-			if args == []:
-				args = [[(parm_type, i)] for i in range(len(choices[parm_type]))]
-			else:
-				args = combine(args, [(parm_type, i) for i in range(len(choices[parm_type]))])
+			args = combine(args, [(parm_type, i) for i in range(len(choices[parm_type]))])
 		return args
 
 class Models:
-- 
2.43.0


From 31e8b8b94d2aa589b7fed7f5eb34d13f56903aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:22 +0000
Subject: [PATCH 58/83] fix: replaying a call with more than one earlier
 result, or with one whose name is part of another, failed

---
 interoperability/mbt/main.py | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/interoperability/mbt/main.py b/interoperability/mbt/main.py
index 7ac81bb..6e22f6a 100644
--- a/interoperability/mbt/main.py
+++ b/interoperability/mbt/main.py
@@ -34,7 +34,7 @@
 
 """
 
-import random, traceback, time, sys, copy, shutil, logging
+import random, traceback, time, sys, copy, shutil, logging, re
 
 logger = logging.getLogger("mbt")
 logger.setLevel(logging.INFO)
@@ -469,18 +469,14 @@ class Tests:
 
 	def replaceResults(self, aString, strresult=False):
 		# returns a string suitable for call to eval()
-		result_keys = sorted(self.results.keys(), key=len, reverse=False) # sort keys to do the shortest first
-		change_count = 0
-		valstring = aString
-		for result in result_keys:
-			loc = aString.find(result)
-			if loc != -1:
-				change_count += 1
-				self.logger.debug("%d replace %s with %s" % (change_count, result, 'self.results["'+result+'"]'))
-				valstring = aString[:loc] + 'self.results["'+result+'"]'  + aString[loc + len(result):]
-				aString = aString[:loc] + str(self.results[result]) + aString[loc + len(result):]
-				self.logger.debug("%s", aString)
-		return aString if strresult else valstring
+		result_keys = sorted(self.results.keys(), key=len, reverse=True) # the longest first, as one can be part of another
+		def replacement(match):
+			result = match.group(0)
+			return str(self.results[result]) if strresult else "self.results["+repr(result)+"]"
+		if len(result_keys) > 0:
+			aString = re.sub("|".join([re.escape(result) for result in result_keys]), replacement, aString)
+			self.logger.debug("%s", aString)
+		return aString
 
 	def handleCall(self, words):
 		action = self.actions[words[1]]
-- 
2.43.0


From f148f17e03518dab43f35691ce2e94a6272391cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:22 +0000
Subject: [PATCH 59/83] fix: replay failed when an observation was not there at
 once, or arrived at the last moment

---
 interoperability/mbt/main.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/interoperability/mbt/main.py b/interoperability/mbt/main.py
index 6e22f6a..81d1581 100644
--- a/interoperability/mbt/main.py
+++ b/interoperability/mbt/main.py
@@ -542,10 +542,11 @@ class Tests:
 		else:
 			observation1 = observation
 			while observation not in [x for x, y in self.added_results] and count < max_wait_count:
-				self.logger.debug("Waiting for observation '%s' in %s", observation, [x for x, y in self.added_results.keys()])
+				self.logger.debug("Waiting for observation '%s' in %s", observation, [x for x, y in self.added_results])
 				time.sleep(wait_interval)
 				count += 1
-		if count == max_wait_count:
+		if (observation1 == None) if self.observationMatchCallback else \
+				(observation not in [x for x, y in self.added_results]):
 			self.logger.warn("### line %d, observation not found %s", self.lineno, observation)
 			self.failures += 1
 		else:
-- 
2.43.0


From 00b55f1950b917566bea673a9ff144fdd0790a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:12 +0000
Subject: [PATCH 60/83] fix: HTTP API failed to list retained messages with
 MQTT 5.0 properties

---
 interoperability/mqtt/brokers/listeners/HTTPListeners.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/interoperability/mqtt/brokers/listeners/HTTPListeners.py b/interoperability/mqtt/brokers/listeners/HTTPListeners.py
index 7c3da8c..bf53f32 100644
--- a/interoperability/mqtt/brokers/listeners/HTTPListeners.py
+++ b/interoperability/mqtt/brokers/listeners/HTTPListeners.py
@@ -65,7 +65,9 @@ def get_retained_messages(*args):
   out = {}
   for topic in sharedData["retained"].keys():
     value = list(sharedData["retained"][topic])
-    value[0] = value[0].decode()
+    value[0] = value[0].decode(errors="replace")
+    if len(value) > 3:
+      value[3] = value[3].json() if value[3] else None # MQTT 5.0 properties
     out[topic] = value
   return 200, json.dumps(out)
 
-- 
2.43.0


From d9504a5a3897d81a7eef3d3c472f3c7153cda3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:38 +0000
Subject: [PATCH 61/83] fix: expired sessions kept their subscriptions, taking
 messages away from shared subscriptions

---
 interoperability/mqtt/brokers/V5/Brokers.py     | 8 ++++++++
 interoperability/mqtt/brokers/V5/MQTTBrokers.py | 1 +
 2 files changed, 9 insertions(+)

diff --git a/interoperability/mqtt/brokers/V5/Brokers.py b/interoperability/mqtt/brokers/V5/Brokers.py
index 2bc32ad..df2332e 100644
--- a/interoperability/mqtt/brokers/V5/Brokers.py
+++ b/interoperability/mqtt/brokers/V5/Brokers.py
@@ -107,6 +107,14 @@ class Brokers:
         self.__clients[aClientid].sessionEndedTime = time.monotonic()
         self.__clients[aClientid].connected = False
 
+  def expireSessions(self):
+    "discard the sessions of disconnected clients whose session expiry interval has passed"
+    for client in list(self.__clients.values()):
+      if not client.connected and client.sessionExpiryInterval != 0xFFFFFFFF and \
+         time.monotonic() - client.sessionEndedTime > client.sessionExpiryInterval:
+        self.cleanSession(client.id)
+        del self.__clients[client.id]
+
   def disconnectAll(self):
     for c in self.__clients.keys()[:]: # copy the array because disconnect will remove an element
       self.disconnect(c)
diff --git a/interoperability/mqtt/brokers/V5/MQTTBrokers.py b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
index 8b94173..365f448 100644
--- a/interoperability/mqtt/brokers/V5/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
@@ -342,6 +342,7 @@ class cleanupThreads(threading.Thread):
           client = self.broker.getClient(clientid)
           if client and time.monotonic() >= client.delayedWillTime:
             self.broker.sendWillMessage(clientid)
+        self.broker.expireSessions()
       except:
         traceback.print_exc() # must not stop the other wills from being sent
       finally:
-- 
2.43.0


From 0a6db564513e286aff00b3b8afb7bcc049f6b2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:38 +0000
Subject: [PATCH 62/83] fix: HTTP API failed to list retained messages with
 binary properties

---
 interoperability/mqtt/brokers/listeners/HTTPListeners.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interoperability/mqtt/brokers/listeners/HTTPListeners.py b/interoperability/mqtt/brokers/listeners/HTTPListeners.py
index bf53f32..716c3fb 100644
--- a/interoperability/mqtt/brokers/listeners/HTTPListeners.py
+++ b/interoperability/mqtt/brokers/listeners/HTTPListeners.py
@@ -69,7 +69,7 @@ def get_retained_messages(*args):
     if len(value) > 3:
       value[3] = value[3].json() if value[3] else None # MQTT 5.0 properties
     out[topic] = value
-  return 200, json.dumps(out)
+  return 200, json.dumps(out, default=str)
 
 class APIs:
 
-- 
2.43.0


From 689dcc3a24fd74bd07dde153ab0ddc19574e6c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:09 +0000
Subject: [PATCH 63/83] fix: packets could overtake those received earlier on
 other connections while being read

---
 .../mqtt/brokers/listeners/TCPListeners.py    | 54 +++++++++++++++----
 1 file changed, 45 insertions(+), 9 deletions(-)

diff --git a/interoperability/mqtt/brokers/listeners/TCPListeners.py b/interoperability/mqtt/brokers/listeners/TCPListeners.py
index cbabcc6..d7e25c4 100644
--- a/interoperability/mqtt/brokers/listeners/TCPListeners.py
+++ b/interoperability/mqtt/brokers/listeners/TCPListeners.py
@@ -34,8 +34,10 @@ class BufferedSockets:
   def __init__(self, socket):
     self.socket = socket
     self.buffer = bytearray()
+    self.rawbuffer = b"" # received, but not yet decoded
     self.websockets = False
     self.closed = False # by a websocket close frame, or end of data
+    self.ready = False # there is something to be received
     self.idle = None # called regularly while waiting for data
 
   def rebuffer(self, data):
@@ -43,14 +45,40 @@ class BufferedSockets:
 
   def pending(self):
     "is there data already received, that select doesn't know about?"
-    return len(self.buffer) > 0 or (hasattr(self.socket, "pending") and self.socket.pending() > 0)
+    return len(self.buffer) > 0 or len(self.rawbuffer) > 0 or (hasattr(self.socket, "pending") and self.socket.pending() > 0)
 
   def rawrecv(self, count):
-    if self.idle: # keepalives apply to a connection in the middle of a packet too
-      while not (hasattr(self.socket, "pending") and self.socket.pending() > 0) and \
-            select.select([self.socket], [], [], 1)[0] == []:
-        self.idle()
-    return self.socket.recv(count)
+    if len(self.rawbuffer) == 0:
+      if self.idle and not self.ready: # keepalives apply to a connection in the middle of a packet too
+        while not (hasattr(self.socket, "pending") and self.socket.pending() > 0) and \
+              select.select([self.socket], [], [], 1)[0] == []:
+          self.idle()
+      self.ready = False
+      self.rawbuffer = self.socket.recv(max(count, 4096))
+    data = self.rawbuffer[:count]
+    self.rawbuffer = self.rawbuffer[count:]
+    return data
+
+  def fill(self):
+    "receive what there is, without waiting"
+    timeout = self.socket.gettimeout()
+    self.socket.settimeout(0)
+    try:
+      self.rawbuffer += self.socket.recv(4096)
+    except OSError:
+      pass
+    finally:
+      self.socket.settimeout(timeout)
+
+  def complete(self):
+    "has a complete MQTT packet been received?"
+    data = self.buffer if self.websockets else self.buffer + self.rawbuffer
+    length = 0
+    for i in range(1, min(len(data), 5)):
+      length += (data[i] & 127) << (7*(i - 1))
+      if data[i] < 128:
+        return len(data) >= i + 1 + length
+    return len(data) >= 5 # there is no valid length
 
   def recvall(self, count):
     "receive exactly count bytes"
@@ -203,12 +231,13 @@ class WebSocketTCPHandler(socketserver.StreamRequestHandler):
           (i, o, e) = ([sock], [], [])
         else:
           (i, o, e) = select.select([sock], [], [], 1)
-        if i == [sock] and sock.websockets and not sock.pending():
+          sock.ready = i == [sock]
+        if i == [sock] and sock.websockets and len(sock.buffer) == 0:
           try:
             sock.wsrecv()
           except Exception:
             sock.closed = True
-          if not sock.pending() and not sock.closed:
+          if len(sock.buffer) == 0 and not sock.closed:
             continue # no MQTT data in the frame
         if i == [sock]:
           if first:
@@ -238,7 +267,14 @@ class WebSocketTCPHandler(socketserver.StreamRequestHandler):
             if broker == None:
               terminate = True
             else:
-              terminate = broker.handleRequest(sock)
+              with broker.lock: # handle packets in order of their arrival
+                if not sock.websockets:
+                  sock.fill()
+                complete = sock.complete()
+                if complete:
+                  terminate = broker.handleRequest(sock)
+              if not complete: # don't hold up other connections while waiting for the rest
+                terminate = broker.handleRequest(sock)
           keptalive = False
           first = False
         elif (i, o, e) == ([], [], []):
-- 
2.43.0


From 082c5f567d5f3a7c1b15ac2306feae751c976a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:18 +0000
Subject: [PATCH 64/83] fix: subscription identifier 0 and byte properties
 other than 0 or 1 are protocol errors

---
 interoperability/mqtt/formats/MQTTV5/MQTTV5.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
index 6bb8ef3..a915aa1 100644
--- a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
+++ b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
@@ -675,6 +675,10 @@ class Properties(object):
       compressedName = propname.replace(' ', '')
       if not self.allowsMultiple(compressedName) and hasattr(self, compressedName):
         raise ProtocolError("Protocol error")
+      if attr_type == self.types.index("Byte") and value > 1:
+        raise ProtocolError("Protocol error")
+      if propname == "Subscription Identifier" and value == 0:
+        raise ProtocolError("Protocol error")
       setattr(self, propname, value)
     return self, propslen + VBIlen
 
-- 
2.43.0


From 96c55f3a033544b6aae96992d549e0c871c25ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:44 +0000
Subject: [PATCH 65/83] fix: a shared subscription to a $ topic filter receives
 the messages it matches

---
 interoperability/mqtt/brokers/V5/SubscriptionEngines.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/interoperability/mqtt/brokers/V5/SubscriptionEngines.py b/interoperability/mqtt/brokers/V5/SubscriptionEngines.py
index faaa663..5110f07 100644
--- a/interoperability/mqtt/brokers/V5/SubscriptionEngines.py
+++ b/interoperability/mqtt/brokers/V5/SubscriptionEngines.py
@@ -26,7 +26,9 @@ from .Subscriptions import *
 logger = logging.getLogger('MQTT broker')
 
 def isDollarTopic(name):
-  return name[0] == '$' and not name.startswith('$share/')
+  if name.startswith('$share/'): # the filter of a shared subscription follows the share name
+    name = name.split('/', 2)[-1]
+  return name.startswith('$')
 
 class SubscriptionEngines:
 
-- 
2.43.0


From 55cf72970d7e990473a57ad23e2f020138952833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:21 +0000
Subject: [PATCH 66/83] fix: a V5 CONNACK whose remaining length is wrong is
 malformed

---
 interoperability/mqtt/formats/MQTTV5/MQTTV5.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
index a915aa1..fec5feb 100644
--- a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
+++ b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
@@ -916,14 +916,18 @@ class Connacks(Packets):
     assert len(buffer) >= 4
     assert PacketType(buffer) == PacketTypes.CONNACK
     curlen = self.fh.unpack(buffer, maximumPacketSize)
+    packlen = curlen + self.fh.remainingLength
+    assert len(buffer) >= packlen
     assert buffer[curlen] in [0, 1], "Connect Acknowledge Flags"
     self.sessionPresent = (buffer[curlen] == 0x01)
     curlen += 1
     curlen += self.reasonCode.unpack(buffer[curlen:])
     curlen += self.properties.unpack(buffer[curlen:])[1]
+    assert curlen == packlen, "CONNACK packet is wrong length %d" % self.fh.remainingLength
     assert self.fh.DUP == False, "[MQTT5-2.1.3-1]"
     assert self.fh.QoS == 0, "[MQTT5-2.1.3-1]"
     assert self.fh.RETAIN == False, "[MQTT5-2.1.3-1]"
+    return packlen
 
   def __str__(self):
     return str(self.fh)+", Session present="+str((self.sessionPresent & 0x01) == 1)+\
-- 
2.43.0


From df1aeaa48fa1ac57a22271af247060bf0febebc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:21 +0000
Subject: [PATCH 67/83] fix: an AUTH packet without reason code and properties
 means Success

---
 interoperability/mqtt/formats/MQTTV5/MQTTV5.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
index fec5feb..28101c8 100644
--- a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
+++ b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
@@ -1631,9 +1631,12 @@ class Auths(Packets):
     assert self.fh.DUP == False, "[MQTT5-2.1.3-1] AUTH reserved bits must be 0"
     assert self.fh.QoS == 0, "[MQTT5-2.1.3-1] AUTH reserved bits must be 0"
     assert self.fh.RETAIN == False, "[MQTT5-2.1.3-1] AUTH reserved bits must be 0"
+    self.reasonCode.set("Success")
+    self.properties.clear()
     curlen = fhlen
-    curlen += self.reasonCode.unpack(buffer[curlen:])
-    curlen += self.properties.unpack(buffer[curlen:])[1]
+    if self.fh.remainingLength > 0: # can be omitted, with the meaning Success
+      curlen += self.reasonCode.unpack(buffer[curlen:])
+      curlen += self.properties.unpack(buffer[curlen:])[1]
     assert curlen == fhlen + self.fh.remainingLength, \
             "AUTH packet is wrong length %d %d" % (self.fh.remainingLength, curlen)
     return fhlen + self.fh.remainingLength
-- 
2.43.0


From f0868fa8b6b4f49c1aca036b217fcb4a84d2dbc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:33 +0000
Subject: [PATCH 68/83] fix: 'Payload format invalid' is a reason code of
 CONNACK

---
 interoperability/mqtt/formats/MQTTV5/MQTTV5.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
index 28101c8..f8fdd9f 100644
--- a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
+++ b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
@@ -206,7 +206,8 @@ class ReasonCodes:
           PacketTypes.PUBREC, PacketTypes.SUBACK, PacketTypes.DISCONNECT], },
     152 : { "Administrative action" : [PacketTypes.DISCONNECT] },
     153 : { "Payload format invalid" :
-            [PacketTypes.PUBACK, PacketTypes.PUBREC, PacketTypes.DISCONNECT]},
+            [PacketTypes.CONNACK, PacketTypes.PUBACK, PacketTypes.PUBREC,
+             PacketTypes.DISCONNECT]},
     154 : { "Retain not supported" :
             [PacketTypes.CONNACK, PacketTypes.DISCONNECT] },
     155 : { "QoS not supported" :
-- 
2.43.0


From b19a34de29155441376759528906074acffff522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:33 +0000
Subject: [PATCH 69/83] fix: a V311 UNSUBACK whose remaining length is not 2 is
 malformed

---
 interoperability/mqtt/formats/MQTTV311/MQTTV311.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/interoperability/mqtt/formats/MQTTV311/MQTTV311.py b/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
index accb80d..21b9c6b 100644
--- a/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
+++ b/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
@@ -836,6 +836,7 @@ class Unsubacks(Packets):
     assert MessageType(buffer) == UNSUBACK
     fhlen = self.fh.unpack(buffer)
     assert len(buffer) >= fhlen + self.fh.remainingLength
+    assert self.fh.remainingLength == 2, "Unsuback packet is wrong length %d" % self.fh.remainingLength
     self.messageIdentifier = readInt16(buffer[fhlen:])
     assert self.messageIdentifier > 0, "[MQTT-2.3.1-1] packet indentifier must be > 0"
     self.messageIdentifier = readInt16(buffer[fhlen:])
-- 
2.43.0


From 78ca6b9cbfb92676dbfeb8a8240a78cdc5427f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:33 +0000
Subject: [PATCH 70/83] fix: the fields of a V311 CONNACK follow its fixed
 header, however long that is

---
 interoperability/mqtt/formats/MQTTV311/MQTTV311.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/interoperability/mqtt/formats/MQTTV311/MQTTV311.py b/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
index 21b9c6b..76da7cd 100644
--- a/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
+++ b/interoperability/mqtt/formats/MQTTV311/MQTTV311.py
@@ -400,11 +400,12 @@ class Connacks(Packets):
   def unpack(self, buffer):
     assert len(buffer) >= 4
     assert MessageType(buffer) == CONNACK
-    self.fh.unpack(buffer)
+    fhlen = self.fh.unpack(buffer)
     assert self.fh.remainingLength == 2, "Connack packet is wrong length %d" % self.fh.remainingLength
-    assert buffer[2] in  [0, 1], "Connect Acknowledge Flags"
-    self.flags = buffer[2]
-    self.returnCode = buffer[3]
+    assert len(buffer) >= fhlen + self.fh.remainingLength
+    assert buffer[fhlen] in  [0, 1], "Connect Acknowledge Flags"
+    self.flags = buffer[fhlen]
+    self.returnCode = buffer[fhlen + 1]
     assert self.fh.DUP == False, "[MQTT-2.1.2-1]"
     assert self.fh.QoS == 0, "[MQTT-2.1.2-1]"
     assert self.fh.RETAIN == False, "[MQTT-2.1.2-1]"
-- 
2.43.0


From ae6e5fad4c2516e3e18dd4a64472e68ddbe83e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:35 +0000
Subject: [PATCH 71/83] fix: a PUBLISH whose properties go beyond its end is
 malformed

---
 interoperability/mqtt/formats/MQTTV5/MQTTV5.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
index f8fdd9f..be439df 100644
--- a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
+++ b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
@@ -1065,6 +1065,7 @@ class Publishes(Packets):
       logger.info("[MQTT5-2.2.1-2] no packet indentifier in publish if QoS is 0")
       self.packetIdentifier = 0
     curlen += self.properties.unpack(buffer[curlen:])[1]
+    assert curlen <= packlen, "PUBLISH properties go beyond the end of the packet"
     self.data = buffer[curlen:fhlen + self.fh.remainingLength]
     if self.fh.QoS == 0:
       assert self.fh.DUP == False, "[MQTT5-2.1.2-4]"
-- 
2.43.0


From b5b75a70293f390936aef378677c4d887bf2b904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:18 +0000
Subject: [PATCH 72/83] fix: subscribe and unsubscribe ids are in use until
 they are answered

---
 interoperability/mqtt/clients/V311/internal.py |  9 +++++++++
 interoperability/mqtt/clients/V311/main.py     | 11 +++++++----
 interoperability/mqtt/clients/V5/internal.py   |  9 +++++++++
 interoperability/mqtt/clients/V5/main.py       | 11 +++++++----
 4 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/interoperability/mqtt/clients/V311/internal.py b/interoperability/mqtt/clients/V311/internal.py
index 233c172..6850063 100755
--- a/interoperability/mqtt/clients/V311/internal.py
+++ b/interoperability/mqtt/clients/V311/internal.py
@@ -31,6 +31,7 @@ class Receivers:
 
     self.inMsgs = {}
     self.outMsgs = {}
+    self.requests = set() # ids of subscribes and unsubscribes without an answer
     self.pubrecs = set() # ids of outMsgs for which PUBREC has been received
 
     self.puback = MQTTV3.Pubacks()
@@ -54,10 +55,18 @@ class Receivers:
     logging.debug("in :%s", str(packet))
 
     if packet.fh.MessageType == MQTTV3.SUBACK:
+      if packet.messageIdentifier not in self.requests:
+        raise Exception("SUBACK received for unknown msg id "+ \
+                    str(packet.messageIdentifier))
+      self.requests.remove(packet.messageIdentifier)
       if hasattr(callback, "subscribed"):
         callback.subscribed(packet.messageIdentifier, packet.data)
 
     elif packet.fh.MessageType == MQTTV3.UNSUBACK:
+      if packet.messageIdentifier not in self.requests:
+        raise Exception("UNSUBACK received for unknown msg id "+ \
+                    str(packet.messageIdentifier))
+      self.requests.remove(packet.messageIdentifier)
       if hasattr(callback, "unsubscribed"):
         callback.unsubscribed(packet.messageIdentifier)
 
diff --git a/interoperability/mqtt/clients/V311/main.py b/interoperability/mqtt/clients/V311/main.py
index 329b98d..e953d42 100755
--- a/interoperability/mqtt/clients/V311/main.py
+++ b/interoperability/mqtt/clients/V311/main.py
@@ -74,15 +74,15 @@ class Client:
   def __nextMsgid(self):
     def getWrappedMsgid():
       id = self.msgid + 1
-      if id == 65535:
+      if id > 65535:
         id = 1
       return id
 
-    if len(self.__receiver.outMsgs) >= 65535:
-      raise "No slots left!!"
+    if len(self.__receiver.outMsgs) + len(self.__receiver.requests) >= 65535:
+      raise Exception("No slots left!!")
     else:
       self.msgid = getWrappedMsgid()
-      while self.msgid in self.__receiver.outMsgs.keys():
+      while self.msgid in self.__receiver.outMsgs.keys() or self.msgid in self.__receiver.requests:
         self.msgid = getWrappedMsgid()
     return self.msgid
 
@@ -137,6 +137,7 @@ class Client:
       self.__receiver = internal.Receivers(self.sock)
     else:
       self.__receiver.socket = self.sock
+      self.__receiver.requests.clear() # they were lost with the old connection
     if self.callback:
       id = _thread.start_new_thread(self.__receiver, (self.callback,))
     return response
@@ -145,6 +146,7 @@ class Client:
   def subscribe(self, topics, qoss):
     subscribe = MQTTV3.Subscribes()
     subscribe.messageIdentifier = self.__nextMsgid()
+    self.__receiver.requests.add(subscribe.messageIdentifier)
     count = 0
     for t in topics:
       subscribe.data.append((t, qoss[count]))
@@ -156,6 +158,7 @@ class Client:
   def unsubscribe(self, topics):
     unsubscribe = MQTTV3.Unsubscribes()
     unsubscribe.messageIdentifier = self.__nextMsgid()
+    self.__receiver.requests.add(unsubscribe.messageIdentifier)
     unsubscribe.data = topics
     sendtosocket(self.sock, unsubscribe.pack())
     return unsubscribe.messageIdentifier
diff --git a/interoperability/mqtt/clients/V5/internal.py b/interoperability/mqtt/clients/V5/internal.py
index 9539e45..748f313 100755
--- a/interoperability/mqtt/clients/V5/internal.py
+++ b/interoperability/mqtt/clients/V5/internal.py
@@ -34,6 +34,7 @@ class Receivers:
 
     self.inMsgs = {}
     self.outMsgs = {}
+    self.requests = set() # ids of subscribes and unsubscribes without an answer
     self.pubrecs = set() # ids of outMsgs for which PUBREC has been received
 
     self.puback = MQTTV5.Pubacks()
@@ -57,6 +58,10 @@ class Receivers:
     logger.debug("in :%s", str(packet))
 
     if packet.fh.PacketType == MQTTV5.PacketTypes.SUBACK:
+      if packet.packetIdentifier not in self.requests:
+        raise Exception("SUBACK received for unknown msg id "+ \
+                    str(packet.packetIdentifier))
+      self.requests.remove(packet.packetIdentifier)
       if hasattr(callback, "subscribed"):
         callback.subscribed(packet.packetIdentifier, packet.reasonCodes)
 
@@ -65,6 +70,10 @@ class Receivers:
         callback.disconnected(packet.reasonCode, packet.properties)
 
     elif packet.fh.PacketType == MQTTV5.PacketTypes.UNSUBACK:
+      if packet.packetIdentifier not in self.requests:
+        raise Exception("UNSUBACK received for unknown msg id "+ \
+                    str(packet.packetIdentifier))
+      self.requests.remove(packet.packetIdentifier)
       if hasattr(callback, "unsubscribed"):
         callback.unsubscribed(packet.packetIdentifier)
 
diff --git a/interoperability/mqtt/clients/V5/main.py b/interoperability/mqtt/clients/V5/main.py
index f160ed9..89a252b 100755
--- a/interoperability/mqtt/clients/V5/main.py
+++ b/interoperability/mqtt/clients/V5/main.py
@@ -85,15 +85,15 @@ class Client:
   def __nextMsgid(self):
     def getWrappedMsgid():
       id = self.msgid + 1
-      if id == 65535:
+      if id > 65535:
         id = 1
       return id
 
-    if len(self.__receiver.outMsgs) >= 65535:
-      raise "No slots left!!"
+    if len(self.__receiver.outMsgs) + len(self.__receiver.requests) >= 65535:
+      raise Exception("No slots left!!")
     else:
       self.msgid = getWrappedMsgid()
-      while self.msgid in self.__receiver.outMsgs.keys():
+      while self.msgid in self.__receiver.outMsgs.keys() or self.msgid in self.__receiver.requests:
         self.msgid = getWrappedMsgid()
     return self.msgid
 
@@ -154,6 +154,7 @@ class Client:
       self.__receiver = internal.Receivers(self.sock)
     else:
       self.__receiver.socket = self.sock
+      self.__receiver.requests.clear() # they were lost with the old connection
     if self.callback:
       id = _thread.start_new_thread(self.__receiver, (self.callback,))
     return response
@@ -162,6 +163,7 @@ class Client:
   def subscribe(self, topics, options, properties=None):
     subscribe = MQTTV5.Subscribes()
     subscribe.packetIdentifier = self.__nextMsgid()
+    self.__receiver.requests.add(subscribe.packetIdentifier)
     count = 0
     for t in topics:
       subscribe.data.append((t, options[count]))
@@ -175,6 +177,7 @@ class Client:
   def unsubscribe(self, topics):
     unsubscribe = MQTTV5.Unsubscribes()
     unsubscribe.packetIdentifier = self.__nextMsgid()
+    self.__receiver.requests.add(unsubscribe.packetIdentifier)
     unsubscribe.topicFilters = topics
     sendtosocket(self.sock, unsubscribe.pack())
     return unsubscribe.packetIdentifier
-- 
2.43.0


From 26cda48c3aeca44999d263a2f52dbf533f91664d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:30 +0000
Subject: [PATCH 73/83] fix: WebSocket text frames were taken for MQTT data

---
 interoperability/mqtt/brokers/listeners/TCPListeners.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/interoperability/mqtt/brokers/listeners/TCPListeners.py b/interoperability/mqtt/brokers/listeners/TCPListeners.py
index d7e25c4..837659c 100644
--- a/interoperability/mqtt/brokers/listeners/TCPListeners.py
+++ b/interoperability/mqtt/brokers/listeners/TCPListeners.py
@@ -126,8 +126,11 @@ class BufferedSockets:
       self.closed = True
     elif opcode == 9: # ping
       self.sendframe(0x8A, buffer)
-    elif opcode != 10: # not a pong
+    elif opcode in [0, 2]: # binary data
       self.buffer += buffer
+    elif opcode != 10: # not a pong
+      logger.error("[MQTT-6.0.0-1] MQTT Control Packets must be sent in websocket binary data frames")
+      self.closed = True
 
   def recv(self, bufsize):
     if self.websockets:
-- 
2.43.0


From 24ef5be24620d37eb479a3e2ba7f9b978bd8db12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:04 +0000
Subject: [PATCH 74/83] fix: HTTP requests read the shared data while others
 change them

---
 interoperability/mqtt/brokers/listeners/HTTPListeners.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/interoperability/mqtt/brokers/listeners/HTTPListeners.py b/interoperability/mqtt/brokers/listeners/HTTPListeners.py
index 716c3fb..6fd6b0c 100644
--- a/interoperability/mqtt/brokers/listeners/HTTPListeners.py
+++ b/interoperability/mqtt/brokers/listeners/HTTPListeners.py
@@ -108,7 +108,8 @@ class APIs:
             args = tuple(list(args) + [body])
           else:
             args = (body,)
-        rc = op[1](*args)
+        with lock: # the shared data may be changing
+          rc = op[1](*args)
         found = True
         break
     if not found:
-- 
2.43.0


From dacfbc93094282fd1e382e73106a5e1fc99e0ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:20 +0000
Subject: [PATCH 75/83] fix: coverage of a model with empty pools divides by
 zero

---
 interoperability/mbt/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interoperability/mbt/main.py b/interoperability/mbt/main.py
index 81d1581..dc9c9c8 100644
--- a/interoperability/mbt/main.py
+++ b/interoperability/mbt/main.py
@@ -300,7 +300,7 @@ class Executions:
 					used += 1
 				else:
 					unused.append((choice, c))
-		return int((used / total) * 100)
+		return int((used / total) * 100) if total > 0 else 100
 
 	def getEnabledActions(self):
 		enableds = set()
-- 
2.43.0


From ec089e1dd0ca91c576f0cd1455bb2ecdc080ad29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:20 +0000
Subject: [PATCH 76/83] fix: replay substitutes results of other plain types
 for each other

---
 interoperability/mbt/main.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interoperability/mbt/main.py b/interoperability/mbt/main.py
index dc9c9c8..6eb6524 100644
--- a/interoperability/mbt/main.py
+++ b/interoperability/mbt/main.py
@@ -519,7 +519,7 @@ class Tests:
 			return
 
 		value = words[3].strip().split(" ", 1)[1]
-		if not value.startswith("exception") and type(rc) not in [type(3), type('')]:
+		if not value.startswith("exception") and type(rc) not in [int, str, bool, float, bytes]: # these mean the same on every run
 			self.logger.debug("recording value of %s", value)
 			self.results[value] = rc
 
-- 
2.43.0


From c631091cf9961c46d78e3d3a996e012cffdb4e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:20 +0000
Subject: [PATCH 77/83] fix: the explorer offers actions and values that are
 not available now

---
 interoperability/mbt/main.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/interoperability/mbt/main.py b/interoperability/mbt/main.py
index 6eb6524..9af43cd 100644
--- a/interoperability/mbt/main.py
+++ b/interoperability/mbt/main.py
@@ -100,12 +100,12 @@ class Traces:
 		""" 
 		In a particular state, enumerate all the paths available to leave that state.  
 		"""
-		if not self.curnode.arcsAdded:
-			for arc in arcs:
+		for arc in arcs: # the results of earlier calls may not be the same as at the last visit
+			if arc not in self.curnode.arcs:
 				self.nodeCount += 1
 				self.curnode.addArc(arc, TraceNodes(self.nodeCount))
-			self.curnode.arcsAdded = True
-			logger.debug("Total number of nodes now %d", self.nodeCount)
+		self.curnode.arcsAdded = True
+		logger.debug("Total number of nodes now %d", self.nodeCount)
 
 	def selectAction(self, action, args):
 		"""
@@ -116,11 +116,11 @@ class Traces:
 		self.curnode.used = True
 		logger.debug("NODE index is now %d", self.curnode.index)
 
-	def findNextPath(self, callback):
-		"return one next path that isn't fully exercised"
+	def findNextPath(self, arcs, callback):
+		"return one next path, out of those now available, that isn't fully exercised"
 		found = None
 		frees = []
-		for arc in self.curnode.arcs.keys():
+		for arc in arcs:
 			if self.curnode.arcs[arc].isFree():
 				frees.append(arc)
 
@@ -372,10 +372,11 @@ class Executions:
 		enableds = self.getEnabledActions()
 		logger.debug("Enabled %s", [e.getName() for e in enableds])
 			
-		self.trace.addArcs([tuple([action] + choice) for action in enableds \
-					    for choice in action.enumerateChoices(self.pools)])
+		arcs = [tuple([action] + choice) for action in enableds \
+					    for choice in action.enumerateChoices(self.pools)]
+		self.trace.addArcs(arcs)
 			
-		next = self.trace.findNextPath(self.model.selectCallback)
+		next = self.trace.findNextPath(arcs, self.model.selectCallback)
 		if next == None:
 			logger.debug("No more options available")
 			return True
-- 
2.43.0


From b960794539a456487349e8d059e6271a58ad51c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:20 +0000
Subject: [PATCH 78/83] fix: HTTP listener with TLS uses a function that no
 longer exists

---
 .../mqtt/brokers/listeners/HTTPListeners.py            | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/interoperability/mqtt/brokers/listeners/HTTPListeners.py b/interoperability/mqtt/brokers/listeners/HTTPListeners.py
index 6fd6b0c..de96182 100644
--- a/interoperability/mqtt/brokers/listeners/HTTPListeners.py
+++ b/interoperability/mqtt/brokers/listeners/HTTPListeners.py
@@ -257,9 +257,13 @@ def create(port, host="", TLS=False, serve_forever=False,
     bind_address = host
   httpd = http.server.HTTPServer((bind_address, port), requestHandler)
   if TLS:
-    httpd.socket = ssl.wrap_socket(httpd.socket,
-      ca_certs=ca_certs, certfile=certfile, keyfile=keyfile,
-      cert_reqs=cert_reqs, server_side=True)
+    context = ssl.SSLContext(protocol=ssl.PROTOCOL_TLS_SERVER)
+    if certfile:
+      context.load_cert_chain(certfile, keyfile)
+    if ca_certs:
+      context.load_verify_locations(ca_certs)
+    context.verify_mode = cert_reqs
+    httpd.socket = context.wrap_socket(httpd.socket, server_side=True)
   if serve_forever:
     httpd.serve_forever()
   else:
-- 
2.43.0


From a3906444f0626eef9445a409d32309ad13b4fb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:24:20 +0000
Subject: [PATCH 79/83] fix: HTTP requests other than GET are not answered

---
 .../mqtt/brokers/listeners/HTTPListeners.py         | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/interoperability/mqtt/brokers/listeners/HTTPListeners.py b/interoperability/mqtt/brokers/listeners/HTTPListeners.py
index de96182..828143f 100644
--- a/interoperability/mqtt/brokers/listeners/HTTPListeners.py
+++ b/interoperability/mqtt/brokers/listeners/HTTPListeners.py
@@ -160,7 +160,7 @@ class requestHandler(http.server.BaseHTTPRequestHandler):
 
   def do_DELETE(self):
     logger.debug("do_DELETE")
-    rc = http.delete(urllib.request.unquote(self.path))
+    rc = api.delete(urllib.request.unquote(self.path))
     value = None
     if type(rc) == type((0,)):
       rc, value = rc
@@ -173,15 +173,17 @@ class requestHandler(http.server.BaseHTTPRequestHandler):
   def do_PATCH(self):
     logger.debug("do_PATCH")
     self.headers["Content-Disposition"] = 'inline; filename=""'
+    import cgi
     form = cgi.FieldStorage(fp=self.rfile,
                             headers=self.headers,
                             environ={"REQUEST_METHOD": 'PATCH',
                                       "CONTENT_TYPE": self.headers['Content-Type'], })
+    body = None
     if self.headers["Content-Type"] == "application/json":
       if type(form.value) == type(b""):
         form.value = form.value.decode()
       body = json.loads(form.value)
-    rc = http.patch(urllib.request.unquote(self.path), body)
+    rc = api.patch(urllib.request.unquote(self.path), body)
     value = None
     if type(rc) == type((0,)):
       rc, value = rc
@@ -190,9 +192,6 @@ class requestHandler(http.server.BaseHTTPRequestHandler):
     self.end_headers()
     if value:
       self.wfile.write(bytes(value + "\n", 'utf8'))
-    if persistence:
-      deviceAndThingDB._p_changed = True
-      transaction.commit()
 
   def do_POST(self):
     logger.debug("do_POST")
@@ -205,6 +204,7 @@ class requestHandler(http.server.BaseHTTPRequestHandler):
   def do_postput(self, op):
     # next line is workaround for bug: https://bugs.python.org/issue27308
     self.headers["Content-Disposition"] = 'inline; filename=""'
+    import cgi
     form = cgi.FieldStorage(fp=self.rfile,
                             headers=self.headers,
                             environ={"REQUEST_METHOD": op.upper(),
@@ -222,7 +222,7 @@ class requestHandler(http.server.BaseHTTPRequestHandler):
           body["schemaFileName"] = form[key].disposition_options["filename"]
           body["Content-Type"] = form[key].type
         body[key] = form[key].value
-    rc = getattr(http, op)(self.path, body)
+    rc = getattr(api, op)(urllib.request.unquote(self.path), body)
     value = None
     if type(rc) == type((0,)):
       rc, value = rc
@@ -270,3 +270,4 @@ def create(port, host="", TLS=False, serve_forever=False,
     thread = threading.Thread(target = httpd.serve_forever)
     thread.daemon = True
     thread.start()
+  return httpd
-- 
2.43.0


From 24a49f0277c1295f483429813e714727dcd5e9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:54 +0000
Subject: [PATCH 80/83] fix: with visual, the packets which report packets to
 MQTT 5.0 clients were reported in turn, without end

---
 interoperability/mqtt/brokers/V5/MQTTBrokers.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/interoperability/mqtt/brokers/V5/MQTTBrokers.py b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
index 365f448..32a8896 100644
--- a/interoperability/mqtt/brokers/V5/MQTTBrokers.py
+++ b/interoperability/mqtt/brokers/V5/MQTTBrokers.py
@@ -27,7 +27,7 @@ logger = logging.getLogger('MQTT broker')
 
 mybroker = None
 
-def respond(sock, packet, maximumPacketSize=None):
+def respond(sock, packet, maximumPacketSize=None, visual=True):
   if maximumPacketSize == None:
     maximumPacketSize = mybroker.clients[sock].maximumPacketSize if sock in mybroker.clients.keys() else MQTTV5.MAX_PACKET_SIZE
   # deal with expiry
@@ -66,7 +66,7 @@ def respond(sock, packet, maximumPacketSize=None):
   if hasattr(sock, "handlePacket"):
     sock.handlePacket(packet)
   else:
-    if mybroker.options["visual"]:
+    if visual and mybroker.options["visual"]:
       try:
         data = {"direction" : "StoC", "socket" : sock.fileno(), 
             "clientid":  mybroker.clients[sock].id if sock in mybroker.clients.keys() else "", 
@@ -140,7 +140,8 @@ class MQTTClients:
       newAlias = True
     if topic in self.outgoingTopicNamesToAliases:
       pub.properties.TopicAlias = self.outgoingTopicNamesToAliases.index(topic) + 1 # Topic aliases start at 1
-    sent = respond(self.socket, pub, self.maximumPacketSize)
+    # packets which report packets are not reported themselves, there would be no end to it
+    sent = respond(self.socket, pub, self.maximumPacketSize, visual=(topic != "$SYS/clients-packets"))
     pub.topicName = topic
     if hasattr(pub.properties, "TopicAlias"):
       del pub.properties.TopicAlias
-- 
2.43.0


From 454704d0414f21e0b6cac86ea368fcb18bf2f82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:54 +0000
Subject: [PATCH 81/83] fix: with visual, a CONNECT with a password was not
 reported

---
 interoperability/mqtt/formats/MQTTV5/MQTTV5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
index be439df..af3da6f 100644
--- a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
+++ b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
@@ -866,7 +866,7 @@ class Connects(Packets):
     if self.username:
       data["username"] = self.username
     if self.password:
-      data["password"] = self.password
+      data["password"] = str(self.password) # bytes cannot be serialized
     data["Properties"] = self.properties.json()
     return data
 
-- 
2.43.0


From 1496e529d279eb1aca066680967a3b0e469f877f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:39 +0000
Subject: [PATCH 82/83] fix: with visual, packets with correlation data from a
 WebSocket were not reported

---
 interoperability/mqtt/formats/MQTTV5/MQTTV5.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
index af3da6f..e1921b2 100644
--- a/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
+++ b/interoperability/mqtt/formats/MQTTV5/MQTTV5.py
@@ -562,8 +562,8 @@ class Properties(object):
       compressedName = name.replace(' ', '')
       if hasattr(self, compressedName):
         data[compressedName] = getattr(self, compressedName)
-        if type(data[compressedName]) == type(b''): # can't json serialize bytes
-          data[compressedName] = str(data[compressedName])
+        if type(data[compressedName]) in (bytes, bytearray): # can't json serialize bytes
+          data[compressedName] = str(bytes(data[compressedName]))
     return data
 
   def __eq__(self, other):
-- 
2.43.0


From e6531f432bf23b392f873cfb6a8de72a1243c7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:45 +0000
Subject: [PATCH 83/83] fix: listen to the port given with --port

startbroker.py --port=N was documented and parsed, but the broker listened to 1883 all the same.
---
 interoperability/mqtt/brokers/start.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/interoperability/mqtt/brokers/start.py b/interoperability/mqtt/brokers/start.py
index 8b3ea62..5c26f3f 100644
--- a/interoperability/mqtt/brokers/start.py
+++ b/interoperability/mqtt/brokers/start.py
@@ -130,7 +130,7 @@ def process_config(config, options):
     servers_to_create[-1][1]["serve_forever"] = True
     return servers_to_create, options
 
-def run(config=None):
+def run(config=None, port=1883):
   global logger, broker3, broker5, brokerSN, server
   logger = logging.getLogger('MQTT broker')
   logger.setLevel(logging.INFO)
@@ -194,7 +194,7 @@ def run(config=None):
     if config == None:
       #TCPBridges.setBroker5(broker5)
       #TCPBridges.create(1886)
-      servers.append(TCPListeners.create(1883, serve_forever=True))
+      servers.append(TCPListeners.create(port, serve_forever=True))
     else:
       for server in servers_to_create:
         servers.append(server[0].create(**server[1]))
@@ -270,7 +270,7 @@ def main(argv):
     else:
       assert False, "unhandled option"
 
-  run(config=cfg)
+  run(config=cfg, port=port)
 
 def usage():
   print(
-- 
2.43.0

