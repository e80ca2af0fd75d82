From fa5f828646f1275aa7b92d8629c00a7f519cc4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:50 +0000
Subject: [PATCH 01/41] fix: read 9-byte var integers and write
 0xffff/0xffffffff in their shortest form

---
 nbc/protocol/format.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nbc/protocol/format.py b/nbc/protocol/format.py
index fc92c12..08b9459 100644
--- a/nbc/protocol/format.py
+++ b/nbc/protocol/format.py
@@ -235,9 +235,9 @@ class FtVarInteger(FormatType):
   def binary(obj):
     if obj < 0xfd:
       return struct.pack('<B',obj)
-    elif obj < 0xffff:
+    elif obj <= 0xffff:
       return b'\xfd' + struct.pack('<H',obj)
-    elif obj < 0xffffffff:
+    elif obj <= 0xffffffff:
       return b'\xfe' + struct.pack('<I',obj)
     return b'\xff' + struct.pack('<Q',obj)
 
@@ -248,7 +248,7 @@ class FtVarInteger(FormatType):
       return (3,struct.unpack('<H', data[1:3])[0])
     elif value == 0xfe:
       return (5,struct.unpack('<I', data[1:5])[0])
-    elif value == 0xfd:
+    elif value == 0xff:
       return (9,struct.unpack('<Q', data[1:9])[0])
     return (1,value)
   
-- 
2.43.0


From b81ee74f0c06a850cf2e9fc6fdf0dce55d7cd7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:50 +0000
Subject: [PATCH 02/41] fix: refuse messages whose byte fields or strings are
 truncated

---
 nbc/protocol/format.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nbc/protocol/format.py b/nbc/protocol/format.py
index 08b9459..8e38c02 100644
--- a/nbc/protocol/format.py
+++ b/nbc/protocol/format.py
@@ -339,6 +339,8 @@ class FtBytes(FormatType):
     return obj
   
   def parse(self, data):
+    if len(data) < self._length:
+      raise ValueError('truncated bytes')
     return (self._length, data[:self._length])
   
   def str(self, obj):
@@ -368,6 +370,8 @@ class FtVarString(FormatType):
     else: data = data.encode('latin-1') # for python3
     (vl,length) = FtVarInteger.parse(data)
     obj = data[vl:vl+length]
+    if len(obj) < length:
+      raise ValueError('truncated string')
     return (vl + len(obj), obj)
   
   def str(self, obj):
-- 
2.43.0


From 45c2438f6ed72b44ebbe30fc59827d43398beb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:50 +0000
Subject: [PATCH 03/41] fix: OutPoint comparison raised NameError

---
 nbc/protocol/format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/protocol/format.py b/nbc/protocol/format.py
index 8e38c02..a5c1d7c 100644
--- a/nbc/protocol/format.py
+++ b/nbc/protocol/format.py
@@ -450,7 +450,7 @@ class OutPoint(CompoundType):
   def __eq__(self, other):
     if not isinstance(other,OutPoint):
       return False
-    return (self.hash == other.hash) and (self.index == otehr.index)
+    return (self.hash == other.hash) and (self.index == other.index)
 
 class FtOutPoint(FtInventoryVector):
   expected_type = OutPoint
-- 
2.43.0


From e86ff4521cc6b8dd21e74b5ef9095701bb58510e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:50 +0000
Subject: [PATCH 04/41] fix: comparing two connections recursed for ever

---
 nbc/node/connection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/node/connection.py b/nbc/node/connection.py
index 513510f..6e24667 100644
--- a/nbc/node/connection.py
+++ b/nbc/node/connection.py
@@ -223,7 +223,7 @@ class Connection(asyncore.dispatcher):
     return hash(self.address)
 
   def __eq__(self, other):
-    return self == other
+    return self is other
   
   def __str__(self):
     return '<Connection(%s) %s:%d>' % (self._fileno,self.ip,self.port)
-- 
2.43.0


From 5fdb920e2617fe60b2e35b51fd1ad5ba6e8ef96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:50 +0000
Subject: [PATCH 05/41] fix: a read event without data closed a healthy
 connection

---
 nbc/node/connection.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nbc/node/connection.py b/nbc/node/connection.py
index 6e24667..ebc86c0 100644
--- a/nbc/node/connection.py
+++ b/nbc/node/connection.py
@@ -1,5 +1,6 @@
 
 import asyncore
+import errno
 import os
 import socket
 import sys
@@ -123,7 +124,9 @@ class Connection(asyncore.dispatcher):
     try:
       chunk = self.recv(BLOCK_SIZE)
     except Exception as e:
-      chunk = ''
+      if getattr(e,'errno',None) in (errno.EAGAIN,errno.EWOULDBLOCK,errno.EINTR):
+        return       # nothing to read after all, the connection is fine
+      chunk = b''
     
     if not chunk:  # remote connection closed
       self.handle_close()
-- 
2.43.0


From d59ab68235fdd58c4caf4922a340317323c228f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:50 +0000
Subject: [PATCH 06/41] fix: closing an idle connection with unsent data ended
 the event loop

---
 nbc/node/connection.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nbc/node/connection.py b/nbc/node/connection.py
index ebc86c0..3b8b0fa 100644
--- a/nbc/node/connection.py
+++ b/nbc/node/connection.py
@@ -184,6 +184,7 @@ class Connection(asyncore.dispatcher):
       self.close()
     except Exception as e:
       pass
+    self._send_buffer = b''   # nothing more to write, must not be polled again
     self.node.disconnected(self)
   
   def handle_message(self, message):
-- 
2.43.0


From 587218df7767db10864e8b5c9247f7c5b285bc5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:50 +0000
Subject: [PATCH 07/41] fix: connection timestamp was an age, not the time last
 heard from

---
 nbc/node/connection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/node/connection.py b/nbc/node/connection.py
index 3b8b0fa..d81d2cc 100644
--- a/nbc/node/connection.py
+++ b/nbc/node/connection.py
@@ -94,7 +94,7 @@ class Connection(asyncore.dispatcher):
   banscore = property(lambda s: s._banscore)
   
   # last time we heard from remote
-  timestamp = property(lambda s: (time.time() - s._last_rx_time))
+  timestamp = property(lambda s: s._last_rx_time)
   
   def add_banscore(self, penalty=1):
     self._banscore += penalty
-- 
2.43.0


From 1602928900257f2e27e1fc50701f171f5395859e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:50 +0000
Subject: [PATCH 08/41] fix: peers that never send anything were never timed
 out

---
 nbc/node/connection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/node/connection.py b/nbc/node/connection.py
index d81d2cc..7e742ce 100644
--- a/nbc/node/connection.py
+++ b/nbc/node/connection.py
@@ -30,7 +30,7 @@ class Connection(asyncore.dispatcher):
     
     self._last_tx_time = 0
     self._last_ping_time = 0
-    self._last_rx_time = 0
+    self._last_rx_time = time.time()  # a peer that never sends anything is idle from now on
     
     # remote node details
     self._address = address
-- 
2.43.0


From 740db4b29eb83a345eed35b2470d032e6c6b7f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:50 +0000
Subject: [PATCH 09/41] fix: banned IPs were never refused because bans were
 looked up by (ip,port)

---
 nbc/node/basenode.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nbc/node/basenode.py b/nbc/node/basenode.py
index c5c941b..cf48e8b 100644
--- a/nbc/node/basenode.py
+++ b/nbc/node/basenode.py
@@ -253,11 +253,11 @@ class BaseNode(asyncore.dispatcher, object):
     (sock,address) = pair
     print('Incoming connection from %s' % repr(address))
     
-    if address in self._banned:
-      if time.time() - self._banned[address] < 3600:
+    if address[0] in self._banned:  # banned by IP, whatever port it comes from
+      if time.time() - self._banned[address[0]] < 3600:
         sock.close()            # banned it within one hour
         return
-      del self._banned[address] # else, ignore early banned list
+      del self._banned[address[0]] # else, ignore early banned list
     
     if not self._listen: # if not accepting incoming, drop it
       sock.close()
-- 
2.43.0


From a5760b50ec89829984fcfca5da58a344037cb6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:50 +0000
Subject: [PATCH 10/41] fix: address requests were never answered under python3

---
 nbc/node/basenode.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nbc/node/basenode.py b/nbc/node/basenode.py
index cf48e8b..ba3d58c 100644
--- a/nbc/node/basenode.py
+++ b/nbc/node/basenode.py
@@ -326,11 +326,11 @@ class BaseNode(asyncore.dispatcher, object):
       self._addresses[peer.address] = (peer.timestamp, peer.services)
   
   def command_get_address(self, peer):
-    def sortAddr(a,b):
-      return cmp(self._addresses[b][0],self._addresses[a][0]) # by timestamp and with decrease
+    def sortAddr(a):
+      return self._addresses[a][0]  # by timestamp
     
     addresses = []
-    for address in sorted(self._addresses,sortAddr):  # add the most recent peers
+    for address in sorted(self._addresses,key=sortAddr,reverse=True):  # add the most recent peers
       (timestamp, services) = self._addresses[address]
       if services is None: continue
       
-- 
2.43.0


From e5b13cd7d199577127e60aa3d8476f3f2d332c7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:50 +0000
Subject: [PATCH 11/41] fix: the address book could exceed its limit and
 ignored news when full

---
 nbc/node/basenode.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nbc/node/basenode.py b/nbc/node/basenode.py
index ba3d58c..e8c8f30 100644
--- a/nbc/node/basenode.py
+++ b/nbc/node/basenode.py
@@ -322,7 +322,7 @@ class BaseNode(asyncore.dispatcher, object):
     peer.send_message(protocol.VersionAck())
   
   def command_version_ack(self, peer): # a peer acknowledged us, record address
-    if len(self._addresses) < MAX_ADDRESSES:
+    if len(self._addresses) < MAX_ADDRESSES or peer.address in self._addresses:
       self._addresses[peer.address] = (peer.timestamp, peer.services)
   
   def command_get_address(self, peer):
@@ -342,8 +342,9 @@ class BaseNode(asyncore.dispatcher, object):
   
   def command_address(self, peer, addr_list):
     for address in addr_list:
-      if len(self._addresses) > MAX_ADDRESSES: return
-      self._addresses[(address.address,address.port)] = (address.timestamp,address.services)
+      key = (address.address,address.port)
+      if len(self._addresses) >= MAX_ADDRESSES and key not in self._addresses: continue
+      self._addresses[key] = (address.timestamp,address.services)
 
 def startServer(node):
   ts = Thread(target=node.serve_forever)
-- 
2.43.0


From b3f4a02ee76849a8a083c70806475a55917cba4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:50 +0000
Subject: [PATCH 12/41] fix: the node's own address in the book blocked all
 further connection attempts

---
 nbc/node/basenode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/node/basenode.py b/nbc/node/basenode.py
index e8c8f30..cfba01b 100644
--- a/nbc/node/basenode.py
+++ b/nbc/node/basenode.py
@@ -204,7 +204,7 @@ class BaseNode(asyncore.dispatcher, object):
       # else, router node should not using self._bootstrap
     else:
       peers = self.peers
-      actives = [n.address for n in peers]
+      actives = [n.address for n in peers] + [self.address]
       for address in self._addresses:
         if address in actives: continue  # ignore already connected one
         self.add_peer(address)           # try add one peer
-- 
2.43.0


From 45349afbcad4f7e5c7b6ec8e9b0cac88d1b25d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:50 +0000
Subject: [PATCH 13/41] fix: peers given by host name got a connection that
 never shook hands

---
 nbc/node/basenode.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nbc/node/basenode.py b/nbc/node/basenode.py
index cfba01b..143ba79 100644
--- a/nbc/node/basenode.py
+++ b/nbc/node/basenode.py
@@ -154,6 +154,12 @@ class BaseNode(asyncore.dispatcher, object):
   def add_peer(self, address, force=True):  # if already have max_peers and not force, ignore adding
     if not force and len(self._peers) >= self._max_peers:
       return False  # too much peers
+    try:            # seeds may be host names
+      address = (socket.gethostbyname(address[0]),address[1])
+    except Exception as e:
+      print('meet error: %s' % e)
+      if address in self._addresses: del self._addresses[address]
+      return False
     if address in [n.address for n in self.values()]:
       return False  # already exists this peer
     
-- 
2.43.0


From 7def47fbba031c47f681dbddef272a0cb1beebcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:50 +0000
Subject: [PATCH 14/41] fix: a failing accept closed the listening socket for
 good

---
 nbc/node/basenode.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nbc/node/basenode.py b/nbc/node/basenode.py
index 143ba79..45846f7 100644
--- a/nbc/node/basenode.py
+++ b/nbc/node/basenode.py
@@ -1,5 +1,5 @@
 
-import sys, time, asyncore, socket, random
+import sys, time, asyncore, socket, random, traceback
 from threading import Event, Thread
 
 from six import print_
@@ -271,6 +271,9 @@ class BaseNode(asyncore.dispatcher, object):
     
     connection.Connection(node=self,sock=sock,address=address) # asyncore will keep a reference in map for us
   
+  def handle_error(self):  # one connection could not be accepted, keep listening
+    self.log(traceback.format_exc(),level=self.LOG_LEVEL_ERROR)
+  
   def readable(self):
     return True
   
-- 
2.43.0


From e8f97c63430215dcb783f11c5bcd167ca76d65e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:50 +0000
Subject: [PATCH 15/41] fix: after close() no handshake of the remaining
 connections could finish

---
 nbc/node/basenode.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nbc/node/basenode.py b/nbc/node/basenode.py
index 45846f7..d97c069 100644
--- a/nbc/node/basenode.py
+++ b/nbc/node/basenode.py
@@ -140,6 +140,7 @@ class BaseNode(asyncore.dispatcher, object):
   
   def close(self):
     asyncore.dispatcher.close(self)
+    self.__dict__.pop('connected',None)  # dispatcher's flag would hide our connected()
   
   def invalid_command(self, peer, payload, exception):
     self.log('invalid command: %r (%s)' % (payload,exception))
-- 
2.43.0


From 2e5289523a105e8f8dc798dde2321c5b818fde31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:50 +0000
Subject: [PATCH 16/41] fix: address-in-use was only recognised by its macOS
 number

---
 nbc/node/basenode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nbc/node/basenode.py b/nbc/node/basenode.py
index d97c069..950041b 100644
--- a/nbc/node/basenode.py
+++ b/nbc/node/basenode.py
@@ -1,5 +1,5 @@
 
-import sys, time, asyncore, socket, random, traceback
+import sys, time, errno, asyncore, socket, random, traceback
 from threading import Event, Thread
 
 from six import print_
@@ -81,7 +81,7 @@ class BaseNode(asyncore.dispatcher, object):
       if address[1] == 0: # if bound to a random port, keep track
         self._address = self.getsockname()
     except socket.error as e:  # port in use... Maybe already running
-      if e.errno == 48:
+      if e.errno == errno.EADDRINUSE:
         raise AddrInUseError()
       raise e
   
-- 
2.43.0


From 4a143bbb6f9d381415752bc9248a6daad6abf6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:50 +0000
Subject: [PATCH 17/41] fix: a listening node could not serve where miniupnpc
 is not available

---
 nbc/node/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nbc/node/__init__.py b/nbc/node/__init__.py
index 5388a01..c85d47a 100644
--- a/nbc/node/__init__.py
+++ b/nbc/node/__init__.py
@@ -18,9 +18,9 @@ def _init_upnp():
   global _upnp
   if _upnp: return _upnp
   
-  u = miniupnpc.UPnP()
-  u.discoverdelay = 200
   try:
+    u = miniupnpc.UPnP()
+    u.discoverdelay = 200
     print('discovering... delay = %ums' % u.discoverdelay)
     devices = u.discover()
     print('%u device(s) detected' % devices)
-- 
2.43.0


From dd333b87c51308fafa65fec717031a9ae26cc864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:50 +0000
Subject: [PATCH 18/41] fix: remove exactly the port mapping that was added

---
 nbc/node/__init__.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/nbc/node/__init__.py b/nbc/node/__init__.py
index c85d47a..cf9beb0 100644
--- a/nbc/node/__init__.py
+++ b/nbc/node/__init__.py
@@ -13,6 +13,7 @@ class AddrInUseError(Exception): pass
 class StopNode(Exception): pass
 
 _upnp = None
+_mapped = {}   # (port,proto) to the external port that was mapped to it
 
 def _init_upnp():
   global _upnp
@@ -48,6 +49,7 @@ def add_portmap(port, proto, label=''):
       r = u.getspecificportmapping(eport,proto)
     b = u.addportmapping(eport,proto,u.lanaddr,port,label,'')
     if b:
+      _mapped[(port,proto)] = eport
       print('success! now waiting for %s request on %s:%u' % (proto,extAddr,eport))
       return u
     else:
@@ -56,9 +58,10 @@ def add_portmap(port, proto, label=''):
     print('!! meet Exception: %s' % e)
 
 def remove_portmap(port, proto):
-  if not _upnp: return
+  eport = _mapped.pop((port,proto),None)
+  if not _upnp or eport is None: return
   try:
-    b = _upnp.deleteportmapping(port,proto)
+    b = _upnp.deleteportmapping(eport,proto)
     if b:
       print('successfully deleted port mapping')
     else:
-- 
2.43.0


From 9dae41d05a7c019ac647ff81b573ee9c6a67eaa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:20 +0000
Subject: [PATCH 19/41] fix: a message that cannot be rendered or written to
 the log was not handled or sent

---
 nbc/node/basenode.py   |  5 ++++-
 nbc/node/connection.py | 26 ++++++++++++++++----------
 2 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/nbc/node/basenode.py b/nbc/node/basenode.py
index 950041b..eaa9ea6 100644
--- a/nbc/node/basenode.py
+++ b/nbc/node/basenode.py
@@ -122,7 +122,10 @@ class BaseNode(asyncore.dispatcher, object):
       source = peer.address[0]
     else: source = 'node'
     message = '(%s) %s' % (source, message)
-    print_(message,file=self._log)
+    try:
+      print_(message,file=self._log)
+    except Exception as e:
+      pass                    # a log that can not be written must not disturb the node
   
   def serve_forever(self):
     if self._listen:
diff --git a/nbc/node/connection.py b/nbc/node/connection.py
index 7e742ce..09b141f 100644
--- a/nbc/node/connection.py
+++ b/nbc/node/connection.py
@@ -188,11 +188,14 @@ class Connection(asyncore.dispatcher):
     self.node.disconnected(self)
   
   def handle_message(self, message):
-    logLevel = self.node.log_level
-    if logLevel <= self.node.LOG_LEVEL_PROTOCOL:
-      self.node.log('<<< ' + str(message), peer=self, level=logLevel)
-    elif logLevel <= self.node.LOG_LEVEL_DEBUG:
-      self.node.log('<<< ' + message._debug(), peer=self, level=logLevel)
+    try:             # a message that can not be shown must be handled all the same
+      logLevel = self.node.log_level
+      if logLevel <= self.node.LOG_LEVEL_PROTOCOL:
+        self.node.log('<<< ' + str(message), peer=self, level=logLevel)
+      elif logLevel <= self.node.LOG_LEVEL_DEBUG:
+        self.node.log('<<< ' + message._debug(), peer=self, level=logLevel)
+    except Exception as e:
+      self.node.log('<<< %s (%s)' % (message.command,e), peer=self, level=self.node.log_level)
     
     kwargs = dict((k,getattr(message,k)) for (k,t) in message.properties)
     if message.command == protocol.Version.command:
@@ -215,11 +218,14 @@ class Connection(asyncore.dispatcher):
         self.node.log('error: method not defined: command_%s' % message.name, peer=self, level=self.node.log_level)
   
   def send_message(self, message):
-    logLevel = self.node.log_level
-    if logLevel <= self.node.LOG_LEVEL_PROTOCOL:
-      self.node.log('>>> ' + str(message), peer=self, level=logLevel)
-    elif logLevel <= self.node.LOG_LEVEL_DEBUG:
-      self.node.log('>>> ' + message._debug(), peer=self, level=logLevel)
+    try:             # a message that can not be shown must be sent all the same
+      logLevel = self.node.log_level
+      if logLevel <= self.node.LOG_LEVEL_PROTOCOL:
+        self.node.log('>>> ' + str(message), peer=self, level=logLevel)
+      elif logLevel <= self.node.LOG_LEVEL_DEBUG:
+        self.node.log('>>> ' + message._debug(), peer=self, level=logLevel)
+    except Exception as e:
+      self.node.log('>>> %s (%s)' % (message.command,e), peer=self, level=self.node.log_level)
     
     self._send_buffer += message.binary(self.node.coin.magic)
   
-- 
2.43.0


From beed9b310c0d05c053ac190debb3694a46cd2fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:23 +0000
Subject: [PATCH 20/41] fix: saving a wallet destroyed the old file before the
 new one was on disk

---
 nbc/wallet/__init__.py | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/nbc/wallet/__init__.py b/nbc/wallet/__init__.py
index 8a72ac8..76b2d86 100644
--- a/nbc/wallet/__init__.py
+++ b/nbc/wallet/__init__.py
@@ -1,5 +1,5 @@
 
-import json
+import json, os, shutil, tempfile
 from .address import Address
 from .hdwallet import HDWallet
 
@@ -8,8 +8,28 @@ __all__ = ['Address', 'HDWallet', 'loadFrom', 'saveTo']
 def saveTo(fileName, wallet, passphrase=''):
   cfg = wallet.dump_to_cfg(passphrase)
   sCfg = json.dumps(cfg)
-  with open(fileName,'w') as f:
-    f.write(sCfg)
+  
+  # the old file stays as it is until the new one is completely on disk
+  fileName = os.path.realpath(fileName)
+  folder = os.path.dirname(fileName)
+  (fd,tmpName) = tempfile.mkstemp(prefix='.wallet-',dir=folder)
+  try:
+    with os.fdopen(fd,'w') as f:
+      f.write(sCfg)
+      f.flush()
+      os.fsync(f.fileno())
+    if os.path.exists(fileName):
+      shutil.copymode(fileName,tmpName)
+    getattr(os,'replace',os.rename)(tmpName,fileName)
+  except BaseException:
+    os.unlink(tmpName)
+    raise
+  
+  if hasattr(os,'O_DIRECTORY'):  # let the new name survive a crash too
+    fd = os.open(folder,os.O_RDONLY)
+    try:
+      os.fsync(fd)
+    finally: os.close(fd)
 
 def loadFrom(fileName, passphrase=''):
   with open(fileName,'r') as f:
-- 
2.43.0


From 8fa38e41741c4ecf300ec3e9274b486f88accf5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:23 +0000
Subject: [PATCH 21/41] fix: a wrong passphrase could load a wallet with a
 garbage key

---
 nbc/wallet/address.py  | 2 ++
 nbc/wallet/hdwallet.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/nbc/wallet/address.py b/nbc/wallet/address.py
index 27789bf..5c793e4 100644
--- a/nbc/wallet/address.py
+++ b/nbc/wallet/address.py
@@ -202,6 +202,8 @@ class Address(object):
         orgLen = int(prvKey[:2],16); nowLen = len(prvKey)
         if nowLen < 2 + orgLen or nowLen > orgLen + 17:   # 17 is 2 + padding(15)
           raise ValueError('out of range')
+        if prvKey[2+orgLen:].strip(b'\x00'):              # padding is always 0, else wrong passphrase
+          raise ValueError('invalid padding')
         prvKey = prvKey[2:2+orgLen]  # first 2 bytes is original length
       except:
         raise ValueError('invalid private key')
diff --git a/nbc/wallet/hdwallet.py b/nbc/wallet/hdwallet.py
index 34f9de9..acbc0d2 100644
--- a/nbc/wallet/hdwallet.py
+++ b/nbc/wallet/hdwallet.py
@@ -274,6 +274,8 @@ class HDWallet(object):
         orgLen = int(prvKey[:2],16); nowLen = len(prvKey)
         if nowLen < 2 + orgLen or nowLen > orgLen + 17:   # 17 is 2 + padding(15)
           raise ValueError('out of range')
+        if prvKey[2+orgLen:].strip(b'\x00'):              # padding is always 0, else wrong passphrase
+          raise ValueError('invalid padding')
         prvKey = prvKey[2:2+orgLen]      # first 2 bytes is original length
       except:
         raise ValueError('invalid private key')
-- 
2.43.0


From 092497d5138200ff57a6ba79a5722d59229db904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:23 +0000
Subject: [PATCH 22/41] fix: a saved watch-only address forgot that it is
 compressed

---
 nbc/wallet/address.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/wallet/address.py b/nbc/wallet/address.py
index 5c793e4..105d0a6 100644
--- a/nbc/wallet/address.py
+++ b/nbc/wallet/address.py
@@ -187,7 +187,7 @@ class Address(object):
       
       cfg['prvkey'] = hexlify(privKey).decode('latin-1')
     elif pubKey:
-      cfg['pubkey'] = hexlify(pubKey).decode('latin-1')
+      cfg['pubkey'] = hexlify(self.publicKey()).decode('latin-1')
     return cfg
   
   @classmethod
-- 
2.43.0


From 2a86a391c82803c33583127cba701147b1c4dc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:23 +0000
Subject: [PATCH 23/41] fix: half of the compressed public keys were
 decompressed to the wrong point

---
 nbc/wallet/hdwallet.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/nbc/wallet/hdwallet.py b/nbc/wallet/hdwallet.py
index acbc0d2..20b68c4 100644
--- a/nbc/wallet/hdwallet.py
+++ b/nbc/wallet/hdwallet.py
@@ -29,13 +29,12 @@ def point_compress(point):
 def point_decompress(curve, data):
   prefix = data[0]; ch = ORD(prefix)
   assert(ch in (2,3))  # data[0] should be b'\x02' or b'\x03'
-  parity = 1 if ch == 2 else -1
-  
   x = string_to_number(data[1:])
   y = numbertheory.square_root_mod_prime( 
     ( x * x * x + curve.a() * x + curve.b() ) % curve.p(),  curve.p()
   )
-  y = parity * y % curve.p()
+  if (y & 1) != (ch & 1):
+    y = curve.p() - y
   return ellipticcurve.Point(curve, x, y)
 
 class HDWallet(object):
-- 
2.43.0


From 4db3b71f44c7fe758be7b2e53ab27d79631bfc6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:23 +0000
Subject: [PATCH 24/41] fix: extended keys could not be imported

---
 nbc/wallet/hdwallet.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nbc/wallet/hdwallet.py b/nbc/wallet/hdwallet.py
index 20b68c4..ddafa6f 100644
--- a/nbc/wallet/hdwallet.py
+++ b/nbc/wallet/hdwallet.py
@@ -193,9 +193,9 @@ class HDWallet(object):
     return ecc.verify(data,pubKey,signature)
   
   @staticmethod
-  def from_extended_key(extended_key):
-    decoded = base58.b58decode(extended_key,78+4)
-    assert(decoded)
+  def from_extended_key(extended_key, vcn=None):  # vcn is no part of extended key
+    decoded = base58.b58decode(extended_key)
+    assert(len(decoded) == 78+4)
     ekdata = decoded[:78]
     checksum = decoded[78:78+4]
     # validate checksum
@@ -220,7 +220,7 @@ class HDWallet(object):
     else:
       raise Exception('unknown version')
     
-    return HDWallet( key, chaincode, vcn=self.vcn,
+    return HDWallet( key, chaincode, vcn=vcn,
       testnet=testnet, depth=depth,
       childnum=childnum, parentfp=parentfp )
   
-- 
2.43.0


From f9877986c2e977f19a37b12913cb422024c5eef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:23 +0000
Subject: [PATCH 25/41] fix: a derived child got a random address version

---
 nbc/wallet/hdwallet.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nbc/wallet/hdwallet.py b/nbc/wallet/hdwallet.py
index ddafa6f..50853b8 100644
--- a/nbc/wallet/hdwallet.py
+++ b/nbc/wallet/hdwallet.py
@@ -114,6 +114,7 @@ class HDWallet(object):
       childKey = childPubkey
     
     return self.__class__(childKey, childChain, 
+      vcn=self.vcn,
       testnet=self._testnet,
       depth=self._depth + 1,
       parentfp=self.fingerprint(),
-- 
2.43.0


From 89ba19f115531bf79073655636d6c948207706ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:23 +0000
Subject: [PATCH 26/41] fix: heights inside JSON lists were never found

---
 nbc/util/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/util/__init__.py b/nbc/util/__init__.py
index 455992a..5984ae3 100644
--- a/nbc/util/__init__.py
+++ b/nbc/util/__init__.py
@@ -146,7 +146,7 @@ def fetch_url_json_path_int(url, path):
             for component in path.split('/'):
                 if isinstance(data, dict):
                     data = data[component]
-                elif ininstance(data, (list, tuple)):
+                elif isinstance(data, (list, tuple)):
                     data = data[int(component)]
                 else:
                     return None
-- 
2.43.0


From 210419649611948be05ef2e1691412a45b15e3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:23 +0000
Subject: [PATCH 27/41] fix: a clock step could stretch the height poll or cut
 it short

---
 nbc/util/__init__.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nbc/util/__init__.py b/nbc/util/__init__.py
index 5984ae3..727dc70 100644
--- a/nbc/util/__init__.py
+++ b/nbc/util/__init__.py
@@ -190,10 +190,11 @@ def guess_block_height(coin, timeout = 5.0):
         thread.start()
         threads.append(thread)
 
-    t0 = time.time()
+    now = getattr(time, 'monotonic', time.time)
+    t0 = now()
     for thread in threads:
-        wait_time = timeout - (time.time() - t0)
-        if timeout < 0: break
+        wait_time = timeout - (now() - t0)
+        if wait_time < 0: wait_time = 0
         thread.join(wait_time)
 
     # we copy, so lingering threads don't sneak new info in without a lock
-- 
2.43.0


From 416b35febf465630ba36a08565a68a1ea5890570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:39 +0000
Subject: [PATCH 28/41] fix: a node without a fixed port could not be created

asyncore dispatchers no longer pass unknown attributes on to their socket, so
getsockname() has to be called on the socket itself.
---
 nbc/node/basenode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/node/basenode.py b/nbc/node/basenode.py
index eaa9ea6..e4c353e 100644
--- a/nbc/node/basenode.py
+++ b/nbc/node/basenode.py
@@ -79,7 +79,7 @@ class BaseNode(asyncore.dispatcher, object):
       self.listen(5)
       
       if address[1] == 0: # if bound to a random port, keep track
-        self._address = self.getsockname()
+        self._address = self.socket.getsockname()
     except socket.error as e:  # port in use... Maybe already running
       if e.errno == errno.EADDRINUSE:
         raise AddrInUseError()
-- 
2.43.0


From 993fcca3b54a08dc48077c4e04bee6c0b2fee5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:16 +0000
Subject: [PATCH 29/41] fix: a port mapping taken over by another device was
 removed

---
 nbc/node/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nbc/node/__init__.py b/nbc/node/__init__.py
index cf9beb0..8f7f1bc 100644
--- a/nbc/node/__init__.py
+++ b/nbc/node/__init__.py
@@ -61,6 +61,8 @@ def remove_portmap(port, proto):
   eport = _mapped.pop((port,proto),None)
   if not _upnp or eport is None: return
   try:
+    r = _upnp.getspecificportmapping(eport,proto)
+    if r is None or r[0] != _upnp.lanaddr or r[1] != port: return  # not ours any more
     b = _upnp.deleteportmapping(eport,proto)
     if b:
       print('successfully deleted port mapping')
-- 
2.43.0


From 675a9b0c87c0c26c47be5c41da4c2eb12e6569f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:07 +0000
Subject: [PATCH 30/41] fix: a message sent by another thread than the event
 loop's is neither lost nor sent twice

---
 nbc/node/connection.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/nbc/node/connection.py b/nbc/node/connection.py
index 09b141f..1cbe0cf 100644
--- a/nbc/node/connection.py
+++ b/nbc/node/connection.py
@@ -6,6 +6,7 @@ import socket
 import sys
 import time
 import traceback
+from threading import Lock
 
 from .. import util
 from .. import protocol
@@ -24,6 +25,7 @@ class Connection(asyncore.dispatcher):
   def __init__(self, node, address, sock=None):
     self._node = node
     self._send_buffer = b''   # send buffer
+    self._send_lock = Lock()  # any thread may send
     self._recv_buffer = b''   # receive buffer
     self._tx_bytes = 0
     self._rx_bytes = 0
@@ -162,13 +164,13 @@ class Connection(asyncore.dispatcher):
   def handle_write(self):
     try:
       sent = self.send(self._send_buffer)
+      with self._send_lock:
+        self._send_buffer = self._send_buffer[sent:]
       self._tx_bytes += sent
       self.node._tx_bytes += sent
       self._last_tx_time = time.time()
     except Exception as e:
       self.handle_close()
-      return
-    self._send_buffer = self._send_buffer[sent:]
   
   def handle_error(self):
     t,v,tb = sys.exc_info()
@@ -184,7 +186,8 @@ class Connection(asyncore.dispatcher):
       self.close()
     except Exception as e:
       pass
-    self._send_buffer = b''   # nothing more to write, must not be polled again
+    with self._send_lock:
+      self._send_buffer = b''   # nothing more to write, must not be polled again
     self.node.disconnected(self)
   
   def handle_message(self, message):
@@ -227,7 +230,9 @@ class Connection(asyncore.dispatcher):
     except Exception as e:
       self.node.log('>>> %s (%s)' % (message.command,e), peer=self, level=self.node.log_level)
     
-    self._send_buffer += message.binary(self.node.coin.magic)
+    data = message.binary(self.node.coin.magic)
+    with self._send_lock:
+      self._send_buffer += data
   
   def __hash__(self):
     return hash(self.address)
-- 
2.43.0


From 528b0dc07f7c07700da8ab5f1af89d4122634820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:07 +0000
Subject: [PATCH 31/41] fix: version is queued before other threads can find
 the new connection and send on it

---
 nbc/node/connection.py | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/nbc/node/connection.py b/nbc/node/connection.py
index 1cbe0cf..b6ce03e 100644
--- a/nbc/node/connection.py
+++ b/nbc/node/connection.py
@@ -36,6 +36,7 @@ class Connection(asyncore.dispatcher):
     
     # remote node details
     self._address = address
+    self._incoming = sock is not None
     self._external_ip = None
     self._services = None
     self._start_height = None
@@ -46,20 +47,6 @@ class Connection(asyncore.dispatcher):
     self._banscore = 0
     self._verack = False # get version acknowledgement or not
     
-    if sock:  # sock come from listen-accept
-      asyncore.dispatcher.__init__(self,sock=sock,map=node) # map: a dictionary whose items are the channels to watch
-      self._incoming = True
-    else:     # we using an address to connect to
-      asyncore.dispatcher.__init__(self,map=node)
-      
-      try:
-        self.create_socket(socket.AF_INET, socket.SOCK_STREAM)
-        self.connect(address)
-      except Exception as e:
-        self.handle_close()
-        raise e
-      self._incoming = False
-    
     # bootstrap communication with the node by broadcasting ver
     now = time.time()
     message = protocol.Version( version = node.coin.protocol_version,
@@ -72,6 +59,18 @@ class Connection(asyncore.dispatcher):
                 start_height = node.blockchain_height,
                 relay = False )
     self.send_message(message)
+    
+    if sock:  # sock come from listen-accept
+      asyncore.dispatcher.__init__(self,sock=sock,map=node) # map: a dictionary whose items are the channels to watch
+    else:     # we using an address to connect to
+      asyncore.dispatcher.__init__(self,map=node)
+      
+      try:
+        self.create_socket(socket.AF_INET, socket.SOCK_STREAM)
+        self.connect(address)
+      except Exception as e:
+        self.handle_close()
+        raise e
   
   # remote node details
   address = property(lambda s: s._address)
-- 
2.43.0


From b81e63918fa60d646cf18ce7187e20d00f4d89e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:07 +0000
Subject: [PATCH 32/41] fix: listing the peers while another thread runs the
 event loop no longer fails

---
 nbc/node/basenode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/node/basenode.py b/nbc/node/basenode.py
index e4c353e..0e9e4e3 100644
--- a/nbc/node/basenode.py
+++ b/nbc/node/basenode.py
@@ -294,7 +294,7 @@ class BaseNode(asyncore.dispatcher, object):
     return self._peers.items()
   
   def values(self):
-    return self._peers.values()
+    return list(self._peers.values())  # not a view, the loop's thread may change it
   
   def keys(self):
     return self._peers.keys()
-- 
2.43.0


From 1ed6b7dcdd5a4c1284de537bcb17a8367ef8e3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:07 +0000
Subject: [PATCH 33/41] fix: closing a node from another thread no longer ends
 its event loop while peers are connected

---
 nbc/node/basenode.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/nbc/node/basenode.py b/nbc/node/basenode.py
index 0e9e4e3..88f4ae6 100644
--- a/nbc/node/basenode.py
+++ b/nbc/node/basenode.py
@@ -1,5 +1,5 @@
 
-import sys, time, errno, asyncore, socket, random, traceback
+import sys, time, errno, select, asyncore, socket, random, traceback
 from threading import Event, Thread
 
 from six import print_
@@ -132,7 +132,14 @@ class BaseNode(asyncore.dispatcher, object):
       self._upnp = add_portmap(self.port,'TCP','Newbitcoin Peer manager')
     
     try:
-      asyncore.loop(5,map=self)
+      while True:
+        listening = self._fileno is not None
+        try:
+          asyncore.loop(5,map=self)
+          break
+        except select.error as e:  # another thread closed the listening socket while it was polled
+          if e.args[0] != errno.EBADF or not listening or self._fileno is not None:
+            raise
     except StopNode as e:
       pass
     finally:
-- 
2.43.0


From ed1c616a56ef0c874ff64a315d0c038af99e4ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:49 +0000
Subject: [PATCH 34/41] fix: closing a node from another thread no longer hides
 connected() from a version just handled

---
 nbc/node/basenode.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nbc/node/basenode.py b/nbc/node/basenode.py
index 88f4ae6..161f82b 100644
--- a/nbc/node/basenode.py
+++ b/nbc/node/basenode.py
@@ -149,8 +149,10 @@ class BaseNode(asyncore.dispatcher, object):
         remove_portmap(self.port,'TCP')
   
   def close(self):
-    asyncore.dispatcher.close(self)
-    self.__dict__.pop('connected',None)  # dispatcher's flag would hide our connected()
+    self.accepting = False   # dispatcher.close() would also set a flag that hides our connected()
+    self.del_channel()
+    if self.socket:
+      self.socket.close()
   
   def invalid_command(self, peer, payload, exception):
     self.log('invalid command: %r (%s)' % (payload,exception))
-- 
2.43.0


From 0dc25dfe5f571a94fe312c0bfe4af5d44dbe2ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:09 +0000
Subject: [PATCH 35/41] fix: a standard output that can not be written no
 longer ends the node or its port mapping

---
 nbc/node/__init__.py | 32 +++++++++++++++++++-------------
 nbc/node/basenode.py |  8 ++++----
 2 files changed, 23 insertions(+), 17 deletions(-)

diff --git a/nbc/node/__init__.py b/nbc/node/__init__.py
index 8f7f1bc..11f1568 100644
--- a/nbc/node/__init__.py
+++ b/nbc/node/__init__.py
@@ -12,6 +12,12 @@ else:
 class AddrInUseError(Exception): pass
 class StopNode(Exception): pass
 
+def show(text):
+  try:
+    print(text)
+  except Exception as e:
+    pass                 # standard output that can not be written must not disturb the node
+
 _upnp = None
 _mapped = {}   # (port,proto) to the external port that was mapped to it
 
@@ -22,12 +28,12 @@ def _init_upnp():
   try:
     u = miniupnpc.UPnP()
     u.discoverdelay = 200
-    print('discovering... delay = %ums' % u.discoverdelay)
+    show('discovering... delay = %ums' % u.discoverdelay)
     devices = u.discover()
-    print('%u device(s) detected' % devices)
+    show('%u device(s) detected' % devices)
     _upnp = u
   except Exception as e:
-    print('!! meet Exception: %s' % e)
+    show('!! meet Exception: %s' % e)
   return _upnp
 
 def add_portmap(port, proto, label=''):
@@ -35,10 +41,10 @@ def add_portmap(port, proto, label=''):
   try:
     u.selectigd()  # select Internet Gateway Device
     extAddr = u.externalipaddress()
-    print('local ip address %s: ' % u.lanaddr)
-    print('external ip address: %s' % extAddr)
-    print('%s %s' % (u.statusinfo(), u.connectiontype()))
-    print('trying to redirect %s port %u %s => %s port %u %s' %
+    show('local ip address %s: ' % u.lanaddr)
+    show('external ip address: %s' % extAddr)
+    show('%s %s' % (u.statusinfo(), u.connectiontype()))
+    show('trying to redirect %s port %u %s => %s port %u %s' %
           (extAddr, port, proto, u.lanaddr, port, proto))
     
     # find a free port for the redirection
@@ -50,12 +56,12 @@ def add_portmap(port, proto, label=''):
     b = u.addportmapping(eport,proto,u.lanaddr,port,label,'')
     if b:
       _mapped[(port,proto)] = eport
-      print('success! now waiting for %s request on %s:%u' % (proto,extAddr,eport))
+      show('success! now waiting for %s request on %s:%u' % (proto,extAddr,eport))
       return u
     else:
-      print('!! failed')
+      show('!! failed')
   except Exception as e:
-    print('!! meet Exception: %s' % e)
+    show('!! meet Exception: %s' % e)
 
 def remove_portmap(port, proto):
   eport = _mapped.pop((port,proto),None)
@@ -65,8 +71,8 @@ def remove_portmap(port, proto):
     if r is None or r[0] != _upnp.lanaddr or r[1] != port: return  # not ours any more
     b = _upnp.deleteportmapping(eport,proto)
     if b:
-      print('successfully deleted port mapping')
+      show('successfully deleted port mapping')
     else:
-      print('!! failed to remove port mapping')
+      show('!! failed to remove port mapping')
   except Exception as e:
-    print('!! meet Exception: %s' % e)
+    show('!! meet Exception: %s' % e)
diff --git a/nbc/node/basenode.py b/nbc/node/basenode.py
index 161f82b..c7183c5 100644
--- a/nbc/node/basenode.py
+++ b/nbc/node/basenode.py
@@ -8,7 +8,7 @@ from .. import util
 from .. import coins
 from .. import protocol
 from . import connection
-from ..node import AddrInUseError, StopNode, add_portmap, remove_portmap
+from ..node import AddrInUseError, StopNode, add_portmap, remove_portmap, show
 
 try:
   range = xrange
@@ -170,7 +170,7 @@ class BaseNode(asyncore.dispatcher, object):
     try:            # seeds may be host names
       address = (socket.gethostbyname(address[0]),address[1])
     except Exception as e:
-      print('meet error: %s' % e)
+      show('meet error: %s' % e)
       if address in self._addresses: del self._addresses[address]
       return False
     if address in [n.address for n in self.values()]:
@@ -179,7 +179,7 @@ class BaseNode(asyncore.dispatcher, object):
     try:            # asyncore keeps a reference in the map
       connection.Connection(address=address,node=self)
     except Exception as e:
-      print('meet error: %s' % e)
+      show('meet error: %s' % e)
       return False  # will remove self._addresses[address] in self.disconnected()
     return True
   
@@ -270,7 +270,7 @@ class BaseNode(asyncore.dispatcher, object):
     if not pair: return
     
     (sock,address) = pair
-    print('Incoming connection from %s' % repr(address))
+    show('Incoming connection from %s' % repr(address))
     
     if address[0] in self._banned:  # banned by IP, whatever port it comes from
       if time.time() - self._banned[address[0]] < 3600:
-- 
2.43.0


From d1058686885412facfd1ff9133691fdf2ad10dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:39 +0000
Subject: [PATCH 36/41] fix: more than a thousand open descriptors no longer
 end the event loop

---
 nbc/node/basenode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/node/basenode.py b/nbc/node/basenode.py
index c7183c5..a44dc53 100644
--- a/nbc/node/basenode.py
+++ b/nbc/node/basenode.py
@@ -135,7 +135,7 @@ class BaseNode(asyncore.dispatcher, object):
       while True:
         listening = self._fileno is not None
         try:
-          asyncore.loop(5,map=self)
+          asyncore.loop(5,True,map=self)  # poll, select can not watch descriptors above 1023
           break
         except select.error as e:  # another thread closed the listening socket while it was polled
           if e.args[0] != errno.EBADF or not listening or self._fileno is not None:
-- 
2.43.0


From 13dbfaa3a29f84371c9539dcae4dfa77ebb8ddc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:07 +0000
Subject: [PATCH 37/41] fix: urgent data from a peer no longer makes the event
 loop spin

---
 nbc/node/connection.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nbc/node/connection.py b/nbc/node/connection.py
index b6ce03e..17fee91 100644
--- a/nbc/node/connection.py
+++ b/nbc/node/connection.py
@@ -171,6 +171,12 @@ class Connection(asyncore.dispatcher):
     except Exception as e:
       self.handle_close()
   
+  def handle_expt(self):  # urgent data means nothing here, but would be reported again and again until it is taken
+    try:
+      self.socket.recv(1,socket.MSG_OOB)
+    except Exception as e:
+      pass
+  
   def handle_error(self):
     t,v,tb = sys.exc_info()
     if t == socket.error:
-- 
2.43.0


From d79e00ea8666151ba0c2759977fd3a08a82e4e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:06 +0000
Subject: [PATCH 38/41] fix: a failing disconnected() callback no longer ends
 the event loop

---
 nbc/node/connection.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/nbc/node/connection.py b/nbc/node/connection.py
index 17fee91..024cc07 100644
--- a/nbc/node/connection.py
+++ b/nbc/node/connection.py
@@ -10,6 +10,7 @@ from threading import Lock
 
 from .. import util
 from .. import protocol
+from ..node import StopNode
 
 BLOCK_SIZE = 8192             # one receive block size
 
@@ -193,7 +194,12 @@ class Connection(asyncore.dispatcher):
       pass
     with self._send_lock:
       self._send_buffer = b''   # nothing more to write, must not be polled again
-    self.node.disconnected(self)
+    try:
+      self.node.disconnected(self)
+    except StopNode as e:
+      raise
+    except Exception as e:      # a callback that fails must not end the event loop
+      self.node.log(traceback.format_exc(),peer=self,level=self.node.LOG_LEVEL_ERROR)
   
   def handle_message(self, message):
     try:             # a message that can not be shown must be handled all the same
-- 
2.43.0


From 5b966a7768a5c42d78af532e45441d9fffa76cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:35 +0000
Subject: [PATCH 39/41] fix: a wallet can be saved under a file name given as
 bytes again

---
 nbc/wallet/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nbc/wallet/__init__.py b/nbc/wallet/__init__.py
index 76b2d86..5af48c1 100644
--- a/nbc/wallet/__init__.py
+++ b/nbc/wallet/__init__.py
@@ -11,6 +11,8 @@ def saveTo(fileName, wallet, passphrase=''):
   
   # the old file stays as it is until the new one is completely on disk
   fileName = os.path.realpath(fileName)
+  if not isinstance(fileName,str) and hasattr(os,'fsdecode'):  # bytes in python3
+    fileName = os.fsdecode(fileName)
   folder = os.path.dirname(fileName)
   (fd,tmpName) = tempfile.mkstemp(prefix='.wallet-',dir=folder)
   try:
-- 
2.43.0


From 9e2e7ccf61ea89a6a89bb2bfa3eac6e99ccbb8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:34 +0000
Subject: [PATCH 40/41] fix: a thread that can not be started no longer ends
 the height poll or the seed lookup

---
 nbc/util/__init__.py  | 5 ++++-
 nbc/util/bootstrap.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/nbc/util/__init__.py b/nbc/util/__init__.py
index 727dc70..33f8134 100644
--- a/nbc/util/__init__.py
+++ b/nbc/util/__init__.py
@@ -187,7 +187,10 @@ def guess_block_height(coin, timeout = 5.0):
     for (name, func) in coin.block_height_guess:
         thread = threading.Thread(target = get_block_height, args = (name, func))
         thread.daemon = True
-        thread.start()
+        try:
+            thread.start()
+        except Exception as e:
+            continue        # no thread for this one, the others are polled all the same
         threads.append(thread)
 
     now = getattr(time, 'monotonic', time.time)
diff --git a/nbc/util/bootstrap.py b/nbc/util/bootstrap.py
index 4d9e566..aa2961a 100644
--- a/nbc/util/bootstrap.py
+++ b/nbc/util/bootstrap.py
@@ -69,5 +69,8 @@ class DNSSeeder(object):
         for address in self._dns_seeds:
             thread = threading.Thread(target = try_address, args = (address, ))
             thread.daemon = True
-            thread.start()
+            try:
+                thread.start()
+            except Exception as e:
+                pass    # no thread for this one, the others are looked up all the same
 
-- 
2.43.0


From 02b27b9150123befbf10b7e5d28342ce6d75f99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:07 +0000
Subject: [PATCH 41/41] fix: a saved wallet keeps its owner and group, and its
 group's rights never go to another group

---
 nbc/wallet/__init__.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/nbc/wallet/__init__.py b/nbc/wallet/__init__.py
index 5af48c1..8ba4321 100644
--- a/nbc/wallet/__init__.py
+++ b/nbc/wallet/__init__.py
@@ -1,10 +1,26 @@
 
-import json, os, shutil, tempfile
+import json, os, stat, tempfile
 from .address import Address
 from .hdwallet import HDWallet
 
 __all__ = ['Address', 'HDWallet', 'loadFrom', 'saveTo']
 
+def _copyAccess(fileName, newName):
+  'Gives a new file the owner, group and mode of the one it will replace.'
+  old = os.stat(fileName); new = os.stat(newName)
+  mode = stat.S_IMODE(old.st_mode)
+  try:
+    if old.st_gid != new.st_gid:
+      os.chown(newName,-1,old.st_gid)
+  except OSError:  # not our group, what it was allowed must not go to another one
+    mode = (mode & ~0o077) | (mode & (mode >> 3) & 0o007)
+  try:
+    if old.st_uid != new.st_uid:
+      os.chown(newName,old.st_uid,-1)
+  except OSError:
+    pass           # only root can give it back
+  os.chmod(newName,mode)
+
 def saveTo(fileName, wallet, passphrase=''):
   cfg = wallet.dump_to_cfg(passphrase)
   sCfg = json.dumps(cfg)
@@ -19,9 +35,9 @@ def saveTo(fileName, wallet, passphrase=''):
     with os.fdopen(fd,'w') as f:
       f.write(sCfg)
       f.flush()
+      if os.path.exists(fileName):
+        _copyAccess(fileName,tmpName)
       os.fsync(f.fileno())
-    if os.path.exists(fileName):
-      shutil.copymode(fileName,tmpName)
     getattr(os,'replace',os.rename)(tmpName,fileName)
   except BaseException:
     os.unlink(tmpName)
-- 
2.43.0

