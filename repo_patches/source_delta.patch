From 290d2c91751f40d6cd6165524a9aedf5c3863b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:30 +0000
Subject: [PATCH 01/15] fix: deliver frames without payload as soon as their
 last byte arrives

---
 zigpy_cc/uart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zigpy_cc/uart.py b/zigpy_cc/uart.py
index da15a3a..fbb3711 100644
--- a/zigpy_cc/uart.py
+++ b/zigpy_cc/uart.py
@@ -37,7 +37,7 @@ class Parser:
     def write(self, b: int):
         self.buffer += bytes([b])
         if SOF == self.buffer[0]:
-            if len(self.buffer) > MinMessageLength:
+            if len(self.buffer) >= MinMessageLength:
                 dataLength = self.buffer[PositionDataLength]
 
                 fcsPosition = DataStart + dataLength
-- 
2.43.0


From d2246d86d077f1ede82102ffe21f9087a3d7e3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:37 +0000
Subject: [PATCH 02/15] fix: a frame which can not be processed must not lose
 the frames after it

---
 zigpy_cc/uart.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/zigpy_cc/uart.py b/zigpy_cc/uart.py
index fbb3711..98df4b2 100644
--- a/zigpy_cc/uart.py
+++ b/zigpy_cc/uart.py
@@ -145,11 +145,14 @@ class Gateway(asyncio.Protocol):
 
         found = False
         for b in data:
-            frame = self._parser.write(b)
-            if frame is not None:
-                found = True
-                LOGGER.debug("Frame received: %s", frame)
-                self._api.data_received(frame)
+            try:
+                frame = self._parser.write(b)
+                if frame is not None:
+                    found = True
+                    LOGGER.debug("Frame received: %s", frame)
+                    self._api.data_received(frame)
+            except Exception:
+                LOGGER.exception("Frame dropped, it can not be processed")
 
         if not found:
             LOGGER.info("Bytes received: %s", data)
-- 
2.43.0


From 1e105241cf087e050b3680419f50e993aaf53e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:45 +0000
Subject: [PATCH 03/15] fix: forward the reply of a request with transaction
 sequence number 0

---
 zigpy_cc/api.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zigpy_cc/api.py b/zigpy_cc/api.py
index e0944e3..c4173a2 100644
--- a/zigpy_cc/api.py
+++ b/zigpy_cc/api.py
@@ -242,7 +242,7 @@ class API:
             if waiter.match(obj):
                 self._waiters.pop(waiter_id)
                 waiter.set_result(obj)
-                if waiter.sequence:
+                if waiter.sequence is not None:
                     obj.sequence = waiter.sequence
                     break
 
-- 
2.43.0


From 3132341f5df83fe0ec0db21f02685b73e49be96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:52 +0000
Subject: [PATCH 04/15] fix: report a rejected request even if its reply waiter
 is gone

---
 zigpy_cc/api.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zigpy_cc/api.py b/zigpy_cc/api.py
index c4173a2..f3cabb4 100644
--- a/zigpy_cc/api.py
+++ b/zigpy_cc/api.py
@@ -145,7 +145,9 @@ class API:
                 and result.payload["status"] not in expected_status
             ):
                 if waiter_id is not None:
-                    self._waiters.pop(waiter_id).set_result(result)
+                    waiter = self._waiters.pop(waiter_id, None)
+                    if waiter is not None:
+                        waiter.set_result(result)
 
                 raise CommandError(
                     result.payload["status"],
-- 
2.43.0


From 092a0ddb1c574e19d8b113398a001e766aa0c292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:35 +0000
Subject: [PATCH 05/15] fix: a failed request must not take the reply of a
 later one

---
 zigpy_cc/api.py                |  4 ++++
 zigpy_cc/zigbee/application.py | 12 +++++++++---
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/zigpy_cc/api.py b/zigpy_cc/api.py
index f3cabb4..a2b3cdd 100644
--- a/zigpy_cc/api.py
+++ b/zigpy_cc/api.py
@@ -232,6 +232,10 @@ class API:
 
         return waiter
 
+    def remove_waiter(self, waiter_id: Optional[int]) -> None:
+        """Stop waiting for a reply which is not expected anymore."""
+        self._waiters.pop(waiter_id, None)
+
     def data_received(self, frame):
         try:
             obj = ZpiObject.from_unpi_frame(frame)
diff --git a/zigpy_cc/zigbee/application.py b/zigpy_cc/zigbee/application.py
index d001efe..e143e62 100644
--- a/zigpy_cc/zigbee/application.py
+++ b/zigpy_cc/zigbee/application.py
@@ -239,14 +239,20 @@ class ControllerApplication(zigpy.application.ControllerApplication):
             obj = ZpiObject.from_cluster(
                 device.nwk, profile, cluster, src_ep, dst_ep, sequence, data
             )
+            api = self._api
             waiter_id = None
             if expect_reply:
-                waiter = self._api.create_response_waiter(obj, sequence)
+                waiter = api.create_response_waiter(obj, sequence)
                 if waiter:
                     waiter_id = waiter.id
 
-            async with self._semaphore:
-                await self._api.request_raw(obj, waiter_id)
+            try:
+                async with self._semaphore:
+                    await self._api.request_raw(obj, waiter_id)
+            except BaseException:
+                # no reply will come, do not take the one of a later request
+                api.remove_waiter(waiter_id)
+                raise
 
         except CommandError as ex:
             return ex.status, "Couldn't enqueue send data request: {}".format(ex)
-- 
2.43.0


From a48e0c68b67400341edecd7887a235c950320886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:42 +0000
Subject: [PATCH 06/15] fix: do not fail when the port is lost before an
 application is set

---
 zigpy_cc/api.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zigpy_cc/api.py b/zigpy_cc/api.py
index a2b3cdd..210b327 100644
--- a/zigpy_cc/api.py
+++ b/zigpy_cc/api.py
@@ -108,7 +108,8 @@ class API:
             self._uart = None
 
     def connection_lost(self):
-        self._app.connection_lost()
+        if self._app is not None:
+            self._app.connection_lost()
 
     async def request(
         self, subsystem, command, payload, waiter_id=None, expected_status=None
-- 
2.43.0


From 3e7952f7cd5a8b763775f1a4c0c251cb9e2f3c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:12 +0000
Subject: [PATCH 07/15] fix: keep a single reconnect task and stop it on
 shutdown

---
 zigpy_cc/zigbee/application.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/zigpy_cc/zigbee/application.py b/zigpy_cc/zigbee/application.py
index e143e62..be741d1 100644
--- a/zigpy_cc/zigbee/application.py
+++ b/zigpy_cc/zigbee/application.py
@@ -62,16 +62,24 @@ class ControllerApplication(zigpy.application.ControllerApplication):
     def __init__(self, config: Dict[str, Any]):
         super().__init__(config=zigpy.config.ZIGPY_SCHEMA(config))
         self._api = None
+        self._reconnect_task = None
 
         self.discovering = False
         self.version = {}
 
     async def shutdown(self):
         """Shutdown application."""
-        self._api.close()
+        if self._reconnect_task is not None:
+            self._reconnect_task.cancel()
+            self._reconnect_task = None
+        if self._api is not None:
+            self._api.close()
 
     def connection_lost(self):
-        asyncio.create_task(self.reconnect())
+        if self._reconnect_task is not None:
+            # the connection it was about to start up is gone
+            self._reconnect_task.cancel()
+        self._reconnect_task = asyncio.create_task(self.reconnect())
 
     async def reconnect(self):
         while True:
@@ -81,6 +89,8 @@ class ControllerApplication(zigpy.application.ControllerApplication):
             try:
                 await self.startup(True)
                 break
+            except asyncio.CancelledError:
+                raise
             except Exception as e:
                 LOGGER.info("Failed to reconnect: %s", e)
                 pass
-- 
2.43.0


From 473e4ab0f0193fc9ac4999654703bcd653ce37bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:19 +0000
Subject: [PATCH 08/15] fix: close the port when connecting is interrupted

---
 zigpy_cc/uart.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/zigpy_cc/uart.py b/zigpy_cc/uart.py
index 98df4b2..17e3cbc 100644
--- a/zigpy_cc/uart.py
+++ b/zigpy_cc/uart.py
@@ -196,7 +196,7 @@ async def connect(config: Dict[str, Any], api, loop=None) -> Gateway:
         xonxoff, rtscts = True, False
 
     LOGGER.debug("Connecting on port %s with boudrate %d", port, baudrate)
-    _, protocol = await serial_asyncio.create_serial_connection(
+    transport, protocol = await serial_asyncio.create_serial_connection(
         loop,
         lambda: protocol,
         url=port,
@@ -207,9 +207,14 @@ async def connect(config: Dict[str, Any], api, loop=None) -> Gateway:
         rtscts=rtscts,
     )
 
-    await connected_future
+    try:
+        await connected_future
 
-    protocol.write(b"\xef")
-    await asyncio.sleep(1)
+        protocol.write(b"\xef")
+        await asyncio.sleep(1)
+    except BaseException:
+        # nobody else knows about the port
+        transport.close()
+        raise
 
     return protocol
-- 
2.43.0


From 1a7e772d6147e9fc9af5bba10ea1be97f2d3a9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:26 +0000
Subject: [PATCH 09/15] fix: deliver extended incoming messages

---
 zigpy_cc/zigbee/application.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/zigpy_cc/zigbee/application.py b/zigpy_cc/zigbee/application.py
index be741d1..632689e 100644
--- a/zigpy_cc/zigbee/application.py
+++ b/zigpy_cc/zigbee/application.py
@@ -383,6 +383,12 @@ class ControllerApplication(zigpy.application.ControllerApplication):
             dst_ep = obj.payload["dstendpoint"]
             data = obj.payload["data"]
             lqi = obj.payload["linkquality"]
+            if obj.command == "incomingMsgExt":
+                # the source address field is always 8 bytes long
+                if obj.payload["srcaddrmode"] == AddressMode.ADDR_64BIT:
+                    ieee = obj.payload["srcaddr"]
+                else:
+                    nwk, _ = zigpy.types.NWK.deserialize(obj.payload["srcaddr"].serialize())
 
         else:
             LOGGER.warning(
-- 
2.43.0


From b46e9470328380432a8d31b25e19da987dce4083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:34 +0000
Subject: [PATCH 10/15] fix: send messages of every application profile as AF
 data requests

---
 zigpy_cc/zpi_object.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/zigpy_cc/zpi_object.py b/zigpy_cc/zpi_object.py
index d69c6a6..fed9157 100644
--- a/zigpy_cc/zpi_object.py
+++ b/zigpy_cc/zpi_object.py
@@ -1,4 +1,3 @@
-from zigpy.profiles import zha
 from zigpy.types import BroadcastAddress
 
 from zigpy_cc import uart
@@ -6,6 +5,8 @@ from zigpy_cc.buffalo import Buffalo, BuffaloOptions
 from zigpy_cc.definition import Definition
 from zigpy_cc.types import CommandType, ParameterType, Subsystem, AddressMode
 
+ZDO_PROFILE_ID = 0x0000
+
 BufferAndListTypes = [
     ParameterType.BUFFER,
     ParameterType.BUFFER8,
@@ -103,7 +104,7 @@ class ZpiObject:
         radius=30,
         addr_mode=None
     ):
-        if profile == zha.PROFILE_ID:
+        if profile != ZDO_PROFILE_ID:
             subsystem = Subsystem.AF
             if addr_mode is None:
                 cmd = next(c for c in Definition[subsystem] if c["ID"] == 1)
-- 
2.43.0


From 2b3534d02d7953e6edd086544b47000050f71651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:41 +0000
Subject: [PATCH 11/15] fix: use the configured PAN id if it is 0

---
 zigpy_cc/types.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zigpy_cc/types.py b/zigpy_cc/types.py
index c3b56c8..1dc1940 100644
--- a/zigpy_cc/types.py
+++ b/zigpy_cc/types.py
@@ -109,7 +109,9 @@ class NetworkOptions(Repr):
         self.networkKey = config[zigpy.config.CONF_NWK_KEY] or (
             zigpy.config.cv_key([1, 3, 5, 7, 9, 11, 13, 15, 0, 2, 4, 6, 8, 10, 12, 13])
         )
-        self.panID = config[zigpy.config.CONF_NWK_PAN_ID] or t.PanId(0x1A62)
+        self.panID = config[zigpy.config.CONF_NWK_PAN_ID]
+        if self.panID is None:
+            self.panID = t.PanId(0x1A62)
         self.extendedPanID = config[zigpy.config.CONF_NWK_EXTENDED_PAN_ID] or (
             t.ExtendedPanId([0xDD, 0xDD, 0xDD, 0xDD, 0xDD, 0xDD, 0xDD, 0xDD])
         )
-- 
2.43.0


From 91ab45738e55c9dd367845db5aaf973569bbd009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:49 +0000
Subject: [PATCH 12/15] fix: sends must not block for ever after a waiting one
 was cancelled

asyncio.Semaphore never wakes anybody again once a waiting task is cancelled
in the moment it is given the place (bpo-45997, Python 3.9 and 3.10).
---
 zigpy_cc/zigbee/application.py | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/zigpy_cc/zigbee/application.py b/zigpy_cc/zigbee/application.py
index 632689e..2eefcc2 100644
--- a/zigpy_cc/zigbee/application.py
+++ b/zigpy_cc/zigbee/application.py
@@ -1,6 +1,5 @@
 import asyncio
 import logging
-from asyncio.locks import Semaphore
 from typing import Any, Dict, Optional
 
 import zigpy.application
@@ -51,8 +50,28 @@ IGNORED = (
 )
 
 
+class SendSlots:
+    """
+    Limit the number of concurrent sends.
+
+    asyncio.Semaphore can not be used: in several Python versions (bpo-45997) it
+    blocks for ever after a task has been cancelled while it was being woken up.
+    """
+
+    def __init__(self, count: int):
+        self._free = asyncio.Queue()
+        for _ in range(count):
+            self._free.put_nowait(None)
+
+    async def __aenter__(self):
+        await self._free.get()
+
+    async def __aexit__(self, exc_type, exc, tb):
+        self._free.put_nowait(None)
+
+
 class ControllerApplication(zigpy.application.ControllerApplication):
-    _semaphore: Semaphore
+    _semaphore: SendSlots
     _api: Optional[API]
     SCHEMA = CONFIG_SCHEMA
     SCHEMA_DEVICE = SCHEMA_DEVICE
@@ -111,7 +130,7 @@ class ControllerApplication(zigpy.application.ControllerApplication):
         concurrent = 16 if self.version["product"] == ZnpVersion.zStack3x0 else 2
         LOGGER.debug("Adapter concurrent: %d", concurrent)
 
-        self._semaphore = asyncio.Semaphore(concurrent)
+        self._semaphore = SendSlots(concurrent)
 
         ver = ZnpVersion(self.version["product"]).name
         LOGGER.info("Detected znp version '%s' (%s)", ver, self.version)
-- 
2.43.0


From 0d56a1d5550418158e5f9fc14899d53af6436696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:12 +0000
Subject: [PATCH 13/15] fix: do not take another device's endpoints for the
 adapter's own

---
 zigpy_cc/zigbee/start_znp.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/zigpy_cc/zigbee/start_znp.py b/zigpy_cc/zigbee/start_znp.py
index d0d7114..3311350 100644
--- a/zigpy_cc/zigbee/start_znp.py
+++ b/zigpy_cc/zigbee/start_znp.py
@@ -150,7 +150,10 @@ async def boot(znp: API):
 async def registerEndpoints(znp: API):
     LOGGER.debug("Register endpoints...")
 
-    active_ep_response = znp.wait_for(CommandType.AREQ, Subsystem.ZDO, "activeEpRsp")
+    # only the adapter's own reply, other devices may answer earlier requests
+    active_ep_response = znp.wait_for(
+        CommandType.AREQ, Subsystem.ZDO, "activeEpRsp", {"srcaddr": 0}
+    )
     asyncio.create_task(
         znp.request(
             Subsystem.ZDO, "activeEpReq", {"dstaddr": 0, "nwkaddrofinterest": 0}
-- 
2.43.0


From 19776958ee61fbcac27846ae70708dedc94d7edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:22 +0000
Subject: [PATCH 14/15] fix: stop reconnecting also if the cancellation gets
 lost

---
 zigpy_cc/zigbee/application.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zigpy_cc/zigbee/application.py b/zigpy_cc/zigbee/application.py
index 2eefcc2..fbf0e2e 100644
--- a/zigpy_cc/zigbee/application.py
+++ b/zigpy_cc/zigbee/application.py
@@ -101,7 +101,9 @@ class ControllerApplication(zigpy.application.ControllerApplication):
         self._reconnect_task = asyncio.create_task(self.reconnect())
 
     async def reconnect(self):
-        while True:
+        # a cancellation can get lost if a reply arrives at the same time (bpo-37658)
+        task = self._reconnect_task
+        while self._reconnect_task is task:
             if self._api is not None:
                 self._api.close()
             await asyncio.sleep(5)
-- 
2.43.0


From 36abb2fc7f48e0cceb4383f35a8f0aabada230c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:24 +0000
Subject: [PATCH 15/15] fix: keep a waiting request on the connection which
 expects its reply

A request waiting for its turn while the link was lost was sent on the new
connection, but its reply was expected on the old one and got lost.
---
 zigpy_cc/zigbee/application.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zigpy_cc/zigbee/application.py b/zigpy_cc/zigbee/application.py
index fbf0e2e..d819fc4 100644
--- a/zigpy_cc/zigbee/application.py
+++ b/zigpy_cc/zigbee/application.py
@@ -279,7 +279,7 @@ class ControllerApplication(zigpy.application.ControllerApplication):
 
             try:
                 async with self._semaphore:
-                    await self._api.request_raw(obj, waiter_id)
+                    await api.request_raw(obj, waiter_id)
             except BaseException:
                 # no reply will come, do not take the one of a later request
                 api.remove_waiter(waiter_id)
-- 
2.43.0

