From bf8ff892949eb37070b86a9b1d7875eb8aff3ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:54 +0000
Subject: [PATCH 01/72] fix: notify observers when connection restart counters
 change

---
 runtimepy/net/connection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/runtimepy/net/connection.py b/runtimepy/net/connection.py
index c62c69e..b4254e3 100644
--- a/runtimepy/net/connection.py
+++ b/runtimepy/net/connection.py
@@ -251,9 +251,9 @@ class Connection(
             await backoff.sleep()
             if await self.restart():
                 self._set_enabled(True)
-                self._restarts.raw.value += 1
+                self._restarts.value += 1
 
-            self._restart_attempts.raw.value += 1
+            self._restart_attempts.value += 1
 
     @asynccontextmanager
     async def process_then_disable(self, **kwargs) -> AsyncIterator[None]:
-- 
2.43.0


From 499fb601954b54ef318c6aa84ab6e6ad2fa09174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:57 +0000
Subject: [PATCH 02/72] fix: bind the restart_attempts channel to its own
 counter

---
 runtimepy/net/connection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtimepy/net/connection.py b/runtimepy/net/connection.py
index b4254e3..4d7f929 100644
--- a/runtimepy/net/connection.py
+++ b/runtimepy/net/connection.py
@@ -104,7 +104,7 @@ class Connection(
         )
         self.env.channel(
             "restart_attempts",
-            self._restarts,
+            self._restart_attempts,
             description="Number of connection restart attempts.",
         )
 
-- 
2.43.0


From 2213c96c984c968ad4270d1d819987f7447c9ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:39 +0000
Subject: [PATCH 03/72] fix: release event streaming registrations when the
 context raises

---
 runtimepy/channel/event/__init__.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/runtimepy/channel/event/__init__.py b/runtimepy/channel/event/__init__.py
index ec9a3b0..eed20ce 100644
--- a/runtimepy/channel/event/__init__.py
+++ b/runtimepy/channel/event/__init__.py
@@ -63,9 +63,11 @@ class PrimitiveEvent:
         ident = raw.register_callback(callback)
 
         self.streaming = True
-        yield
-        assert raw.remove_callback(ident)
-        self.streaming = False
+        try:
+            yield
+        finally:
+            self.streaming = False
+            assert raw.remove_callback(ident)
 
     def _poll(
         self,
-- 
2.43.0


From 8c216cb7a8bfa25041372a6acf57153e4d624bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:39 +0000
Subject: [PATCH 04/72] fix: finish peer-program teardown when a task was
 cancelled or failed

---
 runtimepy/subprocess/program.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/runtimepy/subprocess/program.py b/runtimepy/subprocess/program.py
index 86fd710..f12a4e2 100644
--- a/runtimepy/subprocess/program.py
+++ b/runtimepy/subprocess/program.py
@@ -195,11 +195,13 @@ class PeerProgram(RuntimepyPeerInterface, PsutilMixin):
                 yield io_task, main_task, peer
         finally:
             logger.removeHandler(peer.list_handler)
-            for cancel in (io_task, main_task, heartbeat):
-                cancel.cancel()
-                await cancel
-
-            await peer.cleanup()
+            tasks = (io_task, main_task, heartbeat)
+            for task in tasks:
+                task.cancel()
+            try:
+                await asyncio.gather(*tasks, return_exceptions=True)
+            finally:
+                await peer.cleanup()
 
     @classmethod
     async def run(
-- 
2.43.0


From 399b10f55f221c4b7108da21d4f2c3954db59b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:00 +0000
Subject: [PATCH 05/72] fix: disable a connection once nothing reads its
 messages anymore

---
 runtimepy/net/connection.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/runtimepy/net/connection.py b/runtimepy/net/connection.py
index 4d7f929..30c8d48 100644
--- a/runtimepy/net/connection.py
+++ b/runtimepy/net/connection.py
@@ -285,6 +285,12 @@ class Connection(
             _asyncio.create_task(self._async_init()),
         ]
 
+        # Don't stay enabled if nothing is reading messages anymore (e.g.
+        # message processing raised an exception).
+        self._tasks[0].add_done_callback(
+            lambda _: self.disable("read processing stopped")
+        )
+
         # Disable the connection automatically if requested.
         if disable_time is not None:
             self._tasks.append(
-- 
2.43.0


From 6080dbe4fc1164c33b4686311eb7133f6e27b43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:27 +0000
Subject: [PATCH 06/72] fix: signal connection initialization even if it raises

---
 runtimepy/net/connection.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/runtimepy/net/connection.py b/runtimepy/net/connection.py
index 30c8d48..b1f8438 100644
--- a/runtimepy/net/connection.py
+++ b/runtimepy/net/connection.py
@@ -212,13 +212,20 @@ class Connection(
     async def _async_init(self) -> None:
         """Run this connection's initialization routine."""
 
-        if not await self.async_init():
-            self.disable("init failed")
-        else:
-            self.logger.info("Initialized.")
+        success = False
+        try:
+            success = await self.async_init()
+
+        # Always signal completion, so that nothing waits for a connection
+        # that raised an exception (or got disabled) while initializing.
+        finally:
+            if not success:
+                self.disable("init failed")
+            else:
+                self.logger.info("Initialized.")
 
-        self.env.finalize(strict=False)
-        self.initialized.set()
+            self.env.finalize(strict=False)
+            self.initialized.set()
 
     async def restart(self) -> bool:
         """
-- 
2.43.0


From f174da47779cca04e6efca36b19e8514db36829a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:06 +0000
Subject: [PATCH 07/72] fix: keep message framing when a consumer fails on a
 message

---
 runtimepy/message/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtimepy/message/__init__.py b/runtimepy/message/__init__.py
index 1047a00..fd8a8da 100644
--- a/runtimepy/message/__init__.py
+++ b/runtimepy/message/__init__.py
@@ -79,7 +79,7 @@ class MessageProcessor:
             else:
                 message = self.buffer.pop(self.message_length_in.value)
                 if message is not None:
-                    yield message
                     self.reading_header = True
+                    yield message
                 else:
                     can_continue = False
-- 
2.43.0


From c1775f7771223fed13807720dbbf34dc92a0268b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:06 +0000
Subject: [PATCH 08/72] fix: parse channel events whose header and value arrive
 separately

---
 runtimepy/channel/environment/telemetry.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/runtimepy/channel/environment/telemetry.py b/runtimepy/channel/environment/telemetry.py
index 1c040a1..9088401 100644
--- a/runtimepy/channel/environment/telemetry.py
+++ b/runtimepy/channel/environment/telemetry.py
@@ -134,9 +134,6 @@ class TelemetryChannelEnvironment(_BaseChannelEnvironment):
         # Ingest stream.
         channels.event_fifo.ingest(stream.read())
 
-        ident = -1
-        name = ""
-
         keep_going = True
         while keep_going:
             keep_going = False
@@ -148,7 +145,7 @@ class TelemetryChannelEnvironment(_BaseChannelEnvironment):
                 if data is not None:
                     channels.event_header.array.update(data)
 
-                    # Update local variables.
+                    # Validate the identifier.
                     ident = cast(int, channels.event_header["identifier"])
                     name = channels.names.name(ident)  # type: ignore
                     assert name is not None, ident
@@ -159,6 +156,11 @@ class TelemetryChannelEnvironment(_BaseChannelEnvironment):
             else:
                 event = None
 
+                # The header may have been read from an earlier stream.
+                ident = cast(int, channels.event_header["identifier"])
+                name = channels.names.name(ident)  # type: ignore
+                assert name is not None, ident
+
                 # Handle bit-field.
                 if self.fields.has_field(name):
                     event = self._parse_field_event(name)
@@ -168,8 +170,8 @@ class TelemetryChannelEnvironment(_BaseChannelEnvironment):
                     event = self._parse_channel_event(name)
 
                 if event is not None:
-                    yield event
-
                     # Update state.
                     channels.header_ready = False
                     keep_going = True
+
+                    yield event
-- 
2.43.0


From 478652d73e5965986adeceaa9ca62765540ffd02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:35 +0000
Subject: [PATCH 09/72] fix: recognize telnet commands that span frames

---
 runtimepy/net/tcp/telnet/__init__.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/runtimepy/net/tcp/telnet/__init__.py b/runtimepy/net/tcp/telnet/__init__.py
index 4284538..5390a9a 100644
--- a/runtimepy/net/tcp/telnet/__init__.py
+++ b/runtimepy/net/tcp/telnet/__init__.py
@@ -35,6 +35,11 @@ class Telnet(_TcpConnection):
 
     log_alias = "TELNET"
 
+    # Parsing state (command sequences can span multiple frames).
+    prev_val = 0
+    processing_option = False
+    processing_command = False
+
     async def process_telnet_message(self, data: bytes) -> bool:
         """By default, treat all incoming data bytes as text."""
         return await self.process_text(data.decode(encoding=DEFAULT_ENCODING))
@@ -71,11 +76,11 @@ class Telnet(_TcpConnection):
         result = True
 
         last_val = 0
-        val = 0
+        val = self.prev_val
 
         # These two conditions are used to form a simple state machine.
-        processing_option = False
-        processing_command = False
+        processing_option = self.processing_option
+        processing_command = self.processing_command
 
         with _ExitStack() as stack:
             text = stack.enter_context(_BytesIO())
@@ -120,6 +125,11 @@ class Telnet(_TcpConnection):
                 else:
                     text.write(data)
 
+            # Resume from this state when the next frame arrives.
+            self.prev_val = val
+            self.processing_option = processing_option
+            self.processing_command = processing_command
+
             # Process the message that remains as data.
             if text.tell() > 0:
                 result = await self.process_telnet_message(text.getvalue())
-- 
2.43.0


From 0c718e45061ea041eea594cd3031c9db3bad86d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:35 +0000
Subject: [PATCH 10/72] fix: discard partially received messages when
 restarting a connection

---
 runtimepy/net/stream/base.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/runtimepy/net/stream/base.py b/runtimepy/net/stream/base.py
index 3479430..7b0354a 100644
--- a/runtimepy/net/stream/base.py
+++ b/runtimepy/net/stream/base.py
@@ -26,6 +26,20 @@ class PrefixedMessageConnection(_Connection):
         # Header parsing.
         self.processor = MessageProcessor(byte_order=self.byte_order)
 
+    async def restart(self) -> bool:
+        """
+        Reset necessary underlying state for this connection to 'process'
+        again.
+        """
+
+        result = await super().restart()
+
+        # Don't interpret new data based on a partial, prior message.
+        if result:
+            self.processor = MessageProcessor(byte_order=self.byte_order)
+
+        return result
+
     def _send_message(
         self, data: BinaryMessage, addr: tuple[str, int] = None
     ) -> None:
-- 
2.43.0


From a2f68372e66c42d7d1d898aecdf8e56a72bdb332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:57 +0000
Subject: [PATCH 11/72] fix: reset telnet parsing state when restarting a
 connection

---
 runtimepy/net/tcp/telnet/__init__.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/runtimepy/net/tcp/telnet/__init__.py b/runtimepy/net/tcp/telnet/__init__.py
index 5390a9a..556bf7a 100644
--- a/runtimepy/net/tcp/telnet/__init__.py
+++ b/runtimepy/net/tcp/telnet/__init__.py
@@ -40,6 +40,18 @@ class Telnet(_TcpConnection):
     processing_option = False
     processing_command = False
 
+    async def restart(self) -> bool:
+        """
+        Reset necessary underlying state for this connection to 'process'
+        again.
+        """
+
+        self.prev_val = 0
+        self.processing_option = False
+        self.processing_command = False
+
+        return await super().restart()
+
     async def process_telnet_message(self, data: bytes) -> bool:
         """By default, treat all incoming data bytes as text."""
         return await self.process_text(data.decode(encoding=DEFAULT_ENCODING))
-- 
2.43.0


From 122dd04096ee31e31fe4a32ba06f24cdfb6df015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:02 +0000
Subject: [PATCH 12/72] fix: stop periodic tasks that failed, were disabled or
 told to stop

The result of an iteration and the stop signal's state overwrote the
task's enabled state: with a stop signal, a failing iteration (or
disabling the task during one) didn't end it. An iteration that raised
left the task enabled, so it couldn't be started again.
---
 runtimepy/task/basic/periodic.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/runtimepy/task/basic/periodic.py b/runtimepy/task/basic/periodic.py
index 11d4848..613d8c6 100644
--- a/runtimepy/task/basic/periodic.py
+++ b/runtimepy/task/basic/periodic.py
@@ -164,14 +164,17 @@ class PeriodicTask(
                     iter_time,
                     self.period_s.value,
                 ):
-                    self._enabled.raw.value = await _asyncio.shield(
-                        self.dispatch()
-                    )
+                    keep_going = False
+                    try:
+                        keep_going = await _asyncio.shield(self.dispatch())
+                    finally:
+                        if not keep_going:
+                            self.disable()
 
             # Check this synchronously. This may not be suitable for tasks
             # with long periods.
-            if stop_sig is not None:
-                self._enabled.raw.value = not stop_sig.is_set()
+            if stop_sig is not None and stop_sig.is_set():
+                self.disable()
 
             if self._enabled:
                 try:
-- 
2.43.0


From 5902afd570e56f403d53441eabfaafcf4c8ea3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:02 +0000
Subject: [PATCH 13/72] fix: don't spin while a task that overran its period is
 paused

The pause interval was reduced by the duration of the last iteration
that ran.
---
 runtimepy/task/basic/periodic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/runtimepy/task/basic/periodic.py b/runtimepy/task/basic/periodic.py
index 613d8c6..3af537d 100644
--- a/runtimepy/task/basic/periodic.py
+++ b/runtimepy/task/basic/periodic.py
@@ -156,6 +156,8 @@ class PeriodicTask(
         iter_time = _Double()
 
         while self._enabled:
+            iter_time.value = 0.0
+
             # When paused, don't run the iteration itself.
             if not self.paused:
                 with self.metrics.measure(
-- 
2.43.0


From 7808a6d58f6958fa5fbfb5e10f5d0937988972ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:02 +0000
Subject: [PATCH 14/72] fix: make the backoff exponential

'2 ^ attempt' is an exclusive or: retry intervals went up and down and
some attempts didn't wait at all.
---
 runtimepy/net/backoff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtimepy/net/backoff.py b/runtimepy/net/backoff.py
index aa8ca4b..5b014e4 100644
--- a/runtimepy/net/backoff.py
+++ b/runtimepy/net/backoff.py
@@ -42,5 +42,5 @@ class ExponentialBackoff:
         """Sleep for the correct amount of time."""
 
         await asyncio.sleep(self.wait)
-        self.wait = min((2 ^ self.attempt) * self.interval, self.max_sleep)
+        self.wait = min(max(2 * self.wait, self.interval), self.max_sleep)
         self.attempt += 1
-- 
2.43.0


From 1e5ce26d0205468cb7794b85963d6f7822f9628e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:48 +0000
Subject: [PATCH 15/72] fix: process an automatically restarted connection only
 once

Whenever the manager woke up while a connection's previous processing
was still finishing (or waiting to retry), it started processing it
once more.
---
 runtimepy/net/manager.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/runtimepy/net/manager.py b/runtimepy/net/manager.py
index 66b671c..a95f4d6 100644
--- a/runtimepy/net/manager.py
+++ b/runtimepy/net/manager.py
@@ -77,6 +77,7 @@ class ConnectionManager(LoggerMixin):
         stop_sig_task = _asyncio.create_task(stop_sig.wait())
         tasks: list[_asyncio.Task[None]] = []
         self._conns = []
+        processing: dict[_Connection, _asyncio.Task[None]] = {}
         new_conn_task: _Optional[_asyncio.Task[_Connection]] = None
 
         while not stop_sig.is_set():
@@ -100,23 +101,28 @@ class ConnectionManager(LoggerMixin):
                 if not conn.disabled:
                     enabled.append(conn)
 
-                # Check if this connection should be restarted.
+                # Check if this connection should be restarted. Only one task
+                # can process a connection at a time.
                 elif conn.auto_restart:
-                    next_tasks.append(
-                        _asyncio.create_task(conn.process(stop_sig=stop_sig))
-                    )
+                    if processing[conn].done():
+                        processing[conn] = _asyncio.create_task(
+                            conn.process(stop_sig=stop_sig)
+                        )
+                        next_tasks.append(processing[conn])
                     enabled.append(conn)
 
             self._conns = enabled
+            processing = {x: processing[x] for x in enabled}
 
             # If a new connection was made, register a task for processing
             # it.
             if new_conn_task.done():
                 new_conn = new_conn_task.result()
                 self._conns.append(new_conn)
-                next_tasks.append(
-                    _asyncio.create_task(new_conn.process(stop_sig=stop_sig))
+                processing[new_conn] = _asyncio.create_task(
+                    new_conn.process(stop_sig=stop_sig)
                 )
+                next_tasks.append(processing[new_conn])
                 new_conn_task = None
 
             tasks = next_tasks
-- 
2.43.0


From d0419d93d9571fbee0c96da013cf3a87fb736330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:48 +0000
Subject: [PATCH 16/72] fix: allow managing connections again after a failure

An exception while processing a connection prevented the remaining
connections from being shut down and left the manager marked as running,
so that managing connections again did nothing.
---
 runtimepy/net/manager.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/runtimepy/net/manager.py b/runtimepy/net/manager.py
index a95f4d6..3d6e328 100644
--- a/runtimepy/net/manager.py
+++ b/runtimepy/net/manager.py
@@ -73,6 +73,13 @@ class ConnectionManager(LoggerMixin):
             return
 
         self._running = True
+        try:
+            await self._manage(stop_sig)
+        finally:
+            self._running = False
+
+    async def _manage(self, stop_sig: _asyncio.Event) -> None:
+        """Handle incoming connections until the stop signal is set."""
 
         stop_sig_task = _asyncio.create_task(stop_sig.wait())
         tasks: list[_asyncio.Task[None]] = []
@@ -133,6 +140,6 @@ class ConnectionManager(LoggerMixin):
                 new_conn_task.cancel()
             if tasks:
                 with _suppress(_asyncio.TimeoutError):
-                    await _asyncio.wait_for(_asyncio.gather(*tasks), 1.0)
-
-        self._running = False
+                    await _asyncio.wait_for(
+                        _asyncio.gather(*tasks, return_exceptions=True), 1.0
+                    )
-- 
2.43.0


From 61ea888eba0cb36b37f154f91e162e84aa8af9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:48 +0000
Subject: [PATCH 17/72] fix: don't let exit codes of parallel applications
 cancel out

Two failing applications returning 1 and -1 were reported as a success,
and the next stages were run.
---
 runtimepy/net/arbiter/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtimepy/net/arbiter/base.py b/runtimepy/net/arbiter/base.py
index ef84b3e..7eddc1a 100644
--- a/runtimepy/net/arbiter/base.py
+++ b/runtimepy/net/arbiter/base.py
@@ -406,7 +406,7 @@ class BaseConnectionArbiter(_NamespaceMixin, _LoggerMixin, TuiMixin):
 
             for idx, result in enumerate(results):
                 pairs[idx][1].logger.debug("Returned %d.", result)
-                total += result
+                total = total or result
 
                 # Capture a normal result.
                 stage_results[idx] = AppResult(
-- 
2.43.0


From dfc8bf45ae33ff88decf9a4032dc766a848f54af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:48 +0000
Subject: [PATCH 18/72] fix: keep the remote address when restarting UDP
 connections

Sockets that aren't connected don't know the address to send to.
---
 runtimepy/net/udp/connection.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/runtimepy/net/udp/connection.py b/runtimepy/net/udp/connection.py
index cfa4f8f..01e3a4d 100644
--- a/runtimepy/net/udp/connection.py
+++ b/runtimepy/net/udp/connection.py
@@ -121,9 +121,15 @@ class UdpConnection(_Connection, _TransportMixin):
         def callback(transport_protocol: UdpTransportProtocol) -> None:
             """Callback if the socket creation succeeds."""
 
+            remote_addr = self.remote_address
+
             self.set_transport(transport_protocol[0])
             self._set_protocol(transport_protocol[1])
 
+            # The address isn't known to sockets that aren't connected.
+            if self.remote_address is None and remote_addr is not None:
+                self.set_remote_address(remote_addr)
+
         result = await try_udp_transport_protocol(
             callback=callback, **self._conn_kwargs
         )
-- 
2.43.0


From fb5b8703c4b17348e30ccd2cd09443b92747b42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:26 +0000
Subject: [PATCH 19/72] fix: stop servers and connection management if the
 application raises

An exception (e.g. a connection that can't be established) left the
server and connection manager tasks running.
---
 runtimepy/net/arbiter/base.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/runtimepy/net/arbiter/base.py b/runtimepy/net/arbiter/base.py
index 7eddc1a..b2c8951 100644
--- a/runtimepy/net/arbiter/base.py
+++ b/runtimepy/net/arbiter/base.py
@@ -443,9 +443,17 @@ class BaseConnectionArbiter(_NamespaceMixin, _LoggerMixin, TuiMixin):
         conns = _asyncio.create_task(self.manager.manage(self.stop_sig))
 
         # Run application.
-        result = await self._entry(
-            app=app, check_connections=check_connections, config=config
-        )
+        try:
+            result = await self._entry(
+                app=app, check_connections=check_connections, config=config
+            )
+        finally:
+            await self._shutdown(conns)
+
+        return int(result)
+
+    async def _shutdown(self, conns: _asyncio.Task[None]) -> None:
+        """Ensure that the connection manager and servers stop."""
 
         # Shutdown any pending tasks.
         pending = log_exceptions(self._servers + [conns], logger=self.logger)
@@ -457,8 +465,6 @@ class BaseConnectionArbiter(_NamespaceMixin, _LoggerMixin, TuiMixin):
 
             assert not log_exceptions(pending, logger=self.logger)
 
-        return int(result)
-
     def run(
         self,
         app: NetworkApplicationlike = None,
-- 
2.43.0


From bf9b8d1ebbf238eca801ec0d2c2713685da2430f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:17 +0000
Subject: [PATCH 20/72] fix: keep HTTP message framing when a consumer stops at
 a message

---
 runtimepy/net/http/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runtimepy/net/http/__init__.py b/runtimepy/net/http/__init__.py
index 7fe79a4..2ecc060 100644
--- a/runtimepy/net/http/__init__.py
+++ b/runtimepy/net/http/__init__.py
@@ -54,5 +54,6 @@ class HttpMessageProcessor:
                 if can_read_payload:
                     if payload_len > 0:
                         payload = self.buffer.pop(payload_len)
-                    yield cast(T, self.current_header), payload
+                    header = self.current_header
                     self.current_header = None
+                    yield cast(T, header), payload
-- 
2.43.0


From 73ceebd7f35de0dd43c06fb147349a2509749eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:36 +0000
Subject: [PATCH 21/72] fix: keep TFTP and HTTP requests inside of the served
 directories

---
 runtimepy/net/server/__init__.py   | 19 +++++++++++++++----
 runtimepy/net/udp/tftp/endpoint.py | 28 ++++++++++++++++++++++------
 runtimepy/util.py                  | 14 +++++++++++++-
 3 files changed, 50 insertions(+), 11 deletions(-)

diff --git a/runtimepy/net/server/__init__.py b/runtimepy/net/server/__init__.py
index 9142443..69490f9 100644
--- a/runtimepy/net/server/__init__.py
+++ b/runtimepy/net/server/__init__.py
@@ -25,7 +25,12 @@ from runtimepy.net.http.response import ResponseHeader
 from runtimepy.net.server.html import HtmlApp, HtmlApps, get_html, html_handler
 from runtimepy.net.server.json import encode_json, json_handler
 from runtimepy.net.tcp.http import HttpConnection
-from runtimepy.util import normalize_root, path_has_part, read_binary
+from runtimepy.util import (
+    contained_path,
+    normalize_root,
+    path_has_part,
+    read_binary,
+)
 
 MIMETYPES_INIT = False
 
@@ -170,12 +175,18 @@ class RuntimepyServerConnection(HttpConnection):
 
         # Try serving the path as a file.
         for search in self.paths:
-            candidate = search.joinpath(path[0][1:])
+            candidate = contained_path(search, path[0][1:])
+
+            # Don't serve anything from outside of the search path.
+            if candidate is None:
+                continue
 
             # Handle markdown sources.
             if candidate.name:
-                md_candidate = candidate.with_suffix(".md")
-                if md_candidate.is_file():
+                md_candidate = contained_path(
+                    search, candidate.with_suffix(".md")
+                )
+                if md_candidate is not None and md_candidate.is_file():
                     return await self.render_markdown_file(
                         md_candidate, response
                     )
diff --git a/runtimepy/net/udp/tftp/endpoint.py b/runtimepy/net/udp/tftp/endpoint.py
index ef7c936..a1d1d9b 100644
--- a/runtimepy/net/udp/tftp/endpoint.py
+++ b/runtimepy/net/udp/tftp/endpoint.py
@@ -20,6 +20,7 @@ from runtimepy.net import IpHost
 from runtimepy.net.udp.tftp.enums import TftpErrorCode
 from runtimepy.net.udp.tftp.io import tftp_chunks
 from runtimepy.primitives import Double
+from runtimepy.util import contained_path
 
 TftpDataSender = Callable[[int, bytes, Union[IpHost, tuple[str, int]]], None]
 TftpAckSender = Callable[[int, Union[IpHost, tuple[str, int]]], None]
@@ -247,7 +248,7 @@ class TftpEndpoint(LoggerMixin):
         path = self.get_path(filename)
 
         # Ensure we can service this request.
-        if not self._check_permission(path, "wb"):
+        if path is None or not self._check_permission(path, "wb"):
             return None
 
         return asyncio.create_task(self._process_write_request(path, mode))
@@ -306,9 +307,22 @@ class TftpEndpoint(LoggerMixin):
                 self.addr[1],
             )
 
-    def get_path(self, filename: str) -> Path:
-        """Get a path from a filename."""
-        return self._path.joinpath(filename)
+    def get_path(self, filename: str) -> Optional[Path]:
+        """
+        Get a path from a filename, send an error if it's outside of this
+        endpoint's root.
+        """
+
+        result = contained_path(self._path, filename)
+
+        if result is None:
+            self.error_sender(
+                TftpErrorCode.ACCESS_VIOLATION,
+                f"Path '{filename}' is not allowed",
+                self.addr,
+            )
+
+        return result
 
     def handle_read_request(
         self, filename: str, mode: str
@@ -318,8 +332,10 @@ class TftpEndpoint(LoggerMixin):
         path = self.get_path(filename)
 
         # Ensure we can service this request.
-        if not self._check_exists(path) or not self._check_permission(
-            path, "rb"
+        if (
+            path is None
+            or not self._check_exists(path)
+            or not self._check_permission(path, "rb")
         ):
             return None
 
diff --git a/runtimepy/util.py b/runtimepy/util.py
index 8cf0558..b22f8e5 100644
--- a/runtimepy/util.py
+++ b/runtimepy/util.py
@@ -4,8 +4,9 @@ A module implementing package utilities.
 
 # built-in
 from os import sep
+from os.path import abspath
 from pathlib import Path
-from typing import Iterator, Union
+from typing import Iterator, Optional, Union
 
 # third-party
 import aiofiles
@@ -31,6 +32,17 @@ def normalize_root(*src_parts: Union[str, Path]) -> Path:
     return result
 
 
+def contained_path(root: Path, path: Union[str, Path]) -> Optional[Path]:
+    """
+    Resolve a path relative to some root directory. Returns None if the path
+    isn't inside of the root directory.
+    """
+
+    root = Path(abspath(root))
+    result = Path(abspath(root.joinpath(path)))
+    return result if result.is_relative_to(root) else None
+
+
 class Identifier:
     """A simple message indentifier interface."""
 
-- 
2.43.0


From 2789e3139b4291c493fa4caa17d208ea9d0992c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:29 +0000
Subject: [PATCH 22/72] fix: acknowledge the final block of a TFTP read

---
 runtimepy/net/udp/tftp/__init__.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/runtimepy/net/udp/tftp/__init__.py b/runtimepy/net/udp/tftp/__init__.py
index dbf4cba..4f4305e 100644
--- a/runtimepy/net/udp/tftp/__init__.py
+++ b/runtimepy/net/udp/tftp/__init__.py
@@ -89,9 +89,8 @@ class TftpConnection(BaseTftpConnection):
                 # Compute if this is the end of the stream.
                 nonlocal end_of_data
                 end_of_data = len(data) < endpoint.max_block_size
-                if not end_of_data:
-                    idx += 1
-                else:
+                idx += 1
+                if end_of_data:
                     fsync(path_fd.fileno())
 
             write_block()
-- 
2.43.0


From 0d6b5266adb9aed5c9c2c308383f54116eb68826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:47 +0000
Subject: [PATCH 23/72] fix: accept empty files written via TFTP

---
 runtimepy/net/udp/tftp/endpoint.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/runtimepy/net/udp/tftp/endpoint.py b/runtimepy/net/udp/tftp/endpoint.py
index a1d1d9b..6035fd8 100644
--- a/runtimepy/net/udp/tftp/endpoint.py
+++ b/runtimepy/net/udp/tftp/endpoint.py
@@ -162,8 +162,7 @@ class TftpEndpoint(LoggerMixin):
 
         keep_going = True
         idx = 1
-        curr_size = 0
-        written = 0
+        curr_size = self.max_block_size
         while keep_going:
             # Set up event trigger for expected data payload.
             event = asyncio.Event()
@@ -191,7 +190,6 @@ class TftpEndpoint(LoggerMixin):
                 assert curr_size <= self.max_block_size, curr_size
 
                 stream.write(data)
-                written += curr_size
 
                 # We only expect future iterations if data payloads are
                 # saturated.
@@ -205,7 +203,7 @@ class TftpEndpoint(LoggerMixin):
                 idx += 1
 
         # Send the final acknowledgement for a bit ("dally" per rfc).
-        success = written > 0 and curr_size < self.max_block_size
+        success = curr_size < self.max_block_size
         if success:
             await repeat_until(
                 self._ack_sender(idx),
-- 
2.43.0


From f8f970449f8f92e44da49ffe288f852d088a0d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:54 +0000
Subject: [PATCH 24/72] fix: stop expecting TFTP messages when a transfer ends
 early

---
 runtimepy/net/udp/tftp/base.py     | 17 +++++++++++++++--
 runtimepy/net/udp/tftp/endpoint.py | 23 +++++++++++++++++++----
 2 files changed, 34 insertions(+), 6 deletions(-)

diff --git a/runtimepy/net/udp/tftp/base.py b/runtimepy/net/udp/tftp/base.py
index 386f73a..4b24c4d 100644
--- a/runtimepy/net/udp/tftp/base.py
+++ b/runtimepy/net/udp/tftp/base.py
@@ -133,6 +133,15 @@ class BaseTftpConnection(UdpConnection):
         self._awaiting_first_block: dict[str, TftpEndpoint] = {}
         # self._self = self.endpoint(self.local_address)
 
+    @staticmethod
+    def _stop_awaiting(
+        awaiting: dict[str, TftpEndpoint], endpoint: TftpEndpoint
+    ) -> None:
+        """Stop expecting an endpoint's initial message."""
+
+        for hostname in [x for x, y in awaiting.items() if y is endpoint]:
+            del awaiting[hostname]
+
     async def _await_first_ack(
         self,
         stack: AsyncExitStack,
@@ -141,10 +150,11 @@ class BaseTftpConnection(UdpConnection):
         """Set up an endpoint to wait for an initial ack from a server."""
 
         endpoint = self.endpoint(addr)
-        await stack.enter_async_context(endpoint.lock)
+        await stack.enter_async_context(endpoint.transfer())
         event = asyncio.Event()
         endpoint.awaiting_acks[0] = event
         self._awaiting_first_ack[endpoint.addr.hostname] = endpoint
+        stack.callback(self._stop_awaiting, self._awaiting_first_ack, endpoint)
         return endpoint, event
 
     async def _await_first_block(
@@ -155,10 +165,13 @@ class BaseTftpConnection(UdpConnection):
         """Set up an endpoint to wait for an initial block from a server."""
 
         endpoint = self.endpoint(addr)
-        await stack.enter_async_context(endpoint.lock)
+        await stack.enter_async_context(endpoint.transfer())
         event = asyncio.Event()
         endpoint.awaiting_blocks[1] = event
         self._awaiting_first_block[endpoint.addr.hostname] = endpoint
+        stack.callback(
+            self._stop_awaiting, self._awaiting_first_block, endpoint
+        )
         return endpoint, event
 
     def endpoint(self, addr: IpHostTuplelike = None) -> TftpEndpoint:
diff --git a/runtimepy/net/udp/tftp/endpoint.py b/runtimepy/net/udp/tftp/endpoint.py
index 6035fd8..e564b6c 100644
--- a/runtimepy/net/udp/tftp/endpoint.py
+++ b/runtimepy/net/udp/tftp/endpoint.py
@@ -4,10 +4,10 @@ A module implementing an interface for individual tftp endpoints.
 
 # built-in
 import asyncio
-from contextlib import AsyncExitStack, suppress
+from contextlib import AsyncExitStack, asynccontextmanager, suppress
 import logging
 from pathlib import Path
-from typing import BinaryIO, Callable, Optional, Union
+from typing import AsyncIterator, BinaryIO, Callable, Optional, Union
 
 # third-party
 from vcorelib.asyncio.poll import repeat_until
@@ -83,6 +83,21 @@ class TftpEndpoint(LoggerMixin):
         self.addr = other.addr
         return self
 
+    @asynccontextmanager
+    async def transfer(self) -> AsyncIterator[None]:
+        """
+        Claim this endpoint for a transfer, expect nothing anymore when it ends
+        (for any reason).
+        """
+
+        async with self.lock:
+            try:
+                yield
+            finally:
+                self.awaiting_acks.clear()
+                self.awaiting_blocks.clear()
+                self.blocks.clear()
+
     def chunk_sender(self, block: int, data: bytes) -> Callable[[], None]:
         """Create a method that sends a specific block of data."""
 
@@ -220,7 +235,7 @@ class TftpEndpoint(LoggerMixin):
         async with AsyncExitStack() as stack:
             # Claim write lock and ignore cancellation.
             stack.enter_context(suppress(asyncio.CancelledError))
-            await stack.enter_async_context(self.lock)
+            await stack.enter_async_context(self.transfer())
 
             path_fd = stack.enter_context(path.open("wb"))
 
@@ -292,7 +307,7 @@ class TftpEndpoint(LoggerMixin):
         async with AsyncExitStack() as stack:
             # Claim read lock and ignore cancellation.
             stack.enter_context(suppress(asyncio.CancelledError))
-            await stack.enter_async_context(self.lock)
+            await stack.enter_async_context(self.transfer())
 
             success = await self.serve_file(path)
 
-- 
2.43.0


From 885cc928f30020edd248e2aeeeca3e3ba205e3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:12 +0000
Subject: [PATCH 25/72] fix: survive malformed TFTP messages and requests that
 can't be opened

---
 runtimepy/net/udp/tftp/base.py     | 24 +++++++++++++++++++++++-
 runtimepy/net/udp/tftp/endpoint.py |  2 +-
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/runtimepy/net/udp/tftp/base.py b/runtimepy/net/udp/tftp/base.py
index 4b24c4d..5b4916b 100644
--- a/runtimepy/net/udp/tftp/base.py
+++ b/runtimepy/net/udp/tftp/base.py
@@ -370,6 +370,26 @@ class BaseTftpConnection(UdpConnection):
     ) -> bool:
         """Process a datagram."""
 
+        # A message that can't be handled must not stop this connection.
+        try:
+            return await self._process_message(data, addr)
+        except Exception as exc:  # pylint: disable=broad-exception-caught
+            self.governed_log(
+                self.endpoint(addr).log_limiter,
+                "Couldn't handle message from %s:%d:",
+                addr[0],
+                addr[1],
+                level=logging.ERROR,
+                exc_info=exc,
+            )
+
+        return True
+
+    async def _process_message(
+        self, data: bytes, addr: tuple[str, int]
+    ) -> bool:
+        """Process a message."""
+
         with BytesIO(data) as stream:
             self.opcode.from_stream(stream)
             code: int = self.opcode.value
@@ -377,7 +397,9 @@ class BaseTftpConnection(UdpConnection):
                 await self.handlers[code](stream, addr)
             else:
                 msg = f"Unknown opcode {code}"
-                self.send_error(TftpErrorCode.ILLEGAL_OPERATION, msg)
+                self.send_error(
+                    TftpErrorCode.ILLEGAL_OPERATION, msg, addr=addr
+                )
                 self.logger.error("%s from %s:%d.", msg, addr[0], addr[1])
 
         return True
diff --git a/runtimepy/net/udp/tftp/endpoint.py b/runtimepy/net/udp/tftp/endpoint.py
index e564b6c..1f13ed2 100644
--- a/runtimepy/net/udp/tftp/endpoint.py
+++ b/runtimepy/net/udp/tftp/endpoint.py
@@ -366,7 +366,7 @@ class TftpEndpoint(LoggerMixin):
             with path.open(mode):
                 pass
             result = True
-        except PermissionError:
+        except OSError:
             self.error_sender(
                 TftpErrorCode.ACCESS_VIOLATION,
                 f"Can't open={mode} '{path}'",
-- 
2.43.0


From 4d0d8f0682a129345fe7004d0b014c773165e88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:36 +0000
Subject: [PATCH 26/72] fix: don't truncate a file when its TFTP write request
 is repeated

---
 runtimepy/net/udp/tftp/endpoint.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/runtimepy/net/udp/tftp/endpoint.py b/runtimepy/net/udp/tftp/endpoint.py
index 1f13ed2..29ddb86 100644
--- a/runtimepy/net/udp/tftp/endpoint.py
+++ b/runtimepy/net/udp/tftp/endpoint.py
@@ -63,6 +63,9 @@ class TftpEndpoint(LoggerMixin):
         # Avoid concurrency bugs when actively writing or reading.
         self.lock = asyncio.Lock()
 
+        # Files that are currently being written.
+        self.writing: set[Path] = set()
+
         # Message receiving.
         self.awaiting_acks: dict[int, asyncio.Event] = {}
         self.awaiting_blocks: dict[int, asyncio.Event] = {}
@@ -260,11 +263,18 @@ class TftpEndpoint(LoggerMixin):
 
         path = self.get_path(filename)
 
+        # Ignore re-transmitted requests (checking would truncate the file).
+        if path in self.writing:
+            return None
+
         # Ensure we can service this request.
         if path is None or not self._check_permission(path, "wb"):
             return None
 
-        return asyncio.create_task(self._process_write_request(path, mode))
+        self.writing.add(path)
+        task = asyncio.create_task(self._process_write_request(path, mode))
+        task.add_done_callback(lambda _: self.writing.discard(path))
+        return task
 
     async def serve_file(self, path: Path) -> bool:
         """Serve file chunks via this endpoint."""
-- 
2.43.0


From f97ea49cd5ca5e9e3879b2c3ad93e83ddeaa2086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:55 +0000
Subject: [PATCH 27/72] fix: don't mistake requests of a connected peer for
 responses

---
 runtimepy/net/stream/json/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/runtimepy/net/stream/json/__init__.py b/runtimepy/net/stream/json/__init__.py
index 88b5bab..56ef317 100644
--- a/runtimepy/net/stream/json/__init__.py
+++ b/runtimepy/net/stream/json/__init__.py
@@ -5,6 +5,7 @@ A module implementing a JSON message connection interface.
 # built-in
 from argparse import Namespace
 from json import JSONDecodeError, loads
+from random import getrandbits
 from typing import Optional
 
 # internal
@@ -26,6 +27,10 @@ class JsonMessageConnection(
         self._setup_async_commands()
         JsonMessageInterface.__init__(self)
 
+        # Both ends count their requests, avoid mistaking the peer's requests
+        # for responses.
+        self.curr_id.curr_id += self.curr_id.scale * getrandbits(48)
+
     def write(self, data: bytes, addr: tuple[str, int] = None) -> None:
         """Write data."""
         self._send_message(data, addr=addr)
-- 
2.43.0


From d4e9fe99ef7a67a6851c7585360dd35d027adad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:57 +0000
Subject: [PATCH 28/72] fix: string primitives count encoded bytes, not
 characters

---
 runtimepy/primitives/string.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/runtimepy/primitives/string.py b/runtimepy/primitives/string.py
index 05a2ee2..fb50ba0 100644
--- a/runtimepy/primitives/string.py
+++ b/runtimepy/primitives/string.py
@@ -27,7 +27,7 @@ class StringPrimitive:
 
         assert kind.kind.is_integer
         self._value = value
-        self._size = kind(value=len(self._value))
+        self._size = kind(value=len(self._value.encode()))
         self.byte_order = byte_order
 
     def __str__(self) -> str:
@@ -62,7 +62,7 @@ class StringPrimitive:
     def set(self, value: str) -> None:
         """Set a new value for the underlying string."""
         self._value = value
-        self._size.value = len(self._value)
+        self._size.value = len(self._value.encode())
 
     @property
     def size(self) -> int:
-- 
2.43.0


From 4f8c9ecd6d7fb7a7ce50e8ec6f08cbabad9f938a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:57 +0000
Subject: [PATCH 29/72] fix: native byte order doesn't insert padding between
 array elements

---
 runtimepy/primitives/byte_order.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtimepy/primitives/byte_order.py b/runtimepy/primitives/byte_order.py
index b183db7..3b26bbe 100644
--- a/runtimepy/primitives/byte_order.py
+++ b/runtimepy/primitives/byte_order.py
@@ -19,7 +19,7 @@ class ByteOrder(_RuntimeIntEnum):
         """Get the struct formatter for this byte order."""
 
         if self is ByteOrder.NATIVE:
-            return "@"
+            return "="
         if self is ByteOrder.LITTLE_ENDIAN:
             return "<"
         if self is ByteOrder.BIG_ENDIAN:
-- 
2.43.0


From 540c98580e2324d078168fbc55a54dc85d3de2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:57 +0000
Subject: [PATCH 30/72] fix: frame all elements of a chain that framing
 accounts for

---
 runtimepy/primitives/serializable/framer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/runtimepy/primitives/serializable/framer.py b/runtimepy/primitives/serializable/framer.py
index cf9b995..e121ef2 100644
--- a/runtimepy/primitives/serializable/framer.py
+++ b/runtimepy/primitives/serializable/framer.py
@@ -3,6 +3,7 @@ A module implementing a message framing interface for serializables.
 """
 
 # built-in
+from io import BytesIO
 from typing import Optional
 
 # third-party
@@ -63,7 +64,9 @@ class SerializableFramer:
         """
 
         if sample:
-            self.raw += bytes(self.instance)
+            with BytesIO() as stream:
+                self.instance.to_stream(stream)
+                self.raw += stream.getvalue()
             self.elements += 1
 
         result = None
-- 
2.43.0


From 4a74570332524bfb41a878ff472110ce528c12d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:57 +0000
Subject: [PATCH 31/72] fix: a bit-flag doesn't replace a field with the same
 name

---
 runtimepy/primitives/field/fields.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/runtimepy/primitives/field/fields.py b/runtimepy/primitives/field/fields.py
index a181ef7..2bff52f 100644
--- a/runtimepy/primitives/field/fields.py
+++ b/runtimepy/primitives/field/fields.py
@@ -152,8 +152,7 @@ class BitFields(_RuntimepyDictCodec):
             name, self.raw, index, enum=enum, description=description, **kwargs
         )
 
-        self.fields[name] = result
-        self.by_index[index] = result
+        self.claim_field(result)
         return result
 
     def _claim_bits(self, width: int, index: int = None) -> int:
-- 
2.43.0


From 19206755a0c95d2ab78ebd554c75c7be777411ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:57 +0000
Subject: [PATCH 32/72] fix: a bit-field ends inside of its primitive

---
 runtimepy/primitives/field/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/runtimepy/primitives/field/__init__.py b/runtimepy/primitives/field/__init__.py
index 4fe1265..21cdb82 100644
--- a/runtimepy/primitives/field/__init__.py
+++ b/runtimepy/primitives/field/__init__.py
@@ -111,8 +111,8 @@ class BitField(BitFieldBase, _RegexMixin, _EnumMixin):
             index < raw.kind.bits
         ), f"Field can't start at {index} for {raw.kind}!"
         assert (
-            width <= raw.kind.bits
-        ), f"Field can't be {width}-bits wide for {raw.kind}!"
+            index + width <= raw.kind.bits
+        ), f"Field can't be {width}-bits wide (at {index}) for {raw.kind}!"
 
         assert self.validate_name(name), f"Invalid name '{name}'!"
         self.name = name
-- 
2.43.0


From 2ed3b3f4e9abcf7eb1f0526f3219588e9bae305b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:57 +0000
Subject: [PATCH 33/72] fix: export descriptions of bit-fields

---
 runtimepy/primitives/field/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/runtimepy/primitives/field/__init__.py b/runtimepy/primitives/field/__init__.py
index 21cdb82..68d0dde 100644
--- a/runtimepy/primitives/field/__init__.py
+++ b/runtimepy/primitives/field/__init__.py
@@ -131,6 +131,8 @@ class BitField(BitFieldBase, _RegexMixin, _EnumMixin):
             result["enum"] = self.enum
         if self.commandable:
             result["commandable"] = True
+        if self.description:
+            result["description"] = self.description
         return result
 
 
-- 
2.43.0


From c2b893bf1a10304b55b867596a7c9202bd71bb18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:57 +0000
Subject: [PATCH 34/72] fix: a rejected name isn't half registered

---
 runtimepy/mapping.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/runtimepy/mapping.py b/runtimepy/mapping.py
index 34a20bb..96d4a9a 100644
--- a/runtimepy/mapping.py
+++ b/runtimepy/mapping.py
@@ -64,22 +64,22 @@ class TwoWayNameMapping(_RegexMixin, LoggerMixin, _Generic[T]):
 
         assert self.validate_name(name), f"Invalid name '{name}'!"
 
+        # Ensure the mappings are consistent (before changing either).
+        if key in self._mapping:
+            curr_name = self._mapping[key]
+            assert curr_name == name, f"{curr_name} != {name} ({key})"
+        if name in self._reverse:
+            curr_key = self._reverse[name]
+            assert curr_key == key, f"{curr_key} != {key} ({name})"
+
         # Add to the key->name mapping.
         if key not in self._mapping:
             self._mapping[key] = name
-        else:
-            # Ensure the mappings are consistent.
-            curr_name = self._mapping[key]
-            assert curr_name == name, f"{curr_name} != {name} ({key})"
 
         # Add to the name->key mapping.
         if name not in self._reverse:
             self._reverse[name] = key
             self.registered_order.append(name)
-        else:
-            # Ensure the mappings are consistent.
-            curr_key = self._reverse[name]
-            assert curr_key == key, f"{curr_key} != {key} ({name})"
 
     def load_key_to_name(self, mapping: KeyToName[T]) -> None:
         """Load a key-to-name mapping."""
-- 
2.43.0


From a52bad2854f05cf2ff03e6bab29efff5cbca20da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:11 +0000
Subject: [PATCH 35/72] fix: boolean registrations are part of the registration
 order

---
 runtimepy/registry/bool.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/runtimepy/registry/bool.py b/runtimepy/registry/bool.py
index ec76935..306e31e 100644
--- a/runtimepy/registry/bool.py
+++ b/runtimepy/registry/bool.py
@@ -21,6 +21,5 @@ class BooleanRegistry(_TwoWayNameMapping[bool]):
         ):
             return False
 
-        self._mapping[value] = name
-        self._reverse[name] = value
+        self._set(value, name)
         return True
-- 
2.43.0


From d4b17f8ad0c7bf3674c603a3c31091270378c478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:11 +0000
Subject: [PATCH 36/72] fix: copied and imported protocols can be copied and
 exported

---
 runtimepy/codec/protocol/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/runtimepy/codec/protocol/base.py b/runtimepy/codec/protocol/base.py
index 9ee6de7..00c7075 100644
--- a/runtimepy/codec/protocol/base.py
+++ b/runtimepy/codec/protocol/base.py
@@ -110,7 +110,9 @@ class ProtocolBase:
             build = []
         for item in build:
             if isinstance(item, int):
-                self._add_bit_fields(self._fields.fields[item], track=False)
+                # These are managed already.
+                self.array.add(self._fields.fields[item].raw)
+                self._build.append(item)
             elif isinstance(item, str):
                 assert serializables, (item, serializables)
                 self.add_field(item, serializable=serializables[item])
@@ -120,7 +122,6 @@ class ProtocolBase:
                     item.name,
                     item.kind,
                     enum=item.enum,
-                    track=False,
                     array_length=item.array_length,
                 )
 
-- 
2.43.0


From a95fa78603108f6535efe21a82281683ce97ee09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:11 +0000
Subject: [PATCH 37/72] fix: a copied protocol keeps its identifier

---
 runtimepy/codec/protocol/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/runtimepy/codec/protocol/base.py b/runtimepy/codec/protocol/base.py
index 00c7075..438b3b9 100644
--- a/runtimepy/codec/protocol/base.py
+++ b/runtimepy/codec/protocol/base.py
@@ -136,6 +136,7 @@ class ProtocolBase:
             names=self.names,
             fields=_copy(self._fields),
             build=self._build,
+            identifier=self.id,
             byte_order=self.array.byte_order,
             serializables={
                 key: val.copy_without_chain()
-- 
2.43.0


From d39bc2e5746e5e92112b6feaac9451a144a3b904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:11 +0000
Subject: [PATCH 38/72] fix: imported protocols keep the lengths of their
 arrays

---
 runtimepy/codec/protocol/json.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/runtimepy/codec/protocol/json.py b/runtimepy/codec/protocol/json.py
index 8963f1e..28f3ce8 100644
--- a/runtimepy/codec/protocol/json.py
+++ b/runtimepy/codec/protocol/json.py
@@ -111,6 +111,9 @@ class JsonProtocol(ProtocolBase):
                         item["name"],  # type: ignore
                         item["kind"],  # type: ignore
                         enum=item.get("enum"),  # type: ignore
+                        array_length=item.get(  # type: ignore
+                            "array_length"
+                        ),
                     )
                 )
 
-- 
2.43.0


From dbf487f1a2cc04f39c753ca50acd8387cccd70bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:11 +0000
Subject: [PATCH 39/72] fix: export integers of regular fields if enumerations
 aren't resolved

---
 runtimepy/codec/protocol/json.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtimepy/codec/protocol/json.py b/runtimepy/codec/protocol/json.py
index 28f3ce8..57ad821 100644
--- a/runtimepy/codec/protocol/json.py
+++ b/runtimepy/codec/protocol/json.py
@@ -83,7 +83,7 @@ class JsonProtocol(ProtocolBase):
         # Export regular-field values.
         json_obj = data.get(VALUES_KEY, {})
         for name in self._regular_fields:
-            json_obj[name] = self.value(name)
+            json_obj[name] = self.value(name, resolve_enum=resolve_enum)
         if json_obj:
             data[VALUES_KEY] = json_obj
 
-- 
2.43.0


From 41b40289007b58420c39676b23050f312eea454b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:55 +0000
Subject: [PATCH 40/72] fix: a copied protocol keeps arrays of serializables

---
 runtimepy/codec/protocol/base.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/runtimepy/codec/protocol/base.py b/runtimepy/codec/protocol/base.py
index 438b3b9..c85c31a 100644
--- a/runtimepy/codec/protocol/base.py
+++ b/runtimepy/codec/protocol/base.py
@@ -71,6 +71,7 @@ class ProtocolBase:
         identifier: int = 1,
         byte_order: _Union[_ByteOrder, _RegistryKey] = _DEFAULT_BYTE_ORDER,
         serializables: SerializableMap = None,
+        array_lengths: dict[str, int] = None,
     ) -> None:
         """Initialize this protocol."""
 
@@ -104,6 +105,7 @@ class ProtocolBase:
 
         # Keep track of named serializables.
         self.serializables: SerializableMap = {}
+        self._array_lengths: dict[str, int] = {}
 
         # Add fields if necessary.
         if build is None:
@@ -115,7 +117,11 @@ class ProtocolBase:
                 self._build.append(item)
             elif isinstance(item, str):
                 assert serializables, (item, serializables)
-                self.add_field(item, serializable=serializables[item])
+                self.add_field(
+                    item,
+                    serializable=serializables[item],
+                    array_length=(array_lengths or {}).get(item),
+                )
                 del serializables[item]
             else:
                 self.add_field(
@@ -142,6 +148,7 @@ class ProtocolBase:
                 key: val.copy_without_chain()
                 for key, val in self.serializables.items()
             },
+            array_lengths=self._array_lengths,
         )
 
     def register_name(self, name: str) -> int:
@@ -158,6 +165,8 @@ class ProtocolBase:
 
         self.register_name(name)
         self.serializables[name] = serializable
+        if array_length is not None:
+            self._array_lengths[name] = array_length
         self._build.append(name)
         return self.array.add_to_end(serializable, array_length=array_length)
 
-- 
2.43.0


From 859c7eba553db7945b371ef55a00bae2b2643e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:09 +0000
Subject: [PATCH 41/72] fix: finalizing (exporting) an environment again
 doesn't duplicate bit-fields

---
 runtimepy/channel/environment/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/runtimepy/channel/environment/base.py b/runtimepy/channel/environment/base.py
index 1366e64..dc78db9 100644
--- a/runtimepy/channel/environment/base.py
+++ b/runtimepy/channel/environment/base.py
@@ -440,5 +440,6 @@ class BaseChannelEnvironment(_NamespaceMixin, FinalizeMixin):
 
         for fields in self.to_add:
             self.fields.add(fields)
+        self.to_add.clear()
 
         super().finalize(strict=strict)
-- 
2.43.0


From 92cb2b17e626649c876af6f3874105b0ae344807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:09 +0000
Subject: [PATCH 42/72] fix: bit-fields can't be added to a finalized
 environment

---
 runtimepy/channel/environment/base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/runtimepy/channel/environment/base.py b/runtimepy/channel/environment/base.py
index dc78db9..4c97985 100644
--- a/runtimepy/channel/environment/base.py
+++ b/runtimepy/channel/environment/base.py
@@ -429,6 +429,8 @@ class BaseChannelEnvironment(_NamespaceMixin, FinalizeMixin):
     def add_field(self, field: _BitField, namespace: Namespace = None) -> str:
         """Add a bit field to the environment."""
 
+        assert not self.finalized, "Environment already finalized!"
+
         result = self.fields.add_field(field)
         if result is not None:
             self.to_add.append(result)
-- 
2.43.0


From e9d56c5948ae105b824681514f34ae9a8bd76c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:00 +0000
Subject: [PATCH 43/72] fix: a bit-field doesn't shadow a channel of the same
 name

---
 runtimepy/channel/environment/base.py   | 2 ++
 runtimepy/channel/environment/create.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/runtimepy/channel/environment/base.py b/runtimepy/channel/environment/base.py
index 4c97985..a77e4de 100644
--- a/runtimepy/channel/environment/base.py
+++ b/runtimepy/channel/environment/base.py
@@ -431,6 +431,8 @@ class BaseChannelEnvironment(_NamespaceMixin, FinalizeMixin):
 
         assert not self.finalized, "Environment already finalized!"
 
+        assert field.name not in self.channels.items, field.name
+
         result = self.fields.add_field(field)
         if result is not None:
             self.to_add.append(result)
diff --git a/runtimepy/channel/environment/create.py b/runtimepy/channel/environment/create.py
index ffa3681..e053863 100644
--- a/runtimepy/channel/environment/create.py
+++ b/runtimepy/channel/environment/create.py
@@ -56,6 +56,8 @@ class CreateChannelEnvironment(_BaseChannelEnvironment):
             if isinstance(enum, _RuntimeEnum):
                 enum = enum.id
 
+        assert not self.fields.has_field(name), f"'{name}' is a bit-field!"
+
         # Register the channel.
         result = self.channels.channel(
             name,
-- 
2.43.0


From a740b18624b796c9f850ff7cc07387c17170dde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:00 +0000
Subject: [PATCH 44/72] fix: a protocol's field doesn't replace another of the
 same name

---
 runtimepy/codec/protocol/base.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/runtimepy/codec/protocol/base.py b/runtimepy/codec/protocol/base.py
index c85c31a..4d7adbe 100644
--- a/runtimepy/codec/protocol/base.py
+++ b/runtimepy/codec/protocol/base.py
@@ -154,6 +154,12 @@ class ProtocolBase:
     def register_name(self, name: str) -> int:
         """Register the field name."""
 
+        assert (
+            name not in self._regular_fields
+            and name not in self.serializables
+            and not self._fields.has_field(name)
+        ), f"Field '{name}' already exists!"
+
         ident = self.names.register_name(name)
         assert ident is not None, f"Couldn't register field '{name}'!"
         return ident
-- 
2.43.0


From a2e6e8c1db9ad58b30222df51caa27811ca7590f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:46 +0000
Subject: [PATCH 45/72] fix: copies of primitives keep their scaling and time
 source

---
 runtimepy/primitives/base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/runtimepy/primitives/base.py b/runtimepy/primitives/base.py
index e186bad..7b22570 100644
--- a/runtimepy/primitives/base.py
+++ b/runtimepy/primitives/base.py
@@ -93,7 +93,11 @@ class Primitive(_Generic[T]):
 
     def __copy__(self) -> "Primitive[T]":
         """Make a copy of this primitive."""
-        return type(self)(value=self.value)
+        return type(self)(
+            value=self.value,
+            scaling=self.scaling,
+            time_source=self.time_source,
+        )
 
     def copy(self) -> "Primitive[T]":
         """A simple wrapper for copy."""
-- 
2.43.0


From 42b1d46d62bcfef4c63adb916a43005fc4259325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:46 +0000
Subject: [PATCH 46/72] fix: polling channel metrics doesn't turn kilobits into
 kilobytes

---
 runtimepy/metrics/channel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runtimepy/metrics/channel.py b/runtimepy/metrics/channel.py
index 1fd517d..90a0450 100644
--- a/runtimepy/metrics/channel.py
+++ b/runtimepy/metrics/channel.py
@@ -55,7 +55,8 @@ class ChannelMetrics:
     def poll(self, time_ns: int = None) -> None:
         """Poll kbps tracking."""
 
-        self.kbps.value = self._kbps_tracker.poll(time_ns=time_ns)
+        # Multiply by 8 to get bits from bytes.
+        self.kbps.value = self._kbps_tracker.poll(time_ns=time_ns) * 8
         self.message_rate.value = self._message_rate_tracker.poll(
             time_ns=time_ns
         )
-- 
2.43.0


From 457ab73eac1c95d02a495f5be013bcb5ad303b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:46 +0000
Subject: [PATCH 47/72] fix: resetting channel metrics resets the message rate

---
 runtimepy/metrics/channel.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/runtimepy/metrics/channel.py b/runtimepy/metrics/channel.py
index 90a0450..a23ae16 100644
--- a/runtimepy/metrics/channel.py
+++ b/runtimepy/metrics/channel.py
@@ -79,6 +79,9 @@ class ChannelMetrics:
         """Reset metrics."""
 
         self.messages.value = 0
+        self.message_rate.value = 0.0
+        self._message_rate_tracker.reset()
+
         self.bytes.value = 0
         self.kbps.value = 0.0
         self._kbps_tracker.reset()
-- 
2.43.0


From cb5a77d3475b7fe47689b2c075a99fd556255274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:46 +0000
Subject: [PATCH 48/72] fix: logging a response header doesn't use its level as
 format

---
 runtimepy/net/http/response.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtimepy/net/http/response.py b/runtimepy/net/http/response.py
index 77fda5b..d2c69be 100644
--- a/runtimepy/net/http/response.py
+++ b/runtimepy/net/http/response.py
@@ -76,7 +76,7 @@ class ResponseHeader(HeadersMixin):
         """Log information about this response header."""
 
         level = logging.INFO if (200 <= self.status <= 299) else logging.ERROR
-        logger.debug(
+        logger.log(
             level,
             "(%s response) %s - %s",
             "outgoing" if out else "incoming",
-- 
2.43.0


From 7795ec6b28d6e587cffa9730a81b31dd207e8ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:56:46 +0000
Subject: [PATCH 49/72] fix: a cancelled HTTP request's response isn't taken
 for that of the next one

---
 runtimepy/net/tcp/http/__init__.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/runtimepy/net/tcp/http/__init__.py b/runtimepy/net/tcp/http/__init__.py
index 5351c07..4204ca3 100644
--- a/runtimepy/net/tcp/http/__init__.py
+++ b/runtimepy/net/tcp/http/__init__.py
@@ -139,8 +139,16 @@ class HttpConnection(_TcpConnection):
 
             self._send(request, data)
             self.expecting_response = True
-            result = await self.responses.get()
-            self.expecting_response = False
+            try:
+                result = await self.responses.get()
+
+            # The next request could receive the response to this one.
+            except asyncio.CancelledError:
+                self.disable("request cancelled")
+                raise
+
+            finally:
+                self.expecting_response = False
 
         return result
 
-- 
2.43.0


From 7d5450fdbfe789b38bad5828c941fba3c782aad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:08 +0000
Subject: [PATCH 50/72] fix: messages about channels, types and bit-fields name
 them

---
 runtimepy/channel/environment/base.py      | 6 +++---
 runtimepy/primitives/field/manager/base.py | 4 +++-
 runtimepy/primitives/types/base.py         | 2 +-
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/runtimepy/channel/environment/base.py b/runtimepy/channel/environment/base.py
index a77e4de..48fa4bf 100644
--- a/runtimepy/channel/environment/base.py
+++ b/runtimepy/channel/environment/base.py
@@ -255,7 +255,7 @@ class BaseChannelEnvironment(_NamespaceMixin, FinalizeMixin):
 
         # Ensure that this is an integer channel.
         if result[0] not in self.ints:
-            raise KeyError("Channel '{key}' is not integer!")
+            raise KeyError(f"Channel '{key}' is not integer!")
 
         return _cast(_IntChannel, result[0]), result[1]
 
@@ -273,7 +273,7 @@ class BaseChannelEnvironment(_NamespaceMixin, FinalizeMixin):
 
         # Ensure that this is an integer channel.
         if result[0] not in self.bools:
-            raise KeyError("Channel '{key}' is not boolean!")
+            raise KeyError(f"Channel '{key}' is not boolean!")
 
         return _cast(_BoolChannel, result[0]), result[1]
 
@@ -406,7 +406,7 @@ class BaseChannelEnvironment(_NamespaceMixin, FinalizeMixin):
 
         result = self[key]
         if result[0] not in self.floats:
-            raise KeyError("Channel '{key}' is not a float!")
+            raise KeyError(f"Channel '{key}' is not a float!")
         return _cast(_FloatChannel, result[0])
 
     def __eq__(self, other) -> bool:
diff --git a/runtimepy/primitives/field/manager/base.py b/runtimepy/primitives/field/manager/base.py
index a75e52e..e94a4bd 100644
--- a/runtimepy/primitives/field/manager/base.py
+++ b/runtimepy/primitives/field/manager/base.py
@@ -99,7 +99,9 @@ class BitFieldsManagerBase:
         # Register fields into the lookup structure.
         for name, field in fields.fields.items():
             ident = self.registry.register_name(name)
-            assert ident is not None, "Couldn't register bit-field '{name}'!"
+            assert (
+                ident is not None
+            ), f"Couldn't register bit-field '{name}'!"
             self.lookup[name] = index
 
             # Also store the enum mapping.
diff --git a/runtimepy/primitives/types/base.py b/runtimepy/primitives/types/base.py
index a730b48..0d4ca58 100644
--- a/runtimepy/primitives/types/base.py
+++ b/runtimepy/primitives/types/base.py
@@ -86,7 +86,7 @@ class PrimitiveType(_Generic[T]):
 
         # This won't match for half-precision floating-point.
         if self.format != "e":
-            assert self.size == c_type_size, "{self.size} != {c_type_size}!"
+            assert self.size == c_type_size, f"{self.size} != {c_type_size}!"
 
         # Convenient attributes to determine if this type is which one of
         # Python's primitive types.
-- 
2.43.0


From 5e9adb47c9e90014ccee44fc3406f9895e4d0304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:08 +0000
Subject: [PATCH 51/72] fix: disabled websocket connections don't observe the
 number of connections

---
 runtimepy/net/server/websocket/__init__.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/runtimepy/net/server/websocket/__init__.py b/runtimepy/net/server/websocket/__init__.py
index 1feaa59..248dca4 100644
--- a/runtimepy/net/server/websocket/__init__.py
+++ b/runtimepy/net/server/websocket/__init__.py
@@ -62,7 +62,9 @@ class RuntimepyWebsocketConnection(WebsocketJsonMessageConnection):
                     )
 
                 chan, _ = ui.env["num_connections"]
-                chan.raw.register_callback(check_metrics_poll)  # type: ignore
+                self._ui_callback = chan.raw.register_callback(
+                    check_metrics_poll  # type: ignore
+                )
 
                 # Add to num_connections.
                 ui.env.add_int("num_connections", 1)
@@ -156,9 +158,15 @@ class RuntimepyWebsocketConnection(WebsocketJsonMessageConnection):
             state.clear_loggers()
 
         # Subtract from num_connections.
-        ui = self._get_ui()
+        ui = self._ui
         if ui:
+            self._ui = None
             self.poll_connection_metrics = False
+
+            # Stop observing 'num_connections'.
+            chan, _ = ui.env["num_connections"]
+            chan.raw.remove_callback(self._ui_callback)
+
             ui.env.add_int("num_connections", -1)
 
 
-- 
2.43.0


From 0844e74df38923a4ea3a9eff158542b2d6c33c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:08 +0000
Subject: [PATCH 52/72] fix: a tab that's shown again doesn't observe channels
 twice

---
 runtimepy/net/server/app/env/tab/message.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runtimepy/net/server/app/env/tab/message.py b/runtimepy/net/server/app/env/tab/message.py
index 8d7813c..e32a130 100644
--- a/runtimepy/net/server/app/env/tab/message.py
+++ b/runtimepy/net/server/app/env/tab/message.py
@@ -67,7 +67,8 @@ class ChannelEnvironmentTabMessaging(ChannelEnvironmentTabBase):
 
             # Begin observing channel events for this environment.
             for name in env.names:
-                self._setup_callback(name, state)
+                if name not in state.callbacks:
+                    self._setup_callback(name, state)
         else:
             state.clear_telemetry()
 
-- 
2.43.0


From edf44a42f68bc448ca5e306a3328c3a5f749633c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:05 +0000
Subject: [PATCH 53/72] fix: callbacks of primitives can add and remove
 callbacks

---
 runtimepy/primitives/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runtimepy/primitives/base.py b/runtimepy/primitives/base.py
index 7b22570..035be5f 100644
--- a/runtimepy/primitives/base.py
+++ b/runtimepy/primitives/base.py
@@ -148,7 +148,8 @@ class Primitive(_Generic[T]):
 
         if self.callbacks and curr != new:
             to_remove = []
-            for ident, (callback, once) in self.callbacks.items():
+            # Callbacks may add and remove callbacks.
+            for ident, (callback, once) in list(self.callbacks.items()):
                 callback(curr, new)
                 if once:
                     to_remove.append(ident)
-- 
2.43.0


From 0cb482813429dcbc07c9474a6bdff1572e3ea7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:05 +0000
Subject: [PATCH 54/72] fix: setting a scaled integer to infinity isn't fatal

---
 runtimepy/channel/environment/command/processor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtimepy/channel/environment/command/processor.py b/runtimepy/channel/environment/command/processor.py
index 52a5a6b..6c97682 100644
--- a/runtimepy/channel/environment/command/processor.py
+++ b/runtimepy/channel/environment/command/processor.py
@@ -96,7 +96,7 @@ class ChannelCommandProcessor(ChannelEnvironmentMixin):
 
         try:
             self.env.set(args.channel, args.extra[0])
-        except (ValueError, KeyError) as exc:
+        except (ValueError, KeyError, OverflowError) as exc:
             self.logger.exception(
                 "Exception setting '%s':", args.channel, exc_info=exc
             )
-- 
2.43.0


From c1ee3829c6ab3c432edcd917e4c514b2235658fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:27 +0000
Subject: [PATCH 55/72] fix: getting a value that's not part of its enumeration
 isn't fatal

---
 runtimepy/channel/environment/command/processor.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/runtimepy/channel/environment/command/processor.py b/runtimepy/channel/environment/command/processor.py
index 6c97682..3630f10 100644
--- a/runtimepy/channel/environment/command/processor.py
+++ b/runtimepy/channel/environment/command/processor.py
@@ -141,7 +141,14 @@ class ChannelCommandProcessor(ChannelEnvironmentMixin):
 
         if args.command == ChannelCommand.GET:
             if self.env.exists(args.channel):
-                return CommandResult(True, str(self.env.value(args.channel)))
+                try:
+                    value = self.env.value(args.channel)
+
+                # The value may not be a member of the enumeration.
+                except KeyError as exc:
+                    return CommandResult(False, str(exc))
+
+                return CommandResult(True, str(value))
 
         channel = self.env.field_or_channel(args.channel)
         if channel is None:
-- 
2.43.0


From 413791bb0082b1238bf7959a8280315857f07c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:27 +0000
Subject: [PATCH 56/72] fix: a successful evaluation isn't overwritten before
 it's returned

---
 runtimepy/primitives/evaluation.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/runtimepy/primitives/evaluation.py b/runtimepy/primitives/evaluation.py
index a7780bd..603f243 100644
--- a/runtimepy/primitives/evaluation.py
+++ b/runtimepy/primitives/evaluation.py
@@ -72,11 +72,12 @@ async def evaluate(
     def change_callback(curr: T, new: T) -> None:
         """Handle underlying value changes to the provided primitive."""
 
-        # Always update the result when called.
+        # Update the result until the evaluation succeeds.
         nonlocal result
-        result = evaluator(curr, new)
-        if result:
-            event.set()
+        if not result:
+            result = evaluator(curr, new)
+            if result:
+                event.set()
 
     # Service the callback until resolved or this evaluation times out.
     with primitive.callback(change_callback):
-- 
2.43.0


From 53c10eaff3d9b37cefdb6c312a81548c23c0660a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:42 +0000
Subject: [PATCH 57/72] fix: early output of a subprocess isn't lost

---
 runtimepy/subprocess/__init__.py | 15 +++++++--------
 runtimepy/subprocess/protocol.py | 11 +++++++++--
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/runtimepy/subprocess/__init__.py b/runtimepy/subprocess/__init__.py
index edc7f3d..58a1982 100644
--- a/runtimepy/subprocess/__init__.py
+++ b/runtimepy/subprocess/__init__.py
@@ -100,16 +100,17 @@ async def spawn_exec(
 
     program, list_args = reconcile_platform(args[0], args[1:])
 
+    # The process can write output before this task runs again.
     _, protocol = await get_running_loop().subprocess_exec(
-        RuntimepySubprocessProtocol, program, *list_args, **kwargs
+        lambda: RuntimepySubprocessProtocol(stdout, stderr),
+        program,
+        *list_args,
+        **kwargs,
     )
 
     rel = log_process_info(program, *list_args)
     logger.info("Started exec '%s %s' %d.", rel[0], rel[1], protocol.pid)
 
-    protocol.stdout_queue = stdout
-    protocol.stderr_queue = stderr
-
     try:
         yield protocol
     finally:
@@ -128,15 +129,13 @@ async def spawn_shell(
 ) -> AsyncIterator[RuntimepySubprocessProtocol]:
     """Create a shell subprocess."""
 
+    # The process can write output before this task runs again.
     _, protocol = await get_running_loop().subprocess_shell(
-        RuntimepySubprocessProtocol, cmd, **kwargs
+        lambda: RuntimepySubprocessProtocol(stdout, stderr), cmd, **kwargs
     )
 
     logger.info("Started shell '%s' %d.", cmd, protocol.pid)
 
-    protocol.stdout_queue = stdout
-    protocol.stderr_queue = stderr
-
     try:
         yield protocol
     finally:
diff --git a/runtimepy/subprocess/protocol.py b/runtimepy/subprocess/protocol.py
index a1c2272..25f3c80 100644
--- a/runtimepy/subprocess/protocol.py
+++ b/runtimepy/subprocess/protocol.py
@@ -36,6 +36,15 @@ class RuntimepySubprocessProtocol(SubprocessProtocol):
 
     exited: Event
 
+    def __init__(
+        self, stdout: Queue[bytes] = None, stderr: Queue[bytes] = None
+    ) -> None:
+        """Initialize this instance."""
+
+        super().__init__()
+        self.stdout_queue = stdout
+        self.stderr_queue = stderr
+
     @property
     def stdout(self) -> Queue[bytes]:
         """Get this instance's standard output queue."""
@@ -59,8 +68,6 @@ class RuntimepySubprocessProtocol(SubprocessProtocol):
         self.start_time = metrics_time_ns()
         self.elapsed_time = -1
 
-        self.stdout_queue = None
-        self.stderr_queue = None
         self.exited = Event()
 
         self.transport = transport
-- 
2.43.0


From 119b2ec5cdd5ec351d757f4a4b2c99914db9ea4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:42 +0000
Subject: [PATCH 58/72] fix: only the error output of a subprocess can be
 queued

---
 runtimepy/subprocess/protocol.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/runtimepy/subprocess/protocol.py b/runtimepy/subprocess/protocol.py
index 25f3c80..ce4835f 100644
--- a/runtimepy/subprocess/protocol.py
+++ b/runtimepy/subprocess/protocol.py
@@ -85,8 +85,9 @@ class RuntimepySubprocessProtocol(SubprocessProtocol):
     def pipe_data_received(self, fd: int, data: bytes) -> None:
         """Handle incoming pipe data."""
 
-        if fd == 1 and self.stdout_queue is not None:
-            self.stdout_queue.put_nowait(data)
+        if fd == 1:
+            if self.stdout_queue is not None:
+                self.stdout_queue.put_nowait(data)
         elif self.stderr_queue is not None:
             assert fd == 2, fd
             self.stderr_queue.put_nowait(data)
-- 
2.43.0


From 0dae2b75af923c12a22ddfa6e0b1fa8400e296fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:42 +0000
Subject: [PATCH 59/72] fix: a peer doesn't leave its command task behind

---
 runtimepy/subprocess/peer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/runtimepy/subprocess/peer.py b/runtimepy/subprocess/peer.py
index 68930c5..254e5a6 100644
--- a/runtimepy/subprocess/peer.py
+++ b/runtimepy/subprocess/peer.py
@@ -69,6 +69,11 @@ class RuntimepyPeer(RuntimepyPeerInterface):
             except asyncio.CancelledError:
                 keep_going = False
 
+        # Don't leave a command task behind.
+        if task is not None:
+            task.cancel()
+            await asyncio.gather(task, return_exceptions=True)
+
     @asynccontextmanager
     async def _context(self: T) -> AsyncIterator[T]:
         """A managed context for the peer."""
-- 
2.43.0


From 6145929c69fb2c0d5832b43556d10960f29985d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:55 +0000
Subject: [PATCH 60/72] fix: received datagrams are counted if processing them
 fails

---
 runtimepy/net/udp/connection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtimepy/net/udp/connection.py b/runtimepy/net/udp/connection.py
index 01e3a4d..1f7be04 100644
--- a/runtimepy/net/udp/connection.py
+++ b/runtimepy/net/udp/connection.py
@@ -209,9 +209,9 @@ class UdpConnection(_Connection, _TransportMixin):
 
                 if message is not None:
                     data = message[0]
+                    self.metrics.rx.increment(len(data))
                     self.latest_rx_address = message[1]
                     result = await self.process_datagram(data, message[1])
-                    self.metrics.rx.increment(len(data))
 
                 # If we failed to read a message, disable.
                 if not result:
-- 
2.43.0


From f8082af6d5cf41c0a6a932351aa89ea5017693d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:55 +0000
Subject: [PATCH 61/72] fix: websocket messages that couldn't be sent aren't
 counted

---
 runtimepy/net/websocket/connection.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/runtimepy/net/websocket/connection.py b/runtimepy/net/websocket/connection.py
index e406d66..2f509c4 100644
--- a/runtimepy/net/websocket/connection.py
+++ b/runtimepy/net/websocket/connection.py
@@ -74,15 +74,20 @@ class WebsocketConnection(Connection):
             self.metrics.rx.increment(len(data))
         return data
 
+    async def _sent(self, data: _Union[BinaryMessage, str]) -> bool:
+        """Send a message, returns once it was sent."""
+        await self.protocol.send(data)
+        return True
+
     async def _send_text_message(self, data: str) -> None:
         """Send a text message."""
-        await self._handle_connection_closed(self.protocol.send(data))
-        self.metrics.tx.increment(len(data))
+        if await self._handle_connection_closed(self._sent(data)):
+            self.metrics.tx.increment(len(data))
 
     async def _send_binay_message(self, data: BinaryMessage) -> None:
         """Send a binary message."""
-        await self._handle_connection_closed(self.protocol.send(data))
-        self.metrics.tx.increment(len(data))
+        if await self._handle_connection_closed(self._sent(data)):
+            self.metrics.tx.increment(len(data))
 
     async def close(self) -> None:
         """Close this connection."""
-- 
2.43.0


From 5716769a90cf4f5bf9561ed3e98570ab5f77ea7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:55 +0000
Subject: [PATCH 62/72] fix: websocket metrics count bytes of text messages,
 not characters

---
 runtimepy/net/websocket/connection.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/runtimepy/net/websocket/connection.py b/runtimepy/net/websocket/connection.py
index 2f509c4..72ba7d4 100644
--- a/runtimepy/net/websocket/connection.py
+++ b/runtimepy/net/websocket/connection.py
@@ -71,7 +71,9 @@ class WebsocketConnection(Connection):
 
         data = await self._handle_connection_closed(self.protocol.recv())
         if data is not None:
-            self.metrics.rx.increment(len(data))
+            self.metrics.rx.increment(
+                len(data.encode() if isinstance(data, str) else data)
+            )
         return data
 
     async def _sent(self, data: _Union[BinaryMessage, str]) -> bool:
@@ -82,7 +84,7 @@ class WebsocketConnection(Connection):
     async def _send_text_message(self, data: str) -> None:
         """Send a text message."""
         if await self._handle_connection_closed(self._sent(data)):
-            self.metrics.tx.increment(len(data))
+            self.metrics.tx.increment(len(data.encode()))
 
     async def _send_binay_message(self, data: BinaryMessage) -> None:
         """Send a binary message."""
-- 
2.43.0


From bf73c7b43b0320ba181a93c39c25f79da7fa6cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:55 +0000
Subject: [PATCH 63/72] fix: rate limited change events aren't counted as
 messages

---
 runtimepy/channel/event/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runtimepy/channel/event/__init__.py b/runtimepy/channel/event/__init__.py
index eed20ce..54c6b3f 100644
--- a/runtimepy/channel/event/__init__.py
+++ b/runtimepy/channel/event/__init__.py
@@ -98,7 +98,8 @@ class PrimitiveEvent:
             if flush:
                 stream.flush()
 
-        if channel is not None:
+        # Events that are rate limited aren't messages.
+        if channel is not None and written:
             channel.increment(written)
 
         return written
-- 
2.43.0


From 7e10cfdca5dc8341a8e0db778bdc996972c314e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:22 +0000
Subject: [PATCH 64/72] fix: bits of fields created outside of BitFields aren't
 claimed

---
 runtimepy/primitives/field/fields.py       | 6 ++++++
 runtimepy/primitives/field/manager/base.py | 4 ++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/runtimepy/primitives/field/fields.py b/runtimepy/primitives/field/fields.py
index 2bff52f..92ed84c 100644
--- a/runtimepy/primitives/field/fields.py
+++ b/runtimepy/primitives/field/fields.py
@@ -198,6 +198,12 @@ class BitFields(_RuntimepyDictCodec):
         self.by_index[field.index] = field
         return field
 
+    def adopt_field(self, field: _BitField) -> _BitField:
+        """Claim a bit field created elsewhere, and the bits it uses."""
+
+        self._claim_bits(field.width, index=field.index)
+        return self.claim_field(field)
+
     def field(
         self,
         name: str,
diff --git a/runtimepy/primitives/field/manager/base.py b/runtimepy/primitives/field/manager/base.py
index e94a4bd..d4a156d 100644
--- a/runtimepy/primitives/field/manager/base.py
+++ b/runtimepy/primitives/field/manager/base.py
@@ -218,11 +218,11 @@ class BitFieldsManagerBase:
         new_fields = None
 
         if new_primitive:
-            new_fields = _BitFields.new()
+            new_fields = _BitFields.new(str(prim.kind))
             new_fields.raw = prim
             self.by_primitive[prim] = new_fields
 
-        self.by_primitive[prim].claim_field(field)
+        self.by_primitive[prim].adopt_field(field)
 
         # self.add(new_fields, finalize=False)
         return new_fields
-- 
2.43.0


From 72b7c1017a6e07c90e24ec9e0163c3ee5e2a345c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:25 +0000
Subject: [PATCH 65/72] fix: schemas reject names that channels, fields and
 enumerations can have

---
 runtimepy/data/schemas/BitFields.yaml       | 4 ++--
 runtimepy/data/schemas/Channel.yaml         | 2 +-
 runtimepy/data/schemas/ChannelRegistry.yaml | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/runtimepy/data/schemas/BitFields.yaml b/runtimepy/data/schemas/BitFields.yaml
index d55ed62..875671b 100644
--- a/runtimepy/data/schemas/BitFields.yaml
+++ b/runtimepy/data/schemas/BitFields.yaml
@@ -25,7 +25,7 @@ properties:
       properties:
         name:
           type: string
-          pattern: "^[a-z0-9-_.]+$"
+          pattern: "^[a-zA-Z0-9-_.]+$"
 
         commandable:
           type: boolean
@@ -54,4 +54,4 @@ properties:
             - type: integer
               minimum: 1
             - type: string
-              pattern: "^\\w+$"
+              pattern: "^[\\w\\:\\-_.\\/]+$"
diff --git a/runtimepy/data/schemas/Channel.yaml b/runtimepy/data/schemas/Channel.yaml
index 2f264d1..615f6a2 100644
--- a/runtimepy/data/schemas/Channel.yaml
+++ b/runtimepy/data/schemas/Channel.yaml
@@ -33,4 +33,4 @@ properties:
       - type: integer
         minimum: 1
       - type: string
-        pattern: "^\\w+$"
+        pattern: "^[\\w\\:\\-_.\\/]+$"
diff --git a/runtimepy/data/schemas/ChannelRegistry.yaml b/runtimepy/data/schemas/ChannelRegistry.yaml
index da0c54c..5386c26 100644
--- a/runtimepy/data/schemas/ChannelRegistry.yaml
+++ b/runtimepy/data/schemas/ChannelRegistry.yaml
@@ -3,5 +3,5 @@ type: object
 additionalProperties: false
 
 patternProperties:
-  "^[a-z0-9-_.]+$":
+  "^[a-zA-Z0-9-_.]+$":
     $ref: package://runtimepy/schemas/Channel.yaml
-- 
2.43.0


From 39c89981df2f6dbfe642376a83eba3df847fcf49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:10 +0000
Subject: [PATCH 66/72] fix: environments and protocols with values that aren't
 enumeration members can't be exported

---
 runtimepy/channel/environment/base.py      |  7 ++++++-
 runtimepy/codec/protocol/json.py           |  7 ++++++-
 runtimepy/primitives/field/manager/base.py | 14 ++++++++++----
 3 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/runtimepy/channel/environment/base.py b/runtimepy/channel/environment/base.py
index 48fa4bf..b2b8ddb 100644
--- a/runtimepy/channel/environment/base.py
+++ b/runtimepy/channel/environment/base.py
@@ -176,7 +176,12 @@ class BaseChannelEnvironment(_NamespaceMixin, FinalizeMixin):
 
         result: ValueMap = {}
         for name in self.channels.names.names:
-            value = self.value(name, resolve_enum=resolve_enum)
+            try:
+                value = self.value(name, resolve_enum=resolve_enum)
+
+            # Not every value has to be a member of the enumeration.
+            except KeyError:
+                value = self.value(name, resolve_enum=False)
 
             # Don't store NaN. Python will allow JSON encoding but e.g.
             # browsers (and the JSON specification) don't support decoding
diff --git a/runtimepy/codec/protocol/json.py b/runtimepy/codec/protocol/json.py
index 57ad821..ae12696 100644
--- a/runtimepy/codec/protocol/json.py
+++ b/runtimepy/codec/protocol/json.py
@@ -83,7 +83,12 @@ class JsonProtocol(ProtocolBase):
         # Export regular-field values.
         json_obj = data.get(VALUES_KEY, {})
         for name in self._regular_fields:
-            json_obj[name] = self.value(name, resolve_enum=resolve_enum)
+            try:
+                json_obj[name] = self.value(name, resolve_enum=resolve_enum)
+
+            # Not every value has to be a member of the enumeration.
+            except KeyError:
+                json_obj[name] = self.value(name, resolve_enum=False)
         if json_obj:
             data[VALUES_KEY] = json_obj
 
diff --git a/runtimepy/primitives/field/manager/base.py b/runtimepy/primitives/field/manager/base.py
index d4a156d..7952835 100644
--- a/runtimepy/primitives/field/manager/base.py
+++ b/runtimepy/primitives/field/manager/base.py
@@ -158,10 +158,16 @@ class BitFieldsManagerBase:
     def values(self, resolve_enum: bool = True) -> dict[str, _Union[str, int]]:
         """Get a new dictionary of current field values."""
 
-        return {
-            name: self.get(name, resolve_enum=resolve_enum)
-            for name in self.lookup
-        }
+        result: dict[str, _Union[str, int]] = {}
+        for name in self.lookup:
+            try:
+                result[name] = self.get(name, resolve_enum=resolve_enum)
+
+            # Not every value has to be a member of the enumeration.
+            except KeyError:
+                result[name] = self.get(name, resolve_enum=False)
+
+        return result
 
     def get_fields(self, key: _RegistryKey) -> _Optional[_BitFields]:
         """Attempt to get a bit-fields object from a registry key."""
-- 
2.43.0


From 3517b536639bbb8614dca7d8203ef5502c83f7c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:48 +0000
Subject: [PATCH 67/72] fix: A failed asynchronous command doesn't end
 processing of all commands

---
 runtimepy/mixins/async_command.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/runtimepy/mixins/async_command.py b/runtimepy/mixins/async_command.py
index 1a168a8..b116c87 100644
--- a/runtimepy/mixins/async_command.py
+++ b/runtimepy/mixins/async_command.py
@@ -55,9 +55,17 @@ class AsyncCommandProcessingMixin(LoggerMixin):
         while not self.outgoing_commands.empty():
             params = self.outgoing_commands.get_nowait()
 
-            if params[0].command == ChannelCommand.CUSTOM:
-                await self.command.handle_custom_command(*params)
-            else:
-                await self.handle_command(*params)
-
-            self.outgoing_commands.task_done()
+            try:
+                if params[0].command == ChannelCommand.CUSTOM:
+                    await self.command.handle_custom_command(*params)
+                else:
+                    await self.handle_command(*params)
+
+            # A failure is only relevant to the command that caused it.
+            except Exception as exc:  # pylint: disable=broad-exception-caught
+                self.logger.exception(
+                    "Handling command '%s' failed:", params[0], exc_info=exc
+                )
+
+            finally:
+                self.outgoing_commands.task_done()
-- 
2.43.0


From 4da2f8849ac5ab044cb220b967b646f5a6688493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:36:12 +0000
Subject: [PATCH 68/72] fix: Observed channels can have values that aren't
 enumerated

---
 runtimepy/net/server/app/env/tab/message.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/runtimepy/net/server/app/env/tab/message.py b/runtimepy/net/server/app/env/tab/message.py
index e32a130..492fc36 100644
--- a/runtimepy/net/server/app/env/tab/message.py
+++ b/runtimepy/net/server/app/env/tab/message.py
@@ -30,9 +30,14 @@ class ChannelEnvironmentTabMessaging(ChannelEnvironmentTabBase):
 
             # Render enumerations etc. here instead of trying to do it
             # in the UI.
-            state.points[name].append(
-                (self.command.env.value(name), prim.last_updated_ns)
-            )
+            try:
+                value = self.command.env.value(name)
+
+            # Not every value has to be a member of the enumeration.
+            except KeyError:
+                value = self.command.env.value(name, resolve_enum=False)
+
+            state.points[name].append((value, prim.last_updated_ns))
 
         state.primitives[name] = prim
         state.callbacks[name] = prim.register_callback(callback)
-- 
2.43.0


From 1c37e2ca1748829723a4960ba83e409ec480d69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:39:07 +0000
Subject: [PATCH 69/72] fix: Don't cancel consumers of samples when sampling
 times out

---
 runtimepy/primitives/evaluation.py | 34 ++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 11 deletions(-)

diff --git a/runtimepy/primitives/evaluation.py b/runtimepy/primitives/evaluation.py
index 603f243..ab7b59b 100644
--- a/runtimepy/primitives/evaluation.py
+++ b/runtimepy/primitives/evaluation.py
@@ -8,7 +8,7 @@ import asyncio
 from enum import auto
 from math import isclose
 import operator
-from typing import AsyncIterator, Callable
+from typing import AsyncIterator, Callable, Optional
 
 # internal
 from runtimepy.enum.registry import RuntimeIntEnum
@@ -121,7 +121,7 @@ async def sample_for(
     is set).
     """
 
-    sample_queue: asyncio.Queue[tuple[T, int]] = asyncio.Queue()
+    sample_queue: asyncio.Queue[Optional[tuple[T, int]]] = asyncio.Queue()
     keep_sampling = True
     samples = 0
 
@@ -150,18 +150,30 @@ async def sample_for(
             sample_queue.put_nowait((new, primitive.last_updated_ns))
             poll_sample_event()
 
-    # Service the callback until resolved or this evaluation times out.
-    with primitive.callback(sample):
-        try:
-            async with asyncio.timeout(timeout):
-                while keep_sampling:
-                    yield await sample_queue.get()
-        except asyncio.TimeoutError:
-            pass
+    def timed_out() -> None:
+        """Stop sampling and wake up the sampling loop."""
+
+        nonlocal keep_sampling
+        keep_sampling = False
+        sample_queue.put_nowait(None)
+
+    # Service the callback until resolved or this evaluation times out. Only
+    # sampling is timed, not what's done with the samples.
+    timer = asyncio.get_running_loop().call_later(timeout, timed_out)
+    try:
+        with primitive.callback(sample):
+            while keep_sampling:
+                value = await sample_queue.get()
+                if value is not None:
+                    yield value
+    finally:
+        timer.cancel()
 
     # Drain queue.
     while not sample_queue.empty():
-        yield sample_queue.get_nowait()
+        value = sample_queue.get_nowait()
+        if value is not None:
+            yield value
 
 
 class PrimitiveIsCloseMixin(Primitive[T]):
-- 
2.43.0


From 272fcdd6590c8a00f7253091070d35894b2556ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:45:31 +0000
Subject: [PATCH 70/72] fix: HTTP requests end when the connection is lost

---
 runtimepy/net/tcp/http/__init__.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/runtimepy/net/tcp/http/__init__.py b/runtimepy/net/tcp/http/__init__.py
index 4204ca3..27a8093 100644
--- a/runtimepy/net/tcp/http/__init__.py
+++ b/runtimepy/net/tcp/http/__init__.py
@@ -128,6 +128,22 @@ class HttpConnection(_TcpConnection):
 
         return result
 
+    async def _get_response(self) -> HttpResponse:
+        """Wait for a response, or until it can't be received anymore."""
+
+        response = asyncio.create_task(self.responses.get())
+        disabled = asyncio.create_task(self.disabled_event.wait())
+        try:
+            await asyncio.wait(
+                [response, disabled], return_when=asyncio.FIRST_COMPLETED
+            )
+            if not response.done():
+                raise ConnectionError("Disabled while awaiting a response.")
+            return response.result()
+        finally:
+            response.cancel()
+            disabled.cancel()
+
     async def request(
         self, request: RequestHeader, data: Optional[bytes] = None
     ) -> HttpResponse:
@@ -140,7 +156,7 @@ class HttpConnection(_TcpConnection):
             self._send(request, data)
             self.expecting_response = True
             try:
-                result = await self.responses.get()
+                result = await self._get_response()
 
             # The next request could receive the response to this one.
             except asyncio.CancelledError:
-- 
2.43.0


From b8cfd2da33a4b71a3951daa51514512876e84176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:39:43 +0000
Subject: [PATCH 71/72] fix: Channels of any kind can be looked up by their
 type

---
 runtimepy/channel/environment/create.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/runtimepy/channel/environment/create.py b/runtimepy/channel/environment/create.py
index e053863..40427ec 100644
--- a/runtimepy/channel/environment/create.py
+++ b/runtimepy/channel/environment/create.py
@@ -11,7 +11,9 @@ from typing import cast as _cast
 from vcorelib.namespace import Namespace as _Namespace
 
 # internal
+from runtimepy.channel import BoolChannel as _BoolChannel
 from runtimepy.channel import FloatChannel as _FloatChannel
+from runtimepy.channel import IntChannel as _IntChannel
 from runtimepy.channel.environment.base import (
     BaseChannelEnvironment as _BaseChannelEnvironment,
 )
@@ -78,6 +80,14 @@ class CreateChannelEnvironment(_BaseChannelEnvironment):
         if enum is not None:
             self.channel_enums[result] = self.enums[enum]
 
+        # Organize the channel by Python type.
+        if result.type.is_boolean:
+            self.bools.add(_cast(_BoolChannel, result))
+        elif result.type.is_integer:
+            self.ints.add(_cast(_IntChannel, result))
+        else:
+            self.floats.add(_cast(_FloatChannel, result))
+
         return self[name]
 
     def int_channel(
-- 
2.43.0


From b790e3baaa831627ae14016b296b2c7b227342b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:39:43 +0000
Subject: [PATCH 72/72] fix: list_adder adds to the end that's requested

---
 runtimepy/net/arbiter/config/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/runtimepy/net/arbiter/config/util.py b/runtimepy/net/arbiter/config/util.py
index 0c84173..b68cff6 100644
--- a/runtimepy/net/arbiter/config/util.py
+++ b/runtimepy/net/arbiter/config/util.py
@@ -16,9 +16,9 @@ def list_adder(dest: list[T], data: T, front: bool = True) -> None:
     """Handle adding to either the front or back of a list."""
 
     if front:
-        dest.append(data)
-    else:
         dest.insert(0, data)
+    else:
+        dest.append(data)
 
 
 def fix_kwargs(data: dict[str, _Any]) -> dict[str, _Any]:
-- 
2.43.0

