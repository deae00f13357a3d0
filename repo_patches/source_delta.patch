From 834ce7ce56c9c479555c22cbcfc7fc17a53c75d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:45 +0000
Subject: [PATCH 01/28] fix: keep a buffered request whose processing raises or
 is cancelled

---
 ekosis/requests/buffered_handler_base.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ekosis/requests/buffered_handler_base.py b/ekosis/requests/buffered_handler_base.py
index 6ec200f..2f8c38d 100644
--- a/ekosis/requests/buffered_handler_base.py
+++ b/ekosis/requests/buffered_handler_base.py
@@ -180,11 +180,12 @@ class BufferedRequestHandlerBase(Generic[_T], HandlerBase, ABC):
         while not self._processing_paused and await self.queue.has_pending():
             buffered_item = await self.queue.pop()
             span_key      = buffered_item.span_key
-            request_data  = self.request_dto_type(**buffered_item.data)
+            request_data  = buffered_item.data
             retries       = buffered_item.retries
             metadata      = buffered_item.metadata
             token         = _set_current_span_key(span_key)
             try:
+                request_data = self.request_dto_type(**buffered_item.data)
                 await BufferedMiddlewareManager().run_before_process(span_key, request_data, metadata, retries)
                 success = await self.process_buffered_request(span_key = span_key, dto = request_data)
                 await BufferedMiddlewareManager().run_after_process(span_key, request_data, metadata, success)
@@ -194,6 +195,12 @@ class BufferedRequestHandlerBase(Generic[_T], HandlerBase, ABC):
                         await self.queue.push_error(span_key, request_data, "Max retries reached.", metadata)
                     else:
                         await self.queue.push_pending(span_key, request_data, retries, metadata)
+            except Exception as e: # The message left the pending queue, so it has to end up somewhere.
+                self.log.exception(f"Buffered handler [{self._route_key}] failed to process [{span_key}].")
+                await self.queue.push_error(span_key, request_data, str(e), metadata)
+            except BaseException: # Cancelled: The attempt never finished, keep the message for the next run.
+                await self.queue.push_pending(span_key, request_data, retries, metadata)
+                raise
             finally:
                 _reset_current_span_key(token)
 
-- 
2.43.0


From 13f9fc5c4c423cdb78884aef9b3c99d56742e4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:45 +0000
Subject: [PATCH 02/28] fix: keep a buffered message whose sending is cancelled
 or fails validation

---
 ekosis/sending/buffered_sender_base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ekosis/sending/buffered_sender_base.py b/ekosis/sending/buffered_sender_base.py
index c6e5c84..aec5e2c 100644
--- a/ekosis/sending/buffered_sender_base.py
+++ b/ekosis/sending/buffered_sender_base.py
@@ -88,9 +88,10 @@ class BufferedSenderBase(Generic[_RequestDTOType, _ResponseDTOType], SenderBase[
         while not self._sending_paused and self.queue.pending_q.size():
             buffered_item = await self.queue.pop()
             span_key      = buffered_item.span_key
-            request_data  = self._request_dto_type(**buffered_item.data)
+            request_data  = buffered_item.data
             retries       = buffered_item.retries
             try:
+                request_data = self._request_dto_type(**buffered_item.data)
                 if self.wait_period > 0:
                     await asyncio.sleep(self.wait_period)
                 await self.send_data(request_data, span_key)
@@ -102,6 +103,9 @@ class BufferedSenderBase(Generic[_RequestDTOType, _ResponseDTOType], SenderBase[
                     await self.queue.push_pending(span_key, request_data, retries)
             except Exception as e : # Move it to the error queue
                 await self.queue.push_error(span_key, request_data, str(e))
+            except BaseException: # Cancelled: The attempt never finished, keep the message for the next run.
+                await self.queue.push_pending(span_key, request_data, retries)
+                raise
 
     # --------------------------------------------------------------------------------
     async def __process_send_queue(self) -> None:
-- 
2.43.0


From b217ad2a3e794ddcbc95be89ddbfbba254d8ce03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:45 +0000
Subject: [PATCH 03/28] fix: store a buffered request before acknowledging it

---
 ekosis/requests/buffered_handler_base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ekosis/requests/buffered_handler_base.py b/ekosis/requests/buffered_handler_base.py
index 2f8c38d..67d5a56 100644
--- a/ekosis/requests/buffered_handler_base.py
+++ b/ekosis/requests/buffered_handler_base.py
@@ -9,7 +9,6 @@ from .handler_base import HandlerBase
 from .request_context import _set_current_span_key, _reset_current_span_key
 from .status import Status
 
-from ..util.fire_and_forget_tasks import fire_and_forget_task
 from ..data_transfer_objects import BufferedEndpointResponseDTO, SpanKey
 from ..queues.pending_queue import PendingQueue
 from ..state_keepers.statistics_keeper import StatisticsKeeper
@@ -231,7 +230,9 @@ class BufferedRequestHandlerBase(Generic[_T], HandlerBase, ABC):
         if self._receiving_paused:
             raise BufferedRequestHandlerReceivingPausedException(self._route_key)
         metadata = await BufferedMiddlewareManager().collect_push_metadata(span_key, dto)
-        fire_and_forget_task(self.queue.push_pending(span_key, dto, 0, metadata))
+        if self._receiving_paused: # Receiving may have been paused while middleware was busy.
+            raise BufferedRequestHandlerReceivingPausedException(self._route_key)
+        await self.queue.push_pending(span_key, dto, 0, metadata)
         response = BufferedEndpointResponseDTO(span_key = span_key)
         self.__check_process_queue()
         return response
-- 
2.43.0


From 6a445296ae366944b1cf3d7c47da0136c66fe504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:16 +0000
Subject: [PATCH 04/28] fix: answer with the busy status while a buffered
 endpoint is paused

---
 ekosis/servers/server_base.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ekosis/servers/server_base.py b/ekosis/servers/server_base.py
index bd69610..72461d9 100644
--- a/ekosis/servers/server_base.py
+++ b/ekosis/servers/server_base.py
@@ -5,6 +5,7 @@ import timeit
 from pydantic import ValidationError
 
 from ..data_transfer_objects import RequestDTO, ResponseDTO, SpanKey
+from ..requests.buffered_handler_base import BufferedRequestHandlerExceptionBase
 from ..requests.request_router import RequestRouter, RoutingExceptionBase
 from ..requests.request_context import _set_current_span_key, _reset_current_span_key
 from ..requests.status import Status
@@ -69,6 +70,12 @@ class ServerBase:
                 status   = e.status,
                 data     = e.message
             )
+        except BufferedRequestHandlerExceptionBase as e:
+            return ResponseDTO(
+                span_key = span_key,
+                status   = e.status,
+                data     = str(e)
+            )
         except Exception as e:
             return ResponseDTO(
                 span_key = span_key,
-- 
2.43.0


From f337774b9ef85485c93e97b955234ed6d12ee9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:16 +0000
Subject: [PATCH 05/28] fix: keep the order of the back page when a queue is
 loaded

---
 ekosis/queues/paginated_queue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ekosis/queues/paginated_queue.py b/ekosis/queues/paginated_queue.py
index 0381fa3..5f691b1 100644
--- a/ekosis/queues/paginated_queue.py
+++ b/ekosis/queues/paginated_queue.py
@@ -182,7 +182,7 @@ class PaginatedQueue(Generic[_QueuedType]):
             order_by(desc(QueueRecord.record_id)).\
             limit(self.page_size).all()
 
-        for record in records:
+        for record in reversed(records): # Fetched newest first, the page is kept oldest first.
             self.back_page.push_with_str(str(record.object_string), SpanKey.from_bytes(record.span_key))
         ids_to_delete: List[int] = [int(x.record_id) for x in records]
         self.__delete_record_ids(ids_to_delete)
-- 
2.43.0


From 43004ee73d2ae2d790b9f10a5970f34157cd25e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:16 +0000
Subject: [PATCH 06/28] fix: find error queue entries whose data is empty

---
 ekosis/requests/buffered_handler_base.py | 6 +++---
 ekosis/sending/buffered_sender_base.py   | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/ekosis/requests/buffered_handler_base.py b/ekosis/requests/buffered_handler_base.py
index 67d5a56..1ca04a0 100644
--- a/ekosis/requests/buffered_handler_base.py
+++ b/ekosis/requests/buffered_handler_base.py
@@ -90,14 +90,14 @@ class BufferedRequestHandlerBase(Generic[_T], HandlerBase, ABC):
     # --------------------------------------------------------------------------------
     async def pop_request_from_error_queue(self, span_key: SpanKey) -> _T|None:
         buffered_request = await self.queue.pop_error_q_span_key(span_key)
-        if not buffered_request:
+        if buffered_request is None:
             return None
         return self.request_dto_type(**buffered_request)
 
     # --------------------------------------------------------------------------------
     async def inspect_request_in_error_queue(self, span_key: SpanKey) -> _T|None:
         buffered_request = await self.queue.inspect_error_q_span_key(span_key)
-        if not buffered_request:
+        if buffered_request is None:
             return None
         return self.request_dto_type(**buffered_request)
 
@@ -114,7 +114,7 @@ class BufferedRequestHandlerBase(Generic[_T], HandlerBase, ABC):
         buffered_request        = await self.queue.move_one_error_to_pending(span_key)
         self._processing_paused = False
         self.__check_process_queue()
-        if not buffered_request:
+        if buffered_request is None:
             return None
         return self.request_dto_type(**buffered_request)
 
diff --git a/ekosis/sending/buffered_sender_base.py b/ekosis/sending/buffered_sender_base.py
index aec5e2c..600a1df 100644
--- a/ekosis/sending/buffered_sender_base.py
+++ b/ekosis/sending/buffered_sender_base.py
@@ -146,14 +146,14 @@ class BufferedSenderBase(Generic[_RequestDTOType, _ResponseDTOType], SenderBase[
     # --------------------------------------------------------------------------------
     async def pop_request_from_error_queue(self, span_key: SpanKey):
         buffered_request = await self.queue.pop_error_q_span_key(span_key)
-        if not buffered_request:
+        if buffered_request is None:
             return None
         return self._request_dto_type(**buffered_request)
 
     # --------------------------------------------------------------------------------
     async def inspect_request_in_error_queue(self, span_key: SpanKey):
         buffered_request = await self.queue.inspect_error_q_span_key(span_key)
-        if not buffered_request:
+        if buffered_request is None:
             return None
         return self._request_dto_type(**buffered_request)
 
@@ -170,7 +170,7 @@ class BufferedSenderBase(Generic[_RequestDTOType, _ResponseDTOType], SenderBase[
         buffered_request     = await self.queue.move_one_error_to_pending(span_key)
         self._sending_paused = False
         self.__check_process_send_queue()
-        if not buffered_request:
+        if buffered_request is None:
             return None
         return self._request_dto_type(**buffered_request)
 
-- 
2.43.0


From 40e4180f595a6efe20972961d848b359f7370166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:45 +0000
Subject: [PATCH 07/28] fix: reprocessing error entries leaves an operator's
 pause in place

---
 ekosis/requests/buffered_handler_base.py | 6 ++++--
 ekosis/sending/buffered_sender_base.py   | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/ekosis/requests/buffered_handler_base.py b/ekosis/requests/buffered_handler_base.py
index 1ca04a0..6860c24 100644
--- a/ekosis/requests/buffered_handler_base.py
+++ b/ekosis/requests/buffered_handler_base.py
@@ -103,16 +103,18 @@ class BufferedRequestHandlerBase(Generic[_T], HandlerBase, ABC):
 
     # --------------------------------------------------------------------------------
     async def reprocess_error_queue(self):
+        was_paused = self._processing_paused
         self._processing_paused = True
         await self.queue.move_all_error_to_pending()
-        self._processing_paused = False
+        self._processing_paused = was_paused
         self.__check_process_queue()
 
     # --------------------------------------------------------------------------------
     async def reprocess_error_queue_span_key(self, span_key: SpanKey) -> _T|None:
+        was_paused              = self._processing_paused
         self._processing_paused = True
         buffered_request        = await self.queue.move_one_error_to_pending(span_key)
-        self._processing_paused = False
+        self._processing_paused = was_paused
         self.__check_process_queue()
         if buffered_request is None:
             return None
diff --git a/ekosis/sending/buffered_sender_base.py b/ekosis/sending/buffered_sender_base.py
index 600a1df..506df8a 100644
--- a/ekosis/sending/buffered_sender_base.py
+++ b/ekosis/sending/buffered_sender_base.py
@@ -159,16 +159,18 @@ class BufferedSenderBase(Generic[_RequestDTOType, _ResponseDTOType], SenderBase[
 
     # --------------------------------------------------------------------------------
     async def reprocess_error_queue(self):
+        was_paused = self._sending_paused
         self._sending_paused = True
         await self.queue.move_all_error_to_pending()
-        self._sending_paused = False
+        self._sending_paused = was_paused
         self.__check_process_send_queue()
 
     # --------------------------------------------------------------------------------
     async def reprocess_error_queue_span_key(self, span_key: SpanKey) -> _RequestDTOType|None:
+        was_paused           = self._sending_paused
         self._sending_paused = True
         buffered_request     = await self.queue.move_one_error_to_pending(span_key)
-        self._sending_paused = False
+        self._sending_paused = was_paused
         self.__check_process_send_queue()
         if buffered_request is None:
             return None
-- 
2.43.0


From 47e53cf300e651701d31b5e9aa337a646891b973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:00 +0000
Subject: [PATCH 08/28] fix: answer undecodable requests and close connections
 that can not be answered

---
 ekosis/servers/json/udp.py           |  5 ++---
 ekosis/servers/server_base.py        |  6 +++---
 ekosis/servers/stream_server_base.py | 16 ++++++++++++----
 3 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/ekosis/servers/json/udp.py b/ekosis/servers/json/udp.py
index 9e894f5..fb7a2c0 100644
--- a/ekosis/servers/json/udp.py
+++ b/ekosis/servers/json/udp.py
@@ -36,8 +36,7 @@ class DatagramProtocolServer(asyncio.DatagramProtocol):
             if bytes_read[0] == self.__ACK_byte: # The client wants to know we are here.
                 self.transport.sendto(self.__ACK_response, addr)
             else:
-                request_data: str = bytes_read.decode()
-                self.loop.create_task(self.do_response(request_data, addr))
+                self.loop.create_task(self.do_response(bytes_read, addr))
 
 # --------------------------------------------------------------------------------
 class UDPServer(ServerBase):
@@ -65,7 +64,7 @@ class UDPServer(ServerBase):
             self._logger.info(f"Stopping UDP server for {self.host}:{self.port}.")
 
     # --------------------------------------------------------------------------------
-    async def __process_received_data(self, received_data: str):
+    async def __process_received_data(self, received_data: bytes):
         response_dict = await self._route_request(received_data)
         return response_dict.model_dump_json()
 
diff --git a/ekosis/servers/server_base.py b/ekosis/servers/server_base.py
index 72461d9..f09b898 100644
--- a/ekosis/servers/server_base.py
+++ b/ekosis/servers/server_base.py
@@ -29,11 +29,11 @@ class ServerBase:
         return self._transport_type
 
     # --------------------------------------------------------------------------------
-    async def _route_request(self, request_text: str) -> ResponseDTO:
+    async def _route_request(self, request_bytes: bytes) -> ResponseDTO:
         span_key: SpanKey = None
         try:
             start_time   = timeit.default_timer()
-            request_dict = json.loads(request_text.strip())
+            request_dict = json.loads(request_bytes.decode().strip())
             protocol_dto = RequestDTO(**request_dict)
             span_key     = protocol_dto.span_key
             token        = _set_current_span_key(span_key)
@@ -52,7 +52,7 @@ class ServerBase:
                 )
             finally:
                 _reset_current_span_key(token)
-        except json.decoder.JSONDecodeError as e:
+        except (json.decoder.JSONDecodeError, UnicodeDecodeError) as e:
             return ResponseDTO(
                 span_key = span_key,
                 status   = Status.PROTOCOL_PARSING_ERROR.value,
diff --git a/ekosis/servers/stream_server_base.py b/ekosis/servers/stream_server_base.py
index 16f2f96..06e94df 100644
--- a/ekosis/servers/stream_server_base.py
+++ b/ekosis/servers/stream_server_base.py
@@ -20,8 +20,14 @@ class StreamServerBase(ServerBase):
     # TODO: Check client against white-list!
     # --------------------------------------------------------------------------------
     async def _handle_request(self, reader: asyncio.StreamReader, writer: asyncio.StreamWriter) -> None:
-        if not self._running:
-            return
+        try:
+            if self._running:
+                await self.__serve_connection(reader, writer)
+        finally:
+            writer.close()
+
+    # --------------------------------------------------------------------------------
+    async def __serve_connection(self, reader: asyncio.StreamReader, writer: asyncio.StreamWriter) -> None:
         while True: # We keep the connection open.
             try:
                 bytes_read = await reader.readline()
@@ -35,7 +41,7 @@ class StreamServerBase(ServerBase):
                 if bytes_read[0] == self.__ENQ_byte: # The client is asking if we are still connected.
                     await self.__write_data(writer, self.__ACK_response)
                 else:
-                    response_dict = await self._route_request(bytes_read.decode())
+                    response_dict = await self._route_request(bytes_read)
                     await self.__write_data(
                         writer,
                         (response_dict.model_dump_json() + '\n').encode()
@@ -43,4 +49,6 @@ class StreamServerBase(ServerBase):
             except ConnectionResetError:
                 self._logger.info("Connection reset by peer")
                 break
-        writer.close()
+            except Exception: # We can no longer answer on this connection. e.g. The line received is too long.
+                self._logger.exception("Closing connection.")
+                break
-- 
2.43.0


From d126e423d35873fb76a1e935c075b10e84f0055f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:00 +0000
Subject: [PATCH 09/28] fix: hold on to UDP response tasks until they are done

---
 ekosis/servers/json/udp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ekosis/servers/json/udp.py b/ekosis/servers/json/udp.py
index fb7a2c0..d2e3b54 100644
--- a/ekosis/servers/json/udp.py
+++ b/ekosis/servers/json/udp.py
@@ -4,6 +4,7 @@ import logging
 from ..server_base import ServerBase
 
 from ...configuration.config_models import ConfigUDP
+from ...util.fire_and_forget_tasks import fire_and_forget_task_for_loop
 
 log = logging.getLogger()
 
@@ -36,7 +37,7 @@ class DatagramProtocolServer(asyncio.DatagramProtocol):
             if bytes_read[0] == self.__ACK_byte: # The client wants to know we are here.
                 self.transport.sendto(self.__ACK_response, addr)
             else:
-                self.loop.create_task(self.do_response(bytes_read, addr))
+                fire_and_forget_task_for_loop(self.loop, self.do_response(bytes_read, addr))
 
 # --------------------------------------------------------------------------------
 class UDPServer(ServerBase):
-- 
2.43.0


From c02199cb2aad577393587207e1e0fe030f246182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:26 +0000
Subject: [PATCH 10/28] fix: never hand a persistent client's late response to
 another request

---
 .../clients/persistent_stream_client_base.py  | 76 ++++++++++---------
 1 file changed, 39 insertions(+), 37 deletions(-)

diff --git a/ekosis/clients/persistent_stream_client_base.py b/ekosis/clients/persistent_stream_client_base.py
index e5f0690..83025e4 100644
--- a/ekosis/clients/persistent_stream_client_base.py
+++ b/ekosis/clients/persistent_stream_client_base.py
@@ -34,8 +34,7 @@ class PersistentStreamClientBase(ClientBase, ABC):
         self.__heartbeat_time   : float                = heartbeat_period
         self.__connected        : bool                 = False
         self.__last_send        : float                = 0
-        self.__read_lock        : asyncio.Lock         = asyncio.Lock()
-        self.__write_lock       : asyncio.Lock         = asyncio.Lock()
+        self.__exchange_lock    : asyncio.Lock         = asyncio.Lock()
         self.__reader           : asyncio.StreamReader = None
         self.__writer           : asyncio.StreamWriter = None
         self.__heartbeat_task   : asyncio.Task         = None
@@ -56,35 +55,40 @@ class PersistentStreamClientBase(ClientBase, ABC):
             self.__reader, self.__writer = await self.open_connection()
             self.__connected = True
 
+    # --------------------------------------------------------------------------------
+    # Whatever still arrives on this connection belongs to a request we gave up on.
+    def __drop_connection(self):
+        self.__connected = False
+        if self.__writer is not None:
+            self.__writer.close()
+
     # --------------------------------------------------------------------------------
     async def __do_write(self, data: bytes):
-        async with self.__write_lock:
-            self.__writer.write(data)
+        self.__writer.write(data)
 
     # --------------------------------------------------------------------------------
     async def __do_read(self) -> bytes:
-        async with self.__read_lock:
-            return await asyncio.wait_for(self.__reader.readline(), self.__timeout) # There needs to be a timeout here.
+        return await asyncio.wait_for(self.__reader.readline(), self.__timeout) # There needs to be a timeout here.
 
     # --------------------------------------------------------------------------------
     async def __do_heartbeat(self):
-        try:
-            await self.__check_connected() # check if we did connect in the past
-        except ConnectionRefusedError as e:
-            return
-
-        await self.__do_write(self.__ENQ_request)
-
-        data = await self.__do_read()
-
-        if (
-            not data or
-            data[-1] != self.__LF_byte or
-            data[0]  != self.__ACK_byte
-        ):
-            self.__connected = False
-        else:
-            self.__last_send = time.time()
+        async with self.__exchange_lock:
+            try:
+                await self.__check_connected() # check if we did connect in the past
+                await self.__do_write(self.__ENQ_request)
+                data = await self.__do_read()
+                if (
+                    not data or
+                    data[-1] != self.__LF_byte or
+                    data[0]  != self.__ACK_byte
+                ):
+                    raise CommunicationsEmptyResponse()
+                self.__last_send = time.time()
+            except Exception:
+                self.__drop_connection()
+            except BaseException:
+                self.__drop_connection()
+                raise
 
     # --------------------------------------------------------------------------------
     async def __heartbeat_check(self):
@@ -102,17 +106,16 @@ class PersistentStreamClientBase(ClientBase, ABC):
 
     # --------------------------------------------------------------------------------
     async def _send_message(self, request: str) -> str:
-        try:
-            await self.__check_connected()
-        except ConnectionRefusedError as e:
-            raise e
-
-        await self.__do_write(request.encode())
-
-        data = await self.__do_read()
-        if not data or data[-1] != self.__LF_byte:
-            self.__connected = False
-            raise CommunicationsEmptyResponse()
+        async with self.__exchange_lock: # One request, and its response, at a time.
+            try:
+                await self.__check_connected()
+                await self.__do_write(request.encode())
+                data = await self.__do_read()
+                if not data or data[-1] != self.__LF_byte:
+                    raise CommunicationsEmptyResponse()
+            except BaseException:
+                self.__drop_connection()
+                raise
 
         self.__last_send = time.time()
         response_str = data.decode()
@@ -132,7 +135,7 @@ class PersistentStreamClientBase(ClientBase, ABC):
         await self.__check_heartbeat_task()
 
         retry_count = 0
-        while retry_count < self.max_retries and not self.success:
+        while retry_count < self.max_retries:
             try:
                 response_str = await self._send_message(request)
                 self.success = True
@@ -145,8 +148,7 @@ class PersistentStreamClientBase(ClientBase, ABC):
                 BrokenPipeError,        # So we have to re-connect.
                 CommunicationsEmptyResponse
             ):
-                self.__connected = False
-                await self.__check_connected()
                 retry_count = await self.__do_retry_logic(retry_count)
             except Exception as e:
                 raise CommunicationsNonRetryable(f"{type(e)}: {str(e)}")
+        raise CommunicationsMaxRetriesReached()
-- 
2.43.0


From 6546740078ffed7dda5a98734067a0bf976744b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:26 +0000
Subject: [PATCH 11/28] fix: never hand a UDP client's late response to another
 request

---
 ekosis/clients/datagram_client_base.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/ekosis/clients/datagram_client_base.py b/ekosis/clients/datagram_client_base.py
index ecc4e0b..9e5e9bc 100644
--- a/ekosis/clients/datagram_client_base.py
+++ b/ekosis/clients/datagram_client_base.py
@@ -58,16 +58,21 @@ class DatagramClientBase(ClientBase, asyncio.DatagramProtocol):
 
     # --------------------------------------------------------------------------------
     async def _send_message(self, message: str) -> str:
-        if not self.initialised:
-            self.loop            = asyncio.get_running_loop()
-            self.transport, self.protocol = await self.loop.create_datagram_endpoint(
-                lambda: DatagramProtocolClient(self.timeout),
-                remote_addr=(self.server_host, self.server_port)
-            )
-            self.initialised = True
-
         async with self.send_lock:
-            return await self.protocol.send_message(message)
+            if not self.initialised:
+                self.loop            = asyncio.get_running_loop()
+                self.transport, self.protocol = await self.loop.create_datagram_endpoint(
+                    lambda: DatagramProtocolClient(self.timeout),
+                    remote_addr=(self.server_host, self.server_port)
+                )
+                self.initialised = True
+
+            try:
+                return await self.protocol.send_message(message)
+            except BaseException: # A late response must not answer the next request.
+                self.initialised = False
+                self.transport.close()
+                raise
 
     # --------------------------------------------------------------------------------
     async def _send_message_retry_loop(self, request: str) -> str:
@@ -84,3 +89,4 @@ class DatagramClientBase(ClientBase, asyncio.DatagramProtocol):
                     await asyncio.sleep(self.retry_delay)
             except Exception as e:
                 raise CommunicationsNonRetryable(f"{type(e)}: {str(e)}")
+        raise CommunicationsMaxRetriesReached()
-- 
2.43.0


From 55b1099accf7dbfbb65754d2af4b92208cbe23cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:26 +0000
Subject: [PATCH 12/28] fix: close transient connections on failure and refuse
 truncated responses

---
 ekosis/clients/stream_client_base.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/ekosis/clients/stream_client_base.py b/ekosis/clients/stream_client_base.py
index f75c95f..94a9245 100644
--- a/ekosis/clients/stream_client_base.py
+++ b/ekosis/clients/stream_client_base.py
@@ -33,21 +33,23 @@ class StreamClientBase(ClientBase, ABC):
     # --------------------------------------------------------------------------------
     async def _send_message(self, request: str) -> str:
         reader, writer = await self.open_connection()
-        writer.write(request.encode())
+        try:
+            writer.write(request.encode())
 
-        data = await asyncio.wait_for(reader.readline(), self.__timeout)
-        if not data:
-            raise CommunicationsEmptyResponse()
+            data = await asyncio.wait_for(reader.readline(), self.__timeout)
+            if not data or not data.endswith(b'\n'): # The server went away before responding in full.
+                raise CommunicationsEmptyResponse()
 
-        response_str = data.decode()
-        writer.close()
+            response_str = data.decode()
+        finally:
+            writer.close()
         await writer.wait_closed()
         return response_str
 
     # --------------------------------------------------------------------------------
     async def _send_message_retry_loop(self, request: str) -> str:
         retry_count = 0
-        while retry_count < self.max_retries and not self.success:
+        while retry_count < self.max_retries:
             try:
                 response_str = await self._send_message(request)
                 self.success = True
@@ -66,3 +68,4 @@ class StreamClientBase(ClientBase, ABC):
                     await asyncio.sleep(self.retry_delay)
             except Exception as e:
                 raise CommunicationsNonRetryable(f"{type(e)}: {str(e)}")
+        raise CommunicationsMaxRetriesReached()
-- 
2.43.0


From 6ca48eb265030bdc0869f9f7e76dd0d1eadaf28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:26 +0000
Subject: [PATCH 13/28] fix: report a client-denied response as such

---
 ekosis/clients/client_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ekosis/clients/client_base.py b/ekosis/clients/client_base.py
index 1c19a28..756db62 100644
--- a/ekosis/clients/client_base.py
+++ b/ekosis/clients/client_base.py
@@ -42,7 +42,7 @@ class ClientBase(ABC):
             return ProtocolParsingException(str(request.data))
 
         if request.status == Status.CLIENT_DENIED.value:
-            return ClientDeniedException(str(request.data.json()))
+            return ClientDeniedException(str(request.data))
 
         if request.status == Status.PYDANTIC_VALIDATION_ERROR.value:
             return PydanticValidationException(str(request.data))
-- 
2.43.0


From b70fcc01061efc061e72b942d718cda5f896aca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:03 +0000
Subject: [PATCH 14/28] fix: a process of another user is a running process

---
 ekosis/application_base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ekosis/application_base.py b/ekosis/application_base.py
index 9ec61ce..3713501 100644
--- a/ekosis/application_base.py
+++ b/ekosis/application_base.py
@@ -132,6 +132,8 @@ class ApplicationBase(metaclass=SingletonType):
     def __process_id_check(process_id: int) -> bool:
         try:
             os.kill(process_id, 0)
+        except PermissionError: # It exists, it just isn't ours.
+            return True
         except OSError:
             return False
         return True
-- 
2.43.0


From 8aca16ef98cabfdfdc5e81f579d863a437eed657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:03 +0000
Subject: [PATCH 15/28] fix: read the options the buffered sender command line
 tool defines

---
 ekosis/cli/bsm.py | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/ekosis/cli/bsm.py b/ekosis/cli/bsm.py
index 1982925..8ff920b 100644
--- a/ekosis/cli/bsm.py
+++ b/ekosis/cli/bsm.py
@@ -25,16 +25,9 @@ command_line_args: argparse.Namespace = argument_parser.parse_args()
 
 # --------------------------------------------------------------------------------
 async def do_sender_action(client: ClientBase, route_key: str):
-    if (command_line_args.pause_receiving   or
-        command_line_args.pause_processing  or
-        command_line_args.unpause_receiving or
-        command_line_args.unpause_processing):
-        print_error(argument_parser, "Pause and UN-Pause for receiving and processing, is only for buffered endpoints!")
-
-    if command_line_args.data or not any_true_check([
-        command_line_args.data,
-        command_line_args.pause_all,
-        command_line_args.unpause_all,
+    if not any_true_check([
+        command_line_args.pause_sending,
+        command_line_args.unpause_sending,
         command_line_args.error_10,
         command_line_args.reprocess_all,
         command_line_args.clear,
@@ -45,10 +38,10 @@ async def do_sender_action(client: ClientBase, route_key: str):
         await EcoBufferedSenderDataSender(client).send(route_key)
         return
 
-    if command_line_args.pause_all:
+    if command_line_args.pause_sending:
         await EcoBufferedSenderSendProcessPauseSender(client).send(route_key)
         return
-    if command_line_args.unpause_all:
+    if command_line_args.unpause_sending:
         await EcoBufferedSenderSendProcessUnPauseSender(client).send(route_key)
         return
     if command_line_args.error_10:
-- 
2.43.0


From bf650350f36fd3152dbf5d36ef94494d1885e6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:03 +0000
Subject: [PATCH 16/28] fix: let run_soon pass on keyword arguments

---
 ekosis/util/fire_and_forget_tasks.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ekosis/util/fire_and_forget_tasks.py b/ekosis/util/fire_and_forget_tasks.py
index 87d26f3..7fc68ec 100644
--- a/ekosis/util/fire_and_forget_tasks.py
+++ b/ekosis/util/fire_and_forget_tasks.py
@@ -1,4 +1,5 @@
 import asyncio
+import functools
 
 FIRE_AND_FORGET_TASKS = set()
 
@@ -30,5 +31,5 @@ def run_soon(function):
 
     def wrapper(*args, **kwargs):
         loop = asyncio.get_running_loop()
-        loop.call_soon(called_task, loop, *args, **kwargs)
+        loop.call_soon(functools.partial(called_task, loop, *args, **kwargs))
     return wrapper
-- 
2.43.0


From 392a5e4514dae02e7c09482d947c0de93b589bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:03 +0000
Subject: [PATCH 17/28] fix: clearing a negative number of errors must not add
 errors

---
 ekosis/state_keepers/error_state_keeper.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ekosis/state_keepers/error_state_keeper.py b/ekosis/state_keepers/error_state_keeper.py
index 68eec26..9130f8a 100644
--- a/ekosis/state_keepers/error_state_keeper.py
+++ b/ekosis/state_keepers/error_state_keeper.py
@@ -24,6 +24,8 @@ class ErrorStateKeeper:
         self._error_count += 1
 
     def clear_some(self, how_many: int):
+        if how_many < 0: # Clearing never adds to the count.
+            return
         if self._error_count >= how_many:
             self._error_count = self._error_count - how_many
         else:
-- 
2.43.0


From f98456f6b27d8e1303106671b30f31a3b1188c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:03 +0000
Subject: [PATCH 18/28] fix: keep the LRU cache's ring intact while it grows

---
 ekosis/cacheing/lru_cache.py | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/ekosis/cacheing/lru_cache.py b/ekosis/cacheing/lru_cache.py
index 79dd70f..080e256 100644
--- a/ekosis/cacheing/lru_cache.py
+++ b/ekosis/cacheing/lru_cache.py
@@ -8,7 +8,6 @@ class LRUCache:
         self.max_size     : int                   = max_size
         self._cached_items: Dict[Any, LRUCachedItem] = {}
         self.head         : LRUCachedItem            = None
-        self.tail         : LRUCachedItem            = None
 
     # --------------------------------------------------------------------------------
     def __insert(self, key: Any, value: Any):
@@ -17,17 +16,13 @@ class LRUCache:
         new_node.key   = key
         new_node.value = value
         if self.head is None:
-            self.head = new_node
-            self.tail = new_node
+            new_node.previous = new_node
+            new_node.next     = new_node
         else:
-            new_node.previous = self.tail
-            new_node.next     = self.head
-            if self.tail is self.head:
-                self.head.previous = new_node
-                self.head.next     = new_node
-            else:
-                self.tail.next     = new_node
-                self.head.previous = new_node
+            new_node.previous       = self.head.previous
+            new_node.next           = self.head
+            self.head.previous.next = new_node
+            self.head.previous      = new_node
         self._cached_items[key] = new_node
         return new_node
 
@@ -159,7 +154,8 @@ class LRUCache:
             self.__list_move_to_front(cached_item)
             return
 
-        if len(self._cached_items) < self.max_size:
+        has_empty_node = self.head is not None and self.head.previous.empty
+        if len(self._cached_items) < self.max_size and not has_empty_node:
             cached_item = self.__insert(key, value)
             self.head   = cached_item
         else:
-- 
2.43.0


From 2bc0c516ee3daaf21b64c5b3e54c66bea12f15de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:50 +0000
Subject: [PATCH 19/28] fix: apply the configured log level

---
 ekosis/logs/logger.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ekosis/logs/logger.py b/ekosis/logs/logger.py
index eac2150..3f684d1 100644
--- a/ekosis/logs/logger.py
+++ b/ekosis/logs/logger.py
@@ -88,6 +88,7 @@ class EcoLogger(metaclass=SingletonType):
             self.__setup_console_logging()
 
         self.__logger.setLevel(self.__level)
+        self.set_level(self.__log_config.level)
         # This switches asyncio logging to level WARNING
         # logging.getLogger('asyncio').setLevel(logging.WARNING)
 
-- 
2.43.0


From dc2376018e1a1aaf61bfc3cd6edf5c4f7a29beef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:41 +0000
Subject: [PATCH 20/28] fix: buffered log records keep the span of the request
 that logged them

---
 ekosis/logs/buffered_rotating_file_handler.py | 7 +++++++
 ekosis/logs/otlp_formatter.py                 | 2 +-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/ekosis/logs/buffered_rotating_file_handler.py b/ekosis/logs/buffered_rotating_file_handler.py
index c9073ef..5978b3c 100644
--- a/ekosis/logs/buffered_rotating_file_handler.py
+++ b/ekosis/logs/buffered_rotating_file_handler.py
@@ -1,5 +1,7 @@
 from logging.handlers import RotatingFileHandler, BufferingHandler
 
+from ..requests.request_context import _get_current_span_key
+
 # --------------------------------------------------------------------------------
 class BufferedRotatingFileHandler(BufferingHandler):
     def __init__(
@@ -30,6 +32,11 @@ class BufferedRotatingFileHandler(BufferingHandler):
     def setFormatter(self, formatter):
         self.rotating_file_handler.setFormatter(formatter)
 
+    def emit(self, record):
+        # Formatting happens on flush, that may be while some other request is being handled.
+        record.span_key = _get_current_span_key()
+        super().emit(record)
+
     def flush(self):
         for record in self.buffer:
             self.rotating_file_handler.emit(record)
diff --git a/ekosis/logs/otlp_formatter.py b/ekosis/logs/otlp_formatter.py
index dea5e83..060a545 100644
--- a/ekosis/logs/otlp_formatter.py
+++ b/ekosis/logs/otlp_formatter.py
@@ -9,7 +9,7 @@ from ..requests.request_context import _get_current_span_key
 class OtlpFormatter(logging.Formatter):
     def format(self, record: logging.LogRecord) -> str:
         severity_number, severity_text = severity_for_levelno(record.levelno)
-        span_key                       = _get_current_span_key()
+        span_key                       = record.span_key if hasattr(record, "span_key") else _get_current_span_key()
         app_config                     = AppConfiguration()
 
         log_record = OtlpLogRecord(
-- 
2.43.0


From 482221c8fcec27863e04a01dd75468a915e6f202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:08 +0000
Subject: [PATCH 21/28] fix: a log file that can not be opened must not stop
 the log shipper

---
 ekosis_log_shipper/src/main.cpp         | 11 ++++++++---
 ekosis_log_shipper/src/tracked_file.cpp |  6 +++++-
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/ekosis_log_shipper/src/main.cpp b/ekosis_log_shipper/src/main.cpp
index 6d0b7bd..2654e45 100644
--- a/ekosis_log_shipper/src/main.cpp
+++ b/ekosis_log_shipper/src/main.cpp
@@ -69,9 +69,14 @@ int main(int argc, char** argv) {
         }
         auto         resume = state_store.load(path);
         WatchedFile  wf;
-        wf.tracked = resume
-            ? std::make_unique<TrackedFile>(path, resume->inode, resume->offset)
-            : std::make_unique<TrackedFile>(path);
+        try {
+            wf.tracked = resume
+                ? std::make_unique<TrackedFile>(path, resume->inode, resume->offset)
+                : std::make_unique<TrackedFile>(path);
+        } catch (const std::runtime_error& e) {
+            std::cerr << "ekosis_log_shipper: " << e.what() << ", will retry\n";
+            return;
+        }
         watched.emplace(path, std::move(wf));
         std::cout << "ekosis_log_shipper: watching " << path << "\n";
     };
diff --git a/ekosis_log_shipper/src/tracked_file.cpp b/ekosis_log_shipper/src/tracked_file.cpp
index 2908b23..fdeda5d 100644
--- a/ekosis_log_shipper/src/tracked_file.cpp
+++ b/ekosis_log_shipper/src/tracked_file.cpp
@@ -91,7 +91,11 @@ std::vector<std::string> TrackedFile::poll() {
         read_available_lines(lines);
         ::close(_fd);
         _fd = -1;
-        open_at_path(0);
+        try {
+            open_at_path(0);
+        } catch (const std::runtime_error&) {
+            return lines; // gone again, or not readable yet -- keep what was drained, the next poll tries again
+        }
     }
 
     read_available_lines(lines);
-- 
2.43.0


From e3ac37c85164de3170f6b5dc0e62d8751d6590cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:18 +0000
Subject: [PATCH 22/28] fix: a line that is not a log record must not stop the
 log shipper

---
 ekosis_log_shipper/src/main.cpp          |  1 +
 ekosis_log_shipper/src/otlp_envelope.cpp | 11 +++++++++++
 ekosis_log_shipper/src/otlp_envelope.hpp |  4 ++++
 3 files changed, 16 insertions(+)

diff --git a/ekosis_log_shipper/src/main.cpp b/ekosis_log_shipper/src/main.cpp
index 2654e45..d526cc9 100644
--- a/ekosis_log_shipper/src/main.cpp
+++ b/ekosis_log_shipper/src/main.cpp
@@ -107,6 +107,7 @@ int main(int argc, char** argv) {
         for (auto& [path, wf] : watched) {
             if (wf.undelivered.empty()) {
                 wf.undelivered = wf.tracked->poll();
+                std::erase_if(wf.undelivered, [](const std::string& line) { return !is_log_record(line); });
             }
             if (wf.undelivered.empty()) {
                 continue;
diff --git a/ekosis_log_shipper/src/otlp_envelope.cpp b/ekosis_log_shipper/src/otlp_envelope.cpp
index ad5b0f0..4e7b3cd 100644
--- a/ekosis_log_shipper/src/otlp_envelope.cpp
+++ b/ekosis_log_shipper/src/otlp_envelope.cpp
@@ -88,6 +88,17 @@ ResourceInfo extract_resource_info(const std::string& json_line) {
     return info;
 }
 
+// --------------------------------------------------------------------------------
+bool is_log_record(const std::string& json_line) {
+    try {
+        extract_resource_info(json_line);
+        convert_one_record(json::parse(json_line));
+        return true;
+    } catch (const json::exception&) {
+        return false;
+    }
+}
+
 // --------------------------------------------------------------------------------
 std::string build_otlp_logs_payload(const std::vector<std::string>& json_lines, const ResourceInfo& resource) {
     json log_records = json::array();
diff --git a/ekosis_log_shipper/src/otlp_envelope.hpp b/ekosis_log_shipper/src/otlp_envelope.hpp
index 7d9db8a..6744596 100644
--- a/ekosis_log_shipper/src/otlp_envelope.hpp
+++ b/ekosis_log_shipper/src/otlp_envelope.hpp
@@ -17,6 +17,10 @@ struct ResourceInfo {
 // rather than parsing it out of the filename.
 ResourceInfo extract_resource_info(const std::string& json_line);
 
+// False for a line that is not an OtlpLogRecord. Such a line can never be
+// shipped, and must not hold up the lines that can.
+bool is_log_record(const std::string& json_line);
+
 // Wraps raw OtlpLogRecord JSON lines (one per ekosis log line) into one
 // OTLP/HTTP+JSON logs export payload: resourceLogs -> scopeLogs ->
 // logRecords. Mechanical, fixed shape -- no branching on log content.
-- 
2.43.0


From c38cd6c49fa5ddc7932c07c70b00b93235591a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:18 +0000
Subject: [PATCH 23/28] fix: discover services on a default UDS socket

---
 ekosis_prometheus/ekosis_prometheus/service_discovery.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ekosis_prometheus/ekosis_prometheus/service_discovery.py b/ekosis_prometheus/ekosis_prometheus/service_discovery.py
index 92a7172..790f377 100644
--- a/ekosis_prometheus/ekosis_prometheus/service_discovery.py
+++ b/ekosis_prometheus/ekosis_prometheus/service_discovery.py
@@ -59,6 +59,8 @@ def discover_local_services() -> List[DiscoveredService]:
             name, instance = _parse_name_instance(raw_name)
 
             if protocol == "UDS":
+                if os.path.basename(value) == "DEFAULT": # The application picks the socket file name.
+                    value = f"{os.path.dirname(value)}/{name}_{instance}.uds.sock"
                 services.append(DiscoveredService(
                     name     = name,
                     instance = instance,
-- 
2.43.0


From aa119d6c1e90bd213bb79f8569d36396f46d11ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:42:23 +0000
Subject: [PATCH 24/28] fix: a buffer that fails to shut down must not keep the
 others from being written

---
 ekosis/application_base.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/ekosis/application_base.py b/ekosis/application_base.py
index 3713501..6a8e379 100644
--- a/ekosis/application_base.py
+++ b/ekosis/application_base.py
@@ -208,14 +208,19 @@ class ApplicationBase(metaclass=SingletonType):
     # --------------------------------------------------------------------------------
     def __shut_down_buffered_handlers(self):
         for buffered_handler in self.__request_router.get_buffered_handlers():
-            buffered_handler.shut_down()
+            try:
+                buffered_handler.shut_down()
+            except Exception: # The others still have to be written to disk.
+                self.logger.exception(f"Buffered handler [{buffered_handler.get_route_key()}] failed to shut down.")
 
     # --------------------------------------------------------------------------------
-    @staticmethod
-    def __shut_down_buffered_senders():
+    def __shut_down_buffered_senders(self):
         buffered_sender_keeper = BufferedSenderKeeper()
         for buffered_sender in buffered_sender_keeper.get_buffered_senders():
-            buffered_sender.shut_down()
+            try:
+                buffered_sender.shut_down()
+            except Exception: # The others still have to be written to disk.
+                self.logger.exception(f"Buffered sender [{buffered_sender.get_route_key()}] failed to shut down.")
 
     # --------------------------------------------------------------------------------
     def start(self):
-- 
2.43.0


From c4ac69e68907ecec28437e8aec9bb8466e6bb518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:01 +0000
Subject: [PATCH 25/28] fix: reject span ids that are not sixteen hexadecimal
 digits

int(text, 16) also accepts a sign, blanks, underscores and 0x, which gave
span ids that are negative (and fail later) or equal to another key.
---
 ekosis/data_transfer_objects/span_id.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ekosis/data_transfer_objects/span_id.py b/ekosis/data_transfer_objects/span_id.py
index dfe914b..6139cab 100644
--- a/ekosis/data_transfer_objects/span_id.py
+++ b/ekosis/data_transfer_objects/span_id.py
@@ -1,4 +1,5 @@
 import os
+import string
 
 from pydantic_core import core_schema
 
@@ -20,7 +21,7 @@ class SpanId:
             int_ = int.from_bytes(bytes_, 'big')  # big endian
 
         if hex_ is not None:
-            if len(hex_) != 16:
+            if len(hex_) != 16 or not set(hex_) <= set(string.hexdigits): # int() also accepts signs, blanks, underscores and 0x
                 raise ValueError('badly formed hexadecimal SpanId string')
             int_ = int(hex_, 16)
 
-- 
2.43.0


From 8823e677c80c59d364e9bba243ed7d840b453a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:45 +0000
Subject: [PATCH 26/28] fix: log shipper resumes at the stored offset only in
 the file it opened

---
 ekosis_log_shipper/src/tracked_file.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/ekosis_log_shipper/src/tracked_file.cpp b/ekosis_log_shipper/src/tracked_file.cpp
index fdeda5d..9517829 100644
--- a/ekosis_log_shipper/src/tracked_file.cpp
+++ b/ekosis_log_shipper/src/tracked_file.cpp
@@ -16,11 +16,10 @@ TrackedFile::TrackedFile(std::string path)
 TrackedFile::TrackedFile(std::string path, uint64_t resume_inode, uint64_t resume_offset)
     : _path(std::move(path))
 {
-    struct stat path_stat{};
-    if (::stat(_path.c_str(), &path_stat) == 0 && static_cast<uint64_t>(path_stat.st_ino) == resume_inode) {
-        open_at_path(resume_offset); // same file we left off on -- resume exactly where we stopped
-    } else {
-        open_at_path(0); // rotated while we were away -- start the current file from the top
+    open_at_path(0); // rotated while we were away -- start the current file from the top
+    if (_inode == resume_inode) { // judged on the file that was opened, the path can be rotated at any moment
+        ::lseek(_fd, static_cast<off_t>(resume_offset), SEEK_SET);
+        _offset = resume_offset; // same file we left off on -- resume exactly where we stopped
     }
 }
 
-- 
2.43.0


From c7eefd50212bc3f1bccf877ce2f39432c542a3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:22 +0000
Subject: [PATCH 27/28] fix: a lock file that was cut short kept the
 application from starting

A process that dies between opening its lock file and writing its process id
leaves an empty file. Such a file names no process, so it is stale.
---
 ekosis/application_base.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/ekosis/application_base.py b/ekosis/application_base.py
index 6a8e379..2b4e68d 100644
--- a/ekosis/application_base.py
+++ b/ekosis/application_base.py
@@ -138,6 +138,15 @@ class ApplicationBase(metaclass=SingletonType):
             return False
         return True
 
+    # --------------------------------------------------------------------------------
+    @staticmethod
+    def __read_process_id(lock_file_path: str) -> int | None:
+        with open(lock_file_path, "r") as lock_file:
+            try:
+                return int(lock_file.readline())
+            except ValueError: # The process that created it died before it wrote its id.
+                return None
+
     # --------------------------------------------------------------------------------
     @staticmethod
     def __create_lock_file(lock_file_path: str):
@@ -150,9 +159,8 @@ class ApplicationBase(metaclass=SingletonType):
         lock_file_name  = f"{self._configuration.name}-{self._configuration.instance}.lock"
         lock_file_path  = f"{self._configuration.lock_directory}/{lock_file_name}"
         if os.path.exists(lock_file_path):
-            with open(lock_file_path, "r") as lock_file:
-                process_id = int(lock_file.readline())
-            if self.__process_id_check(process_id):
+            process_id = self.__read_process_id(lock_file_path)
+            if process_id is not None and self.__process_id_check(process_id):
                 raise InstanceAlreadyRunningException(self._configuration.name, self._configuration.instance, process_id)
             os.remove(lock_file_path)
         self.__create_lock_file(lock_file_path)
-- 
2.43.0


From 1130a8b7a3bd2f974f2f5741550da18c18a1ef55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:27 +0000
Subject: [PATCH 28/28] fix: flush of the log buffer holds the handler's lock,
 so that records of other threads are not lost

---
 ekosis/logs/buffered_rotating_file_handler.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ekosis/logs/buffered_rotating_file_handler.py b/ekosis/logs/buffered_rotating_file_handler.py
index 5978b3c..06c374d 100644
--- a/ekosis/logs/buffered_rotating_file_handler.py
+++ b/ekosis/logs/buffered_rotating_file_handler.py
@@ -38,9 +38,13 @@ class BufferedRotatingFileHandler(BufferingHandler):
         super().emit(record)
 
     def flush(self):
-        for record in self.buffer:
-            self.rotating_file_handler.emit(record)
-        self.buffer = []
+        self.acquire()
+        try:
+            for record in self.buffer:
+                self.rotating_file_handler.emit(record)
+            self.buffer = []
+        finally:
+            self.release()
 
     def close(self): # pragma: no cover
         self.rotating_file_handler.close()
-- 
2.43.0

