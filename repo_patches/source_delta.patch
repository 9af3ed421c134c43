From 9ce72db242364af4b33b060a6e2a3897dda08e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:10 +0000
Subject: [PATCH 01/60] fix: list error span keys across front page, database
 and back page

PaginatedQueue.get_first_x_span_keys only looked at the front page, so
get_first_10 left out entries that live in the database or the back page.
---
 ekosis/queues/paginated_queue.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/ekosis/queues/paginated_queue.py b/ekosis/queues/paginated_queue.py
index 0381fa3..a06e97a 100644
--- a/ekosis/queues/paginated_queue.py
+++ b/ekosis/queues/paginated_queue.py
@@ -315,13 +315,21 @@ class PaginatedQueue(Generic[_QueuedType]):
     def is_empty(self) -> int:
         return self.size() == 0
 
-    # TODO: There is a bug with this:
-    #   - When there are fewer then the requested amount of items in the queue.
-    #   - It is currently possible for entries to be spread between front page, database
-    #   - and back page. And this only reports on what is in the front page.
     # --------------------------------------------------------------------------------
     async def get_first_x_span_keys(self, how_many: int = 1) -> List[str]:
-        return self.front_page.get_first_x_span_keys(how_many)
+        retval = self.front_page.get_first_x_span_keys(how_many)
+
+        if len(retval) < how_many:
+            records = self.session.\
+                query(QueueRecord).\
+                order_by(asc(QueueRecord.record_id)).\
+                limit(how_many - len(retval)).all()
+            retval += [str(SpanKey.from_bytes(record.span_key)) for record in records]
+
+        if len(retval) < how_many and self.back_page is not self.front_page:
+            retval += self.back_page.get_first_x_span_keys(how_many - len(retval))
+
+        return retval
 
     # --------------------------------------------------------------------------------
     async def clear(self):
-- 
2.43.0


From 8f8fced7d56a63f79c3d39785dcc5386fdddfc83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:10 +0000
Subject: [PATCH 02/60] fix: keep FIFO order of the back page when a queue is
 re-opened

__load_back_page selects the newest records first and appended them in that
order, reversing the last page of a queue on every restart.
---
 ekosis/queues/paginated_queue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ekosis/queues/paginated_queue.py b/ekosis/queues/paginated_queue.py
index a06e97a..897edfb 100644
--- a/ekosis/queues/paginated_queue.py
+++ b/ekosis/queues/paginated_queue.py
@@ -182,7 +182,7 @@ class PaginatedQueue(Generic[_QueuedType]):
             order_by(desc(QueueRecord.record_id)).\
             limit(self.page_size).all()
 
-        for record in records:
+        for record in reversed(records): # Newest was selected first, the page needs oldest first.
             self.back_page.push_with_str(str(record.object_string), SpanKey.from_bytes(record.span_key))
         ids_to_delete: List[int] = [int(x.record_id) for x in records]
         self.__delete_record_ids(ids_to_delete)
-- 
2.43.0


From 55b3bf636b9f6fc3d788291ca5afd5a0944a2818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:42 +0000
Subject: [PATCH 03/60] fix: queue a buffered request before it is acknowledged

---
 ekosis/requests/buffered_handler_base.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ekosis/requests/buffered_handler_base.py b/ekosis/requests/buffered_handler_base.py
index 6ec200f..8f259fb 100644
--- a/ekosis/requests/buffered_handler_base.py
+++ b/ekosis/requests/buffered_handler_base.py
@@ -9,7 +9,6 @@ from .handler_base import HandlerBase
 from .request_context import _set_current_span_key, _reset_current_span_key
 from .status import Status
 
-from ..util.fire_and_forget_tasks import fire_and_forget_task
 from ..data_transfer_objects import BufferedEndpointResponseDTO, SpanKey
 from ..queues.pending_queue import PendingQueue
 from ..state_keepers.statistics_keeper import StatisticsKeeper
@@ -224,7 +223,7 @@ class BufferedRequestHandlerBase(Generic[_T], HandlerBase, ABC):
         if self._receiving_paused:
             raise BufferedRequestHandlerReceivingPausedException(self._route_key)
         metadata = await BufferedMiddlewareManager().collect_push_metadata(span_key, dto)
-        fire_and_forget_task(self.queue.push_pending(span_key, dto, 0, metadata))
+        await self.queue.push_pending(span_key, dto, 0, metadata)
         response = BufferedEndpointResponseDTO(span_key = span_key)
         self.__check_process_queue()
         return response
-- 
2.43.0


From 03b097fef3f28fd9d1f7de9cf4426c1e9dab223f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:42 +0000
Subject: [PATCH 04/60] fix: move a buffered request to the error queue when
 its handler raises

---
 ekosis/requests/buffered_handler_base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ekosis/requests/buffered_handler_base.py b/ekosis/requests/buffered_handler_base.py
index 8f259fb..9dcb0c2 100644
--- a/ekosis/requests/buffered_handler_base.py
+++ b/ekosis/requests/buffered_handler_base.py
@@ -179,11 +179,11 @@ class BufferedRequestHandlerBase(Generic[_T], HandlerBase, ABC):
         while not self._processing_paused and await self.queue.has_pending():
             buffered_item = await self.queue.pop()
             span_key      = buffered_item.span_key
-            request_data  = self.request_dto_type(**buffered_item.data)
             retries       = buffered_item.retries
             metadata      = buffered_item.metadata
             token         = _set_current_span_key(span_key)
             try:
+                request_data = self.request_dto_type(**buffered_item.data)
                 await BufferedMiddlewareManager().run_before_process(span_key, request_data, metadata, retries)
                 success = await self.process_buffered_request(span_key = span_key, dto = request_data)
                 await BufferedMiddlewareManager().run_after_process(span_key, request_data, metadata, success)
@@ -193,6 +193,9 @@ class BufferedRequestHandlerBase(Generic[_T], HandlerBase, ABC):
                         await self.queue.push_error(span_key, request_data, "Max retries reached.", metadata)
                     else:
                         await self.queue.push_pending(span_key, request_data, retries, metadata)
+            except Exception as e: # One bad request may not be lost, nor stop the ones behind it.
+                self.log.exception(f"Buffered handler [{self.get_route_key()}] failed on [{span_key}].")
+                await self.queue.push_error(span_key, buffered_item.data, str(e), metadata)
             finally:
                 _reset_current_span_key(token)
 
-- 
2.43.0


From e5c622aec975388b3bd1b455ac6e5e4889ed15ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:42 +0000
Subject: [PATCH 05/60] fix: keep the in-flight item when a buffered handler or
 sender is cancelled

---
 ekosis/requests/buffered_handler_base.py | 3 +++
 ekosis/sending/buffered_sender_base.py   | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/ekosis/requests/buffered_handler_base.py b/ekosis/requests/buffered_handler_base.py
index 9dcb0c2..e45b064 100644
--- a/ekosis/requests/buffered_handler_base.py
+++ b/ekosis/requests/buffered_handler_base.py
@@ -193,6 +193,9 @@ class BufferedRequestHandlerBase(Generic[_T], HandlerBase, ABC):
                         await self.queue.push_error(span_key, request_data, "Max retries reached.", metadata)
                     else:
                         await self.queue.push_pending(span_key, request_data, retries, metadata)
+            except asyncio.CancelledError: # Shutting down, keep what was not finished.
+                await self.queue.push_pending(span_key, buffered_item.data, retries, metadata)
+                raise
             except Exception as e: # One bad request may not be lost, nor stop the ones behind it.
                 self.log.exception(f"Buffered handler [{self.get_route_key()}] failed on [{span_key}].")
                 await self.queue.push_error(span_key, buffered_item.data, str(e), metadata)
diff --git a/ekosis/sending/buffered_sender_base.py b/ekosis/sending/buffered_sender_base.py
index c6e5c84..8169c4f 100644
--- a/ekosis/sending/buffered_sender_base.py
+++ b/ekosis/sending/buffered_sender_base.py
@@ -100,6 +100,9 @@ class BufferedSenderBase(Generic[_RequestDTOType, _ResponseDTOType], SenderBase[
                     await self.queue.push_error(span_key, request_data, "Max retries reached.")
                 else:
                     await self.queue.push_pending(span_key, request_data, retries)
+            except asyncio.CancelledError: # Shutting down, keep what was not sent.
+                await self.queue.push_pending(span_key, request_data, retries)
+                raise
             except Exception as e : # Move it to the error queue
                 await self.queue.push_error(span_key, request_data, str(e))
 
-- 
2.43.0


From b5232d4164c1236838e5edc33dea2857d0547506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:42 +0000
Subject: [PATCH 06/60] fix: reprocessing errors leaves the pause state as it
 was

---
 ekosis/requests/buffered_handler_base.py | 6 ++++--
 ekosis/sending/buffered_sender_base.py   | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/ekosis/requests/buffered_handler_base.py b/ekosis/requests/buffered_handler_base.py
index e45b064..95f722d 100644
--- a/ekosis/requests/buffered_handler_base.py
+++ b/ekosis/requests/buffered_handler_base.py
@@ -103,16 +103,18 @@ class BufferedRequestHandlerBase(Generic[_T], HandlerBase, ABC):
 
     # --------------------------------------------------------------------------------
     async def reprocess_error_queue(self):
+        was_paused = self._processing_paused
         self._processing_paused = True
         await self.queue.move_all_error_to_pending()
-        self._processing_paused = False
+        self._processing_paused = was_paused
         self.__check_process_queue()
 
     # --------------------------------------------------------------------------------
     async def reprocess_error_queue_span_key(self, span_key: SpanKey) -> _T|None:
+        was_paused              = self._processing_paused
         self._processing_paused = True
         buffered_request        = await self.queue.move_one_error_to_pending(span_key)
-        self._processing_paused = False
+        self._processing_paused = was_paused
         self.__check_process_queue()
         if not buffered_request:
             return None
diff --git a/ekosis/sending/buffered_sender_base.py b/ekosis/sending/buffered_sender_base.py
index 8169c4f..3538ec7 100644
--- a/ekosis/sending/buffered_sender_base.py
+++ b/ekosis/sending/buffered_sender_base.py
@@ -158,16 +158,18 @@ class BufferedSenderBase(Generic[_RequestDTOType, _ResponseDTOType], SenderBase[
 
     # --------------------------------------------------------------------------------
     async def reprocess_error_queue(self):
+        was_paused = self._sending_paused
         self._sending_paused = True
         await self.queue.move_all_error_to_pending()
-        self._sending_paused = False
+        self._sending_paused = was_paused
         self.__check_process_send_queue()
 
     # --------------------------------------------------------------------------------
     async def reprocess_error_queue_span_key(self, span_key: SpanKey) -> _RequestDTOType|None:
+        was_paused           = self._sending_paused
         self._sending_paused = True
         buffered_request     = await self.queue.move_one_error_to_pending(span_key)
-        self._sending_paused = False
+        self._sending_paused = was_paused
         self.__check_process_send_queue()
         if not buffered_request:
             return None
-- 
2.43.0


From 3048a54951503de023f9feacc70f8fa7a3fe1de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:42 +0000
Subject: [PATCH 07/60] fix: error queue entries without fields can be popped,
 inspected and reprocessed

---
 ekosis/requests/buffered_handler_base.py | 6 +++---
 ekosis/sending/buffered_sender_base.py   | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/ekosis/requests/buffered_handler_base.py b/ekosis/requests/buffered_handler_base.py
index 95f722d..37d8fb7 100644
--- a/ekosis/requests/buffered_handler_base.py
+++ b/ekosis/requests/buffered_handler_base.py
@@ -90,14 +90,14 @@ class BufferedRequestHandlerBase(Generic[_T], HandlerBase, ABC):
     # --------------------------------------------------------------------------------
     async def pop_request_from_error_queue(self, span_key: SpanKey) -> _T|None:
         buffered_request = await self.queue.pop_error_q_span_key(span_key)
-        if not buffered_request:
+        if buffered_request is None:
             return None
         return self.request_dto_type(**buffered_request)
 
     # --------------------------------------------------------------------------------
     async def inspect_request_in_error_queue(self, span_key: SpanKey) -> _T|None:
         buffered_request = await self.queue.inspect_error_q_span_key(span_key)
-        if not buffered_request:
+        if buffered_request is None:
             return None
         return self.request_dto_type(**buffered_request)
 
@@ -116,7 +116,7 @@ class BufferedRequestHandlerBase(Generic[_T], HandlerBase, ABC):
         buffered_request        = await self.queue.move_one_error_to_pending(span_key)
         self._processing_paused = was_paused
         self.__check_process_queue()
-        if not buffered_request:
+        if buffered_request is None:
             return None
         return self.request_dto_type(**buffered_request)
 
diff --git a/ekosis/sending/buffered_sender_base.py b/ekosis/sending/buffered_sender_base.py
index 3538ec7..7798ecb 100644
--- a/ekosis/sending/buffered_sender_base.py
+++ b/ekosis/sending/buffered_sender_base.py
@@ -145,14 +145,14 @@ class BufferedSenderBase(Generic[_RequestDTOType, _ResponseDTOType], SenderBase[
     # --------------------------------------------------------------------------------
     async def pop_request_from_error_queue(self, span_key: SpanKey):
         buffered_request = await self.queue.pop_error_q_span_key(span_key)
-        if not buffered_request:
+        if buffered_request is None:
             return None
         return self._request_dto_type(**buffered_request)
 
     # --------------------------------------------------------------------------------
     async def inspect_request_in_error_queue(self, span_key: SpanKey):
         buffered_request = await self.queue.inspect_error_q_span_key(span_key)
-        if not buffered_request:
+        if buffered_request is None:
             return None
         return self._request_dto_type(**buffered_request)
 
@@ -171,7 +171,7 @@ class BufferedSenderBase(Generic[_RequestDTOType, _ResponseDTOType], SenderBase[
         buffered_request     = await self.queue.move_one_error_to_pending(span_key)
         self._sending_paused = was_paused
         self.__check_process_send_queue()
-        if not buffered_request:
+        if buffered_request is None:
             return None
         return self._request_dto_type(**buffered_request)
 
-- 
2.43.0


From 7b7e450f8bd4bcb637a7476cb4c0df2ec7c26147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:42 +0000
Subject: [PATCH 08/60] fix: answer with the busy status when receiving is
 paused

---
 ekosis/servers/server_base.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ekosis/servers/server_base.py b/ekosis/servers/server_base.py
index bd69610..1774680 100644
--- a/ekosis/servers/server_base.py
+++ b/ekosis/servers/server_base.py
@@ -6,6 +6,7 @@ from pydantic import ValidationError
 
 from ..data_transfer_objects import RequestDTO, ResponseDTO, SpanKey
 from ..requests.request_router import RequestRouter, RoutingExceptionBase
+from ..requests.buffered_handler_base import BufferedRequestHandlerExceptionBase
 from ..requests.request_context import _set_current_span_key, _reset_current_span_key
 from ..requests.status import Status
 from ..state_keepers.statistics_keeper import StatisticsKeeper
@@ -69,6 +70,12 @@ class ServerBase:
                 status   = e.status,
                 data     = e.message
             )
+        except BufferedRequestHandlerExceptionBase as e:
+            return ResponseDTO(
+                span_key = span_key,
+                status   = e.status,
+                data     = str(e)
+            )
         except Exception as e:
             return ResponseDTO(
                 span_key = span_key,
-- 
2.43.0


From 72064ebce39a6caedf79fad85ec2672ea79c771e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:42 +0000
Subject: [PATCH 09/60] fix: refuse a negative hexadecimal span id

---
 ekosis/data_transfer_objects/span_id.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ekosis/data_transfer_objects/span_id.py b/ekosis/data_transfer_objects/span_id.py
index dfe914b..aa30330 100644
--- a/ekosis/data_transfer_objects/span_id.py
+++ b/ekosis/data_transfer_objects/span_id.py
@@ -23,6 +23,8 @@ class SpanId:
             if len(hex_) != 16:
                 raise ValueError('badly formed hexadecimal SpanId string')
             int_ = int(hex_, 16)
+            if int_ < 0:
+                raise ValueError('badly formed hexadecimal SpanId string')
 
         self._value: int = int_
 
-- 
2.43.0


From a12e6dcb78a5055cb0a53fe2206eace2acc50a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:13 +0000
Subject: [PATCH 10/60] fix: a handler's verdict stands when a middleware fails
 or is interrupted after it

---
 ekosis/requests/buffered_handler_base.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ekosis/requests/buffered_handler_base.py b/ekosis/requests/buffered_handler_base.py
index 37d8fb7..7760242 100644
--- a/ekosis/requests/buffered_handler_base.py
+++ b/ekosis/requests/buffered_handler_base.py
@@ -184,23 +184,27 @@ class BufferedRequestHandlerBase(Generic[_T], HandlerBase, ABC):
             retries       = buffered_item.retries
             metadata      = buffered_item.metadata
             token         = _set_current_span_key(span_key)
+            handled       = False # Until the handler has given its verdict.
             try:
                 request_data = self.request_dto_type(**buffered_item.data)
                 await BufferedMiddlewareManager().run_before_process(span_key, request_data, metadata, retries)
                 success = await self.process_buffered_request(span_key = span_key, dto = request_data)
-                await BufferedMiddlewareManager().run_after_process(span_key, request_data, metadata, success)
+                handled = True
                 if not success:
                     retries += 1
                     if retries >= self.max_retries:
                         await self.queue.push_error(span_key, request_data, "Max retries reached.", metadata)
                     else:
                         await self.queue.push_pending(span_key, request_data, retries, metadata)
+                await BufferedMiddlewareManager().run_after_process(span_key, request_data, metadata, success)
             except asyncio.CancelledError: # Shutting down, keep what was not finished.
-                await self.queue.push_pending(span_key, buffered_item.data, retries, metadata)
+                if not handled:
+                    await self.queue.push_pending(span_key, buffered_item.data, retries, metadata)
                 raise
             except Exception as e: # One bad request may not be lost, nor stop the ones behind it.
                 self.log.exception(f"Buffered handler [{self.get_route_key()}] failed on [{span_key}].")
-                await self.queue.push_error(span_key, buffered_item.data, str(e), metadata)
+                if not handled:
+                    await self.queue.push_error(span_key, buffered_item.data, str(e), metadata)
             finally:
                 _reset_current_span_key(token)
 
-- 
2.43.0


From 552018ab76ca799b197358b21c90e6ca0d2a6a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:53 +0000
Subject: [PATCH 11/60] fix: a termination signal ends the application whatever
 code it interrupts

---
 ekosis/application_base.py | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/ekosis/application_base.py b/ekosis/application_base.py
index 9ec61ce..6856b80 100644
--- a/ekosis/application_base.py
+++ b/ekosis/application_base.py
@@ -77,6 +77,7 @@ class ApplicationBase(metaclass=SingletonType):
     __statistics_keeper   : StatisticsKeeper        = StatisticsKeeper()
     __error_state_list    : ErrorStateList          = ErrorStateList()
     __running             : bool                    = False
+    __main_loop           : asyncio.AbstractEventLoop = None
     _configuration        : AppConfiguration        = AppConfiguration()
     __server_tcp          : TCPServer               = None
     __server_udp          : UDPServer               = None
@@ -87,9 +88,24 @@ class ApplicationBase(metaclass=SingletonType):
         self.__configure_basics()
 
     # --------------------------------------------------------------------------------
-    @staticmethod
-    def __handle_exit_signal(signum, frame):
-        raise TerminationSignalException("Exit signal received")
+    def __cancel_all_tasks(self):
+        for task in asyncio.all_tasks(self.__main_loop):
+            task.cancel()
+
+    # --------------------------------------------------------------------------------
+    def __handle_exit_signal(self, signum, frame):
+        if self.__main_loop is None: # Not in the event loop yet.
+            raise TerminationSignalException("Exit signal received")
+
+        # An exception raised here, would surface in whatever code happens to be
+        # running, and be lost there. So we cancel all tasks from the event loop
+        # and keep the queue workers from starting on anything new until then.
+        for buffered_handler in self.__request_router.get_buffered_handlers():
+            buffered_handler.pause_processing()
+        for buffered_sender in BufferedSenderKeeper().get_buffered_senders():
+            buffered_sender.pause_send_process()
+        if not self.__main_loop.is_closed():
+            self.__main_loop.call_soon_threadsafe(self.__cancel_all_tasks)
 
     # --------------------------------------------------------------------------------
     def __setup_signal_handlers(self):
@@ -277,6 +293,7 @@ class ApplicationBase(metaclass=SingletonType):
 
     # --------------------------------------------------------------------------------
     async def __start(self):
+        self.__main_loop = asyncio.get_running_loop()
         tasks = []
 
         await self.__setup_buffered_handlers()
-- 
2.43.0


From cc18ebe1c719c3d80d595ad2a5676a2482124b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:53 +0000
Subject: [PATCH 12/60] fix: shut down cleanly when the application ends before
 its queues are set up

---
 ekosis/requests/buffered_handler_base.py | 2 ++
 ekosis/sending/buffered_sender_base.py   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/ekosis/requests/buffered_handler_base.py b/ekosis/requests/buffered_handler_base.py
index 7760242..dfd9359 100644
--- a/ekosis/requests/buffered_handler_base.py
+++ b/ekosis/requests/buffered_handler_base.py
@@ -160,6 +160,8 @@ class BufferedRequestHandlerBase(Generic[_T], HandlerBase, ABC):
         self.pause_receiving()
         self.pause_processing()
         self.shutdown = True
+        if self.queue is None: # Never got as far as setup.
+            return
         self.__shut_down_check()
 
     # --------------------------------------------------------------------------------
diff --git a/ekosis/sending/buffered_sender_base.py b/ekosis/sending/buffered_sender_base.py
index 7798ecb..1a7eed5 100644
--- a/ekosis/sending/buffered_sender_base.py
+++ b/ekosis/sending/buffered_sender_base.py
@@ -67,6 +67,8 @@ class BufferedSenderBase(Generic[_RequestDTOType, _ResponseDTOType], SenderBase[
     def shut_down(self):
         self.pause_send_process()
         self.shutdown = True
+        if self.queue is None: # Never got as far as setup.
+            return
         self.__shut_down_check()
 
     # --------------------------------------------------------------------------------
-- 
2.43.0


From 28a3576db5bf90970142627308dff4afcc53997a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:30 +0000
Subject: [PATCH 13/60] fix: route by the request that the middleware returned

---
 ekosis/requests/request_router.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ekosis/requests/request_router.py b/ekosis/requests/request_router.py
index 378aa97..f2447b3 100644
--- a/ekosis/requests/request_router.py
+++ b/ekosis/requests/request_router.py
@@ -59,7 +59,9 @@ class RequestRouter(metaclass=SingletonType):
             kwargs["protocol_dto"]  = protocol_dto
             middleware_protocol_dto = await self.__middleware_manager.run_before_routing(**kwargs) # Middleware before routing
             kwargs["protocol_dto"]  = middleware_protocol_dto
-            kwargs["response_dto"]  = await self.__routing_table[protocol_dto.route_key].attempt_request(**kwargs)
+            if middleware_protocol_dto.route_key not in self.__routing_table.keys():
+                raise UnknownRouteKeyException(middleware_protocol_dto.route_key)
+            kwargs["response_dto"]  = await self.__routing_table[middleware_protocol_dto.route_key].attempt_request(**kwargs)
             kwargs["protocol_dto"]  = middleware_protocol_dto
             response                = await self.__middleware_manager.run_after_routing(**kwargs)  # Middleware after routing
             return response
-- 
2.43.0


From c0d46f86364f80b29fe27cfec1600e6405019205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:04 +0000
Subject: [PATCH 14/60] fix: answer a request that is not valid UTF-8 with a
 parsing error

---
 ekosis/servers/json/udp.py           | 5 ++---
 ekosis/servers/server_base.py        | 6 +++---
 ekosis/servers/stream_server_base.py | 2 +-
 3 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/ekosis/servers/json/udp.py b/ekosis/servers/json/udp.py
index 9e894f5..fb7a2c0 100644
--- a/ekosis/servers/json/udp.py
+++ b/ekosis/servers/json/udp.py
@@ -36,8 +36,7 @@ class DatagramProtocolServer(asyncio.DatagramProtocol):
             if bytes_read[0] == self.__ACK_byte: # The client wants to know we are here.
                 self.transport.sendto(self.__ACK_response, addr)
             else:
-                request_data: str = bytes_read.decode()
-                self.loop.create_task(self.do_response(request_data, addr))
+                self.loop.create_task(self.do_response(bytes_read, addr))
 
 # --------------------------------------------------------------------------------
 class UDPServer(ServerBase):
@@ -65,7 +64,7 @@ class UDPServer(ServerBase):
             self._logger.info(f"Stopping UDP server for {self.host}:{self.port}.")
 
     # --------------------------------------------------------------------------------
-    async def __process_received_data(self, received_data: str):
+    async def __process_received_data(self, received_data: bytes):
         response_dict = await self._route_request(received_data)
         return response_dict.model_dump_json()
 
diff --git a/ekosis/servers/server_base.py b/ekosis/servers/server_base.py
index 1774680..0819e1f 100644
--- a/ekosis/servers/server_base.py
+++ b/ekosis/servers/server_base.py
@@ -29,11 +29,11 @@ class ServerBase:
         return self._transport_type
 
     # --------------------------------------------------------------------------------
-    async def _route_request(self, request_text: str) -> ResponseDTO:
+    async def _route_request(self, request_bytes: bytes) -> ResponseDTO:
         span_key: SpanKey = None
         try:
             start_time   = timeit.default_timer()
-            request_dict = json.loads(request_text.strip())
+            request_dict = json.loads(request_bytes.decode().strip())
             protocol_dto = RequestDTO(**request_dict)
             span_key     = protocol_dto.span_key
             token        = _set_current_span_key(span_key)
@@ -52,7 +52,7 @@ class ServerBase:
                 )
             finally:
                 _reset_current_span_key(token)
-        except json.decoder.JSONDecodeError as e:
+        except (json.decoder.JSONDecodeError, UnicodeDecodeError) as e:
             return ResponseDTO(
                 span_key = span_key,
                 status   = Status.PROTOCOL_PARSING_ERROR.value,
diff --git a/ekosis/servers/stream_server_base.py b/ekosis/servers/stream_server_base.py
index 16f2f96..f32d92b 100644
--- a/ekosis/servers/stream_server_base.py
+++ b/ekosis/servers/stream_server_base.py
@@ -35,7 +35,7 @@ class StreamServerBase(ServerBase):
                 if bytes_read[0] == self.__ENQ_byte: # The client is asking if we are still connected.
                     await self.__write_data(writer, self.__ACK_response)
                 else:
-                    response_dict = await self._route_request(bytes_read.decode())
+                    response_dict = await self._route_request(bytes_read)
                     await self.__write_data(
                         writer,
                         (response_dict.model_dump_json() + '\n').encode()
-- 
2.43.0


From 293025179f8d2999f8c172a527dd1061287bd407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:04 +0000
Subject: [PATCH 15/60] fix: answer with a failure when an endpoint's response
 can not be serialised

---
 ekosis/servers/json/udp.py           |  2 +-
 ekosis/servers/server_base.py        | 12 ++++++++++++
 ekosis/servers/stream_server_base.py |  2 +-
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/ekosis/servers/json/udp.py b/ekosis/servers/json/udp.py
index fb7a2c0..66c1fea 100644
--- a/ekosis/servers/json/udp.py
+++ b/ekosis/servers/json/udp.py
@@ -66,7 +66,7 @@ class UDPServer(ServerBase):
     # --------------------------------------------------------------------------------
     async def __process_received_data(self, received_data: bytes):
         response_dict = await self._route_request(received_data)
-        return response_dict.model_dump_json()
+        return self._response_to_json(response_dict)
 
     # --------------------------------------------------------------------------------
     async def __create_datagram_listener(self):
diff --git a/ekosis/servers/server_base.py b/ekosis/servers/server_base.py
index 0819e1f..eb43f6d 100644
--- a/ekosis/servers/server_base.py
+++ b/ekosis/servers/server_base.py
@@ -28,6 +28,18 @@ class ServerBase:
     def get_transport_type(self) -> str:
         return self._transport_type
 
+    # --------------------------------------------------------------------------------
+    @staticmethod
+    def _response_to_json(response: ResponseDTO) -> str:
+        try:
+            return response.model_dump_json()
+        except Exception as e: # What the endpoint returned can not be put on the wire.
+            return ResponseDTO(
+                span_key = response.span_key,
+                status   = Status.UNHANDLED.value,
+                data     = str(e)
+            ).model_dump_json()
+
     # --------------------------------------------------------------------------------
     async def _route_request(self, request_bytes: bytes) -> ResponseDTO:
         span_key: SpanKey = None
diff --git a/ekosis/servers/stream_server_base.py b/ekosis/servers/stream_server_base.py
index f32d92b..e7240e4 100644
--- a/ekosis/servers/stream_server_base.py
+++ b/ekosis/servers/stream_server_base.py
@@ -38,7 +38,7 @@ class StreamServerBase(ServerBase):
                     response_dict = await self._route_request(bytes_read)
                     await self.__write_data(
                         writer,
-                        (response_dict.model_dump_json() + '\n').encode()
+                        (self._response_to_json(response_dict) + '\n').encode()
                     )
             except ConnectionResetError:
                 self._logger.info("Connection reset by peer")
-- 
2.43.0


From 7bd36a54d186944446f2b081a6dd55bc0289e60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:35 +0000
Subject: [PATCH 16/60] fix: a client-denied response raises
 ClientDeniedException

---
 ekosis/clients/client_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ekosis/clients/client_base.py b/ekosis/clients/client_base.py
index 1c19a28..756db62 100644
--- a/ekosis/clients/client_base.py
+++ b/ekosis/clients/client_base.py
@@ -42,7 +42,7 @@ class ClientBase(ABC):
             return ProtocolParsingException(str(request.data))
 
         if request.status == Status.CLIENT_DENIED.value:
-            return ClientDeniedException(str(request.data.json()))
+            return ClientDeniedException(str(request.data))
 
         if request.status == Status.PYDANTIC_VALIDATION_ERROR.value:
             return PydanticValidationException(str(request.data))
-- 
2.43.0


From 1af829d72e2473ece7474d3ffef41b4b31630e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:35 +0000
Subject: [PATCH 17/60] fix: a concurrent call on the same client does not end
 another call's attempts

---
 ekosis/clients/datagram_client_base.py          | 1 +
 ekosis/clients/persistent_stream_client_base.py | 3 ++-
 ekosis/clients/stream_client_base.py            | 3 ++-
 3 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/ekosis/clients/datagram_client_base.py b/ekosis/clients/datagram_client_base.py
index ecc4e0b..a0c3d35 100644
--- a/ekosis/clients/datagram_client_base.py
+++ b/ekosis/clients/datagram_client_base.py
@@ -84,3 +84,4 @@ class DatagramClientBase(ClientBase, asyncio.DatagramProtocol):
                     await asyncio.sleep(self.retry_delay)
             except Exception as e:
                 raise CommunicationsNonRetryable(f"{type(e)}: {str(e)}")
+        raise CommunicationsMaxRetriesReached()
diff --git a/ekosis/clients/persistent_stream_client_base.py b/ekosis/clients/persistent_stream_client_base.py
index e5f0690..d4282e7 100644
--- a/ekosis/clients/persistent_stream_client_base.py
+++ b/ekosis/clients/persistent_stream_client_base.py
@@ -132,7 +132,7 @@ class PersistentStreamClientBase(ClientBase, ABC):
         await self.__check_heartbeat_task()
 
         retry_count = 0
-        while retry_count < self.max_retries and not self.success:
+        while retry_count < self.max_retries: # self.success is shared by concurrent calls, it can not end this one.
             try:
                 response_str = await self._send_message(request)
                 self.success = True
@@ -150,3 +150,4 @@ class PersistentStreamClientBase(ClientBase, ABC):
                 retry_count = await self.__do_retry_logic(retry_count)
             except Exception as e:
                 raise CommunicationsNonRetryable(f"{type(e)}: {str(e)}")
+        raise CommunicationsMaxRetriesReached()
diff --git a/ekosis/clients/stream_client_base.py b/ekosis/clients/stream_client_base.py
index f75c95f..629ac80 100644
--- a/ekosis/clients/stream_client_base.py
+++ b/ekosis/clients/stream_client_base.py
@@ -47,7 +47,7 @@ class StreamClientBase(ClientBase, ABC):
     # --------------------------------------------------------------------------------
     async def _send_message_retry_loop(self, request: str) -> str:
         retry_count = 0
-        while retry_count < self.max_retries and not self.success:
+        while retry_count < self.max_retries: # self.success is shared by concurrent calls, it can not end this one.
             try:
                 response_str = await self._send_message(request)
                 self.success = True
@@ -66,3 +66,4 @@ class StreamClientBase(ClientBase, ABC):
                     await asyncio.sleep(self.retry_delay)
             except Exception as e:
                 raise CommunicationsNonRetryable(f"{type(e)}: {str(e)}")
+        raise CommunicationsMaxRetriesReached()
-- 
2.43.0


From d5542415a0dc2c55cd846b09fa2eebf93b6bceb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:53 +0000
Subject: [PATCH 18/60] fix: a persisted client never takes a late or another
 call's response for its own

---
 .../clients/persistent_stream_client_base.py  | 68 ++++++++-----------
 1 file changed, 29 insertions(+), 39 deletions(-)

diff --git a/ekosis/clients/persistent_stream_client_base.py b/ekosis/clients/persistent_stream_client_base.py
index d4282e7..d3709f8 100644
--- a/ekosis/clients/persistent_stream_client_base.py
+++ b/ekosis/clients/persistent_stream_client_base.py
@@ -34,8 +34,7 @@ class PersistentStreamClientBase(ClientBase, ABC):
         self.__heartbeat_time   : float                = heartbeat_period
         self.__connected        : bool                 = False
         self.__last_send        : float                = 0
-        self.__read_lock        : asyncio.Lock         = asyncio.Lock()
-        self.__write_lock       : asyncio.Lock         = asyncio.Lock()
+        self.__exchange_lock    : asyncio.Lock         = asyncio.Lock()
         self.__reader           : asyncio.StreamReader = None
         self.__writer           : asyncio.StreamWriter = None
         self.__heartbeat_task   : asyncio.Task         = None
@@ -57,32 +56,36 @@ class PersistentStreamClientBase(ClientBase, ABC):
             self.__connected = True
 
     # --------------------------------------------------------------------------------
-    async def __do_write(self, data: bytes):
-        async with self.__write_lock:
-            self.__writer.write(data)
+    def __drop_connection(self):
+        self.__connected = False
+        if self.__writer is not None:
+            self.__writer.close()
 
     # --------------------------------------------------------------------------------
-    async def __do_read(self) -> bytes:
-        async with self.__read_lock:
-            return await asyncio.wait_for(self.__reader.readline(), self.__timeout) # There needs to be a timeout here.
+    # One exchange at a time, and only a connection on which every exchange was completed
+    # is used again. Otherwise, a late response would be taken for the next one's.
+    async def __do_exchange(self, data: bytes) -> bytes:
+        async with self.__exchange_lock:
+            await self.__check_connected()
+            try:
+                self.__writer.write(data)
+                response = await asyncio.wait_for(self.__reader.readline(), self.__timeout) # There needs to be a timeout here.
+                if not response or response[-1] != self.__LF_byte:
+                    raise CommunicationsEmptyResponse()
+                return response
+            except BaseException:
+                self.__drop_connection()
+                raise
 
     # --------------------------------------------------------------------------------
     async def __do_heartbeat(self):
         try:
-            await self.__check_connected() # check if we did connect in the past
-        except ConnectionRefusedError as e:
+            data = await self.__do_exchange(self.__ENQ_request)
+        except Exception: # Not connected any more, the next message will re-connect.
             return
 
-        await self.__do_write(self.__ENQ_request)
-
-        data = await self.__do_read()
-
-        if (
-            not data or
-            data[-1] != self.__LF_byte or
-            data[0]  != self.__ACK_byte
-        ):
-            self.__connected = False
+        if data[0] != self.__ACK_byte:
+            self.__drop_connection()
         else:
             self.__last_send = time.time()
 
@@ -102,18 +105,7 @@ class PersistentStreamClientBase(ClientBase, ABC):
 
     # --------------------------------------------------------------------------------
     async def _send_message(self, request: str) -> str:
-        try:
-            await self.__check_connected()
-        except ConnectionRefusedError as e:
-            raise e
-
-        await self.__do_write(request.encode())
-
-        data = await self.__do_read()
-        if not data or data[-1] != self.__LF_byte:
-            self.__connected = False
-            raise CommunicationsEmptyResponse()
-
+        data = await self.__do_exchange(request.encode())
         self.__last_send = time.time()
         response_str = data.decode()
         return response_str
@@ -137,16 +129,14 @@ class PersistentStreamClientBase(ClientBase, ABC):
                 response_str = await self._send_message(request)
                 self.success = True
                 return response_str
-            except (TimeoutError, asyncio.TimeoutError):
-                retry_count = await self.__do_retry_logic(retry_count)
             except (
-                ConnectionResetError,   # These are retryable exceptions.
-                ConnectionAbortedError, # But they mean the connection is broken.
-                BrokenPipeError,        # So we have to re-connect.
+                TimeoutError,           # These are retryable exceptions.
+                asyncio.TimeoutError,   # The next attempt will re-connect.
+                ConnectionResetError,
+                ConnectionAbortedError,
+                BrokenPipeError,
                 CommunicationsEmptyResponse
             ):
-                self.__connected = False
-                await self.__check_connected()
                 retry_count = await self.__do_retry_logic(retry_count)
             except Exception as e:
                 raise CommunicationsNonRetryable(f"{type(e)}: {str(e)}")
-- 
2.43.0


From c3da4349c6db6c33d79bc00dc17592df2ea8e560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:53 +0000
Subject: [PATCH 19/60] fix: a UDP client never takes a late response for that
 of the next message

---
 ekosis/clients/datagram_client_base.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/ekosis/clients/datagram_client_base.py b/ekosis/clients/datagram_client_base.py
index a0c3d35..9fdaf69 100644
--- a/ekosis/clients/datagram_client_base.py
+++ b/ekosis/clients/datagram_client_base.py
@@ -23,7 +23,7 @@ class DatagramProtocolClient(asyncio.DatagramProtocol):
 
     # --------------------------------------------------------------------------------
     def datagram_received(self, data: bytes, address: tuple[str, int]) -> None:
-        if self.response:
+        if self.response and not self.response.done():
             self.response.set_result(data.decode())
             self.response = None
 
@@ -58,16 +58,21 @@ class DatagramClientBase(ClientBase, asyncio.DatagramProtocol):
 
     # --------------------------------------------------------------------------------
     async def _send_message(self, message: str) -> str:
-        if not self.initialised:
-            self.loop            = asyncio.get_running_loop()
-            self.transport, self.protocol = await self.loop.create_datagram_endpoint(
-                lambda: DatagramProtocolClient(self.timeout),
-                remote_addr=(self.server_host, self.server_port)
-            )
-            self.initialised = True
-
         async with self.send_lock:
-            return await self.protocol.send_message(message)
+            if not self.initialised:
+                self.loop            = asyncio.get_running_loop()
+                self.transport, self.protocol = await self.loop.create_datagram_endpoint(
+                    lambda: DatagramProtocolClient(self.timeout),
+                    remote_addr=(self.server_host, self.server_port)
+                )
+                self.initialised = True
+
+            try:
+                return await self.protocol.send_message(message)
+            except BaseException: # A late response to this message, may not be taken for the next one's.
+                self.initialised = False
+                self.transport.close()
+                raise
 
     # --------------------------------------------------------------------------------
     async def _send_message_retry_loop(self, request: str) -> str:
-- 
2.43.0


From 0b4987e766290310bb1a8964a616d68c32a76030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:58 +0000
Subject: [PATCH 20/60] fix: a response that was cut off is a communications
 failure of a transient client

---
 ekosis/clients/stream_client_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ekosis/clients/stream_client_base.py b/ekosis/clients/stream_client_base.py
index 629ac80..0ee8470 100644
--- a/ekosis/clients/stream_client_base.py
+++ b/ekosis/clients/stream_client_base.py
@@ -36,7 +36,7 @@ class StreamClientBase(ClientBase, ABC):
         writer.write(request.encode())
 
         data = await asyncio.wait_for(reader.readline(), self.__timeout)
-        if not data:
+        if not data or data[-1] != 10: # No response, or one that was cut off before its line feed.
             raise CommunicationsEmptyResponse()
 
         response_str = data.decode()
-- 
2.43.0


From 4b0195be71d4e97208543bccb0108f65793b64a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:32 +0000
Subject: [PATCH 21/60] fix: a parsing error inside an endpoint is not reported
 as a malformed request

---
 ekosis/servers/server_base.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/ekosis/servers/server_base.py b/ekosis/servers/server_base.py
index eb43f6d..0713d35 100644
--- a/ekosis/servers/server_base.py
+++ b/ekosis/servers/server_base.py
@@ -45,7 +45,14 @@ class ServerBase:
         span_key: SpanKey = None
         try:
             start_time   = timeit.default_timer()
-            request_dict = json.loads(request_bytes.decode().strip())
+            try: # Only the request itself can be a protocol parsing error, not what an endpoint parses.
+                request_dict = json.loads(request_bytes.decode().strip())
+            except (json.decoder.JSONDecodeError, UnicodeDecodeError) as e:
+                return ResponseDTO(
+                    span_key = span_key,
+                    status   = Status.PROTOCOL_PARSING_ERROR.value,
+                    data     = str(e)
+                )
             protocol_dto = RequestDTO(**request_dict)
             span_key     = protocol_dto.span_key
             token        = _set_current_span_key(span_key)
@@ -64,12 +71,6 @@ class ServerBase:
                 )
             finally:
                 _reset_current_span_key(token)
-        except (json.decoder.JSONDecodeError, UnicodeDecodeError) as e:
-            return ResponseDTO(
-                span_key = span_key,
-                status   = Status.PROTOCOL_PARSING_ERROR.value,
-                data     = str(e)
-            )
         except ValidationError as e:
             return ResponseDTO(
                 span_key = span_key,
-- 
2.43.0


From 2fec28c965d8d6bda3024c9d9740597dde886e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:10 +0000
Subject: [PATCH 22/60] fix: a buffered log record keeps the ids of the request
 it was logged for

---
 ekosis/logs/buffered_rotating_file_handler.py | 7 +++++++
 ekosis/logs/otlp_formatter.py                 | 2 +-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/ekosis/logs/buffered_rotating_file_handler.py b/ekosis/logs/buffered_rotating_file_handler.py
index c9073ef..e3a4a99 100644
--- a/ekosis/logs/buffered_rotating_file_handler.py
+++ b/ekosis/logs/buffered_rotating_file_handler.py
@@ -1,5 +1,7 @@
 from logging.handlers import RotatingFileHandler, BufferingHandler
 
+from ..requests.request_context import _get_current_span_key
+
 # --------------------------------------------------------------------------------
 class BufferedRotatingFileHandler(BufferingHandler):
     def __init__(
@@ -30,6 +32,11 @@ class BufferedRotatingFileHandler(BufferingHandler):
     def setFormatter(self, formatter):
         self.rotating_file_handler.setFormatter(formatter)
 
+    def emit(self, record):
+        # The record may only get formatted when the buffer is flushed, within the context of another request.
+        record.span_key = _get_current_span_key()
+        super().emit(record)
+
     def flush(self):
         for record in self.buffer:
             self.rotating_file_handler.emit(record)
diff --git a/ekosis/logs/otlp_formatter.py b/ekosis/logs/otlp_formatter.py
index dea5e83..060a545 100644
--- a/ekosis/logs/otlp_formatter.py
+++ b/ekosis/logs/otlp_formatter.py
@@ -9,7 +9,7 @@ from ..requests.request_context import _get_current_span_key
 class OtlpFormatter(logging.Formatter):
     def format(self, record: logging.LogRecord) -> str:
         severity_number, severity_text = severity_for_levelno(record.levelno)
-        span_key                       = _get_current_span_key()
+        span_key                       = record.span_key if hasattr(record, "span_key") else _get_current_span_key()
         app_config                     = AppConfiguration()
 
         log_record = OtlpLogRecord(
-- 
2.43.0


From c8826a38265626161d937298d8ecba05c7277ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:10 +0000
Subject: [PATCH 23/60] fix: a buffered log record is written once, with the
 message it was logged with

---
 ekosis/logs/buffered_rotating_file_handler.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/ekosis/logs/buffered_rotating_file_handler.py b/ekosis/logs/buffered_rotating_file_handler.py
index e3a4a99..783f246 100644
--- a/ekosis/logs/buffered_rotating_file_handler.py
+++ b/ekosis/logs/buffered_rotating_file_handler.py
@@ -35,12 +35,23 @@ class BufferedRotatingFileHandler(BufferingHandler):
     def emit(self, record):
         # The record may only get formatted when the buffer is flushed, within the context of another request.
         record.span_key = _get_current_span_key()
+        # And by then, the arguments of its message may have changed.
+        try:
+            record.msg  = record.getMessage()
+            record.args = None
+        except Exception:
+            self.handleError(record)
+            return
         super().emit(record)
 
     def flush(self):
-        for record in self.buffer:
-            self.rotating_file_handler.emit(record)
-        self.buffer = []
+        self.acquire() # Or a record logged by another thread in the meantime is lost.
+        try:
+            for record in self.buffer:
+                self.rotating_file_handler.emit(record)
+            self.buffer = []
+        finally:
+            self.release()
 
     def close(self): # pragma: no cover
         self.rotating_file_handler.close()
-- 
2.43.0


From 5eacdb067ee621c67152b9f4b75ca06c33935b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:27 +0000
Subject: [PATCH 24/60] fix: apply the configured log level at startup

---
 ekosis/logs/logger.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ekosis/logs/logger.py b/ekosis/logs/logger.py
index eac2150..3f684d1 100644
--- a/ekosis/logs/logger.py
+++ b/ekosis/logs/logger.py
@@ -88,6 +88,7 @@ class EcoLogger(metaclass=SingletonType):
             self.__setup_console_logging()
 
         self.__logger.setLevel(self.__level)
+        self.set_level(self.__log_config.level)
         # This switches asyncio logging to level WARNING
         # logging.getLogger('asyncio').setLevel(logging.WARNING)
 
-- 
2.43.0


From 6648c92fc13fa2f9a8b5cc6c635f3be3402deaf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:47 +0000
Subject: [PATCH 25/60] fix: queue workers never log with the ids of the
 request that started them

---
 ekosis/requests/buffered_handler_base.py | 1 +
 ekosis/sending/buffered_sender_base.py   | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/ekosis/requests/buffered_handler_base.py b/ekosis/requests/buffered_handler_base.py
index dfd9359..11d188a 100644
--- a/ekosis/requests/buffered_handler_base.py
+++ b/ekosis/requests/buffered_handler_base.py
@@ -212,6 +212,7 @@ class BufferedRequestHandlerBase(Generic[_T], HandlerBase, ABC):
 
     # --------------------------------------------------------------------------------
     async def _process_queue(self):
+        _set_current_span_key(None) # This task started with the context of whatever request happened to start it.
         try:
             self.running = True
             await self.__do_queue_processing()
diff --git a/ekosis/sending/buffered_sender_base.py b/ekosis/sending/buffered_sender_base.py
index 1a7eed5..98c3bdf 100644
--- a/ekosis/sending/buffered_sender_base.py
+++ b/ekosis/sending/buffered_sender_base.py
@@ -9,6 +9,7 @@ from .sender_base import SenderBase
 from ..clients import ClientBase
 from ..data_transfer_objects import EmptyDto, SpanKey
 from ..queues.pending_queue import PendingQueue
+from ..requests.request_context import _set_current_span_key
 from ..state_keepers.statistics_keeper import StatisticsKeeper
 from ..exceptions import ServerBusyException, CommunicationsMaxRetriesReached
 
@@ -92,6 +93,7 @@ class BufferedSenderBase(Generic[_RequestDTOType, _ResponseDTOType], SenderBase[
             span_key      = buffered_item.span_key
             request_data  = self._request_dto_type(**buffered_item.data)
             retries       = buffered_item.retries
+            _set_current_span_key(span_key)
             try:
                 if self.wait_period > 0:
                     await asyncio.sleep(self.wait_period)
@@ -107,9 +109,12 @@ class BufferedSenderBase(Generic[_RequestDTOType, _ResponseDTOType], SenderBase[
                 raise
             except Exception as e : # Move it to the error queue
                 await self.queue.push_error(span_key, request_data, str(e))
+            finally:
+                _set_current_span_key(None)
 
     # --------------------------------------------------------------------------------
     async def __process_send_queue(self) -> None:
+        _set_current_span_key(None) # This task started with the context of whatever request happened to start it.
         try:
             self.running = True
             await self.__do_queue_processing()
-- 
2.43.0


From ddbdb3a0f7a36152bc954f0ce63ada0014142664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:04 +0000
Subject: [PATCH 26/60] fix: new LRU cache entries are linked behind the least
 recently used one

The tail pointer was set once and never moved, so an insert after a read or a
delete unlinked other entries: listings missed entries or repeated them, and
the wrong entry was evicted.
---
 ekosis/cacheing/lru_cache.py | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/ekosis/cacheing/lru_cache.py b/ekosis/cacheing/lru_cache.py
index 79dd70f..414757b 100644
--- a/ekosis/cacheing/lru_cache.py
+++ b/ekosis/cacheing/lru_cache.py
@@ -8,26 +8,25 @@ class LRUCache:
         self.max_size     : int                   = max_size
         self._cached_items: Dict[Any, LRUCachedItem] = {}
         self.head         : LRUCachedItem            = None
-        self.tail         : LRUCachedItem            = None
 
     # --------------------------------------------------------------------------------
     def __insert(self, key: Any, value: Any):
-        new_node       = LRUCachedItem()
+        if self.head is not None and self.head.previous.empty:
+            # Items that became empty are kept at the end of the list, use those first.
+            new_node = self.head.previous
+        else:
+            new_node = LRUCachedItem()
+            if self.head is None:
+                new_node.previous = new_node
+                new_node.next     = new_node
+            else:
+                new_node.previous       = self.head.previous
+                new_node.next           = self.head
+                self.head.previous.next = new_node
+                self.head.previous      = new_node
         new_node.empty = False
         new_node.key   = key
         new_node.value = value
-        if self.head is None:
-            self.head = new_node
-            self.tail = new_node
-        else:
-            new_node.previous = self.tail
-            new_node.next     = self.head
-            if self.tail is self.head:
-                self.head.previous = new_node
-                self.head.next     = new_node
-            else:
-                self.tail.next     = new_node
-                self.head.previous = new_node
         self._cached_items[key] = new_node
         return new_node
 
-- 
2.43.0


From e1d1aaa16527e401c6a4df9ad9d2008e1e87240d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:04 +0000
Subject: [PATCH 27/60] fix: reading entries while iterating over an LRU cache
 does not change what is iterated

---
 ekosis/cacheing/lru_cache.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ekosis/cacheing/lru_cache.py b/ekosis/cacheing/lru_cache.py
index 414757b..49db567 100644
--- a/ekosis/cacheing/lru_cache.py
+++ b/ekosis/cacheing/lru_cache.py
@@ -68,10 +68,13 @@ class LRUCache:
 
     # --------------------------------------------------------------------------------
     def __iterator(self):
-        cached_item = self.head
+        # The list of items is taken up front, reading an item while iterating moves it.
+        cached_items = []
+        cached_item  = self.head
         for i in range(len(self._cached_items)):
-            yield cached_item
+            cached_items.append(cached_item)
             cached_item = cached_item.next
+        return iter(cached_items)
 
     # --------------------------------------------------------------------------------
     def clear(self):
-- 
2.43.0


From d5ad3ccf3374ada8c58d49e40282d633e9a0d698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:01 +0000
Subject: [PATCH 28/60] fix: clearing a negative number of errors does not
 raise the error count

---
 ekosis/state_keepers/error_state_keeper.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ekosis/state_keepers/error_state_keeper.py b/ekosis/state_keepers/error_state_keeper.py
index 68eec26..f939119 100644
--- a/ekosis/state_keepers/error_state_keeper.py
+++ b/ekosis/state_keepers/error_state_keeper.py
@@ -24,6 +24,8 @@ class ErrorStateKeeper:
         self._error_count += 1
 
     def clear_some(self, how_many: int):
+        if how_many < 0: # There is no clearing less than nothing.
+            return
         if self._error_count >= how_many:
             self._error_count = self._error_count - how_many
         else:
-- 
2.43.0


From 1216b17c91dde3a7cc4fff3df8c65682d0c311ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:42 +0000
Subject: [PATCH 29/60] fix: invalid TCP, UDP and UDS settings are refused
 instead of being ignored

---
 ekosis/configuration/config_models.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/ekosis/configuration/config_models.py b/ekosis/configuration/config_models.py
index ad73b20..bcb44f4 100644
--- a/ekosis/configuration/config_models.py
+++ b/ekosis/configuration/config_models.py
@@ -22,6 +22,11 @@ class InstanceConfigurationNotFoundException(ConfigurationExceptionBase): # prag
     def __init__(self, name: str, instance: str):
         super().__init__(f"Configuration for instance [{instance}] of application [{name}] not found!")
 
+# --------------------------------------------------------------------------------
+class InvalidConfigurationException(ConfigurationExceptionBase): # pragma: no cover
+    def __init__(self, value: str, expected: str):
+        super().__init__(f"Invalid configuration value [{value}], expected {expected}!")
+
 # --------------------------------------------------------------------------------
 application_name     = camel_to_snake(os.path.basename(sys.argv[0]).replace('.py', ''))
 application_instance = command_line_args.instance
@@ -156,12 +161,9 @@ def get_app_instance_lock_dir():
     return get_eco_env("LOCK_DIR", platform_default_dir)
 
 def parse_host_port_string(value: str):
-    # TODO: Throw an exception if we can't parse the string!
-    host, port = value.split(":")
-    if not host: # pragma: no cover
-        return None
-    if not port: # pragma: no cover
-        return None
+    host, separator, port = value.partition(":")
+    if not host or not port.isdigit():
+        raise InvalidConfigurationException(value, "HOST:PORT")
     return {
         "host": host,
         "port": int(port)
@@ -189,10 +191,8 @@ def get_app_instance_uds():
         return None
     directory        = os.path.dirname(uds_string)
     socket_file_name = os.path.basename(uds_string)
-    if not directory or not socket_file_name: # pragma: no cover
-        return None
-    if not os.path.isdir(directory): # pragma: no cover
-        return None
+    if not os.path.isdir(directory) or not socket_file_name:
+        raise InvalidConfigurationException(uds_string, "a path to a file in an existing directory")
     if socket_file_name == "DEFAULT":
         socket_file_name = f"{application_name}_{application_instance}.uds.sock"
     return ConfigUDS(directory=directory, socket_file_name=socket_file_name)
-- 
2.43.0


From ebb9c2f2b0fae1ad6f02b799ab7a1147cadf25bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:42 +0000
Subject: [PATCH 30/60] fix: an unknown log level is refused instead of being
 ignored

---
 ekosis/configuration/config_models.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ekosis/configuration/config_models.py b/ekosis/configuration/config_models.py
index bcb44f4..c1dcbf0 100644
--- a/ekosis/configuration/config_models.py
+++ b/ekosis/configuration/config_models.py
@@ -3,7 +3,7 @@ import sys
 import json
 import platform
 
-from typing import Dict, Any
+from typing import Dict, Any, Literal
 from pydantic import BaseModel as PydanticBaseModel, Field
 
 from .argument_parser import command_line_args
@@ -135,7 +135,9 @@ class ConfigLogging(PydanticBaseModel):
     console_only: bool              = command_line_args.log_console_only
     file_only   : bool              = command_line_args.log_file_only
     file_logging: ConfigLoggingFile = ConfigLoggingFile()
-    level       : str               = Field(default_factory=get_logging_level)
+    level       : Literal['debug', 'info', 'warn', 'error', 'critical'] = Field(
+        default_factory=get_logging_level, validate_default=True
+    )
 
 # ConfigTCP
 # --------------------------------------------------------------------------------
-- 
2.43.0


From f2d90252a66c01abc646adf075f251ace359e04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:23 +0000
Subject: [PATCH 31/60] fix: settings a configuration file does not mention
 keep their environment value

---
 ekosis/configuration/config_models.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/ekosis/configuration/config_models.py b/ekosis/configuration/config_models.py
index c1dcbf0..a759d65 100644
--- a/ekosis/configuration/config_models.py
+++ b/ekosis/configuration/config_models.py
@@ -255,6 +255,16 @@ class ConfigApplication(PydanticBaseModel):
     instances        : Dict[str, ConfigApplicationInstance] = {application_instance: ConfigApplicationInstance()}
     instance_defaults: ConfigApplicationInstanceDefaults    = ConfigApplicationInstanceDefaults()
 
+# Settings that are not in the configuration file, keep the value they have without it.
+# --------------------------------------------------------------------------------
+def overwrite_settings(settings: Any, file_settings: Any):
+    if not isinstance(settings, dict) or not isinstance(file_settings, dict):
+        return file_settings
+    retval = dict(settings)
+    for k, v in file_settings.items():
+        retval[k] = overwrite_settings(settings.get(k), v)
+    return retval
+
 # If a configuration file was specified, load the config from there.
 # --------------------------------------------------------------------------------
 try:
@@ -268,6 +278,12 @@ try:
         with open(file_path, 'r') as f:
             config_json = json.load(f)
 
+        if application_instance in config_json.get("instances", {}):
+            config_json["instances"][application_instance] = overwrite_settings(
+                ConfigApplicationInstance().model_dump(exclude_none=True),
+                config_json["instances"][application_instance]
+            )
+
         application_configuration = ConfigApplication(**config_json)
     else:
         application_configuration = ConfigApplication()
-- 
2.43.0


From 24695ec19c69cf3e52edda01847893702eddbca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:41 +0000
Subject: [PATCH 32/60] fix: an application instance is locked by the operating
 system, not by the process id in its lock file

---
 ekosis/application_base.py | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/ekosis/application_base.py b/ekosis/application_base.py
index 6856b80..dd34e5d 100644
--- a/ekosis/application_base.py
+++ b/ekosis/application_base.py
@@ -4,6 +4,11 @@ import signal
 import argparse
 import logging
 
+try:
+    import fcntl
+except ImportError: # pragma: no cover
+    fcntl = None # Windows
+
 from .logs import EcoLogger
 from .configuration.config_models import AppConfiguration
 
@@ -82,6 +87,7 @@ class ApplicationBase(metaclass=SingletonType):
     __server_tcp          : TCPServer               = None
     __server_udp          : UDPServer               = None
     __server_uds          : UDSServer               = None
+    __lock_file                                     = None
 
     # --------------------------------------------------------------------------------
     def __init__(self):
@@ -159,10 +165,31 @@ class ApplicationBase(metaclass=SingletonType):
         with open(lock_file_path, "w") as lock_file:
             lock_file.write(f"{process_id}\n")
 
+    # --------------------------------------------------------------------------------
+    # The process id in a lock file says nothing about who is running: It could be half written,
+    # or be in use by another process by now. So the lock is on the file itself, the operating
+    # system releases it when the process ends, no matter how.
+    # --------------------------------------------------------------------------------
+    def __lock_file_lock(self, lock_file_path: str):
+        self.__lock_file = open(lock_file_path, "a+", errors="replace")
+        try:
+            fcntl.lockf(self.__lock_file, fcntl.LOCK_EX | fcntl.LOCK_NB)
+        except OSError:
+            self.__lock_file.seek(0)
+            process_id = self.__lock_file.readline().strip()
+            self.__lock_file.close()
+            raise InstanceAlreadyRunningException(self._configuration.name, self._configuration.instance, process_id)
+        self.__lock_file.truncate(0)
+        self.__lock_file.write(f"{os.getpid()}\n")
+        self.__lock_file.flush()
+
     # --------------------------------------------------------------------------------
     def __lock_file_check(self):
         lock_file_name  = f"{self._configuration.name}-{self._configuration.instance}.lock"
         lock_file_path  = f"{self._configuration.lock_directory}/{lock_file_name}"
+        if fcntl:
+            self.__lock_file_lock(lock_file_path)
+            return
         if os.path.exists(lock_file_path):
             with open(lock_file_path, "r") as lock_file:
                 process_id = int(lock_file.readline())
-- 
2.43.0


From c3fdf7028066a5c560432c86628f9c41dae1160f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:43 +0000
Subject: [PATCH 33/60] fix: a log message with characters that can not be
 encoded is not lost

---
 ekosis/logs/otlp_formatter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ekosis/logs/otlp_formatter.py b/ekosis/logs/otlp_formatter.py
index 060a545..fc07192 100644
--- a/ekosis/logs/otlp_formatter.py
+++ b/ekosis/logs/otlp_formatter.py
@@ -16,7 +16,8 @@ class OtlpFormatter(logging.Formatter):
             timestamp       = datetime.datetime.fromtimestamp(record.created, tz=datetime.timezone.utc).isoformat(),
             severity_number = severity_number,
             severity_text   = severity_text,
-            body            = record.getMessage(),
+            # Escape what can't be encoded (lone surrogates), or the record is lost.
+            body            = record.getMessage().encode("utf-8", "backslashreplace").decode("utf-8"),
             attributes      = {
                 # application_name/instance properly belong on the OTLP
                 # Resource (one per file, set from the shipper's own config
-- 
2.43.0


From 503f1a6de2a0cb0b5b1ef34087b45c558095b078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:50 +0000
Subject: [PATCH 34/60] fix: the log shipper ships a line it can not parse as
 it is, instead of terminating

---
 ekosis_log_shipper/src/main.cpp          |  8 +++++++-
 ekosis_log_shipper/src/otlp_envelope.cpp | 24 +++++++++++++++++++-----
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/ekosis_log_shipper/src/main.cpp b/ekosis_log_shipper/src/main.cpp
index 6d0b7bd..1f9fe3d 100644
--- a/ekosis_log_shipper/src/main.cpp
+++ b/ekosis_log_shipper/src/main.cpp
@@ -107,7 +107,13 @@ int main(int argc, char** argv) {
                 continue;
             }
 
-            ResourceInfo resource = extract_resource_info(wf.undelivered.front());
+            ResourceInfo resource;
+            for (const auto& line : wf.undelivered) {
+                resource = extract_resource_info(line);
+                if (!resource.service_name.empty()) {
+                    break;
+                }
+            }
             std::string  payload  = build_otlp_logs_payload(wf.undelivered, resource);
 
             PostResult result = http_sender.post_json(payload);
diff --git a/ekosis_log_shipper/src/otlp_envelope.cpp b/ekosis_log_shipper/src/otlp_envelope.cpp
index ad5b0f0..fce2792 100644
--- a/ekosis_log_shipper/src/otlp_envelope.cpp
+++ b/ekosis_log_shipper/src/otlp_envelope.cpp
@@ -69,19 +69,33 @@ json convert_one_record(const json& record) {
     return log_record;
 }
 
+// Whatever is not an OtlpLogRecord gets shipped as it is: it must neither be
+// lost, nor keep the lines after it from being shipped.
+json convert_one_line(const std::string& line) {
+    try {
+        return convert_one_record(json::parse(line));
+    } catch (const json::exception&) {
+        json log_record;
+        log_record["severityNumber"]      = 0;
+        log_record["severityText"]        = "UNSPECIFIED";
+        log_record["body"]["stringValue"] = line;
+        return log_record;
+    }
+}
+
 } // namespace
 
 // --------------------------------------------------------------------------------
 ResourceInfo extract_resource_info(const std::string& json_line) {
-    json         record = json::parse(json_line);
+    json         record = json::parse(json_line, nullptr, false); // discarded, if it can't be parsed
     ResourceInfo info;
 
     if (record.contains("attributes")) {
         const auto& attrs = record.at("attributes");
-        if (attrs.contains("application_name")) {
+        if (attrs.contains("application_name") && attrs.at("application_name").is_string()) {
             info.service_name = attrs.at("application_name").get<std::string>();
         }
-        if (attrs.contains("application_instance")) {
+        if (attrs.contains("application_instance") && attrs.at("application_instance").is_string()) {
             info.service_instance_id = attrs.at("application_instance").get<std::string>();
         }
     }
@@ -92,7 +106,7 @@ ResourceInfo extract_resource_info(const std::string& json_line) {
 std::string build_otlp_logs_payload(const std::vector<std::string>& json_lines, const ResourceInfo& resource) {
     json log_records = json::array();
     for (const auto& line : json_lines) {
-        log_records.push_back(convert_one_record(json::parse(line)));
+        log_records.push_back(convert_one_line(line));
     }
 
     json payload;
@@ -113,5 +127,5 @@ std::string build_otlp_logs_payload(const std::vector<std::string>& json_lines,
         }
     });
 
-    return payload.dump();
+    return payload.dump(-1, ' ', false, json::error_handler_t::replace);
 }
-- 
2.43.0


From c1a04122ee9cb5ef02f22bdbb8d8a87a98473200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:36 +0000
Subject: [PATCH 35/60] fix: the log shipper reads files that were rotated away
 between two polls or while it was not running

---
 ekosis_log_shipper/src/state_store.hpp  |   7 +-
 ekosis_log_shipper/src/tracked_file.cpp | 102 ++++++++++++++++++++----
 ekosis_log_shipper/src/tracked_file.hpp |  19 ++++-
 3 files changed, 104 insertions(+), 24 deletions(-)

diff --git a/ekosis_log_shipper/src/state_store.hpp b/ekosis_log_shipper/src/state_store.hpp
index 6679d45..93b2306 100644
--- a/ekosis_log_shipper/src/state_store.hpp
+++ b/ekosis_log_shipper/src/state_store.hpp
@@ -8,10 +8,9 @@
 
 // Survives shipper restarts: remembers, per watched file path, which inode
 // it was attached to and how far it had read. On restart, TrackedFile uses
-// this to resume exactly where it left off if the file hasn't rotated since,
-// or start fresh at offset 0 if it has (small loss window only across a
-// restart that spans an entire rotation -- the log file itself is the
-// durable buffer otherwise).
+// this to resume exactly where it left off, also if the file has rotated
+// since, as long as the rotated file still exists (the log file itself is the
+// durable buffer).
 class StateStore {
 public:
     explicit StateStore(const std::string& db_path);
diff --git a/ekosis_log_shipper/src/tracked_file.cpp b/ekosis_log_shipper/src/tracked_file.cpp
index 2908b23..2e5a738 100644
--- a/ekosis_log_shipper/src/tracked_file.cpp
+++ b/ekosis_log_shipper/src/tracked_file.cpp
@@ -16,11 +16,18 @@ TrackedFile::TrackedFile(std::string path)
 TrackedFile::TrackedFile(std::string path, uint64_t resume_inode, uint64_t resume_offset)
     : _path(std::move(path))
 {
-    struct stat path_stat{};
-    if (::stat(_path.c_str(), &path_stat) == 0 && static_cast<uint64_t>(path_stat.st_ino) == resume_inode) {
-        open_at_path(resume_offset); // same file we left off on -- resume exactly where we stopped
-    } else {
-        open_at_path(0); // rotated while we were away -- start the current file from the top
+    // It may have been rotated while we were away -- poll() reads the files
+    // since, whichever one we start with.
+    std::vector<OpenFile> files = open_files_since(resume_inode);
+    if (files.empty()) {
+        throw std::runtime_error("TrackedFile: unable to open '" + _path + "'");
+    }
+
+    bool found = files.back().inode == resume_inode; // if not, it is gone, and all that is left is newer
+    switch_to(files.back(), found ? resume_offset : 0);
+    files.pop_back();
+    for (const auto& file : files) {
+        ::close(file.fd);
     }
 }
 
@@ -32,28 +39,81 @@ TrackedFile::~TrackedFile() {
 }
 
 // --------------------------------------------------------------------------------
-void TrackedFile::open_at_path(uint64_t start_offset) {
-    _fd = ::open(_path.c_str(), O_RDONLY);
-    if (_fd == -1) {
-        throw std::runtime_error("TrackedFile: unable to open '" + _path + "'");
+bool TrackedFile::open_file(const std::string& path, OpenFile& file) {
+    int fd = ::open(path.c_str(), O_RDONLY);
+    if (fd == -1) {
+        return false;
     }
 
     struct stat file_stat{};
-    if (::fstat(_fd, &file_stat) != 0) {
+    if (::fstat(fd, &file_stat) != 0) {
+        ::close(fd);
+        return false;
+    }
+
+    file = OpenFile{fd, static_cast<uint64_t>(file_stat.st_ino)};
+    return true;
+}
+
+// --------------------------------------------------------------------------------
+std::vector<TrackedFile::OpenFile> TrackedFile::open_files_since(uint64_t inode) const {
+    std::vector<OpenFile> files;
+
+    // RotatingFileHandler renames from the oldest to the newest file, so while
+    // we look from the newest to the oldest, a rotation can make us see a file
+    // twice, or not see one at its old name, but never miss one -- as long as
+    // we don't take the first missing name for the end.
+    const int max_missing = 2;
+    int       missing     = 0;
+    for (int n = 0; missing <= max_missing; n++) {
+        OpenFile file{};
+        if (!open_file(n == 0 ? _path : _path + "." + std::to_string(n), file)) {
+            missing++;
+            continue;
+        }
+        missing = 0;
+        // Seen before: it was renamed since, and what we saw after it is newer.
+        for (size_t seen = 0; seen < files.size(); seen++) {
+            if (files[seen].inode == file.inode) {
+                for (size_t newer = seen; newer < files.size(); newer++) {
+                    ::close(files[newer].fd);
+                }
+                files.resize(seen);
+            }
+        }
+        files.push_back(file);
+        if (file.inode == inode) {
+            break;
+        }
+    }
+    return files;
+}
+
+// --------------------------------------------------------------------------------
+void TrackedFile::switch_to(const OpenFile& file, uint64_t start_offset) {
+    if (_fd != -1) {
         ::close(_fd);
-        _fd = -1;
-        throw std::runtime_error("TrackedFile: unable to fstat '" + _path + "'");
     }
 
     if (start_offset > 0) {
-        ::lseek(_fd, static_cast<off_t>(start_offset), SEEK_SET);
+        ::lseek(file.fd, static_cast<off_t>(start_offset), SEEK_SET);
     }
 
-    _inode   = static_cast<uint64_t>(file_stat.st_ino);
+    _fd      = file.fd;
+    _inode   = file.inode;
     _offset  = start_offset;
     _pending.clear();
 }
 
+// --------------------------------------------------------------------------------
+void TrackedFile::open_at_path(uint64_t start_offset) {
+    OpenFile file{};
+    if (!open_file(_path, file)) {
+        throw std::runtime_error("TrackedFile: unable to open '" + _path + "'");
+    }
+    switch_to(file, start_offset);
+}
+
 // --------------------------------------------------------------------------------
 void TrackedFile::read_available_lines(std::vector<std::string>& lines) {
     char    buf[8192];
@@ -88,10 +148,18 @@ std::vector<std::string> TrackedFile::poll() {
         // switching. The old fd is still attached to the renamed/unlinked
         // file regardless of its current name -- this is what makes the
         // drain safe rather than a race against the rename.
+        std::vector<OpenFile> files = open_files_since(_inode);
         read_available_lines(lines);
-        ::close(_fd);
-        _fd = -1;
-        open_at_path(0);
+        while (!files.empty()) {
+            if (files.back().inode == _inode) {
+                ::close(files.back().fd);
+            } else {
+                switch_to(files.back(), 0);
+                read_available_lines(lines);
+            }
+            files.pop_back();
+        }
+        return lines;
     }
 
     read_available_lines(lines);
diff --git a/ekosis_log_shipper/src/tracked_file.hpp b/ekosis_log_shipper/src/tracked_file.hpp
index fce8b59..39c97d9 100644
--- a/ekosis_log_shipper/src/tracked_file.hpp
+++ b/ekosis_log_shipper/src/tracked_file.hpp
@@ -25,9 +25,10 @@ public:
     TrackedFile& operator=(const TrackedFile&) = delete;
 
     // Returns any new, complete (newline-terminated) lines since the last
-    // call. Detects rotation internally -- drains the old file to its end
-    // before reading from the new one, so a rotation mid-call never loses
-    // a line. A trailing incomplete line is buffered and completed on a
+    // call. Detects rotation internally -- drains the old file to its end,
+    // and then every file that was rotated away since, before reading from
+    // the new one, so rotations never lose a line of a file that still
+    // exists. A trailing incomplete line is buffered and completed on a
     // later call, never reported early.
     std::vector<std::string> poll();
 
@@ -36,6 +37,18 @@ public:
     uint64_t            offset() const { return _offset; }
 
 private:
+    struct OpenFile {
+        int      fd;
+        uint64_t inode;
+    };
+
+    static bool open_file(const std::string& path, OpenFile& file);
+
+    // The files at path and path.1, path.2, ... up to and including the one
+    // with the given inode, or all of them if there is none. Newest first.
+    std::vector<OpenFile> open_files_since(uint64_t inode) const;
+
+    void switch_to(const OpenFile& file, uint64_t start_offset);
     void open_at_path(uint64_t start_offset);
     void read_available_lines(std::vector<std::string>& lines);
 
-- 
2.43.0


From d5b6ae96ad1ba92fee925f0b61801a582a004694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:24 +0000
Subject: [PATCH 36/60] fix: the log shipper does not terminate when a log file
 is rotated while it opens it

---
 ekosis_log_shipper/src/main.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/ekosis_log_shipper/src/main.cpp b/ekosis_log_shipper/src/main.cpp
index 1f9fe3d..7621022 100644
--- a/ekosis_log_shipper/src/main.cpp
+++ b/ekosis_log_shipper/src/main.cpp
@@ -11,6 +11,7 @@
 #include <iostream>
 #include <map>
 #include <memory>
+#include <stdexcept>
 #include <string>
 #include <vector>
 
@@ -69,9 +70,15 @@ int main(int argc, char** argv) {
         }
         auto         resume = state_store.load(path);
         WatchedFile  wf;
-        wf.tracked = resume
-            ? std::make_unique<TrackedFile>(path, resume->inode, resume->offset)
-            : std::make_unique<TrackedFile>(path);
+        try {
+            wf.tracked = resume
+                ? std::make_unique<TrackedFile>(path, resume->inode, resume->offset)
+                : std::make_unique<TrackedFile>(path);
+        } catch (const std::runtime_error& error) {
+            // Gone since it was listed (rotated, say): the next scan finds it again.
+            std::cerr << "ekosis_log_shipper: " << error.what() << ", will retry\n";
+            return;
+        }
         watched.emplace(path, std::move(wf));
         std::cout << "ekosis_log_shipper: watching " << path << "\n";
     };
-- 
2.43.0


From 008bcf06579320ed079cbf2b71d66abcf42368a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:24 +0000
Subject: [PATCH 37/60] fix: the log shipper resumes a file nothing of which
 was delivered before it was restarted

---
 ekosis_log_shipper/src/main.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ekosis_log_shipper/src/main.cpp b/ekosis_log_shipper/src/main.cpp
index 7621022..bad09a1 100644
--- a/ekosis_log_shipper/src/main.cpp
+++ b/ekosis_log_shipper/src/main.cpp
@@ -79,6 +79,10 @@ int main(int argc, char** argv) {
             std::cerr << "ekosis_log_shipper: " << error.what() << ", will retry\n";
             return;
         }
+        if (!resume) {
+            // From here on it is ours, even if we are restarted before the first delivery.
+            state_store.save(path, wf.tracked->inode(), wf.tracked->offset());
+        }
         watched.emplace(path, std::move(wf));
         std::cout << "ekosis_log_shipper: watching " << path << "\n";
     };
-- 
2.43.0


From c8a7ebb3f1e0a2ffaad459e1e3753d07ab6a8750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:49:47 +0000
Subject: [PATCH 38/60] fix: the log shipper does not mistake a new file with
 the inode of a deleted one for the deleted one

---
 ekosis_log_shipper/src/main.cpp         |  6 +++---
 ekosis_log_shipper/src/state_store.cpp  | 24 ++++++++++++++++--------
 ekosis_log_shipper/src/state_store.hpp  |  3 ++-
 ekosis_log_shipper/src/tracked_file.cpp | 21 ++++++++++++++-------
 ekosis_log_shipper/src/tracked_file.hpp | 14 +++++++++++---
 5 files changed, 46 insertions(+), 22 deletions(-)

diff --git a/ekosis_log_shipper/src/main.cpp b/ekosis_log_shipper/src/main.cpp
index bad09a1..cf82993 100644
--- a/ekosis_log_shipper/src/main.cpp
+++ b/ekosis_log_shipper/src/main.cpp
@@ -72,7 +72,7 @@ int main(int argc, char** argv) {
         WatchedFile  wf;
         try {
             wf.tracked = resume
-                ? std::make_unique<TrackedFile>(path, resume->inode, resume->offset)
+                ? std::make_unique<TrackedFile>(path, resume->inode, resume->offset, resume->created)
                 : std::make_unique<TrackedFile>(path);
         } catch (const std::runtime_error& error) {
             // Gone since it was listed (rotated, say): the next scan finds it again.
@@ -81,7 +81,7 @@ int main(int argc, char** argv) {
         }
         if (!resume) {
             // From here on it is ours, even if we are restarted before the first delivery.
-            state_store.save(path, wf.tracked->inode(), wf.tracked->offset());
+            state_store.save(path, wf.tracked->inode(), wf.tracked->offset(), wf.tracked->created());
         }
         watched.emplace(path, std::move(wf));
         std::cout << "ekosis_log_shipper: watching " << path << "\n";
@@ -129,7 +129,7 @@ int main(int argc, char** argv) {
 
             PostResult result = http_sender.post_json(payload);
             if (result.success) {
-                state_store.save(path, wf.tracked->inode(), wf.tracked->offset());
+                state_store.save(path, wf.tracked->inode(), wf.tracked->offset(), wf.tracked->created());
                 wf.undelivered.clear();
             } else {
                 std::cerr << "ekosis_log_shipper: POST failed for " << path
diff --git a/ekosis_log_shipper/src/state_store.cpp b/ekosis_log_shipper/src/state_store.cpp
index 8d847b3..9254e27 100644
--- a/ekosis_log_shipper/src/state_store.cpp
+++ b/ekosis_log_shipper/src/state_store.cpp
@@ -6,34 +6,42 @@ StateStore::StateStore(const std::string& db_path)
 {
     _db.exec(
         "CREATE TABLE IF NOT EXISTS tracked_files ("
-        "  path   TEXT PRIMARY KEY,"
-        "  inode  INTEGER NOT NULL,"
-        "  offset INTEGER NOT NULL"
+        "  path    TEXT PRIMARY KEY,"
+        "  inode   INTEGER NOT NULL,"
+        "  offset  INTEGER NOT NULL,"
+        "  created INTEGER NOT NULL DEFAULT 0"
         ")"
     );
+
+    SQLite::Statement has_created(_db, "SELECT 1 FROM pragma_table_info('tracked_files') WHERE name = 'created'");
+    if (!has_created.executeStep()) { // written by an earlier version
+        _db.exec("ALTER TABLE tracked_files ADD COLUMN created INTEGER NOT NULL DEFAULT 0");
+    }
 }
 
 // --------------------------------------------------------------------------------
 std::optional<StateStore::FileState> StateStore::load(const std::string& path) {
-    SQLite::Statement query(_db, "SELECT inode, offset FROM tracked_files WHERE path = ?");
+    SQLite::Statement query(_db, "SELECT inode, offset, created FROM tracked_files WHERE path = ?");
     query.bind(1, path);
     if (query.executeStep()) {
         return FileState{
             static_cast<uint64_t>(query.getColumn(0).getInt64()),
-            static_cast<uint64_t>(query.getColumn(1).getInt64())
+            static_cast<uint64_t>(query.getColumn(1).getInt64()),
+            static_cast<uint64_t>(query.getColumn(2).getInt64())
         };
     }
     return std::nullopt;
 }
 
 // --------------------------------------------------------------------------------
-void StateStore::save(const std::string& path, uint64_t inode, uint64_t offset) {
+void StateStore::save(const std::string& path, uint64_t inode, uint64_t offset, uint64_t created) {
     SQLite::Statement stmt(_db,
-        "INSERT INTO tracked_files (path, inode, offset) VALUES (?, ?, ?) "
-        "ON CONFLICT(path) DO UPDATE SET inode = excluded.inode, offset = excluded.offset"
+        "INSERT INTO tracked_files (path, inode, offset, created) VALUES (?, ?, ?, ?) "
+        "ON CONFLICT(path) DO UPDATE SET inode = excluded.inode, offset = excluded.offset, created = excluded.created"
     );
     stmt.bind(1, path);
     stmt.bind(2, static_cast<int64_t>(inode));
     stmt.bind(3, static_cast<int64_t>(offset));
+    stmt.bind(4, static_cast<int64_t>(created));
     stmt.exec();
 }
diff --git a/ekosis_log_shipper/src/state_store.hpp b/ekosis_log_shipper/src/state_store.hpp
index 93b2306..6c44640 100644
--- a/ekosis_log_shipper/src/state_store.hpp
+++ b/ekosis_log_shipper/src/state_store.hpp
@@ -18,10 +18,11 @@ public:
     struct FileState {
         uint64_t inode;
         uint64_t offset;
+        uint64_t created; // 0, if not known
     };
 
     std::optional<FileState> load(const std::string& path);
-    void save(const std::string& path, uint64_t inode, uint64_t offset);
+    void save(const std::string& path, uint64_t inode, uint64_t offset, uint64_t created);
 
 private:
     SQLite::Database _db;
diff --git a/ekosis_log_shipper/src/tracked_file.cpp b/ekosis_log_shipper/src/tracked_file.cpp
index 2e5a738..cb902b7 100644
--- a/ekosis_log_shipper/src/tracked_file.cpp
+++ b/ekosis_log_shipper/src/tracked_file.cpp
@@ -13,17 +13,17 @@ TrackedFile::TrackedFile(std::string path)
 }
 
 // --------------------------------------------------------------------------------
-TrackedFile::TrackedFile(std::string path, uint64_t resume_inode, uint64_t resume_offset)
+TrackedFile::TrackedFile(std::string path, uint64_t resume_inode, uint64_t resume_offset, uint64_t resume_created)
     : _path(std::move(path))
 {
     // It may have been rotated while we were away -- poll() reads the files
     // since, whichever one we start with.
-    std::vector<OpenFile> files = open_files_since(resume_inode);
+    std::vector<OpenFile> files = open_files_since(resume_inode, resume_created);
     if (files.empty()) {
         throw std::runtime_error("TrackedFile: unable to open '" + _path + "'");
     }
 
-    bool found = files.back().inode == resume_inode; // if not, it is gone, and all that is left is newer
+    bool found = files.back().is(resume_inode, resume_created); // if not, it is gone, and all that is left is newer
     switch_to(files.back(), found ? resume_offset : 0);
     files.pop_back();
     for (const auto& file : files) {
@@ -51,12 +51,18 @@ bool TrackedFile::open_file(const std::string& path, OpenFile& file) {
         return false;
     }
 
-    file = OpenFile{fd, static_cast<uint64_t>(file_stat.st_ino)};
+    uint64_t     created = 0;
+    struct statx file_statx{};
+    if (::statx(fd, "", AT_EMPTY_PATH, STATX_BTIME, &file_statx) == 0 && (file_statx.stx_mask & STATX_BTIME)) {
+        created = static_cast<uint64_t>(file_statx.stx_btime.tv_sec) * 1'000'000'000ULL + file_statx.stx_btime.tv_nsec;
+    }
+
+    file = OpenFile{fd, static_cast<uint64_t>(file_stat.st_ino), created};
     return true;
 }
 
 // --------------------------------------------------------------------------------
-std::vector<TrackedFile::OpenFile> TrackedFile::open_files_since(uint64_t inode) const {
+std::vector<TrackedFile::OpenFile> TrackedFile::open_files_since(uint64_t inode, uint64_t created) const {
     std::vector<OpenFile> files;
 
     // RotatingFileHandler renames from the oldest to the newest file, so while
@@ -82,7 +88,7 @@ std::vector<TrackedFile::OpenFile> TrackedFile::open_files_since(uint64_t inode)
             }
         }
         files.push_back(file);
-        if (file.inode == inode) {
+        if (file.is(inode, created)) {
             break;
         }
     }
@@ -102,6 +108,7 @@ void TrackedFile::switch_to(const OpenFile& file, uint64_t start_offset) {
     _fd      = file.fd;
     _inode   = file.inode;
     _offset  = start_offset;
+    _created = file.created;
     _pending.clear();
 }
 
@@ -148,7 +155,7 @@ std::vector<std::string> TrackedFile::poll() {
         // switching. The old fd is still attached to the renamed/unlinked
         // file regardless of its current name -- this is what makes the
         // drain safe rather than a race against the rename.
-        std::vector<OpenFile> files = open_files_since(_inode);
+        std::vector<OpenFile> files = open_files_since(_inode, _created);
         read_available_lines(lines);
         while (!files.empty()) {
             if (files.back().inode == _inode) {
diff --git a/ekosis_log_shipper/src/tracked_file.hpp b/ekosis_log_shipper/src/tracked_file.hpp
index 39c97d9..98a3fcf 100644
--- a/ekosis_log_shipper/src/tracked_file.hpp
+++ b/ekosis_log_shipper/src/tracked_file.hpp
@@ -18,7 +18,8 @@
 class TrackedFile {
 public:
     explicit TrackedFile(std::string path);
-    TrackedFile(std::string path, uint64_t resume_inode, uint64_t resume_offset);
+    // The inode of a deleted file can be reused, hence the time of creation (0, if not known).
+    TrackedFile(std::string path, uint64_t resume_inode, uint64_t resume_offset, uint64_t resume_created = 0);
     ~TrackedFile();
 
     TrackedFile(const TrackedFile&)            = delete;
@@ -35,18 +36,24 @@ public:
     const std::string& path()   const { return _path;   }
     uint64_t            inode() const { return _inode;  }
     uint64_t            offset() const { return _offset; }
+    uint64_t            created() const { return _created; } // unix nanoseconds, 0 if not known
 
 private:
     struct OpenFile {
         int      fd;
         uint64_t inode;
+        uint64_t created;
+
+        bool is(uint64_t other_inode, uint64_t other_created) const {
+            return inode == other_inode && (created == other_created || created == 0 || other_created == 0);
+        }
     };
 
     static bool open_file(const std::string& path, OpenFile& file);
 
     // The files at path and path.1, path.2, ... up to and including the one
-    // with the given inode, or all of them if there is none. Newest first.
-    std::vector<OpenFile> open_files_since(uint64_t inode) const;
+    // that is given, or all of them if there is none. Newest first.
+    std::vector<OpenFile> open_files_since(uint64_t inode, uint64_t created) const;
 
     void switch_to(const OpenFile& file, uint64_t start_offset);
     void open_at_path(uint64_t start_offset);
@@ -56,5 +63,6 @@ private:
     int         _fd     = -1;
     uint64_t    _inode  = 0;
     uint64_t    _offset = 0;
+    uint64_t    _created = 0;
     std::string _pending; // bytes read but not yet part of a complete line
 };
-- 
2.43.0


From 5d561f5eac273a77c1087acf9093b1c211ec8af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:04 +0000
Subject: [PATCH 39/60] fix: a TCP or UDS server that was not set up yet does
 not keep the application from shutting down

---
 ekosis/servers/json/tcp.py | 6 ++++--
 ekosis/servers/json/uds.py | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/ekosis/servers/json/tcp.py b/ekosis/servers/json/tcp.py
index 17cdc39..127cc2c 100644
--- a/ekosis/servers/json/tcp.py
+++ b/ekosis/servers/json/tcp.py
@@ -20,7 +20,8 @@ class TCPServer(StreamServerBase):
             await self.__setup_server()
         except Exception as e:
             self._running = False
-            self._server.close()
+            if self._server is not None: # It is set up.
+                self._server.close()
             raise e
 
     # --------------------------------------------------------------------------------
@@ -32,7 +33,8 @@ class TCPServer(StreamServerBase):
         if self._running:
             self._running = False
             self._logger.info(f"Stopping TCP server for {self.host}:{self.port}.")
-            self._server.close()
+            if self._server is not None: # It is set up.
+                self._server.close()
 
     # --------------------------------------------------------------------------------
     async def __setup_server(self):
diff --git a/ekosis/servers/json/uds.py b/ekosis/servers/json/uds.py
index 30fe199..d919489 100644
--- a/ekosis/servers/json/uds.py
+++ b/ekosis/servers/json/uds.py
@@ -22,7 +22,8 @@ class UDSServer(StreamServerBase):
                 await self.__setup_server()
             except Exception as e:
                 self._running = False
-                self._server.close()
+                if self._server is not None: # It is set up.
+                    self._server.close()
                 raise e
         else:
             self._logger.info(f"UDS not supported on this platform, will not start server.")
@@ -37,7 +38,8 @@ class UDSServer(StreamServerBase):
         if self._running:
             self._running = False
             self._logger.info(f"Stopping UDS server for {self.__server_path}.")
-            self._server.close()
+            if self._server is not None: # It is set up.
+                self._server.close()
 
     # --------------------------------------------------------------------------------
     async def __setup_server(self):
-- 
2.43.0


From 1d4a469258a85931a5487fd9f78765ac1a349ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:04 +0000
Subject: [PATCH 40/60] fix: a TCP or UDS server does not go on accepting
 requests when its setup is cancelled

---
 ekosis/servers/json/tcp.py | 2 +-
 ekosis/servers/json/uds.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ekosis/servers/json/tcp.py b/ekosis/servers/json/tcp.py
index 127cc2c..c36b443 100644
--- a/ekosis/servers/json/tcp.py
+++ b/ekosis/servers/json/tcp.py
@@ -38,7 +38,7 @@ class TCPServer(StreamServerBase):
 
     # --------------------------------------------------------------------------------
     async def __setup_server(self):
-        self._server   = await asyncio.start_server(self._handle_request, self.host, self.port)
+        self._server   = await asyncio.start_server(self._handle_request, self.host, self.port, start_serving=False)
         serving_address = self._server.sockets[0].getsockname()
         self._logger.info(f'Serving TCP on {serving_address}')
 
diff --git a/ekosis/servers/json/uds.py b/ekosis/servers/json/uds.py
index d919489..f210810 100644
--- a/ekosis/servers/json/uds.py
+++ b/ekosis/servers/json/uds.py
@@ -43,7 +43,7 @@ class UDSServer(StreamServerBase):
 
     # --------------------------------------------------------------------------------
     async def __setup_server(self):
-        self._server   = await asyncio.start_unix_server(self._handle_request, self.__server_path)
+        self._server   = await asyncio.start_unix_server(self._handle_request, self.__server_path, start_serving=False)
         serving_address = self._server.sockets[0].getsockname()
         self._logger.info(f'Serving UDS on {serving_address}')
 
-- 
2.43.0


From 920395eb12eb9ed2a9b889d1d7dd881ef1ba4232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:04 +0000
Subject: [PATCH 41/60] fix: clients that do not read their responses do not
 hold up the shutdown

---
 ekosis/servers/stream_server_base.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/ekosis/servers/stream_server_base.py b/ekosis/servers/stream_server_base.py
index e7240e4..939af22 100644
--- a/ekosis/servers/stream_server_base.py
+++ b/ekosis/servers/stream_server_base.py
@@ -20,7 +20,20 @@ class StreamServerBase(ServerBase):
     # TODO: Check client against white-list!
     # --------------------------------------------------------------------------------
     async def _handle_request(self, reader: asyncio.StreamReader, writer: asyncio.StreamWriter) -> None:
+        try:
+            await self.__handle_connection(reader, writer)
+            await writer.wait_closed()
+        except asyncio.CancelledError:
+            writer.transport.abort() # The server waits for connections to be closed, and the client might never read its responses.
+            raise
+        except OSError as e: # There is nobody left to respond to.
+            self._logger.info(f"Connection lost: {e}")
+            writer.close()
+
+    # --------------------------------------------------------------------------------
+    async def __handle_connection(self, reader: asyncio.StreamReader, writer: asyncio.StreamWriter) -> None:
         if not self._running:
+            writer.close()
             return
         while True: # We keep the connection open.
             try:
-- 
2.43.0


From 18c1f3b038a8f7a8aadef1d36c7e7f3d165ac55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:18 +0000
Subject: [PATCH 42/60] fix: a UDP client ignores responses that do not belong
 to its request

---
 ekosis/clients/datagram_client_base.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/ekosis/clients/datagram_client_base.py b/ekosis/clients/datagram_client_base.py
index 9fdaf69..78cf688 100644
--- a/ekosis/clients/datagram_client_base.py
+++ b/ekosis/clients/datagram_client_base.py
@@ -1,8 +1,10 @@
+import json
 import asyncio
 import logging
 
 from .client_base import ClientBase
 
+from ..data_transfer_objects import RequestDTO, ResponseDTO, SpanKey
 from ..exceptions import (
     CommunicationsNonRetryable,
     CommunicationsMaxRetriesReached,
@@ -14,6 +16,7 @@ log = logging.getLogger()
 class DatagramProtocolClient(asyncio.DatagramProtocol):
     def __init__(self, timeout: float):
         self.timeout  : float                     = timeout
+        self.span_key : SpanKey                   = None
         self.response : asyncio.Future            = None
         self.transport: asyncio.DatagramTransport = None
 
@@ -21,15 +24,25 @@ class DatagramProtocolClient(asyncio.DatagramProtocol):
     def connection_made(self, transport):
         self.transport = transport
 
+    # --------------------------------------------------------------------------------
+    # Datagrams can be late, even for the previous owner of our port, or be duplicated.
+    def __is_another_response(self, data: bytes) -> bool:
+        try:
+            span_key = ResponseDTO(**json.loads(data.decode())).span_key
+        except Exception: # Up to the caller.
+            return False
+        return span_key is not None and span_key != self.span_key
+
     # --------------------------------------------------------------------------------
     def datagram_received(self, data: bytes, address: tuple[str, int]) -> None:
-        if self.response and not self.response.done():
+        if self.response and not self.response.done() and not self.__is_another_response(data):
             self.response.set_result(data.decode())
             self.response = None
 
     # --------------------------------------------------------------------------------
     async def send_message(self, message: str):
         if self.transport is not None:
+            self.span_key = RequestDTO(**json.loads(message)).span_key
             self.response = asyncio.Future()
             self.transport.sendto(message.encode())
             return await asyncio.wait_for(self.response, timeout=self.timeout)
-- 
2.43.0


From 6b093f812c5a2ab401215a52dd1b9949fa2985f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:33 +0000
Subject: [PATCH 43/60] fix: the buffered sender command line tool works

---
 ekosis/cli/bsm.py | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/ekosis/cli/bsm.py b/ekosis/cli/bsm.py
index 1982925..8ff920b 100644
--- a/ekosis/cli/bsm.py
+++ b/ekosis/cli/bsm.py
@@ -25,16 +25,9 @@ command_line_args: argparse.Namespace = argument_parser.parse_args()
 
 # --------------------------------------------------------------------------------
 async def do_sender_action(client: ClientBase, route_key: str):
-    if (command_line_args.pause_receiving   or
-        command_line_args.pause_processing  or
-        command_line_args.unpause_receiving or
-        command_line_args.unpause_processing):
-        print_error(argument_parser, "Pause and UN-Pause for receiving and processing, is only for buffered endpoints!")
-
-    if command_line_args.data or not any_true_check([
-        command_line_args.data,
-        command_line_args.pause_all,
-        command_line_args.unpause_all,
+    if not any_true_check([
+        command_line_args.pause_sending,
+        command_line_args.unpause_sending,
         command_line_args.error_10,
         command_line_args.reprocess_all,
         command_line_args.clear,
@@ -45,10 +38,10 @@ async def do_sender_action(client: ClientBase, route_key: str):
         await EcoBufferedSenderDataSender(client).send(route_key)
         return
 
-    if command_line_args.pause_all:
+    if command_line_args.pause_sending:
         await EcoBufferedSenderSendProcessPauseSender(client).send(route_key)
         return
-    if command_line_args.unpause_all:
+    if command_line_args.unpause_sending:
         await EcoBufferedSenderSendProcessUnPauseSender(client).send(route_key)
         return
     if command_line_args.error_10:
-- 
2.43.0


From 339ce60911655731674eac80b5a087d59fe1303f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:33 +0000
Subject: [PATCH 44/60] fix: initiate_otlp_tracing can be imported the way it
 is documented

---
 ekosis_otlp_traces/ekosis_otlp_traces/setup.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ekosis_otlp_traces/ekosis_otlp_traces/setup.py b/ekosis_otlp_traces/ekosis_otlp_traces/setup.py
index 701984e..3c44259 100644
--- a/ekosis_otlp_traces/ekosis_otlp_traces/setup.py
+++ b/ekosis_otlp_traces/ekosis_otlp_traces/setup.py
@@ -1,8 +1,9 @@
 from ekosis.configuration.config_models                          import AppConfiguration
 from ekosis.middleware.manager                                   import MiddlewareManager
 from ekosis.middleware.buffered_middleware_manager               import BufferedMiddlewareManager
-from ekosis_otlp_traces.ekosis_otlp_traces.middleware            import OtlpTracingMiddleware
-from ekosis_otlp_traces.ekosis_otlp_traces.buffered_middleware   import OtlpBufferedTracingMiddleware
+
+from .middleware            import OtlpTracingMiddleware
+from .buffered_middleware   import OtlpBufferedTracingMiddleware
 
 # --------------------------------------------------------------------------------
 def initiate_otlp_tracing():
-- 
2.43.0


From 9649f91936b64cce6e8f79e16d1b8fb216587aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:33 +0000
Subject: [PATCH 45/60] fix: requests that share a span key each keep their own
 trace span

---
 .../ekosis_otlp_traces/buffered_middleware.py          | 10 ++++++----
 ekosis_otlp_traces/ekosis_otlp_traces/middleware.py    | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/ekosis_otlp_traces/ekosis_otlp_traces/buffered_middleware.py b/ekosis_otlp_traces/ekosis_otlp_traces/buffered_middleware.py
index 0d6701e..b7227c3 100644
--- a/ekosis_otlp_traces/ekosis_otlp_traces/buffered_middleware.py
+++ b/ekosis_otlp_traces/ekosis_otlp_traces/buffered_middleware.py
@@ -1,3 +1,4 @@
+from contextvars         import ContextVar
 from opentelemetry       import trace
 from opentelemetry.trace import NonRecordingSpan, SpanContext, TraceFlags
 from pydantic            import BaseModel as PydanticBaseModel
@@ -12,8 +13,8 @@ _RECEIVE_SPAN_ID_KEY = "otlp_receive_span_id"
 # --------------------------------------------------------------------------------
 class OtlpBufferedTracingMiddleware(BufferedMiddlewareBase):
     def __init__(self, tracing_middleware: OtlpTracingMiddleware):
-        self._tracing       = tracing_middleware
-        self._process_spans = {}
+        self._tracing      = tracing_middleware
+        self._process_span = ContextVar("otlp_process_span", default=None) # One per worker, span keys are not unique.
 
     # --------------------------------------------------------------------------------
     async def before_push(self, span_key: SpanKey, dto: PydanticBaseModel) -> dict:
@@ -40,11 +41,12 @@ class OtlpBufferedTracingMiddleware(BufferedMiddlewareBase):
         span.set_attribute("request.trace_id", str(span_key.trace_id))
         span.set_attribute("request.span_id",  str(span_key.span_id))
         span.set_attribute("request.retries",  retries)
-        self._process_spans[span_key] = span
+        self._process_span.set(span)
 
     # --------------------------------------------------------------------------------
     async def after_process(self, span_key: SpanKey, dto: PydanticBaseModel, metadata: dict, success: bool) -> None:
-        span = self._process_spans.pop(span_key, None)
+        span = self._process_span.get()
         if span:
+            self._process_span.set(None)
             span.set_attribute("process.success", success)
             span.end()
diff --git a/ekosis_otlp_traces/ekosis_otlp_traces/middleware.py b/ekosis_otlp_traces/ekosis_otlp_traces/middleware.py
index 9e8524b..e9fd297 100644
--- a/ekosis_otlp_traces/ekosis_otlp_traces/middleware.py
+++ b/ekosis_otlp_traces/ekosis_otlp_traces/middleware.py
@@ -1,3 +1,4 @@
+from contextvars                               import ContextVar
 from opentelemetry                             import trace
 from opentelemetry.sdk.trace                   import TracerProvider
 from opentelemetry.sdk.trace.export            import BatchSpanProcessor
@@ -12,7 +13,7 @@ from ekosis.configuration.config_models        import AppConfiguration
 
 # --------------------------------------------------------------------------------
 class OtlpTracingMiddleware(MiddlewareBase):
-    _active_spans        = {}
+    _active_span         = ContextVar("otlp_active_span", default=None) # One per request, span keys are not unique.
     application_name     = AppConfiguration().name
     application_instance = AppConfiguration().instance
 
@@ -41,17 +42,18 @@ class OtlpTracingMiddleware(MiddlewareBase):
         span.set_attribute("request.trace_id",  str(span_key.trace_id))
         span.set_attribute("request.span_id",   str(span_key.span_id))
         span.set_attribute("request.route_key", protocol_dto.route_key)
-        self._active_spans[span_key] = span
+        self._active_span.set(span)
         return protocol_dto
 
     # --------------------------------------------------------------------------------
     async def after_routing(self, protocol_dto: RequestDTO, response_dto: PydanticBaseModel, **kwargs) -> PydanticBaseModel:
-        span = self._active_spans.pop(protocol_dto.span_key, None)
+        span = self._active_span.get()
         if span:
+            self._active_span.set(None)
             span.set_status(StatusCode.OK)
             span.end()
         return response_dto
 
     # --------------------------------------------------------------------------------
     def get_active_span(self, span_key: SpanKey):
-        return self._active_spans.get(span_key)
+        return self._active_span.get()
-- 
2.43.0


From 5d1d9746a88a87b02a16aa9f5823c7cbc9d11720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:33 +0000
Subject: [PATCH 46/60] fix: after_process also runs when a buffered handler
 raised

---
 ekosis/requests/buffered_handler_base.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/ekosis/requests/buffered_handler_base.py b/ekosis/requests/buffered_handler_base.py
index 11d188a..039b42f 100644
--- a/ekosis/requests/buffered_handler_base.py
+++ b/ekosis/requests/buffered_handler_base.py
@@ -187,9 +187,11 @@ class BufferedRequestHandlerBase(Generic[_T], HandlerBase, ABC):
             metadata      = buffered_item.metadata
             token         = _set_current_span_key(span_key)
             handled       = False # Until the handler has given its verdict.
+            started       = False # Until before_process is done.
             try:
                 request_data = self.request_dto_type(**buffered_item.data)
                 await BufferedMiddlewareManager().run_before_process(span_key, request_data, metadata, retries)
+                started = True
                 success = await self.process_buffered_request(span_key = span_key, dto = request_data)
                 handled = True
                 if not success:
@@ -207,9 +209,18 @@ class BufferedRequestHandlerBase(Generic[_T], HandlerBase, ABC):
                 self.log.exception(f"Buffered handler [{self.get_route_key()}] failed on [{span_key}].")
                 if not handled:
                     await self.queue.push_error(span_key, buffered_item.data, str(e), metadata)
+                    if started:
+                        await self.__after_failed_process(span_key, request_data, metadata)
             finally:
                 _reset_current_span_key(token)
 
+    # --------------------------------------------------------------------------------
+    async def __after_failed_process(self, span_key: SpanKey, request_data: _T, metadata: dict):
+        try:
+            await BufferedMiddlewareManager().run_after_process(span_key, request_data, metadata, False)
+        except Exception:
+            self.log.exception(f"Buffered handler [{self.get_route_key()}] middleware failed on [{span_key}].")
+
     # --------------------------------------------------------------------------------
     async def _process_queue(self):
         _set_current_span_key(None) # This task started with the context of whatever request happened to start it.
-- 
2.43.0


From f0d66397d17a7792497d2c42a881d16ade49b6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:07 +0000
Subject: [PATCH 47/60] fix: the Prometheus scraper finds UDS services
 configured as DEFAULT, and skips empty ones

---
 ekosis_prometheus/ekosis_prometheus/service_discovery.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ekosis_prometheus/ekosis_prometheus/service_discovery.py b/ekosis_prometheus/ekosis_prometheus/service_discovery.py
index 92a7172..83cbbcf 100644
--- a/ekosis_prometheus/ekosis_prometheus/service_discovery.py
+++ b/ekosis_prometheus/ekosis_prometheus/service_discovery.py
@@ -59,6 +59,11 @@ def discover_local_services() -> List[DiscoveredService]:
             name, instance = _parse_name_instance(raw_name)
 
             if protocol == "UDS":
+                if not value: # An empty variable is the same as one that isn't set.
+                    break
+                directory, file_name = os.path.split(value)
+                if file_name == "DEFAULT":
+                    value = os.path.join(directory, f"{name}_{instance.lower()}.uds.sock")
                 services.append(DiscoveredService(
                     name     = name,
                     instance = instance,
-- 
2.43.0


From 04e55d8fcdddc230baed0a04db4266f21ee3bb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:07 +0000
Subject: [PATCH 48/60] fix: the Prometheus scraper publishes endpoints
 whatever the depth of their route key

---
 .../ekosis_prometheus/stats_translator.py     | 76 ++++++++++---------
 1 file changed, 40 insertions(+), 36 deletions(-)

diff --git a/ekosis_prometheus/ekosis_prometheus/stats_translator.py b/ekosis_prometheus/ekosis_prometheus/stats_translator.py
index 9af7e92..35c7af0 100644
--- a/ekosis_prometheus/ekosis_prometheus/stats_translator.py
+++ b/ekosis_prometheus/ekosis_prometheus/stats_translator.py
@@ -17,6 +17,24 @@ def _flatten(obj: Any, prefix: str) -> Generator[Tuple[str, float], None, None]:
         yield prefix, float(obj)
 
 
+# --------------------------------------------------------------------------------
+def _iter_route_keys(
+    tree           : Dict,
+    exclude_groups : Set[str],
+    prefix         : Tuple[str, ...] = (),
+) -> Generator[Tuple[str, str, Dict], None, None]:
+    # Route keys can have any number of dots in them: "echo", "tracker.log_request",
+    # "app.queues.add". The statistics nest one level per dot.
+    for key, value in tree.items():
+        if not isinstance(value, dict) or (not prefix and key in exclude_groups):
+            continue
+        if prefix:
+            yield prefix[0], ".".join((*prefix[1:], key)), value
+        else:
+            yield "", key, value
+        yield from _iter_route_keys(value, exclude_groups, (*prefix, key))
+
+
 # --------------------------------------------------------------------------------
 def _iter_queue_groups(
     queue_data     : Dict,
@@ -24,21 +42,14 @@ def _iter_queue_groups(
     metric_prefix  : str,
     labels         : Dict,
 ) -> Generator[Tuple[str, float, dict], None, None]:
-    for group, endpoints in queue_data.items():
-        if group in exclude_groups:
-            continue
-        if not isinstance(endpoints, dict):
-            continue
-        for endpoint_name, sizes in endpoints.items():
-            if not isinstance(sizes, dict):
-                continue
-            queue_labels = {**labels, "group": group, "endpoint": endpoint_name}
-            pending = sizes.get("pending")
-            if pending is not None:
-                yield f"{metric_prefix}_queue_pending", float(pending), queue_labels
-            error = sizes.get("error")
-            if error is not None:
-                yield f"{metric_prefix}_queue_error", float(error), queue_labels
+    for group, endpoint_name, sizes in _iter_route_keys(queue_data, exclude_groups):
+        queue_labels = {**labels, "group": group, "endpoint": endpoint_name}
+        pending = sizes.get("pending")
+        if isinstance(pending, (int, float)):
+            yield f"{metric_prefix}_queue_pending", float(pending), queue_labels
+        error = sizes.get("error")
+        if isinstance(error, (int, float)):
+            yield f"{metric_prefix}_queue_error", float(error), queue_labels
 
 
 # --------------------------------------------------------------------------------
@@ -78,27 +89,20 @@ def translate_gathered_stats(
 
     # endpoint_data -- call_count, p95, p99 per endpoint (user groups only)
     endpoint_data = stats.get("endpoint_data", {})
-    for group, endpoints in endpoint_data.items():
-        if group in exclude_groups:
-            continue
-        if not isinstance(endpoints, dict):
-            continue
-        for endpoint_name, data in endpoints.items():
-            if not isinstance(data, dict):
-                continue
-            endpoint_labels = {**labels, "group": group, "endpoint": endpoint_name}
-
-            call_count = data.get("call_count")
-            if call_count is not None:
-                yield "ekosis_endpoint_call_count", float(call_count), endpoint_labels
-
-            p95 = data.get("p95")
-            if p95 is not None and p95 >= 0:
-                yield "ekosis_endpoint_p95_seconds", float(p95), endpoint_labels
-
-            p99 = data.get("p99")
-            if p99 is not None and p99 >= 0:
-                yield "ekosis_endpoint_p99_seconds", float(p99), endpoint_labels
+    for group, endpoint_name, data in _iter_route_keys(endpoint_data, exclude_groups):
+        endpoint_labels = {**labels, "group": group, "endpoint": endpoint_name}
+
+        call_count = data.get("call_count")
+        if isinstance(call_count, (int, float)):
+            yield "ekosis_endpoint_call_count", float(call_count), endpoint_labels
+
+        p95 = data.get("p95")
+        if isinstance(p95, (int, float)) and p95 >= 0:
+            yield "ekosis_endpoint_p95_seconds", float(p95), endpoint_labels
+
+        p99 = data.get("p99")
+        if isinstance(p99, (int, float)) and p99 >= 0:
+            yield "ekosis_endpoint_p99_seconds", float(p99), endpoint_labels
 
     # buffered endpoint queues
     yield from _iter_queue_groups(
-- 
2.43.0


From da37ec023b21c9c7e87a8f1d8e7ac34da7faea48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:07 +0000
Subject: [PATCH 49/60] fix: custom statistics whose names only differ in
 special characters do not spoil the push to the Pushgateway

---
 .../ekosis_prometheus/stats_translator.py             | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ekosis_prometheus/ekosis_prometheus/stats_translator.py b/ekosis_prometheus/ekosis_prometheus/stats_translator.py
index 35c7af0..24abdf8 100644
--- a/ekosis_prometheus/ekosis_prometheus/stats_translator.py
+++ b/ekosis_prometheus/ekosis_prometheus/stats_translator.py
@@ -1,3 +1,5 @@
+import re
+
 from typing import Any, Dict, Generator, Optional, Set, Tuple
 
 
@@ -7,11 +9,16 @@ from typing import Any, Dict, Generator, Optional, Set, Tuple
 _DEFAULT_EXCLUDE_GROUPS: Set[str] = {"eco"}
 
 
+# --------------------------------------------------------------------------------
+def _safe(key: str) -> str:
+    return re.sub(r"[^a-zA-Z0-9_]", "_", key)
+
+
 # --------------------------------------------------------------------------------
 def _flatten(obj: Any, prefix: str) -> Generator[Tuple[str, float], None, None]:
     if isinstance(obj, dict):
         for key, val in obj.items():
-            safe_key = key.replace(".", "_").replace("-", "_")
+            safe_key = _safe(key)
             yield from _flatten(val, f"{prefix}_{safe_key}" if prefix else safe_key)
     elif isinstance(obj, (int, float)):
         yield prefix, float(obj)
@@ -133,5 +140,5 @@ def translate_gathered_stats(
     for key, val in stats.items():
         if key in known_keys:
             continue
-        for metric_suffix, metric_val in _flatten(val, key):
+        for metric_suffix, metric_val in _flatten(val, _safe(key)):
             yield f"ekosis_custom_{metric_suffix}", metric_val, labels
-- 
2.43.0


From 8c288ef3dff3c38b339e20ddbf2f88c207347e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:07 +0000
Subject: [PATCH 50/60] fix: a service that went down keeps the identity it
 reported in its Prometheus metrics

---
 ekosis_prometheus/ekosis_prometheus/scraper.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/ekosis_prometheus/ekosis_prometheus/scraper.py b/ekosis_prometheus/ekosis_prometheus/scraper.py
index 568bcc7..775499c 100644
--- a/ekosis_prometheus/ekosis_prometheus/scraper.py
+++ b/ekosis_prometheus/ekosis_prometheus/scraper.py
@@ -60,6 +60,11 @@ class _ServiceScrapeTarget:
         self.sender  = _StatsSender(self.client) if self.client else None
         self.healthy = False
 
+        # Identity used for labels. Service discovery only knows what is in the
+        # environment variable, the service itself knows better once it responded.
+        self.name     = service.name
+        self.instance = service.instance
+
 
 # --------------------------------------------------------------------------------
 class EkosisPrometheusScraper:
@@ -104,8 +109,8 @@ class EkosisPrometheusScraper:
                 # Use identity from the stats response -- more authoritative than service discovery.
                 # Falls back to discovery values if the application block is absent.
                 app      = stats.get("application", {})
-                svc_name = app.get("name",     target.service.name)
-                svc_inst = app.get("instance", target.service.instance)
+                svc_name = target.name     = app.get("name",     target.name)
+                svc_inst = target.instance = app.get("instance", target.instance)
                 health_gauge.labels(service=svc_name, instance=svc_inst).set(1)
 
                 for metric_name, value, labels in translate_gathered_stats(stats, svc_name, svc_inst):
@@ -116,7 +121,7 @@ class EkosisPrometheusScraper:
 
             except Exception as e:
                 target.healthy = False
-                health_gauge.labels(service=target.service.name, instance=target.service.instance).set(0)
+                health_gauge.labels(service=target.name, instance=target.instance).set(0)
                 log.warning(f"Failed to scrape [{target.key}]: {e}")
 
         try:
-- 
2.43.0


From 341b9b0568ffd25c4e58612f904f718b2bdb7560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:07 +0000
Subject: [PATCH 51/60] fix: a slow Pushgateway does not block the event loop
 of the Prometheus scraper

---
 ekosis_prometheus/ekosis_prometheus/scraper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ekosis_prometheus/ekosis_prometheus/scraper.py b/ekosis_prometheus/ekosis_prometheus/scraper.py
index 775499c..caf76f7 100644
--- a/ekosis_prometheus/ekosis_prometheus/scraper.py
+++ b/ekosis_prometheus/ekosis_prometheus/scraper.py
@@ -125,6 +125,7 @@ class EkosisPrometheusScraper:
                 log.warning(f"Failed to scrape [{target.key}]: {e}")
 
         try:
-            push_to_gateway(self._pushgateway, job=self._job_name, registry=registry)
+            # push_to_gateway does blocking I/O
+            await asyncio.to_thread(push_to_gateway, self._pushgateway, job=self._job_name, registry=registry)
         except Exception as e:
             log.error(f"Failed to push to Pushgateway [{self._pushgateway}]: {e}")
-- 
2.43.0


From 36f2a8fc29ef643e453e3a60aaf134d45c4da6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:58 +0000
Subject: [PATCH 52/60] fix: a buffered sender loses an item it can no longer
 read, and stops sending

---
 ekosis/sending/buffered_sender_base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ekosis/sending/buffered_sender_base.py b/ekosis/sending/buffered_sender_base.py
index 98c3bdf..570b5b9 100644
--- a/ekosis/sending/buffered_sender_base.py
+++ b/ekosis/sending/buffered_sender_base.py
@@ -91,10 +91,11 @@ class BufferedSenderBase(Generic[_RequestDTOType, _ResponseDTOType], SenderBase[
         while not self._sending_paused and self.queue.pending_q.size():
             buffered_item = await self.queue.pop()
             span_key      = buffered_item.span_key
-            request_data  = self._request_dto_type(**buffered_item.data)
+            request_data  = buffered_item.data
             retries       = buffered_item.retries
             _set_current_span_key(span_key)
             try:
+                request_data = self._request_dto_type(**buffered_item.data)
                 if self.wait_period > 0:
                     await asyncio.sleep(self.wait_period)
                 await self.send_data(request_data, span_key)
-- 
2.43.0


From 22b1f7a86ee72f6157581d42a95c6f8046f881bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:10 +0000
Subject: [PATCH 53/60] fix: an error queue item that no longer fits its DTO is
 lost by popping it

---
 ekosis/requests/buffered_handler_base.py | 19 ++++++++++---------
 ekosis/sending/buffered_sender_base.py   | 19 ++++++++++---------
 2 files changed, 20 insertions(+), 18 deletions(-)

diff --git a/ekosis/requests/buffered_handler_base.py b/ekosis/requests/buffered_handler_base.py
index 039b42f..f302579 100644
--- a/ekosis/requests/buffered_handler_base.py
+++ b/ekosis/requests/buffered_handler_base.py
@@ -89,10 +89,10 @@ class BufferedRequestHandlerBase(Generic[_T], HandlerBase, ABC):
 
     # --------------------------------------------------------------------------------
     async def pop_request_from_error_queue(self, span_key: SpanKey) -> _T|None:
-        buffered_request = await self.queue.pop_error_q_span_key(span_key)
-        if buffered_request is None:
-            return None
-        return self.request_dto_type(**buffered_request)
+        request_data = await self.inspect_request_in_error_queue(span_key) # What can not be shown, may not be removed.
+        if request_data is not None:
+            await self.queue.pop_error_q_span_key(span_key)
+        return request_data
 
     # --------------------------------------------------------------------------------
     async def inspect_request_in_error_queue(self, span_key: SpanKey) -> _T|None:
@@ -111,14 +111,15 @@ class BufferedRequestHandlerBase(Generic[_T], HandlerBase, ABC):
 
     # --------------------------------------------------------------------------------
     async def reprocess_error_queue_span_key(self, span_key: SpanKey) -> _T|None:
-        was_paused              = self._processing_paused
+        request_data = await self.inspect_request_in_error_queue(span_key)
+        if request_data is None:
+            return None
+        was_paused = self._processing_paused
         self._processing_paused = True
-        buffered_request        = await self.queue.move_one_error_to_pending(span_key)
+        await self.queue.move_one_error_to_pending(span_key)
         self._processing_paused = was_paused
         self.__check_process_queue()
-        if buffered_request is None:
-            return None
-        return self.request_dto_type(**buffered_request)
+        return request_data
 
     # --------------------------------------------------------------------------------
     def __configure_queue(
diff --git a/ekosis/sending/buffered_sender_base.py b/ekosis/sending/buffered_sender_base.py
index 570b5b9..277a73f 100644
--- a/ekosis/sending/buffered_sender_base.py
+++ b/ekosis/sending/buffered_sender_base.py
@@ -152,10 +152,10 @@ class BufferedSenderBase(Generic[_RequestDTOType, _ResponseDTOType], SenderBase[
 
     # --------------------------------------------------------------------------------
     async def pop_request_from_error_queue(self, span_key: SpanKey):
-        buffered_request = await self.queue.pop_error_q_span_key(span_key)
-        if buffered_request is None:
-            return None
-        return self._request_dto_type(**buffered_request)
+        request_data = await self.inspect_request_in_error_queue(span_key) # What can not be shown, may not be removed.
+        if request_data is not None:
+            await self.queue.pop_error_q_span_key(span_key)
+        return request_data
 
     # --------------------------------------------------------------------------------
     async def inspect_request_in_error_queue(self, span_key: SpanKey):
@@ -174,14 +174,15 @@ class BufferedSenderBase(Generic[_RequestDTOType, _ResponseDTOType], SenderBase[
 
     # --------------------------------------------------------------------------------
     async def reprocess_error_queue_span_key(self, span_key: SpanKey) -> _RequestDTOType|None:
-        was_paused           = self._sending_paused
+        request_data = await self.inspect_request_in_error_queue(span_key)
+        if request_data is None:
+            return None
+        was_paused = self._sending_paused
         self._sending_paused = True
-        buffered_request     = await self.queue.move_one_error_to_pending(span_key)
+        await self.queue.move_one_error_to_pending(span_key)
         self._sending_paused = was_paused
         self.__check_process_send_queue()
-        if buffered_request is None:
-            return None
-        return self._request_dto_type(**buffered_request)
+        return request_data
 
     # --------------------------------------------------------------------------------
     def __configure_queue(
-- 
2.43.0


From 3a5cda07defe2c7c1d17d56ced263eb5c0d67b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:54 +0000
Subject: [PATCH 54/60] fix: a second termination signal, before the event loop
 runs, cuts the shutdown short

---
 ekosis/application_base.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ekosis/application_base.py b/ekosis/application_base.py
index dd34e5d..72e4f9c 100644
--- a/ekosis/application_base.py
+++ b/ekosis/application_base.py
@@ -83,6 +83,7 @@ class ApplicationBase(metaclass=SingletonType):
     __error_state_list    : ErrorStateList          = ErrorStateList()
     __running             : bool                    = False
     __main_loop           : asyncio.AbstractEventLoop = None
+    __terminating         : bool                    = False
     _configuration        : AppConfiguration        = AppConfiguration()
     __server_tcp          : TCPServer               = None
     __server_udp          : UDPServer               = None
@@ -101,6 +102,9 @@ class ApplicationBase(metaclass=SingletonType):
     # --------------------------------------------------------------------------------
     def __handle_exit_signal(self, signum, frame):
         if self.__main_loop is None: # Not in the event loop yet.
+            if self.__terminating: # Raising again, would cut the shutdown short.
+                return
+            self.__terminating = True
             raise TerminationSignalException("Exit signal received")
 
         # An exception raised here, would surface in whatever code happens to be
@@ -321,6 +325,8 @@ class ApplicationBase(metaclass=SingletonType):
     # --------------------------------------------------------------------------------
     async def __start(self):
         self.__main_loop = asyncio.get_running_loop()
+        if self.__terminating: # What the signal raised, did not get out of the code it interrupted.
+            raise TerminationSignalException("Exit signal received")
         tasks = []
 
         await self.__setup_buffered_handlers()
-- 
2.43.0


From 5c4098c96c449e957a90d54f806c3677f2cff31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:52 +0000
Subject: [PATCH 55/60] fix: connecting is not bounded by the timeout of a
 client

---
 ekosis/clients/persistent_stream_client_base.py | 2 +-
 ekosis/clients/stream_client_base.py            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ekosis/clients/persistent_stream_client_base.py b/ekosis/clients/persistent_stream_client_base.py
index d3709f8..c28ff59 100644
--- a/ekosis/clients/persistent_stream_client_base.py
+++ b/ekosis/clients/persistent_stream_client_base.py
@@ -52,7 +52,7 @@ class PersistentStreamClientBase(ClientBase, ABC):
     # --------------------------------------------------------------------------------
     async def __check_connected(self):
         if not self.__connected:
-            self.__reader, self.__writer = await self.open_connection()
+            self.__reader, self.__writer = await asyncio.wait_for(self.open_connection(), self.__timeout)
             self.__connected = True
 
     # --------------------------------------------------------------------------------
diff --git a/ekosis/clients/stream_client_base.py b/ekosis/clients/stream_client_base.py
index 0ee8470..26a9b78 100644
--- a/ekosis/clients/stream_client_base.py
+++ b/ekosis/clients/stream_client_base.py
@@ -32,7 +32,7 @@ class StreamClientBase(ClientBase, ABC):
 
     # --------------------------------------------------------------------------------
     async def _send_message(self, request: str) -> str:
-        reader, writer = await self.open_connection()
+        reader, writer = await asyncio.wait_for(self.open_connection(), self.__timeout)
         writer.write(request.encode())
 
         data = await asyncio.wait_for(reader.readline(), self.__timeout)
-- 
2.43.0


From f7ff390f3f4c056eef248e686be15c2a265c6751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:23 +0000
Subject: [PATCH 56/60] fix: an error queue item whose DTO is falsy is reported
 as missing after it was popped or moved

---
 ekosis/state_keepers/buffered_handler_keeper.py | 6 +++---
 ekosis/state_keepers/buffered_sender_keeper.py  | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ekosis/state_keepers/buffered_handler_keeper.py b/ekosis/state_keepers/buffered_handler_keeper.py
index 18b1f56..2471d9a 100644
--- a/ekosis/state_keepers/buffered_handler_keeper.py
+++ b/ekosis/state_keepers/buffered_handler_keeper.py
@@ -85,7 +85,7 @@ class BufferedHandlerKeeper(metaclass=SingletonType):
         if route_key not in self.__buffered_handlers.keys():
             return None
         result = await self.__buffered_handlers[route_key].pop_request_from_error_queue(span_key)
-        if not result:
+        if result is None:
             return False
         queue_information = await self.__get_queue_information(route_key)
         queue_information["request_data"] = result
@@ -96,7 +96,7 @@ class BufferedHandlerKeeper(metaclass=SingletonType):
         if route_key not in self.__buffered_handlers.keys():
             return None
         result = await self.__buffered_handlers[route_key].inspect_request_in_error_queue(span_key)
-        if not result:
+        if result is None:
             return False
         queue_information = await self.__get_queue_information(route_key)
         queue_information["request_data"] = result.dict()
@@ -121,7 +121,7 @@ class BufferedHandlerKeeper(metaclass=SingletonType):
         if route_key not in self.__buffered_handlers.keys():
             return None
         result = await self.__buffered_handlers[route_key].reprocess_error_queue_span_key(span_key)
-        if not result:
+        if result is None:
             return False
         queue_information = await self.__get_queue_information(route_key)
         queue_information["request_data"] = result.dict()
diff --git a/ekosis/state_keepers/buffered_sender_keeper.py b/ekosis/state_keepers/buffered_sender_keeper.py
index 914f216..d03733d 100644
--- a/ekosis/state_keepers/buffered_sender_keeper.py
+++ b/ekosis/state_keepers/buffered_sender_keeper.py
@@ -96,7 +96,7 @@ class BufferedSenderKeeper(metaclass=SingletonType):
         if route_key not in self.__buffered_senders.keys():
             return None
         result = await self.__buffered_senders[route_key].reprocess_error_queue_span_key(span_key)
-        if not result:
+        if result is None:
             return False
         queue_information = await self.__get_queue_information(route_key)
         queue_information["request_data"] = result.dict()
-- 
2.43.0


From cc89f427a8b41722bdeb194c1d58e89dda033be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:52 +0000
Subject: [PATCH 57/60] fix: text that is not hexadecimal digits is taken for a
 span id

---
 ekosis/data_transfer_objects/span_id.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ekosis/data_transfer_objects/span_id.py b/ekosis/data_transfer_objects/span_id.py
index aa30330..7d02ee6 100644
--- a/ekosis/data_transfer_objects/span_id.py
+++ b/ekosis/data_transfer_objects/span_id.py
@@ -1,4 +1,5 @@
 import os
+import string
 
 from pydantic_core import core_schema
 
@@ -20,11 +21,9 @@ class SpanId:
             int_ = int.from_bytes(bytes_, 'big')  # big endian
 
         if hex_ is not None:
-            if len(hex_) != 16:
+            if len(hex_) != 16 or not all(c in string.hexdigits for c in hex_): # int() also takes signs, prefixes, underscores ...
                 raise ValueError('badly formed hexadecimal SpanId string')
             int_ = int(hex_, 16)
-            if int_ < 0:
-                raise ValueError('badly formed hexadecimal SpanId string')
 
         self._value: int = int_
 
-- 
2.43.0


From 05ce902a7b102a878de6a1b5210208f515b0a9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:52 +0000
Subject: [PATCH 58/60] fix: a run_soon function can not be called with keyword
 arguments

---
 ekosis/util/fire_and_forget_tasks.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ekosis/util/fire_and_forget_tasks.py b/ekosis/util/fire_and_forget_tasks.py
index 87d26f3..bf54abc 100644
--- a/ekosis/util/fire_and_forget_tasks.py
+++ b/ekosis/util/fire_and_forget_tasks.py
@@ -1,4 +1,5 @@
 import asyncio
+import functools
 
 FIRE_AND_FORGET_TASKS = set()
 
@@ -22,7 +23,7 @@ def fire_and_forget_task(coroutine):
 
 # --------------------------------------------------------------------------------
 def run_soon(function):
-    def called_task(loop: asyncio.AbstractEventLoop, *args, **kwargs):
+    def called_task(loop: asyncio.AbstractEventLoop, /, *args, **kwargs):
         task = loop.create_task(function(*args, **kwargs))
         FIRE_AND_FORGET_TASKS.add(task)
         task.add_done_callback(FIRE_AND_FORGET_TASKS.discard)
@@ -30,5 +31,5 @@ def run_soon(function):
 
     def wrapper(*args, **kwargs):
         loop = asyncio.get_running_loop()
-        loop.call_soon(called_task, loop, *args, **kwargs)
+        loop.call_soon(functools.partial(called_task, loop, *args, **kwargs)) # call_soon takes no keyword arguments.
     return wrapper
-- 
2.43.0


From 3d899696fb9e48597c267ef1101778bf9cf34564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:52 +0000
Subject: [PATCH 59/60] fix: what is queued while the application ends from a
 failure is lost

---
 ekosis/application_base.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/ekosis/application_base.py b/ekosis/application_base.py
index 72e4f9c..028e65c 100644
--- a/ekosis/application_base.py
+++ b/ekosis/application_base.py
@@ -99,6 +99,13 @@ class ApplicationBase(metaclass=SingletonType):
         for task in asyncio.all_tasks(self.__main_loop):
             task.cancel()
 
+    # --------------------------------------------------------------------------------
+    def __pause_queue_workers(self):
+        for buffered_handler in self.__request_router.get_buffered_handlers():
+            buffered_handler.pause_processing()
+        for buffered_sender in BufferedSenderKeeper().get_buffered_senders():
+            buffered_sender.pause_send_process()
+
     # --------------------------------------------------------------------------------
     def __handle_exit_signal(self, signum, frame):
         if self.__main_loop is None: # Not in the event loop yet.
@@ -110,10 +117,7 @@ class ApplicationBase(metaclass=SingletonType):
         # An exception raised here, would surface in whatever code happens to be
         # running, and be lost there. So we cancel all tasks from the event loop
         # and keep the queue workers from starting on anything new until then.
-        for buffered_handler in self.__request_router.get_buffered_handlers():
-            buffered_handler.pause_processing()
-        for buffered_sender in BufferedSenderKeeper().get_buffered_senders():
-            buffered_sender.pause_send_process()
+        self.__pause_queue_workers()
         if not self.__main_loop.is_closed():
             self.__main_loop.call_soon_threadsafe(self.__cancel_all_tasks)
 
@@ -349,4 +353,7 @@ class ApplicationBase(metaclass=SingletonType):
         await self.setup_tasks(tasks)
 
         self.__eco_logger.flush()
-        await asyncio.gather(*tasks)
+        try:
+            await asyncio.gather(*tasks)
+        finally: # What is still queued while tasks are being cancelled, may not start a worker that nothing would end.
+            self.__pause_queue_workers()
-- 
2.43.0


From dc8817b7a04cb59053fb142605c7cb0e3a14c8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:52 +0000
Subject: [PATCH 60/60] fix: a termination signal while the event loop is being
 started can hang the application

---
 ekosis/application_base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ekosis/application_base.py b/ekosis/application_base.py
index 028e65c..0fc0088 100644
--- a/ekosis/application_base.py
+++ b/ekosis/application_base.py
@@ -83,6 +83,7 @@ class ApplicationBase(metaclass=SingletonType):
     __error_state_list    : ErrorStateList          = ErrorStateList()
     __running             : bool                    = False
     __main_loop           : asyncio.AbstractEventLoop = None
+    __entering_loop       : bool                    = False
     __terminating         : bool                    = False
     _configuration        : AppConfiguration        = AppConfiguration()
     __server_tcp          : TCPServer               = None
@@ -112,6 +113,8 @@ class ApplicationBase(metaclass=SingletonType):
             if self.__terminating: # Raising again, would cut the shutdown short.
                 return
             self.__terminating = True
+            if self.__entering_loop: # Raising in the event loop's own code, could cost it a task. What is started, looks at __terminating first.
+                return
             raise TerminationSignalException("Exit signal received")
 
         # An exception raised here, would surface in whatever code happens to be
@@ -272,6 +275,7 @@ class ApplicationBase(metaclass=SingletonType):
             self.logger.info("Application not running in context. Shutting down.")
             self.__eco_logger.flush()
             return
+        self.__entering_loop = True
         asyncio.run(self.__start())
 
     # --------------------------------------------------------------------------------
@@ -329,7 +333,7 @@ class ApplicationBase(metaclass=SingletonType):
     # --------------------------------------------------------------------------------
     async def __start(self):
         self.__main_loop = asyncio.get_running_loop()
-        if self.__terminating: # What the signal raised, did not get out of the code it interrupted.
+        if self.__terminating: # What the signal raised, did not get out of the code it interrupted, or it raised nothing.
             raise TerminationSignalException("Exit signal received")
         tasks = []
 
-- 
2.43.0

