From b7ab8aa72d66fed90dd3ccd3d69812d132607687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:56 +0000
Subject: [PATCH 01/42] fix: place results of awaitables in a returned tuple at
 their own positions

---
 python/xoscar/core.pyx | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/python/xoscar/core.pyx b/python/xoscar/core.pyx
index 9ea1ee5..8bf72e0 100644
--- a/python/xoscar/core.pyx
+++ b/python/xoscar/core.pyx
@@ -431,7 +431,7 @@ cdef class _BaseActor:
                 else:
                     result = tuple(task_result if t is coros[0] else t for t in values)
             elif len(coros) > 0:
-                tasks = [asyncio.create_task(t) for t in coros]
+                tasks = [asyncio.ensure_future(t) for t in coros]
                 try:
                     dones, pending = await asyncio.wait(tasks)
                 except asyncio.CancelledError:
@@ -444,8 +444,7 @@ cdef class _BaseActor:
                 if extract_tuple:
                     result = list(dones)[0].result()
                 else:
-                    for pos in coro_poses:
-                        task = tasks[pos]
+                    for pos, task in zip(coro_poses, tasks):
                         values[pos] = task.result()
                     result = tuple(values)
 
-- 
2.43.0


From 9a9354abeada20a69ebe588fef00fa29e8062ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:56 +0000
Subject: [PATCH 02/42] fix: do not let a cancelled call keep other callers of
 a closed client waiting

---
 python/xoscar/backends/core.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/python/xoscar/backends/core.py b/python/xoscar/backends/core.py
index e3ca09d..ee86388 100644
--- a/python/xoscar/backends/core.py
+++ b/python/xoscar/backends/core.py
@@ -112,12 +112,14 @@ class ActorCallerThreadLocal:
                 except DeserializeMessageFailed as e:
                     message_id = e.message_id
                     future = self._client_to_message_futures[client].pop(message_id)
-                    future.set_exception(e.__cause__)  # type: ignore
+                    if not future.done():
+                        future.set_exception(e.__cause__)  # type: ignore
                 except Exception as e:  # noqa: E722  # pylint: disable=bare-except
                     message_futures = self._client_to_message_futures[client]
                     self._client_to_message_futures[client] = dict()
                     for future in message_futures.values():
-                        future.set_exception(copy.copy(e))
+                        if not future.done():
+                            future.set_exception(copy.copy(e))
                 finally:
                     # message may have Ray ObjectRef, delete it early in case next loop doesn't run
                     # as soon as expected.
@@ -135,7 +137,8 @@ class ActorCallerThreadLocal:
             self._client_to_message_futures[client] = dict()
             error = ServerClosed(f"Remote server {client.dest_address} closed")
             for future in message_futures.values():
-                future.set_exception(copy.copy(error))
+                if not future.done():
+                    future.set_exception(copy.copy(error))
         finally:
             try:
                 await client.close()
-- 
2.43.0


From 921cfbb6be672a6e6a88ce4d737cd41281caf41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:56 +0000
Subject: [PATCH 03/42] fix: count the whole block in copy_to_buffers

---
 python/xoscar/backends/context.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/xoscar/backends/context.py b/python/xoscar/backends/context.py
index 89582b1..40ae172 100644
--- a/python/xoscar/backends/context.py
+++ b/python/xoscar/backends/context.py
@@ -397,7 +397,7 @@ class IndigenActorContext(BaseActorContext):
                     one_block_data.append(
                         (r_buf.address, r_buf.uid, last_start, len(l_buf), l_buf)
                     )
-                    current_buf_size = len(l_buf)
+                    current_buf_size += len(l_buf)
 
             if one_block_data:
                 await self._call_with_client(
-- 
2.43.0


From 7d4726ae5d4ed9ea5da8a01f622ed16a87960926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:56 +0000
Subject: [PATCH 04/42] fix: raise errors the remote side reports for copy_to

---
 python/xoscar/backends/context.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/python/xoscar/backends/context.py b/python/xoscar/backends/context.py
index 40ae172..7293c00 100644
--- a/python/xoscar/backends/context.py
+++ b/python/xoscar/backends/context.py
@@ -385,8 +385,10 @@ class IndigenActorContext(BaseActorContext):
                     one_block_data.append(
                         (r_buf.address, r_buf.uid, last_start, remain, l_buf[:remain])
                     )
-                    await self._call_with_client(
-                        client, self._gen_copy_to_buffers_message(one_block_data)
+                    self._process_result_message(
+                        await self._call_with_client(
+                            client, self._gen_copy_to_buffers_message(one_block_data)
+                        )  # type: ignore
                     )
                     one_block_data = []
                     current_buf_size = 0
@@ -400,8 +402,10 @@ class IndigenActorContext(BaseActorContext):
                     current_buf_size += len(l_buf)
 
             if one_block_data:
-                await self._call_with_client(
-                    client, self._gen_copy_to_buffers_message(one_block_data)
+                self._process_result_message(
+                    await self._call_with_client(
+                        client, self._gen_copy_to_buffers_message(one_block_data)
+                    )  # type: ignore
                 )
 
     async def copy_to_fileobjs(
@@ -425,7 +429,9 @@ class IndigenActorContext(BaseActorContext):
                     current_file_size += len(file_data)
                     if current_file_size >= block_size:
                         message = self._gen_copy_to_fileobjs_message(one_block_data)
-                        await self._call_with_client(client, message)
+                        self._process_result_message(
+                            await self._call_with_client(client, message)  # type: ignore
+                        )
                         one_block_data.clear()
                         current_file_size = 0
                 else:
@@ -433,5 +439,7 @@ class IndigenActorContext(BaseActorContext):
 
         if current_file_size > 0:
             message = self._gen_copy_to_fileobjs_message(one_block_data)
-            await self._call_with_client(client, message)
+            self._process_result_message(
+                await self._call_with_client(client, message)  # type: ignore
+            )
             one_block_data.clear()
-- 
2.43.0


From 4446472bb65d4f59f59edc3fd884a0c1fdffd8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:33 +0000
Subject: [PATCH 05/42] fix: hold a placeholder per creation in the main pool
 and always revert it

---
 python/xoscar/backends/pool.py | 73 +++++++++++++++++++---------------
 1 file changed, 40 insertions(+), 33 deletions(-)

diff --git a/python/xoscar/backends/pool.py b/python/xoscar/backends/pool.py
index cb61054..7ad9d29 100644
--- a/python/xoscar/backends/pool.py
+++ b/python/xoscar/backends/pool.py
@@ -1046,47 +1046,54 @@ class MainActorPoolBase(ActorPoolBase):
             protocol=message.protocol,
         ) as processor:
             allocate_strategy = message.allocate_strategy
+            # every creation has a placeholder of its own, several can be
+            # on their way at the same address
+            placeholder = object()
             with self._allocation_lock:
                 # get allocated address according to corresponding strategy
                 address = allocate_strategy.get_allocated_address(
                     self._config, self._allocated_actors
                 )
                 # set placeholder to make sure this label is occupied
-                self._allocated_actors[address][None] = (allocate_strategy, message)
-            if address == self.external_address:
-                # creating actor on main actor pool
-                result = await super().create_actor(message)
-                if isinstance(result, ResultMessage):
-                    self._allocated_actors[self.external_address][result.result] = (
-                        allocate_strategy,
-                        message,
-                    )
-                processor.result = result
-            else:
-                # creating actor on sub actor pool
-                # rewrite allocate strategy to AddressSpecified
-                new_allocate_strategy = AddressSpecified(address)
-                new_create_actor_message = CreateActorMessage(
-                    message.message_id,
-                    message.actor_cls,
-                    message.actor_id,
-                    message.args,
-                    message.kwargs,
-                    allocate_strategy=new_allocate_strategy,
-                    from_main=True,
-                    protocol=message.protocol,
-                    message_trace=message.message_trace,
+                self._allocated_actors[address][placeholder] = (  # type: ignore
+                    allocate_strategy,
+                    message,
                 )
-                result = await self.call(address, new_create_actor_message)
-                if isinstance(result, ResultMessage):
-                    self._allocated_actors[address][result.result] = (
-                        allocate_strategy,
-                        new_create_actor_message,
+            try:
+                if address == self.external_address:
+                    # creating actor on main actor pool
+                    result = await super().create_actor(message)
+                    if isinstance(result, ResultMessage):
+                        self._allocated_actors[self.external_address][result.result] = (
+                            allocate_strategy,
+                            message,
+                        )
+                    processor.result = result
+                else:
+                    # creating actor on sub actor pool
+                    # rewrite allocate strategy to AddressSpecified
+                    new_allocate_strategy = AddressSpecified(address)
+                    new_create_actor_message = CreateActorMessage(
+                        message.message_id,
+                        message.actor_cls,
+                        message.actor_id,
+                        message.args,
+                        message.kwargs,
+                        allocate_strategy=new_allocate_strategy,
+                        from_main=True,
+                        protocol=message.protocol,
+                        message_trace=message.message_trace,
                     )
-                processor.result = result
-
-            # revert placeholder
-            self._allocated_actors[address].pop(None, None)
+                    result = await self.call(address, new_create_actor_message)
+                    if isinstance(result, ResultMessage):
+                        self._allocated_actors[address][result.result] = (
+                            allocate_strategy,
+                            new_create_actor_message,
+                        )
+                    processor.result = result
+            finally:
+                # revert placeholder
+                self._allocated_actors[address].pop(placeholder, None)  # type: ignore
 
         return processor.result
 
-- 
2.43.0


From be807fbd092d78acb66701db641606cfa35cb889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:33 +0000
Subject: [PATCH 06/42] fix: recover all actors when others are created or
 destroyed meanwhile

---
 python/xoscar/backends/indigen/pool.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/xoscar/backends/indigen/pool.py b/python/xoscar/backends/indigen/pool.py
index 9254bf6..7323f12 100644
--- a/python/xoscar/backends/indigen/pool.py
+++ b/python/xoscar/backends/indigen/pool.py
@@ -501,7 +501,8 @@ class MainActorPool(MainActorPoolBase):
 
         if self._auto_recover == "actor":
             # need to recover all created actors
-            for _, message in self._allocated_actors[address].values():
+            # actors may be created or destroyed while recovering
+            for _, message in list(self._allocated_actors[address].values()):
                 create_actor_message: CreateActorMessage = message  # type: ignore
                 await self.call(address, create_actor_message)
 
-- 
2.43.0


From e030dc3b833bcc6bfb9048bf08ae599f6800feaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:33 +0000
Subject: [PATCH 07/42] fix: keep process indexes of different processes apart

---
 python/xoscar/backends/pool.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/xoscar/backends/pool.py b/python/xoscar/backends/pool.py
index 7ad9d29..e659606 100644
--- a/python/xoscar/backends/pool.py
+++ b/python/xoscar/backends/pool.py
@@ -1032,7 +1032,7 @@ class MainActorPoolBase(ActorPoolBase):
         # make sure different processes does not share process indexes
         pid = os.getpid()
         for idx in cls._process_index_gen:
-            yield pid << 16 + idx
+            yield (pid << 16) + idx
 
     @property
     def _sub_processes(self):
-- 
2.43.0


From 2d48ba8d5d657435f59af704547d1776ffad28f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:33 +0000
Subject: [PATCH 08/42] fix: give every serialized object an id of its own

---
 python/xoscar/serialization/core.pyx | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/xoscar/serialization/core.pyx b/python/xoscar/serialization/core.pyx
index bf3bf56..04853aa 100644
--- a/python/xoscar/serialization/core.pyx
+++ b/python/xoscar/serialization/core.pyx
@@ -597,6 +597,7 @@ cdef class _SerialStackItem:
 
 cdef class _IdContextHolder:
     cdef unordered_map[uint64_t, uint64_t] d
+    cdef uint64_t next_id
 
 
 cdef int _COMMON_HEADER_LEN = 4
@@ -624,7 +625,10 @@ cdef tuple _serial_single(
                 ordered_id = id_context_holder.d[obj_id]
             else:
                 obj_id = _fast_id(obj)
-                ordered_id = id_context_holder.d.size()
+                # an object may be serialized more than once, hence the
+                # size of d cannot be used as id
+                ordered_id = id_context_holder.next_id
+                id_context_holder.next_id += 1
                 id_context_holder.d[obj_id] = ordered_id
 
             # REMEMBER to change _COMMON_HEADER_LEN when content of
-- 
2.43.0


From 8d44610ace876a300284325a3efbe07d9b237380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:33 +0000
Subject: [PATCH 09/42] fix: keep a shared empty dict shared through
 serialization

---
 python/xoscar/serialization/core.pyx | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/xoscar/serialization/core.pyx b/python/xoscar/serialization/core.pyx
index 04853aa..053a4b3 100644
--- a/python/xoscar/serialization/core.pyx
+++ b/python/xoscar/serialization/core.pyx
@@ -461,14 +461,14 @@ cdef class DictSerializer(CollectionSerializer):
         cdef tuple key_obj, value_obj
         cdef list key_bufs, value_bufs
 
-        if type(obj) is dict and len(<dict>obj) == 0:
-            return (), [], True
-
         obj_id = _fast_id(obj)
         if obj_id in context:
             return Placeholder(obj_id)
         context[obj_id] = obj
 
+        if type(obj) is dict and len(<dict>obj) == 0:
+            return (), [], True
+
         obj_type = type(obj)
 
         if obj_type is not dict and obj_type not in self._inspected_inherits:
-- 
2.43.0


From 9c3657344def9b6750fc8cffcda4c421f71af8bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:33 +0000
Subject: [PATCH 10/42] fix: do not keep an actor whose __post_create__ failed

---
 python/xoscar/backends/pool.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/xoscar/backends/pool.py b/python/xoscar/backends/pool.py
index e659606..e3ca554 100644
--- a/python/xoscar/backends/pool.py
+++ b/python/xoscar/backends/pool.py
@@ -623,7 +623,12 @@ class ActorPoolBase(AbstractActorPool, metaclass=ABCMeta):
             actor.uid = actor_id
             actor.address = address = self.external_address
             self._actors[actor_id] = actor
-            await self._run_coro(message.message_id, actor.__post_create__())
+            try:
+                await self._run_coro(message.message_id, actor.__post_create__())
+            except BaseException:
+                # creation failed, the actor must not stay
+                self._actors.pop(actor_id, None)
+                raise
 
             proxies = self._router.get_proxies(address)
             result = ActorRef(address, actor_id, proxy_addresses=proxies)
-- 
2.43.0


From 764f17bfcc881f3794ba4109bc4a305e1b3c75aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:33 +0000
Subject: [PATCH 11/42] fix: keep track of an actor on a sub pool whose destroy
 failed

---
 python/xoscar/backends/pool.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/python/xoscar/backends/pool.py b/python/xoscar/backends/pool.py
index e3ca554..c7c4e00 100644
--- a/python/xoscar/backends/pool.py
+++ b/python/xoscar/backends/pool.py
@@ -1132,15 +1132,19 @@ class MainActorPoolBase(ActorPoolBase):
             return ResultMessage(
                 message.message_id, real_actor_ref.uid, protocol=message.protocol
             )
-        # remove allocated actor ref
-        self._allocated_actors[real_actor_ref.address].pop(real_actor_ref, None)
         new_destroy_message = DestroyActorMessage(
             message.message_id,
             real_actor_ref,
             from_main=True,
             protocol=message.protocol,
         )
-        return await self.call(real_actor_ref.address, new_destroy_message)
+        result = await self.call(real_actor_ref.address, new_destroy_message)
+        if isinstance(result, ResultMessage) or isinstance(
+            result.error, ActorNotExist
+        ):
+            # remove allocated actor ref when the actor has gone
+            self._allocated_actors[real_actor_ref.address].pop(real_actor_ref, None)
+        return result
 
     @implements(AbstractActorPool.send)
     async def send(self, message: SendMessage) -> ResultMessageType:
-- 
2.43.0


From f56fc24f31891088ab98f0592c7f4d9884b32a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:33 +0000
Subject: [PATCH 12/42] fix: do not loop forever over proxies that form a cycle

---
 python/xoscar/backends/router.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/xoscar/backends/router.py b/python/xoscar/backends/router.py
index c14a074..31690b6 100644
--- a/python/xoscar/backends/router.py
+++ b/python/xoscar/backends/router.py
@@ -278,7 +278,8 @@ class Router:
             proxy = self.get_proxy(from_addr)
             if not proxies and not proxy:
                 return None
-            elif not proxy:
+            elif not proxy or proxy in proxies:
+                # no more proxies, or proxies form a cycle
                 return proxies
             else:
                 proxies.append(proxy)
-- 
2.43.0


From 4d6af25790160bc51542d977812e53f08119324d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:33 +0000
Subject: [PATCH 13/42] fix: remove the mapping of all addresses of a removed
 pool

---
 python/xoscar/backends/config.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/xoscar/backends/config.py b/python/xoscar/backends/config.py
index 8b34212..af7f00d 100644
--- a/python/xoscar/backends/config.py
+++ b/python/xoscar/backends/config.py
@@ -73,9 +73,9 @@ class ActorPoolConfig:
             mapping[addr] = internal_address
 
     def remove_pool_config(self, process_index: int):
-        addr = self.get_external_address(process_index)
-        del self._conf["pools"][process_index]
-        del self._conf["mapping"][addr]
+        addresses = self._conf["pools"].pop(process_index)["external_address"]
+        for addr in addresses:
+            del self._conf["mapping"][addr]
 
     def get_pool_config(self, process_index: int):
         return self._conf["pools"][process_index]
-- 
2.43.0


From 5c7c368f22b86251d3fb73478499333d38295dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:33 +0000
Subject: [PATCH 14/42] fix: drop inherited handlers of TypeDispatcher on
 registration

---
 python/xoscar/_utils.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/xoscar/_utils.pyx b/python/xoscar/_utils.pyx
index d573355..95e3274 100644
--- a/python/xoscar/_utils.pyx
+++ b/python/xoscar/_utils.pyx
@@ -53,6 +53,8 @@ cdef class TypeDispatcher:
                 self.register(t, handler)
         else:
             self._handlers[type_] = handler
+        # the handlers inherited before may not be the most specific any more
+        self._inherit_handlers.clear()
 
     cpdef void unregister(self, object type_):
         if type(type_) is not NamedType and isinstance(type_, tuple):
-- 
2.43.0


From 7c3609bedc43620efb7fb128baaed67762801c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:33 +0000
Subject: [PATCH 15/42] fix: keep the slowest calls in profiling

---
 python/xoscar/profiling.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/xoscar/profiling.py b/python/xoscar/profiling.py
index b6ec15c..ba672dd 100644
--- a/python/xoscar/profiling.py
+++ b/python/xoscar/profiling.py
@@ -150,7 +150,7 @@ class _CallStats:
             if len(self._slow_calls) < 10:
                 heapq.heappush(self._slow_calls, slow_call_key)
             else:
-                heapq.heapreplace(self._slow_calls, slow_call_key)
+                heapq.heappushpop(self._slow_calls, slow_call_key)
         except TypeError:
             pass
 
-- 
2.43.0


From 85fdd8c4a6feab6e772069c8bf8a123d9eb8ab51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:48 +0000
Subject: [PATCH 16/42] fix: tell the end of a remote generator from errors
 that mention StopIteration

---
 python/xoscar/api.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/python/xoscar/api.py b/python/xoscar/api.py
index a290bb4..dbda207 100644
--- a/python/xoscar/api.py
+++ b/python/xoscar/api.py
@@ -327,6 +327,10 @@ def setup_cluster(address_to_resources: Dict[str, Dict[str, Number]]):
 T = TypeVar("T")
 
 
+class _GeneratorExhausted(Exception):
+    """Tells the client that a generator has no more items."""
+
+
 class IteratorWrapper(Generic[T]):
     def __init__(self, uid: str, actor_addr: str, actor_uid: str):
         self._uid = uid
@@ -373,7 +377,7 @@ class IteratorWrapper(Generic[T]):
             assert self._actor_ref is not None
             return await self._actor_ref.__xoscar_next__(self._uid)
         except Exception as e:
-            if "StopIteration" in str(e):
+            if isinstance(e, _GeneratorExhausted):
                 raise StopAsyncIteration
             else:
                 raise
@@ -466,7 +470,7 @@ class AsyncActorMixin:
             if r is stop:
                 await self.__xoscar_destroy_generator__(generator_uid)
                 del gen  # Avoid exception hold generator reference.
-                raise Exception("StopIteration")
+                raise _GeneratorExhausted("StopIteration")
             else:
                 return r
         else:
-- 
2.43.0


From 59b3d913a98a0df93e437f204ac28eb4e6d541c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:48 +0000
Subject: [PATCH 17/42] fix: do not register an actor with the main pool when
 its creation failed

---
 python/xoscar/backends/pool.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/xoscar/backends/pool.py b/python/xoscar/backends/pool.py
index c7c4e00..2803220 100644
--- a/python/xoscar/backends/pool.py
+++ b/python/xoscar/backends/pool.py
@@ -924,7 +924,7 @@ class SubActorPoolBase(ActorPoolBase):
     @implements(AbstractActorPool.create_actor)
     async def create_actor(self, message: CreateActorMessage) -> ResultMessageType:
         result = await super().create_actor(message)
-        if not message.from_main:
+        if isinstance(result, ResultMessage) and not message.from_main:
             await self.notify_main_pool_to_create(message)
         return result
 
-- 
2.43.0


From abe3ed2232cbeafbb68f4ff6d645cadb85bcae29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:48 +0000
Subject: [PATCH 18/42] fix: keep extras and url of requirements with markers

---
 python/xoscar/virtualenv/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/xoscar/virtualenv/core.py b/python/xoscar/virtualenv/core.py
index 709eacd..313eb0a 100644
--- a/python/xoscar/virtualenv/core.py
+++ b/python/xoscar/virtualenv/core.py
@@ -302,7 +302,8 @@ def filter_requirements(requirements: list[str], **variables) -> list[str]:
             try:
                 req = Requirement(req_str)
                 if req.marker is None or req.marker.evaluate(env):
-                    result.append(f"{req.name}{req.specifier}")
+                    req.marker = None
+                    result.append(str(req))
                     continue
             except InvalidRequirement:
                 if is_custom_marker(marker_part):
-- 
2.43.0


From bdaa5ab236c1f68a19ffea2288d9c9db3abbbff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:48 +0000
Subject: [PATCH 19/42] fix: keep track of actors on appended sub pools, forget
 those on removed ones

---
 python/xoscar/backends/indigen/pool.py | 1 +
 python/xoscar/backends/pool.py         | 1 +
 2 files changed, 2 insertions(+)

diff --git a/python/xoscar/backends/indigen/pool.py b/python/xoscar/backends/indigen/pool.py
index 7323f12..a834317 100644
--- a/python/xoscar/backends/indigen/pool.py
+++ b/python/xoscar/backends/indigen/pool.py
@@ -412,6 +412,7 @@ class MainActorPool(MainActorPoolBase):
         del self.sub_processes[external_address]
         self._config.remove_pool_config(process_index)
         await self.stop_sub_pool(external_address, process, timeout, force)
+        self._allocated_actors.pop(external_address, None)
 
         control_message = ControlMessage(
             message_id=new_message_id(),
diff --git a/python/xoscar/backends/pool.py b/python/xoscar/backends/pool.py
index 2803220..f14ee05 100644
--- a/python/xoscar/backends/pool.py
+++ b/python/xoscar/backends/pool.py
@@ -1396,6 +1396,7 @@ class MainActorPoolBase(ActorPoolBase):
 
     def attach_sub_process(self, external_address: str, process: SubProcessHandle):
         self.sub_processes[external_address] = process
+        self._allocated_actors.setdefault(external_address, dict())
 
     async def stop_sub_pools(self):
         to_stop_processes: dict[str, SubProcessHandle] = dict()  # type: ignore
-- 
2.43.0


From b55701d05e2b1e7ff254120464d1131d0d67c2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:39 +0000
Subject: [PATCH 20/42] fix: wake up whoever waits on an in-process channel
 when it is closed

---
 python/xoscar/backends/communication/dummy.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/python/xoscar/backends/communication/dummy.py b/python/xoscar/backends/communication/dummy.py
index 4f1ddee..9c4bac3 100644
--- a/python/xoscar/backends/communication/dummy.py
+++ b/python/xoscar/backends/communication/dummy.py
@@ -32,6 +32,9 @@ DEFAULT_DUMMY_ADDRESS = "dummy://0"
 
 logger = logging.getLogger(__name__)
 
+# put into the queues of a channel when it is closed
+_CHANNEL_CLOSED = object()
+
 
 class DummyChannel(Channel):
     """
@@ -77,14 +80,25 @@ class DummyChannel(Channel):
         if self._closed.is_set():  # pragma: no cover
             raise ChannelClosed("Channel already closed, cannot write message")
         try:
-            return await self._in_queue.get()
+            message = await self._in_queue.get()
         except RuntimeError:
             if self._closed.is_set():
                 pass
+            return None
+        if message is _CHANNEL_CLOSED:
+            # wake up other waiters as well
+            self._in_queue.put_nowait(_CHANNEL_CLOSED)
+            raise EOFError("Channel closed while waiting for a message")
+        return message
 
     @implements(Channel.close)
     async def close(self):
+        if self._closed.is_set():
+            return
         self._closed.set()
+        # wake up those who wait for a message on either side
+        self._in_queue.put_nowait(_CHANNEL_CLOSED)
+        self._out_queue.put_nowait(_CHANNEL_CLOSED)
 
     @property
     @implements(Channel.closed)
-- 
2.43.0


From 63d304bfd39f09351cb871c9167b3a9ec8939c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:31 +0000
Subject: [PATCH 21/42] fix: keep the internal address of a pool in step with
 its mapping

---
 python/xoscar/backends/config.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/xoscar/backends/config.py b/python/xoscar/backends/config.py
index af7f00d..4a73d16 100644
--- a/python/xoscar/backends/config.py
+++ b/python/xoscar/backends/config.py
@@ -111,6 +111,7 @@ class ActorPoolConfig:
                 internal_address = external_address[0]
             mapping.pop(addr, None)
 
+        cur_pool_config["internal_address"] = internal_address
         cur_pool_config["external_address"] = external_address
         for addr in external_address:
             mapping[addr] = internal_address
-- 
2.43.0


From 656644dde0975503a4d89eb1c55882bffad23b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:33 +0000
Subject: [PATCH 22/42] fix: find an actor at the address of its reference when
 its id is used on several sub pools

---
 python/xoscar/backends/pool.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/python/xoscar/backends/pool.py b/python/xoscar/backends/pool.py
index f14ee05..3870a34 100644
--- a/python/xoscar/backends/pool.py
+++ b/python/xoscar/backends/pool.py
@@ -1196,8 +1196,12 @@ class MainActorPoolBase(ActorPoolBase):
                 message.message_id, actor_ref, protocol=message.protocol
             )
 
-        # lookup allocated
-        for address, item in self._allocated_actors.items():
+        # lookup allocated, the same id may be used at several addresses,
+        # thus look at the given address first
+        for address in sorted(
+            self._allocated_actors, key=lambda addr: addr != actor_ref.address
+        ):
+            item = self._allocated_actors[address]
             ref = create_actor_ref(address, actor_ref.uid)
             if ref in item:
                 ref.proxy_addresses = self._router.get_proxies(ref.address)
-- 
2.43.0


From ec2a339f98b25bed76af6a2c59d5cc6072aef4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:04 +0000
Subject: [PATCH 23/42] fix: keep the type of exception groups and other
 exceptions that need arguments

---
 python/xoscar/utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/xoscar/utils.py b/python/xoscar/utils.py
index 3c2f6fb..1928f9a 100644
--- a/python/xoscar/utils.py
+++ b/python/xoscar/utils.py
@@ -116,7 +116,12 @@ def wrap_exception(
         }
     )
     new_exc_type = type(type(exc).__name__, bases + (type(exc),), attr_dict)
-    return new_exc_type().with_traceback(traceback)
+    try:
+        # some exceptions, e.g. exception groups, cannot be made without arguments
+        new_exc = new_exc_type.__new__(new_exc_type, *exc.args)
+    except Exception:
+        new_exc = new_exc_type()
+    return new_exc.with_traceback(traceback)
 
 
 # from https://github.com/ericvsmith/dataclasses/blob/master/dataclass_tools.py
-- 
2.43.0


From d364cea36c1d50b3e0ef4edb9883a5df77054201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:39 +0000
Subject: [PATCH 24/42] fix: answer a request that cannot be deserialized
 instead of closing the connection

---
 python/xoscar/backends/pool.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/python/xoscar/backends/pool.py b/python/xoscar/backends/pool.py
index 3870a34..10e03c6 100644
--- a/python/xoscar/backends/pool.py
+++ b/python/xoscar/backends/pool.py
@@ -61,6 +61,7 @@ from .message import (
     ControlMessage,
     ControlMessageType,
     CreateActorMessage,
+    DeserializeMessageFailed,
     DestroyActorMessage,
     ErrorMessage,
     ForwardMessage,
@@ -584,6 +585,14 @@ class AbstractActorPool(ABC):
                         # close failed, ignore
                         pass
                     return
+                except DeserializeMessageFailed as e:
+                    # report to the sender of this request only
+                    with _ErrorProcessor(
+                        self.external_address, e.message_id, DEFAULT_PROTOCOL
+                    ) as processor:
+                        raise e.__cause__ or e
+                    await self._send_channel(processor.result, channel)
+                    continue
                 if await self._handle_ucx_meta_message(message, channel):
                     continue
                 asyncio.create_task(self.process_message(message, channel))
-- 
2.43.0


From b5d5b9a63669bfee3b69b11f54382e8df7e5854f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:11 +0000
Subject: [PATCH 25/42] fix: send memory views of items larger than a byte
 completely

---
 python/xoscar/backends/communication/utils.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/python/xoscar/backends/communication/utils.py b/python/xoscar/backends/communication/utils.py
index df161c2..4949542 100644
--- a/python/xoscar/backends/communication/utils.py
+++ b/python/xoscar/backends/communication/utils.py
@@ -14,6 +14,7 @@
 # limitations under the License.
 
 from asyncio import StreamReader, StreamWriter
+from pickle import PickleBuffer
 from typing import Dict, List, Union
 
 import numpy as np
@@ -63,6 +64,12 @@ def write_buffers(writer: StreamWriter, buffers: List):
             # GPU buffer
             _write_cuda_buffer(buffer)
         else:
+            view = memoryview(buffer)
+            if not view.c_contiguous:
+                buffer = view.tobytes()
+            elif view.itemsize != 1 or view.ndim != 1:
+                # what is not sent at once is kept by slicing the buffer by bytes
+                buffer = PickleBuffer(view).raw()
             writer.write(buffer)
 
 
-- 
2.43.0


From 0d3b9a8c4b4eed2f8e5412a745c02a9cace3adae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:06 +0000
Subject: [PATCH 26/42] fix: serialize long strings that hold lone surrogates

---
 python/xoscar/serialization/core.pyx | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/xoscar/serialization/core.pyx b/python/xoscar/serialization/core.pyx
index 053a4b3..81ad33d 100644
--- a/python/xoscar/serialization/core.pyx
+++ b/python/xoscar/serialization/core.pyx
@@ -331,13 +331,14 @@ cdef class StrSerializer(Serializer):
             return Placeholder(obj_id)
         context[obj_id] = obj
 
-        return (), [(<str>obj).encode()], True
+        # strings may hold lone surrogates
+        return (), [(<str>obj).encode("utf-8", "surrogatepass")], True
 
     cpdef deserial(self, tuple serialized, dict context, list subs):
         buffer = subs[0]
         if type(buffer) is memoryview:
             buffer = buffer.tobytes()
-        return buffer.decode()
+        return buffer.decode("utf-8", "surrogatepass")
 
 
 cdef class CollectionSerializer(Serializer):
-- 
2.43.0


From 33d7a6ac25b30549ff760922dd08ad85d1ee1ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:06 +0000
Subject: [PATCH 27/42] fix: keep masked arrays, matrices and other subclasses
 of ndarray through serialization

---
 python/xoscar/serialization/numpy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/xoscar/serialization/numpy.py b/python/xoscar/serialization/numpy.py
index b5fb2c4..fdf1683 100644
--- a/python/xoscar/serialization/numpy.py
+++ b/python/xoscar/serialization/numpy.py
@@ -24,7 +24,8 @@ class NDArraySerializer(Serializer):
     @buffered
     def serial(self, obj: np.ndarray, context: Dict):
         header: dict = {}
-        if obj.dtype.hasobject:
+        if obj.dtype.hasobject or type(obj) is not np.ndarray:
+            # subclasses (masked arrays, matrices, ...) hold more than their data
             header["pickle"] = True
             buffers = pickle_buffers(obj)
             return (header,), buffers, True
-- 
2.43.0


From 5e0f159ea3f4c95a165b8356faf3a29f0d144b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:28 +0000
Subject: [PATCH 28/42] fix: keep the type and state of subclasses of str,
 list, tuple and dict through serialization

---
 python/xoscar/serialization/core.pyx | 82 ++++++++++++++++++----------
 1 file changed, 54 insertions(+), 28 deletions(-)

diff --git a/python/xoscar/serialization/core.pyx b/python/xoscar/serialization/core.pyx
index 81ad33d..6919e3a 100644
--- a/python/xoscar/serialization/core.pyx
+++ b/python/xoscar/serialization/core.pyx
@@ -18,8 +18,8 @@ import asyncio
 import datetime
 import enum
 import hashlib
-import inspect
 import sys
+from collections import OrderedDict, defaultdict
 from functools import partial, wraps
 from typing import Any, Dict, List
 
@@ -315,9 +315,14 @@ cdef class BytesSerializer(Serializer):
             return Placeholder(obj_id)
         context[obj_id] = obj
 
+        if type(obj) is not bytes and isinstance(obj, bytes):
+            # subclasses keep their type
+            return (obj,), [], True
         return (), [obj], True
 
     cpdef deserial(self, tuple serialized, dict context, list subs):
+        if serialized:
+            return serialized[0]
         return subs[0]
 
 
@@ -331,16 +336,41 @@ cdef class StrSerializer(Serializer):
             return Placeholder(obj_id)
         context[obj_id] = obj
 
+        if type(obj) is not str:
+            # subclasses, enums for instance, keep their type
+            return (obj,), [], True
         # strings may hold lone surrogates
         return (), [(<str>obj).encode("utf-8", "surrogatepass")], True
 
     cpdef deserial(self, tuple serialized, dict context, list subs):
+        if serialized:
+            return serialized[0]
         buffer = subs[0]
         if type(buffer) is memoryview:
             buffer = buffer.tobytes()
         return buffer.decode("utf-8", "surrogatepass")
 
 
+def _made_of_items(obj, base):
+    """
+    Whether an instance of a subclass of list, tuple or dict can be
+    made from its items alone
+    """
+    obj_type = type(obj)
+    if obj_type in (OrderedDict, defaultdict):
+        return not getattr(obj, "__dict__", None)
+    if base is tuple and hasattr(obj_type, "_fields"):
+        # namedtuple
+        return True
+    return (
+        obj_type.__init__ is base.__init__
+        and obj_type.__new__ is base.__new__
+        and obj_type.__reduce__ is base.__reduce__
+        and obj_type.__reduce_ex__ is base.__reduce_ex__
+        and not getattr(obj, "__dict__", None)
+    )
+
+
 cdef class CollectionSerializer(Serializer):
     obj_type = None
 
@@ -389,6 +419,10 @@ cdef class CollectionSerializer(Serializer):
             return Placeholder(obj_id)
         context[obj_id] = obj
 
+        if type(obj) is not self._obj_type and not _made_of_items(
+            obj, self._obj_type
+        ):
+            return (None,), pickle_buffers(obj), True
         return self._serial_iterable(obj)
 
     cdef list _deserial_iterable(self, tuple serialized, list subs):
@@ -407,7 +441,13 @@ cdef class TupleSerializer(CollectionSerializer):
     obj_type = tuple
 
     cpdef deserial(self, tuple serialized, dict context, list subs):
-        cdef list res = self._deserial_iterable(serialized, subs)
+        cdef list res
+
+        if len(serialized) == 1:
+            # serialized directly
+            return unpickle_buffers(subs)
+
+        res = self._deserial_iterable(serialized, subs)
         for v in res:
             assert type(v) is not Placeholder
 
@@ -425,8 +465,13 @@ cdef class ListSerializer(CollectionSerializer):
 
     cpdef deserial(self, tuple serialized, dict context, list subs):
         cdef int64_t idx
-        cdef list res = self._deserial_iterable(serialized, subs)
+        cdef list res
 
+        if len(serialized) == 1:
+            # serialized directly
+            return unpickle_buffers(subs)
+
+        res = self._deserial_iterable(serialized, subs)
         obj_type = serialized[-1]
         if obj_type is None:
             result = res
@@ -452,10 +497,6 @@ def _dict_value_replacer(context, ret, key, real_value):
 
 cdef class DictSerializer(CollectionSerializer):
     serializer_id = 6
-    cdef set _inspected_inherits
-
-    def __cinit__(self):
-        self._inspected_inherits = set()
 
     cpdef serial(self, obj: Any, dict context):
         cdef uint64_t obj_id
@@ -472,25 +513,15 @@ cdef class DictSerializer(CollectionSerializer):
 
         obj_type = type(obj)
 
-        if obj_type is not dict and obj_type not in self._inspected_inherits:
-            inspect_init = inspect.getfullargspec(obj_type.__init__)
-            if (
-                inspect_init.args == ["self"]
-                and not inspect_init.varargs
-                and not inspect_init.varkw
-            ):
-                # inherited dicts may not have proper initializers
-                # for deserialization
-                # remove context to generate real serialized result
-                context.pop(obj_id)
-                return (obj,), [], True
-            else:
-                self._inspected_inherits.add(obj_type)
+        if obj_type is not dict and not _made_of_items(obj, dict):
+            return (None,), pickle_buffers(obj), True
 
         key_obj, key_bufs, _ = self._serial_iterable(obj.keys())
         value_obj, value_bufs, _ = self._serial_iterable(obj.values())
         if obj_type is dict:
             obj_type = None
+        elif obj_type is defaultdict:
+            obj_type = partial(defaultdict, obj.default_factory)
         ser_obj = (key_obj[:-1], value_obj[:-1], len(key_bufs), obj_type)
         return ser_obj, key_bufs + value_bufs, False
 
@@ -502,7 +533,7 @@ cdef class DictSerializer(CollectionSerializer):
             return {}
         if len(serialized) == 1:
             # serialized directly
-            return serialized[0]
+            return unpickle_buffers(subs)
 
         key_serialized, value_serialized, num_key_bufs, obj_type = serialized
         key_subs = subs[:num_key_bufs]
@@ -514,12 +545,7 @@ cdef class DictSerializer(CollectionSerializer):
         if obj_type is None:
             ret = dict(zip(keys, values))
         else:
-            try:
-                ret = obj_type(zip(keys, values))
-            except TypeError:
-                # first arg of defaultdict is a callable
-                ret = obj_type()
-                ret.update(zip(keys, values))
+            ret = obj_type(zip(keys, values))
 
         for i in range(len(keys)):
             k, v = keys[i], values[i]
-- 
2.43.0


From 62eec3fb22f0c85bb0d23fe3efe8eee763e8fe11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:58 +0000
Subject: [PATCH 29/42] fix: report the loss of a sub pool once, and recover it
 when the callback fails

---
 python/xoscar/backends/pool.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/python/xoscar/backends/pool.py b/python/xoscar/backends/pool.py
index 10e03c6..6114565 100644
--- a/python/xoscar/backends/pool.py
+++ b/python/xoscar/backends/pool.py
@@ -995,6 +995,7 @@ class MainActorPoolBase(ActorPoolBase):
         "_on_process_down",
         "_on_process_recover",
         "_recover_events",
+        "_lost_processes",
         "_allocation_lock",
         "sub_processes",
     )
@@ -1030,6 +1031,8 @@ class MainActorPoolBase(ActorPoolBase):
         self._on_process_down = on_process_down
         self._on_process_recover = on_process_recover
         self._recover_events: dict[str, asyncio.Event] = dict()
+        # the last process lost for each address
+        self._lost_processes: dict[str, SubProcessHandle] = dict()
 
         # states
         self._allocated_actors: allocated_type = {
@@ -1494,8 +1497,11 @@ class MainActorPoolBase(ActorPoolBase):
                         if not await self.is_sub_pool_alive(
                             process
                         ):  # pragma: no cover
-                            if self._on_process_down is not None:
-                                self._on_process_down(self, address)
+                            if self._lost_processes.get(address) is not process:
+                                # report every loss only once
+                                self._lost_processes[address] = process
+                                if self._on_process_down is not None:
+                                    self._on_process_down(self, address)
                             self.process_sub_pool_lost(address)
                             if self._auto_recover:
                                 await self.recover_sub_pool(address)
-- 
2.43.0


From 51252d7d5f61ed1926ed488bd0ae7ce192fe9795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:58 +0000
Subject: [PATCH 30/42] fix: do not recover actors destroyed while the sub pool
 is recovered

---
 python/xoscar/backends/indigen/pool.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/xoscar/backends/indigen/pool.py b/python/xoscar/backends/indigen/pool.py
index a834317..e7ccdbe 100644
--- a/python/xoscar/backends/indigen/pool.py
+++ b/python/xoscar/backends/indigen/pool.py
@@ -503,7 +503,11 @@ class MainActorPool(MainActorPoolBase):
         if self._auto_recover == "actor":
             # need to recover all created actors
             # actors may be created or destroyed while recovering
-            for _, message in list(self._allocated_actors[address].values()):
+            allocated = self._allocated_actors[address]
+            for actor_ref, (_, message) in list(allocated.items()):
+                if actor_ref not in allocated:
+                    # destroyed meanwhile
+                    continue
                 create_actor_message: CreateActorMessage = message  # type: ignore
                 await self.call(address, create_actor_message)
 
-- 
2.43.0


From 906fb6ee2c8740405de80e276a241bd1385dfc53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:02 +0000
Subject: [PATCH 31/42] fix: do not take a StopAsyncIteration raised in a
 generator for its end

---
 python/xoscar/api.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/xoscar/api.py b/python/xoscar/api.py
index dbda207..c472a0d 100644
--- a/python/xoscar/api.py
+++ b/python/xoscar/api.py
@@ -379,6 +379,9 @@ class IteratorWrapper(Generic[T]):
         except Exception as e:
             if isinstance(e, _GeneratorExhausted):
                 raise StopAsyncIteration
+            elif isinstance(e, StopAsyncIteration):
+                # raised inside of the generator, it's not the end
+                raise RuntimeError("generator raised StopAsyncIteration") from e
             else:
                 raise
 
-- 
2.43.0


From 9ae812f82cfa19692481ba0202689d8e3c30be04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:08 +0000
Subject: [PATCH 32/42] fix: destroy generators without the lock of the actor

---
 python/xoscar/api.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/python/xoscar/api.py b/python/xoscar/api.py
index c472a0d..985ffca 100644
--- a/python/xoscar/api.py
+++ b/python/xoscar/api.py
@@ -41,7 +41,14 @@ from urllib.parse import urlparse
 from .aio import AioFileObject
 from .backend import get_backend
 from .context import get_context
-from .core import ActorRef, BufferRef, FileObjectRef, _Actor, _StatelessActor
+from .core import (
+    ActorRef,
+    BufferRef,
+    FileObjectRef,
+    _Actor,
+    _StatelessActor,
+    no_lock,
+)
 
 if TYPE_CHECKING:
     from .backends.config import ActorPoolConfig
@@ -479,6 +486,9 @@ class AsyncActorMixin:
         else:
             raise RuntimeError(f"No iterator with id: {generator_uid}")
 
+    # The actor may be busy when an iterator is collected, and collecting blocks
+    # the event loop, thus waiting for the lock of the actor may never end.
+    @no_lock
     async def __xoscar_destroy_generator__(self, generator_uid: str):
         """
         Destroy the generator.
-- 
2.43.0


From 937afbbcc976ae51aa498a00afe4bb40cea8608b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:40 +0000
Subject: [PATCH 33/42] fix: keep the slowest calls when durations are equal

---
 python/xoscar/profiling.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/python/xoscar/profiling.py b/python/xoscar/profiling.py
index ba672dd..1755498 100644
--- a/python/xoscar/profiling.py
+++ b/python/xoscar/profiling.py
@@ -16,6 +16,7 @@
 import asyncio
 import copy
 import heapq
+import itertools
 import json
 import logging
 import operator
@@ -134,25 +135,25 @@ class _CallStats:
         self._options = options
         self._call_counter = Counter()
         self._slow_calls = []
+        self._slow_calls_seq = itertools.count()
 
     def collect(self, message, duration: float):
         key = (message.actor_ref.uid, message.content[0])
         self._call_counter[key] += 1
         if duration < self._options.slow_calls_duration_threshold:
             return
+        # The sequence number makes calls of the same duration comparable.
         slow_call_key = (
             duration,
+            next(self._slow_calls_seq),
             message.actor_ref.uid,
             message.actor_ref.address,
             message.content,
         )
-        try:
-            if len(self._slow_calls) < 10:
-                heapq.heappush(self._slow_calls, slow_call_key)
-            else:
-                heapq.heappushpop(self._slow_calls, slow_call_key)
-        except TypeError:
-            pass
+        if len(self._slow_calls) < 10:
+            heapq.heappush(self._slow_calls, slow_call_key)
+        else:
+            heapq.heappushpop(self._slow_calls, slow_call_key)
 
     def to_dict(self) -> dict:
         most_calls = {}
@@ -160,7 +161,7 @@ class _CallStats:
             uid, method_name = name_tuple
             most_calls[f"{uid.decode('utf-8')}.{method_name}"] = count
         slow_calls = {}
-        for duration, uid, address, content in sorted(
+        for duration, _, uid, address, content in sorted(
             self._slow_calls, key=operator.itemgetter(0), reverse=True
         ):
             method_name, _batch, args, kwargs = content
-- 
2.43.0


From 7558c94b8e5846cc90bd276a610bc3a5535fc5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:40 +0000
Subject: [PATCH 34/42] fix: report the longest duration of a repeated slow
 call

---
 python/xoscar/profiling.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/python/xoscar/profiling.py b/python/xoscar/profiling.py
index 1755498..82fdd38 100644
--- a/python/xoscar/profiling.py
+++ b/python/xoscar/profiling.py
@@ -165,9 +165,11 @@ class _CallStats:
             self._slow_calls, key=operator.itemgetter(0), reverse=True
         ):
             method_name, _batch, args, kwargs = content
-            slow_calls[
-                f"[{address}]{uid.decode('utf-8')}.{method_name}(args={args}, kwargs={kwargs})"
-            ] = duration
+            # The same call may be slow many times, slowest first.
+            slow_calls.setdefault(
+                f"[{address}]{uid.decode('utf-8')}.{method_name}(args={args}, kwargs={kwargs})",
+                duration,
+            )
         return {"most_calls": most_calls, "slow_calls": slow_calls}
 
 
-- 
2.43.0


From ca93e0ea5a42e235f26bad3cdd8dab84c4fab36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:10 +0000
Subject: [PATCH 35/42] fix: never substitute variables inside of substituted
 values

---
 python/xoscar/virtualenv/core.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/python/xoscar/virtualenv/core.py b/python/xoscar/virtualenv/core.py
index 313eb0a..b5c6762 100644
--- a/python/xoscar/virtualenv/core.py
+++ b/python/xoscar/virtualenv/core.py
@@ -18,6 +18,7 @@ import ast
 import importlib
 import json
 import operator
+import re
 from abc import ABC, abstractmethod
 from pathlib import Path
 
@@ -137,28 +138,27 @@ def substitute_variables(marker_str: str, variables: dict) -> str:
     Returns:
         Marker string with placeholders replaced
     """
-    result = marker_str
+    if not variables:
+        return marker_str
 
-    for var_name, var_value in variables.items():
-        placeholder = f"#{var_name}#"
-        if placeholder not in result:
-            continue
+    def _format(match: re.Match) -> str:
+        var_value = variables[match.group(1)]
 
         # Format value based on type
         if var_value is None:
-            formatted = "None"
+            return "None"
         elif isinstance(var_value, bool):
             # Boolean: use Python literal (True/False) without quotes
-            formatted = str(var_value)  # True -> "True", False -> "False"
+            return str(var_value)  # True -> "True", False -> "False"
         elif isinstance(var_value, (int, float)):
-            formatted = str(var_value)
+            return str(var_value)
         else:
             # String: escape and add quotes
-            formatted = json.dumps(var_value)
+            return json.dumps(var_value, ensure_ascii=False)
 
-        result = result.replace(placeholder, formatted)
-
-    return result
+    # Replace in one pass, what looks like a placeholder in a value is none.
+    pattern = "#(" + "|".join(re.escape(name) for name in variables) + ")#"
+    return re.sub(pattern, _format, marker_str)
 
 
 def get_env() -> dict[str, str | bool]:
-- 
2.43.0


From ecc147b625ed0035905344cc4e6f65cef7dd6f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:10 +0000
Subject: [PATCH 36/42] fix: evaluate custom markers lazily like python does

---
 python/xoscar/virtualenv/core.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/python/xoscar/virtualenv/core.py b/python/xoscar/virtualenv/core.py
index b5c6762..749ec44 100644
--- a/python/xoscar/virtualenv/core.py
+++ b/python/xoscar/virtualenv/core.py
@@ -205,9 +205,6 @@ def eval_custom_marker(marker_str: str, env: dict) -> bool:
         ast.LtE: operator.le,
         ast.Gt: operator.gt,
         ast.GtE: operator.ge,
-        ast.And: lambda a, b: a and b,
-        ast.Or: lambda a, b: a or b,
-        ast.Not: operator.not_,
     }
 
     def normalize_value(val):
@@ -237,11 +234,13 @@ def eval_custom_marker(marker_str: str, env: dict) -> bool:
 
     def _eval(node):
         if isinstance(node, ast.BoolOp):
+            # Stop as soon as the result is known, the rest may be meaningless,
+            # e.g. has_cuda and cuda_version >= "12.1"
             left = _eval(node.values[0])
             for right_node in node.values[1:]:
-                right = _eval(right_node)
-                op = ops[type(node.op)]
-                left = op(left, right)
+                if bool(left) is isinstance(node.op, ast.Or):
+                    break
+                left = _eval(right_node)
             return left
 
         elif isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
-- 
2.43.0


From 5ad7146ffc0e58cbcca986f0e1f6b5d833f1f52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:10 +0000
Subject: [PATCH 37/42] fix: compare versions with strings that do not look
 like versions

---
 python/xoscar/virtualenv/core.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/python/xoscar/virtualenv/core.py b/python/xoscar/virtualenv/core.py
index 749ec44..410f66a 100644
--- a/python/xoscar/virtualenv/core.py
+++ b/python/xoscar/virtualenv/core.py
@@ -24,7 +24,7 @@ from pathlib import Path
 
 from packaging.markers import Marker, default_environment
 from packaging.requirements import InvalidRequirement, Requirement
-from packaging.version import Version
+from packaging.version import InvalidVersion, Version
 
 from .platform import (
     check_cuda_available,
@@ -220,8 +220,16 @@ def eval_custom_marker(marker_str: str, env: dict) -> bool:
             if val.count(".") >= 1 and all(
                 part.isdigit() for part in val.split(".") if part
             ):
-                return Version(val)
+                return maybe_parse_version(val)
+
+        return val
 
+    def maybe_parse_version(val):
+        if isinstance(val, str):
+            try:
+                return Version(val)
+            except InvalidVersion:
+                return val
         return val
 
     def maybe_parse_cuda_arch(val):
@@ -254,6 +262,11 @@ def eval_custom_marker(marker_str: str, env: dict) -> bool:
                 right = _eval(right_expr)
                 right = maybe_parse_cuda_arch(normalize_value(right))
 
+                if isinstance(left, Version):
+                    right = maybe_parse_version(right)
+                elif isinstance(right, Version):
+                    left = maybe_parse_version(left)
+
                 op_func = ops[type(op_node)]
                 if not op_func(left, right):
                     return False
-- 
2.43.0


From 1afb79f8eedf65456385c5d3483f229e19512771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:10 +0000
Subject: [PATCH 38/42] fix: accept negative numbers in custom markers

---
 python/xoscar/virtualenv/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/xoscar/virtualenv/core.py b/python/xoscar/virtualenv/core.py
index 410f66a..0deadf2 100644
--- a/python/xoscar/virtualenv/core.py
+++ b/python/xoscar/virtualenv/core.py
@@ -254,6 +254,9 @@ def eval_custom_marker(marker_str: str, env: dict) -> bool:
         elif isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
             return not _eval(node.operand)
 
+        elif isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub):
+            return -_eval(node.operand)
+
         elif isinstance(node, ast.Compare):
             left = _eval(node.left)
             left = maybe_parse_cuda_arch(normalize_value(left))
-- 
2.43.0


From e09feb79a508a428d85e45ee8bf1b04970fabfaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:54 +0000
Subject: [PATCH 39/42] fix: forget the configuration of an appended sub pool
 that failed to start

---
 python/xoscar/backends/indigen/pool.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/python/xoscar/backends/indigen/pool.py b/python/xoscar/backends/indigen/pool.py
index e7ccdbe..c699701 100644
--- a/python/xoscar/backends/indigen/pool.py
+++ b/python/xoscar/backends/indigen/pool.py
@@ -387,9 +387,14 @@ class MainActorPool(MainActorPoolBase):
             kwargs,
         )
 
-        process, external_addresses = await self._create_sub_pool_from_parent(
-            self._config, process_index, start_python
-        )
+        try:
+            process, external_addresses = await self._create_sub_pool_from_parent(
+                self._config, process_index, start_python
+            )
+        except BaseException:
+            # the pool does not exist, no actor must be allocated to it
+            self._config.remove_pool_config(process_index)
+            raise
 
         self._config.reset_pool_external_address(process_index, external_addresses[0])
         self.attach_sub_process(external_addresses[0], process)
-- 
2.43.0


From da9377f183cc4d6e0659b74b5aac01afa067555a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:54 +0000
Subject: [PATCH 40/42] fix: monitor sub pools appended to a pool started
 without any

---
 python/xoscar/backends/indigen/pool.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/xoscar/backends/indigen/pool.py b/python/xoscar/backends/indigen/pool.py
index c699701..e35fd25 100644
--- a/python/xoscar/backends/indigen/pool.py
+++ b/python/xoscar/backends/indigen/pool.py
@@ -398,6 +398,8 @@ class MainActorPool(MainActorPoolBase):
 
         self._config.reset_pool_external_address(process_index, external_addresses[0])
         self.attach_sub_process(external_addresses[0], process)
+        # a pool without sub pools so far is not monitored yet
+        await self.start_monitor()
 
         control_message = ControlMessage(
             message_id=new_message_id(),
-- 
2.43.0


From e098548c48f1e7c58f4a525ea2d1f4b6963bbec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:54 +0000
Subject: [PATCH 41/42] fix: do not treat a sub pool removed during the
 recovery of another as lost

---
 python/xoscar/backends/pool.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/xoscar/backends/pool.py b/python/xoscar/backends/pool.py
index 6114565..cd8bcd5 100644
--- a/python/xoscar/backends/pool.py
+++ b/python/xoscar/backends/pool.py
@@ -1492,6 +1492,9 @@ class MainActorPoolBase(ActorPoolBase):
             while not self._stopped.is_set():
                 # Copy sub_processes to avoid changes during recover.
                 for address, process in list(self.sub_processes.items()):
+                    if self.sub_processes.get(address) is not process:
+                        # removed during recover of another one
+                        continue
                     try:
                         recover_events_discovered = address in self._recover_events
                         if not await self.is_sub_pool_alive(
-- 
2.43.0


From e207c2894b72366b191d007714db04a383b06e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:39 +0000
Subject: [PATCH 42/42] fix: keep attributes and constructors of subclasses of
 tuples, lists and dicts in serialization

---
 python/xoscar/serialization/core.pyx | 36 +++++++++++++++++++---------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/python/xoscar/serialization/core.pyx b/python/xoscar/serialization/core.pyx
index 6919e3a..ae8e54e 100644
--- a/python/xoscar/serialization/core.pyx
+++ b/python/xoscar/serialization/core.pyx
@@ -15,6 +15,7 @@
 # limitations under the License.
 
 import asyncio
+import copyreg
 import datetime
 import enum
 import hashlib
@@ -351,24 +352,37 @@ cdef class StrSerializer(Serializer):
         return buffer.decode("utf-8", "surrogatepass")
 
 
+# methods that pickle would call, or that tell the items of a collection
+cdef tuple _item_methods = (
+    "__iter__",
+    "keys",
+    "values",
+    "__setitem__",
+    "__reduce__",
+    "__reduce_ex__",
+    "__getstate__",
+    "__setstate__",
+)
+
+
 def _made_of_items(obj, base):
     """
     Whether an instance of a subclass of list, tuple or dict can be
     made from its items alone
     """
     obj_type = type(obj)
+    if getattr(obj, "__dict__", None) or copyreg._slotnames(obj_type):
+        # attributes are not among the items
+        return False
     if obj_type in (OrderedDict, defaultdict):
-        return not getattr(obj, "__dict__", None)
+        return True
+    for name in _item_methods:
+        if getattr(obj_type, name, None) is not getattr(base, name, None):
+            return False
     if base is tuple and hasattr(obj_type, "_fields"):
-        # namedtuple
+        # namedtuple, constructors take the fields one by one
         return True
-    return (
-        obj_type.__init__ is base.__init__
-        and obj_type.__new__ is base.__new__
-        and obj_type.__reduce__ is base.__reduce__
-        and obj_type.__reduce_ex__ is base.__reduce_ex__
-        and not getattr(obj, "__dict__", None)
-    )
+    return obj_type.__init__ is base.__init__ and obj_type.__new__ is base.__new__
 
 
 cdef class CollectionSerializer(Serializer):
@@ -453,8 +467,8 @@ cdef class TupleSerializer(CollectionSerializer):
 
         obj_type = serialized[-1] or tuple
         if hasattr(obj_type, "_fields"):
-            # namedtuple
-            return obj_type(*res)
+            # namedtuple, whose constructor may be another one
+            return tuple.__new__(obj_type, res)
         else:
             return obj_type(res)
 
-- 
2.43.0

