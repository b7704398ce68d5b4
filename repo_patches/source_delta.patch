From 49ad10f26b43e4d799af1a2cc63b6a6fcb5342ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:07 +0000
Subject: [PATCH 01/32] fix: auto_detach_observer never disposed the upstream
 subscriptions

Disposing cancelled the very agent that was to dispose them.
---
 aioreactive/observers.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/aioreactive/observers.py b/aioreactive/observers.py
index d62ee76..464cc43 100644
--- a/aioreactive/observers.py
+++ b/aioreactive/observers.py
@@ -4,7 +4,7 @@ from collections.abc import AsyncIterable, AsyncIterator, Awaitable, Callable, C
 from typing import Any, TypeVar, cast
 
 from expression.core import MailboxProcessor, TailCall, tailrec_async
-from expression.system import AsyncDisposable, CancellationTokenSource, Disposable
+from expression.system import AsyncDisposable, Disposable
 
 from .msg import Msg
 from .notification import MsgKind, Notification, OnCompleted, OnError, OnNext
@@ -205,17 +205,13 @@ def auto_detach_observer(
     AsyncObserver[_TSource],
     Callable[[Coroutine[None, None, AsyncDisposable]], Coroutine[None, None, AsyncDisposable]],
 ]:
-    cts = CancellationTokenSource()
-    token = cts.token
+    is_detached = False
 
     async def worker(inbox: MailboxProcessor[Msg[_TSource]]) -> None:
         @tailrec_async
         async def message_loop(
             disposables: list[AsyncDisposable],
         ) -> Any:
-            if token.is_cancellation_requested:
-                return
-
             cmd = await inbox.receive()
             match cmd:
                 case Msg(tag="disposable", disposable=disposable):
@@ -228,10 +224,11 @@ def auto_detach_observer(
 
         await message_loop([])
 
-    agent = MailboxProcessor.start(worker, token)
+    agent = MailboxProcessor.start(worker)
 
     async def cancel() -> None:
-        cts.cancel()
+        nonlocal is_detached
+        is_detached = True
         agent.post(Msg(dispose=True))
 
     canceller = AsyncDisposable.create(cancel)
@@ -240,8 +237,12 @@ def auto_detach_observer(
     # Auto-detaches (disposes) the disposable when the observer completes with success or error.
     async def auto_detach(async_disposable: Coroutine[None, None, AsyncDisposable]) -> AsyncDisposable:
         disposable = await async_disposable
-        agent.post(Msg(disposable=disposable))
-        return disposable
+        if is_detached:
+            # Terminated while we were subscribing
+            await disposable.dispose_async()
+        else:
+            agent.post(Msg(disposable=disposable))
+        return AsyncDisposable.create(disposable.dispose_async)
 
     return safe_obv, auto_detach
 
-- 
2.43.0


From 6d5ea9500377963e2d6c54351b12198aed7a762f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:30 +0000
Subject: [PATCH 02/32] fix: safe_observer left the source subscribed when the
 observer raised

---
 aioreactive/observers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aioreactive/observers.py b/aioreactive/observers.py
index 464cc43..bc41af8 100644
--- a/aioreactive/observers.py
+++ b/aioreactive/observers.py
@@ -172,6 +172,7 @@ def safe_observer(obv: AsyncObserver[_TSource], disposable: AsyncDisposable) ->
                     try:
                         await msg.accept_observer(obv)
                     except Exception as ex:
+                        await disposable.dispose_async()
                         await obv.athrow(ex)
                         running = False
                 elif msg.kind == MsgKind.ON_ERROR:
-- 
2.43.0


From 894c0e43d948fbe44412c098313fa9bc2a9ad62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:33 +0000
Subject: [PATCH 03/32] fix: take_until never released its other source on
 termination

---
 aioreactive/filtering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aioreactive/filtering.py b/aioreactive/filtering.py
index 846f3ee..40f2bd0 100644
--- a/aioreactive/filtering.py
+++ b/aioreactive/filtering.py
@@ -322,7 +322,7 @@ def take_until(
                 await safe_obv.aclose()
 
             obv = AsyncAnonymousObserver(asend, safe_obv.athrow)
-            sub2 = await pipe(obv, other.subscribe_async)
+            sub2 = await pipe(obv, other.subscribe_async, auto_detach)
             sub1 = await pipe(safe_obv, source.subscribe_async, auto_detach)
 
             return AsyncDisposable.composite(sub1, sub2)
-- 
2.43.0


From b7fb63d89d549614fe802e34a911973c1dfc634b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:36 +0000
Subject: [PATCH 04/32] fix: skip_last dropped None values

---
 aioreactive/filtering.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/aioreactive/filtering.py b/aioreactive/filtering.py
index 40f2bd0..c056b4e 100644
--- a/aioreactive/filtering.py
+++ b/aioreactive/filtering.py
@@ -216,13 +216,9 @@ def skip_last(
             q: list[_TSource] = []
 
             async def asend(value: _TSource) -> None:
-                front: _TSource | None = None
                 q.append(value)
                 if len(q) > count:
-                    front = q.pop(0)
-
-                if front is not None:
-                    await safe_obv.asend(front)
+                    await safe_obv.asend(q.pop(0))
 
             obv = AsyncAnonymousObserver(asend, safe_obv.athrow, safe_obv.aclose)
             return await pipe(obv, source.subscribe_async, auto_detach)
-- 
2.43.0


From 83ecd9c52610c6257e9be793367084a5dcbc89c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:40 +0000
Subject: [PATCH 05/32] fix: disposing a debounced stream completed the
 observer

---
 aioreactive/timeshift.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/aioreactive/timeshift.py b/aioreactive/timeshift.py
index 913a643..311da08 100644
--- a/aioreactive/timeshift.py
+++ b/aioreactive/timeshift.py
@@ -19,7 +19,7 @@ from expression.system import CancellationTokenSource
 
 from .combine import with_latest_from
 from .create import interval
-from .notification import Notification, OnCompleted, OnError, OnNext
+from .notification import Notification, OnError, OnNext
 from .observables import AsyncAnonymousObservable
 from .observers import AsyncNotificationObserver, auto_detach_observer
 from .transform import map
@@ -106,6 +106,7 @@ def debounce(
     def _debounce(source: AsyncObservable[_TSource]) -> AsyncObservable[_TSource]:
         async def subscribe_async(aobv: AsyncObserver[_TSource]) -> AsyncDisposable:
             safe_obv, auto_detach = auto_detach_observer(aobv)
+            cts = CancellationTokenSource()
             infinite: Iterable[int] = seq.infinite
 
             async def worker(inbox: MailboxProcessor[tuple[Notification[_TSource], int]]) -> None:
@@ -134,7 +135,7 @@ def debounce(
 
                 await message_loop(-1)
 
-            agent = MailboxProcessor.start(worker)
+            agent = MailboxProcessor.start(worker, cts.token)
 
             indexer = iter(infinite)
 
@@ -153,8 +154,9 @@ def debounce(
             dispose = await pipe(obv_, source.subscribe_async, auto_detach)
 
             async def cancel() -> None:
+                # Discard the pending value, disposing is not completing
+                cts.cancel()
                 await dispose.dispose_async()
-                agent.post((OnCompleted, 0))
 
             return AsyncDisposable.create(cancel)
 
-- 
2.43.0


From 5bbd1de8b40b381047df934048091c90f6ad5e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:33 +0000
Subject: [PATCH 06/32] fix: merge_inner kept inner subscriptions after an
 error and swallowed subscribe errors

---
 aioreactive/combine.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/aioreactive/combine.py b/aioreactive/combine.py
index 7cdd42a..f529b1a 100644
--- a/aioreactive/combine.py
+++ b/aioreactive/combine.py
@@ -123,7 +123,11 @@ def merge_inner(
                 async def message_loop(model: Model[_TSource]) -> None:
                     while True:
                         msg = await inbox.receive()
-                        model = await update(msg, model)
+                        try:
+                            model = await update(msg, model)
+                        except Exception as ex:
+                            # Subscribing to an inner observable failed
+                            await safe_obv.athrow(ex)
 
                         if model.is_stopped and not model.subscriptions:
                             break
@@ -144,13 +148,18 @@ def merge_inner(
                 agent.post(Msg(completed=True))
 
             obv = AsyncAnonymousObserver(asend, athrow, aclose)
-            dispose = await auto_detach(source.subscribe_async(obv))
 
-            async def cancel() -> None:
-                await dispose.dispose_async()
-                agent.post(Msg(dispose=True))
+            async def subscribe() -> AsyncDisposable:
+                dispose = await source.subscribe_async(obv)
+
+                async def cancel() -> None:
+                    await dispose.dispose_async()
+                    agent.post(Msg(dispose=True))
+
+                return AsyncDisposable.create(cancel)
 
-            return AsyncDisposable.create(cancel)
+            # Detaching must also release the inner subscriptions
+            return await auto_detach(subscribe())
 
         return AsyncAnonymousObservable(subscribe_async)
 
-- 
2.43.0


From 7367d642f591620850edc9cc5e29a44cd171ddff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:36 +0000
Subject: [PATCH 07/32] fix: switch_latest let stale inner streams through and
 never completed

---
 aioreactive/transform.py | 48 +++++++++++++++++++++++++---------------
 1 file changed, 30 insertions(+), 18 deletions(-)

diff --git a/aioreactive/transform.py b/aioreactive/transform.py
index 8a5eeab..a4a7113 100644
--- a/aioreactive/transform.py
+++ b/aioreactive/transform.py
@@ -263,13 +263,16 @@ def switch_latest(
 
     async def subscribe_async(aobv: AsyncObserver[_TSource]) -> AsyncDisposable:
         safe_obv, auto_detach = auto_detach_observer(aobv)
+        latest_id = 0
 
         def obv(mb: MailboxProcessor[Msg[_TSource]], id: int) -> AsyncObserver[_TSource]:
             async def asend(value: _TSource) -> None:
-                await safe_obv.asend(value)
+                if id == latest_id:
+                    await safe_obv.asend(value)
 
             async def athrow(error: Exception) -> None:
-                await safe_obv.athrow(error)
+                if id == latest_id:
+                    await safe_obv.athrow(error)
 
             async def aclose() -> None:
                 pipe(
@@ -284,29 +287,37 @@ def switch_latest(
             async def message_loop(
                 current: Option[AsyncDisposable], is_stopped: bool, current_id: int
             ) -> TailCallResult[None, [Option[AsyncDisposable], bool, int]]:
+                nonlocal latest_id
                 cmd = await inbox.receive()
 
                 match cmd:
                     case Msg(tag="inner_observable", inner_observable=xs):
-                        next_id = current_id + 1
+                        next_id = latest_id = current_id + 1
                         for disp in current.to_list():
                             await disp.dispose_async()
-                        inner = await xs.subscribe_async(obv(inbox, next_id))
-                        current, current_id = Some(inner), next_id
+                        current = Nothing
+                        try:
+                            inner = await xs.subscribe_async(obv(inbox, next_id))
+                            current = Some(inner)
+                        except Exception as ex:
+                            await safe_obv.athrow(ex)
+                        current_id = next_id
 
                     case Msg(tag="inner_completed", inner_completed=idx):
-                        if is_stopped and idx == current_id:
-                            await safe_obv.aclose()
-                            current, is_stopped = Nothing, True
+                        if idx == current_id:
+                            current = Nothing
+                            if is_stopped:
+                                await safe_obv.aclose()
 
                     case Msg(tag="completed"):
+                        is_stopped = True
                         if current.is_none():
                             await safe_obv.aclose()
 
                     case Msg(tag="dispose"):
                         if current.is_some():
                             await current.value.dispose_async()
-                        current, is_stopped = Nothing, True
+                        return None
                     case _:
                         raise ValueError(f"Unknown message: {cmd}")
 
@@ -329,17 +340,18 @@ def switch_latest(
             inner_agent.post(Msg(completed=True))
 
         _obv = AsyncAnonymousObserver(asend, athrow, aclose)
-        dispose = await pipe(
-            _obv,
-            source.subscribe_async,
-            auto_detach,
-        )
 
-        async def cancel() -> None:
-            await dispose.dispose_async()
-            inner_agent.post(Msg(dispose=True))
+        async def subscribe() -> AsyncDisposable:
+            dispose = await source.subscribe_async(_obv)
+
+            async def cancel() -> None:
+                await dispose.dispose_async()
+                inner_agent.post(Msg(dispose=True))
+
+            return AsyncDisposable.create(cancel)
 
-        return AsyncDisposable.create(cancel)
+        # Detaching must also release the current inner subscription
+        return await auto_detach(subscribe())
 
     return AsyncAnonymousObservable(subscribe_async)
 
-- 
2.43.0


From 1ffa69a20f18ac7c7f24dc1867217ed59457fe19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:39 +0000
Subject: [PATCH 08/32] fix: scan kept emitting after its accumulator failed

---
 aioreactive/transform.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/aioreactive/transform.py b/aioreactive/transform.py
index a4a7113..3a25c13 100644
--- a/aioreactive/transform.py
+++ b/aioreactive/transform.py
@@ -469,29 +469,41 @@ def _scan(
         async def subscribe_async(observer: AsyncObserver[_TResult]) -> AsyncDisposable:
             disposable: AsyncDisposable = AsyncDisposable.empty()
             current: _TResult = initial
+            is_stopped = False
 
             async def anext(value: _TSource) -> None:
-                nonlocal current
+                nonlocal current, is_stopped
+
+                if is_stopped:
+                    return
 
                 try:
                     intermediate = await accumulator(current, value)
                 except Exception as ex:
-                    await observer.athrow(ex)
+                    is_stopped = True
+                    try:
+                        await observer.athrow(ex)
+                    finally:
+                        await disposable.dispose_async()
                 else:
                     current = intermediate
 
                     await observer.asend(current)
 
             async def athrow(exception: Exception) -> None:
-                await observer.athrow(exception)
+                if not is_stopped:
+                    await observer.athrow(exception)
 
             async def aclose() -> None:
-                await observer.aclose()
+                if not is_stopped:
+                    await observer.aclose()
 
-            await disposable.dispose_async()
             disposable = await obs.subscribe_async(anext, athrow, aclose)
+            if is_stopped:
+                # The accumulator failed while we were subscribing
+                await disposable.dispose_async()
 
-            return disposable
+            return AsyncDisposable.create(disposable.dispose_async)
 
         return AsyncAnonymousObservable(subscribe_async)
 
-- 
2.43.0


From 9a585f6ed5b1d3e8ad865100f16a4e3dc698b949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:57 +0000
Subject: [PATCH 09/32] fix: catch lost track of the handler stream and
 swallowed handler errors

---
 aioreactive/transform.py | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/aioreactive/transform.py b/aioreactive/transform.py
index 3a25c13..245d875 100644
--- a/aioreactive/transform.py
+++ b/aioreactive/transform.py
@@ -412,29 +412,47 @@ def catch(
     def _catch(source: AsyncObservable[_TSource]) -> AsyncObservable[_TSource]:
         async def subscribe_async(aobv: AsyncObserver[_TSource]) -> AsyncDisposable:
             disposable = AsyncDisposable.empty()
+            is_disposed = False
+            latest = 0
 
             async def action(source: AsyncObservable[_TSource]) -> None:
-                nonlocal disposable
+                nonlocal disposable, latest
+                latest += 1
+                current = latest
 
                 async def asend(value: _TSource) -> None:
                     await aobv.asend(value)
 
                 async def athrow(error: Exception) -> None:
-                    next_source = handler(error)
-                    await action(next_source)
+                    if is_disposed:
+                        return
+                    try:
+                        next_source = handler(error)
+                        await action(next_source)
+                    except Exception as ex:
+                        await aobv.athrow(ex)
 
                 async def aclose() -> None:
                     await aobv.aclose()
 
                 _obv = AsyncAnonymousObserver(asend, athrow, aclose)
 
-                await disposable.dispose_async()
                 subscription = await source.subscribe_async(_obv)
-                disposable = subscription
+                if is_disposed or current != latest:
+                    # Disposed, or the source failed, while we were subscribing
+                    await subscription.dispose_async()
+                else:
+                    previous, disposable = disposable, subscription
+                    await previous.dispose_async()
 
             await action(source)
 
-            return AsyncDisposable.create(disposable.dispose_async)
+            async def cancel() -> None:
+                nonlocal is_disposed
+                is_disposed = True
+                await disposable.dispose_async()
+
+            return AsyncDisposable.create(cancel)
 
         return AsyncAnonymousObservable(subscribe_async)
 
-- 
2.43.0


From 31549390b952e85405a1343516d6c83d706cb18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:01 +0000
Subject: [PATCH 10/32] fix: retry retried once, never gave up, and shared
 attempts between subscriptions

---
 aioreactive/transform.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/aioreactive/transform.py b/aioreactive/transform.py
index 245d875..5b72676 100644
--- a/aioreactive/transform.py
+++ b/aioreactive/transform.py
@@ -18,7 +18,7 @@ from expression.core import (
 from expression.system import AsyncDisposable
 
 from .combine import merge_inner, zip_seq
-from .create import fail
+from .create import defer
 from .msg import (
     Key,
     Msg,
@@ -463,18 +463,22 @@ def retry(
     retry_count: int,
 ) -> Callable[[AsyncObservable[_TSource]], AsyncObservable[_TSource]]:
     def _retry(source: AsyncObservable[_TSource]) -> AsyncObservable[_TSource]:
-        count = retry_count
+        def attempts() -> AsyncObservable[_TSource]:
+            # Every subscription has its own attempts
+            count = retry_count
 
-        def factory(exn: Exception) -> AsyncObservable[_TSource]:
-            nonlocal count
+            def factory(exn: Exception) -> AsyncObservable[_TSource]:
+                nonlocal count
 
-            if not count:
-                return fail(exn)
-            else:
-                count -= count
-                return source
+                if not count:
+                    raise exn
+                else:
+                    count -= 1
+                    return source
+
+            return pipe(source, catch(factory))
 
-        return pipe(source, catch(factory))
+        return defer(attempts)
 
     return _retry
 
-- 
2.43.0


From aaaf616d01f2e800a6ba93b7bacc96cfd8f5e1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:04 +0000
Subject: [PATCH 11/32] fix: errors raised while iterating a source iterable
 were swallowed

---
 aioreactive/create.py | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/aioreactive/create.py b/aioreactive/create.py
index ea0f4ef..68725ee 100644
--- a/aioreactive/create.py
+++ b/aioreactive/create.py
@@ -87,15 +87,15 @@ def of_async_iterable(iterable: AsyncIterable[TSource]) -> AsyncObservable[TSour
         sub = AsyncDisposable.create(cancel)
 
         async def worker() -> None:
-            async for value in iterable:
-                try:
+            try:
+                async for value in iterable:
                     await observer.asend(value)
-                except Exception as ex:
-                    await observer.athrow(ex)
-                    return
-
-            await observer.aclose()
-            tasks.remove(task)
+            except Exception as ex:
+                await observer.athrow(ex)
+            else:
+                await observer.aclose()
+            finally:
+                tasks.remove(task)
 
         try:
             task = asyncio.create_task(worker())
@@ -167,16 +167,17 @@ def of_seq(xs: Iterable[TSource]) -> AsyncObservable[TSource]:
 
     async def worker(obv: AsyncObserver[TSource], token: CancellationToken) -> None:
         log.debug("of_seq:worker()")
-        for x in xs:
-            token.throw_if_cancellation_requested()
-            log.debug("of_seq:asend(%s)", x)
+        try:
+            for x in xs:
+                if token.is_cancellation_requested:
+                    return
+                log.debug("of_seq:asend(%s)", x)
 
-            try:
                 await obv.asend(x)
-            except Exception as ex:
-                await obv.athrow(ex)
-
-        await obv.aclose()
+        except Exception as ex:
+            await obv.athrow(ex)
+        else:
+            await obv.aclose()
 
     return of_async_worker(worker)
 
-- 
2.43.0


From 8f536059cacd49490b1acc99593bc09b835e42c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:07 +0000
Subject: [PATCH 12/32] fix: an error raised downstream of interval was
 swallowed

---
 aioreactive/create.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/aioreactive/create.py b/aioreactive/create.py
index 68725ee..d424404 100644
--- a/aioreactive/create.py
+++ b/aioreactive/create.py
@@ -214,7 +214,11 @@ def interval(seconds: float, period: float) -> AsyncObservable[int]:
         @tailrec_async
         async def handler(seconds: float, next: int) -> "TailCallResult[None, [float, int]]":
             await asyncio.sleep(seconds)
-            await aobv.asend(next)
+            try:
+                await aobv.asend(next)
+            except Exception as ex:
+                await aobv.athrow(ex)
+                return None
 
             if not period:
                 await aobv.aclose()
-- 
2.43.0


From 220f72df87e2fe214f6b3b16bf9755e2b2f55344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:50 +0000
Subject: [PATCH 13/32] fix: delay depended on wall-clock adjustments and
 shared its cancellation between subscriptions

---
 aioreactive/timeshift.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/aioreactive/timeshift.py b/aioreactive/timeshift.py
index 311da08..410b0d7 100644
--- a/aioreactive/timeshift.py
+++ b/aioreactive/timeshift.py
@@ -1,7 +1,7 @@
 import asyncio
 import logging
+import time
 from collections.abc import Awaitable, Callable, Iterable
-from datetime import datetime, timedelta, timezone
 from typing import NoReturn, TypeVar
 
 from expression import curry_flipped
@@ -47,11 +47,12 @@ def delay(
     Returns:
         Delayed stream.
     """
-    cts = CancellationTokenSource()
-    token = cts.token
 
     async def subscribe_async(aobv: AsyncObserver[_TSource]) -> AsyncDisposable:
-        def worker(inbox: MailboxProcessor[tuple[Notification[_TSource], datetime]]) -> Awaitable[None]:
+        cts = CancellationTokenSource()
+        token = cts.token
+
+        def worker(inbox: MailboxProcessor[tuple[Notification[_TSource], float]]) -> Awaitable[None]:
             @tailrec_async
             async def loop() -> TailCallResult[None, ...]:
                 if token.is_cancellation_requested:
@@ -59,8 +60,7 @@ def delay(
 
                 ns, due_time = await inbox.receive()
 
-                diff = due_time - datetime.now(timezone.utc)
-                seconds = diff.total_seconds()
+                seconds = due_time - time.monotonic()
                 if seconds > 0:
                     await asyncio.sleep(seconds)
 
@@ -84,8 +84,7 @@ def delay(
         agent = MailboxProcessor.start(worker, token)
 
         async def fn(ns: Notification[_TSource]) -> None:
-            due_time = datetime.now(timezone.utc) + timedelta(seconds=seconds)
-            agent.post((ns, due_time))
+            agent.post((ns, time.monotonic() + seconds))
 
         obv: AsyncNotificationObserver[_TSource] = AsyncNotificationObserver(fn)
         subscription = await source.subscribe_async(obv)
-- 
2.43.0


From b06fa074b0c6c9ecc12bb7181106ad175930f3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:07 +0000
Subject: [PATCH 14/32] fix: an error raised by the observer of a delayed
 stream was swallowed

---
 aioreactive/timeshift.py | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/aioreactive/timeshift.py b/aioreactive/timeshift.py
index 410b0d7..66ffed6 100644
--- a/aioreactive/timeshift.py
+++ b/aioreactive/timeshift.py
@@ -64,19 +64,23 @@ def delay(
                 if seconds > 0:
                     await asyncio.sleep(seconds)
 
-                async def matcher() -> None:
-                    match ns:
-                        case OnNext(value=x):
+                match ns:
+                    case OnNext(value=x):
+                        try:
                             await aobv.asend(x)
+                        except Exception as ex:
+                            try:
+                                await aobv.athrow(ex)
+                            finally:
+                                await cancel()
                             return
-                        case OnError(exception=err):
-                            await aobv.athrow(err)
-                            return
-                        case _:
-                            await aobv.aclose()
-                            return
+                    case OnError(exception=err):
+                        await aobv.athrow(err)
+                        return
+                    case _:
+                        await aobv.aclose()
+                        return
 
-                await matcher()
                 return TailCall["..."]()
 
             return asyncio.ensure_future(loop())
@@ -86,12 +90,18 @@ def delay(
         async def fn(ns: Notification[_TSource]) -> None:
             agent.post((ns, time.monotonic() + seconds))
 
-        obv: AsyncNotificationObserver[_TSource] = AsyncNotificationObserver(fn)
-        subscription = await source.subscribe_async(obv)
+        subscription = AsyncDisposable.empty()
 
         async def cancel() -> None:
             log.debug("delay:cancel()")
+            await subscription.dispose_async()
+            # Last, since we may be called from the worker we are cancelling
             cts.cancel()
+
+        obv: AsyncNotificationObserver[_TSource] = AsyncNotificationObserver(fn)
+        subscription = await source.subscribe_async(obv)
+        if token.is_cancellation_requested:
+            # The observer failed while we were subscribing
             await subscription.dispose_async()
 
         return AsyncDisposable.create(cancel)
-- 
2.43.0


From 7befb94671897d34c84643e95dd98f982a0f9f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:39 +0000
Subject: [PATCH 15/32] fix: AsyncSingleSubject hung after dispose and could
 terminate its observer twice

---
 aioreactive/subject.py | 39 +++++++++++++++++++--------------------
 1 file changed, 19 insertions(+), 20 deletions(-)

diff --git a/aioreactive/subject.py b/aioreactive/subject.py
index d3d7eb1..4622467 100644
--- a/aioreactive/subject.py
+++ b/aioreactive/subject.py
@@ -37,40 +37,35 @@ class AsyncSingleSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asy
     async def asend(self, value: _TSource) -> None:
         log.debug("AsyncSingleStream:asend(%s)", str(value))
 
-        self.check_disposed()
-
-        # AsyncSingleStreams are cold and will await a sink.
-        while self._observer is None:
-            log.debug("AsyncSingleStream:asend:awaiting start")
-            await self._wait
-            log.debug("AsyncSingleStream:asend:awaiting:done")
-
+        observer = await self._wait_for_observer()
         if not self._is_stopped:
-            await self._observer.asend(value)
+            await observer.asend(value)
 
     async def athrow(self, error: Exception) -> None:
         log.debug("AsyncSingleStream:athrow()")
 
-        while self._observer is None:
-            await self._wait
-
-        self.check_disposed()
+        observer = await self._wait_for_observer()
         if not self._is_stopped:
-            await self._observer.athrow(error)
             self._is_stopped = True
+            await observer.athrow(error)
 
     async def aclose(self) -> None:
         log.debug("AsyncSingleStream:aclose()")
 
+        observer = await self._wait_for_observer()
+        if not self._is_stopped:
+            self._is_stopped = True
+            await observer.aclose()
+
+    async def _wait_for_observer(self) -> AsyncObserver[_TSource]:
+        # AsyncSingleStreams are cold and will await a sink.
+        self.check_disposed()
         while self._observer is None:
-            log.debug("AsyncSingleStream:aclose:awaiting start")
+            log.debug("AsyncSingleStream:awaiting start")
             await self._wait
+            self.check_disposed()
 
-        self.check_disposed()
-        if not self._is_stopped:
-            log.debug("AsyncSingleStream:subscription disposed")
-            await self._observer.aclose()
-            self._is_stopped = True
+        return self._observer
 
     async def dispose_async(self) -> None:
         log.debug("AsyncSingleStream:dispose_async()")
@@ -78,6 +73,10 @@ class AsyncSingleSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asy
         self._observer = None
         self._is_disposed = True
 
+        # Release whoever still awaits an observer
+        if not self._wait.done():
+            self._wait.set_result(True)
+
     async def subscribe_async(
         self,
         send: SendAsync[_TSource] | AsyncObserver[_TSource] | None = None,
-- 
2.43.0


From 2b0593e4d6838ce6974b3cd02084f179c2ca664a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:11 +0000
Subject: [PATCH 16/32] fix: cancelling one send waiting for an observer of
 AsyncSingleSubject cancelled all of them

---
 aioreactive/subject.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aioreactive/subject.py b/aioreactive/subject.py
index 4622467..c5c3ea5 100644
--- a/aioreactive/subject.py
+++ b/aioreactive/subject.py
@@ -1,5 +1,5 @@
 import logging
-from asyncio import Future
+from asyncio import Future, shield
 from typing import TypeVar
 
 from expression.system import AsyncDisposable, ObjectDisposedException
@@ -62,7 +62,7 @@ class AsyncSingleSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asy
         self.check_disposed()
         while self._observer is None:
             log.debug("AsyncSingleStream:awaiting start")
-            await self._wait
+            await shield(self._wait)  # All waiters share the future
             self.check_disposed()
 
         return self._observer
-- 
2.43.0


From 4b9b55710be38bf696fc88e7e8830833f9b0848b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:24 +0000
Subject: [PATCH 17/32] fix: async iteration lost wake-ups of concurrent
 producers and never released the one that ended it

---
 aioreactive/observers.py | 46 ++++++++++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 16 deletions(-)

diff --git a/aioreactive/observers.py b/aioreactive/observers.py
index bc41af8..517b6da 100644
--- a/aioreactive/observers.py
+++ b/aioreactive/observers.py
@@ -1,5 +1,5 @@
 import logging
-from asyncio import Future, iscoroutinefunction
+from asyncio import Future, iscoroutinefunction, wait
 from collections.abc import AsyncIterable, AsyncIterator, Awaitable, Callable, Coroutine
 from typing import Any, TypeVar, cast
 
@@ -30,55 +30,69 @@ class AsyncIteratorObserver(AsyncObserver[_TSource], AsyncIterable[_TSource], As
         self._subscription: AsyncDisposable | None = None
         self._source = source
         self._busy = False
+        self._is_stopped = False
 
     async def asend(self, value: _TSource) -> None:
         log.debug("AsyncIteratorObserver:asend(%s)", value)
 
         await self._serialize_access()
 
-        self._push.set_result(value)
+        if not self._is_stopped:
+            self._push.set_result(value)
         await self._wait_for_pull()
 
     async def athrow(self, error: Exception) -> None:
-        log.debug("AsyncIteratorObserver:athrow()", error)
+        log.debug("AsyncIteratorObserver:athrow(%s)", error)
         await self._serialize_access()
 
-        self._push.set_exception(error)
+        if not self._is_stopped:
+            self._push.set_exception(error)
         await self._wait_for_pull()
 
     async def aclose(self) -> None:
         await self._serialize_access()
 
-        self._push.set_exception(StopAsyncIteration)
+        if not self._is_stopped:
+            self._push.set_exception(StopAsyncIteration)
         await self._wait_for_pull()
 
     async def _wait_for_pull(self) -> None:
-        await self._pull
-        self._pull = Future()
+        # Nobody pulls any more after the terminal event
+        if not self._is_stopped:
+            await self._pull
+            self._pull = Future()
         self._busy = False
 
+        # Wake up any awaiters
+        for awaiter in self._awaiters[:1]:
+            if not awaiter.done():
+                awaiter.set_result(True)
+
     async def _serialize_access(self) -> None:
         # Serialize producer event to the iterator
         while self._busy:
             fut: Future[bool] = Future()
             self._awaiters.append(fut)
-            await fut
-            self._awaiters.remove(fut)
+            try:
+                await fut
+            finally:
+                self._awaiters.remove(fut)
 
         self._busy = True
 
     async def wait_for_push(self) -> _TSource:
+        if self._is_stopped:
+            raise StopAsyncIteration
+
         if self._subscription is None:
             self._subscription = await self._source.subscribe_async(self)
 
-        value = await self._push
-        self._push = Future()
+        # Cancelling the wait leaves the future intact for the next one
+        await wait([self._push])
+        push, self._push = self._push, Future()
         self._pull.set_result(True)
-
-        # Wake up any awaiters
-        for awaiter in self._awaiters[:1]:
-            awaiter.set_result(True)
-        return value
+        self._is_stopped = push.exception() is not None
+        return push.result()
 
     async def dispose_async(self) -> None:
         if self._subscription is not None:
-- 
2.43.0


From 071a45a497201ba63ff75c1a1efa03c93ce47207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:27 +0000
Subject: [PATCH 18/32] fix: async iteration deadlocked on a source that sends
 while being subscribed

---
 aioreactive/observers.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/aioreactive/observers.py b/aioreactive/observers.py
index 517b6da..b9ad8ba 100644
--- a/aioreactive/observers.py
+++ b/aioreactive/observers.py
@@ -1,5 +1,5 @@
 import logging
-from asyncio import Future, iscoroutinefunction, wait
+from asyncio import FIRST_COMPLETED, Future, ensure_future, iscoroutinefunction, wait
 from collections.abc import AsyncIterable, AsyncIterator, Awaitable, Callable, Coroutine
 from typing import Any, TypeVar, cast
 
@@ -27,7 +27,7 @@ class AsyncIteratorObserver(AsyncObserver[_TSource], AsyncIterable[_TSource], As
         self._pull: Future[bool] = Future()
 
         self._awaiters: list[Future[bool]] = []
-        self._subscription: AsyncDisposable | None = None
+        self._subscription: Future[AsyncDisposable] | None = None
         self._source = source
         self._busy = False
         self._is_stopped = False
@@ -85,7 +85,12 @@ class AsyncIteratorObserver(AsyncObserver[_TSource], AsyncIterable[_TSource], As
             raise StopAsyncIteration
 
         if self._subscription is None:
-            self._subscription = await self._source.subscribe_async(self)
+            self._subscription = ensure_future(self._source.subscribe_async(self))
+        if not self._subscription.done():
+            # The source may well send, and await our pull, while we are subscribing
+            await wait([self._push, self._subscription], return_when=FIRST_COMPLETED)
+        if self._subscription.done():
+            self._subscription.result()
 
         # Cancelling the wait leaves the future intact for the next one
         await wait([self._push])
@@ -95,9 +100,13 @@ class AsyncIteratorObserver(AsyncObserver[_TSource], AsyncIterable[_TSource], As
         return push.result()
 
     async def dispose_async(self) -> None:
-        if self._subscription is not None:
-            await self._subscription.dispose_async()
-        self._subscription = None
+        subscription, self._subscription = self._subscription, None
+        if subscription is not None:
+            if not subscription.done():
+                subscription.cancel()
+                await wait([subscription])
+            if not subscription.cancelled() and not subscription.exception():
+                await subscription.result().dispose_async()
 
     def __aiter__(self) -> AsyncIterator[_TSource]:
         log.debug("AsyncIteratorObserver:__aiter__")
-- 
2.43.0


From e4aefda8ecb4e86f8a269e10b05802b05e13e96c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:31 +0000
Subject: [PATCH 19/32] fix: AsyncAwaitableObserver raised into the producer
 once its future was cancelled

---
 aioreactive/observers.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/aioreactive/observers.py b/aioreactive/observers.py
index b9ad8ba..7e3bdef 100644
--- a/aioreactive/observers.py
+++ b/aioreactive/observers.py
@@ -319,7 +319,9 @@ class AsyncAwaitableObserver(Future[_TSource], AsyncObserver[_TSource], Disposab
 
         self._is_stopped = True
 
-        self.set_exception(error)
+        # Whoever awaits us may have given up
+        if not self.done():
+            self.set_exception(error)
         await self._athrow(error)
 
     async def aclose(self) -> None:
@@ -331,7 +333,9 @@ class AsyncAwaitableObserver(Future[_TSource], AsyncObserver[_TSource], Disposab
 
         self._is_stopped = True
 
-        if self._has_value:
+        if self.done():
+            pass
+        elif self._has_value:
             self.set_result(self._last_value)
         else:
             self.cancel()
-- 
2.43.0


From e8224b1c352f8c9ca6462bab94b4585c9df5ae80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:34:20 +0000
Subject: [PATCH 20/32] fix: a failing second subscription left the first one
 of combining operators subscribed

---
 aioreactive/observers.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/aioreactive/observers.py b/aioreactive/observers.py
index 7e3bdef..9df1d5b 100644
--- a/aioreactive/observers.py
+++ b/aioreactive/observers.py
@@ -260,7 +260,12 @@ def auto_detach_observer(
 
     # Auto-detaches (disposes) the disposable when the observer completes with success or error.
     async def auto_detach(async_disposable: Coroutine[None, None, AsyncDisposable]) -> AsyncDisposable:
-        disposable = await async_disposable
+        try:
+            disposable = await async_disposable
+        except BaseException:
+            # Release what we subscribed to so far
+            await cancel()
+            raise
         if is_detached:
             # Terminated while we were subscribing
             await disposable.dispose_async()
-- 
2.43.0


From 06f1a6f32e6d54ec835b93395d3f32f715be6b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:37 +0000
Subject: [PATCH 21/32] fix: catch forwarded events of a stream whose
 subscription failed or had ended

---
 aioreactive/transform.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/aioreactive/transform.py b/aioreactive/transform.py
index 5b72676..51a7688 100644
--- a/aioreactive/transform.py
+++ b/aioreactive/transform.py
@@ -412,7 +412,7 @@ def catch(
     def _catch(source: AsyncObservable[_TSource]) -> AsyncObservable[_TSource]:
         async def subscribe_async(aobv: AsyncObserver[_TSource]) -> AsyncDisposable:
             disposable = AsyncDisposable.empty()
-            is_disposed = False
+            is_stopped = False
             latest = 0
 
             async def action(source: AsyncObservable[_TSource]) -> None:
@@ -421,25 +421,32 @@ def catch(
                 current = latest
 
                 async def asend(value: _TSource) -> None:
-                    await aobv.asend(value)
+                    if not is_stopped and current == latest:
+                        await aobv.asend(value)
 
                 async def athrow(error: Exception) -> None:
-                    if is_disposed:
+                    nonlocal is_stopped
+                    if is_stopped or current != latest:
                         return
                     try:
                         next_source = handler(error)
                         await action(next_source)
                     except Exception as ex:
-                        await aobv.athrow(ex)
+                        if not is_stopped:
+                            is_stopped = True
+                            await aobv.athrow(ex)
 
                 async def aclose() -> None:
-                    await aobv.aclose()
+                    nonlocal is_stopped
+                    if not is_stopped and current == latest:
+                        is_stopped = True
+                        await aobv.aclose()
 
                 _obv = AsyncAnonymousObserver(asend, athrow, aclose)
 
                 subscription = await source.subscribe_async(_obv)
-                if is_disposed or current != latest:
-                    # Disposed, or the source failed, while we were subscribing
+                if is_stopped or current != latest:
+                    # Disposed, or the source ended, while we were subscribing
                     await subscription.dispose_async()
                 else:
                     previous, disposable = disposable, subscription
@@ -448,8 +455,8 @@ def catch(
             await action(source)
 
             async def cancel() -> None:
-                nonlocal is_disposed
-                is_disposed = True
+                nonlocal is_stopped
+                is_stopped = True
                 await disposable.dispose_async()
 
             return AsyncDisposable.create(cancel)
-- 
2.43.0


From 90007d2859e836198513665e0f604125c6199fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:21 +0000
Subject: [PATCH 22/32] fix: merge_inner went on subscribing after an inner
 subscription failed

---
 aioreactive/combine.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/aioreactive/combine.py b/aioreactive/combine.py
index f529b1a..9836a9c 100644
--- a/aioreactive/combine.py
+++ b/aioreactive/combine.py
@@ -128,6 +128,7 @@ def merge_inner(
                         except Exception as ex:
                             # Subscribing to an inner observable failed
                             await safe_obv.athrow(ex)
+                            model = await update(Msg(dispose=True), model)
 
                         if model.is_stopped and not model.subscriptions:
                             break
-- 
2.43.0


From 4ec4428e2a8131b01b14eb0dc6ffbc6ed755310b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:44 +0000
Subject: [PATCH 23/32] fix: a send on AsyncSingleSubject could overtake those
 waiting for the observer

---
 aioreactive/subject.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/aioreactive/subject.py b/aioreactive/subject.py
index c5c3ea5..e4bd9a3 100644
--- a/aioreactive/subject.py
+++ b/aioreactive/subject.py
@@ -1,5 +1,5 @@
 import logging
-from asyncio import Future, shield
+from asyncio import Future, Lock, shield
 from typing import TypeVar
 
 from expression.system import AsyncDisposable, ObjectDisposedException
@@ -26,6 +26,7 @@ class AsyncSingleSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asy
         super().__init__()
 
         self._wait: Future[bool] = Future()
+        self._lock = Lock()
         self._observer: AsyncObserver[_TSource] | None = None
         self._is_disposed = False
         self._is_stopped = False
@@ -60,12 +61,13 @@ class AsyncSingleSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asy
     async def _wait_for_observer(self) -> AsyncObserver[_TSource]:
         # AsyncSingleStreams are cold and will await a sink.
         self.check_disposed()
-        while self._observer is None:
-            log.debug("AsyncSingleStream:awaiting start")
-            await shield(self._wait)  # All waiters share the future
-            self.check_disposed()
+        async with self._lock:  # Nobody overtakes those that are already waiting
+            while self._observer is None:
+                log.debug("AsyncSingleStream:awaiting start")
+                await shield(self._wait)
+                self.check_disposed()
 
-        return self._observer
+            return self._observer
 
     async def dispose_async(self) -> None:
         log.debug("AsyncSingleStream:dispose_async()")
-- 
2.43.0


From 0a2842f538fd9dcc4c6c8ee4bebab6c364b37daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:33 +0000
Subject: [PATCH 24/32] fix: concurrent producers of an async iterator could
 starve and a cancelled one broke it

---
 aioreactive/observers.py | 66 +++++++++++++++++-----------------------
 1 file changed, 28 insertions(+), 38 deletions(-)

diff --git a/aioreactive/observers.py b/aioreactive/observers.py
index 9df1d5b..1c322c4 100644
--- a/aioreactive/observers.py
+++ b/aioreactive/observers.py
@@ -1,6 +1,7 @@
 import logging
-from asyncio import FIRST_COMPLETED, Future, ensure_future, iscoroutinefunction, wait
+from asyncio import FIRST_COMPLETED, Future, Lock, ensure_future, iscoroutinefunction, wait
 from collections.abc import AsyncIterable, AsyncIterator, Awaitable, Callable, Coroutine
+from contextlib import asynccontextmanager
 from typing import Any, TypeVar, cast
 
 from expression.core import MailboxProcessor, TailCall, tailrec_async
@@ -26,59 +27,47 @@ class AsyncIteratorObserver(AsyncObserver[_TSource], AsyncIterable[_TSource], As
         self._push: Future[_TSource] = Future()
         self._pull: Future[bool] = Future()
 
-        self._awaiters: list[Future[bool]] = []
+        self._lock = Lock()
         self._subscription: Future[AsyncDisposable] | None = None
         self._source = source
-        self._busy = False
         self._is_stopped = False
 
     async def asend(self, value: _TSource) -> None:
         log.debug("AsyncIteratorObserver:asend(%s)", value)
 
-        await self._serialize_access()
-
-        if not self._is_stopped:
-            self._push.set_result(value)
-        await self._wait_for_pull()
+        async with self._serialize_access():
+            if not self._is_stopped:
+                self._push.set_result(value)
+            await self._wait_for_pull()
 
     async def athrow(self, error: Exception) -> None:
         log.debug("AsyncIteratorObserver:athrow(%s)", error)
-        await self._serialize_access()
 
-        if not self._is_stopped:
-            self._push.set_exception(error)
-        await self._wait_for_pull()
+        async with self._serialize_access():
+            if not self._is_stopped:
+                self._push.set_exception(error)
+            await self._wait_for_pull()
 
     async def aclose(self) -> None:
-        await self._serialize_access()
-
-        if not self._is_stopped:
-            self._push.set_exception(StopAsyncIteration)
-        await self._wait_for_pull()
+        async with self._serialize_access():
+            if not self._is_stopped:
+                self._push.set_exception(StopAsyncIteration)
+            await self._wait_for_pull()
 
     async def _wait_for_pull(self) -> None:
         # Nobody pulls any more after the terminal event
         if not self._is_stopped:
-            await self._pull
-            self._pull = Future()
-        self._busy = False
-
-        # Wake up any awaiters
-        for awaiter in self._awaiters[:1]:
-            if not awaiter.done():
-                awaiter.set_result(True)
-
-    async def _serialize_access(self) -> None:
-        # Serialize producer event to the iterator
-        while self._busy:
-            fut: Future[bool] = Future()
-            self._awaiters.append(fut)
-            try:
-                await fut
-            finally:
-                self._awaiters.remove(fut)
-
-        self._busy = True
+            # Cancelling the wait leaves the future intact for the iterator
+            await wait([self._pull])
+
+    @asynccontextmanager
+    async def _serialize_access(self) -> AsyncIterator[None]:
+        # Serialize producer event to the iterator, first come first served
+        async with self._lock:
+            if self._push.done():
+                # Left behind by a producer that was cancelled
+                await self._wait_for_pull()
+            yield
 
     async def wait_for_push(self) -> _TSource:
         if self._is_stopped:
@@ -95,7 +84,8 @@ class AsyncIteratorObserver(AsyncObserver[_TSource], AsyncIterable[_TSource], As
         # Cancelling the wait leaves the future intact for the next one
         await wait([self._push])
         push, self._push = self._push, Future()
-        self._pull.set_result(True)
+        pull, self._pull = self._pull, Future()
+        pull.set_result(True)
         self._is_stopped = push.exception() is not None
         return push.result()
 
-- 
2.43.0


From 0f9d826d64a32fb02dd52f43aa430d51dc7decff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:02 +0000
Subject: [PATCH 25/32] fix: disposing a from_async stream completed its
 observer

---
 aioreactive/create.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aioreactive/create.py b/aioreactive/create.py
index d424404..211db53 100644
--- a/aioreactive/create.py
+++ b/aioreactive/create.py
@@ -63,7 +63,7 @@ def of_async(workflow: Awaitable[TSource]) -> AsyncObservable[TSource]:
     result of the given async workflow.
     """
 
-    async def worker(obv: AsyncObserver[TSource], _: CancellationToken) -> None:
+    async def worker(obv: AsyncObserver[TSource], token: CancellationToken) -> None:
         try:
             result = await workflow
             # Note to self. If workflow is or gets cancelled we will jump straight to `finally`.
@@ -71,7 +71,8 @@ def of_async(workflow: Awaitable[TSource]) -> AsyncObservable[TSource]:
         except Exception as ex:
             await obv.athrow(ex)
         finally:
-            await obv.aclose()
+            if not token.is_cancellation_requested:
+                await obv.aclose()
 
     return of_async_worker(worker)
 
-- 
2.43.0


From a8c240b98de32630549964ceeeccad3b3df15f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:50:36 +0000
Subject: [PATCH 26/32] fix: to_observable leaked its source when disposed
 early, lost subscribe errors and raised in the event loop

---
 aioreactive/leave.py | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/aioreactive/leave.py b/aioreactive/leave.py
index 58ca389..b0a162a 100644
--- a/aioreactive/leave.py
+++ b/aioreactive/leave.py
@@ -1,5 +1,5 @@
 import asyncio
-from collections.abc import AsyncIterable
+from collections.abc import AsyncIterable, Coroutine
 from typing import Any, TypeVar
 
 import reactivex
@@ -35,6 +35,12 @@ def to_observable(source: AsyncObservable[_TSource]) -> Observable[_TSource]:
 
     def subscribe(obv: ObserverBase[_TSource], scheduler: SchedulerBase | None = None) -> DisposableBase:
         subscription: AsyncDisposable | None = None
+        is_disposed = False
+
+        def spawn(coro: Coroutine[Any, Any, None]) -> None:
+            task = asyncio.create_task(coro)
+            tasks.add(task)
+            task.add_done_callback(tasks.discard)
 
         async def start() -> None:
             nonlocal subscription
@@ -48,17 +54,22 @@ def to_observable(source: AsyncObservable[_TSource]) -> Observable[_TSource]:
             async def aclose() -> None:
                 obv.on_completed()
 
-            subscription = await source.subscribe_async(AsyncAnonymousObserver(asend, athrow, aclose))
-            tasks.remove(task)
+            try:
+                subscription = await source.subscribe_async(AsyncAnonymousObserver(asend, athrow, aclose))
+            except Exception as error:
+                obv.on_error(error)
+            else:
+                if is_disposed:
+                    # Disposed or terminated while we were subscribing
+                    await subscription.dispose_async()
 
-        task = asyncio.create_task(start())
-        tasks.add(task)
-        task.add_done_callback(lambda _: tasks.remove(task))
+        spawn(start())
 
         def dispose() -> None:
+            nonlocal is_disposed
+            is_disposed = True
             if subscription:
-                task = asyncio.create_task(subscription.dispose_async())
-                tasks.add(task)
+                spawn(subscription.dispose_async())
 
         return Disposable(dispose)
 
-- 
2.43.0


From 05d4062ca5fd7ff0daba136ea4e361c6e3792476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:24:10 +0000
Subject: [PATCH 27/32] fix: distinct_until_changed went silent when comparing
 values raised

---
 aioreactive/filtering.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/aioreactive/filtering.py b/aioreactive/filtering.py
index c056b4e..a0cecfd 100644
--- a/aioreactive/filtering.py
+++ b/aioreactive/filtering.py
@@ -141,11 +141,11 @@ def distinct_until_changed(
                 async def get_latest() -> Notification[_TSource]:
                     match n:
                         case OnNext(value=x):
-                            if n != latest:
-                                try:
+                            try:
+                                if n != latest:
                                     await safe_obv.asend(x)
-                                except Exception as ex:
-                                    await safe_obv.athrow(ex)
+                            except Exception as ex:
+                                await safe_obv.athrow(ex)
                         case OnError(exception=err):
                             await safe_obv.athrow(err)
 
-- 
2.43.0


From 3230413a276c33fb62685c38f0c1b3e3eb946f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:31 +0000
Subject: [PATCH 28/32] fix: the workers of a disposed or terminated
 subscription stayed pending forever

---
 aioreactive/combine.py   | 28 +++++++++++++++++++++++-----
 aioreactive/create.py    | 10 +++++++---
 aioreactive/filtering.py | 20 ++++++++++++++++----
 aioreactive/observers.py | 33 ++++++++++++++++++++++++++++-----
 aioreactive/timeshift.py | 16 ++++++++++------
 5 files changed, 84 insertions(+), 23 deletions(-)

diff --git a/aioreactive/combine.py b/aioreactive/combine.py
index 9836a9c..f1cc5f2 100644
--- a/aioreactive/combine.py
+++ b/aioreactive/combine.py
@@ -2,7 +2,7 @@ import dataclasses
 import logging
 from collections.abc import Callable, Iterable
 from dataclasses import dataclass
-from typing import Any, Generic, NoReturn, TypeVar
+from typing import Any, Generic, TypeVar
 
 from expression import curry_flip
 from expression.collections import Block, Map, block, map
@@ -207,7 +207,7 @@ def combine_latest(
             @tailrec_async
             async def message_loop(
                 source_value: Option[_TSource], other_value: Option[_TOther]
-            ) -> "TailCallResult[NoReturn, [Option[_TSource], Option[_TOther]]]":
+            ) -> "TailCallResult[None, [Option[_TSource], Option[_TOther]]]":
                 cn = await inbox.receive()
 
                 async def get_value(n: Notification[Any]) -> Option[Any]:
@@ -226,6 +226,8 @@ def combine_latest(
 
                     case Msg(tag="other", other=value):
                         other_value = await get_value(value)
+                    case Msg(tag="dispose"):
+                        return None
                     case _:
                         raise ValueError(f"Unexpected message: {cn}")
 
@@ -245,6 +247,12 @@ def combine_latest(
 
         agent = MailboxProcessor.start(worker)
 
+        async def stop() -> None:
+            agent.post(Msg(dispose=True))
+
+        async def stopper() -> AsyncDisposable:
+            return AsyncDisposable.create(stop)
+
         async def obv_fn1(n: Notification[_TSource]) -> None:
             pipe(Msg(source=n), agent.post)
 
@@ -253,10 +261,11 @@ def combine_latest(
 
         obv1: AsyncObserver[_TSource] = AsyncNotificationObserver(obv_fn1)
         obv2: AsyncObserver[_TOther] = AsyncNotificationObserver(obv_fn2)
+        dispose0 = await auto_detach(stopper())
         dispose1 = await pipe(obv1, source.subscribe_async, auto_detach)
         dispose2 = await pipe(obv2, other.subscribe_async, auto_detach)
 
-        return AsyncDisposable.composite(dispose1, dispose2)
+        return AsyncDisposable.composite(dispose0, dispose1, dispose2)
 
     return AsyncAnonymousObservable(subscribe_async)
 
@@ -288,7 +297,7 @@ def with_latest_from(
             @tailrec_async
             async def message_loop(
                 latest: Option[_TOther],
-            ) -> "TailCallResult[NoReturn, [Option[_TOther]]]":
+            ) -> "TailCallResult[None, [Option[_TOther]]]":
                 cn = await inbox.receive()
 
                 async def get_value(n: Notification[Any]) -> Option[Any]:
@@ -309,6 +318,8 @@ def with_latest_from(
                         source_value = await get_value(value)
                     case Msg(tag="other", other=value):
                         latest = await get_value(value)
+                    case Msg(tag="dispose"):
+                        return None
                     case _:
                         raise ValueError(f"Unexpected message: {cn}")
 
@@ -328,6 +339,12 @@ def with_latest_from(
 
         agent = MailboxProcessor.start(worker)
 
+        async def stop() -> None:
+            agent.post(Msg(dispose=True))
+
+        async def stopper() -> AsyncDisposable:
+            return AsyncDisposable.create(stop)
+
         async def obv_fn1(n: Notification[_TSource]) -> None:
             pipe(Msg(source=n), agent.post)
 
@@ -336,9 +353,10 @@ def with_latest_from(
 
         obv1: AsyncObserver[_TSource] = AsyncNotificationObserver(obv_fn1)
         obv2: AsyncObserver[_TOther] = AsyncNotificationObserver(obv_fn2)
+        dispose0 = await auto_detach(stopper())
         dispose1 = await pipe(obv1, source.subscribe_async, auto_detach)
         dispose2 = await pipe(obv2, other.subscribe_async, auto_detach)
-        return AsyncDisposable.composite(dispose1, dispose2)
+        return AsyncDisposable.composite(dispose0, dispose1, dispose2)
 
     return AsyncAnonymousObservable(subscribe_async)
 
diff --git a/aioreactive/create.py b/aioreactive/create.py
index 211db53..5da5a1b 100644
--- a/aioreactive/create.py
+++ b/aioreactive/create.py
@@ -13,7 +13,7 @@ from expression.system import (
 )
 
 from .observables import AsyncAnonymousObservable
-from .observers import AsyncObserver, safe_observer
+from .observers import AsyncObserver, safe_observer, stoppable_observer
 from .types import AsyncObservable
 
 
@@ -48,10 +48,14 @@ def of_async_worker(worker: Callable[[AsyncObserver[Any], CancellationToken], Aw
     async def subscribe_async(aobv: AsyncObserver[Any]) -> AsyncDisposable:
         log.debug("of_async_worker:subscribe_async()")
         disposable, token = canceller()
-        safe_obv = safe_observer(aobv, disposable)
+        safe_obv, stop = stoppable_observer(aobv, disposable)
+
+        async def cancel() -> None:
+            await disposable.dispose_async()
+            stop()
 
         aiotools.start(worker(safe_obv, token), token)
-        return disposable
+        return AsyncDisposable.create(cancel)
 
     return AsyncAnonymousObservable(subscribe_async)
 
diff --git a/aioreactive/filtering.py b/aioreactive/filtering.py
index a0cecfd..22e0b03 100644
--- a/aioreactive/filtering.py
+++ b/aioreactive/filtering.py
@@ -1,5 +1,5 @@
 from collections.abc import Awaitable, Callable, Iterable
-from typing import Any, NoReturn, TypeVar
+from typing import Any, TypeVar
 
 from expression.collections import seq
 from expression.core import (
@@ -15,7 +15,7 @@ from expression.core import (
 from expression.system.disposable import AsyncDisposable
 
 from .combine import zip_seq
-from .notification import Notification, OnCompleted, OnError, OnNext
+from .notification import MsgKind, Notification, OnCompleted, OnError, OnNext
 from .observables import AsyncAnonymousObservable
 from .observers import (
     AsyncAnonymousObserver,
@@ -135,7 +135,7 @@ def distinct_until_changed(
             @tailrec_async
             async def message_loop(
                 latest: Notification[_TSource],
-            ) -> TailCallResult[NoReturn, [Notification[_TSource]]]:
+            ) -> TailCallResult[None, [Notification[_TSource]]]:
                 n = await inbox.receive()
 
                 async def get_latest() -> Notification[_TSource]:
@@ -155,6 +155,8 @@ def distinct_until_changed(
                     return n
 
                 latest = await get_latest()
+                if latest.kind != MsgKind.ON_NEXT:
+                    return None
                 return TailCall[Notification[_TSource]](latest)
 
             await message_loop(OnCompleted())
@@ -165,7 +167,17 @@ def distinct_until_changed(
             agent.post(n)
 
         obv: AsyncObserver[_TSource] = AsyncNotificationObserver(notification)
-        return await pipe(obv, source.subscribe_async, auto_detach)
+
+        async def subscribe() -> AsyncDisposable:
+            dispose = await source.subscribe_async(obv)
+
+            async def cancel() -> None:
+                await dispose.dispose_async()
+                agent.post(OnCompleted())
+
+            return AsyncDisposable.create(cancel)
+
+        return await auto_detach(subscribe())
 
     return AsyncAnonymousObservable(subscribe_async)
 
diff --git a/aioreactive/observers.py b/aioreactive/observers.py
index 1c322c4..ea99e07 100644
--- a/aioreactive/observers.py
+++ b/aioreactive/observers.py
@@ -176,12 +176,22 @@ def safe_observer(obv: AsyncObserver[_TSource], disposable: AsyncDisposable) ->
         obv: Observer to serialize access to
         disposable: Disposable to dispose when the observer closes.
     """
+    safe_obv, _ = stoppable_observer(obv, disposable)
+    return safe_obv
 
-    async def worker(inbox: MailboxProcessor[Notification[_TSource]]) -> None:
+
+def stoppable_observer(
+    obv: AsyncObserver[_TSource], disposable: AsyncDisposable
+) -> tuple[AsyncObserver[_TSource], Callable[[], None]]:
+    """Safe observer, and a function that ends it without closing the observer."""
+
+    async def worker(inbox: MailboxProcessor[Notification[_TSource] | None]) -> None:
         async def message_loop(running: bool) -> None:
             while running:
                 msg = await inbox.receive()
-                if msg.kind == MsgKind.ON_NEXT:
+                if msg is None:
+                    running = False
+                elif msg.kind == MsgKind.ON_NEXT:
                     try:
                         await msg.accept_observer(obv)
                     except Exception as ex:
@@ -210,7 +220,10 @@ def safe_observer(obv: AsyncObserver[_TSource], disposable: AsyncDisposable) ->
     async def aclose() -> None:
         agent.post(OnCompleted())
 
-    return AsyncAnonymousObserver(asend, athrow, aclose)
+    def stop() -> None:
+        agent.post(None)
+
+    return AsyncAnonymousObserver(asend, athrow, aclose), stop
 
 
 def auto_detach_observer(
@@ -230,6 +243,8 @@ def auto_detach_observer(
             match cmd:
                 case Msg(tag="disposable", disposable=disposable):
                     disposables.append(disposable)
+                case Msg(tag="completed"):
+                    return
                 case _:
                     for disp in disposables:
                         await disp.dispose_async()
@@ -246,7 +261,7 @@ def auto_detach_observer(
         agent.post(Msg(dispose=True))
 
     canceller = AsyncDisposable.create(cancel)
-    safe_obv = safe_observer(obv, canceller)
+    safe_obv, stop = stoppable_observer(obv, canceller)
 
     # Auto-detaches (disposes) the disposable when the observer completes with success or error.
     async def auto_detach(async_disposable: Coroutine[None, None, AsyncDisposable]) -> AsyncDisposable:
@@ -255,13 +270,21 @@ def auto_detach_observer(
         except BaseException:
             # Release what we subscribed to so far
             await cancel()
+            stop()
             raise
         if is_detached:
             # Terminated while we were subscribing
             await disposable.dispose_async()
         else:
             agent.post(Msg(disposable=disposable))
-        return AsyncDisposable.create(disposable.dispose_async)
+
+        async def dispose() -> None:
+            await disposable.dispose_async()
+            # There is nothing left to detach from
+            agent.post(Msg(completed=True))
+            stop()
+
+        return AsyncDisposable.create(dispose)
 
     return safe_obv, auto_detach
 
diff --git a/aioreactive/timeshift.py b/aioreactive/timeshift.py
index 66ffed6..b824050 100644
--- a/aioreactive/timeshift.py
+++ b/aioreactive/timeshift.py
@@ -160,14 +160,18 @@ def debounce(
                 aiotools.start(worker())
 
             obv_: AsyncObserver[_TSource] = AsyncNotificationObserver(obv)
-            dispose = await pipe(obv_, source.subscribe_async, auto_detach)
 
-            async def cancel() -> None:
-                # Discard the pending value, disposing is not completing
-                cts.cancel()
-                await dispose.dispose_async()
+            async def subscribe() -> AsyncDisposable:
+                dispose = await source.subscribe_async(obv_)
 
-            return AsyncDisposable.create(cancel)
+                async def cancel() -> None:
+                    # Discard the pending value, disposing is not completing
+                    cts.cancel()
+                    await dispose.dispose_async()
+
+                return AsyncDisposable.create(cancel)
+
+            return await auto_detach(subscribe())
 
         return AsyncAnonymousObservable(subscribe_async)
 
-- 
2.43.0


From ce5516e7ba06e09e42b2c726f783576d45e7bed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:58 +0000
Subject: [PATCH 29/32] fix: logging of a stream item called its __str__ even
 when nothing is logged

---
 aioreactive/observers.py | 2 +-
 aioreactive/subject.py   | 2 +-
 aioreactive/utils.py     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/aioreactive/observers.py b/aioreactive/observers.py
index ea99e07..b9cd40f 100644
--- a/aioreactive/observers.py
+++ b/aioreactive/observers.py
@@ -319,7 +319,7 @@ class AsyncAwaitableObserver(Future[_TSource], AsyncObserver[_TSource], Disposab
         self._has_value = False
 
     async def asend(self, value: _TSource) -> None:
-        log.debug("AsyncAwaitableObserver:asend(%s)", str(value))
+        log.debug("AsyncAwaitableObserver:asend(%s)", value)
 
         if self._is_stopped:
             log.debug("AsyncAwaitableObserver:asend(), Closed!!")
diff --git a/aioreactive/subject.py b/aioreactive/subject.py
index e4bd9a3..582c0c3 100644
--- a/aioreactive/subject.py
+++ b/aioreactive/subject.py
@@ -36,7 +36,7 @@ class AsyncSingleSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asy
             raise ObjectDisposedException()
 
     async def asend(self, value: _TSource) -> None:
-        log.debug("AsyncSingleStream:asend(%s)", str(value))
+        log.debug("AsyncSingleStream:asend(%s)", value)
 
         observer = await self._wait_for_observer()
         if not self._is_stopped:
diff --git a/aioreactive/utils.py b/aioreactive/utils.py
index d49fd67..ec285a4 100644
--- a/aioreactive/utils.py
+++ b/aioreactive/utils.py
@@ -19,7 +19,7 @@ async def anoop(value: Any | None = None) -> None:
 
 class NoopObserver(AsyncObserver[_TSource]):
     async def asend(self, value: _TSource) -> None:
-        log.debug("NoopSink:asend(%s)", str(value))
+        log.debug("NoopSink:asend(%s)", value)
 
     async def athrow(self, error: Exception) -> None:
         log.debug("NoopSink:athrow(%s)", error)
-- 
2.43.0


From 29e820fde506b852fa4147d26af079f2b7f96a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:00 +0000
Subject: [PATCH 30/32] fix: disposing a subject subscription removed another
 observer that compares equal

---
 aioreactive/subject.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/aioreactive/subject.py b/aioreactive/subject.py
index 582c0c3..042b6b7 100644
--- a/aioreactive/subject.py
+++ b/aioreactive/subject.py
@@ -158,8 +158,11 @@ class AsyncMultiSubject(AsyncObserver[_TSource], AsyncObservable[_TSource], Asyn
 
         async def dispose() -> None:
             log.debug("AsyncMultiStream:dispose()")
-            if observer in self._observers:
-                self._observers.remove(observer)
+            # Observers may compare equal, only remove our own
+            for index, obv in enumerate(self._observers):
+                if obv is observer:
+                    del self._observers[index]
+                    break
 
         return AsyncDisposable.create(dispose)
 
-- 
2.43.0


From 01ad7e85ef74b4b7aa920d2744030f1d963eb579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:03 +0000
Subject: [PATCH 31/32] fix: the workers of a subscription that could not be
 established stayed pending forever

---
 aioreactive/combine.py   |  6 +++++-
 aioreactive/filtering.py |  6 +++++-
 aioreactive/timeshift.py | 12 ++++++++++--
 aioreactive/transform.py |  6 +++++-
 4 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/aioreactive/combine.py b/aioreactive/combine.py
index f1cc5f2..06d6f57 100644
--- a/aioreactive/combine.py
+++ b/aioreactive/combine.py
@@ -151,7 +151,11 @@ def merge_inner(
             obv = AsyncAnonymousObserver(asend, athrow, aclose)
 
             async def subscribe() -> AsyncDisposable:
-                dispose = await source.subscribe_async(obv)
+                try:
+                    dispose = await source.subscribe_async(obv)
+                except BaseException:
+                    agent.post(Msg(dispose=True))
+                    raise
 
                 async def cancel() -> None:
                     await dispose.dispose_async()
diff --git a/aioreactive/filtering.py b/aioreactive/filtering.py
index 22e0b03..3f85feb 100644
--- a/aioreactive/filtering.py
+++ b/aioreactive/filtering.py
@@ -169,7 +169,11 @@ def distinct_until_changed(
         obv: AsyncObserver[_TSource] = AsyncNotificationObserver(notification)
 
         async def subscribe() -> AsyncDisposable:
-            dispose = await source.subscribe_async(obv)
+            try:
+                dispose = await source.subscribe_async(obv)
+            except BaseException:
+                agent.post(OnCompleted())
+                raise
 
             async def cancel() -> None:
                 await dispose.dispose_async()
diff --git a/aioreactive/timeshift.py b/aioreactive/timeshift.py
index b824050..a22b5f4 100644
--- a/aioreactive/timeshift.py
+++ b/aioreactive/timeshift.py
@@ -99,7 +99,11 @@ def delay(
             cts.cancel()
 
         obv: AsyncNotificationObserver[_TSource] = AsyncNotificationObserver(fn)
-        subscription = await source.subscribe_async(obv)
+        try:
+            subscription = await source.subscribe_async(obv)
+        except BaseException:
+            cts.cancel()
+            raise
         if token.is_cancellation_requested:
             # The observer failed while we were subscribing
             await subscription.dispose_async()
@@ -162,7 +166,11 @@ def debounce(
             obv_: AsyncObserver[_TSource] = AsyncNotificationObserver(obv)
 
             async def subscribe() -> AsyncDisposable:
-                dispose = await source.subscribe_async(obv_)
+                try:
+                    dispose = await source.subscribe_async(obv_)
+                except BaseException:
+                    cts.cancel()
+                    raise
 
                 async def cancel() -> None:
                     # Discard the pending value, disposing is not completing
diff --git a/aioreactive/transform.py b/aioreactive/transform.py
index 51a7688..6011a91 100644
--- a/aioreactive/transform.py
+++ b/aioreactive/transform.py
@@ -342,7 +342,11 @@ def switch_latest(
         _obv = AsyncAnonymousObserver(asend, athrow, aclose)
 
         async def subscribe() -> AsyncDisposable:
-            dispose = await source.subscribe_async(_obv)
+            try:
+                dispose = await source.subscribe_async(_obv)
+            except BaseException:
+                inner_agent.post(Msg(dispose=True))
+                raise
 
             async def cancel() -> None:
                 await dispose.dispose_async()
-- 
2.43.0


From 22943d431c8d26196b486fea652333a7b365fe50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:05 +0000
Subject: [PATCH 32/32] fix: catch left the fallback subscribed when
 subscribing to the source failed afterwards

---
 aioreactive/transform.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/aioreactive/transform.py b/aioreactive/transform.py
index 6011a91..0944e05 100644
--- a/aioreactive/transform.py
+++ b/aioreactive/transform.py
@@ -456,13 +456,18 @@ def catch(
                     previous, disposable = disposable, subscription
                     await previous.dispose_async()
 
-            await action(source)
-
             async def cancel() -> None:
                 nonlocal is_stopped
                 is_stopped = True
                 await disposable.dispose_async()
 
+            try:
+                await action(source)
+            except BaseException:
+                # The source may have failed, and been replaced, before that
+                await cancel()
+                raise
+
             return AsyncDisposable.create(cancel)
 
         return AsyncAnonymousObservable(subscribe_async)
-- 
2.43.0

