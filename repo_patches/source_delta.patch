From 8f6504731eeea5796a012faace7df1df08a30ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:12 +0000
Subject: [PATCH 01/29] fix: wait_for_stop waits for shutdown instead of
 startup

---
 src/actor/actor_ref.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actor/actor_ref.rs b/src/actor/actor_ref.rs
index 6dc7ee4..3a4ceb4 100644
--- a/src/actor/actor_ref.rs
+++ b/src/actor/actor_ref.rs
@@ -349,7 +349,7 @@ where
         note = "wait_for_stop has been renamed to wait_for_shutdown"
     )]
     pub async fn wait_for_stop(&self) {
-        self.wait_for_startup().await
+        self.wait_for_shutdown().await
     }
 
     /// Waits for the actor to finish shutdown, returning the shutdown result with a clone of the error.
-- 
2.43.0


From f9370373878253f9f4506587bbaff687fad6fe06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:13 +0000
Subject: [PATCH 02/29] fix: implement Recipient::downgrade

---
 src/actor/actor_ref.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/actor/actor_ref.rs b/src/actor/actor_ref.rs
index 3a4ceb4..98ecc07 100644
--- a/src/actor/actor_ref.rs
+++ b/src/actor/actor_ref.rs
@@ -1412,7 +1412,9 @@ where
 
     #[inline]
     fn downgrade(&self) -> WeakRecipient<M> {
-        todo!()
+        WeakRecipient {
+            handler: Box::new(self.downgrade()),
+        }
     }
 
     #[inline]
-- 
2.43.0


From 400e6a478a802963f7990528e9b229098aa5f223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:13 +0000
Subject: [PATCH 03/29] fix: WeakRecipient is Clone and Debug for every message
 type

---
 src/actor/actor_ref.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/actor/actor_ref.rs b/src/actor/actor_ref.rs
index 98ecc07..667f2df 100644
--- a/src/actor/actor_ref.rs
+++ b/src/actor/actor_ref.rs
@@ -1333,7 +1333,7 @@ impl<M: Send + 'static> WeakRecipient<M> {
     }
 }
 
-impl<A: Actor> Clone for WeakRecipient<A> {
+impl<M: Send + 'static> Clone for WeakRecipient<M> {
     fn clone(&self) -> Self {
         WeakRecipient {
             handler: dyn_clone::clone_box(&*self.handler),
@@ -1341,7 +1341,7 @@ impl<A: Actor> Clone for WeakRecipient<A> {
     }
 }
 
-impl<A: Actor> fmt::Debug for WeakRecipient<A> {
+impl<M: Send + 'static> fmt::Debug for WeakRecipient<M> {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         let mut d = f.debug_struct("WeakRecipient");
         d.field("id", &self.handler.id());
-- 
2.43.0


From dc2d58e1b16723df9cdaf7042e524da5cda06709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:13 +0000
Subject: [PATCH 04/29] fix: stop_gracefully on a stopped actor returns
 ActorNotRunning instead of panicking

---
 src/actor/actor_ref.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/actor/actor_ref.rs b/src/actor/actor_ref.rs
index 667f2df..9d93be0 100644
--- a/src/actor/actor_ref.rs
+++ b/src/actor/actor_ref.rs
@@ -208,7 +208,10 @@ where
     /// before it shuts down. Any new messages sent after the stop signal will be ignored.
     #[inline]
     pub async fn stop_gracefully(&self) -> Result<(), SendError> {
-        Ok(self.mailbox_sender.send(Signal::Stop).await?)
+        self.mailbox_sender
+            .send(Signal::Stop)
+            .await
+            .map_err(|_| SendError::ActorNotRunning(()))
     }
 
     /// Kills the actor immediately.
-- 
2.43.0


From bcd6720e6ae997e2c41745eedcee72f7f8ed008c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:01 +0000
Subject: [PATCH 05/29] fix: release startup waiters as soon as on_start
 finished

The permits were only added when the StartupFinished signal was handled, which never happens when the mailbox is full
at startup, or when the actor is stopped or killed before that signal is handled, leaving wait_for_startup hanging.
---
 src/actor/spawn.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/actor/spawn.rs b/src/actor/spawn.rs
index f468020..711419d 100644
--- a/src/actor/spawn.rs
+++ b/src/actor/spawn.rs
@@ -463,8 +463,10 @@ where
         (weak_actor_ref, actor_ref.links, actor_ref.startup_semaphore)
     };
 
+    // The startup result is known, release anyone waiting for it, regardless of what happens next
+    startup_semaphore.add_permits(Semaphore::MAX_PERMITS);
+
     if let Err(err) = start_res {
-        startup_semaphore.add_permits(Semaphore::MAX_PERMITS);
         let reason = ActorStopReason::Panicked(err);
         let mut state = S::new_from_actor(actor, actor_ref.clone());
         let reason = state
@@ -504,7 +506,6 @@ where
         abortable_actor_loop(
             &mut state,
             &mut mailbox_rx,
-            startup_semaphore,
             startup_finished,
         ),
         abort_registration,
@@ -593,7 +594,6 @@ where
 async fn abortable_actor_loop<A, S>(
     state: &mut S,
     mailbox_rx: &mut MailboxReceiver<A>,
-    startup_semaphore: Arc<Semaphore>,
     startup_finished: bool,
 ) -> ActorStopReason
 where
@@ -606,7 +606,7 @@ where
         }
     }
     loop {
-        let reason = recv_mailbox_loop(state, mailbox_rx, &startup_semaphore).await;
+        let reason = recv_mailbox_loop(state, mailbox_rx).await;
         if let ControlFlow::Break(reason) = state.on_shutdown(reason).await {
             return reason;
         }
@@ -616,7 +616,6 @@ where
 async fn recv_mailbox_loop<A, S>(
     state: &mut S,
     mailbox_rx: &mut MailboxReceiver<A>,
-    startup_semaphore: &Semaphore,
 ) -> ActorStopReason
 where
     A: Actor,
@@ -625,7 +624,6 @@ where
     loop {
         match state.next(mailbox_rx).await {
             Some(Signal::StartupFinished) => {
-                startup_semaphore.add_permits(Semaphore::MAX_PERMITS);
                 if let ControlFlow::Break(reason) = state.handle_startup_finished().await {
                     return reason;
                 }
-- 
2.43.0


From cdd04a57f89163292691503b12878d2c0df1d01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:01 +0000
Subject: [PATCH 06/29] fix: a threaded actor no longer keeps itself alive

The thread closure held a strong actor ref for as long as the actor was running.
---
 src/actor/spawn.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/actor/spawn.rs b/src/actor/spawn.rs
index 711419d..8abdff6 100644
--- a/src/actor/spawn.rs
+++ b/src/actor/spawn.rs
@@ -404,8 +404,8 @@ impl<A: Actor> PreparedActor<A> {
         std::thread::Builder::new()
             .name(A::name().to_string())
             .spawn({
-                let actor_ref = self.actor_ref.clone();
-                move || handle.block_on(CURRENT_ACTOR_ID.scope(actor_ref.id(), self.run(actor)))
+                let actor_id = self.actor_ref.id();
+                move || handle.block_on(CURRENT_ACTOR_ID.scope(actor_id, self.run(actor)))
             })
             .unwrap()
     }
-- 
2.43.0


From de986ca86d572f4f9facde13fb97f6233d457610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:28 +0000
Subject: [PATCH 07/29] fix: an actor whose on_start fails notifies its links
 and is removed from the remote registry

---
 src/actor/spawn.rs | 60 +++++++++++++---------------------------------
 1 file changed, 16 insertions(+), 44 deletions(-)

diff --git a/src/actor/spawn.rs b/src/actor/spawn.rs
index 8abdff6..e20427c 100644
--- a/src/actor/spawn.rs
+++ b/src/actor/spawn.rs
@@ -466,52 +466,24 @@ where
     // The startup result is known, release anyone waiting for it, regardless of what happens next
     startup_semaphore.add_permits(Semaphore::MAX_PERMITS);
 
-    if let Err(err) = start_res {
-        let reason = ActorStopReason::Panicked(err);
-        let mut state = S::new_from_actor(actor, actor_ref.clone());
-        let reason = state
-            .on_shutdown(reason.clone())
-            .await
-            .break_value()
-            .unwrap_or(reason);
-        let mut actor = state.shutdown().await;
-        let on_stop_res = actor.on_stop(actor_ref.clone(), reason.clone()).await;
-        match on_stop_res {
-            Ok(()) => {
-                if let Some(actor_ref) = actor_ref.upgrade() {
-                    actor_ref
-                        .shutdown_error
-                        .set(None)
-                        .expect("nothing else should set the shutdown error");
-                }
-            }
-            Err(err) => {
-                let err = PanicError::new(Box::new(err));
-                invoke_actor_error_hook(&err);
-                if let Some(actor_ref) = actor_ref.upgrade() {
-                    actor_ref
-                        .shutdown_error
-                        .set(Some(err))
-                        .expect("nothing else should set the shutdown error");
-                }
-            }
-        }
-        log_actor_stop_reason(id, name, &reason);
-        return (actor, reason);
-    }
-
     let mut state = S::new_from_actor(actor, actor_ref.clone());
 
-    let reason = Abortable::new(
-        abortable_actor_loop(
-            &mut state,
-            &mut mailbox_rx,
-            startup_finished,
-        ),
-        abort_registration,
-    )
-    .await
-    .unwrap_or(ActorStopReason::Killed);
+    let reason = match start_res {
+        Ok(()) => Abortable::new(
+            abortable_actor_loop(&mut state, &mut mailbox_rx, startup_finished),
+            abort_registration,
+        )
+        .await
+        .unwrap_or(ActorStopReason::Killed),
+        Err(err) => {
+            let reason = ActorStopReason::Panicked(err);
+            state
+                .on_shutdown(reason.clone())
+                .await
+                .break_value()
+                .unwrap_or(reason)
+        }
+    };
 
     let mut actor = state.shutdown().await;
 
-- 
2.43.0


From 7501b5a1e8f78dcdb011ab6ff730d81efefe39da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:28 +0000
Subject: [PATCH 08/29] fix: a panic in on_panic or on_stop no longer skips the
 termination protocol

It unwound the actor task: linked actors were not notified, the remote registry entry stayed and
wait_for_shutdown_result panicked.
---
 src/actor/kind.rs  | 14 ++++++++++----
 src/actor/spawn.rs |  8 ++++++--
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/actor/kind.rs b/src/actor/kind.rs
index 2bd8e69..09b6831 100644
--- a/src/actor/kind.rs
+++ b/src/actor/kind.rs
@@ -163,12 +163,18 @@ where
             ActorStopReason::Normal => ControlFlow::Break(ActorStopReason::Normal),
             ActorStopReason::Killed => ControlFlow::Break(ActorStopReason::Killed),
             ActorStopReason::Panicked(err) => {
-                match self.state.on_panic(self.actor_ref.clone(), err).await {
-                    Ok(ControlFlow::Continue(())) => ControlFlow::Continue(()),
-                    Ok(ControlFlow::Break(reason)) => ControlFlow::Break(reason),
-                    Err(err) => ControlFlow::Break(ActorStopReason::Panicked(PanicError::new(
+                let res = AssertUnwindSafe(self.state.on_panic(self.actor_ref.clone(), err))
+                    .catch_unwind()
+                    .await;
+                match res {
+                    Ok(Ok(ControlFlow::Continue(()))) => ControlFlow::Continue(()),
+                    Ok(Ok(ControlFlow::Break(reason))) => ControlFlow::Break(reason),
+                    Ok(Err(err)) => ControlFlow::Break(ActorStopReason::Panicked(PanicError::new(
                         Box::new(err),
                     ))),
+                    Err(err) => ControlFlow::Break(ActorStopReason::Panicked(
+                        PanicError::new_from_panic_any(err),
+                    )),
                 }
             }
             ActorStopReason::LinkDied { id, reason } => {
diff --git a/src/actor/spawn.rs b/src/actor/spawn.rs
index e20427c..ac58a7a 100644
--- a/src/actor/spawn.rs
+++ b/src/actor/spawn.rs
@@ -532,7 +532,12 @@ where
         }
     }
 
-    let on_stop_res = actor.on_stop(actor_ref.clone(), reason.clone()).await;
+    let on_stop_res = AssertUnwindSafe(actor.on_stop(actor_ref.clone(), reason.clone()))
+        .catch_unwind()
+        .await
+        .map(|res| res.map_err(|err| PanicError::new(Box::new(err))))
+        .map_err(PanicError::new_from_panic_any)
+        .and_then(convert::identity);
     log_actor_stop_reason(id, name, &reason);
 
     while let Some(()) = link_notification_futures.next().await {}
@@ -549,7 +554,6 @@ where
             }
         }
         Err(err) => {
-            let err = PanicError::new(Box::new(err));
             invoke_actor_error_hook(&err);
             if let Some(actor_ref) = actor_ref.upgrade() {
                 actor_ref
-- 
2.43.0


From 427d2bd4aafef8bc5d41030ebe99e3c7b0d0ad3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:28 +0000
Subject: [PATCH 09/29] fix: call Actor::on_message for incoming messages

The documented hook was never invoked, so overriding it had no effect.
---
 src/actor/kind.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actor/kind.rs b/src/actor/kind.rs
index 09b6831..9718c32 100644
--- a/src/actor/kind.rs
+++ b/src/actor/kind.rs
@@ -112,7 +112,7 @@ where
             return ControlFlow::Continue(());
         }
 
-        let res = AssertUnwindSafe(message.handle_dyn(&mut self.state, actor_ref, reply))
+        let res = AssertUnwindSafe(self.state.on_message(message, actor_ref, reply))
             .catch_unwind()
             .await;
         match res {
-- 
2.43.0


From 72b04d7c83afd0acf590447a5e1604c39d692b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:28 +0000
Subject: [PATCH 10/29] fix: keep messages buffered during startup when an
 earlier one fails

When a buffered message failed and on_panic chose to continue, the remaining buffered messages (and a stop request
being handled) were dropped.
---
 src/actor/kind.rs | 33 ++++++++++++++-------------------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/src/actor/kind.rs b/src/actor/kind.rs
index 9718c32..ad32551 100644
--- a/src/actor/kind.rs
+++ b/src/actor/kind.rs
@@ -1,4 +1,4 @@
-use std::{collections::VecDeque, mem, ops::ControlFlow, panic::AssertUnwindSafe};
+use std::{collections::VecDeque, ops::ControlFlow, panic::AssertUnwindSafe};
 
 use futures::{Future, FutureExt};
 
@@ -70,26 +70,17 @@ where
     }
 
     async fn next(&mut self, mailbox_rx: &mut MailboxReceiver<A>) -> Option<Signal<A>> {
+        if self.finished_startup {
+            // Messages buffered during startup come before anything still in the mailbox
+            if let Some(signal) = self.startup_buffer.pop_front() {
+                return Some(signal);
+            }
+        }
         self.state.next(self.actor_ref.clone(), mailbox_rx).await
     }
 
     async fn handle_startup_finished(&mut self) -> ControlFlow<ActorStopReason> {
         self.finished_startup = true;
-        for signal in mem::take(&mut self.startup_buffer).drain(..) {
-            match signal {
-                Signal::Message {
-                    message,
-                    actor_ref,
-                    reply,
-                    sent_within_actor,
-                } => {
-                    self.handle_message(message, actor_ref, reply, sent_within_actor)
-                        .await?;
-                }
-                _ => unreachable!(),
-            }
-        }
-
         ControlFlow::Continue(())
     }
 
@@ -151,10 +142,14 @@ where
 
     #[inline]
     async fn handle_stop(&mut self) -> ControlFlow<ActorStopReason> {
-        match self.handle_startup_finished().await {
-            ControlFlow::Continue(_) => ControlFlow::Break(ActorStopReason::Normal),
-            ControlFlow::Break(reason) => ControlFlow::Break(reason),
+        self.finished_startup = true;
+        if self.startup_buffer.is_empty() {
+            return ControlFlow::Break(ActorStopReason::Normal);
         }
+
+        // Handle the messages buffered during startup first, then stop
+        self.startup_buffer.push_back(Signal::Stop);
+        ControlFlow::Continue(())
     }
 
     #[inline]
-- 
2.43.0


From 691d52dc71887e4da3574e8ca00ada869fdb4bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:10 +0000
Subject: [PATCH 11/29] fix: enqueue, try_enqueue and blocking_enqueue return
 an error instead of panicking when sending fails

---
 src/request/ask.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/request/ask.rs b/src/request/ask.rs
index fc3c652..bf17a6f 100644
--- a/src/request/ask.rs
+++ b/src/request/ask.rs
@@ -200,10 +200,12 @@ where
             MailboxSender::Bounded(tx) => {
                 match self.mailbox_timeout.into() {
                     Some(timeout) => {
-                        tx.send_timeout(signal, timeout).await?;
+                        tx.send_timeout(signal, timeout)
+                            .await
+                            .map_err(enqueue_error::<M, _>)?;
                     }
                     None => {
-                        tx.send(signal).await?;
+                        tx.send(signal).await.map_err(enqueue_error::<M, _>)?;
                     }
                 }
 
@@ -220,7 +222,7 @@ where
                 .boxed()
             }
             MailboxSender::Unbounded(tx) => {
-                tx.send(signal)?;
+                tx.send(signal).map_err(enqueue_error::<M, _>)?;
 
                 async move {
                     let reply = match self.reply_timeout.into() {
@@ -408,7 +410,7 @@ where
 
         let fut = match self.actor_ref.mailbox_sender() {
             MailboxSender::Bounded(tx) => {
-                tx.try_send(signal)?;
+                tx.try_send(signal).map_err(enqueue_error::<M, _>)?;
 
                 async move {
                     let reply = match self.reply_timeout.into() {
@@ -423,7 +425,7 @@ where
                 .boxed()
             }
             MailboxSender::Unbounded(tx) => {
-                tx.send(signal)?;
+                tx.send(signal).map_err(enqueue_error::<M, _>)?;
 
                 async move {
                     let reply = match self.reply_timeout.into() {
@@ -553,7 +555,7 @@ where
 
         match self.actor_ref.mailbox_sender() {
             MailboxSender::Bounded(tx) => {
-                tx.blocking_send(signal)?;
+                tx.blocking_send(signal).map_err(enqueue_error::<M, _>)?;
 
                 let f = Box::new(move || match rx.blocking_recv()? {
                     Ok(val) => Ok(<A::Reply as Reply>::downcast_ok(val)),
@@ -562,7 +564,7 @@ where
                 Ok(BlockingPendingReply { f })
             }
             MailboxSender::Unbounded(tx) => {
-                tx.send(signal)?;
+                tx.send(signal).map_err(enqueue_error::<M, _>)?;
 
                 let f = Box::new(move || match rx.blocking_recv()? {
                     Ok(val) => Ok(<A::Reply as Reply>::downcast_ok(val)),
@@ -589,6 +591,14 @@ where
     }
 }
 
+/// Converts the error of a failed enqueue, discarding the message which couldn't be sent.
+fn enqueue_error<M, E>(err: E) -> SendError
+where
+    SendError<M>: From<E>,
+{
+    SendError::<M>::from(err).map_msg(|_| ())
+}
+
 /// A pending reply from a previously enqueued ask request.
 ///
 /// The actor will not progress until this has been awaited or dropped.
-- 
2.43.0


From b03948e436677fbd18168df85b94d958df4f26f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:36 +0000
Subject: [PATCH 12/29] fix: forward, try_forward and blocking_forward hand
 back the message and reply sender instead of panicking

---
 src/mailbox.rs     | 24 +++++++++++++++++++++++-
 src/request/ask.rs | 38 ++++++++++++++++++++++++++++++--------
 2 files changed, 53 insertions(+), 9 deletions(-)

diff --git a/src/mailbox.rs b/src/mailbox.rs
index 73b5084..58f1e10 100644
--- a/src/mailbox.rs
+++ b/src/mailbox.rs
@@ -15,7 +15,7 @@ use crate::{
     actor::{ActorID, ActorRef},
     error::{ActorStopReason, SendError},
     message::BoxMessage,
-    reply::BoxReplySender,
+    reply::{BoxReplySender, ReplySender},
     Actor,
 };
 
@@ -463,6 +463,28 @@ impl<A: Actor> Signal<A> {
             _ => None,
         }
     }
+
+    /// Takes a forwarded message back out of the signal, along with the reply sender it was forwarded with.
+    ///
+    /// # Panics
+    ///
+    /// Panics if the signal is not a message of type `M` with a reply sender.
+    pub(crate) fn into_forwarded<M, R>(self) -> (M, ReplySender<R>)
+    where
+        M: 'static,
+    {
+        match self {
+            Signal::Message {
+                message,
+                reply: Some(tx),
+                ..
+            } => (
+                *message.as_any().downcast().ok().unwrap(),
+                ReplySender::new(tx),
+            ),
+            _ => panic!("signal is not a forwarded message"),
+        }
+    }
 }
 
 #[doc(hidden)]
diff --git a/src/request/ask.rs b/src/request/ask.rs
index bf17a6f..a707ba4 100644
--- a/src/request/ask.rs
+++ b/src/request/ask.rs
@@ -4,7 +4,7 @@ use std::{
     pin, task,
     time::Duration,
 };
-use tokio::sync::oneshot;
+use tokio::sync::{mpsc, oneshot};
 
 #[cfg(feature = "remote")]
 use crate::{actor, remote};
@@ -269,16 +269,28 @@ where
             MailboxSender::Bounded(tx) => {
                 match self.mailbox_timeout.into() {
                     Some(timeout) => {
-                        tx.send_timeout(signal, timeout).await?;
+                        tx.send_timeout(signal, timeout)
+                            .await
+                            .map_err(|err| match err {
+                                mpsc::error::SendTimeoutError::Timeout(signal) => {
+                                    SendError::Timeout(Some(signal.into_forwarded()))
+                                }
+                                mpsc::error::SendTimeoutError::Closed(signal) => {
+                                    SendError::ActorNotRunning(signal.into_forwarded())
+                                }
+                            })?;
                     }
                     None => {
-                        tx.send(signal).await?;
+                        tx.send(signal)
+                            .await
+                            .map_err(|err| SendError::ActorNotRunning(err.0.into_forwarded()))?;
                     }
                 }
                 Ok(())
             }
             MailboxSender::Unbounded(tx) => {
-                tx.send(signal)?;
+                tx.send(signal)
+                    .map_err(|err| SendError::ActorNotRunning(err.0.into_forwarded()))?;
                 Ok(())
             }
         }
@@ -309,11 +321,19 @@ where
 
         match self.actor_ref.mailbox_sender() {
             MailboxSender::Bounded(tx) => {
-                tx.try_send(signal)?;
+                tx.try_send(signal).map_err(|err| match err {
+                    mpsc::error::TrySendError::Full(signal) => {
+                        SendError::MailboxFull(signal.into_forwarded())
+                    }
+                    mpsc::error::TrySendError::Closed(signal) => {
+                        SendError::ActorNotRunning(signal.into_forwarded())
+                    }
+                })?;
                 Ok(())
             }
             MailboxSender::Unbounded(tx) => {
-                tx.send(signal)?;
+                tx.send(signal)
+                    .map_err(|err| SendError::ActorNotRunning(err.0.into_forwarded()))?;
                 Ok(())
             }
         }
@@ -501,11 +521,13 @@ where
 
         match self.actor_ref.mailbox_sender() {
             MailboxSender::Bounded(tx) => {
-                tx.blocking_send(signal)?;
+                tx.blocking_send(signal)
+                    .map_err(|err| SendError::ActorNotRunning(err.0.into_forwarded()))?;
                 Ok(())
             }
             MailboxSender::Unbounded(tx) => {
-                tx.send(signal)?;
+                tx.send(signal)
+                    .map_err(|err| SendError::ActorNotRunning(err.0.into_forwarded()))?;
                 Ok(())
             }
         }
-- 
2.43.0


From 0e3ae8a16f5e564e4a992e627efa07687724ed9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:37 +0000
Subject: [PATCH 13/29] fix: the error of a message forwarded more than once no
 longer panics the requester

---
 src/reply.rs | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/reply.rs b/src/reply.rs
index 75d8d10..8cef890 100644
--- a/src/reply.rs
+++ b/src/reply.rs
@@ -292,18 +292,15 @@ where
         *ok.downcast().unwrap()
     }
 
-    /// The error is either from the inner `R`, or our outer `SendError`.
-    /// We'll try both.
+    /// The error is either our outer `SendError`, or it's from the inner `R`,
+    /// which might be a forwarded reply itself.
     fn downcast_err<N: 'static>(err: BoxSendError) -> SendError<N, Self::Error> {
-        err.try_downcast::<N, R::Error>()
-            .map(|err| err.map_err(SendError::HandlerError))
-            .unwrap_or_else(|err| {
-                err.downcast::<M, SendError<M, R::Error>>().map_msg(|_| {
-                    unreachable!(
-                        "forwarded reply is only an error if it failed to forward the message"
-                    )
-                })
-            })
+        match err {
+            SendError::HandlerError(err) if err.is::<Self::Error>() => {
+                SendError::HandlerError(*err.downcast().unwrap())
+            }
+            err => R::downcast_err::<N>(err).map_err(SendError::HandlerError),
+        }
     }
 }
 
-- 
2.43.0


From 44b1529791e604a169fc3ad23ca8ff07a724877a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:22 +0000
Subject: [PATCH 14/29] fix: linking or unlinking two actors from both sides at
 once no longer deadlocks

---
 src/actor/actor_ref.rs | 49 ++++++++++++++++++++++++++++++++++--------
 1 file changed, 40 insertions(+), 9 deletions(-)

diff --git a/src/actor/actor_ref.rs b/src/actor/actor_ref.rs
index 9d93be0..f24b779 100644
--- a/src/actor/actor_ref.rs
+++ b/src/actor/actor_ref.rs
@@ -9,7 +9,7 @@ use std::{
 use dyn_clone::DynClone;
 use futures::{future::BoxFuture, stream::AbortHandle, FutureExt, Stream, StreamExt, TryFutureExt};
 use tokio::{
-    sync::{Mutex, Semaphore},
+    sync::{Mutex, MutexGuard, Semaphore},
     task::JoinHandle,
     task_local,
 };
@@ -519,8 +519,7 @@ where
             return;
         }
 
-        let (mut this_links, mut sibbling_links) =
-            tokio::join!(self.links.lock(), sibbling_ref.links.lock());
+        let (mut this_links, mut sibbling_links) = self.lock_links(sibbling_ref).await;
         this_links.insert(
             sibbling_ref.id,
             Link::Local(sibbling_ref.weak_signal_mailbox()),
@@ -558,8 +557,7 @@ where
             return;
         }
 
-        let mut this_links = self.links.blocking_lock();
-        let mut sibbling_links = sibbling_ref.links.blocking_lock();
+        let (mut this_links, mut sibbling_links) = self.blocking_lock_links(sibbling_ref);
         this_links.insert(
             sibbling_ref.id,
             Link::Local(sibbling_ref.weak_signal_mailbox()),
@@ -642,8 +640,7 @@ where
             return;
         }
 
-        let (mut this_links, mut sibbling_links) =
-            tokio::join!(self.links.lock(), sibbling_ref.links.lock());
+        let (mut this_links, mut sibbling_links) = self.lock_links(sibbling_ref).await;
         this_links.remove(&sibbling_ref.id);
         sibbling_links.remove(&self.id);
     }
@@ -680,8 +677,7 @@ where
             return;
         }
 
-        let mut this_links = self.links.blocking_lock();
-        let mut sibbling_links = sibbling_ref.links.blocking_lock();
+        let (mut this_links, mut sibbling_links) = self.blocking_lock_links(sibbling_ref);
         this_links.remove(&sibbling_ref.id);
         sibbling_links.remove(&self.id);
     }
@@ -823,6 +819,39 @@ where
     pub(crate) fn weak_signal_mailbox(&self) -> Box<dyn SignalMailbox> {
         Box::new(self.mailbox_sender.downgrade())
     }
+
+    /// Locks the links of this actor and of a sibbling, always in the order of their ids,
+    /// since two actors locking each others links in opposite order would deadlock.
+    async fn lock_links<'a, B: Actor>(
+        &'a self,
+        sibbling_ref: &'a ActorRef<B>,
+    ) -> (LinksGuard<'a>, LinksGuard<'a>) {
+        if self.id.sequence_id() < sibbling_ref.id.sequence_id() {
+            let this_links = self.links.lock().await;
+            let sibbling_links = sibbling_ref.links.lock().await;
+            (this_links, sibbling_links)
+        } else {
+            let sibbling_links = sibbling_ref.links.lock().await;
+            let this_links = self.links.lock().await;
+            (this_links, sibbling_links)
+        }
+    }
+
+    /// Blocking variant of [`ActorRef::lock_links`].
+    fn blocking_lock_links<'a, B: Actor>(
+        &'a self,
+        sibbling_ref: &'a ActorRef<B>,
+    ) -> (LinksGuard<'a>, LinksGuard<'a>) {
+        if self.id.sequence_id() < sibbling_ref.id.sequence_id() {
+            let this_links = self.links.blocking_lock();
+            let sibbling_links = sibbling_ref.links.blocking_lock();
+            (this_links, sibbling_links)
+        } else {
+            let sibbling_links = sibbling_ref.links.blocking_lock();
+            let this_links = self.links.blocking_lock();
+            (this_links, sibbling_links)
+        }
+    }
 }
 
 impl<A: Actor> Clone for ActorRef<A> {
@@ -1359,6 +1388,8 @@ impl<M: Send + 'static> fmt::Debug for WeakRecipient<M> {
 #[allow(missing_debug_implementations)]
 pub(crate) struct Links(Arc<Mutex<HashMap<ActorID, Link>>>);
 
+type LinksGuard<'a> = MutexGuard<'a, HashMap<ActorID, Link>>;
+
 impl ops::Deref for Links {
     type Target = Mutex<HashMap<ActorID, Link>>;
 
-- 
2.43.0


From c31aea6b7d37da196b0931c0e7d2fedfc2b2f50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:19 +0000
Subject: [PATCH 15/29] fix: decoding an actor id from too few bytes returns an
 error instead of panicking

---
 src/actor/id.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/actor/id.rs b/src/actor/id.rs
index 26f3fff..c627488 100644
--- a/src/actor/id.rs
+++ b/src/actor/id.rs
@@ -137,9 +137,10 @@ impl ActorID {
     pub fn from_bytes(bytes: &[u8]) -> Result<Self, ActorIDFromBytesError> {
         // Extract the ID
         let sequence_id = u64::from_le_bytes(
-            bytes[0..8]
-                .try_into()
-                .map_err(|_| ActorIDFromBytesError::MissingSequenceID)?,
+            bytes
+                .get(0..8)
+                .and_then(|bytes| bytes.try_into().ok())
+                .ok_or(ActorIDFromBytesError::MissingSequenceID)?,
         );
 
         // Extract the peer id
-- 
2.43.0


From 02064ffda8cda810c5423b9b0e0830232adb49eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:28 +0000
Subject: [PATCH 16/29] fix: malformed registration records from peers no
 longer panic the node

---
 src/remote/swarm.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/remote/swarm.rs b/src/remote/swarm.rs
index 9715833..1de6524 100644
--- a/src/remote/swarm.rs
+++ b/src/remote/swarm.rs
@@ -337,7 +337,8 @@ impl ActorSwarm {
                     let ActorRegistration {
                         actor_id,
                         remote_id,
-                    } = ActorRegistration::from_bytes(&record.value);
+                    } = ActorRegistration::from_bytes(&record.value)
+                        .ok_or(RegistryError::BadActorType)?;
                     if A::REMOTE_ID != remote_id {
                         return Err(RegistryError::BadActorType);
                     }
@@ -575,7 +576,10 @@ impl ActorSwarmHandler {
                 let registration = swarm
                     .behaviour_mut()
                     .kademlia_get_record_local(&key)
-                    .map(|record| ActorRegistration::from_bytes(&record.value).into_owned());
+                    .and_then(|record| {
+                        ActorRegistration::from_bytes(&record.value)
+                            .map(ActorRegistration::into_owned)
+                    });
                 let _ = reply.send(registration);
             }
             SwarmCommand::Register { record, reply } => {
@@ -1214,11 +1218,13 @@ impl<'a> ActorRegistration<'a> {
         bytes
     }
 
-    fn from_bytes(bytes: &'a [u8]) -> Self {
-        let peer_id_bytes_len = u8::from_le_bytes(bytes[..1].try_into().unwrap()) as usize;
-        let actor_id = ActorID::from_bytes(&bytes[1..1 + 8 + peer_id_bytes_len]).unwrap();
-        let remote_id = std::str::from_utf8(&bytes[1 + 8 + peer_id_bytes_len..]).unwrap();
-        ActorRegistration::new(actor_id, Cow::Borrowed(remote_id))
+    /// Returns `None` if the bytes aren't a valid registration, since records may come from any peer.
+    fn from_bytes(bytes: &'a [u8]) -> Option<Self> {
+        let (peer_id_bytes_len, bytes) = bytes.split_first()?;
+        let (actor_id, remote_id) = bytes.split_at_checked(8 + *peer_id_bytes_len as usize)?;
+        let actor_id = ActorID::from_bytes(actor_id).ok()?;
+        let remote_id = std::str::from_utf8(remote_id).ok()?;
+        Some(ActorRegistration::new(actor_id, Cow::Borrowed(remote_id)))
     }
 
     fn into_owned(self) -> ActorRegistration<'static> {
-- 
2.43.0


From 307dd147c01d961c6a7a4c1ff1c74106a511a090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:07 +0000
Subject: [PATCH 17/29] fix: a record refused by the local store fails the
 registration instead of panicking the swarm

---
 src/remote/swarm.rs | 48 +++++++++++++++++++++++++++++++++------------
 1 file changed, 35 insertions(+), 13 deletions(-)

diff --git a/src/remote/swarm.rs b/src/remote/swarm.rs
index 1de6524..084fc31 100644
--- a/src/remote/swarm.rs
+++ b/src/remote/swarm.rs
@@ -1,5 +1,5 @@
 use core::task;
-use std::{borrow::Cow, collections::HashMap, io, pin, time::Duration};
+use std::{borrow::Cow, collections::HashMap, io, num::NonZeroUsize, pin, time::Duration};
 
 use futures::{ready, stream::FuturesUnordered, Future, FutureExt, StreamExt};
 use libp2p::{
@@ -585,17 +585,24 @@ impl ActorSwarmHandler {
             SwarmCommand::Register { record, reply } => {
                 if swarm.network_info().num_peers() == 0 {
                     let key = record.key.clone();
-                    swarm
-                        .behaviour_mut()
-                        .kademlia_put_record_local(record)
-                        .unwrap();
-                    let _ = reply.send(Ok(kad::PutRecordOk { key }));
+                    let res = match swarm.behaviour_mut().kademlia_put_record_local(record) {
+                        Ok(()) => Ok(kad::PutRecordOk { key }),
+                        Err(_) => Err(put_record_store_error(key)),
+                    };
+                    let _ = reply.send(res);
                 } else {
-                    let query_id = swarm
+                    let key = record.key.clone();
+                    match swarm
                         .behaviour_mut()
                         .kademlia_put_record(record, kad::Quorum::One)
-                        .unwrap();
-                    self.put_queries.insert(query_id, reply);
+                    {
+                        Ok(query_id) => {
+                            self.put_queries.insert(query_id, reply);
+                        }
+                        Err(_) => {
+                            let _ = reply.send(Err(put_record_store_error(key)));
+                        }
+                    }
                 }
             }
             SwarmCommand::Unregister { key, reply } => {
@@ -604,12 +611,18 @@ impl ActorSwarmHandler {
                     let _ = reply.send(Ok(kad::PutRecordOk { key }));
                 } else {
                     let record = kad::Record::new(key.clone(), vec![]);
-                    let query_id = swarm
+                    let res = swarm
                         .behaviour_mut()
-                        .kademlia_put_record(record, kad::Quorum::One)
-                        .unwrap();
+                        .kademlia_put_record(record, kad::Quorum::One);
                     swarm.behaviour_mut().kademlia_remove_record(&key);
-                    self.put_queries.insert(query_id, reply);
+                    match res {
+                        Ok(query_id) => {
+                            self.put_queries.insert(query_id, reply);
+                        }
+                        Err(_) => {
+                            let _ = reply.send(Err(put_record_store_error(key)));
+                        }
+                    }
                 }
             }
             SwarmCommand::Ask {
@@ -1000,6 +1013,15 @@ impl ActorSwarmHandler {
     }
 }
 
+/// The error of a record which was refused by the local record store, and therefore stored nowhere.
+fn put_record_store_error(key: kad::RecordKey) -> kad::PutRecordError {
+    kad::PutRecordError::QuorumFailed {
+        key,
+        success: Vec::new(),
+        quorum: NonZeroUsize::MIN,
+    }
+}
+
 #[derive(Clone, Debug)]
 pub(crate) struct SwarmSender(mpsc::UnboundedSender<SwarmCommand>);
 
-- 
2.43.0


From fdaeea482caba916c112ce7f71cde15fe6acb96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:07 +0000
Subject: [PATCH 18/29] fix: closing one of several connections to a peer does
 not signal the peer as disconnected

---
 src/remote/swarm.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/remote/swarm.rs b/src/remote/swarm.rs
index 084fc31..6b32a09 100644
--- a/src/remote/swarm.rs
+++ b/src/remote/swarm.rs
@@ -805,7 +805,11 @@ impl ActorSwarmHandler {
         event: ActorSwarmEvent,
     ) {
         match event {
-            ActorSwarmEvent::ConnectionClosed { peer_id, .. } => {
+            ActorSwarmEvent::ConnectionClosed {
+                peer_id,
+                num_established: 0,
+                ..
+            } => {
                 tokio::spawn(async move {
                     let mut futures = FuturesUnordered::new();
                     for RemoteRegistryActorRef {
-- 
2.43.0


From 925d86e639ebe8cd2814b41851276f73fc279a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:08 +0000
Subject: [PATCH 19/29] fix: requests to remote references of local actors are
 handled locally while other peers are connected

---
 src/remote/swarm.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/remote/swarm.rs b/src/remote/swarm.rs
index 6b32a09..fa7fb09 100644
--- a/src/remote/swarm.rs
+++ b/src/remote/swarm.rs
@@ -636,7 +636,7 @@ impl ActorSwarmHandler {
                 immediate,
                 reply,
             } => {
-                if swarm.network_info().num_peers() == 0 {
+                if is_handled_locally(swarm, Some(&peer_id)) {
                     tokio::spawn(async move {
                         let result = remote::ask(
                             actor_id,
@@ -674,7 +674,7 @@ impl ActorSwarmHandler {
                 immediate,
                 reply,
             } => {
-                if swarm.network_info().num_peers() == 0 {
+                if is_handled_locally(swarm, Some(&peer_id)) {
                     tokio::spawn(async move {
                         let result = remote::tell(
                             actor_id,
@@ -713,7 +713,7 @@ impl ActorSwarmHandler {
                 sibbling_remote_id,
                 reply,
             } => {
-                if swarm.network_info().num_peers() == 0 {
+                if is_handled_locally(swarm, sibbling_id.peer_id()) {
                     tokio::spawn(async move {
                         let result = remote::link(
                             sibbling_id,
@@ -743,7 +743,7 @@ impl ActorSwarmHandler {
                 sibbling_remote_id,
                 reply,
             } => {
-                if swarm.network_info().num_peers() == 0 {
+                if is_handled_locally(swarm, sibbling_id.peer_id()) {
                     tokio::spawn(async move {
                         let result =
                             remote::unlink(sibbling_id, sibbling_remote_id, actor_id).await;
@@ -767,7 +767,7 @@ impl ActorSwarmHandler {
                 stop_reason,
                 reply,
             } => {
-                if swarm.network_info().num_peers() == 0 {
+                if is_handled_locally(swarm, notified_actor_id.peer_id()) {
                     tokio::spawn(async move {
                         let result = remote::signal_link_died(
                             dead_actor_id,
@@ -1017,6 +1017,12 @@ impl ActorSwarmHandler {
     }
 }
 
+/// Returns `true` if a request to the peer needs no network, either because the peer is ourselves,
+/// or because there are no other peers.
+fn is_handled_locally<B: SwarmBehaviour>(swarm: &Swarm<B>, peer_id: Option<&PeerId>) -> bool {
+    swarm.network_info().num_peers() == 0 || peer_id == Some(swarm.local_peer_id())
+}
+
 /// The error of a record which was refused by the local record store, and therefore stored nowhere.
 fn put_record_store_error(key: kad::RecordKey) -> kad::PutRecordError {
     kad::PutRecordError::QuorumFailed {
-- 
2.43.0


From efee1df0bf6c4a25e8c6a7f0def14a92b5e0d8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:09 +0000
Subject: [PATCH 20/29] fix: link_remote leaves nothing behind when the swarm
 is not bootstrapped

---
 src/actor/actor_ref.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/actor/actor_ref.rs b/src/actor/actor_ref.rs
index f24b779..11e25e8 100644
--- a/src/actor/actor_ref.rs
+++ b/src/actor/actor_ref.rs
@@ -599,6 +599,9 @@ where
             return Ok(());
         }
 
+        let swarm =
+            remote::ActorSwarm::get().ok_or(error::RemoteSendError::SwarmNotBootstrapped)?;
+
         remote::REMOTE_REGISTRY.lock().await.insert(
             self.id,
             remote::RemoteRegistryActorRef {
@@ -612,10 +615,7 @@ where
             sibbling_ref.id,
             Link::Remote(std::borrow::Cow::Borrowed(B::REMOTE_ID)),
         );
-        remote::ActorSwarm::get()
-            .ok_or(error::RemoteSendError::SwarmNotBootstrapped)?
-            .link::<A, B>(self.id, sibbling_ref.id)
-            .await
+        swarm.link::<A, B>(self.id, sibbling_ref.id).await
     }
 
     /// Unlinks two previously linked sibling actors.
-- 
2.43.0


From 3dda3dfcf29bc34e99edeffe45f3e1ad26ace8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:06 +0000
Subject: [PATCH 21/29] fix: an actor which stops while being registered
 doesn't stay addressable forever

---
 src/actor/actor_ref.rs |  9 +--------
 src/actor/spawn.rs     |  6 ++++--
 src/remote.rs          | 22 +++++++++++++++++++++-
 src/remote/swarm.rs    | 11 +----------
 4 files changed, 27 insertions(+), 21 deletions(-)

diff --git a/src/actor/actor_ref.rs b/src/actor/actor_ref.rs
index 11e25e8..65977d1 100644
--- a/src/actor/actor_ref.rs
+++ b/src/actor/actor_ref.rs
@@ -602,14 +602,7 @@ where
         let swarm =
             remote::ActorSwarm::get().ok_or(error::RemoteSendError::SwarmNotBootstrapped)?;
 
-        remote::REMOTE_REGISTRY.lock().await.insert(
-            self.id,
-            remote::RemoteRegistryActorRef {
-                actor_ref: Box::new(self.clone()),
-                signal_mailbox: self.weak_signal_mailbox(),
-                links: self.links.clone(),
-            },
-        );
+        remote::RemoteRegistryActorRef::insert(self.clone()).await;
 
         self.links.lock().await.insert(
             sibbling_ref.id,
diff --git a/src/actor/spawn.rs b/src/actor/spawn.rs
index ac58a7a..94bd23c 100644
--- a/src/actor/spawn.rs
+++ b/src/actor/spawn.rs
@@ -541,8 +541,6 @@ where
     log_actor_stop_reason(id, name, &reason);
 
     while let Some(()) = link_notification_futures.next().await {}
-    #[cfg(feature = "remote")]
-    remote::REMOTE_REGISTRY.lock().await.remove(&id);
 
     match on_stop_res {
         Ok(()) => {
@@ -564,6 +562,10 @@ where
         }
     }
 
+    // Must happen after the shutdown result is set, see `RemoteRegistryActorRef::insert`
+    #[cfg(feature = "remote")]
+    remote::REMOTE_REGISTRY.lock().await.remove(&id);
+
     (actor, reason)
 }
 
diff --git a/src/remote.rs b/src/remote.rs
index 547ddde..cf9320e 100644
--- a/src/remote.rs
+++ b/src/remote.rs
@@ -62,9 +62,10 @@ use once_cell::sync::Lazy;
 use tokio::sync::Mutex;
 
 use crate::{
-    actor::{ActorID, Links},
+    actor::{ActorID, ActorRef, Links},
     error::{ActorStopReason, Infallible, RemoteSendError},
     mailbox::SignalMailbox,
+    Actor,
 };
 
 #[doc(hidden)]
@@ -82,6 +83,25 @@ pub(crate) struct RemoteRegistryActorRef {
     pub(crate) links: Links,
 }
 
+impl RemoteRegistryActorRef {
+    /// Makes an actor addressable by other nodes, unless it already shut down.
+    pub(crate) async fn insert<A: Actor>(actor_ref: ActorRef<A>) {
+        let mut registry = REMOTE_REGISTRY.lock().await;
+        // An actor sets its shutdown result before removing itself from the registry,
+        // so it's either visible here, or the removal is still to come
+        if actor_ref.shutdown_error.get().is_none() {
+            registry.insert(
+                actor_ref.id(),
+                RemoteRegistryActorRef {
+                    signal_mailbox: actor_ref.weak_signal_mailbox(),
+                    links: actor_ref.links.clone(),
+                    actor_ref: Box::new(actor_ref),
+                },
+            );
+        }
+    }
+}
+
 static REMOTE_ACTORS_MAP: Lazy<HashMap<&'static str, RemoteActorFns>> = Lazy::new(|| {
     let mut existing_ids = HashSet::new();
     for (id, _) in REMOTE_ACTORS {
diff --git a/src/remote/swarm.rs b/src/remote/swarm.rs
index fa7fb09..a468a7e 100644
--- a/src/remote/swarm.rs
+++ b/src/remote/swarm.rs
@@ -372,16 +372,7 @@ impl ActorSwarm {
         async move {
             match reply_rx.await {
                 Ok(kad::PutRecordOk { .. }) => {
-                    let signal_mailbox = actor_ref.weak_signal_mailbox();
-                    let links = actor_ref.links.clone();
-                    REMOTE_REGISTRY.lock().await.insert(
-                        actor_ref.id(),
-                        RemoteRegistryActorRef {
-                            actor_ref: Box::new(actor_ref),
-                            signal_mailbox,
-                            links,
-                        },
-                    );
+                    RemoteRegistryActorRef::insert(actor_ref).await;
                     Ok(())
                 }
                 Err(kad::PutRecordError::QuorumFailed { quorum, .. }) => {
-- 
2.43.0


From 35de83964ee179791043d962c28e7b27fcdff86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:35 +0000
Subject: [PATCH 22/29] fix: pool workers get a mailbox with the capacity of
 their actor's mailbox, not of the room left in it

---
 actors/src/pool.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/actors/src/pool.rs b/actors/src/pool.rs
index d53def0..9949d56 100644
--- a/actors/src/pool.rs
+++ b/actors/src/pool.rs
@@ -106,7 +106,7 @@ where
                     actor_ref: factory(),
                 };
                 let mailbox = match worker.actor_ref.mailbox_sender() {
-                    MailboxSender::Bounded(tx) => mailbox::bounded(tx.capacity()),
+                    MailboxSender::Bounded(tx) => mailbox::bounded(tx.max_capacity()),
                     MailboxSender::Unbounded(_) => mailbox::unbounded(),
                 };
                 (spawn_with_mailbox(worker, mailbox), Arc::new(()))
@@ -135,7 +135,7 @@ where
             FutureExt::map(factory(), |actor_ref| {
                 let worker = Worker { actor_ref };
                 let mailbox = match worker.actor_ref.mailbox_sender() {
-                    MailboxSender::Bounded(tx) => mailbox::bounded(tx.capacity()),
+                    MailboxSender::Bounded(tx) => mailbox::bounded(tx.max_capacity()),
                     MailboxSender::Unbounded(_) => mailbox::unbounded(),
                 };
                 (spawn_with_mailbox(worker, mailbox), Arc::new(()))
@@ -202,7 +202,7 @@ where
             Factory::Sync(f) => {
                 let worker = Worker { actor_ref: f() };
                 let mailbox = match worker.actor_ref.mailbox_sender() {
-                    MailboxSender::Bounded(tx) => mailbox::bounded(tx.capacity()),
+                    MailboxSender::Bounded(tx) => mailbox::bounded(tx.max_capacity()),
                     MailboxSender::Unbounded(_) => mailbox::unbounded(),
                 };
                 (spawn_with_mailbox(worker, mailbox), Arc::new(()))
@@ -212,7 +212,7 @@ where
                     actor_ref: f().await,
                 };
                 let mailbox = match worker.actor_ref.mailbox_sender() {
-                    MailboxSender::Bounded(tx) => mailbox::bounded(tx.capacity()),
+                    MailboxSender::Bounded(tx) => mailbox::bounded(tx.max_capacity()),
                     MailboxSender::Unbounded(_) => mailbox::unbounded(),
                 };
                 (spawn_with_mailbox(worker, mailbox), Arc::new(()))
-- 
2.43.0


From 49726d7f8dfc2e58cd1aa74f2a8e2110b6030f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:36 +0000
Subject: [PATCH 23/29] fix: errors of pool workers reach the asker instead of
 panicking it

---
 actors/src/pool.rs | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/actors/src/pool.rs b/actors/src/pool.rs
index 9949d56..de87f5b 100644
--- a/actors/src/pool.rs
+++ b/actors/src/pool.rs
@@ -50,7 +50,11 @@ use futures::{
     Future, FutureExt, TryFutureExt,
     future::{BoxFuture, join_all},
 };
-use kameo::{actor::spawn_with_mailbox, error::Infallible, prelude::*};
+use kameo::{
+    actor::spawn_with_mailbox,
+    error::{BoxSendError, Infallible},
+    prelude::*,
+};
 
 enum Factory<A: Actor> {
     Sync(Box<dyn FnMut() -> ActorRef<A> + Send + Sync + 'static>),
@@ -295,6 +299,21 @@ where
     fn into_value(self) -> Self::Value {
         unimplemented!("a WorkerReply cannot be converted to a value and is only a marker type")
     }
+
+    /// The error of the worker is a `SendError` itself, since the worker asks the inner actor.
+    fn downcast_err<N: 'static>(err: BoxSendError) -> SendError<N, Self::Error> {
+        match err {
+            SendError::HandlerError(err) => match err.downcast::<SendError<M, Self::Error>>() {
+                Ok(err) => err
+                    .map_msg(Dispatch)
+                    .boxed()
+                    .try_downcast()
+                    .unwrap_or(SendError::ActorStopped),
+                Err(err) => SendError::HandlerError(*err.downcast().unwrap()),
+            },
+            err => err.downcast(),
+        }
+    }
 }
 
 /// A message to be handled by a worker in an actor pool.
-- 
2.43.0


From 0f95f08bb482b69d03a82f1048fbbbd883c3b7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:37 +0000
Subject: [PATCH 24/29] fix: dispatching to a pool without a running worker
 reports the error to the asker

---
 actors/src/pool.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/actors/src/pool.rs b/actors/src/pool.rs
index de87f5b..e7edca4 100644
--- a/actors/src/pool.rs
+++ b/actors/src/pool.rs
@@ -376,7 +376,13 @@ where
             }
         }
 
-        WorkerReply::Err(SendError::ActorNotRunning(msg))
+        match reply_sender {
+            Some(tx) => {
+                tx.send(Err(SendError::ActorNotRunning(msg)));
+                WorkerReply::Forwarded
+            }
+            None => WorkerReply::Err(SendError::ActorNotRunning(msg)),
+        }
     }
 }
 
-- 
2.43.0


From cbe2cbfac4de044d31a938de5f88bf25a35cdc55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:37 +0000
Subject: [PATCH 25/29] fix: a pool tries its other workers instead of retrying
 a dead one

---
 actors/src/pool.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/actors/src/pool.rs b/actors/src/pool.rs
index e7edca4..f37f37a 100644
--- a/actors/src/pool.rs
+++ b/actors/src/pool.rs
@@ -157,12 +157,12 @@ where
         }
     }
 
-    fn next_worker(&self) -> (&ActorRef<Worker<A>>, Weak<()>) {
+    fn next_worker(&self) -> Option<(&ActorRef<Worker<A>>, Weak<()>)> {
         self.workers
             .iter()
+            .filter(|(actor_ref, _)| actor_ref.is_alive())
             .min_by_key(|(_, load)| Arc::weak_count(load))
             .map(|(actor_ref, counter)| (actor_ref, Arc::downgrade(counter)))
-            .expect("ActorPool should have at least one worker")
     }
 }
 
@@ -335,7 +335,9 @@ where
     ) -> Self::Reply {
         let (_, mut reply_sender) = ctx.reply_sender();
         for _ in 0..self.workers.len() {
-            let (worker, counter) = self.next_worker();
+            let Some((worker, counter)) = self.next_worker() else {
+                break;
+            };
             match reply_sender {
                 Some(tx) => {
                     if let Err(err) = worker
-- 
2.43.0


From 794848f809cd6848c377adda63535b8a675351f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:38 +0000
Subject: [PATCH 26/29] fix: pool workers whose actor has stopped are replaced

---
 actors/src/pool.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/actors/src/pool.rs b/actors/src/pool.rs
index f37f37a..b7af75e 100644
--- a/actors/src/pool.rs
+++ b/actors/src/pool.rs
@@ -257,9 +257,14 @@ where
             msg,
             counter: _counter,
         }: WorkerMsgWrapper<M>,
-        _ctx: &mut Context<Self, Self::Reply>,
+        ctx: &mut Context<Self, Self::Reply>,
     ) -> Self::Reply {
-        self.actor_ref.ask(msg).await
+        let res = self.actor_ref.ask(msg).await;
+        if matches!(res, Err(SendError::ActorNotRunning(_))) {
+            // Without its actor, this worker is of no use anymore and should be replaced by the pool
+            ctx.actor_ref().kill();
+        }
+        res
     }
 }
 
-- 
2.43.0


From a33ca0f60ed4724f2675e8446c46dce30d28e7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:36 +0000
Subject: [PATCH 27/29] fix: a running actor no longer keeps itself alive

The reference handed to the lifecycle was only partially moved out, so its mailbox sender
stayed alive until the end of the lifecycle and dropping all references never stopped an actor.
---
 src/actor/spawn.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/actor/spawn.rs b/src/actor/spawn.rs
index 94bd23c..ffb8552 100644
--- a/src/actor/spawn.rs
+++ b/src/actor/spawn.rs
@@ -458,9 +458,13 @@ where
     }
 
     let (actor_ref, links, startup_semaphore) = {
-        // Downgrade actor ref
-        let weak_actor_ref = actor_ref.downgrade();
-        (weak_actor_ref, actor_ref.links, actor_ref.startup_semaphore)
+        // Downgrade actor ref. It is moved as a whole, since any part left behind would keep the actor alive
+        let actor_ref = actor_ref;
+        (
+            actor_ref.downgrade(),
+            actor_ref.links.clone(),
+            actor_ref.startup_semaphore.clone(),
+        )
     };
 
     // The startup result is known, release anyone waiting for it, regardless of what happens next
-- 
2.43.0


From 2a9f138977edff5ceaeda5f473365595f574f3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:52 +0000
Subject: [PATCH 28/29] fix: report an unexpected response from a peer as an
 error

A peer that answered a remote request with a response of another kind
panicked the caller.
---
 src/remote/swarm.rs | 14 +++++++++++---
 src/request/ask.rs  |  2 +-
 src/request/tell.rs |  2 +-
 3 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/remote/swarm.rs b/src/remote/swarm.rs
index a468a7e..9ca2c7d 100644
--- a/src/remote/swarm.rs
+++ b/src/remote/swarm.rs
@@ -423,7 +423,7 @@ impl ActorSwarm {
             match reply_rx.await {
                 SwarmResponse::Link(result) => result,
                 SwarmResponse::OutboundFailure(err) => Err(err),
-                _ => panic!("got an unexpected swarm response"),
+                _ => Err(unexpected_response()),
             }
         }
     }
@@ -444,7 +444,7 @@ impl ActorSwarm {
             match reply_rx.await {
                 SwarmResponse::Unlink(result) => result,
                 SwarmResponse::OutboundFailure(err) => Err(err),
-                _ => panic!("got an unexpected swarm response"),
+                _ => Err(unexpected_response()),
             }
         }
     }
@@ -470,7 +470,7 @@ impl ActorSwarm {
             match reply_rx.await {
                 SwarmResponse::SignalLinkDied(result) => result,
                 SwarmResponse::OutboundFailure(err) => Err(err),
-                _ => panic!("got an unexpected swarm response"),
+                _ => Err(unexpected_response()),
             }
         }
     }
@@ -1014,6 +1014,14 @@ fn is_handled_locally<B: SwarmBehaviour>(swarm: &Swarm<B>, peer_id: Option<&Peer
     swarm.network_info().num_peers() == 0 || peer_id == Some(swarm.local_peer_id())
 }
 
+/// The error of a request which was answered by a peer with a response of another kind.
+pub(crate) fn unexpected_response<E>() -> RemoteSendError<E> {
+    RemoteSendError::Io(Some(io::Error::new(
+        io::ErrorKind::InvalidData,
+        "got an unexpected swarm response",
+    )))
+}
+
 /// The error of a record which was refused by the local record store, and therefore stored nowhere.
 fn put_record_store_error(key: kad::RecordKey) -> kad::PutRecordError {
     kad::PutRecordError::QuorumFailed {
diff --git a/src/request/ask.rs b/src/request/ask.rs
index a707ba4..88b13e8 100644
--- a/src/request/ask.rs
+++ b/src/request/ask.rs
@@ -860,7 +860,7 @@ where
         remote::SwarmResponse::OutboundFailure(err) => {
             Err(err.map_err(|_| unreachable!("outbound failure doesn't contain handler errors")))
         }
-        _ => panic!("unexpected response"),
+        _ => Err(remote::unexpected_response()),
     }
 }
 
diff --git a/src/request/tell.rs b/src/request/tell.rs
index a65921f..a8aecf3 100644
--- a/src/request/tell.rs
+++ b/src/request/tell.rs
@@ -402,7 +402,7 @@ where
         SwarmResponse::OutboundFailure(err) => {
             Err(err.map_err(|_| unreachable!("outbound failure doesn't contain handler errors")))
         }
-        _ => panic!("unexpected response"),
+        _ => Err(remote::unexpected_response()),
     }
 }
 
-- 
2.43.0


From c3ae9fa79cc8d897da1644f07e25a0a49536208a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:31 +0000
Subject: [PATCH 29/29] fix: a prepared actor run in place knows that it is the
 current actor

---
 src/actor/spawn.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/actor/spawn.rs b/src/actor/spawn.rs
index ffb8552..7bca829 100644
--- a/src/actor/spawn.rs
+++ b/src/actor/spawn.rs
@@ -365,13 +365,17 @@ impl<A: Actor> PreparedActor<A> {
     /// # });
     /// ```
     pub async fn run(self, actor: A) -> (A, ActorStopReason) {
-        run_actor_lifecycle::<A, ActorBehaviour<A>>(
-            actor,
-            self.actor_ref,
-            self.mailbox_rx,
-            self.abort_registration,
-        )
-        .await
+        CURRENT_ACTOR_ID
+            .scope(
+                self.actor_ref.id(),
+                run_actor_lifecycle::<A, ActorBehaviour<A>>(
+                    actor,
+                    self.actor_ref,
+                    self.mailbox_rx,
+                    self.abort_registration,
+                ),
+            )
+            .await
     }
 
     /// Spawns the actor in a new background tokio task, returning the `JoinHandle`.
-- 
2.43.0

