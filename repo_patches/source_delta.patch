From 03ee6ff2c2297546c8682e48041393ac4012a40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:53 +0000
Subject: [PATCH 01/37] fix: stop_gracefully panics on a stopped actor

The generic conversion of a failed mailbox send unwraps a message, but a
stop signal carries none.
---
 src/actor/actor_ref.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/actor/actor_ref.rs b/src/actor/actor_ref.rs
index 6dc7ee4..88018f9 100644
--- a/src/actor/actor_ref.rs
+++ b/src/actor/actor_ref.rs
@@ -208,7 +208,10 @@ where
     /// before it shuts down. Any new messages sent after the stop signal will be ignored.
     #[inline]
     pub async fn stop_gracefully(&self) -> Result<(), SendError> {
-        Ok(self.mailbox_sender.send(Signal::Stop).await?)
+        self.mailbox_sender
+            .send(Signal::Stop)
+            .await
+            .map_err(|_| SendError::ActorNotRunning(()))
     }
 
     /// Kills the actor immediately.
-- 
2.43.0


From af2fd3c05fe3499e482d12581e087dbd0c30e1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:31 +0000
Subject: [PATCH 02/37] fix: a failing ask enqueue panics

enqueue, try_enqueue and blocking_enqueue report errors without the message,
but their conversion looked for a message of type ().
---
 src/request/ask.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/request/ask.rs b/src/request/ask.rs
index fc3c652..0d3aa14 100644
--- a/src/request/ask.rs
+++ b/src/request/ask.rs
@@ -200,10 +200,12 @@ where
             MailboxSender::Bounded(tx) => {
                 match self.mailbox_timeout.into() {
                     Some(timeout) => {
-                        tx.send_timeout(signal, timeout).await?;
+                        tx.send_timeout(signal, timeout)
+                            .await
+                            .map_err(enqueue_error::<M, _>)?;
                     }
                     None => {
-                        tx.send(signal).await?;
+                        tx.send(signal).await.map_err(enqueue_error::<M, _>)?;
                     }
                 }
 
@@ -220,7 +222,7 @@ where
                 .boxed()
             }
             MailboxSender::Unbounded(tx) => {
-                tx.send(signal)?;
+                tx.send(signal).map_err(enqueue_error::<M, _>)?;
 
                 async move {
                     let reply = match self.reply_timeout.into() {
@@ -408,7 +410,7 @@ where
 
         let fut = match self.actor_ref.mailbox_sender() {
             MailboxSender::Bounded(tx) => {
-                tx.try_send(signal)?;
+                tx.try_send(signal).map_err(enqueue_error::<M, _>)?;
 
                 async move {
                     let reply = match self.reply_timeout.into() {
@@ -423,7 +425,7 @@ where
                 .boxed()
             }
             MailboxSender::Unbounded(tx) => {
-                tx.send(signal)?;
+                tx.send(signal).map_err(enqueue_error::<M, _>)?;
 
                 async move {
                     let reply = match self.reply_timeout.into() {
@@ -553,7 +555,7 @@ where
 
         match self.actor_ref.mailbox_sender() {
             MailboxSender::Bounded(tx) => {
-                tx.blocking_send(signal)?;
+                tx.blocking_send(signal).map_err(enqueue_error::<M, _>)?;
 
                 let f = Box::new(move || match rx.blocking_recv()? {
                     Ok(val) => Ok(<A::Reply as Reply>::downcast_ok(val)),
@@ -562,7 +564,7 @@ where
                 Ok(BlockingPendingReply { f })
             }
             MailboxSender::Unbounded(tx) => {
-                tx.send(signal)?;
+                tx.send(signal).map_err(enqueue_error::<M, _>)?;
 
                 let f = Box::new(move || match rx.blocking_recv()? {
                     Ok(val) => Ok(<A::Reply as Reply>::downcast_ok(val)),
@@ -574,6 +576,14 @@ where
     }
 }
 
+/// Converts a failed send of a message of type `M` for the requests which don't hand the message back.
+fn enqueue_error<M, S>(err: S) -> SendError
+where
+    SendError<M>: From<S>,
+{
+    SendError::<M>::from(err).map_msg(|_| ())
+}
+
 impl<'a, A, M, Tm, Tr> IntoFuture for AskRequest<'a, A, M, Tm, Tr>
 where
     A: Actor + Message<M>,
-- 
2.43.0


From 7da77dde5fee02fb0946aaf9ca67bef5399231c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:32 +0000
Subject: [PATCH 03/37] fix: a failing ask forward panics

forward, try_forward and blocking_forward hand back the message together with
the reply sender, but their conversion looked for a message of that pair type.
---
 src/request/ask.rs | 60 +++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 52 insertions(+), 8 deletions(-)

diff --git a/src/request/ask.rs b/src/request/ask.rs
index 0d3aa14..c6ff9e2 100644
--- a/src/request/ask.rs
+++ b/src/request/ask.rs
@@ -4,7 +4,7 @@ use std::{
     pin, task,
     time::Duration,
 };
-use tokio::sync::oneshot;
+use tokio::sync::{mpsc, oneshot};
 
 #[cfg(feature = "remote")]
 use crate::{actor, remote};
@@ -269,16 +269,28 @@ where
             MailboxSender::Bounded(tx) => {
                 match self.mailbox_timeout.into() {
                     Some(timeout) => {
-                        tx.send_timeout(signal, timeout).await?;
+                        tx.send_timeout(signal, timeout)
+                            .await
+                            .map_err(|err| match err {
+                                mpsc::error::SendTimeoutError::Timeout(signal) => {
+                                    SendError::Timeout(Some(forward_parts(signal)))
+                                }
+                                mpsc::error::SendTimeoutError::Closed(signal) => {
+                                    SendError::ActorNotRunning(forward_parts(signal))
+                                }
+                            })?;
                     }
                     None => {
-                        tx.send(signal).await?;
+                        tx.send(signal)
+                            .await
+                            .map_err(|err| SendError::ActorNotRunning(forward_parts(err.0)))?;
                     }
                 }
                 Ok(())
             }
             MailboxSender::Unbounded(tx) => {
-                tx.send(signal)?;
+                tx.send(signal)
+                    .map_err(|err| SendError::ActorNotRunning(forward_parts(err.0)))?;
                 Ok(())
             }
         }
@@ -309,11 +321,19 @@ where
 
         match self.actor_ref.mailbox_sender() {
             MailboxSender::Bounded(tx) => {
-                tx.try_send(signal)?;
+                tx.try_send(signal).map_err(|err| match err {
+                    mpsc::error::TrySendError::Full(signal) => {
+                        SendError::MailboxFull(forward_parts(signal))
+                    }
+                    mpsc::error::TrySendError::Closed(signal) => {
+                        SendError::ActorNotRunning(forward_parts(signal))
+                    }
+                })?;
                 Ok(())
             }
             MailboxSender::Unbounded(tx) => {
-                tx.send(signal)?;
+                tx.send(signal)
+                    .map_err(|err| SendError::ActorNotRunning(forward_parts(err.0)))?;
                 Ok(())
             }
         }
@@ -501,11 +521,13 @@ where
 
         match self.actor_ref.mailbox_sender() {
             MailboxSender::Bounded(tx) => {
-                tx.blocking_send(signal)?;
+                tx.blocking_send(signal)
+                    .map_err(|err| SendError::ActorNotRunning(forward_parts(err.0)))?;
                 Ok(())
             }
             MailboxSender::Unbounded(tx) => {
-                tx.send(signal)?;
+                tx.send(signal)
+                    .map_err(|err| SendError::ActorNotRunning(forward_parts(err.0)))?;
                 Ok(())
             }
         }
@@ -584,6 +606,28 @@ where
     SendError::<M>::from(err).map_msg(|_| ())
 }
 
+/// Recovers the message and reply sender from the signal of a failed forward.
+fn forward_parts<A, M, R>(signal: Signal<A>) -> (M, ReplySender<R>)
+where
+    A: Actor,
+    M: 'static,
+{
+    match signal {
+        Signal::Message {
+            message,
+            reply: Some(reply),
+            ..
+        } => {
+            let msg = message
+                .as_any()
+                .downcast()
+                .expect("the signal should hold the forwarded message");
+            (*msg, ReplySender::new(reply))
+        }
+        _ => unreachable!("forward only sends messages with a reply sender"),
+    }
+}
+
 impl<'a, A, M, Tm, Tr> IntoFuture for AskRequest<'a, A, M, Tm, Tr>
 where
     A: Actor + Message<M>,
-- 
2.43.0


From fc0a89112eae673877725ce9a0d671373e9d5b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:51 +0000
Subject: [PATCH 04/37] fix: Recipient::downgrade panics with todo!()

---
 src/actor/actor_ref.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/actor/actor_ref.rs b/src/actor/actor_ref.rs
index 88018f9..4b2b1f7 100644
--- a/src/actor/actor_ref.rs
+++ b/src/actor/actor_ref.rs
@@ -1415,7 +1415,9 @@ where
 
     #[inline]
     fn downgrade(&self) -> WeakRecipient<M> {
-        todo!()
+        WeakRecipient {
+            handler: Box::new(self.downgrade()),
+        }
     }
 
     #[inline]
-- 
2.43.0


From 9abd2309e0df494296042fa1928e08c5ac1ed1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:51 +0000
Subject: [PATCH 05/37] fix: the deprecated wait_for_stop waits for startup

---
 src/actor/actor_ref.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actor/actor_ref.rs b/src/actor/actor_ref.rs
index 4b2b1f7..2725d45 100644
--- a/src/actor/actor_ref.rs
+++ b/src/actor/actor_ref.rs
@@ -352,7 +352,7 @@ where
         note = "wait_for_stop has been renamed to wait_for_shutdown"
     )]
     pub async fn wait_for_stop(&self) {
-        self.wait_for_startup().await
+        self.wait_for_shutdown().await
     }
 
     /// Waits for the actor to finish shutdown, returning the shutdown result with a clone of the error.
-- 
2.43.0


From 07224151761bc593f59ece2ff4ce8bb93cf62fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:03 +0000
Subject: [PATCH 06/37] fix: concurrent link and unlink calls can deadlock

Both actors' links are locked together, this one's first: two calls for the
same pair from either side could each hold one lock and wait for the other.
---
 src/actor/actor_ref.rs | 49 ++++++++++++++++++++++++++++++++++--------
 1 file changed, 40 insertions(+), 9 deletions(-)

diff --git a/src/actor/actor_ref.rs b/src/actor/actor_ref.rs
index 2725d45..c9e4f63 100644
--- a/src/actor/actor_ref.rs
+++ b/src/actor/actor_ref.rs
@@ -9,7 +9,7 @@ use std::{
 use dyn_clone::DynClone;
 use futures::{future::BoxFuture, stream::AbortHandle, FutureExt, Stream, StreamExt, TryFutureExt};
 use tokio::{
-    sync::{Mutex, Semaphore},
+    sync::{Mutex, MutexGuard, Semaphore},
     task::JoinHandle,
     task_local,
 };
@@ -519,8 +519,7 @@ where
             return;
         }
 
-        let (mut this_links, mut sibbling_links) =
-            tokio::join!(self.links.lock(), sibbling_ref.links.lock());
+        let (mut this_links, mut sibbling_links) = self.lock_links_with(sibbling_ref).await;
         this_links.insert(
             sibbling_ref.id,
             Link::Local(sibbling_ref.weak_signal_mailbox()),
@@ -558,8 +557,7 @@ where
             return;
         }
 
-        let mut this_links = self.links.blocking_lock();
-        let mut sibbling_links = sibbling_ref.links.blocking_lock();
+        let (mut this_links, mut sibbling_links) = self.blocking_lock_links_with(sibbling_ref);
         this_links.insert(
             sibbling_ref.id,
             Link::Local(sibbling_ref.weak_signal_mailbox()),
@@ -642,8 +640,7 @@ where
             return;
         }
 
-        let (mut this_links, mut sibbling_links) =
-            tokio::join!(self.links.lock(), sibbling_ref.links.lock());
+        let (mut this_links, mut sibbling_links) = self.lock_links_with(sibbling_ref).await;
         this_links.remove(&sibbling_ref.id);
         sibbling_links.remove(&self.id);
     }
@@ -680,8 +677,7 @@ where
             return;
         }
 
-        let mut this_links = self.links.blocking_lock();
-        let mut sibbling_links = sibbling_ref.links.blocking_lock();
+        let (mut this_links, mut sibbling_links) = self.blocking_lock_links_with(sibbling_ref);
         this_links.remove(&sibbling_ref.id);
         sibbling_links.remove(&self.id);
     }
@@ -819,6 +815,39 @@ where
         &self.mailbox_sender
     }
 
+    /// Locks the links of this actor and a sibbling, always in the order of their ids so that
+    /// concurrent calls for the same two actors can't deadlock.
+    async fn lock_links_with<'a, B: Actor>(
+        &'a self,
+        sibbling_ref: &'a ActorRef<B>,
+    ) -> (LinksGuard<'a>, LinksGuard<'a>) {
+        if self.id.sequence_id() < sibbling_ref.id.sequence_id() {
+            let this_links = self.links.lock().await;
+            let sibbling_links = sibbling_ref.links.lock().await;
+            (this_links, sibbling_links)
+        } else {
+            let sibbling_links = sibbling_ref.links.lock().await;
+            let this_links = self.links.lock().await;
+            (this_links, sibbling_links)
+        }
+    }
+
+    /// Blocking variant of [`ActorRef::lock_links_with`].
+    fn blocking_lock_links_with<'a, B: Actor>(
+        &'a self,
+        sibbling_ref: &'a ActorRef<B>,
+    ) -> (LinksGuard<'a>, LinksGuard<'a>) {
+        if self.id.sequence_id() < sibbling_ref.id.sequence_id() {
+            let this_links = self.links.blocking_lock();
+            let sibbling_links = sibbling_ref.links.blocking_lock();
+            (this_links, sibbling_links)
+        } else {
+            let sibbling_links = sibbling_ref.links.blocking_lock();
+            let this_links = self.links.blocking_lock();
+            (this_links, sibbling_links)
+        }
+    }
+
     #[inline]
     pub(crate) fn weak_signal_mailbox(&self) -> Box<dyn SignalMailbox> {
         Box::new(self.mailbox_sender.downgrade())
@@ -1367,6 +1396,8 @@ impl ops::Deref for Links {
     }
 }
 
+type LinksGuard<'a> = MutexGuard<'a, HashMap<ActorID, Link>>;
+
 #[derive(Clone)]
 pub(crate) enum Link {
     Local(Box<dyn SignalMailbox>),
-- 
2.43.0


From d789ad2887127a496dfb19728dced78ffecb4602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:03 +0000
Subject: [PATCH 07/37] fix: Actor::on_message is never called

---
 src/actor/kind.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actor/kind.rs b/src/actor/kind.rs
index 2bd8e69..de9eef8 100644
--- a/src/actor/kind.rs
+++ b/src/actor/kind.rs
@@ -112,7 +112,7 @@ where
             return ControlFlow::Continue(());
         }
 
-        let res = AssertUnwindSafe(message.handle_dyn(&mut self.state, actor_ref, reply))
+        let res = AssertUnwindSafe(self.state.on_message(message, actor_ref, reply))
             .catch_unwind()
             .await;
         match res {
-- 
2.43.0


From ab01d4fe0ab2fffcfea63c254650c8af9a34fe97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:08 +0000
Subject: [PATCH 08/37] fix: startup never finishes when the mailbox is full

An actor whose mailbox was full at the end of on_start skipped straight to its
mailbox: wait_for_startup never returned, and messages it sent itself during
on_start lost their priority over external ones.
---
 src/actor/spawn.rs | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/actor/spawn.rs b/src/actor/spawn.rs
index f468020..61d3d73 100644
--- a/src/actor/spawn.rs
+++ b/src/actor/spawn.rs
@@ -450,11 +450,12 @@ where
         }
     }
 
-    let mut startup_finished = false;
+    // With no room in the mailbox to mark the end of the startup, count the signals before it instead
+    let mut startup_backlog = None;
     if let Err(SendError::MailboxFull(())) =
         actor_ref.weak_signal_mailbox().signal_startup_finished()
     {
-        startup_finished = true;
+        startup_backlog = Some(mailbox_rx.len());
     }
 
     let (actor_ref, links, startup_semaphore) = {
@@ -505,7 +506,7 @@ where
             &mut state,
             &mut mailbox_rx,
             startup_semaphore,
-            startup_finished,
+            startup_backlog,
         ),
         abort_registration,
     )
@@ -594,19 +595,15 @@ async fn abortable_actor_loop<A, S>(
     state: &mut S,
     mailbox_rx: &mut MailboxReceiver<A>,
     startup_semaphore: Arc<Semaphore>,
-    startup_finished: bool,
+    mut startup_backlog: Option<usize>,
 ) -> ActorStopReason
 where
     A: Actor,
     S: ActorState<A>,
 {
-    if startup_finished {
-        if let ControlFlow::Break(reason) = state.handle_startup_finished().await {
-            return reason;
-        }
-    }
     loop {
-        let reason = recv_mailbox_loop(state, mailbox_rx, &startup_semaphore).await;
+        let reason =
+            recv_mailbox_loop(state, mailbox_rx, &startup_semaphore, &mut startup_backlog).await;
         if let ControlFlow::Break(reason) = state.on_shutdown(reason).await {
             return reason;
         }
@@ -617,13 +614,25 @@ async fn recv_mailbox_loop<A, S>(
     state: &mut S,
     mailbox_rx: &mut MailboxReceiver<A>,
     startup_semaphore: &Semaphore,
+    startup_backlog: &mut Option<usize>,
 ) -> ActorStopReason
 where
     A: Actor,
     S: ActorState<A>,
 {
     loop {
-        match state.next(mailbox_rx).await {
+        let signal = match startup_backlog {
+            Some(0) => {
+                *startup_backlog = None;
+                Some(Signal::StartupFinished)
+            }
+            Some(n) => {
+                *n -= 1;
+                state.next(mailbox_rx).await
+            }
+            None => state.next(mailbox_rx).await,
+        };
+        match signal {
             Some(Signal::StartupFinished) => {
                 startup_semaphore.add_permits(Semaphore::MAX_PERMITS);
                 if let ControlFlow::Break(reason) = state.handle_startup_finished().await {
-- 
2.43.0


From b14c713eb48bc51f712ebddb4fc591a6a20b0066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:09 +0000
Subject: [PATCH 09/37] fix: wait_for_startup hangs if the actor ends first

An actor killed or stopped after on_start, but before it got to the end of its
startup in the mailbox, never released those waiting for its startup.
---
 src/actor/spawn.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/actor/spawn.rs b/src/actor/spawn.rs
index 61d3d73..24a7bbf 100644
--- a/src/actor/spawn.rs
+++ b/src/actor/spawn.rs
@@ -505,13 +505,14 @@ where
         abortable_actor_loop(
             &mut state,
             &mut mailbox_rx,
-            startup_semaphore,
+            startup_semaphore.clone(),
             startup_backlog,
         ),
         abort_registration,
     )
     .await
     .unwrap_or(ActorStopReason::Killed);
+    startup_semaphore.close();
 
     let mut actor = state.shutdown().await;
 
-- 
2.43.0


From 0f6204f585cd3211ee4a00582084844f7b8eb46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:10 +0000
Subject: [PATCH 10/37] fix: links are not notified when on_start fails

A failed start had its own copy of the shutdown sequence, without the link
notifications and remote deregistration.
---
 src/actor/spawn.rs | 73 +++++++++++++++++-----------------------------
 1 file changed, 26 insertions(+), 47 deletions(-)

diff --git a/src/actor/spawn.rs b/src/actor/spawn.rs
index 24a7bbf..9cae7b0 100644
--- a/src/actor/spawn.rs
+++ b/src/actor/spawn.rs
@@ -464,55 +464,34 @@ where
         (weak_actor_ref, actor_ref.links, actor_ref.startup_semaphore)
     };
 
-    if let Err(err) = start_res {
-        startup_semaphore.add_permits(Semaphore::MAX_PERMITS);
-        let reason = ActorStopReason::Panicked(err);
-        let mut state = S::new_from_actor(actor, actor_ref.clone());
-        let reason = state
-            .on_shutdown(reason.clone())
-            .await
-            .break_value()
-            .unwrap_or(reason);
-        let mut actor = state.shutdown().await;
-        let on_stop_res = actor.on_stop(actor_ref.clone(), reason.clone()).await;
-        match on_stop_res {
-            Ok(()) => {
-                if let Some(actor_ref) = actor_ref.upgrade() {
-                    actor_ref
-                        .shutdown_error
-                        .set(None)
-                        .expect("nothing else should set the shutdown error");
-                }
-            }
-            Err(err) => {
-                let err = PanicError::new(Box::new(err));
-                invoke_actor_error_hook(&err);
-                if let Some(actor_ref) = actor_ref.upgrade() {
-                    actor_ref
-                        .shutdown_error
-                        .set(Some(err))
-                        .expect("nothing else should set the shutdown error");
-                }
-            }
-        }
-        log_actor_stop_reason(id, name, &reason);
-        return (actor, reason);
-    }
-
     let mut state = S::new_from_actor(actor, actor_ref.clone());
 
-    let reason = Abortable::new(
-        abortable_actor_loop(
-            &mut state,
-            &mut mailbox_rx,
-            startup_semaphore.clone(),
-            startup_backlog,
-        ),
-        abort_registration,
-    )
-    .await
-    .unwrap_or(ActorStopReason::Killed);
-    startup_semaphore.close();
+    let reason = match start_res {
+        Ok(()) => {
+            let reason = Abortable::new(
+                abortable_actor_loop(
+                    &mut state,
+                    &mut mailbox_rx,
+                    startup_semaphore.clone(),
+                    startup_backlog,
+                ),
+                abort_registration,
+            )
+            .await
+            .unwrap_or(ActorStopReason::Killed);
+            startup_semaphore.close();
+            reason
+        }
+        Err(err) => {
+            startup_semaphore.add_permits(Semaphore::MAX_PERMITS);
+            let reason = ActorStopReason::Panicked(err);
+            state
+                .on_shutdown(reason.clone())
+                .await
+                .break_value()
+                .unwrap_or(reason)
+        }
+    };
 
     let mut actor = state.shutdown().await;
 
-- 
2.43.0


From b31362a74ed7f3bd63ce5144c082225c745b74e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:11 +0000
Subject: [PATCH 11/37] fix: a panic in on_panic or on_stop skips the rest of
 the shutdown

It unwound the actor's task: linked actors were never told of the death, on_stop
was not called after a panicking on_panic, and no shutdown result was set.
---
 src/actor/kind.rs  | 14 ++++++++++----
 src/actor/spawn.rs |  8 ++++++--
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/actor/kind.rs b/src/actor/kind.rs
index de9eef8..9718c32 100644
--- a/src/actor/kind.rs
+++ b/src/actor/kind.rs
@@ -163,12 +163,18 @@ where
             ActorStopReason::Normal => ControlFlow::Break(ActorStopReason::Normal),
             ActorStopReason::Killed => ControlFlow::Break(ActorStopReason::Killed),
             ActorStopReason::Panicked(err) => {
-                match self.state.on_panic(self.actor_ref.clone(), err).await {
-                    Ok(ControlFlow::Continue(())) => ControlFlow::Continue(()),
-                    Ok(ControlFlow::Break(reason)) => ControlFlow::Break(reason),
-                    Err(err) => ControlFlow::Break(ActorStopReason::Panicked(PanicError::new(
+                let res = AssertUnwindSafe(self.state.on_panic(self.actor_ref.clone(), err))
+                    .catch_unwind()
+                    .await;
+                match res {
+                    Ok(Ok(ControlFlow::Continue(()))) => ControlFlow::Continue(()),
+                    Ok(Ok(ControlFlow::Break(reason))) => ControlFlow::Break(reason),
+                    Ok(Err(err)) => ControlFlow::Break(ActorStopReason::Panicked(PanicError::new(
                         Box::new(err),
                     ))),
+                    Err(err) => ControlFlow::Break(ActorStopReason::Panicked(
+                        PanicError::new_from_panic_any(err),
+                    )),
                 }
             }
             ActorStopReason::LinkDied { id, reason } => {
diff --git a/src/actor/spawn.rs b/src/actor/spawn.rs
index 9cae7b0..3d09620 100644
--- a/src/actor/spawn.rs
+++ b/src/actor/spawn.rs
@@ -540,7 +540,12 @@ where
         }
     }
 
-    let on_stop_res = actor.on_stop(actor_ref.clone(), reason.clone()).await;
+    let on_stop_res = AssertUnwindSafe(actor.on_stop(actor_ref.clone(), reason.clone()))
+        .catch_unwind()
+        .await
+        .map(|res| res.map_err(|err| PanicError::new(Box::new(err))))
+        .map_err(PanicError::new_from_panic_any)
+        .and_then(convert::identity);
     log_actor_stop_reason(id, name, &reason);
 
     while let Some(()) = link_notification_futures.next().await {}
@@ -557,7 +562,6 @@ where
             }
         }
         Err(err) => {
-            let err = PanicError::new(Box::new(err));
             invoke_actor_error_hook(&err);
             if let Some(actor_ref) = actor_ref.upgrade() {
                 actor_ref
-- 
2.43.0


From ad7dc1c796d9e867c262aaff4a839810bdae7cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:11 +0000
Subject: [PATCH 12/37] fix: linked actors with full mailboxes deadlock when
 they stop together

Each waited for room in the other's mailbox to tell it of its death, while
neither was receiving any more.
---
 src/actor/spawn.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/actor/spawn.rs b/src/actor/spawn.rs
index 3d09620..5da946e 100644
--- a/src/actor/spawn.rs
+++ b/src/actor/spawn.rs
@@ -548,7 +548,18 @@ where
         .and_then(convert::identity);
     log_actor_stop_reason(id, name, &reason);
 
-    while let Some(()) = link_notification_futures.next().await {}
+    // Make room in our own mailbox while notifying: a linked actor may itself be waiting to send to it
+    loop {
+        tokio::select! {
+            biased;
+            notified = link_notification_futures.next() => {
+                if notified.is_none() {
+                    break;
+                }
+            }
+            Some(_) = mailbox_rx.recv() => {}
+        }
+    }
     #[cfg(feature = "remote")]
     remote::REMOTE_REGISTRY.lock().await.remove(&id);
 
-- 
2.43.0


From b76186d33c63e7532a3eac42324828187f9b0509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:12 +0000
Subject: [PATCH 13/37] fix: messages received during startup are lost when one
 of them fails

The buffered messages after a failing one were dropped, even when on_panic let
the actor continue; so was a stop request that was being handled.
---
 src/actor/kind.rs  | 27 +++++++++++++++++++++------
 src/actor/spawn.rs |  3 +++
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/actor/kind.rs b/src/actor/kind.rs
index 9718c32..576cd08 100644
--- a/src/actor/kind.rs
+++ b/src/actor/kind.rs
@@ -1,4 +1,4 @@
-use std::{collections::VecDeque, mem, ops::ControlFlow, panic::AssertUnwindSafe};
+use std::{collections::VecDeque, ops::ControlFlow, panic::AssertUnwindSafe};
 
 use futures::{Future, FutureExt};
 
@@ -24,6 +24,9 @@ pub(crate) trait ActorState<A: Actor>: Sized {
         &mut self,
     ) -> impl Future<Output = ControlFlow<ActorStopReason>> + Send;
 
+    /// Continues with what a failed message interrupted.
+    fn resume(&mut self) -> impl Future<Output = ControlFlow<ActorStopReason>> + Send;
+
     fn handle_message(
         &mut self,
         message: BoxMessage<A>,
@@ -52,6 +55,7 @@ pub(crate) struct ActorBehaviour<A: Actor> {
     actor_ref: WeakActorRef<A>,
     state: A,
     finished_startup: bool,
+    stopping: bool,
     startup_buffer: VecDeque<Signal<A>>,
 }
 
@@ -65,6 +69,7 @@ where
             actor_ref,
             state: actor,
             finished_startup: false,
+            stopping: false,
             startup_buffer: VecDeque::new(),
         }
     }
@@ -75,7 +80,7 @@ where
 
     async fn handle_startup_finished(&mut self) -> ControlFlow<ActorStopReason> {
         self.finished_startup = true;
-        for signal in mem::take(&mut self.startup_buffer).drain(..) {
+        while let Some(signal) = self.startup_buffer.pop_front() {
             match signal {
                 Signal::Message {
                     message,
@@ -90,9 +95,21 @@ where
             }
         }
 
+        if self.stopping {
+            return ControlFlow::Break(ActorStopReason::Normal);
+        }
+
         ControlFlow::Continue(())
     }
 
+    async fn resume(&mut self) -> ControlFlow<ActorStopReason> {
+        if self.finished_startup {
+            self.handle_startup_finished().await
+        } else {
+            ControlFlow::Continue(())
+        }
+    }
+
     #[inline]
     async fn handle_message(
         &mut self,
@@ -151,10 +168,8 @@ where
 
     #[inline]
     async fn handle_stop(&mut self) -> ControlFlow<ActorStopReason> {
-        match self.handle_startup_finished().await {
-            ControlFlow::Continue(_) => ControlFlow::Break(ActorStopReason::Normal),
-            ControlFlow::Break(reason) => ControlFlow::Break(reason),
-        }
+        self.stopping = true;
+        self.handle_startup_finished().await
     }
 
     #[inline]
diff --git a/src/actor/spawn.rs b/src/actor/spawn.rs
index 5da946e..bbe3233 100644
--- a/src/actor/spawn.rs
+++ b/src/actor/spawn.rs
@@ -615,6 +615,9 @@ where
     A: Actor,
     S: ActorState<A>,
 {
+    if let ControlFlow::Break(reason) = state.resume().await {
+        return reason;
+    }
     loop {
         let signal = match startup_backlog {
             Some(0) => {
-- 
2.43.0


From 33fb18cc6b2a832050b8b9e6fc6356871ae77ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:13 +0000
Subject: [PATCH 14/37] fix: actors run with PreparedActor::run don't know
 themselves

is_current was false inside them, so messages they sent themselves during
on_start were not handled first.
---
 src/actor/spawn.rs | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/actor/spawn.rs b/src/actor/spawn.rs
index bbe3233..c4abbd9 100644
--- a/src/actor/spawn.rs
+++ b/src/actor/spawn.rs
@@ -365,13 +365,17 @@ impl<A: Actor> PreparedActor<A> {
     /// # });
     /// ```
     pub async fn run(self, actor: A) -> (A, ActorStopReason) {
-        run_actor_lifecycle::<A, ActorBehaviour<A>>(
-            actor,
-            self.actor_ref,
-            self.mailbox_rx,
-            self.abort_registration,
-        )
-        .await
+        CURRENT_ACTOR_ID
+            .scope(
+                self.actor_ref.id(),
+                run_actor_lifecycle::<A, ActorBehaviour<A>>(
+                    actor,
+                    self.actor_ref,
+                    self.mailbox_rx,
+                    self.abort_registration,
+                ),
+            )
+            .await
     }
 
     /// Spawns the actor in a new background tokio task, returning the `JoinHandle`.
@@ -380,14 +384,14 @@ impl<A: Actor> PreparedActor<A> {
     pub fn spawn(self, actor: A) -> JoinHandle<(A, ActorStopReason)> {
         #[cfg(not(all(tokio_unstable, feature = "tracing")))]
         {
-            tokio::spawn(CURRENT_ACTOR_ID.scope(self.actor_ref.id(), self.run(actor)))
+            tokio::spawn(self.run(actor))
         }
 
         #[cfg(all(tokio_unstable, feature = "tracing"))]
         {
             tokio::task::Builder::new()
                 .name(A::name())
-                .spawn(CURRENT_ACTOR_ID.scope(self.actor_ref.id(), self.run(actor)))
+                .spawn(self.run(actor))
                 .unwrap()
         }
     }
@@ -403,10 +407,7 @@ impl<A: Actor> PreparedActor<A> {
 
         std::thread::Builder::new()
             .name(A::name().to_string())
-            .spawn({
-                let actor_ref = self.actor_ref.clone();
-                move || handle.block_on(CURRENT_ACTOR_ID.scope(actor_ref.id(), self.run(actor)))
-            })
+            .spawn(move || handle.block_on(self.run(actor)))
             .unwrap()
     }
 }
-- 
2.43.0


From 11d59482edf27a99c6f152e598dca310132d4447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:54 +0000
Subject: [PATCH 15/37] fix: actors never stop when their last reference is
 dropped

---
 src/actor/spawn.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/actor/spawn.rs b/src/actor/spawn.rs
index c4abbd9..5045946 100644
--- a/src/actor/spawn.rs
+++ b/src/actor/spawn.rs
@@ -462,7 +462,11 @@ where
     let (actor_ref, links, startup_semaphore) = {
         // Downgrade actor ref
         let weak_actor_ref = actor_ref.downgrade();
-        (weak_actor_ref, actor_ref.links, actor_ref.startup_semaphore)
+        let links = actor_ref.links.clone();
+        let startup_semaphore = actor_ref.startup_semaphore.clone();
+        // All of it, so that the mailbox closes once nobody else refers to the actor
+        drop(actor_ref);
+        (weak_actor_ref, links, startup_semaphore)
     };
 
     let mut state = S::new_from_actor(actor, actor_ref.clone());
-- 
2.43.0


From a0d5fc32d966d0514ae3c760ae0cafb6172792e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:54 +0000
Subject: [PATCH 16/37] fix: startup waiters wait for the whole life of an
 actor stopped during startup

---
 src/actor/spawn.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/actor/spawn.rs b/src/actor/spawn.rs
index 5045946..2c6c151 100644
--- a/src/actor/spawn.rs
+++ b/src/actor/spawn.rs
@@ -661,6 +661,8 @@ where
                 }
             }
             Some(Signal::Stop) | None => {
+                // Nobody should still wait for the startup while the remaining messages are handled
+                startup_semaphore.close();
                 if let ControlFlow::Break(reason) = state.handle_stop().await {
                     return reason;
                 }
-- 
2.43.0


From 08dd4505681b9fac6ac9f6cf964aa02862ed52d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:04 +0000
Subject: [PATCH 17/37] fix: a request racing with the end of its actor waits
 forever

---
 src/actor/spawn.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/actor/spawn.rs b/src/actor/spawn.rs
index 2c6c151..dfb9364 100644
--- a/src/actor/spawn.rs
+++ b/src/actor/spawn.rs
@@ -588,6 +588,11 @@ where
         }
     }
 
+    // Dropping the receiver would miss signals which are just being sent, and their senders may hold the
+    // mailbox open while waiting for an answer to them
+    mailbox_rx.close();
+    while mailbox_rx.recv().await.is_some() {}
+
     (actor, reason)
 }
 
-- 
2.43.0


From 33a56076df99ae399cc6655308b2d90fe7cf8804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:31 +0000
Subject: [PATCH 18/37] fix: asking through two forwards panics if the handler
 fails

---
 src/reply.rs | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/src/reply.rs b/src/reply.rs
index 75d8d10..ab9b6ba 100644
--- a/src/reply.rs
+++ b/src/reply.rs
@@ -292,18 +292,10 @@ where
         *ok.downcast().unwrap()
     }
 
-    /// The error is either from the inner `R`, or our outer `SendError`.
-    /// We'll try both.
+    /// The error is either our outer `SendError`, or from the inner `R`, which might have been forwarded itself.
     fn downcast_err<N: 'static>(err: BoxSendError) -> SendError<N, Self::Error> {
-        err.try_downcast::<N, R::Error>()
-            .map(|err| err.map_err(SendError::HandlerError))
-            .unwrap_or_else(|err| {
-                err.downcast::<M, SendError<M, R::Error>>().map_msg(|_| {
-                    unreachable!(
-                        "forwarded reply is only an error if it failed to forward the message"
-                    )
-                })
-            })
+        err.try_downcast::<N, SendError<M, R::Error>>()
+            .unwrap_or_else(|err| R::downcast_err::<N>(err).map_err(SendError::HandlerError))
     }
 }
 
-- 
2.43.0


From 65df904f46a29780a5c4c1aac535f6ecb695749b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:34 +0000
Subject: [PATCH 19/37] fix: asking a pool panics if the job fails

The worker replies with the whole result of its own request, so the error
to downcast is a SendError, not the error of the job.
---
 actors/src/pool.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/actors/src/pool.rs b/actors/src/pool.rs
index d53def0..8a16f63 100644
--- a/actors/src/pool.rs
+++ b/actors/src/pool.rs
@@ -41,6 +41,7 @@
 //! ```
 
 use std::{
+    any::Any,
     fmt,
     ops::ControlFlow,
     sync::{Arc, Weak},
@@ -50,7 +51,11 @@ use futures::{
     Future, FutureExt, TryFutureExt,
     future::{BoxFuture, join_all},
 };
-use kameo::{actor::spawn_with_mailbox, error::Infallible, prelude::*};
+use kameo::{
+    actor::spawn_with_mailbox,
+    error::{BoxSendError, Infallible},
+    prelude::*,
+};
 
 enum Factory<A: Actor> {
     Sync(Box<dyn FnMut() -> ActorRef<A> + Send + Sync + 'static>),
@@ -295,6 +300,21 @@ where
     fn into_value(self) -> Self::Value {
         unimplemented!("a WorkerReply cannot be converted to a value and is only a marker type")
     }
+
+    fn downcast_err<N: 'static>(err: BoxSendError) -> SendError<N, Self::Error> {
+        // The worker replies with the whole result of its own request
+        match err.downcast::<N, SendError<M, Self::Error>>() {
+            SendError::HandlerError(SendError::HandlerError(err)) => SendError::HandlerError(err),
+            SendError::HandlerError(SendError::ActorNotRunning(msg)) => {
+                match (Box::new(Dispatch(msg)) as Box<dyn Any>).downcast() {
+                    Ok(msg) => SendError::ActorNotRunning(*msg),
+                    Err(_) => SendError::ActorStopped,
+                }
+            }
+            SendError::HandlerError(_) => SendError::ActorStopped,
+            err => err.map_err(|_| unreachable!("handler errors are handled above")),
+        }
+    }
 }
 
 /// A message to be handled by a worker in an actor pool.
-- 
2.43.0


From b12ae0576c85d8200b5bba2930644e8f6ba2c778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:34 +0000
Subject: [PATCH 20/37] fix: creating a pool panics if a worker's mailbox is
 full

The mailbox in front of a worker took the worker's remaining capacity, which
may be zero.
---
 actors/src/pool.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/actors/src/pool.rs b/actors/src/pool.rs
index 8a16f63..25bc3ea 100644
--- a/actors/src/pool.rs
+++ b/actors/src/pool.rs
@@ -111,7 +111,7 @@ where
                     actor_ref: factory(),
                 };
                 let mailbox = match worker.actor_ref.mailbox_sender() {
-                    MailboxSender::Bounded(tx) => mailbox::bounded(tx.capacity()),
+                    MailboxSender::Bounded(tx) => mailbox::bounded(tx.max_capacity()),
                     MailboxSender::Unbounded(_) => mailbox::unbounded(),
                 };
                 (spawn_with_mailbox(worker, mailbox), Arc::new(()))
@@ -140,7 +140,7 @@ where
             FutureExt::map(factory(), |actor_ref| {
                 let worker = Worker { actor_ref };
                 let mailbox = match worker.actor_ref.mailbox_sender() {
-                    MailboxSender::Bounded(tx) => mailbox::bounded(tx.capacity()),
+                    MailboxSender::Bounded(tx) => mailbox::bounded(tx.max_capacity()),
                     MailboxSender::Unbounded(_) => mailbox::unbounded(),
                 };
                 (spawn_with_mailbox(worker, mailbox), Arc::new(()))
@@ -207,7 +207,7 @@ where
             Factory::Sync(f) => {
                 let worker = Worker { actor_ref: f() };
                 let mailbox = match worker.actor_ref.mailbox_sender() {
-                    MailboxSender::Bounded(tx) => mailbox::bounded(tx.capacity()),
+                    MailboxSender::Bounded(tx) => mailbox::bounded(tx.max_capacity()),
                     MailboxSender::Unbounded(_) => mailbox::unbounded(),
                 };
                 (spawn_with_mailbox(worker, mailbox), Arc::new(()))
@@ -217,7 +217,7 @@ where
                     actor_ref: f().await,
                 };
                 let mailbox = match worker.actor_ref.mailbox_sender() {
-                    MailboxSender::Bounded(tx) => mailbox::bounded(tx.capacity()),
+                    MailboxSender::Bounded(tx) => mailbox::bounded(tx.max_capacity()),
                     MailboxSender::Unbounded(_) => mailbox::unbounded(),
                 };
                 (spawn_with_mailbox(worker, mailbox), Arc::new(()))
-- 
2.43.0


From bf7b29009596c66fbb4b03f300219cee7b3b013b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:16 +0000
Subject: [PATCH 21/37] fix: the pool never replaces a worker whose actor
 stopped

Only the wrapper in front of the actor is linked to the pool. It kept running,
and having no work in progress, took every job just to fail it.
---
 actors/src/pool.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/actors/src/pool.rs b/actors/src/pool.rs
index 25bc3ea..e20a3fa 100644
--- a/actors/src/pool.rs
+++ b/actors/src/pool.rs
@@ -44,16 +44,18 @@ use std::{
     any::Any,
     fmt,
     ops::ControlFlow,
+    pin::pin,
     sync::{Arc, Weak},
 };
 
 use futures::{
     Future, FutureExt, TryFutureExt,
-    future::{BoxFuture, join_all},
+    future::{self, BoxFuture, Either, join_all},
 };
 use kameo::{
     actor::spawn_with_mailbox,
     error::{BoxSendError, Infallible},
+    mailbox::Signal,
     prelude::*,
 };
 
@@ -235,6 +237,20 @@ struct Worker<A: Actor> {
 
 impl<A: Actor> Actor for Worker<A> {
     type Error = Infallible;
+
+    async fn next(
+        &mut self,
+        _actor_ref: WeakActorRef<Self>,
+        mailbox_rx: &mut MailboxReceiver<Self>,
+    ) -> Option<Signal<Self>> {
+        // Stop together with the actor, so that the pool replaces both
+        let stopped = pin!(self.actor_ref.wait_for_shutdown());
+        let signal = pin!(mailbox_rx.recv());
+        match future::select(stopped, signal).await {
+            Either::Left(((), _)) => Some(Signal::Stop),
+            Either::Right((signal, _)) => signal,
+        }
+    }
 }
 
 /// A wrapper type which helps keep track of the load for each worker.
-- 
2.43.0


From 31bbbcad91058897b165d2c727a40a4b2a6f7163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:57 +0000
Subject: [PATCH 22/37] fix: the pool never replaces workers which die before
 it starts

Workers ran before they were linked to the pool, both the first ones and their
replacements.
---
 actors/src/pool.rs | 80 +++++++++++++++++-----------------------------
 1 file changed, 30 insertions(+), 50 deletions(-)

diff --git a/actors/src/pool.rs b/actors/src/pool.rs
index e20a3fa..24235ad 100644
--- a/actors/src/pool.rs
+++ b/actors/src/pool.rs
@@ -42,18 +42,18 @@
 
 use std::{
     any::Any,
-    fmt,
+    fmt, mem,
     ops::ControlFlow,
     pin::pin,
     sync::{Arc, Weak},
 };
 
 use futures::{
-    Future, FutureExt, TryFutureExt,
+    Future, TryFutureExt,
     future::{self, BoxFuture, Either, join_all},
 };
 use kameo::{
-    actor::spawn_with_mailbox,
+    actor::spawn_link_with_mailbox,
     error::{BoxSendError, Infallible},
     mailbox::Signal,
     prelude::*,
@@ -75,6 +75,8 @@ enum Factory<A: Actor> {
 /// The pool can be used either as a standalone object or spawned as an actor. When spawned, tasks can be
 /// sent using the `WorkerMsg` and `BroadcastMsg` messages for individual or broadcast communication with workers.
 pub struct ActorPool<A: Actor> {
+    /// The first actors, until the pool is started and wraps them in workers.
+    actors: Vec<ActorRef<A>>,
     workers: Vec<(ActorRef<Worker<A>>, Arc<()>)>,
     size: usize,
     factory: Factory<A>,
@@ -107,21 +109,11 @@ where
     {
         assert_ne!(size, 0);
 
-        let workers = (0..size)
-            .map(|_| {
-                let worker = Worker {
-                    actor_ref: factory(),
-                };
-                let mailbox = match worker.actor_ref.mailbox_sender() {
-                    MailboxSender::Bounded(tx) => mailbox::bounded(tx.max_capacity()),
-                    MailboxSender::Unbounded(_) => mailbox::unbounded(),
-                };
-                (spawn_with_mailbox(worker, mailbox), Arc::new(()))
-            })
-            .collect();
+        let actors = (0..size).map(|_| factory()).collect();
 
         ActorPool {
-            workers,
+            actors,
+            workers: Vec::with_capacity(size),
             size,
             factory: Factory::Sync(Box::new(factory)),
         }
@@ -138,20 +130,11 @@ where
     {
         assert_ne!(size, 0);
 
-        let workers = join_all((0..size).map(|_| {
-            FutureExt::map(factory(), |actor_ref| {
-                let worker = Worker { actor_ref };
-                let mailbox = match worker.actor_ref.mailbox_sender() {
-                    MailboxSender::Bounded(tx) => mailbox::bounded(tx.max_capacity()),
-                    MailboxSender::Unbounded(_) => mailbox::unbounded(),
-                };
-                (spawn_with_mailbox(worker, mailbox), Arc::new(()))
-            })
-        }))
-        .await;
+        let actors = join_all((0..size).map(|_| factory())).await;
 
         ActorPool {
-            workers,
+            actors,
+            workers: Vec::with_capacity(size),
             size,
             factory: Factory::Async(Box::new(move || {
                 let mut factory = factory.clone();
@@ -180,8 +163,9 @@ where
     }
 
     async fn on_start(&mut self, actor_ref: ActorRef<Self>) -> Result<(), Self::Error> {
-        for (worker, _) in &self.workers {
-            worker.link(&actor_ref).await;
+        for worker in mem::take(&mut self.actors) {
+            let worker = Worker::spawn(worker, &actor_ref).await;
+            self.workers.push((worker, Arc::new(())));
         }
 
         Ok(())
@@ -205,27 +189,12 @@ where
             return Ok(ControlFlow::Continue(()));
         };
 
-        self.workers[i] = match &mut self.factory {
-            Factory::Sync(f) => {
-                let worker = Worker { actor_ref: f() };
-                let mailbox = match worker.actor_ref.mailbox_sender() {
-                    MailboxSender::Bounded(tx) => mailbox::bounded(tx.max_capacity()),
-                    MailboxSender::Unbounded(_) => mailbox::unbounded(),
-                };
-                (spawn_with_mailbox(worker, mailbox), Arc::new(()))
-            }
-            Factory::Async(f) => {
-                let worker = Worker {
-                    actor_ref: f().await,
-                };
-                let mailbox = match worker.actor_ref.mailbox_sender() {
-                    MailboxSender::Bounded(tx) => mailbox::bounded(tx.max_capacity()),
-                    MailboxSender::Unbounded(_) => mailbox::unbounded(),
-                };
-                (spawn_with_mailbox(worker, mailbox), Arc::new(()))
-            }
+        let worker = match &mut self.factory {
+            Factory::Sync(f) => f(),
+            Factory::Async(f) => f().await,
         };
-        self.workers[i].0.link(&actor_ref).await;
+        let worker = Worker::spawn(worker, &actor_ref).await;
+        self.workers[i] = (worker, Arc::new(()));
 
         Ok(ControlFlow::Continue(()))
     }
@@ -235,6 +204,17 @@ struct Worker<A: Actor> {
     actor_ref: ActorRef<A>,
 }
 
+impl<A: Actor> Worker<A> {
+    /// Spawns a worker which is linked to its pool before it runs.
+    async fn spawn(actor_ref: ActorRef<A>, pool: &ActorRef<ActorPool<A>>) -> ActorRef<Self> {
+        let mailbox = match actor_ref.mailbox_sender() {
+            MailboxSender::Bounded(tx) => mailbox::bounded(tx.max_capacity()),
+            MailboxSender::Unbounded(_) => mailbox::unbounded(),
+        };
+        spawn_link_with_mailbox(pool, Worker { actor_ref }, mailbox).await
+    }
+}
+
 impl<A: Actor> Actor for Worker<A> {
     type Error = Infallible;
 
-- 
2.43.0


From 426bd70a537a1c6cb2f983219eb96d5adaf1e70a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:57 +0000
Subject: [PATCH 23/37] fix: a job for a worker which just died stops the pool

The retries picked the same dead worker again, and failing to send the job
was an error of the pool itself. Replace the worker at once instead.
---
 actors/src/pool.rs | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/actors/src/pool.rs b/actors/src/pool.rs
index 24235ad..a00bdb2 100644
--- a/actors/src/pool.rs
+++ b/actors/src/pool.rs
@@ -143,13 +143,23 @@ where
         }
     }
 
-    fn next_worker(&self) -> (&ActorRef<Worker<A>>, Weak<()>) {
+    fn next_worker(&self) -> (usize, Weak<()>) {
         self.workers
             .iter()
-            .min_by_key(|(_, load)| Arc::weak_count(load))
-            .map(|(actor_ref, counter)| (actor_ref, Arc::downgrade(counter)))
+            .enumerate()
+            .min_by_key(|(_, (_, load))| Arc::weak_count(load))
+            .map(|(i, (_, counter))| (i, Arc::downgrade(counter)))
             .expect("ActorPool should have at least one worker")
     }
+
+    async fn replace_worker(&mut self, i: usize, actor_ref: &ActorRef<Self>) {
+        let worker = match &mut self.factory {
+            Factory::Sync(f) => f(),
+            Factory::Async(f) => f().await,
+        };
+        let worker = Worker::spawn(worker, actor_ref).await;
+        self.workers[i] = (worker, Arc::new(()));
+    }
 }
 
 impl<A> Actor for ActorPool<A>
@@ -189,12 +199,7 @@ where
             return Ok(ControlFlow::Continue(()));
         };
 
-        let worker = match &mut self.factory {
-            Factory::Sync(f) => f(),
-            Factory::Async(f) => f().await,
-        };
-        let worker = Worker::spawn(worker, &actor_ref).await;
-        self.workers[i] = (worker, Arc::new(()));
+        self.replace_worker(i, &actor_ref).await;
 
         Ok(ControlFlow::Continue(()))
     }
@@ -331,8 +336,9 @@ where
         ctx: &mut Context<Self, Self::Reply>,
     ) -> Self::Reply {
         let (_, mut reply_sender) = ctx.reply_sender();
-        for _ in 0..self.workers.len() {
-            let (worker, counter) = self.next_worker();
+        loop {
+            let (i, counter) = self.next_worker();
+            let worker = &self.workers[i].0;
             match reply_sender {
                 Some(tx) => {
                     if let Err(err) = worker
@@ -349,6 +355,8 @@ where
                                 "message was forwarded, so the only error should be if the actor is not running"
                             ),
                         }
+                        // Its link died signal is still behind this message
+                        self.replace_worker(i, &ctx.actor_ref()).await;
                         continue;
                     }
 
@@ -365,6 +373,7 @@ where
                                 "message was sent with `tell`, so the only error should be if the actor is not running"
                             ),
                         }
+                        self.replace_worker(i, &ctx.actor_ref()).await;
                         continue;
                     }
 
@@ -372,8 +381,6 @@ where
                 }
             }
         }
-
-        WorkerReply::Err(SendError::ActorNotRunning(msg))
     }
 }
 
-- 
2.43.0


From 428cb85ad7a8116c3a1569829cd8726ed1f02d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:06 +0000
Subject: [PATCH 24/37] hook: statics per node for simulations (cfg kameo_sim)

---
 src/actor/id.rs     |  4 ++++
 src/lib.rs          |  3 +++
 src/remote.rs       |  5 +++++
 src/remote/swarm.rs |  4 ++++
 src/sim.rs          | 48 +++++++++++++++++++++++++++++++++++++++++++++
 5 files changed, 64 insertions(+)
 create mode 100644 src/sim.rs

diff --git a/src/actor/id.rs b/src/actor/id.rs
index 26f3fff..f930051 100644
--- a/src/actor/id.rs
+++ b/src/actor/id.rs
@@ -10,7 +10,11 @@ use crate::error::ActorIDFromBytesError;
 #[cfg(feature = "remote")]
 use crate::remote::ActorSwarm;
 
+#[cfg(not(kameo_sim))]
 static ACTOR_COUNTER: AtomicUsize = AtomicUsize::new(0);
+#[cfg(kameo_sim)]
+static ACTOR_COUNTER: crate::sim::PerNode<AtomicUsize> =
+    crate::sim::PerNode::new(|| AtomicUsize::new(0));
 
 /// A globally unique identifier for an actor within a distributed system.
 ///
diff --git a/src/lib.rs b/src/lib.rs
index 506db82..f3c9ffa 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -4,6 +4,7 @@
 #![warn(rust_2018_idioms)]
 #![warn(missing_debug_implementations)]
 #![deny(unused_must_use)]
+#![allow(unexpected_cfgs)] // kameo_sim
 #![cfg_attr(docsrs, feature(doc_auto_cfg))]
 
 pub mod actor;
@@ -16,6 +17,8 @@ pub mod registry;
 pub mod remote;
 pub mod reply;
 pub mod request;
+#[cfg(kameo_sim)]
+pub mod sim;
 
 pub use actor::{spawn, Actor};
 #[cfg(feature = "macros")]
diff --git a/src/remote.rs b/src/remote.rs
index 547ddde..79d6357 100644
--- a/src/remote.rs
+++ b/src/remote.rs
@@ -73,8 +73,13 @@ mod swarm;
 
 pub use swarm::*;
 
+#[cfg(not(kameo_sim))]
 pub(crate) static REMOTE_REGISTRY: Lazy<Mutex<HashMap<ActorID, RemoteRegistryActorRef>>> =
     Lazy::new(|| Mutex::new(HashMap::new()));
+#[cfg(kameo_sim)]
+pub(crate) static REMOTE_REGISTRY: crate::sim::PerNode<
+    Mutex<HashMap<ActorID, RemoteRegistryActorRef>>,
+> = crate::sim::PerNode::new(|| Mutex::new(HashMap::new()));
 
 pub(crate) struct RemoteRegistryActorRef {
     pub(crate) actor_ref: Box<dyn any::Any + Send + Sync>,
diff --git a/src/remote/swarm.rs b/src/remote/swarm.rs
index 9715833..496aa0c 100644
--- a/src/remote/swarm.rs
+++ b/src/remote/swarm.rs
@@ -30,7 +30,11 @@ use crate::{
 
 use super::{RemoteActor, RemoteRegistryActorRef, REMOTE_REGISTRY};
 
+#[cfg(not(kameo_sim))]
 static ACTOR_SWARM: OnceCell<ActorSwarm> = OnceCell::new();
+#[cfg(kameo_sim)]
+static ACTOR_SWARM: crate::sim::PerNode<OnceCell<ActorSwarm>> =
+    crate::sim::PerNode::new(OnceCell::new);
 
 /// `ActorSwarm` is the core component for remote actors within Kameo.
 ///
diff --git a/src/sim.rs b/src/sim.rs
new file mode 100644
index 0000000..e3f974a
--- /dev/null
+++ b/src/sim.rs
@@ -0,0 +1,48 @@
+//! Statics which belong to a node instead of the process, so that many nodes can be simulated in one process.
+//!
+//! Only compiled with `--cfg kameo_sim`.
+
+use std::{
+    collections::BTreeMap,
+    fmt,
+    ops::Deref,
+    sync::{Mutex, OnceLock},
+};
+
+/// Tells which node is running.
+pub static CURRENT_NODE: OnceLock<fn() -> u64> = OnceLock::new();
+
+/// One value per node.
+pub struct PerNode<T: 'static> {
+    new: fn() -> T,
+    nodes: Mutex<BTreeMap<u64, &'static T>>,
+}
+
+impl<T> PerNode<T> {
+    /// Each node gets its value from `new`.
+    pub const fn new(new: fn() -> T) -> Self {
+        PerNode {
+            new,
+            nodes: Mutex::new(BTreeMap::new()),
+        }
+    }
+}
+
+impl<T> Deref for PerNode<T> {
+    type Target = T;
+
+    fn deref(&self) -> &T {
+        let node = CURRENT_NODE.get().map_or(0, |current| current());
+        self.nodes
+            .lock()
+            .unwrap()
+            .entry(node)
+            .or_insert_with(|| Box::leak(Box::new((self.new)())))
+    }
+}
+
+impl<T> fmt::Debug for PerNode<T> {
+    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        f.debug_struct("PerNode").finish_non_exhaustive()
+    }
+}
-- 
2.43.0


From 81f32137512d2d54bfd156c370beb6487dc67964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:07 +0000
Subject: [PATCH 25/37] fix: requests go to the wrong node depending on
 connected peers

Whether a request is handled locally was decided by whether any peer is
connected. A reference to an actor of this very node failed with a dial
failure as soon as any peer was connected, and one to an actor on a
disconnected node was looked up in the local registry and reported as
not running. Decide by the peer ID the request is for.
---
 src/remote/swarm.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/remote/swarm.rs b/src/remote/swarm.rs
index 496aa0c..3c3ac7b 100644
--- a/src/remote/swarm.rs
+++ b/src/remote/swarm.rs
@@ -623,7 +623,7 @@ impl ActorSwarmHandler {
                 immediate,
                 reply,
             } => {
-                if swarm.network_info().num_peers() == 0 {
+                if &peer_id == swarm.local_peer_id() {
                     tokio::spawn(async move {
                         let result = remote::ask(
                             actor_id,
@@ -661,7 +661,7 @@ impl ActorSwarmHandler {
                 immediate,
                 reply,
             } => {
-                if swarm.network_info().num_peers() == 0 {
+                if &peer_id == swarm.local_peer_id() {
                     tokio::spawn(async move {
                         let result = remote::tell(
                             actor_id,
@@ -700,7 +700,7 @@ impl ActorSwarmHandler {
                 sibbling_remote_id,
                 reply,
             } => {
-                if swarm.network_info().num_peers() == 0 {
+                if sibbling_id.peer_id() == Some(swarm.local_peer_id()) {
                     tokio::spawn(async move {
                         let result = remote::link(
                             sibbling_id,
@@ -730,7 +730,7 @@ impl ActorSwarmHandler {
                 sibbling_remote_id,
                 reply,
             } => {
-                if swarm.network_info().num_peers() == 0 {
+                if sibbling_id.peer_id() == Some(swarm.local_peer_id()) {
                     tokio::spawn(async move {
                         let result =
                             remote::unlink(sibbling_id, sibbling_remote_id, actor_id).await;
@@ -754,7 +754,7 @@ impl ActorSwarmHandler {
                 stop_reason,
                 reply,
             } => {
-                if swarm.network_info().num_peers() == 0 {
+                if notified_actor_id.peer_id() == Some(swarm.local_peer_id()) {
                     tokio::spawn(async move {
                         let result = remote::signal_link_died(
                             dead_actor_id,
-- 
2.43.0


From eae451d85f7b53cc4837b9bb2dadcfeb0daa8f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:29 +0000
Subject: [PATCH 26/37] fix: a malformed or emptied record panics the actor
 swarm

Unregistering a name from another node leaves an empty record behind, on
which a local lookup panicked the task of the swarm: no remote request
was ever answered again. Records which aren't registrations, whichever
peer stored them, did the same or panicked the caller of lookup.
---
 src/remote/swarm.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/remote/swarm.rs b/src/remote/swarm.rs
index 3c3ac7b..824728f 100644
--- a/src/remote/swarm.rs
+++ b/src/remote/swarm.rs
@@ -341,7 +341,8 @@ impl ActorSwarm {
                     let ActorRegistration {
                         actor_id,
                         remote_id,
-                    } = ActorRegistration::from_bytes(&record.value);
+                    } = ActorRegistration::from_bytes(&record.value)
+                        .ok_or(RegistryError::BadActorType)?;
                     if A::REMOTE_ID != remote_id {
                         return Err(RegistryError::BadActorType);
                     }
@@ -579,7 +580,10 @@ impl ActorSwarmHandler {
                 let registration = swarm
                     .behaviour_mut()
                     .kademlia_get_record_local(&key)
-                    .map(|record| ActorRegistration::from_bytes(&record.value).into_owned());
+                    .and_then(|record| {
+                        ActorRegistration::from_bytes(&record.value)
+                            .map(ActorRegistration::into_owned)
+                    });
                 let _ = reply.send(registration);
             }
             SwarmCommand::Register { record, reply } => {
@@ -1218,11 +1222,13 @@ impl<'a> ActorRegistration<'a> {
         bytes
     }
 
-    fn from_bytes(bytes: &'a [u8]) -> Self {
-        let peer_id_bytes_len = u8::from_le_bytes(bytes[..1].try_into().unwrap()) as usize;
-        let actor_id = ActorID::from_bytes(&bytes[1..1 + 8 + peer_id_bytes_len]).unwrap();
-        let remote_id = std::str::from_utf8(&bytes[1 + 8 + peer_id_bytes_len..]).unwrap();
-        ActorRegistration::new(actor_id, Cow::Borrowed(remote_id))
+    /// Returns `None` if the bytes aren't a registration, such as the empty value of an unregistered name.
+    fn from_bytes(bytes: &'a [u8]) -> Option<Self> {
+        let (peer_id_bytes_len, bytes) = bytes.split_first()?;
+        let actor_id_bytes_len = 8 + *peer_id_bytes_len as usize;
+        let actor_id = ActorID::from_bytes(bytes.get(..actor_id_bytes_len)?).ok()?;
+        let remote_id = std::str::from_utf8(&bytes[actor_id_bytes_len..]).ok()?;
+        Some(ActorRegistration::new(actor_id, Cow::Borrowed(remote_id)))
     }
 
     fn into_owned(self) -> ActorRegistration<'static> {
-- 
2.43.0


From 3a097cbaf81102bf145413df3f38531ff5cf207f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:45 +0000
Subject: [PATCH 27/37] fix: ActorID::from_bytes panics on less than 8 bytes

It is meant to return MissingSequenceID, and is given what peers send.
---
 src/actor/id.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/actor/id.rs b/src/actor/id.rs
index f930051..9290828 100644
--- a/src/actor/id.rs
+++ b/src/actor/id.rs
@@ -141,9 +141,10 @@ impl ActorID {
     pub fn from_bytes(bytes: &[u8]) -> Result<Self, ActorIDFromBytesError> {
         // Extract the ID
         let sequence_id = u64::from_le_bytes(
-            bytes[0..8]
-                .try_into()
-                .map_err(|_| ActorIDFromBytesError::MissingSequenceID)?,
+            bytes
+                .get(0..8)
+                .and_then(|bytes| bytes.try_into().ok())
+                .ok_or(ActorIDFromBytesError::MissingSequenceID)?,
         );
 
         // Extract the peer id
-- 
2.43.0


From 6ba7fe3c92f642c4c40f04b3204bc4c4ed4e3e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:02 +0000
Subject: [PATCH 28/37] fix: a full record store panics the actor swarm

Registering or unregistering more names than the local Kademlia store
takes (1024) unwrapped its error in the task of the swarm. The caller
now gets RegistryError::QuorumFailed.
---
 src/remote/swarm.rs | 49 ++++++++++++++++++++++++++++++++-------------
 1 file changed, 35 insertions(+), 14 deletions(-)

diff --git a/src/remote/swarm.rs b/src/remote/swarm.rs
index 824728f..74c632f 100644
--- a/src/remote/swarm.rs
+++ b/src/remote/swarm.rs
@@ -1,5 +1,5 @@
 use core::task;
-use std::{borrow::Cow, collections::HashMap, io, pin, time::Duration};
+use std::{borrow::Cow, collections::HashMap, io, num::NonZero, pin, time::Duration};
 
 use futures::{ready, stream::FuturesUnordered, Future, FutureExt, StreamExt};
 use libp2p::{
@@ -587,19 +587,25 @@ impl ActorSwarmHandler {
                 let _ = reply.send(registration);
             }
             SwarmCommand::Register { record, reply } => {
+                let key = record.key.clone();
                 if swarm.network_info().num_peers() == 0 {
-                    let key = record.key.clone();
-                    swarm
-                        .behaviour_mut()
-                        .kademlia_put_record_local(record)
-                        .unwrap();
-                    let _ = reply.send(Ok(kad::PutRecordOk { key }));
+                    let result = match swarm.behaviour_mut().kademlia_put_record_local(record) {
+                        Ok(()) => Ok(kad::PutRecordOk { key }),
+                        Err(_) => Err(put_record_rejected(key)),
+                    };
+                    let _ = reply.send(result);
                 } else {
-                    let query_id = swarm
+                    match swarm
                         .behaviour_mut()
                         .kademlia_put_record(record, kad::Quorum::One)
-                        .unwrap();
-                    self.put_queries.insert(query_id, reply);
+                    {
+                        Ok(query_id) => {
+                            self.put_queries.insert(query_id, reply);
+                        }
+                        Err(_) => {
+                            let _ = reply.send(Err(put_record_rejected(key)));
+                        }
+                    }
                 }
             }
             SwarmCommand::Unregister { key, reply } => {
@@ -608,12 +614,18 @@ impl ActorSwarmHandler {
                     let _ = reply.send(Ok(kad::PutRecordOk { key }));
                 } else {
                     let record = kad::Record::new(key.clone(), vec![]);
-                    let query_id = swarm
+                    let result = swarm
                         .behaviour_mut()
-                        .kademlia_put_record(record, kad::Quorum::One)
-                        .unwrap();
+                        .kademlia_put_record(record, kad::Quorum::One);
                     swarm.behaviour_mut().kademlia_remove_record(&key);
-                    self.put_queries.insert(query_id, reply);
+                    match result {
+                        Ok(query_id) => {
+                            self.put_queries.insert(query_id, reply);
+                        }
+                        Err(_) => {
+                            let _ = reply.send(Err(put_record_rejected(key)));
+                        }
+                    }
                 }
             }
             SwarmCommand::Ask {
@@ -1004,6 +1016,15 @@ impl ActorSwarmHandler {
     }
 }
 
+/// The local record store, in which a record is stored first, rejected it: it is full.
+fn put_record_rejected(key: kad::RecordKey) -> kad::PutRecordError {
+    kad::PutRecordError::QuorumFailed {
+        key,
+        success: Vec::new(),
+        quorum: NonZero::<usize>::MIN,
+    }
+}
+
 #[derive(Clone, Debug)]
 pub(crate) struct SwarmSender(mpsc::UnboundedSender<SwarmCommand>);
 
-- 
2.43.0


From 4e8529616b0c0f4f5a53fd9c245a0b1fe0413011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:03 +0000
Subject: [PATCH 29/37] fix: a peer is reported disconnected while other
 connections to it remain

Two peers which dial each other at once have several connections, and
the end of any of them told all linked actors that the peer is gone.
---
 src/remote/swarm.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/remote/swarm.rs b/src/remote/swarm.rs
index 74c632f..6560887 100644
--- a/src/remote/swarm.rs
+++ b/src/remote/swarm.rs
@@ -808,6 +808,11 @@ impl ActorSwarmHandler {
         event: ActorSwarmEvent,
     ) {
         match event {
+            ActorSwarmEvent::ConnectionClosed {
+                num_established, ..
+            } if num_established > 0 => {
+                // Other connections to the peer remain
+            }
             ActorSwarmEvent::ConnectionClosed { peer_id, .. } => {
                 tokio::spawn(async move {
                     let mut futures = FuturesUnordered::new();
-- 
2.43.0


From fc1a25314c7012fbfddec57c7f31872f2ce82fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:24 +0000
Subject: [PATCH 30/37] fix: the end of a remotely linked actor is reported
 several times

A remote link stayed in place until the report of its end was handled, so
an actor heard of the same end for every connection closed, and again
when a peer it took for disconnected reported the death over a new
connection. Remove the link while signalling it, and keep what the
handler of the report links anew.
---
 src/actor/kind.rs       |  9 +++++++--
 src/remote/_internal.rs | 11 +++++++++++
 src/remote/swarm.rs     | 29 ++++++++++++++++-------------
 3 files changed, 34 insertions(+), 15 deletions(-)

diff --git a/src/actor/kind.rs b/src/actor/kind.rs
index 576cd08..c55fbbd 100644
--- a/src/actor/kind.rs
+++ b/src/actor/kind.rs
@@ -3,7 +3,7 @@ use std::{collections::VecDeque, ops::ControlFlow, panic::AssertUnwindSafe};
 use futures::{Future, FutureExt};
 
 use crate::{
-    actor::{Actor, ActorRef, WeakActorRef},
+    actor::{Actor, ActorRef, Link, WeakActorRef},
     error::{ActorStopReason, PanicError},
     mailbox::{MailboxReceiver, Signal},
     message::BoxMessage,
@@ -154,7 +154,12 @@ where
         ))
         .catch_unwind()
         .await;
-        self.actor_ref.links.lock().await.remove(&id);
+        // A remote link was removed when its end was signalled, and may be a new one since
+        let mut links = self.actor_ref.links.lock().await;
+        if matches!(links.get(&id), Some(Link::Local(_))) {
+            links.remove(&id);
+        }
+        drop(links);
         match res {
             Ok(Ok(flow)) => flow,
             Ok(Err(err)) => {
diff --git a/src/remote/_internal.rs b/src/remote/_internal.rs
index 5cb8ecc..66f1d0d 100644
--- a/src/remote/_internal.rs
+++ b/src/remote/_internal.rs
@@ -292,6 +292,17 @@ where
             .clone()
     };
 
+    // Not linked anymore: unlinked meanwhile, or already reported since the peer was disconnected
+    if actor_ref
+        .links
+        .lock()
+        .await
+        .remove(&dead_actor_id)
+        .is_none()
+    {
+        return Ok(());
+    }
+
     actor_ref
         .weak_signal_mailbox()
         .signal_link_died(dead_actor_id, stop_reason)
diff --git a/src/remote/swarm.rs b/src/remote/swarm.rs
index 6560887..cf6fd95 100644
--- a/src/remote/swarm.rs
+++ b/src/remote/swarm.rs
@@ -822,20 +822,23 @@ impl ActorSwarmHandler {
                         ..
                     } in REMOTE_REGISTRY.lock().await.values()
                     {
-                        for linked_actor_id in (*links.lock().await).keys() {
-                            if linked_actor_id.peer_id() == Some(&peer_id) {
-                                let signal_mailbox = signal_mailbox.clone();
-                                let linked_actor_id = *linked_actor_id;
-                                futures.push(async move {
-                                    signal_mailbox
-                                        .signal_link_died(
-                                            linked_actor_id,
-                                            ActorStopReason::PeerDisconnected,
-                                        )
-                                        .await
-                                });
+                        // The links are gone with the peer, and mustn't be reported again
+                        links.lock().await.retain(|linked_actor_id, _| {
+                            if linked_actor_id.peer_id() != Some(&peer_id) {
+                                return true;
                             }
-                        }
+                            let signal_mailbox = signal_mailbox.clone();
+                            let linked_actor_id = *linked_actor_id;
+                            futures.push(async move {
+                                signal_mailbox
+                                    .signal_link_died(
+                                        linked_actor_id,
+                                        ActorStopReason::PeerDisconnected,
+                                    )
+                                    .await
+                            });
+                            false
+                        });
                     }
 
                     while (futures.next().await).is_some() {}
-- 
2.43.0


From 7252b460d4ed763ae99051fce4240251bb5fc546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:47 +0000
Subject: [PATCH 31/37] fix: unexpected remote responses are errors instead of
 panics

A peer answering a request with another kind of response made the task
awaiting it panic, including the task of a stopping actor which notifies
its remote links.
---
 src/remote/swarm.rs | 14 +++++++++++---
 src/request/ask.rs  |  2 +-
 src/request/tell.rs |  2 +-
 3 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/remote/swarm.rs b/src/remote/swarm.rs
index cf6fd95..a12307c 100644
--- a/src/remote/swarm.rs
+++ b/src/remote/swarm.rs
@@ -436,7 +436,7 @@ impl ActorSwarm {
             match reply_rx.await {
                 SwarmResponse::Link(result) => result,
                 SwarmResponse::OutboundFailure(err) => Err(err),
-                _ => panic!("got an unexpected swarm response"),
+                _ => Err(unexpected_response()),
             }
         }
     }
@@ -457,7 +457,7 @@ impl ActorSwarm {
             match reply_rx.await {
                 SwarmResponse::Unlink(result) => result,
                 SwarmResponse::OutboundFailure(err) => Err(err),
-                _ => panic!("got an unexpected swarm response"),
+                _ => Err(unexpected_response()),
             }
         }
     }
@@ -483,7 +483,7 @@ impl ActorSwarm {
             match reply_rx.await {
                 SwarmResponse::SignalLinkDied(result) => result,
                 SwarmResponse::OutboundFailure(err) => Err(err),
-                _ => panic!("got an unexpected swarm response"),
+                _ => Err(unexpected_response()),
             }
         }
     }
@@ -1033,6 +1033,14 @@ fn put_record_rejected(key: kad::RecordKey) -> kad::PutRecordError {
     }
 }
 
+/// The peer answered a request with the response to another kind of request.
+pub(crate) fn unexpected_response<E>() -> RemoteSendError<E> {
+    RemoteSendError::Io(Some(io::Error::new(
+        io::ErrorKind::InvalidData,
+        "got an unexpected swarm response",
+    )))
+}
+
 #[derive(Clone, Debug)]
 pub(crate) struct SwarmSender(mpsc::UnboundedSender<SwarmCommand>);
 
diff --git a/src/request/ask.rs b/src/request/ask.rs
index c6ff9e2..cfc7680 100644
--- a/src/request/ask.rs
+++ b/src/request/ask.rs
@@ -882,7 +882,7 @@ where
         remote::SwarmResponse::OutboundFailure(err) => {
             Err(err.map_err(|_| unreachable!("outbound failure doesn't contain handler errors")))
         }
-        _ => panic!("unexpected response"),
+        _ => Err(remote::unexpected_response()),
     }
 }
 
diff --git a/src/request/tell.rs b/src/request/tell.rs
index a65921f..166d203 100644
--- a/src/request/tell.rs
+++ b/src/request/tell.rs
@@ -402,7 +402,7 @@ where
         SwarmResponse::OutboundFailure(err) => {
             Err(err.map_err(|_| unreachable!("outbound failure doesn't contain handler errors")))
         }
-        _ => panic!("unexpected response"),
+        _ => Err(unexpected_response()),
     }
 }
 
-- 
2.43.0


From 18d79ef8a5d1f66a0763063962286d55ce3be19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:06 +0000
Subject: [PATCH 32/37] fix: an actor found by its name takes messages at once

register inserted the actor in the remote registry only after the record
had been stored, so that a peer which found the record before then had its
messages rejected with ActorNotRunning.
---
 src/remote/swarm.rs | 36 +++++++++++++++++-------------------
 1 file changed, 17 insertions(+), 19 deletions(-)

diff --git a/src/remote/swarm.rs b/src/remote/swarm.rs
index a12307c..0b7a40e 100644
--- a/src/remote/swarm.rs
+++ b/src/remote/swarm.rs
@@ -366,28 +366,26 @@ impl ActorSwarm {
     ) -> impl Future<Output = Result<(), RegistryError>> {
         let actor_registration =
             ActorRegistration::new(actor_ref.id(), Cow::Borrowed(A::REMOTE_ID));
-        let reply_rx = self
-            .swarm_tx
-            .send_with_reply(|reply| SwarmCommand::Register {
-                record: kad::Record::new(name.into_bytes(), actor_registration.into_bytes()),
-                reply,
-            });
+        let record = kad::Record::new(name.into_bytes(), actor_registration.into_bytes());
 
+        let swarm_tx = self.swarm_tx.clone();
         async move {
+            // Messages must be able to reach the actor as soon as the record can be found by other peers
+            let signal_mailbox = actor_ref.weak_signal_mailbox();
+            let links = actor_ref.links.clone();
+            REMOTE_REGISTRY.lock().await.insert(
+                actor_ref.id(),
+                RemoteRegistryActorRef {
+                    actor_ref: Box::new(actor_ref),
+                    signal_mailbox,
+                    links,
+                },
+            );
+
+            let reply_rx =
+                swarm_tx.send_with_reply(|reply| SwarmCommand::Register { record, reply });
             match reply_rx.await {
-                Ok(kad::PutRecordOk { .. }) => {
-                    let signal_mailbox = actor_ref.weak_signal_mailbox();
-                    let links = actor_ref.links.clone();
-                    REMOTE_REGISTRY.lock().await.insert(
-                        actor_ref.id(),
-                        RemoteRegistryActorRef {
-                            actor_ref: Box::new(actor_ref),
-                            signal_mailbox,
-                            links,
-                        },
-                    );
-                    Ok(())
-                }
+                Ok(kad::PutRecordOk { .. }) => Ok(()),
                 Err(kad::PutRecordError::QuorumFailed { quorum, .. }) => {
                     Err(RegistryError::QuorumFailed { quorum })
                 }
-- 
2.43.0


From 371778e571fe15733a09a7961ffebecb1e7701bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:54 +0000
Subject: [PATCH 33/37] fix: local actor ids change their hash when the swarm
 is bootstrapped

Ids of local actors spawned before the bootstrap are keys of maps, such as the links of an actor,
which didn't find them anymore afterwards: unlinking had no effect, and linking again led to
the death of an actor being reported twice.
---
 src/actor/id.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/actor/id.rs b/src/actor/id.rs
index 9290828..988b471 100644
--- a/src/actor/id.rs
+++ b/src/actor/id.rs
@@ -247,8 +247,11 @@ impl Eq for PeerIdKind {}
 #[cfg(feature = "remote")]
 impl Hash for PeerIdKind {
     fn hash<H: Hasher>(&self, state: &mut H) {
-        if let Some(peer_id) = self.peer_id() {
-            state.write(&peer_id.to_bytes());
+        // Local ids must keep their hash when the swarm is bootstrapped, since they may be keys by then
+        if let PeerIdKind::PeerId(peer_id) = self {
+            if ActorSwarm::get().map(ActorSwarm::local_peer_id) != Some(peer_id) {
+                state.write(&peer_id.to_bytes());
+            }
         }
     }
 }
-- 
2.43.0


From bdf9a47892f55f50974f584fad89aba2596ad728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:13 +0000
Subject: [PATCH 34/37] fix: a panic in Actor::next skips the rest of the
 actor's life

---
 src/actor/kind.rs  | 17 ++++++++++++++---
 src/actor/spawn.rs | 13 ++++++++++---
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/actor/kind.rs b/src/actor/kind.rs
index c55fbbd..79f50cb 100644
--- a/src/actor/kind.rs
+++ b/src/actor/kind.rs
@@ -18,7 +18,7 @@ pub(crate) trait ActorState<A: Actor>: Sized {
     fn next(
         &mut self,
         mailbox_rx: &mut MailboxReceiver<A>,
-    ) -> impl Future<Output = Option<Signal<A>>> + Send;
+    ) -> impl Future<Output = ControlFlow<ActorStopReason, Option<Signal<A>>>> + Send;
 
     fn handle_startup_finished(
         &mut self,
@@ -74,8 +74,19 @@ where
         }
     }
 
-    async fn next(&mut self, mailbox_rx: &mut MailboxReceiver<A>) -> Option<Signal<A>> {
-        self.state.next(self.actor_ref.clone(), mailbox_rx).await
+    async fn next(
+        &mut self,
+        mailbox_rx: &mut MailboxReceiver<A>,
+    ) -> ControlFlow<ActorStopReason, Option<Signal<A>>> {
+        let res = AssertUnwindSafe(self.state.next(self.actor_ref.clone(), mailbox_rx))
+            .catch_unwind()
+            .await;
+        match res {
+            Ok(signal) => ControlFlow::Continue(signal),
+            Err(err) => ControlFlow::Break(ActorStopReason::Panicked(
+                PanicError::new_from_panic_any(err),
+            )),
+        }
     }
 
     async fn handle_startup_finished(&mut self) -> ControlFlow<ActorStopReason> {
diff --git a/src/actor/spawn.rs b/src/actor/spawn.rs
index dfb9364..7973aa1 100644
--- a/src/actor/spawn.rs
+++ b/src/actor/spawn.rs
@@ -632,14 +632,21 @@ where
         let signal = match startup_backlog {
             Some(0) => {
                 *startup_backlog = None;
-                Some(Signal::StartupFinished)
+                ControlFlow::Continue(Some(Signal::StartupFinished))
             }
             Some(n) => {
-                *n -= 1;
-                state.next(mailbox_rx).await
+                let signal = state.next(mailbox_rx).await;
+                if signal.is_continue() {
+                    *n -= 1;
+                }
+                signal
             }
             None => state.next(mailbox_rx).await,
         };
+        let signal = match signal {
+            ControlFlow::Continue(signal) => signal,
+            ControlFlow::Break(reason) => return reason,
+        };
         match signal {
             Some(Signal::StartupFinished) => {
                 startup_semaphore.add_permits(Semaphore::MAX_PERMITS);
-- 
2.43.0


From 9bee759d799cc92b403a917a06e5a341624bc6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:00 +0000
Subject: [PATCH 35/37] fix: nodes which dial each other without mdns never
 find each other's actors

---
 src/remote/swarm.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/remote/swarm.rs b/src/remote/swarm.rs
index 0b7a40e..03b1bae 100644
--- a/src/remote/swarm.rs
+++ b/src/remote/swarm.rs
@@ -523,6 +523,9 @@ impl ActorSwarmHandler {
                 Some(cmd) = self.cmd_rx.recv() => self.handle_command(swarm, cmd),
                 Some(event) = swarm.next() => {
                     match event {
+                        SwarmEvent::ConnectionEstablished { peer_id, endpoint, .. } => {
+                            self.handle_event(swarm, ActorSwarmEvent::ConnectionEstablished { peer_id, endpoint });
+                        }
                         SwarmEvent::ConnectionClosed { peer_id, connection_id, endpoint, num_established, cause } => {
                             self.handle_event(swarm, ActorSwarmEvent::ConnectionClosed { peer_id, connection_id, endpoint, num_established, cause });
                         }
@@ -565,7 +568,8 @@ impl ActorSwarmHandler {
                 let _ = reply.send(res);
             }
             SwarmCommand::AddPeerAddress { peer_id, addr } => {
-                swarm.add_peer_address(peer_id, addr);
+                swarm.add_peer_address(peer_id, addr.clone());
+                swarm.behaviour_mut().kademlia_add_address(&peer_id, addr);
             }
             SwarmCommand::DisconnectPeerId { peer_id } => {
                 let _ = swarm.disconnect_peer_id(peer_id);
@@ -799,13 +803,19 @@ impl ActorSwarmHandler {
 
     /// Handles a swarm event.
     ///
-    /// ConnectionClosed, Mdns, Kademlia, and RequestResponse events should be handled always.
+    /// ConnectionEstablished, ConnectionClosed, Mdns, Kademlia, and RequestResponse events should be handled always.
     pub fn handle_event<B: SwarmBehaviour>(
         &mut self,
         swarm: &mut Swarm<B>,
         event: ActorSwarmEvent,
     ) {
         match event {
+            ActorSwarmEvent::ConnectionEstablished { peer_id, endpoint } => {
+                // Without mdns, this is how kademlia gets to know its peers
+                swarm
+                    .behaviour_mut()
+                    .kademlia_add_address(&peer_id, endpoint.get_remote_address().clone());
+            }
             ActorSwarmEvent::ConnectionClosed {
                 num_established, ..
             } if num_established > 0 => {
@@ -1540,6 +1550,13 @@ pub use behaviour::*;
 /// An actor swarm event.
 #[derive(Debug)]
 pub enum ActorSwarmEvent {
+    /// A connection to the given peer has been established.
+    ConnectionEstablished {
+        /// Identity of the peer that we have connected to.
+        peer_id: PeerId,
+        /// Endpoint of the connection that has been established.
+        endpoint: ConnectedPoint,
+    },
     /// A connection with the given peer has been closed, possibly as a result of an error.
     ConnectionClosed {
         /// Identity of the peer that we have connected to.
-- 
2.43.0


From 9764fc3014b8e6414b2d262487cb51e5892757b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:41 +0000
Subject: [PATCH 36/37] fix: keep the message of a panic as it is when its
 reason is sent to another node

It was serialized together with the prefix which displaying it adds, once more for each node it passed.
---
 src/error.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index b929257..c706a69 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -779,7 +779,11 @@ impl Serialize for PanicError {
     where
         S: serde::Serializer,
     {
-        serializer.serialize_str(&self.to_string())
+        // The message itself, which is prefixed again when the deserialized error is displayed
+        let s = self
+            .with_str(str::to_string)
+            .unwrap_or_else(|| self.to_string());
+        serializer.serialize_str(&s)
     }
 }
 
-- 
2.43.0


From c5172b5001023a5a503b8b4e0a7de72703541fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:09 +0000
Subject: [PATCH 37/37] fix: local actor ids differ from themselves while the
 swarm is being bootstrapped

Comparing two of them looked up the local peer id twice: when another thread bootstrapped the swarm in
between they were not equal, so that a link could be there twice, or be left behind by an unlink.
---
 src/actor/id.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/actor/id.rs b/src/actor/id.rs
index 988b471..a2c6293 100644
--- a/src/actor/id.rs
+++ b/src/actor/id.rs
@@ -237,7 +237,11 @@ impl PeerIdKind {
 #[cfg(feature = "remote")]
 impl PartialEq for PeerIdKind {
     fn eq(&self, other: &Self) -> bool {
-        self.peer_id() == other.peer_id()
+        match (self, other) {
+            // The swarm may be bootstrapped between looking up the one and the other
+            (PeerIdKind::Local, PeerIdKind::Local) => true,
+            _ => self.peer_id() == other.peer_id(),
+        }
     }
 }
 
-- 
2.43.0

