From e72776b64cb9823dff0e136aba0ace17da0dfa6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:44 +0000
Subject: [PATCH 01/15] fix: dispatch operations by identifier instead of link
 order

Task execution indexed the linkme slice with a per-crate counter, but the
linker gathers slice elements in an unspecified order, so operations spread
over several modules or crates were executed as one another, and an unknown
identifier panicked the worker. Derive a stable identifier and look it up.
---
 paladin-core/src/lib.rs           | 25 +++++++++++++++++++++---
 paladin-core/src/operation/mod.rs |  2 +-
 paladin-core/src/task/mod.rs      | 25 ++++++++++++++++++------
 paladin-opkind-derive/src/lib.rs  | 32 ++++++++++++++++++++-----------
 4 files changed, 63 insertions(+), 21 deletions(-)

diff --git a/paladin-core/src/lib.rs b/paladin-core/src/lib.rs
index 449e4c6..eef2552 100644
--- a/paladin-core/src/lib.rs
+++ b/paladin-core/src/lib.rs
@@ -236,13 +236,32 @@ pub mod __private {
     #[doc(hidden)]
     pub use tracing;
 
+    /// The execution function generated for an operation.
     #[doc(hidden)]
-    #[linkme::distributed_slice]
-    pub static OPERATIONS: [fn(
+    pub type ExecuteFn = fn(
         crate::task::AnyTask,
         abort: crate::AbortSignal,
     ) -> futures::future::BoxFuture<
         'static,
         crate::operation::Result<crate::task::AnyTaskOutput>,
-    >];
+    >;
+
+    /// The execution functions of all the operations linked into the binary,
+    /// in no particular order, paired with the operation's identifier.
+    #[doc(hidden)]
+    #[linkme::distributed_slice]
+    pub static OPERATIONS: [(u64, ExecuteFn)];
+
+    /// Derive an operation's identifier from its path (64-bit FNV-1a).
+    #[doc(hidden)]
+    pub const fn operation_id(path: &str) -> u64 {
+        let bytes = path.as_bytes();
+        let mut hash = 0xcbf2_9ce4_8422_2325_u64;
+        let mut i = 0;
+        while i < bytes.len() {
+            hash = (hash ^ bytes[i] as u64).wrapping_mul(0x0000_0100_0000_01b3);
+            i += 1;
+        }
+        hash
+    }
 }
diff --git a/paladin-core/src/operation/mod.rs b/paladin-core/src/operation/mod.rs
index 3b42609..9b98757 100644
--- a/paladin-core/src/operation/mod.rs
+++ b/paladin-core/src/operation/mod.rs
@@ -103,7 +103,7 @@ use crate::serializer::{Serializable, Serializer};
 /// These will be automatically implemented by the
 /// [`RemoteExecute`](crate::RemoteExecute) derive macro.
 pub trait RemoteExecute {
-    const ID: u8;
+    const ID: u64;
 }
 
 /// An operation that can be performed by a worker.
diff --git a/paladin-core/src/task/mod.rs b/paladin-core/src/task/mod.rs
index 780f81d..782e974 100644
--- a/paladin-core/src/task/mod.rs
+++ b/paladin-core/src/task/mod.rs
@@ -4,15 +4,15 @@
 //! They represent the payloads used to communicate between
 //! [`Runtime`](crate::runtime::Runtime)s and
 //! [`WorkerRuntime`](crate::runtime::WorkerRuntime)s.
-use std::fmt::Debug;
+use std::{collections::HashMap, fmt::Debug, sync::OnceLock};
 
 use anyhow::Result;
 use bytes::Bytes;
 use serde::{Deserialize, Serialize};
 
 use crate::{
-    __private::OPERATIONS,
-    operation::Operation,
+    __private::{ExecuteFn, OPERATIONS},
+    operation::{FatalError, FatalStrategy, Operation},
     serializer::{Serializable, Serializer},
     AbortSignal,
 };
@@ -71,7 +71,7 @@ pub struct AnyTask {
     /// The serialized [`Operation`] to be executed.
     pub op: Bytes,
     /// The unique identifier of the [`Operation`] to be executed.
-    pub operation_id: u8,
+    pub operation_id: u64,
     /// Serialized arguments to the [`Operation`].
     pub input: Bytes,
     /// The [`Serializer`] used to serialize and deserialize the [`Operation`]
@@ -161,11 +161,24 @@ impl AnyTask {
     /// This function is used to execute arbitrary [`Operation`]s. It uses the
     /// [`RemoteExecute::ID`](crate::operation::RemoteExecute::ID) field to
     /// acquire the correct execution pointer from the [`static@OPERATIONS`]
-    /// slice.
+    /// slice. A [`Task`] whose [`Operation`] isn't linked into the executing
+    /// binary results in a fatal error.
     pub async fn remote_execute(
         self,
         abort: AbortSignal,
     ) -> crate::operation::Result<AnyTaskOutput> {
-        OPERATIONS[self.operation_id as usize](self, abort).await
+        static EXECUTE_FNS: OnceLock<HashMap<u64, ExecuteFn>> = OnceLock::new();
+
+        let execute = EXECUTE_FNS
+            .get_or_init(|| OPERATIONS.iter().copied().collect())
+            .get(&self.operation_id)
+            .ok_or_else(|| {
+                FatalError::from_str(
+                    &format!("unknown operation id {}", self.operation_id),
+                    FatalStrategy::Terminate,
+                )
+            })?;
+
+        execute(self, abort).await
     }
 }
diff --git a/paladin-opkind-derive/src/lib.rs b/paladin-opkind-derive/src/lib.rs
index d0de2ca..21f40a3 100644
--- a/paladin-opkind-derive/src/lib.rs
+++ b/paladin-opkind-derive/src/lib.rs
@@ -7,24 +7,25 @@
 //!
 //! # Implementation details
 //!
-//! A globally unique identifier is assigned to each operation. Then, a unique
-//! function that handles deserialization, execution, and re-serialization of
-//! the result is generated for each operation. A pointer to this function is
-//! registered with the distributed slice at the index of the operation's
-//! identifier. This allows execution function to be dereferenced by only the
-//! operation identifier, which is serialized with the task.
+//! A globally unique identifier is assigned to each operation, derived from its
+//! module path and name. Then, a unique function that handles deserialization,
+//! execution, and re-serialization of the result is generated for each
+//! operation. A pointer to this function is registered with the distributed
+//! slice, paired with the operation's identifier. The order in which the linker
+//! gathers the slice is unspecified, so the execution function is looked up by
+//! the operation identifier, which is serialized with the task.
 //!
 //! This scheme allows the tasks sent to workers to be opaque, while still
 //! enabling efficient lookup and execution of the appropriate operation.
 extern crate proc_macro;
 
-use std::sync::atomic::{AtomicU8, Ordering};
+use std::sync::atomic::{AtomicUsize, Ordering};
 
 use proc_macro::TokenStream;
 use quote::quote;
 use syn::{parse_macro_input, Attribute, DeriveInput, Error, Ident, Result};
 
-static OPERATION_ID_COUNTER: AtomicU8 = AtomicU8::new(0);
+static OPERATION_COUNTER: AtomicUsize = AtomicUsize::new(0);
 
 /// Check if the `internal` attribute is present on the derive macro.
 ///
@@ -99,16 +100,25 @@ pub fn operation_derive(input: TokenStream) -> TokenStream {
     let name = &input.ident;
     let generics = &input.generics;
     let (impl_generics, ty_generics, where_clause) = generics.split_for_impl();
-    let operation_id = OPERATION_ID_COUNTER.fetch_add(1, Ordering::SeqCst);
-    let function_name = Ident::new(&format!("__execute_{}", operation_id), name.span());
+    // Distinguishes operations of the same name and module path, which is possible
+    // if they're defined in different function bodies.
+    let index = OPERATION_COUNTER.fetch_add(1, Ordering::SeqCst);
+    let operation_name = format!("::{name}#{index}");
+    let function_name = Ident::new(&format!("__execute_{index}"), name.span());
+    let entry_name = Ident::new(&format!("__OPERATION_{index}"), name.span());
 
     let expanded = quote! {
         impl #impl_generics #paladin_path::operation::RemoteExecute for #name #ty_generics #where_clause {
-            const ID: u8 = #operation_id;
+            const ID: u64 = #paladin_path::__private::operation_id(concat!(module_path!(), #operation_name));
         }
 
         #[#paladin_path::__private::linkme::distributed_slice(#paladin_path::__private::OPERATIONS)]
         #linkme_path_override
+        static #entry_name: (u64, #paladin_path::__private::ExecuteFn) = (
+            <#name as #paladin_path::operation::RemoteExecute>::ID,
+            #function_name,
+        );
+
         fn #function_name(task: #paladin_path::task::AnyTask, abort: #paladin_path::AbortSignal,) -> #paladin_path::__private::futures::future::BoxFuture<
             'static,
             #paladin_path::operation::Result<#paladin_path::task::AnyTaskOutput>
-- 
2.43.0


From d5060087af1d4dd05d92b12352135a9f02405214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:35 +0000
Subject: [PATCH 02/15] fix: complete a fold whose input ends after its last
 combination

The final result is only recognised once the input size is known. When the
end of the input stream was observed after the last combination had been
received, the result stayed queued and the fold never completed.
---
 .../src/directive/indexed_stream/foldable.rs       | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/paladin-core/src/directive/indexed_stream/foldable.rs b/paladin-core/src/directive/indexed_stream/foldable.rs
index ddb5a63..38195a4 100644
--- a/paladin-core/src/directive/indexed_stream/foldable.rs
+++ b/paladin-core/src/directive/indexed_stream/foldable.rs
@@ -223,7 +223,19 @@ impl<'a, A: Send + Sync + 'a, B: Send + 'a> Foldable<'a, B> for IndexedStream<'a
                                 .expect("Expected dispatcher to have a single element at index 0")
                                 .output),
                             // Otherwise, we wait for the result stream to complete.
-                            _ => futures::future::pending().await,
+                            _ => {
+                                // All the results may have been combined before the size was
+                                // known, in which case the final one has been queued and no other
+                                // will follow.
+                                if let Some(result) = dispatcher.dequeue(&0).await {
+                                    if result.is_final(size) {
+                                        return Ok(result.output);
+                                    }
+                                    dispatcher.queue(result).await;
+                                }
+
+                                futures::future::pending().await
+                            }
                         }
                     }
                 }
-- 
2.43.0


From 0bdbcd63a112943bc922c526fc8895df1e2fae60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:20 +0000
Subject: [PATCH 03/15] fix: wake the coordinated receiver when the channel is
 closed

Closing or dropping the sender didn't wake a receiver that was waiting for
the end of the channel, and the last acknowledgement woke the task that had
received the item rather than the one currently polling the receiver, so a
receiver could wait forever on a channel that was closed and drained.
---
 .../coordinated_channel/coordinated_stream.rs | 19 ++++++++-----------
 .../src/channel/coordinated_channel/mod.rs    | 13 ++++++++++++-
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/paladin-core/src/channel/coordinated_channel/coordinated_stream.rs b/paladin-core/src/channel/coordinated_channel/coordinated_stream.rs
index d45ec4f..7503444 100644
--- a/paladin-core/src/channel/coordinated_channel/coordinated_stream.rs
+++ b/paladin-core/src/channel/coordinated_channel/coordinated_stream.rs
@@ -22,7 +22,7 @@ use std::{
         atomic::{AtomicBool, Ordering},
         Arc,
     },
-    task::{Context, Poll, Waker},
+    task::{Context, Poll},
 };
 
 use futures::Stream;
@@ -70,16 +70,14 @@ impl<S: Stream> CoordinatedStream<S> {
 /// handled.
 pub struct CoordinatedAcker {
     state: Arc<ChannelState>,
-    waker: Waker,
     did_ack: AtomicBool,
 }
 
 impl CoordinatedAcker {
     /// Create a new [`CoordinatedAcker`].
-    pub fn new(state: Arc<ChannelState>, waker: Waker) -> Self {
+    pub fn new(state: Arc<ChannelState>) -> Self {
         Self {
             state,
-            waker,
             did_ack: AtomicBool::new(false),
         }
     }
@@ -93,9 +91,7 @@ impl CoordinatedAcker {
             return;
         }
 
-        if self.state.num_pending_sends.fetch_sub(1, Ordering::SeqCst) == 1 {
-            self.waker.wake_by_ref();
-        }
+        self.state.settle();
     }
 
     /// Negative acknowledge the message.
@@ -124,14 +120,15 @@ impl<S: Stream> Stream for CoordinatedStream<S> {
 
     fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
         let this = self.project();
+        // Register before the state is checked, so that no change of it is missed.
+        this.state.receiver.register(cx.waker());
         let item = this.inner.poll_next(cx);
 
         match item {
             // If the inner stream has an item available, return it with an acker.
-            Poll::Ready(Some(item)) => Poll::Ready(Some((
-                item,
-                CoordinatedAcker::new(this.state.clone(), cx.waker().clone()),
-            ))),
+            Poll::Ready(Some(item)) => {
+                Poll::Ready(Some((item, CoordinatedAcker::new(this.state.clone()))))
+            }
             Poll::Pending => {
                 // If the inner stream is pending, check that the channel is closed and there
                 // are no pending sends. If so, return `None` to signal that the
diff --git a/paladin-core/src/channel/coordinated_channel/mod.rs b/paladin-core/src/channel/coordinated_channel/mod.rs
index f88e6ca..1c750ca 100644
--- a/paladin-core/src/channel/coordinated_channel/mod.rs
+++ b/paladin-core/src/channel/coordinated_channel/mod.rs
@@ -17,7 +17,7 @@ use std::sync::{
     Arc,
 };
 
-use futures::Stream;
+use futures::{task::AtomicWaker, Stream};
 
 use self::{coordinated_publisher::CoordinatedPublisher, coordinated_stream::CoordinatedStream};
 use crate::queue::Publisher;
@@ -32,6 +32,8 @@ pub struct ChannelState {
     closed: AtomicBool,
     /// The number of pending sends.
     num_pending_sends: AtomicUsize,
+    /// The task that last polled the receiver.
+    receiver: AtomicWaker,
 }
 
 impl ChannelState {
@@ -47,6 +49,15 @@ impl ChannelState {
         }
 
         self.closed.store(true, Ordering::SeqCst);
+        self.receiver.wake();
+    }
+
+    /// Mark a pending send as settled, and wake the receiver if there are no
+    /// more pending sends.
+    fn settle(&self) {
+        if self.num_pending_sends.fetch_sub(1, Ordering::SeqCst) == 1 {
+            self.receiver.wake();
+        }
     }
 }
 
-- 
2.43.0


From 63e18262445c84550d1a7b0ea27a79b9baeb4e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:40 +0000
Subject: [PATCH 04/15] fix: keep the coordinated channel's count of pending
 sends exact

A publish that raced with a close could be accepted without being awaited by
the receiver, a receiver could read the count before and the closed flag after
a publish and a close, and so end early, and a publish that failed stayed
counted, so that the receiver never ended.
---
 .../coordinated_publisher.rs                    | 17 +++++++++++------
 .../coordinated_channel/coordinated_stream.rs   |  5 +++--
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/paladin-core/src/channel/coordinated_channel/coordinated_publisher.rs b/paladin-core/src/channel/coordinated_channel/coordinated_publisher.rs
index d28535f..b0e3005 100644
--- a/paladin-core/src/channel/coordinated_channel/coordinated_publisher.rs
+++ b/paladin-core/src/channel/coordinated_channel/coordinated_publisher.rs
@@ -54,16 +54,21 @@ where
     Inner: Publisher<T> + Sync,
 {
     async fn publish(&self, payload: &T) -> Result<()> {
+        // Count the send before checking whether the channel is closed. A receiver
+        // that sees the channel closed then also sees all of the sends that preceded
+        // it.
+        self.state.num_pending_sends.fetch_add(1, Ordering::SeqCst);
+
         if self.state.closed.load(Ordering::SeqCst) {
+            self.state.settle();
             return err_closed();
         }
 
-        self.state.num_pending_sends.fetch_add(1, Ordering::SeqCst);
-
-        self.inner
-            .publish(payload)
-            .await
-            .map_err(CoordinatedPublisherError::Inner)?;
+        self.inner.publish(payload).await.map_err(|err| {
+            // Nothing will be received for this send.
+            self.state.settle();
+            CoordinatedPublisherError::Inner(err)
+        })?;
 
         Ok(())
     }
diff --git a/paladin-core/src/channel/coordinated_channel/coordinated_stream.rs b/paladin-core/src/channel/coordinated_channel/coordinated_stream.rs
index 7503444..dcc1756 100644
--- a/paladin-core/src/channel/coordinated_channel/coordinated_stream.rs
+++ b/paladin-core/src/channel/coordinated_channel/coordinated_stream.rs
@@ -133,8 +133,9 @@ impl<S: Stream> Stream for CoordinatedStream<S> {
                 // If the inner stream is pending, check that the channel is closed and there
                 // are no pending sends. If so, return `None` to signal that the
                 // stream has terminated.
-                let num_pending_sends = this.state.num_pending_sends.load(Ordering::SeqCst);
-                if this.state.closed.load(Ordering::SeqCst) && num_pending_sends == 0 {
+                if this.state.closed.load(Ordering::SeqCst)
+                    && this.state.num_pending_sends.load(Ordering::SeqCst) == 0
+                {
                     return Poll::Ready(None);
                 }
 
-- 
2.43.0


From 45ce6b1b66b30856834dc70016abc6cc7b00e4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:41 +0000
Subject: [PATCH 05/15] fix: don't poll a coordinated receiver's inner stream
 after its end

An inner stream that ended while received items were still unacknowledged was
polled again afterwards, which panics for some streams.
---
 .../channel/coordinated_channel/coordinated_stream.rs    | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/paladin-core/src/channel/coordinated_channel/coordinated_stream.rs b/paladin-core/src/channel/coordinated_channel/coordinated_stream.rs
index dcc1756..70f40fa 100644
--- a/paladin-core/src/channel/coordinated_channel/coordinated_stream.rs
+++ b/paladin-core/src/channel/coordinated_channel/coordinated_stream.rs
@@ -25,7 +25,7 @@ use std::{
     task::{Context, Poll},
 };
 
-use futures::Stream;
+use futures::{stream::Fuse, Stream, StreamExt};
 use pin_project::pin_project;
 
 use super::ChannelState;
@@ -51,13 +51,16 @@ use crate::acker::Acker;
 #[pin_project]
 pub struct CoordinatedStream<S: Stream> {
     #[pin]
-    inner: S,
+    inner: Fuse<S>,
     state: Arc<ChannelState>,
 }
 
 impl<S: Stream> CoordinatedStream<S> {
     pub fn new(inner: S, state: Arc<ChannelState>) -> Self {
-        Self { inner, state }
+        Self {
+            inner: inner.fuse(),
+            state,
+        }
     }
 }
 
-- 
2.43.0


From be36e316f21357c8020b336db589013cf9f6b363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:41 +0000
Subject: [PATCH 06/15] fix: an ignored fatal error only affects the failing
 task

A fatal error with the Ignore strategy marked the whole job as terminated on
that worker, which then silently discarded the job's other tasks.
---
 paladin-core/src/runtime/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/paladin-core/src/runtime/mod.rs b/paladin-core/src/runtime/mod.rs
index cdd8f6c..eff6753 100644
--- a/paladin-core/src/runtime/mod.rs
+++ b/paladin-core/src/runtime/mod.rs
@@ -782,7 +782,10 @@ impl WorkerRuntime {
                         }
                         Err(err) => {
                             error!(routing_key = %routing_key, "execution error: {err:?}");
-                            mark_terminated(&terminated_jobs, routing_key.clone());
+                            // An ignored failure only affects the failing task.
+                            if let FatalStrategy::Terminate = err.fatal_strategy() {
+                                mark_terminated(&terminated_jobs, routing_key.clone());
+                            }
 
                             try_join!(
                                 acker.nack(),
-- 
2.43.0


From 69cc25f9b6004b9322cd087af6b9e586ef8d9a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:38 +0000
Subject: [PATCH 07/15] fix: make ContiguousQueue operations atomic

Peeking at a queued value through AtomicCell::as_ptr raced with a concurrent
take of it (undefined behaviour, e.g. use after free), the removal by key that
followed a take could discard a value queued in the meantime, and two
contiguous values queued concurrently could both miss each other. Guard the
values with a lock held for the duration of each operation.
---
 paladin-core/src/contiguous/queue.rs | 89 ++++++++++++----------------
 1 file changed, 37 insertions(+), 52 deletions(-)

diff --git a/paladin-core/src/contiguous/queue.rs b/paladin-core/src/contiguous/queue.rs
index 43144a5..1cd0f85 100644
--- a/paladin-core/src/contiguous/queue.rs
+++ b/paladin-core/src/contiguous/queue.rs
@@ -1,5 +1,7 @@
-use crossbeam::atomic::AtomicCell;
-use crossbeam_skiplist::SkipMap;
+use std::{
+    collections::BTreeMap,
+    sync::{Mutex, MutexGuard, PoisonError},
+};
 
 use super::Contiguous;
 
@@ -8,7 +10,7 @@ use super::Contiguous;
 /// In particular, `ContiguousQueue` provides functions for queueing values and
 /// attempting to acquire adjacent values.
 pub struct ContiguousQueue<T: Contiguous> {
-    values: SkipMap<T::Key, AtomicCell<Option<T>>>,
+    values: Mutex<BTreeMap<T::Key, T>>,
 }
 
 /// Represents the position of a value relative to another value.
@@ -20,9 +22,31 @@ pub enum Position<T> {
 impl<T: Contiguous> ContiguousQueue<T> {
     pub fn new() -> Self {
         Self {
-            values: SkipMap::new(),
+            values: Mutex::default(),
         }
     }
+
+    /// Locks the queued values.
+    fn lock(&self) -> MutexGuard<'_, BTreeMap<T::Key, T>> {
+        self.values.lock().unwrap_or_else(PoisonError::into_inner)
+    }
+
+    /// Removes the value that is contiguous to the provided `next_value`, if
+    /// there is one.
+    fn take_contiguous(values: &mut BTreeMap<T::Key, T>, next_value: &T) -> Option<Position<T>> {
+        let key = *next_value.key();
+        // Check the value immediately greater than the given range.
+        let greater = values.range(key..).next();
+        if let Some((&adjacent_key, _)) = greater.filter(|(_, v)| next_value.is_contiguous(v)) {
+            return values.remove(&adjacent_key).map(Position::Rhs);
+        }
+        // Check the value immediately smaller than the given range.
+        let lesser = values.range(..key).next_back();
+        if let Some((&adjacent_key, _)) = lesser.filter(|(_, v)| next_value.is_contiguous(v)) {
+            return values.remove(&adjacent_key).map(Position::Lhs);
+        }
+        None
+    }
 }
 
 impl<T> ContiguousQueue<T>
@@ -40,45 +64,7 @@ where
     /// Returns the position of the contiguous value relative to `next_value` if
     /// found, otherwise `None`.
     pub fn find_contiguous(&self, next_value: &T) -> Option<Position<T>> {
-        let key = next_value.key();
-        self.values
-            // Check the next_value immediately greater than the given range
-            .range(key..)
-            .next()
-            .and_then(|entry| {
-                let value = entry.value();
-
-                // This is safe because:
-                // 1. We are only reading the value.
-                // 2. crossbeam's Entry ensures that the value is not removed while the lifetime
-                //    is in scope.
-                // 3. AtomicCell::take() is atomic. If another thread attempts to take the value
-                //    only one thread will succeed.
-                match unsafe { &*value.as_ptr() } {
-                    Some(adjacent_value) if next_value.is_contiguous(adjacent_value) => {
-                        let value = value.take()?;
-                        self.values.remove(entry.key());
-                        Some(Position::Rhs(value))
-                    }
-                    _ => None,
-                }
-            })
-            .or_else(|| {
-                // Check the range immediately smaller than the given range by iterating in
-                // reverse
-                self.values.range(..key).next_back().and_then(|entry| {
-                    let value = entry.value();
-
-                    match unsafe { &*value.as_ptr() } {
-                        Some(adjacent_value) if next_value.is_contiguous(adjacent_value) => {
-                            let value = value.take()?;
-                            self.values.remove(entry.key());
-                            Some(Position::Lhs(value))
-                        }
-                        _ => None,
-                    }
-                })
-            })
+        Self::take_contiguous(&mut self.lock(), next_value)
     }
 
     /// Adds the provided value to the queue.
@@ -88,14 +74,13 @@ where
     /// and can be paired later when its contiguous counterpart arrives.
     #[inline]
     pub fn queue(&self, value: T) {
-        self.values
-            .insert(*value.key(), AtomicCell::new(Some(value)));
+        self.lock().insert(*value.key(), value);
     }
 
     /// Removes the value with the given key from the queue.
     #[inline]
     pub fn dequeue(&self, key: &T::Key) -> Option<T> {
-        self.values.remove(key)?.value().take()
+        self.lock().remove(key)
     }
 
     /// Attempts to find a value contiguous to the provided `next_value` and
@@ -104,13 +89,16 @@ where
     /// If a contiguous value is found, it returns the pair. If not, the
     /// `next_value` is queued for future pairing.
     pub fn acquire_contiguous_pair_or_queue(&self, next_value: T) -> Option<(T, T)> {
-        match self.find_contiguous(&next_value) {
+        // The lock is held across both steps, as otherwise two contiguous values could
+        // be queued concurrently without either being paired with the other.
+        let mut values = self.lock();
+        match Self::take_contiguous(&mut values, &next_value) {
             Some(position) => match position {
                 Position::Lhs(contiguous) => Some((contiguous, next_value)),
                 Position::Rhs(contiguous) => Some((next_value, contiguous)),
             },
             None => {
-                self.queue(next_value);
+                values.insert(*next_value.key(), next_value);
                 None
             }
         }
@@ -126,10 +114,7 @@ impl<T: Contiguous> Default for ContiguousQueue<T> {
 impl<T: Contiguous, Iter: IntoIterator<Item = T>> From<Iter> for ContiguousQueue<T> {
     fn from(iter: Iter) -> Self {
         Self {
-            values: iter
-                .into_iter()
-                .map(|x| (*x.key(), AtomicCell::new(Some(x))))
-                .collect(),
+            values: Mutex::new(iter.into_iter().map(|x| (*x.key(), x)).collect()),
         }
     }
 }
-- 
2.43.0


From d1e338d444e8502141e73df685494a6a0d6c2c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:03 +0000
Subject: [PATCH 08/15] fix: don't retry fatal errors

A fatal error (or panic) of a retried operation was retried as if it were
transient, and its strategy was replaced by that of the transient error.
---
 paladin-core/src/operation/error.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/paladin-core/src/operation/error.rs b/paladin-core/src/operation/error.rs
index 7263858..01f9fae 100644
--- a/paladin-core/src/operation/error.rs
+++ b/paladin-core/src/operation/error.rs
@@ -422,10 +422,20 @@ impl OperationError {
                 fatal_strategy,
                 ..
             } => {
+                let f = &f;
+                // A fatal error ends the retries, and is returned unchanged.
+                let f = || async move {
+                    match f().await {
+                        Err(err @ Self::Fatal { .. }) => Ok(Err(err)),
+                        result => result.map(Ok),
+                    }
+                };
                 let result = retry_with_strategy(f, retry_strategy, tracer).await;
-                result.map_err(|err| Self::Fatal {
-                    err: err.into_err(),
-                    strategy: fatal_strategy,
+                result.unwrap_or_else(|err| {
+                    Err(Self::Fatal {
+                        err: err.into_err(),
+                        strategy: fatal_strategy,
+                    })
                 })
             }
             _ => Err(self),
@@ -437,7 +447,8 @@ impl OperationError {
     /// If the error is not a transient error, it is returned unchanged.
     /// If the error is a transient error, it is retried according to the
     /// provided strategy, and if the retry policy is exhausted, the error is
-    /// converted into a fatal error.
+    /// converted into a fatal error. If retrying results in a fatal error, that
+    /// error is returned unchanged, without retrying any further.
     pub async fn retry<O, Fut, F>(self, f: F) -> Result<O>
     where
         Fut: Future<Output = Result<O>>,
@@ -452,7 +463,8 @@ impl OperationError {
     /// If the error is not a transient error, it is returned unchanged.
     /// If the error is a transient error, it is retried according to the
     /// provided strategy, and if the retry policy is exhausted, the error is
-    /// converted into a fatal error.
+    /// converted into a fatal error. If retrying results in a fatal error, that
+    /// error is returned unchanged, without retrying any further.
     pub async fn retry_trace<O, Fut, F, T>(self, f: F, tracer: T) -> Result<O>
     where
         Fut: Future<Output = Result<O>>,
-- 
2.43.0


From 08b09d10fdff201a685c1b9c91bec698a5186c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:21 +0000
Subject: [PATCH 09/15] fix: don't let an abort of a specific job supersede an
 abort of all jobs

The watch channel only retains the latest abort command, so a worker that had
not yet observed an abort-all lost it to a job-specific abort following it.
---
 paladin-core/src/runtime/mod.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/paladin-core/src/runtime/mod.rs b/paladin-core/src/runtime/mod.rs
index eff6753..8364e03 100644
--- a/paladin-core/src/runtime/mod.rs
+++ b/paladin-core/src/runtime/mod.rs
@@ -699,7 +699,15 @@ impl WorkerRuntime {
                             // Mark the job as terminated if it hasn't been already.
                             if mark_terminated(&terminated_jobs, routing_key.clone()) {
                                 // Notify any currently executing task about the termination.
-                                ipc_sig_term_tx.send_replace(routing_key.clone());
+                                // Only the latest notification is retained, so an abort of all
+                                // jobs must not be superseded by one of a specific job.
+                                ipc_sig_term_tx.send_if_modified(|received_key| {
+                                    let modified = received_key != COMMAND_IPC_ABORT_ALL_KEY;
+                                    if modified {
+                                        *received_key = routing_key.clone();
+                                    }
+                                    modified
+                                });
                             }
                         }
                     }
-- 
2.43.0


From 88081f86a4269d3d8f76b616bd18945bd6c3d22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:24 +0000
Subject: [PATCH 10/15] fix: stop a worker loop's background tasks however the
 loop ends

The tasks were only aborted at the end of the loop, and so leaked, along with
the command consumer, when the loop returned an error or was itself aborted,
which is how the in-memory runtime stops its emulated workers.
---
 paladin-core/src/runtime/mod.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/paladin-core/src/runtime/mod.rs b/paladin-core/src/runtime/mod.rs
index 8364e03..280feb9 100644
--- a/paladin-core/src/runtime/mod.rs
+++ b/paladin-core/src/runtime/mod.rs
@@ -670,7 +670,7 @@ impl WorkerRuntime {
         let terminated_jobs: Arc<DashMap<String, Instant>> = Default::default();
 
         // Spawn a task that will periodically clear the terminated jobs map.
-        let reaper = tokio::spawn({
+        let _reaper = AbortOnDrop(tokio::spawn({
             let terminated_jobs = terminated_jobs.clone();
             async move {
                 loop {
@@ -678,7 +678,7 @@ impl WorkerRuntime {
                     tokio::time::sleep(TERMINATION_CLEAR_INTERVAL).await;
                 }
             }
-        });
+        }));
 
         let identifier: String = get_random_routing_key();
 
@@ -689,7 +689,7 @@ impl WorkerRuntime {
         // Spawn a task that will listen for IPC termination signals and mark jobs as
         // terminated.
         let mut command_receiver = self.get_command_ipc_receiver().await?;
-        let remote_command_sig_term_handler = tokio::spawn({
+        let _remote_command_sig_term_handler = AbortOnDrop(tokio::spawn({
             let terminated_jobs = terminated_jobs.clone();
 
             async move {
@@ -713,7 +713,7 @@ impl WorkerRuntime {
                     }
                 }
             }
-        });
+        }));
 
         /// Helper to mark a job as terminated.
         ///
@@ -816,11 +816,17 @@ impl WorkerRuntime {
             }
         }
 
-        remote_command_sig_term_handler.abort();
-        reaper.abort();
-
         Ok(())
     }
 }
 
+/// Aborts the background task when dropped.
+struct AbortOnDrop(JoinHandle<()>);
+
+impl Drop for AbortOnDrop {
+    fn drop(&mut self) {
+        self.0.abort();
+    }
+}
+
 mod dynamic_channel;
-- 
2.43.0


From 59ac51b6aa086c1d450cbb59093e53af1784c393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:25 +0000
Subject: [PATCH 11/15] fix: don't stall an AMQP consumer on a malformed
 message

The message was left unacknowledged, so that with the default prefetch no
other message was delivered, and the consumer returned pending without its
task being woken for the messages (or the end) that followed.
---
 paladin-core/src/queue/amqp.rs | 39 ++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/paladin-core/src/queue/amqp.rs b/paladin-core/src/queue/amqp.rs
index df16277..000f787 100644
--- a/paladin-core/src/queue/amqp.rs
+++ b/paladin-core/src/queue/amqp.rs
@@ -513,25 +513,32 @@ impl<PayloadTarget: Serializable> Stream for AMQPConsumer<PayloadTarget> {
     type Item = (PayloadTarget, AMQPAcker);
 
     fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
-        let this = self.project();
-        match this.inner.poll_next(cx) {
-            Poll::Ready(Some(Ok(delivery))) => {
-                let payload = this.serializer.from_bytes(&delivery.data);
-                match payload {
-                    Ok(payload) => Poll::Ready(Some((payload, AMQPAcker { delivery }))),
-                    Err(err) => {
-                        error!("Error deserializing message, error: {err}");
-                        Poll::Pending
+        let mut this = self.project();
+        loop {
+            match this.inner.as_mut().poll_next(cx) {
+                Poll::Ready(Some(Ok(delivery))) => {
+                    let payload = this.serializer.from_bytes(&delivery.data);
+                    match payload {
+                        Ok(payload) => {
+                            return Poll::Ready(Some((payload, AMQPAcker { delivery })));
+                        }
+                        Err(err) => {
+                            error!("Error deserializing message, error: {err}");
+                            // Discard the message, as it would otherwise remain unacknowledged
+                            // and prevent the delivery of further messages.
+                            tokio::spawn(async move {
+                                _ = delivery.nack(Default::default()).await;
+                            });
+                        }
                     }
                 }
+                Poll::Ready(Some(Err(err))) => {
+                    let err = anyhow::Error::from(err);
+                    error!("Error receiving message, error: {err}",);
+                }
+                Poll::Ready(None) => return Poll::Ready(None),
+                Poll::Pending => return Poll::Pending,
             }
-            Poll::Ready(Some(Err(err))) => {
-                let err = anyhow::Error::from(err);
-                error!("Error receiving message, error: {err}",);
-                Poll::Pending
-            }
-            Poll::Ready(None) => Poll::Ready(None),
-            Poll::Pending => Poll::Pending,
         }
     }
 }
-- 
2.43.0


From 851b2bd2703f15fae3283afda25f55869226abc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:28 +0000
Subject: [PATCH 12/15] fix: deliver AMQP broadcast messages to all consumers

All the consumers of a broadcast queue consumed from one queue bound to its
exchange, so that each message, an abort command in particular, was delivered
to a single one of them. Give every consumer a queue of its own.
---
 paladin-core/src/queue/amqp.rs | 56 ++++++++++++++++++++++------------
 1 file changed, 37 insertions(+), 19 deletions(-)

diff --git a/paladin-core/src/queue/amqp.rs b/paladin-core/src/queue/amqp.rs
index 000f787..15e6337 100644
--- a/paladin-core/src/queue/amqp.rs
+++ b/paladin-core/src/queue/amqp.rs
@@ -203,24 +203,6 @@ impl AMQPConnection {
             )
             .await?;
 
-        self.channel
-            .queue_declare(
-                name,
-                options.into_queue_declare_options(),
-                options.into_declare_arguments(),
-            )
-            .await?;
-
-        self.channel
-            .queue_bind(
-                name,
-                name,
-                "", // Routing key is ignored in fanout exchanges
-                Default::default(),
-                Default::default(),
-            )
-            .await?;
-
         Ok(AMQPQueueHandle {
             channel: self.channel.clone(),
             name: name.to_string(),
@@ -343,6 +325,37 @@ impl AMQPQueueHandle {
         Ok(())
     }
 
+    /// Declare the queue of a single consumer of a broadcast queue.
+    ///
+    /// Messages of a queue are only ever delivered to one of its consumers, so
+    /// each of the consumers gets its own, bound to the broadcast's exchange.
+    async fn declare_broadcast_consumer_queue(&self) -> Result<String> {
+        let queue = self
+            .channel
+            .queue_declare(
+                "", // The broker generates a unique name
+                lapin::options::QueueDeclareOptions {
+                    exclusive: true,
+                    auto_delete: true,
+                    ..Default::default()
+                },
+                Default::default(),
+            )
+            .await?;
+
+        self.channel
+            .queue_bind(
+                queue.name().as_str(),
+                &self.name,
+                "", // Routing key is ignored in fanout exchanges
+                Default::default(),
+                Default::default(),
+            )
+            .await?;
+
+        Ok(queue.name().to_string())
+    }
+
     async fn publish_single<PayloadTarget: Serializable>(
         &self,
         payload: &PayloadTarget,
@@ -483,10 +496,15 @@ impl QueueHandle for AMQPQueueHandle {
         &self,
         consumer_name: &str,
     ) -> Result<Self::Consumer<PayloadTarget>> {
+        let queue_name = match self.options.syndication_mode {
+            SyndicationMode::ExactlyOnce => self.name.clone(),
+            SyndicationMode::Broadcast => self.declare_broadcast_consumer_queue().await?,
+        };
+
         let consumer = self
             .channel
             .basic_consume(
-                &self.name,
+                &queue_name,
                 consumer_name,
                 Default::default(),
                 Default::default(),
-- 
2.43.0


From a9c4e954f01c54eff195fea931ff860d986b7ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:18 +0000
Subject: [PATCH 13/15] fix: stop taking up tasks after an abort of all jobs
 also when idle

A worker that was idle when an abort-all command arrived started executing
the next task it received before it noticed.
---
 paladin-core/src/runtime/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/paladin-core/src/runtime/mod.rs b/paladin-core/src/runtime/mod.rs
index 280feb9..fa79279 100644
--- a/paladin-core/src/runtime/mod.rs
+++ b/paladin-core/src/runtime/mod.rs
@@ -691,11 +691,16 @@ impl WorkerRuntime {
         let mut command_receiver = self.get_command_ipc_receiver().await?;
         let _remote_command_sig_term_handler = AbortOnDrop(tokio::spawn({
             let terminated_jobs = terminated_jobs.clone();
+            let abort_worker_execution = abort_worker_execution.clone();
 
             async move {
                 while let Some(ipc) = command_receiver.next().await {
                     match ipc {
                         CommandIpc::Abort { routing_key } => {
+                            // An idle worker must not take up another task either.
+                            if routing_key == COMMAND_IPC_ABORT_ALL_KEY {
+                                abort_worker_execution.store(true, Ordering::SeqCst);
+                            }
                             // Mark the job as terminated if it hasn't been already.
                             if mark_terminated(&terminated_jobs, routing_key.clone()) {
                                 // Notify any currently executing task about the termination.
-- 
2.43.0


From 28af30b2d46ddfdb22113a7f125f0f0fa866bfbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:53 +0000
Subject: [PATCH 14/15] fix: report panics while decoding a task instead of
 losing the worker

---
 paladin-opkind-derive/src/lib.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/paladin-opkind-derive/src/lib.rs b/paladin-opkind-derive/src/lib.rs
index 21f40a3..b2a0c5d 100644
--- a/paladin-opkind-derive/src/lib.rs
+++ b/paladin-opkind-derive/src/lib.rs
@@ -126,16 +126,18 @@ pub fn operation_derive(input: TokenStream) -> TokenStream {
             Box::pin(async move {
                 // Define the execution logic in a closure so that it can be retried if it fails.
                 let get_result = || async {
-                    // Deserialize the operation.
-                    let op = #name::from_bytes(task.serializer, &task.op)?;
+                    let (serializer, op, input) = (task.serializer, task.op.clone(), task.input.clone());
                     let abort = abort.clone();
 
-                    // Deserialize the input.
-                    let input = op.input_from_bytes(task.serializer, &task.input)?;
-                    #paladin_path::__private::tracing::trace!(operation = %stringify!(#name), input = ?input, "executing operation");
-
                     // Spawn a blocking task to execute the operation.
                     let output = #paladin_path::__private::tokio::task::spawn_blocking(move || {
+                        // Deserialize the operation.
+                        let op = #name::from_bytes(serializer, &op)?;
+
+                        // Deserialize the input.
+                        let input = op.input_from_bytes(serializer, &input)?;
+                        #paladin_path::__private::tracing::trace!(operation = %stringify!(#name), input = ?input, "executing operation");
+
                         // Execute the operation, catching panics.
                         let typed_output = std::panic::catch_unwind(::std::panic::AssertUnwindSafe(||
                             op.execute(input, abort)
@@ -149,7 +151,7 @@ pub fn operation_derive(input: TokenStream) -> TokenStream {
                         #paladin_path::__private::tracing::trace!(operation = %stringify!(#name), output = ?typed_output, "operation executed successfully");
 
                         // Serialize the output.
-                        let serialized_output = op.output_to_bytes(task.serializer, typed_output)?;
+                        let serialized_output = op.output_to_bytes(serializer, typed_output)?;
 
                         Ok(serialized_output) as #paladin_path::operation::Result<#paladin_path::__private::bytes::Bytes>
                     })
-- 
2.43.0


From 425914aa90dcc32fb5f38f7dc8d9d319f3d3886f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:35 +0000
Subject: [PATCH 15/15] fix: acknowledging over a closed AMQP channel hung
 instead of failing

Once the channel is closed, or its connection lost, lapin never completes an
acknowledgement. Refuse it, as there is nothing that could be acknowledged.
---
 paladin-core/src/queue/amqp.rs | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/paladin-core/src/queue/amqp.rs b/paladin-core/src/queue/amqp.rs
index 15e6337..07c3752 100644
--- a/paladin-core/src/queue/amqp.rs
+++ b/paladin-core/src/queue/amqp.rs
@@ -48,7 +48,7 @@ use std::{
     task::{Context, Poll},
 };
 
-use anyhow::Result;
+use anyhow::{ensure, Result};
 use async_trait::async_trait;
 use dashmap::{mapref::entry::Entry, DashMap};
 use futures::Stream;
@@ -513,6 +513,7 @@ impl QueueHandle for AMQPQueueHandle {
 
         Ok(AMQPConsumer {
             inner: consumer,
+            channel_status: self.channel.status().clone(),
             serializer: self.serializer,
             _phantom: std::marker::PhantomData,
         })
@@ -523,6 +524,7 @@ impl QueueHandle for AMQPQueueHandle {
 pub struct AMQPConsumer<PayloadTarget> {
     #[pin]
     inner: lapin::Consumer,
+    channel_status: lapin::ChannelStatus,
     serializer: Serializer,
     _phantom: std::marker::PhantomData<PayloadTarget>,
 }
@@ -538,7 +540,11 @@ impl<PayloadTarget: Serializable> Stream for AMQPConsumer<PayloadTarget> {
                     let payload = this.serializer.from_bytes(&delivery.data);
                     match payload {
                         Ok(payload) => {
-                            return Poll::Ready(Some((payload, AMQPAcker { delivery })));
+                            let acker = AMQPAcker {
+                                delivery,
+                                channel_status: this.channel_status.clone(),
+                            };
+                            return Poll::Ready(Some((payload, acker)));
                         }
                         Err(err) => {
                             error!("Error deserializing message, error: {err}");
@@ -565,15 +571,30 @@ impl<PayloadTarget: Serializable> Stream for AMQPConsumer<PayloadTarget> {
 /// An acker for an AMQP consumer.
 pub struct AMQPAcker {
     delivery: lapin::message::Delivery,
+    channel_status: lapin::ChannelStatus,
+}
+
+impl AMQPAcker {
+    /// Once the channel is closed, or the connection is lost, nothing can be
+    /// acknowledged anymore, and [`lapin`] would never complete the attempt.
+    fn ensure_open(&self) -> Result<()> {
+        ensure!(
+            self.channel_status.connected(),
+            "the channel of the delivery is not open"
+        );
+        Ok(())
+    }
 }
 
 #[async_trait]
 impl Acker for AMQPAcker {
     async fn ack(&self) -> Result<()> {
+        self.ensure_open()?;
         Ok(self.delivery.ack(Default::default()).await?)
     }
 
     async fn nack(&self) -> Result<()> {
+        self.ensure_open()?;
         Ok(self.delivery.nack(Default::default()).await?)
     }
 }
-- 
2.43.0

