From fe721d1ffa13777c834194b7f80d65876b870239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:23 +0000
Subject: [PATCH 01/18] fix: don't trust the lengths of a received event before
 its data arrived

A total length below the header length panicked on the subtraction and a huge
one made the receiver allocate (and abort on) memory nobody sent data for.
---
 src/events/event.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/events/event.rs b/src/events/event.rs
index 2ad6a44..772ae38 100644
--- a/src/events/event.rs
+++ b/src/events/event.rs
@@ -138,7 +138,9 @@ impl Event {
     pub async fn from_async_read<R: AsyncRead + Unpin>(reader: &mut R) -> Result<Self> {
         let total_length = reader.read_u64().await?;
         let header_length = reader.read_u16().await?;
-        let data_length = total_length - header_length as u64;
+        let data_length = total_length
+            .checked_sub(header_length as u64)
+            .ok_or(Error::CorruptedEvent)?;
         tracing::trace!(total_length, header_length, data_length);
 
         let mut header_bytes = vec![0u8; header_length as usize];
@@ -146,8 +148,12 @@ impl Event {
         // additional header fields can be added a the end because when reading they will just be ignored
         let header: EventHeader = EventHeader::from_read(&mut Cursor::new(header_bytes))?;
 
-        let mut buf = vec![0u8; data_length as usize];
-        reader.read_exact(&mut buf).await?;
+        // the length is not trustworthy until that much data was actually received
+        let mut buf = Vec::new();
+        reader.take(data_length).read_to_end(&mut buf).await?;
+        if (buf.len() as u64) < data_length {
+            return Err(Error::CorruptedEvent);
+        }
         let event = Event {
             header,
             data: Bytes::from(buf),
-- 
2.43.0


From a1cc6770d3cc495f076ec72ccffa425c5ace5417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:23 +0000
Subject: [PATCH 02/18] fix: refuse to emit events whose header exceeds the
 format's length fields

The lengths were truncated to 16 bits, which corrupted the connection.
---
 src/events/event.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/events/event.rs b/src/events/event.rs
index 772ae38..6d16bc3 100644
--- a/src/events/event.rs
+++ b/src/events/event.rs
@@ -166,7 +166,9 @@ impl Event {
     #[tracing::instrument(level = "trace", skip(self))]
     pub fn into_bytes(self) -> Result<Bytes> {
         let header_bytes = self.header.into_bytes();
-        let header_length = header_bytes.len() as u16;
+        // all lengths inside of the header are smaller than the length of the header
+        let header_length = u16::try_from(header_bytes.len())
+            .map_err(|_| Error::from("The namespace and name of the event are too long"))?;
         let data_length = self.data.len();
         let total_length = header_length as u64 + data_length as u64;
         tracing::trace!(total_length, header_length, data_length);
-- 
2.43.0


From b362c82cf7be63c350aac637ed2aa0ded2e15c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:51 +0000
Subject: [PATCH 03/18] fix: don't allocate memory for announced but missing
 payload bytes

A corrupt length in a tandem, error or bincode payload aborted the process or
panicked on the allocation instead of yielding an error.
---
 src/events/error_event.rs                     |  5 ++---
 src/events/payload.rs                         | 19 ++++++++++++++-----
 .../payload_serializer/serialize_bincode.rs   |  7 +++++--
 3 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/events/error_event.rs b/src/events/error_event.rs
index 90c78e3..897aedb 100644
--- a/src/events/error_event.rs
+++ b/src/events/error_event.rs
@@ -1,6 +1,6 @@
 use crate::context::Context;
 use crate::error::Result;
-use crate::payload::{FromPayload, IntoPayload};
+use crate::payload::{read_bytes, FromPayload, IntoPayload};
 use crate::prelude::{IPCError, IPCResult};
 use byteorder::{BigEndian, ReadBytesExt};
 use bytes::{BufMut, Bytes, BytesMut};
@@ -44,8 +44,7 @@ impl FromPayload for ErrorEventData {
     fn from_payload<R: Read>(mut reader: R) -> Result<Self> {
         let code = reader.read_u16::<BigEndian>()?;
         let message_len = reader.read_u32::<BigEndian>()?;
-        let mut message_buf = vec![0u8; message_len as usize];
-        reader.read_exact(&mut message_buf)?;
+        let message_buf = read_bytes(&mut reader, message_len as u64)?;
         let message = String::from_utf8(message_buf).map_err(|_| IPCError::CorruptedEvent)?;
 
         Ok(ErrorEventData { code, message })
diff --git a/src/events/payload.rs b/src/events/payload.rs
index 0d70d7f..2ec9645 100644
--- a/src/events/payload.rs
+++ b/src/events/payload.rs
@@ -1,4 +1,4 @@
-use crate::prelude::IPCResult;
+use crate::prelude::{IPCError, IPCResult};
 use byteorder::{BigEndian, ReadBytesExt};
 use bytes::{BufMut, Bytes, BytesMut};
 use std::io::Read;
@@ -115,12 +115,10 @@ impl<P1: IntoPayload, P2: IntoPayload> IntoPayload for TandemPayload<P1, P2> {
 impl<P1: FromPayload, P2: FromPayload> FromPayload for TandemPayload<P1, P2> {
     fn from_payload<R: Read>(mut reader: R) -> IPCResult<Self> {
         let p1_length = reader.read_u64::<BigEndian>()?;
-        let mut load1_bytes = vec![0u8; p1_length as usize];
-        reader.read_exact(&mut load1_bytes)?;
+        let load1_bytes = read_bytes(&mut reader, p1_length)?;
 
         let p2_length = reader.read_u64::<BigEndian>()?;
-        let mut load2_bytes = vec![0u8; p2_length as usize];
-        reader.read_exact(&mut load2_bytes)?;
+        let load2_bytes = read_bytes(&mut reader, p2_length)?;
 
         Ok(Self {
             load1: P1::from_payload(load1_bytes.as_slice())?,
@@ -129,6 +127,17 @@ impl<P1: FromPayload, P2: FromPayload> FromPayload for TandemPayload<P1, P2> {
     }
 }
 
+/// Reads the given number of bytes without allocating memory for bytes that don't exist
+pub(crate) fn read_bytes<R: Read>(reader: &mut R, length: u64) -> IPCResult<Vec<u8>> {
+    let mut bytes = Vec::new();
+    reader.take(length).read_to_end(&mut bytes)?;
+    if (bytes.len() as u64) < length {
+        return Err(IPCError::CorruptedEvent);
+    }
+
+    Ok(bytes)
+}
+
 #[cfg(not(feature = "serialize"))]
 impl IntoPayload for () {
     fn into_payload(self, _: &Context) -> IPCResult<Bytes> {
diff --git a/src/events/payload_serializer/serialize_bincode.rs b/src/events/payload_serializer/serialize_bincode.rs
index afbc75b..61e1818 100644
--- a/src/events/payload_serializer/serialize_bincode.rs
+++ b/src/events/payload_serializer/serialize_bincode.rs
@@ -12,7 +12,10 @@ pub fn serialize<T: Serialize>(data: T) -> SerializationResult<Bytes> {
 }
 
 #[inline]
-pub fn deserialize<R: Read, T: DeserializeOwned>(reader: R) -> SerializationResult<T> {
-    let type_data = bincode::deserialize_from(reader)?;
+pub fn deserialize<R: Read, T: DeserializeOwned>(mut reader: R) -> SerializationResult<T> {
+    let mut buf = Vec::new();
+    // bincode only checks lengths against the available data when reading from a slice
+    reader.read_to_end(&mut buf)?;
+    let type_data = bincode::deserialize(&buf)?;
     Ok(type_data)
 }
-- 
2.43.0


From 0a386e4c1c20f7947c47b260a16d624fecfce107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:51 +0000
Subject: [PATCH 04/18] fix: ignore events of unknown namespaces

They were passed to the global handler of the same name although the
specification says that such events are ignored.
---
 src/ipc/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ipc/mod.rs b/src/ipc/mod.rs
index b663a64..ae5292d 100644
--- a/src/ipc/mod.rs
+++ b/src/ipc/mod.rs
@@ -47,9 +47,13 @@ async fn handle_connection<S: 'static + AsyncProtocolStream>(
             continue;
         }
 
-        if let Some(namespace) = event.namespace().clone().and_then(|n| namespaces.get(&n)) {
+        if let Some(namespace) = event.namespace() {
             tracing::trace!("Passing event to namespace listener");
-            let handler = Arc::clone(&namespace.handler);
+            // events of an unknown namespace must not reach the global handlers
+            let handler = namespaces
+                .get(namespace)
+                .map(|n| Arc::clone(&n.handler))
+                .unwrap_or_default();
             handle_event(Context::clone(&ctx), handler, event);
         } else {
             tracing::trace!("Passing event to global listener");
-- 
2.43.0


From 9f424655cb92584572d66445451548883b8e1c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:51 +0000
Subject: [PATCH 05/18] fix: dispatch replies to abandoned requests like any
 other event

When the receiver of a reply listener was gone the event was always passed to
the global handler, ignoring its namespace, and a dangling end event was
handled and answered.
---
 src/ipc/mod.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/ipc/mod.rs b/src/ipc/mod.rs
index ae5292d..23be5ce 100644
--- a/src/ipc/mod.rs
+++ b/src/ipc/mod.rs
@@ -21,7 +21,7 @@ async fn handle_connection<S: 'static + AsyncProtocolStream>(
     mut read_half: S::OwnedSplitReadHalf,
     ctx: Context,
 ) {
-    while let Ok(event) = Event::from_async_read(&mut read_half).await {
+    while let Ok(mut event) = Event::from_async_read(&mut read_half).await {
         tracing::trace!(
             "event.name = {:?}, event.namespace = {:?}, event.reference_id = {:?}",
             event.name(),
@@ -34,10 +34,11 @@ async fn handle_connection<S: 'static + AsyncProtocolStream>(
             // get the listener for replies
             if let Some(sender) = ctx.get_reply_sender(ref_id).await {
                 // try sending the event to the listener for replies
-                if let Err(event) = sender.send(event).await {
-                    handle_event(Context::clone(&ctx), Arc::clone(&handler), event.0);
+                match sender.send(event).await {
+                    Ok(_) => continue,
+                    // the listener is already gone so it's treated as a regular event
+                    Err(e) => event = e.0,
                 }
-                continue;
             }
             tracing::trace!("No response listener found for event. Passing to regular listener.");
         }
-- 
2.43.0


From ebd677bf810874f5bc348de8f270050f50500e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:51 +0000
Subject: [PATCH 06/18] fix: don't drop the reply listener with the id of a
 handled remote event

Ids of the peer's events are unrelated to our own, so this failed pending
requests whose id happened to be equal to that of a handled event.
---
 src/ipc/mod.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/ipc/mod.rs b/src/ipc/mod.rs
index 23be5ce..2299df5 100644
--- a/src/ipc/mod.rs
+++ b/src/ipc/mod.rs
@@ -67,7 +67,6 @@ async fn handle_connection<S: 'static + AsyncProtocolStream>(
 /// Handles a single event in a different tokio context
 fn handle_event(mut ctx: Context, handler: Arc<EventHandler>, event: Event) {
     ctx.set_ref_id(Some(event.id()));
-    let event_id = event.id();
 
     tokio::spawn(async move {
         match handler.handle_event(&ctx, event).await {
@@ -80,7 +79,6 @@ fn handle_event(mut ctx: Context, handler: Arc<EventHandler>, event: Event) {
                 {
                     tracing::error!("Error occurred when sending error response: {:?}", e);
                 }
-                ctx.reply_listeners.remove(&event_id);
             }
             Err(e) => {
                 // emit an error event
-- 
2.43.0


From a1926c216f021a342b67cc460c6bf8f657ed263a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:39 +0000
Subject: [PATCH 07/18] fix: unregister reply listeners of timed out, failed
 and dropped requests

The listener was only removed after a reply was received, so it leaked in
every other case.
---
 src/ipc/context.rs                            | 34 ++++++++++++++++---
 .../emit_metadata_with_response_stream.rs     |  9 +++--
 2 files changed, 33 insertions(+), 10 deletions(-)

diff --git a/src/ipc/context.rs b/src/ipc/context.rs
index 12f1c56..83d97d3 100644
--- a/src/ipc/context.rs
+++ b/src/ipc/context.rs
@@ -20,6 +20,26 @@ use crate::prelude::Response;
 
 pub(crate) type ReplyListeners = Arc<DashMap<u64, mpsc::Sender<Event>>>;
 
+/// Receives the replies to an event and unregisters itself when dropped
+pub(crate) struct ReplyReceiver {
+    event_id: u64,
+    receiver: Receiver<Event>,
+    reply_listeners: ReplyListeners,
+}
+
+impl ReplyReceiver {
+    #[inline]
+    pub(crate) async fn recv(&mut self) -> Option<Event> {
+        self.receiver.recv().await
+    }
+}
+
+impl Drop for ReplyReceiver {
+    fn drop(&mut self) {
+        self.reply_listeners.remove(&self.event_id);
+    }
+}
+
 /// An object provided to each callback function.
 /// Currently it only holds the event emitter to emit response events in event callbacks.
 /// ```rust
@@ -124,11 +144,15 @@ impl Context {
     /// Registers a reply listener for a given event
     #[inline]
     #[tracing::instrument(level = "debug", skip(self))]
-    pub(crate) async fn register_reply_listener(&self, event_id: u64) -> Result<Receiver<Event>> {
-        let (rx, tx) = mpsc::channel(8);
-        self.reply_listeners.insert(event_id, rx);
-
-        Ok(tx)
+    pub(crate) async fn register_reply_listener(&self, event_id: u64) -> Result<ReplyReceiver> {
+        let (tx, receiver) = mpsc::channel(8);
+        self.reply_listeners.insert(event_id, tx);
+
+        Ok(ReplyReceiver {
+            event_id,
+            receiver,
+            reply_listeners: Arc::clone(&self.reply_listeners),
+        })
     }
 
     /// Stops the listener and closes the connection
diff --git a/src/ipc/stream_emitter/emit_metadata_with_response_stream.rs b/src/ipc/stream_emitter/emit_metadata_with_response_stream.rs
index d90d40b..1949ab3 100644
--- a/src/ipc/stream_emitter/emit_metadata_with_response_stream.rs
+++ b/src/ipc/stream_emitter/emit_metadata_with_response_stream.rs
@@ -1,4 +1,4 @@
-use crate::context::Context;
+use crate::context::{Context, ReplyReceiver};
 use crate::error::{Error, Result};
 use crate::event::{Event, EventType};
 use crate::ipc::stream_emitter::emit_metadata::EmitMetadata;
@@ -11,7 +11,6 @@ use std::pin::Pin;
 use std::task::Poll;
 use std::time::Duration;
 use futures_core::future::BoxFuture;
-use tokio::sync::mpsc::Receiver;
 
 /// A metadata object returned after waiting for a reply to an event
 /// This object needs to be awaited for to get the actual reply
@@ -21,13 +20,13 @@ pub struct EmitMetadataWithResponseStream<P: IntoPayload> {
     pub(crate) emit_metadata: Option<EmitMetadata<P>>,
 }
 
-type StreamFutureResult = Result<(Option<Event>, Context, Receiver<Event>)>;
+type StreamFutureResult = Result<(Option<Event>, Context, ReplyReceiver)>;
 
 /// An asynchronous stream one can read all responses to a specific event from.
 pub struct ResponseStream {
     event_id: u64,
     ctx: Option<Context>,
-    receiver: Option<Receiver<Event>>,
+    receiver: Option<ReplyReceiver>,
     timeout: Duration,
     fut: Option<BoxFuture<'static, StreamFutureResult>>,
 }
@@ -37,7 +36,7 @@ impl ResponseStream {
         event_id: u64,
         timeout: Duration,
         ctx: Context,
-        receiver: Receiver<Event>,
+        receiver: ReplyReceiver,
     ) -> Self {
         Self {
             event_id,
-- 
2.43.0


From f471d925a69537f365b31fd7eeeb186f4f8e73fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:39 +0000
Subject: [PATCH 08/18] fix: end response streams after a timeout

Polling the stream after it yielded the timeout error panicked because the
completed future was polled again.
---
 .../stream_emitter/emit_metadata_with_response_stream.rs    | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ipc/stream_emitter/emit_metadata_with_response_stream.rs b/src/ipc/stream_emitter/emit_metadata_with_response_stream.rs
index 1949ab3..8438b4f 100644
--- a/src/ipc/stream_emitter/emit_metadata_with_response_stream.rs
+++ b/src/ipc/stream_emitter/emit_metadata_with_response_stream.rs
@@ -145,7 +145,11 @@ impl Stream for ResponseStream {
                         Poll::Ready(None)
                     }
                 }
-                Err(e) => Poll::Ready(Some(Err(e))),
+                Err(e) => {
+                    self.fut = None;
+
+                    Poll::Ready(Some(Err(e)))
+                }
             },
             Poll::Pending => Poll::Pending,
         }
-- 
2.43.0


From 75aaf30ec707537bf8267f478d222c2b93646e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:40 +0000
Subject: [PATCH 09/18] fix: end response streams with the error event of a
 failed handler

A failing handler sends an error event instead of an end event, after which
the stream stalled until its timeout.
---
 .../stream_emitter/emit_metadata_with_response_stream.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ipc/stream_emitter/emit_metadata_with_response_stream.rs b/src/ipc/stream_emitter/emit_metadata_with_response_stream.rs
index 8438b4f..76227ee 100644
--- a/src/ipc/stream_emitter/emit_metadata_with_response_stream.rs
+++ b/src/ipc/stream_emitter/emit_metadata_with_response_stream.rs
@@ -95,6 +95,11 @@ impl<P: IntoPayload + Send + Sync + 'static> Future for EmitMetadataWithResponse
 
 impl Unpin for ResponseStream {}
 
+/// A handler ends its replies with either an end event or an error event
+fn is_final_reply(event: &Event) -> bool {
+    matches!(event.event_type(), EventType::End | EventType::Error)
+}
+
 impl Stream for ResponseStream {
     type Item = Result<Event>;
 
@@ -121,7 +126,7 @@ impl Stream for ResponseStream {
                     }
                 }?;
 
-                if event.is_none() || event.as_ref().unwrap().event_type() == EventType::End {
+                if event.as_ref().map_or(true, is_final_reply) {
                     remove_reply_listener(&ctx, event_id).await;
                 }
 
@@ -135,7 +140,7 @@ impl Stream for ResponseStream {
                     self.fut = None;
 
                     if let Some(event) = event {
-                        if event.event_type() != EventType::End {
+                        if !is_final_reply(&event) {
                             self.ctx = Some(ctx);
                             self.receiver = Some(tx);
                         }
-- 
2.43.0


From 1564924aebbfedf2754921e9adb0188aea47786b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:51 +0000
Subject: [PATCH 10/18] fix: don't stall a connection when replies are read
 slowly

With eight unread replies to one request the read loop of the connection
blocked on the ninth, so every other request and event on that connection
(including those the reader of the replies was waiting for) was stuck.
---
 src/ipc/context.rs | 10 +++++-----
 src/ipc/mod.rs     |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ipc/context.rs b/src/ipc/context.rs
index 83d97d3..aececbf 100644
--- a/src/ipc/context.rs
+++ b/src/ipc/context.rs
@@ -4,7 +4,7 @@ use std::ops::{Deref, DerefMut};
 use std::sync::atomic::{AtomicUsize, Ordering};
 use std::sync::Arc;
 
-use tokio::sync::mpsc::Receiver;
+use tokio::sync::mpsc::UnboundedReceiver;
 use tokio::sync::{mpsc, oneshot, Mutex, RwLock};
 use tokio::time::Duration;
 use trait_bound_typemap::SendSyncTypeMap;
@@ -18,12 +18,12 @@ use crate::payload::IntoPayload;
 use crate::payload::{DynamicSerializer, SerdePayload};
 use crate::prelude::Response;
 
-pub(crate) type ReplyListeners = Arc<DashMap<u64, mpsc::Sender<Event>>>;
+pub(crate) type ReplyListeners = Arc<DashMap<u64, mpsc::UnboundedSender<Event>>>;
 
 /// Receives the replies to an event and unregisters itself when dropped
 pub(crate) struct ReplyReceiver {
     event_id: u64,
-    receiver: Receiver<Event>,
+    receiver: UnboundedReceiver<Event>,
     reply_listeners: ReplyListeners,
 }
 
@@ -145,7 +145,7 @@ impl Context {
     #[inline]
     #[tracing::instrument(level = "debug", skip(self))]
     pub(crate) async fn register_reply_listener(&self, event_id: u64) -> Result<ReplyReceiver> {
-        let (tx, receiver) = mpsc::channel(8);
+        let (tx, receiver) = mpsc::unbounded_channel();
         self.reply_listeners.insert(event_id, tx);
 
         Ok(ReplyReceiver {
@@ -174,7 +174,7 @@ impl Context {
 
     /// Returns the channel for a reply to the given message id
     #[inline]
-    pub(crate) async fn get_reply_sender(&self, ref_id: u64) -> Option<mpsc::Sender<Event>> {
+    pub(crate) async fn get_reply_sender(&self, ref_id: u64) -> Option<mpsc::UnboundedSender<Event>> {
         self.reply_listeners.get(&ref_id).map(|e| e.value().clone())
     }
 
diff --git a/src/ipc/mod.rs b/src/ipc/mod.rs
index 2299df5..85daa42 100644
--- a/src/ipc/mod.rs
+++ b/src/ipc/mod.rs
@@ -34,7 +34,7 @@ async fn handle_connection<S: 'static + AsyncProtocolStream>(
             // get the listener for replies
             if let Some(sender) = ctx.get_reply_sender(ref_id).await {
                 // try sending the event to the listener for replies
-                match sender.send(event).await {
+                match sender.send(event) {
                     Ok(_) => continue,
                     // the listener is already gone so it's treated as a regular event
                     Err(e) => event = e.0,
-- 
2.43.0


From 94003ecc9a3a735951f6409cdb411d7c0efb35a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:29 +0000
Subject: [PATCH 11/18] fix: run handshakes of the encryption layer
 concurrently

A refused, broken or aborted handshake ended the accept loop of the server
and one that never completed kept it from accepting anybody else.
---
 src/protocol/encrypted/mod.rs           | 24 +++++++++++++++++++--
 src/protocol/encrypted/protocol_impl.rs | 28 +++++++++++++++++++++----
 2 files changed, 46 insertions(+), 6 deletions(-)

diff --git a/src/protocol/encrypted/mod.rs b/src/protocol/encrypted/mod.rs
index 62133f0..d7be623 100644
--- a/src/protocol/encrypted/mod.rs
+++ b/src/protocol/encrypted/mod.rs
@@ -6,14 +6,17 @@ use bytes::{BufMut, Bytes, BytesMut};
 pub use io_impl::*;
 pub use protocol_impl::*;
 use rand::RngCore;
+use std::collections::HashMap;
 use std::future::Future;
 use std::io;
 use std::pin::Pin;
 use tokio::io::{AsyncRead, AsyncReadExt, AsyncWrite};
+use tokio::sync::Mutex;
+use tokio::task::JoinSet;
 use x25519_dalek::{PublicKey, SharedSecret, StaticSecret};
 
 use crate::prelude::encrypted::crypt_handling::CipherBox;
-use crate::prelude::{AsyncProtocolStream, AsyncStreamProtocolListener};
+use crate::prelude::{AsyncProtocolStream, AsyncStreamProtocolListener, IPCResult};
 
 pub type OptionalFuture<T> = Option<Pin<Box<dyn Future<Output = T> + Send + Sync>>>;
 
@@ -50,11 +53,28 @@ impl<T: Clone + Default> Default for EncryptionOptions<T> {
 pub struct EncryptedListener<T: AsyncStreamProtocolListener> {
     inner: T,
     keys: Keys,
+    handshakes: Mutex<Handshakes<T>>,
+}
+
+/// Handshakes that are in progress. They run concurrently to not let a peer
+/// that is slow or refused prevent others from connecting.
+struct Handshakes<T: AsyncStreamProtocolListener> {
+    tasks: JoinSet<(u64, IPCResult<EncryptedStream<T::Stream>>)>,
+    addresses: HashMap<u64, T::RemoteAddressType>,
+    next_id: u64,
 }
 
 impl<T: AsyncStreamProtocolListener> EncryptedListener<T> {
     pub fn new(inner: T, keys: Keys) -> Self {
-        Self { inner, keys }
+        Self {
+            inner,
+            keys,
+            handshakes: Mutex::new(Handshakes {
+                tasks: JoinSet::new(),
+                addresses: HashMap::new(),
+                next_id: 0,
+            }),
+        }
     }
 }
 
diff --git a/src/protocol/encrypted/protocol_impl.rs b/src/protocol/encrypted/protocol_impl.rs
index 4c90c98..05cfba9 100644
--- a/src/protocol/encrypted/protocol_impl.rs
+++ b/src/protocol/encrypted/protocol_impl.rs
@@ -1,6 +1,6 @@
 use crate::error::Result;
 use crate::prelude::encrypted::{EncryptedReadStream, EncryptedWriteStream};
-use crate::prelude::{AsyncProtocolStreamSplit, IPCResult};
+use crate::prelude::{AsyncProtocolStreamSplit, IPCError, IPCResult};
 use crate::protocol::encrypted::{EncryptedListener, EncryptedStream, EncryptionOptions};
 use crate::protocol::{AsyncProtocolStream, AsyncStreamProtocolListener};
 use async_trait::async_trait;
@@ -22,10 +22,30 @@ impl<T: AsyncStreamProtocolListener> AsyncStreamProtocolListener for EncryptedLi
     }
 
     async fn protocol_accept(&self) -> IPCResult<(Self::Stream, Self::RemoteAddressType)> {
-        let (inner_stream, remote_addr) = self.inner.protocol_accept().await?;
-        let stream = Self::Stream::from_server_key_exchange(inner_stream, &self.keys).await?;
+        let mut guard = self.handshakes.lock().await;
+        let handshakes = &mut *guard;
 
-        Ok((stream, remote_addr))
+        loop {
+            tokio::select! {
+                connection = self.inner.protocol_accept() => {
+                    let (inner_stream, remote_addr) = connection?;
+                    let keys = self.keys.clone();
+                    let id = handshakes.next_id;
+                    handshakes.next_id += 1;
+                    handshakes.addresses.insert(id, remote_addr);
+                    handshakes.tasks.spawn(async move {
+                        (id, Self::Stream::from_server_key_exchange(inner_stream, &keys).await)
+                    });
+                }
+                Some(Ok((id, result))) = handshakes.tasks.join_next() => {
+                    let remote_addr = handshakes.addresses.remove(&id).ok_or(IPCError::InvalidState)?;
+                    match result {
+                        Ok(stream) => return Ok((stream, remote_addr)),
+                        Err(e) => tracing::warn!("Handshake with {:?} failed: {:?}", remote_addr, e),
+                    }
+                }
+            }
+        }
     }
 }
 
-- 
2.43.0


From 31f63c940928b49281f17831d8a58d6c61c462f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:24 +0000
Subject: [PATCH 12/18] fix: return available data from encrypted streams

A read that wasn't filled by a single package returned Pending without a
registered waker and stalled until more was received (or forever), and lost
data it had put in the buffer. Reading after an error panicked.
---
 src/protocol/encrypted/io_impl.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/protocol/encrypted/io_impl.rs b/src/protocol/encrypted/io_impl.rs
index 9182e21..279f6d7 100644
--- a/src/protocol/encrypted/io_impl.rs
+++ b/src/protocol/encrypted/io_impl.rs
@@ -57,12 +57,15 @@ impl<T: 'static + AsyncRead + Send + Sync + Unpin> AsyncRead for EncryptedReadSt
                 let bytes = self.remaining.copy_to_bytes(max_copy);
                 buf.put_slice(&bytes);
                 tracing::trace!("{} bytes read from buffer", bytes.len());
+
+                return Poll::Ready(Ok(()));
             }
 
             if buf.remaining() > 0 {
                 tracing::trace!("{} bytes remaining to read", buf.remaining());
-                let reader = self.inner.take().unwrap();
-                let cipher = self.cipher.take().unwrap();
+                // both are gone after an error because nothing that follows can be trusted
+                let reader = self.inner.take().ok_or(io::ErrorKind::BrokenPipe)?;
+                let cipher = self.cipher.take().ok_or(io::ErrorKind::BrokenPipe)?;
 
                 self.fut = Some(Box::pin(async move { read_bytes(reader, cipher).await }));
             } else {
@@ -71,20 +74,22 @@ impl<T: 'static + AsyncRead + Send + Sync + Unpin> AsyncRead for EncryptedReadSt
         }
         match self.fut.as_mut().unwrap().as_mut().poll(cx) {
             Poll::Ready((result, reader, cipher)) => {
-                self.inner = Some(reader);
-                self.cipher = Some(cipher);
+                self.fut = None;
                 match result {
                     Ok(bytes) => {
-                        self.fut = None;
+                        self.inner = Some(reader);
+                        self.cipher = Some(cipher);
                         self.remaining.put(bytes);
                         let max_copy = min(self.remaining.len(), buf.remaining());
                         let bytes = self.remaining.copy_to_bytes(max_copy);
                         buf.put_slice(&bytes);
                         tracing::trace!("{} bytes read from buffer", bytes.len());
 
-                        if buf.remaining() == 0 {
+                        if bytes.len() > 0 {
                             Poll::Ready(Ok(()))
                         } else {
+                            // nothing was read yet so the next package is required
+                            cx.waker().wake_by_ref();
                             Poll::Pending
                         }
                     }
-- 
2.43.0


From bca39bf03b1fae2b344f1081415b8a7204b6cce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:25 +0000
Subject: [PATCH 13/18] fix: complete the shutdown of encrypted streams

The first poll returned Pending without polling the shutdown of the inner
stream, so nothing ever woke the task up again.
---
 src/protocol/encrypted/io_impl.rs | 10 +++++++---
 src/protocol/encrypted/mod.rs     |  2 +-
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/protocol/encrypted/io_impl.rs b/src/protocol/encrypted/io_impl.rs
index 279f6d7..7d93819 100644
--- a/src/protocol/encrypted/io_impl.rs
+++ b/src/protocol/encrypted/io_impl.rs
@@ -184,8 +184,11 @@ impl<T: 'static + AsyncWrite + Unpin + Send + Sync> AsyncWrite for EncryptedWrit
                 Poll::Ready(result) => match result {
                     Ok(_) => {
                         let mut writer = self.inner.take().unwrap();
-                        self.fut_shutdown = Some(Box::pin(async move { writer.shutdown().await }));
-                        Poll::Pending
+                        self.fut_shutdown = Some(Box::pin(async move {
+                            let result = writer.shutdown().await;
+                            (result, writer)
+                        }));
+                        self.poll_shutdown(cx)
                     }
                     Err(e) => Poll::Ready(Err(e)),
                 },
@@ -193,7 +196,8 @@ impl<T: 'static + AsyncWrite + Unpin + Send + Sync> AsyncWrite for EncryptedWrit
             }
         } else {
             match self.fut_shutdown.as_mut().unwrap().as_mut().poll(cx) {
-                Poll::Ready(result) => {
+                Poll::Ready((result, writer)) => {
+                    self.inner = Some(writer);
                     self.fut_shutdown = None;
                     Poll::Ready(result)
                 }
diff --git a/src/protocol/encrypted/mod.rs b/src/protocol/encrypted/mod.rs
index d7be623..4e412a8 100644
--- a/src/protocol/encrypted/mod.rs
+++ b/src/protocol/encrypted/mod.rs
@@ -134,7 +134,7 @@ pub struct EncryptedWriteStream<T: 'static + AsyncWrite + Unpin + Send + Sync> {
     buffer: BytesMut,
     fut_write: OptionalFuture<(io::Result<()>, T, CipherBox)>,
     fut_flush: OptionalFuture<(io::Result<()>, T, CipherBox)>,
-    fut_shutdown: OptionalFuture<io::Result<()>>,
+    fut_shutdown: OptionalFuture<(io::Result<()>, T)>,
 }
 
 impl<T: 'static + AsyncWrite + Unpin + Send + Sync> EncryptedWriteStream<T> {
-- 
2.43.0


From 18565b0892dff853fb0d3ea40d0e439b0256b798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:26 +0000
Subject: [PATCH 14/18] fix: don't allocate memory for encrypted packages
 before their data arrived

---
 src/protocol/encrypted/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/protocol/encrypted/mod.rs b/src/protocol/encrypted/mod.rs
index 4e412a8..814e90d 100644
--- a/src/protocol/encrypted/mod.rs
+++ b/src/protocol/encrypted/mod.rs
@@ -169,8 +169,12 @@ impl EncryptedPackage {
 
     pub async fn from_async_read<R: AsyncRead + Unpin>(reader: &mut R) -> io::Result<Self> {
         let length = reader.read_u32().await?;
-        let mut bytes_buf = vec![0u8; length as usize];
-        reader.read_exact(&mut bytes_buf).await?;
+        // the length is not trustworthy until that much data was actually received
+        let mut bytes_buf = Vec::new();
+        reader.take(length as u64).read_to_end(&mut bytes_buf).await?;
+        if bytes_buf.len() < length as usize {
+            return Err(io::ErrorKind::UnexpectedEof.into());
+        }
 
         Ok(Self {
             bytes: Bytes::from(bytes_buf),
-- 
2.43.0


From f4c284b0d8a28b7076130a520d49de9efc25f4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:26 +0000
Subject: [PATCH 15/18] fix: don't leave torn events on the stream when an
 emission is dropped

Dropping an emission (e.g. because of a timeout around it) in the middle of a
write left a part of the event on the stream, after which the peer could not
read anything anymore.
---
 src/ipc/stream_emitter/emit_metadata.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/ipc/stream_emitter/emit_metadata.rs b/src/ipc/stream_emitter/emit_metadata.rs
index b5a3e85..cee1264 100644
--- a/src/ipc/stream_emitter/emit_metadata.rs
+++ b/src/ipc/stream_emitter/emit_metadata.rs
@@ -89,12 +89,18 @@ impl<P: IntoPayload + Send + Sync + 'static> Future for EmitMetadata<P> {
             self.fut = Some(Box::pin(async move {
                 let event_id = event.id();
                 let event_bytes = event.into_bytes()?;
-                let mut stream = stream.lock().await;
-                stream.deref_mut().write_all(&event_bytes[..]).await?;
-                stream.deref_mut().flush().await?;
-                tracing::trace!(bytes_len = event_bytes.len());
+                let mut stream = stream.lock_owned().await;
+                // a started write must be finished even if this future is dropped because
+                // the remaining part of the event would be missing on the stream
+                tokio::spawn(async move {
+                    stream.deref_mut().write_all(&event_bytes[..]).await?;
+                    stream.deref_mut().flush().await?;
+                    tracing::trace!(bytes_len = event_bytes.len());
 
-                Ok(event_id)
+                    Ok(event_id)
+                })
+                .await
+                .unwrap_or(Err(Error::SendError))
             }));
         }
         self.fut.as_mut().unwrap().as_mut().poll(cx)
-- 
2.43.0


From fc91454a955761362f20f74cfa3ba87b61f69b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:14 +0000
Subject: [PATCH 16/18] fix: continue interrupted writes and flushes of
 encrypted streams

A write that was dropped before its package was sent made the following
write lose its data and the following flush panic.
---
 src/protocol/encrypted/io_impl.rs | 62 ++++++++++++++++++-------------
 1 file changed, 36 insertions(+), 26 deletions(-)

diff --git a/src/protocol/encrypted/io_impl.rs b/src/protocol/encrypted/io_impl.rs
index 7d93819..e1173fe 100644
--- a/src/protocol/encrypted/io_impl.rs
+++ b/src/protocol/encrypted/io_impl.rs
@@ -8,7 +8,7 @@ use std::cmp::min;
 use std::io;
 use std::io::Error;
 use std::pin::Pin;
-use std::task::{Context, Poll};
+use std::task::{ready, Context, Poll};
 use tokio::io::{AsyncRead, AsyncWrite, AsyncWriteExt, ReadBuf};
 
 const WRITE_BUF_SIZE: usize = 1024;
@@ -103,6 +103,24 @@ impl<T: 'static + AsyncRead + Send + Sync + Unpin> AsyncRead for EncryptedReadSt
 
 impl<T: 'static + AsyncWrite + Unpin + Send + Sync> Unpin for EncryptedWriteStream<T> {}
 
+impl<T: 'static + AsyncWrite + Unpin + Send + Sync> EncryptedWriteStream<T> {
+    /// Completes writes and flushes that have been started before. They might have been
+    /// dropped since then but what they have started has to be sent as a whole.
+    fn poll_started(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), Error>> {
+        for fut in [&mut self.fut_write, &mut self.fut_flush] {
+            if let Some(started) = fut.as_mut() {
+                let (result, writer, cipher) = ready!(started.as_mut().poll(cx));
+                self.inner = Some(writer);
+                self.cipher = Some(cipher);
+                *fut = None;
+                result?;
+            }
+        }
+
+        Poll::Ready(Ok(()))
+    }
+}
+
 impl<T: 'static + AsyncWrite + Unpin + Send + Sync> AsyncWrite for EncryptedWriteStream<T> {
     fn poll_write(
         mut self: Pin<&mut Self>,
@@ -110,40 +128,32 @@ impl<T: 'static + AsyncWrite + Unpin + Send + Sync> AsyncWrite for EncryptedWrit
         buf: &[u8],
     ) -> Poll<Result<usize, Error>> {
         let written_length = buf.len();
+        // this might not be the data that was written when the package was started
+        ready!(self.poll_started(cx))?;
+        self.buffer.put(Bytes::from(buf.to_vec()));
 
-        if self.fut_write.is_none() {
-            self.buffer.put(Bytes::from(buf.to_vec()));
-
-            if self.buffer.len() >= WRITE_BUF_SIZE {
-                tracing::trace!("buffer has reached sending size: {}", self.buffer.len());
-                let buffer_len = self.buffer.len();
-                let max_copy = min(u32::MAX as usize, buffer_len);
-                let plaintext = self.buffer.copy_to_bytes(max_copy);
-                let writer = self.inner.take().unwrap();
-                let cipher = self.cipher.take().unwrap();
+        if self.buffer.len() >= WRITE_BUF_SIZE {
+            tracing::trace!("buffer has reached sending size: {}", self.buffer.len());
+            let buffer_len = self.buffer.len();
+            let max_copy = min(u32::MAX as usize, buffer_len);
+            let plaintext = self.buffer.copy_to_bytes(max_copy);
+            let writer = self.inner.take().unwrap();
+            let cipher = self.cipher.take().unwrap();
 
-                self.fut_write = Some(Box::pin(write_bytes(plaintext, writer, cipher)))
-            } else {
-                return Poll::Ready(Ok(written_length));
+            self.fut_write = Some(Box::pin(write_bytes(plaintext, writer, cipher)));
+            // the data was taken even if the package can't be sent completely yet
+            if let Poll::Ready(Err(e)) = self.poll_started(cx) {
+                return Poll::Ready(Err(e));
             }
         }
 
-        match self.fut_write.as_mut().unwrap().as_mut().poll(cx) {
-            Poll::Ready((result, writer, cipher)) => {
-                self.inner = Some(writer);
-                self.cipher = Some(cipher);
-                self.fut_write = None;
-
-                Poll::Ready(result.map(|_| written_length))
-            }
-            Poll::Pending => Poll::Pending,
-        }
+        Poll::Ready(Ok(written_length))
     }
 
     fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<(), Error>> {
-        let buffer_len = self.buffer.len();
-
         if self.fut_flush.is_none() {
+            ready!(self.poll_started(cx))?;
+            let buffer_len = self.buffer.len();
             let max_copy = min(u32::MAX as usize, buffer_len);
             let plaintext = self.buffer.copy_to_bytes(max_copy);
             let writer = self.inner.take().unwrap();
-- 
2.43.0


From bf5526167f950dd551e87ec3a820baeafaa1af8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:35 +0000
Subject: [PATCH 17/18] fix: create end events with the type of end events

---
 src/events/event.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/events/event.rs b/src/events/event.rs
index 6d16bc3..841cb8c 100644
--- a/src/events/event.rs
+++ b/src/events/event.rs
@@ -65,7 +65,7 @@ impl Event {
     #[tracing::instrument(level = "trace", skip(data))]
     #[inline]
     pub fn end(namespace: Option<String>, name: String, data: Bytes, ref_id: u64) -> Self {
-        Self::new(namespace, name, data, Some(ref_id), EventType::Response)
+        Self::new(namespace, name, data, Some(ref_id), EventType::End)
     }
 
     /// Creates a new event
-- 
2.43.0


From 5483e6e857438dc016fdd1e180ed48c5eb480d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:04 +0000
Subject: [PATCH 18/18] fix: refuse peers whose public key makes the shared
 secret known to everyone

---
 src/protocol/encrypted/crypt_handling.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/protocol/encrypted/crypt_handling.rs b/src/protocol/encrypted/crypt_handling.rs
index 8af3093..98ef6bf 100644
--- a/src/protocol/encrypted/crypt_handling.rs
+++ b/src/protocol/encrypted/crypt_handling.rs
@@ -13,7 +13,7 @@ use std::io::ErrorKind;
 use std::sync::atomic::{AtomicU64, Ordering};
 use std::sync::Arc;
 use tokio::io::{AsyncReadExt, AsyncWriteExt};
-use x25519_dalek::{PublicKey, StaticSecret};
+use x25519_dalek::{PublicKey, SharedSecret, StaticSecret};
 
 /// A structure used for encryption.
 /// It holds the cipher initialized with the given key
@@ -114,7 +114,7 @@ impl<T: AsyncProtocolStream> EncryptedStream<T> {
             return Err(IPCError::UnknownPeer(other_pub));
         }
         send_public_key(&mut inner, &keys.secret).await?;
-        let shared_secret = keys.secret.diffie_hellman(&other_pub);
+        let shared_secret = create_shared_secret(keys, &other_pub)?;
         let mut stream = Self::new(inner, shared_secret);
         let permanent_secret = generate_secret();
         stream.write_all(&permanent_secret).await?;
@@ -139,7 +139,7 @@ impl<T: AsyncProtocolStream> EncryptedStream<T> {
         if !keys.allow_unknown && !keys.known_peers.contains(&other_pub) {
             return Err(IPCError::UnknownPeer(other_pub));
         }
-        let shared_secret = keys.secret.diffie_hellman(&other_pub);
+        let shared_secret = create_shared_secret(keys, &other_pub)?;
         let mut stream = Self::new(inner, shared_secret);
         let mut key_buf = vec![0u8; 32];
         stream.read_exact(&mut key_buf).await?;
@@ -170,6 +170,19 @@ async fn send_public_key<T: AsyncProtocolStream>(
     Ok(())
 }
 
+/// Creates the shared secret with a peer. It must not be used if it doesn't depend on the
+/// own secret because then it is known to everyone.
+#[tracing::instrument(level = "trace", skip_all)]
+fn create_shared_secret(keys: &Keys, other_pub: &PublicKey) -> IPCResult<SharedSecret> {
+    let shared_secret = keys.secret.diffie_hellman(other_pub);
+
+    if !shared_secret.was_contributory() {
+        return Err(IPCError::UnknownPeer(*other_pub));
+    }
+
+    Ok(shared_secret)
+}
+
 #[tracing::instrument(level = "trace", skip_all)]
 fn generate_secret() -> Vec<u8> {
     let mut rng = thread_rng();
-- 
2.43.0

