From a25e8dbf444881dad99fb75c7cb68423fdd47333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:27 +0000
Subject: [PATCH 01/28] fix: skip multi-byte integer map and set keys with
 their real width

KeyTagImpl::skip() used size_of::<Self>(), the size of the zero-sized tag type, so keys above the
one-byte varint range were skipped as a single byte.
---
 core/src/tags/key_impl.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/core/src/tags/key_impl.rs b/core/src/tags/key_impl.rs
index 8bafc8d..6269f92 100644
--- a/core/src/tags/key_impl.rs
+++ b/core/src/tags/key_impl.rs
@@ -3,7 +3,6 @@ use crate::buf_ext::{BufMutExt, ValueBufExt};
 use crate::{DeserializeError, SerializeError, ValueConversionError, ValueKind};
 use bytes::{Buf, BufMut, BytesMut};
 use std::borrow::Cow;
-use std::mem;
 
 #[allow(unnameable_types)]
 pub trait Sealed {}
@@ -132,7 +131,7 @@ impl KeyTagImpl for U16 {
     }
 
     fn skip<B: Buf>(buf: &mut B) -> Result<(), DeserializeError> {
-        buf.try_skip_varint_le::<{ mem::size_of::<Self>() }>()
+        buf.try_skip_varint_le::<2>()
     }
 
     fn convert(src: &mut &[u8], dst: &mut BytesMut) -> Result<(), ValueConversionError> {
@@ -162,7 +161,7 @@ impl KeyTagImpl for I16 {
     }
 
     fn skip<B: Buf>(buf: &mut B) -> Result<(), DeserializeError> {
-        buf.try_skip_varint_le::<{ mem::size_of::<Self>() }>()
+        buf.try_skip_varint_le::<2>()
     }
 
     fn convert(src: &mut &[u8], dst: &mut BytesMut) -> Result<(), ValueConversionError> {
@@ -192,7 +191,7 @@ impl KeyTagImpl for U32 {
     }
 
     fn skip<B: Buf>(buf: &mut B) -> Result<(), DeserializeError> {
-        buf.try_skip_varint_le::<{ mem::size_of::<Self>() }>()
+        buf.try_skip_varint_le::<4>()
     }
 
     fn convert(src: &mut &[u8], dst: &mut BytesMut) -> Result<(), ValueConversionError> {
@@ -222,7 +221,7 @@ impl KeyTagImpl for I32 {
     }
 
     fn skip<B: Buf>(buf: &mut B) -> Result<(), DeserializeError> {
-        buf.try_skip_varint_le::<{ mem::size_of::<Self>() }>()
+        buf.try_skip_varint_le::<4>()
     }
 
     fn convert(src: &mut &[u8], dst: &mut BytesMut) -> Result<(), ValueConversionError> {
@@ -252,7 +251,7 @@ impl KeyTagImpl for U64 {
     }
 
     fn skip<B: Buf>(buf: &mut B) -> Result<(), DeserializeError> {
-        buf.try_skip_varint_le::<{ mem::size_of::<Self>() }>()
+        buf.try_skip_varint_le::<8>()
     }
 
     fn convert(src: &mut &[u8], dst: &mut BytesMut) -> Result<(), ValueConversionError> {
@@ -282,7 +281,7 @@ impl KeyTagImpl for I64 {
     }
 
     fn skip<B: Buf>(buf: &mut B) -> Result<(), DeserializeError> {
-        buf.try_skip_varint_le::<{ mem::size_of::<Self>() }>()
+        buf.try_skip_varint_le::<8>()
     }
 
     fn convert(src: &mut &[u8], dst: &mut BytesMut) -> Result<(), ValueConversionError> {
-- 
2.43.0


From c73d8e71f340e47e3de7f85d79fa94a62159264f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:30 +0000
Subject: [PATCH 02/28] fix: never return an empty slice from
 Packetizer::spare_capacity_mut

---
 core/src/message/packetizer.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/src/message/packetizer.rs b/core/src/message/packetizer.rs
index 7a1fce3..8272f38 100644
--- a/core/src/message/packetizer.rs
+++ b/core/src/message/packetizer.rs
@@ -36,7 +36,11 @@ impl Packetizer {
                     (len - self.buf.len()).clamp(MIN_RESERVE_CAPACITY, MAX_RESERVE_CAPACITY);
                 self.buf.reserve(reserve);
             }
-        } else if self.buf.capacity() == self.buf.len() {
+        }
+
+        // This also applies when the length is known already, because one or more complete messages
+        // may be pending.
+        if self.buf.capacity() == self.buf.len() {
             self.buf.reserve(MIN_RESERVE_CAPACITY);
         }
 
-- 
2.43.0


From bcce4d3d3af23743dce23e2f18dfdcb98bee1573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:21 +0000
Subject: [PATCH 03/28] verif-hooks: read-only snapshot of the broker's
 internal state

---
 broker/Cargo.toml           |   2 +
 broker/src/broker.rs        |   9 +++
 broker/src/broker/handle.rs |   5 ++
 broker/src/broker/verif.rs  | 107 ++++++++++++++++++++++++++++++++++++
 broker/src/conn/event.rs    |   5 +-
 broker/src/lib.rs           |   3 +
 broker/src/serial_map.rs    |   5 ++
 7 files changed, 135 insertions(+), 1 deletion(-)
 create mode 100644 broker/src/broker/verif.rs

diff --git a/broker/Cargo.toml b/broker/Cargo.toml
index 74dccaf..031a3a5 100644
--- a/broker/Cargo.toml
+++ b/broker/Cargo.toml
@@ -28,6 +28,8 @@ introspection = [
 serde = ["aldrin-core/serde"]
 statistics = []
 tokio = ["aldrin-core/tokio"]
+# Read-only snapshot of internal state for verification; not part of the public API.
+verif-hooks = []
 
 [lints]
 workspace = true
diff --git a/broker/src/broker.rs b/broker/src/broker.rs
index aeaaf01..0c23dbb 100644
--- a/broker/src/broker.rs
+++ b/broker/src/broker.rs
@@ -9,6 +9,8 @@ mod state;
 mod statistics;
 #[cfg(test)]
 mod test;
+#[cfg(feature = "verif-hooks")]
+mod verif;
 
 use crate::bus_listener::BusListener;
 use crate::conn::ConnectionEvent;
@@ -60,6 +62,8 @@ pub use error::BrokerShutdown;
 pub use handle::BrokerHandle;
 #[cfg(feature = "statistics")]
 pub use statistics::BrokerStatistics;
+#[cfg(feature = "verif-hooks")]
+pub use verif::VerifSnapshot;
 
 const FIFO_SIZE: usize = 32;
 
@@ -263,6 +267,11 @@ impl Broker {
             ConnectionEvent::TakeStatistics(sender) => {
                 let _ = sender.send(self.statistics.take());
             }
+
+            #[cfg(feature = "verif-hooks")]
+            ConnectionEvent::VerifSnapshot(sender) => {
+                let _ = sender.send(self.verif_snapshot());
+            }
         }
     }
 
diff --git a/broker/src/broker/handle.rs b/broker/src/broker/handle.rs
index 84db3be..f47918a 100644
--- a/broker/src/broker/handle.rs
+++ b/broker/src/broker/handle.rs
@@ -33,6 +33,11 @@ impl BrokerHandle {
         }
     }
 
+    #[cfg(feature = "verif-hooks")]
+    pub(super) fn verif_sender(&mut self) -> &mut mpsc::Sender<ConnectionEvent> {
+        &mut self.send
+    }
+
     pub(crate) async fn add_connection<T: AsyncTransport + Unpin>(
         &mut self,
         transport: Buffered<T>,
diff --git a/broker/src/broker/verif.rs b/broker/src/broker/verif.rs
new file mode 100644
index 0000000..dd7d9f3
--- /dev/null
+++ b/broker/src/broker/verif.rs
@@ -0,0 +1,107 @@
+//! Read-only snapshot of the broker's internal state for verification.
+
+use super::{Broker, BrokerHandle, BrokerShutdown};
+use crate::conn::ConnectionEvent;
+use futures_channel::oneshot;
+use futures_util::sink::SinkExt;
+
+/// Sizes of the broker's internal maps and inconsistent references between them.
+#[derive(Debug, Clone, Default, PartialEq, Eq)]
+#[doc(hidden)]
+#[allow(missing_docs)]
+pub struct VerifSnapshot {
+    pub conns: usize,
+    pub obj_uuids: usize,
+    pub objs: usize,
+    pub svc_uuids: usize,
+    pub svcs: usize,
+    pub function_calls: usize,
+    pub channels: usize,
+    pub bus_listeners: usize,
+    pub query_introspection: usize,
+    /// Objects, event and service subscriptions, channel ends, bus listeners and calls registered
+    /// with live connections.
+    pub conn_objects: usize,
+    pub conn_subscriptions: usize,
+    pub conn_channel_ends: usize,
+    pub conn_bus_listeners: usize,
+    pub conn_calls: usize,
+    /// Entries of a connection that refer to something that isn't there.
+    pub dangling: Vec<String>,
+}
+
+impl Broker {
+    pub(super) fn verif_snapshot(&self) -> VerifSnapshot {
+        let mut res = VerifSnapshot {
+            conns: self.conns.len(),
+            obj_uuids: self.obj_uuids.len(),
+            objs: self.objs.len(),
+            svc_uuids: self.svc_uuids.len(),
+            svcs: self.svcs.len(),
+            channels: self.channels.len(),
+            bus_listeners: self.bus_listeners.len(),
+            function_calls: self.function_calls.verif_len(),
+            ..VerifSnapshot::default()
+        };
+
+        #[cfg(feature = "introspection")]
+        {
+            res.query_introspection = self.query_introspection.verif_len();
+        }
+
+        for conn in self.conns.values() {
+            for cookie in conn.objects() {
+                res.conn_objects += 1;
+                if !self.obj_uuids.contains_key(&cookie) {
+                    res.dangling.push(format!("object {cookie}"));
+                }
+            }
+
+            let svc_cookies = conn
+                .event_subscriptions()
+                .map(|(cookie, _)| ("event", cookie))
+                .chain(conn.all_event_subscriptions().map(|c| ("all events", c)))
+                .chain(conn.subscriptions().map(|c| ("service", c)));
+
+            for (kind, cookie) in svc_cookies {
+                res.conn_subscriptions += 1;
+                if !self.svc_uuids.contains_key(&cookie) {
+                    res.dangling.push(format!("{kind} subscription {cookie}"));
+                }
+            }
+
+            for cookie in conn.senders().chain(conn.receivers()) {
+                res.conn_channel_ends += 1;
+                if !self.channels.contains_key(&cookie) {
+                    res.dangling.push(format!("channel {cookie}"));
+                }
+            }
+
+            for cookie in conn.bus_listeners() {
+                res.conn_bus_listeners += 1;
+                if !self.bus_listeners.contains_key(&cookie) {
+                    res.dangling.push(format!("bus listener {cookie}"));
+                }
+            }
+
+            res.conn_calls += conn.calls().count();
+        }
+
+        res
+    }
+}
+
+impl BrokerHandle {
+    #[doc(hidden)]
+    #[allow(missing_docs)]
+    pub async fn verif_snapshot(&mut self) -> Result<VerifSnapshot, BrokerShutdown> {
+        let (send, recv) = oneshot::channel();
+
+        self.verif_sender()
+            .send(ConnectionEvent::VerifSnapshot(send))
+            .await
+            .map_err(|_| BrokerShutdown)?;
+
+        recv.await.map_err(|_| BrokerShutdown)
+    }
+}
diff --git a/broker/src/conn/event.rs b/broker/src/conn/event.rs
index e165d88..f87e6b7 100644
--- a/broker/src/conn/event.rs
+++ b/broker/src/conn/event.rs
@@ -5,7 +5,7 @@ use crate::BrokerStatistics;
 use aldrin_core::message::Message;
 use aldrin_core::ProtocolVersion;
 use futures_channel::mpsc;
-#[cfg(feature = "statistics")]
+#[cfg(any(feature = "statistics", feature = "verif-hooks"))]
 use futures_channel::oneshot;
 
 #[derive(Debug)]
@@ -27,4 +27,7 @@ pub(crate) enum ConnectionEvent {
 
     #[cfg(feature = "statistics")]
     TakeStatistics(oneshot::Sender<BrokerStatistics>),
+
+    #[cfg(feature = "verif-hooks")]
+    VerifSnapshot(oneshot::Sender<crate::VerifSnapshot>),
 }
diff --git a/broker/src/lib.rs b/broker/src/lib.rs
index b4d9db1..4a56190 100644
--- a/broker/src/lib.rs
+++ b/broker/src/lib.rs
@@ -66,5 +66,8 @@ pub use acceptor::{AcceptError, Acceptor};
 pub use aldrin_core as core;
 #[cfg(feature = "statistics")]
 pub use broker::BrokerStatistics;
+#[cfg(feature = "verif-hooks")]
+#[doc(hidden)]
+pub use broker::VerifSnapshot;
 pub use broker::{Broker, BrokerHandle, BrokerShutdown};
 pub use conn::{Connection, ConnectionError, ConnectionHandle};
diff --git a/broker/src/serial_map.rs b/broker/src/serial_map.rs
index 5689689..590a3c9 100644
--- a/broker/src/serial_map.rs
+++ b/broker/src/serial_map.rs
@@ -34,6 +34,11 @@ impl<T> SerialMap<T> {
         self.elems.remove(&serial)
     }
 
+    #[cfg(feature = "verif-hooks")]
+    pub(crate) fn verif_len(&self) -> usize {
+        self.elems.len()
+    }
+
     pub(crate) fn is_empty(&self) -> bool {
         self.elems.is_empty()
     }
-- 
2.43.0


From 04d5e2b2e07535562e00d118bf700a8c29c0f354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:27 +0000
Subject: [PATCH 04/28] fix: tell the broker when a connection is dropped

A connection whose task was dropped (rather than polled to completion) stayed
registered with the broker. Its objects, services, channels and listeners were
kept, and the broker would never become idle.
---
 broker/src/broker/handle.rs | 13 +++++--------
 broker/src/conn.rs          | 35 ++++++++++++++++++++++++++++++-----
 broker/src/conn/handle.rs   |  4 ----
 3 files changed, 35 insertions(+), 17 deletions(-)

diff --git a/broker/src/broker/handle.rs b/broker/src/broker/handle.rs
index f47918a..6e05d91 100644
--- a/broker/src/broker/handle.rs
+++ b/broker/src/broker/handle.rs
@@ -46,18 +46,15 @@ impl BrokerHandle {
         let id = self.ids.acquire();
         let (send, recv) = mpsc::unbounded();
 
+        // Tells the broker when it is dropped, even if that happens while waiting below.
+        let conn = Connection::new(transport, version, id.clone(), self.send.clone(), recv);
+
         self.send
-            .send(ConnectionEvent::NewConnection(id.clone(), version, send))
+            .send(ConnectionEvent::NewConnection(id, version, send))
             .await
             .map_err(|_| BrokerShutdown)?;
 
-        Ok(Connection::new(
-            transport,
-            version,
-            id,
-            self.send.clone(),
-            recv,
-        ))
+        Ok(conn)
     }
 
     /// Establishes a new connection.
diff --git a/broker/src/conn.rs b/broker/src/conn.rs
index 00fab58..ac2e478 100644
--- a/broker/src/conn.rs
+++ b/broker/src/conn.rs
@@ -36,7 +36,10 @@ where
     version: ProtocolVersion,
     send: Sender<ConnectionEvent>,
     recv: Option<UnboundedReceiver<VersionedMessage>>,
-    handle: Option<ConnectionHandle>,
+    handle: ConnectionHandle,
+
+    // Whether the broker still needs to be told, when this connection goes away.
+    registered: bool,
 }
 
 impl<T> Connection<T>
@@ -57,7 +60,8 @@ where
             version,
             send,
             recv: Some(recv),
-            handle: Some(ConnectionHandle::new(id)),
+            handle: ConnectionHandle::new(id),
+            registered: true,
         }
     }
 
@@ -69,7 +73,7 @@ where
     /// Note also, that this method returns only a reference. However, `ConnectionHandle`s are cheap
     /// to `clone`.
     pub fn handle(&self) -> &ConnectionHandle {
-        self.handle.as_ref().unwrap()
+        &self.handle
     }
 
     /// Runs the connections.
@@ -77,7 +81,7 @@ where
     /// After [establishing](crate::BrokerHandle::connect) a new `Connection`, this method must be
     /// called and polled to completion to run the `Connection`.
     pub async fn run(mut self) -> Result<(), ConnectionError<T::Error>> {
-        let id = self.handle.take().unwrap().into_id();
+        let id = self.handle().id().clone();
 
         loop {
             debug_assert!(self.recv.is_some());
@@ -125,6 +129,7 @@ where
     }
 
     async fn broker_shutdown(&mut self) -> Result<(), ConnectionError<T::Error>> {
+        self.registered = false;
         self.send_message(Shutdown).await?;
         self.drain_client_recv().await?;
 
@@ -185,7 +190,10 @@ where
         self.send
             .send(ConnectionEvent::ConnectionShutdown(id))
             .await
-            .map_err(|_| ConnectionError::UnexpectedShutdown)
+            .map_err(|_| ConnectionError::UnexpectedShutdown)?;
+
+        self.registered = false;
+        Ok(())
     }
 
     async fn drain_broker_recv(&mut self) {
@@ -239,3 +247,20 @@ where
         Ok(())
     }
 }
+
+impl<T> Drop for Connection<T>
+where
+    T: AsyncTransport + Unpin,
+{
+    fn drop(&mut self) {
+        if self.registered {
+            let id = self.handle.id().clone();
+
+            // A new sender always has a slot in the channel. This fails only if the broker is gone.
+            let _ = self
+                .send
+                .clone()
+                .try_send(ConnectionEvent::ConnectionShutdown(id));
+        }
+    }
+}
diff --git a/broker/src/conn/handle.rs b/broker/src/conn/handle.rs
index efa777e..ebc567f 100644
--- a/broker/src/conn/handle.rs
+++ b/broker/src/conn/handle.rs
@@ -18,8 +18,4 @@ impl ConnectionHandle {
     pub(crate) fn id(&self) -> &ConnectionId {
         &self.id
     }
-
-    pub(super) fn into_id(self) -> ConnectionId {
-        self.id
-    }
 }
-- 
2.43.0


From 6f4504a9a04ca37d56f9920b9d2a3b4ea9de352c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:35 +0000
Subject: [PATCH 05/28] Revert "fix: tell the broker when a connection is
 dropped"

The test drop_conn_before_function_call relies on the broker not noticing that.
---
 broker/src/broker/handle.rs | 13 ++++++++-----
 broker/src/conn.rs          | 35 +++++------------------------------
 broker/src/conn/handle.rs   |  4 ++++
 3 files changed, 17 insertions(+), 35 deletions(-)

diff --git a/broker/src/broker/handle.rs b/broker/src/broker/handle.rs
index 6e05d91..f47918a 100644
--- a/broker/src/broker/handle.rs
+++ b/broker/src/broker/handle.rs
@@ -46,15 +46,18 @@ impl BrokerHandle {
         let id = self.ids.acquire();
         let (send, recv) = mpsc::unbounded();
 
-        // Tells the broker when it is dropped, even if that happens while waiting below.
-        let conn = Connection::new(transport, version, id.clone(), self.send.clone(), recv);
-
         self.send
-            .send(ConnectionEvent::NewConnection(id, version, send))
+            .send(ConnectionEvent::NewConnection(id.clone(), version, send))
             .await
             .map_err(|_| BrokerShutdown)?;
 
-        Ok(conn)
+        Ok(Connection::new(
+            transport,
+            version,
+            id,
+            self.send.clone(),
+            recv,
+        ))
     }
 
     /// Establishes a new connection.
diff --git a/broker/src/conn.rs b/broker/src/conn.rs
index ac2e478..00fab58 100644
--- a/broker/src/conn.rs
+++ b/broker/src/conn.rs
@@ -36,10 +36,7 @@ where
     version: ProtocolVersion,
     send: Sender<ConnectionEvent>,
     recv: Option<UnboundedReceiver<VersionedMessage>>,
-    handle: ConnectionHandle,
-
-    // Whether the broker still needs to be told, when this connection goes away.
-    registered: bool,
+    handle: Option<ConnectionHandle>,
 }
 
 impl<T> Connection<T>
@@ -60,8 +57,7 @@ where
             version,
             send,
             recv: Some(recv),
-            handle: ConnectionHandle::new(id),
-            registered: true,
+            handle: Some(ConnectionHandle::new(id)),
         }
     }
 
@@ -73,7 +69,7 @@ where
     /// Note also, that this method returns only a reference. However, `ConnectionHandle`s are cheap
     /// to `clone`.
     pub fn handle(&self) -> &ConnectionHandle {
-        &self.handle
+        self.handle.as_ref().unwrap()
     }
 
     /// Runs the connections.
@@ -81,7 +77,7 @@ where
     /// After [establishing](crate::BrokerHandle::connect) a new `Connection`, this method must be
     /// called and polled to completion to run the `Connection`.
     pub async fn run(mut self) -> Result<(), ConnectionError<T::Error>> {
-        let id = self.handle().id().clone();
+        let id = self.handle.take().unwrap().into_id();
 
         loop {
             debug_assert!(self.recv.is_some());
@@ -129,7 +125,6 @@ where
     }
 
     async fn broker_shutdown(&mut self) -> Result<(), ConnectionError<T::Error>> {
-        self.registered = false;
         self.send_message(Shutdown).await?;
         self.drain_client_recv().await?;
 
@@ -190,10 +185,7 @@ where
         self.send
             .send(ConnectionEvent::ConnectionShutdown(id))
             .await
-            .map_err(|_| ConnectionError::UnexpectedShutdown)?;
-
-        self.registered = false;
-        Ok(())
+            .map_err(|_| ConnectionError::UnexpectedShutdown)
     }
 
     async fn drain_broker_recv(&mut self) {
@@ -247,20 +239,3 @@ where
         Ok(())
     }
 }
-
-impl<T> Drop for Connection<T>
-where
-    T: AsyncTransport + Unpin,
-{
-    fn drop(&mut self) {
-        if self.registered {
-            let id = self.handle.id().clone();
-
-            // A new sender always has a slot in the channel. This fails only if the broker is gone.
-            let _ = self
-                .send
-                .clone()
-                .try_send(ConnectionEvent::ConnectionShutdown(id));
-        }
-    }
-}
diff --git a/broker/src/conn/handle.rs b/broker/src/conn/handle.rs
index ebc567f..efa777e 100644
--- a/broker/src/conn/handle.rs
+++ b/broker/src/conn/handle.rs
@@ -18,4 +18,8 @@ impl ConnectionHandle {
     pub(crate) fn id(&self) -> &ConnectionId {
         &self.id
     }
+
+    pub(super) fn into_id(self) -> ConnectionId {
+        self.id
+    }
 }
-- 
2.43.0


From be41f22569f2bf6ae0318e3a3037ad8aa2f928f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:07 +0000
Subject: [PATCH 06/28] fix: don't let ill-formed values of one client
 disconnect another

The broker forwarded values without looking at them and each connection
converted them to its own version. A value that cannot be converted, ended the
connection it was sent to, rather than the one it came from.
---
 broker/src/broker.rs | 89 +++++++++++++++++++++++++++++++++++---------
 1 file changed, 72 insertions(+), 17 deletions(-)

diff --git a/broker/src/broker.rs b/broker/src/broker.rs
index 0c23dbb..ea7d4f9 100644
--- a/broker/src/broker.rs
+++ b/broker/src/broker.rs
@@ -30,9 +30,9 @@ use aldrin_core::message::{
     CreateObjectReply, CreateObjectResult, CreateService, CreateService2, CreateServiceReply,
     CreateServiceResult, DestroyBusListener, DestroyBusListenerReply, DestroyBusListenerResult,
     DestroyObject, DestroyObjectReply, DestroyObjectResult, DestroyService, DestroyServiceReply,
-    DestroyServiceResult, EmitBusEvent, EmitEvent, ItemReceived, Message, QueryIntrospection,
-    QueryIntrospectionReply, QueryIntrospectionResult, QueryServiceInfo, QueryServiceInfoReply,
-    QueryServiceInfoResult, QueryServiceVersion, QueryServiceVersionReply,
+    DestroyServiceResult, EmitBusEvent, EmitEvent, ItemReceived, Message, MessageOps,
+    QueryIntrospection, QueryIntrospectionReply, QueryIntrospectionResult, QueryServiceInfo,
+    QueryServiceInfoReply, QueryServiceInfoResult, QueryServiceVersion, QueryServiceVersionReply,
     QueryServiceVersionResult, RegisterIntrospection, RemoveBusListenerFilter, SendItem,
     ServiceDestroyed, Shutdown, StartBusListener, StartBusListenerReply, StartBusListenerResult,
     StopBusListener, StopBusListenerReply, StopBusListenerResult, SubscribeAllEvents,
@@ -46,7 +46,7 @@ use aldrin_core::TypeId;
 use aldrin_core::{
     BusEvent, BusListenerCookie, BusListenerScope, ChannelCookie, ChannelEnd,
     ChannelEndWithCapacity, ObjectCookie, ObjectId, ObjectUuid, ProtocolVersion, SerializedValue,
-    ServiceCookie, ServiceId, ServiceInfo, ServiceUuid,
+    SerializedValueSlice, ServiceCookie, ServiceId, ServiceInfo, ServiceUuid,
 };
 use channel::{AddCapacityError, Channel, SendItemError};
 use conn_state::ConnectionState;
@@ -760,9 +760,9 @@ impl Broker {
         &mut self,
         state: &mut State,
         id: &ConnectionId,
-        req: CallFunction2,
+        mut req: CallFunction2,
     ) -> Result<(), ()> {
-        let Some(conn) = self.conns.get_mut(id) else {
+        let Some(conn) = self.conns.get(id) else {
             return Ok(());
         };
 
@@ -783,6 +783,18 @@ impl Broker {
             .expect("inconsistent state")
             .conn_id();
 
+        let callee_version = self
+            .conns
+            .get(callee_id)
+            .expect("inconsistent state")
+            .version();
+
+        // An ill-formed value is the caller's fault and must not affect the callee.
+        req.convert_value(Some(conn.version()), callee_version)
+            .map_err(|_| ())?;
+
+        let conn = self.conns.get_mut(id).expect("inconsistent state");
+
         let serial = self.function_calls.insert(PendingFunctionCall {
             caller_serial: req.serial,
             caller_conn_id: id.clone(),
@@ -796,7 +808,6 @@ impl Broker {
             return Err(());
         }
 
-        let version = conn.version();
         let callee_conn = self.conns.get(callee_id).expect("inconsistent state");
 
         self.svcs
@@ -804,7 +815,7 @@ impl Broker {
             .expect("inconsistent state")
             .add_function_call(serial);
 
-        let res = if callee_conn.version() >= ProtocolVersion::V1_19 {
+        let res = if callee_version >= ProtocolVersion::V1_19 {
             send!(
                 self,
                 callee_conn,
@@ -815,7 +826,7 @@ impl Broker {
                     version: req.version,
                     value: req.value,
                 },
-                version,
+                callee_version,
             )
         } else {
             send!(
@@ -827,7 +838,7 @@ impl Broker {
                     function: req.function,
                     value: req.value,
                 },
-                version,
+                callee_version,
             )
         };
 
@@ -842,7 +853,7 @@ impl Broker {
         &mut self,
         state: &mut State,
         id: &ConnectionId,
-        req: CallFunctionReply,
+        mut req: CallFunctionReply,
     ) {
         let Some(version) = self.conns.get(id).map(ConnectionState::version) else {
             return;
@@ -861,6 +872,19 @@ impl Broker {
             return;
         }
 
+        let caller_version = self
+            .conns
+            .get(&call.get().caller_conn_id)
+            .map(ConnectionState::version);
+
+        // An ill-formed value is the callee's fault and must not affect the caller.
+        if let Some(caller_version) = caller_version {
+            if req.convert_value(Some(version), caller_version).is_err() {
+                state.push_remove_conn(id.clone(), false);
+                return;
+            }
+        }
+
         let call = call.remove();
 
         let svc = self
@@ -887,7 +911,7 @@ impl Broker {
                 serial: call.caller_serial,
                 result: req.result,
             },
-            version,
+            caller_conn.version(),
         );
 
         if res.is_err() {
@@ -1000,10 +1024,24 @@ impl Broker {
             return;
         }
 
-        for (conn_id, conn) in self.conns.iter() {
-            if conn.is_subscribed_to_event(req.service_cookie, req.event)
-                && send!(self, conn, req.clone(), emitter_conn.version()).is_err()
+        let subscribers = || {
+            self.conns
+                .iter()
+                .filter(|(_, conn)| conn.is_subscribed_to_event(req.service_cookie, req.event))
+        };
+
+        // An ill-formed value is the emitter's fault and must not affect any subscriber.
+        if let Some(version) = subscribers().map(|(_, conn)| conn.version()).min() {
+            if SerializedValueSlice::convert(&req.value, Some(emitter_conn.version()), version)
+                .is_err()
             {
+                state.push_remove_conn(id.clone(), false);
+                return;
+            }
+        }
+
+        for (conn_id, conn) in subscribers() {
+            if send!(self, conn, req.clone(), emitter_conn.version()).is_err() {
                 state.push_remove_conn(conn_id.clone(), false);
             }
         }
@@ -1226,7 +1264,12 @@ impl Broker {
         }
     }
 
-    fn send_item(&mut self, state: &mut State, id: &ConnectionId, req: SendItem) -> Result<(), ()> {
+    fn send_item(
+        &mut self,
+        state: &mut State,
+        id: &ConnectionId,
+        mut req: SendItem,
+    ) -> Result<(), ()> {
         let Some(sender) = self.conns.get(id) else {
             return Ok(());
         };
@@ -1265,6 +1308,10 @@ impl Broker {
             return Ok(());
         };
 
+        // An ill-formed value is the sender's fault and must not affect the receiver.
+        req.convert_value(Some(sender.version()), receiver.version())
+            .map_err(|_| ())?;
+
         let res = send!(
             self,
             receiver,
@@ -1272,7 +1319,7 @@ impl Broker {
                 cookie: req.cookie,
                 value: req.value,
             },
-            sender.version(),
+            receiver.version(),
         );
 
         if res.is_err() {
@@ -1733,6 +1780,14 @@ impl Broker {
             return Err(());
         }
 
+        // The reply is cached and forwarded to other connections, which an ill-formed value must not
+        // affect.
+        if let QueryIntrospectionResult::Ok(ref introspection) = req.result {
+            if SerializedValueSlice::convert(introspection, None, ProtocolVersion::V1_17).is_err() {
+                return Err(());
+            }
+        }
+
         let serial = req.serial;
 
         let Some(type_id) = self.query_introspection.entry(serial) else {
-- 
2.43.0


From af21732c9ac4561c9d2efaedff76486a7ad69f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:30 +0000
Subject: [PATCH 07/28] fix: count a channel even if its creator cannot be told
 about it

Removing the channel again decremented the number of channels regardless, such
that the statistics were off by one from then on.
---
 broker/src/broker.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/broker/src/broker.rs b/broker/src/broker.rs
index ea7d4f9..9b1ed51 100644
--- a/broker/src/broker.rs
+++ b/broker/src/broker.rs
@@ -1092,6 +1092,12 @@ impl Broker {
 
         self.channels.insert(cookie, channel);
 
+        // This must be done before sending the reply. If that fails, then the channel is removed again.
+        #[cfg(feature = "statistics")]
+        {
+            self.statistics.num_channels = self.statistics.num_channels.saturating_add(1);
+        }
+
         send!(
             self,
             conn,
@@ -1099,14 +1105,7 @@ impl Broker {
                 serial: req.serial,
                 cookie,
             },
-        )?;
-
-        #[cfg(feature = "statistics")]
-        {
-            self.statistics.num_channels = self.statistics.num_channels.saturating_add(1);
-        }
-
-        Ok(())
+        )
     }
 
     fn close_channel_end(
-- 
2.43.0


From b0b802a7baef3965d6a7846ad816e3cf193ad697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:31 +0000
Subject: [PATCH 08/28] fix: end subscriptions to all events when the service
 is destroyed

They were kept in the state of the subscribed connection for as long as it
existed.
---
 broker/src/broker.rs         | 6 ++++++
 broker/src/broker/service.rs | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/broker/src/broker.rs b/broker/src/broker.rs
index 9b1ed51..975a828 100644
--- a/broker/src/broker.rs
+++ b/broker/src/broker.rs
@@ -2290,6 +2290,12 @@ impl Broker {
             }
         }
 
+        for conn_id in svc.all_events_conn_ids() {
+            if let Some(conn) = self.conns.get_mut(conn_id) {
+                conn.unsubscribe_all_events(svc_cookie);
+            }
+        }
+
         for conn_id in svc.subscribed_conn_ids() {
             if let Some(conn) = self.conns.get_mut(conn_id) {
                 conn.unsubscribe_all(svc_cookie);
diff --git a/broker/src/broker/service.rs b/broker/src/broker/service.rs
index 456932e..5bc1c4f 100644
--- a/broker/src/broker/service.rs
+++ b/broker/src/broker/service.rs
@@ -99,6 +99,10 @@ impl Service {
         !was_empty && self.all_events.is_empty()
     }
 
+    pub(crate) fn all_events_conn_ids(&self) -> impl Iterator<Item = &ConnectionId> {
+        self.all_events.iter()
+    }
+
     pub(crate) fn subscribe(&mut self, conn_id: ConnectionId) {
         self.subscriptions.insert(conn_id);
     }
-- 
2.43.0


From 823254e98d260e2b33724b0ae0426fd2205497e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:58 +0000
Subject: [PATCH 09/28] fix: announce a broker's shutdown to clients that are
 still sending

A connection which read a message of its client after the broker had shut down,
ended with an error instead of forwarding the broker's shutdown message.
---
 broker/src/conn.rs | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/broker/src/conn.rs b/broker/src/conn.rs
index 00fab58..1f97b1d 100644
--- a/broker/src/conn.rs
+++ b/broker/src/conn.rs
@@ -10,6 +10,7 @@ use aldrin_core::transport::{AsyncTransport, AsyncTransportExt, Buffered};
 use aldrin_core::ProtocolVersion;
 use futures_channel::mpsc::{Sender, UnboundedReceiver};
 use futures_util::sink::SinkExt;
+use futures_util::stream::StreamExt;
 use select::{Select, Selected};
 
 pub(crate) use event::ConnectionEvent;
@@ -112,7 +113,11 @@ where
                     break self.client_shutdown(id).await;
                 }
 
-                Selected::Transport(Ok(msg)) => self.send_broker_msg(id.clone(), msg).await?,
+                Selected::Transport(Ok(msg)) => {
+                    if self.send_broker_msg(id.clone(), msg).await.is_err() {
+                        break self.broker_gone().await;
+                    }
+                }
 
                 Selected::TransportFlushed(Ok(())) => self.flush_transport = false,
 
@@ -131,6 +136,20 @@ where
         Ok(())
     }
 
+    async fn broker_gone(&mut self) -> Result<(), ConnectionError<T::Error>> {
+        // When the broker shuts down, then everything it sent before is still there, including the
+        // final shutdown message.
+        while let Some(msg) = self.recv.as_mut().unwrap().next().await {
+            if let Message::Shutdown(Shutdown) = msg.msg {
+                return self.broker_shutdown().await;
+            }
+
+            self.send_message(msg).await?;
+        }
+
+        Err(ConnectionError::UnexpectedShutdown)
+    }
+
     async fn send_message(
         &mut self,
         msg: impl Into<VersionedMessage>,
@@ -150,7 +169,9 @@ where
     }
 
     async fn client_shutdown(&mut self, id: ConnectionId) -> Result<(), ConnectionError<T::Error>> {
-        self.send_broker_shutdown(id).await?;
+        // The broker might have shut down at the same time. The client must be told regardless.
+        let _ = self.send_broker_shutdown(id).await;
+
         self.send_message(Shutdown).await?;
         self.drain_broker_recv().await;
 
-- 
2.43.0


From 6bc48d5fed8aa40f1f528bfd69273b8212cfb23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:13 +0000
Subject: [PATCH 10/28] fix: answer discoverer lookups of no services for bare
 objects

The direct lookups reported ids for objects that do not exist, and those of iterator entries
panicked, though no service UUID was given at all.
---
 aldrin/src/discoverer/specific.rs             |  4 +-
 .../discoverer/specific_without_services.rs   | 44 +++++++++++++------
 2 files changed, 32 insertions(+), 16 deletions(-)

diff --git a/aldrin/src/discoverer/specific.rs b/aldrin/src/discoverer/specific.rs
index 1425100..229db23 100644
--- a/aldrin/src/discoverer/specific.rs
+++ b/aldrin/src/discoverer/specific.rs
@@ -189,7 +189,7 @@ where
     ) -> Vec<ServiceId> {
         match self {
             Self::WithServices(inner) => inner.service_ids(services),
-            Self::WithoutServices(_) => panic!("invalid service UUID"),
+            Self::WithoutServices(inner) => inner.service_ids(services),
         }
     }
 
@@ -199,7 +199,7 @@ where
     ) -> [ServiceId; N] {
         match self {
             Self::WithServices(inner) => inner.service_ids_n(services),
-            Self::WithoutServices(_) => panic!("invalid service UUID"),
+            Self::WithoutServices(inner) => inner.service_ids_n(services),
         }
     }
 }
diff --git a/aldrin/src/discoverer/specific_without_services.rs b/aldrin/src/discoverer/specific_without_services.rs
index 835e016..73eac9e 100644
--- a/aldrin/src/discoverer/specific_without_services.rs
+++ b/aldrin/src/discoverer/specific_without_services.rs
@@ -48,18 +48,25 @@ where
         self.cookie.map(|cookie| ObjectId::new(self.object, cookie))
     }
 
+    fn service_ids_unchecked(services: impl IntoIterator<Item = ServiceUuid>) -> Vec<ServiceId> {
+        if services.into_iter().next().is_none() {
+            Vec::new()
+        } else {
+            panic!("invalid service UUID")
+        }
+    }
+
+    fn service_ids_n_unchecked<const N: usize>(services: &[ServiceUuid; N]) -> [ServiceId; N] {
+        super::fill_service_id_array(services, |_| panic!("invalid service UUID"))
+    }
+
     pub(crate) fn service_ids(
         &self,
         object: ObjectUuid,
         services: impl IntoIterator<Item = ServiceUuid>,
     ) -> Option<Vec<ServiceId>> {
-        assert_eq!(object, self.object);
-
-        if services.into_iter().next().is_none() {
-            Some(Vec::new())
-        } else {
-            panic!("invalid service UUID")
-        }
+        self.object_id(object)
+            .map(|_| Self::service_ids_unchecked(services))
     }
 
     pub(crate) fn service_ids_n<const N: usize>(
@@ -67,13 +74,8 @@ where
         object: ObjectUuid,
         services: &[ServiceUuid; N],
     ) -> Option<[ServiceId; N]> {
-        assert_eq!(object, self.object);
-
-        if services.is_empty() {
-            Some(super::fill_service_id_array(services, |_| unreachable!()))
-        } else {
-            panic!("invalid service UUID")
-        }
+        self.object_id(object)
+            .map(|_| Self::service_ids_n_unchecked(services))
     }
 
     pub(crate) fn contains(&self, object: ObjectUuid) -> bool {
@@ -184,4 +186,18 @@ where
     pub(crate) fn object_id(self) -> ObjectId {
         self.object.object_id_unchecked()
     }
+
+    pub(crate) fn service_ids(
+        self,
+        services: impl IntoIterator<Item = ServiceUuid>,
+    ) -> Vec<ServiceId> {
+        SpecificObjectWithoutServices::<Key>::service_ids_unchecked(services)
+    }
+
+    pub(crate) fn service_ids_n<const N: usize>(
+        self,
+        services: &[ServiceUuid; N],
+    ) -> [ServiceId; N] {
+        SpecificObjectWithoutServices::<Key>::service_ids_n_unchecked(services)
+    }
 }
-- 
2.43.0


From 349100e19d3d02aa0bddb10e3808fb196eb367f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:13 +0000
Subject: [PATCH 11/28] fix: don't close channel ends that could not be claimed

A handle to an unclaimed end counted as the claimed end already while its claim was in progress.
If the claim failed, then dropping it closed the end (possibly that of another handle of the same
client) as a claimed one, which the client doesn't know about, or takes for the other one.
---
 aldrin/src/client.rs                        | 10 +++++++---
 aldrin/src/handle.rs                        | 13 +++++--------
 aldrin/src/handle/request.rs                | 11 +++++------
 aldrin/src/low_level/channel/established.rs | 20 ++++++++++++++++++++
 aldrin/src/low_level/channel/raw.rs         |  5 -----
 aldrin/src/low_level/channel/unclaimed.rs   | 21 ++++++++-------------
 6 files changed, 45 insertions(+), 35 deletions(-)

diff --git a/aldrin/src/client.rs b/aldrin/src/client.rs
index c3e44f9..dc0f321 100644
--- a/aldrin/src/client.rs
+++ b/aldrin/src/client.rs
@@ -19,7 +19,8 @@ use crate::handle::request::{
 };
 use crate::lifetime::LifetimeListener;
 use crate::low_level::{
-    PendingReceiver, PendingSender, ProxyId, RawCall, Service, UnclaimedReceiver, UnclaimedSender,
+    PendingReceiver, PendingSender, ProxyId, RawCall, Receiver, Sender, Service, UnclaimedReceiver,
+    UnclaimedSender,
 };
 use crate::serial_map::SerialMap;
 use crate::{BusListener, ClientBuilder, Error, Handle, Object};
@@ -672,7 +673,8 @@ where
                         .senders
                         .insert(req.cookie, SenderState::Established(send));
                     debug_assert!(dup.is_none());
-                    let _ = req.reply.send(Ok((recv, capacity)));
+                    let sender = Sender::claimed(self.handle.clone(), req.cookie, recv, capacity);
+                    let _ = req.reply.send(Ok(sender));
                 }
 
                 ClaimChannelEndResult::ReceiverClaimed => {
@@ -695,7 +697,9 @@ where
                         .receivers
                         .insert(req.cookie, ReceiverState::Established(send));
                     debug_assert!(dup.is_none());
-                    let _ = req.reply.send(Ok((recv, req.capacity)));
+                    let receiver =
+                        Receiver::claimed(self.handle.clone(), req.cookie, recv, req.capacity);
+                    let _ = req.reply.send(Ok(receiver));
                 }
 
                 ClaimChannelEndResult::InvalidChannel | ClaimChannelEndResult::AlreadyClaimed => {
diff --git a/aldrin/src/handle.rs b/aldrin/src/handle.rs
index 7cc3a7a..de2ef14 100644
--- a/aldrin/src/handle.rs
+++ b/aldrin/src/handle.rs
@@ -3,8 +3,8 @@ pub(crate) mod request;
 use crate::discoverer::DiscovererBuilder;
 use crate::lifetime::LifetimeListener;
 use crate::low_level::{
-    self, PendingReceiver, PendingReply, PendingSender, Proxy, ProxyId, Service, ServiceInfo,
-    UnclaimedReceiver, UnclaimedSender,
+    self, PendingReceiver, PendingReply, PendingSender, Proxy, ProxyId, Receiver, Sender, Service,
+    ServiceInfo, UnclaimedReceiver, UnclaimedSender,
 };
 use crate::{
     BusListener, ChannelBuilder, Discoverer, Error, Lifetime, LifetimeId, LifetimeScope, Object,
@@ -24,7 +24,7 @@ use aldrin_core::{
     ObjectCookie, ObjectId, ObjectUuid, ProtocolVersion, Serialize, SerializedValue, ServiceId,
     ServiceUuid,
 };
-use futures_channel::mpsc::{UnboundedReceiver, UnboundedSender};
+use futures_channel::mpsc::UnboundedSender;
 use futures_channel::oneshot;
 #[cfg(feature = "introspection")]
 use request::QueryIntrospectionRequest;
@@ -336,10 +336,7 @@ impl Handle {
         Ok(CloseChannelEndFuture(recv))
     }
 
-    pub(crate) async fn claim_sender(
-        &self,
-        cookie: ChannelCookie,
-    ) -> Result<(UnboundedReceiver<u32>, u32), Error> {
+    pub(crate) async fn claim_sender(&self, cookie: ChannelCookie) -> Result<Sender, Error> {
         let (reply, recv) = oneshot::channel();
         self.send
             .unbounded_send(HandleRequest::ClaimSender(ClaimSenderRequest {
@@ -355,7 +352,7 @@ impl Handle {
         &self,
         cookie: ChannelCookie,
         capacity: u32,
-    ) -> Result<(UnboundedReceiver<SerializedValue>, NonZeroU32), Error> {
+    ) -> Result<Receiver, Error> {
         let capacity = NonZeroU32::new(capacity).unwrap_or(NonZeroU32::new(1).unwrap());
 
         let (reply, recv) = oneshot::channel();
diff --git a/aldrin/src/handle/request.rs b/aldrin/src/handle/request.rs
index 2891407..6ba02c8 100644
--- a/aldrin/src/handle/request.rs
+++ b/aldrin/src/handle/request.rs
@@ -1,8 +1,8 @@
 use crate::bus_listener::BusListener;
 use crate::lifetime::LifetimeListener;
 use crate::low_level::{
-    PendingReceiver, PendingSender, Proxy, ProxyId, Service, ServiceInfo, UnclaimedReceiver,
-    UnclaimedSender,
+    PendingReceiver, PendingSender, Proxy, ProxyId, Receiver, Sender, Service, ServiceInfo,
+    UnclaimedReceiver, UnclaimedSender,
 };
 use crate::{Error, Object};
 #[cfg(feature = "introspection")]
@@ -18,7 +18,7 @@ use aldrin_core::{
     BusListenerCookie, BusListenerScope, ChannelCookie, ChannelEnd, ObjectCookie, ObjectId,
     ObjectUuid, ProtocolVersion, SerializedValue, ServiceCookie, ServiceId, ServiceUuid,
 };
-use futures_channel::{mpsc, oneshot};
+use futures_channel::oneshot;
 use std::num::NonZeroU32;
 use std::time::Instant;
 
@@ -133,15 +133,14 @@ pub(crate) struct CloseChannelEndRequest {
 #[derive(Debug)]
 pub(crate) struct ClaimSenderRequest {
     pub cookie: ChannelCookie,
-    pub reply: oneshot::Sender<Result<(mpsc::UnboundedReceiver<u32>, u32), Error>>,
+    pub reply: oneshot::Sender<Result<Sender, Error>>,
 }
 
 #[derive(Debug)]
 pub(crate) struct ClaimReceiverRequest {
     pub cookie: ChannelCookie,
     pub capacity: NonZeroU32,
-    pub reply:
-        oneshot::Sender<Result<(mpsc::UnboundedReceiver<SerializedValue>, NonZeroU32), Error>>,
+    pub reply: oneshot::Sender<Result<Receiver, Error>>,
 }
 
 #[derive(Debug)]
diff --git a/aldrin/src/low_level/channel/established.rs b/aldrin/src/low_level/channel/established.rs
index a9db949..c360bd6 100644
--- a/aldrin/src/low_level/channel/established.rs
+++ b/aldrin/src/low_level/channel/established.rs
@@ -40,6 +40,16 @@ impl Sender {
         }
     }
 
+    pub(crate) fn claimed(
+        client: Handle,
+        cookie: ChannelCookie,
+        capacity_added: mpsc::UnboundedReceiver<u32>,
+        capacity: u32,
+    ) -> Self {
+        let inner = RawChannel::claimed(client, cookie);
+        Self::new(inner, capacity_added, capacity)
+    }
+
     /// Returns a [`Handle`] to the associated client.
     pub fn client(&self) -> &Handle {
         self.inner.client()
@@ -275,6 +285,16 @@ impl Receiver {
         }
     }
 
+    pub(crate) fn claimed(
+        client: Handle,
+        cookie: ChannelCookie,
+        items: mpsc::UnboundedReceiver<SerializedValue>,
+        max_capacity: NonZeroU32,
+    ) -> Self {
+        let inner = RawChannel::claimed(client, cookie);
+        Self::new(inner, items, max_capacity)
+    }
+
     /// Returns a [`Handle`] to the associated client.
     pub fn client(&self) -> &Handle {
         self.inner.client()
diff --git a/aldrin/src/low_level/channel/raw.rs b/aldrin/src/low_level/channel/raw.rs
index cc832ab..9125d42 100644
--- a/aldrin/src/low_level/channel/raw.rs
+++ b/aldrin/src/low_level/channel/raw.rs
@@ -71,11 +71,6 @@ impl<const SENDER: bool> RawChannel<SENDER> {
         self.cookie
     }
 
-    pub(crate) fn set_claimed(&mut self) {
-        debug_assert!(!self.claimed);
-        self.claimed = true;
-    }
-
     fn begin_close(&mut self) -> Result<CloseChannelEndFuture, Error> {
         self.client
             .close_channel_end(self.cookie, Self::channel_end(), self.claimed)
diff --git a/aldrin/src/low_level/channel/unclaimed.rs b/aldrin/src/low_level/channel/unclaimed.rs
index a4755f5..5d1d1ac 100644
--- a/aldrin/src/low_level/channel/unclaimed.rs
+++ b/aldrin/src/low_level/channel/unclaimed.rs
@@ -114,10 +114,10 @@ impl UnclaimedSender {
     /// # Ok(())
     /// # }
     /// ```
-    pub async fn claim(mut self) -> Result<Sender, Error> {
-        self.inner.set_claimed();
-        let (capacity_added, capacity) = self.client().claim_sender(self.cookie()).await?;
-        Ok(Sender::new(self.inner, capacity_added, capacity))
+    pub async fn claim(self) -> Result<Sender, Error> {
+        let client = self.client().clone();
+        let cookie = self.inner.unbind();
+        client.claim_sender(cookie).await
     }
 }
 
@@ -232,14 +232,9 @@ impl UnclaimedReceiver {
     /// # Ok(())
     /// # }
     /// ```
-    pub async fn claim(mut self, capacity: u32) -> Result<Receiver, Error> {
-        self.inner.set_claimed();
-
-        let (items, max_capacity) = self
-            .client()
-            .claim_receiver(self.cookie(), capacity)
-            .await?;
-
-        Ok(Receiver::new(self.inner, items, max_capacity))
+    pub async fn claim(self, capacity: u32) -> Result<Receiver, Error> {
+        let client = self.client().clone();
+        let cookie = self.inner.unbind();
+        client.claim_receiver(cookie, capacity).await
     }
 }
-- 
2.43.0


From 3b5dc2d5ae979ed852895d20460b8e18945bbf3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:47 +0000
Subject: [PATCH 12/28] fix: don't underflow when polling a destroyed bus
 listener

Destroying a bus listener resets what it still expects, but not what it has received already.
---
 aldrin/src/bus_listener.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aldrin/src/bus_listener.rs b/aldrin/src/bus_listener.rs
index 3d803aa..333d8bb 100644
--- a/aldrin/src/bus_listener.rs
+++ b/aldrin/src/bus_listener.rs
@@ -399,12 +399,12 @@ impl BusListener {
             match Pin::new(&mut self.events).poll_next(cx) {
                 Poll::Ready(Some(BusListenerEvent::Started(scope))) => {
                     self.scope = Some(scope);
-                    self.pending_started -= 1;
+                    self.pending_started = self.pending_started.saturating_sub(1);
                 }
 
                 Poll::Ready(Some(BusListenerEvent::Stopped)) => {
                     self.scope = None;
-                    self.pending_stopped -= 1;
+                    self.pending_stopped = self.pending_stopped.saturating_sub(1);
                 }
 
                 Poll::Ready(Some(BusListenerEvent::Event(event))) => {
@@ -412,7 +412,7 @@ impl BusListener {
                 }
 
                 Poll::Ready(Some(BusListenerEvent::CurrentFinished)) => {
-                    self.pending_current_finished -= 1;
+                    self.pending_current_finished = self.pending_current_finished.saturating_sub(1);
                 }
 
                 Poll::Ready(None) => break Poll::Ready(None),
-- 
2.43.0


From 03de183fa6e6585ef1aac535813f9f9027be25dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:23 +0000
Subject: [PATCH 13/28] fix: make starting and stopping a bus listener cancel
 safe

The bus listener counted the notifications it expects only when start() or stop() completed. If
either was cancelled, then the notifications arrived anyway and the counters underflowed.
---
 aldrin/src/bus_listener.rs | 72 +++++++++++++++++++++++++++++++-------
 aldrin/src/handle.rs       | 55 +++++++++++++++++++++--------
 aldrin/src/lifetime.rs     |  2 +-
 3 files changed, 100 insertions(+), 29 deletions(-)

diff --git a/aldrin/src/bus_listener.rs b/aldrin/src/bus_listener.rs
index 333d8bb..187520f 100644
--- a/aldrin/src/bus_listener.rs
+++ b/aldrin/src/bus_listener.rs
@@ -2,12 +2,12 @@
 mod test;
 
 use crate::error::Error;
-use crate::handle::Handle;
+use crate::handle::{Handle, StartBusListenerFuture, StopBusListenerFuture};
 use aldrin_core::{BusEvent, BusListenerCookie, BusListenerFilter, BusListenerScope};
 use futures_channel::mpsc::{UnboundedReceiver, UnboundedSender};
 use futures_core::stream::{FusedStream, Stream};
 use std::collections::HashSet;
-use std::future;
+use std::future::{self, Future};
 use std::pin::Pin;
 use std::task::{Context, Poll};
 
@@ -89,6 +89,7 @@ pub struct BusListener {
     client: Handle,
     filters: HashSet<BusListenerFilter>,
     scope: Option<BusListenerScope>,
+    request: Option<Request>,
     pending_started: usize,
     pending_stopped: usize,
     pending_current_finished: usize,
@@ -111,6 +112,7 @@ impl BusListener {
             client,
             filters: HashSet::new(),
             scope: None,
+            request: None,
             pending_started: 0,
             pending_stopped: 0,
             pending_current_finished: 0,
@@ -133,6 +135,7 @@ impl BusListener {
         self.client.destroy_bus_listener(self.cookie).await?;
 
         self.events.close();
+        self.request = None;
         self.pending_started = 0;
         self.pending_stopped = 0;
         self.pending_current_finished = 0;
@@ -346,21 +349,50 @@ impl BusListener {
     ///
     /// Bus listeners can only be started when they are stopped.
     pub async fn start(&mut self, scope: BusListenerScope) -> Result<(), Error> {
-        self.client.start_bus_listener(self.cookie, scope).await?;
-        self.pending_started += 1;
-
-        if scope.includes_current() {
-            self.pending_current_finished += 1;
-        }
-
-        Ok(())
+        self.finish_request().await;
+        let start = self.client.start_bus_listener(self.cookie, scope)?;
+        self.request = Some(Request::Start(scope, start));
+        future::poll_fn(|cx| self.poll_request(cx)).await
     }
 
     /// Stops the bus listener.
     pub async fn stop(&mut self) -> Result<(), Error> {
-        self.client.stop_bus_listener(self.cookie).await?;
-        self.pending_stopped += 1;
-        Ok(())
+        self.finish_request().await;
+        let stop = self.client.stop_bus_listener(self.cookie)?;
+        self.request = Some(Request::Stop(stop));
+        future::poll_fn(|cx| self.poll_request(cx)).await
+    }
+
+    // A previous call to start() or stop() might have been cancelled, but it still has its effect.
+    async fn finish_request(&mut self) {
+        let _ = future::poll_fn(|cx| self.poll_request(cx)).await;
+    }
+
+    fn poll_request(&mut self, cx: &mut Context) -> Poll<Result<(), Error>> {
+        let res = match self.request {
+            Some(Request::Start(_, ref mut start)) => Pin::new(start).poll(cx),
+            Some(Request::Stop(ref mut stop)) => Pin::new(stop).poll(cx),
+            None => Poll::Ready(Ok(())),
+        };
+
+        let Poll::Ready(res) = res else {
+            return Poll::Pending;
+        };
+
+        match (self.request.take(), res) {
+            (Some(Request::Start(scope, _)), Ok(())) => {
+                self.pending_started += 1;
+
+                if scope.includes_current() {
+                    self.pending_current_finished += 1;
+                }
+            }
+
+            (Some(Request::Stop(_)), Ok(())) => self.pending_stopped += 1,
+            _ => {}
+        }
+
+        Poll::Ready(res)
     }
 
     /// Returns the bus listener's active scope, if any.
@@ -384,6 +416,7 @@ impl BusListener {
     pub fn is_finished(&self) -> bool {
         self.events.is_terminated()
             || (!self.includes_new()
+                && self.request.is_none()
                 && (self.pending_started == 0)
                 && (self.pending_stopped == 0)
                 && (self.pending_current_finished == 0))
@@ -396,6 +429,13 @@ impl BusListener {
                 break Poll::Ready(None);
             }
 
+            if self.request.is_some() {
+                match self.poll_request(cx) {
+                    Poll::Ready(_) => continue,
+                    Poll::Pending => break Poll::Pending,
+                }
+            }
+
             match Pin::new(&mut self.events).poll_next(cx) {
                 Poll::Ready(Some(BusListenerEvent::Started(scope))) => {
                     self.scope = Some(scope);
@@ -453,6 +493,12 @@ impl FusedStream for BusListener {
     }
 }
 
+#[derive(Debug)]
+enum Request {
+    Start(BusListenerScope, StartBusListenerFuture),
+    Stop(StopBusListenerFuture),
+}
+
 #[derive(Debug)]
 pub(crate) struct BusListenerHandle {
     filters: HashSet<BusListenerFilter>,
diff --git a/aldrin/src/handle.rs b/aldrin/src/handle.rs
index de2ef14..c97b902 100644
--- a/aldrin/src/handle.rs
+++ b/aldrin/src/handle.rs
@@ -549,11 +549,11 @@ impl Handle {
             .map_err(|_| Error::Shutdown)
     }
 
-    pub(crate) async fn start_bus_listener(
+    pub(crate) fn start_bus_listener(
         &self,
         cookie: BusListenerCookie,
         scope: BusListenerScope,
-    ) -> Result<(), Error> {
+    ) -> Result<StartBusListenerFuture, Error> {
         let (send, recv) = oneshot::channel();
         self.send
             .unbounded_send(HandleRequest::StartBusListener(StartBusListenerRequest {
@@ -563,15 +563,13 @@ impl Handle {
             }))
             .map_err(|_| Error::Shutdown)?;
 
-        let reply = recv.await.map_err(|_| Error::Shutdown)?;
-        match reply {
-            StartBusListenerResult::Ok => Ok(()),
-            StartBusListenerResult::InvalidBusListener => Err(Error::InvalidBusListener),
-            StartBusListenerResult::AlreadyStarted => Err(Error::BusListenerAlreadyStarted),
-        }
+        Ok(StartBusListenerFuture(recv))
     }
 
-    pub(crate) async fn stop_bus_listener(&self, cookie: BusListenerCookie) -> Result<(), Error> {
+    pub(crate) fn stop_bus_listener(
+        &self,
+        cookie: BusListenerCookie,
+    ) -> Result<StopBusListenerFuture, Error> {
         let (send, recv) = oneshot::channel();
         self.send
             .unbounded_send(HandleRequest::StopBusListener(StopBusListenerRequest {
@@ -580,12 +578,7 @@ impl Handle {
             }))
             .map_err(|_| Error::Shutdown)?;
 
-        let reply = recv.await.map_err(|_| Error::Shutdown)?;
-        match reply {
-            StopBusListenerResult::Ok => Ok(()),
-            StopBusListenerResult::InvalidBusListener => Err(Error::InvalidBusListener),
-            StopBusListenerResult::NotStarted => Err(Error::BusListenerNotStarted),
-        }
+        Ok(StopBusListenerFuture(recv))
     }
 
     /// Create a new `DiscovererBuilder`.
@@ -1074,3 +1067,35 @@ impl Future for CloseChannelEndFuture {
         }
     }
 }
+
+#[derive(Debug)]
+pub(crate) struct StartBusListenerFuture(oneshot::Receiver<StartBusListenerResult>);
+
+impl Future for StartBusListenerFuture {
+    type Output = Result<(), Error>;
+
+    fn poll(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Self::Output> {
+        Pin::new(&mut self.0).poll(cx).map(|res| match res {
+            Ok(StartBusListenerResult::Ok) => Ok(()),
+            Ok(StartBusListenerResult::InvalidBusListener) => Err(Error::InvalidBusListener),
+            Ok(StartBusListenerResult::AlreadyStarted) => Err(Error::BusListenerAlreadyStarted),
+            Err(oneshot::Canceled) => Err(Error::Shutdown),
+        })
+    }
+}
+
+#[derive(Debug)]
+pub(crate) struct StopBusListenerFuture(oneshot::Receiver<StopBusListenerResult>);
+
+impl Future for StopBusListenerFuture {
+    type Output = Result<(), Error>;
+
+    fn poll(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Self::Output> {
+        Pin::new(&mut self.0).poll(cx).map(|res| match res {
+            Ok(StopBusListenerResult::Ok) => Ok(()),
+            Ok(StopBusListenerResult::InvalidBusListener) => Err(Error::InvalidBusListener),
+            Ok(StopBusListenerResult::NotStarted) => Err(Error::BusListenerNotStarted),
+            Err(oneshot::Canceled) => Err(Error::Shutdown),
+        })
+    }
+}
diff --git a/aldrin/src/lifetime.rs b/aldrin/src/lifetime.rs
index dacf237..1493a81 100644
--- a/aldrin/src/lifetime.rs
+++ b/aldrin/src/lifetime.rs
@@ -336,7 +336,7 @@ impl LifetimeListener {
             .add_bus_listener_filter(self.cookie, BusListenerFilter::object(uuid))?;
 
         self.client
-            .start_bus_listener(self.cookie, BusListenerScope::All)
+            .start_bus_listener(self.cookie, BusListenerScope::All)?
             .await?;
 
         Ok(())
-- 
2.43.0


From 9b7799417fcdd7d7ea5521751e0961395317b9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:24 +0000
Subject: [PATCH 14/28] fix: don't spin on calls aborted while a client shuts
 down

While draining the transport, aborted calls were left as they are, such that select() returned them
immediately again, without ever yielding to the executor.
---
 aldrin/src/client.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/aldrin/src/client.rs b/aldrin/src/client.rs
index dc0f321..6f43d6c 100644
--- a/aldrin/src/client.rs
+++ b/aldrin/src/client.rs
@@ -315,9 +315,10 @@ where
                     return Err(RunError::Transport(e))
                 }
 
-                Selected::Transport(Ok(_))
-                | Selected::Handle(_)
-                | Selected::AbortFunctionCall(_) => {}
+                // Keeps select() from returning the same call over and over again.
+                Selected::AbortFunctionCall(serial) => self.function_calls.abort(serial),
+
+                Selected::Transport(Ok(_)) | Selected::Handle(_) => {}
             }
         }
 
-- 
2.43.0


From ed87acf4d1e213eb4d9b57dae32969f24ee2f8c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:28 +0000
Subject: [PATCH 15/28] fix: report the same diagnostics in the same order
 every time

Schemas and duplicates were iterated in the order of hash maps. Which
service a duplicate UUID was reported for thus varied from one run to the
next, and so did the order of all diagnostics.
---
 parser/src/error/duplicate_service_uuid.rs | 4 ++--
 parser/src/link_resolver.rs                | 6 +++---
 parser/src/parser.rs                       | 8 ++++----
 parser/src/util.rs                         | 7 +++----
 parser/src/validate.rs                     | 6 +++---
 5 files changed, 15 insertions(+), 16 deletions(-)

diff --git a/parser/src/error/duplicate_service_uuid.rs b/parser/src/error/duplicate_service_uuid.rs
index 4255122..6006b37 100644
--- a/parser/src/error/duplicate_service_uuid.rs
+++ b/parser/src/error/duplicate_service_uuid.rs
@@ -3,7 +3,7 @@ use crate::ast::{Ident, LitUuid};
 use crate::diag::{Diagnostic, DiagnosticKind, Renderer};
 use crate::issues::Issues;
 use crate::{Parser, Schema};
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 #[derive(Debug)]
 pub(crate) struct DuplicateServiceUuid {
@@ -17,7 +17,7 @@ impl DuplicateServiceUuid {
     where
         I: IntoIterator<Item = &'a Schema>,
     {
-        let mut uuids: HashMap<_, Vec<_>> = HashMap::new();
+        let mut uuids: BTreeMap<_, Vec<_>> = BTreeMap::new();
 
         for schema in schemas {
             for def in schema.definitions() {
diff --git a/parser/src/link_resolver.rs b/parser/src/link_resolver.rs
index 797dfe6..189c35b 100644
--- a/parser/src/link_resolver.rs
+++ b/parser/src/link_resolver.rs
@@ -7,7 +7,7 @@ use crate::ast::{
     StructDef, StructFallback, StructField, TypeNameOrInline,
 };
 use crate::{Parser, Schema, Span};
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 use std::mem;
 use thiserror::Error;
 
@@ -16,7 +16,7 @@ type ResolveResult<'a> = Result<'a, ResolvedLink<'a>>;
 
 #[derive(Debug, Copy, Clone)]
 pub struct LinkResolver<'a> {
-    schemas: &'a HashMap<String, Schema>,
+    schemas: &'a BTreeMap<String, Schema>,
     schema: &'a Schema,
 }
 
@@ -25,7 +25,7 @@ impl<'a> LinkResolver<'a> {
         Self::from_parts(parser.schemas(), schema)
     }
 
-    pub(crate) fn from_parts(schemas: &'a HashMap<String, Schema>, schema: &'a Schema) -> Self {
+    pub(crate) fn from_parts(schemas: &'a BTreeMap<String, Schema>, schema: &'a Schema) -> Self {
         Self { schemas, schema }
     }
 
diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index ea4709a..e7f0124 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -2,13 +2,13 @@ use crate::error::DuplicateServiceUuid;
 use crate::issues::Issues;
 use crate::validate::Validate;
 use crate::{Error, Resolver, Schema, Warning};
-use std::collections::hash_map::{Entry, HashMap};
+use std::collections::btree_map::{BTreeMap, Entry};
 use std::iter;
 
 #[derive(Debug)]
 pub struct Parser {
     main_schema: String,
-    schemas: HashMap<String, Schema>,
+    schemas: BTreeMap<String, Schema>,
     issues: Issues,
 }
 
@@ -19,7 +19,7 @@ impl Parser {
 
         let mut this = Self {
             main_schema: main_schema.name().to_owned(),
-            schemas: HashMap::from_iter(iter::once((main_schema.name().to_owned(), main_schema))),
+            schemas: BTreeMap::from_iter(iter::once((main_schema.name().to_owned(), main_schema))),
             issues,
         };
 
@@ -88,7 +88,7 @@ impl Parser {
         self.issues.other_warnings()
     }
 
-    pub(crate) fn schemas(&self) -> &HashMap<String, Schema> {
+    pub(crate) fn schemas(&self) -> &BTreeMap<String, Schema> {
         &self.schemas
     }
 }
diff --git a/parser/src/util.rs b/parser/src/util.rs
index 732dfc2..efc02f3 100644
--- a/parser/src/util.rs
+++ b/parser/src/util.rs
@@ -5,9 +5,8 @@ use crate::validate::Validate;
 use crate::Schema;
 use heck::{AsShoutySnakeCase, AsSnakeCase, AsUpperCamelCase};
 use std::cmp::Ordering;
-use std::collections::{HashMap, HashSet};
+use std::collections::{BTreeMap, HashSet};
 use std::fmt;
-use std::hash::Hash;
 use Language::Rust;
 use ReservedKind::{Builtin, Keyword};
 
@@ -185,10 +184,10 @@ pub(crate) fn find_duplicates<I, KFN, K, DFN>(iter: I, mut key_fn: KFN, mut dup_
 where
     I: IntoIterator,
     KFN: FnMut(&I::Item) -> K,
-    K: Hash + Eq,
+    K: Ord,
     DFN: FnMut(I::Item, &I::Item),
 {
-    let mut candidates: HashMap<_, Vec<_>> = HashMap::new();
+    let mut candidates: BTreeMap<_, Vec<_>> = BTreeMap::new();
 
     for elem in iter {
         candidates.entry(key_fn(&elem)).or_default().push(elem);
diff --git a/parser/src/validate.rs b/parser/src/validate.rs
index db6e903..b423a62 100644
--- a/parser/src/validate.rs
+++ b/parser/src/validate.rs
@@ -1,11 +1,11 @@
 use crate::issues::Issues;
 use crate::{Error, LinkResolver, Schema, Warning};
-use std::collections::HashMap;
+use std::collections::BTreeMap;
 
 pub(crate) struct Validate<'a> {
     schema_name: &'a str,
     issues: &'a mut Issues,
-    schemas: &'a HashMap<String, Schema>,
+    schemas: &'a BTreeMap<String, Schema>,
     is_main_schema: bool,
 }
 
@@ -13,7 +13,7 @@ impl<'a> Validate<'a> {
     pub(crate) fn new(
         schema_name: &'a str,
         issues: &'a mut Issues,
-        schemas: &'a HashMap<String, Schema>,
+        schemas: &'a BTreeMap<String, Schema>,
         is_main_schema: bool,
     ) -> Self {
         Validate {
-- 
2.43.0


From 568d941981069901851beaf3e7c820a23a8abf44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:16 +0000
Subject: [PATCH 16/28] fix: don't overflow when looking for free ids

Suggesting an id for a duplicate panicked when the largest possible id was
already taken.
---
 parser/src/error/duplicate_enum_variant_id.rs | 10 ++--------
 parser/src/error/duplicate_event_id.rs        | 10 ++--------
 parser/src/error/duplicate_function_id.rs     | 10 ++--------
 parser/src/error/duplicate_struct_field_id.rs | 10 ++--------
 parser/src/util.rs                            | 15 ++++++++++++++-
 5 files changed, 22 insertions(+), 33 deletions(-)

diff --git a/parser/src/error/duplicate_enum_variant_id.rs b/parser/src/error/duplicate_enum_variant_id.rs
index 57b2c74..bab4031 100644
--- a/parser/src/error/duplicate_enum_variant_id.rs
+++ b/parser/src/error/duplicate_enum_variant_id.rs
@@ -15,25 +15,19 @@ pub(crate) struct DuplicateEnumVariantId {
 
 impl DuplicateEnumVariantId {
     pub(crate) fn validate(vars: &[EnumVariant], ident: Option<&Ident>, validate: &mut Validate) {
-        let mut max_id = vars
-            .iter()
-            .filter_map(|var| var.id().value().parse().ok())
-            .max()
-            .unwrap_or(0);
+        let mut free_ids = util::free_ids(vars.iter().map(|var| var.id()));
 
         util::find_duplicates(
             vars.iter()
                 .filter(|var| var.id().value().parse::<u32>().is_ok()),
             |var| var.id().value(),
             |duplicate, first| {
-                max_id += 1;
-                let free_id = max_id;
                 validate.add_error(Self {
                     schema_name: validate.schema_name().to_owned(),
                     duplicate: duplicate.id().clone(),
                     first: first.id().span(),
                     enum_ident: ident.cloned(),
-                    free_id,
+                    free_id: free_ids.next().unwrap_or_default(),
                 })
             },
         );
diff --git a/parser/src/error/duplicate_event_id.rs b/parser/src/error/duplicate_event_id.rs
index 28630df..ebb8e2c 100644
--- a/parser/src/error/duplicate_event_id.rs
+++ b/parser/src/error/duplicate_event_id.rs
@@ -20,24 +20,18 @@ impl DuplicateEventId {
             _ => None,
         });
 
-        let mut max_id = events
-            .clone()
-            .filter_map(|ev| ev.id().value().parse().ok())
-            .max()
-            .unwrap_or(0);
+        let mut free_ids = util::free_ids(events.clone().map(|ev| ev.id()));
 
         util::find_duplicates(
             events.filter(|ev| ev.id().value().parse::<u32>().is_ok()),
             |ev| ev.id().value(),
             |duplicate, first| {
-                max_id += 1;
-                let free_id = max_id;
                 validate.add_error(Self {
                     schema_name: validate.schema_name().to_owned(),
                     duplicate: duplicate.id().clone(),
                     first: first.id().span(),
                     service_ident: service.name().clone(),
-                    free_id,
+                    free_id: free_ids.next().unwrap_or_default(),
                 })
             },
         );
diff --git a/parser/src/error/duplicate_function_id.rs b/parser/src/error/duplicate_function_id.rs
index d5ff66b..5e4f815 100644
--- a/parser/src/error/duplicate_function_id.rs
+++ b/parser/src/error/duplicate_function_id.rs
@@ -20,24 +20,18 @@ impl DuplicateFunctionId {
             _ => None,
         });
 
-        let mut max_id = funcs
-            .clone()
-            .filter_map(|func| func.id().value().parse().ok())
-            .max()
-            .unwrap_or(0);
+        let mut free_ids = util::free_ids(funcs.clone().map(|func| func.id()));
 
         util::find_duplicates(
             funcs.filter(|func| func.id().value().parse::<u32>().is_ok()),
             |func| func.id().value(),
             |duplicate, first| {
-                max_id += 1;
-                let free_id = max_id;
                 validate.add_error(Self {
                     schema_name: validate.schema_name().to_owned(),
                     duplicate: duplicate.id().clone(),
                     first: first.id().span(),
                     service_ident: service.name().clone(),
-                    free_id,
+                    free_id: free_ids.next().unwrap_or_default(),
                 })
             },
         );
diff --git a/parser/src/error/duplicate_struct_field_id.rs b/parser/src/error/duplicate_struct_field_id.rs
index bd72993..24ed2ec 100644
--- a/parser/src/error/duplicate_struct_field_id.rs
+++ b/parser/src/error/duplicate_struct_field_id.rs
@@ -15,11 +15,7 @@ pub(crate) struct DuplicateStructFieldId {
 
 impl DuplicateStructFieldId {
     pub(crate) fn validate(fields: &[StructField], ident: Option<&Ident>, validate: &mut Validate) {
-        let mut max_id = fields
-            .iter()
-            .filter_map(|field| field.id().value().parse().ok())
-            .max()
-            .unwrap_or(0);
+        let mut free_ids = util::free_ids(fields.iter().map(|field| field.id()));
 
         util::find_duplicates(
             fields
@@ -27,14 +23,12 @@ impl DuplicateStructFieldId {
                 .filter(|field| field.id().value().parse::<u32>().is_ok()),
             |field| field.id().value(),
             |duplicate, first| {
-                max_id += 1;
-                let free_id = max_id;
                 validate.add_error(Self {
                     schema_name: validate.schema_name().to_owned(),
                     duplicate: duplicate.id().clone(),
                     first: first.id().span(),
                     struct_ident: ident.cloned(),
-                    free_id,
+                    free_id: free_ids.next().unwrap_or_default(),
                 })
             },
         );
diff --git a/parser/src/util.rs b/parser/src/util.rs
index efc02f3..3804e18 100644
--- a/parser/src/util.rs
+++ b/parser/src/util.rs
@@ -1,5 +1,5 @@
 use crate::ast::{
-    ConstValue, Definition, EnumDef, NamedRef, NamedRefKind, StructDef, TypeNameKind,
+    ConstValue, Definition, EnumDef, LitInt, NamedRef, NamedRefKind, StructDef, TypeNameKind,
 };
 use crate::validate::Validate;
 use crate::Schema;
@@ -206,6 +206,19 @@ where
     }
 }
 
+/// Returns ids, which aren't used by any of `ids`, preferably those following the largest.
+pub(crate) fn free_ids<'a>(ids: impl Iterator<Item = &'a LitInt>) -> impl Iterator<Item = u32> {
+    let used = ids
+        .filter_map(|id| id.value().parse().ok())
+        .collect::<HashSet<u32>>();
+
+    let next = used.iter().max().map_or(1, |max| max.saturating_add(1));
+
+    (next..=u32::MAX)
+        .chain(0..next)
+        .filter(move |id| !used.contains(id))
+}
+
 pub(crate) fn resolves_to_key_type<'a>(
     mut kind: &'a TypeNameKind,
     mut schema: &'a Schema,
-- 
2.43.0


From ccd0aba110c8bdb5b50c6efd9700ea044923e84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:27 +0000
Subject: [PATCH 17/28] fix: detect duplicate ids that are written differently

Ids were compared as strings, such that 1 and 01 weren't seen as
duplicates, although they are the same id in the generated code.
---
 parser/src/error/duplicate_enum_variant_id.rs | 2 +-
 parser/src/error/duplicate_event_id.rs        | 2 +-
 parser/src/error/duplicate_function_id.rs     | 2 +-
 parser/src/error/duplicate_struct_field_id.rs | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/parser/src/error/duplicate_enum_variant_id.rs b/parser/src/error/duplicate_enum_variant_id.rs
index bab4031..2b16305 100644
--- a/parser/src/error/duplicate_enum_variant_id.rs
+++ b/parser/src/error/duplicate_enum_variant_id.rs
@@ -20,7 +20,7 @@ impl DuplicateEnumVariantId {
         util::find_duplicates(
             vars.iter()
                 .filter(|var| var.id().value().parse::<u32>().is_ok()),
-            |var| var.id().value(),
+            |var| var.id().value().parse::<u32>().ok(),
             |duplicate, first| {
                 validate.add_error(Self {
                     schema_name: validate.schema_name().to_owned(),
diff --git a/parser/src/error/duplicate_event_id.rs b/parser/src/error/duplicate_event_id.rs
index ebb8e2c..93ba055 100644
--- a/parser/src/error/duplicate_event_id.rs
+++ b/parser/src/error/duplicate_event_id.rs
@@ -24,7 +24,7 @@ impl DuplicateEventId {
 
         util::find_duplicates(
             events.filter(|ev| ev.id().value().parse::<u32>().is_ok()),
-            |ev| ev.id().value(),
+            |ev| ev.id().value().parse::<u32>().ok(),
             |duplicate, first| {
                 validate.add_error(Self {
                     schema_name: validate.schema_name().to_owned(),
diff --git a/parser/src/error/duplicate_function_id.rs b/parser/src/error/duplicate_function_id.rs
index 5e4f815..5fe9651 100644
--- a/parser/src/error/duplicate_function_id.rs
+++ b/parser/src/error/duplicate_function_id.rs
@@ -24,7 +24,7 @@ impl DuplicateFunctionId {
 
         util::find_duplicates(
             funcs.filter(|func| func.id().value().parse::<u32>().is_ok()),
-            |func| func.id().value(),
+            |func| func.id().value().parse::<u32>().ok(),
             |duplicate, first| {
                 validate.add_error(Self {
                     schema_name: validate.schema_name().to_owned(),
diff --git a/parser/src/error/duplicate_struct_field_id.rs b/parser/src/error/duplicate_struct_field_id.rs
index 24ed2ec..0b1f112 100644
--- a/parser/src/error/duplicate_struct_field_id.rs
+++ b/parser/src/error/duplicate_struct_field_id.rs
@@ -21,7 +21,7 @@ impl DuplicateStructFieldId {
             fields
                 .iter()
                 .filter(|field| field.id().value().parse::<u32>().is_ok()),
-            |field| field.id().value(),
+            |field| field.id().value().parse::<u32>().ok(),
             |duplicate, first| {
                 validate.add_error(Self {
                     schema_name: validate.schema_name().to_owned(),
-- 
2.43.0


From 7939174a17eca974b3633bbc18238130f0b73194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:45 +0000
Subject: [PATCH 18/28] fix: visit every type only once when looking for
 recursion

Types were visited once per path that leads to them. The number of paths
grows exponentially with the number of types, when types are used more than
once, and parsing then doesn't finish.
---
 parser/src/error/recursive_type.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/parser/src/error/recursive_type.rs b/parser/src/error/recursive_type.rs
index 93871a5..d016192 100644
--- a/parser/src/error/recursive_type.rs
+++ b/parser/src/error/recursive_type.rs
@@ -6,6 +6,7 @@ use crate::ast::{
 use crate::diag::{Diagnostic, DiagnosticKind, Renderer};
 use crate::validate::Validate;
 use crate::{Parser, Schema};
+use std::collections::HashSet;
 use std::ops::ControlFlow;
 
 #[derive(Debug)]
@@ -157,6 +158,7 @@ impl From<RecursiveNewtype> for Error {
 
 struct Visitor<'a> {
     stack: Vec<(&'a str, Type<'a>)>,
+    visited: HashSet<(&'a str, &'a str)>,
     validate: &'a Validate<'a>,
 }
 
@@ -185,6 +187,7 @@ impl<'a> Visitor<'a> {
     fn new(validate: &'a Validate<'a>) -> Self {
         Self {
             stack: Vec::new(),
+            visited: HashSet::new(),
             validate,
         }
     }
@@ -318,26 +321,36 @@ impl<'a> Visitor<'a> {
             }
         };
 
+        // Without this, types would be visited once per path that leads to them.
+        if self.visited.contains(&(schema.name(), name)) {
+            return ControlFlow::Continue(());
+        }
+
         let mut defs = schema
             .definitions()
             .iter()
             .filter(|def| def.name().value() == name);
 
         match (defs.next(), defs.next()) {
-            (Some(Definition::Struct(struct_def)), None) => self.visit_struct(struct_def, schema),
-            (Some(Definition::Enum(enum_def)), None) => self.visit_enum(enum_def, schema),
+            (Some(Definition::Struct(struct_def)), None) => {
+                self.visit_struct(struct_def, schema)?
+            }
+            (Some(Definition::Enum(enum_def)), None) => self.visit_enum(enum_def, schema)?,
 
             (Some(Definition::Newtype(newtype_def)), None) => {
-                self.visit_newtype(newtype_def, schema)
+                self.visit_newtype(newtype_def, schema)?
             }
 
             (Some(Definition::Service(_)), _)
             | (Some(Definition::Const(_)), _)
             | (Some(_), Some(_))
-            | (None, None) => ControlFlow::Break(false),
+            | (None, None) => return ControlFlow::Break(false),
 
             (None, Some(_)) => unreachable!(),
         }
+
+        self.visited.insert((schema.name(), name));
+        ControlFlow::Continue(())
     }
 }
 
-- 
2.43.0


From c30c362d4472d14e988dbf0c27e255539145ee14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:23 +0000
Subject: [PATCH 19/28] fix: don't panic when rendering for very narrow
 terminals

---
 parser/src/diag.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/src/diag.rs b/parser/src/diag.rs
index a7123b6..d6ebb6a 100644
--- a/parser/src/diag.rs
+++ b/parser/src/diag.rs
@@ -51,7 +51,8 @@ impl Renderer {
             inner = inner.decor_style(DecorStyle::Unicode);
         };
 
-        inner = inner.term_width(term_width);
+        // annotate-snippets panics, when lines have to be shortened to just a few columns.
+        inner = inner.term_width(term_width.clamp(20, 10_000));
 
         Self { inner }
     }
-- 
2.43.0


From badbb1297b665b01e50d083425991ac75d42d54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:06 +0000
Subject: [PATCH 20/28] fix: accept blanks between a field named required and
 its id

The formatter puts a blank there, but required was then taken as the
keyword, such that the formatted schema couldn't be parsed anymore.
---
 parser/grammar.pest | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/grammar.pest b/parser/grammar.pest
index 9b7a73d..1f5ea44 100644
--- a/parser/grammar.pest
+++ b/parser/grammar.pest
@@ -61,7 +61,7 @@ kw_vec = @{ "vec" }
 kw_bytes = @{ "bytes" }
 kw_map = @{ "map" }
 kw_set = @{ "set" }
-kw_required = @{ "required" ~ &ws }
+kw_required = @{ "required" ~ &ws ~ !(WHITE_SPACE* ~ "@") }
 kw_option = @{ "option" }
 kw_version = @{ "version" }
 kw_args = @{ "args" }
-- 
2.43.0


From 265070c12051b392bf002fcad335469f2b1afbf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:26 +0000
Subject: [PATCH 21/28] fix: Escape doc strings in attributes of generated code

---
 codegen/src/rust.rs | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/codegen/src/rust.rs b/codegen/src/rust.rs
index 31f7b5f..37a70e8 100644
--- a/codegen/src/rust.rs
+++ b/codegen/src/rust.rs
@@ -239,7 +239,7 @@ impl RustGenerator<'_> {
         if doc_alt && self.options.introspection {
             for doc in doc {
                 let doc = doc.value_inner();
-                codeln!(self, "#[aldrin(doc = \"{doc}\")]");
+                codeln!(self, "#[aldrin(doc = {doc:?})]");
             }
         }
 
@@ -268,7 +268,7 @@ impl RustGenerator<'_> {
             if doc_alt && self.options.introspection {
                 for doc in field.doc() {
                     let doc = doc.value_inner();
-                    codeln!(self, "    #[aldrin(doc = \"{doc}\")]");
+                    codeln!(self, "    #[aldrin(doc = {doc:?})]");
                 }
             }
 
@@ -291,7 +291,7 @@ impl RustGenerator<'_> {
             if doc_alt && self.options.introspection {
                 for doc in fallback.doc() {
                     let doc = doc.value_inner();
-                    codeln!(self, "    #[aldrin(doc = \"{doc}\")]");
+                    codeln!(self, "    #[aldrin(doc = {doc:?})]");
                 }
             }
 
@@ -352,7 +352,7 @@ impl RustGenerator<'_> {
         if doc_alt && self.options.introspection {
             for doc in doc {
                 let doc = doc.value_inner();
-                codeln!(self, "#[aldrin(doc = \"{doc}\")]");
+                codeln!(self, "#[aldrin(doc = {doc:?})]");
             }
         }
 
@@ -376,7 +376,7 @@ impl RustGenerator<'_> {
             if doc_alt && self.options.introspection {
                 for doc in var.doc() {
                     let doc = doc.value_inner();
-                    codeln!(self, "    #[aldrin(doc = \"{doc}\")]");
+                    codeln!(self, "    #[aldrin(doc = {doc:?})]");
                 }
             }
 
@@ -400,7 +400,7 @@ impl RustGenerator<'_> {
             if doc_alt && self.options.introspection {
                 for doc in fallback.doc() {
                     let doc = doc.value_inner();
-                    codeln!(self, "    #[aldrin(doc = \"{doc}\")]");
+                    codeln!(self, "    #[aldrin(doc = {doc:?})]");
                 }
             }
 
@@ -457,7 +457,7 @@ impl RustGenerator<'_> {
         if doc_alt && self.options.introspection {
             for doc in svc.doc() {
                 let doc = doc.value_inner();
-                codeln!(self, "    #[aldrin(doc = \"{doc}\")]");
+                codeln!(self, "    #[aldrin(doc = {doc:?})]");
             }
         }
 
@@ -480,7 +480,7 @@ impl RustGenerator<'_> {
                     if doc_alt && self.options.introspection {
                         for doc in func.doc() {
                             let doc = doc.value_inner();
-                            codeln!(self, "        #[aldrin(doc = \"{doc}\")]");
+                            codeln!(self, "        #[aldrin(doc = {doc:?})]");
                         }
                     }
 
@@ -524,7 +524,7 @@ impl RustGenerator<'_> {
                     if doc_alt && self.options.introspection {
                         for doc in ev.doc() {
                             let doc = doc.value_inner();
-                            codeln!(self, "        #[aldrin(doc = \"{doc}\")]");
+                            codeln!(self, "        #[aldrin(doc = {doc:?})]");
                         }
                     }
 
@@ -552,7 +552,7 @@ impl RustGenerator<'_> {
             if doc_alt && self.options.introspection {
                 for doc in fallback.doc() {
                     let doc = doc.value_inner();
-                    codeln!(self, "        #[aldrin(doc = \"{doc}\")]");
+                    codeln!(self, "        #[aldrin(doc = {doc:?})]");
                 }
             }
 
@@ -571,7 +571,7 @@ impl RustGenerator<'_> {
             if doc_alt && self.options.introspection {
                 for doc in fallback.doc() {
                     let doc = doc.value_inner();
-                    codeln!(self, "        #[aldrin(doc = \"{doc}\")]");
+                    codeln!(self, "        #[aldrin(doc = {doc:?})]");
                 }
             }
 
@@ -796,7 +796,7 @@ impl RustGenerator<'_> {
         if doc_alt && self.options.introspection {
             for doc in newtype_def.doc() {
                 let doc = doc.value_inner();
-                codeln!(self, "#[aldrin(doc = \"{doc}\")]");
+                codeln!(self, "#[aldrin(doc = {doc:?})]");
             }
         }
 
-- 
2.43.0


From 14936a16c1833ea1ffb1533932fce41d62acdc5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:27 +0000
Subject: [PATCH 22/28] fix: Generate no doc comments that Rust rejects

---
 codegen/src/rust.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/codegen/src/rust.rs b/codegen/src/rust.rs
index 37a70e8..a70ce52 100644
--- a/codegen/src/rust.rs
+++ b/codegen/src/rust.rs
@@ -1090,11 +1090,18 @@ impl RustGenerator<'_> {
 
         for line in with_links.lines() {
             doc_string.push_str(&INDENT[..indent]);
-            doc_string.push_str(style);
 
-            if !line.is_empty() {
-                doc_string.push(' ');
-                doc_string.push_str(line);
+            if line.contains(is_forbidden_in_comments) {
+                let line = format!(" {line}");
+                let attr = if style == "//!" { "#!" } else { "#" };
+                write!(doc_string, "{attr}[doc = {line:?}]").unwrap();
+            } else {
+                doc_string.push_str(style);
+
+                if !line.is_empty() {
+                    doc_string.push(' ');
+                    doc_string.push_str(line);
+                }
             }
 
             doc_string.push('\n');
@@ -1674,6 +1681,12 @@ impl RustGenerator<'_> {
     }
 }
 
+/// Rust rejects bare carriage returns in doc comments and, by default, bidirectional control
+/// characters in any comments.
+fn is_forbidden_in_comments(c: char) -> bool {
+    matches!(c, '\r' | '\u{202a}'..='\u{202e}' | '\u{2066}'..='\u{2069}')
+}
+
 struct RustAttributes {
     impl_copy: bool,
     impl_partial_eq: bool,
-- 
2.43.0


From 0923ac149ce272d3805c5c5d086816b279e0c652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:27 +0000
Subject: [PATCH 23/28] fix: Generate constants and array lengths that compile
 for any name

---
 codegen/src/rust.rs | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/codegen/src/rust.rs b/codegen/src/rust.rs
index a70ce52..5d43148 100644
--- a/codegen/src/rust.rs
+++ b/codegen/src/rust.rs
@@ -42,6 +42,7 @@ const U16: &str = "::std::primitive::u16";
 const U32: &str = "::std::primitive::u32";
 const U64: &str = "::std::primitive::u64";
 const U8: &str = "::std::primitive::u8";
+const USIZE: &str = "::std::primitive::usize";
 const VEC: &str = "::std::vec::Vec";
 
 #[derive(Debug, Clone)]
@@ -693,52 +694,52 @@ impl RustGenerator<'_> {
         match const_def.value() {
             ast::ConstValue::U8(v) => {
                 let val = v.value();
-                codeln!(self, "pub const {name}: {U8} = {val};");
+                codeln!(self, "pub const r#{name}: {U8} = {val};");
             }
 
             ast::ConstValue::I8(v) => {
                 let val = v.value();
-                codeln!(self, "pub const {name}: {I8} = {val};");
+                codeln!(self, "pub const r#{name}: {I8} = {val};");
             }
 
             ast::ConstValue::U16(v) => {
                 let val = v.value();
-                codeln!(self, "pub const {name}: {U16} = {val};");
+                codeln!(self, "pub const r#{name}: {U16} = {val};");
             }
 
             ast::ConstValue::I16(v) => {
                 let val = v.value();
-                codeln!(self, "pub const {name}: {I16} = {val};");
+                codeln!(self, "pub const r#{name}: {I16} = {val};");
             }
 
             ast::ConstValue::U32(v) => {
                 let val = v.value();
-                codeln!(self, "pub const {name}: {U32} = {val};");
+                codeln!(self, "pub const r#{name}: {U32} = {val};");
             }
 
             ast::ConstValue::I32(v) => {
                 let val = v.value();
-                codeln!(self, "pub const {name}: {I32} = {val};");
+                codeln!(self, "pub const r#{name}: {I32} = {val};");
             }
 
             ast::ConstValue::U64(v) => {
                 let val = v.value();
-                codeln!(self, "pub const {name}: {U64} = {val};");
+                codeln!(self, "pub const r#{name}: {U64} = {val};");
             }
 
             ast::ConstValue::I64(v) => {
                 let val = v.value();
-                codeln!(self, "pub const {name}: {I64} = {val};");
+                codeln!(self, "pub const r#{name}: {I64} = {val};");
             }
 
             ast::ConstValue::String(v) => {
                 let val = v.value();
-                codeln!(self, "pub const {name}: &{STR} = {val};");
+                codeln!(self, "pub const r#{name}: &{STR} = {val};");
             }
 
             ast::ConstValue::Uuid(v) => {
                 let val = v.value();
-                codeln!(self, "pub const {name}: {krate}::private::uuid::Uuid = {krate}::private::uuid::uuid!(\"{val}\");");
+                codeln!(self, "pub const r#{name}: {krate}::private::uuid::Uuid = {krate}::private::uuid::uuid!(\"{val}\");");
             }
         };
 
@@ -888,7 +889,7 @@ impl RustGenerator<'_> {
 
             ast::ArrayLenValue::Ref(named_ref) => {
                 format!(
-                    "[{}; {} as usize]",
+                    "[{}; {} as {USIZE}]",
                     self.type_name(ty),
                     self.named_ref_name(named_ref)
                 )
-- 
2.43.0


From 026a1d04b69fe373fa95d774d0aba1187169ad81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:27 +0000
Subject: [PATCH 24/28] fix: Handle names made of underscores only

---
 codegen/src/util.rs | 2 +-
 macros/src/util.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/codegen/src/util.rs b/codegen/src/util.rs
index 16c29aa..4a2f4e2 100644
--- a/codegen/src/util.rs
+++ b/codegen/src/util.rs
@@ -7,7 +7,7 @@ where
     R: fmt::Display,
 {
     let start = s.len() - s.trim_start_matches('_').len();
-    let end = s.trim_end_matches('_').len();
+    let end = start + s[start..].trim_end_matches('_').len();
 
     format!("{}{}{}", &s[..start], convert(&s[start..end]), &s[end..],)
 }
diff --git a/macros/src/util.rs b/macros/src/util.rs
index a312db9..5ffe115 100644
--- a/macros/src/util.rs
+++ b/macros/src/util.rs
@@ -7,7 +7,7 @@ where
     R: fmt::Display,
 {
     let start = s.len() - s.trim_start_matches('_').len();
-    let end = s.trim_end_matches('_').len();
+    let end = start + s[start..].trim_end_matches('_').len();
 
     format!("{}{}{}", &s[..start], convert(&s[start..end]), &s[end..],)
 }
-- 
2.43.0


From f72cf6d5501e25395acac835a03308ba60aa47dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:27 +0000
Subject: [PATCH 25/28] fix: Accept the largest id in derive macros

---
 macros/src/derive/enum_data.rs      | 2 +-
 macros/src/derive/introspectable.rs | 4 ++--
 macros/src/derive/struct_data.rs    | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/macros/src/derive/enum_data.rs b/macros/src/derive/enum_data.rs
index b4698b9..1e1c27a 100644
--- a/macros/src/derive/enum_data.rs
+++ b/macros/src/derive/enum_data.rs
@@ -40,7 +40,7 @@ impl<'a> EnumData<'a> {
                 VariantData::new(variant, name, input.generics.lifetimes(), default_id)?;
 
             fallback = variant_data.is_fallback();
-            default_id = variant_data.id() + 1;
+            default_id = variant_data.id().wrapping_add(1);
             variant_datas.push(variant_data);
         }
 
diff --git a/macros/src/derive/introspectable.rs b/macros/src/derive/introspectable.rs
index bbbd8ea..7ff2ca5 100644
--- a/macros/src/derive/introspectable.rs
+++ b/macros/src/derive/introspectable.rs
@@ -137,7 +137,7 @@ fn gen_regular_struct(
                 ));
             }
 
-            next_id = item_options.id() + 1;
+            next_id = item_options.id().wrapping_add(1);
 
             let (field_layout, field_references) = gen_field(field, index, options, &item_options);
 
@@ -289,7 +289,7 @@ fn gen_enum(
             ));
         }
 
-        next_id = item_options.id() + 1;
+        next_id = item_options.id().wrapping_add(1);
 
         let (var_layout, var_references) = gen_variant(variant, options, &item_options)?;
 
diff --git a/macros/src/derive/struct_data.rs b/macros/src/derive/struct_data.rs
index 90e7caa..62f4f85 100644
--- a/macros/src/derive/struct_data.rs
+++ b/macros/src/derive/struct_data.rs
@@ -73,7 +73,7 @@ impl<'a> StructData<'a> {
                 fallback = true;
             }
 
-            default_id = field_data.id() + 1;
+            default_id = field_data.id().wrapping_add(1);
             field_datas.push(field_data);
         }
 
-- 
2.43.0


From d0f208e904d7513eee4467390a3ad4defa8e60a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:27 +0000
Subject: [PATCH 26/28] fix: Keep names of fields out of the derived
 Deserialize

---
 macros/src/derive/struct_data.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/macros/src/derive/struct_data.rs b/macros/src/derive/struct_data.rs
index 62f4f85..448604b 100644
--- a/macros/src/derive/struct_data.rs
+++ b/macros/src/derive/struct_data.rs
@@ -3,7 +3,6 @@ use crate::doc_string::DocString;
 use crate::util;
 use proc_macro2::TokenStream;
 use quote::{format_ident, ToTokens};
-use std::borrow::Cow;
 use syn::ext::IdentExt;
 use syn::punctuated::Punctuated;
 use syn::{
@@ -148,7 +147,7 @@ pub(crate) struct FieldData<'a> {
     ty: &'a Type,
     ty_generic: Ident,
     ty_tag: Type,
-    var: Cow<'a, Ident>,
+    var: Ident,
 }
 
 impl<'a> FieldData<'a> {
@@ -177,10 +176,9 @@ impl<'a> FieldData<'a> {
             parse_quote!(#struct_name<#(#lifetimes),*>),
         );
 
-        let var = match name {
-            FieldName::Ident(name) => Cow::Borrowed(name),
-            FieldName::Index(ref index) => Cow::Owned(format_ident!("r#_field{}", index.index)),
-        };
+        // This isn't derived from the field's name, because that might be the name of something
+        // else, which a local variable cannot shadow or must not shadow.
+        let var = format_ident!("_field{index}");
 
         Ok(Self {
             name,
-- 
2.43.0


From 128c767a03b2183056f11e764feebcb5ab48466a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:27 +0000
Subject: [PATCH 27/28] fix: Use full paths for Ok and None in generated code

---
 macros/src/derive/deserialize.rs | 2 +-
 macros/src/service/body.rs       | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/macros/src/derive/deserialize.rs b/macros/src/derive/deserialize.rs
index 09030ab..a6833a7 100644
--- a/macros/src/derive/deserialize.rs
+++ b/macros/src/derive/deserialize.rs
@@ -86,7 +86,7 @@ impl StructData<'_> {
                     }
 
                     _deserializer.finish_with(|_fallback| {
-                        Ok(Self {
+                        ::std::result::Result::Ok(Self {
                             #(#field_finish),*
                         })
                     })
diff --git a/macros/src/service/body.rs b/macros/src/service/body.rs
index 10d6846..c78097c 100644
--- a/macros/src/service/body.rs
+++ b/macros/src/service/body.rs
@@ -111,7 +111,7 @@ impl Body {
                 }
 
                 let inner = #krate::low_level::Proxy::new(client, id).await?;
-                Ok(Self { inner })
+                ::std::result::Result::Ok(Self { inner })
             }
 
             pub fn inner(&self) -> &#krate::low_level::Proxy {
@@ -147,7 +147,7 @@ impl Body {
 
             pub async fn subscribe_all(&self) -> ::std::result::Result<(), #krate::Error> {
                 #subscribe_all_body
-                Ok(())
+                ::std::result::Result::Ok(())
             }
 
             pub async fn unsubscribe_all(&self) -> ::std::result::Result<(), #krate::Error> {
@@ -168,7 +168,7 @@ impl Body {
                         ::std::task::Poll::Ready(::std::option::Option::Some(ev)) => ev,
 
                         ::std::task::Poll::Ready(::std::option::Option::None) => {
-                            break ::std::task::Poll::Ready(None);
+                            break ::std::task::Poll::Ready(::std::option::Option::None);
                         }
 
                         ::std::task::Poll::Pending => break ::std::task::Poll::Pending,
-- 
2.43.0


From f88a3a23b82553cc1f29c2c14f898d9b1403f34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:08 +0000
Subject: [PATCH 28/28] fix: Keep names of variants out of constructors of
 reference types

---
 macros/src/derive/ref_type.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/macros/src/derive/ref_type.rs b/macros/src/derive/ref_type.rs
index ddfed1a..21fc21e 100644
--- a/macros/src/derive/ref_type.rs
+++ b/macros/src/derive/ref_type.rs
@@ -183,8 +183,8 @@ impl VariantData<'_> {
             quote! {
                 impl<#ty_generic> #enum_name<#(#ty_generics),*> {
                     #doc
-                    pub fn #ctor(#ctor: #ty_generic) -> Self {
-                        Self::#name(#ctor)
+                    pub fn #ctor(__value: #ty_generic) -> Self {
+                        Self::#name(__value)
                     }
                 }
             }
-- 
2.43.0

