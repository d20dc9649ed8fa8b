From d232e96c33d8cf124580421a0108b0a4c61933a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:18 +0000
Subject: [PATCH 01/31] fix: report a connection closed before the reply as an
 error instead of panicking

---
 src/io/transport.rs |  7 ++++---
 src/lib.rs          | 15 ++++++++++-----
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/io/transport.rs b/src/io/transport.rs
index 75f8f0e..7db8ec7 100644
--- a/src/io/transport.rs
+++ b/src/io/transport.rs
@@ -18,7 +18,7 @@ use pin_project::pin_project;
 
 use crate::{
     binary::Parser,
-    errors::{DriverError, Error, Result},
+    errors::{ConnectionError, DriverError, Error, Result},
     io::{read_to_end::read_to_end, Stream as InnerStream},
     pool::{Inner, Pool},
     types::{Block, Cmd, Packet},
@@ -119,7 +119,7 @@ impl ClickhouseTransport {
             }
         }
 
-        let mut transport = h.unwrap();
+        let mut transport = h.ok_or_else(|| Error::Connection(ConnectionError::Broken))?;
         transport.inconsistent = false;
         Ok(transport)
     }
@@ -316,7 +316,8 @@ impl PacketStream {
             }
         }
 
-        Ok((h.unwrap(), b))
+        let h = h.ok_or_else(|| Error::Connection(ConnectionError::Broken))?;
+        Ok((h, b))
     }
 
     pub(crate) fn take_transport(&mut self) -> Option<ClickhouseTransport> {
diff --git a/src/lib.rs b/src/lib.rs
index c475868..29b4952 100755
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -323,9 +323,14 @@ impl ClientHandle {
             }
         }
 
-        self.inner = h;
-        self.context.server_info = info.unwrap();
-        Ok(())
+        match info {
+            None => Err(Error::Connection(ConnectionError::Broken)),
+            Some(info) => {
+                self.inner = h;
+                self.context.server_info = info;
+                Ok(())
+            }
+        }
     }
 
     pub async fn ping(&mut self) -> Result<()> {
@@ -422,7 +427,7 @@ impl ClientHandle {
                             }
                         }
 
-                        Ok(h.unwrap())
+                        h.ok_or_else(|| Error::Connection(ConnectionError::Broken))
                     }
                 })
                 .await
@@ -498,7 +503,7 @@ impl ClientHandle {
     ) -> Result<(ClickhouseTransport, Block)> {
         let stream = transport.call(Cmd::SendQuery(query, context));
         let (transport, b) = stream.read_block().await?;
-        let dst_block = b.unwrap();
+        let dst_block = b.ok_or_else(|| Error::Connection(ConnectionError::Broken))?;
         Ok((transport, dst_block))
     }
 
-- 
2.43.0


From 4c8956c1116f82ac6e55cbbf63ae0d12c48d60b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:48 +0000
Subject: [PATCH 02/31] fix: decode packets already received before reporting
 that the server closed the connection

---
 src/io/transport.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/io/transport.rs b/src/io/transport.rs
index 7db8ec7..22f08cc 100644
--- a/src/io/transport.rs
+++ b/src/io/transport.rs
@@ -286,15 +286,15 @@ impl Stream for ClickhouseTransport {
             }
         }
 
-        if *this.done {
-            return Poll::Ready(None);
-        }
-
         // Try to parse the new data!
         let ret = this.try_parse_msg();
 
         *this.buf_is_incomplete = matches!(ret, Poll::Pending);
 
+        if *this.done && ret.is_pending() {
+            return Poll::Ready(None);
+        }
+
         ret
     }
 }
-- 
2.43.0


From fa86ac4b566e4e906bc570f2f33ece561be0cd50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:48 +0000
Subject: [PATCH 03/31] fix: attaching or detaching a handle twice, or without
 a pool, must not panic

---
 src/pool/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pool/mod.rs b/src/pool/mod.rs
index 5d94fa0..892e956 100644
--- a/src/pool/mod.rs
+++ b/src/pool/mod.rs
@@ -84,14 +84,14 @@ impl PoolBinding {
     pub(crate) fn attach(&mut self) {
         match self.take() {
             PoolBinding::Detached(pool) => *self = PoolBinding::Attached(pool),
-            _ => unreachable!(),
+            binding => *self = binding,
         }
     }
 
     pub(crate) fn detach(&mut self) {
         match self.take() {
             PoolBinding::Attached(pool) => *self = PoolBinding::Detached(pool),
-            _ => unreachable!(),
+            binding => *self = binding,
         }
     }
 }
-- 
2.43.0


From 456acb0aea4d5c555eae8a880cfbe708b3760203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:48 +0000
Subject: [PATCH 04/31] fix: do not give a transport that failed in mid-stream
 back to its handle

---
 src/types/query_result/stream_blocks.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/types/query_result/stream_blocks.rs b/src/types/query_result/stream_blocks.rs
index 83f6103..4e800b0 100644
--- a/src/types/query_result/stream_blocks.rs
+++ b/src/types/query_result/stream_blocks.rs
@@ -86,7 +86,10 @@ impl<'a> Stream for BlockStream<'a> {
             };
 
             let packet = match self.inner.poll_next_unpin(cx) {
-                Poll::Ready(Some(Err(err))) => return Poll::Ready(Some(Err(err.into()))),
+                Poll::Ready(Some(Err(err))) => {
+                    self.state = BlockStreamState::Error;
+                    return Poll::Ready(Some(Err(err.into())));
+                }
                 Poll::Pending => return Poll::Pending,
                 Poll::Ready(None) => {
                     self.state = BlockStreamState::Error;
@@ -116,7 +119,10 @@ impl<'a> Stream for BlockStream<'a> {
                         return Poll::Ready(Some(Ok(block)));
                     }
                 }
-                _ => return Poll::Ready(Some(Err(Error::Driver(DriverError::UnexpectedPacket)))),
+                _ => {
+                    self.state = BlockStreamState::Error;
+                    return Poll::Ready(Some(Err(Error::Driver(DriverError::UnexpectedPacket))));
+                }
             }
         }
     }
-- 
2.43.0


From 4912999858f28065ef48740cc3ead9d7d1d3b518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:48 +0000
Subject: [PATCH 05/31] fix: count a reconnection that fails its health check
 as an attempt

---
 src/retry_guard.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/retry_guard.rs b/src/retry_guard.rs
index 6d68962..68c553d 100644
--- a/src/retry_guard.rs
+++ b/src/retry_guard.rs
@@ -29,7 +29,7 @@ pub(crate) async fn retry_guard(
         }
 
         match reconnect(handle, source, pool.clone()).await {
-            Ok(()) => continue,
+            Ok(()) => {}
             Err(err) => {
                 skip_check = true;
                 if attempt >= max_attempt {
-- 
2.43.0


From ca1c0e5d94aa09be812e17ff24c97519472397e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:27 +0000
Subject: [PATCH 06/31] fix: drain an abandoned reply before sending a query
 when ping_before_query is off

---
 src/lib.rs | 40 +++++++++++++++++++++++-----------------
 1 file changed, 23 insertions(+), 17 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 29b4952..5dff2f7 100755
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -555,25 +555,31 @@ impl ClientHandle {
             Err(err) => return Box::pin(stream::once(future::err(err))),
         };
 
-        if ping_before_query {
-            let fut: BoxFuture<'a, BoxStream<'a, Result<Block>>> = Box::pin(async move {
-                let inner: BoxStream<'a, Result<Block>> = match self.check_connection().await {
-                    Ok(_) => match f(self) {
-                        Ok(s) => Box::pin(s),
-                        Err(err) => Box::pin(stream::once(future::err(err))),
-                    },
+        let fut: BoxFuture<'a, BoxStream<'a, Result<Block>>> = Box::pin(async move {
+            let ready = if ping_before_query {
+                self.check_connection().await
+            } else {
+                self.clear_inner().await
+            };
+
+            let inner: BoxStream<'a, Result<Block>> = match ready {
+                Ok(_) => match f(self) {
+                    Ok(s) => Box::pin(s),
                     Err(err) => Box::pin(stream::once(future::err(err))),
-                };
-                inner
-            });
-
-            Box::pin(fut.flatten_stream())
-        } else {
-            match f(self) {
-                Ok(s) => Box::pin(s),
+                },
                 Err(err) => Box::pin(stream::once(future::err(err))),
-            }
-        }
+            };
+            inner
+        });
+
+        Box::pin(fut.flatten_stream())
+    }
+
+    /// Reads the rest of an abandoned reply, if there is one.
+    async fn clear_inner(&mut self) -> Result<()> {
+        let transport = self.get_inner()?.clear().await?;
+        self.inner = Some(transport);
+        Ok(())
     }
 
     /// Check connection and try to reconnect if necessary.
-- 
2.43.0


From 618a6b3c9ef7a3b07192564dfe9de72e7568bd95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:47 +0000
Subject: [PATCH 07/31] fix: an absent insert or execute timeout means no
 deadline

---
 src/lib.rs | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 5dff2f7..4fe8f85 100755
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -396,9 +396,7 @@ impl ClientHandle {
     where
         Query: From<Q>,
     {
-        let timeout = try_opt!(self.context.options.get())
-            .execute_timeout
-            .unwrap_or_else(|| Duration::from_secs(0));
+        let timeout = try_opt!(self.context.options.get()).execute_timeout;
         let context = self.context.clone();
         let query = Query::from(sql);
         with_timeout(
@@ -450,9 +448,7 @@ impl ClientHandle {
     }
 
     async fn insert_(&mut self, query: Query, block: &Block) -> Result<ClickhouseTransport> {
-        let timeout = try_opt!(self.context.options.get())
-            .insert_timeout
-            .unwrap_or_else(|| Duration::from_secs(0));
+        let timeout = try_opt!(self.context.options.get()).insert_timeout;
 
         let context = self.context.clone();
 
@@ -632,24 +628,32 @@ fn column_name_to_string(name: &str) -> Result<String> {
 }
 
 #[cfg(feature = "async_std")]
-async fn with_timeout<F, T>(future: F, duration: Duration) -> F::Output
+async fn with_timeout<F, T>(future: F, duration: impl Into<Option<Duration>>) -> F::Output
 where
     F: Future<Output = Result<T>>,
 {
     use async_std::io;
     use futures_util::future::TryFutureExt;
 
-    io::timeout(duration, future.map_err(Into::into))
-        .map_err(Into::into)
-        .await
+    match duration.into() {
+        None => future.await,
+        Some(duration) => {
+            io::timeout(duration, future.map_err(Into::into))
+                .map_err(Into::into)
+                .await
+        }
+    }
 }
 
 #[cfg(not(feature = "async_std"))]
-async fn with_timeout<F, T>(future: F, timeout: Duration) -> F::Output
+async fn with_timeout<F, T>(future: F, timeout: impl Into<Option<Duration>>) -> F::Output
 where
     F: Future<Output = Result<T>>,
 {
-    tokio::time::timeout(timeout, future).await?
+    match timeout.into() {
+        None => future.await,
+        Some(timeout) => tokio::time::timeout(timeout, future).await?,
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From 644f318173bb18e60a7305601c3ab27972720054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:16 +0000
Subject: [PATCH 08/31] fix: wake the tasks waiting for a pooled connection
 when an attempt to open one ends

---
 src/pool/mod.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/pool/mod.rs b/src/pool/mod.rs
index 892e956..48e22be 100644
--- a/src/pool/mod.rs
+++ b/src/pool/mod.rs
@@ -38,6 +38,12 @@ impl Inner {
         }
     }
 
+    fn wake_tasks(&self) {
+        while let Some(task) = self.tasks.pop() {
+            task.wake()
+        }
+    }
+
     fn conn_count(&self) -> usize {
         let is_new_some = self.new.len();
         let ongoing = self.ongoing.load(Ordering::Acquire);
@@ -223,8 +229,10 @@ impl Pool {
     fn handle_futures(&mut self, cx: &mut Context<'_>) -> Result<()> {
         if let Some(mut new) = self.inner.new.pop() {
             match new.poll_unpin(cx) {
-                Poll::Ready(Ok(client)) => {
-                    self.inner.idle.push(client).unwrap();
+                Poll::Ready(Ok(mut client)) => {
+                    client.pool = PoolBinding::None;
+                    let _ = self.inner.idle.push(client);
+                    self.inner.wake_tasks();
                 }
                 Poll::Pending => {
                     // NOTE: it is okay to drop the construction task
@@ -233,6 +241,7 @@ impl Pool {
                     let _ = self.inner.new.push(new);
                 }
                 Poll::Ready(Err(err)) => {
+                    self.inner.wake_tasks();
                     return Err(err);
                 }
             }
-- 
2.43.0


From a60f64bcab85e858a6ef141c3d7967e9bebaa171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:20 +0000
Subject: [PATCH 09/31] fix: register a waiting task before deciding that the
 pool has no connection for it

---
 src/pool/mod.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/pool/mod.rs b/src/pool/mod.rs
index 48e22be..064c9c8 100644
--- a/src/pool/mod.rs
+++ b/src/pool/mod.rs
@@ -201,15 +201,18 @@ impl Pool {
         match self.take_conn() {
             Some(client) => Poll::Ready(Ok(client)),
             None => {
+                // Register first: a connection freed from here on wakes this task,
+                // one freed before is found by the checks below.
+                self.inner.tasks.push(cx.waker().clone());
+
+                if let Some(client) = self.take_conn() {
+                    return Poll::Ready(Ok(client));
+                }
+
                 let new_conn_created = {
                     let conn_count = self.inner.conn_count();
 
-                    if conn_count < self.max && self.inner.new.push(self.new_connection()).is_ok() {
-                        true
-                    } else {
-                        self.inner.tasks.push(cx.waker().clone());
-                        false
-                    }
+                    conn_count < self.max && self.inner.new.push(self.new_connection()).is_ok()
                 };
                 if new_conn_created {
                     self.poll(cx)
-- 
2.43.0


From a96c392a3cb4eea66bc894d8a022429e2af234c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:59 +0000
Subject: [PATCH 10/31] fix: keep the password out of log messages and debug
 output

---
 src/io/transport.rs  |  2 +-
 src/lib.rs           |  5 +++--
 src/types/mod.rs     |  2 +-
 src/types/options.rs | 23 ++++++++++++++++++++---
 4 files changed, 25 insertions(+), 7 deletions(-)

diff --git a/src/io/transport.rs b/src/io/transport.rs
index 22f08cc..77e93a0 100644
--- a/src/io/transport.rs
+++ b/src/io/transport.rs
@@ -217,7 +217,7 @@ impl ClickhouseTransport {
                 let pos = self.wr.position() as usize;
                 let buf = &self.wr.get_ref()[pos..];
 
-                trace!("writing; remaining={:?}", buf);
+                trace!("writing; remaining={}", buf.len());
                 buf
             };
 
diff --git a/src/lib.rs b/src/lib.rs
index 4fe8f85..fb17805 100755
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -124,7 +124,8 @@ use crate::{
     types::{
         block::{ChunkIterator, INSERT_BLOCK_SIZE},
         query_result::stream_blocks::BlockStream,
-        Cmd, Context, IntoOptions, OptionsSource, Packet, Query, QueryResult, SqlType,
+        without_password, Cmd, Context, IntoOptions, OptionsSource, Packet, Query, QueryResult,
+        SqlType,
     },
 };
 pub use crate::{
@@ -274,7 +275,7 @@ impl Client {
                     Some(p) => p.get_addr(),
                 };
 
-                info!("try to connect to {}", addr);
+                info!("try to connect to {}", without_password(addr));
                 if addr.port() == Some(8123) {
                     warn!("You should use port 9000 instead of 8123 because clickhouse-rs work through the binary interface.");
                 }
diff --git a/src/types/mod.rs b/src/types/mod.rs
index 83ff796..24f01b6 100644
--- a/src/types/mod.rs
+++ b/src/types/mod.rs
@@ -26,7 +26,7 @@ pub(crate) use self::{
     cmd::Cmd,
     date_converter::DateConverter,
     marshal::Marshal,
-    options::{IntoOptions, OptionsSource},
+    options::{without_password, IntoOptions, OptionsSource},
     stat_buffer::StatBuffer,
     unmarshal::Unmarshal,
 };
diff --git a/src/types/options.rs b/src/types/options.rs
index 5f02fb2..5df6771 100644
--- a/src/types/options.rs
+++ b/src/types/options.rs
@@ -33,7 +33,10 @@ impl fmt::Debug for OptionsSource {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         let guard = self.state.lock().unwrap();
         match *guard {
-            State::Url(ref url) => write!(f, "Url({url})"),
+            State::Url(ref url) => match Url::parse(url) {
+                Ok(url) => write!(f, "Url({})", without_password(&url)),
+                Err(_) => write!(f, "Url(<invalid>)"),
+            },
             State::Raw(ref options) => write!(f, "{options:?}"),
         }
     }
@@ -275,7 +278,7 @@ pub struct Options {
 impl fmt::Debug for Options {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         f.debug_struct("Options")
-            .field("addr", &self.addr)
+            .field("addr", &without_password(&self.addr))
             .field("database", &self.database)
             .field("compression", &self.compression)
             .field("pool_min", &self.pool_min)
@@ -288,7 +291,14 @@ impl fmt::Debug for Options {
             .field("ping_timeout", &self.ping_timeout)
             .field("connection_timeout", &self.connection_timeout)
             .field("settings", &self.settings)
-            .field("alt_hosts", &self.alt_hosts)
+            .field(
+                "alt_hosts",
+                &self
+                    .alt_hosts
+                    .iter()
+                    .map(without_password)
+                    .collect::<Vec<_>>(),
+            )
             .finish()
     }
 }
@@ -599,6 +609,13 @@ where
     }
 }
 
+/// Returns a copy of `url` that is safe to print.
+pub(crate) fn without_password(url: &Url) -> Url {
+    let mut url = url.clone();
+    let _ = url.set_password(None);
+    url
+}
+
 fn get_username_from_url(url: &Url) -> Option<Cow<'_, str>> {
     let user = url.username();
     if user.is_empty() {
-- 
2.43.0


From 2fbb523cdca5db1066e0c268b7c2e61940246fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:08 +0000
Subject: [PATCH 11/31] fix: write array and map offsets relative to the range
 of rows being written

---
 src/types/column/array.rs | 10 +++++++---
 src/types/column/map.rs   | 12 ++++++++----
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/types/column/array.rs b/src/types/column/array.rs
index b083012..e699b35 100644
--- a/src/types/column/array.rs
+++ b/src/types/column/array.rs
@@ -49,14 +49,18 @@ impl ColumnData for ArrayColumnData {
     }
 
     fn save(&self, encoder: &mut Encoder, start: usize, end: usize) {
-        let mut offset = 0_u64;
+        let base = match start {
+            0 => 0_u64,
+            _ => self.offsets.at(start - 1),
+        };
+        let mut offset = base;
 
         for i in start..end {
             offset = self.offsets.at(i);
-            encoder.write(offset);
+            encoder.write(offset - base);
         }
 
-        self.inner.save(encoder, 0, offset as usize);
+        self.inner.save(encoder, base as usize, offset as usize);
     }
 
     fn len(&self) -> usize {
diff --git a/src/types/column/map.rs b/src/types/column/map.rs
index 73e014a..8299d46 100644
--- a/src/types/column/map.rs
+++ b/src/types/column/map.rs
@@ -54,15 +54,19 @@ impl ColumnData for MapColumnData {
     }
 
     fn save(&self, encoder: &mut Encoder, start: usize, end: usize) {
-        let mut offset = 0_u64;
+        let base = match start {
+            0 => 0_u64,
+            _ => self.offsets.at(start - 1),
+        };
+        let mut offset = base;
 
         for i in start..end {
             offset = self.offsets.at(i);
-            encoder.write(offset);
+            encoder.write(offset - base);
         }
 
-        self.keys.save(encoder, 0, offset as usize);
-        self.values.save(encoder, 0, offset as usize);
+        self.keys.save(encoder, base as usize, offset as usize);
+        self.values.save(encoder, base as usize, offset as usize);
     }
 
     fn len(&self) -> usize {
-- 
2.43.0


From ba9f953009d5274d19c6be624e3e68c9447ee363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:14 +0000
Subject: [PATCH 12/31] fix: write DateTime64 columns instead of panicking

---
 src/types/column/datetime64.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/types/column/datetime64.rs b/src/types/column/datetime64.rs
index 7aa80d4..40a4b58 100644
--- a/src/types/column/datetime64.rs
+++ b/src/types/column/datetime64.rs
@@ -10,6 +10,7 @@ use crate::{
             column_data::{BoxColumnData, ColumnData},
             date::DateTimeInternals,
             list::List,
+            numeric::save_data,
         },
         DateTimeType, SqlType, Value, ValueRef,
     },
@@ -56,8 +57,8 @@ impl ColumnData for DateTime64ColumnData {
         SqlType::DateTime(DateTimeType::DateTime64(precision, tz))
     }
 
-    fn save(&self, _encoder: &mut Encoder, _start: usize, _end: usize) {
-        unimplemented!()
+    fn save(&self, encoder: &mut Encoder, start: usize, end: usize) {
+        save_data::<i64>(self.data.as_ref(), encoder, start, end);
     }
 
     fn len(&self) -> usize {
-- 
2.43.0


From 7d9e100079f75fc2a66ae8593cdb6e2e21b92de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:42 +0000
Subject: [PATCH 13/31] fix: pushing into a copied block must not panic when
 nested columns are shared

---
 src/types/column/array.rs           | 4 ++--
 src/types/column/column_data.rs     | 8 ++++++++
 src/types/column/low_cardinality.rs | 6 ++----
 src/types/column/map.rs             | 6 +++---
 src/types/column/nullable.rs        | 4 ++--
 src/types/column/simple_agg_func.rs | 4 ++--
 6 files changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/types/column/array.rs b/src/types/column/array.rs
index e699b35..2e98a48 100644
--- a/src/types/column/array.rs
+++ b/src/types/column/array.rs
@@ -7,7 +7,7 @@ use crate::{
     errors::Result,
     types::{
         column::{
-            column_data::{ArcColumnData, BoxColumnData},
+            column_data::{make_mut, ArcColumnData, BoxColumnData},
             list::List,
             ArcColumnWrapper, ColumnData,
         },
@@ -76,7 +76,7 @@ impl ColumnData for ArrayColumnData {
                 self.offsets.at(offsets_len - 1) as usize
             };
 
-            let inner_column = Arc::get_mut(&mut self.inner).unwrap();
+            let inner_column = make_mut(&mut self.inner);
             self.offsets.push((prev + vs.len()) as u64);
             for v in vs.iter() {
                 inner_column.push(v.clone());
diff --git a/src/types/column/column_data.rs b/src/types/column/column_data.rs
index 9712ae8..3f7dab6 100644
--- a/src/types/column/column_data.rs
+++ b/src/types/column/column_data.rs
@@ -50,6 +50,14 @@ pub trait ColumnData {
     }
 }
 
+/// Gives exclusive access to a nested column, copying it first if it is shared.
+pub(crate) fn make_mut(column: &mut ArcColumnData) -> &mut (dyn ColumnData + Send + Sync) {
+    if Arc::get_mut(column).is_none() {
+        *column = Arc::from(column.clone_instance());
+    }
+    Arc::get_mut(column).unwrap()
+}
+
 pub(crate) trait ColumnDataExt {
     fn append<T: Into<Value>>(&mut self, value: T);
 }
diff --git a/src/types/column/low_cardinality.rs b/src/types/column/low_cardinality.rs
index a69eac9..2ea4806 100644
--- a/src/types/column/low_cardinality.rs
+++ b/src/types/column/low_cardinality.rs
@@ -6,7 +6,7 @@ use crate::{
     errors::{DriverError, Error, FromSqlError, Result},
     types::{
         column::{
-            column_data::{ArcColumnData, BoxColumnData, LowCardinalityAccessor},
+            column_data::{make_mut, ArcColumnData, BoxColumnData, LowCardinalityAccessor},
             ArcColumnWrapper, ColumnData, VectorColumnData,
         },
         SqlType, Value, ValueRef,
@@ -318,9 +318,7 @@ impl ColumnData for LowCardinalityColumnData {
         match value_map.get_mut(&value) {
             None => {
                 let new_index = self.inner.len();
-                Arc::get_mut(&mut self.inner)
-                    .expect("Column shouldn't be shared")
-                    .push(value.clone());
+                make_mut(&mut self.inner).push(value.clone());
                 value_map.insert(value, new_index);
                 self.index.push(new_index);
             }
diff --git a/src/types/column/map.rs b/src/types/column/map.rs
index 8299d46..40aa8fc 100644
--- a/src/types/column/map.rs
+++ b/src/types/column/map.rs
@@ -3,7 +3,7 @@ use crate::{
     errors::Result,
     types::{
         column::{
-            column_data::{ArcColumnData, BoxColumnData},
+            column_data::{make_mut, ArcColumnData, BoxColumnData},
             list::List,
             ArcColumnWrapper, ColumnData, ColumnFrom, ColumnWrapper,
         },
@@ -82,8 +82,8 @@ impl ColumnData for MapColumnData {
                 self.offsets.at(offsets_len - 1) as usize
             };
 
-            let key_column = Arc::get_mut(&mut self.keys).unwrap();
-            let value_column = Arc::get_mut(&mut self.values).unwrap();
+            let key_column = make_mut(&mut self.keys);
+            let value_column = make_mut(&mut self.values);
 
             self.offsets.push((prev + vs.len()) as u64);
             for (k, v) in vs.iter() {
diff --git a/src/types/column/nullable.rs b/src/types/column/nullable.rs
index d9b2b6e..bbeba6b 100644
--- a/src/types/column/nullable.rs
+++ b/src/types/column/nullable.rs
@@ -5,7 +5,7 @@ use crate::{
     errors::Result,
     types::{
         column::{
-            column_data::{ArcColumnData, BoxColumnData},
+            column_data::{make_mut, ArcColumnData, BoxColumnData},
             ArcColumnWrapper, ColumnData,
         },
         SqlType, Value, ValueRef,
@@ -53,7 +53,7 @@ impl ColumnData for NullableColumnData {
     }
 
     fn push(&mut self, value: Value) {
-        let inner_column: &mut dyn ColumnData = Arc::get_mut(&mut self.inner).unwrap();
+        let inner_column: &mut dyn ColumnData = make_mut(&mut self.inner);
 
         if let Value::Nullable(e) = value {
             match e {
diff --git a/src/types/column/simple_agg_func.rs b/src/types/column/simple_agg_func.rs
index dfe24c3..514ce53 100644
--- a/src/types/column/simple_agg_func.rs
+++ b/src/types/column/simple_agg_func.rs
@@ -3,7 +3,7 @@ use crate::{
     errors::Result,
     types::{
         column::{
-            column_data::{ArcColumnData, BoxColumnData},
+            column_data::{make_mut, ArcColumnData, BoxColumnData},
             ArcColumnWrapper, ColumnData,
         },
         SimpleAggFunc, SqlType, Value, ValueRef,
@@ -47,7 +47,7 @@ impl ColumnData for SimpleAggregateFunctionColumnData {
     }
 
     fn push(&mut self, value: Value) {
-        let inner_column: &mut dyn ColumnData = Arc::get_mut(&mut self.inner).unwrap();
+        let inner_column: &mut dyn ColumnData = make_mut(&mut self.inner);
         inner_column.push(value);
     }
 
-- 
2.43.0


From 6676d167625248a1bbd8278619b1ab1bbcf289cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:47 +0000
Subject: [PATCH 14/31] fix: validate the sizes of a compressed frame and the
 size it decompresses to

---
 src/types/block/compressed.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/types/block/compressed.rs b/src/types/block/compressed.rs
index d2c43a8..a1ae425 100644
--- a/src/types/block/compressed.rs
+++ b/src/types/block/compressed.rs
@@ -16,6 +16,8 @@ use crate::{
 
 const DBMS_MAX_COMPRESSED_SIZE: u32 = 0x4000_0000; // 1GB
 
+const HEADER_SIZE: u32 = 9; // method and two sizes
+
 pub(crate) struct CompressedReader<'a, R> {
     reader: &'a mut R,
     cursor: io::Cursor<Vec<u8>>,
@@ -79,10 +81,14 @@ where
     let compressed: u32 = reader.read_scalar()?;
     let original: u32 = reader.read_scalar()?;
 
-    if compressed > DBMS_MAX_COMPRESSED_SIZE {
+    if compressed > DBMS_MAX_COMPRESSED_SIZE || original > DBMS_MAX_COMPRESSED_SIZE {
         return Err(raise_error("compressed data too big".to_string()));
     }
 
+    if compressed < HEADER_SIZE {
+        return Err(raise_error("compressed data too small".to_string()));
+    }
+
     buffer.resize(compressed as usize, 0_u8);
     {
         let mut cursor = io::Cursor::new(&mut buffer);
@@ -96,17 +102,17 @@ where
         return Err(raise_error("data was corrupted".to_string()));
     }
 
-    let data = vec![0_u8; original as usize];
+    let mut data = vec![0_u8; original as usize];
     let status = unsafe {
         LZ4_decompress_safe(
-            (buffer.as_mut_ptr() as *const c_char).add(9),
-            data.as_ptr() as *mut c_char,
+            (buffer.as_ptr() as *const c_char).add(9),
+            data.as_mut_ptr() as *mut c_char,
             (compressed - 9) as c_int,
             original as c_int,
         )
     };
 
-    if status < 0 {
+    if status != original as c_int {
         return Err(raise_error("can't decompress data".to_string()));
     }
 
-- 
2.43.0


From 5e4494548d40d772b8d17a946c60732cf87b5bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:51:52 +0000
Subject: [PATCH 15/31] fix: pass LZ4 the real capacity of the compression
 buffer

---
 src/types/block/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/block/mod.rs b/src/types/block/mod.rs
index 4ab5446..a5d670d 100644
--- a/src/types/block/mod.rs
+++ b/src/types/block/mod.rs
@@ -340,7 +340,7 @@ impl<K: ColumnType> Block<K> {
                     tmp.as_ptr() as *const c_char,
                     (buf.as_mut_ptr() as *mut c_char).add(9),
                     tmp.len() as i32,
-                    buf.len() as i32,
+                    (buf.len() - 9) as i32,
                 );
             }
             buf.resize(9 + size as usize, 0_u8);
-- 
2.43.0


From df66b383169c67aba5a2b5a7471217a7b8baeef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:17 +0000
Subject: [PATCH 16/31] fix: send compressed blocks of 2 GB and more as several
 frames

The length of the block was cast to i32 for LZ4, so a block of 2 GB or more
was sent as a frame with no data.
---
 src/types/block/mod.rs | 53 +++++++++++++++++++++++-------------------
 1 file changed, 29 insertions(+), 24 deletions(-)

diff --git a/src/types/block/mod.rs b/src/types/block/mod.rs
index a5d670d..3f38ab1 100644
--- a/src/types/block/mod.rs
+++ b/src/types/block/mod.rs
@@ -38,6 +38,9 @@ pub(crate) const INSERT_BLOCK_SIZE: usize = 1_048_576;
 
 const DEFAULT_CAPACITY: usize = 100;
 
+/// A compressed frame holds at most this many bytes; larger blocks are sent as several frames.
+const MAX_FRAME_SIZE: usize = 0x2000_0000;
+
 pub trait ColumnIdx {
     fn get_index<K: ColumnType>(&self, columns: &[Column<K>]) -> Result<usize>;
 }
@@ -332,31 +335,33 @@ impl<K: ColumnType> Block<K> {
             self.write(&mut tmp_encoder, false);
             let tmp = tmp_encoder.get_buffer();
 
-            let mut buf = Vec::new();
-            let size;
-            unsafe {
-                buf.resize(9 + LZ4_compressBound(tmp.len() as i32) as usize, 0_u8);
-                size = LZ4_compress_default(
-                    tmp.as_ptr() as *const c_char,
-                    (buf.as_mut_ptr() as *mut c_char).add(9),
-                    tmp.len() as i32,
-                    (buf.len() - 9) as i32,
-                );
-            }
-            buf.resize(9 + size as usize, 0_u8);
-
-            let buf_len = buf.len() as u32;
-            {
-                let mut cursor = Cursor::new(&mut buf);
-                cursor.write_u8(0x82).unwrap();
-                cursor.write_u32::<LittleEndian>(buf_len).unwrap();
-                cursor.write_u32::<LittleEndian>(tmp.len() as u32).unwrap();
-            }
+            for part in tmp.chunks(MAX_FRAME_SIZE) {
+                let mut buf = Vec::new();
+                let size;
+                unsafe {
+                    buf.resize(9 + LZ4_compressBound(part.len() as i32) as usize, 0_u8);
+                    size = LZ4_compress_default(
+                        part.as_ptr() as *const c_char,
+                        (buf.as_mut_ptr() as *mut c_char).add(9),
+                        part.len() as i32,
+                        (buf.len() - 9) as i32,
+                    );
+                }
+                buf.resize(9 + size as usize, 0_u8);
+
+                let buf_len = buf.len() as u32;
+                {
+                    let mut cursor = Cursor::new(&mut buf);
+                    cursor.write_u8(0x82).unwrap();
+                    cursor.write_u32::<LittleEndian>(buf_len).unwrap();
+                    cursor.write_u32::<LittleEndian>(part.len() as u32).unwrap();
+                }
 
-            let hash = city_hash_128(&buf);
-            encoder.write(hash.lo);
-            encoder.write(hash.hi);
-            encoder.write_bytes(buf.as_ref());
+                let hash = city_hash_128(&buf);
+                encoder.write(hash.lo);
+                encoder.write(hash.hi);
+                encoder.write_bytes(buf.as_ref());
+            }
         } else {
             self.info.write(encoder);
             encoder.uvarint(self.column_count() as u64);
-- 
2.43.0


From 0149786438b60c2cff4c74743f1b514c134c29a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:33 +0000
Subject: [PATCH 17/31] fix: report a socket that accepts no bytes instead of
 writing to it forever

---
 src/io/transport.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/io/transport.rs b/src/io/transport.rs
index 77e93a0..7af0ae3 100644
--- a/src/io/transport.rs
+++ b/src/io/transport.rs
@@ -225,6 +225,7 @@ impl ClickhouseTransport {
         };
 
         match res {
+            Poll::Ready(Ok(0)) if !self.wr_is_empty() => Err(io::ErrorKind::WriteZero.into()),
             Poll::Ready(Ok(mut n)) => {
                 n += self.wr.position() as usize;
                 self.wr.set_position(n as u64);
-- 
2.43.0


From e4bb9c069df32be0012e6563b139f6c5f877af27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:57 +0000
Subject: [PATCH 18/31] fix: skip strings through an initialised buffer

---
 src/binary/read_ex.rs | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/binary/read_ex.rs b/src/binary/read_ex.rs
index cb47f22..b344b18 100644
--- a/src/binary/read_ex.rs
+++ b/src/binary/read_ex.rs
@@ -1,4 +1,4 @@
-use std::{io, mem::MaybeUninit};
+use std::io;
 
 use crate::{
     errors::{DriverError, Error, Result},
@@ -61,13 +61,8 @@ where
         let str_len = self.read_uvarint()? as usize;
 
         if str_len <= MAX_STACK_BUFFER_LEN {
-            unsafe {
-                let mut buffer: [MaybeUninit<u8>; MAX_STACK_BUFFER_LEN] =
-                    MaybeUninit::uninit().assume_init();
-                self.read_bytes(
-                    &mut *(&mut buffer[..str_len] as *mut [MaybeUninit<u8>] as *mut [u8]),
-                )?;
-            }
+            let mut buffer = [0_u8; MAX_STACK_BUFFER_LEN];
+            self.read_bytes(&mut buffer[..str_len])?;
         } else {
             let mut buffer = vec![0_u8; str_len];
             self.read_bytes(buffer.as_mut())?;
-- 
2.43.0


From 6d86dcdbe301af0d60f7e6ca80909a6394c56065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:00 +0000
Subject: [PATCH 19/31] fix: quote column names that are empty or made of
 non-ASCII digits

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index fb17805..74fa791 100755
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -616,7 +616,7 @@ impl ClientHandle {
 }
 
 fn column_name_to_string(name: &str) -> Result<String> {
-    if name.chars().all(|ch| ch.is_numeric()) {
+    if !name.is_empty() && name.chars().all(|ch| ch.is_ascii_digit()) {
         return Ok(name.to_string());
     }
 
-- 
2.43.0


From c84fc3a42a4ca34f5b4c73da7d6a1194e4465472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:36 +0000
Subject: [PATCH 20/31] fix: escape backslashes in quoted column names

---
 src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 74fa791..30929ba 100755
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -625,6 +625,8 @@ fn column_name_to_string(name: &str) -> Result<String> {
         return Err(Error::Other(err.into()));
     }
 
+    // The server processes escape sequences inside backticks.
+    let name = name.replace('\\', r"\\");
     Ok(format!("`{name}`"))
 }
 
-- 
2.43.0


From 1a4ae0640b30c6ef00adb9041849fb48896f10b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:24 +0000
Subject: [PATCH 21/31] fix: fetch_all panicked on a reply without blocks or
 with blocks of differing columns

---
 src/types/block/mod.rs        | 8 ++++++++
 src/types/query_result/mod.rs | 8 +++++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/types/block/mod.rs b/src/types/block/mod.rs
index 3f38ab1..c01b128 100644
--- a/src/types/block/mod.rs
+++ b/src/types/block/mod.rs
@@ -278,6 +278,14 @@ impl<K: ColumnType> Block<K> {
 }
 
 impl Block<Simple> {
+    /// Returns true if the columns of all blocks have the same types.
+    pub(crate) fn same_structure(blocks: &[Self]) -> bool {
+        blocks.windows(2).all(|pair| {
+            let (a, b) = (pair[0].columns(), pair[1].columns());
+            a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.sql_type() == y.sql_type())
+        })
+    }
+
     pub(crate) fn concat(blocks: &[Self]) -> Block<Complex> {
         let first = blocks.first().expect("blocks should not be empty.");
 
diff --git a/src/types/query_result/mod.rs b/src/types/query_result/mod.rs
index 720b21d..5ecab7f 100644
--- a/src/types/query_result/mod.rs
+++ b/src/types/query_result/mod.rs
@@ -7,7 +7,7 @@ use log::info;
 use std::{marker::PhantomData, sync::Arc};
 
 use crate::{
-    errors::Result,
+    errors::{DriverError, Error, Result},
     try_opt,
     types::{
         block::BlockRef, query_result::stream_blocks::BlockStream, Block, Cmd, Complex, Query, Row,
@@ -40,6 +40,12 @@ impl<'a> QueryResult<'a> {
                         future::ready(Ok(blocks))
                     })
                     .await?;
+                if blocks.is_empty() {
+                    return Ok(Block::default());
+                }
+                if !Block::same_structure(&blocks) {
+                    return Err(Error::Driver(DriverError::UnexpectedPacket));
+                }
                 Ok(Block::concat(blocks.as_slice()))
             },
             timeout,
-- 
2.43.0


From 0ec24b219b22f1b50053a4a5dc38a21533b1028b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:42 +0000
Subject: [PATCH 22/31] fix: a row is appended to every column of a block or to
 none

---
 src/types/block/builder.rs | 85 ++++++++++++++++++++++++--------------
 1 file changed, 54 insertions(+), 31 deletions(-)

diff --git a/src/types/block/builder.rs b/src/types/block/builder.rs
index 3ed3a2e..1074c5f 100644
--- a/src/types/block/builder.rs
+++ b/src/types/block/builder.rs
@@ -13,8 +13,16 @@ use crate::{
     Block,
 };
 
-pub trait RowBuilder {
-    fn apply<K: ColumnType>(self, block: &mut Block<K>) -> Result<()>;
+pub trait RowBuilder: Sized {
+    /// Moves the names and values of the row into `row`, in order.
+    #[doc(hidden)]
+    fn collect(self, row: &mut Vec<(Cow<'static, str>, Value)>);
+
+    fn apply<K: ColumnType>(self, block: &mut Block<K>) -> Result<()> {
+        let mut row = Vec::new();
+        self.collect(&mut row);
+        put_row(row, block)
+    }
 }
 
 pub struct RNil;
@@ -53,9 +61,7 @@ where
 
 impl RowBuilder for RNil {
     #[inline(always)]
-    fn apply<K: ColumnType>(self, _block: &mut Block<K>) -> Result<()> {
-        Ok(())
-    }
+    fn collect(self, _row: &mut Vec<(Cow<'static, str>, Value)>) {}
 }
 
 impl<T> RowBuilder for RCons<T>
@@ -63,55 +69,72 @@ where
     T: RowBuilder,
 {
     #[inline(always)]
-    fn apply<K: ColumnType>(self, block: &mut Block<K>) -> Result<()> {
-        put_param(self.key, self.value, block)?;
-        self.tail.apply(block)
+    fn collect(self, row: &mut Vec<(Cow<'static, str>, Value)>) {
+        row.push((self.key, self.value));
+        self.tail.collect(row);
     }
 }
 
 impl RowBuilder for Vec<(String, Value)> {
-    fn apply<K: ColumnType>(self, block: &mut Block<K>) -> Result<()> {
-        for (k, v) in self {
-            put_param(k.into(), v, block)?;
-        }
-        Ok(())
+    fn collect(self, row: &mut Vec<(Cow<'static, str>, Value)>) {
+        row.extend(self.into_iter().map(|(k, v)| (k.into(), v)));
     }
 }
 
-fn put_param<K: ColumnType>(
-    key: Cow<'static, str>,
-    value: Value,
+/// Appends a row: every column of the block gets exactly one value, or nothing is changed.
+fn put_row<K: ColumnType>(
+    row: Vec<(Cow<'static, str>, Value)>,
     block: &mut Block<K>,
 ) -> Result<()> {
-    let col_index = match key.as_ref().get_index(&block.columns) {
-        Ok(col_index) => col_index,
-        Err(Error::FromSql(FromSqlError::OutOfRange)) => {
-            if block.row_count() <= 1 {
-                let sql_type = From::from(value.clone());
+    let old_columns = block.columns.len();
+    let result = add_columns(&row, block);
+    if result.is_err() {
+        block.columns.truncate(old_columns);
+    }
 
-                let timezone = extract_timezone(&value);
+    for (col_index, (_, value)) in result?.into_iter().zip(row) {
+        block.columns[col_index].push(value);
+    }
+    Ok(())
+}
 
+/// Finds the column of each value, adding new columns to a block that has no rows yet.
+fn add_columns<K: ColumnType>(
+    row: &[(Cow<'static, str>, Value)],
+    block: &mut Block<K>,
+) -> Result<Vec<usize>> {
+    let mut indices = Vec::with_capacity(row.len());
+
+    for (key, value) in row {
+        let col_index = match key.as_ref().get_index(&block.columns) {
+            Ok(col_index) => col_index,
+            Err(Error::FromSql(FromSqlError::OutOfRange)) if block.row_count() == 0 => {
                 let column = Column {
                     name: key.clone().into(),
                     data: <dyn ColumnData>::from_type::<ArcColumnWrapper>(
-                        sql_type,
-                        timezone,
+                        From::from(value.clone()),
+                        extract_timezone(value),
                         block.capacity,
                     )?,
                     _marker: marker::PhantomData,
                 };
 
                 block.columns.push(column);
-                return put_param(key, value, block);
-            } else {
-                return Err(Error::FromSql(FromSqlError::OutOfRange));
+                block.columns.len() - 1
             }
+            Err(err) => return Err(err),
+        };
+
+        if indices.contains(&col_index) {
+            return Err(Error::FromSql(FromSqlError::OutOfRange));
         }
-        Err(err) => return Err(err),
-    };
+        indices.push(col_index);
+    }
 
-    block.columns[col_index].push(value);
-    Ok(())
+    if indices.len() != block.columns.len() {
+        return Err(Error::FromSql(FromSqlError::OutOfRange));
+    }
+    Ok(indices)
 }
 
 fn extract_timezone(value: &Value) -> Tz {
-- 
2.43.0


From a29f9e1b2ea1cccfaf0464b418f76a4cd4714cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:25 +0000
Subject: [PATCH 23/31] fix: addresses and uuids are only iterated over columns
 of their type

---
 src/types/column/iter/mod.rs | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/types/column/iter/mod.rs b/src/types/column/iter/mod.rs
index f34956f..eae75a9 100644
--- a/src/types/column/iter/mod.rs
+++ b/src/types/column/iter/mod.rs
@@ -816,9 +816,16 @@ impl<'a> Iterable<'a, Simple> for Ipv4Addr {
 
     fn iter_with_props(
         column: &'a Column<Simple>,
-        _column_type: SqlType,
+        column_type: SqlType,
         props: u32,
     ) -> Result<Self::Iter> {
+        if !check_type(&column_type, &SqlType::Ipv4) {
+            return Err(Error::FromSql(FromSqlError::InvalidType {
+                src: column.sql_type().to_string(),
+                dst: SqlType::Ipv4.to_string(),
+            }));
+        }
+
         let inner = unsafe {
             let mut inner: *const u8 = ptr::null();
             column.get_internal(&[&mut inner], 0, props)?;
@@ -841,9 +848,16 @@ impl<'a> Iterable<'a, Simple> for Ipv6Addr {
 
     fn iter_with_props(
         column: &'a Column<Simple>,
-        _column_type: SqlType,
+        column_type: SqlType,
         props: u32,
     ) -> Result<Self::Iter> {
+        if !check_type(&column_type, &SqlType::Ipv6) {
+            return Err(Error::FromSql(FromSqlError::InvalidType {
+                src: column.sql_type().to_string(),
+                dst: SqlType::Ipv6.to_string(),
+            }));
+        }
+
         let inner = unsafe {
             let mut inner: *const u8 = ptr::null();
             column.get_internal(&[&mut inner], 0, props)?;
@@ -866,9 +880,16 @@ impl<'a> Iterable<'a, Simple> for uuid::Uuid {
 
     fn iter_with_props(
         column: &'a Column<Simple>,
-        _column_type: SqlType,
+        column_type: SqlType,
         props: u32,
     ) -> Result<Self::Iter> {
+        if !check_type(&column_type, &SqlType::Uuid) {
+            return Err(Error::FromSql(FromSqlError::InvalidType {
+                src: column.sql_type().to_string(),
+                dst: SqlType::Uuid.to_string(),
+            }));
+        }
+
         let inner = unsafe {
             let mut inner: *const u8 = ptr::null();
             column.get_internal(&[&mut inner], 0, props)?;
-- 
2.43.0


From 0cd15b6ad21c77c67522e7cecddf6f21da318c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:31 +0000
Subject: [PATCH 24/31] fix: keys of a map are read from the key column
 whatever their type

---
 src/types/column/iter/mod.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/types/column/iter/mod.rs b/src/types/column/iter/mod.rs
index eae75a9..9a708b1 100644
--- a/src/types/column/iter/mod.rs
+++ b/src/types/column/iter/mod.rs
@@ -944,7 +944,7 @@ impl<'a> Iterable<'a, Simple> for &[u8] {
                     column.get_internal(
                         &[&mut buffer, &mut size as *mut usize as *mut *const u8],
                         0,
-                        0,
+                        props,
                     )?;
                     assert_ne!(buffer, ptr::null());
                     buffer
@@ -974,7 +974,7 @@ impl<'a> Iterable<'a, Simple> for Decimal {
     fn iter_with_props(
         column: &'a Column<Simple>,
         column_type: SqlType,
-        _props: u32,
+        props: u32,
     ) -> Result<Self::Iter> {
         let SqlType::Decimal(precision, scale) = column_type else {
             return Err(Error::FromSql(FromSqlError::InvalidType {
@@ -994,7 +994,7 @@ impl<'a> Iterable<'a, Simple> for Decimal {
                     &mut nobits as *mut NoBits as *mut *const u8,
                 ],
                 0,
-                0,
+                props,
             )?;
             assert_ne!(ptr, ptr::null());
             (ptr, size, nobits)
@@ -1228,7 +1228,7 @@ where
         props: u32,
     ) -> Result<Self::Iter> {
         let inner = if let SqlType::Nullable(inner_type) = column_type {
-            T::iter(column, inner_type.clone())?
+            T::iter_with_props(column, inner_type.clone(), props)?
         } else {
             return Err(Error::FromSql(FromSqlError::InvalidType {
                 src: column_type.to_string(),
@@ -1284,7 +1284,7 @@ where
             column.get_internal(
                 &[&mut ptr, &mut size as *mut usize as *mut *const u8],
                 column_type.level(),
-                0,
+                props,
             )?;
             assert_ne!(ptr, ptr::null());
             slice::from_raw_parts(ptr as *const u64, size)
-- 
2.43.0


From d38245817bfb50f32a25f64a8116cab20a53047a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:08 +0000
Subject: [PATCH 25/31] fix: reject LowCardinality columns whose keys are
 outside the dictionary

The typed iterators of Date, DateTime and DateTime64 follow the keys with
raw pointer arithmetic, so a key sent by the server that is not below the
dictionary's length made them read out of bounds.
---
 src/types/column/low_cardinality.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/types/column/low_cardinality.rs b/src/types/column/low_cardinality.rs
index 2ea4806..a0b46c0 100644
--- a/src/types/column/low_cardinality.rs
+++ b/src/types/column/low_cardinality.rs
@@ -258,6 +258,12 @@ fn read_inner<R: ReadEx>(
     let keys = LowCardinalityIndex::load(reader, keys_rows as usize, index_type)?;
     assert_eq!(flags, keys.get_flags());
 
+    if (0..keys.len()).any(|index| keys.get_by_index(index) >= inner.len()) {
+        return Err(Error::Driver(DriverError::Deserialize(Cow::from(
+            "Low cardinality key is out of range.",
+        ))));
+    }
+
     Ok((inner, keys))
 }
 
-- 
2.43.0


From ec835535f588bcfb65b8bc79b33a2ba716176cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:15 +0000
Subject: [PATCH 26/31] fix: do not reinterpret bytes from the server as bool

A Bool column was read straight into a Vec<bool>; any byte other than 0 or
1 there is undefined behaviour. Read bytes and compare them with 0.
---
 src/types/column/factory.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/types/column/factory.rs b/src/types/column/factory.rs
index 274eca3..1ab7848 100644
--- a/src/types/column/factory.rs
+++ b/src/types/column/factory.rs
@@ -62,7 +62,13 @@ impl dyn ColumnData {
         tz: Tz,
     ) -> Result<W::Wrapper> {
         Ok(match_str!(type_name, {
-            "Bool" => W::wrap(VectorColumnData::<bool>::load(reader, size)?),
+            "Bool" => {
+                // only 0 and 1 are valid representations of a bool
+                let bytes = VectorColumnData::<u8>::load(reader, size)?;
+                W::wrap(VectorColumnData {
+                    data: bytes.data.map(|byte| byte != 0),
+                })
+            },
             "UInt8" => W::wrap(VectorColumnData::<u8>::load(reader, size)?),
             "UInt16" => W::wrap(VectorColumnData::<u16>::load(reader, size)?),
             "UInt32" => W::wrap(VectorColumnData::<u32>::load(reader, size)?),
-- 
2.43.0


From 7469ad4b7d4c0569a6b5e7e9e3a78553969ed1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:44 +0000
Subject: [PATCH 27/31] fix: SimpleAggregateFunction with a parenthesised inner
 type

trim_matches removed the closing parenthesis of the inner type as well, so
a column of SimpleAggregateFunction(sum, Nullable(Int64)) could not be read.
---
 src/types/column/factory.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/column/factory.rs b/src/types/column/factory.rs
index 1ab7848..f8717b6 100644
--- a/src/types/column/factory.rs
+++ b/src/types/column/factory.rs
@@ -302,7 +302,7 @@ fn parse_simple_agg_fun(source: &str) -> Option<(SimpleAggFunc, &str)> {
         return None;
     }
 
-    let args = source[23..].trim_matches(|c| c == '(' || c == ')');
+    let args = &source[24..source.len() - 1];
     let sep_index = args.find(',')?;
 
     let agg_func = args[..sep_index].trim();
-- 
2.43.0


From dd5e28fadb4b2d8352b9f4ec048fdf59aabaaf22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:49 +0000
Subject: [PATCH 28/31] fix: split the arguments of Map at the top-level comma

The first comma was taken even when it was inside the parentheses or the
quoted names of the key's type, as in Map(Enum8('a' = 1, 'b' = 2), String).
---
 src/types/column/factory.rs | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/types/column/factory.rs b/src/types/column/factory.rs
index f8717b6..c30dd48 100644
--- a/src/types/column/factory.rs
+++ b/src/types/column/factory.rs
@@ -289,7 +289,7 @@ fn parse_map_type(source: &str) -> Option<(&str, &str)> {
     }
 
     let body = &source[4..source.len() - 1];
-    let comma_pos = body.chars().position(|c| c == ',')?;
+    let comma_pos = find_top_level_comma(body)?;
 
     let key = body[0..comma_pos].trim();
     let value = body[comma_pos + 1..].trim();
@@ -297,6 +297,28 @@ fn parse_map_type(source: &str) -> Option<(&str, &str)> {
     Some((key, value))
 }
 
+/// Position of the first comma that is neither inside parentheses nor inside a quoted name.
+fn find_top_level_comma(source: &str) -> Option<usize> {
+    let mut depth = 0_usize;
+    let mut quoted = false;
+    let mut escaped = false;
+
+    for (pos, byte) in source.bytes().enumerate() {
+        match byte {
+            _ if escaped => escaped = false,
+            b'\\' if quoted => escaped = true,
+            b'\'' => quoted = !quoted,
+            _ if quoted => {}
+            b'(' => depth += 1,
+            b')' => depth = depth.saturating_sub(1),
+            b',' if depth == 0 => return Some(pos),
+            _ => {}
+        }
+    }
+
+    None
+}
+
 fn parse_simple_agg_fun(source: &str) -> Option<(SimpleAggFunc, &str)> {
     if !source.starts_with("SimpleAggregateFunction(") || !source.ends_with(')') {
         return None;
-- 
2.43.0


From 723c7e8f75960bf22943fd8b1745b9b3df275d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:55 +0000
Subject: [PATCH 29/31] fix: escape quotes and backslashes in the names of
 enumerations

The name written for an Enum8 or Enum16 type was not one the reader (or the
server) could parse when a value's name had a quote or a backslash.
---
 src/types/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/types/mod.rs b/src/types/mod.rs
index 24f01b6..3d74664 100644
--- a/src/types/mod.rs
+++ b/src/types/mod.rs
@@ -370,6 +370,11 @@ impl From<SqlType> for &'static SqlType {
     }
 }
 
+/// Enum names are written as quoted literals, where `\` and `'` have to be escaped.
+fn escape_enum_name(name: &str) -> String {
+    name.replace('\\', "\\\\").replace('\'', "\\'")
+}
+
 impl SqlType {
     pub(crate) fn is_datetime(&self) -> bool {
         matches!(self, SqlType::DateTime(_))
@@ -429,14 +434,14 @@ impl SqlType {
             SqlType::Enum8(values) => {
                 let a: Vec<String> = values
                     .iter()
-                    .map(|(name, value)| format!("'{name}' = {value}"))
+                    .map(|(name, value)| format!("'{}' = {value}", escape_enum_name(name)))
                     .collect();
                 format!("Enum8({})", a.join(",")).into()
             }
             SqlType::Enum16(values) => {
                 let a: Vec<String> = values
                     .iter()
-                    .map(|(name, value)| format!("'{name}' = {value}"))
+                    .map(|(name, value)| format!("'{}' = {value}", escape_enum_name(name)))
                     .collect();
                 format!("Enum16({})", a.join(",")).into()
             }
-- 
2.43.0


From 38189f3633091b8dcfcc10610c03d4eeb051799d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:02 +0000
Subject: [PATCH 30/31] fix: escape sequences in the names of enumerations

\n, \t and the like were read as the bare letter.
---
 src/types/column/factory.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/types/column/factory.rs b/src/types/column/factory.rs
index c30dd48..69286e9 100644
--- a/src/types/column/factory.rs
+++ b/src/types/column/factory.rs
@@ -438,6 +438,19 @@ fn parse_enum16(input: &str) -> Option<Vec<(String, i16)>> {
     parse_enum(EnumSize::Enum16, input)
 }
 
+/// The character an escape sequence of a quoted name stands for.
+fn unescape(symbol: char) -> char {
+    match symbol {
+        'b' => '\u{8}',
+        'f' => '\u{c}',
+        'n' => '\n',
+        'r' => '\r',
+        't' => '\t',
+        '0' => '\0',
+        _ => symbol,
+    }
+}
+
 fn parse_enum(size: EnumSize, input: &str) -> Option<Vec<(String, i16)>> {
     let size = match size {
         EnumSize::Enum8 => "Enum8",
@@ -455,7 +468,9 @@ fn parse_enum(size: EnumSize, input: &str) -> Option<Vec<(String, i16)>> {
                 .map_err(|_| StringStreamError::UnexpectedParse)
         });
 
-    let word_syms = token('\\').with(any()).or(none_of("'".chars()));
+    let word_syms = token('\\')
+        .with(any().map(unescape))
+        .or(none_of("'".chars()));
     let word = token('\'').with(many(word_syms)).skip(token('\''));
 
     let pair = spaces()
-- 
2.43.0


From f121fa04b8247203b0268a1f70ff1dc6fe5caa55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:07 +0000
Subject: [PATCH 31/31] fix: a truncated type name is an error
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

Names such as Array, Nullable( or LowCardinality(é made the parsers slice the
name out of bounds or inside a character and panic.
---
 src/types/column/factory.rs | 45 ++++++++++++-------------------------
 1 file changed, 14 insertions(+), 31 deletions(-)

diff --git a/src/types/column/factory.rs b/src/types/column/factory.rs
index 69286e9..e9b294d 100644
--- a/src/types/column/factory.rs
+++ b/src/types/column/factory.rs
@@ -248,12 +248,16 @@ impl dyn ColumnData {
     }
 }
 
-fn parse_fixed_string(source: &str) -> Option<usize> {
-    if !source.starts_with("FixedString") {
-        return None;
-    }
+/// The text between the parentheses of `name(...)`.
+fn parse_arguments<'a>(source: &'a str, name: &str) -> Option<&'a str> {
+    source
+        .strip_prefix(name)?
+        .strip_prefix('(')?
+        .strip_suffix(')')
+}
 
-    let inner_size = &source[12..source.len() - 1];
+fn parse_fixed_string(source: &str) -> Option<usize> {
+    let inner_size = parse_arguments(source, "FixedString")?;
     match inner_size.parse::<usize>() {
         Err(_) => None,
         Ok(value) => Some(value),
@@ -261,11 +265,7 @@ fn parse_fixed_string(source: &str) -> Option<usize> {
 }
 
 fn parse_nullable_type(source: &str) -> Option<&str> {
-    if !source.starts_with("Nullable") {
-        return None;
-    }
-
-    let inner_type = &source[9..source.len() - 1];
+    let inner_type = parse_arguments(source, "Nullable")?;
 
     if inner_type.starts_with("Nullable") {
         return None;
@@ -275,20 +275,11 @@ fn parse_nullable_type(source: &str) -> Option<&str> {
 }
 
 fn parse_array_type(source: &str) -> Option<&str> {
-    if !source.starts_with("Array") {
-        return None;
-    }
-
-    let inner_type = &source[6..source.len() - 1];
-    Some(inner_type)
+    parse_arguments(source, "Array")
 }
 
 fn parse_map_type(source: &str) -> Option<(&str, &str)> {
-    if !source.starts_with("Map") {
-        return None;
-    }
-
-    let body = &source[4..source.len() - 1];
+    let body = parse_arguments(source, "Map")?;
     let comma_pos = find_top_level_comma(body)?;
 
     let key = body[0..comma_pos].trim();
@@ -564,16 +555,8 @@ fn parse_low_cardinality(source: &str) -> Option<&str> {
         return None;
     }
 
-    let mut lo = 14;
-    let mut hi = source.len() - 1;
-
-    while lo < source.len() && &source[lo..lo + 1] != "(" {
-        lo += 1;
-    }
-
-    while hi > lo && &source[hi..hi + 1] != ")" {
-        hi -= 1;
-    }
+    let lo = source.find('(')?;
+    let hi = source.rfind(')')?;
 
     if lo >= hi {
         return None;
-- 
2.43.0

