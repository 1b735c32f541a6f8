From be2f8522547701f9be9778e13649841be849c7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:13 +0000
Subject: [PATCH 01/44] fix: retry interrupted reads in the blocking frame
 reader

A read that a signal interrupts (EINTR) transferred nothing and has to be
repeated; treating it as fatal closed a healthy connection.
---
 mpc-net/src/blocking.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mpc-net/src/blocking.rs b/mpc-net/src/blocking.rs
index 84e0830..4ea873c 100644
--- a/mpc-net/src/blocking.rs
+++ b/mpc-net/src/blocking.rs
@@ -281,6 +281,11 @@ impl<R: Read> FrameReader<R> {
                 self.buf.truncate(old + n);
                 Ok(())
             }
+            // A signal interrupted the read before any data arrived: try again.
+            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {
+                self.buf.truncate(old);
+                Ok(())
+            }
             Err(e) => {
                 self.buf.truncate(old);
                 Err(e.into())
-- 
2.43.0


From f94983daf09533fd4cab2085e01bfa20e3c4b170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:57 +0000
Subject: [PATCH 02/44] fix: do not leave TLS records in the write buffer when
 a write is interrupted

StreamOwned::write hides socket errors once the record is buffered. If the
write was interrupted by a signal the tail of the message (or of the
connection header) stayed in the buffer until the next write and the peer
waited forever.
---
 mpc-net/src/tls.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/mpc-net/src/tls.rs b/mpc-net/src/tls.rs
index 21f3f02..f588680 100644
--- a/mpc-net/src/tls.rs
+++ b/mpc-net/src/tls.rs
@@ -74,13 +74,24 @@ impl Write for TlsStream {
             buf.extend_from_slice(b);
         }
         self.write_all(&buf)?;
+        // `StreamOwned::write` reports success as soon as it has buffered the record, even if
+        // writing it to the socket failed or was interrupted. Without a flush the tail of the
+        // message would stay in that buffer until something else is written.
+        self.flush()?;
         Ok(total)
     }
 
     fn flush(&mut self) -> std::io::Result<()> {
-        match self {
-            TlsStream::Client(stream) => stream.flush(),
-            TlsStream::Server(stream) => stream.flush(),
+        loop {
+            let res = match self {
+                TlsStream::Client(stream) => stream.flush(),
+                TlsStream::Server(stream) => stream.flush(),
+            };
+            match res {
+                // A signal interrupted the underlying write: the rest is still to be written.
+                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => continue,
+                res => return res,
+            }
         }
     }
 }
@@ -217,6 +228,7 @@ impl TlsNetwork {
                             stream.write_u64::<BigEndian>(i as u64)?;
                             stream.write_u64::<BigEndian>(id as u64)?;
                             stream.write_u8(s)?;
+                            stream.flush()?;
 
                             // As the connecting party, STREAM_0 is our send direction
                             // and STREAM_1 is our receive direction.
-- 
2.43.0


From cecc0ecc700590271db47ac1d918262a91980579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:07 +0000
Subject: [PATCH 03/44] fix: count only messages accepted for sending in the
 connection statistics

---
 mpc-net/src/async_net.rs | 4 +++-
 mpc-net/src/blocking.rs  | 4 +++-
 mpc-net/src/local.rs     | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/mpc-net/src/async_net.rs b/mpc-net/src/async_net.rs
index 1d0f863..14f373d 100644
--- a/mpc-net/src/async_net.rs
+++ b/mpc-net/src/async_net.rs
@@ -149,9 +149,11 @@ impl AsyncChannels {
             eyre::bail!("frame len {} > max {}", data.len(), self.max_frame_length);
         }
         let (tx, sent_bytes) = self.send.get(&to).context("party id out-of-bounds")?;
-        sent_bytes.fetch_add(data.len(), Ordering::Relaxed);
+        let len = data.len();
         tx.blocking_send(WriteMsg::Frame(data))
             .map_err(|_| eyre::eyre!("write task for party {to} terminated"))?;
+        // Only count what was accepted for sending.
+        sent_bytes.fetch_add(len, Ordering::Relaxed);
         Ok(())
     }
 
diff --git a/mpc-net/src/blocking.rs b/mpc-net/src/blocking.rs
index 4ea873c..77c4307 100644
--- a/mpc-net/src/blocking.rs
+++ b/mpc-net/src/blocking.rs
@@ -92,11 +92,13 @@ impl BlockingChannels {
             eyre::bail!("frame len {} > max {}", data.len(), self.max_frame_length);
         }
         let (tx, sent_bytes) = self.send.get(to).context("party id out-of-bounds")?;
-        sent_bytes.fetch_add(data.len(), Ordering::Relaxed);
+        let len = data.len();
         // The payload moves into the queue unchanged; the writer thread prepends the
         // length prefix with a vectored write (no copy of the payload).
         tx.send(WriteMsg::Frame(data))
             .map_err(|_| eyre::eyre!("writer thread for party {to} terminated"))?;
+        // Only count what was accepted for sending.
+        sent_bytes.fetch_add(len, Ordering::Relaxed);
         Ok(())
     }
 
diff --git a/mpc-net/src/local.rs b/mpc-net/src/local.rs
index 4937dd9..9578ea3 100644
--- a/mpc-net/src/local.rs
+++ b/mpc-net/src/local.rs
@@ -70,7 +70,7 @@ impl Network for LocalNetwork {
 
     fn send(&self, to: usize, data: Bytes) -> eyre::Result<()> {
         let (sender, sent_bytes) = self.send.get(to).context("party id out-of-bounds")?;
-        sent_bytes.fetch_add(data.len(), std::sync::atomic::Ordering::Relaxed);
+        let len = data.len();
         if let Some(timeout) = self.timeout {
             sender
                 .send_timeout(data, timeout)
@@ -78,6 +78,8 @@ impl Network for LocalNetwork {
         } else {
             sender.send(data)?;
         }
+        // Only count what was accepted for sending.
+        sent_bytes.fetch_add(len, std::sync::atomic::Ordering::Relaxed);
         Ok(())
     }
 
-- 
2.43.0


From 11ba75e400255bee4aa38bb924953e52185aae30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:07 +0000
Subject: [PATCH 04/44] fix: flush every peer even if flushing to one of them
 fails

---
 mpc-net/src/async_net.rs | 40 ++++++++++++++++++++++++----------------
 mpc-net/src/blocking.rs  | 38 +++++++++++++++++++++++---------------
 2 files changed, 47 insertions(+), 31 deletions(-)

diff --git a/mpc-net/src/async_net.rs b/mpc-net/src/async_net.rs
index 14f373d..3484f59 100644
--- a/mpc-net/src/async_net.rs
+++ b/mpc-net/src/async_net.rs
@@ -158,24 +158,32 @@ impl AsyncChannels {
     }
 
     /// Drain every peer's write pump and flush its sink, surfacing any failure.
+    /// A failing peer does not keep the remaining peers from being flushed; the first
+    /// failure is returned.
     pub(crate) fn flush(&self) -> eyre::Result<()> {
+        let mut res = Ok(());
         for (to, (tx, _)) in self.send.iter() {
-            let (ack_tx, ack_rx) = oneshot::channel();
-            tx.blocking_send(WriteMsg::Flush(ack_tx))
-                .map_err(|_| eyre::eyre!("write task for party {to} terminated"))?;
-            let result = if let Some(timeout) = self.flush_timeout {
-                self.handle
-                    .block_on(async { tokio::time::timeout(timeout, ack_rx).await })
-                    .context("timeout while flush")?
-                    .map_err(|_| eyre::eyre!("write task for party {to} dropped flush ack"))?
-            } else {
-                ack_rx
-                    .blocking_recv()
-                    .map_err(|_| eyre::eyre!("write task for party {to} dropped flush ack"))?
-            };
-            if let Err(e) = result {
-                eyre::bail!("failed to flush send queue for party {to}: {e}");
-            }
+            res = res.and(self.flush_peer(*to, tx));
+        }
+        res
+    }
+
+    fn flush_peer(&self, to: usize, tx: &mpsc::Sender<WriteMsg>) -> eyre::Result<()> {
+        let (ack_tx, ack_rx) = oneshot::channel();
+        tx.blocking_send(WriteMsg::Flush(ack_tx))
+            .map_err(|_| eyre::eyre!("write task for party {to} terminated"))?;
+        let result = if let Some(timeout) = self.flush_timeout {
+            self.handle
+                .block_on(async { tokio::time::timeout(timeout, ack_rx).await })
+                .context("timeout while flush")?
+                .map_err(|_| eyre::eyre!("write task for party {to} dropped flush ack"))?
+        } else {
+            ack_rx
+                .blocking_recv()
+                .map_err(|_| eyre::eyre!("write task for party {to} dropped flush ack"))?
+        };
+        if let Err(e) = result {
+            eyre::bail!("failed to flush send queue for party {to}: {e}");
         }
         Ok(())
     }
diff --git a/mpc-net/src/blocking.rs b/mpc-net/src/blocking.rs
index 77c4307..f5caf93 100644
--- a/mpc-net/src/blocking.rs
+++ b/mpc-net/src/blocking.rs
@@ -115,23 +115,31 @@ impl BlockingChannels {
     }
 
     /// Drain every peer's write pump and flush its sink, surfacing any failure.
+    /// A failing peer does not keep the remaining peers from being flushed; the first
+    /// failure is returned.
     pub(crate) fn flush(&self) -> eyre::Result<()> {
+        let mut res = Ok(());
         for (to, (tx, _)) in self.send.iter() {
-            let (ack_tx, ack_rx) = bounded(1);
-            tx.send(WriteMsg::Flush(ack_tx))
-                .map_err(|_| eyre::eyre!("writer thread for party {to} terminated"))?;
-            let result = if let Some(timeout) = self.flush_timeout {
-                ack_rx
-                    .recv_timeout(timeout)
-                    .map_err(|_| eyre::eyre!("timed out flushing send queue for party {to}"))?
-            } else {
-                ack_rx
-                    .recv()
-                    .map_err(|_| eyre::eyre!("writer thread for party {to} terminated"))?
-            };
-            if let Err(e) = result {
-                eyre::bail!("failed to flush send queue for party {to}: {e}");
-            }
+            res = res.and(self.flush_peer(to, tx));
+        }
+        res
+    }
+
+    fn flush_peer(&self, to: usize, tx: &Sender<WriteMsg>) -> eyre::Result<()> {
+        let (ack_tx, ack_rx) = bounded(1);
+        tx.send(WriteMsg::Flush(ack_tx))
+            .map_err(|_| eyre::eyre!("writer thread for party {to} terminated"))?;
+        let result = if let Some(timeout) = self.flush_timeout {
+            ack_rx
+                .recv_timeout(timeout)
+                .map_err(|_| eyre::eyre!("timed out flushing send queue for party {to}"))?
+        } else {
+            ack_rx
+                .recv()
+                .map_err(|_| eyre::eyre!("writer thread for party {to} terminated"))?
+        };
+        if let Err(e) = result {
+            eyre::bail!("failed to flush send queue for party {to}: {e}");
         }
         Ok(())
     }
-- 
2.43.0


From 396f0ad9350fcaa6b46a5a2d61e3816f311ff7ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:07 +0000
Subject: [PATCH 05/44] fix: bound waiting for a place in the send queue by the
 flush timeout

---
 mpc-net/src/async_net.rs | 13 ++++++++++---
 mpc-net/src/blocking.rs  |  7 +++++--
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/mpc-net/src/async_net.rs b/mpc-net/src/async_net.rs
index 3484f59..843843b 100644
--- a/mpc-net/src/async_net.rs
+++ b/mpc-net/src/async_net.rs
@@ -170,14 +170,21 @@ impl AsyncChannels {
 
     fn flush_peer(&self, to: usize, tx: &mpsc::Sender<WriteMsg>) -> eyre::Result<()> {
         let (ack_tx, ack_rx) = oneshot::channel();
-        tx.blocking_send(WriteMsg::Flush(ack_tx))
-            .map_err(|_| eyre::eyre!("write task for party {to} terminated"))?;
         let result = if let Some(timeout) = self.flush_timeout {
+            // The send queue may be full, so waiting for a place in it is bounded as well.
             self.handle
-                .block_on(async { tokio::time::timeout(timeout, ack_rx).await })
+                .block_on(async {
+                    tokio::time::timeout(timeout, async {
+                        tx.send(WriteMsg::Flush(ack_tx)).await.ok();
+                        ack_rx.await
+                    })
+                    .await
+                })
                 .context("timeout while flush")?
                 .map_err(|_| eyre::eyre!("write task for party {to} dropped flush ack"))?
         } else {
+            tx.blocking_send(WriteMsg::Flush(ack_tx))
+                .map_err(|_| eyre::eyre!("write task for party {to} terminated"))?;
             ack_rx
                 .blocking_recv()
                 .map_err(|_| eyre::eyre!("write task for party {to} dropped flush ack"))?
diff --git a/mpc-net/src/blocking.rs b/mpc-net/src/blocking.rs
index f5caf93..1d0d1dc 100644
--- a/mpc-net/src/blocking.rs
+++ b/mpc-net/src/blocking.rs
@@ -127,13 +127,16 @@ impl BlockingChannels {
 
     fn flush_peer(&self, to: usize, tx: &Sender<WriteMsg>) -> eyre::Result<()> {
         let (ack_tx, ack_rx) = bounded(1);
-        tx.send(WriteMsg::Flush(ack_tx))
-            .map_err(|_| eyre::eyre!("writer thread for party {to} terminated"))?;
         let result = if let Some(timeout) = self.flush_timeout {
+            // The send queue may be full, so waiting for a place in it is bounded as well.
+            tx.send_timeout(WriteMsg::Flush(ack_tx), timeout)
+                .map_err(|e| eyre::eyre!("flushing send queue for party {to}: {e}"))?;
             ack_rx
                 .recv_timeout(timeout)
                 .map_err(|_| eyre::eyre!("timed out flushing send queue for party {to}"))?
         } else {
+            tx.send(WriteMsg::Flush(ack_tx))
+                .map_err(|_| eyre::eyre!("writer thread for party {to} terminated"))?;
             ack_rx
                 .recv()
                 .map_err(|_| eyre::eyre!("writer thread for party {to} terminated"))?
-- 
2.43.0


From b60dd52b03158584758be58c5530c173adfc15da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:07 +0000
Subject: [PATCH 06/44] fix: apply the send timeout on the async transports

---
 mpc-net/src/async_net.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/mpc-net/src/async_net.rs b/mpc-net/src/async_net.rs
index 843843b..ca768b6 100644
--- a/mpc-net/src/async_net.rs
+++ b/mpc-net/src/async_net.rs
@@ -45,7 +45,7 @@ pub(crate) struct AsyncChannels {
     recv: HashMap<usize, RecvEntry>,
     /// Handle to the runtime the pump tasks run on, used to bound the shutdown barrier.
     handle: Handle,
-    /// Optional receive timeout for [`recv`](AsyncChannels::recv). If `None`, the receive is unbounded.
+    /// Optional timeout for [`send`](AsyncChannels::send) and [`recv`](AsyncChannels::recv). If `None`, both are unbounded.
     timeout: Option<Duration>,
     flush_timeout: Option<Duration>,
     max_frame_length: usize,
@@ -150,8 +150,14 @@ impl AsyncChannels {
         }
         let (tx, sent_bytes) = self.send.get(&to).context("party id out-of-bounds")?;
         let len = data.len();
-        tx.blocking_send(WriteMsg::Frame(data))
-            .map_err(|_| eyre::eyre!("write task for party {to} terminated"))?;
+        if let Some(timeout) = self.timeout {
+            self.handle
+                .block_on(async { tx.send_timeout(WriteMsg::Frame(data), timeout).await })
+                .map_err(|e| eyre::eyre!("send to party {to}: {e}"))?;
+        } else {
+            tx.blocking_send(WriteMsg::Frame(data))
+                .map_err(|_| eyre::eyre!("write task for party {to} terminated"))?;
+        }
         // Only count what was accepted for sending.
         sent_bytes.fetch_add(len, Ordering::Relaxed);
         Ok(())
-- 
2.43.0


From 9d4f157fb758b2a32ea50cb33f640a34617605ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:53 +0000
Subject: [PATCH 07/44] fix: close TCP connections when a network is dropped,
 without resetting them

---
 mpc-net/src/blocking.rs             | 39 ++++++++++++++++++++++++++++-
 mpc-net/src/tcp.rs                  |  7 +++---
 mpc-net/src/tcp_session_blocking.rs |  4 +--
 3 files changed, 44 insertions(+), 6 deletions(-)

diff --git a/mpc-net/src/blocking.rs b/mpc-net/src/blocking.rs
index 1d0d1dc..91853ed 100644
--- a/mpc-net/src/blocking.rs
+++ b/mpc-net/src/blocking.rs
@@ -9,6 +9,7 @@
 
 use std::{
     io::{IoSlice, Read, Write},
+    net::{Shutdown, TcpStream},
     sync::{atomic::AtomicUsize, atomic::Ordering},
     time::Duration,
 };
@@ -38,6 +39,39 @@ pub(crate) enum WriteMsg {
     Flush(Sender<std::io::Result<()>>),
 }
 
+/// The write half of a TCP connection whose read half is a clone of the same socket.
+///
+/// Dropping it ends the write direction. Without that, the clone that waits for data of the
+/// peer would keep the connection open, so that neither side ever sees the other one leave.
+pub(crate) struct TcpWriteHalf(TcpStream);
+
+impl TcpWriteHalf {
+    /// Create the write half for an established connection.
+    pub(crate) fn new(stream: &TcpStream) -> std::io::Result<Self> {
+        Ok(Self(stream.try_clone()?))
+    }
+}
+
+impl Write for TcpWriteHalf {
+    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
+        self.0.write(buf)
+    }
+
+    fn write_vectored(&mut self, bufs: &[IoSlice<'_>]) -> std::io::Result<usize> {
+        self.0.write_vectored(bufs)
+    }
+
+    fn flush(&mut self) -> std::io::Result<()> {
+        self.0.flush()
+    }
+}
+
+impl Drop for TcpWriteHalf {
+    fn drop(&mut self) {
+        let _ = self.0.shutdown(Shutdown::Write);
+    }
+}
+
 /// The per-peer send/receive queues (and byte counters) shared by the blocking transports.
 #[derive(Debug)]
 pub(crate) struct BlockingChannels {
@@ -243,10 +277,13 @@ fn reader_loop<R: Read>(stream: R, tx: Sender<eyre::Result<Bytes>>, max_frame_le
             }
             Err(err) => {
                 let _ = tx.send(Err(err));
-                break;
+                return;
             }
         }
     }
+    // Nobody receives anymore. Closing a socket with unread data resets the connection, which
+    // can destroy data on its way to the peer, so read on until the peer leaves as well.
+    while reader.next_frame().is_ok() {}
 }
 
 /// A buffered, length-delimited frame reader over a blocking [`Read`]. This is the
diff --git a/mpc-net/src/tcp.rs b/mpc-net/src/tcp.rs
index a65fbb8..bb8322a 100644
--- a/mpc-net/src/tcp.rs
+++ b/mpc-net/src/tcp.rs
@@ -8,7 +8,8 @@ use std::{
 };
 
 use crate::{
-    ConnectionStats, DEFAULT_MAX_FRAME_LENGTH, Network, blocking::BlockingChannels,
+    ConnectionStats, DEFAULT_MAX_FRAME_LENGTH, Network,
+    blocking::{BlockingChannels, TcpWriteHalf},
     config::NetworkConfig,
 };
 use byteorder::{BigEndian, ReadBytesExt as _, WriteBytesExt as _};
@@ -107,7 +108,7 @@ impl TcpNetwork {
                         stream.set_nodelay(true)?;
                         stream.write_u64::<BigEndian>(i as u64)?;
                         stream.write_u64::<BigEndian>(id as u64)?;
-                        let write_stream = stream.try_clone().expect("can clone stream");
+                        let write_stream = TcpWriteHalf::new(&stream).expect("can clone stream");
                         nets[i].channels.add_peer(other_id, write_stream, stream);
                     }
                     Ordering::Greater => {
@@ -120,7 +121,7 @@ impl TcpNetwork {
                         stream.set_nodelay(true)?;
                         let i = stream.read_u64::<BigEndian>()? as usize;
                         let other_id = stream.read_u64::<BigEndian>()? as usize;
-                        let write_stream = stream.try_clone().expect("can clone stream");
+                        let write_stream = TcpWriteHalf::new(&stream).expect("can clone stream");
                         nets[i].channels.add_peer(other_id, write_stream, stream);
                     }
                     Ordering::Equal => continue,
diff --git a/mpc-net/src/tcp_session_blocking.rs b/mpc-net/src/tcp_session_blocking.rs
index 53ed3e0..2134d27 100644
--- a/mpc-net/src/tcp_session_blocking.rs
+++ b/mpc-net/src/tcp_session_blocking.rs
@@ -11,7 +11,7 @@ use crossbeam_channel::Sender;
 use eyre::Context as _;
 use serde::Deserialize;
 
-use crate::blocking::BlockingChannels;
+use crate::blocking::{BlockingChannels, TcpWriteHalf};
 use crate::{ConnectionStats, DEFAULT_MAX_FRAME_LENGTH, Network};
 use bytes::Bytes;
 
@@ -314,7 +314,7 @@ impl TcpNetwork {
         let mut channels = BlockingChannels::new(timeout, flush_timeout, max_frame_length);
 
         for (other_id, stream) in streams {
-            let write_stream = stream.try_clone().expect("can clone stream");
+            let write_stream = TcpWriteHalf::new(&stream).expect("can clone stream");
             channels.add_peer(other_id, write_stream, stream);
         }
 
-- 
2.43.0


From dcd98b17f694cabd4e80e917f1de1e4355d884e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:53 +0000
Subject: [PATCH 08/44] fix: do not reset the connection when an async network
 is dropped with unread data

---
 mpc-net/src/async_net.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mpc-net/src/async_net.rs b/mpc-net/src/async_net.rs
index ca768b6..55a6eed 100644
--- a/mpc-net/src/async_net.rs
+++ b/mpc-net/src/async_net.rs
@@ -111,6 +111,8 @@ impl AsyncChannels {
                     }
                 }
             }
+            // End the write direction: the read half may keep the connection open.
+            let _ = sink.close().await;
         });
 
         let cancellation = self.cancellation.clone();
@@ -129,12 +131,16 @@ impl AsyncChannels {
                             let _ = recv_tx
                                 .send(Err(eyre::eyre!("recv error from party {other_id}: {err}")))
                                 .await;
-                            break;
+                            return;
                         }
-                        None => break,
+                        None => return,
                     }
                 }
             }
+            // Nobody receives anymore. Closing a socket with unread data resets the connection,
+            // which can destroy data on its way to the peer, so read on until the peer leaves
+            // as well.
+            while let Some(Ok(_)) = source.next().await {}
         });
 
         self.send
-- 
2.43.0


From 5ebf503c2022ec981b333bcdf71e907dae175c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:59 +0000
Subject: [PATCH 09/44] fix: validate introductions and bound them by the
 connect timeout in TCP and TLS set-up

---
 mpc-net/src/blocking.rs |  5 ++++
 mpc-net/src/tcp.rs      | 40 +++++++++++++++++++++-------
 mpc-net/src/tls.rs      | 58 ++++++++++++++++++++++++++++++-----------
 3 files changed, 79 insertions(+), 24 deletions(-)

diff --git a/mpc-net/src/blocking.rs b/mpc-net/src/blocking.rs
index 91853ed..9355b6b 100644
--- a/mpc-net/src/blocking.rs
+++ b/mpc-net/src/blocking.rs
@@ -119,6 +119,11 @@ impl BlockingChannels {
             .insert(other_id, (recv_rx, AtomicUsize::default()));
     }
 
+    /// Whether the peer was registered already.
+    pub(crate) fn has_peer(&self, other_id: usize) -> bool {
+        self.send.contains_key(other_id)
+    }
+
     /// Enqueue `data` to `to`. Coalesces the length prefix and payload into one buffer
     /// so each frame is a single write on the writer thread.
     pub(crate) fn send(&self, to: usize, data: Bytes) -> eyre::Result<()> {
diff --git a/mpc-net/src/tcp.rs b/mpc-net/src/tcp.rs
index bb8322a..d83f42f 100644
--- a/mpc-net/src/tcp.rs
+++ b/mpc-net/src/tcp.rs
@@ -3,6 +3,7 @@
 use std::{
     array,
     cmp::Ordering,
+    io::ErrorKind,
     net::{SocketAddr, TcpListener, TcpStream, ToSocketAddrs},
     time::{Duration, Instant},
 };
@@ -112,15 +113,29 @@ impl TcpNetwork {
                         nets[i].channels.add_peer(other_id, write_stream, stream);
                     }
                     Ordering::Greater => {
-                        let (stream, _) = listener.accept()?;
-                        // disable read_timeout again - we only need it for accept
-                        let socket = Socket::from(stream);
-                        socket.set_read_timeout(None)?;
-                        let mut stream = TcpStream::from(socket);
-                        stream.set_write_timeout(timeout)?;
-                        stream.set_nodelay(true)?;
-                        let i = stream.read_u64::<BigEndian>()? as usize;
-                        let other_id = stream.read_u64::<BigEndian>()? as usize;
+                        let (stream, i, other_id) = loop {
+                            let (mut stream, peer_addr) = match listener.accept() {
+                                Err(e) if e.kind() == ErrorKind::ConnectionAborted => continue,
+                                res => res?,
+                            };
+                            stream.set_write_timeout(timeout)?;
+                            stream.set_nodelay(true)?;
+                            // the timeout also covers the introduction of the peer
+                            stream.set_read_timeout(connect_timeout)?;
+                            match read_introduction(&mut stream) {
+                                Ok((i, other_id))
+                                    if i < N
+                                        && other_id < id
+                                        && !nets[i].channels.has_peer(other_id) =>
+                                {
+                                    stream.set_read_timeout(None)?;
+                                    break (stream, i, other_id);
+                                }
+                                res => tracing::warn!(
+                                    "dropping connection from {peer_addr} with introduction {res:?}"
+                                ),
+                            }
+                        };
                         let write_stream = TcpWriteHalf::new(&stream).expect("can clone stream");
                         nets[i].channels.add_peer(other_id, write_stream, stream);
                     }
@@ -133,6 +148,13 @@ impl TcpNetwork {
     }
 }
 
+/// Read which of its networks and which party a peer connects for.
+fn read_introduction(stream: &mut TcpStream) -> std::io::Result<(usize, usize)> {
+    let i = stream.read_u64::<BigEndian>()? as usize;
+    let other_id = stream.read_u64::<BigEndian>()? as usize;
+    Ok((i, other_id))
+}
+
 impl Network for TcpNetwork {
     fn id(&self) -> usize {
         self.id
diff --git a/mpc-net/src/tls.rs b/mpc-net/src/tls.rs
index f588680..e5015b2 100644
--- a/mpc-net/src/tls.rs
+++ b/mpc-net/src/tls.rs
@@ -4,7 +4,7 @@ use std::{
     array,
     cmp::Ordering,
     collections::HashMap,
-    io::{IoSlice, Read, Write},
+    io::{ErrorKind, IoSlice, Read, Write},
     net::{SocketAddr, TcpListener, TcpStream, ToSocketAddrs as _},
     sync::Arc,
     time::{Duration, Instant},
@@ -220,6 +220,8 @@ impl TlsNetwork {
                             };
                             stream.set_write_timeout(timeout)?;
                             stream.set_nodelay(true)?;
+                            // the timeout also covers the handshake
+                            stream.set_read_timeout(connect_timeout)?;
 
                             let name = ServerName::try_from(host_name)?.to_owned();
                             let conn = ClientConnection::new(client_config.clone(), name.clone())?;
@@ -229,6 +231,9 @@ impl TlsNetwork {
                             stream.write_u64::<BigEndian>(id as u64)?;
                             stream.write_u8(s)?;
                             stream.flush()?;
+                            if let TlsStream::Client(stream) = &stream {
+                                stream.sock.set_read_timeout(None)?;
+                            }
 
                             // As the connecting party, STREAM_0 is our send direction
                             // and STREAM_1 is our receive direction.
@@ -240,20 +245,35 @@ impl TlsNetwork {
                             }
                         }
                         Ordering::Greater => {
-                            let (stream, _) = listener.accept()?;
-                            // disable read_timeout again - we only need it for accept
-                            let socket = Socket::from(stream);
-                            socket.set_read_timeout(None)?;
-                            let stream = TcpStream::from(socket);
-                            stream.set_write_timeout(timeout)?;
-                            stream.set_nodelay(true)?;
-
-                            let conn = ServerConnection::new(server_config.clone())?;
-                            let mut stream = TlsStream::Server(StreamOwned::new(conn, stream));
-
-                            let i = stream.read_u64::<BigEndian>()? as usize;
-                            let other_id = stream.read_u64::<BigEndian>()? as usize;
-                            let s_ = stream.read_u8()?;
+                            let (stream, i, other_id, s_) = loop {
+                                let (stream, peer_addr) = match listener.accept() {
+                                    Err(e) if e.kind() == ErrorKind::ConnectionAborted => continue,
+                                    res => res?,
+                                };
+                                stream.set_write_timeout(timeout)?;
+                                stream.set_nodelay(true)?;
+                                // the timeout also covers the handshake and the introduction
+                                stream.set_read_timeout(connect_timeout)?;
+
+                                let conn = ServerConnection::new(server_config.clone())?;
+                                let mut stream = StreamOwned::new(conn, stream);
+                                match read_introduction(&mut stream) {
+                                    Ok((i, other_id, s_))
+                                        if i < N
+                                            && other_id < id
+                                            && s_ <= STREAM_1
+                                            && pending[i].get(&other_id).is_none_or(|p| {
+                                                if s_ == STREAM_0 { &p.1 } else { &p.0 }.is_none()
+                                            }) =>
+                                    {
+                                        stream.sock.set_read_timeout(None)?;
+                                        break (TlsStream::Server(stream), i, other_id, s_);
+                                    }
+                                    res => tracing::warn!(
+                                        "dropping connection from {peer_addr} with introduction {res:?}"
+                                    ),
+                                }
+                            };
 
                             // As the accepting party, the peer's STREAM_0 is our receive
                             // direction and its STREAM_1 is our send direction.
@@ -284,6 +304,14 @@ impl TlsNetwork {
     }
 }
 
+/// Read which of its networks, which party and which direction a peer connects for.
+fn read_introduction(stream: &mut impl Read) -> std::io::Result<(usize, usize, u8)> {
+    let i = stream.read_u64::<BigEndian>()? as usize;
+    let other_id = stream.read_u64::<BigEndian>()? as usize;
+    let s = stream.read_u8()?;
+    Ok((i, other_id, s))
+}
+
 impl Network for TlsNetwork {
     fn id(&self) -> usize {
         self.id
-- 
2.43.0


From aba83ccb9d53f93b9aa75343ee44f2ea27ddc3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:31 +0000
Subject: [PATCH 10/44] fix: shut down all QUIC connections even if one of them
 failed

---
 mpc-net/src/quic.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/mpc-net/src/quic.rs b/mpc-net/src/quic.rs
index d5c0611..44321ea 100644
--- a/mpc-net/src/quic.rs
+++ b/mpc-net/src/quic.rs
@@ -245,12 +245,16 @@ impl QuicConnectionHandler {
     pub async fn shutdown(&self) -> eyre::Result<()> {
         for (id, conn) in self.connections.iter() {
             if self.id < *id {
-                let mut send = conn.open_uni().await?;
-                send.write_all(b"done").await?;
+                // A failed connection must not keep the others from being shut down.
+                let res = async { eyre::Ok(conn.open_uni().await?.write_all(b"done").await?) };
+                if let Err(err) = res.await {
+                    tracing::warn!("failed to send to conn {id}: {err:?}");
+                }
             } else {
-                let mut recv = conn.accept_uni().await?;
                 let mut buffer = vec![0u8; b"done".len()];
-                if let Err(err) = recv.read_exact(&mut buffer).await {
+                let res =
+                    async { eyre::Ok(conn.accept_uni().await?.read_exact(&mut buffer).await?) };
+                if let Err(err) = res.await {
                     tracing::warn!("failed to recv from conn {id}: {err:?}");
                 }
                 tracing::debug!("party {} closing conn = {id}", self.id);
-- 
2.43.0


From be560b4a2885a37ac27e3b770e447694139a505a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:41 +0000
Subject: [PATCH 11/44] fix: bound the QUIC shutdown on drop by the flush
 timeout

---
 mpc-net/src/quic.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/mpc-net/src/quic.rs b/mpc-net/src/quic.rs
index 44321ea..211a199 100644
--- a/mpc-net/src/quic.rs
+++ b/mpc-net/src/quic.rs
@@ -280,7 +280,14 @@ impl Drop for QuicConnectionHandler {
         // thread so that a future async embedder cannot turn teardown into a panic.
         // The child thread is not part of any runtime, so `block_on` is always
         // valid there. Errors during shutdown are ignored (best-effort cleanup).
-        let res = std::thread::scope(|s| s.spawn(|| self.rt.block_on(self.shutdown())).join());
+        let shutdown = async {
+            match self.flush_timeout {
+                // The peers may be gone or never leave: do not wait for them forever.
+                Some(timeout) => tokio::time::timeout(timeout, self.shutdown()).await?,
+                None => self.shutdown().await,
+            }
+        };
+        let res = std::thread::scope(|s| s.spawn(|| self.rt.block_on(shutdown)).join());
         if let Ok(Err(err)) = res {
             tracing::warn!("error during QUIC shutdown: {err:?}");
         }
-- 
2.43.0


From 0e70a5b28999e6bb1da5f970023779d2086aea95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:13 +0000
Subject: [PATCH 12/44] fix: do not wait for data on the TLS send connection
 after a write timed out

---
 mpc-net/src/tls.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/mpc-net/src/tls.rs b/mpc-net/src/tls.rs
index e5015b2..41e4075 100644
--- a/mpc-net/src/tls.rs
+++ b/mpc-net/src/tls.rs
@@ -33,6 +33,15 @@ pub enum TlsStream {
     Server(StreamOwned<ServerConnection, TcpStream>),
 }
 
+impl TlsStream {
+    fn socket(&self) -> &TcpStream {
+        match self {
+            TlsStream::Client(stream) => &stream.sock,
+            TlsStream::Server(stream) => &stream.sock,
+        }
+    }
+}
+
 impl From<StreamOwned<ClientConnection, TcpStream>> for TlsStream {
     fn from(value: StreamOwned<ClientConnection, TcpStream>) -> Self {
         Self::Client(value)
@@ -294,6 +303,9 @@ impl TlsNetwork {
             for (other_id, (write_stream, read_stream)) in net_pending {
                 let write_stream = write_stream.context("missing TLS send connection")?;
                 let read_stream = read_stream.context("missing TLS recv connection")?;
+                // Nothing is ever read on the send connection, but if a write timed out, rustls
+                // tries to read from it before it reports the timeout. Do not block there.
+                write_stream.socket().set_read_timeout(timeout)?;
                 nets[i]
                     .channels
                     .add_peer(other_id, write_stream, read_stream);
-- 
2.43.0


From c9843fbdb9d32d867a3fc74d376db46af17c513b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:08 +0000
Subject: [PATCH 13/44] fix: flush does not wait for a writer thread that has
 failed

---
 mpc-net/src/blocking.rs | 52 +++++++++++++++++++++++++++--------------
 1 file changed, 35 insertions(+), 17 deletions(-)

diff --git a/mpc-net/src/blocking.rs b/mpc-net/src/blocking.rs
index 9355b6b..013d13e 100644
--- a/mpc-net/src/blocking.rs
+++ b/mpc-net/src/blocking.rs
@@ -8,14 +8,15 @@
 //! handed to [`BlockingChannels::add_peer`].
 
 use std::{
+    convert::Infallible,
     io::{IoSlice, Read, Write},
     net::{Shutdown, TcpStream},
     sync::{atomic::AtomicUsize, atomic::Ordering},
-    time::Duration,
+    time::{Duration, Instant},
 };
 
 use bytes::{Buf as _, Bytes, BytesMut};
-use crossbeam_channel::{Receiver, Sender, bounded};
+use crossbeam_channel::{Receiver, Sender, at, bounded, never, select};
 use eyre::ContextCompat as _;
 use intmap::IntMap;
 
@@ -27,7 +28,9 @@ pub(crate) const SEND_QUEUE_CAP: usize = 32;
 /// Capacity (in frames) of each per-peer receive queue.
 pub(crate) const RECV_QUEUE_CAP: usize = 32;
 
-type SendEntry = (Sender<WriteMsg>, AtomicUsize);
+/// The send queue, the number of bytes accepted for sending, and a channel that disconnects
+/// when the writer thread ends.
+type SendEntry = (Sender<WriteMsg>, AtomicUsize, Receiver<Infallible>);
 type RecvEntry = (Receiver<eyre::Result<Bytes>>, AtomicUsize);
 
 /// A message handed to a peer's background writer thread.
@@ -109,9 +112,13 @@ impl BlockingChannels {
     {
         let max_frame_length = self.max_frame_length;
         let (send_tx, send_rx) = bounded(SEND_QUEUE_CAP);
-        std::thread::spawn(move || writer_loop(write_stream, send_rx));
+        let (running_tx, running_rx) = bounded(0);
+        std::thread::spawn(move || {
+            writer_loop(write_stream, send_rx);
+            drop(running_tx);
+        });
         self.send
-            .insert(other_id, (send_tx, AtomicUsize::default()));
+            .insert(other_id, (send_tx, AtomicUsize::default(), running_rx));
 
         let (recv_tx, recv_rx) = bounded(RECV_QUEUE_CAP);
         std::thread::spawn(move || reader_loop(read_stream, recv_tx, max_frame_length));
@@ -130,7 +137,7 @@ impl BlockingChannels {
         if data.len() > self.max_frame_length {
             eyre::bail!("frame len {} > max {}", data.len(), self.max_frame_length);
         }
-        let (tx, sent_bytes) = self.send.get(to).context("party id out-of-bounds")?;
+        let (tx, sent_bytes, _) = self.send.get(to).context("party id out-of-bounds")?;
         let len = data.len();
         // The payload moves into the queue unchanged; the writer thread prepends the
         // length prefix with a vectored write (no copy of the payload).
@@ -158,28 +165,39 @@ impl BlockingChannels {
     /// failure is returned.
     pub(crate) fn flush(&self) -> eyre::Result<()> {
         let mut res = Ok(());
-        for (to, (tx, _)) in self.send.iter() {
-            res = res.and(self.flush_peer(to, tx));
+        for (to, (tx, _, running)) in self.send.iter() {
+            res = res.and(self.flush_peer(to, tx, running));
         }
         res
     }
 
-    fn flush_peer(&self, to: usize, tx: &Sender<WriteMsg>) -> eyre::Result<()> {
+    fn flush_peer(
+        &self,
+        to: usize,
+        tx: &Sender<WriteMsg>,
+        running: &Receiver<Infallible>,
+    ) -> eyre::Result<()> {
         let (ack_tx, ack_rx) = bounded(1);
-        let result = if let Some(timeout) = self.flush_timeout {
+        if let Some(timeout) = self.flush_timeout {
             // The send queue may be full, so waiting for a place in it is bounded as well.
             tx.send_timeout(WriteMsg::Flush(ack_tx), timeout)
                 .map_err(|e| eyre::eyre!("flushing send queue for party {to}: {e}"))?;
-            ack_rx
-                .recv_timeout(timeout)
-                .map_err(|_| eyre::eyre!("timed out flushing send queue for party {to}"))?
         } else {
             tx.send(WriteMsg::Flush(ack_tx))
                 .map_err(|_| eyre::eyre!("writer thread for party {to} terminated"))?;
-            ack_rx
-                .recv()
-                .map_err(|_| eyre::eyre!("writer thread for party {to} terminated"))?
+        }
+        let deadline = match self.flush_timeout {
+            Some(timeout) => at(Instant::now() + timeout),
+            None => never(),
+        };
+        // A writer thread that fails leaves the requests still queued behind, neither
+        // acknowledged nor dropped, so watch whether it is running as well.
+        let result = select! {
+            recv(ack_rx) -> result => result.ok(),
+            recv(running) -> _ => ack_rx.try_recv().ok(),
+            recv(deadline) -> _ => eyre::bail!("timed out flushing send queue for party {to}"),
         };
+        let result = result.context(format!("writer thread for party {to} terminated"))?;
         if let Err(e) = result {
             eyre::bail!("failed to flush send queue for party {to}: {e}");
         }
@@ -189,7 +207,7 @@ impl BlockingChannels {
     /// Application-level (sent, received) byte counts per peer.
     pub(crate) fn stats(&self, my_id: usize) -> ConnectionStats {
         let mut stats = std::collections::BTreeMap::new();
-        for (id, (_, sent_bytes)) in self.send.iter() {
+        for (id, (_, sent_bytes, _)) in self.send.iter() {
             let recv_bytes = &self.recv.get(id).expect("was in send so must be in recv").1;
             stats.insert(
                 id,
-- 
2.43.0


From aca41ff2db7df55ba33cdb8e794ca662f218e4b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:10 +0000
Subject: [PATCH 14/44] fix: keep the connection for a session whose previous
 set-up attempt was abandoned

---
 mpc-net/src/tcp_session.rs          |  7 ++++++-
 mpc-net/src/tcp_session_blocking.rs | 21 ++++++++++++++++-----
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/mpc-net/src/tcp_session.rs b/mpc-net/src/tcp_session.rs
index 8a4feab..5786f11 100644
--- a/mpc-net/src/tcp_session.rs
+++ b/mpc-net/src/tcp_session.rs
@@ -121,8 +121,13 @@ impl TcpStreams {
             }
             Some((MaybeTcpStream::Waiter(tx), _)) => {
                 tracing::trace!("found waiter, sending stream");
-                if tx.send(stream).is_err() {
+                if let Err(stream) = tx.send(stream) {
+                    // that attempt was abandoned, keep the connection for the next one
                     tracing::warn!("failed to send stream to waiter, receiver dropped");
+                    streams.insert(
+                        (session_id, party_id),
+                        (MaybeTcpStream::TcpStream(stream), Instant::now()),
+                    );
                 }
             }
             None => {
diff --git a/mpc-net/src/tcp_session_blocking.rs b/mpc-net/src/tcp_session_blocking.rs
index 2134d27..4825d0e 100644
--- a/mpc-net/src/tcp_session_blocking.rs
+++ b/mpc-net/src/tcp_session_blocking.rs
@@ -99,12 +99,23 @@ impl TcpStreams {
                     (MaybeTcpStream::Waiter(tx), Instant::now()),
                 );
                 drop(streams); // drop to release lock
-                if let Some(timeout) = timeout {
-                    rx.recv_timeout(timeout)
+                let Some(timeout) = timeout else {
+                    return rx.recv().context("while waiting for incoming connection");
+                };
+                rx.recv_timeout(timeout).or_else(|err| {
+                    let mut streams = self.streams.lock().expect("not poisoned");
+                    // the connection may have arrived in the meantime
+                    rx.try_recv()
+                        .inspect_err(|err| {
+                            // This attempt is over: a connection that arrives from now on is for
+                            // the next one. Unless another attempt already replaced our waiter.
+                            if err.is_empty() {
+                                streams.remove(&(session_id, party_id));
+                            }
+                        })
+                        .map_err(|_| err)
                         .context("while waiting for incoming connection")
-                } else {
-                    rx.recv().context("while waiting for incoming connection")
-                }
+                })
             }
         }
     }
-- 
2.43.0


From aec4706387b3d9b1bf40490e28f181eab7e957a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:10 +0000
Subject: [PATCH 15/44] fix: do not discard session set-ups that are still
 waiting as idle connections

---
 mpc-net/src/tcp_session.rs          | 9 +++++++--
 mpc-net/src/tcp_session_blocking.rs | 9 +++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/mpc-net/src/tcp_session.rs b/mpc-net/src/tcp_session.rs
index 5786f11..b342ab4 100644
--- a/mpc-net/src/tcp_session.rs
+++ b/mpc-net/src/tcp_session.rs
@@ -201,8 +201,13 @@ impl TcpNetworkHandler {
                     let mut streams = streams.streams.lock().await;
                     let now = Instant::now();
                     let before_cleanup = streams.len();
-                    streams
-                        .retain(|_, (_, last_used)| now.duration_since(*last_used) < time_to_idle);
+                    streams.retain(|_, (stream, last_used)| match stream {
+                        MaybeTcpStream::TcpStream(_) => {
+                            now.duration_since(*last_used) < time_to_idle
+                        }
+                        // keep the waiters of session set-ups that are still in progress
+                        MaybeTcpStream::Waiter(tx) => !tx.is_closed(),
+                    });
                     let after_cleanup = streams.len();
                     let removed = before_cleanup - after_cleanup;
                     if removed > 0 {
diff --git a/mpc-net/src/tcp_session_blocking.rs b/mpc-net/src/tcp_session_blocking.rs
index 4825d0e..8cd8c2d 100644
--- a/mpc-net/src/tcp_session_blocking.rs
+++ b/mpc-net/src/tcp_session_blocking.rs
@@ -227,8 +227,13 @@ impl TcpNetworkHandler {
                     let mut streams = streams.streams.lock().expect("not poisoned");
                     let now = Instant::now();
                     let before_cleanup = streams.len();
-                    streams
-                        .retain(|_, (_, last_used)| now.duration_since(*last_used) < time_to_idle);
+                    streams.retain(|_, (stream, last_used)| match stream {
+                        MaybeTcpStream::TcpStream(_) => {
+                            now.duration_since(*last_used) < time_to_idle
+                        }
+                        // session set-ups remove their waiter themselves once they time out
+                        MaybeTcpStream::Waiter(_) => true,
+                    });
                     let after_cleanup = streams.len();
                     let removed = before_cleanup - after_cleanup;
                     if removed > 0 {
-- 
2.43.0


From 47d3c6db1d1ca1c27d337f2098d97c48916ad4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:28 +0000
Subject: [PATCH 16/44] fix: a connection that sends no session id does not
 keep other sessions from being established

---
 mpc-net/src/tcp_session.rs          | 41 ++++++++++++++++++++-----
 mpc-net/src/tcp_session_blocking.rs | 46 +++++++++++++++++++----------
 2 files changed, 65 insertions(+), 22 deletions(-)

diff --git a/mpc-net/src/tcp_session.rs b/mpc-net/src/tcp_session.rs
index b342ab4..9edab1f 100644
--- a/mpc-net/src/tcp_session.rs
+++ b/mpc-net/src/tcp_session.rs
@@ -96,7 +96,12 @@ impl TcpStreams {
         }
     }
 
-    pub(crate) async fn insert(&self, mut stream: TcpStream) -> eyre::Result<()> {
+    /// Read for which session the connection accepted at `accepted` is and hand it over.
+    pub(crate) async fn insert(
+        &self,
+        mut stream: TcpStream,
+        accepted: Instant,
+    ) -> eyre::Result<()> {
         stream.set_nodelay(true)?;
 
         tracing::trace!("reading session id..");
@@ -110,13 +115,22 @@ impl TcpStreams {
         let mut streams = self.streams.lock().await;
         let maybe_stream = streams.remove(&(session_id, party_id));
         match maybe_stream {
+            Some((MaybeTcpStream::TcpStream(newer), last_used)) if last_used > accepted => {
+                tracing::warn!(
+                    "got duplicate incoming connection for session_id {session_id} and party_id {party_id}, keeping newer connection"
+                );
+                streams.insert(
+                    (session_id, party_id),
+                    (MaybeTcpStream::TcpStream(newer), last_used),
+                );
+            }
             Some((MaybeTcpStream::TcpStream(_), _)) => {
                 tracing::warn!(
                     "got duplicate incoming connection for session_id {session_id} and party_id {party_id}, replacing old connection"
                 );
                 streams.insert(
                     (session_id, party_id),
-                    (MaybeTcpStream::TcpStream(stream), Instant::now()),
+                    (MaybeTcpStream::TcpStream(stream), accepted),
                 );
             }
             Some((MaybeTcpStream::Waiter(tx), _)) => {
@@ -126,7 +140,7 @@ impl TcpStreams {
                     tracing::warn!("failed to send stream to waiter, receiver dropped");
                     streams.insert(
                         (session_id, party_id),
-                        (MaybeTcpStream::TcpStream(stream), Instant::now()),
+                        (MaybeTcpStream::TcpStream(stream), accepted),
                     );
                 }
             }
@@ -134,7 +148,7 @@ impl TcpStreams {
                 tracing::trace!("no waiter found, inserting stream");
                 streams.insert(
                     (session_id, party_id),
-                    (MaybeTcpStream::TcpStream(stream), Instant::now()),
+                    (MaybeTcpStream::TcpStream(stream), accepted),
                 );
             }
         }
@@ -180,9 +194,22 @@ impl TcpNetworkHandler {
                 loop {
                     if let Ok((stream, addr)) = listener.accept().await {
                         tracing::trace!("accepted incoming connection from {addr}");
-                        if let Err(err) = streams.insert(stream).await {
-                            tracing::warn!("failed to insert incoming connection: {err:?}");
-                        }
+                        let accepted = Instant::now();
+                        let streams = streams.clone();
+                        // a connection that does not say which session it is for must not
+                        // keep the other ones waiting
+                        tokio::spawn(async move {
+                            let insert = streams.insert(stream, accepted);
+                            match tokio::time::timeout(time_to_idle, insert).await {
+                                Ok(Ok(())) => {}
+                                Ok(Err(err)) => {
+                                    tracing::warn!("failed to insert incoming connection: {err:?}");
+                                }
+                                Err(_) => {
+                                    tracing::warn!("dropping silent connection from {addr}");
+                                }
+                            }
+                        });
                     } else {
                         tracing::warn!("failed to accept incoming connection");
                     }
diff --git a/mpc-net/src/tcp_session_blocking.rs b/mpc-net/src/tcp_session_blocking.rs
index 8cd8c2d..507c573 100644
--- a/mpc-net/src/tcp_session_blocking.rs
+++ b/mpc-net/src/tcp_session_blocking.rs
@@ -56,22 +56,19 @@ pub(crate) enum MaybeTcpStream {
     Waiter(Sender<TcpStream>),
 }
 
-#[derive(Default, Debug, Clone)]
+#[derive(Debug, Clone)]
 #[expect(clippy::complexity)]
 pub(crate) struct TcpStreams {
     write_timeout: Option<Duration>,
-    init_session_timeout: Option<Duration>,
+    introduction_timeout: Duration,
     streams: Arc<Mutex<HashMap<(u128, usize), (MaybeTcpStream, Instant)>>>,
 }
 
 impl TcpStreams {
-    pub(crate) fn new(
-        write_timeout: Option<Duration>,
-        init_session_timeout: Option<Duration>,
-    ) -> Self {
+    pub(crate) fn new(write_timeout: Option<Duration>, introduction_timeout: Duration) -> Self {
         Self {
             write_timeout,
-            init_session_timeout,
+            introduction_timeout,
             streams: Arc::default(),
         }
     }
@@ -120,11 +117,12 @@ impl TcpStreams {
         }
     }
 
-    pub(crate) fn insert(&self, mut stream: TcpStream) -> eyre::Result<()> {
+    /// Read for which session the connection accepted at `accepted` is and hand it over.
+    pub(crate) fn insert(&self, mut stream: TcpStream, accepted: Instant) -> eyre::Result<()> {
         stream.set_nodelay(true)?;
-        // set read timeout to init_session_timeout, so that we don't block forever
+        // set a read timeout, so that we don't block forever
         // if the other party doesn't send the session id and party id
-        stream.set_read_timeout(self.init_session_timeout)?;
+        stream.set_read_timeout(Some(self.introduction_timeout))?;
         stream.set_write_timeout(self.write_timeout)?;
 
         tracing::trace!("reading session id..");
@@ -141,13 +139,22 @@ impl TcpStreams {
         let mut streams = self.streams.lock().expect("not poisoned");
         let maybe_stream = streams.remove(&(session_id, party_id));
         match maybe_stream {
+            Some((MaybeTcpStream::TcpStream(newer), last_used)) if last_used > accepted => {
+                tracing::warn!(
+                    "got duplicate incoming connection for session_id {session_id} and party_id {party_id}, keeping newer connection"
+                );
+                streams.insert(
+                    (session_id, party_id),
+                    (MaybeTcpStream::TcpStream(newer), last_used),
+                );
+            }
             Some((MaybeTcpStream::TcpStream(_), _)) => {
                 tracing::warn!(
                     "got duplicate incoming connection for session_id {session_id} and party_id {party_id}, replacing old connection"
                 );
                 streams.insert(
                     (session_id, party_id),
-                    (MaybeTcpStream::TcpStream(stream), Instant::now()),
+                    (MaybeTcpStream::TcpStream(stream), accepted),
                 );
             }
             Some((MaybeTcpStream::Waiter(tx), _)) => {
@@ -160,7 +167,7 @@ impl TcpStreams {
                 tracing::trace!("no waiter found, inserting stream");
                 streams.insert(
                     (session_id, party_id),
-                    (MaybeTcpStream::TcpStream(stream), Instant::now()),
+                    (MaybeTcpStream::TcpStream(stream), accepted),
                 );
             }
         }
@@ -199,7 +206,7 @@ impl TcpNetworkHandler {
         }: NetworkConfig,
     ) -> eyre::Result<Self> {
         let listener = TcpListener::bind(bind_addr)?;
-        let streams = TcpStreams::new(timeout, init_session_timeout);
+        let streams = TcpStreams::new(timeout, init_session_timeout.unwrap_or(time_to_idle));
 
         std::thread::spawn({
             let streams = streams.clone();
@@ -207,8 +214,17 @@ impl TcpNetworkHandler {
                 loop {
                     if let Ok((stream, addr)) = listener.accept() {
                         tracing::trace!("accepted incoming connection from {addr}");
-                        if let Err(err) = streams.insert(stream) {
-                            tracing::warn!("failed to insert incoming connection: {err:?}");
+                        let accepted = Instant::now();
+                        let streams = streams.clone();
+                        // a connection that does not say which session it is for must not
+                        // keep the other ones waiting
+                        let insert = move || {
+                            if let Err(err) = streams.insert(stream, accepted) {
+                                tracing::warn!("failed to insert incoming connection: {err:?}");
+                            }
+                        };
+                        if let Err(err) = std::thread::Builder::new().spawn(insert) {
+                            tracing::warn!("failed to handle incoming connection: {err:?}");
                         }
                     } else {
                         tracing::warn!("failed to accept incoming connection");
-- 
2.43.0


From 46fd18222cf55472448144e879b5db23b495c4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:39 +0000
Subject: [PATCH 17/44] fix: validate introductions and bound them by the
 connect timeout in QUIC set-up

---
 mpc-net/src/quic.rs | 88 ++++++++++++++++++++++++++++-----------------
 1 file changed, 55 insertions(+), 33 deletions(-)

diff --git a/mpc-net/src/quic.rs b/mpc-net/src/quic.rs
index 211a199..40d9634 100644
--- a/mpc-net/src/quic.rs
+++ b/mpc-net/src/quic.rs
@@ -13,7 +13,7 @@ use crate::{
 };
 use bytes::Bytes;
 use eyre::Context as _;
-use quinn::{Connection, Endpoint, TransportConfig, VarInt};
+use quinn::{Connection, Endpoint, Incoming, TransportConfig, VarInt};
 use quinn::{
     crypto::rustls::QuicClientConfig,
     rustls::{RootCertStore, pki_types::CertificateDer},
@@ -94,6 +94,7 @@ impl QuicConnectionHandler {
 
         let mut endpoints = vec![server_endpoint.clone()];
         let mut connections = BTreeMap::new();
+        let num_parties = config.parties.len();
 
         for party in config.parties {
             if party.id == id {
@@ -152,49 +153,70 @@ impl QuicConnectionHandler {
             } else {
                 // we are the server, accept a connection
                 tracing::debug!("party {id} listening on {our_socket_addr}");
-                let maybe_conn = if let Some(connect_timeout) = connect_timeout {
-                    tokio::time::timeout(connect_timeout, server_endpoint.accept())
-                        .await
-                        .with_context(|| {
-                            format!("timeout while waiting for party {} to connect", party.id)
-                        })?
-                } else {
-                    server_endpoint.accept().await
-                };
-                match maybe_conn {
-                    Some(maybe_conn) => {
-                        let conn = maybe_conn.await?;
-                        tracing::trace!(
-                            "Conn with id {} from {} to {}",
-                            conn.stable_id(),
-                            server_endpoint.local_addr().unwrap(),
-                            conn.remote_address(),
-                        );
-                        let mut uni = conn.accept_uni().await?;
-                        let other_party_id = uni.read_u32().await?;
-                        tracing::debug!("party {id} got conn from {other_party_id}");
-                        assert!(
-                            connections
-                                .insert(
-                                    usize::try_from(other_party_id).expect("u32 fits into usize"),
-                                    conn
-                                )
-                                .is_none()
-                        );
-                    }
-                    None => {
+                let (other_party_id, conn) = loop {
+                    let maybe_conn = if let Some(connect_timeout) = connect_timeout {
+                        tokio::time::timeout(connect_timeout, server_endpoint.accept())
+                            .await
+                            .with_context(|| {
+                                format!("timeout while waiting for party {} to connect", party.id)
+                            })?
+                    } else {
+                        server_endpoint.accept().await
+                    };
+                    let Some(maybe_conn) = maybe_conn else {
                         eyre::bail!(
                             "server endpoint did not accept a connection from party {}",
                             party.id
                         )
+                    };
+                    let peer_addr = maybe_conn.remote_address();
+                    let introduction = Self::read_introduction(maybe_conn);
+                    // the timeout also covers the handshake and the introduction
+                    let introduction = if let Some(connect_timeout) = connect_timeout {
+                        tokio::time::timeout(connect_timeout, introduction)
+                            .await
+                            .unwrap_or_else(|_| Err(eyre::eyre!("timeout")))
+                    } else {
+                        introduction.await
+                    };
+                    match introduction {
+                        Ok((other_party_id, conn))
+                            if other_party_id > id
+                                && other_party_id < num_parties
+                                && !connections.contains_key(&other_party_id) =>
+                        {
+                            break (other_party_id, conn);
+                        }
+                        res => tracing::warn!(
+                            "dropping connection from {peer_addr} with introduction {res:?}"
+                        ),
                     }
-                }
+                };
+                tracing::trace!(
+                    "Conn with id {} from {} to {}",
+                    conn.stable_id(),
+                    server_endpoint.local_addr().unwrap(),
+                    conn.remote_address(),
+                );
+                tracing::debug!("party {id} got conn from {other_party_id}");
+                connections.insert(other_party_id, conn);
             }
         }
 
         Ok((connections, endpoints))
     }
 
+    /// Complete the handshake and read which party a peer connects for.
+    async fn read_introduction(incoming: Incoming) -> eyre::Result<(usize, Connection)> {
+        let conn = incoming.await?;
+        let mut uni = conn.accept_uni().await?;
+        let other_party_id = uni.read_u32().await?;
+        Ok((
+            usize::try_from(other_party_id).expect("u32 fits into usize"),
+            conn,
+        ))
+    }
+
     pub fn get_streams(&self) -> eyre::Result<AsyncChannels> {
         let codec = LengthDelimitedCodec::builder()
             .length_field_type::<u64>()
-- 
2.43.0


From 8297ae8a8c2d683454d7b9489e4c3f37523b3e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:43 +0000
Subject: [PATCH 18/44] fix: forking a Shamir state with more pairs than stored
 no longer panics

---
 mpc-core/src/protocols/shamir/rngs.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/mpc-core/src/protocols/shamir/rngs.rs b/mpc-core/src/protocols/shamir/rngs.rs
index bcf1ea8..96a406c 100644
--- a/mpc-core/src/protocols/shamir/rngs.rs
+++ b/mpc-core/src/protocols/shamir/rngs.rs
@@ -70,17 +70,15 @@ impl<F: PrimeField> ShamirRng<F> {
         self.matrix.len()
     }
 
-    /// Create a forked [`ShamirRng`] that consumes `amount` number of corr rand pairs from its parent
+    /// Create a forked [`ShamirRng`] that consumes up to `amount` number of corr rand pairs from its parent
     pub(super) fn fork_with_pairs(&mut self, amount: usize) -> Self {
         let rng = RngType::from_seed(self.rng.r#gen());
         let mut shared_rngs = Vec::with_capacity(self.shared_rngs.len());
         for rng in self.shared_rngs.iter_mut() {
             shared_rngs.push(RngType::from_seed(rng.r#gen()));
         }
-        // TODO return err? pass in net and generate more?
-        if amount > self.r_t.len() {
-            panic!("not enough corr rand pairs");
-        }
+        // If fewer pairs are stored, the fork generates the missing ones once it needs them
+        let amount = amount.min(self.r_t.len());
         Self {
             id: self.id,
             rng,
-- 
2.43.0


From 6c1e6ee6c2363125ffaad48cd658ffeff1ade208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:23 +0000
Subject: [PATCH 19/44] fix: Shamir preprocessing rejects peers' share vectors
 of the wrong length

---
 mpc-core/src/protocols/shamir/rngs.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mpc-core/src/protocols/shamir/rngs.rs b/mpc-core/src/protocols/shamir/rngs.rs
index 96a406c..ed1fc52 100644
--- a/mpc-core/src/protocols/shamir/rngs.rs
+++ b/mpc-core/src/protocols/shamir/rngs.rs
@@ -320,7 +320,10 @@ impl<F: PrimeField> ShamirRng<F> {
         }
         for i in 1..=receiving {
             let send_id = (self.id + self.num_parties - seeded - i) % self.num_parties;
-            let shares = net.recv_many(send_id)?;
+            let shares: Vec<F> = net.recv_many(send_id)?;
+            if shares.len() != output.len() {
+                eyre::bail!("Invalid number of elements received");
+            }
             for (r, s) in output.iter_mut().zip(shares.iter()) {
                 r[send_id] = *s;
             }
-- 
2.43.0


From 83f2cc7c6bda2d85ba92ed86cc7288fb04a670ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:23 +0000
Subject: [PATCH 20/44] fix: Shamir messages with trailing bytes are rejected

---
 mpc-core/src/protocols/shamir/network.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/mpc-core/src/protocols/shamir/network.rs b/mpc-core/src/protocols/shamir/network.rs
index a96986b..4eae6bd 100644
--- a/mpc-core/src/protocols/shamir/network.rs
+++ b/mpc-core/src/protocols/shamir/network.rs
@@ -16,6 +16,15 @@ use super::{
 
 const KING_ID: usize = 0;
 
+/// Deserializes a message, which must not hold anything else.
+fn deserialize_exact<F: CanonicalDeserialize>(mut data: &[u8]) -> eyre::Result<F> {
+    let res = F::deserialize_uncompressed_unchecked(&mut data)?;
+    if !data.is_empty() {
+        eyre::bail!("Invalid message received: {} trailing bytes", data.len());
+    }
+    Ok(res)
+}
+
 /// A extension trait that Shamir specific methods to [`Network`].
 pub trait ShamirNetworkExt: Network {
     /// Sends data to the target party
@@ -50,9 +59,7 @@ pub trait ShamirNetworkExt: Network {
     fn recv_many<F: CanonicalDeserialize>(&self, from: usize) -> eyre::Result<Vec<F>> {
         let data = self.recv(from)?;
 
-        let res = Vec::<F>::deserialize_uncompressed_unchecked(&data[..])?;
-
-        Ok(res)
+        deserialize_exact(&data)
     }
 
     /// Send and receive data to and from all parties.
@@ -81,7 +88,7 @@ pub trait ShamirNetworkExt: Network {
         for other_id in 0..num_parties {
             if other_id != self.id() {
                 let data = self.recv(other_id)?;
-                let deser = F::deserialize_uncompressed_unchecked(&data[..])?;
+                let deser = deserialize_exact(&data)?;
                 res.push(deser);
             } else {
                 res.push(data.to_owned());
@@ -118,7 +125,7 @@ pub trait ShamirNetworkExt: Network {
         for r in 1..num {
             let other_id = (self.id() + num_parties - r) % num_parties;
             let data = self.recv(other_id)?;
-            let deser = F::deserialize_uncompressed_unchecked(&data[..])?;
+            let deser = deserialize_exact(&data)?;
             res.push(deser);
         }
 
-- 
2.43.0


From d466f1e2f7e8b473c766a16f2cb5fed339d8d482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:23 +0000
Subject: [PATCH 21/44] fix: Shamir openings reject peers' vectors of the wrong
 length

---
 mpc-core/src/protocols/shamir/arithmetic.rs | 6 ++++++
 mpc-core/src/protocols/shamir/pointshare.rs | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/mpc-core/src/protocols/shamir/arithmetic.rs b/mpc-core/src/protocols/shamir/arithmetic.rs
index 82fe0a8..8d24043 100644
--- a/mpc-core/src/protocols/shamir/arithmetic.rs
+++ b/mpc-core/src/protocols/shamir/arithmetic.rs
@@ -200,6 +200,9 @@ pub fn open_vec<F: PrimeField, N: Network>(
     let mut transposed = vec![vec![F::zero(); state.threshold + 1]; a.len()];
 
     for (j, r) in rcv.into_iter().enumerate() {
+        if r.len() != a.len() {
+            eyre::bail!("Invalid number of elements received");
+        }
         for (i, val) in r.into_iter().enumerate() {
             transposed[i][j] = val;
         }
@@ -277,6 +280,9 @@ pub fn mul_open_vec<F: PrimeField, N: Network>(
     let mut transposed = vec![vec![F::zero(); 2 * state.threshold + 1]; a.len()];
 
     for (j, r) in rcv.into_iter().enumerate() {
+        if r.len() != a.len() {
+            eyre::bail!("Invalid number of elements received");
+        }
         for (i, val) in r.into_iter().enumerate() {
             transposed[i][j] = val;
         }
diff --git a/mpc-core/src/protocols/shamir/pointshare.rs b/mpc-core/src/protocols/shamir/pointshare.rs
index eba7872..725f7db 100644
--- a/mpc-core/src/protocols/shamir/pointshare.rs
+++ b/mpc-core/src/protocols/shamir/pointshare.rs
@@ -138,6 +138,9 @@ pub fn open_point_many<C: CurveGroup, N: Network>(
     let mut transposed = vec![vec![C::zero(); state.threshold + 1]; a.len()];
 
     for (j, r) in rcv.into_iter().enumerate() {
+        if r.len() != a.len() {
+            eyre::bail!("Invalid number of elements received");
+        }
         for (i, val) in r.into_iter().enumerate() {
             transposed[i][j] = val;
         }
@@ -185,6 +188,9 @@ pub fn open_point_and_field_many<C: CurveGroup, N: Network>(
     let mut transposed_fields = vec![vec![C::ScalarField::zero(); state.threshold + 1]; b.len()];
 
     for (j, (r_point, r_field)) in rcv.into_iter().enumerate() {
+        if r_point.len() != a.len() || r_field.len() != b.len() {
+            eyre::bail!("Invalid number of elements received");
+        }
         for (i, val) in r_point.into_iter().enumerate() {
             transposed_points[i][j] = val;
         }
-- 
2.43.0


From 1074dcda0c0e6d8b92365b6a9351fa8b8036e61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:10 +0000
Subject: [PATCH 22/44] fix: Groth16 verification rejects a wrong number of
 public inputs

---
 co-circom/co-groth16/src/verifier.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/co-circom/co-groth16/src/verifier.rs b/co-circom/co-groth16/src/verifier.rs
index 40fd42e..d46441c 100644
--- a/co-circom/co-groth16/src/verifier.rs
+++ b/co-circom/co-groth16/src/verifier.rs
@@ -19,6 +19,12 @@ impl<P: Pairing> Groth16<P> {
         proof: &Proof<P>,
         public_inputs: &[P::ScalarField],
     ) -> Result<(), VerificationError> {
+        // arkworks silently ignores surplus public inputs (and treats missing ones as zero)
+        if public_inputs.len() + 1 != vk.gamma_abc_g1.len() {
+            return Err(VerificationError::Malformed(eyre::eyre!(
+                "Invalid number of public inputs"
+            )));
+        }
         let vk = ark_groth16::prepare_verifying_key(vk);
         let proof_valid = ArkworksGroth16::<P>::verify_proof(&vk, proof, public_inputs)
             .map_err(eyre::Report::from)?;
-- 
2.43.0


From 770bfbd42ebef8ced9c6c08577e13462524f289f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:25 +0000
Subject: [PATCH 23/44] fix: Plonk proofs of circuits without public inputs no
 longer panic

---
 co-circom/co-plonk/src/round3.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/co-circom/co-plonk/src/round3.rs b/co-circom/co-plonk/src/round3.rs
index 20fa232..5bfb66e 100644
--- a/co-circom/co-plonk/src/round3.rs
+++ b/co-circom/co-plonk/src/round3.rs
@@ -9,12 +9,14 @@ use crate::{
 use ark_ec::CurveGroup;
 use ark_ec::pairing::Pairing;
 use ark_ff::Field;
+use ark_poly::EvaluationDomain;
 use circom_types::plonk::Zkey;
 use itertools::izip;
 use mpc_core::MpcState;
 use mpc_net::Network;
 use num_traits::One;
 use num_traits::Zero;
+use std::borrow::Cow;
 use tracing::instrument;
 
 macro_rules! mul4vec {
@@ -428,6 +430,15 @@ impl<'a, P: Pairing, T: CircomPlonkProver<P>, N: Network + 'static> Round3<'a, P
         )?;
         mul4vec_span.exit();
 
+        // The zkey has the Lagrange polynomials of the public inputs only, but L_1(X) is needed even if
+        // there are none. All its coefficients are 1/n.
+        let lagrange_0 = if let Some(lagrange) = zkey.lagrange.first() {
+            Cow::Borrowed(lagrange.evaluations.as_slice())
+        } else {
+            let coefficients = vec![domains.domain.size_inv; zkey.domain_size];
+            Cow::Owned(domains.extended_domain.fft(&coefficients))
+        };
+
         let t_tz_span = tracing::debug_span!("t, tz").entered();
         let mut t_vec = Vec::with_capacity(len);
         let mut tz_vec = Vec::with_capacity(len);
@@ -448,10 +459,10 @@ impl<'a, P: Pairing, T: CircomPlonkProver<P>, N: Network + 'static> Round3<'a, P
             e3z = T::mul_with_public(e3z, challenges.alpha);
 
             let mut e4 = T::add_with_public(id, z, -P::ScalarField::one());
-            e4 = T::mul_with_public(e4, zkey.lagrange[0].evaluations[i]);
+            e4 = T::mul_with_public(e4, lagrange_0[i]);
             e4 = T::mul_with_public(e4, challenges.alpha2);
 
-            let mut e4z = T::mul_with_public(zp, zkey.lagrange[0].evaluations[i]);
+            let mut e4z = T::mul_with_public(zp, lagrange_0[i]);
             e4z = T::mul_with_public(e4z, challenges.alpha2);
 
             let mut t = T::add(e1[i], e2);
-- 
2.43.0


From e67cdc4f47c8431dc0d7b23e5159f6f0417730bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:03 +0000
Subject: [PATCH 24/44] fix: Plonk prover rejects witnesses of the wrong size
 instead of panicking

---
 co-circom/co-plonk/src/round1.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/co-circom/co-plonk/src/round1.rs b/co-circom/co-plonk/src/round1.rs
index b89de18..66c4b22 100644
--- a/co-circom/co-plonk/src/round1.rs
+++ b/co-circom/co-plonk/src/round1.rs
@@ -196,6 +196,16 @@ impl<'a, P: Pairing, T: CircomPlonkProver<P>, N: Network + 'static> Round1<'a, P
         witness: SharedWitness<P::ScalarField, T::ArithmeticShare>,
         zkey: &Zkey<P>,
     ) -> PlonkProofResult<PlonkWitness<P, T>> {
+        let n_public = zkey.n_public + 1;
+        if witness.public_inputs.len() != n_public
+            || witness.witness.len() + zkey.n_additions + n_public != zkey.n_vars
+        {
+            return Err(PlonkProofError::Other(eyre::eyre!(
+                "witness has {} public and {} private values, which do not match the zkey",
+                witness.public_inputs.len(),
+                witness.witness.len()
+            )));
+        }
         let mut witness = PlonkWitness::new(witness, zkey.n_additions);
         // This is hard to multithread as we have to add the results
         // to the vec as they are needed for the later steps.
-- 
2.43.0


From ec21767199a9af03e002f68392b3bef8d9d946ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:14 +0000
Subject: [PATCH 25/44] fix: rep3 network extension rejects messages of the
 wrong size or with trailing bytes

---
 mpc-core/src/protocols/rep3/network.rs | 29 ++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/mpc-core/src/protocols/rep3/network.rs b/mpc-core/src/protocols/rep3/network.rs
index d544c7c..33b883a 100644
--- a/mpc-core/src/protocols/rep3/network.rs
+++ b/mpc-core/src/protocols/rep3/network.rs
@@ -61,6 +61,7 @@ pub trait Rep3NetworkExt: Network {
         let id = PartyID::try_from(self.id())?;
         let next_id = id.next();
         let prev_id = id.prev();
+        let size = data.serialized_size(ark_serialize::Compress::No);
         // Post BOTH sends before blocking on either receive. Each party emits all
         // of its outgoing data up front, so no party can be parked on a `recv`
         // before its peers have sent — which is exactly what previously forced
@@ -73,8 +74,8 @@ pub trait Rep3NetworkExt: Network {
         // thread's phase, so the sends here cannot deadlock against a peer that
         // is itself still in its send phase.
         self.send_both_many(data)?;
-        let prev_res = self.recv_many(prev_id)?;
-        let next_res = self.recv_many(next_id)?;
+        let prev_res = deserialize_many(&self.recv(prev_id.into())?, Some(size))?;
+        let next_res = deserialize_many(&self.recv(next_id.into())?, Some(size))?;
         Ok((prev_res, next_res))
     }
 
@@ -151,8 +152,7 @@ pub trait Rep3NetworkExt: Network {
     #[inline(always)]
     fn recv_many<F: CanonicalDeserialize>(&self, from: PartyID) -> eyre::Result<Vec<F>> {
         let data = self.recv(from.into())?;
-        let res = Vec::<F>::deserialize_uncompressed_unchecked(&data[..])?;
-        Ok(res)
+        deserialize_many(&data, None)
     }
 
     /// Receives data from the party with the id = next_id (i.e., my_id + 1 mod 3)
@@ -200,7 +200,7 @@ pub trait Rep3NetworkExt: Network {
         }
     }
 
-    /// Send and recv `to` and `from` party
+    /// Send and recv `to` and `from` party. The received data must have the size of the sent data.
     #[inline(always)]
     fn send_and_recv_many<F: CanonicalSerialize + CanonicalDeserialize + Send>(
         &self,
@@ -209,8 +209,25 @@ pub trait Rep3NetworkExt: Network {
         from: PartyID,
     ) -> eyre::Result<Vec<F>> {
         self.send_many(to, data)?;
-        self.recv_many(from)
+        let size = data.serialized_size(ark_serialize::Compress::No);
+        deserialize_many(&self.recv(from.into())?, Some(size))
     }
 }
 
 impl<N: Network> Rep3NetworkExt for N {}
+
+/// Deserializes a received message, which must consist of the serialized data and nothing else, and must have the given size if there is one.
+fn deserialize_many<F: CanonicalDeserialize>(
+    data: &[u8],
+    size: Option<usize>,
+) -> eyre::Result<Vec<F>> {
+    if size.is_some_and(|size| size != data.len()) {
+        eyre::bail!("Invalid data size");
+    }
+    let mut rest = data;
+    let res = Vec::<F>::deserialize_uncompressed_unchecked(&mut rest)?;
+    if !rest.is_empty() {
+        eyre::bail!("Invalid data size");
+    }
+    Ok(res)
+}
-- 
2.43.0


From da7b6b3f63f5ce3822988922ecb4fba1d23798c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:14 +0000
Subject: [PATCH 26/44] fix: rep3 conversions and ring shuffles check the
 number of received elements

---
 mpc-core/src/protocols/rep3/conversion.rs        | 14 +++++++++++---
 mpc-core/src/protocols/rep3_ring/conversion.rs   | 12 ++++++++++--
 mpc-core/src/protocols/rep3_ring/detail.rs       |  3 +--
 mpc-core/src/protocols/rep3_ring/gadgets/sort.rs | 15 +++++++++++++++
 4 files changed, 37 insertions(+), 7 deletions(-)

diff --git a/mpc-core/src/protocols/rep3/conversion.rs b/mpc-core/src/protocols/rep3/conversion.rs
index 6c270c5..f7fd2b2 100644
--- a/mpc-core/src/protocols/rep3/conversion.rs
+++ b/mpc-core/src/protocols/rep3/conversion.rs
@@ -269,8 +269,7 @@ pub fn b2a_many<F: FieldUint, N: Network>(
 
     // reshare y
     let y_a = r_vec;
-    net.send_next_many(&y_a)?;
-    let local_b = net.recv_prev_many()?;
+    let local_b = net.reshare_many(&y_a)?;
 
     let y = izip!(y_a, local_b)
         .map(|(a, b)| BinaryShare::new(a, b))
@@ -289,6 +288,9 @@ pub fn b2a_many<F: FieldUint, N: Network>(
             let z_b = z.iter().map(|z| z.b).collect::<Vec<_>>();
             net.send_next_many(&z_b)?;
             let rcv: Vec<F::Uint> = net.recv_prev_many()?;
+            if rcv.len() != z.len() {
+                eyre::bail!("Received wrong number of elements");
+            }
 
             for (res, z, rcv) in izip!(res.iter_mut(), z, rcv.iter()) {
                 res.a = F::from_uint_unchecked(&(z.a ^ z.b ^ *rcv));
@@ -296,6 +298,9 @@ pub fn b2a_many<F: FieldUint, N: Network>(
         }
         PartyID::ID1 => {
             let rcv: Vec<F::Uint> = net.recv_prev_many()?;
+            if rcv.len() != z.len() {
+                eyre::bail!("Received wrong number of elements");
+            }
             for (res, z, rcv) in izip!(res.iter_mut(), z, rcv.iter()) {
                 res.b = F::from_uint_unchecked(&(z.a ^ z.b ^ *rcv));
             }
@@ -765,7 +770,10 @@ pub fn y2b_many<F: FieldUint, N: Network>(
             }
         }
         PartyID::ID2 => {
-            let r_xor_x_xor_px = net.recv_many(PartyID::ID0)?;
+            let r_xor_x_xor_px: Vec<F::Uint> = net.recv_many(PartyID::ID0)?;
+            if r_xor_x_xor_px.len() != collapsed.len() {
+                eyre::bail!("Received wrong number of elements");
+            }
 
             for (px, r_xor_x_xor_px_) in izip!(collapsed, r_xor_x_xor_px) {
                 result.push(Rep3UintShare::new(r_xor_x_xor_px_, px));
diff --git a/mpc-core/src/protocols/rep3_ring/conversion.rs b/mpc-core/src/protocols/rep3_ring/conversion.rs
index 36d2dcc..cb4660c 100644
--- a/mpc-core/src/protocols/rep3_ring/conversion.rs
+++ b/mpc-core/src/protocols/rep3_ring/conversion.rs
@@ -276,8 +276,7 @@ where
 
     // reshare y
     let y_a = r_vec;
-    net.send_next_many(&y_a)?;
-    let local_b = net.recv_prev_many()?;
+    let local_b = net.reshare_many(&y_a)?;
 
     let y = izip!(y_a, local_b)
         .map(|(a, b)| Rep3RingShare::new_ring(a, b))
@@ -290,6 +289,9 @@ where
             let z_b = z.iter().cloned().map(|z| z.b).collect::<Vec<_>>();
             net.send_next_many(&z_b)?;
             let rcv: Vec<RingElement<T>> = net.recv_prev_many()?;
+            if rcv.len() != z.len() {
+                eyre::bail!("Received wrong number of elements");
+            }
 
             for (res, z, rcv) in izip!(res.iter_mut(), z, rcv.iter()) {
                 res.a = z.a ^ z.b ^ rcv;
@@ -297,6 +299,9 @@ where
         }
         PartyID::ID1 => {
             let rcv: Vec<RingElement<T>> = net.recv_prev_many()?;
+            if rcv.len() != z.len() {
+                eyre::bail!("Received wrong number of elements");
+            }
             for (res, z, rcv) in izip!(res.iter_mut(), z, rcv.iter()) {
                 res.b = z.a ^ z.b ^ rcv;
             }
@@ -974,6 +979,9 @@ where
         }
         PartyID::ID2 => {
             let r_xor_x_xor_px: Vec<RingElement<T>> = net.recv_from(PartyID::ID0)?;
+            if r_xor_x_xor_px.len() != collapsed.len() {
+                eyre::bail!("Received wrong number of elements");
+            }
             for (r_xor_x_xor_px, px) in r_xor_x_xor_px.into_iter().zip(collapsed) {
                 converted.push(Rep3RingShare::new_ring(r_xor_x_xor_px, px));
             }
diff --git a/mpc-core/src/protocols/rep3_ring/detail.rs b/mpc-core/src/protocols/rep3_ring/detail.rs
index c5f75c6..19d74a4 100644
--- a/mpc-core/src/protocols/rep3_ring/detail.rs
+++ b/mpc-core/src/protocols/rep3_ring/detail.rs
@@ -156,8 +156,7 @@ where
         local_a2.push((a & &b2) ^ mask2);
     }
 
-    net.send_next([local_a1.to_owned(), local_a2.to_owned()])?;
-    let [local_b1, local_b2] = net.recv_prev::<[Vec<RingElement<T>>; 2]>()?;
+    let [local_b1, local_b2] = net.reshare([local_a1.to_owned(), local_a2.to_owned()])?;
 
     let mut r1 = Vec::with_capacity(a.len());
     let mut r2 = Vec::with_capacity(a.len());
diff --git a/mpc-core/src/protocols/rep3_ring/gadgets/sort.rs b/mpc-core/src/protocols/rep3_ring/gadgets/sort.rs
index 7a42950..acfa3ce 100644
--- a/mpc-core/src/protocols/rep3_ring/gadgets/sort.rs
+++ b/mpc-core/src/protocols/rep3_ring/gadgets/sort.rs
@@ -515,6 +515,9 @@ where
                 alpha_3.push(alpha_3_);
             }
             let gamma: Vec<RingElement<T>> = net.recv_prev_many()?;
+            if gamma.len() != len {
+                eyre::bail!("Received wrong number of elements");
+            }
             // first shuffle
             let mut shuffled_1 = Vec::with_capacity(len);
             for (pi, alpha) in pi.iter().zip(alpha_3.iter()) {
@@ -636,6 +639,9 @@ fn shuffle_field<F: FieldUint, N: Network>(
                 alpha_3.push(alpha_3_);
             }
             let gamma: Vec<F> = net.recv_prev_many()?;
+            if gamma.len() != len {
+                eyre::bail!("Received wrong number of elements");
+            }
             // first shuffle
             let mut shuffled_1 = Vec::with_capacity(len);
             for (pi, alpha) in pi.iter().zip(alpha_3.iter()) {
@@ -715,7 +721,13 @@ where
         }
         PartyID::ID2 => {
             let delta = net.recv_many::<RingElement<T>>(PartyID::ID0)?;
+            if delta.len() != len {
+                eyre::bail!("Received wrong number of elements");
+            }
             let gamma = net.recv_many::<RingElement<T>>(PartyID::ID1)?;
+            if gamma.len() != len {
+                eyre::bail!("Received wrong number of elements");
+            }
             // shuffle
             let mut shuffled = Vec::with_capacity(len);
             for p in pi {
@@ -753,6 +765,9 @@ where
                 alpha_3.push(alpha_3_);
             }
             let gamma: Vec<RingElement<T>> = net.recv_many(PartyID::ID1)?;
+            if gamma.len() != len {
+                eyre::bail!("Received wrong number of elements");
+            }
             // first shuffle
             let mut shuffled_3 = vec![RingElement::zero(); len];
             for (pi, (alpha, gamma)) in pi.iter().zip(alpha_3.iter().zip(gamma)) {
-- 
2.43.0


From ba7c13189900035c7eb9f7327c7c108171a8f137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:43 +0000
Subject: [PATCH 27/44] fix: rep3 values shared by all parties stay equal after
 binary-to-arithmetic conversions

---
 mpc-core/src/protocols/rep3/rngs.rs | 30 +++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/mpc-core/src/protocols/rep3/rngs.rs b/mpc-core/src/protocols/rep3/rngs.rs
index ada4628..e1ed450 100644
--- a/mpc-core/src/protocols/rep3/rngs.rs
+++ b/mpc-core/src/protocols/rep3/rngs.rs
@@ -50,9 +50,9 @@ impl Rep3CorrelatedRng {
         Standard: Distribution<T>,
     {
         match id {
-            PartyID::ID0 => self.bitcomp1.rng2.r#gen(),
-            PartyID::ID1 => self.bitcomp1.rng2.r#gen(),
-            PartyID::ID2 => self.bitcomp1.rng1.r#gen(),
+            PartyID::ID0 => self.bitcomp1.shared2.r#gen(),
+            PartyID::ID1 => self.bitcomp1.shared2.r#gen(),
+            PartyID::ID2 => self.bitcomp1.shared1.r#gen(),
         }
     }
 
@@ -252,6 +252,9 @@ pub struct Rep3RandBitComp {
     rng1: RngType,
     rng2: RngType,
     rng3: Option<RngType>,
+    // Second streams of the first two keys for values that are equal on all parties. The party with two keys does not draw from rng1 and rng2 when the others draw from their three rngs.
+    shared1: RngType,
+    shared2: RngType,
 }
 
 impl Rep3RandBitComp {
@@ -261,6 +264,8 @@ impl Rep3RandBitComp {
             rng1: RngType::from_seed(rng1),
             rng2: RngType::from_seed(rng2),
             rng3: None,
+            shared1: Self::shared_rng(rng1),
+            shared2: Self::shared_rng(rng2),
         }
     }
 
@@ -274,9 +279,18 @@ impl Rep3RandBitComp {
             rng1: RngType::from_seed(rng1),
             rng2: RngType::from_seed(rng2),
             rng3: Some(RngType::from_seed(rng3)),
+            shared1: Self::shared_rng(rng1),
+            shared2: Self::shared_rng(rng2),
         }
     }
 
+    // A second, independent stream of the key
+    fn shared_rng(seed: [u8; crate::SEED_SIZE]) -> RngType {
+        let mut rng = RngType::from_seed(seed);
+        rng.set_stream(1);
+        rng
+    }
+
     /// Generate three random field elements
     pub fn random_fes_3keys<F: PrimeField>(&mut self) -> (F, F, F) {
         let a = F::rand(&mut self.rng1);
@@ -324,7 +338,15 @@ impl Rep3RandBitComp {
             .rng3
             .as_mut()
             .map(|rng| RngType::from_seed(rng.r#gen()));
-        Self { rng1, rng2, rng3 }
+        let shared1 = RngType::from_seed(self.shared1.r#gen());
+        let shared2 = RngType::from_seed(self.shared2.r#gen());
+        Self {
+            rng1,
+            rng2,
+            rng3,
+            shared1,
+            shared2,
+        }
     }
 }
 
-- 
2.43.0


From 0402718a2e4c14af293991fd79c0f986d5259442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:48 +0000
Subject: [PATCH 28/44] fix: decomposition into another field uses that field's
 size

---
 mpc-core/src/protocols/rep3/yao.rs          | 8 ++++----
 mpc-core/src/protocols/rep3/yao/circuits.rs | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/mpc-core/src/protocols/rep3/yao.rs b/mpc-core/src/protocols/rep3/yao.rs
index 4b6ac49..2320998 100644
--- a/mpc-core/src/protocols/rep3/yao.rs
+++ b/mpc-core/src/protocols/rep3/yao.rs
@@ -1043,7 +1043,7 @@ macro_rules! decompose_circuit_compose_blueprint_to_other_field {
                 }
 
                 // TODO this can be parallelized with joint_input_arithmetic_added_many
-                let x23 = yao::input_field_id2_many::<F, _>(None, None, $output_size, $net, $state)?;
+                let x23 = yao::input_field_id2_many::<K, _>(None, None, $output_size, $net, $state)?;
 
                 let mut evaluator = yao::evaluator::Rep3Evaluator::new($net);
                 evaluator.receive_circuit()?;
@@ -1053,7 +1053,7 @@ macro_rules! decompose_circuit_compose_blueprint_to_other_field {
                 let x1 = evaluator.output_to_id0_and_id1(x1.wires())?;
 
                 // Compose the bits
-                for (res, x1) in izip!(res.iter_mut(), x1.chunks(F::MODULUS_BIT_SIZE as usize)) {
+                for (res, x1) in izip!(res.iter_mut(), x1.chunks(K::MODULUS_BIT_SIZE as usize)) {
                     res.a = yao::GCUtils::bits_to_field(x1)?;
                 }
             }
@@ -1064,7 +1064,7 @@ macro_rules! decompose_circuit_compose_blueprint_to_other_field {
                 }
 
                 // TODO this can be parallelized with joint_input_arithmetic_added_many
-                let x23 = yao::input_field_id2_many::<F, _>(None, None, $output_size, $net, $state)?;
+                let x23 = yao::input_field_id2_many::<K, _>(None, None, $output_size, $net, $state)?;
 
                 let mut garbler =
                     yao::garbler::Rep3Garbler::new_with_delta($net, $state, delta.expect("Delta not provided"));
@@ -1075,7 +1075,7 @@ macro_rules! decompose_circuit_compose_blueprint_to_other_field {
                 let x1 = x1.ok_or_else(|| eyre::eyre!("No output received"))?;
 
                 // Compose the bits
-                for (res, x1) in izip!(res.iter_mut(), x1.chunks(F::MODULUS_BIT_SIZE as usize)) {
+                for (res, x1) in izip!(res.iter_mut(), x1.chunks(K::MODULUS_BIT_SIZE as usize)) {
                     res.b = yao::GCUtils::bits_to_field(x1)?;
                 }
             }
diff --git a/mpc-core/src/protocols/rep3/yao/circuits.rs b/mpc-core/src/protocols/rep3/yao/circuits.rs
index e5e9744..8dec33b 100644
--- a/mpc-core/src/protocols/rep3/yao/circuits.rs
+++ b/mpc-core/src/protocols/rep3/yao/circuits.rs
@@ -1021,7 +1021,7 @@ impl GarbledCircuits {
         debug_assert_eq!(input_size % input_bitlen, 0);
         debug_assert!(input_bitlen >= total_output_bitlen_per_field);
         debug_assert!(decompose_bitlen <= total_output_bitlen_per_field);
-        debug_assert_eq!(wires_c.size(), input_bitlen * total_output_elements);
+        debug_assert_eq!(wires_c.size(), output_bitlen * total_output_elements);
 
         let mut results = Vec::with_capacity(wires_c.size());
 
-- 
2.43.0


From 3d0794de38038ef09d99d243bfa59d20982c9dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:49 +0000
Subject: [PATCH 29/44] fix: size the one-hot vector of several point tables by
 their length

---
 mpc-core/src/protocols/rep3_ring/gadgets/lut_curve.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpc-core/src/protocols/rep3_ring/gadgets/lut_curve.rs b/mpc-core/src/protocols/rep3_ring/gadgets/lut_curve.rs
index 6dadaaf..4469a1e 100644
--- a/mpc-core/src/protocols/rep3_ring/gadgets/lut_curve.rs
+++ b/mpc-core/src/protocols/rep3_ring/gadgets/lut_curve.rs
@@ -51,7 +51,7 @@ pub fn read_public_luts<C: CurveGroup, T: IntRing2k, N: Network>(
 where
     Standard: Distribution<T>,
 {
-    let n = luts.len();
+    let n = luts.iter().map(|lut| lut.len()).max().unwrap_or_default();
     let k = n.next_power_of_two().ilog2() as usize;
 
     assert!(k <= T::K);
-- 
2.43.0


From 39ca4e64aaf1295459b213b09109d67bd15f3492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:16 +0000
Subject: [PATCH 30/44] fix: circom-mpc-vm: comparisons with a public left-hand
 side mirror strictness correctly

---
 co-circom/circom-mpc-vm/src/mpc/rep3.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/co-circom/circom-mpc-vm/src/mpc/rep3.rs b/co-circom/circom-mpc-vm/src/mpc/rep3.rs
index 3b3fc0a..e119d21 100644
--- a/co-circom/circom-mpc-vm/src/mpc/rep3.rs
+++ b/co-circom/circom-mpc-vm/src/mpc/rep3.rs
@@ -271,7 +271,7 @@ impl<F: PrimeField + FieldUint, N: Network> VmCircomWitnessExtension<F>
             (Rep3VmType::Public(a), Rep3VmType::Arithmetic(b)) => {
                 let a = self.plain.val(a);
                 let b = self.val(b);
-                Ok(arithmetic::ge_public(b, a, self.net0, &mut self.state0)?.into())
+                Ok(arithmetic::gt_public(b, a, self.net0, &mut self.state0)?.into())
             }
             (Rep3VmType::Arithmetic(a), Rep3VmType::Public(b)) => {
                 let a = self.val(a);
@@ -292,7 +292,7 @@ impl<F: PrimeField + FieldUint, N: Network> VmCircomWitnessExtension<F>
             (Rep3VmType::Public(a), Rep3VmType::Arithmetic(b)) => {
                 let a = self.plain.val(a);
                 let b = self.val(b);
-                Ok(arithmetic::gt_public(b, a, self.net0, &mut self.state0)?.into())
+                Ok(arithmetic::ge_public(b, a, self.net0, &mut self.state0)?.into())
             }
             (Rep3VmType::Arithmetic(a), Rep3VmType::Public(b)) => {
                 let a = self.val(a);
@@ -313,7 +313,7 @@ impl<F: PrimeField + FieldUint, N: Network> VmCircomWitnessExtension<F>
             (Rep3VmType::Public(a), Rep3VmType::Arithmetic(b)) => {
                 let a = self.plain.val(a);
                 let b = self.val(b);
-                Ok(arithmetic::le_public(b, a, self.net0, &mut self.state0)?.into())
+                Ok(arithmetic::lt_public(b, a, self.net0, &mut self.state0)?.into())
             }
             (Rep3VmType::Arithmetic(a), Rep3VmType::Public(b)) => {
                 let a = self.val(a);
@@ -334,7 +334,7 @@ impl<F: PrimeField + FieldUint, N: Network> VmCircomWitnessExtension<F>
             (Rep3VmType::Public(a), Rep3VmType::Arithmetic(b)) => {
                 let a = self.plain.val(a);
                 let b = self.val(b);
-                Ok(arithmetic::lt_public(b, a, self.net0, &mut self.state0)?.into())
+                Ok(arithmetic::le_public(b, a, self.net0, &mut self.state0)?.into())
             }
             (Rep3VmType::Arithmetic(a), Rep3VmType::Public(b)) => {
                 let a = self.val(a);
-- 
2.43.0


From ac7cee8305bf994d18994c19337f03ac7cb3d4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:16 +0000
Subject: [PATCH 31/44] fix: circom-mpc-vm: pop the condition of a skipped
 public if without else branch

---
 co-circom/circom-mpc-vm/src/mpc_vm.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/co-circom/circom-mpc-vm/src/mpc_vm.rs b/co-circom/circom-mpc-vm/src/mpc_vm.rs
index a3f3367..fd546e3 100644
--- a/co-circom/circom-mpc-vm/src/mpc_vm.rs
+++ b/co-circom/circom-mpc-vm/src/mpc_vm.rs
@@ -571,6 +571,13 @@ impl<F: PrimeField, C: VmCircomWitnessExtension<F>> Component<F, C> {
                         if protocol.is_zero(cond, false)? {
                             //we need to jump
                             ip += jump;
+                            //without else branch there is no EndFalsyBranch that pops the condition
+                            if matches!(
+                                current_body[ip - 1],
+                                op_codes::MpcOpCode::EndTruthyBranch(0)
+                            ) {
+                                self.if_stack.pop();
+                            }
                             continue;
                         }
                     }
-- 
2.43.0


From 5f42ba3d2c17172bb8d76650817b29f96c4b64d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:47 +0000
Subject: [PATCH 32/44] fix: mpc-core: field_mod_power_2 with exponent 0

---
 mpc-core/src/protocols/rep3/yao.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mpc-core/src/protocols/rep3/yao.rs b/mpc-core/src/protocols/rep3/yao.rs
index 2320998..d566e54 100644
--- a/mpc-core/src/protocols/rep3/yao.rs
+++ b/mpc-core/src/protocols/rep3/yao.rs
@@ -750,6 +750,10 @@ pub fn field_mod_power_2<F: FieldUint, N: Network>(
     state: &mut Rep3State,
     mod_bit: usize,
 ) -> eyre::Result<Rep3PrimeFieldShare<F>> {
+    if mod_bit == 0 {
+        // everything is congruent to 0 modulo 1
+        return Ok(Rep3PrimeFieldShare::zero_share());
+    }
     let decomposed = decompose_arithmetic(input, net, state, mod_bit, mod_bit)?;
     debug_assert_eq!(decomposed.len(), 1);
     let res = decomposed[0];
-- 
2.43.0


From 2fc62a05fc43f151c0862079badfb45876211f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:14 +0000
Subject: [PATCH 33/44] fix: circom-mpc-vm: assertions in branches that are not
 taken do not fail

---
 co-circom/circom-mpc-vm/src/mpc_vm.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/co-circom/circom-mpc-vm/src/mpc_vm.rs b/co-circom/circom-mpc-vm/src/mpc_vm.rs
index fd546e3..9f98af5 100644
--- a/co-circom/circom-mpc-vm/src/mpc_vm.rs
+++ b/co-circom/circom-mpc-vm/src/mpc_vm.rs
@@ -552,7 +552,12 @@ impl<F: PrimeField, C: VmCircomWitnessExtension<F>> Component<F, C> {
                     }
                 }
                 op_codes::MpcOpCode::Assert(line) => {
-                    let assertion = self.pop_field();
+                    let mut assertion = self.pop_field();
+                    if self.if_stack.is_shared() {
+                        //an assertion in a branch that is not taken must not fail
+                        let cond = self.if_stack.get_shared_condition();
+                        assertion = protocol.cmux(cond, assertion, protocol.public_one())?;
+                    }
                     if protocol.is_zero(assertion, true)? {
                         bail!(
                             "Assertion failed during execution on line {line} in component {}",
-- 
2.43.0


From e294a442f4a0b3ef87980992955c92ad4e0b86b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:02 +0000
Subject: [PATCH 34/44] fix: circom-mpc-vm: reduce shared bitwise or and xor
 modulo the field

---
 co-circom/circom-mpc-vm/src/mpc/rep3.rs | 39 +++++++------------------
 1 file changed, 11 insertions(+), 28 deletions(-)

diff --git a/co-circom/circom-mpc-vm/src/mpc/rep3.rs b/co-circom/circom-mpc-vm/src/mpc/rep3.rs
index e119d21..89a9cdb 100644
--- a/co-circom/circom-mpc-vm/src/mpc/rep3.rs
+++ b/co-circom/circom-mpc-vm/src/mpc/rep3.rs
@@ -477,20 +477,12 @@ impl<F: PrimeField + FieldUint, N: Network> VmCircomWitnessExtension<F>
     fn bit_xor(&mut self, a: Self::VmType, b: Self::VmType) -> eyre::Result<Self::VmType> {
         match (a, b) {
             (Rep3VmType::Public(a), Rep3VmType::Public(b)) => Ok(self.plain.bit_xor(a, b)?.into()),
-            (Rep3VmType::Public(b), Rep3VmType::Arithmetic(a))
-            | (Rep3VmType::Arithmetic(a), Rep3VmType::Public(b)) => {
-                let a = conversion::a2b_selector(a, self.net0, &mut self.state0)?;
-                let binary = binary::xor_public(&a, &b.to_uint(), self.id);
-                Ok(conversion::b2a_selector(&binary, self.net0, &mut self.state0)?.into())
-            }
-            (Rep3VmType::Arithmetic(a), Rep3VmType::Arithmetic(b)) => {
-                let (a, b) = mpc_net::join(
-                    || conversion::a2b_selector(a, self.net0, &mut self.state0),
-                    || conversion::a2b_selector(b, self.net1, &mut self.state1),
-                );
-                let binary = binary::xor(&a?, &b?);
-                let result = conversion::b2a_selector(&binary, self.net0, &mut self.state0)?;
-                Ok(result.into())
+            (a, b) => {
+                // the XOR may exceed the modulus, so we use a ^ b = a + b - 2 * (a & b)
+                let and = self.bit_and(a.clone(), b.clone())?;
+                let sum = self.add(a, b)?;
+                let double_and = self.add(and.clone(), and)?;
+                self.sub(sum, double_and)
             }
         }
     }
@@ -498,20 +490,11 @@ impl<F: PrimeField + FieldUint, N: Network> VmCircomWitnessExtension<F>
     fn bit_or(&mut self, a: Self::VmType, b: Self::VmType) -> eyre::Result<Self::VmType> {
         match (a, b) {
             (Rep3VmType::Public(a), Rep3VmType::Public(b)) => Ok(self.plain.bit_or(a, b)?.into()),
-            (Rep3VmType::Public(b), Rep3VmType::Arithmetic(a))
-            | (Rep3VmType::Arithmetic(a), Rep3VmType::Public(b)) => {
-                let a = conversion::a2b_selector(a, self.net0, &mut self.state0)?;
-                let binary = binary::or_public(&a, &b.to_uint(), self.id);
-                let result = conversion::b2a_selector(&binary, self.net0, &mut self.state0)?;
-                Ok(result.into())
-            }
-            (Rep3VmType::Arithmetic(a), Rep3VmType::Arithmetic(b)) => {
-                let (a, b) = mpc_net::join(
-                    || conversion::a2b_selector(a, self.net0, &mut self.state0),
-                    || conversion::a2b_selector(b, self.net1, &mut self.state1),
-                );
-                let binary = binary::or(&a?, &b?, self.net0, &mut self.state0)?;
-                Ok(conversion::b2a_selector(&binary, self.net0, &mut self.state0)?.into())
+            (a, b) => {
+                // the OR may exceed the modulus, so we use a | b = a + b - (a & b)
+                let and = self.bit_and(a.clone(), b.clone())?;
+                let sum = self.add(a, b)?;
+                self.sub(sum, and)
             }
         }
     }
-- 
2.43.0


From f5c6fa1381b63e182cd9ecad27ee2c8bd0a269f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:12 +0000
Subject: [PATCH 35/44] fix: ultrahonk: prove copies within one row

The permutation relation was skipped wherever the grand product does not change, also where a row copies a wire to
another wire of the same row; proofs of such circuits did not verify.
---
 .../src/decider/relations/permutation_relation.rs      | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/co-noir/ultrahonk/src/decider/relations/permutation_relation.rs b/co-noir/ultrahonk/src/decider/relations/permutation_relation.rs
index 785078a..00da2cb 100644
--- a/co-noir/ultrahonk/src/decider/relations/permutation_relation.rs
+++ b/co-noir/ultrahonk/src/decider/relations/permutation_relation.rs
@@ -69,9 +69,15 @@ impl<F: PrimeField> Relation<F> for UltraPermutationRelation {
 
     fn skip(input: &ProverUnivariates<F>) -> bool {
         <Self as Relation<F>>::check_skippable();
-        // If z_perm == z_perm_shift, this implies that none of the wire values for the present input are involved in
-        // non-trivial copy constraints.
+        // z_perm == z_perm_shift alone does not imply that none of the wire values for the present input are involved in
+        // non-trivial copy constraints: a cycle within one row leaves z_perm unchanged, but its contribution only
+        // vanishes on the rows and not on the univariates through them.
+        let precomputed = &input.precomputed;
         (input.witness.z_perm().to_owned() - input.shifted_witness.z_perm()).is_zero()
+            && (precomputed.sigma_1().to_owned() - precomputed.id_1()).is_zero()
+            && (precomputed.sigma_2().to_owned() - precomputed.id_2()).is_zero()
+            && (precomputed.sigma_3().to_owned() - precomputed.id_3()).is_zero()
+            && (precomputed.sigma_4().to_owned() - precomputed.id_4()).is_zero()
     }
 
     /**
-- 
2.43.0


From 3fe8bd2ff50a25172736be7292a0bf48fd44af92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:58 +0000
Subject: [PATCH 36/44] fix: co-acvm: keep the coefficient of a public times
 shared term (Shamir)

---
 co-noir/co-acvm/src/mpc/shamir.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/co-noir/co-acvm/src/mpc/shamir.rs b/co-noir/co-acvm/src/mpc/shamir.rs
index af769da..d3ec1c9 100644
--- a/co-noir/co-acvm/src/mpc/shamir.rs
+++ b/co-noir/co-acvm/src/mpc/shamir.rs
@@ -415,7 +415,8 @@ impl<'a, F: PrimeField + FieldUint, N: Network> NoirWitnessExtensionProtocol<F>
             }
             (ShamirAcvmType::Public(public), ShamirAcvmType::Shared(shared))
             | (ShamirAcvmType::Shared(shared), ShamirAcvmType::Public(public)) => {
-                ShamirAcvmType::Shared(arithmetic::mul_public(shared, public))
+                let mul = arithmetic::mul_public(shared, public);
+                ShamirAcvmType::Shared(arithmetic::mul_public(mul, c))
             }
             (ShamirAcvmType::Shared(lhs), ShamirAcvmType::Shared(rhs)) => {
                 let shared_mul = arithmetic::mul(lhs, rhs, self.net, &mut self.state)?;
-- 
2.43.0


From 2dacaa9e53b2e8f0dd84c6a3d5efbe1ea5b5e8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:58 +0000
Subject: [PATCH 37/44] fix: co-brillig: take the right branch on public
 conditions (Shamir)

---
 co-noir/co-brillig/src/mpc/shamir.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/co-noir/co-brillig/src/mpc/shamir.rs b/co-noir/co-brillig/src/mpc/shamir.rs
index 122be2c..3ef164c 100644
--- a/co-noir/co-brillig/src/mpc/shamir.rs
+++ b/co-noir/co-brillig/src/mpc/shamir.rs
@@ -118,7 +118,7 @@ impl<F: PrimeField, N: Network> BrilligDriver<F> for ShamirBrilligDriver<'_, F,
 
     fn try_into_bool(val: Self::BrilligType) -> Result<bool, Self::BrilligType> {
         match val {
-            ShamirBrilligType::Public(Public::Int(val, IntegerBitSize::U1)) => Ok(val != 1),
+            ShamirBrilligType::Public(Public::Int(val, IntegerBitSize::U1)) => Ok(val != 0),
             x => Err(x),
         }
     }
-- 
2.43.0


From f6657cdfac68bb62f6668a78f4bff26d4e50e889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:27 +0000
Subject: [PATCH 38/44] fix: co-brillig: integer divisions in shared branches
 use a divisor of their own type

---
 co-noir/co-brillig/src/int_ops.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/co-noir/co-brillig/src/int_ops.rs b/co-noir/co-brillig/src/int_ops.rs
index e885e1b..78bc56f 100644
--- a/co-noir/co-brillig/src/int_ops.rs
+++ b/co-noir/co-brillig/src/int_ops.rs
@@ -1,5 +1,5 @@
 use ark_ff::PrimeField;
-use brillig::{BinaryIntOp, IntegerBitSize, MemoryAddress};
+use brillig::{BinaryIntOp, BitSize, IntegerBitSize, MemoryAddress};
 use eyre::Context;
 
 use crate::{CoBrilligVM, mpc::BrilligDriver};
@@ -42,7 +42,8 @@ where
                     tracing::debug!(
                         "we are in shared context and and maybe need to prevent from div by zero"
                     );
-                    rhs = self.driver.cmux(cond.clone(), rhs, T::public_one())?;
+                    let one = T::public_value(F::one(), BitSize::Integer(bit_size));
+                    rhs = self.driver.cmux(cond.clone(), rhs, one)?;
                 }
                 self.driver.div(lhs, rhs)
             }
-- 
2.43.0


From e8df6fd40c04325f0e03d0ee357c611b26464c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:27 +0000
Subject: [PATCH 39/44] fix: co-brillig: the noise for a failed branch is the
 same for all parties (Rep3)

---
 co-noir/co-brillig/src/mpc/rep3.rs | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/co-noir/co-brillig/src/mpc/rep3.rs b/co-noir/co-brillig/src/mpc/rep3.rs
index 728af6d..14ea376 100644
--- a/co-noir/co-brillig/src/mpc/rep3.rs
+++ b/co-noir/co-brillig/src/mpc/rep3.rs
@@ -376,34 +376,39 @@ impl<F: FieldUint, N: Network> BrilligDriver<F> for Rep3BrilligDriver<'_, F, N>
 
     fn random(&mut self, other: &Self::BrilligType) -> Self::BrilligType {
         match other {
-            Rep3BrilligType::Public(other) => {
-                Rep3BrilligType::Public(self.plain_driver.random(other))
-            }
-            Rep3BrilligType::Shared(Shared::Field(_)) => {
+            // The parties have no common randomness for a public value, so it is shared as well
+            Rep3BrilligType::Public(Public::Field(_))
+            | Rep3BrilligType::Shared(Shared::Field(_)) => {
                 let (a, b) = self.state.rngs.rand.random_fes();
                 Rep3BrilligType::shared_field(Rep3PrimeFieldShare::new(a, b))
             }
-            Rep3BrilligType::Shared(Shared::Ring128(_)) => {
+            Rep3BrilligType::Public(Public::Int(_, IntegerBitSize::U128))
+            | Rep3BrilligType::Shared(Shared::Ring128(_)) => {
                 let (a, b) = self.state.rngs.rand.random_elements();
                 Rep3BrilligType::shared_u128(Rep3RingShare::new(a, b))
             }
-            Rep3BrilligType::Shared(Shared::Ring64(_)) => {
+            Rep3BrilligType::Public(Public::Int(_, IntegerBitSize::U64))
+            | Rep3BrilligType::Shared(Shared::Ring64(_)) => {
                 let (a, b) = self.state.rngs.rand.random_elements();
                 Rep3BrilligType::shared_u64(Rep3RingShare::new(a, b))
             }
-            Rep3BrilligType::Shared(Shared::Ring32(_)) => {
+            Rep3BrilligType::Public(Public::Int(_, IntegerBitSize::U32))
+            | Rep3BrilligType::Shared(Shared::Ring32(_)) => {
                 let (a, b) = self.state.rngs.rand.random_elements();
                 Rep3BrilligType::shared_u32(Rep3RingShare::new(a, b))
             }
-            Rep3BrilligType::Shared(Shared::Ring16(_)) => {
+            Rep3BrilligType::Public(Public::Int(_, IntegerBitSize::U16))
+            | Rep3BrilligType::Shared(Shared::Ring16(_)) => {
                 let (a, b) = self.state.rngs.rand.random_elements();
                 Rep3BrilligType::shared_u16(Rep3RingShare::new(a, b))
             }
-            Rep3BrilligType::Shared(Shared::Ring8(_)) => {
+            Rep3BrilligType::Public(Public::Int(_, IntegerBitSize::U8))
+            | Rep3BrilligType::Shared(Shared::Ring8(_)) => {
                 let (a, b) = self.state.rngs.rand.random_elements();
                 Rep3BrilligType::shared_u8(Rep3RingShare::new(a, b))
             }
-            Rep3BrilligType::Shared(Shared::Ring1(_)) => {
+            Rep3BrilligType::Public(Public::Int(_, IntegerBitSize::U1))
+            | Rep3BrilligType::Shared(Shared::Ring1(_)) => {
                 let (a, b) = self.state.rngs.rand.random_elements();
                 Rep3BrilligType::shared_u1(Rep3RingShare::new(a, b))
             }
-- 
2.43.0


From 72d1b239ee0570ff25f6eea92eb1874f7e523714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:55 +0000
Subject: [PATCH 40/44] fix: mpc-core: lookups in public tables of two elements

---
 mpc-core/src/protocols/rep3_ring/lut_field.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mpc-core/src/protocols/rep3_ring/lut_field.rs b/mpc-core/src/protocols/rep3_ring/lut_field.rs
index 136a9b8..1ec18ef 100644
--- a/mpc-core/src/protocols/rep3_ring/lut_field.rs
+++ b/mpc-core/src/protocols/rep3_ring/lut_field.rs
@@ -84,9 +84,8 @@ impl<F: FieldUint> Rep3FieldLookupTable<F> {
         let bits = rep3::conversion::a2b_selector(index, net0, state0)?;
         let k = len.next_power_of_two().ilog2() as usize;
 
-        let result = if k == 1 {
-            Self::get_from_public_luts_internal::<Bit, _>(bits, luts, net0, net1, state0, state1)?
-        } else if k <= 8 {
+        // The low-depth lookup needs an even number of index bits, so at least two
+        let result = if k <= 8 {
             Self::get_from_public_luts_internal::<u8, _>(bits, luts, net0, net1, state0, state1)?
         } else if k <= 16 {
             Self::get_from_public_luts_internal::<u16, _>(bits, luts, net0, net1, state0, state1)?
@@ -333,7 +332,8 @@ impl<F: FieldUint> LookupTableProvider<F> for Rep3FieldLookupTable<F> {
         let bits = rep3::conversion::a2b_selector(index, net0, state0)?;
         let k = len.next_power_of_two().ilog2() as usize;
 
-        let result = if k == 1 {
+        // The low-depth lookup in public tables needs an even number of index bits, so at least two
+        let result = if k == 1 && !Self::is_public_lut(lut) {
             Self::get_from_lut_internal::<Bit, _>(bits, lut, net0, net1, state0, state1)?
         } else if k <= 8 {
             Self::get_from_lut_internal::<u8, _>(bits, lut, net0, net1, state0, state1)?
-- 
2.43.0


From b78a1ffe7ce0a58cb7bdc86d0d5e8c97ddb6dd94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:55 +0000
Subject: [PATCH 41/44] fix: mpc-core: one-hot vectors for tables of one
 element

---
 mpc-core/src/protocols/rep3_ring/gadgets/ohv.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mpc-core/src/protocols/rep3_ring/gadgets/ohv.rs b/mpc-core/src/protocols/rep3_ring/gadgets/ohv.rs
index f629da6..ed3bf1f 100644
--- a/mpc-core/src/protocols/rep3_ring/gadgets/ohv.rs
+++ b/mpc-core/src/protocols/rep3_ring/gadgets/ohv.rs
@@ -25,7 +25,6 @@ pub fn rand_ohv<T: IntRing2k, N: Network>(
 where
     Standard: Distribution<T>,
 {
-    debug_assert!(k >= 1);
     debug_assert!(k <= T::K); // Make sure datatype is large enough for bitsize
     let (mut a, mut b) = state.rngs.rand.random_elements::<T>();
     if k != T::K {
@@ -49,9 +48,14 @@ pub fn ohv<T: IntRing2k, N: Network>(
     net: &N,
     state: &mut Rep3State,
 ) -> eyre::Result<Vec<Rep3RingShare<Bit>>> {
-    debug_assert!(k > 0);
     debug_assert!(k <= T::K); // Make sure datatype is large enough for bitsize
 
+    if k == 0 {
+        // There is only one index
+        let one = RingElement(Bit::new(true));
+        return Ok(vec![binary::promote_to_trivial_share(state.id, &one)]);
+    }
+
     let new_k = k - 1;
     let vk = bits.get_bit(new_k);
 
-- 
2.43.0


From 76cadbac8f7bfd9b1f62e0e7caf419625facdf1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:03 +0000
Subject: [PATCH 42/44] fix: co-brillig: bits of shared values are of the bit
 type (Rep3)

---
 co-noir/co-brillig/src/mpc/rep3.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/co-noir/co-brillig/src/mpc/rep3.rs b/co-noir/co-brillig/src/mpc/rep3.rs
index 14ea376..5e5523d 100644
--- a/co-noir/co-brillig/src/mpc/rep3.rs
+++ b/co-noir/co-brillig/src/mpc/rep3.rs
@@ -1553,19 +1553,25 @@ impl<F: FieldUint, N: Network> BrilligDriver<F> for Rep3BrilligDriver<'_, F, N>
                     let mut input = val;
                     assert!(radix <= 256, "radix is at most 256");
                     if radix.is_power_of_two() {
-                        let bits = radix.ilog2();
+                        let limb_bits = radix.ilog2();
                         let result = rep3_ring::yao::decompose_field_to_rings::<_, u8, _>(
                             val,
                             self.net,
                             &mut self.state,
                             output_size,
-                            bits as usize,
+                            limb_bits as usize,
                         )?;
                         result
                             .into_iter()
                             .rev()
-                            .map(|val| Rep3BrilligType::Shared(Shared::Ring8(val)))
-                            .collect()
+                            .map(|val| {
+                                if bits {
+                                    cast_ring(val, IntegerBitSize::U1, self.net, &mut self.state)
+                                } else {
+                                    Ok(Rep3BrilligType::Shared(Shared::Ring8(val)))
+                                }
+                            })
+                            .collect::<eyre::Result<_>>()?
                     } else {
                         let mut limbs: Vec<Rep3BrilligType<_>> =
                             vec![Rep3BrilligType::default(); output_size];
-- 
2.43.0


From de6985e545ef5d769f699d80d115fef323b994e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:12 +0000
Subject: [PATCH 43/44] fix: co-brillig: divide shared by public values and
 public by shared ones (Shamir)

---
 co-noir/co-brillig/src/mpc/shamir.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/co-noir/co-brillig/src/mpc/shamir.rs b/co-noir/co-brillig/src/mpc/shamir.rs
index 3ef164c..0ad803c 100644
--- a/co-noir/co-brillig/src/mpc/shamir.rs
+++ b/co-noir/co-brillig/src/mpc/shamir.rs
@@ -238,8 +238,11 @@ impl<F: PrimeField, N: Network> BrilligDriver<F> for ShamirBrilligDriver<'_, F,
             }
             (ShamirBrilligType::Public(public), ShamirBrilligType::Shared(secret)) => {
                 if let Public::Field(public) = public {
-                    ShamirBrilligType::Shared(shamir::arithmetic::div_shared_by_public(
-                        secret, public,
+                    ShamirBrilligType::Shared(shamir::arithmetic::div_public_by_shared(
+                        public,
+                        secret,
+                        self.net,
+                        &mut self.state,
                     )?)
                 } else {
                     panic!("type mismatch. Can only div matching values")
@@ -247,11 +250,8 @@ impl<F: PrimeField, N: Network> BrilligDriver<F> for ShamirBrilligDriver<'_, F,
             }
             (ShamirBrilligType::Shared(secret), ShamirBrilligType::Public(public)) => {
                 if let Public::Field(public) = public {
-                    ShamirBrilligType::Shared(shamir::arithmetic::div_public_by_shared(
-                        public,
-                        secret,
-                        self.net,
-                        &mut self.state,
+                    ShamirBrilligType::Shared(shamir::arithmetic::div_shared_by_public(
+                        secret, public,
                     )?)
                 } else {
                     panic!("type mismatch. Can only div matching values")
-- 
2.43.0


From e08e62925f3967d0492613c5c5698d3e32634ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:59 +0000
Subject: [PATCH 44/44] fix: co-acvm: multi-scalar multiplications with public
 zeros and secret factors (Rep3)

---
 co-noir/co-acvm/src/mpc/rep3.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/co-noir/co-acvm/src/mpc/rep3.rs b/co-noir/co-acvm/src/mpc/rep3.rs
index 60d2a59..b982e09 100644
--- a/co-noir/co-acvm/src/mpc/rep3.rs
+++ b/co-noir/co-acvm/src/mpc/rep3.rs
@@ -182,6 +182,13 @@ impl<'a, F: PrimeField + FieldUint, N: Network> Rep3AcvmSolver<'a, F, N> {
     ) -> eyre::Result<Rep3AcvmPoint<C>> {
         let result = match (a, b) {
             (Rep3AcvmType::Public(a), Rep3AcvmPoint::Public(b)) => Rep3AcvmPoint::Public(b * a),
+            // The result is infinity whatever is shared, and shares that are all zero cannot be converted back to coordinates
+            (Rep3AcvmType::Public(a), Rep3AcvmPoint::Shared(_)) if a.is_zero() => {
+                Rep3AcvmPoint::Public(C::zero())
+            }
+            (Rep3AcvmType::Shared(_), Rep3AcvmPoint::Public(b)) if b.is_zero() => {
+                Rep3AcvmPoint::Public(C::zero())
+            }
             (Rep3AcvmType::Public(a), Rep3AcvmPoint::Shared(b)) => {
                 Rep3AcvmPoint::Shared(pointshare::scalar_mul_public_scalar(&b, a))
             }
-- 
2.43.0

