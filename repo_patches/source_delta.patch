From 5bc2f4dbebb634d7c2a0cd6eb5d6abe496462d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:33 +0000
Subject: [PATCH 01/46] fix: recheck lock after obtaining the device

A lock granted while a handle was queued for the device could be bypassed.
---
 device/src/lock.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/device/src/lock.rs b/device/src/lock.rs
index 6595319..457fb84 100644
--- a/device/src/lock.rs
+++ b/device/src/lock.rs
@@ -346,7 +346,10 @@ impl<DEV> LockHandle<DEV> {
         // Check any active locks
         self.can_lock()?;
         // Lock device and return a guard
-        self.device.try_lock().ok_or(SharedLockError::Busy)
+        let guard = self.device.try_lock().ok_or(SharedLockError::Busy)?;
+        // A lock might have been acquired by another handle in the meantime
+        self.can_lock()?;
+        Ok(guard)
     }
 
     /// Lock device if allowed
@@ -366,8 +369,11 @@ impl<DEV> LockHandle<DEV> {
                     futures::select! {
                         // Device acquired
                         guard = self.device.lock() => {
-                            log::trace!(id=self.id; "Locked!");
-                            return Ok(guard)
+                            // A lock might have been acquired by another handle while waiting
+                            if self.can_lock().is_ok() {
+                                log::trace!(id=self.id; "Locked!");
+                                return Ok(guard)
+                            }
                         },
                         // Interrupted by a new lock being granted/released
                         _event = l => {
@@ -447,7 +453,10 @@ impl<DEV> RemoteLockHandle<DEV> {
         // Check any active locks
         self.can_lock()?;
         // Lock device and return a guard
-        self.device.try_lock().ok_or(SharedLockError::Busy)
+        let guard = self.device.try_lock().ok_or(SharedLockError::Busy)?;
+        // A lock might have been acquired by another handle in the meantime
+        self.can_lock()?;
+        Ok(guard)
     }
 
     /// Wait for device becoming onlocked (or handle acquiring a lock) and available
@@ -470,8 +479,11 @@ impl<DEV> RemoteLockHandle<DEV> {
                     futures::select! {
                         // Device acquired
                         guard = self.device.lock() => {
-                            log::trace!("Locked!");
-                            return Ok(guard)
+                            // A lock might have been acquired by another handle while waiting
+                            if self.can_lock().is_ok() {
+                                log::trace!("Locked!");
+                                return Ok(guard)
+                            }
                         },
                         // Interrupted by a new lock being granted/released
                         _event = l => {
-- 
2.43.0


From 90df73b26821be041f9ed320ed67215bb1583350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:24 +0000
Subject: [PATCH 02/46] fix: do not hold the session lock handle while waiting

The spin lock guarding the handle was kept across await points, so the
other channel of the session spun an executor thread (or deadlocked it)
for as long as the wait lasted.
---
 hislip/src/server/session/asynchronous.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/hislip/src/server/session/asynchronous.rs b/hislip/src/server/session/asynchronous.rs
index 3b23d4e..8ea3403 100644
--- a/hislip/src/server/session/asynchronous.rs
+++ b/hislip/src/server/session/asynchronous.rs
@@ -10,7 +10,9 @@ use byteorder::{ByteOrder, NetworkEndian};
 use futures::future::Either;
 use futures::lock::Mutex;
 use futures::{pin_mut, AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt, FutureExt, Stream};
-use lxi_device::lock::{LockHandle, SharedLockError, SharedLockMode, SpinMutex};
+use lxi_device::lock::{
+    LockHandle, RemoteLockHandle, SharedLockError, SharedLockMode, SpinMutex,
+};
 use lxi_device::{Device, DeviceError};
 
 use crate::common::errors::{Error, FatalErrorCode, NonFatalErrorCode};
@@ -147,8 +149,8 @@ where
                                 // Release
                                 let message_id = message_parameter;
                                 log::debug!(peer=peer.to_string(), session_id=self.id, message_id=message_id; "Release async lock");
-                                let mut handle = self.handle.lock();
-                                let control = match handle.try_release() {
+                                let released = self.handle.lock().try_release();
+                                let control = match released {
                                     Ok(SharedLockMode::Exclusive) => {
                                         ReleaseLockControl::SuccessExclusive
                                     }
@@ -174,7 +176,7 @@ where
 
                                         log::debug!(peer=peer.to_string(), session_id=self.id, timeout=timeout; "Async lock: {:?}", lockstr);
                                         // Try to acquire lock
-                                        let mut handle = self.handle.lock();
+                                        let handle = RemoteLockHandle::new(self.handle.clone());
                                         let res = if timeout == 0 {
                                             // Try to lock immediately
                                             handle.try_acquire(lockstr.as_bytes())
@@ -217,7 +219,7 @@ where
                         } => {
                             log::debug!(peer=peer.to_string(), session_id=self.id, message_id=message_id; "Remote/local request = {}", request);
                             let mut shared = self.shared.lock().await;
-                            let handle = self.handle.lock();
+                            let handle = RemoteLockHandle::new(self.handle.clone());
                             let res = match request {
                                 0 => {
                                     // Disable remote
@@ -351,7 +353,7 @@ where
 
                             let stb = {
                                 let shared = self.shared.lock().await;
-                                let handle = self.handle.lock();
+                                let handle = RemoteLockHandle::new(self.handle.clone());
                                 let mut dev = handle.inner_lock().await;
 
                                 // Calculate MAV bit
-- 
2.43.0


From df9e32b0ba9aee36ee83b60669fa6979cb798170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:24 +0000
Subject: [PATCH 03/46] fix: do not hold session state while waiting for the
 device

The synchronous channel takes the device first and the session state second;
waiting for the device with the session state locked could deadlock both.
---
 hislip/src/server/session/asynchronous.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/hislip/src/server/session/asynchronous.rs b/hislip/src/server/session/asynchronous.rs
index 8ea3403..d23df07 100644
--- a/hislip/src/server/session/asynchronous.rs
+++ b/hislip/src/server/session/asynchronous.rs
@@ -224,6 +224,7 @@ where
                                 0 => {
                                     // Disable remote
                                     shared.enable_remote = false;
+                                    drop(shared);
                                     let mut dev = handle.async_lock().await.unwrap();
                                     dev.set_local_lockout(false);
                                     dev.set_remote(false)
@@ -231,11 +232,13 @@ where
                                 1 => {
                                     // Enable remote
                                     shared.enable_remote = true;
+                                    drop(shared);
                                     Ok(())
                                 }
                                 2 => {
                                     // Disable remote and go to local
                                     shared.enable_remote = false;
+                                    drop(shared);
                                     let mut dev = handle.async_lock().await.unwrap();
                                     dev.set_local_lockout(false);
                                     dev.set_remote(false)
@@ -243,12 +246,14 @@ where
                                 3 => {
                                     //Enable remote and go to remote
                                     shared.enable_remote = true;
+                                    drop(shared);
                                     let mut dev = handle.async_lock().await.unwrap();
                                     dev.set_remote(false)
                                 }
                                 4 => {
                                     // Enable remote and lock out local
                                     shared.enable_remote = true;
+                                    drop(shared);
                                     let mut dev = handle.async_lock().await.unwrap();
                                     dev.set_local_lockout(true);
                                     Ok(())
@@ -256,18 +261,22 @@ where
                                 5 => {
                                     // Enable remote, got to remote, and set local lockout
                                     shared.enable_remote = true;
+                                    drop(shared);
                                     let mut dev = handle.async_lock().await.unwrap();
                                     dev.set_local_lockout(true);
                                     dev.set_remote(true)
                                 }
                                 6 => {
                                     // Go to local without changing state of remote enable
+                                    drop(shared);
                                     let mut dev = handle.async_lock().await.unwrap();
                                     dev.set_remote(false)
                                 }
-                                _ => Err(DeviceError::NotSupported),
+                                _ => {
+                                    drop(shared);
+                                    Err(DeviceError::NotSupported)
+                                }
                             };
-                            drop(shared);
                             drop(handle);
 
                             match res {
@@ -354,14 +363,16 @@ where
                             let stb = {
                                 let shared = self.shared.lock().await;
                                 let handle = RemoteLockHandle::new(self.handle.clone());
+                                let sent = shared.sent_message_id;
+                                let enable_remote = shared.enable_remote;
+                                drop(shared);
                                 let mut dev = handle.inner_lock().await;
 
                                 // Calculate MAV bit
-                                let sent = shared.sent_message_id;
                                 let mav = if sent > message_id { 0x10 } else { 0x00 };
 
                                 // Enable remote
-                                if shared.enable_remote {
+                                if enable_remote {
                                     let _res = dev.set_remote(true);
                                 }
 
-- 
2.43.0


From 6dac39adbf260bbd456b7aa7b9ecdc33cbcf285b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:25 +0000
Subject: [PATCH 04/46] fix: go to remote on remote/local request 3

---
 hislip/src/server/session/asynchronous.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hislip/src/server/session/asynchronous.rs b/hislip/src/server/session/asynchronous.rs
index d23df07..999f727 100644
--- a/hislip/src/server/session/asynchronous.rs
+++ b/hislip/src/server/session/asynchronous.rs
@@ -248,7 +248,7 @@ where
                                     shared.enable_remote = true;
                                     drop(shared);
                                     let mut dev = handle.async_lock().await.unwrap();
-                                    dev.set_remote(false)
+                                    dev.set_remote(true)
                                 }
                                 4 => {
                                     // Enable remote and lock out local
-- 
2.43.0


From 2b1e0ade243a5964bf5d8dd0aa6b3c4816aabd0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:26 +0000
Subject: [PATCH 05/46] fix: do not close session on a status change with a
 service request pending

---
 hislip/src/server/session/asynchronous.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hislip/src/server/session/asynchronous.rs b/hislip/src/server/session/asynchronous.rs
index 999f727..7ad6358 100644
--- a/hislip/src/server/session/asynchronous.rs
+++ b/hislip/src/server/session/asynchronous.rs
@@ -92,7 +92,9 @@ where
                                 .write_to(&mut wr)
                                 .await?
                         }
-                        _ => {
+                        // Client has not yet responded to an earlier service request
+                        Some(_) => {}
+                        None => {
                             send_fatal!(peer=peer.to_string(), session_id=self.id;
                                 &mut wr, FatalErrorCode::UnidentifiedError,
                                 "Server shutdown",
-- 
2.43.0


From b7c2d3f1e55a5bf452775d41da207eaa8158414e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:26 +0000
Subject: [PATCH 06/46] fix: discard payload of too large messages

The payload was left in the stream and parsed as messages.
---
 hislip/src/common/messages.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hislip/src/common/messages.rs b/hislip/src/common/messages.rs
index 960c427..3841947 100644
--- a/hislip/src/common/messages.rs
+++ b/hislip/src/common/messages.rs
@@ -64,6 +64,11 @@ impl Message {
         let message_parameter = BigEndian::read_u32(&buf[4..8]);
 
         if len > maxlen {
+            // Discard the payload, next message starts after it
+            let discarded = futures::io::copy(reader.take(len), &mut futures::io::sink()).await?;
+            if discarded < len {
+                return Err(std::io::ErrorKind::UnexpectedEof.into());
+            }
             Ok(Err(Error::NonFatal(
                 NonFatalErrorCode::MessageTooLarge,
                 "Message payload too large".to_string(),
-- 
2.43.0


From 5243bb4f8ff5d8a9fdc8fde4976f9b9c7a36b108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:27 +0000
Subject: [PATCH 07/46] fix: do not act on messages cut off by the end of the
 stream

Also let an impossible allocation fail as intended instead of aborting.
---
 hislip/src/common/messages.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/hislip/src/common/messages.rs b/hislip/src/common/messages.rs
index 3841947..9329957 100644
--- a/hislip/src/common/messages.rs
+++ b/hislip/src/common/messages.rs
@@ -74,7 +74,7 @@ impl Message {
                 "Message payload too large".to_string(),
             )))
         } else {
-            let mut payload = Vec::with_capacity(len as usize);
+            let mut payload = Vec::new();
             if payload.try_reserve_exact(len as usize).is_err() {
                 return Ok(Err(Error::Fatal(
                     FatalErrorCode::UnidentifiedError,
@@ -82,6 +82,9 @@ impl Message {
                 )));
             }
             reader.take(len).read_to_end(&mut payload).await?;
+            if (payload.len() as u64) < len {
+                return Err(std::io::ErrorKind::UnexpectedEof.into());
+            }
             match MessageType::from_message_type(buf[2]).ok_or_else(|| {
                 Error::NonFatal(
                     NonFatalErrorCode::UnrecognizedMessageType,
-- 
2.43.0


From 79d341ac59bb76f0dba52fa74c97f8bc2d4cc8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:28 +0000
Subject: [PATCH 08/46] fix: only accept one asynchronous channel per session

---
 hislip/src/server/session/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hislip/src/server/session/mod.rs b/hislip/src/server/session/mod.rs
index afba926..197dd7a 100644
--- a/hislip/src/server/session/mod.rs
+++ b/hislip/src/server/session/mod.rs
@@ -65,7 +65,7 @@ impl SharedSession {
         // !matches!(self.state, SessionState::Handshake) // Just looks weird
         match self.state {
             SessionState::Handshake => false,
-            _ => false,
+            _ => true,
         }
     }
 
-- 
2.43.0


From 80851966194508416d29228c29b4ccb515f2413a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:28 +0000
Subject: [PATCH 09/46] fix: clear buffer after answering with the short
 identification

---
 hislip/src/server/session/synchronous.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hislip/src/server/session/synchronous.rs b/hislip/src/server/session/synchronous.rs
index a368cae..454355a 100644
--- a/hislip/src/server/session/synchronous.rs
+++ b/hislip/src/server/session/synchronous.rs
@@ -234,6 +234,7 @@ where
                                         let data = if buffer.eq_ignore_ascii_case(b"*idn?")
                                             && self.config.short_idn.is_some()
                                         {
+                                            buffer.clear();
                                             self.config.short_idn.clone()
                                         } else {
                                             let data = dev.execute(&buffer);
-- 
2.43.0


From e321b4aaec001726e809139f5524c768bd8c9580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:29 +0000
Subject: [PATCH 10/46] fix: do not panic when the client announces a maximum
 message size of zero

---
 hislip/src/server/session/synchronous.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hislip/src/server/session/synchronous.rs b/hislip/src/server/session/synchronous.rs
index 454355a..d28a15f 100644
--- a/hislip/src/server/session/synchronous.rs
+++ b/hislip/src/server/session/synchronous.rs
@@ -245,7 +245,7 @@ where
                                         // Send back response
                                         if let Some(data) = data {
                                             let mut chunks = data
-                                                .chunks(shared.max_message_size as usize)
+                                                .chunks((shared.max_message_size as usize).max(1))
                                                 .peekable();
                                             drop(shared);
 
-- 
2.43.0


From 9386c02c2c56cab2f160e93bb4688d62552329b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:29 +0000
Subject: [PATCH 11/46] fix: acknowledge a device clear requested while a
 response is sent

---
 hislip/src/server/session/synchronous.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hislip/src/server/session/synchronous.rs b/hislip/src/server/session/synchronous.rs
index d28a15f..596d875 100644
--- a/hislip/src/server/session/synchronous.rs
+++ b/hislip/src/server/session/synchronous.rs
@@ -251,7 +251,8 @@ where
 
                                             while let Some(chunk) = chunks.next() {
                                                 // Stop sending if a clear has been received on async channel
-                                                if self.clear.try_recv().is_ok() {
+                                                // (leave the event to be handled with the next message)
+                                                if !self.clear.is_empty() {
                                                     break;
                                                 }
 
-- 
2.43.0


From 6e3c09a9329ff76761dfd73c6e73b4c25806ed52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:30 +0000
Subject: [PATCH 12/46] fix: release the device before sending the response

A client not reading its response kept everyone else from the device.
---
 hislip/src/server/session/synchronous.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hislip/src/server/session/synchronous.rs b/hislip/src/server/session/synchronous.rs
index 596d875..ad9d750 100644
--- a/hislip/src/server/session/synchronous.rs
+++ b/hislip/src/server/session/synchronous.rs
@@ -248,6 +248,7 @@ where
                                                 .chunks((shared.max_message_size as usize).max(1))
                                                 .peekable();
                                             drop(shared);
+                                            drop(dev);
 
                                             while let Some(chunk) = chunks.next() {
                                                 // Stop sending if a clear has been received on async channel
-- 
2.43.0


From 311b6db5e6ba54408e77fd8419730224633ab892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:30 +0000
Subject: [PATCH 13/46] fix: check payload length of AsyncEndTLS before reading
 it

---
 hislip/src/server/session/asynchronous.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/hislip/src/server/session/asynchronous.rs b/hislip/src/server/session/asynchronous.rs
index 7ad6358..b3d15f9 100644
--- a/hislip/src/server/session/asynchronous.rs
+++ b/hislip/src/server/session/asynchronous.rs
@@ -440,6 +440,12 @@ where
                             payload,
                         } if protocol >= PROTOCOL_2_0 => {
                             // Only supported >= 2.0
+                            if payload.len() != 4 {
+                                send_fatal!(peer=peer.to_string(), session_id=self.id;
+                                    &mut wr, FatalErrorCode::PoorlyFormattedMessageHeader,
+                                    "Expected 4 bytes in AsyncEndTLS payload"
+                                )
+                            }
 
                             let _control = RmtDeliveredControl(control_code);
                             let message_id_sent = message_parameter;
-- 
2.43.0


From d2f5d9609e1da241a384d6d4cbc42f83701c0a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:31 +0000
Subject: [PATCH 14/46] fix: keep vendor specific message types in the vendor
 specific range

---
 hislip/src/common/messages.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hislip/src/common/messages.rs b/hislip/src/common/messages.rs
index 9329957..0e063cc 100644
--- a/hislip/src/common/messages.rs
+++ b/hislip/src/common/messages.rs
@@ -261,7 +261,7 @@ impl MessageType {
             MessageType::AuthenticationStart => 36,
             MessageType::AuthenticationExchange => 37,
             MessageType::AuthenticationResult => 38,
-            MessageType::VendorSpecific(x) => x & 0x7F,
+            MessageType::VendorSpecific(x) => x | 0x80,
         }
     }
 
-- 
2.43.0


From ce4dcb1d0effc654074420bce610fb3cf0011aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:31 +0000
Subject: [PATCH 15/46] fix: do not hold the session table while sending an
 error

---
 hislip/src/server/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hislip/src/server/mod.rs b/hislip/src/server/mod.rs
index e86db47..ab46d52 100644
--- a/hislip/src/server/mod.rs
+++ b/hislip/src/server/mod.rs
@@ -329,9 +329,9 @@ where
                         } => {
                             // Connect to existing session
                             let id = (message_parameter & 0x0000FFFF) as u16;
+                            let session = self.inner.lock().await.get_session(id);
                             let session = {
-                                let mut guard = self.inner.lock().await;
-                                if let Some(s) = guard.get_session(id) {
+                                if let Some(s) = session {
                                     s
                                 } else {
                                     send_fatal!(peer=format!("{}", peer), session_id=id;
-- 
2.43.0


From a22abd43ce074d31feb4d9903ccbf283a2174409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:13 +0000
Subject: [PATCH 16/46] fix: do not execute commands cut off by a disconnect

---
 raw/src/server/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/raw/src/server/mod.rs b/raw/src/server/mod.rs
index da13cc6..13983ea 100644
--- a/raw/src/server/mod.rs
+++ b/raw/src/server/mod.rs
@@ -136,6 +136,11 @@ impl Server {
                 break;
             }
 
+            if cmd.last() != Some(&self.0.read_termination) {
+                log::info!("{:?} disconnected in the middle of a command", peer);
+                break;
+            }
+
             log::trace!("{:?} read {} bytes", peer, cmd.len());
 
             let resp = {
-- 
2.43.0


From 013cd12c9afed8a95f357a7ed258fee8dd8ff1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:14 +0000
Subject: [PATCH 17/46] fix: keep accepting clients after one disconnects
 before being accepted

---
 hislip/src/server/mod.rs                | 20 ++++++++++++++++++--
 raw/src/server/mod.rs                   | 22 +++++++++++++++++++---
 telnet/src/server/mod.rs                |  9 ++++++++-
 vxi11/src/server/portmapper.rs          |  9 ++++++++-
 vxi11/src/server/vxi11/abort_service.rs |  9 ++++++++-
 vxi11/src/server/vxi11/core_service.rs  |  9 ++++++++-
 6 files changed, 69 insertions(+), 9 deletions(-)

diff --git a/hislip/src/server/mod.rs b/hislip/src/server/mod.rs
index ab46d52..8ca2bb2 100644
--- a/hislip/src/server/mod.rs
+++ b/hislip/src/server/mod.rs
@@ -3,6 +3,7 @@ use std::collections::HashMap;
 use std::io;
 use std::str::from_utf8;
 use std::sync::Weak;
+use std::time::Duration;
 
 use async_std::net::{TcpListener, ToSocketAddrs};
 use async_std::sync::Arc;
@@ -174,8 +175,23 @@ where
         let listener = TcpListener::bind(addr).await?;
         let mut incoming = listener.incoming();
         while let Some(stream) = incoming.next().await {
-            let stream = stream?;
-            let peer = stream.peer_addr()?;
+            let stream = match stream {
+                Ok(stream) => stream,
+                Err(err) => {
+                    log::warn!("Listening error: {}", err);
+                    // Avoid spinning while e.g. out of file descriptors
+                    async_std::task::sleep(Duration::from_millis(100)).await;
+                    continue;
+                }
+            };
+            let peer = match stream.peer_addr() {
+                Ok(peer) => peer,
+                Err(err) => {
+                    // Client is already gone
+                    log::warn!("Failed to get peer address: {}", err);
+                    continue;
+                }
+            };
 
             let s = self.clone();
             let t = srq.get_new_receiver();
diff --git a/raw/src/server/mod.rs b/raw/src/server/mod.rs
index 13983ea..62f812c 100644
--- a/raw/src/server/mod.rs
+++ b/raw/src/server/mod.rs
@@ -43,13 +43,22 @@ impl Server {
 
         while let Some((token, stream)) = incoming.next().await {
             let s = self.clone();
-            let peer = stream.peer_addr()?;
+            let peer = match stream.peer_addr() {
+                Ok(peer) => peer,
+                Err(err) => {
+                    // Client is already gone
+                    log::warn!("Failed to get peer address: {}", err);
+                    continue;
+                }
+            };
             log::error!("Accepted from: {}", peer);
 
             let shared_lock = shared_lock.clone();
             let device = device.clone();
 
-            stream.set_nodelay(true)?;
+            if let Err(err) = stream.set_nodelay(true) {
+                log::warn!("Failed to set nodelay: {}", err);
+            }
 
             task::spawn(async move {
                 let (reader, writer) = stream.split();
@@ -86,7 +95,14 @@ impl Server {
 
         while let Some((token, stream)) = incoming.next().await {
             let s = self.clone();
-            let peer = stream.peer_addr()?;
+            let peer = match stream.peer_addr() {
+                Ok(peer) => peer,
+                Err(err) => {
+                    // Client is already gone
+                    log::warn!("Failed to get peer address: {}", err);
+                    continue;
+                }
+            };
             log::info!("Accepted from: {:?}", peer);
 
             let shared_lock = shared_lock.clone();
diff --git a/telnet/src/server/mod.rs b/telnet/src/server/mod.rs
index 905bf82..9f96697 100644
--- a/telnet/src/server/mod.rs
+++ b/telnet/src/server/mod.rs
@@ -42,7 +42,14 @@ impl Server {
 
         while let Some((token, stream)) = incoming.next().await {
             let s = self.clone();
-            let peer = stream.peer_addr()?;
+            let peer = match stream.peer_addr() {
+                Ok(peer) => peer,
+                Err(err) => {
+                    // Client is already gone
+                    log::warn!("Failed to get peer address: {}", err);
+                    continue;
+                }
+            };
             log::error!("Accepted from: {}", peer);
 
             let shared_lock = shared_lock.clone();
diff --git a/vxi11/src/server/portmapper.rs b/vxi11/src/server/portmapper.rs
index 68cbddc..713a0ec 100644
--- a/vxi11/src/server/portmapper.rs
+++ b/vxi11/src/server/portmapper.rs
@@ -64,7 +64,14 @@ impl<const N: usize> StaticPortMap<N> {
             .backpressure(10);
 
         while let Some((token, stream)) = incoming.next().await {
-            let peer = stream.peer_addr()?;
+            let peer = match stream.peer_addr() {
+                Ok(peer) => peer,
+                Err(err) => {
+                    // Client is already gone
+                    log::warn!("Failed to get peer address: {}", err);
+                    continue;
+                }
+            };
             log::debug!("Accepted from: {}", peer);
 
             let s = self.clone();
diff --git a/vxi11/src/server/vxi11/abort_service.rs b/vxi11/src/server/vxi11/abort_service.rs
index a33283e..37b4ec4 100644
--- a/vxi11/src/server/vxi11/abort_service.rs
+++ b/vxi11/src/server/vxi11/abort_service.rs
@@ -42,7 +42,14 @@ where
             .backpressure(10);
 
         while let Some((token, stream)) = incoming.next().await {
-            let peer = stream.peer_addr()?;
+            let peer = match stream.peer_addr() {
+                Ok(peer) => peer,
+                Err(err) => {
+                    // Client is already gone
+                    log::warn!("Failed to get peer address: {}", err);
+                    continue;
+                }
+            };
             log::debug!("Accepted from: {}", peer);
 
             let s = self.clone();
diff --git a/vxi11/src/server/vxi11/core_service.rs b/vxi11/src/server/vxi11/core_service.rs
index 894df22..1d5279a 100644
--- a/vxi11/src/server/vxi11/core_service.rs
+++ b/vxi11/src/server/vxi11/core_service.rs
@@ -71,7 +71,14 @@ where
             .handle_errors(Duration::from_millis(100))
             .backpressure(10);
         while let Some((token, stream)) = incoming.next().await {
-            let peer = stream.peer_addr()?;
+            let peer = match stream.peer_addr() {
+                Ok(peer) => peer,
+                Err(err) => {
+                    // Client is already gone
+                    log::warn!("Failed to get peer address: {}", err);
+                    continue;
+                }
+            };
             log::debug!("Accepted from: {}", peer);
             let s = Arc::new(VxiCoreSession {
                 peer,
-- 
2.43.0


From 55254bca1c63aa1c1655c0557c4ee5f8157b025e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:14 +0000
Subject: [PATCH 18/46] fix: stop serving telnet clients which have
 disconnected

---
 telnet/src/server/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/telnet/src/server/mod.rs b/telnet/src/server/mod.rs
index 9f96697..3e5e3dd 100644
--- a/telnet/src/server/mod.rs
+++ b/telnet/src/server/mod.rs
@@ -99,6 +99,10 @@ impl Server {
 
             // Read a line from stream.
             let n = stream.read(&mut buf).await?;
+            if n == 0 {
+                // Client disconnected
+                return Ok(());
+            }
 
             let events = instance.receive(&buf[..n]);
             for event in events {
-- 
2.43.0


From 971462af26e463e0f370ec3f5351d78362d3f5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:14 +0000
Subject: [PATCH 19/46] fix: do not remove last character of lines ended by LF
 only

---
 telnet/src/server/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/telnet/src/server/mod.rs b/telnet/src/server/mod.rs
index 3e5e3dd..7554108 100644
--- a/telnet/src/server/mod.rs
+++ b/telnet/src/server/mod.rs
@@ -127,7 +127,9 @@ impl Server {
 
                             if b == b'\n' {
                                 // Remove \r
-                                cmd.pop();
+                                if cmd.last() == Some(&b'\r') {
+                                    cmd.pop();
+                                }
                                 // Lock device and execute
                                 let resp = {
                                     let mut device = handle.async_lock().await.unwrap();
-- 
2.43.0


From fe0394cd7d37d3c28e4a543fb02c9071bdfa18cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:14 +0000
Subject: [PATCH 20/46] fix: escape echoed IAC bytes

---
 telnet/src/server/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/telnet/src/server/mod.rs b/telnet/src/server/mod.rs
index 7554108..652689a 100644
--- a/telnet/src/server/mod.rs
+++ b/telnet/src/server/mod.rs
@@ -122,7 +122,7 @@ impl Server {
                         for b in data {
                             // Echo back if enabled
                             if instance.options.get_option(options::ECHO).local_state {
-                                stream.write_all(&[b]).await?;
+                                stream.write_all(&Parser::escape_iac(vec![b])).await?;
                             }
 
                             if b == b'\n' {
-- 
2.43.0


From 19cbab5569cf38f2a6852e98ce1fff6136a6b5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:15 +0000
Subject: [PATCH 21/46] fix: send go ahead as IAC GA

---
 telnet/src/server/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/telnet/src/server/mod.rs b/telnet/src/server/mod.rs
index 652689a..3da36a9 100644
--- a/telnet/src/server/mod.rs
+++ b/telnet/src/server/mod.rs
@@ -94,7 +94,7 @@ impl Server {
             stream.write_all(&prompt).await?;
             // Send a go ahead
             if !instance.options.get_option(options::SGA).local_state {
-                stream.write_all(b"\xff\x03").await?;
+                stream.write_all(b"\xff\xf9").await?;
             }
 
             // Read a line from stream.
-- 
2.43.0


From 2fd177b82b55545463315ac174fc332befc1aee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:15 +0000
Subject: [PATCH 22/46] fix: do not act on records cut off by the end of the
 stream

---
 vxi11/src/common/onc_rpc/record.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vxi11/src/common/onc_rpc/record.rs b/vxi11/src/common/onc_rpc/record.rs
index d9eccdd..567586f 100644
--- a/vxi11/src/common/onc_rpc/record.rs
+++ b/vxi11/src/common/onc_rpc/record.rs
@@ -20,10 +20,13 @@ where
         if buf.len() + len > maxlen || buf.try_reserve(len).is_err() {
             return Err(ErrorKind::OutOfMemory.into());
         }
-        reader
+        let n = reader
             .take((fragment_len & 0x7FFFFFFF) as u64)
             .read_to_end(&mut buf)
             .await?;
+        if n < len {
+            return Err(ErrorKind::UnexpectedEof.into());
+        }
 
         // Check if last fragment
         if fragment_len & 0x80000000 != 0 {
-- 
2.43.0


From f1eb44c72c83c0fad3cc4240543a78d5fe533181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:16 +0000
Subject: [PATCH 23/46] fix: do not accept opaque data and strings shorter than
 their length

---
 vxi11/src/common/xdr/basic.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/vxi11/src/common/xdr/basic.rs b/vxi11/src/common/xdr/basic.rs
index c9dcb54..b3e3f4b 100644
--- a/vxi11/src/common/xdr/basic.rs
+++ b/vxi11/src/common/xdr/basic.rs
@@ -25,7 +25,7 @@
 #![allow(dead_code)]
 
 use byteorder::{NetworkEndian, ReadBytesExt, WriteBytesExt};
-use std::io::{Read, Result, Write};
+use std::io::{ErrorKind, Read, Result, Write};
 
 macro_rules! read_padding {
     ($reader:expr, $len:expr) => {
@@ -583,7 +583,10 @@ impl XdrDecode for Opaque {
         RD: Read,
     {
         let len = reader.read_u32::<NetworkEndian>()? as usize;
-        reader.take(len as u64).read_to_end(&mut self.0)?;
+        let n = reader.take(len as u64).read_to_end(&mut self.0)?;
+        if n < len {
+            return Err(ErrorKind::UnexpectedEof.into());
+        }
         read_padding!(reader, len);
         Ok(())
     }
@@ -652,7 +655,10 @@ impl XdrDecode for String {
     {
         let len = reader.read_u32::<NetworkEndian>()? as u64;
         let mut s = reader.take(len);
-        s.read_to_string(self)?;
+        let n = s.read_to_string(self)?;
+        if (n as u64) < len {
+            return Err(ErrorKind::UnexpectedEof.into());
+        }
         read_padding!(reader, len);
         Ok(())
     }
-- 
2.43.0


From 012b90084061f353967612a1635ac9576184c28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:16 +0000
Subject: [PATCH 24/46] fix: keep serving UDP after an invalid message

---
 vxi11/src/common/onc_rpc/mod.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/vxi11/src/common/onc_rpc/mod.rs b/vxi11/src/common/onc_rpc/mod.rs
index f60cc42..744b47d 100644
--- a/vxi11/src/common/onc_rpc/mod.rs
+++ b/vxi11/src/common/onc_rpc/mod.rs
@@ -94,9 +94,14 @@ pub(crate) trait RpcService {
             let mut buf = vec![0; 1500];
             let (n, peer) = socket.recv_from(&mut buf).await?;
 
-            let reply = self.clone().handle_message(buf[..n].to_vec()).await?;
-
-            socket.send_to(&reply, peer).await?;
+            match self.clone().handle_message(buf[..n].to_vec()).await {
+                Ok(reply) => {
+                    if let Err(err) = socket.send_to(&reply, peer).await {
+                        log::debug!("Failed to reply to {}: {}", peer, err);
+                    }
+                }
+                Err(err) => log::debug!("Ignoring invalid message from {}: {}", peer, err),
+            }
         }
     }
 
-- 
2.43.0


From cef344accc957aba57776c4daa04909b43f34c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:17 +0000
Subject: [PATCH 25/46] fix: bind VXI-11 core server to the core port

---
 vxi11/src/server/vxi11/core_service.rs | 3 ++-
 vxi11/src/server/vxi11/mod.rs          | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/vxi11/src/server/vxi11/core_service.rs b/vxi11/src/server/vxi11/core_service.rs
index 1d5279a..ff26566 100644
--- a/vxi11/src/server/vxi11/core_service.rs
+++ b/vxi11/src/server/vxi11/core_service.rs
@@ -51,6 +51,7 @@ macro_rules! lock_device {
 pub struct VxiCoreServer<DEV> {
     pub(super) inner: Arc<Mutex<VxiInner<DEV>>>,
     pub(super) max_recv_size: u32,
+    pub(super) core_port: u16,
     pub(super) async_port: u16,
 }
 
@@ -59,7 +60,7 @@ where
     DEV: Device + Send + 'static,
 {
     pub async fn bind(self: Arc<Self>, addrs: IpAddr) -> io::Result<()> {
-        let listener = TcpListener::bind((addrs, self.async_port)).await?;
+        let listener = TcpListener::bind((addrs, self.core_port)).await?;
         self.serve(listener).await
     }
 
diff --git a/vxi11/src/server/vxi11/mod.rs b/vxi11/src/server/vxi11/mod.rs
index 049517a..04c5454 100644
--- a/vxi11/src/server/vxi11/mod.rs
+++ b/vxi11/src/server/vxi11/mod.rs
@@ -247,6 +247,7 @@ impl<DEV> VxiServerBuilder<DEV> {
         (
             Arc::new(VxiCoreServer {
                 inner: inner.clone(),
+                core_port: self.core_port,
                 async_port: self.async_port,
                 max_recv_size: 128 * 1024,
             }),
-- 
2.43.0


From d389e9f43469361820249e7ddb0ab68b900f27d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:56 +0000
Subject: [PATCH 26/46] fix: refuse to create a link whose lock cannot be
 acquired

The error was overwritten and the link created without its lock. Also, do not
keep the server locked while waiting.
---
 vxi11/src/server/vxi11/core_service.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/vxi11/src/server/vxi11/core_service.rs b/vxi11/src/server/vxi11/core_service.rs
index ff26566..fc36df9 100644
--- a/vxi11/src/server/vxi11/core_service.rs
+++ b/vxi11/src/server/vxi11/core_service.rs
@@ -155,11 +155,9 @@ where
                     max_recv_size: self.max_recv_size,
                 };
 
-                let mut inner = self.inner.lock().await;
-                resp.error = match inner.new_link(&parms.device) {
+                let new_link = self.inner.lock().await.new_link(&parms.device);
+                resp.error = match new_link {
                     Ok((lid, mut link)) => {
-                        resp.lid = lid.into();
-
                         // Try to lock
                         if parms.lock_device {
                             let res = timeout(
@@ -172,9 +170,16 @@ where
                                 Ok(()) => {
                                     log::debug!(peer=format!("{}", self.peer), link=lid; "Exclusive lock acquired")
                                 }
-                                Err(err) => resp.error = err.into(),
+                                Err(err) => {
+                                    // Link is not created
+                                    self.inner.lock().await.remove_link(lid);
+                                    resp.error = err.into();
+                                    resp.write_xdr(ret)?;
+                                    return Ok(());
+                                }
                             }
                         }
+                        resp.lid = lid.into();
                         log::debug!(peer=format!("{}", self.peer), link=lid; "New link: {}, client_id={}", parms.device, parms.client_id);
                         self.links.lock().await.insert(lid, link);
                         xdr::DeviceErrorCode::NoError
-- 
2.43.0


From 62bef0fc93babdc849fd782c03b4dbb9f1dd237c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:57 +0000
Subject: [PATCH 27/46] fix: remove destroyed links from the session

---
 vxi11/src/server/vxi11/core_service.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vxi11/src/server/vxi11/core_service.rs b/vxi11/src/server/vxi11/core_service.rs
index fc36df9..0d6202d 100644
--- a/vxi11/src/server/vxi11/core_service.rs
+++ b/vxi11/src/server/vxi11/core_service.rs
@@ -592,8 +592,8 @@ where
                 log::debug!(peer=format!("{}", self.peer), link=parms.0; "Destroy link");
 
                 let resp = xdr::DeviceError {
-                    error: match get_link!(self.links, &parms.0) {
-                        Some(link) => {
+                    error: match self.links.lock().await.remove(&parms.0) {
+                        Some(mut link) => {
                             let mut inner = self.inner.lock().await;
 
                             link.handle.force_release();
-- 
2.43.0


From 16db3c9e8d8c6a65296ad2230d629a106fe0efaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:57 +0000
Subject: [PATCH 28/46] fix: forget links of disconnected clients

Aborting them succeeded and their entries were never removed.
---
 vxi11/src/server/vxi11/abort_service.rs | 4 ++--
 vxi11/src/server/vxi11/mod.rs           | 2 ++
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/vxi11/src/server/vxi11/abort_service.rs b/vxi11/src/server/vxi11/abort_service.rs
index 37b4ec4..12e2765 100644
--- a/vxi11/src/server/vxi11/abort_service.rs
+++ b/vxi11/src/server/vxi11/abort_service.rs
@@ -108,11 +108,11 @@ where
                 };
 
                 resp.error = match sender {
-                    Some(mut abort) => {
+                    Some(mut abort) if !abort.is_closed() => {
                         let _ = abort.try_send(());
                         xdr::DeviceErrorCode::NoError
                     }
-                    None => xdr::DeviceErrorCode::InvalidLinkIdentifier,
+                    _ => xdr::DeviceErrorCode::InvalidLinkIdentifier,
                 };
                 resp.write_xdr(ret)?;
                 Ok(())
diff --git a/vxi11/src/server/vxi11/mod.rs b/vxi11/src/server/vxi11/mod.rs
index 04c5454..cba2423 100644
--- a/vxi11/src/server/vxi11/mod.rs
+++ b/vxi11/src/server/vxi11/mod.rs
@@ -149,6 +149,8 @@ impl<DEV> VxiInner<DEV> {
     }
 
     fn new_link(&mut self, subaddr: &String) -> Result<(u32, Link<DEV>), ()> {
+        // Forget links which were dropped when their client disconnected
+        self.links.retain(|_, abort| !abort.is_closed());
         let id = self.next_link_id();
         let (device, shared) = self.devices.get(subaddr).ok_or(())?;
         let handle = LockHandle::new(shared.clone(), device.clone());
-- 
2.43.0


From 4dd6cb02fffbf4a15ddc0e8a3ac68c6dc4fb038d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:58 +0000
Subject: [PATCH 29/46] fix: do not let an abort without a waiting call abort a
 later call

---
 vxi11/src/server/vxi11/core_service.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/vxi11/src/server/vxi11/core_service.rs b/vxi11/src/server/vxi11/core_service.rs
index 0d6202d..0b238e7 100644
--- a/vxi11/src/server/vxi11/core_service.rs
+++ b/vxi11/src/server/vxi11/core_service.rs
@@ -34,6 +34,8 @@ macro_rules! get_link {
 macro_rules! lock_device {
     ($handle:expr, $flags:expr, $timeout:expr, $abort:expr) => {
         if $flags.is_waitlock() {
+            // Ignore aborts received while no call was waiting
+            while let Ok(Some(())) = $abort.try_next() {}
             select! {
                 d = timeout(
                     Duration::from_millis($timeout as u64),
@@ -463,14 +465,18 @@ where
 
                 let resp = xdr::DeviceError {
                     error: match get_link!(self.links, &parms.lid.0) {
-                        Some(link) if parms.flags.is_waitlock() => select! {
+                        Some(link) if parms.flags.is_waitlock() => {
+                            // Ignore aborts received while no call was waiting
+                            while let Ok(Some(())) = link.abort.try_next() {}
+                            select! {
                             d = timeout(
                                 Duration::from_millis(parms.lock_timeout as u64),
                                 link.handle.async_acquire_exclusive(),
                             ).fuse() => d.map_or(Err(SharedLockError::Timeout), |f| f),
                             _ = link.abort.next() => Err(SharedLockError::Aborted)
+                            }
+                            .into()
                         }
-                        .into(),
                         Some(link) => link.handle.try_acquire_exclusive().into(),
                         None => xdr::DeviceErrorCode::InvalidLinkIdentifier,
                     },
-- 
2.43.0


From 4d0bc4a077f4196e9a503e53ebdc9de8a8a2e01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:59 +0000
Subject: [PATCH 30/46] fix: stop forwarding service requests when a link is
 destroyed or dropped

---
 vxi11/src/server/vxi11/core_service.rs | 3 +++
 vxi11/src/server/vxi11/mod.rs          | 9 ++++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/vxi11/src/server/vxi11/core_service.rs b/vxi11/src/server/vxi11/core_service.rs
index 0b238e7..3d82df7 100644
--- a/vxi11/src/server/vxi11/core_service.rs
+++ b/vxi11/src/server/vxi11/core_service.rs
@@ -600,6 +600,9 @@ where
                 let resp = xdr::DeviceError {
                     error: match self.links.lock().await.remove(&parms.0) {
                         Some(mut link) => {
+                            if let Some(task) = link.srq_handle.take() {
+                                task.cancel().await;
+                            }
                             let mut inner = self.inner.lock().await;
 
                             link.handle.force_release();
diff --git a/vxi11/src/server/vxi11/mod.rs b/vxi11/src/server/vxi11/mod.rs
index cba2423..6a8b859 100644
--- a/vxi11/src/server/vxi11/mod.rs
+++ b/vxi11/src/server/vxi11/mod.rs
@@ -1,6 +1,9 @@
 use std::{collections::HashMap, sync::Arc};
 
-use async_std::{net::ToSocketAddrs, task::JoinHandle};
+use async_std::{
+    net::ToSocketAddrs,
+    task::{self, JoinHandle},
+};
 
 use futures::{
     channel::mpsc::{channel, Receiver, Sender},
@@ -110,6 +113,10 @@ impl<DEV> Link<DEV> {
 
     fn close(&mut self) {
         log::trace!("Link {} closed", self.id);
+        // Stop forwarding service requests
+        if let Some(task) = self.srq_handle.take() {
+            task::spawn(task.cancel());
+        }
         // Release any held locks
         self.handle.force_release();
     }
-- 
2.43.0


From d825ca3ba1f7372952f3cbde8151f2255f99e0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:00 +0000
Subject: [PATCH 31/46] fix: set message available bit without clearing the
 rest of the status byte

---
 vxi11/src/server/vxi11/core_service.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vxi11/src/server/vxi11/core_service.rs b/vxi11/src/server/vxi11/core_service.rs
index 3d82df7..9604dc2 100644
--- a/vxi11/src/server/vxi11/core_service.rs
+++ b/vxi11/src/server/vxi11/core_service.rs
@@ -333,7 +333,7 @@ where
                                     // Replace MAV bit
                                     resp.stb &= 0xef;
                                     if !link.out_buf.is_empty() {
-                                        resp.stb &= 0x10;
+                                        resp.stb |= 0x10;
                                     }
                                     xdr::DeviceErrorCode::NoError
                                 }
-- 
2.43.0


From dc9cf8c4281bb99027e3efd2fad6787a353f83ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:01 +0000
Subject: [PATCH 32/46] fix: handle reads without the termination character in
 the buffer

Reading more than available panicked, and stopping at the termination
character was never reported.
---
 vxi11/src/server/vxi11/core_service.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vxi11/src/server/vxi11/core_service.rs b/vxi11/src/server/vxi11/core_service.rs
index 9604dc2..bf3ca38 100644
--- a/vxi11/src/server/vxi11/core_service.rs
+++ b/vxi11/src/server/vxi11/core_service.rs
@@ -274,14 +274,15 @@ where
                                     min(link.out_buf.len(), x + 1)
                                 });
                                 // Returning because of term_char
-                                if matches!(pos, Some(c) if c == to_take) {
+                                if matches!(pos, Some(c) if c + 1 <= parms.request_size as usize) {
                                     resp.reason |= 0x2;
                                 }
                                 to_take
                             } else {
                                 link.out_buf.len()
                             }
-                            .min(parms.request_size as usize);
+                            .min(parms.request_size as usize)
+                            .min(link.out_buf.len());
 
                             // Returning because of request_size
                             if to_take == parms.request_size as usize {
-- 
2.43.0


From 93d4140f61cd2ec23242f854b53b7bba69590819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:01 +0000
Subject: [PATCH 33/46] fix: only accept replies to the call made

Replies to other transactions were taken for the answer, a call message
panicked and bytes beyond a received datagram were read as zeroes.
---
 vxi11/src/common/onc_rpc/mod.rs | 43 +++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/vxi11/src/common/onc_rpc/mod.rs b/vxi11/src/common/onc_rpc/mod.rs
index 744b47d..1f70c7a 100644
--- a/vxi11/src/common/onc_rpc/mod.rs
+++ b/vxi11/src/common/onc_rpc/mod.rs
@@ -227,15 +227,22 @@ impl UdpRpcClient {
         args.write_xdr(&mut args_cursor)?;
         self.socket.send(&args_cursor.into_inner()).await?;
 
-        // Read response
-        let mut buf = vec![0; 1024];
-        self.socket.recv(&mut buf).await?;
-        let mut ret_cursor = Cursor::new(buf);
+        // Read response, ignoring anything which is not a reply to this call
+        let (reply, mut ret_cursor) = loop {
+            let mut buf = vec![0; 1024];
+            let n = self.socket.recv(&mut buf).await?;
+            buf.truncate(n);
+            let mut ret_cursor = Cursor::new(buf);
+
+            let mut reply = xdr::RpcMessage::default();
+            reply.read_xdr(&mut ret_cursor)?;
+            if reply.xid == self.xid && matches!(reply.mtype, xdr::MsgType::Reply(_)) {
+                break (reply, ret_cursor);
+            }
+        };
 
-        // Deserialize and parse response
-        let mut reply = xdr::RpcMessage::default();
+        // Parse response
         let mut ret: RET = Default::default();
-        reply.read_xdr(&mut ret_cursor)?;
         match reply {
             xdr::RpcMessage {
                 mtype:
@@ -268,7 +275,7 @@ impl UdpRpcClient {
                 mtype: xdr::MsgType::Call(..),
                 ..
             } => {
-                todo!()
+                unreachable!()
             }
         }
     }
@@ -344,14 +351,20 @@ where
         args.write_xdr(&mut args_cursor)?;
         write_record(&mut self.io, args_cursor.into_inner()).await?;
 
-        // Read response
-        let fragment = read_record(&mut self.io, 1024 * 1024).await?;
-        let mut ret_cursor = Cursor::new(fragment);
+        // Read response, ignoring anything which is not a reply to this call
+        let (reply, mut ret_cursor) = loop {
+            let fragment = read_record(&mut self.io, 1024 * 1024).await?;
+            let mut ret_cursor = Cursor::new(fragment);
+
+            let mut reply = xdr::RpcMessage::default();
+            reply.read_xdr(&mut ret_cursor)?;
+            if reply.xid == self.xid && matches!(reply.mtype, xdr::MsgType::Reply(_)) {
+                break (reply, ret_cursor);
+            }
+        };
 
-        // Deserialize and parse response
-        let mut reply = xdr::RpcMessage::default();
+        // Parse response
         let mut ret: RET = Default::default();
-        reply.read_xdr(&mut ret_cursor)?;
         match reply {
             xdr::RpcMessage {
                 mtype:
@@ -384,7 +397,7 @@ where
                 mtype: xdr::MsgType::Call(..),
                 ..
             } => {
-                todo!()
+                unreachable!()
             }
         }
     }
-- 
2.43.0


From cf5cc3ebaef813547b49e639c16b5461460a598e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:02 +0000
Subject: [PATCH 34/46] fix: encode arguments and result of CALLIT as opaque
 data

---
 vxi11/src/client/portmapper.rs     | 4 ++--
 vxi11/src/common/portmapper/xdr.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/vxi11/src/client/portmapper.rs b/vxi11/src/client/portmapper.rs
index 8297625..5abfdc5 100644
--- a/vxi11/src/client/portmapper.rs
+++ b/vxi11/src/client/portmapper.rs
@@ -87,11 +87,11 @@ impl PortMapperClient {
             prog,
             vers,
             proc,
-            args: args_cursor.into_inner(),
+            args: Opaque(args_cursor.into_inner()),
         };
         let res: CallResult = self.0.call(PMAPPROC_CALLIT, callit_args).await?;
         let mut ret: RET = Default::default();
-        ret.read_xdr(&mut io::Cursor::new(res.res))?;
+        ret.read_xdr(&mut io::Cursor::new(res.res.0))?;
         Ok(ret)
     }
 }
diff --git a/vxi11/src/common/portmapper/xdr.rs b/vxi11/src/common/portmapper/xdr.rs
index bb59b8b..9ada69d 100644
--- a/vxi11/src/common/portmapper/xdr.rs
+++ b/vxi11/src/common/portmapper/xdr.rs
@@ -53,7 +53,7 @@ pub(crate) struct Callit {
     pub(crate) prog: u32,
     pub(crate) vers: u32,
     pub(crate) proc: u32,
-    pub(crate) args: Vec<u8>,
+    pub(crate) args: Opaque,
 }
 
 impl XdrEncode for Callit {
@@ -83,7 +83,7 @@ impl XdrDecode for Callit {
 #[derive(Debug, Default, Clone)]
 pub(crate) struct CallResult {
     pub(crate) port: u32,
-    pub(crate) res: Vec<u8>,
+    pub(crate) res: Opaque,
 }
 
 impl XdrEncode for CallResult {
-- 
2.43.0


From f79c37f8e8b76f48addf29979ce5ce533387b00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:34 +0000
Subject: [PATCH 35/46] Delay points in the lock for runtime verification,
 guarded by cfg(lxi_verif)

---
 device/src/lib.rs  | 15 +++++++++++++++
 device/src/lock.rs | 26 ++++++++++++++++++++++++++
 2 files changed, 41 insertions(+)

diff --git a/device/src/lib.rs b/device/src/lib.rs
index dd6e78d..962a6bf 100644
--- a/device/src/lib.rs
+++ b/device/src/lib.rs
@@ -6,6 +6,7 @@
 //!
 //!
 #![cfg_attr(not(feature = "std"), no_std)]
+#![allow(unexpected_cfgs)]
 
 extern crate alloc;
 use alloc::{boxed::Box, vec::Vec};
@@ -23,6 +24,20 @@ pub mod trigger;
 /// Example/debugging devices
 pub mod util;
 
+/// Delay points used by runtime verification, only compiled with `--cfg lxi_verif`
+#[cfg(lxi_verif)]
+pub mod verif {
+    /// Called at each delay point with the name of the point
+    pub static HOOK: spin::Mutex<Option<fn(&'static str)>> = spin::Mutex::new(None);
+
+    pub(crate) fn point(name: &'static str) {
+        let hook = *HOOK.lock();
+        if let Some(f) = hook {
+            f(name)
+        }
+    }
+}
+
 #[derive(Debug)]
 #[non_exhaustive]
 pub enum DeviceError {
diff --git a/device/src/lock.rs b/device/src/lock.rs
index 457fb84..b330cf8 100644
--- a/device/src/lock.rs
+++ b/device/src/lock.rs
@@ -4,6 +4,14 @@ use futures::channel::oneshot::{channel, Receiver, Sender};
 pub use futures::lock::{Mutex, MutexGuard};
 pub use spin::Mutex as SpinMutex;
 
+/// Delay point for runtime verification, does nothing without `--cfg lxi_verif`
+macro_rules! verif_point {
+    ($name:expr) => {
+        #[cfg(lxi_verif)]
+        crate::verif::point($name);
+    };
+}
+
 /// An error returned by a locking operation
 #[derive(Debug)]
 pub enum SharedLockError {
@@ -214,11 +222,13 @@ impl<DEV> LockHandle<DEV> {
                 Err(SharedLockError::LockedByShared) | Err(SharedLockError::LockedByExclusive) => {
                     match listener.take() {
                         None => {
+                            verif_point!("blocked");
                             // Start listening and then try locking again.
                             let mut shared = self.parent.lock();
                             listener = Some(shared.listen());
                         }
                         Some(l) => {
+                            verif_point!("waiting");
                             // Wait until a notification is received.
                             log::trace!("Waiting to acquire exclusive...");
                             let _ = l.await;
@@ -286,11 +296,13 @@ impl<DEV> LockHandle<DEV> {
                 Err(SharedLockError::LockedByShared) | Err(SharedLockError::LockedByExclusive) => {
                     match listener.take() {
                         None => {
+                            verif_point!("blocked");
                             // Start listening and then try locking again.
                             let mut shared = self.parent.lock();
                             listener = Some(shared.listen());
                         }
                         Some(l) => {
+                            verif_point!("waiting");
                             // Wait until a notification is received.
                             log::trace!("Waiting to acquire shared...");
                             let _ = l.await;
@@ -345,8 +357,10 @@ impl<DEV> LockHandle<DEV> {
     pub fn try_lock(&self) -> Result<MutexGuard<DEV>, SharedLockError> {
         // Check any active locks
         self.can_lock()?;
+        verif_point!("permitted");
         // Lock device and return a guard
         let guard = self.device.try_lock().ok_or(SharedLockError::Busy)?;
+        verif_point!("obtained");
         // A lock might have been acquired by another handle in the meantime
         self.can_lock()?;
         Ok(guard)
@@ -361,6 +375,7 @@ impl<DEV> LockHandle<DEV> {
             match self.can_lock() {
                 // Allowed to try and lock
                 Ok(()) => {
+                    verif_point!("permitted");
                     log::trace!(id=self.id; "Can lock, trying...");
                     let mut shared = self.parent.lock();
                     let mut l = shared.listen();
@@ -369,6 +384,7 @@ impl<DEV> LockHandle<DEV> {
                     futures::select! {
                         // Device acquired
                         guard = self.device.lock() => {
+                            verif_point!("obtained");
                             // A lock might have been acquired by another handle while waiting
                             if self.can_lock().is_ok() {
                                 log::trace!(id=self.id; "Locked!");
@@ -386,11 +402,13 @@ impl<DEV> LockHandle<DEV> {
                 Err(SharedLockError::LockedByShared) | Err(SharedLockError::LockedByExclusive) => {
                     match listener.take() {
                         None => {
+                            verif_point!("blocked");
                             // Start listening and then try locking again.
                             let mut shared = self.parent.lock();
                             listener = Some(shared.listen());
                         }
                         Some(l) => {
+                            verif_point!("waiting");
                             // Wait until a notification is received.
                             let _ = l.await;
                         }
@@ -452,8 +470,10 @@ impl<DEV> RemoteLockHandle<DEV> {
     pub async fn try_lock(&self) -> Result<MutexGuard<DEV>, SharedLockError> {
         // Check any active locks
         self.can_lock()?;
+        verif_point!("permitted");
         // Lock device and return a guard
         let guard = self.device.try_lock().ok_or(SharedLockError::Busy)?;
+        verif_point!("obtained");
         // A lock might have been acquired by another handle in the meantime
         self.can_lock()?;
         Ok(guard)
@@ -468,6 +488,7 @@ impl<DEV> RemoteLockHandle<DEV> {
             match self.can_lock() {
                 // Allowed to try and lock
                 Ok(()) => {
+                    verif_point!("permitted");
                     let remote = self.handle.lock();
                     log::trace!(id=remote.id; "Can lock, trying...");
 
@@ -479,6 +500,7 @@ impl<DEV> RemoteLockHandle<DEV> {
                     futures::select! {
                         // Device acquired
                         guard = self.device.lock() => {
+                            verif_point!("obtained");
                             // A lock might have been acquired by another handle while waiting
                             if self.can_lock().is_ok() {
                                 log::trace!("Locked!");
@@ -496,6 +518,7 @@ impl<DEV> RemoteLockHandle<DEV> {
                 Err(SharedLockError::LockedByShared) | Err(SharedLockError::LockedByExclusive) => {
                     match listener.take() {
                         None => {
+                            verif_point!("blocked");
                             // Start listening and then try locking again.
                             let remote = self.handle.lock();
                             log::trace!(id=remote.id; "Cannot lock, waiting...");
@@ -504,6 +527,7 @@ impl<DEV> RemoteLockHandle<DEV> {
                             listener = Some(shared.listen());
                         }
                         Some(l) => {
+                            verif_point!("waiting");
                             // Wait until a notification is received.
                             let _ = l.await;
                         }
@@ -540,6 +564,7 @@ impl<DEV> RemoteLockHandle<DEV> {
                 Err(SharedLockError::LockedByShared) | Err(SharedLockError::LockedByExclusive) => {
                     match listener.take() {
                         None => {
+                            verif_point!("blocked");
                             let remote = self.handle.lock();
 
                             // Start listening and then try locking again.
@@ -547,6 +572,7 @@ impl<DEV> RemoteLockHandle<DEV> {
                             listener = Some(shared.listen());
                         }
                         Some(l) => {
+                            verif_point!("waiting");
                             // Wait until a notification is received.
                             log::trace!("Waiting to acquire...");
                             let _ = l.await;
-- 
2.43.0


From 5ffe8484a21bf05f9f2b6b7b11d89985e9061415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:10 +0000
Subject: [PATCH 36/46] fix: Reply with an authentication error to calls with
 other credential flavours

The connection was closed without a reply instead, since the flavour
could not be decoded.
---
 vxi11/src/common/onc_rpc/xdr.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vxi11/src/common/onc_rpc/xdr.rs b/vxi11/src/common/onc_rpc/xdr.rs
index 761fa91..52e58c7 100644
--- a/vxi11/src/common/onc_rpc/xdr.rs
+++ b/vxi11/src/common/onc_rpc/xdr.rs
@@ -303,6 +303,8 @@ pub(crate) enum AuthFlavour {
     None,
     Sys,
     Short,
+    /// Any other flavour, never accepted
+    Other(u32),
 }
 
 impl Default for AuthFlavour {
@@ -321,7 +323,7 @@ impl XdrDecode for AuthFlavour {
             0 => Self::None,
             1 => Self::Sys,
             2 => Self::Short,
-            _ => return Err(ErrorKind::Other.into()),
+            other => Self::Other(other),
         };
         Ok(())
     }
@@ -336,6 +338,7 @@ impl XdrEncode for AuthFlavour {
             AuthFlavour::None => 0,
             AuthFlavour::Sys => 1,
             AuthFlavour::Short => 2,
+            AuthFlavour::Other(other) => *other,
         })
     }
 }
-- 
2.43.0


From 91722c668198f750e9e0271c20987a6ba1d3b7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:06 +0000
Subject: [PATCH 37/46] fix: Keep service requests enabled when the interrupt
 channel fails

Forwarding ended for good, although the link had service requests still
enabled when the client replaced the broken interrupt channel.
---
 vxi11/src/server/vxi11/core_service.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vxi11/src/server/vxi11/core_service.rs b/vxi11/src/server/vxi11/core_service.rs
index bf3ca38..f26962a 100644
--- a/vxi11/src/server/vxi11/core_service.rs
+++ b/vxi11/src/server/vxi11/core_service.rs
@@ -543,8 +543,8 @@ where
                                                 if let Err(err) =
                                                     client.device_intr_srq(&parms.handle.0).await
                                                 {
+                                                    // The client may open another channel
                                                     log::error!(link=parms.lid.0; "Failed to send service request: {err:?}");
-                                                    return Err(err);
                                                 }
                                             } else {
                                                 log::error!(link=parms.lid.0; "Failed to send service request: No interrupt channel open");
-- 
2.43.0


From 13846cbef12f723a335d42a9b17ff252ee6b4901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:59 +0000
Subject: [PATCH 38/46] fix: Let UDP clients reach other hosts than this one

Sockets bound to the loopback address cannot be connected to other
hosts (EINVAL), so UDP interrupt channels and portmapper clients only
worked within one host.
---
 vxi11/src/client/portmapper.rs        | 2 +-
 vxi11/src/server/vxi11/intr_client.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/vxi11/src/client/portmapper.rs b/vxi11/src/client/portmapper.rs
index 5abfdc5..7d479c3 100644
--- a/vxi11/src/client/portmapper.rs
+++ b/vxi11/src/client/portmapper.rs
@@ -33,7 +33,7 @@ impl PortMapperClient {
     }
 
     pub async fn connect_udp(addrs: impl ToSocketAddrs) -> io::Result<Self> {
-        let sock = UdpSocket::bind("127.0.0.1:0").await?;
+        let sock = UdpSocket::bind("0.0.0.0:0").await?;
         sock.connect(addrs).await?;
         Ok(Self(RpcClient::Udp(UdpRpcClient::new(
             PORTMAPPER_PROG,
diff --git a/vxi11/src/server/vxi11/intr_client.rs b/vxi11/src/server/vxi11/intr_client.rs
index f153acc..89a5fc8 100644
--- a/vxi11/src/server/vxi11/intr_client.rs
+++ b/vxi11/src/server/vxi11/intr_client.rs
@@ -29,7 +29,7 @@ impl VxiSrqClient {
         udp: bool,
     ) -> io::Result<Self> {
         let client = if udp {
-            let socket = UdpSocket::bind((Ipv4Addr::LOCALHOST, 0)).await?;
+            let socket = UdpSocket::bind((Ipv4Addr::UNSPECIFIED, 0)).await?;
             socket
                 .connect((Ipv4Addr::from(host_addr), host_port))
                 .await?;
-- 
2.43.0


From 2bb7b7ad6309500566854499494acc151188059f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:50 +0000
Subject: [PATCH 39/46] fix: answer GETPORT with the whole port number of the
 entry

---
 vxi11/src/server/portmapper.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vxi11/src/server/portmapper.rs b/vxi11/src/server/portmapper.rs
index 713a0ec..f7febc7 100644
--- a/vxi11/src/server/portmapper.rs
+++ b/vxi11/src/server/portmapper.rs
@@ -117,7 +117,7 @@ impl<const N: usize> RpcService for StaticPortMap<N> {
                     .find(|m| {
                         m.prog == mapping.prog && m.vers == mapping.vers && m.prot == mapping.prot
                     })
-                    .map_or(0, |m| m.port as u16);
+                    .map_or(0, |m| m.port);
                 port.write_xdr(ret)?;
                 Ok(())
             }
-- 
2.43.0


From f16bf9c69a06e4e6513fa5cc3bb82cc289e4351a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:50 +0000
Subject: [PATCH 40/46] fix: report a port number out of range instead of
 cutting it off

---
 vxi11/src/client/portmapper.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vxi11/src/client/portmapper.rs b/vxi11/src/client/portmapper.rs
index 7d479c3..4eae8b5 100644
--- a/vxi11/src/client/portmapper.rs
+++ b/vxi11/src/client/portmapper.rs
@@ -67,7 +67,10 @@ impl PortMapperClient {
     }
 
     pub async fn getport(&mut self, mapping: Mapping) -> Result<u16, RpcError> {
-        self.0.call(PMAPPROC_GETPORT, mapping).await
+        let port: u32 = self.0.call(PMAPPROC_GETPORT, mapping).await?;
+        u16::try_from(port).map_err(|_| {
+            io::Error::new(io::ErrorKind::InvalidData, "port number out of range").into()
+        })
     }
 
     pub async fn callit<ARGS, RET>(
-- 
2.43.0


From c6c52af385fddd266707f4ba7b24d57c6c4308f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:29 +0000
Subject: [PATCH 41/46] Encodings reachable for runtime verification, guarded
 by cfg(lxi_verif_xdr)

---
 vxi11/src/common/onc_rpc/mod.rs |  5 +++
 vxi11/src/lib.rs                | 70 +++++++++++++++++++++++++++++++++
 2 files changed, 75 insertions(+)

diff --git a/vxi11/src/common/onc_rpc/mod.rs b/vxi11/src/common/onc_rpc/mod.rs
index 1f70c7a..cabb5db 100644
--- a/vxi11/src/common/onc_rpc/mod.rs
+++ b/vxi11/src/common/onc_rpc/mod.rs
@@ -14,6 +14,11 @@ use futures::{AsyncRead, AsyncWrite};
 mod record;
 mod xdr;
 
+#[cfg(lxi_verif_xdr)]
+pub(crate) mod verif {
+    pub(crate) use super::xdr::RpcMessage;
+}
+
 pub(crate) mod prelude {
     pub(crate) use super::xdr::{AuthStat, MissmatchInfo};
     pub(crate) use super::{RpcClient, RpcError, RpcService, StreamRpcClient, UdpRpcClient};
diff --git a/vxi11/src/lib.rs b/vxi11/src/lib.rs
index 001e74a..84f8bde 100644
--- a/vxi11/src/lib.rs
+++ b/vxi11/src/lib.rs
@@ -1,7 +1,77 @@
 //!
 //!
 
+#![allow(unexpected_cfgs)]
+
 pub(crate) mod common;
 
 pub mod client;
 pub mod server;
+
+/// Access to private encodings for runtime verification, only compiled with `--cfg lxi_verif_xdr`
+#[cfg(lxi_verif_xdr)]
+pub mod verif {
+    use std::io::{Cursor, ErrorKind, Result};
+
+    use crate::common::{onc_rpc, portmapper, vxi11, xdr::basic};
+    use basic::{XdrDecode, XdrEncode};
+
+    fn one<T: XdrDecode + XdrEncode + Default>(data: &[u8]) -> Result<(Vec<u8>, usize)> {
+        let mut reader = Cursor::new(data);
+        let mut value = T::default();
+        value.read_xdr(&mut reader)?;
+        let mut writer = Cursor::new(Vec::new());
+        value.write_xdr(&mut writer)?;
+        Ok((writer.into_inner(), reader.position() as usize))
+    }
+
+    macro_rules! recode {
+        ($($name:literal => $t:ty),* $(,)?) => {
+            /// Names of the types known to [recode]
+            pub const TYPES: &[&str] = &[$($name),*];
+
+            /// Decode a value of the named type and encode it again
+            ///
+            /// Returns the encoded value and the number of bytes which were decoded.
+            pub fn recode(name: &str, data: &[u8]) -> Result<(Vec<u8>, usize)> {
+                match name {
+                    $($name => one::<$t>(data),)*
+                    _ => Err(ErrorKind::Unsupported.into()),
+                }
+            }
+        };
+    }
+
+    recode! {
+        "opaque" => basic::Opaque,
+        "opaque[0]" => basic::FixedOpaque<0>,
+        "opaque[1]" => basic::FixedOpaque<1>,
+        "opaque[2]" => basic::FixedOpaque<2>,
+        "opaque[3]" => basic::FixedOpaque<3>,
+        "opaque[4]" => basic::FixedOpaque<4>,
+        "opaque[5]" => basic::FixedOpaque<5>,
+        "opaque[19]" => basic::FixedOpaque<19>,
+        "opaque[33]" => basic::FixedOpaque<33>,
+        "rpc" => onc_rpc::verif::RpcMessage,
+        "mapping" => portmapper::xdr::Mapping,
+        "callit" => portmapper::xdr::Callit,
+        "call_result" => portmapper::xdr::CallResult,
+        "flags" => vxi11::xdr::DeviceFlags,
+        "addr_family" => vxi11::xdr::DeviceAddrFamily,
+        "error" => vxi11::xdr::DeviceError,
+        "create_link_parms" => vxi11::xdr::CreateLinkParms,
+        "create_link_resp" => vxi11::xdr::CreateLinkResp,
+        "write_parms" => vxi11::xdr::DeviceWriteParms,
+        "write_resp" => vxi11::xdr::DeviceWriteResp,
+        "read_parms" => vxi11::xdr::DeviceReadParms,
+        "read_resp" => vxi11::xdr::DeviceReadResp,
+        "read_stb_resp" => vxi11::xdr::DeviceReadStbResp,
+        "generic_parms" => vxi11::xdr::DeviceGenericParms,
+        "remote_func" => vxi11::xdr::DeviceRemoteFunc,
+        "enable_srq_parms" => vxi11::xdr::DeviceEnableSrqParms,
+        "lock_parms" => vxi11::xdr::DeviceLockParms,
+        "docmd_parms" => vxi11::xdr::DeviceDocmdParms,
+        "docmd_resp" => vxi11::xdr::DeviceDocmdResp,
+        "srq_parms" => vxi11::xdr::DeviceSrqParms,
+    }
+}
-- 
2.43.0


From 3bf47dce9db6acf9ca990d9aeb4b01997c8a5b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:34 +0000
Subject: [PATCH 42/46] fix: HiSLIP, release the device before sending an error

A client which floods the synchronous channel with e.g. vendor specific
messages and does not read the errors kept the device from everybody else.
---
 hislip/src/server/session/synchronous.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/hislip/src/server/session/synchronous.rs b/hislip/src/server/session/synchronous.rs
index ad9d750..6e25fcc 100644
--- a/hislip/src/server/session/synchronous.rs
+++ b/hislip/src/server/session/synchronous.rs
@@ -174,6 +174,7 @@ where
                             message_type: MessageType::VendorSpecific(code),
                             ..
                         } => {
+                            drop(dev);
                             send_nonfatal!(peer=peer.to_string(), session_id=self.id;
                                 &mut stream, NonFatalErrorCode::UnrecognizedVendorDefinedMessage,
                                 "Unrecognized Vendor Defined Message ({})", code
@@ -220,6 +221,7 @@ where
                                     shared.read_message_id = message_id;
 
                                     if buffer.try_reserve_exact(data.len()).is_err() {
+                                        drop(dev);
                                         send_fatal!(peer=peer.to_string(), session_id=self.id;
                                             &mut stream,
                                             FatalErrorCode::UnidentifiedError,
@@ -280,6 +282,7 @@ where
                                 }
                                 // Initial handshake
                                 SessionState::Handshake => {
+                                    drop(dev);
                                     send_fatal!(peer=peer.to_string(), session_id=self.id;
                                         &mut stream,
                                         FatalErrorCode::AttemptUseWithoutBothChannels,
@@ -308,6 +311,7 @@ where
                                 }
                                 // Initial handshake
                                 SessionState::Handshake => {
+                                    drop(dev);
                                     send_fatal!(peer=peer.to_string(), session_id=self.id;
                                         &mut stream,
                                         FatalErrorCode::AttemptUseWithoutBothChannels,
@@ -321,6 +325,7 @@ where
                             ..
                         } => {
                             // Should've been handled above when AsyncDeviceClear was sent
+                            drop(dev);
                             send_nonfatal!(peer=peer.to_string(), session_id=self.id;
                                 &mut stream,
                                 NonFatalErrorCode::UnidentifiedError,
@@ -337,6 +342,7 @@ where
                         } if protocol >= PROTOCOL_2_0 => {
                             log::debug!(peer=peer.to_string(), session_id=self.id; "Start/end TLS");
 
+                            drop(dev);
                             send_fatal!(
                                 &mut stream,
                                 FatalErrorCode::SecureConnectionFailed,
@@ -353,6 +359,7 @@ where
                         } if protocol >= PROTOCOL_2_0 => {
                             log::debug!(peer=peer.to_string(), session_id=self.id; "Authentication Start/Exchange");
 
+                            drop(dev);
                             send_fatal!(
                                 &mut stream,
                                 FatalErrorCode::SecureConnectionFailed,
@@ -360,6 +367,7 @@ where
                             )
                         }
                         msg => {
+                            drop(dev);
                             send_nonfatal!(peer=peer.to_string(), session_id=self.id;
                                 &mut stream,
                                 NonFatalErrorCode::UnidentifiedError,
@@ -370,6 +378,7 @@ where
                 }
                 // Invalid message
                 Err(err) => {
+                    drop(dev);
                     if err.is_fatal() {
                         Message::from(err).write_to(&mut stream).await?;
                         return Err(io::ErrorKind::Other.into());
-- 
2.43.0


From f38e73c55f2ea378fb25bb90474da3e006787c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:54 +0000
Subject: [PATCH 43/46] fix: forget listeners of a lock which are not waiting
 anymore

Every access to a device registers a listener, which was only removed when
some client acquired or released a lock: without locking, memory grew with
every command.
---
 device/src/lock.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/device/src/lock.rs b/device/src/lock.rs
index b330cf8..92e279a 100644
--- a/device/src/lock.rs
+++ b/device/src/lock.rs
@@ -87,6 +87,8 @@ impl SharedLock {
 
     fn listen(&mut self) -> Receiver<()> {
         let (sender, receiver) = channel();
+        // Forget listeners which are not waiting anymore
+        self.event.retain(|sender| !sender.is_canceled());
         self.event.push(sender);
         receiver
     }
-- 
2.43.0


From 2bf6166287426d6ab2e3b8175d6de465948fa825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:54 +0000
Subject: [PATCH 44/46] fix: forget status receivers which were dropped

A sender was only removed when a status was sent: without status changes,
memory grew with every connection.
---
 device/src/status.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/device/src/status.rs b/device/src/status.rs
index da56575..6cba5e2 100644
--- a/device/src/status.rs
+++ b/device/src/status.rs
@@ -35,6 +35,8 @@ impl Sender {
     pub fn get_new_receiver(&mut self) -> Receiver {
         let mut senders = self.senders.lock();
         let (sender, receiver) = mpsc::channel(1);
+        // Forget receivers which were dropped since the last status
+        senders.retain(|sender| !sender.is_closed());
         senders.push(sender);
         receiver
     }
-- 
2.43.0


From 5edbd682659d251edaf76616446d9dda7ee6d522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:16 +0000
Subject: [PATCH 45/46] fix: finish a record whose sending was cancelled
 halfway

A link which is disabled or destroyed while its service request waits for
space in the interrupt channel left half a record there, and the client
could not make out any later call.
---
 vxi11/src/common/onc_rpc/mod.rs | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/vxi11/src/common/onc_rpc/mod.rs b/vxi11/src/common/onc_rpc/mod.rs
index cabb5db..fe2ce52 100644
--- a/vxi11/src/common/onc_rpc/mod.rs
+++ b/vxi11/src/common/onc_rpc/mod.rs
@@ -9,7 +9,7 @@ use async_std::net::{TcpStream, UdpSocket};
 use async_trait::async_trait;
 
 use self::record::{read_record, write_record};
-use futures::{AsyncRead, AsyncWrite};
+use futures::{AsyncRead, AsyncWrite, AsyncWriteExt};
 
 mod record;
 mod xdr;
@@ -313,6 +313,9 @@ pub(crate) struct StreamRpcClient<IO> {
     prog: u32,
     vers: u32,
     io: IO,
+    // Record being sent and how much of it was
+    record: Vec<u8>,
+    sent: usize,
 }
 
 impl<IO> StreamRpcClient<IO> {
@@ -322,6 +325,8 @@ impl<IO> StreamRpcClient<IO> {
             io,
             prog,
             vers,
+            record: Vec::new(),
+            sent: 0,
         }
     }
 }
@@ -330,6 +335,28 @@ impl<IO> StreamRpcClient<IO>
 where
     IO: AsyncRead + AsyncWrite + Unpin,
 {
+    /// Send a record, after the rest of the last one if sending it was cancelled halfway
+    async fn send_record(&mut self, record: Vec<u8>) -> io::Result<()> {
+        if self.sent > 0 {
+            self.finish_record().await?;
+        }
+        self.record.clear();
+        write_record(&mut self.record, record).await?;
+        self.finish_record().await
+    }
+
+    async fn finish_record(&mut self) -> io::Result<()> {
+        while self.sent < self.record.len() {
+            match self.io.write(&self.record[self.sent..]).await? {
+                0 => return Err(io::ErrorKind::WriteZero.into()),
+                n => self.sent += n,
+            }
+        }
+        self.record.clear();
+        self.sent = 0;
+        Ok(())
+    }
+
     /// Call the null procedure of program/version
     pub(crate) async fn null(&mut self) -> Result<(), RpcError> {
         self.call(0, ()).await
@@ -354,7 +381,7 @@ where
         let msg = xdr::RpcMessage::call(self.xid, self.prog, self.vers, proc);
         msg.write_xdr(&mut args_cursor)?;
         args.write_xdr(&mut args_cursor)?;
-        write_record(&mut self.io, args_cursor.into_inner()).await?;
+        self.send_record(args_cursor.into_inner()).await?;
 
         // Read response, ignoring anything which is not a reply to this call
         let (reply, mut ret_cursor) = loop {
@@ -424,7 +451,7 @@ where
         let msg = xdr::RpcMessage::call(self.xid, self.prog, self.vers, proc);
         msg.write_xdr(&mut args_cursor)?;
         args.write_xdr(&mut args_cursor)?;
-        write_record(&mut self.io, args_cursor.into_inner()).await?;
+        self.send_record(args_cursor.into_inner()).await?;
 
         Ok(())
     }
-- 
2.43.0


From 20647673773081e3aea533a7169604f46c792f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:22 +0000
Subject: [PATCH 46/46] fix: receive replies of any size over UDP

Replies longer than 1024 bytes were cut off and reported as an error.
---
 vxi11/src/common/onc_rpc/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vxi11/src/common/onc_rpc/mod.rs b/vxi11/src/common/onc_rpc/mod.rs
index fe2ce52..c8925ab 100644
--- a/vxi11/src/common/onc_rpc/mod.rs
+++ b/vxi11/src/common/onc_rpc/mod.rs
@@ -234,7 +234,7 @@ impl UdpRpcClient {
 
         // Read response, ignoring anything which is not a reply to this call
         let (reply, mut ret_cursor) = loop {
-            let mut buf = vec![0; 1024];
+            let mut buf = vec![0; 65536];
             let n = self.socket.recv(&mut buf).await?;
             buf.truncate(n);
             let mut ret_cursor = Cursor::new(buf);
-- 
2.43.0

