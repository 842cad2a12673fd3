From acc1904281d27b535ec3c2ff241be4083e51e01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:34 +0000
Subject: [PATCH 01/25] fix: reject malformed and oversized pkt-line headers

The characters ':' and 'g' are not hexadecimal digits, and no packet may
be longer than 65520 bytes.
---
 scutiger-core/src/pktline.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/scutiger-core/src/pktline.rs b/scutiger-core/src/pktline.rs
index 21ef9b9..49300da 100644
--- a/scutiger-core/src/pktline.rs
+++ b/scutiger-core/src/pktline.rs
@@ -95,6 +95,9 @@ impl<R: io::Read> Reader<R> {
             0 => Ok(Packet::new(PacketType::Flush, b"")),
             1 => Ok(Packet::new(PacketType::Delim, b"")),
             2 | 3 => Err(Error::new_simple(ErrorKind::BadPktlineHeader)),
+            n if n > Self::MAX_PACKET_LEN + 4 => {
+                Err(Error::new_simple(ErrorKind::BadPktlineHeader))
+            }
             _ => {
                 let mut v = vec![0u8; size - 4];
                 self.rdr.read_exact(&mut v)?;
@@ -109,8 +112,8 @@ impl<R: io::Read> Reader<R> {
             .enumerate()
             .map(|(i, x)| {
                 let v = match *x {
-                    b'0'...b':' => x - b'0',
-                    b'a'...b'g' => x - b'a' + 10,
+                    b'0'...b'9' => x - b'0',
+                    b'a'...b'f' => x - b'a' + 10,
                     _ => return Err(Error::new_simple(ErrorKind::BadPktlineHeader)),
                 };
                 Ok((v as u16) << ((3 - i) * 4))
-- 
2.43.0


From 7304851985767b560ddd8c390cd291334dbf461c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:35 +0000
Subject: [PATCH 02/25] fix: report a stream cut off inside a packet as an
 error

Only the end of the stream between packets is a regular end.
---
 scutiger-core/src/pktline.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/scutiger-core/src/pktline.rs b/scutiger-core/src/pktline.rs
index 49300da..41fc9af 100644
--- a/scutiger-core/src/pktline.rs
+++ b/scutiger-core/src/pktline.rs
@@ -87,9 +87,24 @@ impl<R: io::Read> Reader<R> {
         }
     }
 
+    /// Fill `buf` with data from the middle of a packet.
+    ///
+    /// The end of the stream here is an error in the data, not a regular end of the stream.
+    fn read_inside(rdr: &mut R, buf: &mut [u8]) -> Result<(), Error> {
+        match rdr.read_exact(buf) {
+            Ok(()) => Ok(()),
+            Err(ref e) if e.kind() == io::ErrorKind::UnexpectedEof => Err(Error::from_message(
+                ErrorKind::InvalidPacket,
+                "stream ended inside a packet",
+            )),
+            Err(e) => Err(e.into()),
+        }
+    }
+
     pub fn read_packet(&mut self) -> Result<Packet, Error> {
         let mut hdr = [0u8; 4];
-        self.rdr.read_exact(&mut hdr)?;
+        self.rdr.read_exact(&mut hdr[0..1])?;
+        Self::read_inside(&mut self.rdr, &mut hdr[1..])?;
         let size = Self::parse_header(hdr)? as usize;
         match size {
             0 => Ok(Packet::new(PacketType::Flush, b"")),
@@ -100,7 +115,7 @@ impl<R: io::Read> Reader<R> {
             }
             _ => {
                 let mut v = vec![0u8; size - 4];
-                self.rdr.read_exact(&mut v)?;
+                Self::read_inside(&mut self.rdr, &mut v)?;
                 Ok(Packet::new_from_vec(PacketType::Data(size - 4), v))
             }
         }
-- 
2.43.0


From 9c6e627cb9d9aa99b236f0dac306b73ff2a625e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:37 +0000
Subject: [PATCH 03/25] fix: lose no pkt-line data on empty reads and oversized
 packets

A read into an empty buffer dropped the buffered packet, and write_packet
wrote packets longer than the protocol permits.
---
 scutiger-core/src/pktline.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/scutiger-core/src/pktline.rs b/scutiger-core/src/pktline.rs
index 41fc9af..552a5df 100644
--- a/scutiger-core/src/pktline.rs
+++ b/scutiger-core/src/pktline.rs
@@ -144,6 +144,9 @@ impl<R: io::Read> Reader<R> {
 
 impl<R: io::Read> io::Read for Reader<R> {
     fn read(&mut self, buf: &mut [u8]) -> Result<usize, io::Error> {
+        if buf.is_empty() {
+            return Ok(0);
+        }
         let n = cmp::min(self.len - self.off, buf.len());
         if n > 0 {
             buf[0..n].copy_from_slice(&self.buf[self.off..self.off + n]);
@@ -192,6 +195,9 @@ impl<W: io::Write> Writer<W> {
     }
 
     fn write_one(writer: &mut W, buf: &[u8]) -> Result<usize, Error> {
+        if buf.len() > Self::MAX_PACKET_LEN {
+            return Err(Error::new_simple(ErrorKind::InvalidPacket));
+        }
         let header = format!("{:04x}", buf.len() + 4);
         writer.write_all(header.as_bytes())?;
         writer.write_all(buf)?;
-- 
2.43.0


From 22ab648776604f11fbb14f1f36c1768ee73c6710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:20 +0000
Subject: [PATCH 04/25] fix: keep requests in step after a failed request

A request that was refused before it was read completely, or whose data
could not be stored, left the rest of it to be interpreted as further
requests.  Read every request up to its flush packet before answering it,
never act on a request that is missing its flush packet, and give up when
the end of a request cannot be found.
---
 scutiger-core/src/pktline.rs  | 36 +++++++++++++++++++++++++++++++++
 scutiger-lfs/src/processor.rs | 38 ++++++++++++++++++++++++-----------
 2 files changed, 62 insertions(+), 12 deletions(-)

diff --git a/scutiger-core/src/pktline.rs b/scutiger-core/src/pktline.rs
index 552a5df..7ffda7d 100644
--- a/scutiger-core/src/pktline.rs
+++ b/scutiger-core/src/pktline.rs
@@ -55,6 +55,8 @@ pub struct Reader<R: io::Read> {
     buf: [u8; 65536],
     off: usize,
     len: usize,
+    // The type of the last packet read, or `None` if there was none or reading it failed.
+    last: Option<PacketType>,
 }
 
 impl<R: io::Read> Reader<R> {
@@ -66,6 +68,33 @@ impl<R: io::Read> Reader<R> {
             buf: [0u8; 65536],
             off: 0,
             len: 0,
+            last: None,
+        }
+    }
+
+    /// Return the type of the last packet read, or `None` if there was none or reading it failed.
+    pub fn last_packet_type(&self) -> Option<PacketType> {
+        self.last
+    }
+
+    /// Discard everything up to and including the next flush packet.
+    ///
+    /// If the last packet read was a flush packet, this discards nothing.  If reading it failed,
+    /// there is no telling where the next packet starts, and this is an error.
+    pub fn skip_to_flush(&mut self) -> Result<(), Error> {
+        self.off = 0;
+        self.len = 0;
+        loop {
+            match self.last {
+                Some(PacketType::Flush) => return Ok(()),
+                Some(_) => self.read_packet()?,
+                None => {
+                    return Err(Error::from_message(
+                        ErrorKind::InvalidPacket,
+                        "unable to find the end of the request",
+                    ))
+                }
+            };
         }
     }
 
@@ -102,6 +131,12 @@ impl<R: io::Read> Reader<R> {
     }
 
     pub fn read_packet(&mut self) -> Result<Packet, Error> {
+        let pkt = self.read_any_packet();
+        self.last = pkt.as_ref().ok().map(|p| p.packet_type());
+        pkt
+    }
+
+    fn read_any_packet(&mut self) -> Result<Packet, Error> {
         let mut hdr = [0u8; 4];
         self.rdr.read_exact(&mut hdr[0..1])?;
         Self::read_inside(&mut self.rdr, &mut hdr[1..])?;
@@ -164,6 +199,7 @@ impl<R: io::Read> io::Read for Reader<R> {
             } else {
                 (Self::read_one(&mut self.rdr, &mut self.buf), true)
             };
+            self.last = r.as_ref().ok().copied();
             let n = match (r, copy) {
                 (Ok(PacketType::Delim), _) => return Ok(0),
                 (Ok(PacketType::Flush), _) => return Ok(0),
diff --git a/scutiger-lfs/src/processor.rs b/scutiger-lfs/src/processor.rs
index 220acaf..52f7075 100644
--- a/scutiger-lfs/src/processor.rs
+++ b/scutiger-lfs/src/processor.rs
@@ -108,14 +108,15 @@ impl<R: io::Read, W: io::Write> PktLineHandler<R, W> {
     }
 
     pub fn read_to_type(&mut self, typ: pktline::PacketType) -> Result<Vec<Bytes>, Error> {
-        self.rdr
-            .iter()
-            .take_while(|pkt| match pkt {
-                Ok(pkt) if pkt.packet_type() == typ => false,
-                _ => true,
-            })
-            .map(|pkt| pkt.map(|p| p.data().unwrap_or(b"").into()))
-            .collect()
+        let mut data = Vec::new();
+        loop {
+            let pkt = self.rdr.read_packet()?;
+            match pkt.data() {
+                Some(bs) => data.push(bs.into()),
+                None if pkt.packet_type() == typ => return Ok(data),
+                None => return Err(Error::new_simple(ErrorKind::UnexpectedPacket)),
+            }
+        }
     }
 
     pub fn read_to_delim(&mut self) -> Result<Vec<Bytes>, Error> {
@@ -493,6 +494,9 @@ impl<'a, R: io::Read, W: io::Write> Processor<'a, R, W> {
                 format!("expected oid {}, got {}", oid, actual_oid),
             ));
         }
+        if self.handler.rdr.last_packet_type() != Some(pktline::PacketType::Flush) {
+            return Err(Error::new_simple(ErrorKind::UnexpectedPacket));
+        }
         self.backend.finish_upload(state)?;
         Ok(Status::success())
     }
@@ -665,6 +669,7 @@ impl<'a, R: io::Read, W: io::Write> Processor<'a, R, W> {
             };
             let msgs: Vec<_> = match pkt.data() {
                 Some(b"") => {
+                    self.handler.rdr.skip_to_flush()?;
                     self.handler.send_error(400, "no command provided")?;
                     continue;
                 }
@@ -677,10 +682,12 @@ impl<'a, R: io::Read, W: io::Write> Processor<'a, R, W> {
                     bs.split(|&b| b == b' ').collect()
                 }
                 None => {
+                    self.handler.rdr.skip_to_flush()?;
                     self.handler.send_error(400, "unknown command")?;
                     continue;
                 }
             };
+            let quit = msgs == [b"quit"];
             let resp = match (msgs[0], msgs.get(1), mode) {
                 (b"version", Some(&b"1"), _) => self.version(),
                 (b"version", _, _) => self.error(400, "unknown version"),
@@ -696,12 +703,15 @@ impl<'a, R: io::Read, W: io::Write> Processor<'a, R, W> {
                 (b"list-lock", None, Mode::Download) => self.list_locks(false),
                 (b"list-lock", None, Mode::Upload) => self.list_locks(true),
                 (b"unlock", Some(id), Mode::Upload) => self.unlock(id),
-                (b"quit", None, _) => {
-                    self.handler.send_status(Status::success())?;
-                    return Ok(());
-                }
+                (b"quit", None, _) => Ok(Status::success()),
                 (_, _, _) => self.error(400, "unknown command"),
             };
+            // Whatever became of the request, the next one starts after its flush packet.
+            let framing = self.handler.rdr.skip_to_flush();
+            let resp = match framing {
+                Ok(()) => resp,
+                Err(ref e) => resp.and_then(|_| self.error(400, &format!("error: {}", e))),
+            };
             match resp {
                 Ok(st) => self.handler.send_status(st),
                 Err(e) => match e.kind() {
@@ -724,6 +734,10 @@ impl<'a, R: io::Read, W: io::Write> Processor<'a, R, W> {
                     )),
                 },
             }?;
+            framing?;
+            if quit {
+                return Ok(());
+            }
         }
     }
 }
-- 
2.43.0


From f64157ed5ace29586feff94ec77dc19a8a89dbe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:40 +0000
Subject: [PATCH 05/25] fix: retry a lock whose contender disappears instead of
 panicking

---
 scutiger-lfs/src/processor.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/scutiger-lfs/src/processor.rs b/scutiger-lfs/src/processor.rs
index 52f7075..6a121c3 100644
--- a/scutiger-lfs/src/processor.rs
+++ b/scutiger-lfs/src/processor.rs
@@ -348,6 +348,8 @@ pub struct Processor<'a, R: io::Read, W: io::Write> {
 }
 
 impl<'a, R: io::Read, W: io::Write> Processor<'a, R, W> {
+    const LOCK_ATTEMPTS: usize = 100;
+
     pub fn new(handler: PktLineHandler<R, W>, backend: Box<dyn Backend + 'a>) -> Self {
         Processor { handler, backend }
     }
@@ -542,16 +544,13 @@ impl<'a, R: io::Read, W: io::Write> Processor<'a, R, W> {
             }
         };
         let lock_backend = self.backend.lock_backend();
-        let mut retried = false;
-        while !retried {
+        // If the lock that is in our way is gone when we look for it, try again.
+        for _ in 0..Self::LOCK_ATTEMPTS {
             let (ok, lock) = match lock_backend.create(path) {
                 Ok(l) => (true, l),
                 Err(e) if e.kind() == ErrorKind::Conflict => match lock_backend.from_path(path) {
                     Ok(Some(l)) => (false, l),
-                    Ok(None) => {
-                        retried = true;
-                        continue;
-                    }
+                    Ok(None) => continue,
                     Err(e) => return Err(e),
                 },
                 Err(e) => return Err(e),
@@ -566,7 +565,7 @@ impl<'a, R: io::Read, W: io::Write> Processor<'a, R, W> {
                 ))
             };
         }
-        unreachable!()
+        Err(Error::new_simple(ErrorKind::Conflict))
     }
 
     fn list_locks_for_path(
-- 
2.43.0


From d366e556e1edbeee6854fcec73da5f616482d82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:05 +0000
Subject: [PATCH 06/25] fix: give every session its own temporary lock file

All sessions that wanted a lock on the same path shared one temporary
file.  A session that found it in use removed it from under its owner, and
one left behind by a killed session blocked the path forever and showed up
as a lock.
---
 scutiger-lfs/src/backend/local.rs | 50 +++++++++++++------------------
 1 file changed, 20 insertions(+), 30 deletions(-)

diff --git a/scutiger-lfs/src/backend/local.rs b/scutiger-lfs/src/backend/local.rs
index 9ec1dbb..59d71ba 100644
--- a/scutiger-lfs/src/backend/local.rs
+++ b/scutiger-lfs/src/backend/local.rs
@@ -140,49 +140,46 @@ impl<'a> Backend for LocalBackend<'a> {
     fn lock_backend<'b>(&'b self) -> Box<dyn LockBackend + 'b> {
         let mut buf = PathBuf::from(self.lfs_path);
         buf.push("locks");
+        let mut temp = PathBuf::from(self.lfs_path);
+        temp.push("tmp");
         Box::new(LocalLockBackend {
             backend: self,
             lock_path: buf,
+            temp_path: temp,
         })
     }
 }
 
 struct LockFile {
     path: PathBuf,
-    temp: PathBuf,
+    temp: NamedTempFile,
 }
 
 impl LockFile {
-    fn new(path: &Path) -> Result<LockFile, Error> {
-        let mut temp = path.to_owned();
-        temp.set_extension("lock");
+    /// Creates a lock file to be persisted at `path`.
+    ///
+    /// Until then, it lives in `temp_path` under a name that no other session uses.
+    fn new(path: &Path, temp_path: &Path) -> Result<LockFile, Error> {
+        let temp = Builder::new()
+            .prefix("lock")
+            .rand_bytes(12)
+            .make_in(temp_path, |p| {
+                fs::OpenOptions::new().write(true).create_new(true).open(p)
+            })?;
         Ok(LockFile {
             path: path.to_owned(),
             temp,
         })
     }
 
-    fn write(&self, data: &[u8]) -> Result<(), Error> {
-        let mut f = match fs::OpenOptions::new()
-            .write(true)
-            .create_new(true)
-            .open(&self.temp)
-        {
-            Ok(f) => f,
-            Err(e) if e.kind() == io::ErrorKind::AlreadyExists => {
-                return Err(Error::new_simple(ErrorKind::Conflict))
-            }
-            Err(e) => return Err(e.into()),
-        };
-        f.write_all(data)?;
-        f.flush()?;
-        drop(f);
+    fn write(&mut self, data: &[u8]) -> Result<(), Error> {
+        self.temp.write_all(data)?;
+        self.temp.flush()?;
         Ok(())
     }
 
-    #[allow(unused_must_use)]
     fn persist(self) -> Result<(), Error> {
-        match fs::hard_link(&self.temp, &self.path) {
+        match fs::hard_link(self.temp.path(), &self.path) {
             Ok(()) => Ok(()),
             Err(e) if e.kind() == io::ErrorKind::AlreadyExists => {
                 Err(Error::new_simple(ErrorKind::Conflict))
@@ -192,14 +189,6 @@ impl LockFile {
     }
 }
 
-impl Drop for LockFile {
-    #[allow(unused_must_use)]
-    fn drop(&mut self) {
-        // We don't care if the file removal failed.  We did the best we could.
-        fs::remove_file(&self.temp);
-    }
-}
-
 struct LocalBackendLock {
     root: PathBuf,
     path_name: Bytes,
@@ -298,6 +287,7 @@ impl Lock for LocalBackendLock {
 struct LocalLockBackend<'a> {
     backend: &'a LocalBackend<'a>,
     lock_path: PathBuf,
+    temp_path: PathBuf,
 }
 
 impl<'a> LocalLockBackend<'a> {
@@ -333,7 +323,7 @@ impl<'a> LockBackend for LocalLockBackend<'a> {
         b.extend_from_slice(path);
         let mut filename = self.lock_path.clone();
         filename.push(id);
-        let lock = LockFile::new(&filename)?;
+        let mut lock = LockFile::new(&filename, &self.temp_path)?;
         lock.write(&b)?;
         lock.persist()?;
         let user = Self::user_for_file(&filename).unwrap_or_else(|_| "unknown".into());
-- 
2.43.0


From a951c5adef154f7cc6547a53c82d27e05ef862c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:07 +0000
Subject: [PATCH 07/25] fix: use only valid lock IDs as file names

The ID in an unlock request was used as a path relative to the lock
directory, so that it could name any file, and unlocking a damaged lock
removed the lock of the path that it mentions instead.
---
 scutiger-lfs/src/backend/local.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/scutiger-lfs/src/backend/local.rs b/scutiger-lfs/src/backend/local.rs
index 59d71ba..4808b1d 100644
--- a/scutiger-lfs/src/backend/local.rs
+++ b/scutiger-lfs/src/backend/local.rs
@@ -207,6 +207,12 @@ impl LocalBackendLock {
         hex::encode(hash.finalize())
     }
 
+    /// Returns whether this is the ID of some lock and thus safe to use as a file name.
+    fn valid_id(id: &str) -> bool {
+        // Like object IDs, lock IDs are lowercase hex SHA-256 values.
+        Oid::valid(id.as_bytes())
+    }
+
     fn parse(data: Vec<u8>) -> Option<(i64, Bytes)> {
         let v: Vec<Vec<u8>> = data.splitn(3, |&x| x == b':').map(|x| x.into()).collect();
         if v.len() != 3 || v[0] != Self::VERSION.as_bytes() {
@@ -353,6 +359,9 @@ impl<'a> LockBackend for LocalLockBackend<'a> {
     }
 
     fn from_id(&self, id: &str) -> Result<Option<Box<dyn Lock>>, Error> {
+        if !LocalBackendLock::valid_id(id) {
+            return Ok(None);
+        }
         let mut filename = self.lock_path.clone();
         filename.push(id);
         let mut f = match fs::OpenOptions::new().read(true).open(&filename) {
@@ -364,8 +373,8 @@ impl<'a> LockBackend for LocalLockBackend<'a> {
         f.read_to_end(&mut v)?;
         let user = Self::user_for_file(&filename).unwrap_or_else(|_| "unknown".into());
         let (time, parsed_path) = match LocalBackendLock::parse(v) {
-            Some(x) => x,
-            None => {
+            Some((time, path)) if LocalBackendLock::hash_for(&path) == id => (time, path),
+            _ => {
                 return Err(Error::from_message(
                     ErrorKind::CorruptData,
                     "invalid parsed lock",
-- 
2.43.0


From 2cd05b712bcb57bec29a89ca89771ab098f9b3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:08 +0000
Subject: [PATCH 08/25] fix: report errors while listing locks

A lock that could not be read was left out as if it did not exist.
---
 scutiger-lfs/src/backend/local.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scutiger-lfs/src/backend/local.rs b/scutiger-lfs/src/backend/local.rs
index 4808b1d..3d0bc42 100644
--- a/scutiger-lfs/src/backend/local.rs
+++ b/scutiger-lfs/src/backend/local.rs
@@ -444,7 +444,9 @@ impl<'a> Iterator for LockSetIterator<'a> {
                     let filename = filename.to_string_lossy();
                     match self.backend.from_id(&filename) {
                         Ok(Some(l)) => return Some(Ok(l)),
-                        _ => continue,
+                        Ok(None) => continue,
+                        Err(e) if e.kind() == ErrorKind::CorruptData => continue,
+                        Err(e) => return Some(Err(e)),
                     };
                 }
                 None
-- 
2.43.0


From bb6bf25c65fa54a9e6a245cdfbea90d7d34635c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:37 +0000
Subject: [PATCH 09/25] fix: describe a new lock by its own record

The time in the answer to a lock request was taken separately from the
time in the lock and could differ, and the owner was looked up by path,
where another user's lock may have taken its place.
---
 scutiger-lfs/src/backend/local.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/scutiger-lfs/src/backend/local.rs b/scutiger-lfs/src/backend/local.rs
index 3d0bc42..7f4a896 100644
--- a/scutiger-lfs/src/backend/local.rs
+++ b/scutiger-lfs/src/backend/local.rs
@@ -307,14 +307,14 @@ impl<'a> LocalLockBackend<'a> {
     }
 
     #[cfg(windows)]
-    fn user_for_file(path: &Path) -> Result<String, Error> {
+    fn user_for_file(_file: &fs::File) -> Result<String, Error> {
         Ok("unknown".into())
     }
 
     #[cfg(unix)]
-    fn user_for_file(path: &Path) -> Result<String, Error> {
+    fn user_for_file(file: &fs::File) -> Result<String, Error> {
         use std::os::unix::fs::MetadataExt;
-        let st = fs::metadata(path)?;
+        let st = file.metadata()?;
         match passwd::Passwd::from_uid(st.uid()) {
             Some(pwd) => Ok(pwd.name),
             None => Ok(format!("uid {}", st.uid())),
@@ -325,18 +325,19 @@ impl<'a> LocalLockBackend<'a> {
 impl<'a> LockBackend for LocalLockBackend<'a> {
     fn create(&self, path: &Bytes) -> Result<Box<dyn Lock>, Error> {
         let id = LocalBackendLock::hash_for(path);
-        let mut b: BytesMut = format!("{}:{}:", LocalBackendLock::VERSION, self.timestamp()).into();
+        let time = self.timestamp();
+        let mut b: BytesMut = format!("{}:{}:", LocalBackendLock::VERSION, time).into();
         b.extend_from_slice(path);
         let mut filename = self.lock_path.clone();
         filename.push(id);
         let mut lock = LockFile::new(&filename, &self.temp_path)?;
         lock.write(&b)?;
+        let user = Self::user_for_file(lock.temp.as_file())?;
         lock.persist()?;
-        let user = Self::user_for_file(&filename).unwrap_or_else(|_| "unknown".into());
         Ok(Box::new(LocalBackendLock {
             root: self.lock_path.clone(),
             path_name: path.clone(),
-            time: self.timestamp(),
+            time,
             ownername: user,
         }))
     }
@@ -371,7 +372,7 @@ impl<'a> LockBackend for LocalLockBackend<'a> {
         };
         let mut v = Vec::new();
         f.read_to_end(&mut v)?;
-        let user = Self::user_for_file(&filename).unwrap_or_else(|_| "unknown".into());
+        let user = Self::user_for_file(&f)?;
         let (time, parsed_path) = match LocalBackendLock::parse(v) {
             Some((time, path)) if LocalBackendLock::hash_for(&path) == id => (time, path),
             _ => {
-- 
2.43.0


From 6ac04cacf34f09e68346f6a04ed85af2c80da71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:39 +0000
Subject: [PATCH 10/25] fix: treat locks with an impossible time as corrupt
 instead of panicking

---
 scutiger-lfs/src/backend/local.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scutiger-lfs/src/backend/local.rs b/scutiger-lfs/src/backend/local.rs
index 7f4a896..a4f368b 100644
--- a/scutiger-lfs/src/backend/local.rs
+++ b/scutiger-lfs/src/backend/local.rs
@@ -220,6 +220,8 @@ impl LocalBackendLock {
         }
         let s: String = String::from_utf8(v[1].clone()).ok()?;
         let time = s.parse().ok()?;
+        // Times that cannot be represented occur only in damaged locks.
+        Utc.timestamp_opt(time, 0).single()?;
         Some((time, v[2].clone().into()))
     }
 
-- 
2.43.0


From a28ee4f79a2fa2a7bb59c1822da2cd19b77231e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:41 +0000
Subject: [PATCH 11/25] fix: list no more locks per page than requested

The lock that next-cursor names was part of the page before it, too.
---
 scutiger-lfs/src/processor.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/scutiger-lfs/src/processor.rs b/scutiger-lfs/src/processor.rs
index 6a121c3..2a5a721 100644
--- a/scutiger-lfs/src/processor.rs
+++ b/scutiger-lfs/src/processor.rs
@@ -617,8 +617,11 @@ impl<'a, R: io::Read, W: io::Write> Processor<'a, R, W> {
             .take(limit + 1)
             .collect();
         let items = r?;
-        let lock_specs: Result<Vec<_>, _> =
-            items.iter().map(|l| l.as_lock_spec(use_owner_id)).collect();
+        let lock_specs: Result<Vec<_>, _> = items
+            .iter()
+            .take(limit)
+            .map(|l| l.as_lock_spec(use_owner_id))
+            .collect();
         let lock_specs = lock_specs?.iter().flatten().cloned().collect();
         let next_cursor: Vec<Bytes> = if items.len() == limit + 1 {
             vec![format!("next-cursor={}\n", items[limit].id()).into()]
-- 
2.43.0


From 66b77c62a542a03beb875583709c8d77c9498445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:42 +0000
Subject: [PATCH 12/25] fix: set the permissions of an object before it becomes
 visible

Otherwise, other users cannot read it for a moment, or ever, if the
session is killed in between.
---
 scutiger-lfs/src/backend/local.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/scutiger-lfs/src/backend/local.rs b/scutiger-lfs/src/backend/local.rs
index a4f368b..4071a67 100644
--- a/scutiger-lfs/src/backend/local.rs
+++ b/scutiger-lfs/src/backend/local.rs
@@ -94,14 +94,11 @@ impl<'a> Backend for LocalBackend<'a> {
         if let Some(parent) = dest_path.parent() {
             fs::create_dir_all(parent)?;
         }
-        state
-            .tempfile
-            .take()
-            .unwrap()
-            .into_temp_path()
+        let temp_path = state.tempfile.take().unwrap().into_temp_path();
+        self.fix_permissions(&temp_path)?;
+        temp_path
             .persist(&dest_path)
             .map_err(|e| Error::new(ErrorKind::IOError, Some(e)))?;
-        self.fix_permissions(&dest_path)?;
         Ok(())
     }
 
-- 
2.43.0


From 535de46b810f3ca0cf5c1b36f3f2432aaba80f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:44 +0000
Subject: [PATCH 13/25] fix: report errors when looking up objects for a batch

An object that could not be examined was reported as missing.
---
 scutiger-lfs/src/backend/local.rs |  2 +-
 scutiger-lfs/src/processor.rs     | 10 +++++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/scutiger-lfs/src/backend/local.rs b/scutiger-lfs/src/backend/local.rs
index 4071a67..2dd3079 100644
--- a/scutiger-lfs/src/backend/local.rs
+++ b/scutiger-lfs/src/backend/local.rs
@@ -53,7 +53,7 @@ impl<'a> Backend for LocalBackend<'a> {
     fn batch(&mut self, _mode: Mode, oids: &[(Oid, u64)]) -> Result<Vec<BatchItem>, Error> {
         oids.iter()
             .map(|(oid, batch_size)| {
-                let maybe_size = oid.size_at_path(self.lfs_path);
+                let maybe_size = oid.size_at_path(self.lfs_path)?;
                 Ok(BatchItem {
                     oid: oid.clone(),
                     size: maybe_size.unwrap_or(*batch_size),
diff --git a/scutiger-lfs/src/processor.rs b/scutiger-lfs/src/processor.rs
index 2a5a721..45742f3 100644
--- a/scutiger-lfs/src/processor.rs
+++ b/scutiger-lfs/src/processor.rs
@@ -231,9 +231,13 @@ impl Oid {
     }
 
     /// Returns `Some(size)`, where `size` is the size of the file if the object with this ID
-    /// exists a the given path, which should be a `.git/lfs` directory, or `None` otherwise.
-    pub fn size_at_path(&self, path: &Path) -> Option<u64> {
-        self.expected_path(path).metadata().ok().map(|x| x.len())
+    /// exists a the given path, which should be a `.git/lfs` directory, or `None` if it does not.
+    pub fn size_at_path(&self, path: &Path) -> Result<Option<u64>, Error> {
+        match self.expected_path(path).metadata() {
+            Ok(x) => Ok(Some(x.len())),
+            Err(e) if e.kind() == io::ErrorKind::NotFound => Ok(None),
+            Err(e) => Err(e.into()),
+        }
     }
 }
 
-- 
2.43.0


From 4f8b7d6476b67c535e942e073b06f6c712d206ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:00 +0000
Subject: [PATCH 14/25] fix: understand octal values of core.sharedRepository

libgit2 takes any number other than 0 for a true boolean, so that modes
like 0640 or 0664 and the value 2 (everybody) were all taken for group.
---
 scutiger-lfs/src/bin/git-lfs-transfer.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/scutiger-lfs/src/bin/git-lfs-transfer.rs b/scutiger-lfs/src/bin/git-lfs-transfer.rs
index 4465818..9daabec 100644
--- a/scutiger-lfs/src/bin/git-lfs-transfer.rs
+++ b/scutiger-lfs/src/bin/git-lfs-transfer.rs
@@ -98,13 +98,15 @@ impl<'p> Program<'p> {
         let config = self.repo.config()?;
         let sval = config.get_string("core.sharedrepository");
         let tval = sval.as_ref().map(|s| s.as_str());
+        let mode = tval.ok().and_then(|x| u16::from_str_radix(x, 8).ok());
         let perms = match (config.get_bool("core.sharedrepository"), tval) {
+            // As in Git, 0, 1 and 2 stand for umask, group and everybody, and anything else made up
+            // of octal digits is a mode and not a boolean.
+            _ if mode == Some(2) => Some(0o664),
+            _ if mode > Some(2) => mode,
             (Ok(true), _) | (_, Ok("group")) => Some(0o660),
             (Ok(false), _) | (_, Ok("umask")) => None,
             (_, Ok("all")) | (_, Ok("world")) | (_, Ok("everybody")) => Some(0o664),
-            (_, Ok(x)) if u16::from_str_radix(x, 8).is_ok() => {
-                Some(u16::from_str_radix(x, 8).unwrap())
-            }
             (_, Err(e)) if e.code() == git2::ErrorCode::NotFound => None,
             (_, Err(e)) => return Err(git2::Error::new(e.code(), e.class(), e.message()).into()),
             _ => None,
-- 
2.43.0


From eb734cafd88406148bf85862f47808d02b0f5a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:02 +0000
Subject: [PATCH 15/25] fix: refuse locks on paths too long for list-lock

The path did not fit into one packet and continued in the next, where it
was taken for another line.
---
 scutiger-lfs/src/processor.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/scutiger-lfs/src/processor.rs b/scutiger-lfs/src/processor.rs
index 45742f3..d2a9c4d 100644
--- a/scutiger-lfs/src/processor.rs
+++ b/scutiger-lfs/src/processor.rs
@@ -353,6 +353,8 @@ pub struct Processor<'a, R: io::Read, W: io::Write> {
 
 impl<'a, R: io::Read, W: io::Write> Processor<'a, R, W> {
     const LOCK_ATTEMPTS: usize = 100;
+    // The line "path ID PATH" in the answer to list-lock must fit into a packet.
+    const MAX_LOCK_PATH_LEN: usize = 65516 - "path ".len() - 64 - " ".len() - "\n".len();
 
     pub fn new(handler: PktLineHandler<R, W>, backend: Box<dyn Backend + 'a>) -> Self {
         Processor { handler, backend }
@@ -547,6 +549,12 @@ impl<'a, R: io::Read, W: io::Write> Processor<'a, R, W> {
                 ))
             }
         };
+        if path.len() > Self::MAX_LOCK_PATH_LEN {
+            return Err(Error::from_message(
+                ErrorKind::NotAllowed,
+                "path too long to list",
+            ));
+        }
         let lock_backend = self.backend.lock_backend();
         // If the lock that is in our way is gone when we look for it, try again.
         for _ in 0..Self::LOCK_ATTEMPTS {
-- 
2.43.0


From abc6a72210f03ca97265a9698202484892fab682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:23 +0000
Subject: [PATCH 16/25] fix: do not panic when standard error is gone

---
 scutiger-lfs/src/bin/git-lfs-transfer.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/scutiger-lfs/src/bin/git-lfs-transfer.rs b/scutiger-lfs/src/bin/git-lfs-transfer.rs
index 9daabec..552c71d 100644
--- a/scutiger-lfs/src/bin/git-lfs-transfer.rs
+++ b/scutiger-lfs/src/bin/git-lfs-transfer.rs
@@ -157,7 +157,8 @@ impl<'p> Program<'p> {
         match self.main_internal(input, output, error) {
             Ok(()) => ExitStatus::Success as i32,
             Err(e) => {
-                writeln!(error, "{}", e).unwrap();
+                // If this fails, there is nobody left to tell.
+                let _ = writeln!(error, "{}", e);
                 e.exit_status() as i32
             }
         }
-- 
2.43.0


From 99cd79bbbc78833666f0b5024149e5e1c42bdb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:24 +0000
Subject: [PATCH 17/25] fix: sync objects and locks before acknowledging them

After a power loss, an acknowledged object could be empty or missing, and
acknowledged locks could be lost or come back.
---
 scutiger-lfs/src/backend/local.rs | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/scutiger-lfs/src/backend/local.rs b/scutiger-lfs/src/backend/local.rs
index 2dd3079..2d4ea55 100644
--- a/scutiger-lfs/src/backend/local.rs
+++ b/scutiger-lfs/src/backend/local.rs
@@ -44,6 +44,22 @@ impl<'a> LocalBackend<'a> {
     }
 }
 
+/// Makes sure that the changes made to this directory survive a crash.
+///
+/// The errors of this function are not `io::Error`s, so that they are not taken for errors in
+/// making the changes, such as the file not being there.
+#[cfg(unix)]
+fn sync_dir(path: &Path) -> Result<(), Error> {
+    fs::File::open(path)
+        .and_then(|f| f.sync_all())
+        .map_err(|e| Error::new(ErrorKind::IOError, Some(format!("unable to sync: {}", e))))
+}
+
+#[cfg(not(unix))]
+fn sync_dir(_path: &Path) -> Result<(), Error> {
+    Ok(())
+}
+
 pub struct UploadState {
     oid: Oid,
     tempfile: Option<NamedTempFile>,
@@ -94,11 +110,16 @@ impl<'a> Backend for LocalBackend<'a> {
         if let Some(parent) = dest_path.parent() {
             fs::create_dir_all(parent)?;
         }
-        let temp_path = state.tempfile.take().unwrap().into_temp_path();
+        let tempfile = state.tempfile.take().unwrap();
+        tempfile.as_file().sync_all()?;
+        let temp_path = tempfile.into_temp_path();
         self.fix_permissions(&temp_path)?;
         temp_path
             .persist(&dest_path)
             .map_err(|e| Error::new(ErrorKind::IOError, Some(e)))?;
+        if let Some(parent) = dest_path.parent() {
+            sync_dir(parent)?;
+        }
         Ok(())
     }
 
@@ -172,6 +193,7 @@ impl LockFile {
     fn write(&mut self, data: &[u8]) -> Result<(), Error> {
         self.temp.write_all(data)?;
         self.temp.flush()?;
+        self.temp.as_file().sync_all()?;
         Ok(())
     }
 
@@ -243,6 +265,7 @@ impl Lock for LocalBackendLock {
         let mut filename = self.root.clone();
         filename.push(id);
         fs::remove_file(&filename)?;
+        sync_dir(&self.root)?;
         Ok(())
     }
 
@@ -333,6 +356,7 @@ impl<'a> LockBackend for LocalLockBackend<'a> {
         lock.write(&b)?;
         let user = Self::user_for_file(lock.temp.as_file())?;
         lock.persist()?;
+        sync_dir(&self.lock_path)?;
         Ok(Box::new(LocalBackendLock {
             root: self.lock_path.clone(),
             path_name: path.clone(),
-- 
2.43.0


From d4bce074beb32f3e4be264d85f41778cbb1c9e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:40 +0000
Subject: [PATCH 18/25] fix: continue listing locks at the cursor

Bytes 0.4 compares a slice with a Bytes the wrong way around, so that the
next page began with the first lock again or left out locks after the
cursor.
---
 scutiger-lfs/src/processor.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scutiger-lfs/src/processor.rs b/scutiger-lfs/src/processor.rs
index d2a9c4d..08a62dc 100644
--- a/scutiger-lfs/src/processor.rs
+++ b/scutiger-lfs/src/processor.rs
@@ -589,7 +589,7 @@ impl<'a, R: io::Read, W: io::Write> Processor<'a, R, W> {
         match (self.backend.lock_backend().from_path(path), cursor) {
             (Err(e), _) => Err(e),
             (Ok(None), _) => self.error(404, "not found"),
-            (Ok(Some(l)), Some(id)) if l.id().as_bytes() < id => self.error(404, "not found"),
+            (Ok(Some(l)), Some(id)) if l.id().as_bytes() < &id[..] => self.error(404, "not found"),
             (Ok(Some(l)), _) => l.as_lock_spec(use_owner_id).map(Status::new_success),
         }
     }
@@ -623,7 +623,7 @@ impl<'a, R: io::Read, W: io::Write> Processor<'a, R, W> {
             .iter()
             .skip_while(|item| match (item, cursor) {
                 (Err(_), _) => false,
-                (Ok(l), Some(cursor)) => l.id().as_bytes() < cursor,
+                (Ok(l), Some(cursor)) => l.id().as_bytes() < &cursor[..],
                 (Ok(_), None) => false,
             })
             .take(limit + 1)
-- 
2.43.0


From 0e1245598e512b95e4b98a5c119c363e63198302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:19 +0000
Subject: [PATCH 19/25] fix: report a damaged history instead of no match in
 git-at

---
 scutiger-bin/src/bin/git-at.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/scutiger-bin/src/bin/git-at.rs b/scutiger-bin/src/bin/git-at.rs
index 4d3258b..1c84775 100644
--- a/scutiger-bin/src/bin/git-at.rs
+++ b/scutiger-bin/src/bin/git-at.rs
@@ -66,12 +66,22 @@ impl<'a> Program<'a> {
     fn run(&self) -> Result<Oid, Error> {
         let regex = self.pattern(self.text)?;
         let fixup_regex = self.pattern("\\A\\s*(?:fixup|squash)!")?;
-        let head = self.repo.revparse_single(self.head)?;
+        let head = self
+            .repo
+            .revparse_single(self.head)
+            .map_err(|e| match e.class() {
+                // The revision exists, but its object does not.
+                git2::ErrorClass::Odb => Self::fatal(e),
+                _ => Error::from(e),
+            })?;
         let mut walker = self.repo.revwalk()?;
         walker.set_sorting(git2::Sort::from_bits(Self::SORT_TIME).unwrap())?;
-        walker.push(head.id())?;
+        walker.push(head.id()).map_err(Self::fatal)?;
         for rev in walker {
-            let commit = self.repo.find_commit(rev?)?;
+            let commit = self
+                .repo
+                .find_commit(rev.map_err(Self::fatal)?)
+                .map_err(Self::fatal)?;
             let message = commit.message_bytes();
             if !self.fixup && fixup_regex.is_match(message)? {
                 continue;
@@ -83,6 +93,12 @@ impl<'a> Program<'a> {
         Err(Error::new::<git2::Error>(ErrorKind::NoSuchRevision, None))
     }
 
+    /// Turns an error which means that the repository is damaged or cannot be read into a fatal
+    /// one, even if it is that an object could not be found.
+    fn fatal(err: git2::Error) -> Error {
+        Error::new(ErrorKind::GitError, Some(err))
+    }
+
     /// Run this main program and generate output and error codes.
     ///
     /// The program is run (as per `run`) with the specified output and error streams
-- 
2.43.0


From f48b4fba487a5353dd3da0a95db2a39a69b854c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:58 +0000
Subject: [PATCH 20/25] fix: search only the summary with git-at --summary

---
 scutiger-bin/src/bin/git-at.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/scutiger-bin/src/bin/git-at.rs b/scutiger-bin/src/bin/git-at.rs
index 1c84775..8cedc1a 100644
--- a/scutiger-bin/src/bin/git-at.rs
+++ b/scutiger-bin/src/bin/git-at.rs
@@ -64,8 +64,8 @@ impl<'a> Program<'a> {
     /// one occurred. If the Error is due to no revision matching, the kind of the error will be
     /// `ErrorKind::NoSuchRevision`.
     fn run(&self) -> Result<Oid, Error> {
-        let regex = self.pattern(self.text)?;
-        let fixup_regex = self.pattern("\\A\\s*(?:fixup|squash)!")?;
+        let regex = Regex::new(self.text)?;
+        let fixup_regex = Regex::new("\\A\\s*(?:fixup|squash)!")?;
         let head = self
             .repo
             .revparse_single(self.head)
@@ -86,7 +86,7 @@ impl<'a> Program<'a> {
             if !self.fixup && fixup_regex.is_match(message)? {
                 continue;
             }
-            if regex.is_match(message)? {
+            if regex.is_match(self.searched(message))? {
                 return Ok(commit.id());
             }
         }
@@ -133,11 +133,12 @@ impl<'a> Program<'a> {
         }
     }
 
-    fn pattern(&self, pattern: &str) -> Result<Regex, Error> {
+    /// Returns the part of the message in which to search.
+    fn searched<'m>(&self, message: &'m [u8]) -> &'m [u8] {
         if self.summary {
-            return Ok(Regex::new(&format!("\\A[^\n]*{}", pattern))?);
+            return message.split(|&b| b == b'\n').next().unwrap_or(message);
         }
-        Ok(Regex::new(pattern)?)
+        message
     }
 }
 
-- 
2.43.0


From 0e85d5d1865d6dd436dc36df4cdde3cf3ae08f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:34 +0000
Subject: [PATCH 21/25] fix: list every checkout which still resolves in
 git-recent-refs

---
 scutiger-bin/src/bin/git-recent-refs.rs | 35 ++++++++++++++++++-------
 1 file changed, 26 insertions(+), 9 deletions(-)

diff --git a/scutiger-bin/src/bin/git-recent-refs.rs b/scutiger-bin/src/bin/git-recent-refs.rs
index 6db2085..a5faef0 100644
--- a/scutiger-bin/src/bin/git-recent-refs.rs
+++ b/scutiger-bin/src/bin/git-recent-refs.rs
@@ -21,6 +21,7 @@ use git2::{Object, Reference, Repository, Time};
 use scutiger_core::errors::{Error, ExitStatus};
 use std::io;
 use std::process;
+use std::str;
 
 /// The types of sorting that can be provided.
 enum SortKind {
@@ -52,6 +53,27 @@ impl<'p> Program<'p> {
         }
     }
 
+    /// Returns the names of the branches and commits which were checked out before the current
+    /// one, most recent first, whether or not they still exist.
+    fn checkouts(repo: &Repository) -> Vec<String> {
+        let prefix = b"checkout: moving from ";
+        match repo.reflog("HEAD") {
+            Ok(log) => log
+                .iter()
+                .filter_map(|entry| {
+                    let msg = entry.message_bytes()?;
+                    if !msg.starts_with(prefix) {
+                        return None;
+                    }
+                    // Reference names do not contain spaces.
+                    let name = msg[prefix.len()..].split(|&b| b == b' ').next()?;
+                    Some(str::from_utf8(name).ok()?.to_string())
+                })
+                .collect(),
+            Err(_) => vec![],
+        }
+    }
+
     fn commit_date_for(r: &Reference) -> Option<Time> {
         let commit = r.peel_to_commit().ok()?;
         let time = commit.committer().when();
@@ -73,15 +95,10 @@ impl<'p> Program<'p> {
         match self.kind {
             SortKind::Visited => {
                 let chain: Vec<String> = vec!["HEAD".to_string()];
-                let range = 1..;
-                let iter = chain
-                    .into_iter()
-                    .chain(range.map(|i| format!("@{{-{}}}", i)));
-                Ok(Box::new(
-                    iter.map(move |rev| Self::stringify(repo.revparse_ext(&rev).ok()))
-                        .take_while(Option::is_some)
-                        .map(Option::unwrap),
-                ))
+                let iter = chain.into_iter().chain(Self::checkouts(repo));
+                Ok(Box::new(iter.filter_map(move |rev| {
+                    Self::stringify(repo.revparse_ext(&rev).ok())
+                })))
             }
             SortKind::Committed => {
                 let mut refs: Vec<_> = repo
-- 
2.43.0


From e622cd2fe0ac89a3e200814733fe1cc3fa74d068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:32 +0000
Subject: [PATCH 22/25] fix: print directly if the pager is empty

---
 scutiger-bin/src/bin/pager/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scutiger-bin/src/bin/pager/mod.rs b/scutiger-bin/src/bin/pager/mod.rs
index 7f8cfb3..08a6249 100644
--- a/scutiger-bin/src/bin/pager/mod.rs
+++ b/scutiger-bin/src/bin/pager/mod.rs
@@ -36,7 +36,7 @@ impl Pager {
             .or(core_pager)
             .or_else(|| env::var_os("PAGER"))
             .unwrap_or_else(|| "less".into());
-        if pager == "cat" {
+        if pager == "cat" || pager.is_empty() {
             None
         } else {
             Some(pager)
-- 
2.43.0


From dc99baeb22b0b3bc89c7d867b135a4de3b7287f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:34 +0000
Subject: [PATCH 23/25] fix: wait for the pager in git-recent-refs

---
 scutiger-bin/src/bin/git-recent-refs.rs | 4 +++-
 scutiger-bin/src/bin/pager/mod.rs       | 9 +++++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/scutiger-bin/src/bin/git-recent-refs.rs b/scutiger-bin/src/bin/git-recent-refs.rs
index a5faef0..4b11d4d 100644
--- a/scutiger-bin/src/bin/git-recent-refs.rs
+++ b/scutiger-bin/src/bin/git-recent-refs.rs
@@ -204,7 +204,9 @@ fn main() {
     let repo = repo();
     let prog = program(&repo, &matches);
     let mut pager = pager::Pager::new(&repo).expect("unable to spawn pager");
-    process::exit(prog.main(&mut pager.stdout(), &mut io::stderr()));
+    let code = prog.main(&mut pager.stdout(), &mut io::stderr());
+    drop(pager);
+    process::exit(code);
 }
 
 #[cfg(test)]
diff --git a/scutiger-bin/src/bin/pager/mod.rs b/scutiger-bin/src/bin/pager/mod.rs
index 08a6249..30e2551 100644
--- a/scutiger-bin/src/bin/pager/mod.rs
+++ b/scutiger-bin/src/bin/pager/mod.rs
@@ -53,3 +53,12 @@ impl Pager {
             .unwrap_or_else(|| Box::new(io::stdout()))
     }
 }
+
+impl Drop for Pager {
+    /// Ends the pager's input and waits for it, since it still needs the terminal.
+    fn drop(&mut self) {
+        if let Some(ref mut p) = self.process {
+            let _ = p.wait();
+        }
+    }
+}
-- 
2.43.0


From 09f7c3708395378f3748af82142c21e4c7858cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:05 +0000
Subject: [PATCH 24/25] fix: treat a failure to list references as fatal

If the directory of references cannot be read, libgit2 reports that it was
not found, which made git-recent-refs say that it needed a single revision
and exit 1.
---
 scutiger-bin/src/bin/git-recent-refs.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/scutiger-bin/src/bin/git-recent-refs.rs b/scutiger-bin/src/bin/git-recent-refs.rs
index 4b11d4d..6289645 100644
--- a/scutiger-bin/src/bin/git-recent-refs.rs
+++ b/scutiger-bin/src/bin/git-recent-refs.rs
@@ -17,8 +17,8 @@ mod pager;
 pub mod fixtures;
 
 use clap::{App, AppSettings, Arg, ArgMatches};
-use git2::{Object, Reference, Repository, Time};
-use scutiger_core::errors::{Error, ExitStatus};
+use git2::{Object, Reference, References, Repository, Time};
+use scutiger_core::errors::{Error, ErrorKind, ExitStatus};
 use std::io;
 use std::process;
 use std::str;
@@ -74,6 +74,14 @@ impl<'p> Program<'p> {
         }
     }
 
+    /// Returns the references.
+    ///
+    /// Failing to list them is a fatal error, even if it is because something could not be found.
+    fn references(repo: &Repository) -> Result<References, Error> {
+        repo.references()
+            .map_err(|e| Error::new(ErrorKind::GitError, Some(e)))
+    }
+
     fn commit_date_for(r: &Reference) -> Option<Time> {
         let commit = r.peel_to_commit().ok()?;
         let time = commit.committer().when();
@@ -101,8 +109,7 @@ impl<'p> Program<'p> {
                 })))
             }
             SortKind::Committed => {
-                let mut refs: Vec<_> = repo
-                    .references()?
+                let mut refs: Vec<_> = Self::references(repo)?
                     .filter_map(Result::ok)
                     .map(|r| (r.target(), Self::commit_date_for(&r), r))
                     .filter(|&(oid, time, _)| oid.is_some() && time.is_some())
@@ -114,8 +121,7 @@ impl<'p> Program<'p> {
                 ))
             }
             SortKind::Authored => {
-                let mut refs: Vec<_> = repo
-                    .references()?
+                let mut refs: Vec<_> = Self::references(repo)?
                     .filter_map(Result::ok)
                     .map(|r| (r.target(), Self::author_date_for(&r), r))
                     .filter(|&(oid, time, _)| oid.is_some() && time.is_some())
-- 
2.43.0


From 58bdd5e4fc54497e93803e349e20242607d75938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:03 +0000
Subject: [PATCH 25/25] fix: do not panic when there is neither a repository
 nor standard error

---
 scutiger-lfs/src/bin/git-lfs-transfer.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scutiger-lfs/src/bin/git-lfs-transfer.rs b/scutiger-lfs/src/bin/git-lfs-transfer.rs
index 552c71d..56a795e 100644
--- a/scutiger-lfs/src/bin/git-lfs-transfer.rs
+++ b/scutiger-lfs/src/bin/git-lfs-transfer.rs
@@ -29,6 +29,7 @@ use scutiger_lfs::backend::local::LocalBackend;
 use scutiger_lfs::processor::{Mode, PktLineHandler, Processor};
 use std::fs;
 use std::io;
+use std::io::Write;
 use std::path::{Path, PathBuf};
 use std::process;
 
@@ -181,7 +182,8 @@ fn repo<P: AsRef<Path>>(path: P) -> Repository {
     match repo {
         Ok(r) => r,
         Err(e) => {
-            eprintln!("{}", e);
+            // If this fails, there is nobody left to tell.
+            let _ = writeln!(io::stderr(), "{}", e);
             process::exit(4);
         }
     }
-- 
2.43.0

