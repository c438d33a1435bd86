From 718a9f6a7fbb419791bd688d9ceb3f89883ad6e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:27 +0000
Subject: [PATCH 01/12] fix: use the right key for the
 pinned-chat-paid-canonical-amount tag

`Tag::PinnedChatPaidCanonicalAmount.as_str()` returned "pinned-chat-paid-amount",
so looking the tag up returned the value of a different tag.
---
 src/irc/tags.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/irc/tags.rs b/src/irc/tags.rs
index c02837c..955b216 100644
--- a/src/irc/tags.rs
+++ b/src/irc/tags.rs
@@ -173,7 +173,7 @@ tags_def! {
   b"pinned-chat-paid-amount"; "pinned-chat-paid-amount" = PinnedChatPaidAmount,
 
   /// The value of the Hype Chat sent by the user. This seems to always be the same as `pinned-chat-paid-amount`.
-  b"pinned-chat-paid-canonical-amount"; "pinned-chat-paid-amount" = PinnedChatPaidCanonicalAmount,
+  b"pinned-chat-paid-canonical-amount"; "pinned-chat-paid-canonical-amount" = PinnedChatPaidCanonicalAmount,
 
   /// The ISO 4217 alphabetic currency code the user has sent the Hype Chat in.
   b"pinned-chat-paid-currency"; "pinned-chat-paid-currency" = PinnedChatPaidCurrency,
-- 
2.43.0


From 9a7b45971f9b89924d7f3a917020a012310373ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:27 +0000
Subject: [PATCH 02/12] fix: return all params from IrcMessage::text if there
 is no trailer

IrcMessageRef::text already did; the owned variant returned None.
---
 src/irc.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/irc.rs b/src/irc.rs
index 3478b40..ab3b9a9 100644
--- a/src/irc.rs
+++ b/src/irc.rs
@@ -261,11 +261,13 @@ impl IrcMessage {
   }
 
   /// Returns the contents of the params after the last `:`.
+  ///
+  /// If `:` is not present, returns all params.
   pub fn text(&self) -> Option<&str> {
     match self.params() {
       Some(params) => match params.find(':') {
         Some(start) => Some(&params[start + 1..]),
-        None => None,
+        None => Some(params),
       },
       None => None,
     }
-- 
2.43.0


From d17761c9d2d33961394c7080f0985a5fc7a243eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:27 +0000
Subject: [PATCH 03/12] fix: scalar tag parser no longer runs past an
 unterminated tag section

`@a=b` (no space) moved the position past the end of the message, and
parsing the prefix then panicked. The SIMD parser returns None here.
---
 src/irc/tags/scalar.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/irc/tags/scalar.rs b/src/irc/tags/scalar.rs
index 0ef9d8f..90033ec 100644
--- a/src/irc/tags/scalar.rs
+++ b/src/irc/tags/scalar.rs
@@ -7,6 +7,7 @@ pub(crate) fn parse(src: &str, pos: &mut usize) -> Option<RawTags> {
 
   let mut state = State::Key { key_start: 0 };
   let mut offset = 0;
+  let mut end = None;
   while offset < src.len() {
     let c = src[offset];
     match c {
@@ -38,6 +39,7 @@ pub(crate) fn parse(src: &str, pos: &mut usize) -> Option<RawTags> {
             value_end: (offset - (key_end + 1)) as u16,
           });
         }
+        end = Some(offset);
         break;
       }
       _ => {}
@@ -46,7 +48,7 @@ pub(crate) fn parse(src: &str, pos: &mut usize) -> Option<RawTags> {
     offset += 1;
   }
 
-  *pos += offset + 2; // skip '@' + space
+  *pos += end? + 2; // skip '@' + space
 
   Some(RawTags(tags.to_vec()))
 }
-- 
2.43.0


From 47d5b5212a490c185444f1a6f4b783a80394df84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:27 +0000
Subject: [PATCH 04/12] fix: do not panic on messages with more than 128 tags

---
 src/irc/tags.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/irc/tags.rs b/src/irc/tags.rs
index 955b216..a80babe 100644
--- a/src/irc/tags.rs
+++ b/src/irc/tags.rs
@@ -262,6 +262,8 @@ impl TagPair {
 struct Array<const CAPACITY: usize, T> {
   data: [core::mem::MaybeUninit<T>; CAPACITY],
   len: usize,
+  // holds whatever does not fit into `data`
+  spill: Vec<T>,
 }
 
 impl<const CAPACITY: usize, T: Clone + Copy + Default> Array<CAPACITY, T> {
@@ -276,11 +278,16 @@ impl<const CAPACITY: usize, T: Clone + Copy + Default> Array<CAPACITY, T> {
       Self {
         data: array_of_uninit,
         len: 0,
+        spill: Vec::new(),
       }
     }
   }
 
   fn push(&mut self, value: T) {
+    if self.len == CAPACITY {
+      self.spill.push(value);
+      return;
+    }
     self.data[self.len].write(value);
     self.len += 1;
   }
@@ -288,7 +295,9 @@ impl<const CAPACITY: usize, T: Clone + Copy + Default> Array<CAPACITY, T> {
   fn to_vec(&self) -> Vec<T> {
     let init = &self.data[..self.len];
     let init = unsafe { core::mem::transmute::<&[core::mem::MaybeUninit<T>], &[T]>(init) };
-    init.to_vec()
+    let mut out = init.to_vec();
+    out.extend_from_slice(&self.spill);
+    out
   }
 }
 
-- 
2.43.0


From aa982bb0699a5bb96c64d98e79920ce95c52e1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:27 +0000
Subject: [PATCH 05/12] fix: keep the full length of tag keys and values

Lengths were truncated to 16 bits, so a value of 65536 bytes or more came
back cut short (or split a UTF-8 character, which panics).
---
 src/irc/tags.rs        | 10 +++++-----
 src/irc/tags/scalar.rs |  8 ++++----
 src/irc/tags/simd.rs   |  8 ++++----
 3 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/irc/tags.rs b/src/irc/tags.rs
index a80babe..7471df3 100644
--- a/src/irc/tags.rs
+++ b/src/irc/tags.rs
@@ -227,11 +227,11 @@ pub(super) struct TagPair {
   key_start: u32,
   // key=value
   //    ^
-  key_end: u16,
+  key_end: u32,
 
   // key=value
   //          ^
-  value_end: u16,
+  value_end: u32,
 }
 
 impl TagPair {
@@ -240,7 +240,7 @@ impl TagPair {
   #[inline]
   pub fn key(&self) -> Span {
     let start = self.key_start;
-    let end = start + self.key_end as u32;
+    let end = start + self.key_end;
     Span { start, end }
   }
 
@@ -248,8 +248,8 @@ impl TagPair {
   //     ^    ^
   #[inline]
   pub fn value(&self) -> Span {
-    let start = self.key_start + self.key_end as u32 + 1;
-    let end = start + self.value_end as u32;
+    let start = self.key_start + self.key_end + 1;
+    let end = start + self.value_end;
     Span { start, end }
   }
 
diff --git a/src/irc/tags/scalar.rs b/src/irc/tags/scalar.rs
index 90033ec..8f17977 100644
--- a/src/irc/tags/scalar.rs
+++ b/src/irc/tags/scalar.rs
@@ -23,8 +23,8 @@ pub(crate) fn parse(src: &str, pos: &mut usize) -> Option<RawTags> {
         if let State::Value { key_start, key_end } = state {
           tags.push(TagPair {
             key_start: key_start as u32 + 1,
-            key_end: (key_end - key_start) as u16,
-            value_end: (offset - (key_end + 1)) as u16,
+            key_end: (key_end - key_start) as u32,
+            value_end: (offset - (key_end + 1)) as u32,
           });
           state = State::Key {
             key_start: offset + 1,
@@ -35,8 +35,8 @@ pub(crate) fn parse(src: &str, pos: &mut usize) -> Option<RawTags> {
         if let State::Value { key_start, key_end } = state {
           tags.push(TagPair {
             key_start: key_start as u32 + 1,
-            key_end: (key_end - key_start) as u16,
-            value_end: (offset - (key_end + 1)) as u16,
+            key_end: (key_end - key_start) as u32,
+            value_end: (offset - (key_end + 1)) as u32,
           });
         }
         end = Some(offset);
diff --git a/src/irc/tags/simd.rs b/src/irc/tags/simd.rs
index b70e887..4d9b390 100644
--- a/src/irc/tags/simd.rs
+++ b/src/irc/tags/simd.rs
@@ -31,9 +31,9 @@ pub(crate) fn parse(src: &str, pos: &mut usize) -> Option<RawTags> {
       tags.push(TagPair {
         // relative to original `src`
         key_start: key_start as u32 + 1,
-        key_end: (key_end - key_start) as u16,
+        key_end: (key_end - key_start) as u32,
         // starts after `=`
-        value_end: (pos - (key_end + 1)) as u16,
+        value_end: (pos - (key_end + 1)) as u32,
       });
     }
   }
@@ -86,9 +86,9 @@ fn parse_chunk(offset: usize, chunk: V, state: &mut State, tags: &mut Array<128,
         tags.push(TagPair {
           // relative to original `src`
           key_start: key_start as u32 + 1,
-          key_end: (key_end - key_start) as u16,
+          key_end: (key_end - key_start) as u32,
           // starts after `=`
-          value_end: (pos - (key_end + 1)) as u16,
+          value_end: (pos - (key_end + 1)) as u32,
         });
       }
     }
-- 
2.43.0


From a1177f862490e73919c261934885690a162ef3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:57 +0000
Subject: [PATCH 06/12] =?UTF-8?q?fix:=20maybe=5Funescape=20decodes=20the?=
 =?UTF-8?q?=20first=20escape=20whether=20it=20is=20\=20or=20=E2=B8=9D?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

A `⸝` was only decoded after the first backslash, so `maybe_unescape("a⸝b")`
returned its input while `unescape("a⸝b")` returned `a,b`.
---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index b9ced7f..08a774c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -48,7 +48,8 @@ use std::borrow::Cow;
 pub fn maybe_unescape<'a>(value: impl Into<Cow<'a, str>>) -> Cow<'a, str> {
   let mut value: Cow<'_, str> = value.into();
   for i in 0..value.len() {
-    if value.as_bytes()[i] == b'\\' {
+    let rest = &value.as_bytes()[i..];
+    if rest[0] == b'\\' || rest.starts_with("⸝".as_bytes()) {
       value = Cow::Owned(actually_unescape(&value, i));
       break;
     }
-- 
2.43.0


From ec152e4c12ccc286e3d8ab5c94b06d016237a1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:57 +0000
Subject: [PATCH 07/12] fix: an escape applies only to the character right
 after the backslash

After an unknown escape the backslash stayed pending, so in `\\as` the `s`
was turned into a space.
---
 src/irc.rs | 10 ++++++++--
 src/lib.rs | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/irc.rs b/src/irc.rs
index ab3b9a9..3dd4d4d 100644
--- a/src/irc.rs
+++ b/src/irc.rs
@@ -363,9 +363,15 @@ pub fn unescape(value: &str) -> String {
         out.push('\n');
         escape = false;
       }
-      '⸝' => out.push(','),
+      '⸝' => {
+        out.push(',');
+        escape = false;
+      }
       '\\' => escape = true,
-      c => out.push(c),
+      c => {
+        out.push(c);
+        escape = false;
+      }
     }
   }
   out
diff --git a/src/lib.rs b/src/lib.rs
index 08a774c..ff18c05 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -86,8 +86,14 @@ fn actually_unescape(input: &str, start: usize) -> String {
         out.push('\n');
         escape = false;
       }
-      '⸝' => out.push(','),
-      c => out.push(c),
+      '⸝' => {
+        out.push(',');
+        escape = false;
+      }
+      c => {
+        out.push(c);
+        escape = false;
+      }
     }
   }
 
-- 
2.43.0


From e0d3a7ff8cf28156bae510bd1b6e2019c84b2f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:57 +0000
Subject: [PATCH 08/12] fix: huge followers-only values no longer overflow

---
 src/msg/room_state.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/msg/room_state.rs b/src/msg/room_state.rs
index 2c5f07d..402682b 100644
--- a/src/msg/room_state.rs
+++ b/src/msg/room_state.rs
@@ -103,7 +103,7 @@ impl<'src> RoomState<'src> {
         .tag(Tag::FollowersOnly)
         .and_then(|v| v.parse().ok())
         .map(|n: i64| match n {
-          n if n > 0 => FollowersOnly::Enabled(Some(Duration::from_secs((n * 60) as u64))),
+          n if n > 0 => FollowersOnly::Enabled(Some(Duration::from_secs((n as u64).saturating_mul(60)))),
           0 => FollowersOnly::Enabled(None),
           _ => FollowersOnly::Disabled,
         }),
-- 
2.43.0


From 09324198b7efd25d2121f02eb90337e686357a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:57 +0000
Subject: [PATCH 09/12] fix: a failed handshake leaves nothing in the scratch
 buffer

If writing the handshake failed or timed out, its text stayed in the buffer:
the next handshake sent CAP, PASS and NICK twice, and a message sent on that
client was preceded by the credentials.
---
 src/client.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/client.rs b/src/client.rs
index ed0421f..eb8aead 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -321,10 +321,13 @@ impl Client {
   async fn handshake(&mut self) -> Result<(), ConnectError> {
     trace!("performing handshake");
 
+    // taken, so that nothing is left in it if the handshake fails or times out
+    let mut scratch = std::mem::take(&mut self.scratch);
+
     let credentials = &self.config.credentials;
     const CAP: &str = "twitch.tv/commands twitch.tv/tags twitch.tv/membership";
     trace!("CAP REQ {CAP:?}; NICK {:?}; PASS ***", credentials.login);
-    write!(&mut self.scratch, "CAP REQ :{CAP}\r\n").unwrap();
+    write!(&mut scratch, "CAP REQ :{CAP}\r\n").unwrap();
 
     let login = credentials.login.as_str();
     let token = match credentials.token.as_ref() {
@@ -336,12 +339,13 @@ impl Client {
     } else {
       "oauth:"
     };
-    write!(&mut self.scratch, "PASS {oauth}{token}\r\n").unwrap();
-    write!(&mut self.scratch, "NICK {login}\r\n").unwrap();
+    write!(&mut scratch, "PASS {oauth}{token}\r\n").unwrap();
+    write!(&mut scratch, "NICK {login}\r\n").unwrap();
 
-    self.writer.write_all(self.scratch.as_bytes()).await?;
+    self.writer.write_all(scratch.as_bytes()).await?;
     self.writer.flush().await?;
-    self.scratch.clear();
+    scratch.clear();
+    self.scratch = scratch;
 
     trace!("waiting for CAP * ACK");
     let message = self.recv().timeout(Duration::from_secs(5)).await??;
-- 
2.43.0


From 8de47d0a0a5b3d44c000cb02166be19f085c354d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:34 +0000
Subject: [PATCH 10/12] hook: in-memory streams for verification (cfg
 tmi_verif)

---
 src/client/conn.rs | 44 +++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 43 insertions(+), 1 deletion(-)

diff --git a/src/client/conn.rs b/src/client/conn.rs
index 1546323..bd65981 100644
--- a/src/client/conn.rs
+++ b/src/client/conn.rs
@@ -1,16 +1,29 @@
+// `tmi_verif` is set by verification harnesses only
+#![allow(unexpected_cfgs)]
+
 use std::fmt::Display;
 use std::io;
 use std::sync::Arc;
+#[cfg(not(tmi_verif))]
 use tokio::net::TcpStream;
+#[cfg(not(tmi_verif))]
 use tokio_rustls::client::TlsStream;
+use tokio_rustls::rustls;
 use tokio_rustls::rustls::{ClientConfig, RootCertStore, ServerName};
-use tokio_rustls::{rustls, TlsConnector};
+#[cfg(not(tmi_verif))]
+use tokio_rustls::TlsConnector;
 
 pub const HOST: &str = "irc.chat.twitch.tv";
 pub const PORT: u16 = 6697;
 
+#[cfg(not(tmi_verif))]
 pub type Stream = TlsStream<TcpStream>;
 
+/// Verification only: the stream is supplied by the harness.
+#[cfg(tmi_verif)]
+pub use verif::{open, Stream};
+
+#[cfg(not(tmi_verif))]
 pub async fn open(config: TlsConfig) -> Result<Stream, OpenStreamError> {
   trace!(?config, "opening tls stream to twitch");
   Ok(
@@ -110,3 +123,32 @@ impl Display for TlsConfigError {
 }
 
 impl std::error::Error for TlsConfigError {}
+
+#[cfg(tmi_verif)]
+pub mod verif {
+  use super::{OpenStreamError, TlsConfig};
+  use std::cell::RefCell;
+  use std::future::Future;
+  use std::io;
+  use std::pin::Pin;
+  use tokio::io::{AsyncRead, AsyncWrite};
+
+  pub trait Wire: AsyncRead + AsyncWrite + Send + Sync + Unpin {}
+  impl<T: AsyncRead + AsyncWrite + Send + Sync + Unpin> Wire for T {}
+
+  pub type Stream = Box<dyn Wire>;
+  pub type Opening = Pin<Box<dyn Future<Output = io::Result<Stream>> + Send>>;
+
+  thread_local! {
+    /// Called once per attempt to open a connection on this thread.
+    pub static OPENER: RefCell<Option<Box<dyn FnMut() -> Opening>>> = const { RefCell::new(None) };
+  }
+
+  pub async fn open(_: TlsConfig) -> Result<Stream, OpenStreamError> {
+    let opening = OPENER.with(|opener| match &mut *opener.borrow_mut() {
+      Some(open) => open(),
+      None => Box::pin(async { Err(io::ErrorKind::NotConnected.into()) }),
+    });
+    Ok(opening.await?)
+  }
+}
-- 
2.43.0


From 98bd96847807ffa10f401403ff29bb680514c8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:15 +0000
Subject: [PATCH 11/12] fix: flush after sending, so that no command stays
 behind in the TLS buffer

---
 src/client/write.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/client/write.rs b/src/client/write.rs
index 502b7ff..ff8937a 100644
--- a/src/client/write.rs
+++ b/src/client/write.rs
@@ -85,6 +85,8 @@ impl Client {
     let RawMessage { data } = s.try_into()?;
     trace!(data, "sending message");
     self.writer.write_all(data.as_bytes()).await?;
+    // the TLS stream may accept data and hold it back until it is flushed
+    self.writer.flush().await?;
     Ok(())
   }
 
-- 
2.43.0


From c9497339f6fc005a89671436dce93972541dc597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:09 +0000
Subject: [PATCH 12/12] fix: a subscriber badge whose months are not a number
 can be read back

---
 src/msg.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/msg.rs b/src/msg.rs
index 4ff0e04..e4112e2 100644
--- a/src/msg.rs
+++ b/src/msg.rs
@@ -441,7 +441,7 @@ static_assert_sync!(Message<'_>);
 #[cfg(feature = "serde")]
 mod _serde {
   use super::*;
-  use serde::{de, Deserialize, Deserializer};
+  use serde::{Deserialize, Deserializer};
 
   #[cfg(feature = "serde")]
   impl<'de: 'src, 'src> Deserialize<'de> for Subscriber<'src> {
@@ -459,7 +459,7 @@ mod _serde {
       let t = _T::deserialize(deserializer)?;
       Ok(Subscriber {
         version: t.version,
-        months_n: t.months.parse().map_err(de::Error::custom)?,
+        months_n: t.months.parse().unwrap_or(1),
         months: t.months,
       })
     }
-- 
2.43.0

