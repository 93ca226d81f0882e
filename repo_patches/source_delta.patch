From 7316dc423f6aa7e0a1550d3db9108dde2eb16544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:28 +0000
Subject: [PATCH 01/12] fix: reject engine text messages received before the
 open packet

---
 socket-io-protocol/src/engine.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/socket-io-protocol/src/engine.rs b/socket-io-protocol/src/engine.rs
index a15e705..f1f38dc 100644
--- a/socket-io-protocol/src/engine.rs
+++ b/socket-io-protocol/src/engine.rs
@@ -119,11 +119,15 @@ impl Decoder {
                 }
             }
             '4' => {
-                let len = text.len();
-                Ok(Packet::Message(Message::Text(OwnedSubslice::new(
-                    text,
-                    1..len,
-                ))))
+                if self.state == State::Initial {
+                    Err(Error::MessageBeforeOpen)
+                } else {
+                    let len = text.len();
+                    Ok(Packet::Message(Message::Text(OwnedSubslice::new(
+                        text,
+                        1..len,
+                    ))))
+                }
             }
             _ => Err(invalid_msg()),
         }
-- 
2.43.0


From baeedcce6920a20ba6f96ddb6db10a1cfe001e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:20 +0000
Subject: [PATCH 02/12] fix: reject packets with out of range numbers instead
 of panicking

---
 socket-io-protocol/src/socket/de.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/socket-io-protocol/src/socket/de.rs b/socket-io-protocol/src/socket/de.rs
index 6fe4642..de82507 100644
--- a/socket-io-protocol/src/socket/de.rs
+++ b/socket-io-protocol/src/socket/de.rs
@@ -1,7 +1,7 @@
 use std::ops::Range;
 
 use owned_subslice::OwnedSubslice;
-use regex::Regex;
+use regex::{Match, Regex};
 use serde_json::value::RawValue;
 
 use super::{EngineMessage, Error, Kind, Packet, ProtocolKind};
@@ -80,9 +80,14 @@ fn parse_text(text: OwnedSubslice<String>) -> Result<Parse, Error> {
             _ => unreachable!(),
         }
     };
-    let attachments = captures.get(3).map(|x| x.as_str().parse::<u64>().unwrap());
+    let parse_number = |x: Match| {
+        x.as_str()
+            .parse::<u64>()
+            .map_err(|_| Error::InvalidMessage(text.to_string()))
+    };
+    let attachments = captures.get(3).map(parse_number).transpose()?;
     let namespace = captures.get(5).map(|x| x.range());
-    let id = captures.get(6).map(|x| x.as_str().parse::<u64>().unwrap());
+    let id = captures.get(6).map(parse_number).transpose()?;
     let args = match captures.get(7) {
         Some(m) => {
             let mut args = parse_args(m.as_str())?;
-- 
2.43.0


From 6775d23cc6aad71e0bf1f66224c08af4b969807f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:23 +0000
Subject: [PATCH 03/12] fix: don't panic on arguments which can't be converted
 to a json value

---
 socket-io-protocol/src/socket/args/mod.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/socket-io-protocol/src/socket/args/mod.rs b/socket-io-protocol/src/socket/args/mod.rs
index d816273..76e8c31 100644
--- a/socket-io-protocol/src/socket/args/mod.rs
+++ b/socket-io-protocol/src/socket/args/mod.rs
@@ -63,9 +63,10 @@ impl<'a> Args<'a> {
 
 impl<'a> Arg<'a> {
     pub fn to_json_value(&self) -> Result<Value, Error> {
-        // We can unwrap because if the json was going to fail to deserialize we would have failed
-        // to parse
-        let mut value = serde_json::from_str(self.arg).unwrap();
+        // The argument is known to be json, but it can still be too deep or contain numbers or
+        // escapes which can't be represented.
+        let mut value = serde_json::from_str(self.arg)
+            .map_err(|err| Error::JsonDeError(self.arg.to_string(), err))?;
         if !self.attachments.is_empty() {
             fill_placeholders_value(&mut value, &self.attachments)?;
         }
@@ -159,7 +160,10 @@ impl<'a> fmt::Display for Args<'a> {
 
 impl<'a> fmt::Display for Arg<'a> {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        write!(f, "{}", self.to_json_value().unwrap())
+        match self.to_json_value() {
+            Ok(value) => write!(f, "{}", value),
+            Err(_) => write!(f, "{}", self.arg),
+        }
     }
 }
 
-- 
2.43.0


From 8981925274308b4f9d5c1e45b5ac1e9d4176839e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:25 +0000
Subject: [PATCH 04/12] fix: end the namespace of a packet at the first comma

---
 socket-io-protocol/src/socket/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/socket-io-protocol/src/socket/de.rs b/socket-io-protocol/src/socket/de.rs
index de82507..e07644b 100644
--- a/socket-io-protocol/src/socket/de.rs
+++ b/socket-io-protocol/src/socket/de.rs
@@ -45,7 +45,7 @@ impl DeserializeResult {
 
 lazy_static::lazy_static! {
     static ref DESERIALIZE_RE: Regex = {
-        let pattern = r#"^([012356])((0|[1-9][0-9]*)-)?((/.+),)?(0|[1-9][0-9]*)?(\[.*\])?$"#;
+        let pattern = r#"^([012356])((0|[1-9][0-9]*)-)?((/[^,]+),)?(0|[1-9][0-9]*)?(\[.*\])?$"#;
         Regex::new(pattern).unwrap()
     };
 }
-- 
2.43.0


From f2bc91bc00626d1c9ae38c2c7f2c5cb41695d730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:27 +0000
Subject: [PATCH 05/12] fix: accept acks without arguments

---
 socket-io-protocol/src/socket/de.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/socket-io-protocol/src/socket/de.rs b/socket-io-protocol/src/socket/de.rs
index e07644b..de81b05 100644
--- a/socket-io-protocol/src/socket/de.rs
+++ b/socket-io-protocol/src/socket/de.rs
@@ -201,7 +201,9 @@ fn deserialize_event(
     name: &'static str,
     attachments: Vec<OwnedSubslice<Vec<u8>>>,
 ) -> Result<Packet, Error> {
-    if (kind == Kind::Ack && parse.id.is_none()) || parse.args.is_empty() {
+    if (kind == Kind::Ack && parse.id.is_none())
+        || (kind == Kind::Event && parse.args.is_empty())
+    {
         return Err(Error::MissingData(name, parse.message.to_string()));
     }
     if attachments.len() as u64 != parse.attachments.unwrap_or(0) {
-- 
2.43.0


From e36bbf4bb5c26cb06d3bcf1632bafbe9d4625e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:29 +0000
Subject: [PATCH 06/12] fix: restore the first argument flag when serializing
 an argument fails

---
 socket-io-protocol/src/socket/ser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/socket-io-protocol/src/socket/ser.rs b/socket-io-protocol/src/socket/ser.rs
index 2977cf8..66d7a2d 100644
--- a/socket-io-protocol/src/socket/ser.rs
+++ b/socket-io-protocol/src/socket/ser.rs
@@ -97,6 +97,7 @@ impl PacketBuilder {
         T: Serialize + ?Sized,
     {
         let start_pos = self.buffer.len();
+        let first = self.first;
         let mut cursor = Cursor::new(&mut self.buffer);
         cursor.set_position(start_pos as u64);
         if self.first {
@@ -119,6 +120,7 @@ impl PacketBuilder {
         if result.is_err() {
             self.buffer
                 .resize_with(start_pos, || panic!("shrinking vector"));
+            self.first = first;
         }
         result
     }
-- 
2.43.0


From ee37a50f0895819900499308cf1cb57fb8997e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:32 +0000
Subject: [PATCH 07/12] fix: don't emit the attachment header as an element of
 mixed sequences

---
 socket-io-protocol/src/socket/args/serialize_attachments.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/socket-io-protocol/src/socket/args/serialize_attachments.rs b/socket-io-protocol/src/socket/args/serialize_attachments.rs
index 3a3bc94..086b792 100644
--- a/socket-io-protocol/src/socket/args/serialize_attachments.rs
+++ b/socket-io-protocol/src/socket/args/serialize_attachments.rs
@@ -389,7 +389,8 @@ where
                 Err(_) => {
                     // The data isn't all u8's
                     let mut seq = s.take().unwrap().serialize_seq(*len)?;
-                    for b in data.iter() {
+                    // Skip the header added for the attachment
+                    for b in data.iter().skip(1) {
                         seq.serialize_element(b)?;
                     }
                     seq.serialize_element(&Wrapper {
-- 
2.43.0


From 5fef7f13ebae79517a6e60e941eebdb056e025b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:34 +0000
Subject: [PATCH 08/12] fix: release the callbacks lock before calling
 callbacks

---
 socket-io-client/src/receiver.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/socket-io-client/src/receiver.rs b/socket-io-client/src/receiver.rs
index e584da5..2b6265b 100644
--- a/socket-io-client/src/receiver.rs
+++ b/socket-io-client/src/receiver.rs
@@ -142,17 +142,20 @@ impl Receiver {
                 let event: Cow<'_, str> = event.deserialize()?;
                 let ack = id.map(|id| AckBuilder::new(self.sender.clone(), namespace, id));
                 // TODO: Use id to create ack callback
-                if let Some(mut cb) = self.callbacks.lock().unwrap().get_event(namespace, &*event) {
+                // Release the lock before calling the callback
+                let cb = self.callbacks.lock().unwrap().get_event(namespace, &*event);
+                if let Some(mut cb) = cb {
                     cb.call(&args, ack);
                 }
             }
             Data::Ack { id, args } => {
-                if let Some(cb) = self
+                // Release the lock before calling the callback
+                let cb = self
                     .callbacks
                     .lock()
                     .unwrap()
-                    .get_and_clear_ack(namespace, id)
-                {
+                    .get_and_clear_ack(namespace, id);
+                if let Some(cb) = cb {
                     cb.call(&args);
                 } else {
                     return Err(Error::UnexpectedAck(packet.clone()));
-- 
2.43.0


From b8cae19d5c2d6c998a4d4a0ab563620a05f04170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:37 +0000
Subject: [PATCH 09/12] fix: return an error when the connection ends before it
 is opened

---
 socket-io-client/src/connection.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/socket-io-client/src/connection.rs b/socket-io-client/src/connection.rs
index 769c42b..105b525 100644
--- a/socket-io-client/src/connection.rs
+++ b/socket-io-client/src/connection.rs
@@ -3,7 +3,11 @@ use std::{
     time::Duration,
 };
 
-use async_tungstenite::{async_tls, tungstenite::Message as WsMessage, WebSocketStream};
+use async_tungstenite::{
+    async_tls,
+    tungstenite::{Error as WsError, Message as WsMessage},
+    WebSocketStream,
+};
 use futures::{
     channel::{mpsc, oneshot},
     future::{FutureExt, RemoteHandle},
@@ -70,9 +74,21 @@ impl Connection {
         .await?;
 
         let open = select! {
-            open = open_rx.fuse() => Ok(open.unwrap()),
+            open = open_rx.fuse() => Ok(open.ok()),
             _ = timeout_fut => Err(Error::Timeout("engine.io protocol Open message")),
         }?;
+        let open = match open {
+            Some(open) => open,
+            // The connection ended before the Open message was received, find out why
+            None => select! {
+                result = handle.fuse() => {
+                    return Err(result.err().unwrap_or_else(|| WsError::ConnectionClosed.into()));
+                },
+                _ = timeout_fut => {
+                    return Err(Error::Timeout("engine.io protocol Open message"));
+                },
+            },
+        };
         log::trace!("Received open: {:?}", open);
 
         Ok(Connection {
-- 
2.43.0


From a3ba877d599ee21141029d89bbcf76a35a7e4d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:39 +0000
Subject: [PATCH 10/12] fix: accept maps whose first key contains escapes next
 to attachments

---
 .../socket/args/deserialize_attachments.rs    | 33 +++++++++++--------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/socket-io-protocol/src/socket/args/deserialize_attachments.rs b/socket-io-protocol/src/socket/args/deserialize_attachments.rs
index c684fc7..b6de790 100644
--- a/socket-io-protocol/src/socket/args/deserialize_attachments.rs
+++ b/socket-io-protocol/src/socket/args/deserialize_attachments.rs
@@ -1,12 +1,12 @@
-use std::fmt;
+use std::{borrow::Cow, fmt};
 
 use owned_subslice::OwnedSubslice;
 use paste::paste;
 use serde::{
     de::{
         value::{BorrowedStrDeserializer, SeqDeserializer},
-        DeserializeSeed, EnumAccess, Error as DeError, MapAccess, SeqAccess, VariantAccess,
-        Visitor,
+        DeserializeSeed, EnumAccess, Error as DeError, IntoDeserializer, MapAccess, SeqAccess,
+        VariantAccess, Visitor,
     },
     Deserialize, Deserializer,
 };
@@ -97,9 +97,13 @@ where
 {
     map: M,
     buffers: Buffers<'a>,
-    first_key: Option<Option<&'a str>>,
+    first_key: Option<Option<Cow<'a, str>>>,
 }
 
+/// A map key, which can only be borrowed if it doesn't contain any escapes
+#[derive(Deserialize)]
+struct Key<'a>(#[serde(borrow)] Cow<'a, str>);
+
 macro_rules! deserialize_forward {
     ($($fn:ident ( $( $arg:ident : $ty:ty),* ) , )*) => {
         $(
@@ -288,11 +292,12 @@ where
     where
         A: MapAccess<'de>,
     {
-        let key: Option<&'de str> = map.next_key()?;
-        if key == Some("_placeholder") {
+        let key: Option<Key<'de>> = map.next_key()?;
+        let key = key.map(|Key(key)| key);
+        if key.as_deref() == Some("_placeholder") {
             let _: bool = map.next_value()?;
-            let next_key: Option<&'de str> = map.next_key()?;
-            if next_key != Some("num") {
+            let next_key: Option<Key<'de>> = map.next_key()?;
+            if next_key.as_ref().map(|Key(key)| &**key) != Some("num") {
                 return Err(A::Error::custom("_placeholder key present without num key"));
             }
             let num: u64 = map.next_value()?;
@@ -423,11 +428,13 @@ where
         K: DeserializeSeed<'de>,
     {
         if let Some(key) = self.first_key.take() {
-            if let Some(key) = key {
-                let deserializer = BorrowedStrDeserializer::new(key);
-                seed.deserialize(deserializer).map(Some)
-            } else {
-                Ok(None)
+            match key {
+                Some(Cow::Borrowed(key)) => {
+                    let deserializer = BorrowedStrDeserializer::new(key);
+                    seed.deserialize(deserializer).map(Some)
+                }
+                Some(Cow::Owned(key)) => seed.deserialize(key.into_deserializer()).map(Some),
+                None => Ok(None),
             }
         } else {
             // TODO(me@seanp.xyz): This isn't passing the buffers along because the keys should
-- 
2.43.0


From ba84aee33c407dcafb1368a3e121a05f736a892a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:42 +0000
Subject: [PATCH 11/12] fix: send queued packets before closing the connection

---
 socket-io-client/src/connection.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/socket-io-client/src/connection.rs b/socket-io-client/src/connection.rs
index 105b525..6dceed1 100644
--- a/socket-io-client/src/connection.rs
+++ b/socket-io-client/src/connection.rs
@@ -177,6 +177,13 @@ where
                 }
             }
         }
+        // Everything queued before the close was requested still has to be sent
+        while let Some(Some(msgs)) = send_rx.next().now_or_never() {
+            for msg in msgs.into_iter() {
+                log::trace!("Sending websocket packet: {:?}", msg);
+                sink.send(msg).await?;
+            }
+        }
         drop(next);
         let mut ws_stream = sink.reunite(stream).expect("Reunite should succeed");
         log::debug!("Sending close message");
-- 
2.43.0


From d207def844f0c9d1c94902d1c45b64552495f09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:51 +0000
Subject: [PATCH 12/12] fix: deserialize the first key of maps next to
 attachments like any other key

---
 .../socket/args/deserialize_attachments.rs    | 135 ++++++++++++++++--
 1 file changed, 126 insertions(+), 9 deletions(-)

diff --git a/socket-io-protocol/src/socket/args/deserialize_attachments.rs b/socket-io-protocol/src/socket/args/deserialize_attachments.rs
index b6de790..c10f99a 100644
--- a/socket-io-protocol/src/socket/args/deserialize_attachments.rs
+++ b/socket-io-protocol/src/socket/args/deserialize_attachments.rs
@@ -1,16 +1,15 @@
-use std::{borrow::Cow, fmt};
+use std::{borrow::Cow, fmt, marker::PhantomData};
 
 use owned_subslice::OwnedSubslice;
 use paste::paste;
 use serde::{
     de::{
-        value::{BorrowedStrDeserializer, SeqDeserializer},
-        DeserializeSeed, EnumAccess, Error as DeError, IntoDeserializer, MapAccess, SeqAccess,
-        VariantAccess, Visitor,
+        value::SeqDeserializer, DeserializeSeed, EnumAccess, Error as DeError, IntoDeserializer,
+        MapAccess, SeqAccess, VariantAccess, Visitor,
     },
-    Deserialize, Deserializer,
+    forward_to_deserialize_any, Deserialize, Deserializer,
 };
-use serde_json::{Deserializer as JsonDeserializer, Error as JsonError};
+use serde_json::{Deserializer as JsonDeserializer, Error as JsonError, Number};
 
 #[derive(Debug, thiserror::Error)]
 #[error("{0}")]
@@ -104,6 +103,122 @@ where
 #[derive(Deserialize)]
 struct Key<'a>(#[serde(borrow)] Cow<'a, str>);
 
+/// Deserializes a map key which was already read, the way it's done for the keys of a json object
+struct KeyDeserializer<'a, E> {
+    key: Cow<'a, str>,
+    error: PhantomData<E>,
+}
+
+impl<'a, E> KeyDeserializer<'a, E>
+where
+    E: DeError,
+{
+    fn number(&self) -> Result<Number, E> {
+        self.key.parse().map_err(E::custom)
+    }
+}
+
+macro_rules! deserialize_number_key {
+    ($($fn:ident,)*) => {
+        $(
+            fn $fn<V>(self, visitor: V) -> Result<V::Value, E>
+            where
+                V: Visitor<'de>,
+            {
+                self.number()?.$fn(visitor).map_err(E::custom)
+            }
+        )*
+    };
+}
+
+impl<'de, E> Deserializer<'de> for KeyDeserializer<'de, E>
+where
+    E: DeError,
+{
+    type Error = E;
+
+    fn deserialize_any<V>(self, visitor: V) -> Result<V::Value, E>
+    where
+        V: Visitor<'de>,
+    {
+        match self.key {
+            Cow::Borrowed(key) => visitor.visit_borrowed_str(key),
+            Cow::Owned(key) => visitor.visit_string(key),
+        }
+    }
+
+    deserialize_number_key! {
+        deserialize_i8,
+        deserialize_i16,
+        deserialize_i32,
+        deserialize_i64,
+        deserialize_u8,
+        deserialize_u16,
+        deserialize_u32,
+        deserialize_u64,
+        deserialize_f32,
+        deserialize_f64,
+    }
+
+    fn deserialize_i128<V>(self, visitor: V) -> Result<V::Value, E>
+    where
+        V: Visitor<'de>,
+    {
+        self.number()?;
+        visitor.visit_i128(self.key.parse().map_err(E::custom)?)
+    }
+
+    fn deserialize_u128<V>(self, visitor: V) -> Result<V::Value, E>
+    where
+        V: Visitor<'de>,
+    {
+        self.number()?;
+        visitor.visit_u128(self.key.parse().map_err(E::custom)?)
+    }
+
+    fn deserialize_bool<V>(self, visitor: V) -> Result<V::Value, E>
+    where
+        V: Visitor<'de>,
+    {
+        match &*self.key {
+            "true" => visitor.visit_bool(true),
+            "false" => visitor.visit_bool(false),
+            _ => self.deserialize_any(visitor),
+        }
+    }
+
+    fn deserialize_option<V>(self, visitor: V) -> Result<V::Value, E>
+    where
+        V: Visitor<'de>,
+    {
+        visitor.visit_some(self)
+    }
+
+    fn deserialize_newtype_struct<V>(self, _name: &'static str, visitor: V) -> Result<V::Value, E>
+    where
+        V: Visitor<'de>,
+    {
+        visitor.visit_newtype_struct(self)
+    }
+
+    fn deserialize_enum<V>(
+        self,
+        _name: &'static str,
+        _variants: &'static [&'static str],
+        visitor: V,
+    ) -> Result<V::Value, E>
+    where
+        V: Visitor<'de>,
+    {
+        visitor.visit_enum(self.key.into_deserializer())
+    }
+
+    forward_to_deserialize_any! {
+        char str string bytes byte_buf unit unit_struct seq tuple tuple_struct map struct
+        identifier ignored_any
+    }
+}
+
 macro_rules! deserialize_forward {
     ($($fn:ident ( $( $arg:ident : $ty:ty),* ) , )*) => {
         $(
@@ -429,11 +544,13 @@ where
     {
         if let Some(key) = self.first_key.take() {
             match key {
-                Some(Cow::Borrowed(key)) => {
-                    let deserializer = BorrowedStrDeserializer::new(key);
+                Some(key) => {
+                    let deserializer = KeyDeserializer {
+                        key,
+                        error: PhantomData,
+                    };
                     seed.deserialize(deserializer).map(Some)
                 }
-                Some(Cow::Owned(key)) => seed.deserialize(key.into_deserializer()).map(Some),
                 None => Ok(None),
             }
         } else {
-- 
2.43.0

