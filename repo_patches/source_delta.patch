From c81ffb3344a909793e136972015a8312cefef0cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:21 +0000
Subject: [PATCH 01/24] fix: SCRAM parsers must not panic on short or empty
 message parts

---
 src/mechanisms/scram/parser.rs | 87 ++++++++++++++--------------------
 1 file changed, 36 insertions(+), 51 deletions(-)

diff --git a/src/mechanisms/scram/parser.rs b/src/mechanisms/scram/parser.rs
index 229ce63..d99d16f 100644
--- a/src/mechanisms/scram/parser.rs
+++ b/src/mechanisms/scram/parser.rs
@@ -179,6 +179,18 @@ pub enum ParseError {
     BadNonce,
 }
 
+/// Strip the name off an attribute, i.e. return `value` from `x=value`
+fn attribute<'a>(attr: &'a [u8], name: &[u8; 2]) -> Result<&'a [u8], ParseError> {
+    attr.strip_prefix(name)
+        .ok_or_else(|| invalid_attribute(attr))
+}
+
+fn invalid_attribute(attr: &[u8]) -> ParseError {
+    attr.first().map_or(ParseError::MissingAttributes, |name| {
+        ParseError::InvalidAttribute(*name)
+    })
+}
+
 #[derive(Copy, Clone, Ord, PartialOrd, Eq, PartialEq, Debug)]
 pub enum GS2CBindFlag<'scram> {
     SupportedNotUsed,
@@ -257,26 +269,22 @@ impl<'scram> ClientFirstMessage<'scram> {
         let authzid = if authzid.is_empty() {
             None
         } else {
-            Some(core::str::from_utf8(&authzid[2..]).map_err(ParseError::BadUtf8)?)
+            let authzid = authzid
+                .strip_prefix(b"a=")
+                .ok_or(ParseError::BadGS2Header)?;
+            Some(core::str::from_utf8(authzid).map_err(ParseError::BadUtf8)?)
         };
 
         let next = partiter.next().ok_or(ParseError::MissingAttributes)?;
-        if &next[0..2] == b"m=" {
+        if next.starts_with(b"m=") {
             return Err(ParseError::UnknownMandatoryExtensions);
         }
 
-        let username = if &next[0..2] == b"n=" {
-            core::str::from_utf8(&next[2..]).map_err(ParseError::BadUtf8)?
-        } else {
-            return Err(ParseError::InvalidAttribute(next[0]));
-        };
+        let username =
+            core::str::from_utf8(attribute(next, b"n=")?).map_err(ParseError::BadUtf8)?;
 
         let next = partiter.next().ok_or(ParseError::MissingAttributes)?;
-        let nonce = if &next[0..2] == b"r=" {
-            &next[2..]
-        } else {
-            return Err(ParseError::InvalidAttribute(next[0]));
-        };
+        let nonce = attribute(next, b"r=")?;
         if !nonce.iter().all(|b| matches!(b, 0x21..=0x2B | 0x2D..=0x7E)) {
             return Err(ParseError::BadNonce);
         }
@@ -370,35 +378,20 @@ impl<'scram> ServerFirst<'scram> {
         let mut partiter = input.split(|b| matches!(b, b','));
 
         let next = partiter.next().ok_or(ParseError::MissingAttributes)?;
-        if next.len() < 2 {
-            return Err(ParseError::MissingAttributes);
-        }
-        if &next[0..2] == b"m=" {
+        if next.starts_with(b"m=") {
             return Err(ParseError::UnknownMandatoryExtensions);
         }
 
-        let nonce = if &next[0..2] == b"r=" {
-            &next[2..]
-        } else {
-            return Err(ParseError::InvalidAttribute(next[0]));
-        };
+        let nonce = attribute(next, b"r=")?;
 
         let next = partiter.next().ok_or(ParseError::MissingAttributes)?;
-        let salt = if &next[0..2] == b"s=" {
-            &next[2..]
-        } else {
-            return Err(ParseError::InvalidAttribute(next[0]));
-        };
+        let salt = attribute(next, b"s=")?;
 
         let next = partiter.next().ok_or(ParseError::MissingAttributes)?;
-        let iteration_count = if &next[0..2] == b"i=" {
-            &next[2..]
-        } else {
-            return Err(ParseError::InvalidAttribute(next[0]));
-        };
+        let iteration_count = attribute(next, b"i=")?;
 
         if let Some(next) = partiter.next() {
-            return Err(ParseError::InvalidAttribute(next[0]));
+            return Err(invalid_attribute(next));
         }
 
         Ok(Self {
@@ -445,32 +438,24 @@ impl<'scram> ClientFinal<'scram> {
         let mut partiter = input.split(|b| matches!(b, b','));
 
         let next = partiter.next().ok_or(ParseError::MissingAttributes)?;
-        let channel_binding = if &next[0..2] == b"c=" {
-            &next[2..]
-        } else {
-            return Err(ParseError::InvalidAttribute(next[0]));
-        };
+        let channel_binding = attribute(next, b"c=")?;
 
         let next = partiter.next().ok_or(ParseError::MissingAttributes)?;
-        let nonce = if &next[0..2] == b"r=" {
-            &next[2..]
-        } else {
-            return Err(ParseError::InvalidAttribute(next[0]));
-        };
+        let nonce = attribute(next, b"r=")?;
 
         let proof = loop {
             // Skip all extensions in between nonce and proof since we can't handle them.
             // If they are mandatory-to-implement extensions we error.
             let next = partiter.next().ok_or(ParseError::MissingAttributes)?;
-            if &next[0..2] == b"p=" {
-                break &next[2..];
-            } else if &next[0..2] == b"m=" {
+            if let Some(proof) = next.strip_prefix(b"p=") {
+                break proof;
+            } else if next.starts_with(b"m=") {
                 return Err(ParseError::UnknownMandatoryExtensions);
             };
         };
 
         if let Some(next) = partiter.next() {
-            return Err(ParseError::InvalidAttribute(next[0]));
+            return Err(invalid_attribute(next));
         }
 
         Ok(Self {
@@ -552,15 +537,15 @@ pub enum ServerFinal<'scram> {
 
 impl<'scram> ServerFinal<'scram> {
     pub fn parse(input: &'scram [u8]) -> Result<Self, ParseError> {
-        if &input[0..2] == b"v=" {
-            Ok(Self::Verifier(&input[2..]))
-        } else if &input[0..2] == b"e=" {
+        if let Some(verifier) = input.strip_prefix(b"v=") {
+            Ok(Self::Verifier(verifier))
+        } else if let Some(error) = input.strip_prefix(b"e=") {
             use ServerErrorValue::{
                 ChannelBindingNotSupported, ChannelBindingsDontMatch, ExtensionsNotSupported,
                 InvalidEncoding, InvalidProof, InvalidUsernameEncoding, NoResources, OtherError,
                 ServerDoesSupportChannelBinding, UnknownUser, UnsupportedChannelBindingType,
             };
-            let e = match &input[2..] {
+            let e = match error {
                 b"invalid-encoding" => InvalidEncoding,
                 b"extensions-not-supported" => ExtensionsNotSupported,
                 b"invalid-proof" => InvalidProof,
@@ -575,7 +560,7 @@ impl<'scram> ServerFinal<'scram> {
             };
             Ok(Self::Error(e))
         } else {
-            Err(ParseError::InvalidAttribute(input[0]))
+            Err(invalid_attribute(input))
         }
     }
 
-- 
2.43.0


From 8d22de78361402af47cd6e8bc25282108ac21b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:26 +0000
Subject: [PATCH 02/24] fix: SCRAM keeps its state when stepped without
 required input

---
 src/mechanisms/scram/client.rs | 4 ++++
 src/mechanisms/scram/server.rs | 9 +++++++++
 2 files changed, 13 insertions(+)

diff --git a/src/mechanisms/scram/client.rs b/src/mechanisms/scram/client.rs
index 6521a64..1724786 100644
--- a/src/mechanisms/scram/client.rs
+++ b/src/mechanisms/scram/client.rs
@@ -462,6 +462,10 @@ where
         writer: &mut dyn Write,
     ) -> Result<State, SessionError> {
         use ScramClientState::{ClientFirst, Initial, ServerFirst};
+        if input.is_none() && matches!(self.state, Some(ClientFirst(_) | ServerFirst(_))) {
+            // Don't consume the state, a later call with input data continues the exchange.
+            return Err(SessionError::InputDataRequired);
+        }
         match self.state.take() {
             Some(Initial(state)) => {
                 let mut rng = rand::thread_rng();
diff --git a/src/mechanisms/scram/server.rs b/src/mechanisms/scram/server.rs
index 1d0c5b0..d4c17f5 100644
--- a/src/mechanisms/scram/server.rs
+++ b/src/mechanisms/scram/server.rs
@@ -430,6 +430,15 @@ impl<D: Digest + BlockSizeUser + FixedOutput, const N: usize> Authentication for
         writer: &mut dyn Write,
     ) -> Result<State, SessionError> {
         use ScramServerState::{Finished, WaitingClientFinal, WaitingClientFirst};
+        if input.is_none()
+            && matches!(
+                self.state,
+                Some(WaitingClientFirst(_) | WaitingClientFinal(_))
+            )
+        {
+            // Don't consume the state, a later call with input data continues the exchange.
+            return Err(SessionError::InputDataRequired);
+        }
         match self.state.take() {
             Some(WaitingClientFirst(state)) => {
                 let client_first = input.ok_or(SessionError::InputDataRequired)?;
-- 
2.43.0


From 914e89d9177db2400c9ba2f121331da10de17d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:25 +0000
Subject: [PATCH 03/24] fix: vectored writes report a full writer as error and
 retry when interrupted

---
 src/vectored_io.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/vectored_io.rs b/src/vectored_io.rs
index 0793039..a33f5e6 100644
--- a/src/vectored_io.rs
+++ b/src/vectored_io.rs
@@ -55,14 +55,21 @@ impl<'io, const N: usize> VectoredWriter<'io, N> {
 
         let mut written = 0;
         while {
-            let len = self.write_vectored_inner(&mut bufs, &mut writer)?;
-            // Check the corner case that Ok(0) was returned because the underlying writer is
-            // exhausted.
-            if len == 0 {
-                return Ok(written);
+            let skip = self.skip;
+            match self.write_vectored_inner(&mut bufs, &mut writer) {
+                // Check the corner case that Ok(0) was returned because the underlying writer is
+                // exhausted and not because there were only empty buffers to write.
+                Ok(0) if self.skip == skip => {
+                    return Err(io::Error::new(
+                        io::ErrorKind::WriteZero,
+                        "failed to write whole message",
+                    ));
+                }
+                Ok(len) => written += len,
+                Err(error) if error.kind() == io::ErrorKind::Interrupted => {}
+                Err(error) => return Err(error),
             }
 
-            written += len;
             self.skip < N
         } {}
 
-- 
2.43.0


From c27bf0269bae9d208494fcdd4764c1131b0560ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:30 +0000
Subject: [PATCH 04/24] fix: step64 writes the whole encoded message or reports
 the write error

---
 src/session.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/session.rs b/src/session.rs
index e730042..ef9cf6f 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -230,17 +230,19 @@ mod provider {
             input: Option<&[u8]>,
             writer: &mut impl Write,
         ) -> Result<State, SessionError> {
-            use base64::write::EncoderWriter;
-            let mut writer64 =
-                EncoderWriter::new(writer, &base64::engine::general_purpose::STANDARD);
+            use base64::engine::general_purpose::STANDARD;
+            use base64::Engine;
 
+            // The message has to be complete before it's encoded. A streaming encoder buffers the
+            // last bytes of a message and drops any error that happens when writing those.
+            let mut message = Vec::new();
             let state = if let Some(input) = input {
-                let input =
-                    base64::Engine::decode(&base64::engine::general_purpose::STANDARD, input)?;
-                self.step(Some(&input[..]), &mut writer64)
+                let input = STANDARD.decode(input)?;
+                self.step(Some(&input[..]), &mut message)
             } else {
-                self.step(None, &mut writer64)
+                self.step(None, &mut message)
             }?;
+            writer.write_all(STANDARD.encode(message).as_bytes())?;
             Ok(state)
         }
     }
-- 
2.43.0


From 027924b422cb1d54f7aa16d043842718fafc8b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:13 +0000
Subject: [PATCH 05/24] fix: SCRAM server verifies the proof over the messages
 as received

---
 src/mechanisms/scram/parser.rs | 13 +++++++++++++
 src/mechanisms/scram/server.rs | 32 ++++++++++++++++++++++++--------
 src/mechanisms/scram/tools.rs  | 25 +++++++++++++++++++++++++
 3 files changed, 62 insertions(+), 8 deletions(-)

diff --git a/src/mechanisms/scram/parser.rs b/src/mechanisms/scram/parser.rs
index d99d16f..6beecba 100644
--- a/src/mechanisms/scram/parser.rs
+++ b/src/mechanisms/scram/parser.rs
@@ -244,6 +244,12 @@ pub struct ClientFirstMessage<'scram> {
     pub nonce: &'scram [u8],
 }
 impl<'scram> ClientFirstMessage<'scram> {
+    /// Return the `client-first-message-bare` part of a message that was parsed successfully
+    pub(super) fn bare(input: &'scram [u8]) -> &'scram [u8] {
+        // The gs2-header ends with the second comma
+        input.splitn(3, |b| *b == b',').nth(2).unwrap_or_default()
+    }
+
     #[allow(unused)]
     pub const fn new(
         cbflag: GS2CBindFlag<'scram>,
@@ -422,6 +428,13 @@ pub struct ClientFinal<'scram> {
 }
 
 impl<'scram> ClientFinal<'scram> {
+    /// Return the `client-final-message-without-proof` part of a message that was parsed
+    /// successfully
+    pub(super) fn without_proof(input: &'scram [u8]) -> &'scram [u8] {
+        // The proof is always the last attribute and can't contain a comma
+        input.rsplitn(2, |b| *b == b',').nth(1).unwrap_or_default()
+    }
+
     pub const fn new(
         channel_binding: &'scram [u8],
         nonce: &'scram [u8],
diff --git a/src/mechanisms/scram/server.rs b/src/mechanisms/scram/server.rs
index d4c17f5..7810787 100644
--- a/src/mechanisms/scram/server.rs
+++ b/src/mechanisms/scram/server.rs
@@ -8,7 +8,7 @@ use crate::mechanisms::scram::parser::{
     ClientFinal, ClientFirstMessage, GS2CBindFlag, ServerErrorValue, ServerFinal, ServerFirst,
 };
 use crate::mechanisms::scram::properties::ScramStoredPassword;
-use crate::mechanisms::scram::tools::{compute_signatures, generate_nonce, DOutput};
+use crate::mechanisms::scram::tools::{generate_nonce, sign_auth_message, DOutput};
 use crate::property::{AuthId, AuthzId};
 use crate::session::{MechanismData, MessageSent, State};
 use crate::vectored_io::VectoredWriter;
@@ -126,6 +126,8 @@ impl<const N: usize> WaitingClientFirst<N> {
         writer: impl Write,
         written: &mut usize,
     ) -> Result<WaitingClientFinal<D, N>, SessionError> {
+        let client_first_bare = ClientFirstMessage::bare(client_first);
+
         // Step 1: (try to) parse the client message received.
         let client_first @ ClientFirstMessage {
             cbflag,
@@ -200,6 +202,7 @@ impl<const N: usize> WaitingClientFirst<N> {
             *written = vecw.write_all_vectored(writer)?;
 
             Ok(WaitingClientFinal::new(
+                client_first_bare.into(),
                 client_nonce.into(),
                 server_nonce,
                 gs2_header,
@@ -233,6 +236,7 @@ pub struct WaitingClientFinal<D: Digest + BlockSizeUser + FixedOutput, const N:
     data: Option<FinalInner<D, N>>,
 }
 struct FinalInner<D: Digest + BlockSizeUser + FixedOutput, const N: usize> {
+    client_first_bare: Vec<u8>,
     client_nonce: Vec<u8>,
     server_nonce: [u8; N],
     gs2_header: Vec<u8>,
@@ -248,6 +252,7 @@ impl<D: Digest + BlockSizeUser + FixedOutput, const N: usize> WaitingClientFinal
     // self-explanatory.
     #[allow(clippy::too_many_arguments)]
     fn new(
+        client_first_bare: Vec<u8>,
         client_nonce: Vec<u8>,
         server_nonce: [u8; N],
         gs2_header: Vec<u8>,
@@ -260,6 +265,7 @@ impl<D: Digest + BlockSizeUser + FixedOutput, const N: usize> WaitingClientFinal
     ) -> Self {
         Self {
             data: Some(FinalInner {
+                client_first_bare,
                 client_nonce,
                 server_nonce,
                 gs2_header,
@@ -284,6 +290,7 @@ impl<D: Digest + BlockSizeUser + FixedOutput, const N: usize> WaitingClientFinal
         writer: impl Write,
         written: &mut usize,
     ) -> Result<(), SessionError> {
+        let without_proof = ClientFinal::without_proof(client_final);
         let ClientFinal {
             channel_binding,
             nonce,
@@ -291,6 +298,7 @@ impl<D: Digest + BlockSizeUser + FixedOutput, const N: usize> WaitingClientFinal
         } = ClientFinal::parse(client_final).map_err(SCRAMError::ParseError)?;
 
         let msg = if let Some(FinalInner {
+            client_first_bare,
             client_nonce,
             server_nonce,
             gs2_header,
@@ -320,15 +328,23 @@ impl<D: Digest + BlockSizeUser + FixedOutput, const N: usize> WaitingClientFinal
                     let mut client_signature = DOutput::<D>::default();
                     let mut server_signature = DOutput::<D>::default();
 
-                    compute_signatures::<D>(
+                    // The messages have to be used as they were received. Parts that are ignored
+                    // otherwise, e.g. optional extensions, are covered by the proof as well.
+                    sign_auth_message::<D>(
                         &stored_key,
                         &server_key,
-                        &username,
-                        &client_nonce,
-                        &server_nonce,
-                        salt.as_bytes(),
-                        iterations.as_bytes(),
-                        channel_binding,
+                        &[
+                            &client_first_bare,
+                            b",r=",
+                            &client_nonce,
+                            &server_nonce,
+                            b",s=",
+                            salt.as_bytes(),
+                            b",i=",
+                            iterations.as_bytes(),
+                            b",",
+                            without_proof,
+                        ],
                         &mut client_signature,
                         &mut server_signature,
                     );
diff --git a/src/mechanisms/scram/tools.rs b/src/mechanisms/scram/tools.rs
index 79c31ba..739973a 100644
--- a/src/mechanisms/scram/tools.rs
+++ b/src/mechanisms/scram/tools.rs
@@ -78,6 +78,31 @@ pub fn compute_signatures<D: Digest + BlockSizeUser + FixedOutput>(
         .finalize_into(server_signature);
 }
 
+/// Compute both signatures over an `AuthMessage` given in parts
+///
+/// This must be used to verify a received message since the parts can contain the messages exactly
+/// as they were received, including any extension attributes.
+pub(super) fn sign_auth_message<D: Digest + BlockSizeUser + FixedOutput>(
+    stored_key: &GenericArray<u8, D::OutputSize>,
+    server_key: &DOutput<D>,
+    auth_message: &[&[u8]],
+    client_signature: &mut DOutput<D>,
+    server_signature: &mut DOutput<D>,
+) {
+    let mut client = <SimpleHmac<D>>::new_from_slice(stored_key.as_slice())
+        .expect("HMAC can work with any key size");
+    let mut server = <SimpleHmac<D>>::new_from_slice(server_key.as_slice())
+        .expect("HMAC can work with any key size");
+
+    for part in auth_message {
+        Mac::update(&mut client, part);
+        Mac::update(&mut server, part);
+    }
+
+    client.finalize_into(client_signature);
+    server.finalize_into(server_signature);
+}
+
 #[allow(clippy::missing_panics_doc)]
 #[must_use]
 pub fn derive_keys<D>(password: &[u8]) -> (DOutput<D>, DOutput<D>)
-- 
2.43.0


From 0127dee98ae4a128f713c45e6493ae12a3eb2a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:46 +0000
Subject: [PATCH 06/24] fix: SCRAM server unescapes authid and authzid

---
 src/mechanisms/scram/parser.rs | 12 +++++++-----
 src/mechanisms/scram/server.rs | 11 +++++++++--
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/mechanisms/scram/parser.rs b/src/mechanisms/scram/parser.rs
index 6beecba..1adeeb3 100644
--- a/src/mechanisms/scram/parser.rs
+++ b/src/mechanisms/scram/parser.rs
@@ -116,7 +116,6 @@ impl<'a> SaslName<'a> {
         }
     }
 
-    #[allow(unused)]
     /// Convert a SCRAM-side string into the representation expected by Rust
     ///
     /// This will clone the given string if characters need unescaping
@@ -139,15 +138,18 @@ impl<'a> SaslName<'a> {
                 let good =
                     core::str::from_utf8(&input[..bad]).map_err(SaslNameError::InvalidUtf8)?;
                 out.push_str(good);
-                let c = match &input[bad + 1..bad + 3] {
-                    b"2C" => ',',
-                    b"3D" => '=',
+                let c = match input.get(bad + 1..bad + 3) {
+                    Some(b"2C") => ',',
+                    Some(b"3D") => '=',
                     _ => return Err(SaslNameError::InvalidEscape),
                 };
                 out.push(c);
-                input = &input[bad..];
+                input = &input[bad + 3..];
             }
 
+            let good = core::str::from_utf8(input).map_err(SaslNameError::InvalidUtf8)?;
+            out.push_str(good);
+
             Ok(out.into())
         } else {
             Ok(Cow::Borrowed(core::str::from_utf8(input)?))
diff --git a/src/mechanisms/scram/server.rs b/src/mechanisms/scram/server.rs
index 7810787..51c6adb 100644
--- a/src/mechanisms/scram/server.rs
+++ b/src/mechanisms/scram/server.rs
@@ -5,7 +5,8 @@ use crate::error::{MechanismError, MechanismErrorKind, SessionError};
 use crate::mechanism::Authentication;
 use crate::mechanisms::scram::client::{ProtocolError, SCRAMError};
 use crate::mechanisms::scram::parser::{
-    ClientFinal, ClientFirstMessage, GS2CBindFlag, ServerErrorValue, ServerFinal, ServerFirst,
+    ClientFinal, ClientFirstMessage, GS2CBindFlag, SaslName, ServerErrorValue, ServerFinal,
+    ServerFirst,
 };
 use crate::mechanisms::scram::properties::ScramStoredPassword;
 use crate::mechanisms::scram::tools::{generate_nonce, sign_auth_message, DOutput};
@@ -142,7 +143,13 @@ impl<const N: usize> WaitingClientFirst<N> {
         // TODO: Only store this if we're a -PLUS
         let mut gs2_header = client_first.build_gs2_header_vec();
 
-        // FIXME: Escape Username from SCRAM format to whatever
+        // Names are escaped in the message
+        let authid = &*SaslName::unescape(authid.as_bytes())?;
+        let authzid = authzid
+            .map(|authzid| SaslName::unescape(authzid.as_bytes()))
+            .transpose()?;
+        let authzid = authzid.as_deref();
+
         // TODO: This must at this stage provide so much more info <.<
         let provider = Prov { authid, authzid };
 
-- 
2.43.0


From 4d47d174d8e94916d5501bdc6cd3dcd110b01516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:39 +0000
Subject: [PATCH 07/24] fix: SCRAM-PLUS server requires channel bindings

---
 src/mechanisms/scram/server.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/mechanisms/scram/server.rs b/src/mechanisms/scram/server.rs
index 51c6adb..85f7233 100644
--- a/src/mechanisms/scram/server.rs
+++ b/src/mechanisms/scram/server.rs
@@ -53,6 +53,9 @@ pub enum ScramServerError {
 
     #[error("channel bindings are supported by both sides but were not used")]
     ChannelBindingsNotUsed,
+
+    #[error("channel bindings are required but were not used")]
+    ChannelBindingsRequired,
 }
 impl MechanismError for ScramServerError {
     fn kind(&self) -> MechanismErrorKind {
@@ -66,6 +69,8 @@ enum CBSupport {
     No,
     /// Server *does* support CB
     Yes,
+    /// A -PLUS mechanism was selected, CB must be used
+    Required,
 }
 
 pub struct ScramServer<D: Digest + BlockSizeUser + FixedOutput, const N: usize> {
@@ -84,7 +89,7 @@ impl<D: Digest + BlockSizeUser + FixedOutput, const N: usize> ScramServer<D, N>
     }
 
     pub const fn new_plus() -> Self {
-        let plus = CBSupport::Yes;
+        let plus = CBSupport::Required;
         Self {
             state: Some(ScramServerState::WaitingClientFirst(ScramState::new(plus))),
         }
@@ -156,13 +161,19 @@ impl<const N: usize> WaitingClientFirst<N> {
         match cbflag {
             // TODO: check if this is a protocol downgrade
             GS2CBindFlag::SupportedNotUsed => {
-                if self.plus == CBSupport::Yes {
+                if self.plus != CBSupport::No {
                     return Err(SessionError::MechanismError(Box::new(
                         ScramServerError::ChannelBindingsNotUsed,
                     )));
                 }
             }
-            GS2CBindFlag::NotSupported => {}
+            GS2CBindFlag::NotSupported => {
+                if self.plus == CBSupport::Required {
+                    return Err(SessionError::MechanismError(Box::new(
+                        ScramServerError::ChannelBindingsRequired,
+                    )));
+                }
+            }
             GS2CBindFlag::Used(name) => session_data.need_cb_data(name, provider, |cbdata| {
                 gs2_header.extend_from_slice(cbdata);
                 Ok(())
-- 
2.43.0


From 1e1d94d41e11eea9fd607e13af8c9c0fe977c86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:45 +0000
Subject: [PATCH 08/24] fix: don't select a SCRAM mechanism if only its PLUS
 variant was offered

---
 src/mechanisms/scram/mechinfo.rs | 57 ++++++++++++++++++++++----------
 1 file changed, 39 insertions(+), 18 deletions(-)

diff --git a/src/mechanisms/scram/mechinfo.rs b/src/mechanisms/scram/mechinfo.rs
index 0e0ca1d..8c8b045 100644
--- a/src/mechanisms/scram/mechinfo.rs
+++ b/src/mechanisms/scram/mechinfo.rs
@@ -54,34 +54,41 @@ mod scram_sha1 {
         No,
         /// Only SCRAM-SHA1 but not -PLUS found
         Bare,
-        /// SCRAM-SHA1-PLUS found.
+        /// Only SCRAM-SHA1-PLUS found.
         Plus,
+        /// Both SCRAM-SHA1 and SCRAM-SHA1-PLUS found.
+        Both,
     }
     impl Selector for ScramSelector1 {
         fn select(&mut self, mechname: &Mechname) -> Option<&'static Mechanism> {
             if *mechname == *SCRAM_SHA1.mechanism {
                 *self = match *self {
                     Self::No => Self::Bare,
+                    Self::Plus => Self::Both,
                     x => x,
                 }
             } else if *mechname == *SCRAM_SHA1_PLUS.mechanism {
-                *self = Self::Plus;
+                *self = match *self {
+                    Self::No => Self::Plus,
+                    Self::Bare => Self::Both,
+                    x => x,
+                }
             }
             None
         }
 
         fn done(&mut self) -> Option<&'static Mechanism> {
             match self {
-                Self::No => None,
-                _ => Some(&SCRAM_SHA1),
+                Self::No | Self::Plus => None,
+                Self::Bare | Self::Both => Some(&SCRAM_SHA1),
             }
         }
 
         fn finalize(&mut self) -> Result<Box<dyn Authentication>, SASLError> {
             Ok(Box::new(match self {
                 Self::Bare => client::ScramSha1Client::<NONCE_LEN>::new(false),
-                Self::Plus => client::ScramSha1Client::<NONCE_LEN>::new(true),
-                Self::No => unreachable!(),
+                Self::Both => client::ScramSha1Client::<NONCE_LEN>::new(true),
+                Self::No | Self::Plus => unreachable!(),
             }))
         }
     }
@@ -159,34 +166,41 @@ mod scram_sha256 {
         No,
         /// Only SCRAM-SHA256 but not -PLUS found
         Bare,
-        /// SCRAM-SHA256-PLUS found.
+        /// Only SCRAM-SHA256-PLUS found.
         Plus,
+        /// Both SCRAM-SHA256 and SCRAM-SHA256-PLUS found.
+        Both,
     }
     impl Selector for ScramSelector256 {
         fn select(&mut self, mechname: &Mechname) -> Option<&'static Mechanism> {
             if *mechname == *SCRAM_SHA256.mechanism {
                 *self = match *self {
                     Self::No => Self::Bare,
+                    Self::Plus => Self::Both,
                     x => x,
                 }
             } else if *mechname == *SCRAM_SHA256_PLUS.mechanism {
-                *self = Self::Plus;
+                *self = match *self {
+                    Self::No => Self::Plus,
+                    Self::Bare => Self::Both,
+                    x => x,
+                }
             }
             None
         }
 
         fn done(&mut self) -> Option<&'static Mechanism> {
             match self {
-                Self::No => None,
-                _ => Some(&SCRAM_SHA256),
+                Self::No | Self::Plus => None,
+                Self::Bare | Self::Both => Some(&SCRAM_SHA256),
             }
         }
 
         fn finalize(&mut self) -> Result<Box<dyn Authentication>, SASLError> {
             Ok(Box::new(match self {
                 Self::Bare => client::ScramSha256Client::<NONCE_LEN>::new(false),
-                Self::Plus => client::ScramSha256Client::<NONCE_LEN>::new(true),
-                Self::No => unreachable!(),
+                Self::Both => client::ScramSha256Client::<NONCE_LEN>::new(true),
+                Self::No | Self::Plus => unreachable!(),
             }))
         }
     }
@@ -264,34 +278,41 @@ mod scram_sha512 {
         No,
         /// Only SCRAM-SHA512 but not -PLUS found
         Bare,
-        /// SCRAM-SHA512-PLUS found.
+        /// Only SCRAM-SHA512-PLUS found.
         Plus,
+        /// Both SCRAM-SHA512 and SCRAM-SHA512-PLUS found.
+        Both,
     }
     impl Selector for ScramSelector512 {
         fn select(&mut self, mechname: &Mechname) -> Option<&'static Mechanism> {
             if *mechname == *SCRAM_SHA512.mechanism {
                 *self = match *self {
                     Self::No => Self::Bare,
+                    Self::Plus => Self::Both,
                     x => x,
                 }
             } else if *mechname == *SCRAM_SHA512_PLUS.mechanism {
-                *self = Self::Plus;
+                *self = match *self {
+                    Self::No => Self::Plus,
+                    Self::Bare => Self::Both,
+                    x => x,
+                }
             }
             None
         }
 
         fn done(&mut self) -> Option<&'static Mechanism> {
             match self {
-                Self::No => None,
-                _ => Some(&SCRAM_SHA512),
+                Self::No | Self::Plus => None,
+                Self::Bare | Self::Both => Some(&SCRAM_SHA512),
             }
         }
 
         fn finalize(&mut self) -> Result<Box<dyn Authentication>, SASLError> {
             Ok(Box::new(match self {
                 Self::Bare => client::ScramSha512Client::<NONCE_LEN>::new(false),
-                Self::Plus => client::ScramSha512Client::<NONCE_LEN>::new(true),
-                Self::No => unreachable!(),
+                Self::Both => client::ScramSha512Client::<NONCE_LEN>::new(true),
+                Self::No | Self::Plus => unreachable!(),
             }))
         }
     }
-- 
2.43.0


From 258de3d0cbc5bb0a82c0d7ed73089167cd1c2250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:53 +0000
Subject: [PATCH 09/24] fix: SCRAM client must not panic on cached keys of the
 wrong size

---
 src/mechanisms/scram/client.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/mechanisms/scram/client.rs b/src/mechanisms/scram/client.rs
index 1724786..6542b69 100644
--- a/src/mechanisms/scram/client.rs
+++ b/src/mechanisms/scram/client.rs
@@ -310,10 +310,11 @@ where
                  client_key,
                  server_key,
              }| {
-                Ok((
-                    DOutput::<D>::clone_from_slice(client_key),
-                    DOutput::<D>::clone_from_slice(server_key),
-                ))
+                let client_key = DOutput::<D>::from_exact_iter(client_key.iter().copied())
+                    .ok_or(CachedKeysInvalid)?;
+                let server_key = DOutput::<D>::from_exact_iter(server_key.iter().copied())
+                    .ok_or(CachedKeysInvalid)?;
+                Ok((client_key, server_key))
             },
         )?;
 
@@ -530,6 +531,15 @@ impl MechanismError for SCRAMError {
     }
 }
 
+#[derive(Debug, Eq, PartialEq, Copy, Clone, Error)]
+#[error("provided cached keys are wrong size for selected algorithm")]
+struct CachedKeysInvalid;
+impl MechanismError for CachedKeysInvalid {
+    fn kind(&self) -> MechanismErrorKind {
+        MechanismErrorKind::Parse
+    }
+}
+
 struct ScramClientProvider<'a> {
     iterations: &'a u32,
     salt: &'a [u8],
-- 
2.43.0


From 5fede464729aa4e502df67132e611061b9edd58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:00 +0000
Subject: [PATCH 10/24] fix: allow applications to answer with cached SCRAM
 keys

ScramCachedPassword is non_exhaustive and had no constructor, so keys that were
cached from an earlier exchange could not be used.
---
 src/mechanisms/scram/properties.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/mechanisms/scram/properties.rs b/src/mechanisms/scram/properties.rs
index 64320d8..740c554 100644
--- a/src/mechanisms/scram/properties.rs
+++ b/src/mechanisms/scram/properties.rs
@@ -64,6 +64,15 @@ pub struct ScramCachedPassword<'a> {
     pub client_key: &'a [u8],
     pub server_key: &'a [u8],
 }
+impl<'a> ScramCachedPassword<'a> {
+    #[must_use]
+    pub const fn new(client_key: &'a [u8], server_key: &'a [u8]) -> Self {
+        Self {
+            client_key,
+            server_key,
+        }
+    }
+}
 impl<'a> Property<'a> for ScramCachedPassword<'static> {
     type Value = ScramCachedPassword<'a>;
 }
-- 
2.43.0


From 59abf65030e7e14977bc0ec7c16025204a820112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:05 +0000
Subject: [PATCH 11/24] fix: answering a request again must not discard the
 first answer

---
 src/callback.rs | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/callback.rs b/src/callback.rs
index 87297a0..f79a855 100644
--- a/src/callback.rs
+++ b/src/callback.rs
@@ -215,6 +215,8 @@ impl CallbackError {
 }
 
 pub(crate) trait CallbackRequest<Answer: ?Sized> {
+    /// Returns true while no answer was given yet
+    fn is_open(&self) -> bool;
     fn satisfy(&mut self, answer: &Answer) -> Result<(), SessionError>;
 }
 
@@ -254,7 +256,14 @@ where
     P: for<'p> Property<'p>,
     F: FnOnce(&<P as Property<'_>>::Value) -> Result<G, SessionError>,
 {
+    fn is_open(&self) -> bool {
+        matches!(self.closure, Some(ClosureCRState::Open(_)))
+    }
+
     fn satisfy(&mut self, answer: &<P as Property<'_>>::Value) -> Result<(), SessionError> {
+        if !self.is_open() {
+            return Ok(());
+        }
         if let Some(ClosureCRState::Open(closure)) = self.closure.take() {
             let reply = closure(answer)?;
             self.closure = Some(ClosureCRState::Satisfied(reply));
@@ -417,11 +426,12 @@ impl<'a> Request<'a> {
         answer: &<P as Property<'_>>::Value,
     ) -> Result<&mut Self, SessionError> {
         if let Some(Tagged(mech)) = self.0.downcast_mut::<tags::RefMut<Satisfy<P>>>() {
-            mech.satisfy(answer)?;
-            Err(CallbackError::early_return().into())
-        } else {
-            Ok(self)
+            if mech.is_open() {
+                mech.satisfy(answer)?;
+                return Err(CallbackError::early_return().into());
+            }
         }
+        Ok(self)
     }
 
     /// Satisfy a 'Satisfiable' request using the provided closure.
@@ -494,12 +504,13 @@ impl<'a> Request<'a> {
         F: FnOnce() -> Result<P::Value, SessionError>,
     {
         if let Some(Tagged(mech)) = self.0.downcast_mut::<tags::RefMut<Satisfy<P>>>() {
-            let answer = closure()?;
-            mech.satisfy(&answer)?;
-            Err(CallbackError::early_return().into())
-        } else {
-            Ok(self)
+            if mech.is_open() {
+                let answer = closure()?;
+                mech.satisfy(&answer)?;
+                return Err(CallbackError::early_return().into());
+            }
         }
+        Ok(self)
     }
 }
 
-- 
2.43.0


From 8588e5c78be133aa0282e84f90d1084ede043834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:05 +0000
Subject: [PATCH 12/24] fix: OAUTHBEARER carries authzid, key/value pairs and
 token unaltered or not at all

---
 src/mechanisms/oauthbearer/client.rs     | 14 ++++++++++++
 src/mechanisms/oauthbearer/parser.rs     | 28 +++++++++++++++++++-----
 src/mechanisms/oauthbearer/properties.rs |  2 ++
 src/mechanisms/oauthbearer/server.rs     |  2 +-
 4 files changed, 39 insertions(+), 7 deletions(-)

diff --git a/src/mechanisms/oauthbearer/client.rs b/src/mechanisms/oauthbearer/client.rs
index a43662f..bef8f14 100644
--- a/src/mechanisms/oauthbearer/client.rs
+++ b/src/mechanisms/oauthbearer/client.rs
@@ -7,6 +7,9 @@ use crate::session::MessageSent;
 use crate::vectored_io::VectoredWriter;
 use alloc::io::Write;
 
+/// Separates the parts of the message, and thus must not be contained in any of them
+const SEPARATOR: char = '\x01';
+
 #[derive(Debug, Default, Clone)]
 pub struct OAuthBearer {
     state: OAuthBearerState,
@@ -36,6 +39,10 @@ impl Authentication for OAuthBearer {
             OAuthBearerState::Initial => {
                 writer.write_all(b"n,")?;
                 session.maybe_need_with::<AuthzId, _, _>(&EmptyProvider, |authzid| {
+                    if authzid.contains(['\0', SEPARATOR]) {
+                        return Err(Error::InvalidValue("authzid").into());
+                    }
+                    let authzid = authzid.replace('=', "=3D").replace(',', "=2C");
                     writer.write_all(b"a=")?;
                     writer.write_all(authzid.as_bytes())?;
                     Ok(())
@@ -44,6 +51,10 @@ impl Authentication for OAuthBearer {
 
                 session.maybe_need_with::<OAuthBearerKV, _, _>(&EmptyProvider, |kvpairs| {
                     for (k, v) in kvpairs {
+                        // `auth` is reserved for the token
+                        if *k == "auth" || k.contains(['=', SEPARATOR]) || v.contains(SEPARATOR) {
+                            return Err(Error::InvalidValue("key/value pair").into());
+                        }
                         let data = [b"\x01", k.as_bytes(), b"=", v.as_bytes()];
                         let mut vecw = VectoredWriter::new(data);
                         vecw.write_all_vectored(&mut *writer)?;
@@ -52,6 +63,9 @@ impl Authentication for OAuthBearer {
                 })?;
 
                 session.need_with::<OAuthBearerToken, _, _>(&EmptyProvider, |token| {
+                    if token.contains(SEPARATOR) {
+                        return Err(Error::InvalidValue("token").into());
+                    }
                     let data = [b"\x01auth=Bearer ", token.as_bytes(), b"\x01\x01"];
                     let mut vecw = VectoredWriter::new(data);
                     vecw.write_all_vectored(writer)?;
diff --git a/src/mechanisms/oauthbearer/parser.rs b/src/mechanisms/oauthbearer/parser.rs
index 86adcde..fde0a02 100644
--- a/src/mechanisms/oauthbearer/parser.rs
+++ b/src/mechanisms/oauthbearer/parser.rs
@@ -24,11 +24,28 @@ pub enum ParseError {
 }
 
 pub struct OAuthBearerMsg<'a> {
-    pub authzid: Option<&'a str>,
+    pub authzid: Option<String>,
     pub token: &'a str,
     pub fields: Vec<(&'a str, &'a str)>,
 }
 
+/// Unescape a `saslname` as used in the gs2-header
+fn unescape(name: &str) -> Option<String> {
+    let mut parts = name.split('=');
+    let mut out = String::from(parts.next()?);
+    for part in parts {
+        if let Some(rem) = part.strip_prefix("2C") {
+            out.push(',');
+            out.push_str(rem);
+        } else {
+            let rem = part.strip_prefix("3D")?;
+            out.push('=');
+            out.push_str(rem);
+        }
+    }
+    Some(out)
+}
+
 impl<'a> OAuthBearerMsg<'a> {
     pub fn parse(bytes: &'a [u8]) -> Result<Self, ParseError> {
         // Make sure the token isn't trimmed but contains the end bytes
@@ -45,7 +62,8 @@ impl<'a> OAuthBearerMsg<'a> {
             let authzid = if gs2_authzid.is_empty() {
                 None
             } else if let Some(rem) = gs2_authzid.strip_prefix(b"a=") {
-                Some(core::str::from_utf8(rem)?)
+                let rem = core::str::from_utf8(rem)?;
+                Some(unescape(rem).ok_or(ParseError::InvalidGs2)?)
             } else {
                 return Err(ParseError::InvalidGs2);
             };
@@ -57,12 +75,10 @@ impl<'a> OAuthBearerMsg<'a> {
                 if let Some(t) = kv.strip_prefix(b"auth=") {
                     token = Some(core::str::from_utf8(t)?);
                 } else {
-                    let mut kviter = kv.split(|b| matches!(b, b'='));
+                    // Only the first `=` is a separator, the value may contain more.
+                    let mut kviter = kv.splitn(2, |b| matches!(b, b'='));
                     let key = kviter.next().ok_or(ParseError::InvalidKVPair)?;
                     let val = kviter.next().ok_or(ParseError::InvalidKVPair)?;
-                    if kviter.next().is_some() {
-                        return Err(ParseError::InvalidKVPair);
-                    }
                     let key = core::str::from_utf8(key)?;
                     let val = core::str::from_utf8(val)?;
                     fields.push((key, val));
diff --git a/src/mechanisms/oauthbearer/properties.rs b/src/mechanisms/oauthbearer/properties.rs
index 4fd0dc0..6866a93 100644
--- a/src/mechanisms/oauthbearer/properties.rs
+++ b/src/mechanisms/oauthbearer/properties.rs
@@ -12,6 +12,8 @@ pub enum Error {
         #[from]
         super::parser::ParseError,
     ),
+    #[error("{0} contains characters that can not be sent")]
+    InvalidValue(&'static str),
     #[error("failed to serialize error message")]
     Serde(
         #[source]
diff --git a/src/mechanisms/oauthbearer/server.rs b/src/mechanisms/oauthbearer/server.rs
index 077e5b1..5d228d1 100644
--- a/src/mechanisms/oauthbearer/server.rs
+++ b/src/mechanisms/oauthbearer/server.rs
@@ -57,7 +57,7 @@ impl Authentication for OAuthBearer {
                 } = OAuthBearerMsg::parse(input).map_err(Error::Parse)?;
 
                 let prov = Prov {
-                    authzid,
+                    authzid: authzid.as_deref(),
                     token,
                     kvpairs: fields.as_slice(),
                 };
-- 
2.43.0


From acbcb40b1da442cdea18521f807f46dce0ba7d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:11 +0000
Subject: [PATCH 13/24] fix: OAUTHBEARER client understands error messages
 containing escapes

---
 src/mechanisms/oauthbearer/client.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/mechanisms/oauthbearer/client.rs b/src/mechanisms/oauthbearer/client.rs
index bef8f14..b5bcfee 100644
--- a/src/mechanisms/oauthbearer/client.rs
+++ b/src/mechanisms/oauthbearer/client.rs
@@ -1,11 +1,12 @@
 use crate::context::EmptyProvider;
 use crate::error::SessionError;
 use crate::mechanism::{Authentication, MechanismData, State};
-use crate::mechanisms::oauthbearer::properties::{Error, OAuthBearerErrored};
+use crate::mechanisms::oauthbearer::properties::{Error, OAuthBearerError, OAuthBearerErrored};
 use crate::property::{AuthzId, OAuthBearerKV, OAuthBearerToken};
 use crate::session::MessageSent;
 use crate::vectored_io::VectoredWriter;
 use alloc::io::Write;
+use serde::Deserialize;
 
 /// Separates the parts of the message, and thus must not be contained in any of them
 const SEPARATOR: char = '\x01';
@@ -28,6 +29,16 @@ impl Default for OAuthBearerState {
     }
 }
 
+/// Owned variant of [`OAuthBearerError`] since strings containing escapes can't be borrowed.
+#[derive(Deserialize)]
+struct ErrorMessage {
+    status: String,
+    #[serde(default)]
+    scope: Option<String>,
+    #[serde(default, rename = "openid-configuration")]
+    openid_config: Option<String>,
+}
+
 impl Authentication for OAuthBearer {
     fn step(
         &mut self,
@@ -90,7 +101,12 @@ impl Authentication for OAuthBearer {
                     return Ok(State::Finished(MessageSent::No));
                 }
 
-                let error = serde_json::from_slice(input).map_err(Error::Serde)?;
+                let error: ErrorMessage = serde_json::from_slice(input).map_err(Error::Serde)?;
+                let error = OAuthBearerError::new(
+                    &error.status,
+                    error.scope.as_deref(),
+                    error.openid_config.as_deref(),
+                );
 
                 // If the user callback *doesn't*, we must error, so '?' is correct.
                 session.action::<OAuthBearerErrored>(&EmptyProvider, &error)?;
-- 
2.43.0


From 05510251a5f7b3e4d284ddae64c7ac972ce8d9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:17 +0000
Subject: [PATCH 14/24] fix: XOAUTH2 client rejects authids that would end the
 user part of the message

---
 src/mechanisms/xoauth2/client.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/mechanisms/xoauth2/client.rs b/src/mechanisms/xoauth2/client.rs
index f336228..ba9b235 100644
--- a/src/mechanisms/xoauth2/client.rs
+++ b/src/mechanisms/xoauth2/client.rs
@@ -35,6 +35,8 @@ enum Error {
         #[source]
         core::str::Utf8Error,
     ),
+    #[error("authid contains the separator of the message parts")]
+    InvalidAuthid,
 }
 impl MechanismError for Error {
     fn kind(&self) -> MechanismErrorKind {
@@ -52,6 +54,9 @@ impl Authentication for XOAuth2 {
         match self.state {
             XOAuth2State::Initial => {
                 session.need_with::<AuthId, _, _>(&EmptyProvider, |authid| {
+                    if authid.contains('\x01') {
+                        return Err(Error::InvalidAuthid.into());
+                    }
                     let data = [b"user=", authid.as_bytes(), b"\x01auth=Bearer "];
                     let mut vecw = VectoredWriter::new(data);
                     vecw.write_all_vectored(&mut *writer)?;
-- 
2.43.0


From ab4c4d3b4e502f6a3c75a8bc2470b8889650ef15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:46 +0000
Subject: [PATCH 15/24] fix: GSSAPI keeps its state when stepped without
 required input

---
 src/mechanisms/gssapi/client.rs | 4 ++++
 src/mechanisms/gssapi/server.rs | 9 +++++++++
 2 files changed, 13 insertions(+)

diff --git a/src/mechanisms/gssapi/client.rs b/src/mechanisms/gssapi/client.rs
index 8483fd5..de219cf 100644
--- a/src/mechanisms/gssapi/client.rs
+++ b/src/mechanisms/gssapi/client.rs
@@ -49,6 +49,10 @@ impl Authentication for Gssapi {
         input: Option<&[u8]>,
         writer: &mut dyn Write,
     ) -> Result<State, SessionError> {
+        if input.is_none() && matches!(self.state, GssapiState::Last(..)) {
+            // Don't consume the state, a later call with input data continues the exchange.
+            return Err(SessionError::InputDataRequired);
+        }
         match core::mem::replace(&mut self.state, GssapiState::Errored) {
             GssapiState::Initial => {
                 let mut targ_name = session
diff --git a/src/mechanisms/gssapi/server.rs b/src/mechanisms/gssapi/server.rs
index c663a0b..eaf4c23 100644
--- a/src/mechanisms/gssapi/server.rs
+++ b/src/mechanisms/gssapi/server.rs
@@ -53,6 +53,15 @@ impl Authentication for Gssapi {
         input: Option<&[u8]>,
         writer: &mut dyn Write,
     ) -> Result<State, SessionError> {
+        if input.is_none()
+            && matches!(
+                self.state,
+                GssapiState::Pending(..) | GssapiState::Final(..)
+            )
+        {
+            // Don't consume the state, a later call with input data continues the exchange.
+            return Err(SessionError::InputDataRequired);
+        }
         match mem::replace(&mut self.state, GssapiState::Errored) {
             GssapiState::Initial => {
                 let mut krb5 = OidSet::new().map_err(Error::Gss)?;
-- 
2.43.0


From b1947a59c431abb01647c4a8337a688669900768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:51 +0000
Subject: [PATCH 16/24] fix: GSSAPI server continues an incomplete context
 establishment

---
 src/mechanisms/gssapi/server.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mechanisms/gssapi/server.rs b/src/mechanisms/gssapi/server.rs
index eaf4c23..eb5ff0d 100644
--- a/src/mechanisms/gssapi/server.rs
+++ b/src/mechanisms/gssapi/server.rs
@@ -100,6 +100,8 @@ impl Authentication for Gssapi {
                     }
 
                     self.state = GssapiState::Installed(ctx, acceptable);
+                } else {
+                    self.state = GssapiState::Pending(ctx);
                 }
                 // If an auth exchange token was produced we need to do another loop, otherwise we
                 // immediately produce the supported security layer token.
-- 
2.43.0


From 3cfb8368204a7e0504f5383bc4b38d152ed2989b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:56 +0000
Subject: [PATCH 17/24] fix: GSSAPI server only installs the security layer it
 offered

---
 src/mechanisms/gssapi/server.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mechanisms/gssapi/server.rs b/src/mechanisms/gssapi/server.rs
index eb5ff0d..f4bc573 100644
--- a/src/mechanisms/gssapi/server.rs
+++ b/src/mechanisms/gssapi/server.rs
@@ -136,8 +136,9 @@ impl Authentication for Gssapi {
                 let selected =
                     SecurityLayer::from_bits(unwrapped[0]).ok_or(Error::BadFinalToken)?;
 
-                // If the client selected a layer we don't support or accept, error.
-                if !selected.intersects(supported) {
+                // If the client selected a layer we don't support or accept, or didn't select
+                // exactly one, error.
+                if selected.bits().count_ones() != 1 || !supported.contains(selected) {
                     Err(Error::BadFinalToken)?;
                 }
 
-- 
2.43.0


From 958c8712ec2c463bfbfbc237e15ba5ffc6bd9eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:17 +0000
Subject: [PATCH 18/24] fix: GSSAPI client only selects security layers its
 context provides

---
 src/mechanisms/gssapi/client.rs | 51 ++++++++++++++++-----------------
 1 file changed, 24 insertions(+), 27 deletions(-)

diff --git a/src/mechanisms/gssapi/client.rs b/src/mechanisms/gssapi/client.rs
index de219cf..dbd8716 100644
--- a/src/mechanisms/gssapi/client.rs
+++ b/src/mechanisms/gssapi/client.rs
@@ -96,37 +96,34 @@ impl Authentication for Gssapi {
                 }
 
                 // Request acceptable security layers from the client.
-                let acceptable = session
+                let mut acceptable = session
                     .maybe_need_with::<GssSecurityLayer, _, _>(&EmptyProvider, |acceptable| {
-                        let flags = ctx.flags().map_err(Error::Gss)?;
-                        // If acceptable contains `NO_SECURITY_LAYER` or is empty, which we treat as
-                        // the same, our context is always secure enough.
-                        if acceptable.is_empty()
-                            || acceptable.contains(SecurityLayer::NO_SECURITY_LAYER)
-                        {
-                            return Ok(*acceptable);
-                        }
-
-                        // Else, we check if the least required flag is set.
-
-                        if acceptable.contains(SecurityLayer::INTEGRITY)
-                            && flags.contains(CtxFlags::GSS_C_INTEG_FLAG)
-                        {
-                            return Ok(*acceptable);
-                        }
-
-                        let required = CtxFlags::GSS_C_INTEG_FLAG
-                            | CtxFlags::GSS_C_MUTUAL_FLAG
-                            | CtxFlags::GSS_C_CONF_FLAG;
-
-                        if flags.contains(required) {
-                            Ok(*acceptable)
-                        } else {
-                            Err(Error::BadContext.into())
-                        }
+                        Ok(*acceptable)
                     })?
                     .unwrap_or_default();
 
+                // We treat an empty `acceptable` the same as `NO_SECURITY_LAYER`
+                if acceptable.is_empty() {
+                    acceptable = SecurityLayer::NO_SECURITY_LAYER;
+                }
+
+                // Layers that the context does not provide must not be selected later.
+                let flags = ctx.flags().map_err(Error::Gss)?;
+                let required = CtxFlags::GSS_C_INTEG_FLAG
+                    | CtxFlags::GSS_C_MUTUAL_FLAG
+                    | CtxFlags::GSS_C_CONF_FLAG;
+                if !flags.contains(required) {
+                    acceptable.set(SecurityLayer::CONFIDENTIALITY, false);
+                }
+                if !flags.contains(CtxFlags::GSS_C_INTEG_FLAG) {
+                    acceptable.set(SecurityLayer::INTEGRITY, false);
+                }
+
+                // If that leaves none our context is not secure enough.
+                if acceptable.is_empty() {
+                    return Err(Error::BadContext.into());
+                }
+
                 self.state = GssapiState::Last(ctx, acceptable);
                 Ok(State::Running)
             }
-- 
2.43.0


From 7fb813b0f206d797f8e842297e20e02e722fe96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:38 +0000
Subject: [PATCH 19/24] fix: a step64 whose message cannot be written leaves no
 validation result

---
 src/session.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/session.rs b/src/session.rs
index ef9cf6f..175b7d0 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -242,7 +242,11 @@ mod provider {
             } else {
                 self.step(None, &mut message)
             }?;
-            writer.write_all(STANDARD.encode(message).as_bytes())?;
+            if let Err(error) = writer.write_all(STANDARD.encode(message).as_bytes()) {
+                // The step failed; a result it may have produced was not announced to the other side.
+                self.sasl.validation.0 = None;
+                return Err(error.into());
+            }
             Ok(state)
         }
     }
-- 
2.43.0


From 8810d91f814ab46a8a7c1487156bcd6fae68d40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:39 +0000
Subject: [PATCH 20/24] fix: GSSAPI client reports missing input while the
 context is being established

---
 src/mechanisms/gssapi/client.rs | 105 ++++++++++++++++++--------------
 1 file changed, 58 insertions(+), 47 deletions(-)

diff --git a/src/mechanisms/gssapi/client.rs b/src/mechanisms/gssapi/client.rs
index dbd8716..14c0106 100644
--- a/src/mechanisms/gssapi/client.rs
+++ b/src/mechanisms/gssapi/client.rs
@@ -42,6 +42,58 @@ impl fmt::Debug for GssapiState {
     }
 }
 
+impl Gssapi {
+    /// Exchange one token of the context establishment
+    fn establish(
+        &mut self,
+        mut ctx: ClientCtx,
+        session: &mut MechanismData,
+        input: Option<&[u8]>,
+        writer: &mut dyn Write,
+    ) -> Result<State, SessionError> {
+        if let Some(token) = ctx.step(input, None).map_err(Error::Gss)? {
+            if !token.is_empty() {
+                writer.write_all(&token)?;
+            }
+        }
+        if !ctx.is_complete() {
+            self.state = GssapiState::Pending(ctx);
+            return Ok(State::Running);
+        }
+
+        // Request acceptable security layers from the client.
+        let mut acceptable = session
+            .maybe_need_with::<GssSecurityLayer, _, _>(&EmptyProvider, |acceptable| {
+                Ok(*acceptable)
+            })?
+            .unwrap_or_default();
+
+        // We treat an empty `acceptable` the same as `NO_SECURITY_LAYER`
+        if acceptable.is_empty() {
+            acceptable = SecurityLayer::NO_SECURITY_LAYER;
+        }
+
+        // Layers that the context does not provide must not be selected later.
+        let flags = ctx.flags().map_err(Error::Gss)?;
+        let required =
+            CtxFlags::GSS_C_INTEG_FLAG | CtxFlags::GSS_C_MUTUAL_FLAG | CtxFlags::GSS_C_CONF_FLAG;
+        if !flags.contains(required) {
+            acceptable.set(SecurityLayer::CONFIDENTIALITY, false);
+        }
+        if !flags.contains(CtxFlags::GSS_C_INTEG_FLAG) {
+            acceptable.set(SecurityLayer::INTEGRITY, false);
+        }
+
+        // If that leaves none our context is not secure enough.
+        if acceptable.is_empty() {
+            return Err(Error::BadContext.into());
+        }
+
+        self.state = GssapiState::Last(ctx, acceptable);
+        Ok(State::Running)
+    }
+}
+
 impl Authentication for Gssapi {
     fn step(
         &mut self,
@@ -49,7 +101,8 @@ impl Authentication for Gssapi {
         input: Option<&[u8]>,
         writer: &mut dyn Write,
     ) -> Result<State, SessionError> {
-        if input.is_none() && matches!(self.state, GssapiState::Last(..)) {
+        if input.is_none() && matches!(self.state, GssapiState::Pending(..) | GssapiState::Last(..))
+        {
             // Don't consume the state, a later call with input data continues the exchange.
             return Err(SessionError::InputDataRequired);
         }
@@ -73,60 +126,18 @@ impl Authentication for Gssapi {
                 let cred = Cred::acquire(None, None, CredUsage::Initiate, Some(&krb5))
                     .map_err(Error::Gss)?;
 
-                self.state = GssapiState::Pending(ClientCtx::new(
+                let ctx = ClientCtx::new(
                     Some(cred),
                     target,
                     // Allow all flags. Setting them does not mean the final context will provide
                     // them, so this should not be an issue.
                     CtxFlags::all(),
                     Some(&GSS_MECH_KRB5),
-                ));
-
-                self.step(session, input, writer)
-            }
-            GssapiState::Pending(mut ctx) => {
-                if let Some(token) = ctx.step(input, None).map_err(Error::Gss)? {
-                    if !token.is_empty() {
-                        writer.write_all(&token)?;
-                    }
-                }
-                if !ctx.is_complete() {
-                    self.state = GssapiState::Pending(ctx);
-                    return Ok(State::Running);
-                }
-
-                // Request acceptable security layers from the client.
-                let mut acceptable = session
-                    .maybe_need_with::<GssSecurityLayer, _, _>(&EmptyProvider, |acceptable| {
-                        Ok(*acceptable)
-                    })?
-                    .unwrap_or_default();
-
-                // We treat an empty `acceptable` the same as `NO_SECURITY_LAYER`
-                if acceptable.is_empty() {
-                    acceptable = SecurityLayer::NO_SECURITY_LAYER;
-                }
-
-                // Layers that the context does not provide must not be selected later.
-                let flags = ctx.flags().map_err(Error::Gss)?;
-                let required = CtxFlags::GSS_C_INTEG_FLAG
-                    | CtxFlags::GSS_C_MUTUAL_FLAG
-                    | CtxFlags::GSS_C_CONF_FLAG;
-                if !flags.contains(required) {
-                    acceptable.set(SecurityLayer::CONFIDENTIALITY, false);
-                }
-                if !flags.contains(CtxFlags::GSS_C_INTEG_FLAG) {
-                    acceptable.set(SecurityLayer::INTEGRITY, false);
-                }
-
-                // If that leaves none our context is not secure enough.
-                if acceptable.is_empty() {
-                    return Err(Error::BadContext.into());
-                }
+                );
 
-                self.state = GssapiState::Last(ctx, acceptable);
-                Ok(State::Running)
+                self.establish(ctx, session, input, writer)
             }
+            GssapiState::Pending(ctx) => self.establish(ctx, session, input, writer),
             GssapiState::Last(mut ctx, acceptable) => {
                 let input = input.ok_or(SessionError::InputDataRequired)?;
                 let unwrapped = ctx.unwrap(input).map_err(Error::Gss)?;
-- 
2.43.0


From 56e8fa168b59ce5f499c6f7d8d1fa6588655900e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:00 +0000
Subject: [PATCH 21/24] fix: OAUTHBEARER server hands on the token the client
 was given

---
 src/mechanisms/oauthbearer/parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mechanisms/oauthbearer/parser.rs b/src/mechanisms/oauthbearer/parser.rs
index fde0a02..b8f3af2 100644
--- a/src/mechanisms/oauthbearer/parser.rs
+++ b/src/mechanisms/oauthbearer/parser.rs
@@ -73,7 +73,10 @@ impl<'a> OAuthBearerMsg<'a> {
 
             for kv in it {
                 if let Some(t) = kv.strip_prefix(b"auth=") {
-                    token = Some(core::str::from_utf8(t)?);
+                    let t = core::str::from_utf8(t)?;
+                    // The field is the value of an HTTP Authorization header, the token is what
+                    // follows the name of the scheme.
+                    token = Some(t.strip_prefix("Bearer ").unwrap_or(t));
                 } else {
                     // Only the first `=` is a separator, the value may contain more.
                     let mut kviter = kv.splitn(2, |b| matches!(b, b'='));
-- 
2.43.0


From 3d7d7612c767106f40538c622d9220e47375c9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:37 +0000
Subject: [PATCH 22/24] fix: SCRAM client ignores optional extensions in the
 server's messages

RFC 5802 requires that unrecognized attributes in the extension positions are
ignored; the client refused such messages.  Its signatures now cover the
server's message as it was received.
---
 src/mechanisms/scram/client.rs | 24 +++++++++-----
 src/mechanisms/scram/parser.rs | 22 +++++++++++--
 src/mechanisms/scram/tools.rs  | 57 +---------------------------------
 3 files changed, 36 insertions(+), 67 deletions(-)

diff --git a/src/mechanisms/scram/client.rs b/src/mechanisms/scram/client.rs
index 6542b69..9e8d5d3 100644
--- a/src/mechanisms/scram/client.rs
+++ b/src/mechanisms/scram/client.rs
@@ -8,7 +8,7 @@ use crate::mechanisms::scram::parser::{
 };
 use crate::mechanisms::scram::properties::{Iterations, Salt, SaltedPassword, ScramCachedPassword};
 use crate::mechanisms::scram::tools::{
-    compute_signatures, derive_keys, generate_nonce, hash_password, DOutput,
+    derive_keys, generate_nonce, hash_password, sign_auth_message, DOutput,
 };
 use crate::property::{AuthId, AuthzId, OverrideCBType, Password};
 use crate::session::{MechanismData, MessageSent, State};
@@ -353,15 +353,23 @@ where
         let mut client_signature = DOutput::<D>::default();
         let mut server_signature = DOutput::<D>::default();
 
-        compute_signatures::<D>(
+        // The server's message has to be used as it was received. Optional extensions are ignored
+        // otherwise but covered by the signatures as well.
+        sign_auth_message::<D>(
             &stored_key,
             &server_key,
-            &self.username,
-            &self.client_nonce,
-            server_nonce,
-            salt64,
-            iteration_count,
-            self.channel_bindings.as_bytes(),
+            &[
+                b"n=",
+                self.username.as_bytes(),
+                b",r=",
+                &self.client_nonce,
+                b",",
+                input,
+                b",c=",
+                self.channel_bindings.as_bytes(),
+                b",r=",
+                nonce,
+            ],
             &mut client_signature,
             &mut server_signature,
         );
diff --git a/src/mechanisms/scram/parser.rs b/src/mechanisms/scram/parser.rs
index 1adeeb3..620632b 100644
--- a/src/mechanisms/scram/parser.rs
+++ b/src/mechanisms/scram/parser.rs
@@ -187,6 +187,20 @@ fn attribute<'a>(attr: &'a [u8], name: &[u8; 2]) -> Result<&'a [u8], ParseError>
         .ok_or_else(|| invalid_attribute(attr))
 }
 
+/// Skip the optional extensions that may follow the attributes of a message
+///
+/// Extensions that are not known have to be ignored, unless they're marked mandatory.
+fn skip_extensions<'a>(parts: impl Iterator<Item = &'a [u8]>) -> Result<(), ParseError> {
+    for part in parts {
+        match part {
+            [b'm', b'=', ..] => return Err(ParseError::UnknownMandatoryExtensions),
+            [name, b'=', ..] if name.is_ascii_alphabetic() => {}
+            _ => return Err(invalid_attribute(part)),
+        }
+    }
+    Ok(())
+}
+
 fn invalid_attribute(attr: &[u8]) -> ParseError {
     attr.first().map_or(ParseError::MissingAttributes, |name| {
         ParseError::InvalidAttribute(*name)
@@ -398,9 +412,7 @@ impl<'scram> ServerFirst<'scram> {
         let next = partiter.next().ok_or(ParseError::MissingAttributes)?;
         let iteration_count = attribute(next, b"i=")?;
 
-        if let Some(next) = partiter.next() {
-            return Err(invalid_attribute(next));
-        }
+        skip_extensions(partiter)?;
 
         Ok(Self {
             nonce,
@@ -552,6 +564,10 @@ pub enum ServerFinal<'scram> {
 
 impl<'scram> ServerFinal<'scram> {
     pub fn parse(input: &'scram [u8]) -> Result<Self, ParseError> {
+        let mut partiter = input.split(|b| matches!(b, b','));
+        let input = partiter.next().ok_or(ParseError::MissingAttributes)?;
+        skip_extensions(partiter)?;
+
         if let Some(verifier) = input.strip_prefix(b"v=") {
             Ok(Self::Verifier(verifier))
         } else if let Some(error) = input.strip_prefix(b"e=") {
diff --git a/src/mechanisms/scram/tools.rs b/src/mechanisms/scram/tools.rs
index 739973a..af95e50 100644
--- a/src/mechanisms/scram/tools.rs
+++ b/src/mechanisms/scram/tools.rs
@@ -1,6 +1,6 @@
 use digest::crypto_common::BlockSizeUser;
 use digest::generic_array::GenericArray;
-use digest::{Digest, FixedOutput, FixedOutputReset, Mac, OutputSizeUser, Update};
+use digest::{Digest, FixedOutput, FixedOutputReset, Mac, OutputSizeUser};
 use hmac::SimpleHmac;
 use rand::distributions::{Distribution, Slice};
 use rand::Rng;
@@ -23,61 +23,6 @@ where
     let _ = pbkdf2::pbkdf2::<SimpleHmac<D>>(password, salt, iterations, out.as_mut_slice());
 }
 
-#[allow(clippy::too_many_arguments)]
-#[allow(clippy::missing_panics_doc)]
-pub fn compute_signatures<D: Digest + BlockSizeUser + FixedOutput>(
-    stored_key: &GenericArray<u8, D::OutputSize>,
-    server_key: &DOutput<D>,
-    username: &str,
-    client_nonce: &[u8],
-    server_nonce: &[u8],
-    salt: &[u8],
-    iterations: &[u8],
-    channel_binding: &[u8],
-    client_signature: &mut DOutput<D>,
-    server_signature: &mut DOutput<D>,
-) {
-    <SimpleHmac<D>>::new_from_slice(stored_key.as_slice())
-        .expect("HMAC can work with any key size")
-        .chain(b"n=")
-        .chain(username.as_bytes())
-        .chain(b",r=")
-        .chain(client_nonce)
-        .chain(b",r=")
-        .chain(client_nonce)
-        .chain(server_nonce)
-        .chain(",s=")
-        .chain(salt)
-        .chain(",i=")
-        .chain(iterations)
-        .chain(b",c=")
-        .chain(channel_binding)
-        .chain(b",r=")
-        .chain(client_nonce)
-        .chain(server_nonce)
-        .finalize_into(client_signature);
-
-    <SimpleHmac<D>>::new_from_slice(server_key.as_slice())
-        .expect("HMAC can work with any key size")
-        .chain(b"n=")
-        .chain(username.as_bytes())
-        .chain(b",r=")
-        .chain(client_nonce)
-        .chain(b",r=")
-        .chain(client_nonce)
-        .chain(server_nonce)
-        .chain(",s=")
-        .chain(salt)
-        .chain(",i=")
-        .chain(iterations)
-        .chain(b",c=")
-        .chain(channel_binding)
-        .chain(b",r=")
-        .chain(client_nonce)
-        .chain(server_nonce)
-        .finalize_into(server_signature);
-}
-
 /// Compute both signatures over an `AuthMessage` given in parts
 ///
 /// This must be used to verify a received message since the parts can contain the messages exactly
-- 
2.43.0


From 09d5e304cdeb55a03f929cce17cbf71e833d7b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:42 +0000
Subject: [PATCH 23/24] fix: SCRAM server refuses mandatory extensions behind
 the client's nonce

The parser stopped at the nonce, so a mandatory extension it does not know was
ignored.
---
 src/mechanisms/scram/parser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mechanisms/scram/parser.rs b/src/mechanisms/scram/parser.rs
index 620632b..c0fb499 100644
--- a/src/mechanisms/scram/parser.rs
+++ b/src/mechanisms/scram/parser.rs
@@ -311,6 +311,8 @@ impl<'scram> ClientFirstMessage<'scram> {
             return Err(ParseError::BadNonce);
         }
 
+        skip_extensions(partiter)?;
+
         Ok(Self {
             cbflag,
             authzid,
-- 
2.43.0


From 482f7b0cf93537e08bff7fc608c81c5260175ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:45 +0000
Subject: [PATCH 24/24] fix: OAUTHBEARER server reports a failing writer as I/O
 error

The error message was serialized straight into the writer, which made every
error of the writer a serialization error of the mechanism.
---
 src/mechanisms/oauthbearer/server.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mechanisms/oauthbearer/server.rs b/src/mechanisms/oauthbearer/server.rs
index 5d228d1..70ac3d3 100644
--- a/src/mechanisms/oauthbearer/server.rs
+++ b/src/mechanisms/oauthbearer/server.rs
@@ -64,7 +64,8 @@ impl Authentication for OAuthBearer {
 
                 let state = session.need_with::<OAuthBearerValidate, _, _>(&prov, |result| {
                     if let Err(error) = result {
-                        serde_json::to_writer(writer, error).map_err(Error::Serde)?;
+                        let message = serde_json::to_vec(error).map_err(Error::Serde)?;
+                        writer.write_all(&message)?;
                         self.state = OAuthBearerState::Errored;
                         Ok(State::Running)
                     } else {
-- 
2.43.0

