From 55bc7412531102851824e0350d6a8a0d891f173d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:43 +0000
Subject: [PATCH 1/6] fix: only the decoy bit of the header selects the packet
 type

---
 protocol/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/protocol/src/lib.rs b/protocol/src/lib.rs
index 410cbbb..30de249 100644
--- a/protocol/src/lib.rs
+++ b/protocol/src/lib.rs
@@ -396,7 +396,8 @@ pub enum PacketType {
 impl PacketType {
     /// Check if header byte has the decoy flag flipped.
     pub fn from_byte(header: &u8) -> Self {
-        if header == &DECOY_BYTE {
+        // Only the most significant bit is the decoy flag, the other bits are ignored.
+        if header & DECOY_BYTE != 0 {
             PacketType::Decoy
         } else {
             PacketType::Genuine
-- 
2.43.0


From 88adbe3a6a1f2288849a0b792c89b099fedd0839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:43 +0000
Subject: [PATCH 2/6] fix: decrypt_to_vec rejects a ciphertext shorter than its
 tag

---
 protocol/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/protocol/src/lib.rs b/protocol/src/lib.rs
index 30de249..17a999b 100644
--- a/protocol/src/lib.rs
+++ b/protocol/src/lib.rs
@@ -573,6 +573,7 @@ impl InboundCipher {
         ciphertext: &[u8],
         aad: Option<&[u8]>,
     ) -> Result<(PacketType, std::vec::Vec<u8>), Error> {
+        Self::validate_ciphertext_size(ciphertext.len())?;
         let plaintext_len = Self::decryption_buffer_len(ciphertext.len());
 
         if plaintext_len > MAX_PACKET_SIZE_FOR_ALLOCATION {
-- 
2.43.0


From 280808fb5458d28587ed7fe3c1e0dc87c0657499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:43 +0000
Subject: [PATCH 3/6] fix: length cipher counts packets in 64 bits

---
 protocol/src/fschacha20poly1305.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/protocol/src/fschacha20poly1305.rs b/protocol/src/fschacha20poly1305.rs
index d7e17a5..9513d01 100644
--- a/protocol/src/fschacha20poly1305.rs
+++ b/protocol/src/fschacha20poly1305.rs
@@ -144,7 +144,7 @@ impl FSChaCha20Poly1305 {
 pub struct FSChaCha20 {
     key: Key,
     block_counter: u32,
-    chunk_counter: u32,
+    chunk_counter: u64,
 }
 
 impl FSChaCha20 {
@@ -158,14 +158,15 @@ impl FSChaCha20 {
 
     /// Encrypt or decrypt the 3-byte length encodings.
     pub fn crypt(&mut self, chunk: &mut [u8; LENGTH_BYTES as usize]) {
-        let counter_mod = (self.chunk_counter / REKEY_INTERVAL as u32).to_le_bytes();
+        // The 64-bit little-endian encoding of the number of rekeyings performed.
+        let counter_div = (self.chunk_counter / REKEY_INTERVAL).to_le_bytes();
         let mut nonce = [0u8; 12];
-        nonce[4..8].copy_from_slice(&counter_mod);
+        nonce[4..12].copy_from_slice(&counter_div);
         let mut cipher = ChaCha20::new(self.key, Nonce::new(nonce), 0);
         cipher.seek(self.block_counter);
         cipher.apply_keystream(chunk);
         self.block_counter += LENGTH_BYTES;
-        if (self.chunk_counter + 1) % REKEY_INTERVAL as u32 == 0 {
+        if (self.chunk_counter + 1) % REKEY_INTERVAL == 0 {
             let mut key_buffer = [0u8; 32];
             cipher.seek(self.block_counter);
             cipher.apply_keystream(&mut key_buffer);
-- 
2.43.0


From cb1abe912e0ab61f547358bef77f161f9d9ce65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:21 +0000
Subject: [PATCH 4/6] fix: refuse to encrypt contents longer than the length
 prefix can describe

---
 protocol/src/io.rs  | 12 +++++++++---
 protocol/src/lib.rs | 14 +++++++++++++-
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/protocol/src/io.rs b/protocol/src/io.rs
index b1face3..9291450 100644
--- a/protocol/src/io.rs
+++ b/protocol/src/io.rs
@@ -564,9 +564,15 @@ where
     ///   * `Ok()`: On successful payload encryption and packet send.
     ///   * `Err(ProtocolError)`: An error that occurred during the encryption or write.
     pub fn write(&mut self, payload: &Payload) -> Result<(), ProtocolError> {
-        let packet_buffer =
-            self.outbound_cipher
-                .encrypt_to_vec(payload.contents(), payload.packet_type(), None);
+        let packet_len = OutboundCipher::encryption_buffer_len(payload.contents().len());
+        let mut packet_buffer = vec![0u8; packet_len];
+
+        self.outbound_cipher.encrypt(
+            payload.contents(),
+            &mut packet_buffer,
+            payload.packet_type(),
+            None,
+        )?;
         self.writer.write_all(&packet_buffer)?;
         self.writer.flush()?;
         Ok(())
diff --git a/protocol/src/lib.rs b/protocol/src/lib.rs
index 17a999b..9ef1167 100644
--- a/protocol/src/lib.rs
+++ b/protocol/src/lib.rs
@@ -161,6 +161,8 @@ const NUM_ELLIGATOR_SWIFT_BYTES: usize = 64;
 const NUM_GARBAGE_TERMINTOR_BYTES: usize = 16;
 // Number of bytes for the authentication tag of a packet.
 const NUM_TAG_BYTES: usize = 16;
+// Maximum number of contents bytes which the 3-byte length prefix can describe.
+const MAX_CONTENTS_LEN: usize = (1 << (8 * NUM_LENGTH_BYTES)) - 1;
 // Number of bytes per packet for static layout, everything not including contents.
 const NUM_PACKET_OVERHEAD_BYTES: usize = NUM_LENGTH_BYTES + NUM_HEADER_BYTES + NUM_TAG_BYTES;
 // Maximum packet size for automatic allocation.
@@ -615,6 +617,7 @@ impl OutboundCipher {
     ///
     /// * `Error::BufferTooSmall` - Buffer does not have enough allocated memory as
     ///   calculated by `encryption_buffer_len()`.
+    /// * `Error::PacketTooBig` - Plaintext length does not fit in the 3-byte length prefix.
     pub fn encrypt(
         &mut self,
         plaintext: &[u8],
@@ -630,6 +633,11 @@ impl OutboundCipher {
         }
 
         let plaintext_length = plaintext.len();
+        // The length must be representable in the length prefix.
+        if plaintext_length > MAX_CONTENTS_LEN {
+            return Err(Error::PacketTooBig);
+        }
+
         let header_index = NUM_LENGTH_BYTES + NUM_HEADER_BYTES - 1;
         let plaintext_start_index = header_index + 1;
         let plaintext_end_index = plaintext_start_index + plaintext_length;
@@ -672,6 +680,10 @@ impl OutboundCipher {
     /// # Returns
     ///
     /// The complete encrypted packet ready for transmission.
+    ///
+    /// # Panics
+    ///
+    /// If the plaintext length does not fit in the 3-byte length prefix.
     #[cfg(feature = "std")]
     pub fn encrypt_to_vec(
         &mut self,
@@ -682,7 +694,7 @@ impl OutboundCipher {
         let packet_len = Self::encryption_buffer_len(plaintext.len());
         let mut ciphertext_buffer = std::vec![0u8; packet_len];
 
-        // This will never fail since we allocate the exact required size
+        // Since the exact required size is allocated, this only fails on oversized contents.
         self.encrypt(plaintext, &mut ciphertext_buffer, packet_type, aad)
             .expect("encrypt should never fail with correctly sized buffer");
 
-- 
2.43.0


From 180c0a8602f552590069c163d930eb8252bf0048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:21 +0000
Subject: [PATCH 5/6] fix: bound the packet allocation of the session readers

---
 protocol/src/futures.rs | 7 +++++++
 protocol/src/io.rs      | 4 ++++
 2 files changed, 11 insertions(+)

diff --git a/protocol/src/futures.rs b/protocol/src/futures.rs
index dd6af62..2ea443d 100644
--- a/protocol/src/futures.rs
+++ b/protocol/src/futures.rs
@@ -418,6 +418,13 @@ where
                     }
 
                     let packet_bytes_len = self.inbound_cipher.decrypt_packet_len(*length_bytes);
+                    // The length is not authenticated yet, limit what the peer can make us allocate.
+                    if InboundCipher::decryption_buffer_len(packet_bytes_len)
+                        > MAX_PACKET_SIZE_FOR_ALLOCATION
+                    {
+                        self.state = DecryptState::init_reading_length();
+                        return Err(ProtocolError::Internal(Error::PacketTooBig));
+                    }
                     self.state = DecryptState::init_reading_payload(packet_bytes_len);
                 }
                 DecryptState::ReadingPayload {
diff --git a/protocol/src/io.rs b/protocol/src/io.rs
index 9291450..09904f4 100644
--- a/protocol/src/io.rs
+++ b/protocol/src/io.rs
@@ -527,6 +527,10 @@ where
         let mut length_bytes = [0u8; NUM_LENGTH_BYTES];
         self.reader.read_exact(&mut length_bytes)?;
         let packet_bytes_len = self.inbound_cipher.decrypt_packet_len(length_bytes);
+        // The length is not authenticated yet, limit what the peer can make us allocate.
+        if InboundCipher::decryption_buffer_len(packet_bytes_len) > MAX_PACKET_SIZE_FOR_ALLOCATION {
+            return Err(ProtocolError::Internal(Error::PacketTooBig));
+        }
 
         // Read packet data.
         let mut packet_bytes = vec![0u8; packet_bytes_len];
-- 
2.43.0


From 0d775ab9c245983e30bb7e9e34ef06dd61f7c091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:21 +0000
Subject: [PATCH 6/6] fix: async writer task exits once all of its senders are
 dropped

---
 traffic/src/futures.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/traffic/src/futures.rs b/traffic/src/futures.rs
index b3f783f..f926b59 100644
--- a/traffic/src/futures.rs
+++ b/traffic/src/futures.rs
@@ -215,7 +215,9 @@ async fn writer_task<W, R>(
     loop {
         tokio::select! {
             // Handle write commands with padding.
-            Some(cmd) = write_rx.recv() => {
+            cmd = write_rx.recv() => {
+                // Exit if all write_tx senders dropped, don't send decoys forever.
+                let Some(cmd) = cmd else { break };
                 let mut result = Ok(());
 
                 // First, send decoy packet if padding is enabled.
@@ -243,9 +245,6 @@ async fn writer_task<W, R>(
                     let _ = writer.write(&decoy).await;
                 }
             }
-
-            // Exit if all write_tx senders dropped, don't send decoys forever.
-            else => break,
         }
     }
 }
-- 
2.43.0

