From e1580a768e46ffb1018014f307ebe57507fb34ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:06 +0000
Subject: [PATCH 01/17] fix: look up the requested client instead of the
 requester

---
 src/rest_api/middleware/server.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rest_api/middleware/server.rs b/src/rest_api/middleware/server.rs
index 8ffac1c..4fcb816 100644
--- a/src/rest_api/middleware/server.rs
+++ b/src/rest_api/middleware/server.rs
@@ -274,7 +274,7 @@ where
                 }
 
                 // Try to find the client in the local index
-                match driver.router().lookup_local_client(&request.0.public_key, request.0.request.client_type).await {
+                match driver.router().lookup_local_client(&request.0.request.public_key, request.0.request.client_type).await {
                     Ok(Some((client, available))) => {
                         let body = LookupResponseBody::local(client, available);
 
@@ -295,7 +295,7 @@ where
                 }
 
                 // Try to find the client in the remote index
-                match driver.router().lookup_remote_client(&request.0.public_key, request.0.request.client_type).await {
+                match driver.router().lookup_remote_client(&request.0.request.public_key, request.0.request.client_type).await {
                     Ok(Some((client, server, available))) => {
                         let body = LookupResponseBody::remote(client, server, available);
 
@@ -317,7 +317,7 @@ where
 
                 // Return searching hint if neither local nor known remote record found
                 let hint = driver.router()
-                    .lookup_remote_client_hint(&request.0.public_key, request.0.request.client_type)
+                    .lookup_remote_client_hint(&request.0.request.public_key, request.0.request.client_type)
                     .await;
 
                 match hint {
-- 
2.43.0


From 0cce6075b4e06a8515deda442ee178e83a3604d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:06 +0000
Subject: [PATCH 02/17] fix: reject too short connection tokens instead of
 panicking

---
 src/rest_api/types/connection_token.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/rest_api/types/connection_token.rs b/src/rest_api/types/connection_token.rs
index cab26fa..f644c80 100644
--- a/src/rest_api/types/connection_token.rs
+++ b/src/rest_api/types/connection_token.rs
@@ -73,13 +73,13 @@ impl ConnectionToken {
     pub fn from_bytes(certificate: impl AsRef<[u8]>) -> Result<Self, CryptographyError> {
         let certificate = certificate.as_ref();
 
-        let mut auth_date = [0u8; 8];
-
-        auth_date.copy_from_slice(&certificate[..8]);
+        let Some((auth_date, public_key)) = certificate.split_first_chunk::<8>() else {
+            return Err(CryptographyError::Decoding("connection token is too short".into()));
+        };
 
         Ok(Self {
-            auth_date: u64::from_be_bytes(auth_date),
-            public_key: PublicKey::from_bytes(&certificate[8..])?
+            auth_date: u64::from_be_bytes(*auth_date),
+            public_key: PublicKey::from_bytes(public_key)?
         })
     }
 }
-- 
2.43.0


From 1932df16a00ec1fe29b95c1f2a1840c2326dca9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:06 +0000
Subject: [PATCH 03/17] fix: reject truncated signature capsules instead of
 panicking

---
 src/crypto/asymmetric/public_key.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/crypto/asymmetric/public_key.rs b/src/crypto/asymmetric/public_key.rs
index e8863ba..0b9fbc2 100644
--- a/src/crypto/asymmetric/public_key.rs
+++ b/src/crypto/asymmetric/public_key.rs
@@ -53,14 +53,17 @@ impl PublicKey {
     pub fn decode_encapsulated_signature(&self, capsule: impl AsRef<[u8]>) -> Result<Option<Vec<u8>>, CryptographyError> {
         let capsule = capsule.as_ref();
 
-        let mut sign_len_bytes = [0_u8; 8];
+        let Some((sign_len, body)) = capsule.split_first_chunk::<8>() else {
+            return Err(CryptographyError::Decoding("signature capsule is too short".into()));
+        };
 
-        sign_len_bytes.copy_from_slice(&capsule[..8]);
+        let sign_len = u64::from_be_bytes(*sign_len);
 
-        let sign_len = u64::from_be_bytes(sign_len_bytes) as usize;
+        if sign_len > body.len() as u64 {
+            return Err(CryptographyError::Decoding("signature capsule is truncated".into()));
+        }
 
-        let signature = &capsule[8..sign_len + 8];
-        let message = &capsule[sign_len + 8..];
+        let (signature, message) = body.split_at(sign_len as usize);
 
         if !self.verify_signature(message, signature)? {
             return Ok(None);
-- 
2.43.0


From 65b0422e40e7429949acd5f8328d5ddfe62bbb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:06 +0000
Subject: [PATCH 04/17] fix: keep inbox channels inside of the storage folder

---
 src/drivers/server/messages_inbox/stored_queue.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/drivers/server/messages_inbox/stored_queue.rs b/src/drivers/server/messages_inbox/stored_queue.rs
index 283a7cd..f1c1772 100644
--- a/src/drivers/server/messages_inbox/stored_queue.rs
+++ b/src/drivers/server/messages_inbox/stored_queue.rs
@@ -63,7 +63,7 @@ impl MessagesInbox for StoredQueueMessagesInbox {
 
         let folder = self.storage_folder
             .join(receiver.to_base64())
-            .join(&channel);
+            .join(base64_encode(&channel));
 
         tokio::fs::create_dir_all(&folder).await?;
 
@@ -105,7 +105,7 @@ impl MessagesInbox for StoredQueueMessagesInbox {
 
         let folder = self.storage_folder
             .join(receiver.to_base64())
-            .join(&channel);
+            .join(base64_encode(&channel));
 
         if let Ok(index) = tokio::fs::read(folder.join("index")).await {
             assert!(index.len() % 8 == 0);
-- 
2.43.0


From 4ad5b7b3b43159ccd9bd0600dd8d1c1b6bbed5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:06 +0000
Subject: [PATCH 05/17] fix: store the message before announcing it in the
 inbox index

---
 src/drivers/server/messages_inbox/stored_queue.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/drivers/server/messages_inbox/stored_queue.rs b/src/drivers/server/messages_inbox/stored_queue.rs
index f1c1772..39d68ea 100644
--- a/src/drivers/server/messages_inbox/stored_queue.rs
+++ b/src/drivers/server/messages_inbox/stored_queue.rs
@@ -83,8 +83,8 @@ impl MessagesInbox for StoredQueueMessagesInbox {
 
         let message_info = serde_json::to_vec(&message_info.to_json()?)?;
 
-        tokio::fs::write(folder.join("index"), index).await?;
         tokio::fs::write(folder.join(message_id.to_string()), message_info).await?;
+        tokio::fs::write(folder.join("index"), index).await?;
 
         Ok(())
     }
-- 
2.43.0


From 89da7d8618e4721dd7126509e537dd96da08f6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:06 +0000
Subject: [PATCH 06/17] fix: do not take an unreadable inbox index for an empty
 one

---
 src/drivers/server/messages_inbox/stored_queue.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/drivers/server/messages_inbox/stored_queue.rs b/src/drivers/server/messages_inbox/stored_queue.rs
index 39d68ea..f2064bf 100644
--- a/src/drivers/server/messages_inbox/stored_queue.rs
+++ b/src/drivers/server/messages_inbox/stored_queue.rs
@@ -67,8 +67,11 @@ impl MessagesInbox for StoredQueueMessagesInbox {
 
         tokio::fs::create_dir_all(&folder).await?;
 
-        let mut index = tokio::fs::read(folder.join("index")).await
-            .unwrap_or(vec![]);
+        let mut index = match tokio::fs::read(folder.join("index")).await {
+            Ok(index) => index,
+            Err(err) if err.kind() == std::io::ErrorKind::NotFound => vec![],
+            Err(err) => return Err(err.into())
+        };
 
         let message_id = safe_random_u64();
 
@@ -107,7 +110,13 @@ impl MessagesInbox for StoredQueueMessagesInbox {
             .join(receiver.to_base64())
             .join(base64_encode(&channel));
 
-        if let Ok(index) = tokio::fs::read(folder.join("index")).await {
+        let index = match tokio::fs::read(folder.join("index")).await {
+            Ok(index) => Some(index),
+            Err(err) if err.kind() == std::io::ErrorKind::NotFound => None,
+            Err(err) => return Err(err.into())
+        };
+
+        if let Some(index) = index {
             assert!(index.len() % 8 == 0);
 
             let mut bytes = [0; 8];
-- 
2.43.0


From 13adca213a6d666d79004f8329d92eea96a3c3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:06 +0000
Subject: [PATCH 07/17] fix: delete polled messages only after the whole poll
 succeeded

---
 .../server/messages_inbox/stored_queue.rs     | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/drivers/server/messages_inbox/stored_queue.rs b/src/drivers/server/messages_inbox/stored_queue.rs
index f2064bf..dcd348e 100644
--- a/src/drivers/server/messages_inbox/stored_queue.rs
+++ b/src/drivers/server/messages_inbox/stored_queue.rs
@@ -124,6 +124,7 @@ impl MessagesInbox for StoredQueueMessagesInbox {
             let mut shift = 0;
 
             let mut messages = Vec::new();
+            let mut polled = Vec::new();
 
             for message_id in index.chunks(8) {
                 if limit == 0 {
@@ -135,14 +136,18 @@ impl MessagesInbox for StoredQueueMessagesInbox {
                 let message_id = u64::from_be_bytes(bytes);
                 let message_path = folder.join(message_id.to_string());
 
-                if let Ok(message_info) = tokio::fs::read(&message_path).await {
-                    let message_info = serde_json::from_slice::<Json>(&message_info)?;
+                match tokio::fs::read(&message_path).await {
+                    Ok(message_info) => {
+                        let message_info = serde_json::from_slice::<Json>(&message_info)?;
 
-                    messages.push(MessageInfo::from_json(&message_info)?);
+                        messages.push(MessageInfo::from_json(&message_info)?);
+                        polled.push(message_path);
 
-                    limit -= 1;
+                        limit -= 1;
+                    }
 
-                    tokio::fs::remove_file(message_path).await?;
+                    Err(err) if err.kind() == std::io::ErrorKind::NotFound => (),
+                    Err(err) => return Err(err.into())
                 }
 
                 shift += 8;
@@ -152,6 +157,10 @@ impl MessagesInbox for StoredQueueMessagesInbox {
 
             tokio::fs::write(folder.join("index"), index).await?;
 
+            for message_path in polled {
+                tokio::fs::remove_file(message_path).await?;
+            }
+
             return Ok((
                 messages,
                 (index.len() / 8) as u64
-- 
2.43.0


From 4ea5b8978c56fe29f13de058f470c18d1d0eefc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:06 +0000
Subject: [PATCH 08/17] fix: report routing table records which could not be
 removed

---
 src/drivers/server/router/global_table.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/drivers/server/router/global_table.rs b/src/drivers/server/router/global_table.rs
index 4807704..491ad20 100755
--- a/src/drivers/server/router/global_table.rs
+++ b/src/drivers/server/router/global_table.rs
@@ -104,9 +104,12 @@ impl Router for GlobalTableRouter {
         // 1. It's faster and easier to implement
         // 2. Current implementations generally ignore availability
         //    flag thus changing it doesn't make a weather
-        let _ = tokio::fs::remove_file(self.storage_folder.join("local").join(&public_key)).await;
-        let _ = tokio::fs::remove_file(self.storage_folder.join("remote").join(&public_key)).await;
-        let _ = tokio::fs::remove_file(self.storage_folder.join("servers").join(&public_key)).await;
+        for table in ["local", "remote", "servers"] {
+            match tokio::fs::remove_file(self.storage_folder.join(table).join(&public_key)).await {
+                Err(err) if err.kind() != std::io::ErrorKind::NotFound => return Err(err.into()),
+                _ => ()
+            }
+        }
 
         Ok(())
     }
-- 
2.43.0


From 81f2c9d6b607c35f67bc71275bd324044fd5ad88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:06 +0000
Subject: [PATCH 09/17] fix: visit each server once during network traversal

---
 src/drivers/server/traversal/bfs_recursion.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/drivers/server/traversal/bfs_recursion.rs b/src/drivers/server/traversal/bfs_recursion.rs
index 5acdf55..e912151 100755
--- a/src/drivers/server/traversal/bfs_recursion.rs
+++ b/src/drivers/server/traversal/bfs_recursion.rs
@@ -1,4 +1,4 @@
-use std::collections::VecDeque;
+use std::collections::{HashSet, VecDeque};
 
 use crate::http::client::HttpClient;
 use crate::rest_api::middleware::Client as ClientMiddleware;
@@ -21,10 +21,15 @@ impl Traversal for BfsRecursionTraversal {
 
             let mut remote_servers = VecDeque::from(remote_servers);
 
+            // Store visited servers to prevent infinite traversal loops
+            let mut visited = HashSet::new();
+
             while let Some(remote_server) = remote_servers.pop_front() {
-                if let Ok(mut response) = client.get_servers(&remote_server.address).await {
-                    for remote_server in response.drain(..) {
-                        remote_servers.push_back(remote_server);
+                if visited.insert(remote_server.address.clone()) {
+                    if let Ok(mut response) = client.get_servers(&remote_server.address).await {
+                        for remote_server in response.drain(..) {
+                            remote_servers.push_back(remote_server);
+                        }
                     }
                 }
 
-- 
2.43.0


From 047b9f72a2a863e652b32fd81513d003ab72c8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:06 +0000
Subject: [PATCH 10/17] fix: ask each server once and survive bad hints in
 client lookup

---
 src/rest_api/middleware/client.rs | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/rest_api/middleware/client.rs b/src/rest_api/middleware/client.rs
index d04cf28..21269ff 100644
--- a/src/rest_api/middleware/client.rs
+++ b/src/rest_api/middleware/client.rs
@@ -401,7 +401,7 @@ impl<T: HttpClient> ConnectedClient<T> {
 
         while let Some(server_address) = queue.pop_front() {
             // Skip server if it was already used
-            if used_servers.contains(&server_address) {
+            if !used_servers.insert(server_address.clone()) {
                 continue;
             }
 
@@ -413,10 +413,20 @@ impl<T: HttpClient> ConnectedClient<T> {
                 // FIXME: causes some weird ass issue with "infinite async recursion"
                 format!("http://{server_address}/api/v1/lookup"), // resolve_uri(&server_address, self).await?
                 request.clone()
-            ).await?;
+            ).await;
+
+            let response = match response {
+                Ok(response) => response,
+
+                // Our local server must be accessible
+                Err(err) if used_servers.len() == 1 => return Err(err.into()),
+
+                // Skip inaccessible hinted servers
+                Err(_) => continue
+            };
 
             // Validate response
-            if !response.validate(proof_seed)? {
+            if !matches!(response.validate(proof_seed), Ok(true)) {
                 // Skip execution and go to the next server
                 continue;
             }
@@ -441,8 +451,6 @@ impl<T: HttpClient> ConnectedClient<T> {
                     }
                 }
             }
-
-            used_servers.insert(server_address);
         }
 
         Ok(None)
-- 
2.43.0


From 4f5bf0c9985524952630d33ebe3c47b25e03ab35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:06 +0000
Subject: [PATCH 11/17] fix: accept replies of the connected server from its
 own key only

---
 src/rest_api/middleware/client.rs | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/rest_api/middleware/client.rs b/src/rest_api/middleware/client.rs
index 21269ff..fb22410 100644
--- a/src/rest_api/middleware/client.rs
+++ b/src/rest_api/middleware/client.rs
@@ -183,7 +183,11 @@ impl<T: HttpClient + Send + Sync> Client<T> {
 
         // Check response status
         match response.0 {
-            Response::Success { .. } => {
+            Response::Success { public_key, .. } => {
+                if public_key != server_public {
+                    return Err(Error::InvalidProofSeedSignature);
+                }
+
                 let client = ConnectedClient {
                     http_client: self.http_client.clone(),
                     driver: self.driver.clone(),
@@ -305,11 +309,19 @@ impl<T: HttpClient> ConnectedClient<T> {
         }
 
         // Check response status
-        if let Response::Error { status, reason, .. } = response.0 {
-            return Err(Error::RequestFailed {
-                status,
-                reason
-            });
+        match response.0 {
+            Response::Success { public_key, .. } => {
+                if public_key != self.connected_server.public_key {
+                    return Err(Error::InvalidProofSeedSignature);
+                }
+            }
+
+            Response::Error { status, reason, .. } => {
+                return Err(Error::RequestFailed {
+                    status,
+                    reason
+                });
+            }
         }
 
         Ok(Client {
@@ -563,7 +575,11 @@ impl<T: HttpClient> ConnectedClient<T> {
 
         // Check response status
         match response.0 {
-            Response::Success { response, .. } => {
+            Response::Success { public_key, response, .. } => {
+                if public_key != self.connected_server.public_key {
+                    return Err(Error::InvalidProofSeedSignature);
+                }
+
                 Ok((response.messages, response.remaining))
             }
 
-- 
2.43.0


From 9e94218cefca61e3acb18fc5a29ee5ca0f189668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:06 +0000
Subject: [PATCH 12/17] fix: keep the scheme of unsupported addresses

---
 src/address.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/address.rs b/src/address.rs
index 3cb9001..f198b8c 100644
--- a/src/address.rs
+++ b/src/address.rs
@@ -91,9 +91,11 @@ impl FromStr for Address {
     type Err = CryptographyError;
 
     fn from_str(address: &str) -> Result<Self, Self::Err> {
-        let (protocol, address) = address
+        let uri = address;
+
+        let (protocol, address) = uri
             .split_once("://")
-            .unwrap_or(("", address));
+            .unwrap_or(("", uri));
 
         let address = address.to_owned();
 
@@ -158,7 +160,7 @@ impl FromStr for Address {
                 address
             }),
 
-            _ => Ok(Self::Raw(address))
+            _ => Ok(Self::Raw(uri.to_owned()))
         }
     }
 }
-- 
2.43.0


From e3c05fe4b1cc5527c88c1f2e3819d0264e8857a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:06 +0000
Subject: [PATCH 13/17] fix: do not trace secret keys

---
 src/rest_api/middleware/client.rs | 2 +-
 src/rest_api/middleware/server.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rest_api/middleware/client.rs b/src/rest_api/middleware/client.rs
index fb22410..3ae5a0b 100644
--- a/src/rest_api/middleware/client.rs
+++ b/src/rest_api/middleware/client.rs
@@ -28,7 +28,7 @@ pub struct Client<T> {
 impl<T: HttpClient + Send + Sync> Client<T> {
     #[cfg_attr(feature = "tracing", tracing::instrument(skip_all, fields(
         http_client_type = std::any::type_name::<T>(),
-        client_secret = client_driver.secret_key().to_base64(),
+        client_public = client_driver.secret_key().public_key().to_base64(),
         client_info = ?client_driver.info()
     )))]
     pub fn new(http_client: T, client_driver: ClientDriver) -> Self {
diff --git a/src/rest_api/middleware/server.rs b/src/rest_api/middleware/server.rs
index 4fcb816..97ae9e6 100644
--- a/src/rest_api/middleware/server.rs
+++ b/src/rest_api/middleware/server.rs
@@ -41,7 +41,7 @@ where
             traversal_type = std::any::type_name::<TraversalExt>(),
             messages_inbox_type = std::any::type_name::<MessagesInboxExt>(),
             server_address = server_driver.params().address,
-            server_secret = server_driver.params().secret_key.to_base64(),
+            server_public = server_driver.params().secret_key.public_key().to_base64(),
             "Building server REST API middleware"
         );
 
-- 
2.43.0


From 6abf68222f66a6ed6fe3fe26ffd9e99fb4b99e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:06 +0000
Subject: [PATCH 14/17] fix: deserialize secret keys from the structure they
 are serialized to

---
 src/crypto/asymmetric/secret_key.rs | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/src/crypto/asymmetric/secret_key.rs b/src/crypto/asymmetric/secret_key.rs
index 1a41250..4975b62 100644
--- a/src/crypto/asymmetric/secret_key.rs
+++ b/src/crypto/asymmetric/secret_key.rs
@@ -129,24 +129,17 @@ impl<'de> serde::Deserialize<'de> for SecretKey {
     where D: serde::Deserializer<'de> {
         use serde::de::Error;
 
-        struct Visitor;
-
-        impl<'de> serde::de::Visitor<'de> for Visitor {
-            type Value = Vec<u8>;
-
-            fn expecting(&self, formatter: &mut std::fmt::Formatter) -> std::fmt::Result {
-                write!(formatter, "bytes sequence expected")
-            }
-
-            fn visit_bytes<E>(self, v: &[u8]) -> Result<Self::Value, E>
-            where E: serde::de::Error {
-                Ok(v.to_vec())
-            }
+        // Mirrors the structure written by the `Serialize` implementation
+        #[derive(serde::Deserialize)]
+        #[serde(rename = "SecretKey")]
+        struct SecretKeyFields {
+            #[serde(rename = "0")]
+            secret_key: Vec<u8>
         }
 
-        let secret_key = deserializer.deserialize_struct("SecretKey", &["0"], Visitor)?;
+        let fields = <SecretKeyFields as serde::Deserialize>::deserialize(deserializer)?;
 
-        let secret_key = SecretKey::deserialize(secret_key)
+        let secret_key = SecretKey::deserialize(fields.secret_key)
             .map_err(D::Error::custom)?;
 
         Ok(secret_key)
-- 
2.43.0


From 032980529778d07c9555633b4c6cfdca3346cb31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:06 +0000
Subject: [PATCH 15/17] fix: do not truncate long port mapping durations

---
 src/port_forward/upnp.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/port_forward/upnp.rs b/src/port_forward/upnp.rs
index da7e05f..5581cd9 100644
--- a/src/port_forward/upnp.rs
+++ b/src/port_forward/upnp.rs
@@ -21,7 +21,7 @@ impl UpnpPortForwarder {
             address: None,
             port,
             protocol,
-            duration: duration.as_secs() as u32,
+            duration: u32::try_from(duration.as_secs()).unwrap_or(u32::MAX),
             comment: String::from("Hyperborea UPnP port forwarder")
         }
     }
-- 
2.43.0


From 2342c8ff097607cd02d91fd6270eb376b13a3e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:06 +0000
Subject: [PATCH 16/17] fix: close both protocols and forget only closed ports

---
 src/port_forward/upnp.rs | 49 ++++++++++++++++++++++++++++++++--------
 1 file changed, 40 insertions(+), 9 deletions(-)

diff --git a/src/port_forward/upnp.rs b/src/port_forward/upnp.rs
index 5581cd9..6dae10b 100644
--- a/src/port_forward/upnp.rs
+++ b/src/port_forward/upnp.rs
@@ -25,6 +25,16 @@ impl UpnpPortForwarder {
             comment: String::from("Hyperborea UPnP port forwarder")
         }
     }
+
+    fn copy_config(config: &UpnpConfig) -> UpnpConfig {
+        UpnpConfig {
+            address: config.address.clone(),
+            port: config.port,
+            protocol: config.protocol,
+            duration: config.duration,
+            comment: config.comment.clone()
+        }
+    }
 }
 
 #[async_trait::async_trait]
@@ -54,28 +64,49 @@ impl PortForwarder for UpnpPortForwarder {
     }
 
     async fn close(&self, port: u16, protocol: Protocol) -> Result<bool, Self::Error> {
+        if protocol == Protocol::Both {
+            return Ok(
+                self.close(port, Protocol::TCP).await? &&
+                self.close(port, Protocol::UDP).await?
+            );
+        }
+
         let mut forwarded = self.forwarded.lock()
             .expect("Failed to get forwards table");
 
-        if let Some(config) = forwarded.remove(&(port, protocol)) {
-            delete_ports([config])
+        if let Some(config) = forwarded.get(&(port, protocol)) {
+            delete_ports([Self::copy_config(config)])
                 .next()
                 .unwrap()?;
+
+            forwarded.remove(&(port, protocol));
         }
 
         Ok(true)
     }
 
     async fn discard(&self) -> Result<bool, Self::Error> {
-        let configs = self.forwarded.lock()
+        let mut result = Ok(true);
+
+        // Try to close every port, keeping those which were not closed
+        self.forwarded.lock()
             .expect("Failed to get forwards table")
-            .drain()
-            .map(|(_, v)| v)
-            .collect::<Vec<_>>();
+            .retain(|_, config| {
+                let deleted = delete_ports([Self::copy_config(config)])
+                    .next()
+                    .unwrap();
 
-        delete_ports(configs)
-            .collect::<Result<_, _>>()?;
+                match deleted {
+                    Ok(()) => false,
 
-        Ok(true)
+                    Err(err) => {
+                        result = Err(err);
+
+                        true
+                    }
+                }
+            });
+
+        result
     }
 }
-- 
2.43.0


From 6c97dce1681d953f32772b8bd5eb9fcc7decb95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:24 +0000
Subject: [PATCH 17/17] fix: name the limit field in poll request decoding
 errors

---
 src/rest_api/requests/poll/request.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rest_api/requests/poll/request.rs b/src/rest_api/requests/poll/request.rs
index 71bd74b..e1fc71c 100644
--- a/src/rest_api/requests/poll/request.rs
+++ b/src/rest_api/requests/poll/request.rs
@@ -54,14 +54,14 @@ impl AsJson for PollRequestBody {
                 .ok_or_else(|| AsJsonError::FieldNotFound("channel"))?,
 
             limit: json.get("limit")
-                .ok_or_else(|| AsJsonError::FieldNotFound("channel"))
+                .ok_or_else(|| AsJsonError::FieldNotFound("limit"))
                 .and_then(|value| {
                     if value.is_null() {
                         Ok(None)
                     } else {
                         value.as_u64()
                             .map(Some)
-                            .ok_or_else(|| AsJsonError::FieldValueInvalid("channel"))
+                            .ok_or_else(|| AsJsonError::FieldValueInvalid("limit"))
                     }
                 })?
         })
-- 
2.43.0

