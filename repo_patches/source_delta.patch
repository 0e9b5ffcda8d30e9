From 9894391ce4b02e41163c781a44c251b7ed1c6d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:26 +0000
Subject: [PATCH 01/10] fix: return errors instead of panicking for unsupported
 signing keys

---
 src/private/signing_key_inner.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/private/signing_key_inner.rs b/src/private/signing_key_inner.rs
index 42a3b4c..a349362 100644
--- a/src/private/signing_key_inner.rs
+++ b/src/private/signing_key_inner.rs
@@ -8,10 +8,14 @@ pub(crate) enum Error {
     BoundTokenMustUseSignBlob,
     #[error("bound token signing error: {0}")]
     BoundTokenSigning(#[source] crate::private::bound_token::BoundTokenError),
+    #[error("hmac signing is not supported")]
+    HmacNotSupported,
     #[error("service account private key pem parsing error: {0}")]
     ServiceAccountPrivateKeyPemParsing(#[source] pem::PemError),
     #[error("service account private key pkcs8 parsing error: {0}")]
     ServiceAccountPrivateKeyPkcs8Parsing(ring::error::KeyRejected),
+    #[error("service account sign blob is not supported")]
+    ServiceAccountSignBlobNotSupported,
     #[error("service account signing error: {0}")]
     ServiceAccountSigning(ring::error::Unspecified),
 }
@@ -58,10 +62,10 @@ impl SigningKeyInner {
                     Err(Error::BoundTokenMustUseSignBlob)
                 }
             }
-            SigningKeyInner::Hmac { .. } => todo!(),
+            SigningKeyInner::Hmac { .. } => Err(Error::HmacNotSupported),
             SigningKeyInner::ServiceAccount { private_key, .. } => {
                 if use_sign_blob {
-                    todo!()
+                    Err(Error::ServiceAccountSignBlobNotSupported)
                 } else {
                     let pkcs8 = pem::parse(private_key.as_bytes())
                         .map_err(Error::ServiceAccountPrivateKeyPemParsing)?;
-- 
2.43.0


From 2457e57a38e0483ea908a79f954f29812791b1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:52 +0000
Subject: [PATCH 02/10] fix: percent-encode everything but unreserved
 characters in the canonical query string

---
 src/private/canonical_request.rs | 16 +++++++++++++++-
 src/private/signed_url.rs        |  4 +---
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/private/canonical_request.rs b/src/private/canonical_request.rs
index 2bad0e7..7b565f9 100644
--- a/src/private/canonical_request.rs
+++ b/src/private/canonical_request.rs
@@ -66,12 +66,26 @@ impl std::fmt::Display for CanonicalRequest {
 
 pub(crate) fn canonical_query_string(request: &http::Request<()>) -> String {
     let mut query_pairs = form_urlencoded::parse(request.uri().query().unwrap_or("").as_bytes())
-        .map(|(k, v)| format!("{}={}", percent_encode(&k), percent_encode(&v)))
+        .map(|(k, v)| format!("{}={}", uri_encode(&k), uri_encode(&v)))
         .collect::<Vec<String>>();
     query_pairs.sort();
     query_pairs.join("&")
 }
 
+/// Percent-encodes everything but the unreserved characters of RFC 3986.
+pub(crate) fn uri_encode(s: &str) -> String {
+    let mut encoded = String::with_capacity(s.len());
+    for b in s.bytes() {
+        match b {
+            b'A'..=b'Z' | b'a'..=b'z' | b'0'..=b'9' | b'-' | b'.' | b'_' | b'~' => {
+                encoded.push(char::from(b));
+            }
+            _ => encoded.push_str(&format!("%{b:02X}")),
+        }
+    }
+    encoded
+}
+
 // ?=!#$&'()*+,:;@[]"
 pub(crate) fn percent_encode(s: &str) -> String {
     let mut encoded = String::new();
diff --git a/src/private/signed_url.rs b/src/private/signed_url.rs
index 7289079..62121cd 100644
--- a/src/private/signed_url.rs
+++ b/src/private/signed_url.rs
@@ -95,9 +95,7 @@ fn add_signed_url_required_query_string_parameters(
         .append_pair("X-Goog-Algorithm", x_goog_algorithm.as_str())
         .append_pair(
             "X-Goog-Credential",
-            format!("{authorizer}/{credential_scope}")
-                .replace('/', "%2F")
-                .as_str(),
+            format!("{authorizer}/{credential_scope}").as_str(),
         )
         .append_pair("X-Goog-Date", x_goog_date.to_string().as_str())
         .append_pair("X-Goog-Expires", expiration.to_string().as_str())
-- 
2.43.0


From 257798612599bbee2b062b966e805e68dc932aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:55 +0000
Subject: [PATCH 03/10] fix: sort the canonical query string by parameter name

---
 src/private/canonical_request.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/private/canonical_request.rs b/src/private/canonical_request.rs
index 7b565f9..7e8c1da 100644
--- a/src/private/canonical_request.rs
+++ b/src/private/canonical_request.rs
@@ -66,10 +66,14 @@ impl std::fmt::Display for CanonicalRequest {
 
 pub(crate) fn canonical_query_string(request: &http::Request<()>) -> String {
     let mut query_pairs = form_urlencoded::parse(request.uri().query().unwrap_or("").as_bytes())
-        .map(|(k, v)| format!("{}={}", uri_encode(&k), uri_encode(&v)))
-        .collect::<Vec<String>>();
+        .map(|(k, v)| (uri_encode(&k), uri_encode(&v)))
+        .collect::<Vec<(String, String)>>();
     query_pairs.sort();
-    query_pairs.join("&")
+    query_pairs
+        .into_iter()
+        .map(|(k, v)| format!("{k}={v}"))
+        .collect::<Vec<String>>()
+        .join("&")
 }
 
 /// Percent-encodes everything but the unreserved characters of RFC 3986.
-- 
2.43.0


From 7af19b5654d998c5879bce7504f429e985c7cee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:18 +0000
Subject: [PATCH 04/10] fix: escape bucket and object names in signed URLs

---
 src/signed_url.rs | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/src/signed_url.rs b/src/signed_url.rs
index da8f44d..b5a5448 100644
--- a/src/signed_url.rs
+++ b/src/signed_url.rs
@@ -2,8 +2,8 @@ use std::{str::FromStr as _, time::SystemTime};
 
 use crate::{
     private::{
-        utils::UnixTimestamp, ActiveDatetime, CredentialScope, Date, Expiration, HttpVerb,
-        Location, RequestType, Service, SignedUrl,
+        canonical_request::uri_encode, utils::UnixTimestamp, ActiveDatetime, CredentialScope, Date,
+        Expiration, HttpVerb, Location, RequestType, Service, SignedUrl,
     },
     SigningKey,
 };
@@ -36,6 +36,8 @@ enum ErrorKind {
     Now,
     #[error(transparent)]
     SignedUrl(crate::private::signed_url::Error),
+    #[error("bucket name or object name contains a dot segment")]
+    UnaddressableResource,
 }
 
 #[derive(Clone)]
@@ -78,14 +80,21 @@ pub async fn build_signed_url(
     .map_err(|_| ErrorKind::ExpirationOutOfRange)?;
 
     let http_method = HttpVerb::from_str(http_method.as_str()).map_err(ErrorKind::HttpMethod)?;
-    let mut url = url::Url::parse(
-        format!(
-            // TODO: escape bucket_name and object_name
-            "https://storage.googleapis.com/{bucket_name}/{object_name}",
-        )
-        .as_str(),
-    )
-    .map_err(ErrorKind::InvalidQueryParameters)?;
+    let path = format!(
+        "/{}/{}",
+        uri_encode(&bucket_name),
+        object_name
+            .split('/')
+            .map(uri_encode)
+            .collect::<Vec<String>>()
+            .join("/")
+    );
+    let mut url = url::Url::parse(format!("https://storage.googleapis.com{path}").as_str())
+        .map_err(ErrorKind::InvalidQueryParameters)?;
+    if url.path() != path {
+        // `.` and `..` segments cannot be expressed in a URL
+        return Err(ErrorKind::UnaddressableResource.into());
+    }
     url.query_pairs_mut().extend_pairs(
         query_parameters
             .iter()
-- 
2.43.0


From 2bd1fa5bb1cb3146b1a9cbbd0249453745e22c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:21 +0000
Subject: [PATCH 05/10] fix: trim and collapse whitespace in canonical header
 values

---
 src/private/canonical_request.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/private/canonical_request.rs b/src/private/canonical_request.rs
index 7e8c1da..e3ab025 100644
--- a/src/private/canonical_request.rs
+++ b/src/private/canonical_request.rs
@@ -32,7 +32,10 @@ impl CanonicalRequest {
                     .push(
                         value
                             .to_str()
-                            .map_err(Error::HeaderValueContainsInvalidCharacter)?,
+                            .map_err(Error::HeaderValueContainsInvalidCharacter)?
+                            .split_ascii_whitespace()
+                            .collect::<Vec<&str>>()
+                            .join(" "),
                     );
             }
             canonical_headers
-- 
2.43.0


From e32872176dc7c6d6bea6be64153ac3f63b5cb997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:25 +0000
Subject: [PATCH 06/10] fix: return an error for a token lifetime beyond the
 representable time

---
 src/private/bound_token.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/private/bound_token.rs b/src/private/bound_token.rs
index 1c4c0bc..75000ac 100644
--- a/src/private/bound_token.rs
+++ b/src/private/bound_token.rs
@@ -44,6 +44,8 @@ pub(crate) enum BoundTokenError {
     TokenRequestErrorResponse(#[source] reqwest::Error),
     #[error("bound token / token request / execute error: {0}")]
     TokenRequestExecute(#[source] reqwest::Error),
+    #[error("bound token / token request / invalid expires_in error: {0}")]
+    TokenRequestInvalidExpiresIn(u64),
     #[error("bound token / token request / invalid token_type error: {0}")]
     TokenRequestInvalidTokenType(String),
     #[error("bound token / token request / status error: {0} {1}")]
@@ -163,7 +165,11 @@ impl BoundToken {
                         access_token.token_type,
                     ));
                 }
-                let expires = SystemTime::now() + Duration::from_secs(access_token.expires_in);
+                let expires = SystemTime::now()
+                    .checked_add(Duration::from_secs(access_token.expires_in))
+                    .ok_or(BoundTokenError::TokenRequestInvalidExpiresIn(
+                        access_token.expires_in,
+                    ))?;
                 *cache = Some((email.clone(), access_token.access_token.clone(), expires));
                 (email, access_token.access_token)
             }
-- 
2.43.0


From 1b1c60027ee2fa706d440fe568fe52208908db30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:28 +0000
Subject: [PATCH 07/10] fix: return an error instead of panicking for an
 oversized URL

---
 src/private/signed_url.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/private/signed_url.rs b/src/private/signed_url.rs
index 62121cd..98591bb 100644
--- a/src/private/signed_url.rs
+++ b/src/private/signed_url.rs
@@ -15,6 +15,8 @@ pub(crate) enum Error {
     CanonicalRequest(crate::private::canonical_request::Error),
     #[error("host header not found")]
     HostHeaderNotFound,
+    #[error("invalid uri: {0}")]
+    InvalidUri(http::uri::InvalidUri),
     #[error("signing error: {0}")]
     Signing(crate::private::signing_key_inner::Error),
 }
@@ -112,7 +114,7 @@ fn add_signed_url_required_query_string_parameters(
                 .as_str(),
         )
         .finish();
-    *request.uri_mut() = http::Uri::try_from(url1.to_string()).expect("url to be valid");
+    *request.uri_mut() = http::Uri::try_from(url1.to_string()).map_err(Error::InvalidUri)?;
     Ok(())
 }
 
-- 
2.43.0


From 91d242a47df7ed9f5297e8f7e08bf26cbbc444d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:44 +0000
Subject: [PATCH 08/10] fix: return an error instead of panicking for too many
 headers

---
 src/signed_url.rs | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/src/signed_url.rs b/src/signed_url.rs
index b5a5448..3ecb30f 100644
--- a/src/signed_url.rs
+++ b/src/signed_url.rs
@@ -36,6 +36,8 @@ enum ErrorKind {
     Now,
     #[error(transparent)]
     SignedUrl(crate::private::signed_url::Error),
+    #[error(transparent)]
+    TooManyHeaders(http::header::MaxSizeReached),
     #[error("bucket name or object name contains a dot segment")]
     UnaddressableResource,
 }
@@ -106,20 +108,16 @@ pub async fn build_signed_url(
         .uri(url.to_string())
         .body(())
         .map_err(ErrorKind::HttpRequest)?;
-    request.headers_mut().extend(
-        headers
-            .iter()
-            .map(
-                |(k, v)| -> Result<(http::header::HeaderName, http::header::HeaderValue), Error> {
-                    let key = http::header::HeaderName::from_bytes(k.as_bytes())
-                        .map_err(ErrorKind::InvalidHeaderName)?;
-                    let value = http::header::HeaderValue::from_str(v)
-                        .map_err(ErrorKind::InvalidHeaderValue)?;
-                    Ok((key, value))
-                },
-            )
-            .collect::<Result<Vec<_>, Error>>()?,
-    );
+    for (k, v) in &headers {
+        let key = http::header::HeaderName::from_bytes(k.as_bytes())
+            .map_err(ErrorKind::InvalidHeaderName)?;
+        let value =
+            http::header::HeaderValue::from_str(v).map_err(ErrorKind::InvalidHeaderValue)?;
+        request
+            .headers_mut()
+            .try_append(key, value)
+            .map_err(ErrorKind::TooManyHeaders)?;
+    }
     let credential_scope = CredentialScope::new(
         Date::from_unix_timestamp_obj(now),
         Location::try_from(region.as_str()).map_err(ErrorKind::Location)?,
-- 
2.43.0


From 6b6785146118d05ed01b4a7922252b3c56c0af89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:05 +0000
Subject: [PATCH 09/10] fix: sign with signBlob as the account named in the
 credential

---
 src/html_form_data.rs            |  6 +++++-
 src/private/bound_token.rs       |  8 ++++++--
 src/private/signed_url.rs        |  6 +++++-
 src/private/signing_key_inner.rs | 10 ++++++++--
 4 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/html_form_data.rs b/src/html_form_data.rs
index 1a68e2c..092df86 100644
--- a/src/html_form_data.rs
+++ b/src/html_form_data.rs
@@ -561,7 +561,11 @@ impl HtmlFormDataBuilder {
                 let message = encoded_policy.as_str();
                 let message_digest = signing_key
                     .0
-                    .sign(*use_sign_blob, message.as_bytes())
+                    .sign(
+                        service_account_client_email.as_str(),
+                        *use_sign_blob,
+                        message.as_bytes(),
+                    )
                     .await
                     .map_err(ErrorKind::Signing)?;
                 let x_goog_signature = hex_encode(&message_digest);
diff --git a/src/private/bound_token.rs b/src/private/bound_token.rs
index 75000ac..9bd00ad 100644
--- a/src/private/bound_token.rs
+++ b/src/private/bound_token.rs
@@ -176,8 +176,12 @@ impl BoundToken {
         })
     }
 
-    pub(crate) async fn sign(&self, message: &[u8]) -> Result<Vec<u8>, BoundTokenError> {
-        let (email, token) = self.get_email_and_token().await?;
+    pub(crate) async fn sign(
+        &self,
+        email: &str,
+        message: &[u8],
+    ) -> Result<Vec<u8>, BoundTokenError> {
+        let (_, token) = self.get_email_and_token().await?;
 
         // <https://cloud.google.com/iam/docs/reference/credentials/rest/v1/projects.serviceAccounts/signBlob>
         #[derive(Debug, serde::Serialize)]
diff --git a/src/private/signed_url.rs b/src/private/signed_url.rs
index 98591bb..e880f0c 100644
--- a/src/private/signed_url.rs
+++ b/src/private/signed_url.rs
@@ -54,7 +54,11 @@ impl SignedUrl {
         let message = string_to_sign.to_string();
         let message_digest = signing_key
             .0
-            .sign(use_sign_blob, message.as_bytes())
+            .sign(
+                service_account_client_email.as_str(),
+                use_sign_blob,
+                message.as_bytes(),
+            )
             .await
             .map_err(Error::Signing)?;
         let request_signature = hex_encode(&message_digest);
diff --git a/src/private/signing_key_inner.rs b/src/private/signing_key_inner.rs
index a349362..fb8acf3 100644
--- a/src/private/signing_key_inner.rs
+++ b/src/private/signing_key_inner.rs
@@ -50,12 +50,18 @@ impl SigningKeyInner {
         })
     }
 
-    pub(crate) async fn sign(&self, use_sign_blob: bool, message: &[u8]) -> Result<Vec<u8>, Error> {
+    /// `authorizer` is the account returned by [`Self::authorizer`] for this signature.
+    pub(crate) async fn sign(
+        &self,
+        authorizer: &str,
+        use_sign_blob: bool,
+        message: &[u8],
+    ) -> Result<Vec<u8>, Error> {
         match self {
             SigningKeyInner::BoundToken(bound_token) => {
                 if use_sign_blob {
                     Ok(bound_token
-                        .sign(message)
+                        .sign(authorizer, message)
                         .await
                         .map_err(Error::BoundTokenSigning)?)
                 } else {
-- 
2.43.0


From 875867f30a30cd3fecfb8c79953a4b2930c6539b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:20 +0000
Subject: [PATCH 10/10] fix: percent-encode the account name in the signBlob
 URL

---
 src/private/bound_token.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/private/bound_token.rs b/src/private/bound_token.rs
index 9bd00ad..db0c4ce 100644
--- a/src/private/bound_token.rs
+++ b/src/private/bound_token.rs
@@ -3,6 +3,8 @@ use std::{
     time::{Duration, SystemTime},
 };
 
+use crate::private::canonical_request::uri_encode;
+
 #[derive(Clone, Debug, serde::Deserialize)]
 struct AccessToken {
     access_token: String,
@@ -198,7 +200,8 @@ impl BoundToken {
             signed_blob: String,
         }
         let url = format!(
-            "https://iamcredentials.googleapis.com/v1/projects/-/serviceAccounts/{email}:signBlob"
+            "https://iamcredentials.googleapis.com/v1/projects/-/serviceAccounts/{}:signBlob",
+            uri_encode(email)
         );
         let request = self
             .client
-- 
2.43.0

