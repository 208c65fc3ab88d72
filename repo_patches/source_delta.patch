From fefc834e96b96b09eccb0e174b8c412e6e99af67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:04 +0000
Subject: [PATCH 01/90] fix: rate limiter refill no longer discards elapsed
 fraction of an interval

---
 crates/sip-ratelimit/src/lib.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/sip-ratelimit/src/lib.rs b/crates/sip-ratelimit/src/lib.rs
index 08a6bee..0079737 100644
--- a/crates/sip-ratelimit/src/lib.rs
+++ b/crates/sip-ratelimit/src/lib.rs
@@ -376,7 +376,10 @@ impl TokenBucket {
             let intervals = elapsed.as_millis() / config.refill_interval_ms as u128;
             let tokens_to_add = (intervals as f64) * (config.tokens_per_refill as f64);
             self.tokens = (self.tokens + tokens_to_add).min(config.burst_capacity as f64);
-            self.last_refill = now;
+            // Advance by whole intervals only: resetting to `now` would discard the
+            // fraction of an interval already elapsed on every check.
+            self.last_refill +=
+                Duration::from_millis((intervals * config.refill_interval_ms as u128) as u64);
         }
     }
 
-- 
2.43.0


From 47a2e822b650280afc4ea4f2854824e1d8315962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:06 +0000
Subject: [PATCH 02/90] fix: rate limiter sustained rate never exceeds the
 configured limit

---
 crates/sip-ratelimit/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/sip-ratelimit/src/lib.rs b/crates/sip-ratelimit/src/lib.rs
index 0079737..fb1217b 100644
--- a/crates/sip-ratelimit/src/lib.rs
+++ b/crates/sip-ratelimit/src/lib.rs
@@ -194,8 +194,8 @@ impl RateLimitConfig {
         }
 
         // Calculate refill interval: distribute tokens evenly across window
-        let interval = (window_secs * 1000) / max_requests as u64;
-        let refill_interval_ms = if interval == 0 { 1 } else { interval };
+        // Round up: a shorter interval would refill faster than max_requests per window.
+        let refill_interval_ms = (window_secs * 1000).div_ceil(max_requests as u64);
 
         Ok(Self {
             max_requests,
-- 
2.43.0


From f7b0c858b3cc461a8f03a418076e3fbc053cba45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:29 +0000
Subject: [PATCH 03/90] fix: SipUri::new brackets IPv6 hosts in the printed URI

---
 crates/sip-core/src/uri.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/sip-core/src/uri.rs b/crates/sip-core/src/uri.rs
index a93bb5a..6e4e464 100644
--- a/crates/sip-core/src/uri.rs
+++ b/crates/sip-core/src/uri.rs
@@ -296,17 +296,17 @@ impl SipUri {
         let host = host.into();
         validate_host(&host)?;
 
-        let raw = SmolStr::new(format!("sip:{}", host));
-
-        Ok(Self {
-            raw,
+        let mut uri = Self {
+            raw: SmolStr::default(),
             sips: false,
             user: None,
             host,
             port: None,
             params: BTreeMap::new(),
             headers: BTreeMap::new(),
-        })
+        };
+        uri.raw = build_raw_sip_uri(&uri);
+        Ok(uri)
     }
 
     /// Attempts to parse a SIP or SIPS URI from the provided string.
-- 
2.43.0


From fbcbd01a65516ef69b928ebc26612f9e415f2ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:57 +0000
Subject: [PATCH 04/90] fix: rebuilt SIP URIs re-escape the percent-decoded
 user part

---
 crates/sip-core/src/uri.rs | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/crates/sip-core/src/uri.rs b/crates/sip-core/src/uri.rs
index 6e4e464..05a7008 100644
--- a/crates/sip-core/src/uri.rs
+++ b/crates/sip-core/src/uri.rs
@@ -7,7 +7,7 @@
 use std::collections::BTreeMap;
 use std::fmt;
 
-use percent_encoding::percent_decode_str;
+use percent_encoding::{percent_decode_str, percent_encode, AsciiSet, NON_ALPHANUMERIC};
 use smol_str::SmolStr;
 
 use crate::TelUri;
@@ -781,11 +781,32 @@ fn is_token_char(c: char) -> bool {
         )
 }
 
+/// Characters that must be escaped in the user part (RFC 3261 §25.1:
+/// `unreserved / user-unreserved`, plus `:` which separates a password).
+const USER_ESCAPE: &AsciiSet = &NON_ALPHANUMERIC
+    .remove(b'-')
+    .remove(b'_')
+    .remove(b'.')
+    .remove(b'!')
+    .remove(b'~')
+    .remove(b'*')
+    .remove(b'\'')
+    .remove(b'(')
+    .remove(b')')
+    .remove(b'&')
+    .remove(b'=')
+    .remove(b'+')
+    .remove(b'$')
+    .remove(b',')
+    .remove(b':');
+
 fn build_raw_sip_uri(uri: &SipUri) -> SmolStr {
     let mut out = String::new();
     out.push_str(if uri.sips { "sips:" } else { "sip:" });
     if let Some(user) = &uri.user {
-        out.push_str(user.as_str());
+        // `user` is stored percent-decoded: re-escape whatever may not appear
+        // literally so the printed URI decodes to the same user.
+        out.extend(percent_encode(user.as_bytes(), USER_ESCAPE));
         out.push('@');
     }
     if uri.host.contains(':') && !uri.host.starts_with('[') && !uri.host.ends_with(']') {
-- 
2.43.0


From cd4089feb745a856ac4bc9b08be42082b8f6ba11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:32 +0000
Subject: [PATCH 05/90] fix: bracketed URI hosts must be IPv6 and be followed
 by a plain port or nothing

---
 crates/sip-core/src/uri.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/crates/sip-core/src/uri.rs b/crates/sip-core/src/uri.rs
index 05a7008..c760759 100644
--- a/crates/sip-core/src/uri.rs
+++ b/crates/sip-core/src/uri.rs
@@ -743,13 +743,26 @@ fn split_host_port(input: &str) -> Result<(&str, Option<u16>), UriError> {
         let host = &input[1..end];
         let remainder = &input[end + 1..];
 
+        if !host.contains(':') {
+            return Err(UriError::InvalidHost(
+                "brackets must enclose an IPv6 address".to_string(),
+            ));
+        }
+
         if let Some(stripped) = remainder.strip_prefix(':') {
+            if !stripped.chars().all(|c| c.is_ascii_digit()) {
+                return Err(UriError::InvalidPort("invalid port number".to_string()));
+            }
             let port = stripped
                 .parse()
                 .map_err(|_| UriError::InvalidPort("invalid port number".to_string()))?;
             Ok((host, Some(port)))
-        } else {
+        } else if remainder.is_empty() {
             Ok((host, None))
+        } else {
+            Err(UriError::InvalidHost(
+                "unexpected text after IPv6 address".to_string(),
+            ))
         }
     } else if let Some(idx) = input.rfind(':') {
         // If multiple colons (unbracketed IPv6), invalid
-- 
2.43.0


From 3d9d1f54802e8723774351980e1dfccbae93c0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:57 +0000
Subject: [PATCH 06/90] fix: SIP URI parameter values cannot carry other URI
 components

---
 crates/sip-core/src/uri.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/crates/sip-core/src/uri.rs b/crates/sip-core/src/uri.rs
index c760759..88182a9 100644
--- a/crates/sip-core/src/uri.rs
+++ b/crates/sip-core/src/uri.rs
@@ -217,6 +217,19 @@ fn validate_param_value(value: &str) -> Result<(), UriError> {
         ));
     }
 
+    // RFC 3261 §25.1: none of these may appear literally in a parameter
+    // value. `;`, `?` and `@` would re-parse as other URI components (an `@`
+    // here means the text before it was really the user part), the rest end
+    // or split the surrounding header field.
+    if value
+        .chars()
+        .any(|c| c.is_whitespace() || matches!(c, ';' | '?' | '@' | '<' | '>' | '"'))
+    {
+        return Err(UriError::InvalidParameter(
+            "parameter value contains a URI delimiter".to_string(),
+        ));
+    }
+
     Ok(())
 }
 
-- 
2.43.0


From 6fa2504161b4fa3248d2cc37840f0e324db39601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:40 +0000
Subject: [PATCH 07/90] fix: URI schemes are matched without regard to case

---
 crates/sip-core/src/tel_uri.rs | 9 +++++----
 crates/sip-core/src/uri.rs     | 7 ++++---
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/crates/sip-core/src/tel_uri.rs b/crates/sip-core/src/tel_uri.rs
index 1863b17..3705787 100644
--- a/crates/sip-core/src/tel_uri.rs
+++ b/crates/sip-core/src/tel_uri.rs
@@ -348,10 +348,11 @@ impl TelUri {
     pub fn parse(input: &str) -> Result<Self, TelUriError> {
         let raw = SmolStr::new(input);
 
-        // Must start with "tel:"
-        let rest = input
-            .strip_prefix("tel:")
-            .ok_or(TelUriError::InvalidScheme)?;
+        // Must start with "tel:" (schemes are case-insensitive)
+        let rest = match input.split_once(':') {
+            Some((scheme, rest)) if scheme.eq_ignore_ascii_case("tel") => rest,
+            _ => return Err(TelUriError::InvalidScheme),
+        };
 
         // Split into number and parameters
         let mut parts = rest.split(';');
diff --git a/crates/sip-core/src/uri.rs b/crates/sip-core/src/uri.rs
index 88182a9..160c89d 100644
--- a/crates/sip-core/src/uri.rs
+++ b/crates/sip-core/src/uri.rs
@@ -600,12 +600,13 @@ impl Uri {
             ));
         }
 
-        // Try tel URI first (more specific prefix)
-        if input.starts_with("tel:") {
+        // Schemes are case-insensitive (RFC 3986 §3.1)
+        let scheme = input.split(':').next().unwrap_or_default();
+        if scheme.eq_ignore_ascii_case("tel") {
             TelUri::parse(input)
                 .map(Uri::Tel)
                 .map_err(|e| UriError::InvalidFormat(e.to_string()))
-        } else if input.starts_with("sip:") || input.starts_with("sips:") {
+        } else if scheme.eq_ignore_ascii_case("sip") || scheme.eq_ignore_ascii_case("sips") {
             SipUri::parse(input).map(Uri::Sip)
         } else {
             parse_absolute_uri(input).map(Uri::Absolute)
-- 
2.43.0


From 26c9b32bd863cfdf203a15e8948734a73589bc4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:50 +0000
Subject: [PATCH 08/90] fix: tel URI parameter values cannot add further
 parameters

---
 crates/sip-core/src/tel_uri.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/sip-core/src/tel_uri.rs b/crates/sip-core/src/tel_uri.rs
index 3705787..eb7cfb4 100644
--- a/crates/sip-core/src/tel_uri.rs
+++ b/crates/sip-core/src/tel_uri.rs
@@ -271,6 +271,14 @@ fn validate_parameter_value(value: &str) -> Result<(), TelUriError> {
         ));
     }
 
+    // RFC 3966 §3: not allowed unescaped. `;` would start another parameter,
+    // the others end the surrounding name-addr.
+    if value.chars().any(|c| matches!(c, ';' | '<' | '>' | '"')) {
+        return Err(TelUriError::InvalidParameter(
+            "parameter value contains a delimiter".to_string(),
+        ));
+    }
+
     Ok(())
 }
 
-- 
2.43.0


From e660c3e040901ff20d1b2686495134af2ff76b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:00 +0000
Subject: [PATCH 09/90] fix: tel URI parameter names are case-insensitive, so
 none is stored twice

---
 crates/sip-core/src/tel_uri.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/sip-core/src/tel_uri.rs b/crates/sip-core/src/tel_uri.rs
index eb7cfb4..100af6e 100644
--- a/crates/sip-core/src/tel_uri.rs
+++ b/crates/sip-core/src/tel_uri.rs
@@ -410,7 +410,8 @@ impl TelUri {
                 validate_parameter_name(key)?;
                 validate_parameter_value(value)?;
 
-                let key_smol = SmolStr::new(key);
+                // Parameter names are case-insensitive (RFC 3966 §4)
+                let key_smol = SmolStr::new(key.to_ascii_lowercase());
                 let value_smol = SmolStr::new(value);
 
                 // Special handling for phone-context
@@ -422,7 +423,7 @@ impl TelUri {
                 parameters.insert(key_smol, Some(value_smol));
             } else {
                 validate_parameter_name(param)?;
-                parameters.insert(SmolStr::new(param), None);
+                parameters.insert(SmolStr::new(param.to_ascii_lowercase()), None);
             }
         }
 
@@ -482,7 +483,7 @@ impl TelUri {
         key: impl Into<SmolStr>,
         value: Option<impl Into<SmolStr>>,
     ) -> Result<Self, TelUriError> {
-        let key = key.into();
+        let key = SmolStr::new(key.into().to_ascii_lowercase());
         let key_str = key.as_str();
         let exists = self.parameters.contains_key(&key);
         if !exists && self.parameters.len() >= MAX_PARAMETERS {
-- 
2.43.0


From f5c651a567bfdc4df127e020b0f6126df12e4b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:10 +0000
Subject: [PATCH 10/90] fix: TelUri::new drops visual separators of global
 numbers like parsing does

---
 crates/sip-core/src/tel_uri.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/sip-core/src/tel_uri.rs b/crates/sip-core/src/tel_uri.rs
index 100af6e..ffaeb1a 100644
--- a/crates/sip-core/src/tel_uri.rs
+++ b/crates/sip-core/src/tel_uri.rs
@@ -327,6 +327,11 @@ impl TelUri {
         }
 
         let raw = SmolStr::new(format!("tel:{}", number));
+        let number = if is_global {
+            normalize_global_number(&number)
+        } else {
+            number
+        };
 
         Ok(Self {
             raw,
-- 
2.43.0


From 9f4d82fbd4a8d66c9662a37b039a6872401e1fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:33 +0000
Subject: [PATCH 11/90] fix: Content-Length must be plain digits

---
 crates/sip-parse/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/sip-parse/src/lib.rs b/crates/sip-parse/src/lib.rs
index a6678f2..19267f2 100644
--- a/crates/sip-parse/src/lib.rs
+++ b/crates/sip-parse/src/lib.rs
@@ -479,6 +479,11 @@ fn parse_content_length_value(value: &SmolStr) -> Option<usize> {
 fn parse_content_length_detailed(value: &SmolStr) -> Result<usize, ContentLengthError> {
     let trimmed = value.trim();
 
+    // Strict ABNF: 1*DIGIT (`u64::parse` would accept a leading '+').
+    if !trimmed.bytes().all(|b| b.is_ascii_digit()) {
+        return Err(ContentLengthError::Invalid);
+    }
+
     // Parse to u64 first to detect overflow on 32-bit systems
     let value_u64 = trimmed
         .parse::<u64>()
-- 
2.43.0


From 0cf93ce005ebfd5a31ffdb18592129f503683957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:34 +0000
Subject: [PATCH 12/90] fix: responses with an empty reason phrase are accepted

---
 crates/sip-parse/src/lib.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/sip-parse/src/lib.rs b/crates/sip-parse/src/lib.rs
index 19267f2..2a53539 100644
--- a/crates/sip-parse/src/lib.rs
+++ b/crates/sip-parse/src/lib.rs
@@ -297,9 +297,10 @@ fn parse_request_line(line: &str) -> Option<(Method, Uri)> {
 /// Parses the status-line of a SIP response.
 fn parse_status_line(line: &str) -> Option<StatusLine> {
     use nom::{
+        branch::alt,
         bytes::complete::tag_no_case,
         character::complete::{space1, u16 as nom_u16},
-        combinator::rest,
+        combinator::{eof, rest},
         sequence::tuple,
     };
 
@@ -307,7 +308,9 @@ fn parse_status_line(line: &str) -> Option<StatusLine> {
         tag_no_case::<_, _, nom::error::Error<_>>("SIP/2.0"),
         space1::<_, nom::error::Error<_>>,
         nom_u16::<_, nom::error::Error<_>>,
-        space1::<_, nom::error::Error<_>>,
+        // The reason phrase may be empty (RFC 3261 §25.1), in which case the
+        // separating space has been trimmed away.
+        alt((space1::<_, nom::error::Error<_>>, eof)),
         rest::<_, nom::error::Error<_>>,
     ));
     let (_, (_, _, code, _, reason)) = parser(line.trim()).ok()?;
-- 
2.43.0


From 29a8b67b2b0a597a7a3476aa92368f3b7a174ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:28 +0000
Subject: [PATCH 13/90] fix: compact header forms j (Reject-Contact) and y
 (Identity) are expanded

---
 crates/sip-parse/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crates/sip-parse/src/lib.rs b/crates/sip-parse/src/lib.rs
index 2a53539..43f48d5 100644
--- a/crates/sip-parse/src/lib.rs
+++ b/crates/sip-parse/src/lib.rs
@@ -395,6 +395,8 @@ fn canonical_header_name(name: &str) -> SmolStr {
         "x" => "Session-Expires",
         "a" => "Accept-Contact",
         "u" => "Allow-Events",
+        "j" => "Reject-Contact",
+        "y" => "Identity",
         _ => name,
     };
     SmolStr::new(canonical)
-- 
2.43.0


From 494857b909b89c95fc18d75f528deef2e81c9400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:29 +0000
Subject: [PATCH 14/90] fix: URIs never print whitespace, angle brackets or
 quotes literally

---
 crates/sip-core/src/tel_uri.rs | 20 +++++++++++++++++---
 crates/sip-core/src/uri.rs     | 31 +++++++++++++++++++++++++++++--
 2 files changed, 46 insertions(+), 5 deletions(-)

diff --git a/crates/sip-core/src/tel_uri.rs b/crates/sip-core/src/tel_uri.rs
index ffaeb1a..e5fb8e9 100644
--- a/crates/sip-core/src/tel_uri.rs
+++ b/crates/sip-core/src/tel_uri.rs
@@ -326,11 +326,11 @@ impl TelUri {
             ));
         }
 
-        let raw = SmolStr::new(format!("tel:{}", number));
+        let raw = SmolStr::new(format!("tel:{}", number.replace(' ', "")));
         let number = if is_global {
             normalize_global_number(&number)
         } else {
-            number
+            SmolStr::new(number.replace(' ', ""))
         };
 
         Ok(Self {
@@ -359,6 +359,12 @@ impl TelUri {
     /// assert_eq!(uri.phone_context().unwrap(), "example.com");
     /// ```
     pub fn parse(input: &str) -> Result<Self, TelUriError> {
+        if input.chars().any(|c| c.is_control()) {
+            return Err(TelUriError::InvalidFormat(
+                "contains control characters".to_string(),
+            ));
+        }
+
         let raw = SmolStr::new(input);
 
         // Must start with "tel:" (schemes are case-insensitive)
@@ -388,7 +394,7 @@ impl TelUri {
         let normalized_number = if is_global {
             normalize_global_number(number_part)
         } else {
-            SmolStr::new(number_part)
+            SmolStr::new(number_part.replace(' ', ""))
         };
 
         // Parse parameters
@@ -448,6 +454,14 @@ impl TelUri {
             ));
         }
 
+        // Spaces are tolerated as visual separators but would end the URI
+        // wherever it is written, so they are never printed back.
+        let raw = if raw.contains(char::is_whitespace) {
+            SmolStr::new(raw.split_whitespace().collect::<String>())
+        } else {
+            raw
+        };
+
         Ok(Self {
             raw,
             number: normalized_number,
diff --git a/crates/sip-core/src/uri.rs b/crates/sip-core/src/uri.rs
index 160c89d..26ef734 100644
--- a/crates/sip-core/src/uri.rs
+++ b/crates/sip-core/src/uri.rs
@@ -277,6 +277,12 @@ fn validate_header_value(value: &str) -> Result<(), UriError> {
         ));
     }
 
+    if value.contains(is_uri_terminator) {
+        return Err(UriError::InvalidHeader(
+            "header value contains a URI delimiter".to_string(),
+        ));
+    }
+
     Ok(())
 }
 
@@ -439,7 +445,7 @@ impl SipUri {
             }
         }
 
-        Ok(Self {
+        let mut uri = Self {
             raw,
             sips,
             user,
@@ -447,7 +453,13 @@ impl SipUri {
             port,
             params,
             headers,
-        })
+        };
+        // Characters that end a URI wherever it is written (start line,
+        // name-addr) are tolerated on input but never printed back literally.
+        if input.contains(is_uri_terminator) {
+            uri.raw = build_raw_sip_uri(&uri);
+        }
+        Ok(uri)
     }
 
     /// Returns the original textual representation of the URI.
@@ -600,6 +612,9 @@ impl Uri {
             ));
         }
 
+        // Surrounding whitespace is not part of the URI
+        let input = input.trim();
+
         // Schemes are case-insensitive (RFC 3986 §3.1)
         let scheme = input.split(':').next().unwrap_or_default();
         if scheme.eq_ignore_ascii_case("tel") {
@@ -745,6 +760,13 @@ fn parse_absolute_uri(input: &str) -> Result<SmolStr, UriError> {
         ));
     }
 
+    // RFC 3986 §2: these can only appear percent-encoded
+    if remainder.contains(is_uri_terminator) {
+        return Err(UriError::InvalidFormat(
+            "contains whitespace or URI delimiters".to_string(),
+        ));
+    }
+
     Ok(SmolStr::new(trimmed))
 }
 
@@ -800,6 +822,11 @@ fn split_host_port(input: &str) -> Result<(&str, Option<u16>), UriError> {
     }
 }
 
+/// Characters no URI may contain literally because they end it in its context.
+fn is_uri_terminator(c: char) -> bool {
+    c.is_whitespace() || matches!(c, '<' | '>' | '"')
+}
+
 fn is_token_char(c: char) -> bool {
     c.is_ascii_alphanumeric()
         || matches!(
-- 
2.43.0


From 483ae876a926c269f28b1504c4280f1b42571945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:25 +0000
Subject: [PATCH 15/90] fix: tel URI parameter names cannot carry delimiters

---
 crates/sip-core/src/tel_uri.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/sip-core/src/tel_uri.rs b/crates/sip-core/src/tel_uri.rs
index e5fb8e9..16bc9aa 100644
--- a/crates/sip-core/src/tel_uri.rs
+++ b/crates/sip-core/src/tel_uri.rs
@@ -245,7 +245,7 @@ fn validate_parameter_name(name: &str) -> Result<(), TelUriError> {
     // Check for control characters, whitespace, and special chars
     if name
         .chars()
-        .any(|c| c.is_control() || c.is_whitespace() || matches!(c, ';' | '='))
+        .any(|c| c.is_control() || c.is_whitespace() || matches!(c, ';' | '=' | '<' | '>' | '"'))
     {
         return Err(TelUriError::InvalidParameter(
             "parameter name contains invalid characters".to_string(),
-- 
2.43.0


From 0daf576720e977128a5b9d550632898d00ffe6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:50 +0000
Subject: [PATCH 16/90] fix: separators and escapes inside quoted header text
 are not structure

---
 crates/sip-core/src/lib.rs            |   1 +
 crates/sip-core/src/mime.rs           |   9 +-
 crates/sip-core/src/p_headers.rs      |  54 ++++--------
 crates/sip-core/src/quoted.rs         | 115 +++++++++++++++++++++++++
 crates/sip-core/src/reason.rs         |  11 ++-
 crates/sip-core/src/referred_by.rs    |  60 ++++++-------
 crates/sip-core/src/route.rs          |  46 +++++-----
 crates/sip-core/src/security.rs       |   9 ++
 crates/sip-core/src/service_route.rs  |   9 +-
 crates/sip-core/src/via.rs            |  13 ++-
 crates/sip-parse/src/header_values.rs | 119 ++++++++++----------------
 11 files changed, 272 insertions(+), 174 deletions(-)
 create mode 100644 crates/sip-core/src/quoted.rs

diff --git a/crates/sip-core/src/lib.rs b/crates/sip-core/src/lib.rs
index 5ca878c..a14cea2 100644
--- a/crates/sip-core/src/lib.rs
+++ b/crates/sip-core/src/lib.rs
@@ -47,6 +47,7 @@ pub mod p_headers;
 pub mod presence;
 pub mod priority;
 pub mod privacy;
+pub mod quoted;
 pub mod reason;
 pub mod refer_sub;
 pub mod referred_by;
diff --git a/crates/sip-core/src/mime.rs b/crates/sip-core/src/mime.rs
index 55c718d..61ee87a 100644
--- a/crates/sip-core/src/mime.rs
+++ b/crates/sip-core/src/mime.rs
@@ -2,6 +2,7 @@
 // Copyright (C) 2025 James Ferris <ferrous.communications@gmail.com>
 // SPDX-License-Identifier: Apache-2.0 OR MIT
 
+use crate::quoted::split_unquoted;
 use smol_str::SmolStr;
 use std::collections::BTreeMap;
 
@@ -488,11 +489,9 @@ fn normalize_param_value(value: &str) -> Result<SmolStr, MimeTypeError> {
 /// Format: `type/subtype[;param=value]...`
 fn parse_mime_type(s: &str) -> Result<MimeType, MimeTypeError> {
     // Split on semicolon to separate type from parameters
-    let parts: Vec<&str> = s.split(';').collect();
-
-    if parts.is_empty() {
-        return Err(MimeTypeError::InvalidType("empty string".to_string()));
-    }
+    let parts = split_unquoted(s, ';').ok_or_else(|| {
+        MimeTypeError::InvalidParamValue("unterminated quoted string".to_string())
+    })?;
 
     // Parse type/subtype
     let type_parts: Vec<&str> = parts[0].trim().split('/').collect();
diff --git a/crates/sip-core/src/p_headers.rs b/crates/sip-core/src/p_headers.rs
index 666709a..37e8170 100644
--- a/crates/sip-core/src/p_headers.rs
+++ b/crates/sip-core/src/p_headers.rs
@@ -2,6 +2,7 @@
 // Copyright (C) 2025 James Ferris <ferrous.communications@gmail.com>
 // SPDX-License-Identifier: Apache-2.0 OR MIT
 
+use crate::quoted::{split_list, split_unquoted, unquote, ParamValue, QuotedString};
 use smol_str::SmolStr;
 use std::collections::BTreeMap;
 use std::fmt;
@@ -164,14 +165,14 @@ impl PIdentity {
 impl fmt::Display for PIdentity {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         if let Some(ref name) = self.display_name {
-            write!(f, "\"{}\" <{}>", name, self.uri)?;
+            write!(f, "{} <{}>", QuotedString(name), self.uri)?;
         } else {
             write!(f, "<{}>", self.uri)?;
         }
 
         for (key, value) in &self.params {
             if let Some(v) = value {
-                write!(f, ";{}={}", key, v)?;
+                write!(f, ";{}={}", key, ParamValue(v))?;
             } else {
                 write!(f, ";{}", key)?;
             }
@@ -645,8 +646,11 @@ pub fn parse_p_preferred_identity(
 
 /// Parses one or more identities from a header value.
 fn parse_p_identities(value: &str) -> Result<Vec<PIdentity>, PHeaderError> {
-    split_identities(value)
+    split_list(value)
+        .ok_or_else(|| PHeaderError::ParseError("unterminated quoted string".to_string()))?
         .into_iter()
+        .map(str::trim)
+        .filter(|part| !part.is_empty())
         .map(parse_p_identity)
         .collect()
 }
@@ -660,7 +664,8 @@ fn parse_p_identity(value: &str) -> Result<PIdentity, PHeaderError> {
 
     // Try to parse as URI in brackets: <uri>
     if let Some((start, end)) = find_unquoted_angle_brackets(input)? {
-        let display = input[..start].trim().trim_matches('"');
+        let display = unquote(&input[..start]);
+        let display = display.as_str();
         let uri_str = input[start + 1..end].trim();
         let params_str = input[end + 1..].trim();
 
@@ -705,9 +710,14 @@ fn parse_p_identity(value: &str) -> Result<PIdentity, PHeaderError> {
 
 fn find_unquoted_angle_brackets(input: &str) -> Result<Option<(usize, usize)>, PHeaderError> {
     let mut in_quotes = false;
+    let mut escaped = false;
     let mut start = None;
     for (idx, ch) in input.char_indices() {
+        if std::mem::take(&mut escaped) {
+            continue;
+        }
         match ch {
+            '\\' if in_quotes => escaped = true,
             '"' => in_quotes = !in_quotes,
             '<' if !in_quotes => {
                 if start.is_some() {
@@ -736,36 +746,6 @@ fn find_unquoted_angle_brackets(input: &str) -> Result<Option<(usize, usize)>, P
     Ok(None)
 }
 
-fn split_identities(value: &str) -> Vec<&str> {
-    let mut parts = Vec::new();
-    let mut start = 0;
-    let mut in_quotes = false;
-    let mut in_angle = false;
-
-    for (idx, ch) in value.char_indices() {
-        match ch {
-            '"' => in_quotes = !in_quotes,
-            '<' if !in_quotes => in_angle = true,
-            '>' if !in_quotes => in_angle = false,
-            ',' if !in_quotes && !in_angle => {
-                let slice = value[start..idx].trim();
-                if !slice.is_empty() {
-                    parts.push(slice);
-                }
-                start = idx + 1;
-            }
-            _ => {}
-        }
-    }
-
-    let tail = value[start..].trim();
-    if !tail.is_empty() {
-        parts.push(tail);
-    }
-
-    parts
-}
-
 fn split_uri_and_params(value: &str) -> (&str, Option<&str>) {
     if let Some((uri, params)) = value.split_once(';') {
         (uri.trim(), Some(params.trim()))
@@ -775,13 +755,15 @@ fn split_uri_and_params(value: &str) -> (&str, Option<&str>) {
 }
 
 fn add_params_from_str(identity: &mut PIdentity, params_str: &str) -> Result<(), PHeaderError> {
-    for raw_param in params_str.split(';') {
+    let raw_params = split_unquoted(params_str, ';')
+        .ok_or_else(|| PHeaderError::ParseError("unterminated quoted string".to_string()))?;
+    for raw_param in raw_params {
         let param = raw_param.trim();
         if param.is_empty() {
             continue;
         }
         if let Some((name, value)) = param.split_once('=') {
-            identity.add_param(name.trim(), Some(value.trim()))?;
+            identity.add_param(name.trim(), Some(unquote(value)))?;
         } else {
             identity.add_param(param, Option::<&str>::None)?;
         }
diff --git a/crates/sip-core/src/quoted.rs b/crates/sip-core/src/quoted.rs
new file mode 100644
index 0000000..4b1284e
--- /dev/null
+++ b/crates/sip-core/src/quoted.rs
@@ -0,0 +1,115 @@
+// siphon-rs - The Siphon SIP Stack
+// Copyright (C) 2025 James Ferris <ferrous.communications@gmail.com>
+// SPDX-License-Identifier: Apache-2.0 OR MIT
+
+//! Quoted-string handling shared by the header parsers (RFC 3261 §25.1).
+
+use smol_str::SmolStr;
+use std::fmt;
+
+/// Splits `input` at every `sep` that is outside quoted strings.
+///
+/// Returns `None` if a quoted string is not terminated.
+pub fn split_unquoted(input: &str, sep: char) -> Option<Vec<&str>> {
+    split(input, sep, false)
+}
+
+/// Splits a comma-separated list, leaving commas inside quoted strings and
+/// angle brackets alone.
+///
+/// Returns `None` if a quoted string is not terminated.
+pub fn split_list(input: &str) -> Option<Vec<&str>> {
+    split(input, ',', true)
+}
+
+fn split(input: &str, sep: char, brackets: bool) -> Option<Vec<&str>> {
+    let mut parts = Vec::new();
+    let mut start = 0;
+    let mut in_quotes = false;
+    let mut in_brackets = false;
+    let mut escaped = false;
+    for (idx, ch) in input.char_indices() {
+        if escaped {
+            escaped = false;
+            continue;
+        }
+        match ch {
+            '\\' if in_quotes => escaped = true,
+            '"' if !in_brackets => in_quotes = !in_quotes,
+            _ if in_quotes => {}
+            '<' if brackets => in_brackets = true,
+            '>' if brackets => in_brackets = false,
+            c if c == sep && !in_brackets => {
+                parts.push(&input[start..idx]);
+                start = idx + ch.len_utf8();
+            }
+            _ => {}
+        }
+    }
+    if in_quotes {
+        return None;
+    }
+    parts.push(&input[start..]);
+    Some(parts)
+}
+
+/// Returns the text a token or quoted string stands for: if `raw` is one
+/// complete quoted string its content with escapes undone, otherwise `raw`.
+pub fn unquote(raw: &str) -> SmolStr {
+    let raw = raw.trim();
+    match quoted_content(raw) {
+        Some(content) => SmolStr::new(content),
+        None => SmolStr::new(raw),
+    }
+}
+
+fn quoted_content(raw: &str) -> Option<String> {
+    let mut chars = raw.strip_prefix('"')?.chars();
+    let mut content = String::with_capacity(raw.len());
+    loop {
+        match chars.next()? {
+            '\\' => content.push(chars.next()?),
+            '"' => return chars.as_str().is_empty().then_some(content),
+            ch => content.push(ch),
+        }
+    }
+}
+
+/// True if `value` can be written after `name=` as it is: a complete quoted
+/// string, or text without separators.
+pub fn is_quoted_or_plain(value: &str) -> bool {
+    quoted_content(value).is_some() || !value.contains(['"', ';', ','])
+}
+
+/// Displays text as a quoted string, escaping where needed.
+pub struct QuotedString<'a>(pub &'a str);
+
+impl fmt::Display for QuotedString<'_> {
+    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        f.write_str("\"")?;
+        for ch in self.0.chars() {
+            if matches!(ch, '"' | '\\') {
+                f.write_str("\\")?;
+            }
+            write!(f, "{ch}")?;
+        }
+        f.write_str("\"")
+    }
+}
+
+/// Displays a parameter value, quoting it only if it cannot stand on its own.
+pub struct ParamValue<'a>(pub &'a str);
+
+impl fmt::Display for ParamValue<'_> {
+    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
+        let plain = !self.0.is_empty()
+            && !self
+                .0
+                .contains(|c: char| c.is_whitespace() || "\"\\;,<>".contains(c));
+        if plain {
+            f.write_str(self.0)
+        } else {
+            QuotedString(self.0).fmt(f)
+        }
+    }
+}
diff --git a/crates/sip-core/src/reason.rs b/crates/sip-core/src/reason.rs
index 82ea91f..9ccfb8f 100644
--- a/crates/sip-core/src/reason.rs
+++ b/crates/sip-core/src/reason.rs
@@ -2,6 +2,7 @@
 // Copyright (C) 2025 James Ferris <ferrous.communications@gmail.com>
 // SPDX-License-Identifier: Apache-2.0 OR MIT
 
+use crate::quoted::{split_unquoted, ParamValue, QuotedString};
 use smol_str::SmolStr;
 use std::collections::BTreeMap;
 use std::fmt;
@@ -380,10 +381,10 @@ impl fmt::Display for ReasonHeader {
         for (key, value) in &self.params {
             write!(f, ";{}", key)?;
             if let Some(val) = value {
-                if key == "text" || val.contains(|c: char| c.is_whitespace() || c == ';') {
-                    write!(f, "=\"{}\"", val)?;
+                if key == "text" {
+                    write!(f, "={}", QuotedString(val))?;
                 } else {
-                    write!(f, "={}", val)?;
+                    write!(f, "={}", ParamValue(val))?;
                 }
             }
         }
@@ -526,7 +527,9 @@ pub fn parse_reason_from_string(value: &str) -> Result<ReasonHeader, ReasonError
         });
     }
 
-    let mut parts = value.split(';');
+    let mut parts = split_unquoted(value, ';')
+        .ok_or_else(|| ReasonError::ParseError("unterminated quoted string".to_string()))?
+        .into_iter();
     let protocol = parts.next().unwrap_or("").trim();
 
     validate_protocol(protocol)?;
diff --git a/crates/sip-core/src/referred_by.rs b/crates/sip-core/src/referred_by.rs
index 75d6b7b..f25e4f5 100644
--- a/crates/sip-core/src/referred_by.rs
+++ b/crates/sip-core/src/referred_by.rs
@@ -27,6 +27,7 @@
 //! containing an S/MIME signed identity token (Authenticated Identity Body).
 //! This provides cryptographic proof of the referrer's identity.
 
+use crate::quoted::{split_unquoted, unquote, ParamValue, QuotedString};
 use std::collections::BTreeMap;
 use std::fmt;
 
@@ -370,27 +371,21 @@ impl ReferredByHeader {
             };
 
         // Parse the name-addr
-        let (display_name, uri_str) = if let Some((angle_start, angle_end)) =
-            find_unquoted_angle_brackets(name_addr_str)?
-        {
-            let uri_str = &name_addr_str[angle_start + 1..angle_end];
-
-            let display_part = name_addr_str[..angle_start].trim();
-            let display_name = if display_part.is_empty() {
-                None
-            } else {
-                let display_part = if display_part.starts_with('"') && display_part.ends_with('"') {
-                    &display_part[1..display_part.len() - 1]
+        let (display_name, uri_str) =
+            if let Some((angle_start, angle_end)) = find_unquoted_angle_brackets(name_addr_str)? {
+                let uri_str = &name_addr_str[angle_start + 1..angle_end];
+
+                let display_part = name_addr_str[..angle_start].trim();
+                let display_name = if display_part.is_empty() {
+                    None
                 } else {
-                    display_part
+                    Some(unquote(display_part))
                 };
-                Some(SmolStr::new(display_part))
-            };
 
-            (display_name, uri_str)
-        } else {
-            (None, name_addr_str)
-        };
+                (display_name, uri_str)
+            } else {
+                (None, name_addr_str)
+            };
 
         let uri = Uri::parse(uri_str)
             .map_err(|_| ReferredByError::InvalidUri("failed to parse URI".to_string()))?;
@@ -403,7 +398,7 @@ impl ReferredByHeader {
 
         // Parse parameters
         if !params_str.is_empty() {
-            for part in params_str.split(';') {
+            for part in split_unquoted(params_str, ';').ok_or_else(unbalanced_quotes)? {
                 let part = part.trim();
                 if part.is_empty() {
                     continue;
@@ -418,16 +413,8 @@ impl ReferredByHeader {
 
                 if let Some((key, value)) = part.split_once('=') {
                     let key = key.trim();
-                    let value = value.trim();
-
-                    // Require len >= 2 so a lone '"' (which satisfies both
-                    // starts_with and ends_with) does not slice [1..0] and panic.
-                    let value =
-                        if value.len() >= 2 && value.starts_with('"') && value.ends_with('"') {
-                            &value[1..value.len() - 1]
-                        } else {
-                            value
-                        };
+                    let value = unquote(value);
+                    let value = value.as_str();
 
                     if key.eq_ignore_ascii_case("cid") {
                         validate_cid(value)?;
@@ -464,16 +451,16 @@ impl ReferredByHeader {
 impl fmt::Display for ReferredByHeader {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         if let Some(display_name) = self.name_addr.display_name() {
-            write!(f, "\"{}\" ", display_name)?;
+            write!(f, "{} ", QuotedString(display_name))?;
         }
         write!(f, "<{}>", self.name_addr.uri().as_str())?;
 
         if let Some(ref cid) = self.cid {
-            write!(f, ";cid=\"{}\"", cid)?;
+            write!(f, ";cid={}", QuotedString(cid))?;
         }
 
         for (name, value) in &self.params {
-            write!(f, ";{}={}", name, value)?;
+            write!(f, ";{}={}", name, ParamValue(value))?;
         }
 
         Ok(())
@@ -502,11 +489,20 @@ fn validate_cid(cid: &str) -> Result<(), ReferredByError> {
     Ok(())
 }
 
+fn unbalanced_quotes() -> ReferredByError {
+    ReferredByError::ParseError("unterminated quoted string".to_string())
+}
+
 fn find_unquoted_angle_brackets(input: &str) -> Result<Option<(usize, usize)>, ReferredByError> {
     let mut in_quotes = false;
+    let mut escaped = false;
     let mut start = None;
     for (idx, ch) in input.char_indices() {
+        if std::mem::take(&mut escaped) {
+            continue;
+        }
         match ch {
+            '\\' if in_quotes => escaped = true,
             '"' => in_quotes = !in_quotes,
             '<' if !in_quotes => {
                 if start.is_some() {
diff --git a/crates/sip-core/src/route.rs b/crates/sip-core/src/route.rs
index 2b56e58..b63afd0 100644
--- a/crates/sip-core/src/route.rs
+++ b/crates/sip-core/src/route.rs
@@ -50,7 +50,11 @@ use smol_str::SmolStr;
 use std::collections::BTreeMap;
 use std::fmt;
 
-use crate::{name_addr::NameAddr, Uri};
+use crate::{
+    name_addr::NameAddr,
+    quoted::{split_unquoted, unquote, ParamValue, QuotedString},
+    Uri,
+};
 
 const MAX_PARSE_INPUT: usize = 2048;
 
@@ -300,12 +304,12 @@ impl RouteHeader {
 impl fmt::Display for RouteHeader {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         if let Some(display_name) = self.0.display_name() {
-            write!(f, "\"{}\" ", display_name)?;
+            write!(f, "{} ", QuotedString(display_name))?;
         }
         write!(f, "<{}>", self.0.uri().as_str())?;
         for (key, value) in self.0.params() {
             if let Some(v) = value {
-                write!(f, ";{}={}", key, v)?;
+                write!(f, ";{}={}", key, ParamValue(v))?;
             } else {
                 write!(f, ";{}", key)?;
             }
@@ -328,15 +332,14 @@ fn parse_name_addr(input: &str) -> Result<NameAddr, RouteError> {
         Some((start, end)) => {
             let display = input[..start].trim();
             let uri = input[start + 1..end].trim();
-            let params = parse_params(input[end + 1..].trim())
-                .ok_or_else(|| RouteError::ParseError("too many parameters".to_string()))?;
+            let params = parse_params(input[end + 1..].trim())?;
             let uri =
                 Uri::parse(uri).map_err(|_| RouteError::ParseError("invalid uri".to_string()))?;
             NameAddr::new(
                 if display.is_empty() {
                     None
                 } else {
-                    Some(SmolStr::new(display.trim_matches('"')))
+                    Some(unquote(display))
                 },
                 uri,
                 params,
@@ -346,8 +349,7 @@ fn parse_name_addr(input: &str) -> Result<NameAddr, RouteError> {
         None => {
             let (uri_part, param_part) = input.split_once(';').unwrap_or((input, ""));
             let uri = Uri::parse(uri_part.trim()).map_err(|_| RouteError::MissingUri)?;
-            let params = parse_params(param_part)
-                .ok_or_else(|| RouteError::ParseError("too many parameters".to_string()))?;
+            let params = parse_params(param_part)?;
             NameAddr::new(None, uri, params)
                 .map_err(|err| RouteError::InvalidNameAddr(err.to_string()))
         }
@@ -358,10 +360,11 @@ fn parse_name_addr(input: &str) -> Result<NameAddr, RouteError> {
 const MAX_PARAMS: usize = 64;
 
 /// Parses parameters with bounds checking to prevent memory exhaustion.
-/// Returns None if there are too many parameters (>64).
-fn parse_params(input: &str) -> Option<BTreeMap<SmolStr, Option<SmolStr>>> {
+/// Returns an error if there are too many parameters (>64), a parameter occurs
+/// twice or a quoted string is not terminated.
+fn parse_params(input: &str) -> Result<BTreeMap<SmolStr, Option<SmolStr>>, RouteError> {
     let mut params = BTreeMap::new();
-    for raw in input.split(';') {
+    for raw in split_unquoted(input, ';').ok_or(RouteError::UnbalancedQuotes)? {
         let raw = raw.trim();
         if raw.is_empty() {
             continue;
@@ -369,19 +372,22 @@ fn parse_params(input: &str) -> Option<BTreeMap<SmolStr, Option<SmolStr>>> {
 
         // Security: Reject if too many parameters (DoS prevention)
         if params.len() >= MAX_PARAMS {
-            return None;
+            return Err(RouteError::ParseError("too many parameters".to_string()));
         }
 
-        if let Some((name, value)) = raw.split_once('=') {
-            params.insert(
-                SmolStr::new(name.trim().to_ascii_lowercase()),
-                Some(SmolStr::new(value.trim().trim_matches('"'))),
-            );
-        } else {
-            params.insert(SmolStr::new(raw.to_ascii_lowercase()), None);
+        let (name, value) = match raw.split_once('=') {
+            Some((name, value)) => (name.trim(), Some(unquote(value))),
+            None => (raw, None),
+        };
+        let name = SmolStr::new(name.to_ascii_lowercase());
+        if params.contains_key(&name) {
+            return Err(RouteError::ParseError(format!(
+                "duplicate parameter {name}"
+            )));
         }
+        params.insert(name, value);
     }
-    Some(params)
+    Ok(params)
 }
 
 fn find_unquoted_angle_brackets(input: &str) -> Result<Option<(usize, usize)>, RouteError> {
diff --git a/crates/sip-core/src/security.rs b/crates/sip-core/src/security.rs
index 33c1363..46b0a00 100644
--- a/crates/sip-core/src/security.rs
+++ b/crates/sip-core/src/security.rs
@@ -4,6 +4,7 @@
 
 //! RFC 3329 Security Agreement implementation with comprehensive security hardening.
 
+use crate::quoted::is_quoted_or_plain;
 use smol_str::SmolStr;
 use std::collections::BTreeMap;
 use std::fmt;
@@ -105,6 +106,14 @@ fn validate_param_value(value: &str) -> Result<(), SecurityError> {
         ));
     }
 
+    // A separator outside a quoted string would start another parameter or
+    // another entry.
+    if !is_quoted_or_plain(value) {
+        return Err(SecurityError::ValidationError(
+            "Parameter value contains separators".to_string(),
+        ));
+    }
+
     Ok(())
 }
 
diff --git a/crates/sip-core/src/service_route.rs b/crates/sip-core/src/service_route.rs
index 77d006b..f516a52 100644
--- a/crates/sip-core/src/service_route.rs
+++ b/crates/sip-core/src/service_route.rs
@@ -5,6 +5,7 @@
 //! RFC 3327 Path and RFC 3608 Service-Route headers with security hardening.
 
 use crate::name_addr::NameAddr;
+use crate::quoted::{ParamValue, QuotedString};
 use crate::Uri;
 use std::fmt;
 
@@ -149,12 +150,12 @@ impl fmt::Display for PathHeader {
                 write!(f, ", ")?;
             }
             if let Some(display_name) = route.display_name() {
-                write!(f, "\"{}\" ", display_name)?;
+                write!(f, "{} ", QuotedString(display_name))?;
             }
             write!(f, "<{}>", route.uri().as_str())?;
             for (key, value) in route.params() {
                 if let Some(v) = value {
-                    write!(f, ";{}={}", key, v)?;
+                    write!(f, ";{}={}", key, ParamValue(v))?;
                 } else {
                     write!(f, ";{}", key)?;
                 }
@@ -276,12 +277,12 @@ impl fmt::Display for ServiceRouteHeader {
                 write!(f, ", ")?;
             }
             if let Some(display_name) = route.display_name() {
-                write!(f, "\"{}\" ", display_name)?;
+                write!(f, "{} ", QuotedString(display_name))?;
             }
             write!(f, "<{}>", route.uri().as_str())?;
             for (key, value) in route.params() {
                 if let Some(v) = value {
-                    write!(f, ";{}={}", key, v)?;
+                    write!(f, ";{}={}", key, ParamValue(v))?;
                 } else {
                     write!(f, ";{}", key)?;
                 }
diff --git a/crates/sip-core/src/via.rs b/crates/sip-core/src/via.rs
index be9baa2..9b72e87 100644
--- a/crates/sip-core/src/via.rs
+++ b/crates/sip-core/src/via.rs
@@ -25,6 +25,7 @@
 //! Via: SIP/2.0/TCP [2001:db8::1]:5060;branch=z9hG4bK776asdhds
 //! ```
 
+use crate::quoted::{is_quoted_or_plain, split_unquoted};
 use smol_str::SmolStr;
 use std::collections::BTreeMap;
 use std::fmt;
@@ -229,6 +230,14 @@ fn validate_param_value(value: &str) -> Result<(), ViaError> {
         ));
     }
 
+    // A separator outside a quoted string would start another parameter or
+    // another Via value.
+    if !is_quoted_or_plain(value) {
+        return Err(ViaError::InvalidParameter(
+            "parameter value contains separators".to_string(),
+        ));
+    }
+
     Ok(())
 }
 
@@ -359,7 +368,9 @@ impl ViaHeader {
         }
 
         // Split into value and parameters
-        let mut parts = trimmed.split(';');
+        let mut parts = split_unquoted(trimmed, ';')
+            .ok_or_else(|| ViaError::InvalidFormat("unterminated quoted string".to_string()))?
+            .into_iter();
         let value_part = parts
             .next()
             .ok_or_else(|| ViaError::InvalidFormat("empty Via header".to_string()))?
diff --git a/crates/sip-parse/src/header_values.rs b/crates/sip-parse/src/header_values.rs
index 35083cf..984c0cd 100644
--- a/crates/sip-parse/src/header_values.rs
+++ b/crates/sip-parse/src/header_values.rs
@@ -9,6 +9,7 @@ use sip_core::geolocation::{GeolocationError, MAX_GEO_VALUES};
 use sip_core::history_info::{HistoryInfoError, MAX_ENTRIES as MAX_HISTORY_ENTRIES};
 use sip_core::{
     p_headers::PHeaderError,
+    quoted::{split_list, split_unquoted, unquote},
     service_route::{RouteError, MAX_ROUTES},
     AllowHeader, AuthorizationHeader, ContactHeader, DateHeader, EventHeader, FromHeader,
     GeolocationErrorHeader, GeolocationHeader, GeolocationRoutingHeader, GeolocationValue, Headers,
@@ -175,7 +176,7 @@ pub fn parse_resource_priority(value: &SmolStr) -> Option<ResourcePriorityHeader
 }
 
 pub fn parse_event_header(value: &SmolStr) -> Option<EventHeader> {
-    let mut parts = value.split(';');
+    let mut parts = split_unquoted(value, ';')?.into_iter();
     let package = parts.next()?.trim();
     let mut header = EventHeader::new(package).ok()?;
     let mut has_id = false;
@@ -185,15 +186,16 @@ pub fn parse_event_header(value: &SmolStr) -> Option<EventHeader> {
             continue;
         }
         if let Some((name, val)) = part.split_once('=') {
-            let val = val.trim().trim_matches('"');
+            let name = name.trim();
+            let val = unquote(val);
             if name.eq_ignore_ascii_case("id") {
                 if has_id {
                     return None;
                 }
-                header = header.with_id(val).ok()?;
+                header = header.with_id(&val).ok()?;
                 has_id = true;
             } else {
-                header.add_param(name, Some(val)).ok()?;
+                header.add_param(name, Some(&val)).ok()?;
             }
         } else {
             if part.eq_ignore_ascii_case("id") {
@@ -206,7 +208,7 @@ pub fn parse_event_header(value: &SmolStr) -> Option<EventHeader> {
 }
 
 pub fn parse_subscription_state(value: &SmolStr) -> Option<SubscriptionStateHeader> {
-    let mut parts = value.split(';');
+    let mut parts = split_unquoted(value, ';')?.into_iter();
     let state = SubscriptionState::parse(parts.next().unwrap_or("").trim()).ok()?;
     let mut header = SubscriptionStateHeader::new(state);
     for part in parts {
@@ -215,8 +217,7 @@ pub fn parse_subscription_state(value: &SmolStr) -> Option<SubscriptionStateHead
             continue;
         }
         if let Some((name, val)) = part.split_once('=') {
-            let val = val.trim().trim_matches('"');
-            header.add_param(name, Some(val)).ok()?;
+            header.add_param(name.trim(), Some(&unquote(val))).ok()?;
         } else {
             header.add_param(part, None).ok()?;
         }
@@ -290,7 +291,9 @@ pub fn parse_geolocation_header(headers: &Headers) -> Result<GeolocationHeader,
 pub fn parse_geolocation_error(
     value: &SmolStr,
 ) -> Result<GeolocationErrorHeader, GeolocationError> {
-    let mut parts = value.split(';');
+    let mut parts = split_unquoted(value, ';')
+        .ok_or_else(|| GeolocationError::InvalidParamValue("unterminated quoted string".into()))?
+        .into_iter();
     let code = parts.next().map(|c| c.trim()).filter(|c| !c.is_empty());
     let mut header = GeolocationErrorHeader::new();
     if let Some(code) = code {
@@ -305,7 +308,7 @@ pub fn parse_geolocation_error(
         }
         if let Some((name, val)) = part.split_once('=') {
             let key = name.trim().to_ascii_lowercase();
-            let value = SmolStr::new(val.trim().trim_matches('"'));
+            let value = unquote(val);
             if key == "reason" {
                 if let Ok(updated) = header.clone().with_description(value.as_str()) {
                     header = updated;
@@ -336,7 +339,7 @@ pub fn parse_geolocation_routing(
 }
 
 pub fn parse_p_access_network_info(value: &SmolStr) -> Option<PAccessNetworkInfo> {
-    let mut parts = value.split(';');
+    let mut parts = split_unquoted(value, ';')?.into_iter();
     let access_type = parts.next()?.trim();
     let mut header = PAccessNetworkInfo::new(access_type).ok()?;
     for part in parts {
@@ -345,10 +348,7 @@ pub fn parse_p_access_network_info(value: &SmolStr) -> Option<PAccessNetworkInfo
             continue;
         }
         if let Some((name, val)) = part.split_once('=') {
-            if header
-                .add_param(name.trim(), Some(val.trim().trim_matches('"')))
-                .is_err()
-            {
+            if header.add_param(name.trim(), Some(unquote(val))).is_err() {
                 return None;
             }
         } else if header.add_param(part, Option::<&str>::None).is_err() {
@@ -363,11 +363,11 @@ pub fn parse_p_visited_network_id(value: &SmolStr) -> Option<PVisitedNetworkIdHe
     let values: Vec<SmolStr> = parts
         .into_iter()
         .filter_map(|token| {
-            let trimmed = token.trim_matches('"').trim();
-            if trimmed.is_empty() {
+            let id = unquote(&token);
+            if id.trim().is_empty() {
                 None
             } else {
-                Some(SmolStr::new(trimmed))
+                Some(id)
             }
         })
         .collect();
@@ -425,7 +425,7 @@ fn parse_name_addr(value: &SmolStr) -> Option<NameAddr> {
                 if display.is_empty() {
                     None
                 } else {
-                    Some(SmolStr::new(display.trim_matches('"')))
+                    Some(unquote(display))
                 },
                 uri,
                 params,
@@ -446,10 +446,11 @@ fn parse_name_addr(value: &SmolStr) -> Option<NameAddr> {
 const MAX_PARAMS: usize = 64;
 
 /// Parses parameters with bounds checking to prevent memory exhaustion.
-/// Returns None if there are too many parameters (>64).
+/// Returns None if there are too many parameters (>64), a parameter occurs twice
+/// or a quoted string is not terminated.
 fn parse_params(input: &str) -> Option<BTreeMap<SmolStr, Option<SmolStr>>> {
     let mut params = BTreeMap::new();
-    for raw in input.split(';') {
+    for raw in split_unquoted(input, ';')? {
         let raw = raw.trim();
         if raw.is_empty() {
             continue;
@@ -460,14 +461,15 @@ fn parse_params(input: &str) -> Option<BTreeMap<SmolStr, Option<SmolStr>>> {
             return None;
         }
 
-        if let Some((name, value)) = raw.split_once('=') {
-            params.insert(
-                SmolStr::new(name.trim().to_ascii_lowercase()),
-                Some(SmolStr::new(value.trim().trim_matches('"'))),
-            );
-        } else {
-            params.insert(SmolStr::new(raw.to_ascii_lowercase()), None);
+        let (name, value) = match raw.split_once('=') {
+            Some((name, value)) => (name.trim(), Some(unquote(value))),
+            None => (raw, None),
+        };
+        let name = SmolStr::new(name.to_ascii_lowercase());
+        if params.contains_key(&name) {
+            return None;
         }
+        params.insert(name, value);
     }
     Some(params)
 }
@@ -542,56 +544,29 @@ fn parse_auth_like_header(value: &SmolStr) -> Option<AuthorizationHeader> {
         if params.contains_key(&key) {
             return None;
         }
-        let cleaned = val.trim().trim_matches('"');
-        params.insert(key, SmolStr::new(cleaned));
+        // The digest is computed over the quoted text as it stands, so escapes
+        // are kept; only the enclosing quotes go.
+        let val = val.trim();
+        let val = val
+            .strip_prefix('"')
+            .and_then(|v| v.strip_suffix('"'))
+            .unwrap_or(val);
+        params.insert(key, SmolStr::new(val));
     }
     // Use from_raw() which validates scheme, params count, and param values
     AuthorizationHeader::from_raw(scheme, params).ok()
 }
 
-/// Splits comma-separated values, respecting quotes. Returns None if too many parts or unbalanced quotes.
+/// Splits comma-separated values, respecting quotes and angle brackets. Returns
+/// None if too many parts or unbalanced quotes.
 fn split_quoted_commas(input: &str, max_parts: usize) -> Option<Vec<String>> {
-    let mut parts = Vec::new();
-    let mut current = String::new();
-    let mut in_quotes = false;
-    let mut escape_next = false;
-    for ch in input.chars() {
-        if escape_next {
-            current.push(ch);
-            escape_next = false;
-            continue;
-        }
-        match ch {
-            '\\' if in_quotes => {
-                current.push(ch);
-                escape_next = true;
-            }
-            '"' => {
-                in_quotes = !in_quotes;
-                current.push(ch);
-            }
-            ',' if !in_quotes => {
-                if !current.trim().is_empty() {
-                    // Security: Prevent DoS via excessive comma-separated values
-                    if parts.len() >= max_parts {
-                        return None;
-                    }
-                    parts.push(current.trim().to_owned());
-                }
-                current.clear();
-            }
-            _ => current.push(ch),
-        }
-    }
-    if in_quotes {
-        return None;
-    }
-    if !current.trim().is_empty() {
+    let parts: Vec<String> = split_list(input)?
+        .into_iter()
+        .map(str::trim)
+        .filter(|part| !part.is_empty())
         // Security: Prevent DoS via excessive comma-separated values
-        if parts.len() >= max_parts {
-            return None;
-        }
-        parts.push(current.trim().to_owned());
-    }
-    Some(parts)
+        .take(max_parts + 1)
+        .map(str::to_owned)
+        .collect();
+    (parts.len() <= max_parts).then_some(parts)
 }
-- 
2.43.0


From d7558ad803b6091a18b13475a128d7aa7b0b765f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:54 +0000
Subject: [PATCH 17/90] fix: the refresher parameter name of Session-Expires is
 case-insensitive

---
 crates/sip-core/src/session_timer.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/sip-core/src/session_timer.rs b/crates/sip-core/src/session_timer.rs
index a09dc54..14cfbf8 100644
--- a/crates/sip-core/src/session_timer.rs
+++ b/crates/sip-core/src/session_timer.rs
@@ -342,9 +342,10 @@ impl SessionExpires {
         // Parse optional refresher parameter
         let mut refresher = None;
         for part in &parts[1..] {
-            let param = part.trim();
-            if let Some(value) = param.strip_prefix("refresher=") {
-                refresher = RefresherRole::parse(value.trim());
+            if let Some((name, value)) = part.split_once('=') {
+                if name.trim().eq_ignore_ascii_case("refresher") {
+                    refresher = RefresherRole::parse(value.trim());
+                }
             }
         }
 
-- 
2.43.0


From c3a55a21460192ca4f6e67712089c9f1cee508d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:02 +0000
Subject: [PATCH 18/90] fix: header tokens cannot hold the separators of their
 header

---
 crates/sip-core/src/quoted.rs            |  8 ++++++++
 crates/sip-core/src/reason.rs            | 14 +++++---------
 crates/sip-core/src/referred_by.rs       |  8 +++-----
 crates/sip-core/src/replaces.rs          | 12 ++++++++++++
 crates/sip-core/src/resource_priority.rs |  8 ++++----
 5 files changed, 32 insertions(+), 18 deletions(-)

diff --git a/crates/sip-core/src/quoted.rs b/crates/sip-core/src/quoted.rs
index 4b1284e..4d827bf 100644
--- a/crates/sip-core/src/quoted.rs
+++ b/crates/sip-core/src/quoted.rs
@@ -81,6 +81,14 @@ pub fn is_quoted_or_plain(value: &str) -> bool {
     quoted_content(value).is_some() || !value.contains(['"', ';', ','])
 }
 
+/// True if `text` is a token (RFC 3261 §25.1), which needs no quoting.
+pub fn is_token(text: &str) -> bool {
+    !text.is_empty()
+        && text
+            .bytes()
+            .all(|b| b.is_ascii_alphanumeric() || b"-.!%*_+`'~".contains(&b))
+}
+
 /// Displays text as a quoted string, escaping where needed.
 pub struct QuotedString<'a>(pub &'a str);
 
diff --git a/crates/sip-core/src/reason.rs b/crates/sip-core/src/reason.rs
index 9ccfb8f..80458aa 100644
--- a/crates/sip-core/src/reason.rs
+++ b/crates/sip-core/src/reason.rs
@@ -2,7 +2,7 @@
 // Copyright (C) 2025 James Ferris <ferrous.communications@gmail.com>
 // SPDX-License-Identifier: Apache-2.0 OR MIT
 
-use crate::quoted::{split_unquoted, ParamValue, QuotedString};
+use crate::quoted::{is_token, split_unquoted, ParamValue, QuotedString};
 use smol_str::SmolStr;
 use std::collections::BTreeMap;
 use std::fmt;
@@ -407,10 +407,8 @@ fn validate_protocol(protocol: &str) -> Result<(), ReasonError> {
         });
     }
 
-    if protocol.chars().any(|c| c.is_ascii_control()) {
-        return Err(ReasonError::InvalidProtocol(
-            "contains control characters".to_string(),
-        ));
+    if !is_token(protocol) {
+        return Err(ReasonError::InvalidProtocol("not a token".to_string()));
     }
 
     Ok(())
@@ -428,10 +426,8 @@ fn validate_param_name(name: &str) -> Result<(), ReasonError> {
         });
     }
 
-    if name.chars().any(|c| c.is_ascii_control()) {
-        return Err(ReasonError::InvalidParamName(
-            "contains control characters".to_string(),
-        ));
+    if !is_token(name) {
+        return Err(ReasonError::InvalidParamName("not a token".to_string()));
     }
 
     Ok(())
diff --git a/crates/sip-core/src/referred_by.rs b/crates/sip-core/src/referred_by.rs
index f25e4f5..100d263 100644
--- a/crates/sip-core/src/referred_by.rs
+++ b/crates/sip-core/src/referred_by.rs
@@ -27,7 +27,7 @@
 //! containing an S/MIME signed identity token (Authenticated Identity Body).
 //! This provides cryptographic proof of the referrer's identity.
 
-use crate::quoted::{split_unquoted, unquote, ParamValue, QuotedString};
+use crate::quoted::{is_token, split_unquoted, unquote, ParamValue, QuotedString};
 use std::collections::BTreeMap;
 use std::fmt;
 
@@ -543,10 +543,8 @@ fn validate_param_name(name: &str) -> Result<(), ReferredByError> {
         });
     }
 
-    if name.chars().any(|c| c.is_ascii_control()) {
-        return Err(ReferredByError::InvalidParamName(
-            "contains control characters".to_string(),
-        ));
+    if !is_token(name) {
+        return Err(ReferredByError::InvalidParamName("not a token".to_string()));
     }
 
     Ok(())
diff --git a/crates/sip-core/src/replaces.rs b/crates/sip-core/src/replaces.rs
index 196edcc..d04ce65 100644
--- a/crates/sip-core/src/replaces.rs
+++ b/crates/sip-core/src/replaces.rs
@@ -345,6 +345,13 @@ fn validate_call_id(call_id: &str) -> Result<(), ReplacesError> {
         ));
     }
 
+    // A separator would start another parameter or another header value.
+    if call_id.contains(|c: char| c.is_whitespace() || c == ';' || c == ',') {
+        return Err(ReplacesError::InvalidCallId(
+            "contains separators".to_string(),
+        ));
+    }
+
     Ok(())
 }
 
@@ -366,6 +373,11 @@ fn validate_tag(tag: &str) -> Result<(), ReplacesError> {
         ));
     }
 
+    // A separator would start another parameter or another header value.
+    if tag.contains(|c: char| c.is_whitespace() || c == ';' || c == ',') {
+        return Err(ReplacesError::InvalidTag("contains separators".to_string()));
+    }
+
     Ok(())
 }
 
diff --git a/crates/sip-core/src/resource_priority.rs b/crates/sip-core/src/resource_priority.rs
index 18cb19a..76642ea 100644
--- a/crates/sip-core/src/resource_priority.rs
+++ b/crates/sip-core/src/resource_priority.rs
@@ -299,10 +299,10 @@ fn validate_namespace(namespace: &str) -> Result<(), ResourcePriorityError> {
     // Block control characters and whitespace
     if namespace
         .chars()
-        .any(|c| c.is_ascii_control() || c.is_whitespace())
+        .any(|c| c.is_ascii_control() || c.is_whitespace() || c == ',' || c == '.')
     {
         return Err(ResourcePriorityError::InvalidNamespace(
-            "contains control characters or whitespace".to_string(),
+            "contains control characters, whitespace or separators".to_string(),
         ));
     }
 
@@ -325,10 +325,10 @@ fn validate_priority(priority: &str) -> Result<(), ResourcePriorityError> {
     // Block control characters and whitespace
     if priority
         .chars()
-        .any(|c| c.is_ascii_control() || c.is_whitespace())
+        .any(|c| c.is_ascii_control() || c.is_whitespace() || c == ',')
     {
         return Err(ResourcePriorityError::InvalidPriority(
-            "contains control characters or whitespace".to_string(),
+            "contains control characters, whitespace or separators".to_string(),
         ));
     }
 
-- 
2.43.0


From bba6d528877f276c400778977d1b371f73e9a192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:25 +0000
Subject: [PATCH 19/90] fix: Security-* mechanisms and parameter names are
 tokens, names case-insensitive

---
 crates/sip-core/src/security.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/crates/sip-core/src/security.rs b/crates/sip-core/src/security.rs
index 46b0a00..c7aa765 100644
--- a/crates/sip-core/src/security.rs
+++ b/crates/sip-core/src/security.rs
@@ -4,7 +4,7 @@
 
 //! RFC 3329 Security Agreement implementation with comprehensive security hardening.
 
-use crate::quoted::is_quoted_or_plain;
+use crate::quoted::{is_quoted_or_plain, is_token};
 use smol_str::SmolStr;
 use std::collections::BTreeMap;
 use std::fmt;
@@ -57,7 +57,7 @@ fn validate_mechanism_name(name: &str) -> Result<(), SecurityError> {
         )));
     }
 
-    if name.chars().any(|c| c.is_control() || c.is_whitespace()) {
+    if !is_token(name) {
         return Err(SecurityError::ValidationError(
             "Mechanism name contains invalid characters".to_string(),
         ));
@@ -80,10 +80,7 @@ fn validate_param_name(name: &str) -> Result<(), SecurityError> {
         )));
     }
 
-    if name
-        .chars()
-        .any(|c| c.is_control() || c.is_whitespace() || c == ';' || c == '=' || c == ',')
-    {
+    if !is_token(name) {
         return Err(SecurityError::ValidationError(
             "Parameter name contains invalid characters".to_string(),
         ));
@@ -226,6 +223,9 @@ impl SecurityEntry {
             validate_param_value(v)?;
         }
 
+        // Parameter names are case-insensitive: replace, do not add a variant.
+        self.params
+            .retain(|existing, _| !existing.eq_ignore_ascii_case(name));
         self.params
             .insert(SmolStr::new(name), value.map(SmolStr::new));
         Ok(())
-- 
2.43.0


From d901670c0b2352fd25a69853ad57d57ab55b77e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:07 +0000
Subject: [PATCH 20/90] fix: unquoted parameter values cannot hold whitespace

---
 crates/sip-core/src/quoted.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/sip-core/src/quoted.rs b/crates/sip-core/src/quoted.rs
index 4d827bf..d900ba4 100644
--- a/crates/sip-core/src/quoted.rs
+++ b/crates/sip-core/src/quoted.rs
@@ -78,7 +78,8 @@ fn quoted_content(raw: &str) -> Option<String> {
 /// True if `value` can be written after `name=` as it is: a complete quoted
 /// string, or text without separators.
 pub fn is_quoted_or_plain(value: &str) -> bool {
-    quoted_content(value).is_some() || !value.contains(['"', ';', ','])
+    quoted_content(value).is_some()
+        || !value.contains(|c: char| c.is_whitespace() || "\";,".contains(c))
 }
 
 /// True if `text` is a token (RFC 3261 §25.1), which needs no quoting.
-- 
2.43.0


From 8322f07f2a3ace7a1d40c1a5cc309631d3d07bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:53 +0000
Subject: [PATCH 21/90] fix: tag and id lookup never splits inside characters,
 quotes or brackets

---
 crates/sip-auth/src/lib.rs      |  2 +-
 crates/sip-core/src/quoted.rs   | 11 +++++++++++
 crates/sip-dialog/src/lib.rs    | 13 ++-----------
 crates/sip-registrar/src/lib.rs |  2 +-
 4 files changed, 15 insertions(+), 13 deletions(-)

diff --git a/crates/sip-auth/src/lib.rs b/crates/sip-auth/src/lib.rs
index 7ac0788..8057f4f 100644
--- a/crates/sip-auth/src/lib.rs
+++ b/crates/sip-auth/src/lib.rs
@@ -1745,7 +1745,7 @@ impl DigestClient {
 /// If the To header doesn't have a tag, generates and adds one
 fn ensure_to_tag(to_header: &str) -> SmolStr {
     // Check if tag already exists
-    if to_header.contains(";tag=") {
+    if sip_core::quoted::header_param(to_header, "tag").is_some() {
         return SmolStr::new(to_header);
     }
 
diff --git a/crates/sip-core/src/quoted.rs b/crates/sip-core/src/quoted.rs
index d900ba4..76688a0 100644
--- a/crates/sip-core/src/quoted.rs
+++ b/crates/sip-core/src/quoted.rs
@@ -22,6 +22,17 @@ pub fn split_list(input: &str) -> Option<Vec<&str>> {
     split(input, ',', true)
 }
 
+/// Returns the value of the header parameter `name`: a `;name=value` outside
+/// quoted strings and angle brackets. Names are case-insensitive.
+pub fn header_param(value: &str, name: &str) -> Option<SmolStr> {
+    split(value, ';', true)?.into_iter().find_map(|segment| {
+        let (key, value) = segment.split_once('=')?;
+        key.trim()
+            .eq_ignore_ascii_case(name)
+            .then(|| unquote(value))
+    })
+}
+
 fn split(input: &str, sep: char, brackets: bool) -> Option<Vec<&str>> {
     let mut parts = Vec::new();
     let mut start = 0;
diff --git a/crates/sip-dialog/src/lib.rs b/crates/sip-dialog/src/lib.rs
index 6bf4d69..04cc2cd 100644
--- a/crates/sip-dialog/src/lib.rs
+++ b/crates/sip-dialog/src/lib.rs
@@ -1140,9 +1140,7 @@ fn validate_event_package(event: &str) -> Result<(), SubscriptionError> {
         });
     }
     for param in parts {
-        let trimmed = param.trim();
-        if trimmed.len() >= 3 && trimmed[..3].eq_ignore_ascii_case("id=") {
-            let id = trimmed[3..].trim().trim_matches('"');
+        if let Some(id) = sip_core::quoted::header_param(param, "id") {
             if id.len() > MAX_EVENT_ID_LENGTH {
                 return Err(SubscriptionError::EventTooLong {
                     max: MAX_EVENT_ID_LENGTH,
@@ -1213,14 +1211,7 @@ fn validate_subscription_cseq(cseq: u32) -> Result<(), SubscriptionError> {
 /// Returns `None` if the header carries no tag (e.g. the To header of an
 /// out-of-dialog request). Matching is case-insensitive per RFC 3261 §7.3.1.
 pub fn extract_tag(value: &SmolStr) -> Option<SmolStr> {
-    value.split(';').find_map(|segment| {
-        let trimmed = segment.trim();
-        if trimmed.len() >= 4 && trimmed[..4].eq_ignore_ascii_case("tag=") {
-            Some(SmolStr::new(&trimmed[4..]))
-        } else {
-            None
-        }
-    })
+    sip_core::quoted::header_param(value, "tag")
 }
 
 /// Builds a dialog route set from Record-Route headers.
diff --git a/crates/sip-registrar/src/lib.rs b/crates/sip-registrar/src/lib.rs
index 34f7be2..92c580b 100644
--- a/crates/sip-registrar/src/lib.rs
+++ b/crates/sip-registrar/src/lib.rs
@@ -2214,7 +2214,7 @@ fn format_contact(contact_uri: &SmolStr, expires: Duration, q_value: f32) -> Smo
 /// If the To header doesn't have a tag, generates and adds one
 fn ensure_to_tag(to_header: &str) -> SmolStr {
     // Check if tag already exists
-    if to_header.contains(";tag=") {
+    if sip_core::quoted::header_param(to_header, "tag").is_some() {
         return SmolStr::new(to_header);
     }
 
-- 
2.43.0


From 2a4c938328eac2ebe06eb88ae8931888c1b43da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:19 +0000
Subject: [PATCH 22/90] fix: requests with a comma-separated Via list were
 rejected

---
 crates/sip-parse/src/lib.rs | 35 +++++++++++++++++------------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/crates/sip-parse/src/lib.rs b/crates/sip-parse/src/lib.rs
index 43f48d5..e3477a7 100644
--- a/crates/sip-parse/src/lib.rs
+++ b/crates/sip-parse/src/lib.rs
@@ -17,6 +17,7 @@
 //! ```
 
 use bytes::{Bytes, BytesMut};
+use sip_core::quoted::{header_param, split_list};
 use sip_core::{is_valid_branch, Headers, Method, Request, RequestLine, Response, StatusLine, Uri};
 use smol_str::SmolStr;
 
@@ -67,15 +68,8 @@ pub fn parse_request_with_limit(datagram: &Bytes, max_size: usize) -> Option<Req
     if !singleton_headers_unique(&headers) {
         return None;
     }
-    if let Some(via) = headers.get("Via") {
-        if let Some(branch) = via
-            .split(';')
-            .find_map(|p| p.trim().strip_prefix("branch="))
-        {
-            if !is_valid_branch(branch.trim()) {
-                return None;
-            }
-        }
+    if !top_via_branch_valid(&headers) {
+        return None;
     }
     let body = extract_body(body_bytes, &headers)?;
     if !cseq_matches(&headers, &method)? {
@@ -102,15 +96,8 @@ pub fn parse_request_with_limit_strict(datagram: &Bytes, max_size: usize) -> Opt
     if !singleton_headers_unique(&headers) {
         return None;
     }
-    if let Some(via) = headers.get("Via") {
-        if let Some(branch) = via
-            .split(';')
-            .find_map(|p| p.trim().strip_prefix("branch="))
-        {
-            if !is_valid_branch(branch.trim()) {
-                return None;
-            }
-        }
+    if !top_via_branch_valid(&headers) {
+        return None;
     }
 
     let declared = match strict_content_length(&headers).ok()? {
@@ -132,6 +119,18 @@ pub fn parse_request_with_limit_strict(datagram: &Bytes, max_size: usize) -> Opt
     Request::new(RequestLine::new(method, uri), headers, body).ok()
 }
 
+/// Checks the branch of the topmost Via, which may be the first of a
+/// comma-separated list. A missing branch is accepted (RFC 2543 peers).
+fn top_via_branch_valid(headers: &Headers) -> bool {
+    let Some(via) = headers.get("Via") else {
+        return true;
+    };
+    let Some(top) = split_list(via).and_then(|vias| vias.first().copied()) else {
+        return false;
+    };
+    header_param(top, "branch").is_none_or(|branch| is_valid_branch(&branch))
+}
+
 /// Parses a SIP response from raw network bytes.
 pub fn parse_response(datagram: &Bytes) -> Option<Response> {
     if datagram.len() > DEFAULT_MAX_MESSAGE_SIZE {
-- 
2.43.0


From a146b3bfb2fa673506a9ab894339ee24f124f5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:27 +0000
Subject: [PATCH 23/90] fix: nonce store with a small limit grew without bound

---
 crates/sip-auth/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/sip-auth/src/lib.rs b/crates/sip-auth/src/lib.rs
index 8057f4f..c6a00c5 100644
--- a/crates/sip-auth/src/lib.rs
+++ b/crates/sip-auth/src/lib.rs
@@ -596,7 +596,9 @@ impl NonceManager {
 
             // If still at capacity after cleanup, remove oldest nonces
             if self.nonces.len() >= self.max_nonces {
-                self.remove_oldest(self.max_nonces / 10); // Remove 10% of capacity
+                // Remove 10% of capacity, and always enough to fit one more
+                let excess = (self.nonces.len() + 1).saturating_sub(self.max_nonces);
+                self.remove_oldest(excess.max(self.max_nonces / 10));
             }
         }
 
-- 
2.43.0


From f7d64cc147302f6810315119312396696df2cbbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:50 +0000
Subject: [PATCH 24/90] fix: requests with a wrong digest consumed the nonce
 count and extended the reuse window

---
 crates/sip-auth/src/lib.rs | 50 ++++++++++++++++++++++++++++++--------
 1 file changed, 40 insertions(+), 10 deletions(-)

diff --git a/crates/sip-auth/src/lib.rs b/crates/sip-auth/src/lib.rs
index c6a00c5..84cf2b9 100644
--- a/crates/sip-auth/src/lib.rs
+++ b/crates/sip-auth/src/lib.rs
@@ -629,6 +629,15 @@ impl NonceManager {
         }
     }
 
+    /// Like [`Self::verify_with_nc`], but leaves the nonce's state unchanged.
+    fn accepts_nc(&self, value: &str, nc: u32, method: &Method, uri: &str, body: &[u8]) -> bool {
+        let Some(mut nonce) = self.nonces.get(value).map(|entry| entry.clone()) else {
+            return false;
+        };
+        nonce.is_valid()
+            && nonce.validate_nc_with_request(nc, method, uri, body, self.max_request_age)
+    }
+
     /// Basic verification without nonce-count tracking (for backwards compatibility).
     /// Use verify_with_nc() for proper replay protection.
     pub fn verify(&self, value: &str) -> bool {
@@ -811,6 +820,7 @@ struct DigestParams {
     uri: SmolStr,
     response: SmolStr,
     nc_raw: Option<SmolStr>,
+    nc_value: Option<u32>,
     cnonce: Option<SmolStr>,
     qop: Option<Qop>,
 }
@@ -988,7 +998,7 @@ impl<S> DigestAuthenticator<S> {
             return Ok(None);
         }
 
-        let _validated_nc = if let Some(nc_str) = nc {
+        let nc_value = if let Some(nc_str) = nc {
             let nc_value = u32::from_str_radix(nc_str.as_str(), 16)
                 .map_err(|_| anyhow!("invalid nc format"))?;
 
@@ -1005,7 +1015,7 @@ impl<S> DigestAuthenticator<S> {
                 return Ok(None);
             }
 
-            if !self.nonce_manager.verify_with_nc(
+            if !self.nonce_manager.accepts_nc(
                 nonce,
                 nc_value,
                 request.method(),
@@ -1031,6 +1041,7 @@ impl<S> DigestAuthenticator<S> {
             uri: uri.clone(),
             response: response.clone(),
             nc_raw: nc.cloned(),
+            nc_value,
             cnonce: cnonce.cloned(),
             qop,
         }))
@@ -1038,6 +1049,25 @@ impl<S> DigestAuthenticator<S> {
 }
 
 impl<S> DigestAuthenticator<S> {
+    /// Records the nonce count of a request whose digest was correct.
+    ///
+    /// Only authenticated requests advance the count, so a forged request
+    /// can neither lock out the legitimate client nor extend the nonce's
+    /// reuse window. The check is repeated under the entry lock because a
+    /// concurrent request may have used the same count in the meantime.
+    fn consume_nc(&self, params: &DigestParams, request: &Request) -> bool {
+        match params.nc_value {
+            Some(nc) => self.nonce_manager.verify_with_nc(
+                params.nonce.as_str(),
+                nc,
+                request.method(),
+                request.uri().as_str(),
+                request.body(),
+            ),
+            None => true,
+        }
+    }
+
     pub fn new(realm: &str, store: S) -> Self {
         // Generate a random opaque value for this authenticator instance
         let opaque: String = rand::rng()
@@ -1364,10 +1394,10 @@ impl<S: CredentialStore> Authenticator for DigestAuthenticator<S> {
             request.body().as_ref(),
         );
 
-        Ok(constant_time_eq(
-            response_calc.as_bytes(),
-            params.response.as_bytes(),
-        ))
+        if !constant_time_eq(response_calc.as_bytes(), params.response.as_bytes()) {
+            return Ok(false);
+        }
+        Ok(self.consume_nc(&params, request))
     }
 
     fn credentials_for(&self, _method: &Method, _uri: &str) -> Option<Credentials> {
@@ -1427,10 +1457,10 @@ impl<S: AsyncCredentialStore> DigestAuthenticator<S> {
             request.body().as_ref(),
         );
 
-        Ok(constant_time_eq(
-            response_calc.as_bytes(),
-            params.response.as_bytes(),
-        ))
+        if !constant_time_eq(response_calc.as_bytes(), params.response.as_bytes()) {
+            return Ok(false);
+        }
+        Ok(self.consume_nc(&params, request))
     }
 }
 
-- 
2.43.0


From 2ced20628e896473f24cb046ab9454d56ed7813f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:52 +0000
Subject: [PATCH 25/90] fix: a nonce count of zero was accepted and escaped the
 reuse window

---
 crates/sip-auth/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/sip-auth/src/lib.rs b/crates/sip-auth/src/lib.rs
index 84cf2b9..2c5d837 100644
--- a/crates/sip-auth/src/lib.rs
+++ b/crates/sip-auth/src/lib.rs
@@ -490,6 +490,11 @@ impl Nonce {
             // since the last successful auth, reject as potential replay
             return false;
         }
+        // The count includes the current request, so it starts at 1
+        // (RFC 7616 §3.4); zero would also evade the age gate above.
+        if nc == 0 {
+            return false;
+        }
         // Compute hash of request (method:uri:body bytes).
         let mut ctx = Sha256::new();
         ctx.update(method.as_str().as_bytes());
-- 
2.43.0


From 5445d0e0fadf8229c45f2775f6bec61a0d056724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:07 +0000
Subject: [PATCH 26/90] fix: challenges and registrar responses copied only the
 first Via of the request

---
 crates/sip-auth/src/lib.rs      |  4 ++--
 crates/sip-registrar/src/lib.rs | 10 +++++-----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/crates/sip-auth/src/lib.rs b/crates/sip-auth/src/lib.rs
index 2c5d837..a9c698f 100644
--- a/crates/sip-auth/src/lib.rs
+++ b/crates/sip-auth/src/lib.rs
@@ -1160,7 +1160,7 @@ impl<S> DigestAuthenticator<S> {
     pub fn challenge_stale(&self, request: &Request) -> Result<Response> {
         let mut headers = self.build_challenge_with_stale(true);
 
-        if let Some(via) = request.headers().get("Via") {
+        for via in request.headers().get_all("Via") {
             headers.push(SmolStr::new("Via"), via)?;
         }
         if let Some(from) = request.headers().get("From") {
@@ -1344,7 +1344,7 @@ impl<S: CredentialStore> Authenticator for DigestAuthenticator<S> {
         let mut headers = self.build_challenge();
 
         // RFC 3261: Copy required headers from request to response
-        if let Some(via) = request.headers().get("Via") {
+        for via in request.headers().get_all("Via") {
             headers.push(SmolStr::new("Via"), via)?;
         }
         if let Some(from) = request.headers().get("From") {
diff --git a/crates/sip-registrar/src/lib.rs b/crates/sip-registrar/src/lib.rs
index 92c580b..d552e86 100644
--- a/crates/sip-registrar/src/lib.rs
+++ b/crates/sip-registrar/src/lib.rs
@@ -1395,7 +1395,7 @@ impl<S, A> BasicRegistrar<S, A> {
         let mut headers = Headers::new();
 
         // RFC 3261: Copy required headers from request to response
-        if let Some(via) = request.headers().get("Via") {
+        for via in request.headers().get_all("Via") {
             headers.push(SmolStr::new("Via"), via)?;
         }
         if let Some(from) = request.headers().get("From") {
@@ -1629,7 +1629,7 @@ impl<S: AsyncLocationStore, A: Authenticator> BasicRegistrar<S, A> {
 
             let mut headers = Headers::new();
 
-            if let Some(via) = request.headers().get("Via") {
+            for via in request.headers().get_all("Via") {
                 headers.push(SmolStr::new("Via"), via)?;
             }
             if let Some(from) = request.headers().get("From") {
@@ -1782,7 +1782,7 @@ impl<S: AsyncLocationStore, A: Authenticator> BasicRegistrar<S, A> {
 
         let mut headers = Headers::new();
 
-        if let Some(via) = request.headers().get("Via") {
+        for via in request.headers().get_all("Via") {
             headers.push(SmolStr::new("Via"), via)?;
         }
         if let Some(from) = request.headers().get("From") {
@@ -1981,7 +1981,7 @@ impl<S: LocationStore, A: Authenticator> Registrar for BasicRegistrar<S, A> {
             let mut headers = Headers::new();
 
             // RFC 3261: Copy required headers from request to response
-            if let Some(via) = request.headers().get("Via") {
+            for via in request.headers().get_all("Via") {
                 headers.push(SmolStr::new("Via"), via)?;
             }
             if let Some(from) = request.headers().get("From") {
@@ -2146,7 +2146,7 @@ impl<S: LocationStore, A: Authenticator> Registrar for BasicRegistrar<S, A> {
         let mut headers = Headers::new();
 
         // RFC 3261: Copy required headers from request to response
-        if let Some(via) = request.headers().get("Via") {
+        for via in request.headers().get_all("Via") {
             headers.push(SmolStr::new("Via"), via)?;
         }
         if let Some(from) = request.headers().get("From") {
-- 
2.43.0


From d3960cde3aa6de81a974d50277afac95b5999930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:47 +0000
Subject: [PATCH 27/90] fix: authorization used the username of another
 credentials header than the one verified

---
 crates/sip-auth/src/lib.rs      | 75 +++++++++++++++++++++------------
 crates/sip-registrar/src/lib.rs | 10 +++--
 2 files changed, 53 insertions(+), 32 deletions(-)

diff --git a/crates/sip-auth/src/lib.rs b/crates/sip-auth/src/lib.rs
index a9c698f..6bd3838 100644
--- a/crates/sip-auth/src/lib.rs
+++ b/crates/sip-auth/src/lib.rs
@@ -37,7 +37,7 @@ use bytes::Bytes;
 use dashmap::DashMap;
 use rand::{distr::Alphanumeric, RngExt};
 use sha2::{Digest, Sha256, Sha512};
-use sip_core::{Headers, Method, Request, Response, StatusLine};
+use sip_core::{AuthorizationHeader, Headers, Method, Request, Response, StatusLine};
 use sip_parse::parse_authorization_header;
 use sip_ratelimit::RateLimiter;
 use smol_str::SmolStr;
@@ -168,6 +168,16 @@ pub trait Authenticator: Send + Sync {
         false
     }
 
+    /// Returns the username of the credentials that [`Self::verify`] checks
+    /// for this request.
+    ///
+    /// A request can carry credentials for other realms and for both origin
+    /// and proxy authentication, so authorization decisions must use this
+    /// name rather than that of an arbitrary credentials header.
+    fn verified_username(&self, request: &Request) -> Option<SmolStr> {
+        extract_auth_username(request.headers())
+    }
+
     /// Issues a `stale=true` challenge for an expired-nonce failure.
     /// Default delegates to [`Self::challenge`]; override to emit the
     /// `stale` parameter so the client can re-authenticate silently.
@@ -886,6 +896,32 @@ impl<S> DigestAuthenticator<S> {
 }
 
 impl<S> DigestAuthenticator<S> {
+    /// The Digest credentials meant for this authenticator: of all those in
+    /// the header this authenticator reads, the first for its realm (RFC 3261
+    /// §22.3 lets a request carry credentials for several realms), or the
+    /// first at all when none names the realm.
+    fn own_credentials(&self, headers: &Headers) -> Option<AuthorizationHeader> {
+        let header_name = if self.proxy_auth {
+            "Proxy-Authorization"
+        } else {
+            "Authorization"
+        };
+        let mut first = None;
+        for value in headers.get_all_smol(header_name) {
+            let Some(parsed) = parse_authorization_header(value) else {
+                continue;
+            };
+            if !parsed.scheme().eq_ignore_ascii_case("Digest") {
+                continue;
+            }
+            if parsed.param("realm") == Some(&self.realm) {
+                return Some(parsed);
+            }
+            first.get_or_insert(parsed);
+        }
+        first
+    }
+
     fn prepare_digest(&self, request: &Request, headers: &Headers) -> Result<Option<DigestParams>> {
         if request.body().len() > MAX_BODY_SIZE {
             return Err(anyhow!("request body too large"));
@@ -900,26 +936,11 @@ impl<S> DigestAuthenticator<S> {
             }
         }
 
-        let header_name = if self.proxy_auth {
-            "Proxy-Authorization"
-        } else {
-            "Authorization"
-        };
-
-        let auth_header = match headers.get_smol(header_name) {
-            Some(h) => h,
-            None => return Ok(None),
-        };
-
-        let parsed = match parse_authorization_header(auth_header) {
+        let parsed = match self.own_credentials(headers) {
             Some(p) => p,
             None => return Ok(None),
         };
 
-        if !parsed.scheme().eq_ignore_ascii_case("Digest") {
-            return Ok(None);
-        }
-
         let username = parsed
             .param("username")
             .ok_or_else(|| anyhow!("missing username"))?;
@@ -1142,17 +1163,9 @@ impl<S> DigestAuthenticator<S> {
     /// The nonce referenced by the request's `Authorization` /
     /// `Proxy-Authorization` Digest header, if one is present and parses.
     fn presented_nonce(&self, request: &Request) -> Option<SmolStr> {
-        let header_name = if self.proxy_auth {
-            "Proxy-Authorization"
-        } else {
-            "Authorization"
-        };
-        let raw = request.headers().get_smol(header_name)?;
-        let parsed = parse_authorization_header(raw)?;
-        if !parsed.scheme().eq_ignore_ascii_case("Digest") {
-            return None;
-        }
-        parsed.param("nonce").cloned()
+        self.own_credentials(request.headers())?
+            .param("nonce")
+            .cloned()
     }
 
     /// Issues a challenge response with stale=true (RFC 7616 §3.5).
@@ -1431,6 +1444,12 @@ impl<S: CredentialStore> Authenticator for DigestAuthenticator<S> {
         }
     }
 
+    fn verified_username(&self, request: &Request) -> Option<SmolStr> {
+        self.own_credentials(request.headers())?
+            .param("username")
+            .cloned()
+    }
+
     fn challenge_stale(&self, request: &Request) -> Result<Response> {
         DigestAuthenticator::challenge_stale(self, request)
     }
diff --git a/crates/sip-registrar/src/lib.rs b/crates/sip-registrar/src/lib.rs
index d552e86..b999c66 100644
--- a/crates/sip-registrar/src/lib.rs
+++ b/crates/sip-registrar/src/lib.rs
@@ -1553,13 +1553,14 @@ impl<S: AsyncLocationStore, A: Authenticator> BasicRegistrar<S, A> {
         // authenticated user has authority to register for this AOR.
         // RFC 3261 §10.3 step 4: The registrar SHOULD verify that the authenticated
         // user is authorized to modify registrations for the To address-of-record.
-        if self.authenticator.is_some() {
+        if let Some(auth) = &self.authenticator {
             // Fail closed: reject unless the AOR carries an identity that
             // matches the authenticated user. AORs with no user part (`tel:`
             // numbers and host-only SIP URIs) previously yielded `None` and
             // skipped this check entirely, letting any authenticated user
             // hijack another party's `tel:` / host-only registration.
-            let authorized = sip_auth::extract_auth_username(request.headers())
+            let authorized = auth
+                .verified_username(request)
                 .and_then(|auth_user| {
                     aor_identity(&aor).map(|id| usernames_equal(id, auth_user.as_str()))
                 })
@@ -1900,13 +1901,14 @@ impl<S: LocationStore, A: Authenticator> Registrar for BasicRegistrar<S, A> {
         // authenticated user has authority to register for this AOR.
         // RFC 3261 §10.3 step 4: The registrar SHOULD verify that the authenticated
         // user is authorized to modify registrations for the To address-of-record.
-        if self.authenticator.is_some() {
+        if let Some(auth) = &self.authenticator {
             // Fail closed: reject unless the AOR carries an identity that
             // matches the authenticated user. AORs with no user part (`tel:`
             // numbers and host-only SIP URIs) previously yielded `None` and
             // skipped this check entirely, letting any authenticated user
             // hijack another party's `tel:` / host-only registration.
-            let authorized = sip_auth::extract_auth_username(request.headers())
+            let authorized = auth
+                .verified_username(request)
                 .and_then(|auth_user| {
                     aor_identity(&aor).map(|id| usernames_equal(id, auth_user.as_str()))
                 })
-- 
2.43.0


From 3e80eed28aed226b04235454a92b1b24eaeb308e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:02 +0000
Subject: [PATCH 28/90] fix: registrar wrote the Date header in a format SIP
 does not allow

---
 crates/sip-registrar/src/lib.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/crates/sip-registrar/src/lib.rs b/crates/sip-registrar/src/lib.rs
index b999c66..0c1046b 100644
--- a/crates/sip-registrar/src/lib.rs
+++ b/crates/sip-registrar/src/lib.rs
@@ -26,7 +26,6 @@
 use anyhow::Result;
 use async_trait::async_trait;
 use bytes::Bytes;
-use chrono::Utc;
 use dashmap::DashMap;
 use rand::{distr::Alphanumeric, RngExt};
 use sip_auth::Authenticator;
@@ -1647,7 +1646,10 @@ impl<S: AsyncLocationStore, A: Authenticator> BasicRegistrar<S, A> {
             }
 
             headers.push(SmolStr::new("Contact"), SmolStr::new("*"))?;
-            headers.push(SmolStr::new("Date"), SmolStr::new(Utc::now().to_rfc2822()))?;
+            headers.push(
+                SmolStr::new("Date"),
+                SmolStr::new(sip_core::DateHeader::now().raw()),
+            )?;
             headers.push(SmolStr::new("Content-Length"), SmolStr::new("0"))?;
 
             return Ok(Response::new(
@@ -1808,7 +1810,10 @@ impl<S: AsyncLocationStore, A: Authenticator> BasicRegistrar<S, A> {
         }
 
         self.append_extensions(&mut headers, &bindings)?;
-        headers.push(SmolStr::new("Date"), SmolStr::new(Utc::now().to_rfc2822()))?;
+        headers.push(
+            SmolStr::new("Date"),
+            SmolStr::new(sip_core::DateHeader::now().raw()),
+        )?;
         headers.push(SmolStr::new("Content-Length"), SmolStr::new("0"))?;
 
         Ok(Response::new(
@@ -2001,7 +2006,10 @@ impl<S: LocationStore, A: Authenticator> Registrar for BasicRegistrar<S, A> {
             }
 
             headers.push(SmolStr::new("Contact"), SmolStr::new("*"))?;
-            headers.push(SmolStr::new("Date"), SmolStr::new(Utc::now().to_rfc2822()))?;
+            headers.push(
+                SmolStr::new("Date"),
+                SmolStr::new(sip_core::DateHeader::now().raw()),
+            )?;
             headers.push(SmolStr::new("Content-Length"), SmolStr::new("0"))?;
 
             return Ok(Response::new(
@@ -2174,7 +2182,10 @@ impl<S: LocationStore, A: Authenticator> Registrar for BasicRegistrar<S, A> {
         }
 
         self.append_extensions(&mut headers, &bindings)?;
-        headers.push(SmolStr::new("Date"), SmolStr::new(Utc::now().to_rfc2822()))?;
+        headers.push(
+            SmolStr::new("Date"),
+            SmolStr::new(sip_core::DateHeader::now().raw()),
+        )?;
         headers.push(SmolStr::new("Content-Length"), SmolStr::new("0"))?;
 
         Ok(Response::new(
-- 
2.43.0


From d961bb04259adffcd3d9c55b14093bedc96e9ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:17 +0000
Subject: [PATCH 29/90] fix: a REGISTER refused for one contact kept the
 changes of the contacts before it

---
 crates/sip-registrar/src/lib.rs | 62 ++++++++++++++++++++++++++++-----
 1 file changed, 54 insertions(+), 8 deletions(-)

diff --git a/crates/sip-registrar/src/lib.rs b/crates/sip-registrar/src/lib.rs
index 0c1046b..22d8e1a 100644
--- a/crates/sip-registrar/src/lib.rs
+++ b/crates/sip-registrar/src/lib.rs
@@ -1676,6 +1676,7 @@ impl<S: AsyncLocationStore, A: Authenticator> BasicRegistrar<S, A> {
             existing_by_contact.insert(SmolStr::new(binding.contact()), binding);
         }
 
+        let mut changes: Vec<(SmolStr, Option<Binding>)> = Vec::new();
         for contact in &contacts {
             let contact_uri = match self.extract_contact_uri(contact.as_str()) {
                 Ok(uri) => uri,
@@ -1756,8 +1757,7 @@ impl<S: AsyncLocationStore, A: Authenticator> BasicRegistrar<S, A> {
             }
 
             if expires.as_secs() == 0 {
-                self.store.remove(&aor, contact_uri.as_str()).await?;
-                info!(aor = %aor, contact = %contact_uri, "REGISTER removed binding");
+                changes.push((contact_uri, None));
             } else {
                 let mut binding =
                     Binding::new(SmolStr::new(aor.clone()), contact_uri.clone(), expires)?
@@ -1778,8 +1778,31 @@ impl<S: AsyncLocationStore, A: Authenticator> BasicRegistrar<S, A> {
                     binding = binding.with_reg_id(reg_id);
                 }
 
-                self.store.upsert(binding).await?;
-                info!(aor = %aor, contact = %contact_uri, expires = %expires.as_secs(), "REGISTER stored binding");
+                changes.push((contact_uri, Some(binding)));
+            }
+        }
+
+        // Every contact is acceptable: apply them all, or undo them all
+        // (RFC 3261 §10.3 step 7).
+        for (contact_uri, binding) in &changes {
+            let applied = match binding {
+                Some(binding) => self.store.upsert(binding.clone()).await,
+                None => self.store.remove(&aor, contact_uri).await,
+            };
+            if let Err(e) = applied {
+                for (contact_uri, _) in &changes {
+                    self.store.remove(&aor, contact_uri).await?;
+                    if let Some(previous) = existing_by_contact.remove(contact_uri) {
+                        self.store.upsert(previous).await?;
+                    }
+                }
+                return Err(e);
+            }
+            match binding {
+                Some(binding) => {
+                    info!(aor = %aor, contact = %contact_uri, expires = %binding.expires().as_secs(), "REGISTER stored binding")
+                }
+                None => info!(aor = %aor, contact = %contact_uri, "REGISTER removed binding"),
             }
         }
 
@@ -2042,6 +2065,7 @@ impl<S: LocationStore, A: Authenticator> Registrar for BasicRegistrar<S, A> {
             existing_by_contact.insert(binding.contact.clone(), binding);
         }
 
+        let mut changes: Vec<(SmolStr, Option<Binding>)> = Vec::new();
         for contact in &contacts {
             let contact_uri = match self.extract_contact_uri(contact.as_str()) {
                 Ok(uri) => uri,
@@ -2124,8 +2148,7 @@ impl<S: LocationStore, A: Authenticator> Registrar for BasicRegistrar<S, A> {
 
             if expires.as_secs() == 0 {
                 // Remove binding
-                self.store.remove(&aor, contact_uri.as_str())?;
-                info!(aor = %aor, contact = %contact_uri, "REGISTER removed binding");
+                changes.push((contact_uri, None));
             } else {
                 // Add or update binding
                 let mut binding =
@@ -2147,8 +2170,31 @@ impl<S: LocationStore, A: Authenticator> Registrar for BasicRegistrar<S, A> {
                     binding = binding.with_reg_id(reg_id);
                 }
 
-                self.store.upsert(binding)?;
-                info!(aor = %aor, contact = %contact_uri, expires = %expires.as_secs(), "REGISTER stored binding");
+                changes.push((contact_uri, Some(binding)));
+            }
+        }
+
+        // Every contact is acceptable: apply them all, or undo them all
+        // (RFC 3261 §10.3 step 7).
+        for (contact_uri, binding) in &changes {
+            let applied = match binding {
+                Some(binding) => self.store.upsert(binding.clone()),
+                None => self.store.remove(&aor, contact_uri),
+            };
+            if let Err(e) = applied {
+                for (contact_uri, _) in &changes {
+                    self.store.remove(&aor, contact_uri)?;
+                    if let Some(previous) = existing_by_contact.remove(contact_uri) {
+                        self.store.upsert(previous)?;
+                    }
+                }
+                return Err(e);
+            }
+            match binding {
+                Some(binding) => {
+                    info!(aor = %aor, contact = %contact_uri, expires = %binding.expires().as_secs(), "REGISTER stored binding")
+                }
+                None => info!(aor = %aor, contact = %contact_uri, "REGISTER removed binding"),
             }
         }
 
-- 
2.43.0


From d76991a7c10229f4b6506d203aa4b0c6c1837a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:29 +0000
Subject: [PATCH 30/90] fix: an out-of-order wildcard REGISTER removed newer
 bindings

---
 crates/sip-registrar/src/lib.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/crates/sip-registrar/src/lib.rs b/crates/sip-registrar/src/lib.rs
index 22d8e1a..d90d749 100644
--- a/crates/sip-registrar/src/lib.rs
+++ b/crates/sip-registrar/src/lib.rs
@@ -1624,6 +1624,16 @@ impl<S: AsyncLocationStore, A: Authenticator> BasicRegistrar<S, A> {
                     "Bad Request - Wildcard Contact requires Expires: 0",
                 );
             }
+            // RFC 3261 §10.3 step 6: an out-of-order request changes nothing.
+            if self
+                .store
+                .lookup(&aor)
+                .await?
+                .iter()
+                .any(|b| b.call_id == call_id && cseq <= b.cseq)
+            {
+                return self.build_error_response(request, 400, "Bad Request - CSeq out of order");
+            }
             self.store.remove_all(&aor).await?;
             info!(aor = %aor, "REGISTER removed all bindings (wildcard)");
 
@@ -2005,6 +2015,15 @@ impl<S: LocationStore, A: Authenticator> Registrar for BasicRegistrar<S, A> {
                 );
             }
             // Remove all bindings for this AOR
+            // RFC 3261 §10.3 step 6: an out-of-order request changes nothing.
+            if self
+                .store
+                .lookup(&aor)?
+                .iter()
+                .any(|b| b.call_id == call_id && cseq <= b.cseq)
+            {
+                return self.build_error_response(request, 400, "Bad Request - CSeq out of order");
+            }
             self.store.remove_all(&aor)?;
             info!(aor = %aor, "REGISTER removed all bindings (wildcard)");
 
-- 
2.43.0


From a21067dcade45bff71c46d8515c18d039e9fabdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:30 +0000
Subject: [PATCH 31/90] fix: registrar answered contacts without brackets,
 turning their URI parameters into header parameters

---
 crates/sip-registrar/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/sip-registrar/src/lib.rs b/crates/sip-registrar/src/lib.rs
index d90d749..a9aedb3 100644
--- a/crates/sip-registrar/src/lib.rs
+++ b/crates/sip-registrar/src/lib.rs
@@ -2277,10 +2277,10 @@ pub fn contact_headers(headers: &Headers) -> Vec<SmolStr> {
 
 fn format_contact(contact_uri: &SmolStr, expires: Duration, q_value: f32) -> SmolStr {
     if expires.as_secs() == 0 {
-        SmolStr::new(format!("{};expires=0", contact_uri))
+        SmolStr::new(format!("<{}>;expires=0", contact_uri))
     } else {
         SmolStr::new(format!(
-            "{};expires={};q={}",
+            "<{}>;expires={};q={}",
             contact_uri,
             expires.as_secs(),
             q_value
-- 
2.43.0


From 496077bfa4f0b56425d4d2ba238b5de702ca6266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:54 +0000
Subject: [PATCH 32/90] fix: registrar took separators inside quoted Contact
 parameters and display names for structure

---
 crates/sip-registrar/src/lib.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/crates/sip-registrar/src/lib.rs b/crates/sip-registrar/src/lib.rs
index a9aedb3..63a3aa8 100644
--- a/crates/sip-registrar/src/lib.rs
+++ b/crates/sip-registrar/src/lib.rs
@@ -30,7 +30,8 @@ use dashmap::DashMap;
 use rand::{distr::Alphanumeric, RngExt};
 use sip_auth::Authenticator;
 use sip_core::{
-    Headers, PathHeader, Request, Response, ServiceRouteHeader, SipUri, StatusLine, TelUri, Uri,
+    quoted::split_unquoted, Headers, PathHeader, Request, Response, ServiceRouteHeader, SipUri,
+    StatusLine, TelUri, Uri,
 };
 use sip_parse::{header, parse_to_header};
 use sip_ratelimit::RateLimiter;
@@ -1235,7 +1236,7 @@ impl<S, A> BasicRegistrar<S, A> {
         let trimmed = contact_header.trim();
 
         // Handle <uri> format
-        if let Some(start) = trimmed.find('<') {
+        if let Some(start) = find_uri_bracket(trimmed) {
             let end = trimmed[start + 1..]
                 .find('>')
                 .ok_or(ContactHeaderError::Invalid)?;
@@ -1270,7 +1271,7 @@ impl<S, A> BasicRegistrar<S, A> {
             return Ok(None);
         }
 
-        let params_section = if let Some(start) = trimmed.find('<') {
+        let params_section = if let Some(start) = find_uri_bracket(trimmed) {
             let end = trimmed[start + 1..]
                 .find('>')
                 .ok_or(ContactParamError::Invalid)?;
@@ -1288,7 +1289,7 @@ impl<S, A> BasicRegistrar<S, A> {
             return Ok(None);
         }
 
-        for param in params.split(';') {
+        for param in split_unquoted(params, ';').ok_or(ContactParamError::Invalid)? {
             let param = param.trim();
             if param.is_empty() {
                 continue;
@@ -2275,6 +2276,13 @@ pub fn contact_headers(headers: &Headers) -> Vec<SmolStr> {
     contacts
 }
 
+/// Position of the `<` that opens the URI of a Contact value. A `<` inside a
+/// quoted display name or after the first parameter is not one.
+fn find_uri_bracket(contact: &str) -> Option<usize> {
+    let name = split_unquoted(contact, '<')?.first()?.len();
+    (name < contact.len() && split_unquoted(&contact[..name], ';')?.len() == 1).then_some(name)
+}
+
 fn format_contact(contact_uri: &SmolStr, expires: Duration, q_value: f32) -> SmolStr {
     if expires.as_secs() == 0 {
         SmolStr::new(format!("<{}>;expires=0", contact_uri))
-- 
2.43.0


From b5f152643bc49be0a9add97841ac3ad93fb79314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:56 +0000
Subject: [PATCH 33/90] fix: registrar split a Contact at a comma inside its
 URI

---
 crates/sip-registrar/src/lib.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/crates/sip-registrar/src/lib.rs b/crates/sip-registrar/src/lib.rs
index 63a3aa8..feaad28 100644
--- a/crates/sip-registrar/src/lib.rs
+++ b/crates/sip-registrar/src/lib.rs
@@ -2319,6 +2319,7 @@ fn split_quoted_commas(input: &str) -> Vec<String> {
     let mut parts = Vec::new();
     let mut current = String::new();
     let mut in_quotes = false;
+    let mut in_brackets = false;
     let mut escape_next = false;
 
     for ch in input.chars() {
@@ -2332,11 +2333,15 @@ fn split_quoted_commas(input: &str) -> Vec<String> {
                 current.push(ch);
                 escape_next = true;
             }
-            '"' => {
+            '"' if !in_brackets => {
                 in_quotes = !in_quotes;
                 current.push(ch);
             }
-            ',' if !in_quotes => {
+            '<' | '>' if !in_quotes => {
+                in_brackets = ch == '<';
+                current.push(ch);
+            }
+            ',' if !in_quotes && !in_brackets => {
                 if !current.trim().is_empty() {
                     parts.push(current.trim().to_owned());
                 }
-- 
2.43.0


From d0a9454657ddbcbcf8f68c82c2a1185d901a3e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:11 +0000
Subject: [PATCH 34/90] fix: an IPv6 address of record and its port ran
 together, so two addresses shared their bindings

---
 crates/sip-registrar/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/sip-registrar/src/lib.rs b/crates/sip-registrar/src/lib.rs
index feaad28..b954603 100644
--- a/crates/sip-registrar/src/lib.rs
+++ b/crates/sip-registrar/src/lib.rs
@@ -334,7 +334,11 @@ pub fn normalize_aor(uri: &Uri) -> Result<String, NormalizeError> {
 fn normalize_sip_aor(uri: &SipUri) -> String {
     let scheme = if uri.is_sips() { "sips" } else { "sip" };
 
-    let host = uri.host().to_ascii_lowercase();
+    let mut host = uri.host().to_ascii_lowercase();
+    if host.contains(':') {
+        // Without brackets an IPv6 address and its port run together.
+        host = format!("[{host}]");
+    }
     let host_port = match uri.port() {
         Some(port) => format!("{}:{}", host, port),
         None => host.clone(),
-- 
2.43.0


From 8342a71bea9f6b9908ad21d3bd11b6ec96226085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:40 +0000
Subject: [PATCH 35/90] fix: expired and replaced bindings counted towards the
 location store's limits, and concurrent inserts could exceed them

---
 crates/sip-registrar/src/lib.rs | 40 ++++++++++++++++++++++++++++-----
 1 file changed, 35 insertions(+), 5 deletions(-)

diff --git a/crates/sip-registrar/src/lib.rs b/crates/sip-registrar/src/lib.rs
index b954603..160a1b8 100644
--- a/crates/sip-registrar/src/lib.rs
+++ b/crates/sip-registrar/src/lib.rs
@@ -807,6 +807,9 @@ impl<T: LocationStore + 'static> AsyncLocationStore for SyncToAsyncAdapter<T> {
 #[derive(Default, Clone)]
 pub struct MemoryLocationStore {
     inner: Arc<DashMap<SmolStr, Vec<StoredBinding>>>,
+    /// Serializes inserts, so that checking a limit and adding a binding
+    /// are one step.
+    insert_lock: Arc<std::sync::Mutex<()>>,
 }
 
 #[derive(Debug, Clone)]
@@ -827,9 +830,24 @@ impl MemoryLocationStore {
     pub fn new() -> Self {
         Self {
             inner: Arc::new(DashMap::new()),
+            insert_lock: Arc::default(),
         }
     }
 
+    /// Number of stored bindings, not counting the given one.
+    fn count_others(&self, aor: &SmolStr, contact: &str) -> usize {
+        self.inner
+            .iter()
+            .map(|entry| {
+                if entry.key() == aor {
+                    entry.iter().filter(|b| b.contact != contact).count()
+                } else {
+                    entry.len()
+                }
+            })
+            .sum()
+    }
+
     fn purge_expired(&self, aor: &SmolStr) {
         if let Some(mut entry) = self.inner.get_mut(aor) {
             entry.retain(|b| b.expires_at > Instant::now());
@@ -863,16 +881,28 @@ impl LocationStore for MemoryLocationStore {
         let expires_at = Instant::now() + binding.expires();
         let aor_key = SmolStr::new(binding.aor());
 
+        let _guard = self
+            .insert_lock
+            .lock()
+            .unwrap_or_else(|poisoned| poisoned.into_inner());
+
         // Check total bindings limit (DoS prevention)
-        let total_bindings: usize = self.inner.iter().map(|entry| entry.len()).sum();
-        if total_bindings >= MAX_TOTAL_BINDINGS {
-            return Err(anyhow::anyhow!(RegistrationError::TooManyBindings {
-                max: MAX_TOTAL_BINDINGS,
-            }));
+        // Don't count the binding we're about to replace, nor expired ones
+        if self.count_others(&aor_key, binding.contact()) >= MAX_TOTAL_BINDINGS {
+            LocationStore::cleanup_expired(self)?;
+            if self.count_others(&aor_key, binding.contact()) >= MAX_TOTAL_BINDINGS {
+                return Err(anyhow::anyhow!(RegistrationError::TooManyBindings {
+                    max: MAX_TOTAL_BINDINGS,
+                }));
+            }
         }
 
         let mut list = self.inner.entry(aor_key.clone()).or_default();
 
+        // Expired bindings no longer count
+        let now = Instant::now();
+        list.retain(|b| b.expires_at > now);
+
         // Check per-AOR bindings limit (DoS prevention)
         // Don't count the binding we're about to replace
         let existing_count = list
-- 
2.43.0


From 436ca692368924a4c4f2ebecfe1e5e366e6924c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:58 +0000
Subject: [PATCH 36/90] fix: concurrent generates could exceed the nonce limit

---
 crates/sip-auth/src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crates/sip-auth/src/lib.rs b/crates/sip-auth/src/lib.rs
index 6bd3838..cff0fd3 100644
--- a/crates/sip-auth/src/lib.rs
+++ b/crates/sip-auth/src/lib.rs
@@ -582,6 +582,9 @@ pub struct NonceManager {
     ttl: Duration,
     max_nonces: usize,
     max_request_age: Duration,
+    /// Serializes inserts, so that checking the limit and adding a nonce
+    /// are one step.
+    insert_lock: std::sync::Mutex<()>,
 }
 
 impl NonceManager {
@@ -591,6 +594,7 @@ impl NonceManager {
             ttl,
             max_nonces: MAX_NONCE_COUNT,
             max_request_age: DEFAULT_MAX_REQUEST_AGE,
+            insert_lock: std::sync::Mutex::new(()),
         }
     }
 
@@ -605,6 +609,10 @@ impl NonceManager {
     }
 
     pub fn generate(&self) -> Nonce {
+        let _guard = self
+            .insert_lock
+            .lock()
+            .unwrap_or_else(|poisoned| poisoned.into_inner());
         // If we're at capacity, run cleanup before generating new nonce
         if self.nonces.len() >= self.max_nonces {
             self.cleanup();
-- 
2.43.0


From 315e89d3a246c6782bb882cd954852cc37f14a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:00 +0000
Subject: [PATCH 37/90] fix: concurrent checks could exceed the tracked key
 limit, or refuse a key that is tracked

---
 crates/sip-ratelimit/src/lib.rs | 60 +++++++++++++++++++++------------
 1 file changed, 38 insertions(+), 22 deletions(-)

diff --git a/crates/sip-ratelimit/src/lib.rs b/crates/sip-ratelimit/src/lib.rs
index fb1217b..f212cdc 100644
--- a/crates/sip-ratelimit/src/lib.rs
+++ b/crates/sip-ratelimit/src/lib.rs
@@ -44,7 +44,7 @@
 //! - Connection establishment (prevent connection exhaustion)
 
 use dashmap::DashMap;
-use parking_lot::RwLock;
+use parking_lot::{Mutex, RwLock};
 use std::net::IpAddr;
 use std::sync::atomic::{AtomicU64, Ordering};
 use std::sync::Arc;
@@ -490,6 +490,9 @@ pub struct RateLimiter {
     /// Throttle for [`Self::should_log_blocked`] on keys that have no
     /// bucket (rejected at max capacity or invalid), unix seconds.
     untracked_warn_secs: Arc<AtomicU64>,
+    /// Held while a new key is added, so that checking the limit on
+    /// tracked keys and adding one are one step.
+    insert_lock: Arc<Mutex<()>>,
 }
 
 impl RateLimiter {
@@ -500,6 +503,7 @@ impl RateLimiter {
             buckets: Arc::new(DashMap::new()),
             metrics: Arc::new(RateLimitMetrics::new()),
             untracked_warn_secs: Arc::new(AtomicU64::new(0)),
+            insert_lock: Arc::new(Mutex::new(())),
         }
     }
 
@@ -546,28 +550,40 @@ impl RateLimiter {
             self.cleanup_idle();
         }
 
-        // Check if we've hit the max tracked keys limit
-        if !self.buckets.contains_key(key) && self.buckets.len() >= MAX_TRACKED_KEYS {
-            debug!(
-                key,
-                current = self.buckets.len(),
-                max = MAX_TRACKED_KEYS,
-                "rate limiter at max capacity, rejecting new key"
-            );
-            self.metrics
-                .blocked_requests
-                .fetch_add(1, Ordering::Relaxed);
-            return false;
-        }
-
-        // Get or create bucket for this key
-        let bucket = self
-            .buckets
-            .entry(key.to_string())
-            .or_insert_with(|| RwLock::new(TokenBucket::new(self.config.burst_capacity as f64)));
-
         // Try to consume a token
-        let allowed = bucket.write().try_consume(&self.config);
+        let tracked = self
+            .buckets
+            .get(key)
+            .map(|bucket| bucket.write().try_consume(&self.config));
+
+        let allowed = match tracked {
+            Some(allowed) => allowed,
+            None => {
+                let _guard = self.insert_lock.lock();
+
+                // Check if we've hit the max tracked keys limit
+                if !self.buckets.contains_key(key) && self.buckets.len() >= MAX_TRACKED_KEYS {
+                    debug!(
+                        key,
+                        current = self.buckets.len(),
+                        max = MAX_TRACKED_KEYS,
+                        "rate limiter at max capacity, rejecting new key"
+                    );
+                    self.metrics
+                        .blocked_requests
+                        .fetch_add(1, Ordering::Relaxed);
+                    return false;
+                }
+
+                // Create a bucket for this key
+                let bucket = self.buckets.entry(key.to_string()).or_insert_with(|| {
+                    RwLock::new(TokenBucket::new(self.config.burst_capacity as f64))
+                });
+
+                let allowed = bucket.write().try_consume(&self.config);
+                allowed
+            }
+        };
 
         if allowed {
             self.metrics
-- 
2.43.0


From 3a95d085efdca27232fc5dda3402d9687f8b146e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:00 +0000
Subject: [PATCH 38/90] fix: a notifier's subscription kept its own contact as
 the target of its NOTIFYs

---
 crates/sip-dialog/src/lib.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/crates/sip-dialog/src/lib.rs b/crates/sip-dialog/src/lib.rs
index 04cc2cd..3a08275 100644
--- a/crates/sip-dialog/src/lib.rs
+++ b/crates/sip-dialog/src/lib.rs
@@ -1492,9 +1492,10 @@ impl Subscription {
         remote_uri: SipUri,
     ) -> Option<Self> {
         let id = SubscriptionId::from_request_response(request, response)?;
-        let contact = extract_contact_uri(response.headers())?;
-        let local_cseq = parse_cseq_number(request.headers())?;
-        validate_subscription_cseq(local_cseq).ok()?;
+        // NOTIFYs go to the subscriber, so its contact is the request's
+        let contact = extract_contact_uri(request.headers()).unwrap_or_else(|| remote_uri.clone());
+        let remote_cseq = parse_cseq_number(request.headers())?;
+        validate_subscription_cseq(remote_cseq).ok()?;
 
         // Parse expires from response or request
         let expires = if let Some(exp_str) = header(response.headers(), "Expires") {
@@ -1512,8 +1513,8 @@ impl Subscription {
             remote_uri,
             contact,
             expires,
-            local_cseq,
-            remote_cseq: 0,
+            local_cseq: 0,
+            remote_cseq,
         })
     }
 
-- 
2.43.0


From dbec33a96d50a94b07b29a3c63b1f666a919781d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:03 +0000
Subject: [PATCH 39/90] fix: the Contact of error responses and of requests
 that refresh nothing replaced the remote target

---
 crates/sip-dialog/src/lib.rs | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/crates/sip-dialog/src/lib.rs b/crates/sip-dialog/src/lib.rs
index 3a08275..c02f4c0 100644
--- a/crates/sip-dialog/src/lib.rs
+++ b/crates/sip-dialog/src/lib.rs
@@ -583,9 +583,13 @@ impl Dialog {
     /// → Future SUBSCRIBE refreshes use new remote_target
     /// ```
     pub fn update_from_response(&mut self, resp: &Response) {
-        // Update remote target if Contact present
-        if let Some(contact) = extract_contact_uri(resp.headers()) {
-            self.remote_target = contact;
+        // Update remote target if Contact present. Only a response that
+        // establishes or refreshes names the peer; the Contact of a 3xx or
+        // 485 lists alternatives (RFC 3261 §12.2.1.2).
+        if (101..300).contains(&resp.code()) && cseq_refreshes_target(resp.headers()) {
+            if let Some(contact) = extract_contact_uri(resp.headers()) {
+                self.remote_target = contact;
+            }
         }
 
         // Recompute the route set only when this 2xx confirms an early
@@ -665,9 +669,11 @@ impl Dialog {
             self.remote_cseq = cseq;
         }
 
-        // Update remote target from Contact
-        if let Some(contact) = extract_contact_uri(req.headers()) {
-            self.remote_target = contact;
+        // Update remote target from the Contact of a target refresh request
+        if refreshes_target(req.method().as_str()) {
+            if let Some(contact) = extract_contact_uri(req.headers()) {
+                self.remote_target = contact;
+            }
         }
 
         Ok(())
@@ -1257,6 +1263,22 @@ fn extract_contact_uri(headers: &Headers) -> Option<SipUri> {
     header(headers, "Contact").and_then(|raw| parse_uri_from_header(raw.as_str()))
 }
 
+/// Returns true for the methods whose Contact refreshes the remote target
+/// (RFC 3261 §12.2, RFC 3311, RFC 6665).
+fn refreshes_target(method: &str) -> bool {
+    matches!(
+        method,
+        "INVITE" | "UPDATE" | "SUBSCRIBE" | "NOTIFY" | "REFER"
+    )
+}
+
+/// Returns true if a response answers a target refresh request.
+fn cseq_refreshes_target(headers: &Headers) -> bool {
+    header(headers, "CSeq")
+        .and_then(|cseq| cseq.split_whitespace().nth(1))
+        .is_some_and(refreshes_target)
+}
+
 /// Parses CSeq number from headers.
 fn parse_cseq_number(headers: &Headers) -> Option<u32> {
     header(headers, "CSeq")?
-- 
2.43.0


From 9c996221f3edbcd8a6af90a475530d0ef318a74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:07 +0000
Subject: [PATCH 40/90] fix: 100 Trying formed an early dialog

---
 crates/sip-dialog/src/lib.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/sip-dialog/src/lib.rs b/crates/sip-dialog/src/lib.rs
index c02f4c0..e13780f 100644
--- a/crates/sip-dialog/src/lib.rs
+++ b/crates/sip-dialog/src/lib.rs
@@ -314,9 +314,9 @@ impl Dialog {
 
         // Determine state based on response code
         let state = match resp.code() {
-            100..=199 => DialogStateType::Early,
+            101..=199 => DialogStateType::Early,
             200..=299 => DialogStateType::Confirmed,
-            _ => return None, // No dialog for error responses
+            _ => return None, // No dialog for 100 Trying or error responses
         };
 
         // Extract remote target from Contact header
@@ -375,7 +375,7 @@ impl Dialog {
         let id = DialogId::from_response_uas(resp)?;
 
         let state = match resp.code() {
-            100..=199 => DialogStateType::Early,
+            101..=199 => DialogStateType::Early,
             200..=299 => DialogStateType::Confirmed,
             _ => return None,
         };
-- 
2.43.0


From c78687d8e3d95601ba9d7548078bb3f39ccb8611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:10 +0000
Subject: [PATCH 41/90] fix: the ACK was refused when another request, such as
 PRACK, had followed the INVITE

---
 crates/sip-dialog/src/lib.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/crates/sip-dialog/src/lib.rs b/crates/sip-dialog/src/lib.rs
index e13780f..8e85786 100644
--- a/crates/sip-dialog/src/lib.rs
+++ b/crates/sip-dialog/src/lib.rs
@@ -280,6 +280,9 @@ pub struct Dialog {
     /// Remote CSeq number (tracked from requests we receive)
     remote_cseq: u32,
 
+    /// CSeq number of the last INVITE received, which its ACK repeats
+    remote_invite_cseq: u32,
+
     /// Last ACK CSeq number (tracked separately to prevent replay)
     last_ack_cseq: Option<u32>,
 
@@ -355,6 +358,7 @@ impl Dialog {
             route_set,
             local_cseq,
             remote_cseq,
+            remote_invite_cseq: 0,
             last_ack_cseq: None,
             local_uri,
             remote_uri,
@@ -418,6 +422,7 @@ impl Dialog {
             route_set,
             local_cseq,
             remote_cseq,
+            remote_invite_cseq: remote_cseq,
             last_ack_cseq: None,
             local_uri,
             remote_uri,
@@ -526,6 +531,7 @@ impl Dialog {
             remote_target,
             local_cseq,
             remote_cseq,
+            remote_invite_cseq: remote_cseq,
             last_ack_cseq,
             route_set,
             secure,
@@ -653,8 +659,9 @@ impl Dialog {
         }
 
         if req.method().as_str() == "ACK" {
-            // ACK for an INVITE dialog must reuse the INVITE's CSeq.
-            if cseq != self.remote_cseq || self.remote_cseq == 0 {
+            // ACK for an INVITE dialog must reuse the INVITE's CSeq, which
+            // requests such as PRACK may have followed since.
+            if cseq != self.remote_invite_cseq {
                 return Err(DialogError::InvalidCSeq);
             }
 
@@ -667,6 +674,9 @@ impl Dialog {
                 validate_cseq_increment(self.remote_cseq, cseq)?;
             }
             self.remote_cseq = cseq;
+            if req.method().as_str() == "INVITE" {
+                self.remote_invite_cseq = cseq;
+            }
         }
 
         // Update remote target from the Contact of a target refresh request
-- 
2.43.0


From a34fcc641b6ff32c8e5b29fb264b44231bcccd88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:13 +0000
Subject: [PATCH 42/90] fix: brackets and commas in quoted display names were
 taken for the contact or route

---
 crates/sip-dialog/src/lib.rs | 63 +++++++++++++++---------------------
 1 file changed, 26 insertions(+), 37 deletions(-)

diff --git a/crates/sip-dialog/src/lib.rs b/crates/sip-dialog/src/lib.rs
index 8e85786..6d5ff77 100644
--- a/crates/sip-dialog/src/lib.rs
+++ b/crates/sip-dialog/src/lib.rs
@@ -1314,51 +1314,40 @@ fn extract_session_timer(resp: &Response) -> (Option<Duration>, Option<Refresher
 /// Parses URI from header value (handles angle brackets).
 fn parse_uri_from_header(raw: &str) -> Option<SipUri> {
     let trimmed = raw.trim();
-    let uri_part = if let Some(start) = trimmed.find('<') {
-        let end = trimmed[start + 1..].find('>')?;
-        &trimmed[start + 1..start + 1 + end]
+    // A quoted display name may hold brackets of its own
+    let first_quote = trimmed.find('"').filter(|&q| !trimmed[..q].contains('<'));
+    let unnamed = match first_quote {
+        Some(start) => {
+            let quoted = &trimmed[start + 1..];
+            let mut escaped = false;
+            let end = quoted.find(|c| {
+                let closes = c == '"' && !escaped;
+                escaped = c == '\\' && !escaped;
+                closes
+            })?;
+            &quoted[end + 1..]
+        }
+        None => trimmed,
+    };
+    let uri_part = if let Some(start) = unnamed.find('<') {
+        let end = unnamed[start + 1..].find('>')?;
+        &unnamed[start + 1..start + 1 + end]
     } else {
         // No angle brackets, might have parameters after
-        trimmed.split(';').next()?
+        unnamed.split(';').next()?
     };
     SipUri::parse(uri_part.trim()).ok()
 }
 
 /// Splits a header value into comma-separated elements, respecting quotes and <>.
 fn split_header_values(raw: &str) -> Vec<String> {
-    let mut parts = Vec::new();
-    let mut in_quotes = false;
-    let mut angle_depth = 0usize;
-    let mut start = 0usize;
-
-    for (idx, ch) in raw.char_indices() {
-        match ch {
-            '"' => {
-                in_quotes = !in_quotes;
-            }
-            '<' => {
-                angle_depth = angle_depth.saturating_add(1);
-            }
-            '>' => {
-                angle_depth = angle_depth.saturating_sub(1);
-            }
-            ',' if !in_quotes && angle_depth == 0 => {
-                let part = raw[start..idx].trim();
-                if !part.is_empty() {
-                    parts.push(part.to_owned());
-                }
-                start = idx + 1;
-            }
-            _ => {}
-        }
-    }
-
-    let part = raw[start..].trim();
-    if !part.is_empty() {
-        parts.push(part.to_owned());
-    }
-
-    parts
+    sip_core::quoted::split_list(raw)
+        .unwrap_or_else(|| vec![raw])
+        .into_iter()
+        .map(str::trim)
+        .filter(|part| !part.is_empty())
+        .map(str::to_owned)
+        .collect()
 }
 
 // ============================================================================
-- 
2.43.0


From f96d6c78fb4be1d37297e63d420103ba4839cd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:17 +0000
Subject: [PATCH 43/90] fix: updates of stored dialogs and subscriptions were
 refused at capacity

---
 crates/sip-dialog/src/lib.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/crates/sip-dialog/src/lib.rs b/crates/sip-dialog/src/lib.rs
index 6d5ff77..12ed695 100644
--- a/crates/sip-dialog/src/lib.rs
+++ b/crates/sip-dialog/src/lib.rs
@@ -744,7 +744,9 @@ impl DialogManager {
         // MAX_EARLY_DIALOGS_PER_CALL_ID be exceeded under load).
         let _guard = self.insert_lock.lock();
 
-        if self.dialogs.len() >= MAX_CONFIRMED_DIALOGS {
+        // An update of a stored dialog takes no further room
+        let is_new = !self.dialogs.contains_key(&dialog.id);
+        if is_new && self.dialogs.len() >= MAX_CONFIRMED_DIALOGS {
             return Err(DialogError::TooManyDialogs {
                 max: MAX_CONFIRMED_DIALOGS,
             });
@@ -766,7 +768,9 @@ impl DialogManager {
             }
         }
         self.dialogs.insert(dialog.id.clone(), dialog);
-        self.metrics.record_created();
+        if is_new {
+            self.metrics.record_created();
+        }
         Ok(())
     }
 
@@ -1688,7 +1692,9 @@ impl SubscriptionManager {
         // breached by concurrent callers (previously `len()` and `insert()`
         // were separate operations).
         let _guard = self.insert_lock.lock();
-        if self.subscriptions.len() >= MAX_SUBSCRIPTIONS {
+        if self.subscriptions.len() >= MAX_SUBSCRIPTIONS
+            && !self.subscriptions.contains_key(&subscription.id)
+        {
             return Err(SubscriptionError::TooManySubscriptions {
                 max: MAX_SUBSCRIPTIONS,
             });
-- 
2.43.0


From 0cd2dcfabe82c5df219b1ed45a571733995398fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:46 +0000
Subject: [PATCH 44/90] fix: a dialog stored twice was listed twice, and
 concurrent changes left the dialog store and its index apart

---
 crates/sip-dialog/src/storage.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/sip-dialog/src/storage.rs b/crates/sip-dialog/src/storage.rs
index fa383a9..0476ff4 100644
--- a/crates/sip-dialog/src/storage.rs
+++ b/crates/sip-dialog/src/storage.rs
@@ -33,6 +33,8 @@ pub struct InMemoryDialogStore {
     inner: dashmap::DashMap<DialogId, Dialog>,
     /// Secondary index: Call-ID → set of DialogIds sharing that Call-ID.
     by_call_id: dashmap::DashMap<SmolStr, Vec<DialogId>>,
+    /// Serializes writers, so that the dialogs and their index agree.
+    write_lock: parking_lot::Mutex<()>,
 }
 
 impl InMemoryDialogStore {
@@ -49,6 +51,7 @@ impl DialogStore for InMemoryDialogStore {
     }
 
     async fn put(&self, dialog: Dialog) {
+        let _guard = self.write_lock.lock();
         // Enforce size limit to prevent memory exhaustion
         if self.inner.len() >= MAX_DIALOGS && !self.inner.contains_key(&dialog.id) {
             tracing::warn!(
@@ -62,10 +65,14 @@ impl DialogStore for InMemoryDialogStore {
         let dialog_id = dialog.id.clone();
         self.inner.insert(dialog.id.clone(), dialog);
         // Update secondary index
-        self.by_call_id.entry(call_id).or_default().push(dialog_id);
+        let mut ids = self.by_call_id.entry(call_id).or_default();
+        if !ids.contains(&dialog_id) {
+            ids.push(dialog_id);
+        }
     }
 
     async fn remove(&self, id: &DialogId) {
+        let _guard = self.write_lock.lock();
         self.inner.remove(id);
         // Update secondary index
         if let Some(mut ids) = self.by_call_id.get_mut(&id.call_id) {
-- 
2.43.0


From 30e64ada26253dc6e1f742511f6515969e4cdea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:49 +0000
Subject: [PATCH 45/90] fix: a PRACK was matched to another transaction's
 response of the same number

---
 crates/sip-dialog/src/prack_validator.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/sip-dialog/src/prack_validator.rs b/crates/sip-dialog/src/prack_validator.rs
index 76a0ffa..2421361 100644
--- a/crates/sip-dialog/src/prack_validator.rs
+++ b/crates/sip-dialog/src/prack_validator.rs
@@ -215,9 +215,12 @@ impl PrackValidator {
             .get_mut(dialog_id)
             .ok_or_else(|| anyhow!("No pending reliable provisionals for dialog {}", dialog_id))?;
 
+        // Transactions of a dialog number their responses independently, so
+        // prefer the response that matches in full
         let pending_idx = pending_list
             .iter()
-            .position(|p| p.rseq == rack.rseq)
+            .position(|p| (p.rseq, p.cseq, &p.method) == (rack.rseq, rack.cseq, &rack.method))
+            .or_else(|| pending_list.iter().position(|p| p.rseq == rack.rseq))
             .ok_or_else(|| {
                 anyhow!(
                     "RAck RSeq {} does not match any pending reliable provisional",
-- 
2.43.0


From 6eca7aa56917542fa1079cfc8f1947910f3cbe32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:52 +0000
Subject: [PATCH 46/90] fix: a session timer stopped or refreshed at its
 deadline still fired and dropped its successor

---
 .../sip-dialog/src/session_timer_manager.rs   | 27 ++++++++++++++++---
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/crates/sip-dialog/src/session_timer_manager.rs b/crates/sip-dialog/src/session_timer_manager.rs
index f614998..ca52ef3 100644
--- a/crates/sip-dialog/src/session_timer_manager.rs
+++ b/crates/sip-dialog/src/session_timer_manager.rs
@@ -42,6 +42,7 @@
 
 use crate::DialogId;
 use dashmap::DashMap;
+use std::sync::atomic::{AtomicU64, Ordering};
 use std::sync::Arc;
 use std::time::Duration;
 use tokio::sync::mpsc;
@@ -72,6 +73,8 @@ pub enum SessionTimerEvent {
 /// Session timer task tracking.
 #[derive(Debug)]
 struct SessionTimerTask {
+    /// Distinguishes this timer from earlier ones of the same dialog
+    generation: u64,
     /// When the session expires
     expiry_time: Instant,
     /// Task cancellation handle
@@ -86,6 +89,8 @@ struct SessionTimerTask {
 pub struct SessionTimerManager {
     /// Active session timer tasks indexed by DialogId
     tasks: Arc<DashMap<DialogId, SessionTimerTask>>,
+    /// Number of timers started so far
+    generations: Arc<AtomicU64>,
     /// Event channel for broadcasting timer events
     event_tx: Arc<mpsc::UnboundedSender<SessionTimerEvent>>,
     /// Receiver stored for cloning
@@ -98,6 +103,7 @@ impl SessionTimerManager {
         let (event_tx, event_rx) = mpsc::unbounded_channel();
         Self {
             tasks: Arc::new(DashMap::new()),
+            generations: Arc::new(AtomicU64::new(0)),
             event_tx: Arc::new(event_tx),
             event_rx: Arc::new(tokio::sync::Mutex::new(event_rx)),
         }
@@ -126,7 +132,9 @@ impl SessionTimerManager {
         let expiry_time = Instant::now() + session_expires;
         let (cancel_tx, mut cancel_rx) = mpsc::channel(SESSION_TIMER_CHANNEL_BOUND);
 
+        let generation = self.generations.fetch_add(1, Ordering::Relaxed);
         let task = SessionTimerTask {
+            generation,
             expiry_time,
             cancel_tx: Some(cancel_tx),
         };
@@ -146,6 +154,13 @@ impl SessionTimerManager {
             if is_refresher {
                 tokio::select! {
                     _ = sleep(refresh_duration) => {
+                        // Stopped or replaced at this very moment
+                        let current = tasks_ref
+                            .get(&dialog_id_clone)
+                            .is_some_and(|task| task.generation == generation);
+                        if !current {
+                            return;
+                        }
                         // Emit refresh needed event
                         let _ = event_tx.send(SessionTimerEvent::RefreshNeeded(dialog_id_clone.clone()));
                     }
@@ -165,11 +180,15 @@ impl SessionTimerManager {
 
             tokio::select! {
                 _ = sleep(remaining) => {
-                    // Session expired - emit expiration event
-                    let _ = event_tx.send(SessionTimerEvent::SessionExpired(dialog_id_clone.clone()));
+                    // Remove task from tracking, unless it was stopped or
+                    // replaced at this very moment
+                    let removed = tasks_ref
+                        .remove_if(&dialog_id_clone, |_, task| task.generation == generation);
 
-                    // Remove task from tracking
-                    tasks_ref.remove(&dialog_id_clone);
+                    // Session expired - emit expiration event
+                    if removed.is_some() {
+                        let _ = event_tx.send(SessionTimerEvent::SessionExpired(dialog_id_clone));
+                    }
                 }
                 _ = cancel_rx.recv() => {
                     // Timer cancelled (dialog refreshed or terminated)
-- 
2.43.0


From 2dd14ce387f36afaacede2a63d491b7b6c000558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:56 +0000
Subject: [PATCH 47/90] fix: session intervals outside the bounds were adopted,
 and refresher names matched in some letter cases only

---
 crates/sip-dialog/src/lib.rs                   | 4 ++--
 crates/sip-dialog/src/session_timer_manager.rs | 5 +----
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/crates/sip-dialog/src/lib.rs b/crates/sip-dialog/src/lib.rs
index 12ed695..3740d39 100644
--- a/crates/sip-dialog/src/lib.rs
+++ b/crates/sip-dialog/src/lib.rs
@@ -621,7 +621,7 @@ impl Dialog {
 
         // Update session timer if present
         let (session_expires, refresher) = extract_session_timer(resp);
-        if session_expires.is_some() {
+        if session_expires.is_some_and(|expires| validate_session_expires(expires).is_ok()) {
             self.session_expires = session_expires;
             self.refresher = refresher;
         }
@@ -1109,7 +1109,7 @@ fn validate_cseq_increment(prev: u32, new: u32) -> Result<(), DialogError> {
 
 /// Validates session expires duration is within bounds.
 fn validate_session_expires(duration: Duration) -> Result<(), DialogError> {
-    let secs = duration.as_secs() as u32;
+    let secs = u32::try_from(duration.as_secs()).unwrap_or(u32::MAX);
     if secs < MIN_SESSION_EXPIRES {
         return Err(DialogError::SessionExpiresTooSmall {
             min: MIN_SESSION_EXPIRES,
diff --git a/crates/sip-dialog/src/session_timer_manager.rs b/crates/sip-dialog/src/session_timer_manager.rs
index ca52ef3..9cbdb88 100644
--- a/crates/sip-dialog/src/session_timer_manager.rs
+++ b/crates/sip-dialog/src/session_timer_manager.rs
@@ -409,10 +409,7 @@ pub fn negotiate_session_expires(
 /// `true` if we are the refresher, `false` otherwise
 pub fn determine_refresher_role(refresher_param: Option<&str>, is_uac: bool) -> bool {
     match refresher_param {
-        Some("uac") => is_uac,
-        Some("uas") => !is_uac,
-        Some("UAC") => is_uac, // Case insensitive
-        Some("UAS") => !is_uac,
+        Some(role) if role.eq_ignore_ascii_case("uas") => !is_uac,
         _ => is_uac, // Default: UAC is refresher if not specified
     }
 }
-- 
2.43.0


From 20d891b8f9f074680b513c687392e05de5313d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:39 +0000
Subject: [PATCH 48/90] fix: registry updates raced: cleanup dropped re-made
 subscriptions, replacements were refused at the limit, listings lagged behind
 lookups

---
 crates/sip-dialog/src/lib.rs     | 22 ++++++++--------------
 crates/sip-dialog/src/storage.rs |  9 +++++----
 2 files changed, 13 insertions(+), 18 deletions(-)

diff --git a/crates/sip-dialog/src/lib.rs b/crates/sip-dialog/src/lib.rs
index 3740d39..3e93e9d 100644
--- a/crates/sip-dialog/src/lib.rs
+++ b/crates/sip-dialog/src/lib.rs
@@ -1692,9 +1692,8 @@ impl SubscriptionManager {
         // breached by concurrent callers (previously `len()` and `insert()`
         // were separate operations).
         let _guard = self.insert_lock.lock();
-        if self.subscriptions.len() >= MAX_SUBSCRIPTIONS
-            && !self.subscriptions.contains_key(&subscription.id)
-        {
+        let is_new = !self.subscriptions.contains_key(&subscription.id);
+        if is_new && self.subscriptions.len() >= MAX_SUBSCRIPTIONS {
             return Err(SubscriptionError::TooManySubscriptions {
                 max: MAX_SUBSCRIPTIONS,
             });
@@ -1735,17 +1734,12 @@ impl SubscriptionManager {
 
     /// Removes all terminated subscriptions.
     pub fn cleanup_terminated(&self) -> usize {
-        let terminated: Vec<_> = self
-            .subscriptions
-            .iter()
-            .filter(|entry| entry.value().state == SubscriptionState::Terminated)
-            .map(|entry| entry.key().clone())
-            .collect();
-
-        let count = terminated.len();
-        for id in terminated {
-            self.subscriptions.remove(&id);
-        }
+        let mut count = 0;
+        self.subscriptions.retain(|_, subscription| {
+            let terminated = subscription.state == SubscriptionState::Terminated;
+            count += usize::from(terminated);
+            !terminated
+        });
         count
     }
 }
diff --git a/crates/sip-dialog/src/storage.rs b/crates/sip-dialog/src/storage.rs
index 0476ff4..8043eb5 100644
--- a/crates/sip-dialog/src/storage.rs
+++ b/crates/sip-dialog/src/storage.rs
@@ -53,7 +53,8 @@ impl DialogStore for InMemoryDialogStore {
     async fn put(&self, dialog: Dialog) {
         let _guard = self.write_lock.lock();
         // Enforce size limit to prevent memory exhaustion
-        if self.inner.len() >= MAX_DIALOGS && !self.inner.contains_key(&dialog.id) {
+        let is_new = !self.inner.contains_key(&dialog.id);
+        if is_new && self.inner.len() >= MAX_DIALOGS {
             tracing::warn!(
                 count = self.inner.len(),
                 max = MAX_DIALOGS,
@@ -63,9 +64,9 @@ impl DialogStore for InMemoryDialogStore {
         }
         let call_id = dialog.id.call_id.clone();
         let dialog_id = dialog.id.clone();
-        self.inner.insert(dialog.id.clone(), dialog);
-        // Update secondary index
+        // The index entry stays locked meanwhile: a listing sees both or neither
         let mut ids = self.by_call_id.entry(call_id).or_default();
+        self.inner.insert(dialog.id.clone(), dialog);
         if !ids.contains(&dialog_id) {
             ids.push(dialog_id);
         }
@@ -73,9 +74,9 @@ impl DialogStore for InMemoryDialogStore {
 
     async fn remove(&self, id: &DialogId) {
         let _guard = self.write_lock.lock();
-        self.inner.remove(id);
         // Update secondary index
         if let Some(mut ids) = self.by_call_id.get_mut(&id.call_id) {
+            self.inner.remove(id);
             ids.retain(|did| did != id);
             if ids.is_empty() {
                 drop(ids);
-- 
2.43.0


From dd5bfcf3f25ffa74d044670a58fdfb89c2ad176c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:23 +0000
Subject: [PATCH 49/90] fix: session descriptions with glued or misplaced lines
 were accepted, and RTP/AVPF-like protocols refused

---
 crates/sip-sdp/src/parse.rs | 69 ++++++++++++++++++++++++-------------
 1 file changed, 46 insertions(+), 23 deletions(-)

diff --git a/crates/sip-sdp/src/parse.rs b/crates/sip-sdp/src/parse.rs
index 52ec09f..12ad68f 100644
--- a/crates/sip-sdp/src/parse.rs
+++ b/crates/sip-sdp/src/parse.rs
@@ -11,7 +11,7 @@ use nom::{
     branch::alt,
     bytes::complete::{tag, take_till},
     character::complete::{char, digit1, line_ending, space1},
-    combinator::{map, map_res, opt},
+    combinator::{eof, map, map_res, opt},
     multi::{many0, separated_list0},
     sequence::{preceded, terminated, tuple},
     IResult,
@@ -161,7 +161,9 @@ struct MediaBlock {
 
 /// Parse all SDP lines
 fn parse_sdp_lines(input: &str) -> IResult<&str, Vec<SdpLine>> {
-    many0(terminated(parse_line, opt(line_ending)))(input)
+    // Every line ends at a line ending (or at the end of the input): text left
+    // over on a line is an error, not the start of the next line.
+    many0(terminated(parse_line, alt((line_ending, eof))))(input)
 }
 
 /// Parse a single SDP line
@@ -196,9 +198,9 @@ fn parse_o_line(input: &str) -> IResult<&str, Origin> {
         tag("o="),
         map(
             tuple((
-                terminated(take_till(|c| c == ' '), space1),
-                terminated(take_till(|c| c == ' '), space1),
-                terminated(take_till(|c| c == ' '), space1),
+                terminated(parse_token, space1),
+                terminated(parse_token, space1),
+                terminated(parse_token, space1),
                 terminated(parse_nettype, space1),
                 terminated(parse_addrtype, space1),
                 take_till(|c| c == '\r' || c == '\n'),
@@ -215,6 +217,11 @@ fn parse_o_line(input: &str) -> IResult<&str, Origin> {
     )(input)
 }
 
+/// Parse a field of a line: everything up to the next space or the end of the line
+fn parse_token(input: &str) -> IResult<&str, &str> {
+    take_till(|c| c == ' ' || c == '\r' || c == '\n')(input)
+}
+
 /// Parse session name line: s=<session name>
 fn parse_s_line(input: &str) -> IResult<&str, SmolStr> {
     preceded(
@@ -290,7 +297,7 @@ fn parse_b_line(input: &str) -> IResult<&str, Bandwidth> {
         tag("b="),
         map(
             tuple((
-                take_till(|c| c == ':'),
+                take_till(|c| c == ':' || c == '\r' || c == '\n'),
                 preceded(char(':'), map_res(digit1, |s: &str| s.parse::<u32>())),
             )),
             |(bw_type, bandwidth)| Bandwidth {
@@ -482,23 +489,17 @@ fn parse_port(input: &str) -> IResult<&str, (u16, Option<u16>)> {
 
 /// Parse protocol: RTP/AVP, RTP/SAVP, RTP/SAVPF, UDP/TLS/RTP/SAVPF, TCP/TLS/RTP/SAVPF, UDP, TCP, etc.
 fn parse_protocol(input: &str) -> IResult<&str, Protocol> {
-    alt((
-        // WebRTC protocols (longest first to avoid partial matches)
-        map(tag("UDP/TLS/RTP/SAVPF"), |_| Protocol::UdpTlsRtpSavpf),
-        map(tag("TCP/TLS/RTP/SAVPF"), |_| Protocol::TcpTlsRtpSavpf),
-        map(tag("RTP/SAVPF"), |_| Protocol::RtpSavpf),
-        // Traditional RTP protocols
-        map(tag("RTP/SAVP"), |_| Protocol::RtpSavp),
-        map(tag("RTP/AVP"), |_| Protocol::RtpAvp),
-        // Basic protocols
-        map(tag("UDP"), |_| Protocol::Udp),
-        map(tag("TCP"), |_| Protocol::Tcp),
-        // Fallback for unknown protocols
-        map(
-            take_till(|c| c == ' ' || c == '\r' || c == '\n'),
-            |s: &str| Protocol::Other(SmolStr::new(s)),
-        ),
-    ))(input)
+    // The whole token decides: "RTP/AVPF" is not "RTP/AVP" plus something.
+    map(parse_token, |token: &str| match token {
+        "UDP/TLS/RTP/SAVPF" => Protocol::UdpTlsRtpSavpf,
+        "TCP/TLS/RTP/SAVPF" => Protocol::TcpTlsRtpSavpf,
+        "RTP/SAVPF" => Protocol::RtpSavpf,
+        "RTP/SAVP" => Protocol::RtpSavp,
+        "RTP/AVP" => Protocol::RtpAvp,
+        "UDP" => Protocol::Udp,
+        "TCP" => Protocol::Tcp,
+        other => Protocol::Other(SmolStr::new(other)),
+    })(input)
 }
 
 /// Parse network type: IN (Internet)
@@ -537,6 +538,28 @@ fn build_session_description(
     let mut current_media: Option<MediaBlock> = None;
 
     for line in lines {
+        // These lines describe the session; behind an m= line they would be
+        // taken for something they do not say there.
+        if current_media.is_some() {
+            let misplaced = match line {
+                SdpLine::Version(_) => Some("v="),
+                SdpLine::Origin(_) => Some("o="),
+                SdpLine::SessionName(_) => Some("s="),
+                SdpLine::Uri(_) => Some("u="),
+                SdpLine::Email(_) => Some("e="),
+                SdpLine::Phone(_) => Some("p="),
+                SdpLine::Time(_) => Some("t="),
+                SdpLine::Repeat(_) => Some("r="),
+                SdpLine::TimeZone(_) => Some("z="),
+                _ => None,
+            };
+            if let Some(field) = misplaced {
+                return Err(ParseError::InvalidFormat(
+                    field,
+                    "session-level line after a media description".to_string(),
+                ));
+            }
+        }
         match line {
             SdpLine::Version(v) => version = Some(v),
             SdpLine::Origin(o) => origin = Some(o),
-- 
2.43.0


From 4e8dc2471cfb710e5ef500b0e76fc695cf5bab84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:23 +0000
Subject: [PATCH 50/90] fix: answers revived rejected streams, ignored
 session-level and conflicting directions, and matched payload numbers instead
 of codecs

---
 crates/sip-sdp/src/negotiate.rs | 180 +++++++++++++++++++++-----------
 crates/sip-sdp/src/profiles.rs  | 172 +++++++++++++++++++-----------
 2 files changed, 231 insertions(+), 121 deletions(-)

diff --git a/crates/sip-sdp/src/negotiate.rs b/crates/sip-sdp/src/negotiate.rs
index 9f225cd..2909b7c 100644
--- a/crates/sip-sdp/src/negotiate.rs
+++ b/crates/sip-sdp/src/negotiate.rs
@@ -102,6 +102,22 @@ impl Direction {
         }
     }
 
+    /// The directions both sides allow: media flows one way only if each side
+    /// agrees to it, and no agreement at all is `Inactive` (RFC 3264 §6.1).
+    pub(crate) fn intersect(self, other: Direction) -> Direction {
+        let sends = |d| matches!(d, Direction::SendRecv | Direction::SendOnly);
+        let receives = |d| matches!(d, Direction::SendRecv | Direction::RecvOnly);
+        match (
+            sends(self) && sends(other),
+            receives(self) && receives(other),
+        ) {
+            (true, true) => Direction::SendRecv,
+            (true, false) => Direction::SendOnly,
+            (false, true) => Direction::RecvOnly,
+            (false, false) => Direction::Inactive,
+        }
+    }
+
     /// Negotiate direction between offer and answer
     pub fn negotiate(&self, answer_dir: &Direction) -> Result<Direction, NegotiationError> {
         if !self.is_compatible_with(answer_dir) {
@@ -192,14 +208,15 @@ pub fn negotiate_answer(
     // already-accepted type are rejected.
     let mut accepted_types: Vec<MediaType> = Vec::new();
     for offer_media in &offer.media {
-        if accepted_types.contains(&offer_media.media_type) {
+        // A stream offered with port 0 is not on offer and stays rejected.
+        if offer_media.port == 0 || accepted_types.contains(&offer_media.media_type) {
             let rejected = create_rejected_media(offer_media)?;
             answer_builder = answer_builder
                 .media(rejected)
                 .map_err(|e| NegotiationError::InvalidSdp(e.to_string()))?;
             continue;
         }
-        match negotiate_media(offer_media, local_capabilities) {
+        match negotiate_media(offer, offer_media, local_capabilities) {
             Ok(answer_media) => {
                 accepted_types.push(offer_media.media_type.clone());
                 answer_builder = answer_builder
@@ -223,6 +240,7 @@ pub fn negotiate_answer(
 
 /// Negotiate a single media stream
 fn negotiate_media(
+    offer: &SessionDescription,
     offer_media: &MediaDescription,
     local_capabilities: &SessionDescription,
 ) -> Result<MediaDescription, NegotiationError> {
@@ -248,12 +266,11 @@ fn negotiate_media(
         ));
     }
 
-    // Get directions
-    let offer_dir = extract_direction(&offer_media.attributes).unwrap_or(Direction::SendRecv);
-    let local_dir = extract_direction(&local_media.attributes).unwrap_or(Direction::SendRecv);
-
-    // Negotiate direction from answerer's perspective
-    let answer_dir = offer_dir.reverse().negotiate(&local_dir)?;
+    // Directions: a session-level one is the default for every stream
+    // (RFC 4566 §6). The answer flows only where both sides agree.
+    let offer_dir = media_direction(offer, offer_media);
+    let local_dir = media_direction(local_capabilities, local_media);
+    let answer_dir = offer_dir.reverse().intersect(local_dir);
 
     // Build answer media
     let mut answer_media = base_answer_media(offer_media, local_media.port);
@@ -290,7 +307,10 @@ fn negotiate_media(
             Some(pt) => pt,
             None => continue,
         };
-        if let Some(local_fmtp) = local_media.fmtp_for(pt) {
+        let local_fmtp = negotiated
+            .local_payload_type
+            .and_then(|local_pt| local_media.fmtp_for(local_pt));
+        if let Some(local_fmtp) = local_fmtp {
             answer_media.set_fmtp(pt, &local_fmtp.params);
         } else if let Some(offer_fmtp) = offer_media.fmtp_for(pt) {
             answer_media.set_fmtp(pt, &offer_fmtp.params);
@@ -332,6 +352,8 @@ fn negotiate_media(
 #[derive(Debug, Clone)]
 struct NegotiatedFormat {
     offered_format: SmolStr,
+    /// The local number of the same codec (RTP only)
+    local_payload_type: Option<u8>,
     rtpmap: Option<RtpMap>,
 }
 
@@ -339,38 +361,28 @@ fn find_common_formats(
     offer_media: &MediaDescription,
     local_media: &MediaDescription,
 ) -> Vec<NegotiatedFormat> {
-    let mut common = Vec::new();
+    let mut common: Vec<NegotiatedFormat> = Vec::new();
 
     if is_rtp_protocol(&offer_media.protocol) {
         for offer_fmt in &offer_media.formats {
-            let offer_pt = match parse_payload_type(offer_fmt) {
-                Some(pt) => pt,
-                None => continue,
-            };
-
-            if offer_pt < 96 {
-                if local_supports_static_pt(local_media, offer_pt) {
-                    common.push(NegotiatedFormat {
-                        offered_format: offer_fmt.clone(),
-                        rtpmap: local_media.rtpmaps.get(&offer_pt).cloned(),
-                    });
-                }
+            if common.iter().any(|c| c.offered_format == *offer_fmt) {
                 continue;
             }
-
-            let offer_rtpmap = match offer_media.rtpmaps.get(&offer_pt) {
-                Some(map) => map,
+            let offer_pt = match parse_payload_type(offer_fmt) {
+                Some(pt) => pt,
                 None => continue,
             };
-
-            if let Some(local_rtpmap) = find_matching_dynamic_rtpmap(local_media, offer_rtpmap) {
+            if let Some(local_pt) = find_matching_payload_type(local_media, offer_media, offer_pt) {
+                let rtpmap = local_media
+                    .rtpmaps
+                    .get(&local_pt)
+                    .or_else(|| offer_media.rtpmaps.get(&offer_pt));
                 common.push(NegotiatedFormat {
                     offered_format: offer_fmt.clone(),
-                    rtpmap: Some(RtpMap {
+                    local_payload_type: Some(local_pt),
+                    rtpmap: rtpmap.map(|map| RtpMap {
                         payload_type: offer_pt,
-                        encoding_name: local_rtpmap.encoding_name.clone(),
-                        clock_rate: local_rtpmap.clock_rate,
-                        encoding_params: local_rtpmap.encoding_params.clone(),
+                        ..map.clone()
                     }),
                 });
             }
@@ -380,6 +392,7 @@ fn find_common_formats(
             if local_media.formats.iter().any(|f| f == offer_fmt) {
                 common.push(NegotiatedFormat {
                     offered_format: offer_fmt.clone(),
+                    local_payload_type: None,
                     rtpmap: None,
                 });
             }
@@ -390,7 +403,7 @@ fn find_common_formats(
 }
 
 /// Create a rejected media stream (port 0)
-fn create_rejected_media(
+pub(crate) fn create_rejected_media(
     offer_media: &MediaDescription,
 ) -> Result<MediaDescription, NegotiationError> {
     let mut rejected = MediaDescription {
@@ -414,12 +427,19 @@ fn create_rejected_media(
     Ok(rejected)
 }
 
+/// Direction of a stream: its own, else the session's, else sendrecv
+pub(crate) fn media_direction(session: &SessionDescription, media: &MediaDescription) -> Direction {
+    extract_direction(&media.attributes)
+        .or_else(|| extract_direction(&session.attributes))
+        .unwrap_or(Direction::SendRecv)
+}
+
 /// Extract direction from attributes
 fn extract_direction(attributes: &[Attribute]) -> Option<Direction> {
     attributes.iter().find_map(Direction::from_attribute)
 }
 
-fn base_answer_media(offer_media: &MediaDescription, port: u16) -> MediaDescription {
+pub(crate) fn base_answer_media(offer_media: &MediaDescription, port: u16) -> MediaDescription {
     MediaDescription {
         media_type: offer_media.media_type.clone(),
         port,
@@ -446,7 +466,7 @@ fn is_rtp_protocol(protocol: &Protocol) -> bool {
     )
 }
 
-fn parse_payload_type(fmt: &SmolStr) -> Option<u8> {
+pub(crate) fn parse_payload_type(fmt: &SmolStr) -> Option<u8> {
     let value = fmt.as_str().parse::<u16>().ok()?;
     if value > 127 {
         None
@@ -455,34 +475,76 @@ fn parse_payload_type(fmt: &SmolStr) -> Option<u8> {
     }
 }
 
-fn local_supports_static_pt(local_media: &MediaDescription, pt: u8) -> bool {
-    local_media
-        .formats
-        .iter()
-        .filter_map(parse_payload_type)
-        .any(|local_pt| local_pt == pt)
+/// A codec: name, clock rate and channels ("" stands for one)
+type Codec<'a> = (&'a str, u32, &'a str);
+
+fn same_codec(a: Codec, b: Codec) -> bool {
+    a.0.eq_ignore_ascii_case(b.0) && a.1 == b.1 && a.2 == b.2
+}
+
+/// The codec a payload type stands for: its rtpmap, or the static assignment
+/// of RFC 3551 where there is none.
+pub(crate) fn codec_of(media: &MediaDescription, pt: u8) -> Option<Codec<'_>> {
+    match media.rtpmaps.get(&pt) {
+        Some(map) => {
+            let channels = map.encoding_params.as_ref().map_or("", |p| p.as_str());
+            Some((
+                map.encoding_name.as_str(),
+                map.clock_rate,
+                if channels == "1" { "" } else { channels },
+            ))
+        }
+        None => static_codec(pt),
+    }
+}
+
+fn static_codec(pt: u8) -> Option<Codec<'static>> {
+    Some(match pt {
+        0 => ("PCMU", 8000, ""),
+        3 => ("GSM", 8000, ""),
+        4 => ("G723", 8000, ""),
+        5 => ("DVI4", 8000, ""),
+        6 => ("DVI4", 16000, ""),
+        7 => ("LPC", 8000, ""),
+        8 => ("PCMA", 8000, ""),
+        9 => ("G722", 8000, ""),
+        10 => ("L16", 44100, "2"),
+        11 => ("L16", 44100, ""),
+        12 => ("QCELP", 8000, ""),
+        13 => ("CN", 8000, ""),
+        14 => ("MPA", 90000, ""),
+        15 => ("G728", 8000, ""),
+        16 => ("DVI4", 11025, ""),
+        17 => ("DVI4", 22050, ""),
+        18 => ("G729", 8000, ""),
+        25 => ("CelB", 90000, ""),
+        26 => ("JPEG", 90000, ""),
+        28 => ("nv", 90000, ""),
+        31 => ("H261", 90000, ""),
+        32 => ("MPV", 90000, ""),
+        33 => ("MP2T", 90000, ""),
+        34 => ("H263", 90000, ""),
+        _ => return None,
+    })
 }
 
-fn find_matching_dynamic_rtpmap(
+/// The local payload type with the codec `offer_pt` has in the offer. Numbers
+/// decide only where neither side says what a static one stands for.
+fn find_matching_payload_type(
     local_media: &MediaDescription,
-    offer_rtpmap: &RtpMap,
-) -> Option<RtpMap> {
-    local_media
-        .rtpmaps
-        .values()
-        .find(|local_rtpmap| {
-            local_media
-                .formats
-                .iter()
-                .filter_map(parse_payload_type)
-                .any(|pt| pt == local_rtpmap.payload_type)
-                && offer_rtpmap
-                    .encoding_name
-                    .eq_ignore_ascii_case(&local_rtpmap.encoding_name)
-                && offer_rtpmap.clock_rate == local_rtpmap.clock_rate
-                && offer_rtpmap.encoding_params == local_rtpmap.encoding_params
-        })
-        .cloned()
+    offer_media: &MediaDescription,
+    offer_pt: u8,
+) -> Option<u8> {
+    let offered = codec_of(offer_media, offer_pt);
+    let mut local_pts = local_media.formats.iter().filter_map(parse_payload_type);
+    match offered {
+        Some(codec) => local_pts.find(|local_pt| {
+            codec_of(local_media, *local_pt).is_some_and(|local| same_codec(local, codec))
+        }),
+        None if offer_pt < 96 => local_pts
+            .find(|local_pt| *local_pt == offer_pt && codec_of(local_media, offer_pt).is_none()),
+        None => None,
+    }
 }
 
 /// Generate session ID
diff --git a/crates/sip-sdp/src/profiles.rs b/crates/sip-sdp/src/profiles.rs
index 183da2c..43548c1 100644
--- a/crates/sip-sdp/src/profiles.rs
+++ b/crates/sip-sdp/src/profiles.rs
@@ -7,8 +7,11 @@
 //! Provides pre-configured SDP templates for typical use cases like audio-only calls,
 //! video conferences, etc. These can be used as starting points and customized as needed.
 
+use crate::negotiate::{
+    base_answer_media, codec_of, create_rejected_media, media_direction, parse_payload_type,
+    Direction,
+};
 use crate::*;
-use std::collections::HashSet;
 
 /// SDP profile type
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
@@ -129,7 +132,7 @@ impl MediaProfileBuilder {
         builder = builder.media(audio).expect("valid media");
 
         if self.enable_video {
-            let vport = video_port.unwrap_or(audio_port + 2);
+            let vport = video_port.unwrap_or(video_port_after(audio_port));
             let mut video = MediaDescription::video(vport)
                 .with_direction(self.direction)
                 .expect("valid direction");
@@ -196,7 +199,7 @@ pub fn create_from_profile(
             local_uri,
             local_addr,
             audio_port,
-            video_port.unwrap_or(audio_port + 2),
+            video_port.unwrap_or(video_port_after(audio_port)),
         ),
         SdpProfile::Custom => create_audio_only(local_uri, local_addr, audio_port),
     }
@@ -299,6 +302,12 @@ fn create_audio_video(
         .build()
 }
 
+/// The default video port: behind the audio stream's RTP and RTCP ports, or
+/// before them at the end of the port range.
+fn video_port_after(audio_port: u16) -> u16 {
+    audio_port.checked_add(2).unwrap_or(audio_port - 2)
+}
+
 /// Generates a session ID using current timestamp
 fn generate_session_id() -> String {
     std::time::SystemTime::now()
@@ -309,6 +318,12 @@ fn generate_session_id() -> String {
 }
 
 /// Builds an SDP answer by intersecting codecs in the offer with the desired profile.
+///
+/// The answer follows the offer line by line. A stream is accepted if it is
+/// plain RTP, is the first of its type and has a codec in common with the
+/// profile (by what the payload types stand for, not by their numbers), and is
+/// rejected with port 0 otherwise. Video lines are left out if the profile has
+/// no video at all.
 pub fn negotiate_answer(
     offer: &SessionDescription,
     profile: &MediaProfileBuilder,
@@ -317,74 +332,107 @@ pub fn negotiate_answer(
     audio_port: u16,
     video_port: Option<u16>,
 ) -> SessionDescription {
-    let mut builder = MediaProfileBuilder {
-        audio_codecs: Vec::new(),
-        video_codecs: Vec::new(),
-        include_telephone_event: false,
-        direction: "sendrecv",
-        enable_video: false,
-        rtcp_mux: profile.rtcp_mux,
-    };
-
-    let desired_audio: HashSet<u8> = profile.audio_codecs.iter().map(|c| c.0).collect();
-    let desired_video: HashSet<u8> = profile.video_codecs.iter().map(|c| c.0).collect();
+    let mut answer = SessionDescription::builder()
+        .origin(username, &generate_session_id(), addr)
+        .expect("valid origin")
+        .session_name("siphon")
+        .expect("valid session name")
+        .connection(addr)
+        .expect("valid connection")
+        .time(0, 0)
+        .build();
+    let profile_dir = Direction::from_attribute(&Attribute::Property(profile.direction.into()))
+        .unwrap_or(Direction::SendRecv);
+    let mut accepted: Vec<&MediaType> = Vec::new();
 
     for m in &offer.media {
-        match &m.media_type {
-            MediaType::Audio => {
-                for fmt in &m.formats {
-                    let pt = match parse_payload_type(fmt) {
-                        Some(pt) => pt,
-                        None => continue,
-                    };
-                    if desired_audio.contains(&pt) {
-                        if let Some(rtp) = m.rtpmaps.get(&pt) {
-                            builder = builder.add_audio_codec(
-                                pt,
-                                rtp.encoding_name.to_string(),
-                                rtp.clock_rate,
-                            );
-                        }
-                    }
-                    if pt == 101 && profile.include_telephone_event {
-                        builder = builder.telephone_event(true);
-                    }
-                }
+        let has_video = profile.enable_video || !profile.video_codecs.is_empty();
+        let (codecs, port, telephone_event) = match &m.media_type {
+            MediaType::Audio => (
+                profile.audio_codecs.as_slice(),
+                audio_port,
+                profile.include_telephone_event,
+            ),
+            MediaType::Video if has_video => (
+                profile.video_codecs.as_slice(),
+                video_port.unwrap_or_else(|| video_port_after(audio_port)),
+                false,
+            ),
+            MediaType::Video => continue,
+            _ => (&[][..], 0, false),
+        };
+        let formats = match m.port {
+            0 => Vec::new(),
+            _ if m.protocol != Protocol::RtpAvp || accepted.contains(&&m.media_type) => Vec::new(),
+            _ => common_payload_types(m, codecs, telephone_event),
+        };
+        let mut line = base_answer_media(m, port);
+        for pt in formats {
+            let Some((name, rate, channels)) = codec_of(m, pt) else {
+                continue;
+            };
+            let channels = Some(channels).filter(|c| !c.is_empty());
+            let added = line
+                .clone()
+                .add_format(pt)
+                .and_then(|l| l.add_rtpmap(pt, name, rate, channels));
+            let Ok(added) = added else {
+                continue;
+            };
+            line = added;
+            if name.eq_ignore_ascii_case(TELEPHONE_EVENT) {
+                line.set_fmtp(pt, "0-16");
             }
-            MediaType::Video
-                // Only enable video if the profile supports it
-                if (profile.enable_video || !profile.video_codecs.is_empty()) => {
-                    builder.enable_video = true;
-                    for fmt in &m.formats {
-                        let pt = match parse_payload_type(fmt) {
-                            Some(pt) => pt,
-                            None => continue,
-                        };
-                        if desired_video.contains(&pt) {
-                            if let Some(rtp) = m.rtpmaps.get(&pt) {
-                                builder = builder.add_video_codec(
-                                    pt,
-                                    rtp.encoding_name.to_string(),
-                                    rtp.clock_rate,
-                                );
-                            }
-                        }
-                    }
-                }
-            _ => {}
         }
+        if line.formats.is_empty() {
+            answer
+                .media
+                .push(create_rejected_media(m).expect("valid format"));
+            continue;
+        }
+        accepted.push(&m.media_type);
+
+        let direction = media_direction(offer, m).reverse().intersect(profile_dir);
+        line = line
+            .with_direction(match direction {
+                Direction::SendRecv => "sendrecv",
+                Direction::SendOnly => "sendonly",
+                Direction::RecvOnly => "recvonly",
+                Direction::Inactive => "inactive",
+            })
+            .expect("valid direction");
+        let mux = Attribute::Property("rtcp-mux".into());
+        if profile.rtcp_mux && m.attributes.contains(&mux) {
+            line.attributes.push(mux);
+        }
+        answer.media.push(line);
     }
 
-    builder.build(username, addr, audio_port, video_port)
+    answer
 }
 
-fn parse_payload_type(fmt: &SmolStr) -> Option<u8> {
-    let value = fmt.as_str().parse::<u16>().ok()?;
-    if value > 127 {
-        None
-    } else {
-        Some(value as u8)
+const TELEPHONE_EVENT: &str = "telephone-event";
+
+/// The offered payload types whose codec (name and clock rate) the profile has.
+fn common_payload_types(
+    offered: &MediaDescription,
+    codecs: &[(u8, String, u32)],
+    telephone_event: bool,
+) -> Vec<u8> {
+    let mut common = Vec::new();
+    for pt in offered.formats.iter().filter_map(parse_payload_type) {
+        let Some((name, rate, _)) = codec_of(offered, pt) else {
+            continue;
+        };
+        let event = telephone_event && name.eq_ignore_ascii_case(TELEPHONE_EVENT) && rate == 8000;
+        let known = codecs
+            .iter()
+            .any(|(_, n, r)| n.eq_ignore_ascii_case(name) && *r == rate);
+        if (known || event) && !common.contains(&pt) {
+            common.push(pt);
+        }
     }
+    common
 }
 
 #[cfg(test)]
-- 
2.43.0


From 88f672695a96f5008ff217c40f5d117fdfa5cf2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:23 +0000
Subject: [PATCH 51/90] fix: repeat times moved to the last t= line when
 printed, and preconditions met by several status lines were reported unmet

---
 crates/sip-core/src/sdp.rs | 61 +++++++++++++++++++++++++-------------
 1 file changed, 40 insertions(+), 21 deletions(-)

diff --git a/crates/sip-core/src/sdp.rs b/crates/sip-core/src/sdp.rs
index fcfbd97..3683163 100644
--- a/crates/sip-core/src/sdp.rs
+++ b/crates/sip-core/src/sdp.rs
@@ -315,7 +315,9 @@ pub struct SdpSession {
     /// Timing information (t=, at least one required)
     pub(crate) timing: Vec<Timing>,
     /// Repeat times (r=)
-    repeat_times: Vec<RepeatTime>,
+    pub(crate) repeat_times: Vec<RepeatTime>,
+    /// For each repeat time, the index of the t= line it belongs to
+    pub(crate) repeat_timing: Vec<usize>,
     /// Time zone adjustments (z=)
     time_zones: Vec<TimeZone>,
     /// Encryption key (k=)
@@ -1319,6 +1321,7 @@ impl SdpSession {
                 stop_time: 0,
             }],
             repeat_times: Vec::new(),
+            repeat_timing: Vec::new(),
             time_zones: Vec::new(),
             encryption_key: None,
             attributes: Vec::new(),
@@ -1359,6 +1362,7 @@ impl SdpSession {
             bandwidth: Vec::new(),
             timing: Vec::new(),
             repeat_times: Vec::new(),
+            repeat_timing: Vec::new(),
             time_zones: Vec::new(),
             encryption_key: None,
             attributes: Vec::new(),
@@ -1472,6 +1476,7 @@ impl SdpSession {
                     while idx + 1 < lines.len() && lines[idx + 1].starts_with("r=") {
                         idx += 1;
                         self.repeat_times.push(parse_repeat_time(lines[idx])?);
+                        self.repeat_timing.push(self.timing.len() - 1);
                         // Security: Check repeat times collection size
                         validate_collection_size(
                             &self.repeat_times,
@@ -1859,23 +1864,35 @@ impl SdpSession {
                 continue;
             }
 
-            // Find matching current status
-            let matching_curr = current.iter().find(|curr| {
-                curr.precondition_type == des.precondition_type
-                    && curr.status_type == des.status_type
-            });
-
-            match matching_curr {
-                Some(curr) => {
-                    // Check if current direction meets desired direction
-                    if !direction_meets_requirement(curr.direction, des.direction) {
-                        return false;
-                    }
-                }
-                None => {
-                    // No matching current status means precondition not met
-                    return false;
+            // What the matching current status lines add up to: send and recv
+            // may be reported on separate lines.
+            let matching: Vec<PreconditionDirection> = current
+                .iter()
+                .filter(|curr| {
+                    curr.precondition_type == des.precondition_type
+                        && curr.status_type == des.status_type
+                })
+                .map(|curr| curr.direction)
+                .collect();
+
+            // No matching current status means precondition not met
+            if matching.is_empty() {
+                return false;
+            }
+
+            let covered = |required: PreconditionDirection| {
+                matching
+                    .iter()
+                    .any(|curr| direction_meets_requirement(*curr, required))
+            };
+            let met = match des.direction {
+                PreconditionDirection::SendRecv => {
+                    covered(PreconditionDirection::Send) && covered(PreconditionDirection::Recv)
                 }
+                other => covered(other),
+            };
+            if !met {
+                return false;
             }
         }
 
@@ -2016,11 +2033,13 @@ impl fmt::Display for SdpSession {
         for bw in &self.bandwidth {
             writeln!(f, "{}", bw)?;
         }
-        for timing in &self.timing {
+        for (idx, timing) in self.timing.iter().enumerate() {
             writeln!(f, "{}", timing)?;
-        }
-        for repeat in &self.repeat_times {
-            writeln!(f, "{}", repeat)?;
+            for (repeat, owner) in self.repeat_times.iter().zip(&self.repeat_timing) {
+                if *owner == idx {
+                    writeln!(f, "{}", repeat)?;
+                }
+            }
         }
         if !self.time_zones.is_empty() {
             write!(f, "z=")?;
-- 
2.43.0


From b20496bd89ca12088a9c03a25509340793a4c0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:23 +0000
Subject: [PATCH 52/90] fix: generated answers were random in order, revived
 rejected streams, ignored session-level directions and overflowed ports and
 versions

---
 crates/sip-core/src/sdp_offer_answer.rs | 173 +++++++++++++++++-------
 1 file changed, 125 insertions(+), 48 deletions(-)

diff --git a/crates/sip-core/src/sdp_offer_answer.rs b/crates/sip-core/src/sdp_offer_answer.rs
index 2327442..f9d0d8c 100644
--- a/crates/sip-core/src/sdp_offer_answer.rs
+++ b/crates/sip-core/src/sdp_offer_answer.rs
@@ -328,7 +328,7 @@ impl CodecInfo {
                 params.parse::<u16>().ok() == Some(codec_channels)
             }
             (Some(codec_channels), None) => codec_channels == 1,
-            (None, Some(_)) => false,
+            (None, Some(params)) => params == "1",
             (None, None) => true,
         }
     }
@@ -396,10 +396,22 @@ fn validate_address(address: &str) -> Result<(), NegotiationError> {
         ));
     }
 
+    if address.contains(' ') {
+        return Err(NegotiationError::ValidationError(
+            "Address contains spaces".to_string(),
+        ));
+    }
+
     Ok(())
 }
 
 fn validate_username(username: &str) -> Result<(), NegotiationError> {
+    if username.is_empty() {
+        return Err(NegotiationError::ValidationError(
+            "Username cannot be empty (use \"-\")".to_string(),
+        ));
+    }
+
     if username.len() > MAX_USERNAME_LENGTH {
         return Err(NegotiationError::ValidationError(format!(
             "Username too long (max {})",
@@ -413,6 +425,12 @@ fn validate_username(username: &str) -> Result<(), NegotiationError> {
         ));
     }
 
+    if username.contains(' ') {
+        return Err(NegotiationError::ValidationError(
+            "Username contains spaces".to_string(),
+        ));
+    }
+
     Ok(())
 }
 
@@ -436,9 +454,53 @@ fn validate_session_id(session_id: &str) -> Result<(), NegotiationError> {
         ));
     }
 
+    if session_id.contains(' ') {
+        return Err(NegotiationError::ValidationError(
+            "Session ID contains spaces".to_string(),
+        ));
+    }
+
     Ok(())
 }
 
+/// The direction attribute among `attributes`, if there is one.
+fn find_direction(attributes: &[Attribute]) -> Option<Direction> {
+    attributes
+        .iter()
+        .filter(|attr| attr.value.is_none())
+        .find_map(|attr| Direction::parse(&attr.name))
+}
+
+/// The directions both sides allow.
+fn intersect_directions(a: Direction, b: Direction) -> Direction {
+    let sends = |d| matches!(d, Direction::SendRecv | Direction::SendOnly);
+    let receives = |d| matches!(d, Direction::SendRecv | Direction::RecvOnly);
+    match (sends(a) && sends(b), receives(a) && receives(b)) {
+        (true, true) => Direction::SendRecv,
+        (true, false) => Direction::SendOnly,
+        (false, true) => Direction::RecvOnly,
+        (false, false) => Direction::Inactive,
+    }
+}
+
+/// The session version after `version`: a decimal number of any length
+/// (RFC 4566 sets no upper bound), left alone if it is not one.
+fn next_version(version: &str) -> String {
+    if version.is_empty() || !version.bytes().all(|b| b.is_ascii_digit()) {
+        return version.to_string();
+    }
+    let mut digits = version.as_bytes().to_vec();
+    for digit in digits.iter_mut().rev() {
+        if *digit < b'9' {
+            *digit += 1;
+            return digits.into_iter().map(char::from).collect();
+        }
+        *digit = b'0';
+    }
+    let zeros: String = digits.into_iter().map(char::from).collect();
+    format!("1{zeros}")
+}
+
 /// RFC 3264 Offer/Answer negotiation engine.
 pub struct OfferAnswerEngine {}
 
@@ -466,13 +528,19 @@ impl OfferAnswerEngine {
             });
         }
 
+        let addrtype = if options.local_address().contains(':') {
+            "IP6"
+        } else {
+            "IP4"
+        };
+
         // Create answer origin - use getters
         let answer_origin = Origin {
             username: options.username().to_string(),
             sess_id: options.session_id().to_string(),
             sess_version: "0".to_string(),
             nettype: "IN".to_string(),
-            addrtype: "IP4".to_string(),
+            addrtype: addrtype.to_string(),
             unicast_address: options.local_address().to_string(),
         };
 
@@ -480,34 +548,39 @@ impl OfferAnswerEngine {
 
         // Copy timing from offer (RFC 3264: t= line must match)
         answer.timing = offer.timing.clone();
+        answer.repeat_times = offer.repeat_times.clone();
+        answer.repeat_timing = offer.repeat_timing.clone();
 
         // Session-level connection - use getter
         answer.connection = Some(Connection {
             nettype: "IN".to_string(),
-            addrtype: "IP4".to_string(),
+            addrtype: addrtype.to_string(),
             connection_address: options.local_address().to_string(),
         });
 
         // Process each media stream in order - use getter
-        let mut current_port = options.base_port();
+        let mut next_port = Some(options.base_port());
 
         for (idx, offer_media) in offer.media().iter().enumerate() {
-            // Check if this media should be rejected - use getter
-            let should_reject = options.reject_media().contains(&idx);
-
-            let answer_media = if should_reject {
-                self.create_rejected_media(offer_media)
-            } else {
-                match self.negotiate_media(offer_media, &options, current_port, idx) {
-                    Ok(media) => {
-                        current_port += 2; // RTP + RTCP
-                        media
-                    }
-                    Err(_) => {
-                        // No common codecs - reject
-                        self.create_rejected_media(offer_media)
+            // Check if this media should be rejected - use getter. A stream
+            // offered with port 0 is not on offer and stays rejected.
+            let should_reject = options.reject_media().contains(&idx) || offer_media.port == 0;
+
+            let answer_media = match next_port {
+                Some(port) if !should_reject => {
+                    match self.negotiate_media(offer, offer_media, &options, port, idx) {
+                        Ok(media) => {
+                            next_port = port.checked_add(2); // RTP + RTCP
+                            media
+                        }
+                        Err(_) => {
+                            // No common codecs - reject
+                            self.create_rejected_media(offer_media)
+                        }
                     }
                 }
+                // Rejected, or no ports left
+                _ => self.create_rejected_media(offer_media),
             };
 
             answer.media.push(answer_media);
@@ -519,6 +592,7 @@ impl OfferAnswerEngine {
     /// Negotiates a single media stream.
     fn negotiate_media(
         &self,
+        offer: &SdpSession,
         offer_media: &MediaDescription,
         options: &AnswerOptions,
         port: u16,
@@ -575,12 +649,12 @@ impl OfferAnswerEngine {
         }
 
         // Negotiate direction - use getter
-        let offer_direction = self.get_media_direction(offer_media);
-        let answer_direction = if let Some(override_dir) = options.direction_override() {
-            override_dir
-        } else {
-            self.negotiate_direction(offer_direction)
-        };
+        let offer_direction = self.get_stream_direction(offer, offer_media);
+        let mut answer_direction = self.negotiate_direction(offer_direction);
+        if let Some(override_dir) = options.direction_override() {
+            // The override narrows what the offer allows
+            answer_direction = intersect_directions(answer_direction, override_dir);
+        }
 
         attributes.push(Attribute {
             name: answer_direction.as_str().to_string(),
@@ -626,26 +700,31 @@ impl OfferAnswerEngine {
         }
     }
 
-    /// Extracts rtpmap attributes from media description.
-    fn extract_rtpmaps(&self, media: &MediaDescription) -> HashMap<String, RtpMap> {
-        let mut rtpmaps = HashMap::new();
+    /// Extracts the rtpmaps of the listed formats, in the order of the list.
+    fn extract_rtpmaps(&self, media: &MediaDescription) -> Vec<(String, RtpMap)> {
+        let mut explicit = HashMap::new();
 
         for attr in media.attributes() {
             if attr.name == "rtpmap" {
                 if let Some(ref value) = attr.value {
                     if let Some(rtpmap) = RtpMap::parse(value) {
-                        rtpmaps.insert(rtpmap.payload_type().to_string(), rtpmap);
+                        explicit.insert(rtpmap.payload_type().to_string(), rtpmap);
                     }
                 }
             }
         }
 
-        // Add static payload types if not explicitly mapped
+        let mut rtpmaps: Vec<(String, RtpMap)> = Vec::new();
         for fmt in media.fmt() {
-            if !rtpmaps.contains_key(fmt) {
-                if let Some(rtpmap) = self.get_static_payload_rtpmap(fmt) {
-                    rtpmaps.insert(fmt.clone(), rtpmap);
-                }
+            if rtpmaps.iter().any(|(seen, _)| seen == fmt) {
+                continue;
+            }
+            // Static payload types need no explicit mapping
+            let rtpmap = explicit
+                .remove(fmt)
+                .or_else(|| self.get_static_payload_rtpmap(fmt));
+            if let Some(rtpmap) = rtpmap {
+                rtpmaps.push((fmt.clone(), rtpmap));
             }
         }
 
@@ -713,14 +792,16 @@ impl OfferAnswerEngine {
 
     /// Gets direction attribute from media description.
     fn get_media_direction(&self, media: &MediaDescription) -> Direction {
-        for attr in media.attributes() {
-            if attr.value.is_none() {
-                if let Some(dir) = Direction::parse(&attr.name) {
-                    return dir;
-                }
-            }
+        find_direction(media.attributes()).unwrap_or(Direction::SendRecv)
+    }
+
+    /// Gets the direction of a stream: a session-level attribute is the default
+    /// for media descriptions without one of their own.
+    fn get_stream_direction(&self, session: &SdpSession, media: &MediaDescription) -> Direction {
+        match find_direction(session.attributes()) {
+            Some(default) if find_direction(media.attributes()).is_none() => default,
+            _ => self.get_media_direction(media),
         }
-        Direction::SendRecv
     }
 
     /// Negotiates direction attribute per RFC 3264 Table 1.
@@ -737,12 +818,10 @@ impl OfferAnswerEngine {
     pub fn create_hold_offer(&self, session: &SdpSession) -> SdpSession {
         let mut hold_session = session.clone();
 
-        if let Ok(version) = hold_session.origin().sess_version().parse::<u64>() {
-            hold_session.origin.sess_version = (version + 1).to_string();
-        }
+        hold_session.origin.sess_version = next_version(session.origin().sess_version());
 
         for media in &mut hold_session.media {
-            let current_dir = self.get_media_direction(media);
+            let current_dir = self.get_stream_direction(session, media);
 
             let hold_dir = match current_dir {
                 Direction::SendRecv => Direction::SendOnly,
@@ -768,12 +847,10 @@ impl OfferAnswerEngine {
     pub fn create_resume_offer(&self, session: &SdpSession) -> SdpSession {
         let mut resume_session = session.clone();
 
-        if let Ok(version) = resume_session.origin.sess_version.parse::<u64>() {
-            resume_session.origin.sess_version = (version + 1).to_string();
-        }
+        resume_session.origin.sess_version = next_version(session.origin().sess_version());
 
         for media in &mut resume_session.media {
-            let current_dir = self.get_media_direction(media);
+            let current_dir = self.get_stream_direction(session, media);
 
             let resume_dir = match current_dir {
                 Direction::SendOnly => Direction::SendRecv,
-- 
2.43.0


From 3e1a2a4be19033dd3860bbc49f04789c53cbeca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:14 +0000
Subject: [PATCH 53/90] fix: SRV lookups via NAPTR prefixed the service labels
 again, secure transports fell back to port 5060, and foreign NAPTR services
 were taken for SIP's

---
 crates/sip-dns/src/lib.rs | 82 ++++++++++++++++++---------------------
 1 file changed, 37 insertions(+), 45 deletions(-)

diff --git a/crates/sip-dns/src/lib.rs b/crates/sip-dns/src/lib.rs
index 244105f..8409179 100644
--- a/crates/sip-dns/src/lib.rs
+++ b/crates/sip-dns/src/lib.rs
@@ -412,6 +412,14 @@ impl SipResolver {
         }
     }
 
+    /// Returns the default port of a transport (RFC 3263 §4.2).
+    fn default_port(transport: Transport) -> u16 {
+        match transport {
+            Transport::Tls | Transport::TlsSctp => 5061,
+            _ => 5060,
+        }
+    }
+
     /// Returns the transport parameter from the URI, if present.
     fn transport_param(uri: &SipUri) -> Option<Transport> {
         let transport_param = uri.params().get(&SmolStr::new("transport"))?;
@@ -439,14 +447,9 @@ impl SipResolver {
 
         // RFC 3263 §4: If numeric IP, use directly
         if Self::is_numeric_ip(host) {
-            let port = uri
-                .port()
-                .unwrap_or(if uri.is_sips() { 5061 } else { 5060 });
-            return enforce_target_limit(vec![DnsTarget::unchecked_new(
-                host,
-                port,
-                Self::default_transport(uri),
-            )]);
+            let transport = Self::default_transport(uri);
+            let port = uri.port().unwrap_or(Self::default_port(transport));
+            return enforce_target_limit(vec![DnsTarget::unchecked_new(host, port, transport)]);
         }
 
         // RFC 3263 §4: If explicit port, skip SRV, do A/AAAA
@@ -482,22 +485,20 @@ impl SipResolver {
         let mut all_targets = Vec::new();
         if let Some(records) = naptr_records {
             for record in records {
-                let lookup_host = record
-                    .replacement
-                    .as_ref()
-                    .map(|replacement| replacement.as_str())
-                    .unwrap_or(host);
-                if let Ok(targets) = self
-                    .lookup_srv(lookup_host, record.transport, uri.is_sips())
-                    .await
-                {
+                // The replacement names the SRV records themselves.
+                let srv_name = match &record.replacement {
+                    Some(replacement) => replacement.to_string(),
+                    None => Self::srv_name(host, record.transport, uri.is_sips()),
+                };
+                if let Ok(targets) = self.lookup_srv(srv_name, record.transport).await {
                     all_targets.extend(targets);
                 }
             }
         } else {
             let transports = self.default_transport_order(uri);
             for transport in transports {
-                if let Ok(targets) = self.lookup_srv(host, transport, uri.is_sips()).await {
+                let srv_name = Self::srv_name(host, transport, uri.is_sips());
+                if let Ok(targets) = self.lookup_srv(srv_name, transport).await {
                     all_targets.extend(targets);
                 }
             }
@@ -506,7 +507,7 @@ impl SipResolver {
         // RFC 3263 §4.3: Fallback to A/AAAA if no SRV records. This is
         // the Twilio Secure Trunking path (hostname URI, no SRV).
         if all_targets.is_empty() {
-            let default_port = if uri.is_sips() { 5061 } else { 5060 };
+            let default_port = Self::default_port(Self::default_transport(uri));
             let ips = self.lookup_a_aaaa(host).await?;
             for ip in ips {
                 all_targets.push(
@@ -586,24 +587,17 @@ impl SipResolver {
                 let replacement = rdata.replacement.to_utf8();
 
                 // Parse SIP service strings (RFC 3263 §4.1, RFC 4168)
-                let transport = if service.contains("SIPS+D2T") {
-                    Some(Transport::Tls)
-                } else if service.contains("SIP+D2T") {
-                    Some(Transport::Tcp)
-                } else if service.contains("SIP+D2U") {
-                    Some(Transport::Udp)
-                } else if service.contains("SIPS+D2W") {
-                    Some(Transport::Wss)
-                } else if service.contains("SIP+D2W") {
-                    Some(Transport::Ws)
-                } else if service.contains("SIPS+D2S") {
+                let transport = match service.as_str() {
+                    "SIPS+D2T" => Some(Transport::Tls),
+                    "SIP+D2T" => Some(Transport::Tcp),
+                    "SIP+D2U" => Some(Transport::Udp),
+                    "SIPS+D2W" => Some(Transport::Wss),
+                    "SIP+D2W" => Some(Transport::Ws),
                     // RFC 4168: TLS over SCTP
-                    Some(Transport::TlsSctp)
-                } else if service.contains("SIP+D2S") {
+                    "SIPS+D2S" => Some(Transport::TlsSctp),
                     // RFC 4168: Plain SCTP
-                    Some(Transport::Sctp)
-                } else {
-                    None
+                    "SIP+D2S" => Some(Transport::Sctp),
+                    _ => None,
                 };
 
                 if let Some(transport) = transport {
@@ -642,17 +636,15 @@ impl SipResolver {
         Ok(records)
     }
 
-    /// Performs SRV lookup per RFC 3263 §4.2.
-    async fn lookup_srv(
-        &self,
-        host: &str,
-        transport: Transport,
-        sips: bool,
-    ) -> Result<Vec<DnsTarget>> {
+    /// Returns the name of a domain's SRV records for a transport.
+    fn srv_name(host: &str, transport: Transport, sips: bool) -> String {
         let service = transport.as_service_str(sips);
         let proto = transport.as_proto_str();
-        let srv_name = format!("{}._{}.{}", service, proto, host);
+        format!("{}._{}.{}", service, proto, host)
+    }
 
+    /// Performs SRV lookup per RFC 3263 §4.2.
+    async fn lookup_srv(&self, srv_name: String, transport: Transport) -> Result<Vec<DnsTarget>> {
         let lookup = tokio::time::timeout(
             self.query_timeout,
             self.resolver.srv_lookup(srv_name.clone()),
@@ -1202,8 +1194,8 @@ impl<D: DhcpProvider, R: Resolver> DhcpResolver<D, R> {
             match server {
                 DhcpSipServer::Ipv4(addr) => {
                     // Use IPv4 address directly
-                    let port = if uri.is_sips() { 5061 } else { 5060 };
                     let transport = SipResolver::default_transport(uri);
+                    let port = SipResolver::default_port(transport);
                     all_targets.push(DnsTarget::unchecked_new(addr.to_string(), port, transport));
                 }
                 DhcpSipServer::Domain(domain) => {
@@ -1290,8 +1282,8 @@ impl<D: DhcpProvider, R: Resolver> Resolver for HybridResolver<D, R> {
                 for server in servers {
                     match server {
                         DhcpSipServer::Ipv4(addr) => {
-                            let port = if uri.is_sips() { 5061 } else { 5060 };
                             let transport = SipResolver::default_transport(uri);
+                            let port = SipResolver::default_port(transport);
                             all_targets.push(DnsTarget::unchecked_new(
                                 addr.to_string(),
                                 port,
-- 
2.43.0


From d512081a2df188a1e3084014add7f511ddb32fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:58 +0000
Subject: [PATCH 54/90] fix: provisioned server names and addresses: unusable
 names blocked the others, text options kept NULs and control bytes, labels
 were altered

---
 crates/sip-dns/src/lib.rs | 37 +++++++++++++++++++++++++------------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/crates/sip-dns/src/lib.rs b/crates/sip-dns/src/lib.rs
index 8409179..24e9637 100644
--- a/crates/sip-dns/src/lib.rs
+++ b/crates/sip-dns/src/lib.rs
@@ -845,8 +845,16 @@ pub fn parse_dhcp_option_66(data: &[u8]) -> Result<TftpServerName> {
         return Err(anyhow!("Empty DHCP Option 66 data"));
     }
 
-    // Option 66 is a simple string
-    let server_name = String::from_utf8_lossy(data).to_string();
+    // Option 66 is a simple string; RFC 2132 §2 has receivers drop trailing NULs
+    let server_name = std::str::from_utf8(data)
+        .map_err(|_| anyhow!("DHCP Option 66 is not text"))?
+        .trim_end_matches('\0');
+    if server_name.is_empty() {
+        return Err(anyhow!("Empty DHCP Option 66 data"));
+    }
+    if server_name.chars().any(|c| c.is_control()) {
+        return Err(anyhow!("DHCP Option 66 contains control characters"));
+    }
     Ok(TftpServerName(SmolStr::new(server_name)))
 }
 
@@ -1019,6 +1027,10 @@ fn parse_dhcp_domain_names(data: &[u8]) -> Result<Vec<DhcpSipServer>> {
             }
 
             let label = &data[pos..pos + len];
+            // Anything else has no spelling as part of a dotted name
+            if !label.iter().all(|b| b.is_ascii_graphic() && *b != b'.') {
+                return Err(anyhow!("Invalid domain name label"));
+            }
             labels.push(String::from_utf8_lossy(label).to_string());
             pos += len;
         }
@@ -1030,6 +1042,7 @@ fn parse_dhcp_domain_names(data: &[u8]) -> Result<Vec<DhcpSipServer>> {
             return Err(anyhow!("Empty domain name"));
         } else {
             let domain = labels.join(".");
+            validate_hostname(&domain)?;
             servers.push(DhcpSipServer::Domain(SmolStr::new(domain)));
         }
     }
@@ -1200,11 +1213,11 @@ impl<D: DhcpProvider, R: Resolver> DhcpResolver<D, R> {
                 }
                 DhcpSipServer::Domain(domain) => {
                     // Create a temporary URI with the DHCP domain for DNS resolution
-                    let temp_uri = uri
-                        .clone()
-                        .with_host(domain.clone())
-                        .map_err(|e| anyhow!(e))?
-                        .without_port();
+                    // An unusable name must not keep the other servers from being used
+                    let Ok(temp_uri) = uri.clone().with_host(domain.clone()) else {
+                        continue;
+                    };
+                    let temp_uri = temp_uri.without_port();
 
                     // Resolve the domain via DNS (RFC 3263)
                     if let Ok(targets) = self.dns_resolver.resolve(&temp_uri).await {
@@ -1291,11 +1304,11 @@ impl<D: DhcpProvider, R: Resolver> Resolver for HybridResolver<D, R> {
                             ));
                         }
                         DhcpSipServer::Domain(domain) => {
-                            let temp_uri = uri
-                                .clone()
-                                .with_host(domain.clone())
-                                .map_err(|e| anyhow!(e))?
-                                .without_port();
+                            // An unusable name must not keep the other servers from being used
+                            let Ok(temp_uri) = uri.clone().with_host(domain.clone()) else {
+                                continue;
+                            };
+                            let temp_uri = temp_uri.without_port();
 
                             if let Ok(targets) = self.dns_resolver.resolve(&temp_uri).await {
                                 all_targets.extend(targets);
-- 
2.43.0


From 7a1d49c6d5c7300706bf859babebbbb53f72e7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:28 +0000
Subject: [PATCH 55/90] fix: an Identity header whose certificate URI holds a
 semicolon was refused, and one could be signed that breaks out of its
 brackets

---
 crates/sip-identity/src/header.rs | 26 +++++++++++++++++++++++++-
 crates/sip-identity/src/sign.rs   | 14 ++++++++++++++
 2 files changed, 39 insertions(+), 1 deletion(-)

diff --git a/crates/sip-identity/src/header.rs b/crates/sip-identity/src/header.rs
index 3f880a1..071c283 100644
--- a/crates/sip-identity/src/header.rs
+++ b/crates/sip-identity/src/header.rs
@@ -51,7 +51,7 @@ impl IdentityHeader {
             });
         }
 
-        let mut segments = value.split(';');
+        let mut segments = split_params(value).into_iter();
         let token = segments.next().unwrap_or("").trim();
         if token.is_empty() {
             return Err(IdentityError::EmptyToken);
@@ -93,6 +93,30 @@ impl IdentityHeader {
     }
 }
 
+/// Split at the semicolons that stand outside quoted strings and angle
+/// brackets; a cert URI may well contain one.
+fn split_params(value: &str) -> Vec<&str> {
+    let mut segments = Vec::new();
+    let mut start = 0;
+    let (mut quoted, mut bracketed, mut escaped) = (false, false, false);
+    for (i, c) in value.char_indices() {
+        match c {
+            _ if escaped => escaped = false,
+            '\\' if quoted => escaped = true,
+            '"' if !bracketed => quoted = !quoted,
+            '<' if !quoted => bracketed = true,
+            '>' if !quoted => bracketed = false,
+            ';' if !quoted && !bracketed => {
+                segments.push(&value[start..i]);
+                start = i + 1;
+            }
+            _ => {}
+        }
+    }
+    segments.push(&value[start..]);
+    segments
+}
+
 /// `info` is a URI in angle brackets: `<https://…>`. Require them — a
 /// bare URI is malformed per RFC 8224 §4.
 fn strip_angle_brackets(s: &str) -> Result<String, IdentityError> {
diff --git a/crates/sip-identity/src/sign.rs b/crates/sip-identity/src/sign.rs
index 6b70598..277d3ea 100644
--- a/crates/sip-identity/src/sign.rs
+++ b/crates/sip-identity/src/sign.rs
@@ -35,6 +35,8 @@ use crate::passport::AttestationLevel;
 pub enum SignError {
     /// A claim required by the SHAKEN profile was not supplied.
     MissingField(&'static str),
+    /// A claim cannot be carried by the token and its header.
+    InvalidField(&'static str),
     /// JSON serialization of the header or claims failed.
     Json(String),
     /// The ECDSA signing operation failed (bad key, RNG failure).
@@ -45,6 +47,7 @@ impl std::fmt::Display for SignError {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         match self {
             Self::MissingField(field) => write!(f, "missing required PASSporT field {field:?}"),
+            Self::InvalidField(field) => write!(f, "invalid PASSporT field {field:?}"),
             Self::Json(msg) => write!(f, "PASSporT JSON serialization failed: {msg}"),
             Self::Signing(msg) => write!(f, "ES256 signing failed: {msg}"),
         }
@@ -134,6 +137,17 @@ pub fn sign(
     if params.orig_tn.is_empty() {
         return Err(SignError::MissingField("orig.tn"));
     }
+    if params.x5u.is_empty() {
+        return Err(SignError::MissingField("x5u"));
+    }
+    // It also becomes the `info=<...>` parameter of the header.
+    if !params
+        .x5u
+        .bytes()
+        .all(|b| b.is_ascii_graphic() && !matches!(b, b'<' | b'>' | b'"'))
+    {
+        return Err(SignError::InvalidField("x5u"));
+    }
     let header = SignHeader {
         alg: "ES256",
         ppt: "shaken",
-- 
2.43.0


From 596317f628ed07213c39b96493dd9bfe5e883efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:07 +0000
Subject: [PATCH 56/90] fix: CPIM parameters and header-less messages were
 misread, message summaries merged their headers, cut-off documents passed as
 whole

---
 crates/sip-core/src/cpim.rs            | 80 ++++++++++++++------------
 crates/sip-core/src/message_waiting.rs | 14 +++--
 crates/sip-core/src/presence.rs        |  5 ++
 crates/sip-core/src/sipfrag.rs         | 16 ++++--
 crates/sip-core/src/watcher_info.rs    |  7 +++
 5 files changed, 78 insertions(+), 44 deletions(-)

diff --git a/crates/sip-core/src/cpim.rs b/crates/sip-core/src/cpim.rs
index 7539bcf..0de495d 100644
--- a/crates/sip-core/src/cpim.rs
+++ b/crates/sip-core/src/cpim.rs
@@ -388,6 +388,12 @@ impl CpimMessage {
 
     /// Adds a content header (e.g., Content-ID, Content-Disposition).
     pub fn add_content_header(&mut self, name: &str, value: &str) -> Result<(), CpimError> {
+        if name.eq_ignore_ascii_case("Content-type") {
+            // The one content type the message has, not a second header
+            validate_content_type(value)?;
+            self.content_type = SmolStr::new(value);
+            return Ok(());
+        }
         validate_header_name(name)?;
         validate_content_header_value(value)?;
         if self.content_headers.len() >= MAX_CONTENT_HEADERS {
@@ -618,7 +624,7 @@ fn validate_header_name(name: &str) -> Result<(), CpimError> {
     }
     if name
         .chars()
-        .any(|c| matches!(c, ':' | ';' | '=' | '\\' | '"'))
+        .any(|c| c.is_whitespace() || matches!(c, ':' | ';' | '=' | '\\' | '"'))
     {
         return Err(CpimError::InvalidHeaderName(
             "contains invalid characters".to_string(),
@@ -649,7 +655,7 @@ fn validate_param_name(name: &str) -> Result<(), CpimError> {
     }
     if name
         .chars()
-        .any(|c| c.is_ascii_control() || matches!(c, ';' | '=' | '\\' | '"'))
+        .any(|c| c.is_control() || c.is_whitespace() || matches!(c, ';' | '=' | '\\' | '"'))
     {
         return Err(CpimError::InvalidParamName(
             "contains invalid characters".to_string(),
@@ -667,7 +673,7 @@ fn validate_param_value(value: &str) -> Result<(), CpimError> {
     }
     if value
         .chars()
-        .any(|c| c.is_ascii_control() || matches!(c, ';' | '\\' | '"'))
+        .any(|c| c.is_control() || c.is_whitespace() || matches!(c, ';' | '\\' | '"'))
     {
         return Err(CpimError::InvalidParamValue(
             "contains invalid characters".to_string(),
@@ -677,7 +683,7 @@ fn validate_param_value(value: &str) -> Result<(), CpimError> {
 }
 
 fn validate_content_type(value: &str) -> Result<(), CpimError> {
-    if value.is_empty() {
+    if value.trim().is_empty() {
         return Err(CpimError::InvalidContentType(
             "empty content type".to_string(),
         ));
@@ -792,45 +798,31 @@ pub fn parse_cpim(input: &str) -> Result<CpimMessage, CpimError> {
         });
     }
 
-    // Split into sections by blank lines (CRLF CRLF or LF LF)
-    let sections: Vec<&str> = if input.contains("\r\n\r\n") {
-        input.split("\r\n\r\n").collect()
-    } else {
-        input.split("\n\n").collect()
-    };
-
-    if sections.len() < 4 {
-        return Err(CpimError::ParseError(
-            "missing required cpim sections".to_string(),
-        ));
-    }
+    // Sections end at the first blank line; what follows the third is the body,
+    // taken as it is
+    let missing = || CpimError::ParseError("missing required cpim sections".to_string());
 
     // First section: MIME headers (should contain Content-type: Message/CPIM)
-    let mime_section = sections[0];
+    let (mime_section, rest) = split_section(input).ok_or_else(missing)?;
+
+    // Second section: Message headers
+    let (headers_section, rest) = split_section(rest).ok_or_else(missing)?;
+
+    // Third section: Content headers
+    let (content_headers_section, body_str) = split_section(rest).ok_or_else(missing)?;
+
     if !mime_section.to_lowercase().contains("message/cpim") {
         return Err(CpimError::ParseError(
             "missing message/cpim MIME header".to_string(),
         ));
     }
-
-    // Second section: Message headers
-    let headers_section = sections[1];
     let headers = parse_headers(headers_section)?;
 
-    // Third section: Content headers
-    let content_headers_section = sections[2];
-
     // Parse content headers
     let mut content_type = SmolStr::new("text/plain");
     let mut content_headers = BTreeMap::new();
 
-    let line_sep = if content_headers_section.contains("\r\n") {
-        "\r\n"
-    } else {
-        "\n"
-    };
-
-    for line in content_headers_section.split(line_sep) {
+    for line in content_headers_section.lines() {
         if line.is_empty() {
             continue;
         }
@@ -858,8 +850,6 @@ pub fn parse_cpim(input: &str) -> Result<CpimMessage, CpimError> {
         }
     }
 
-    // Fourth section onwards: Body (join remaining sections in case body contains blank lines)
-    let body_str = sections[3..].join("\r\n\r\n");
     let body = body_str.as_bytes().to_vec();
 
     if body.len() > MAX_BODY_SIZE {
@@ -877,13 +867,24 @@ pub fn parse_cpim(input: &str) -> Result<CpimMessage, CpimError> {
     })
 }
 
+/// Splits off the lines before the first blank line (CRLF or LF line ends).
+fn split_section(input: &str) -> Option<(&str, &str)> {
+    let mut start = 0;
+    while let Some(len) = input[start..].find('\n') {
+        let line = &input[start..start + len];
+        if line.is_empty() || line == "\r" {
+            return Some((&input[..start], &input[start + len + 1..]));
+        }
+        start += len + 1;
+    }
+    None
+}
+
 /// Parses CPIM headers from a string.
 fn parse_headers(input: &str) -> Result<BTreeMap<SmolStr, Vec<CpimHeader>>, CpimError> {
     let mut headers = BTreeMap::new();
 
-    let line_sep = if input.contains("\r\n") { "\r\n" } else { "\n" };
-
-    for line in input.split(line_sep) {
+    for line in input.lines() {
         if line.is_empty() {
             continue;
         }
@@ -893,6 +894,13 @@ fn parse_headers(input: &str) -> Result<BTreeMap<SmolStr, Vec<CpimHeader>>, Cpim
             .split_once(':')
             .ok_or_else(|| CpimError::ParseError("missing ':'".to_string()))?;
 
+        // RFC 3862 puts parameters after the colon, up to the first space;
+        // ahead of the colon they are tolerated
+        let (params_after_colon, value) = match value.strip_prefix(';') {
+            Some(rest) => rest.split_once(' ').unwrap_or((rest, "")),
+            None => ("", value),
+        };
+
         // Parse header name and parameters
         let mut parts = name_with_params.split(';');
         let name = parts
@@ -902,7 +910,7 @@ fn parse_headers(input: &str) -> Result<BTreeMap<SmolStr, Vec<CpimHeader>>, Cpim
         validate_header_name(name)?;
 
         let mut params = BTreeMap::new();
-        for param in parts {
+        for param in parts.chain(params_after_colon.split(';')) {
             if let Some((param_name, param_value)) = param.split_once('=') {
                 validate_param_name(param_name.trim())?;
                 validate_param_value(param_value.trim())?;
diff --git a/crates/sip-core/src/message_waiting.rs b/crates/sip-core/src/message_waiting.rs
index 4bf03f9..b49e696 100644
--- a/crates/sip-core/src/message_waiting.rs
+++ b/crates/sip-core/src/message_waiting.rs
@@ -189,12 +189,16 @@ impl MessageSummary {
 
     /// Returns the total number of new messages across all classes.
     pub fn total_new(&self) -> u32 {
-        self.messages.values().map(|c| c.new_count()).sum()
+        self.messages
+            .values()
+            .fold(0, |sum, c| sum.saturating_add(c.new_count()))
     }
 
     /// Returns the total number of old messages across all classes.
     pub fn total_old(&self) -> u32 {
-        self.messages.values().map(|c| c.old_count()).sum()
+        self.messages
+            .values()
+            .fold(0, |sum, c| sum.saturating_add(c.old_count()))
     }
 
     /// Returns true if any messages are urgent.
@@ -236,6 +240,8 @@ impl fmt::Display for MessageSummary {
 
         // Optional message headers
         for msg_header in &self.message_headers {
+            // Each message's headers follow a blank line (RFC 3842 section 5.2)
+            writeln!(f)?;
             if let Some(to) = msg_header.to() {
                 writeln!(f, "To: {}", to)?;
             }
@@ -374,12 +380,12 @@ impl MessageCounts {
 
     /// Returns the total number of messages (new + old).
     pub fn total(&self) -> u32 {
-        self.new + self.old
+        self.new.saturating_add(self.old)
     }
 
     /// Returns the total number of urgent messages.
     pub fn total_urgent(&self) -> u32 {
-        self.urgent_new + self.urgent_old
+        self.urgent_new.saturating_add(self.urgent_old)
     }
 
     /// Returns true if there are any new messages.
diff --git a/crates/sip-core/src/presence.rs b/crates/sip-core/src/presence.rs
index 73c99db..682385b 100644
--- a/crates/sip-core/src/presence.rs
+++ b/crates/sip-core/src/presence.rs
@@ -457,6 +457,11 @@ pub fn parse_pidf(xml: &str) -> Result<PresenceDocument, PresenceError> {
     let entity = xml_unescape(&entity);
     let mut doc = PresenceDocument::new(entity)?;
 
+    // A document cut short would otherwise pass for one with fewer tuples
+    if !xml.contains("</presence>") && !xml.trim_end().ends_with("/>") {
+        return Err(PresenceError::ParseError("unclosed presence".to_string()));
+    }
+
     // Extract tuples
     let mut tuple_ranges = Vec::new();
     let mut pos = 0;
diff --git a/crates/sip-core/src/sipfrag.rs b/crates/sip-core/src/sipfrag.rs
index ed89952..6f84b4d 100644
--- a/crates/sip-core/src/sipfrag.rs
+++ b/crates/sip-core/src/sipfrag.rs
@@ -151,7 +151,7 @@ impl SipFrag {
                 max: MAX_SIPFRAG_BODY_SIZE,
             });
         }
-        validate_body_headers(&headers, body.len())?;
+        validate_body(&headers, &body)?;
 
         Ok(Self {
             start_line: Some(StartLine::Response(status)),
@@ -256,7 +256,7 @@ impl SipFrag {
             });
         }
 
-        validate_body_headers(&self.headers, body_bytes.len())?;
+        validate_body(&self.headers, &body_bytes)?;
         self.body = body_bytes;
         Ok(self)
     }
@@ -282,7 +282,7 @@ impl SipFrag {
             });
         }
 
-        validate_body_headers(&self.headers, body_bytes.len())?;
+        validate_body(&self.headers, &body_bytes)?;
         self.body = body_bytes;
         Ok(())
     }
@@ -367,7 +367,8 @@ impl fmt::Display for SipFrag {
     }
 }
 
-fn validate_body_headers(headers: &Headers, body_len: usize) -> Result<(), SipFragError> {
+fn validate_body(headers: &Headers, body: &[u8]) -> Result<(), SipFragError> {
+    let body_len = body.len();
     if body_len == 0 {
         return Ok(());
     }
@@ -394,6 +395,13 @@ fn validate_body_headers(headers: &Headers, body_len: usize) -> Result<(), SipFr
         )));
     }
 
+    // A fragment is printed as text; anything else could not be printed at all
+    if std::str::from_utf8(body).is_err() {
+        return Err(SipFragError::ValidationError(
+            "Body must be UTF-8 text".to_string(),
+        ));
+    }
+
     Ok(())
 }
 
diff --git a/crates/sip-core/src/watcher_info.rs b/crates/sip-core/src/watcher_info.rs
index e275f38..fc90f62 100644
--- a/crates/sip-core/src/watcher_info.rs
+++ b/crates/sip-core/src/watcher_info.rs
@@ -713,6 +713,13 @@ pub fn parse_watcherinfo(xml: &str) -> Result<WatcherinfoDocument, WatcherinfoEr
 
     let mut doc = WatcherinfoDocument::new(version, state)?;
 
+    // A document cut short would otherwise pass for one with fewer watchers
+    if !xml.contains("</watcherinfo>") && !xml.trim_end().ends_with("/>") {
+        return Err(WatcherinfoError::XmlParseError(
+            "unclosed watcherinfo".to_string(),
+        ));
+    }
+
     let mut pos = 0;
     while let Some(list_start) = xml[pos..].find("<watcher-list") {
         let abs_start = pos + list_start;
-- 
2.43.0


From 739ad0269c1f14d4f6fd926b04a25c1b7b5eb499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:07 +0000
Subject: [PATCH 57/90] fix: SDP setters and constructors let line breaks add
 lines to a description

---
 crates/sip-core/src/sdp.rs  | 16 +++++++++++-----
 crates/sip-sdp/src/attrs.rs | 15 ++++++++++++---
 crates/sip-sdp/src/lib.rs   |  6 ++++++
 3 files changed, 29 insertions(+), 8 deletions(-)

diff --git a/crates/sip-core/src/sdp.rs b/crates/sip-core/src/sdp.rs
index 3683163..01fa805 100644
--- a/crates/sip-core/src/sdp.rs
+++ b/crates/sip-core/src/sdp.rs
@@ -201,6 +201,12 @@ fn validate_string(s: &str, field_name: &'static str, max_len: usize) -> Result<
     Ok(())
 }
 
+/// Text that becomes part of one SDP line: line breaks and NULs are dropped,
+/// since they would start a line of their own when the session is printed.
+fn single_line(s: String) -> String {
+    s.replace(['\r', '\n', '\0'], "")
+}
+
 /// Validates a collection size against a maximum limit.
 fn validate_collection_size<T>(
     collection: &[T],
@@ -468,7 +474,7 @@ impl Bandwidth {
     /// Creates a new bandwidth specification.
     pub fn new(bwtype: impl Into<String>, bandwidth: u64) -> Self {
         Bandwidth {
-            bwtype: bwtype.into(),
+            bwtype: single_line(bwtype.into()),
             bandwidth,
         }
     }
@@ -659,9 +665,9 @@ impl RtcpAttribute {
     ) -> Self {
         RtcpAttribute {
             port,
-            nettype: Some(nettype),
-            addrtype: Some(addrtype),
-            connection_address: Some(connection_address),
+            nettype: Some(single_line(nettype)),
+            addrtype: Some(single_line(addrtype)),
+            connection_address: Some(single_line(connection_address)),
         }
     }
 
@@ -1309,7 +1315,7 @@ impl SdpSession {
         Self {
             version: 0,
             origin,
-            session_name,
+            session_name: single_line(session_name),
             session_info: None,
             uri: None,
             emails: Vec::new(),
diff --git a/crates/sip-sdp/src/attrs.rs b/crates/sip-sdp/src/attrs.rs
index 09213b1..fc8a043 100644
--- a/crates/sip-sdp/src/attrs.rs
+++ b/crates/sip-sdp/src/attrs.rs
@@ -92,10 +92,19 @@ fn set_value_attr_unique(attrs: &mut Vec<Attribute>, key: &str, value: &str) {
     attrs.retain(|a| !matches!(a, Attribute::Value { name, .. } if name.as_str() == key));
     attrs.push(Attribute::Value {
         name: SmolStr::new(key),
-        value: SmolStr::new(value),
+        value: single_line(value),
     });
 }
 
+/// An attribute value is one line: line breaks and NULs never reach the
+/// wire, where they would start a line of their own.
+fn single_line(value: &str) -> SmolStr {
+    value
+        .chars()
+        .filter(|c| !matches!(c, '\r' | '\n' | '\0'))
+        .collect()
+}
+
 fn clear_value_attrs(attrs: &mut Vec<Attribute>, key: &str) {
     attrs.retain(|a| !matches!(a, Attribute::Value { name, .. } if name.as_str() == key));
 }
@@ -464,7 +473,7 @@ impl MediaDescription {
         });
         self.attributes.push(Attribute::Value {
             name: SmolStr::new("fmtp"),
-            value: SmolStr::new(format!("{} {}", payload_type, params.trim())),
+            value: single_line(&format!("{} {}", payload_type, params.trim())),
         });
     }
 
@@ -513,7 +522,7 @@ impl MediaDescription {
     pub fn add_candidate(&mut self, candidate: &Candidate) {
         self.attributes.push(Attribute::Value {
             name: SmolStr::new("candidate"),
-            value: SmolStr::new(candidate.to_attr_value()),
+            value: single_line(&candidate.to_attr_value()),
         });
     }
 
diff --git a/crates/sip-sdp/src/lib.rs b/crates/sip-sdp/src/lib.rs
index 641c037..35d6437 100644
--- a/crates/sip-sdp/src/lib.rs
+++ b/crates/sip-sdp/src/lib.rs
@@ -594,6 +594,9 @@ impl MediaDescription {
     ) -> Result<Self, SdpError> {
         validate_payload_type(payload_type)?;
         validate_field(encoding_name, "encoding_name", MAX_ENCODING_NAME_LENGTH)?;
+        if let Some(params) = encoding_params {
+            validate_field(params, "encoding_params", MAX_ENCODING_NAME_LENGTH)?;
+        }
         validate_clock_rate(clock_rate)?;
 
         // Replace-semantics: drop any previous rtpmap for this PT
@@ -743,6 +746,9 @@ impl MediaDescription {
     ) -> Result<(), SdpError> {
         validate_payload_type(payload_type)?;
         validate_field(encoding_name, "encoding_name", MAX_ENCODING_NAME_LENGTH)?;
+        if let Some(params) = encoding_params {
+            validate_field(params, "encoding_params", MAX_ENCODING_NAME_LENGTH)?;
+        }
         validate_clock_rate(clock_rate)?;
 
         // Drop any prior entries first so duplicate-pt mutations are
-- 
2.43.0


From a4344ef7cfa4c753dfe4a0d04689e68748ebc74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:56 +0000
Subject: [PATCH 58/90] fix: privacy enforcement left identities in further
 Contact values and ignored requests it does not know

---
 crates/sip-core/src/privacy.rs | 51 ++++++++++++++++++++++++----------
 1 file changed, 37 insertions(+), 14 deletions(-)

diff --git a/crates/sip-core/src/privacy.rs b/crates/sip-core/src/privacy.rs
index ba0eeb6..927ee5c 100644
--- a/crates/sip-core/src/privacy.rs
+++ b/crates/sip-core/src/privacy.rs
@@ -403,13 +403,26 @@ fn anonymize_identity_headers(headers: &mut crate::Headers) -> Result<(), Privac
             .map_err(|e| PrivacyError::ParseError(format!("failed to set From: {}", e)))?;
     }
 
-    // Anonymize Contact header
-    if let Some(contact) = headers.get("Contact") {
-        let anonymized = anonymize_identity_header(contact)?;
+    // Anonymize every contact: the header may repeat, and one value may list several
+    let contacts: Vec<String> = headers.get_all("Contact").map(str::to_string).collect();
+    if !contacts.is_empty() {
+        let mut anonymized = Vec::with_capacity(contacts.len());
+        for contact in &contacts {
+            let parts: Result<Vec<_>, _> = crate::quoted::split_list(contact)
+                .ok_or_else(|| PrivacyError::ParseError("unterminated quoted string".into()))?
+                .into_iter()
+                .map(str::trim)
+                .filter(|part| !part.is_empty())
+                .map(anonymize_identity_header)
+                .collect();
+            anonymized.push(parts?.join(", "));
+        }
         headers.remove("Contact");
-        headers
-            .push(SmolStr::new("Contact"), SmolStr::new(anonymized))
-            .map_err(|e| PrivacyError::ParseError(format!("failed to set Contact: {}", e)))?;
+        for contact in anonymized {
+            headers
+                .push(SmolStr::new("Contact"), SmolStr::new(contact))
+                .map_err(|e| PrivacyError::ParseError(format!("failed to set Contact: {}", e)))?;
+        }
     }
 
     // Remove P-Asserted-Identity per RFC 3325 §9.2
@@ -451,6 +464,7 @@ fn split_header_params(value: &str) -> (&str, &str) {
     let mut in_quotes = false;
     let mut in_angle = false;
     let mut escape = false;
+    let mut params_at = None;
 
     for (idx, ch) in value.char_indices() {
         if escape {
@@ -467,23 +481,29 @@ fn split_header_params(value: &str) -> (&str, &str) {
             }
             '<' if !in_quotes => {
                 in_angle = true;
+                // what came before the address is no parameter
+                params_at = None;
             }
             '>' if !in_quotes => {
                 in_angle = false;
             }
             ';' if !in_quotes && !in_angle => {
-                return (&value[..idx], &value[idx..]);
+                params_at.get_or_insert(idx);
             }
             _ => {}
         }
     }
 
-    (value, "")
+    match params_at {
+        Some(idx) => (&value[..idx], &value[idx..]),
+        None => (value, ""),
+    }
 }
 
 /// Checks if privacy enforcement is required.
 ///
-/// Returns true if the request contains a Privacy header requesting privacy.
+/// Returns true if the request contains a Privacy header requesting privacy, also
+/// one that asks for something this library cannot provide.
 ///
 /// # Examples
 ///
@@ -497,11 +517,14 @@ fn split_header_params(value: &str) -> (&str, &str) {
 /// assert!(requires_privacy_enforcement(&headers));
 /// ```
 pub fn requires_privacy_enforcement(headers: &crate::Headers) -> bool {
-    if let Some(privacy) = parse_privacy_header(headers) {
-        !privacy.is_none()
-    } else {
-        false
-    }
+    // A value this library does not know still asks for privacy, so the header
+    // does not have to parse for the answer to be yes.
+    headers.get_all("Privacy").any(|header| {
+        header
+            .split(';')
+            .map(str::trim)
+            .any(|value| !value.is_empty() && !value.eq_ignore_ascii_case("none"))
+    })
 }
 
 #[cfg(test)]
-- 
2.43.0


From aca1ae2c49c757f2f59d766d1d6aadfe49bd79b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:56 +0000
Subject: [PATCH 59/90] fix: string capabilities in a parsed Contact were
 refused or broke its quoting, tokens like nan were read as numbers

---
 crates/sip-core/src/capabilities.rs | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/crates/sip-core/src/capabilities.rs b/crates/sip-core/src/capabilities.rs
index 89bdcad..3c39f37 100644
--- a/crates/sip-core/src/capabilities.rs
+++ b/crates/sip-core/src/capabilities.rs
@@ -31,6 +31,7 @@
 /// )
 /// .unwrap();
 /// ```
+use crate::quoted::{unquote, QuotedString};
 use smol_str::SmolStr;
 use std::collections::{BTreeMap, HashSet};
 use std::fmt;
@@ -431,7 +432,7 @@ impl FeatureValue {
                 }
                 Ok(Some(SmolStr::new(format!("\"{}\"", list.join(",")))))
             }
-            FeatureValue::String(s) => Ok(Some(SmolStr::new(format!("\"{}\"", s)))),
+            FeatureValue::String(s) => Ok(Some(SmolStr::new(QuotedString(s).to_string()))),
             FeatureValue::Numeric(n) => Ok(Some(SmolStr::new(n.to_string()))),
         }
     }
@@ -462,13 +463,19 @@ impl FeatureValue {
                     if v.len() < 2 {
                         return Err(CapabilityError::InvalidQuoting);
                     }
-                    let unquoted = &v[1..v.len() - 1];
-                    return FeatureValue::new_string(SmolStr::new(unquoted));
+                    return FeatureValue::new_string(unquote(v));
                 }
 
                 // Numeric values
-                if let Ok(num) = v.parse::<f64>() {
-                    return FeatureValue::new_numeric(num);
+                if is_number(v) {
+                    if let Ok(num) = v.parse::<f64>() {
+                        return FeatureValue::new_numeric(num);
+                    }
+                }
+
+                // Parsed Contact headers hold string values without their quotes
+                if !is_valid_token(v) {
+                    return FeatureValue::new_string(SmolStr::new(v));
                 }
 
                 // Token value (unquoted)
@@ -478,6 +485,15 @@ impl FeatureValue {
     }
 }
 
+/// Returns true for RFC 3840 numbers: digits, an optional sign and fraction. Other
+/// spellings `f64` accepts ("nan", "inf", "1e5") are tokens.
+fn is_number(value: &str) -> bool {
+    value.chars().any(|c| c.is_ascii_digit())
+        && value
+            .chars()
+            .all(|c| c.is_ascii_digit() || matches!(c, '+' | '-' | '.'))
+}
+
 fn is_valid_token(token: &str) -> bool {
     !token.is_empty()
         && !token.chars().any(|c| c.is_ascii_control())
-- 
2.43.0


From c303adf8f78556f710843f9a9b20b414581e0a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:56 +0000
Subject: [PATCH 60/90] fix: contacts without feature parameters were not
 immune to caller preferences

---
 crates/sip-core/src/caller_preferences.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/sip-core/src/caller_preferences.rs b/crates/sip-core/src/caller_preferences.rs
index e0af64b..5cfdbaa 100644
--- a/crates/sip-core/src/caller_preferences.rs
+++ b/crates/sip-core/src/caller_preferences.rs
@@ -821,6 +821,12 @@ pub fn score_contacts(
         .into_iter()
         .zip(capabilities.iter())
         .filter_map(|(mut contact, caps)| {
+            // Contacts without feature parameters are immune to caller preferences
+            if !contact.has_explicit_features {
+                contact.caller_qa = 1.0;
+                return Some(contact);
+            }
+
             // Apply Reject-Contact filters
             for reject in reject_headers {
                 if reject.matches(caps, contact.has_explicit_features) {
-- 
2.43.0


From f357a782dac7ae7166be915e2df295d8c1172fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:02 +0000
Subject: [PATCH 61/90] fix: capabilities example had moved to another item,
 renaming its doc test

---
 crates/sip-core/src/capabilities.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/sip-core/src/capabilities.rs b/crates/sip-core/src/capabilities.rs
index 3c39f37..165d059 100644
--- a/crates/sip-core/src/capabilities.rs
+++ b/crates/sip-core/src/capabilities.rs
@@ -31,11 +31,12 @@
 /// )
 /// .unwrap();
 /// ```
-use crate::quoted::{unquote, QuotedString};
 use smol_str::SmolStr;
 use std::collections::{BTreeMap, HashSet};
 use std::fmt;
 
+use crate::quoted::{unquote, QuotedString};
+
 const MAX_TOKEN_LENGTH: usize = 64;
 const MAX_STRING_LENGTH: usize = 256;
 const MAX_TOKEN_LIST_SIZE: usize = 20;
-- 
2.43.0


From eec89aa533c68847c32431adb44da61843015818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:23 +0000
Subject: [PATCH 62/90] fix: a minimum interval beyond 584 years wrapped around
 to a short one

---
 crates/sip-observe/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/sip-observe/src/lib.rs b/crates/sip-observe/src/lib.rs
index 7c9f313..cdb44e6 100644
--- a/crates/sip-observe/src/lib.rs
+++ b/crates/sip-observe/src/lib.rs
@@ -169,7 +169,7 @@ impl RateLimitedTracingTransportMetrics {
             return false;
         }
 
-        let min_ns = self.min_interval.as_nanos() as u64;
+        let min_ns = u64::try_from(self.min_interval.as_nanos()).unwrap_or(u64::MAX);
         if min_ns == 0 {
             return true;
         }
-- 
2.43.0


From 5e292db69faa90a9597385ea1c62a447739da593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:46 +0000
Subject: [PATCH 63/90] fix: a repeated final response to an INVITE reached the
 transaction user again

---
 crates/sip-transaction/src/fsm.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/crates/sip-transaction/src/fsm.rs b/crates/sip-transaction/src/fsm.rs
index cfcc81c..ce3b4be 100644
--- a/crates/sip-transaction/src/fsm.rs
+++ b/crates/sip-transaction/src/fsm.rs
@@ -591,13 +591,18 @@ impl ClientInviteFsm {
         let mut actions = vec![
             ClientInviteAction::Cancel(TransactionTimer::A),
             ClientInviteAction::Cancel(TransactionTimer::B),
-            ClientInviteAction::Deliver(response.clone()),
-            ClientInviteAction::GenerateAck {
-                response,
-                is_2xx: false,
-            },
         ];
-        if !matches!(current_state, crate::ClientInviteState::Completed) {
+        // A retransmitted final response is acknowledged again, but the
+        // transaction user has already seen it (RFC 3261 §17.1.1.2).
+        let first = !matches!(current_state, crate::ClientInviteState::Completed);
+        if first {
+            actions.push(ClientInviteAction::Deliver(response.clone()));
+        }
+        actions.push(ClientInviteAction::GenerateAck {
+            response,
+            is_2xx: false,
+        });
+        if first {
             actions.push(ClientInviteAction::Schedule {
                 timer: TransactionTimer::D,
                 duration: self.timers.duration(TransactionTimer::D), // 0 for TCP/TLS, 32s for UDP
-- 
2.43.0


From 71e59aea20c50b60b75c0b2ba4c5638538000e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:57 +0000
Subject: [PATCH 64/90] fix: an INVITE that rang for 32 seconds was ended by
 timer B

---
 crates/sip-transaction/src/fsm.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/sip-transaction/src/fsm.rs b/crates/sip-transaction/src/fsm.rs
index ce3b4be..e75944e 100644
--- a/crates/sip-transaction/src/fsm.rs
+++ b/crates/sip-transaction/src/fsm.rs
@@ -504,9 +504,7 @@ impl ClientInviteFsm {
                 }
             }
             (Calling, ClientInviteEvent::TimerFired(TransactionTimer::A)) => self.handle_timer_a(),
-            (Calling | Proceeding, ClientInviteEvent::TimerFired(TransactionTimer::B)) => {
-                self.handle_timer_b()
-            }
+            (Calling, ClientInviteEvent::TimerFired(TransactionTimer::B)) => self.handle_timer_b(),
             (Completed, ClientInviteEvent::TimerFired(TransactionTimer::D)) => {
                 self.handle_timer_d()
             }
@@ -546,8 +544,11 @@ impl ClientInviteFsm {
 
     fn handle_provisional(&mut self, response: Response) -> Vec<ClientInviteAction> {
         self.state = crate::ClientInviteState::Proceeding;
+        // Timer B only bounds the wait for a first response: a callee may ring
+        // for longer than 64*T1 (RFC 3261 §17.1.1.2).
         let mut actions = vec![
             ClientInviteAction::Cancel(TransactionTimer::A),
+            ClientInviteAction::Cancel(TransactionTimer::B),
             ClientInviteAction::Deliver(response.clone()),
         ];
         if response_requires_prack(&response) {
-- 
2.43.0


From 85fd193f7f14233124ed637ca5ba53ef4f890d0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:07 +0000
Subject: [PATCH 65/90] fix: a transport error after the end of a transaction
 reported its end again

---
 crates/sip-transaction/src/fsm.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/sip-transaction/src/fsm.rs b/crates/sip-transaction/src/fsm.rs
index e75944e..676e7d6 100644
--- a/crates/sip-transaction/src/fsm.rs
+++ b/crates/sip-transaction/src/fsm.rs
@@ -508,6 +508,7 @@ impl ClientInviteFsm {
             (Completed, ClientInviteEvent::TimerFired(TransactionTimer::D)) => {
                 self.handle_timer_d()
             }
+            (Terminated, ClientInviteEvent::TransportError) => Vec::new(),
             (_, ClientInviteEvent::TransportError) => self.handle_transport_error(),
             (_, ClientInviteEvent::TimerFired(_)) => Vec::new(),
             _ => Vec::new(),
@@ -709,6 +710,7 @@ impl ClientNonInviteFsm {
                 ClientNonInviteState::Completed,
                 ClientNonInviteEvent::TimerFired(TransactionTimer::K),
             ) => self.handle_timer_k(),
+            (ClientNonInviteState::Terminated, ClientNonInviteEvent::TransportError) => Vec::new(),
             (_, ClientNonInviteEvent::TransportError) => self.handle_transport_error(),
             (_, _) => Vec::new(),
         }
@@ -893,6 +895,7 @@ impl ServerNonInviteFsm {
                 ServerNonInviteState::Completed,
                 ServerNonInviteEvent::TimerFired(TransactionTimer::J),
             ) => self.handle_timer_j(),
+            (ServerNonInviteState::Terminated, ServerNonInviteEvent::TransportError) => Vec::new(),
             (_, ServerNonInviteEvent::TransportError) => self.handle_transport_error(),
             (_, _) => Vec::new(),
         }
@@ -1035,6 +1038,7 @@ impl ServerInviteFsm {
             (Confirmed, ServerInviteEvent::TimerFired(TransactionTimer::I)) => {
                 self.handle_timer_i()
             }
+            (Terminated, ServerInviteEvent::TransportError) => Vec::new(),
             (_, ServerInviteEvent::TransportError) => self.handle_transport_error(),
             (_, ServerInviteEvent::TimerFired(_)) => Vec::new(),
             (_, ServerInviteEvent::ReceiveAck) => Vec::new(),
-- 
2.43.0


From 80b4709555c9fdaaf511ad068c0cca4a34789da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:18 +0000
Subject: [PATCH 66/90] fix: a second final response replaced the first one of
 an INVITE transaction

---
 crates/sip-transaction/src/fsm.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/crates/sip-transaction/src/fsm.rs b/crates/sip-transaction/src/fsm.rs
index 676e7d6..9f62cf6 100644
--- a/crates/sip-transaction/src/fsm.rs
+++ b/crates/sip-transaction/src/fsm.rs
@@ -1025,9 +1025,8 @@ impl ServerInviteFsm {
             (Proceeding, ServerInviteEvent::ReceiveInvite(_)) => self.handle_receive_invite(),
             (Proceeding | Completed, ServerInviteEvent::ReceiveCancel) => self.handle_cancel(),
             (Proceeding, ServerInviteEvent::SendProvisional(resp)) => self.send_provisional(resp),
-            (Proceeding, ServerInviteEvent::SendFinal(resp))
-            | (Confirmed, ServerInviteEvent::SendFinal(resp))
-            | (Completed, ServerInviteEvent::SendFinal(resp)) => self.send_final(resp),
+            // Any later final response is discarded: the first one stands.
+            (Proceeding, ServerInviteEvent::SendFinal(resp)) => self.send_final(resp),
             (Completed, ServerInviteEvent::ReceiveAck) => self.handle_ack(),
             (Completed, ServerInviteEvent::TimerFired(TransactionTimer::G)) => {
                 self.handle_timer_g()
-- 
2.43.0


From 893851d683ec85e3cd3489899f04c0076b4163f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:22 +0000
Subject: [PATCH 67/90] fix: an ACK that matched no transaction left one behind
 for ever

---
 crates/sip-transaction/src/manager.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/sip-transaction/src/manager.rs b/crates/sip-transaction/src/manager.rs
index 7c04dd5..0ec4058 100644
--- a/crates/sip-transaction/src/manager.rs
+++ b/crates/sip-transaction/src/manager.rs
@@ -790,6 +790,12 @@ impl TransactionManager {
                     };
                 }
             }
+            // An ACK that no transaction absorbs is never answered, so a
+            // transaction created for it could never end.
+            return ServerTransactionHandle {
+                manager: self.clone(),
+                key,
+            };
         }
 
         if let Some(mut entry) = self.inner.server.get_mut(&key) {
-- 
2.43.0


From 8feace2a8cd72772f5019b940143f28dece641fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:10 +0000
Subject: [PATCH 68/90] fix: 129 sends failing at one instant stopped the
 transaction manager for good

---
 crates/sip-transaction/src/manager.rs | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/crates/sip-transaction/src/manager.rs b/crates/sip-transaction/src/manager.rs
index 0ec4058..a05e1ca 100644
--- a/crates/sip-transaction/src/manager.rs
+++ b/crates/sip-transaction/src/manager.rs
@@ -489,10 +489,9 @@ impl TransactionManager {
                     };
 
                     if !advanced {
-                        let _ = self
-                            .cmd_tx
-                            .send(ManagerCommand::ClientTransportError { key: key.clone() })
-                            .await;
+                        self.queue_command(ManagerCommand::ClientTransportError {
+                            key: key.clone(),
+                        });
                         return;
                     }
                     // Loop and retry with the new ctx.
@@ -501,6 +500,17 @@ impl TransactionManager {
         }
     }
 
+    /// Queues a command without waiting for room. Sends also fail inside the
+    /// command loop, which must not wait for its own full queue.
+    fn queue_command(&self, command: ManagerCommand) {
+        if let Err(mpsc::error::TrySendError::Full(command)) = self.cmd_tx.try_send(command) {
+            let cmd_tx = self.cmd_tx.clone();
+            tokio::spawn(async move {
+                let _ = cmd_tx.send(command).await;
+            });
+        }
+    }
+
     async fn dispatch_with_pool(&self, ctx: &TransportContext, bytes: Bytes) -> Result<()> {
         // Extract first line for logging
         let first_line = bytes
@@ -1186,10 +1196,9 @@ impl TransactionManager {
                         drop(entry);
                         if let Err(e) = self.dispatch_with_pool(&ctx, bytes.clone()).await {
                             error!(%e, key = ?key, "server transport dispatch failed");
-                            let _ = self
-                                .cmd_tx
-                                .send(ManagerCommand::ServerTransportError { key: key.clone() })
-                                .await;
+                            self.queue_command(ManagerCommand::ServerTransportError {
+                                key: key.clone(),
+                            });
                         }
                     }
                 }
-- 
2.43.0


From 62a32e748ef4e86209185be2b9d1525025c41353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:10 +0000
Subject: [PATCH 69/90] fix: a forwarded INVITE's CANCEL had the Vias of the
 upstream and its Require, and 6xx sent none

---
 crates/sip-proxy/src/service.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/crates/sip-proxy/src/service.rs b/crates/sip-proxy/src/service.rs
index 6137df8..b4681ad 100644
--- a/crates/sip-proxy/src/service.rs
+++ b/crates/sip-proxy/src/service.rs
@@ -178,9 +178,10 @@ impl ProxyService {
     ) -> ProxyActions {
         let forward = context.process_response(branch_id, response).await;
 
-        // Build CANCELs for losing branches if we have a winning 2xx
+        // Build CANCELs for losing branches if we have a winning 2xx or a
+        // 6xx, which ends the search (RFC 3261 §16.7 step 5)
         let cancels = if let Some(ref resp) = forward {
-            if resp.code() >= 200 && resp.code() < 300 {
+            if (200..300).contains(&resp.code()) || resp.code() >= 600 {
                 let cancel_template = build_cancel_template(
                     &context.original_request,
                     context.proxy_host.as_str(),
@@ -211,6 +212,11 @@ fn build_cancel_template(original: &Request, proxy_host: &str, transport: &str)
     let mut headers = original.headers().clone();
     headers.remove("Content-Type");
     headers.remove("Content-Length");
+    // RFC 3261 §9.1: a CANCEL has a single Via, that of the forwarded
+    // request, and carries no Require or Proxy-Require.
+    for name in ["Via", "Require", "Proxy-Require"] {
+        headers.remove(name);
+    }
     let mut cancel = Request::new(
         RequestLine::new(Method::Cancel, original.uri().clone()),
         headers,
@@ -242,8 +248,11 @@ fn extract_top_via_branch(request: &Request) -> Result<SmolStr> {
 
     for part in via.value().split(';') {
         let trimmed = part.trim();
-        if trimmed.len() >= 7 && trimmed[..7].eq_ignore_ascii_case("branch=") {
-            let branch = &trimmed[7..];
+        if let Some(branch) = trimmed
+            .get(..7)
+            .filter(|name| name.eq_ignore_ascii_case("branch="))
+            .and_then(|_| trimmed.get(7..))
+        {
             if is_valid_branch(branch) {
                 return Ok(SmolStr::new(branch));
             }
-- 
2.43.0


From 95f36144883e3eb1c95a64ec7d728bbc17186663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:20 +0000
Subject: [PATCH 70/90] fix: the proxy's own 408 and 503 responses had only the
 topmost Via

---
 crates/sip-proxy/src/stateful.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/crates/sip-proxy/src/stateful.rs b/crates/sip-proxy/src/stateful.rs
index a35c766..a31037a 100644
--- a/crates/sip-proxy/src/stateful.rs
+++ b/crates/sip-proxy/src/stateful.rs
@@ -732,7 +732,10 @@ impl ProxyContext {
         use sip_core::{Headers, Response, StatusLine};
         let req = &self.original_request;
         let mut headers = Headers::new();
-        for name in ["Via", "From", "To", "Call-ID", "CSeq"] {
+        for value in req.headers().get_all("Via") {
+            let _ = headers.push("Via", value);
+        }
+        for name in ["From", "To", "Call-ID", "CSeq"] {
             if let Some(value) = req.headers().get(name) {
                 let _ = headers.push(name, value);
             }
@@ -798,7 +801,10 @@ impl ProxyContext {
         use sip_core::{Headers, Response, StatusLine};
         let req = &self.original_request;
         let mut headers = Headers::new();
-        for name in ["Via", "From", "To", "Call-ID", "CSeq"] {
+        for value in req.headers().get_all("Via") {
+            let _ = headers.push("Via", value);
+        }
+        for name in ["From", "To", "Call-ID", "CSeq"] {
             if let Some(value) = req.headers().get(name) {
                 let _ = headers.push(name, value);
             }
-- 
2.43.0


From 3f4deed00fab1a73a506b01a9eabced9539682b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:31 +0000
Subject: [PATCH 71/90] fix: Timer C was not reset by provisional responses

---
 crates/sip-proxy/src/stateful.rs | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/crates/sip-proxy/src/stateful.rs b/crates/sip-proxy/src/stateful.rs
index a31037a..0cb8f5f 100644
--- a/crates/sip-proxy/src/stateful.rs
+++ b/crates/sip-proxy/src/stateful.rs
@@ -180,6 +180,9 @@ pub struct BranchInfo {
 
     /// Best response received so far (for response selection)
     pub(crate) best_response: Option<Response>,
+
+    /// Counts the responses that (re)started Timer C on this branch.
+    timer_c_starts: u64,
 }
 
 impl BranchInfo {
@@ -198,6 +201,7 @@ impl BranchInfo {
             created_at,
             state,
             best_response: None,
+            timer_c_starts: 0,
         })
     }
 
@@ -432,11 +436,14 @@ impl ProxyContext {
                 branch.state = BranchState::Proceeding;
                 // RFC 3261 §16.7 step 2: arm Timer C on the first
                 // transition into Proceeding so a silent downstream
-                // doesn't hang the upstream forever.
-                if was_trying {
+                // doesn't hang the upstream forever, and reset it on
+                // every later provisional response other than 100.
+                if was_trying || response.code() > 100 {
+                    branch.timer_c_starts += 1;
                     arm_timer_c(
                         Arc::downgrade(self),
                         branch_id.to_string(),
+                        branch.timer_c_starts,
                         self.timer_c_duration,
                     );
                 }
@@ -829,7 +836,15 @@ impl ProxyContext {
 /// context so the task exits cleanly if the context is dropped before
 /// the timer fires. Sleep is a single tokio::time::sleep — no busy
 /// loop, no polling.
-fn arm_timer_c(ctx: std::sync::Weak<ProxyContext>, branch_id: String, duration: Duration) {
+///
+/// `start` is the branch's count of Timer C starts: a later provisional
+/// response has started the timer anew, and this run of it then does nothing.
+fn arm_timer_c(
+    ctx: std::sync::Weak<ProxyContext>,
+    branch_id: String,
+    start: u64,
+    duration: Duration,
+) {
     // Only arm when we have a tokio runtime handle. Unit tests that
     // construct ProxyContext outside a runtime would otherwise panic.
     let Ok(handle) = tokio::runtime::Handle::try_current() else {
@@ -841,7 +856,15 @@ fn arm_timer_c(ctx: std::sync::Weak<ProxyContext>, branch_id: String, duration:
         let Some(ctx) = ctx.upgrade() else {
             return;
         };
-        ctx.fire_timer_c(&branch_id).await;
+        let current = ctx
+            .branches
+            .read()
+            .await
+            .get(branch_id.as_str())
+            .is_some_and(|branch| branch.timer_c_starts == start);
+        if current {
+            ctx.fire_timer_c(&branch_id).await;
+        }
     });
 }
 
-- 
2.43.0


From 743260c9fb075592a2084d2883c904182ea39c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:41 +0000
Subject: [PATCH 72/90] fix: a fork could forward no final response, several,
 or none of its later 2xx

---
 crates/sip-proxy/src/stateful.rs | 81 +++++++++++++++++++++++++-------
 1 file changed, 64 insertions(+), 17 deletions(-)

diff --git a/crates/sip-proxy/src/stateful.rs b/crates/sip-proxy/src/stateful.rs
index 0cb8f5f..8117db2 100644
--- a/crates/sip-proxy/src/stateful.rs
+++ b/crates/sip-proxy/src/stateful.rs
@@ -35,7 +35,7 @@ use smol_str::SmolStr;
 use std::collections::HashMap;
 use std::sync::Arc;
 use std::time::{Duration, Instant};
-use tokio::sync::{mpsc, RwLock};
+use tokio::sync::{mpsc, Mutex, RwLock};
 use tracing::{debug, info, warn};
 
 // Security constants for DoS prevention
@@ -181,6 +181,9 @@ pub struct BranchInfo {
     /// Best response received so far (for response selection)
     pub(crate) best_response: Option<Response>,
 
+    /// A CANCEL has been built for this branch.
+    cancel_built: bool,
+
     /// Counts the responses that (re)started Timer C on this branch.
     timer_c_starts: u64,
 }
@@ -201,6 +204,7 @@ impl BranchInfo {
             created_at,
             state,
             best_response: None,
+            cancel_built: false,
             timer_c_starts: 0,
         })
     }
@@ -296,6 +300,12 @@ pub struct ProxyContext {
     /// Number of outstanding branches (not completed)
     outstanding_count: RwLock<usize>,
 
+    /// Code of the final response that decided this context, once one
+    /// has been handed out for forwarding. Held while a response is
+    /// processed, so that two branches completing at the same time
+    /// cannot both be taken for the last one.
+    decided: Mutex<Option<u16>>,
+
     /// When this context was created
     pub(crate) created_at: Instant,
 
@@ -362,6 +372,7 @@ impl ProxyContext {
             best_final: RwLock::new(None),
             response_tx,
             outstanding_count: RwLock::new(0),
+            decided: Mutex::new(None),
             created_at: Instant::now(),
             timer_c_duration,
             terminated_by_6xx: RwLock::new(false),
@@ -401,7 +412,11 @@ impl ProxyContext {
 
     /// Process a response received on a branch
     ///
-    /// Returns the response that should be forwarded upstream (if any).
+    /// Returns the response that should be forwarded upstream (if any):
+    /// every 2xx; the first 6xx or, once all branches have completed,
+    /// the best other final response, unless a final response was
+    /// forwarded before; and provisional responses other than 100 until
+    /// then. Further final responses of a branch are ignored, except 2xx.
     ///
     /// # Locking
     ///
@@ -424,16 +439,31 @@ impl ProxyContext {
         // `add_branch`.
         let is_six_xx = (600..700).contains(&response.code());
 
+        let mut decided = self.decided.lock().await;
+
         // Mutate the branch in its own scope so the write guard
         // releases before we call cancel_other_branches below.
-        {
+        let was_completed = {
             let mut branches = self.branches.write().await;
             let branch = branches.get_mut(branch_id)?;
 
-            let was_trying = matches!(branch.state, BranchState::Trying);
+            let was_completed =
+                matches!(branch.state, BranchState::Completed | BranchState::TimedOut);
+            if was_completed && !is_two_xx {
+                debug!(
+                    "Ignoring {} response from completed branch {}",
+                    response.code(),
+                    branch_id
+                );
+                return None;
+            }
 
-            if response.code() >= 100 && response.code() < 200 {
-                branch.state = BranchState::Proceeding;
+            if !is_final {
+                let was_trying = matches!(branch.state, BranchState::Trying);
+                // A cancelled branch still waits for its final response.
+                if branch.state != BranchState::Cancelled {
+                    branch.state = BranchState::Proceeding;
+                }
                 // RFC 3261 §16.7 step 2: arm Timer C on the first
                 // transition into Proceeding so a silent downstream
                 // doesn't hang the upstream forever, and reset it on
@@ -447,27 +477,32 @@ impl ProxyContext {
                         self.timer_c_duration,
                     );
                 }
-            } else if is_final {
+            } else {
                 branch.state = BranchState::Completed;
             }
 
             // Store best response for this branch.
             branch.best_response = Some(response.clone());
-        }
+            was_completed
+        };
 
         // Decrement the outstanding counter once the branches lock is
         // released. Holding two write locks is fine in principle but
         // keeping them strictly serialised keeps the lock graph
         // trivial.
-        if is_final {
+        if is_final && !was_completed {
             let mut count = self.outstanding_count.write().await;
             if *count > 0 {
                 *count -= 1;
             }
         }
 
-        // Handle provisional responses (always forward first 1xx per RFC 3261)
+        // Handle provisional responses: 100 is hop-by-hop, and none is
+        // forwarded once a final response has been (RFC 3261 §16.7 step 5).
         if !is_final {
+            if response.code() == 100 || decided.is_some() {
+                return None;
+            }
             debug!(
                 "Forwarding provisional {} response from branch {}",
                 response.code(),
@@ -476,6 +511,11 @@ impl ProxyContext {
             return Some(response);
         }
 
+        // Only 2xx follow a forwarded final response.
+        if decided.is_some() && !is_two_xx {
+            return None;
+        }
+
         // Handle final responses with response selection. The result
         // is computed inside a small scope so the best_final write
         // guard isn't held across `cancel_other_branches`.
@@ -497,7 +537,8 @@ impl ProxyContext {
         // step. `should_forward` here only controls whether we update
         // the stored best — actual upstream forwarding for non-2xx/
         // non-6xx happens via the "all branches complete" path below.
-        if should_forward && is_two_xx {
+        if is_two_xx {
+            *decided = Some(response.code());
             info!(
                 "Selected {} (2xx) — forwarding immediately and cancelling siblings",
                 response.code(),
@@ -506,6 +547,7 @@ impl ProxyContext {
             return Some(response);
         }
         if should_forward && is_six_xx {
+            *decided = Some(response.code());
             info!(
                 "Selected {} (6xx) — global failure, cancelling siblings",
                 response.code(),
@@ -537,6 +579,7 @@ impl ProxyContext {
                 if best.code() == 401 || best.code() == 407 {
                     self.aggregate_auth_challenges(&mut best).await;
                 }
+                *decided = Some(best.code());
                 info!(
                     "All branches complete - forwarding best response {}",
                     best.code()
@@ -633,20 +676,24 @@ impl ProxyContext {
     ///
     /// The provided CANCEL template should already match the original INVITE's
     /// Call-ID/From/To/CSeq; this will rewrite the Via branch per target branch.
+    /// Each branch is cancelled once: later calls skip it.
     pub async fn build_cancel_requests(&self, cancel_template: &Request) -> Vec<Request> {
-        let branches = self.branches.read().await;
+        let mut branches = self.branches.write().await;
         let mut cancels = Vec::new();
 
-        for (branch_id, branch) in branches.iter() {
-            if matches!(
-                branch.state,
-                BranchState::Cancelled | BranchState::Trying | BranchState::Proceeding
-            ) {
+        for (branch_id, branch) in branches.iter_mut() {
+            if !branch.cancel_built
+                && matches!(
+                    branch.state,
+                    BranchState::Cancelled | BranchState::Trying | BranchState::Proceeding
+                )
+            {
                 match CancelForwarder::prepare_cancel(cancel_template, branch_id.as_str()) {
                     Ok(mut cancel) => {
                         // Ensure Request-URI targets the original branch destination
                         ProxyHelpers::set_request_uri(&mut cancel, branch.target.clone());
                         cancels.push(cancel);
+                        branch.cancel_built = true;
                     }
                     Err(e) => warn!("Failed to prepare CANCEL for branch {}: {}", branch_id, e),
                 }
-- 
2.43.0


From ee2f404da53c5c628c90b75afd25428ce0b44d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:56 +0000
Subject: [PATCH 73/90] fix: removing the top Via removed all Vias that shared
 its line

---
 crates/sip-proxy/src/lib.rs | 62 +++++++++++++++++++++++++------------
 1 file changed, 43 insertions(+), 19 deletions(-)

diff --git a/crates/sip-proxy/src/lib.rs b/crates/sip-proxy/src/lib.rs
index 16fcef0..f1c6c82 100644
--- a/crates/sip-proxy/src/lib.rs
+++ b/crates/sip-proxy/src/lib.rs
@@ -24,6 +24,7 @@ pub mod service;
 pub mod stateful;
 
 use anyhow::{anyhow, Result};
+use sip_core::quoted::{header_param, split_list};
 use sip_core::{
     decrement_max_forwards, Header, Headers, Request, RequestLine, RouteHeader, SipUri, Uri,
 };
@@ -107,6 +108,47 @@ fn extract_via_branch(value: &str) -> Option<&str> {
         .find_map(|p| p.strip_prefix("branch="))
 }
 
+/// Returns the values of a list header such as Via or Route in order. They
+/// may be on lines of their own or joined by commas (RFC 3261 §7.3.1).
+fn list_values<'a>(headers: &'a Headers, name: &'a str) -> impl Iterator<Item = &'a str> {
+    headers
+        .get_all(name)
+        .flat_map(|line| split_list(line).unwrap_or_else(|| vec![line]))
+        .map(str::trim)
+}
+
+/// Removes the first or the last value of a list header.
+fn remove_list_value(headers: &mut Headers, name: &str, last: bool) {
+    let mut named = headers
+        .iter()
+        .enumerate()
+        .filter(|(_, h)| h.name().eq_ignore_ascii_case(name));
+    let line = if last { named.last() } else { named.next() };
+    let Some((index, line)) = line else { return };
+
+    // What remains of the line when other values share it.
+    let value = line.value();
+    let rest = split_list(value)
+        .filter(|values| values.len() > 1)
+        .and_then(|values| {
+            let rest = if last {
+                value.get(..value.len() - values[values.len() - 1].len() - 1)
+            } else {
+                value.get(values[0].len() + 1..)
+            };
+            Header::new(line.name(), rest?.trim()).ok()
+        });
+
+    let mut lines = headers.clone().into_inner();
+    match rest {
+        Some(rest) => lines[index] = rest,
+        None => {
+            lines.remove(index);
+        }
+    }
+    *headers = Headers::from_vec(lines).expect("no longer than before");
+}
+
 impl ProxyHelpers {
     /// Prepends a Via header to the request with a new branch parameter.
     ///
@@ -189,25 +231,7 @@ impl ProxyHelpers {
     /// # Arguments
     /// * `headers` - The response headers to modify
     pub fn remove_top_via(headers: &mut Headers) {
-        // Find and remove the first Via header
-        let mut found_index = None;
-        for (i, header) in headers.iter().enumerate() {
-            if header.name().eq_ignore_ascii_case("Via") {
-                found_index = Some(i);
-                break;
-            }
-        }
-
-        if let Some(index) = found_index {
-            let mut new_headers = Vec::new();
-            for (i, header) in headers.clone().into_iter().enumerate() {
-                if i != index {
-                    new_headers.push(header);
-                }
-            }
-            *headers =
-                Headers::from_vec(new_headers).expect("via header list should be within limits");
-        }
+        remove_list_value(headers, "Via", false);
     }
 
     /// Prepends a Via header whose branch embeds a hash of request
-- 
2.43.0


From ae7144ad353ae289b1111415e0ea296838e029cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:18 +0000
Subject: [PATCH 74/90] fix: loops went undetected behind joined Vias, with a
 port in the proxy's host, and over IPv6

---
 crates/sip-proxy/src/lib.rs | 76 +++++++++++++++++--------------------
 1 file changed, 34 insertions(+), 42 deletions(-)

diff --git a/crates/sip-proxy/src/lib.rs b/crates/sip-proxy/src/lib.rs
index f1c6c82..92fbce4 100644
--- a/crates/sip-proxy/src/lib.rs
+++ b/crates/sip-proxy/src/lib.rs
@@ -96,16 +96,12 @@ fn extract_via_sent_by(value: &str) -> Option<&str> {
 /// Returns true if a Via `sent-by` references `proxy_host`. Matches
 /// `host` or `host:port` case-insensitively.
 fn sent_by_matches_host(sent_by: &str, proxy_host: &str) -> bool {
-    let host = sent_by.split(':').next().unwrap_or(sent_by);
-    host.eq_ignore_ascii_case(proxy_host)
-}
-
-/// Extracts the `branch` parameter from a Via header value, if any.
-fn extract_via_branch(value: &str) -> Option<&str> {
-    value
-        .split(';')
-        .map(str::trim)
-        .find_map(|p| p.strip_prefix("branch="))
+    // The colons of an IPv6 reference are inside its brackets.
+    let host_len = match sent_by.find(']') {
+        Some(end) => end + 1,
+        None => sent_by.find(':').unwrap_or(sent_by.len()),
+    };
+    sent_by.eq_ignore_ascii_case(proxy_host) || sent_by[..host_len].eq_ignore_ascii_case(proxy_host)
 }
 
 /// Returns the values of a list header such as Via or Route in order. They
@@ -117,6 +113,16 @@ fn list_values<'a>(headers: &'a Headers, name: &'a str) -> impl Iterator<Item =
         .map(str::trim)
 }
 
+/// Returns the Via values of a message in order, top first.
+fn via_values(headers: &Headers) -> impl Iterator<Item = &str> {
+    headers
+        .iter()
+        .filter(|h| h.name().eq_ignore_ascii_case("Via") || h.name().eq_ignore_ascii_case("v"))
+        .map(|h| h.value())
+        .flat_map(|line| split_list(line).unwrap_or_else(|| vec![line]))
+        .map(str::trim)
+}
+
 /// Removes the first or the last value of a list header.
 fn remove_list_value(headers: &mut Headers, name: &str, last: bool) {
     let mut named = headers
@@ -269,20 +275,14 @@ impl ProxyHelpers {
     /// proxy's host literal appeared in any Via for any reason.
     pub fn detect_loop_hashed(request: &Request, proxy_host: &str) -> Result<()> {
         let expected_branch = compute_loop_branch(request, proxy_host);
-        for header in request.headers().iter() {
-            if !header.name().eq_ignore_ascii_case("Via")
-                && !header.name().eq_ignore_ascii_case("v")
-            {
-                continue;
-            }
-            let value = header.value();
+        for value in via_values(request.headers()) {
             let Some(sent_by) = extract_via_sent_by(value) else {
                 continue;
             };
             if !sent_by_matches_host(sent_by, proxy_host) {
                 continue;
             }
-            if let Some(branch) = extract_via_branch(value) {
+            if let Some(branch) = header_param(value, "branch") {
                 if branch == expected_branch {
                     return Err(anyhow!(
                         "Via sent-by={} branch={} matches our hash — routing loop detected (482)",
@@ -313,31 +313,23 @@ impl ProxyHelpers {
     /// * `Ok(())` - No loop detected
     /// * `Err(_)` - Loop detected (respond with 482 Loop Detected)
     pub fn detect_loop(request: &Request, proxy_host: &str) -> Result<()> {
-        let mut via_count = 0;
-        for header in request.headers().iter() {
-            if header.name().eq_ignore_ascii_case("Via") || header.name().eq_ignore_ascii_case("v")
+        for (index, value) in via_values(request.headers()).enumerate() {
+            let via_count = index + 1;
+            if via_count > MAX_VIA_HOPS {
+                return Err(anyhow!(
+                    "Via hop count {} exceeds maximum {} - possible routing loop",
+                    via_count,
+                    MAX_VIA_HOPS
+                ));
+            }
+            // Check if this Via contains our own host
+            if extract_via_sent_by(value)
+                .is_some_and(|sent_by| sent_by_matches_host(sent_by, proxy_host))
             {
-                via_count += 1;
-                if via_count > MAX_VIA_HOPS {
-                    return Err(anyhow!(
-                        "Via hop count {} exceeds maximum {} - possible routing loop",
-                        via_count,
-                        MAX_VIA_HOPS
-                    ));
-                }
-                // Check if this Via contains our own host
-                let value = header.value();
-                // Via format: SIP/2.0/TRANSPORT host[:port];params
-                if let Some(host_part) = value.split_whitespace().nth(1) {
-                    let host = host_part.split(';').next().unwrap_or(host_part);
-                    let host = host.split(':').next().unwrap_or(host);
-                    if host.eq_ignore_ascii_case(proxy_host) {
-                        return Err(anyhow!(
-                            "Via header contains proxy host {} - routing loop detected (482)",
-                            proxy_host
-                        ));
-                    }
-                }
+                return Err(anyhow!(
+                    "Via header contains proxy host {} - routing loop detected (482)",
+                    proxy_host
+                ));
             }
         }
         Ok(())
-- 
2.43.0


From 5b99dc626bfc1b21b38da23f707f0630d3edc578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:22 +0000
Subject: [PATCH 75/90] fix: a request whose route set visits the proxy twice
 was refused as a loop

---
 crates/sip-proxy/src/lib.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/sip-proxy/src/lib.rs b/crates/sip-proxy/src/lib.rs
index 92fbce4..1880056 100644
--- a/crates/sip-proxy/src/lib.rs
+++ b/crates/sip-proxy/src/lib.rs
@@ -49,7 +49,7 @@ const BRANCH_MAGIC: &str = "z9hG4bK";
 
 /// Computes the loop-detection branch for a request per RFC 3261 §16.6
 /// step 8. SHA-256 over `(To, From, Call-ID, CSeq-number, Request-URI,
-/// proxy-sent-by)`, truncated to 16 bytes (32 hex chars) for compactness,
+/// Route, proxy-sent-by)`, truncated to 16 bytes (32 hex chars) for compactness,
 /// prefixed with the magic cookie. Fields that are missing from the
 /// incoming message contribute the empty string — still deterministic
 /// for a given tuple so the same request hashes identically on re-entry.
@@ -82,6 +82,12 @@ fn compute_loop_branch(request: &Request, proxy_host: &str) -> String {
     hasher.update(b"\x1f");
     hasher.update(request_uri.as_bytes());
     hasher.update(b"\x1f");
+    // The Route decides the way on as well: a request whose route set leads
+    // through this proxy twice is a spiral (RFC 5393 §4.2.1).
+    for route in list_values(headers, "Route") {
+        hasher.update(route.as_bytes());
+        hasher.update(b"\x1f");
+    }
     hasher.update(proxy_host.as_bytes());
     let digest = hasher.finalize();
     format!("{}{}", BRANCH_MAGIC, hex::encode(&digest[..16]))
-- 
2.43.0


From fe22fbc43267737f531b0084408a6411b67fb794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:07 +0000
Subject: [PATCH 76/90] fix: the proxy put its Record-Route below those of the
 proxies before it

---
 crates/sip-proxy/src/lib.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/crates/sip-proxy/src/lib.rs b/crates/sip-proxy/src/lib.rs
index 1880056..9873f75 100644
--- a/crates/sip-proxy/src/lib.rs
+++ b/crates/sip-proxy/src/lib.rs
@@ -211,10 +211,18 @@ impl ProxyHelpers {
         } else {
             format!("<{};lr>", proxy_uri.as_str())
         };
-        request
-            .headers_mut()
-            .push("Record-Route", rr_value)
-            .unwrap();
+        // Before the Record-Routes of the proxies the request came through
+        // (RFC 3261 §16.6 step 4): together they are read top to bottom.
+        let record_route =
+            Header::new("Record-Route", rr_value).expect("record-route header should be valid");
+        let mut lines = request.headers().clone().into_inner();
+        let index = lines
+            .iter()
+            .position(|h| h.name().eq_ignore_ascii_case("Record-Route"))
+            .unwrap_or(lines.len());
+        lines.insert(index, record_route);
+        *request.headers_mut() =
+            Headers::from_vec(lines).expect("record-route list should be within limits");
     }
 
     /// Decrements Max-Forwards header and checks for loop.
-- 
2.43.0


From 25e38d939467219929e2b45be0f18094cd89de03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:25 +0000
Subject: [PATCH 77/90] fix: the proxy refused requests whose Vias share a
 line, and CANCELs with Tag= or a quoted tag=

---
 crates/sip-proxy/src/cancel_ack.rs |  9 ++++-----
 crates/sip-proxy/src/service.rs    | 19 ++++++++-----------
 2 files changed, 12 insertions(+), 16 deletions(-)

diff --git a/crates/sip-proxy/src/cancel_ack.rs b/crates/sip-proxy/src/cancel_ack.rs
index 035b616..cd2ca87 100644
--- a/crates/sip-proxy/src/cancel_ack.rs
+++ b/crates/sip-proxy/src/cancel_ack.rs
@@ -8,7 +8,9 @@
 //! different processing than regular request forwarding.
 
 use anyhow::{anyhow, Result};
+use sip_core::quoted::header_param;
 use sip_core::{Request, SipUri};
+use smol_str::SmolStr;
 use tracing::debug;
 
 /// CANCEL forwarding per RFC 3261 §16.10
@@ -177,11 +179,8 @@ impl CancelForwarder {
 /// Extracts the `tag` parameter from a From / To header value.
 /// Returns the tag verbatim (no quoting/escaping rules apply, per
 /// RFC 3261 §19.3) or `None` if absent.
-fn extract_tag(header_value: &str) -> Option<&str> {
-    header_value
-        .split(';')
-        .map(str::trim)
-        .find_map(|p| p.strip_prefix("tag="))
+fn extract_tag(header_value: &str) -> Option<SmolStr> {
+    header_param(header_value, "tag")
 }
 
 /// ACK forwarding per RFC 3261 §16.11
diff --git a/crates/sip-proxy/src/service.rs b/crates/sip-proxy/src/service.rs
index b4681ad..2ab1593 100644
--- a/crates/sip-proxy/src/service.rs
+++ b/crates/sip-proxy/src/service.rs
@@ -9,6 +9,7 @@ use crate::{
     ProxyHelpers,
 };
 use anyhow::{anyhow, Result};
+use sip_core::quoted::{header_param, split_list};
 use sip_core::{is_valid_branch, Method, Request, RequestLine, SipUri};
 use smol_str::SmolStr;
 use std::sync::Arc;
@@ -246,18 +247,14 @@ fn extract_top_via_branch(request: &Request) -> Result<SmolStr> {
         .find(|h| h.name().eq_ignore_ascii_case("Via"))
         .ok_or_else(|| anyhow!("Missing Via header"))?;
 
-    for part in via.value().split(';') {
-        let trimmed = part.trim();
-        if let Some(branch) = trimmed
-            .get(..7)
-            .filter(|name| name.eq_ignore_ascii_case("branch="))
-            .and_then(|_| trimmed.get(7..))
-        {
-            if is_valid_branch(branch) {
-                return Ok(SmolStr::new(branch));
-            }
-            return Err(anyhow!("Invalid Via branch parameter"));
+    let top = split_list(via.value())
+        .and_then(|vias| vias.first().copied())
+        .unwrap_or_default();
+    if let Some(branch) = header_param(top, "branch") {
+        if is_valid_branch(&branch) {
+            return Ok(branch);
         }
+        return Err(anyhow!("Invalid Via branch parameter"));
     }
 
     Err(anyhow!("Via header missing branch parameter"))
-- 
2.43.0


From 7211d3c519f64bd9a37adab18e91b67187d891f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:29 +0000
Subject: [PATCH 78/90] fix: Route values with a display name, parameters or a
 shared line were not understood

---
 crates/sip-proxy/src/cancel_ack.rs | 58 +++++++++++-------------------
 1 file changed, 21 insertions(+), 37 deletions(-)

diff --git a/crates/sip-proxy/src/cancel_ack.rs b/crates/sip-proxy/src/cancel_ack.rs
index cd2ca87..91e3595 100644
--- a/crates/sip-proxy/src/cancel_ack.rs
+++ b/crates/sip-proxy/src/cancel_ack.rs
@@ -7,9 +7,10 @@
 //! Handles special cases for CANCEL and ACK forwarding which require
 //! different processing than regular request forwarding.
 
+use crate::{list_values, remove_list_value};
 use anyhow::{anyhow, Result};
 use sip_core::quoted::header_param;
-use sip_core::{Request, SipUri};
+use sip_core::{Request, RouteHeader, SipUri};
 use smol_str::SmolStr;
 use tracing::debug;
 
@@ -288,6 +289,11 @@ pub enum AckType {
     Non2xx,
 }
 
+/// The URI of a Route header value, if it is a SIP URI.
+fn route_uri(value: &str) -> Option<SipUri> {
+    RouteHeader::parse(value).ok()?.uri().as_sip().cloned()
+}
+
 /// Route header processing per RFC 3261 §16.4 and §16.6
 pub struct RouteProcessor;
 
@@ -318,39 +324,19 @@ impl RouteProcessor {
             debug!("Request-URI matches our Record-Route - processing Route headers");
 
             // Get the last Route header value
-            let route_values: Vec<_> = request
-                .headers()
-                .iter()
-                .filter(|h| h.name().eq_ignore_ascii_case("Route"))
-                .map(|h| h.value_smol().clone())
-                .collect();
-
-            if let Some(last_route) = route_values.last() {
-                // Extract URI from Route header (remove angle brackets)
-                let route_uri_str = last_route.as_str().trim_matches(|c| c == '<' || c == '>');
-
-                if let Ok(route_uri) = SipUri::parse(route_uri_str) {
-                    debug!("Moving Route header to Request-URI: {}", route_uri.as_str());
-
-                    // Update Request-URI
-                    crate::ProxyHelpers::set_request_uri(request, route_uri.clone());
-
-                    // Remove the last Route header
-                    let mut filtered = Vec::new();
-                    let mut removed = false;
-                    for header in request.headers().clone().into_iter().rev() {
-                        if header.name().eq_ignore_ascii_case("Route") && !removed {
-                            removed = true;
-                            continue;
-                        }
-                        filtered.push(header);
-                    }
-                    filtered.reverse();
-                    *request.headers_mut() = sip_core::Headers::from_vec(filtered)
-                        .expect("route header list should be within limits");
+            if let Some(route_uri) = list_values(request.headers(), "Route")
+                .last()
+                .and_then(route_uri)
+            {
+                debug!("Moving Route header to Request-URI: {}", route_uri.as_str());
 
-                    return Ok(Some(route_uri));
-                }
+                // Update Request-URI
+                crate::ProxyHelpers::set_request_uri(request, route_uri.clone());
+
+                // Remove the last Route header
+                remove_list_value(request.headers_mut(), "Route", true);
+
+                return Ok(Some(route_uri));
             }
         }
 
@@ -362,10 +348,8 @@ impl RouteProcessor {
     /// Returns the destination to forward the request to
     pub fn get_next_hop(request: &Request) -> Result<SipUri> {
         // Check for Route headers
-        if let Some(route) = request.headers().get("Route") {
-            // Extract URI from Route header
-            let uri_str = route.trim_matches(|c| c == '<' || c == '>');
-            SipUri::parse(uri_str).map_err(|_| anyhow!("Invalid Route header URI"))
+        if let Some(route) = list_values(request.headers(), "Route").next() {
+            route_uri(route).ok_or_else(|| anyhow!("Invalid Route header URI"))
         } else {
             // Use Request-URI
             request
-- 
2.43.0


From df084f778c588443c29990559f85727353ed3736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:46 +0000
Subject: [PATCH 79/90] fix: an ACK through a loose router lost its Request-URI
 and Route

---
 crates/sip-proxy/src/cancel_ack.rs | 31 +++++++++++-------------------
 1 file changed, 11 insertions(+), 20 deletions(-)

diff --git a/crates/sip-proxy/src/cancel_ack.rs b/crates/sip-proxy/src/cancel_ack.rs
index 91e3595..68152f9 100644
--- a/crates/sip-proxy/src/cancel_ack.rs
+++ b/crates/sip-proxy/src/cancel_ack.rs
@@ -232,28 +232,19 @@ impl AckForwarder {
         // Clone the ACK
         let mut ack = original_ack.clone();
 
-        // For 2xx ACK, use the first Route (if present) as Request-URI per loose routing
+        // For 2xx ACK, a first Route without ;lr is a strict router, which
+        // takes its URI as the Request-URI. Loose routers leave it alone: it
+        // is the dialog's remote target (RFC 3261 §16.6 step 6).
         if matches!(ack_type, AckType::For2xx) {
-            let mut new_headers = Vec::new();
-            let mut used_route = false;
-
-            for header in ack.headers().clone().into_iter() {
-                if header.name().eq_ignore_ascii_case("Route") && !used_route {
-                    let uri_str = header.value().trim_matches(|c| c == '<' || c == '>');
-
-                    if let Ok(uri) = SipUri::parse(uri_str) {
-                        crate::ProxyHelpers::set_request_uri(&mut ack, uri);
-                        used_route = true;
-                        // Skip the consumed Route header
-                        continue;
-                    }
-                }
-
-                new_headers.push(header);
+            let strict = list_values(ack.headers(), "Route")
+                .next()
+                .and_then(|value| RouteHeader::parse(value).ok())
+                .filter(|route| !route.has_lr())
+                .and_then(|route| route.uri().as_sip().cloned());
+            if let Some(uri) = strict {
+                crate::ProxyHelpers::set_request_uri(&mut ack, uri);
+                remove_list_value(ack.headers_mut(), "Route", false);
             }
-
-            *ack.headers_mut() = sip_core::Headers::from_vec(new_headers)
-                .expect("validated headers should remain within limits");
         }
 
         // For non-2xx ACK, keep Request-URI/Via intact for hop-by-hop forwarding
-- 
2.43.0


From 8faadf33cbaad7f327a0025e24b91f0142d09717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:00 +0000
Subject: [PATCH 80/90] fix: forwarding a request with as many headers as there
 may be panicked

---
 crates/sip-proxy/src/stateful.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/sip-proxy/src/stateful.rs b/crates/sip-proxy/src/stateful.rs
index 8117db2..54a0c56 100644
--- a/crates/sip-proxy/src/stateful.rs
+++ b/crates/sip-proxy/src/stateful.rs
@@ -28,7 +28,7 @@
 
 use crate::cancel_ack::{AckForwarder, CancelForwarder};
 use crate::ProxyHelpers;
-use anyhow::Result;
+use anyhow::{anyhow, Result};
 use dashmap::DashMap;
 use sip_core::{Request, Response, SipUri};
 use smol_str::SmolStr;
@@ -1088,6 +1088,14 @@ pub mod forwarding {
         // Decrement Max-Forwards
         ProxyHelpers::check_max_forwards(&mut forwarded)?;
 
+        // The copy has no room for our Via and Record-Route if the request
+        // came with as many headers as there may be.
+        let mut room = forwarded.headers().clone();
+        for _ in 0..1 + usize::from(add_record_route && proxy_uri.is_some()) {
+            room.push("Via", "room")
+                .map_err(|e| anyhow!("request has too many headers to forward: {e}"))?;
+        }
+
         // Add Via header with new branch
         let branch_id = ProxyHelpers::add_via(&mut forwarded, proxy_host, transport);
 
-- 
2.43.0


From e719c9fcde14e3250e5b057ad58a4045d51ea910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:15 +0000
Subject: [PATCH 81/90] fix: a continuation line of another header could set
 the Content-Length of a stream message

---
 crates/sip-transport/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/sip-transport/src/lib.rs b/crates/sip-transport/src/lib.rs
index 238a940..e68903b 100644
--- a/crates/sip-transport/src/lib.rs
+++ b/crates/sip-transport/src/lib.rs
@@ -1989,6 +1989,11 @@ fn parse_content_length(headers: &[u8]) -> Result<Option<usize>> {
         } else {
             line
         };
+        // A line that begins with whitespace continues the header above it
+        // (RFC 3261 §7.3.1) and has no name of its own.
+        if line.starts_with(b" ") || line.starts_with(b"\t") {
+            continue;
+        }
         let Some(colon) = memchr::memchr(b':', line) else {
             continue;
         };
-- 
2.43.0


From 323aa905b8b649dec9a31007dd19304a727c2610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:25 +0000
Subject: [PATCH 82/90] fix: messages ahead of a malformed one in the same read
 were dropped, and a header at the size limit refused when split

---
 crates/sip-transport/src/lib.rs  | 323 ++++++++++++++++---------------
 crates/sip-transport/src/pool.rs | 140 +++++++-------
 2 files changed, 236 insertions(+), 227 deletions(-)

diff --git a/crates/sip-transport/src/lib.rs b/crates/sip-transport/src/lib.rs
index e68903b..c36c9c7 100644
--- a/crates/sip-transport/src/lib.rs
+++ b/crates/sip-transport/src/lib.rs
@@ -1595,57 +1595,54 @@ async fn spawn_tls_session(
                 transport_metrics().on_packet_received(TransportLabel::Tls);
 
                 // Try to extract complete SIP messages
-                match drain_sip_frames(&mut buf) {
-                    Ok(frames) => {
-                        // First complete message ⇒ a real SIP speaker; switch
-                        // off the Slowloris window to the established timeout.
-                        if !frames.is_empty() {
-                            established = true;
-                        }
-                        for payload in frames {
-                            // Per-IP frame rate limit shared with the
-                            // plain-TCP and WS paths.
-                            if !check_stream_rate(peer, TransportLabel::Tls) {
-                                continue;
-                            }
-                            // HEP3 inbound capture. Skipped when no
-                            // emitter is installed.
-                            if let Some(emitter) = sip_hep::sip_hep() {
-                                let corr = sip_hep::extract_call_id(&payload);
-                                emitter.emit_sip(
-                                    sip_hep::Direction::Inbound,
-                                    sip_hep::IpProto::Tcp,
-                                    peer,
-                                    local,
-                                    &payload,
-                                    corr,
-                                );
-                            }
-                            let packet = InboundPacket {
-                                transport: TransportKind::Tls,
-                                peer,
-                                payload,
-                                stream: Some(writer_tx.clone()),
-                                local: Some(local),
-                            };
-                            if tx.send(packet).await.is_err() {
-                                error!("receiver dropped; shutting down tls session");
-                                transport_metrics()
-                                    .on_error(TransportLabel::Tls, StageLabel::Dispatch);
-                                break;
-                            }
-                        }
+                let (frames, framing) = take_sip_frames(&mut buf);
+                // First complete message ⇒ a real SIP speaker; switch
+                // off the Slowloris window to the established timeout.
+                if !frames.is_empty() {
+                    established = true;
+                }
+                for payload in frames {
+                    // Per-IP frame rate limit shared with the
+                    // plain-TCP and WS paths.
+                    if !check_stream_rate(peer, TransportLabel::Tls) {
+                        continue;
                     }
-                    Err(e) => {
-                        warn!(
-                            peer = %peer,
-                            error = %e,
-                            "SIP framing error, closing tls connection"
+                    // HEP3 inbound capture. Skipped when no
+                    // emitter is installed.
+                    if let Some(emitter) = sip_hep::sip_hep() {
+                        let corr = sip_hep::extract_call_id(&payload);
+                        emitter.emit_sip(
+                            sip_hep::Direction::Inbound,
+                            sip_hep::IpProto::Tcp,
+                            peer,
+                            local,
+                            &payload,
+                            corr,
                         );
-                        transport_metrics().on_error(TransportLabel::Tls, StageLabel::FramingError);
+                    }
+                    let packet = InboundPacket {
+                        transport: TransportKind::Tls,
+                        peer,
+                        payload,
+                        stream: Some(writer_tx.clone()),
+                        local: Some(local),
+                    };
+                    if tx.send(packet).await.is_err() {
+                        error!("receiver dropped; shutting down tls session");
+                        transport_metrics()
+                            .on_error(TransportLabel::Tls, StageLabel::Dispatch);
                         break;
                     }
                 }
+                if let Err(e) = framing {
+                    warn!(
+                        peer = %peer,
+                        error = %e,
+                        "SIP framing error, closing tls connection"
+                    );
+                    transport_metrics().on_error(TransportLabel::Tls, StageLabel::FramingError);
+                    break;
+                }
             }
             Ok(Err(e)) => {
                 // Most SIP peers (Twilio, anything behind an AWS NLB) drop an
@@ -1804,61 +1801,58 @@ async fn spawn_stream_session<S>(
                 transport_metrics().on_packet_received(transport.into());
 
                 // Try to extract complete SIP messages
-                match drain_sip_frames(&mut buf) {
-                    Ok(frames) => {
-                        // First complete message ⇒ a real SIP speaker; switch
-                        // off the Slowloris window to the established timeout.
-                        if !frames.is_empty() {
-                            established = true;
-                        }
-                        for payload in frames {
-                            // Per-IP frame rate limit shared across all
-                            // stream sessions: a peer can hold up to 64
-                            // concurrent connections, so without this
-                            // they could pump arbitrary frames-per-second
-                            // and exhaust CPU at the parser/dispatcher.
-                            if !check_stream_rate(peer, transport.into()) {
-                                continue;
-                            }
-                            // HEP3 inbound capture per framed SIP
-                            // message. Skipped when no emitter is
-                            // installed.
-                            if let Some(emitter) = sip_hep::sip_hep() {
-                                let corr = sip_hep::extract_call_id(&payload);
-                                emitter.emit_sip(
-                                    sip_hep::Direction::Inbound,
-                                    hep_ip,
-                                    peer,
-                                    local,
-                                    &payload,
-                                    corr,
-                                );
-                            }
-                            let packet = InboundPacket {
-                                transport,
-                                peer,
-                                payload,
-                                stream: Some(writer_tx.clone()),
-                                local: Some(local),
-                            };
-                            if tx.send(packet).await.is_err() {
-                                error!("receiver dropped; shutting down {:?} session", transport);
-                                transport_metrics()
-                                    .on_error(transport.into(), StageLabel::Dispatch);
-                                break;
-                            }
-                        }
+                let (frames, framing) = take_sip_frames(&mut buf);
+                // First complete message ⇒ a real SIP speaker; switch
+                // off the Slowloris window to the established timeout.
+                if !frames.is_empty() {
+                    established = true;
+                }
+                for payload in frames {
+                    // Per-IP frame rate limit shared across all
+                    // stream sessions: a peer can hold up to 64
+                    // concurrent connections, so without this
+                    // they could pump arbitrary frames-per-second
+                    // and exhaust CPU at the parser/dispatcher.
+                    if !check_stream_rate(peer, transport.into()) {
+                        continue;
                     }
-                    Err(e) => {
-                        warn!(
-                            peer = %peer,
-                            error = %e,
-                            "SIP framing error, closing connection"
+                    // HEP3 inbound capture per framed SIP
+                    // message. Skipped when no emitter is
+                    // installed.
+                    if let Some(emitter) = sip_hep::sip_hep() {
+                        let corr = sip_hep::extract_call_id(&payload);
+                        emitter.emit_sip(
+                            sip_hep::Direction::Inbound,
+                            hep_ip,
+                            peer,
+                            local,
+                            &payload,
+                            corr,
                         );
-                        transport_metrics().on_error(transport.into(), StageLabel::FramingError);
+                    }
+                    let packet = InboundPacket {
+                        transport,
+                        peer,
+                        payload,
+                        stream: Some(writer_tx.clone()),
+                        local: Some(local),
+                    };
+                    if tx.send(packet).await.is_err() {
+                        error!("receiver dropped; shutting down {:?} session", transport);
+                        transport_metrics()
+                            .on_error(transport.into(), StageLabel::Dispatch);
                         break;
                     }
                 }
+                if let Err(e) = framing {
+                    warn!(
+                        peer = %peer,
+                        error = %e,
+                        "SIP framing error, closing connection"
+                    );
+                    transport_metrics().on_error(transport.into(), StageLabel::FramingError);
+                    break;
+                }
             }
             Ok(Err(e)) => {
                 error!(%e, "{}", read_label);
@@ -1885,82 +1879,101 @@ async fn spawn_stream_session<S>(
 
 /// Splits buffered TCP/TLS data into complete SIP messages using Content-Length or CRLFCRLF.
 ///
+/// Returns the messages completed so far together with the outcome: framing
+/// is lost at the first malformed message, but those ahead of it are whole
+/// and are handed over just as if they had arrived in a read of their own.
+///
 /// # Security
 ///
 /// Enforces MAX_HEADER_SIZE and MAX_BODY_SIZE limits to prevent memory exhaustion attacks.
-/// Returns an error if limits are exceeded, causing the connection to be closed.
-pub(crate) fn drain_sip_frames(buf: &mut BytesMut) -> Result<Vec<Bytes>> {
+/// The outcome is an error if limits are exceeded, causing the connection to be closed.
+pub(crate) fn take_sip_frames(buf: &mut BytesMut) -> (Vec<Bytes>, Result<()>) {
     let mut frames = Vec::new();
-    loop {
-        // Handle CRLF keep-alive pings (RFC 5626)
-        consume_leading_crlf(buf);
-        if buf.is_empty() {
-            break;
+    let outcome = loop {
+        match next_sip_frame(buf) {
+            Ok(Some(frame)) => frames.push(frame),
+            Ok(None) => break Ok(()),
+            Err(e) => break Err(e),
         }
+    };
+    (frames, outcome)
+}
 
-        // Look for end of headers (\r\n\r\n)
-        let head_end = match memchr::memmem::find(buf.as_ref(), b"\r\n\r\n") {
-            Some(pos) => pos,
-            None => {
-                // No complete headers yet - check if buffer is growing too large
-                if buf.len() > MAX_HEADER_SIZE {
-                    return Err(anyhow!(
-                        "SIP headers exceed MAX_HEADER_SIZE ({} bytes), possible attack",
-                        MAX_HEADER_SIZE
-                    ));
-                }
-                break;
-            }
-        };
-
-        // Check header size limit
-        if head_end > MAX_HEADER_SIZE {
-            return Err(anyhow!(
-                "SIP headers are {} bytes, exceeds MAX_HEADER_SIZE ({} bytes)",
-                head_end,
-                MAX_HEADER_SIZE
-            ));
-        }
+#[cfg(test)]
+pub(crate) fn drain_sip_frames(buf: &mut BytesMut) -> Result<Vec<Bytes>> {
+    let (frames, outcome) = take_sip_frames(buf);
+    outcome.map(|()| frames)
+}
 
-        let header_bytes = &buf[..head_end];
-        let content_length = parse_content_length(header_bytes)?;
+fn next_sip_frame(buf: &mut BytesMut) -> Result<Option<Bytes>> {
+    // Handle CRLF keep-alive pings (RFC 5626)
+    consume_leading_crlf(buf);
+    if buf.is_empty() {
+        return Ok(None);
+    }
 
-        // Check body size limit
-        if let Some(cl) = content_length {
-            if cl > MAX_BODY_SIZE {
+    // Look for end of headers (\r\n\r\n)
+    let head_end = match memchr::memmem::find(buf.as_ref(), b"\r\n\r\n") {
+        Some(pos) => pos,
+        None => {
+            // No complete headers yet - check if buffer is growing too large
+            // (up to three bytes of the terminator may have arrived).
+            if buf.len() > MAX_HEADER_SIZE + 3 {
                 return Err(anyhow!(
-                    "Content-Length {} exceeds MAX_BODY_SIZE ({} bytes)",
-                    cl,
-                    MAX_BODY_SIZE
+                    "SIP headers exceed MAX_HEADER_SIZE ({} bytes), possible attack",
+                    MAX_HEADER_SIZE
                 ));
             }
+            return Ok(None);
         }
+    };
 
-        // RFC 3261 §18.3: Content-Length is mandatory for stream transports.
-        // Treating a missing Content-Length as zero is a request-smuggling
-        // primitive: an attacker can send a body that downstream parsers see
-        // but we ignore (or vice-versa). Hard reject so the connection is
-        // torn down by the caller.
-        let body_length = match content_length {
-            Some(cl) => cl,
-            None => {
-                return Err(anyhow!(
-                    "SIP message on stream transport missing Content-Length \
-                     header (RFC 3261 §18.3 requires it on TCP/TLS); \
-                     rejecting to avoid request smuggling"
-                ));
-            }
-        };
+    // Check header size limit
+    if head_end > MAX_HEADER_SIZE {
+        return Err(anyhow!(
+            "SIP headers are {} bytes, exceeds MAX_HEADER_SIZE ({} bytes)",
+            head_end,
+            MAX_HEADER_SIZE
+        ));
+    }
 
-        let needed = head_end + 4 + body_length;
-        if buf.len() < needed {
-            // Don't have complete message yet
-            break;
+    let header_bytes = &buf[..head_end];
+    let content_length = parse_content_length(header_bytes)?;
+
+    // Check body size limit
+    if let Some(cl) = content_length {
+        if cl > MAX_BODY_SIZE {
+            return Err(anyhow!(
+                "Content-Length {} exceeds MAX_BODY_SIZE ({} bytes)",
+                cl,
+                MAX_BODY_SIZE
+            ));
+        }
+    }
+
+    // RFC 3261 §18.3: Content-Length is mandatory for stream transports.
+    // Treating a missing Content-Length as zero is a request-smuggling
+    // primitive: an attacker can send a body that downstream parsers see
+    // but we ignore (or vice-versa). Hard reject so the connection is
+    // torn down by the caller.
+    let body_length = match content_length {
+        Some(cl) => cl,
+        None => {
+            return Err(anyhow!(
+                "SIP message on stream transport missing Content-Length \
+                 header (RFC 3261 §18.3 requires it on TCP/TLS); \
+                 rejecting to avoid request smuggling"
+            ));
         }
+    };
 
-        frames.push(buf.split_to(needed).freeze());
+    let needed = head_end + 4 + body_length;
+    if buf.len() < needed {
+        // Don't have complete message yet
+        return Ok(None);
     }
-    Ok(frames)
+
+    Ok(Some(buf.split_to(needed).freeze()))
 }
 
 fn consume_leading_crlf(buf: &mut BytesMut) {
diff --git a/crates/sip-transport/src/pool.rs b/crates/sip-transport/src/pool.rs
index ccc9ab2..1ae1328 100644
--- a/crates/sip-transport/src/pool.rs
+++ b/crates/sip-transport/src/pool.rs
@@ -56,7 +56,7 @@ pub enum ConnectionEvent {
 /// events are still delivered to subscribers that keep up.
 const CONNECTION_EVENT_CHANNEL_CAPACITY: usize = 256;
 
-use crate::{drain_sip_frames, InboundPacket, TransportKind, MAX_BUFFER_SIZE};
+use crate::{take_sip_frames, InboundPacket, TransportKind, MAX_BUFFER_SIZE};
 
 /// Maximum number of pooled TCP connections (prevents file descriptor exhaustion).
 const MAX_POOL_SIZE: usize = 1000;
@@ -610,56 +610,53 @@ impl ConnectionPool {
                         }
                         Ok(n) => {
                             debug!(peer = %peer, bytes = n, "TCP client read {} bytes", n);
-                            match drain_sip_frames(&mut buf) {
-                                Ok(frames) => {
-                                    debug!(peer = %peer, frame_count = frames.len(), "TCP client drained {} SIP frames", frames.len());
-                                    for payload in frames {
-                                        // Extract first line for logging
-                                        let first_line = payload
-                                            .split(|&b| b == b'\r' || b == b'\n')
-                                            .next()
-                                            .and_then(|line| std::str::from_utf8(line).ok())
-                                            .unwrap_or("<invalid>");
-                                        debug!(peer = %peer, first_line = %first_line, "TCP client sending frame to inbound_tx");
-
-                                        // Inbound half of the pooled
-                                        // connection: the responses (and
-                                        // any in-dialog requests) the peer
-                                        // sends back. Emitted here for the
-                                        // same reason as the writer's
-                                        // outbound half (#341).
-                                        emit_pool_hep(
-                                            sip_hep::Direction::Inbound,
-                                            hep_local,
-                                            peer,
-                                            &payload,
-                                        );
-
-                                        let packet = InboundPacket {
-                                            transport: TransportKind::Tcp,
-                                            peer,
-                                            payload,
-                                            stream: Some(writer_tx.clone()),
-                                            // Arrived on a pooled outbound connection
-                                            // (RFC 5923 reuse), not a listener — no
-                                            // listener port to advertise.
-                                            local: None,
-                                        };
-                                        if inbound_tx.send(packet).await.is_err() {
-                                            warn!(peer = %peer, "TCP client inbound_tx channel closed");
-                                            break;
-                                        }
-                                    }
-                                }
-                                Err(e) => {
-                                    warn!(
-                                        peer = %peer,
-                                        error = %e,
-                                        "tcp client framing error, closing connection"
-                                    );
+                            let (frames, framing) = take_sip_frames(&mut buf);
+                            debug!(peer = %peer, frame_count = frames.len(), "TCP client drained {} SIP frames", frames.len());
+                            for payload in frames {
+                                // Extract first line for logging
+                                let first_line = payload
+                                    .split(|&b| b == b'\r' || b == b'\n')
+                                    .next()
+                                    .and_then(|line| std::str::from_utf8(line).ok())
+                                    .unwrap_or("<invalid>");
+                                debug!(peer = %peer, first_line = %first_line, "TCP client sending frame to inbound_tx");
+
+                                // Inbound half of the pooled
+                                // connection: the responses (and
+                                // any in-dialog requests) the peer
+                                // sends back. Emitted here for the
+                                // same reason as the writer's
+                                // outbound half (#341).
+                                emit_pool_hep(
+                                    sip_hep::Direction::Inbound,
+                                    hep_local,
+                                    peer,
+                                    &payload,
+                                );
+
+                                let packet = InboundPacket {
+                                    transport: TransportKind::Tcp,
+                                    peer,
+                                    payload,
+                                    stream: Some(writer_tx.clone()),
+                                    // Arrived on a pooled outbound connection
+                                    // (RFC 5923 reuse), not a listener — no
+                                    // listener port to advertise.
+                                    local: None,
+                                };
+                                if inbound_tx.send(packet).await.is_err() {
+                                    warn!(peer = %peer, "TCP client inbound_tx channel closed");
                                     break;
                                 }
                             }
+                            if let Err(e) = framing {
+                                warn!(
+                                    peer = %peer,
+                                    error = %e,
+                                    "tcp client framing error, closing connection"
+                                );
+                                break;
+                            }
                         }
                         Err(e) => {
                             warn!(
@@ -1215,31 +1212,30 @@ impl TlsPool {
                     }
                     match reader.read_buf(&mut buf).await {
                         Ok(0) => break,
-                        Ok(_) => match drain_sip_frames(&mut buf) {
-                            Ok(frames) => {
-                                for payload in frames {
-                                    // Inbound half of the pooled TLS
-                                    // connection (#341).
-                                    emit_pool_hep(
-                                        sip_hep::Direction::Inbound,
-                                        hep_local,
-                                        peer,
-                                        &payload,
-                                    );
-                                    let packet = InboundPacket {
-                                        transport: TransportKind::Tls,
-                                        peer,
-                                        payload,
-                                        stream: Some(writer_tx.clone()),
-                                        local: None,
-                                    };
-                                    if inbound_tx.send(packet).await.is_err() {
-                                        warn!(peer = %peer, "tls client inbound_tx channel closed");
-                                        return;
-                                    }
+                        Ok(_) => {
+                            let (frames, framing) = take_sip_frames(&mut buf);
+                            for payload in frames {
+                                // Inbound half of the pooled TLS
+                                // connection (#341).
+                                emit_pool_hep(
+                                    sip_hep::Direction::Inbound,
+                                    hep_local,
+                                    peer,
+                                    &payload,
+                                );
+                                let packet = InboundPacket {
+                                    transport: TransportKind::Tls,
+                                    peer,
+                                    payload,
+                                    stream: Some(writer_tx.clone()),
+                                    local: None,
+                                };
+                                if inbound_tx.send(packet).await.is_err() {
+                                    warn!(peer = %peer, "tls client inbound_tx channel closed");
+                                    return;
                                 }
                             }
-                            Err(e) => {
+                            if let Err(e) = framing {
                                 warn!(
                                     peer = %peer,
                                     error = %e,
@@ -1247,7 +1243,7 @@ impl TlsPool {
                                 );
                                 break;
                             }
-                        },
+                        }
                         Err(e) => {
                             warn!(
                                 peer = %peer,
-- 
2.43.0


From cf74215f3120cbc26d3ad67d3f88047bb37f9565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:16 +0000
Subject: [PATCH 83/90] fix: keepalives kept a dead stream session open for
 ever, and so did a first message trickling in

---
 crates/sip-transport/src/lib.rs | 34 +++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/crates/sip-transport/src/lib.rs b/crates/sip-transport/src/lib.rs
index c36c9c7..aebd8a8 100644
--- a/crates/sip-transport/src/lib.rs
+++ b/crates/sip-transport/src/lib.rs
@@ -1563,6 +1563,13 @@ async fn spawn_tls_session(
     // set_stream_keepalive_interval).
     let mut keepalive = stream_keepalive_interval()
         .map(|d| tokio::time::interval_at(tokio::time::Instant::now() + d, d));
+    // Idle timeout: a short Slowloris window until the peer completes its
+    // first SIP message, then the long (configurable) established timeout,
+    // so a quiet-but-live trunk connection isn't reaped mid-call. Only data
+    // on an established connection moves the deadline: neither our own
+    // keepalives nor a request trickling in byte by byte do.
+    let mut idle_timeout = select_idle_timeout(established);
+    let mut idle_deadline = tokio::time::Instant::now() + idle_timeout;
     loop {
         // Check if buffer has grown too large - protects against memory exhaustion
         if buf.len() >= MAX_BUFFER_SIZE {
@@ -1575,17 +1582,13 @@ async fn spawn_tls_session(
             break;
         }
 
-        // Idle timeout: a short Slowloris window until the peer completes its
-        // first SIP message, then the long (configurable) established timeout,
-        // so a quiet-but-live trunk connection isn't reaped mid-call.
-        let idle_timeout = select_idle_timeout(established);
         tokio::select! {
             _ = maybe_keepalive_tick(&mut keepalive), if established => {
                 // RFC 5626 double-CRLF ping (see CRLF_KEEPALIVE_PING).
                 // try_send so a wedged writer can never stall reads.
                 let _ = writer_tx.try_send(Bytes::from_static(CRLF_KEEPALIVE_PING));
             }
-            result = tokio::time::timeout(idle_timeout, reader.read_buf(&mut buf)) => match result {
+            result = tokio::time::timeout_at(idle_deadline, reader.read_buf(&mut buf)) => match result {
             Ok(Ok(0)) => {
                 info!(%peer, "tls connection closed by peer (EOF)");
                 break;
@@ -1601,6 +1604,10 @@ async fn spawn_tls_session(
                 if !frames.is_empty() {
                     established = true;
                 }
+                if established {
+                    idle_timeout = select_idle_timeout(established);
+                    idle_deadline = tokio::time::Instant::now() + idle_timeout;
+                }
                 for payload in frames {
                     // Per-IP frame rate limit shared with the
                     // plain-TCP and WS paths.
@@ -1773,6 +1780,13 @@ async fn spawn_stream_session<S>(
     // set_stream_keepalive_interval).
     let mut keepalive = stream_keepalive_interval()
         .map(|d| tokio::time::interval_at(tokio::time::Instant::now() + d, d));
+    // Idle timeout: a short Slowloris window until the peer completes its
+    // first SIP message, then the long (configurable) established timeout,
+    // so a quiet-but-live trunk connection isn't reaped mid-call. Only data
+    // on an established connection moves the deadline: neither our own
+    // keepalives nor a request trickling in byte by byte do.
+    let mut idle_timeout = select_idle_timeout(established);
+    let mut idle_deadline = tokio::time::Instant::now() + idle_timeout;
     loop {
         // Check if buffer has grown too large - protects against memory exhaustion
         if buf.len() >= MAX_BUFFER_SIZE {
@@ -1785,17 +1799,13 @@ async fn spawn_stream_session<S>(
             break;
         }
 
-        // Idle timeout: a short Slowloris window until the peer completes its
-        // first SIP message, then the long (configurable) established timeout,
-        // so a quiet-but-live trunk connection isn't reaped mid-call.
-        let idle_timeout = select_idle_timeout(established);
         tokio::select! {
             _ = maybe_keepalive_tick(&mut keepalive), if established => {
                 // RFC 5626 double-CRLF ping (see CRLF_KEEPALIVE_PING).
                 // try_send so a wedged writer can never stall reads.
                 let _ = writer_tx.try_send(Bytes::from_static(CRLF_KEEPALIVE_PING));
             }
-            result = tokio::time::timeout(idle_timeout, reader.read_buf(&mut buf)) => match result {
+            result = tokio::time::timeout_at(idle_deadline, reader.read_buf(&mut buf)) => match result {
             Ok(Ok(0)) => break,
             Ok(Ok(_)) => {
                 transport_metrics().on_packet_received(transport.into());
@@ -1807,6 +1817,10 @@ async fn spawn_stream_session<S>(
                 if !frames.is_empty() {
                     established = true;
                 }
+                if established {
+                    idle_timeout = select_idle_timeout(established);
+                    idle_deadline = tokio::time::Instant::now() + idle_timeout;
+                }
                 for payload in frames {
                     // Per-IP frame rate limit shared across all
                     // stream sessions: a peer can hold up to 64
-- 
2.43.0


From ddbcd66be914bf99a7bb2634287eb6765947e28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:45 +0000
Subject: [PATCH 84/90] fix: a peer that takes no data held its closed stream
 session for ever

---
 crates/sip-transport/src/lib.rs | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/crates/sip-transport/src/lib.rs b/crates/sip-transport/src/lib.rs
index aebd8a8..07b4c65 100644
--- a/crates/sip-transport/src/lib.rs
+++ b/crates/sip-transport/src/lib.rs
@@ -107,6 +107,9 @@ const DEFAULT_ESTABLISHED_IDLE_TIMEOUT_SECS: u64 = 1800;
 /// (disabled): ~10 years, so the `timeout` future simply never fires.
 const IDLE_DISABLED: std::time::Duration = std::time::Duration::from_secs(10 * 365 * 24 * 60 * 60);
 
+/// How long a closing session waits for its queued messages to be written.
+const WRITER_DRAIN_TIMEOUT: std::time::Duration = std::time::Duration::from_secs(30);
+
 static ESTABLISHED_IDLE_TIMEOUT_SECS: std::sync::atomic::AtomicU64 =
     std::sync::atomic::AtomicU64::new(DEFAULT_ESTABLISHED_IDLE_TIMEOUT_SECS);
 
@@ -1683,13 +1686,14 @@ async fn spawn_tls_session(
     // dead socket until Timer B (issue #73).
     let _ = shutdown_tx.send(());
     drop(writer_tx);
-    match writer_handle.await {
+    match join_writer(writer_handle).await {
         Ok(writer) => {
             // Reunite the stream halves
             let mut tls_stream = reader.unsplit(writer);
 
             // Perform proper TLS shutdown - send close_notify alert
-            if let Err(e) = tls_stream.shutdown().await {
+            let closed = tokio::time::timeout(WRITER_DRAIN_TIMEOUT, tls_stream.shutdown()).await;
+            if let Ok(Err(e)) = closed {
                 // Don't log error if it's just "NotConnected" - peer may have already closed
                 if e.kind() != std::io::ErrorKind::NotConnected {
                     warn!(%e, "tls shutdown error");
@@ -1888,7 +1892,21 @@ async fn spawn_stream_session<S>(
     // the session — so signal the writer explicitly (issue #73).
     let _ = shutdown_tx.send(());
     drop(writer_tx);
-    let _ = writer_handle.await;
+    let _ = join_writer(writer_handle).await;
+}
+
+/// Waits for the writer of a closing session to drain its queue. A peer that
+/// takes no data cannot hold the session, and its slot, any longer than that.
+async fn join_writer<T>(
+    mut writer: tokio::task::JoinHandle<T>,
+) -> std::result::Result<T, tokio::task::JoinError> {
+    match tokio::time::timeout(WRITER_DRAIN_TIMEOUT, &mut writer).await {
+        Ok(joined) => joined,
+        Err(_) => {
+            writer.abort();
+            writer.await
+        }
+    }
 }
 
 /// Splits buffered TCP/TLS data into complete SIP messages using Content-Length or CRLFCRLF.
-- 
2.43.0


From 3fd43b269fe1a236aca59a15dbb04ce478ccc741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:11 +0000
Subject: [PATCH 85/90] fix: the default video port of a profile on port 0 or 1
 panicked

---
 crates/sip-sdp/src/profiles.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/sip-sdp/src/profiles.rs b/crates/sip-sdp/src/profiles.rs
index 43548c1..54358eb 100644
--- a/crates/sip-sdp/src/profiles.rs
+++ b/crates/sip-sdp/src/profiles.rs
@@ -305,7 +305,7 @@ fn create_audio_video(
 /// The default video port: behind the audio stream's RTP and RTCP ports, or
 /// before them at the end of the port range.
 fn video_port_after(audio_port: u16) -> u16 {
-    audio_port.checked_add(2).unwrap_or(audio_port - 2)
+    audio_port.checked_add(2).unwrap_or_else(|| audio_port - 2)
 }
 
 /// Generates a session ID using current timestamp
-- 
2.43.0


From 2209543cb4889c5ed478b388b4022d5a60705bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:08 +0000
Subject: [PATCH 86/90] fix: a refused rtpmap left half of its change in the
 media section

---
 crates/sip-sdp/src/lib.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/crates/sip-sdp/src/lib.rs b/crates/sip-sdp/src/lib.rs
index 35d6437..8f97e7f 100644
--- a/crates/sip-sdp/src/lib.rs
+++ b/crates/sip-sdp/src/lib.rs
@@ -753,21 +753,24 @@ impl MediaDescription {
 
         // Drop any prior entries first so duplicate-pt mutations are
         // idempotent and don't trip the per-section attribute cap.
-        remove_rtpmap_attr(&mut self.attributes, payload_type);
-        self.rtpmaps.remove(&payload_type);
+        // Edit a copy, so that a refused mapping leaves the section as it was.
+        let mut attributes = self.attributes.clone();
+        remove_rtpmap_attr(&mut attributes, payload_type);
+        let others = self.rtpmaps.keys().filter(|pt| **pt != payload_type);
+        let others = others.count();
 
-        if self.attributes.len() >= MAX_ATTRIBUTES_PER_DESCRIPTION {
+        if attributes.len() >= MAX_ATTRIBUTES_PER_DESCRIPTION {
             return Err(SdpError::TooManyItems {
                 collection: "attributes",
                 max: MAX_ATTRIBUTES_PER_DESCRIPTION,
-                actual: self.attributes.len() + 1,
+                actual: attributes.len() + 1,
             });
         }
-        if self.rtpmaps.len() >= MAX_RTPMAPS {
+        if others >= MAX_RTPMAPS {
             return Err(SdpError::TooManyItems {
                 collection: "rtpmaps",
                 max: MAX_RTPMAPS,
-                actual: self.rtpmaps.len() + 1,
+                actual: others + 1,
             });
         }
 
@@ -778,6 +781,7 @@ impl MediaDescription {
             ),
             None => format!("{} {}/{}", payload_type, encoding_name, clock_rate),
         };
+        self.attributes = attributes;
         self.attributes.push(Attribute::Value {
             name: SmolStr::new("rtpmap"),
             value: SmolStr::new(&value),
-- 
2.43.0


From 9df85fc827f93f21b46e3271fcb2348ac4fe4f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:18 +0000
Subject: [PATCH 87/90] fix: tel URIs were built with a phone-context their
 reader cuts off

---
 crates/sip-core/src/tel_uri.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/crates/sip-core/src/tel_uri.rs b/crates/sip-core/src/tel_uri.rs
index 16bc9aa..34925f3 100644
--- a/crates/sip-core/src/tel_uri.rs
+++ b/crates/sip-core/src/tel_uri.rs
@@ -419,16 +419,17 @@ impl TelUri {
 
             if let Some((key, value)) = param.split_once('=') {
                 validate_parameter_name(key)?;
-                validate_parameter_value(value)?;
 
                 // Parameter names are case-insensitive (RFC 3966 §4)
                 let key_smol = SmolStr::new(key.to_ascii_lowercase());
                 let value_smol = SmolStr::new(value);
 
-                // Special handling for phone-context
+                // Special handling for phone-context, which has its own limit
                 if key.eq_ignore_ascii_case("phone-context") {
                     validate_phone_context(value)?;
                     phone_context = Some(value_smol.clone());
+                } else {
+                    validate_parameter_value(value)?;
                 }
 
                 parameters.insert(key_smol, Some(value_smol));
@@ -516,7 +517,9 @@ impl TelUri {
         let value = match value {
             Some(v) => {
                 let v = v.into();
-                validate_parameter_value(&v)?;
+                if key_str != "phone-context" {
+                    validate_parameter_value(&v)?;
+                }
                 Some(v)
             }
             None => None,
@@ -552,6 +555,11 @@ impl TelUri {
 
         let context = context.into();
         validate_phone_context(&context)?;
+        if self.phone_context.is_none() && self.parameters.len() >= MAX_PARAMETERS {
+            return Err(TelUriError::TooManyParameters {
+                max: MAX_PARAMETERS,
+            });
+        }
 
         self.phone_context = Some(context.clone());
         self.parameters
-- 
2.43.0


From 648249290f605342af8f5634a6c7ffdf11db18d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:17 +0000
Subject: [PATCH 88/90] fix: read every value of Route, Record-Route and
 Call-Info lines that list several

---
 crates/sip-parse/src/header_values.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/crates/sip-parse/src/header_values.rs b/crates/sip-parse/src/header_values.rs
index 984c0cd..c170823 100644
--- a/crates/sip-parse/src/header_values.rs
+++ b/crates/sip-parse/src/header_values.rs
@@ -33,7 +33,8 @@ pub fn parse_contact_header(value: &SmolStr) -> Option<ContactHeader> {
 pub fn parse_route_headers(headers: &Headers, name: &str) -> Vec<RouteHeader> {
     headers
         .get_all_smol(name)
-        .filter_map(parse_route_header)
+        .flat_map(list_values)
+        .filter_map(|value| parse_route_header(&value))
         .collect()
 }
 
@@ -56,7 +57,8 @@ pub fn parse_call_info_header(value: &SmolStr) -> Option<NameAddrHeader> {
 pub fn parse_call_info_headers(headers: &Headers) -> Vec<NameAddrHeader> {
     headers
         .get_all_smol("Call-Info")
-        .filter_map(parse_call_info_header)
+        .flat_map(list_values)
+        .filter_map(|value| parse_call_info_header(&value))
         .collect()
 }
 
@@ -557,6 +559,15 @@ fn parse_auth_like_header(value: &SmolStr) -> Option<AuthorizationHeader> {
     AuthorizationHeader::from_raw(scheme, params).ok()
 }
 
+/// The values of one line of a header that may list several.
+fn list_values(line: &SmolStr) -> Vec<SmolStr> {
+    split_list(line)
+        .unwrap_or_default()
+        .into_iter()
+        .map(SmolStr::new)
+        .collect()
+}
+
 /// Splits comma-separated values, respecting quotes and angle brackets. Returns
 /// None if too many parts or unbalanced quotes.
 fn split_quoted_commas(input: &str, max_parts: usize) -> Option<Vec<String>> {
-- 
2.43.0


From 37f2181e33871774934ad08b6c0154a1f10d767f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:18 +0000
Subject: [PATCH 89/90] fix: match RTP/AVPF and other RTP profiles by codec,
 not by payload number

---
 crates/sip-sdp/src/negotiate.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/crates/sip-sdp/src/negotiate.rs b/crates/sip-sdp/src/negotiate.rs
index 2909b7c..be9a524 100644
--- a/crates/sip-sdp/src/negotiate.rs
+++ b/crates/sip-sdp/src/negotiate.rs
@@ -456,14 +456,16 @@ pub(crate) fn base_answer_media(offer_media: &MediaDescription, port: u16) -> Me
 }
 
 fn is_rtp_protocol(protocol: &Protocol) -> bool {
-    matches!(
-        protocol,
+    match protocol {
         Protocol::RtpAvp
-            | Protocol::RtpSavp
-            | Protocol::RtpSavpf
-            | Protocol::UdpTlsRtpSavpf
-            | Protocol::TcpTlsRtpSavpf
-    )
+        | Protocol::RtpSavp
+        | Protocol::RtpSavpf
+        | Protocol::UdpTlsRtpSavpf
+        | Protocol::TcpTlsRtpSavpf => true,
+        // Any other RTP profile, such as RTP/AVPF or UDP/TLS/RTP/SAVP
+        Protocol::Other(name) => name.split('/').any(|part| part == "RTP"),
+        _ => false,
+    }
 }
 
 pub(crate) fn parse_payload_type(fmt: &SmolStr) -> Option<u8> {
-- 
2.43.0


From e1a1e4471876a88b4d94150deffb58d886a0ae41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:02 +0000
Subject: [PATCH 90/90] fix: a rate limit's time until reset is rounded up to
 whole seconds

Truncated, it told a client that is still refused to retry after 0
seconds, and named a reset time before the limit had reset.
---
 crates/sip-ratelimit/src/lib.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/crates/sip-ratelimit/src/lib.rs b/crates/sip-ratelimit/src/lib.rs
index f212cdc..98cda15 100644
--- a/crates/sip-ratelimit/src/lib.rs
+++ b/crates/sip-ratelimit/src/lib.rs
@@ -756,21 +756,23 @@ impl RateLimiter {
             Duration::from_secs(0)
         };
 
-        let reset_at = SystemTime::now()
-            .duration_since(UNIX_EPOCH)
-            .unwrap()
-            .as_secs()
-            + time_to_full.as_secs();
+        // Both are whole seconds: round up, so that waiting that long is enough
+        let now = SystemTime::now().duration_since(UNIX_EPOCH).unwrap();
 
         Some(RateLimitInfo {
             limit: self.config.max_requests,
             remaining: bucket.tokens as u32,
-            reset_at,
-            retry_after: time_to_full.as_secs(),
+            reset_at: ceil_secs(now + time_to_full),
+            retry_after: ceil_secs(time_to_full),
         })
     }
 }
 
+/// Whole seconds, rounded up.
+fn ceil_secs(time: Duration) -> u64 {
+    time.as_secs() + u64::from(time.subsec_nanos() > 0)
+}
+
 /// Collection of rate limiters for different purposes
 #[derive(Debug, Clone)]
 pub struct RateLimiterSet {
-- 
2.43.0

