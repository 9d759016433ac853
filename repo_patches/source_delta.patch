From aa347a5e8836fe1881325805d23ca44b9a855403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:11 +0000
Subject: [PATCH 01/52] verif hook: re-export public items to an external
 harness under cfg(posy_verif)

---
 src/main.rs                      | 18 ++++++++++++++++++
 src/package_db/http/mod.rs       |  5 +++++
 src/package_db/mod.rs            |  8 ++++++++
 src/package_db/simple_api/mod.rs |  6 ++++++
 src/vocab/mod.rs                 |  5 +++++
 5 files changed, 42 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index 65ffa5d..6896b0b 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -16,6 +16,24 @@ mod test_util;
 mod trampolines;
 mod tree;
 
+// Verification hook: with `--cfg posy_verif`, make our public items reachable from an
+// external harness (this is a binary crate, so they'd otherwise be invisible).
+#[cfg(posy_verif)]
+#[doc(hidden)]
+pub mod verif {
+    pub use crate::env::*;
+    pub use crate::kvstore::*;
+    pub use crate::package_db::verif::*;
+    pub use crate::package_db::*;
+    pub use crate::platform_tags::*;
+    pub use crate::resolve::*;
+    pub use crate::seek_slice::*;
+    pub use crate::trampolines::*;
+    pub use crate::tree::*;
+    pub use crate::vocab::verif::*;
+    pub use crate::vocab::*;
+}
+
 use std::path::Path;
 
 use crate::{env::EnvForest, prelude::*, resolve::Brief};
diff --git a/src/package_db/http/mod.rs b/src/package_db/http/mod.rs
index bb19c17..ff312b9 100644
--- a/src/package_db/http/mod.rs
+++ b/src/package_db/http/mod.rs
@@ -5,3 +5,8 @@ pub mod user_agent;
 
 pub use self::http::{CacheMode, Http, HttpInner, NotCached};
 pub use self::lazy_remote_file::LazyRemoteFile;
+
+#[cfg(posy_verif)]
+pub mod verif {
+    pub use super::http::{CacheStatus, ReadPlusMaybeSeek};
+}
diff --git a/src/package_db/mod.rs b/src/package_db/mod.rs
index 462e3ee..3132335 100644
--- a/src/package_db/mod.rs
+++ b/src/package_db/mod.rs
@@ -6,3 +6,11 @@ mod simple_api;
 pub use build_wheel::WheelBuilder;
 pub use package_db::PackageDB;
 pub use simple_api::ArtifactInfo;
+
+#[cfg(posy_verif)]
+pub mod verif {
+    pub use super::http::verif::*;
+    pub use super::http::*;
+    pub use super::simple_api::verif::*;
+    pub use super::simple_api::*;
+}
diff --git a/src/package_db/simple_api/mod.rs b/src/package_db/simple_api/mod.rs
index c0e94d1..459181b 100644
--- a/src/package_db/simple_api/mod.rs
+++ b/src/package_db/simple_api/mod.rs
@@ -5,3 +5,9 @@ mod project_info;
 pub use fetch::fetch_simple_api;
 use html::parse_html;
 pub use project_info::{pack_by_version, ArtifactInfo, ProjectInfo};
+
+#[cfg(posy_verif)]
+pub mod verif {
+    pub use super::html::*;
+    pub use super::project_info::*;
+}
diff --git a/src/vocab/mod.rs b/src/vocab/mod.rs
index 891ed6e..e659a6d 100644
--- a/src/vocab/mod.rs
+++ b/src/vocab/mod.rs
@@ -29,3 +29,8 @@ pub use self::requirement::{
 };
 pub use self::specifier::{CompareOp, Specifier, Specifiers};
 pub use self::version::{Version, VERSION_INFINITY, VERSION_ZERO};
+
+#[cfg(posy_verif)]
+pub mod verif {
+    pub use super::rfc822ish::*;
+}
-- 
2.43.0


From a31015be4024fd0b84d3531665e9e3a8989fbc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:07 +0000
Subject: [PATCH 02/52] fix: compute the next version correctly after
 post-releases and local versions

---
 src/vocab/specifier.rs |  6 ++----
 src/vocab/version.rs   | 13 +++++++++++--
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/vocab/specifier.rs b/src/vocab/specifier.rs
index 8f8a56e..f0c6090 100644
--- a/src/vocab/specifier.rs
+++ b/src/vocab/specifier.rs
@@ -187,10 +187,8 @@ impl CompareOp {
                 // the given version unless V itself is a post release."
                 StrictlyGreaterThan => {
                     let mut low = version.clone();
-                    if let Some(dev) = &version.0.dev {
-                        low.0.dev = Some(dev + 1);
-                    } else if let Some(post) = &version.0.post {
-                        low.0.post = Some(post + 1);
+                    if version.0.dev.is_some() || version.0.post.is_some() {
+                        low = version.next();
                     } else {
                         // Otherwise, want to increment either the pre-release (a0 ->
                         // a1), or the "last" release segment. But working with
diff --git a/src/vocab/version.rs b/src/vocab/version.rs
index 60dafdd..3e8e69f 100644
--- a/src/vocab/version.rs
+++ b/src/vocab/version.rs
@@ -49,14 +49,23 @@ impl Version {
         //   then the next possible version is .dev(N+1)
         //
         // - You can't attach a .postN after a .postN. So if you already have
-        //   a .postN, then the next possible value is .post(N+1).
+        //   a .postN, then the next possible value is .post(N+1).dev0.
         //
         // - You *can* attach a .postN after anything else. And a .devN after that. So
         // to get the next possible value, attach a .post0.dev0.
-        if let Some(dev) = &mut new.0.dev {
+        //
+        // - If there's a +local suffix, then the versions that come right after are the
+        // ones that append more segments to it. An empty segment isn't something that
+        // can appear in a real version, but it's smaller than every segment that can.
+        if !new.0.local.is_empty() {
+            new.0
+                .local
+                .push(pep440::LocalVersion::StringComponent("".into()));
+        } else if let Some(dev) = &mut new.0.dev {
             *dev += 1;
         } else if let Some(post) = &mut new.0.post {
             *post += 1;
+            new.0.dev = Some(0);
         } else {
             new.0.post = Some(0);
             new.0.dev = Some(0);
-- 
2.43.0


From 9017c0be3600138dc12355e5f4d5a60a75957de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:15 +0000
Subject: [PATCH 03/52] fix: let <X.postN match X and its earlier post-releases

---
 src/vocab/specifier.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/vocab/specifier.rs b/src/vocab/specifier.rs
index f0c6090..436d6e2 100644
--- a/src/vocab/specifier.rs
+++ b/src/vocab/specifier.rs
@@ -207,7 +207,6 @@ impl CompareOp {
                     if (&version.0.pre, &version.0.dev) == (&None, &None) {
                         let mut new_max = version;
                         new_max.0.dev = Some(0);
-                        new_max.0.post = None;
                         new_max.0.local = vec![];
                         vec![VERSION_ZERO.clone()..new_max]
                     } else {
-- 
2.43.0


From 6370ebe6c940e778cca0d191a798e22478b1e9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:22 +0000
Subject: [PATCH 04/52] fix: use 0.dev0 as the smallest version, since it sorts
 before 0a0.dev0

---
 src/vocab/version.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vocab/version.rs b/src/vocab/version.rs
index 3e8e69f..b903a78 100644
--- a/src/vocab/version.rs
+++ b/src/vocab/version.rs
@@ -16,7 +16,7 @@ use crate::prelude::*;
 )]
 pub struct Version(pub pep440::Version);
 
-pub static VERSION_ZERO: Lazy<Version> = Lazy::new(|| "0a0.dev0".try_into().unwrap());
+pub static VERSION_ZERO: Lazy<Version> = Lazy::new(|| "0.dev0".try_into().unwrap());
 
 pub static VERSION_INFINITY: Lazy<Version> = Lazy::new(|| {
     // Technically there is no largest PEP 440 version. But this should be good
-- 
2.43.0


From 4a9f0afff3683212b6ffb8681d5c6f92dffbfa7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:30 +0000
Subject: [PATCH 05/52] fix: refuse version numbers that are too large, instead
 of misreading them

---
 src/vocab/version.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/vocab/version.rs b/src/vocab/version.rs
index b903a78..e126f29 100644
--- a/src/vocab/version.rs
+++ b/src/vocab/version.rs
@@ -78,6 +78,20 @@ impl TryFrom<&str> for Version {
     type Error = eyre::Report;
 
     fn try_from(value: &str) -> Result<Self, Self::Error> {
+        // The pep440 crate stores numbers as u32, and if a pre/post/dev number doesn't
+        // fit then it silently drops it, so e.g. 1.0.dev20230101123456 gets mistaken for
+        // the final release 1.0. Also, u32::MAX itself is reserved, so that we can
+        // always increment a number, and for VERSION_INFINITY.
+        let (public, local) = value.split_once('+').unwrap_or((value, ""));
+        let numbers = public
+            .split(|c: char| !c.is_ascii_digit())
+            .chain(local.split(['-', '_', '.']))
+            .filter(|s| !s.is_empty() && s.bytes().all(|c| c.is_ascii_digit()));
+        for number in numbers {
+            if !matches!(number.parse::<u32>(), Ok(n) if n < u32::MAX) {
+                bail!("number {} in version {} is too large", number, value);
+            }
+        }
         pep440::Version::parse(value)
             .map(Version)
             .ok_or_else(|| eyre!("Failed to parse PEP 440 version {}", value))
-- 
2.43.0


From fdf47d349aaa9493a3c7a2d05afb2da56aea39ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:51 +0000
Subject: [PATCH 06/52] fix: parse nested and chained markers in linear time
 and bounded depth

---
 src/vocab/reqparse.rs | 58 +++++++++++++++++++++++++++++++++----------
 1 file changed, 45 insertions(+), 13 deletions(-)

diff --git a/src/vocab/reqparse.rs b/src/vocab/reqparse.rs
index bd19abb..1eda3ff 100644
--- a/src/vocab/reqparse.rs
+++ b/src/vocab/reqparse.rs
@@ -1,7 +1,30 @@
 use crate::prelude::*;
 
 pub use self::parser::{marker, requirement, versionspec};
-use super::requirement::ParseExtra;
+use super::requirement::{marker, ParseExtra};
+
+// Marker expressions come from the network and are handled recursively, so their depth
+// has to be limited. (Our own printed form nests at most as deep as the expression.)
+const MAX_MARKER_DEPTH: usize = 200;
+const MARKER_TOO_DEEP: &str = "a less deeply nested marker expression";
+
+/// Combine "a op b op c" into "a op (b op c)", keeping track of the depth.
+fn join_right(
+    exprs: Vec<(marker::EnvMarkerExpr, usize)>,
+    op: fn(Box<marker::EnvMarkerExpr>, Box<marker::EnvMarkerExpr>) -> marker::EnvMarkerExpr,
+) -> std::result::Result<(marker::EnvMarkerExpr, usize), &'static str> {
+    let mut exprs = exprs.into_iter().rev();
+    // unwrap ok because: the parser rules only accept one or more expressions
+    let (mut joined, mut depth) = exprs.next().unwrap();
+    for (lhs, lhs_depth) in exprs {
+        depth = 1 + depth.max(lhs_depth);
+        if depth > MAX_MARKER_DEPTH {
+            return Err(MARKER_TOO_DEEP);
+        }
+        joined = op(Box::new(lhs), Box::new(joined));
+    }
+    Ok((joined, depth))
+}
 
 peg::parser! {
     grammar parser() for str {
@@ -109,9 +132,13 @@ peg::parser! {
                    / python_str())
               { v }
 
-        rule marker_expr(parse_extra: ParseExtra) -> marker::EnvMarkerExpr
-            = _ "(" m:marker(parse_extra) _ ")" { m }
-              / lhs:marker_value(parse_extra) op:marker_op() rhs:marker_value(parse_extra)
+        rule marker_expr(parse_extra: ParseExtra, nesting: usize)
+            -> (marker::EnvMarkerExpr, usize)
+            = _ "(" m:marker_or(parse_extra, nesting + 1) _ ")" { m }
+              / m:marker_operator(parse_extra) { (m, 1) }
+
+        rule marker_operator(parse_extra: ParseExtra) -> marker::EnvMarkerExpr
+            = lhs:marker_value(parse_extra) op:marker_op() rhs:marker_value(parse_extra)
               {
                   use marker::EnvMarkerExpr::Operator;
                   use CompareOp::*;
@@ -130,18 +157,23 @@ peg::parser! {
                   }
               }
 
-        rule marker_and(parse_extra: ParseExtra) -> marker::EnvMarkerExpr
-            = lhs:marker_expr(parse_extra) _ "and" _ rhs:marker_and(parse_extra)
-                 { marker::EnvMarkerExpr::And(Box::new(lhs), Box::new(rhs)) }
-              / marker_expr(parse_extra)
+        // These return the expression together with its depth.
+        rule marker_and(parse_extra: ParseExtra, nesting: usize)
+            -> (marker::EnvMarkerExpr, usize)
+            = exprs:(marker_expr(parse_extra, nesting) ++ (_ "and" _))
+              {? join_right(exprs, marker::EnvMarkerExpr::And) }
+
+        rule check_nesting(nesting: usize)
+            = {? if nesting > MAX_MARKER_DEPTH { Err(MARKER_TOO_DEEP) } else { Ok(()) } }
 
-        rule marker_or(parse_extra: ParseExtra) -> marker::EnvMarkerExpr
-            = lhs:marker_and(parse_extra) _ "or" _ rhs:marker_or(parse_extra)
-                 { marker::EnvMarkerExpr::Or(Box::new(lhs), Box::new(rhs)) }
-              / marker_and(parse_extra)
+        rule marker_or(parse_extra: ParseExtra, nesting: usize)
+            -> (marker::EnvMarkerExpr, usize)
+            = check_nesting(nesting)
+              exprs:(marker_and(parse_extra, nesting) ++ (_ "or" _))
+              {? join_right(exprs, marker::EnvMarkerExpr::Or) }
 
         pub rule marker(parse_extra: ParseExtra) -> marker::EnvMarkerExpr
-            = marker_or(parse_extra)
+            = m:marker_or(parse_extra, 0) { m.0 }
 
         rule quoted_marker(parse_extra: ParseExtra) -> marker::EnvMarkerExpr
             = ";" _ m:marker(parse_extra) { m }
-- 
2.43.0


From b65ee45fcebdc49073046daaa70b83df26f0f014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:46 +0000
Subject: [PATCH 07/52] fix: normalise runs of separators in package names to a
 single '-'

---
 src/vocab/package_name.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vocab/package_name.rs b/src/vocab/package_name.rs
index 730a246..1378f21 100644
--- a/src/vocab/package_name.rs
+++ b/src/vocab/package_name.rs
@@ -28,7 +28,7 @@ impl TryFrom<&str> for PackageName {
         });
         // https://www.python.org/dev/peps/pep-0503/#normalized-names
         static NAME_NORMALIZE: Lazy<Regex> =
-            Lazy::new(|| Regex::new(r"[-_.]").unwrap());
+            Lazy::new(|| Regex::new(r"[-_.]+").unwrap());
 
         if !NAME_VALIDATE.is_match(as_given) {
             return Err(eyre!("Invalid package name {:?}", as_given));
-- 
2.43.0


From 6a2b323cc3619724337b2115a477ba1069fb7928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:44 +0000
Subject: [PATCH 08/52] fix: let a serialized Brief be read back when allow_pre
 is empty or comes from a reader

---
 src/resolve.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/resolve.rs b/src/resolve.rs
index 60f687e..51ba08c 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -34,12 +34,12 @@ impl Default for AllowPre {
 
 #[derive(Serialize, Deserialize)]
 #[serde(untagged)]
-enum AllowPreSerdeHelper<'a> {
+enum AllowPreSerdeHelper {
     Some(HashSet<PackageName>),
-    Other(&'a str),
+    Other(String),
 }
 
-impl<'a> TryFrom<AllowPreSerdeHelper<'a>> for AllowPre {
+impl TryFrom<AllowPreSerdeHelper> for AllowPre {
     type Error = eyre::Report;
 
     fn try_from(value: AllowPreSerdeHelper) -> Result<Self, Self::Error> {
@@ -56,11 +56,11 @@ impl<'a> TryFrom<AllowPreSerdeHelper<'a>> for AllowPre {
     }
 }
 
-impl<'a> From<AllowPre> for AllowPreSerdeHelper<'a> {
+impl From<AllowPre> for AllowPreSerdeHelper {
     fn from(value: AllowPre) -> Self {
         match value {
             AllowPre::Some(pkgs) => AllowPreSerdeHelper::Some(pkgs),
-            AllowPre::All => AllowPreSerdeHelper::Other(":all:"),
+            AllowPre::All => AllowPreSerdeHelper::Other(":all:".into()),
         }
     }
 }
@@ -82,7 +82,7 @@ pub struct Brief {
     pub python: PythonRequirement,
     // don't need python_constraints because we always install exactly one python
     pub requirements: Vec<UserRequirement>,
-    #[serde(skip_serializing_if = "allow_pre_is_empty")]
+    #[serde(default, skip_serializing_if = "allow_pre_is_empty")]
     pub allow_pre: AllowPre,
     // XX TODO
     //pub constraints: Vec<UserRequirement>,
-- 
2.43.0


From fe231bda172b5caaf6718bf19bc10cd2854f1a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:52 +0000
Subject: [PATCH 09/52] fix: let an empty set of specifiers be read back

---
 src/vocab/specifier.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vocab/specifier.rs b/src/vocab/specifier.rs
index 436d6e2..f144062 100644
--- a/src/vocab/specifier.rs
+++ b/src/vocab/specifier.rs
@@ -57,6 +57,10 @@ impl TryFrom<&str> for Specifiers {
     type Error = eyre::Report;
 
     fn try_from(input: &str) -> Result<Self, Self::Error> {
+        // This is how we print an empty set of specifiers, e.g. in a Blueprint
+        if input.is_empty() {
+            return Ok(Specifiers(Vec::new()));
+        }
         let specifiers_or_err = super::reqparse::versionspec(input);
         specifiers_or_err.wrap_err_with(|| {
             format!("failed to parse versions specifiers from {:?}", input)
-- 
2.43.0


From e2c94deabdb5e9694024c55d20405eac7a36d5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:34 +0000
Subject: [PATCH 10/52] verif hook: also re-export ParseExtra under
 cfg(posy_verif)

---
 src/vocab/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vocab/mod.rs b/src/vocab/mod.rs
index e659a6d..e2c0c20 100644
--- a/src/vocab/mod.rs
+++ b/src/vocab/mod.rs
@@ -32,5 +32,6 @@ pub use self::version::{Version, VERSION_INFINITY, VERSION_ZERO};
 
 #[cfg(posy_verif)]
 pub mod verif {
+    pub use super::requirement::ParseExtra;
     pub use super::rfc822ish::*;
 }
-- 
2.43.0


From 6d8493d28af9ddacba0903de5cb3019172e98971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:53 +0000
Subject: [PATCH 11/52] fix: ignore the spelling of package names when ordering
 them

---
 src/vocab/package_name.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/vocab/package_name.rs b/src/vocab/package_name.rs
index 1378f21..f114a57 100644
--- a/src/vocab/package_name.rs
+++ b/src/vocab/package_name.rs
@@ -3,7 +3,12 @@ use crate::prelude::*;
 #[derive(Debug, Clone, DeserializeFromStr, Derivative)]
 #[derivative(Hash, PartialEq, Eq, PartialOrd, Ord)]
 pub struct PackageName {
-    #[derivative(Hash = "ignore", PartialEq = "ignore", PartialOrd = "ignore")]
+    #[derivative(
+        Hash = "ignore",
+        PartialEq = "ignore",
+        PartialOrd = "ignore",
+        Ord = "ignore"
+    )]
     as_given: String,
     normalized: String,
 }
-- 
2.43.0


From 946189198653863deaa923a497b574eb01636227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:20 +0000
Subject: [PATCH 12/52] fix: undo %-encoding in the file names of index links

---
 src/package_db/simple_api/html.rs | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/package_db/simple_api/html.rs b/src/package_db/simple_api/html.rs
index 2c9bf42..fb280a7 100644
--- a/src/package_db/simple_api/html.rs
+++ b/src/package_db/simple_api/html.rs
@@ -76,6 +76,26 @@ fn parse_hash(s: &str) -> Option<ArtifactHash> {
     }
 }
 
+/// Undo the %-encoding in a URL path segment (as in "foo-1.0%2Blocal.tar.gz").
+fn percent_decode(segment: &str) -> Option<String> {
+    let mut decoded = Vec::new();
+    let mut pieces = segment.split('%');
+    decoded.extend(pieces.next()?.as_bytes());
+    for piece in pieces {
+        let hex = piece.get(..2).unwrap_or("");
+        if let Ok(byte) = data_encoding::HEXLOWER_PERMISSIVE.decode(hex.as_bytes()) {
+            if byte.len() == 1 {
+                decoded.extend(byte);
+                decoded.extend(piece[2..].as_bytes());
+                continue;
+            }
+        }
+        decoded.push(b'%');
+        decoded.extend(piece.as_bytes());
+    }
+    String::from_utf8(decoded).ok()
+}
+
 impl Sink {
     fn try_parse_link(
         &self,
@@ -83,7 +103,8 @@ impl Sink {
         attrs: &Vec<Attribute>,
     ) -> Option<Vec<ArtifactInfo>> {
         let url = self.base.join(url_str).ok()?;
-        let name: ArtifactName = url.path_segments()?.next_back()?.try_into().ok()?;
+        let filename = percent_decode(url.path_segments()?.next_back()?)?;
+        let name: ArtifactName = filename.as_str().try_into().ok()?;
         let names = name.split_multiplatform_pybis();
         // We found a valid link
         let hash = url.fragment().and_then(parse_hash);
-- 
2.43.0


From fc6ceff963a3ff5a65062ae30a6a61060e6105de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:28 +0000
Subject: [PATCH 13/52] fix: don't let a <base> without href hide a later one
 with href

---
 src/package_db/simple_api/html.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/package_db/simple_api/html.rs b/src/package_db/simple_api/html.rs
index fb280a7..17f917d 100644
--- a/src/package_db/simple_api/html.rs
+++ b/src/package_db/simple_api/html.rs
@@ -177,10 +177,10 @@ impl TreeSink for Sink {
         }
 
         if name.expanded() == BASE_TAG {
-            // HTML spec says that only the first <base> is respected
+            // HTML spec says that only the first <base> with a href is respected
             if !self.changed_base {
-                self.changed_base = true;
                 if let Some(new_base_str) = get_attr(&HREF_ATTR, &attrs) {
+                    self.changed_base = true;
                     if let Ok(new_base) = self.base.join(new_base_str) {
                         self.base = new_base;
                     }
-- 
2.43.0


From 77ce28afc6cc6fc9753a71c7750971eea0b686e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:42 +0000
Subject: [PATCH 14/52] fix: don't fail a request because there is no stale
 cache entry to remove

---
 src/kvstore.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/kvstore.rs b/src/kvstore.rs
index 21b1c89..7cb1cfa 100644
--- a/src/kvstore.rs
+++ b/src/kvstore.rs
@@ -262,8 +262,11 @@ impl KVFileLock {
     // file we got matches the one on disk before returning? might be necessary for any
     // kind of GC anyway)
     pub fn remove(self) -> Result<()> {
-        fs::remove_file(self.path)?;
-        Ok(())
+        match fs::remove_file(self.path) {
+            // there was no entry to remove, which is fine
+            Err(err) if err.kind() == std::io::ErrorKind::NotFound => Ok(()),
+            other => Ok(other?),
+        }
     }
 }
 
-- 
2.43.0


From 215dca3ea43a7e6278ccc47a3469a79b01a67293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:37 +0000
Subject: [PATCH 15/52] fix: refuse hashes that can't be used as a key in our
 stores

---
 src/vocab/artifact_hash.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/vocab/artifact_hash.rs b/src/vocab/artifact_hash.rs
index f8b1c79..df84a06 100644
--- a/src/vocab/artifact_hash.rs
+++ b/src/vocab/artifact_hash.rs
@@ -8,9 +8,23 @@ pub struct ArtifactHash {
 
 impl ArtifactHash {
     pub fn from_hex(mode: &str, hex: &str) -> Result<ArtifactHash> {
+        // Hashes come from places like package indexes, and get used to make paths
+        // within our caches, so we have to be careful about what we accept.
+        if mode.is_empty()
+            || !mode
+                .bytes()
+                .all(|b| b.is_ascii_alphanumeric() || b == b'-' || b == b'_')
+        {
+            bail!("invalid hash algorithm name {:?}", mode);
+        }
+        let raw_data = data_encoding::HEXLOWER_PERMISSIVE.decode(hex.as_bytes())?;
+        // md5, the shortest hash in common use, has 16 bytes
+        if raw_data.len() < 16 || raw_data.len() > 128 {
+            bail!("invalid {} hash: it has {} bytes", mode, raw_data.len());
+        }
         Ok(ArtifactHash {
             mode: mode.into(),
-            raw_data: data_encoding::HEXLOWER_PERMISSIVE.decode(hex.as_bytes())?,
+            raw_data,
         })
     }
 
-- 
2.43.0


From 87706a9a8729b329d701ea2130a897e26e49201e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:38 +0000
Subject: [PATCH 16/52] fix: bound the work for file names with very many tags

---
 src/vocab/artifact_name.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/vocab/artifact_name.rs b/src/vocab/artifact_name.rs
index b4bfa15..36d5dc5 100644
--- a/src/vocab/artifact_name.rs
+++ b/src/vocab/artifact_name.rs
@@ -86,6 +86,9 @@ pub struct WheelName {
     pub arch_tags: Vec<String>,
 }
 
+// More than any real wheel could want
+const MAX_WHEEL_TAGS: usize = 10_000;
+
 pub trait BinaryName {
     fn all_tags(&self) -> HashSet<String>;
 }
@@ -192,6 +195,16 @@ impl TryFrom<&str> for WheelName {
         let (distribution, version, build_number, build_name, mut tag_sets) =
             generic_parse(value, ".whl", 3)?;
 
+        // A wheel supports every combination of its tags, so a short name can stand for
+        // an unreasonable number of them.
+        if tag_sets
+            .iter()
+            .fold(1, |total: usize, tags| total.saturating_mul(tags.len()))
+            > MAX_WHEEL_TAGS
+        {
+            bail!("too many tags in wheel name");
+        }
+
         tag_sets.reverse();
 
         Ok(WheelName {
@@ -309,8 +322,11 @@ impl ArtifactName {
                     )
                     .map(|tag| {
                         ArtifactName::Pybi(PybiName {
+                            distribution: name.distribution.clone(),
+                            version: name.version.clone(),
+                            build_number: name.build_number,
+                            build_name: name.build_name.clone(),
                             arch_tags: vec![tag],
-                            ..name.clone()
                         })
                     })
                     .collect()
-- 
2.43.0


From 85dccd7f2cb4c46b9acd89d90d522da7541e71ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:55 +0000
Subject: [PATCH 17/52] fix: allow seeking to the very end of a SeekSlice

---
 src/seek_slice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/seek_slice.rs b/src/seek_slice.rs
index 9ba8bd2..f029a1d 100644
--- a/src/seek_slice.rs
+++ b/src/seek_slice.rs
@@ -42,7 +42,7 @@ impl<T: Seek> Seek for SeekSlice<T> {
         };
         match maybe_goal_idx {
             Some(goal_idx) => {
-                if goal_idx < self.start || goal_idx >= self.end {
+                if goal_idx < self.start || goal_idx > self.end {
                     Err(io::Error::new(
                         io::ErrorKind::InvalidInput,
                         "invalid seek to a negative or overflowing position",
-- 
2.43.0


From a193783c47d95ec124dec7fe1613c4a5d409b330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:03 +0000
Subject: [PATCH 18/52] fix: report an error, instead of panicking, if a range
 response lacks the requested range

---
 src/package_db/http/lazy_remote_file.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/package_db/http/lazy_remote_file.rs b/src/package_db/http/lazy_remote_file.rs
index dab8655..e1e2874 100644
--- a/src/package_db/http/lazy_remote_file.rs
+++ b/src/package_db/http/lazy_remote_file.rs
@@ -229,12 +229,16 @@ impl Read for LazyRemoteFile {
         let fetch_start = fetch_start.clamp(gap_start, gap_end);
         let fetch_end = fetch_end.clamp(gap_start, gap_end);
         fix_err(self.load_range(fetch_start, fetch_end - fetch_start))?;
-        // now it's definitely in cache
+        // now it should be in cache
         if let Some(len) = copy_loaded(self.seek_pos, &self.loaded, buf) {
             self.seek_pos = self.seek_pos.saturating_add(fix_err(len.try_into())?);
             return Ok(len);
         }
-        unreachable!("and you may ask yourself, well, how did I get here?")
+        // ...unless the server sent us something other than what we asked for
+        Err(io::Error::new(
+            io::ErrorKind::InvalidData,
+            "range response doesn't include the requested data",
+        ))
     }
 }
 
-- 
2.43.0


From 61337bbe2bdeebf223faeba933f0e2ead59db17c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:36 +0000
Subject: [PATCH 19/52] fix: ignore data beyond the requested range in range
 responses

---
 src/package_db/http/lazy_remote_file.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/package_db/http/lazy_remote_file.rs b/src/package_db/http/lazy_remote_file.rs
index e1e2874..e8518db 100644
--- a/src/package_db/http/lazy_remote_file.rs
+++ b/src/package_db/http/lazy_remote_file.rs
@@ -146,9 +146,10 @@ impl LazyRemoteFile {
                 bail!("Server didn't like my range request and I don't know why");
             }
             RangeResponse::Partial {
-                offset, mut data, ..
+                offset, data, ..
             } => {
-                self.loaded.insert(offset, slurp(&mut data)?);
+                // if the server sends more than we asked for, then ignore the rest
+                self.loaded.insert(offset, slurp(&mut data.take(length))?);
                 Ok(())
             }
             RangeResponse::Complete(_) => {
-- 
2.43.0


From 17adbf0244689fac120c8d0c6cff8d52fd0b683d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:36 +0000
Subject: [PATCH 20/52] fix: follow redirects of HEAD requests, so that
 redirected files can be read lazily

---
 src/package_db/http/http.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/package_db/http/http.rs b/src/package_db/http/http.rs
index 697c56a..b3f8065 100644
--- a/src/package_db/http/http.rs
+++ b/src/package_db/http/http.rs
@@ -307,7 +307,8 @@ impl HttpInner {
         mut request: http::Request<()>,
         cache_mode: CacheMode,
     ) -> Result<http::Response<ReadPlusMaybeSeek>> {
-        let max_redirects = if request.method() == http::method::Method::GET {
+        use http::method::Method;
+        let max_redirects = if [Method::GET, Method::HEAD].contains(request.method()) {
             MAX_REDIRECTS
         } else {
             0
-- 
2.43.0


From 939d635a64df613935475914975fa8edbe9c60a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:16 +0000
Subject: [PATCH 21/52] fix: notice range responses that contradict themselves
 or the length of the file

---
 src/package_db/http/lazy_remote_file.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/package_db/http/lazy_remote_file.rs b/src/package_db/http/lazy_remote_file.rs
index e8518db..16eed0c 100644
--- a/src/package_db/http/lazy_remote_file.rs
+++ b/src/package_db/http/lazy_remote_file.rs
@@ -74,7 +74,7 @@ fn fetch_range(
     //   https://datatracker.ietf.org/doc/html/rfc7233#section-4.2
     // but this is the only format that's actually *useful* to us.
     static CONTENT_RANGE_RE: Lazy<regex::bytes::Regex> = Lazy::new(|| {
-        regex::bytes::Regex::new(r"^bytes ([0-9]+)-[0-9]+/([0-9]+)$").unwrap()
+        regex::bytes::Regex::new(r"^bytes ([0-9]+)-([0-9]+)/([0-9]+)$").unwrap()
     });
     static CONTENT_RANGE_LEN_ONLY_RE: Lazy<regex::bytes::Regex> =
         Lazy::new(|| regex::bytes::Regex::new(r"^bytes [^/]*/([0-9]+)$").unwrap());
@@ -101,11 +101,18 @@ fn fetch_range(
                         Some(captures) => {
                             // unwraps safe because groups always match a valid int
                             let offset: u64 = str_capture(&captures, 1)?.parse()?;
-                            let total_len: u64 = str_capture(&captures, 2)?.parse()?;
+                            let last: u64 = str_capture(&captures, 2)?.parse()?;
+                            let total_len: u64 = str_capture(&captures, 3)?.parse()?;
+                            if last < offset || last >= total_len {
+                                bail!("inconsistent Content-Range");
+                            }
                             RangeResponse::Partial {
                                 offset,
                                 total_len,
-                                data: Box::new(response.into_body()),
+                                // anything after the declared range isn't file contents
+                                data: Box::new(
+                                    response.into_body().take(last - offset + 1),
+                                ),
                             }
                         }
                     }
@@ -146,8 +153,13 @@ impl LazyRemoteFile {
                 bail!("Server didn't like my range request and I don't know why");
             }
             RangeResponse::Partial {
-                offset, data, ..
+                offset,
+                total_len,
+                data,
             } => {
+                if total_len != self.length {
+                    bail!("remote file changed size while we were reading it");
+                }
                 // if the server sends more than we asked for, then ignore the rest
                 self.loaded.insert(offset, slurp(&mut data.take(length))?);
                 Ok(())
-- 
2.43.0


From 4d0d621befb59d45c417a84cc5f6dc1c69b9aeef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:13 +0000
Subject: [PATCH 22/52] fix: recognize Cache-Control directives whatever their
 case

---
 src/package_db/http/ureq_glue.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/package_db/http/ureq_glue.rs b/src/package_db/http/ureq_glue.rs
index ac9df33..9711cb4 100644
--- a/src/package_db/http/ureq_glue.rs
+++ b/src/package_db/http/ureq_glue.rs
@@ -75,7 +75,13 @@ pub fn do_request_ureq(
     let mut response = http::Response::builder().status(ureq_response.status());
     for name in ureq_response.headers_names() {
         for value in ureq_response.all(&name) {
-            response = response.header(&name, value);
+            if name == "cache-control" {
+                // directives are case-insensitive, but http_cache_semantics only
+                // recognizes the lower-case form
+                response = response.header(&name, value.to_ascii_lowercase());
+            } else {
+                response = response.header(&name, value);
+            }
         }
     }
     Ok(response.body(ureq_response.into_reader())?)
-- 
2.43.0


From 328ed8d656cee8a892c4158d9d72a6cd4737b5d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:37 +0000
Subject: [PATCH 23/52] fix: end the header of Unix launchers with a newline,
 so that scripts work after it

---
 src/trampolines/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/trampolines/mod.rs b/src/trampolines/mod.rs
index f9f4f6e..fb6c69d 100644
--- a/src/trampolines/mod.rs
+++ b/src/trampolines/mod.rs
@@ -61,6 +61,8 @@ impl TrampolineMaker {
             ScriptType::GUI => UNIX_TEMPLATE.replace("POSY_PYTHON", "POSY_PYTHONW"),
         };
         let mut out = prefix.into_bytes();
+        // indoc! removes the newline that ends the template
+        out.push(b'\n');
         out.extend_from_slice(script);
         out
     }
-- 
2.43.0


From e0b1a7e26099d6a4ce476f29c26e924fade3351f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:45 +0000
Subject: [PATCH 24/52] fix: unpack archives that list a directory after its
 contents, or twice

---
 src/tree.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/tree.rs b/src/tree.rs
index 7d6a689..2dd0b06 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -230,7 +230,18 @@ impl WriteTreeFS {
 impl WriteTree for WriteTreeFS {
     fn mkdir(&mut self, path: &NicePathBuf) -> Result<()> {
         context!("Creating {path}/");
-        Ok(fs::create_dir(self.full_path(path)?)?)
+        let full_path = self.full_path(path)?;
+        match fs::create_dir(&full_path) {
+            // It may well exist already: archives can list a directory after (or
+            // without any regard to) the things inside it, or more than once.
+            Err(err)
+                if err.kind() == io::ErrorKind::AlreadyExists
+                    && fs::symlink_metadata(&full_path)?.is_dir() =>
+            {
+                Ok(())
+            }
+            result => Ok(result?),
+        }
     }
 
     fn write_file(
-- 
2.43.0


From 8d85ff76764df61a60dffc39f070df42e94761ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:51 +0000
Subject: [PATCH 25/52] fix: don't silently drop sparse files when unpacking
 tar archives

---
 src/tree.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tree.rs b/src/tree.rs
index 2dd0b06..fa34e00 100644
--- a/src/tree.rs
+++ b/src/tree.rs
@@ -345,7 +345,7 @@ pub fn unpack_tar_gz_carefully<T: Read + Seek, W: WriteTree>(
                 bail!("sdist entry {} has unsupported type {:?}", path, kind)
             }
             Directory => dest.mkdir(&path)?,
-            GNULongName | GNULongLink | GNUSparse | XGlobalHeader | XHeader => (),
+            GNULongName | GNULongLink | XGlobalHeader | XHeader => (),
             _ => {
                 dest.write_file(&path, &mut entry, is_executable)?;
             }
-- 
2.43.0


From 45db3732e1fb1480b8ae038a2510875cc94859a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:14 +0000
Subject: [PATCH 26/52] fix: install the best compatible pinned artifact, not
 the worst

---
 src/env.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/env.rs b/src/env.rs
index 1403593..7282bd1 100644
--- a/src/env.rs
+++ b/src/env.rs
@@ -58,7 +58,8 @@ where
                 None
             })
             .collect::<Vec<_>>();
-        scored_candidates.sort_unstable_by_key(|(_, score)| *score);
+        // best (highest) score first
+        scored_candidates.sort_by_key(|(_, score)| std::cmp::Reverse(*score));
         for (ai, _) in scored_candidates {
             if ai.hash.is_none() {
                 warn!("best scoring artifact {} has no hash", ai.name);
-- 
2.43.0


From 9d8f5c72ca25d9cf403c6c14a73cde0efe809dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:20 +0000
Subject: [PATCH 27/52] fix: when several requirements mention the same
 package, enforce all of them

---
 src/resolve.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/resolve.rs b/src/resolve.rs
index 51ba08c..4129435 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -706,6 +706,17 @@ impl Display for ResPkg {
     }
 }
 
+/// Add a constraint to any that are there already: the same package can be mentioned by
+/// several requirements, and they all have to hold.
+fn add_dependency(
+    dc: &mut DependencyConstraints<ResPkg, Version>,
+    pkg: ResPkg,
+    range: &Range<Version>,
+) {
+    let combined = dc.get(&pkg).unwrap_or(&Range::any()).intersection(range);
+    dc.insert(pkg, combined);
+}
+
 impl<'a> PubgrubState<'a> {
     fn requirements_to_pubgrub<'r, R, I>(
         &self,
@@ -742,7 +753,7 @@ impl<'a> PubgrubState<'a> {
                 let pkg = ResPkg::Package(req.name.clone(), maybe_extra);
                 let range = specifiers_to_pubgrub(&req.specifiers)?;
                 trace!("adding dependency: {} {}", pkg, range);
-                dc.insert(pkg, range);
+                add_dependency(dc, pkg, &range);
             }
         }
         Ok(())
@@ -863,9 +874,10 @@ impl<'a> pubgrub::solver::DependencyProvider<ResPkg, Version> for PubgrubState<'
                             inner.as_given()
                         ))?;
                     }
-                    dc.insert(
+                    add_dependency(
+                        &mut dc,
                         ResPkg::Package(name.clone(), None),
-                        Range::exact(version.clone()),
+                        &Range::exact(version.clone()),
                     );
                 }
 
-- 
2.43.0


From 33080846bd7f1fbf0605e828442110353f4c8f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:27 +0000
Subject: [PATCH 28/52] fix: don't overflow when reporting a failed resolution
 that involves a '>' constraint

---
 src/vocab/version.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/vocab/version.rs b/src/vocab/version.rs
index e126f29..94c2922 100644
--- a/src/vocab/version.rs
+++ b/src/vocab/version.rs
@@ -57,7 +57,11 @@ impl Version {
         // - If there's a +local suffix, then the versions that come right after are the
         // ones that append more segments to it. An empty segment isn't something that
         // can appear in a real version, but it's smaller than every segment that can.
-        if !new.0.local.is_empty() {
+        //
+        // - u32::MAX can't be incremented. It doesn't appear in real versions, but it can
+        //   in the bounds of a range (e.g. "> 1.0" starts at 1.0.post(MAX)).
+        let saturated = new.0.dev.or(new.0.post) == Some(u32::MAX);
+        if !new.0.local.is_empty() || saturated {
             new.0
                 .local
                 .push(pep440::LocalVersion::StringComponent("".into()));
-- 
2.43.0


From fff0427db8eb7f9951ed32f386237158de13396a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:20 +0000
Subject: [PATCH 29/52] fix: when a release has contradictory dependencies, try
 others instead of giving up

---
 src/resolve.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/resolve.rs b/src/resolve.rs
index 4129435..6c14d9d 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -881,6 +881,14 @@ impl<'a> pubgrub::solver::DependencyProvider<ResPkg, Version> for PubgrubState<'
                     );
                 }
 
+                // pubgrub gives up completely when it sees a dependency on itself, or on
+                // the empty set. But it's only this version that's no good (if that).
+                let self_ok = dc.remove(pkg).map_or(true, |r| r.contains(version));
+                if !self_ok || dc.values().any(|r| r == &Range::none()) {
+                    warn!("{} {} has contradictory dependencies; ignoring it", pkg, version);
+                    return Ok(Dependencies::Unknown);
+                }
+
                 trace!("<---- dependencies complete");
                 Ok(Dependencies::Known(dc))
             }
-- 
2.43.0


From 5d865cc55412c41fe6b62b54343bf4642107583e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:28 +0000
Subject: [PATCH 30/52] fix: when a release lacks a requested extra, try others
 instead of giving up

---
 src/resolve.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/resolve.rs b/src/resolve.rs
index 6c14d9d..abf0802 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -868,11 +868,13 @@ impl<'a> pubgrub::solver::DependencyProvider<ResPkg, Version> for PubgrubState<'
 
                 if let Some(inner) = extra {
                     if !metadata.extras.contains(inner) {
-                        Err(eyre!(
-                            "package {} has no extra [{}]",
+                        warn!(
+                            "{} {} has no extra [{}]; ignoring this version",
                             name.as_given(),
+                            version,
                             inner.as_given()
-                        ))?;
+                        );
+                        return Ok(Dependencies::Unknown);
                     }
                     add_dependency(
                         &mut dc,
-- 
2.43.0


From 8096f49a2a268d8dddd8d5e7c16a7b243ecd54b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:34 +0000
Subject: [PATCH 31/52] fix: skip releases whose metadata excludes our python,
 even if the index didn't say so

---
 src/resolve.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/resolve.rs b/src/resolve.rs
index abf0802..234063d 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -814,11 +814,12 @@ impl<'a> pubgrub::solver::DependencyProvider<ResPkg, Version> for PubgrubState<'
                         .requires_python
                         .satisfied_by(&self.python_full_version)?
                     {
-                        Err(eyre!(
+                        warn!(
                             "{} {}: bad requires-python, but pypi didn't tell us!",
                             name.as_given(),
                             version
-                        ))?;
+                        );
+                        continue;
                     }
                     trace!("<---- decision: {} {}", respkg.borrow(), version);
                     return Ok((respkg, Some(version.clone())));
-- 
2.43.0


From 726425a1477471f47cbf704944ef760027081a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:39 +0000
Subject: [PATCH 32/52] fix: skip releases that have no file of the kind that
 we're looking for

---
 src/resolve.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/resolve.rs b/src/resolve.rs
index 234063d..e9f8893 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -384,6 +384,11 @@ fn fetch_and_sort_versions<'a>(
             continue;
         }
         for ai in ais {
+            // if we have a python already, then we're looking for packages to install
+            // in it; otherwise, we're looking for the python itself
+            if ai.is::<Pybi>() != python_version.is_none() {
+                continue;
+            }
             if ai.yanked.yanked {
                 let is_pinned = match (&hash_hints, &ai.hash) {
                     (Some(hints), Some(hash)) => hints.contains(&hash),
-- 
2.43.0


From e08852f9a653d0c0e4987520e0f0d89192c11c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:59 +0000
Subject: [PATCH 33/52] fix: don't confuse 1.0 and 1.0+local when resolving

---
 src/vocab/version.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/vocab/version.rs b/src/vocab/version.rs
index 94c2922..6ceb2fd 100644
--- a/src/vocab/version.rs
+++ b/src/vocab/version.rs
@@ -57,11 +57,7 @@ impl Version {
         // - If there's a +local suffix, then the versions that come right after are the
         // ones that append more segments to it. An empty segment isn't something that
         // can appear in a real version, but it's smaller than every segment that can.
-        //
-        // - u32::MAX can't be incremented. It doesn't appear in real versions, but it can
-        //   in the bounds of a range (e.g. "> 1.0" starts at 1.0.post(MAX)).
-        let saturated = new.0.dev.or(new.0.post) == Some(u32::MAX);
-        if !new.0.local.is_empty() || saturated {
+        if !new.0.local.is_empty() {
             new.0
                 .local
                 .push(pep440::LocalVersion::StringComponent("".into()));
@@ -116,6 +112,13 @@ impl pubgrub::version::Version for Version {
     }
 
     fn bump(&self) -> Self {
-        self.next()
+        // pubgrub uses [v, bump(v)) to mean exactly v, so unlike with next(), 1.0+local
+        // mustn't be between 1.0 and its successor. (And unlike next(), this can't
+        // overflow, even on artificial versions like the lower bound of "> 1.0".)
+        let mut new = self.clone();
+        new.0
+            .local
+            .push(pep440::LocalVersion::StringComponent("".into()));
+        new
     }
 }
-- 
2.43.0


From 6d884fa73ad067e948afc73a1c84db6fce74e64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:02 +0000
Subject: [PATCH 34/52] fix: hand out uncached downloads positioned at their
 start, not their end

---
 src/package_db/http/http.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/package_db/http/http.rs b/src/package_db/http/http.rs
index b3f8065..db386d7 100644
--- a/src/package_db/http/http.rs
+++ b/src/package_db/http/http.rs
@@ -65,6 +65,7 @@ impl ReadPlusMaybeSeek {
             ReadPlusMaybeSeek::CannotSeek(mut inner) => {
                 let mut tmp = tempfile::tempfile()?;
                 std::io::copy(&mut inner, &mut tmp)?;
+                tmp.rewind()?;
                 Box::new(tmp)
             }
         })
-- 
2.43.0


From e82aa468fc8c52694c635e55a307e312c9be31cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:18 +0000
Subject: [PATCH 35/52] fix: only build from sdists that the blueprint is
 pinned to

---
 src/env.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/env.rs b/src/env.rs
index 7282bd1..2752de6 100644
--- a/src/env.rs
+++ b/src/env.rs
@@ -184,7 +184,14 @@ impl EnvForest {
                         if let Some(sdist_ai) = db
                             .artifacts_for_version(&pin.name, &pin.version)?
                             .iter()
-                            .find(|ai| ai.is::<Sdist>())
+                            .find(|ai| {
+                                // only use what we're pinned to
+                                ai.is::<Sdist>()
+                                    && ai
+                                        .hash
+                                        .as_ref()
+                                        .map_or(false, |hash| pin.hashes.contains(hash))
+                            })
                         {
                             context!("using sdist from {}", sdist_ai.url);
                             let sdist_hash = sdist_ai.require_hash()?;
-- 
2.43.0


From b5ce67118ee2995bf9136e44f8afa9435893d581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:11 +0000
Subject: [PATCH 36/52] fix: build metadata for the platform we're resolving
 for

---
 src/resolve.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/resolve.rs b/src/resolve.rs
index e9f8893..4f6eb0f 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -282,11 +282,14 @@ impl Brief {
             .map(VersionHints::from)
             .unwrap_or_else(VersionHints::new);
         let (pybi_ai, platform) = resolve_pybi(db, self, platforms, &version_hints)?;
+        // same as when installing, so that if building metadata gives us a whole wheel,
+        // it's one that we'll be able to install
+        let platform_slice = [platform];
         let wheel_builder = WheelBuilder::new(
             db,
             pybi_ai.name.distribution(),
             pybi_ai.name.version(),
-            PybiPlatform::native_platforms()?,
+            &platform_slice,
             build_stack,
         )?;
         let (_, pybi_metadata) = db
-- 
2.43.0


From 819c07acd4dd07528feed6f9e93849a463ce7346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:39 +0000
Subject: [PATCH 37/52] fix: don't take cached metadata of a pybi for that of a
 wheel, or the other way around

---
 src/package_db/package_db.rs  |  9 +++++++--
 src/vocab/artifact_formats.rs | 11 +++++++++++
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/package_db/package_db.rs b/src/package_db/package_db.rs
index 002a55b..adbdd89 100644
--- a/src/package_db/package_db.rs
+++ b/src/package_db/package_db.rs
@@ -137,8 +137,13 @@ impl<'db> PackageDB<'db> {
 
         // have we cached any of these artifacts' metadata before?
         // don't use matching() here because that filters for binary artifacts, and we
-        // cache metadata for wheels as well.
-        for ai in artifacts.iter().map(|b| b.borrow()) {
+        // cache metadata for wheels as well. (But do skip artifacts of other kinds, like
+        // pybis when we want wheels, because their metadata isn't ours.)
+        for ai in artifacts
+            .iter()
+            .map(|b| b.borrow())
+            .filter(|ai| ai.is::<T>() || T::is_source(ai))
+        {
             if let Some(cm) = self.metadata_from_cache(ai) {
                 return Ok((ai, T::parse_metadata(cm.as_slice())?));
             }
diff --git a/src/vocab/artifact_formats.rs b/src/vocab/artifact_formats.rs
index 3af87a6..1214774 100644
--- a/src/vocab/artifact_formats.rs
+++ b/src/vocab/artifact_formats.rs
@@ -133,6 +133,9 @@ pub trait BinaryArtifact: Artifact {
     //
     // (Also, if we ever get an sdist format for pybis, then we're prepared!)
 
+    // Whether 'ai' is something that we could be built from
+    fn is_source(ai: &ArtifactInfo) -> bool;
+
     fn locally_built_metadata(
         ctx: &Self::Builder<'_>,
         ai: &ArtifactInfo,
@@ -339,6 +342,10 @@ impl BinaryArtifact for Wheel {
 
     type Builder<'a> = crate::package_db::WheelBuilder<'a>;
 
+    fn is_source(ai: &ArtifactInfo) -> bool {
+        ai.is::<Sdist>()
+    }
+
     fn locally_built_metadata(
         builder: &Self::Builder<'_>,
         ai: &ArtifactInfo,
@@ -396,6 +403,10 @@ impl BinaryArtifact for Pybi {
         Ok((metadata_blob, metadata))
     }
 
+    fn is_source(_ai: &ArtifactInfo) -> bool {
+        false
+    }
+
     fn locally_built_metadata(
         _ctx: &Self::Builder<'_>,
         _ai: &ArtifactInfo,
-- 
2.43.0


From 754d4590c517b818be16d9222a72a0aebaf1eef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:45 +0000
Subject: [PATCH 38/52] fix: let builds be tried again after a hook failed
 halfway

---
 src/package_db/build_wheel.rs               | 14 ++++++----
 src/package_db/data-files/build-frontend.py | 30 ++++++++++++++++-----
 2 files changed, 33 insertions(+), 11 deletions(-)

diff --git a/src/package_db/build_wheel.rs b/src/package_db/build_wheel.rs
index da575b2..e1db28c 100644
--- a/src/package_db/build_wheel.rs
+++ b/src/package_db/build_wheel.rs
@@ -354,12 +354,16 @@ impl<'a> WheelBuilder<'a> {
         let build_wheel = handle.join("build_wheel");
         let prepare_metadata_for_build_wheel =
             handle.join("prepare_metadata_for_build_wheel");
+        // The directories can be left over from a hook that failed; these files are only
+        // written when one succeeded.
+        let build_wheel_out = handle.join("build_wheel.out");
+        let prepare_metadata_for_build_wheel_out =
+            handle.join("prepare_metadata_for_build_wheel.out");
         loop {
             // If we have a wheel, we're definitely done, no matter what our goal was
-            if build_wheel.exists() {
+            if build_wheel_out.exists() {
                 // Get the name the build backend returned
-                let name =
-                    String::from_utf8(fs::read(handle.join("build_wheel.out"))?)?;
+                let name = String::from_utf8(fs::read(&build_wheel_out)?)?;
                 let mut wheel_name: WheelName = name.parse()?;
                 let wheel_path = build_wheel.join(&name);
                 // Get the most-restrictive wheel tag compatible with the build
@@ -390,10 +394,10 @@ impl<'a> WheelBuilder<'a> {
 
             // Or if our goal is metadata and we have it, we're done
             if goal == Pep517Goal::WheelMetadata
-                && prepare_metadata_for_build_wheel.exists()
+                && prepare_metadata_for_build_wheel_out.exists()
             {
                 let name = String::from_utf8(fs::read(
-                    handle.join("prepare_metadata_for_build_wheel.out"),
+                    &prepare_metadata_for_build_wheel_out,
                 )?)?;
                 return Ok(Pep517Succeeded::WheelMetadata {
                     handle,
diff --git a/src/package_db/data-files/build-frontend.py b/src/package_db/data-files/build-frontend.py
index afa8566..1db0b45 100644
--- a/src/package_db/data-files/build-frontend.py
+++ b/src/package_db/data-files/build-frontend.py
@@ -6,6 +6,7 @@ from pathlib import Path
 from importlib import import_module
 from sys import exit
 from json import loads, dumps
+from shutil import rmtree
 
 ################################################################
 # Begin janky attempt to workaround
@@ -31,6 +32,23 @@ distutils.sysconfig.get_python_inc = get_python_inc
 (work_dir, goal, binary_wheel_tag) = sys.argv[1:]
 
 work_dir = Path(work_dir)
+
+
+# posy takes these files as the sign that a hook has succeeded, so they appear last, and
+# all at once.
+def report(name, text):
+    tmp = work_dir / (name + ".tmp")
+    tmp.write_text(text, "utf-8")
+    tmp.replace(work_dir / name)
+
+
+# An earlier attempt might have failed halfway through.
+def fresh_dir(path):
+    if path.exists():
+        rmtree(path)
+    path.mkdir()
+
+
 build_system = loads((work_dir / "build-system.json").read_text("utf-8"))
 
 backend_paths = []
@@ -57,25 +75,25 @@ if not (work_dir / "get_requires_for_build_wheel").exists():
         requires = []
     else:
         requires = f()
-    (work_dir / "get_requires_for_build_wheel").write_text(dumps(requires), "utf-8")
+    report("get_requires_for_build_wheel", dumps(requires))
     if requires:
         exit(0)
 
 metadata_dir = work_dir / "prepare_metadata_for_build_wheel"
 
 if goal == "WheelMetadata" and hasattr(backend, "prepare_metadata_for_build_wheel"):
-    metadata_dir.mkdir()
+    fresh_dir(metadata_dir)
     dist_info = backend.prepare_metadata_for_build_wheel(str(metadata_dir))
-    (work_dir / "prepare_metadata_for_build_wheel.out").write_text(dist_info, "utf-8")
+    report("prepare_metadata_for_build_wheel.out", dist_info)
     exit(0)
 
 wheel_dir = work_dir / "build_wheel"
-wheel_dir.mkdir()
+fresh_dir(wheel_dir)
 wheel_basename = backend.build_wheel(
     str(wheel_dir),
     metadata_directory=str(metadata_dir) if metadata_dir.exists() else None,
 )
 
-(work_dir / "build_wheel.out").write_text(wheel_basename, "utf-8")
-(work_dir / "build_wheel.binary_wheel_tag").write_text(binary_wheel_tag, "utf-8")
+report("build_wheel.binary_wheel_tag", binary_wheel_tag)
+report("build_wheel.out", wheel_basename)
 exit(0)
-- 
2.43.0


From a058900ed75349eee558fc3f6c8cd984d1a6bebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:45 +0000
Subject: [PATCH 39/52] fix: pass build_wheel the .dist-info directory, not the
 one it's in

---
 src/package_db/data-files/build-frontend.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/package_db/data-files/build-frontend.py b/src/package_db/data-files/build-frontend.py
index 1db0b45..fc9fd6f 100644
--- a/src/package_db/data-files/build-frontend.py
+++ b/src/package_db/data-files/build-frontend.py
@@ -89,9 +89,15 @@ if goal == "WheelMetadata" and hasattr(backend, "prepare_metadata_for_build_whee
 
 wheel_dir = work_dir / "build_wheel"
 fresh_dir(wheel_dir)
+# PEP 517: this is the .dist-info directory itself
+try:
+    dist_info = (work_dir / "prepare_metadata_for_build_wheel.out").read_text("utf-8")
+except FileNotFoundError:
+    prepared_metadata = None
+else:
+    prepared_metadata = str(metadata_dir / dist_info)
 wheel_basename = backend.build_wheel(
-    str(wheel_dir),
-    metadata_directory=str(metadata_dir) if metadata_dir.exists() else None,
+    str(wheel_dir), metadata_directory=prepared_metadata
 )
 
 report("build_wheel.binary_wheel_tag", binary_wheel_tag)
-- 
2.43.0


From cd1be1c36d39ef7641689147733277e466345f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:45 +0000
Subject: [PATCH 40/52] fix: copy built wheels into the wheel cache atomically,
 and keep the original

---
 src/package_db/build_wheel.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/package_db/build_wheel.rs b/src/package_db/build_wheel.rs
index e1db28c..4ec6e42 100644
--- a/src/package_db/build_wheel.rs
+++ b/src/package_db/build_wheel.rs
@@ -384,9 +384,12 @@ impl<'a> WheelBuilder<'a> {
                 };
                 fs::create_dir_all(&wheel_cache_handle)?;
                 let target_path = wheel_cache_handle.join(wheel_name.to_string());
-                if fs::rename(&wheel_path, &target_path).is_err() {
-                    fs::copy(&wheel_path, &target_path)?;
-                }
+                // Leave the original in place, because we'll be back here if someone needs
+                // this wheel again, and don't let anyone see half a copy.
+                let tempdir = wheel_cache_handle.tempdir()?;
+                let temp_path = tempdir.path().join(wheel_name.to_string());
+                fs::copy(&wheel_path, &temp_path)?;
+                fs::rename(&temp_path, &target_path)?;
                 let opened = fs::File::open(target_path)?;
                 let wheel = Wheel::new(wheel_name, Box::new(opened))?;
                 return Ok(Pep517Succeeded::Wheel { wheel });
-- 
2.43.0


From 00e2ab729284f1d4b10bb072288f755d825525cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:14 +0000
Subject: [PATCH 41/52] fix: fail builds whose backend exits without any
 result, rather than repeating them for ever

---
 src/package_db/build_wheel.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/package_db/build_wheel.rs b/src/package_db/build_wheel.rs
index 4ec6e42..cbc7eae 100644
--- a/src/package_db/build_wheel.rs
+++ b/src/package_db/build_wheel.rs
@@ -356,6 +356,7 @@ impl<'a> WheelBuilder<'a> {
             handle.join("prepare_metadata_for_build_wheel");
         // The directories can be left over from a hook that failed; these files are only
         // written when one succeeded.
+        let get_requires_for_build_wheel = handle.join("get_requires_for_build_wheel");
         let build_wheel_out = handle.join("build_wheel.out");
         let prepare_metadata_for_build_wheel_out =
             handle.join("prepare_metadata_for_build_wheel.out");
@@ -408,7 +409,17 @@ impl<'a> WheelBuilder<'a> {
                 });
             }
             // Otherwise, we're not done. Turn the crank again.
+            let had_requires = get_requires_for_build_wheel.exists();
             self.pep517_step(&handle, goal, new_build_stack)?;
+            // The first turn might only get us the requirements for the second, but if we
+            // don't get anything, then we'd be turning it forever.
+            let new_requires = !had_requires && get_requires_for_build_wheel.exists();
+            let reached_goal = build_wheel_out.exists()
+                || (goal == Pep517Goal::WheelMetadata
+                    && prepare_metadata_for_build_wheel_out.exists());
+            if !new_requires && !reached_goal {
+                bail!("Build backend exited without a result");
+            }
         }
     }
 
-- 
2.43.0


From 538c9b3f7f406deeb2cae60136d91f7e8dd409f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:07 +0000
Subject: [PATCH 42/52] fix: fail builds whose hook didn't make what it says it
 did, rather than keeping that for later attempts

---
 src/package_db/data-files/build-frontend.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/package_db/data-files/build-frontend.py b/src/package_db/data-files/build-frontend.py
index fc9fd6f..eb53e05 100644
--- a/src/package_db/data-files/build-frontend.py
+++ b/src/package_db/data-files/build-frontend.py
@@ -84,6 +84,9 @@ metadata_dir = work_dir / "prepare_metadata_for_build_wheel"
 if goal == "WheelMetadata" and hasattr(backend, "prepare_metadata_for_build_wheel"):
     fresh_dir(metadata_dir)
     dist_info = backend.prepare_metadata_for_build_wheel(str(metadata_dir))
+    if not (metadata_dir / dist_info).is_dir():
+        print(f"prepare_metadata_for_build_wheel didn't make {dist_info}")
+        exit(1)
     report("prepare_metadata_for_build_wheel.out", dist_info)
     exit(0)
 
@@ -100,6 +103,9 @@ wheel_basename = backend.build_wheel(
     str(wheel_dir), metadata_directory=prepared_metadata
 )
 
+if not (wheel_dir / wheel_basename).is_file():
+    print(f"build_wheel didn't make {wheel_basename}")
+    exit(1)
 report("build_wheel.binary_wheel_tag", binary_wheel_tag)
 report("build_wheel.out", wheel_basename)
 exit(0)
-- 
2.43.0


From 59f47507947091cabff5930d87688d05ab49baf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:04 +0000
Subject: [PATCH 43/52] fix: don't put the current directory on sys.path of
 environments without packages

---
 src/data-files/sitecustomize.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/data-files/sitecustomize.py b/src/data-files/sitecustomize.py
index 3236cd9..0cc76c2 100644
--- a/src/data-files/sitecustomize.py
+++ b/src/data-files/sitecustomize.py
@@ -3,7 +3,9 @@ import os, sys, site
 if "POSY_PYTHON_PACKAGES" in os.environ:
     paths = os.environ["POSY_PYTHON_PACKAGES"].split(os.pathsep)
     for path in paths:
-        site.addsitedir(path)
+        # with no packages, the variable is empty, and that's not the current directory
+        if path:
+            site.addsitedir(path)
 else:
     sys.stderr.write("This Python is managed by, and should be launched by, Posy.\n")
     sys.stderr.write("Unexpected things may happen if you continue.\n")
-- 
2.43.0


From 1584cba7cc1d82400d5ce1fb72343e85bd8ed106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:47 +0000
Subject: [PATCH 44/52] fix: report build loops through an environment being
 made, rather than waiting for ourselves

---
 src/env.rs | 83 ++++++++++++++++++++++++++++++------------------------
 1 file changed, 46 insertions(+), 37 deletions(-)

diff --git a/src/env.rs b/src/env.rs
index 2752de6..b03b2b8 100644
--- a/src/env.rs
+++ b/src/env.rs
@@ -195,53 +195,62 @@ impl EnvForest {
                         {
                             context!("using sdist from {}", sdist_ai.url);
                             let sdist_hash = sdist_ai.require_hash()?;
-                            let handle = self.store.lock(&sdist_hash)?;
-                            fs::create_dir_all(&handle)?;
-                            // first check if we already have any unpacked wheels
-                            // that we can use
-                            let mut candidates = Vec::new();
-                            for entry in fs::read_dir(&handle)? {
-                                let entry = entry?;
-                                let name = match entry.file_name().into_string() {
-                                    Ok(name) => name,
-                                    Err(_) => continue,
-                                };
-                                if !name.ends_with(".whl") {
-                                    continue;
+                            let mut local_wheel: Option<Wheel> = None;
+                            loop {
+                                let handle = self.store.lock(&sdist_hash)?;
+                                fs::create_dir_all(&handle)?;
+                                // first check if we already have any unpacked wheels
+                                // that we can use
+                                let mut candidates = Vec::new();
+                                for entry in fs::read_dir(&handle)? {
+                                    let entry = entry?;
+                                    let name = match entry.file_name().into_string() {
+                                        Ok(name) => name,
+                                        Err(_) => continue,
+                                    };
+                                    if !name.ends_with(".whl") {
+                                        continue;
+                                    }
+                                    let wheel_name: WheelName =
+                                        name.as_str().try_into()?;
+                                    if let Some(score) = wheel_platform
+                                        .max_compatibility(wheel_name.all_tags())
+                                    {
+                                        candidates.push((score, name));
+                                    }
                                 }
-                                let wheel_name: WheelName = name.as_str().try_into()?;
-                                if let Some(score) = wheel_platform
-                                    .max_compatibility(wheel_name.all_tags())
+                                if let Some((_, name)) =
+                                    candidates.iter().max_by_key(|(score, _)| score)
                                 {
-                                    candidates.push((score, name));
+                                    break (sdist_ai, handle.join(name));
+                                }
+                                if let Some(local_wheel) = &local_wheel {
+                                    let tmp = handle.tempdir()?;
+                                    local_wheel.unpack(
+                                        &paths,
+                                        &trampoline_maker,
+                                        WriteTreeFS::new(&tmp),
+                                    )?;
+                                    let wheel_root =
+                                        handle.join(local_wheel.name().to_string());
+                                    fs::rename(tmp.into_path(), &wheel_root)?;
+                                    break (sdist_ai, wheel_root);
                                 }
-                            }
-                            if let Some((_, name)) =
-                                candidates.iter().max_by_key(|(score, _)| score)
-                            {
-                                (sdist_ai, handle.join(name))
-                            } else {
                                 // couldn't find one already installed... try to
-                                // build one and install it
+                                // build one and install it. Don't hold the lock
+                                // meanwhile: if building it needs this same package
+                                // installed, we'd wait for ourselves.
+                                drop(handle);
                                 // unwrap is ok b/c we know we're passing an sdist
                                 // ai here
-                                let local_wheel = db
-                                    .get_locally_built_binary::<Wheel>(
+                                local_wheel = Some(
+                                    db.get_locally_built_binary::<Wheel>(
                                         sdist_ai,
                                         &wheel_builder,
                                         &wheel_platform,
                                     )
-                                    .unwrap()?;
-                                let tmp = handle.tempdir()?;
-                                local_wheel.unpack(
-                                    &paths,
-                                    &trampoline_maker,
-                                    WriteTreeFS::new(&tmp),
-                                )?;
-                                let wheel_root =
-                                    handle.join(local_wheel.name().to_string());
-                                fs::rename(tmp.into_path(), &wheel_root)?;
-                                (sdist_ai, wheel_root)
+                                    .unwrap()?,
+                                );
                             }
                         } else {
                             bail!("no compatible wheel or sdist found");
-- 
2.43.0


From f8ea66d4ec7874cb9c7f43061677164d9f0ceb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:47 +0000
Subject: [PATCH 45/52] fix: lock the wheel cache before the build directory,
 always

---
 src/package_db/build_wheel.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/package_db/build_wheel.rs b/src/package_db/build_wheel.rs
index cbc7eae..dd13826 100644
--- a/src/package_db/build_wheel.rs
+++ b/src/package_db/build_wheel.rs
@@ -338,6 +338,12 @@ impl<'a> WheelBuilder<'a> {
         new_build_stack: &[&PackageName],
     ) -> Result<Pep517Succeeded> {
         let sdist_hash = sdist_ai.require_hash()?;
+        // We might end up with a wheel even if all we want is metadata. Always lock in
+        // this order, so that two processes can't end up waiting for each other.
+        let wheel_cache_handle = match wheel_cache_handle {
+            Some(h) => h,
+            None => self.db.wheel_cache.lock(&sdist_hash)?,
+        };
         let handle = self.db.build_store.lock(&sdist_hash)?;
 
         if !handle.exists() {
@@ -379,10 +385,6 @@ impl<'a> WheelBuilder<'a> {
                     wheel_name.arch_tags = vec![build_arch.into()]
                 }
                 // Store the wheel in the wheel cache
-                let wheel_cache_handle = match wheel_cache_handle {
-                    Some(h) => h,
-                    None => self.db.wheel_cache.lock(&sdist_hash)?,
-                };
                 fs::create_dir_all(&wheel_cache_handle)?;
                 let target_path = wheel_cache_handle.join(wheel_name.to_string());
                 // Leave the original in place, because we'll be back here if someone needs
-- 
2.43.0


From e9a1aaae58a1bec2c7103d67aece5abe10c53b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:23 +0000
Subject: [PATCH 46/52] fix: accept entry points with one-letter and non-ASCII
 names, but none outside of a section

---
 src/vocab/entry_points.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vocab/entry_points.rs b/src/vocab/entry_points.rs
index ebea403..7c4339c 100644
--- a/src/vocab/entry_points.rs
+++ b/src/vocab/entry_points.rs
@@ -21,9 +21,9 @@ static ENTRY_LINE: Lazy<Regex> = Lazy::new(|| {
           ^
           (?P<name> .*?)
           \s* = \s*
-          (?P<module> [a-zA-Z_][a-zA-Z0-9_.]+)
+          (?P<module> [^\W\d][\w.]*)
           \s*
-          (: \s* (?P<object> [a-zA-Z_][a-zA-Z0-9_.]+))?
+          (: \s* (?P<object> [^\W\d][\w.]*))?
           \s*
           # 'Consumers should support parsing [extras] ... but may then ignore them'
           (\[ .* \])?
@@ -43,7 +43,7 @@ pub struct Entrypoint {
 }
 
 pub fn parse_entry_points(contents: &str) -> Result<HashMap<String, Vec<Entrypoint>>> {
-    let mut current_section_name = Some(String::new());
+    let mut current_section_name: Option<String> = None;
     let mut current_entries = Vec::<Entrypoint>::new();
     let mut result = HashMap::<String, Vec<Entrypoint>>::new();
     for line in contents.split('\n') {
-- 
2.43.0


From f5f367588ca6925b8abb82becb52fa26a8c9762a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:42 +0000
Subject: [PATCH 47/52] fix: run entry points of modules that their package
 hides behind an attribute

---
 src/vocab/artifact_formats.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/vocab/artifact_formats.rs b/src/vocab/artifact_formats.rs
index 1214774..623a695 100644
--- a/src/vocab/artifact_formats.rs
+++ b/src/vocab/artifact_formats.rs
@@ -443,15 +443,18 @@ fn script_for_entrypoint(entry: &Entrypoint, script_type: ScriptType) -> Vec<u8>
     } else {
         "".into()
     };
+    // Not "import {module}": in that case, if package "a" has an attribute "b" that hides
+    // its submodule "a.b", then we'd find the attribute instead.
     indoc::formatdoc! {r###"
          #!python{w}
          # -*- coding: utf-8 -*-
          import sys
-         import {module}
+         from importlib import import_module
+         entry_module = import_module("{module}")
          if __name__ == "__main__":
              if sys.argv[0].endswith(".exe"):
                  sys.argv[0] = sys.argv[0][:-4]
-             sys.exit({module}{suffix}())
+             sys.exit(entry_module{suffix}())
     "###}
     .into()
 }
-- 
2.43.0


From 5a8e6e3b180ed79e858904ffb0757bdbf51fc659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:38 +0000
Subject: [PATCH 48/52] fix: keep the encoding that '#!python' scripts declare

---
 src/trampolines/mod.rs | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/trampolines/mod.rs b/src/trampolines/mod.rs
index fb6c69d..131f85b 100644
--- a/src/trampolines/mod.rs
+++ b/src/trampolines/mod.rs
@@ -60,9 +60,21 @@ impl TrampolineMaker {
             ScriptType::Console => UNIX_TEMPLATE.into(),
             ScriptType::GUI => UNIX_TEMPLATE.replace("POSY_PYTHON", "POSY_PYTHONW"),
         };
-        let mut out = prefix.into_bytes();
         // indoc! removes the newline that ends the template
-        out.push(b'\n');
+        let prefix = prefix + "\n";
+        let mut out = Vec::new();
+        match find_coding_line(script) {
+            // Python only looks for this on the first two lines, so it has to move up
+            Some(line) => {
+                let (shebang, rest) = prefix.split_once('\n').unwrap();
+                out.extend_from_slice(shebang.as_bytes());
+                out.push(b'\n');
+                out.extend_from_slice(line);
+                out.push(b'\n');
+                out.extend_from_slice(rest.as_bytes());
+            }
+            None => out.extend_from_slice(prefix.as_bytes()),
+        }
         out.extend_from_slice(script);
         out
     }
@@ -89,6 +101,16 @@ impl TrampolineMaker {
     }
 }
 
+// The line of the script that declares its encoding (PEP 263), without its end. The script
+// comes without its #! line, so this can only be its first line.
+fn find_coding_line(script: &[u8]) -> Option<&[u8]> {
+    static CODING_LINE: Lazy<regex::bytes::Regex> = Lazy::new(|| {
+        regex::bytes::Regex::new(r"^[ \t\f]*#[^\r\n]*?coding[:=][ \t]*[-a-zA-Z0-9_.]+[^\r\n]*")
+            .unwrap()
+    });
+    CODING_LINE.find(script).map(|m| m.as_bytes())
+}
+
 const UNIX_TEMPLATE: &str = indoc::indoc! {r#"
     #!/bin/sh
     ''':'
-- 
2.43.0


From 80ee21d1caf03a4aa0d0d637dd179c7ed8960623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:57 +0000
Subject: [PATCH 49/52] fix: don't put the time of installation into windows
 trampolines

---
 src/trampolines/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/trampolines/mod.rs b/src/trampolines/mod.rs
index 131f85b..a160f0f 100644
--- a/src/trampolines/mod.rs
+++ b/src/trampolines/mod.rs
@@ -88,7 +88,10 @@ impl TrampolineMaker {
         {
             let mut z = zip::ZipWriter::new(&mut suffix);
             let options = zip::write::FileOptions::default()
-                .compression_method(zip::CompressionMethod::Stored);
+                .compression_method(zip::CompressionMethod::Stored)
+                // not the current time: installing the same wheel again should give
+                // the same files
+                .last_modified_time(zip::DateTime::default());
             // unwrap() because we shouldn't be able to hit errors when writing to
             // memory
             z.start_file("__main__.py", options).unwrap();
-- 
2.43.0


From 745fc4b9237869ea8159c0df699c9089fc5fcdbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:37 +0000
Subject: [PATCH 50/52] fix: keep the current directory off sys.path without
 packages in env_vars

instead of in sitecustomize.py, which is left as it was
---
 src/data-files/sitecustomize.py |  4 +---
 src/env.rs                      | 16 ++++++++++++----
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/data-files/sitecustomize.py b/src/data-files/sitecustomize.py
index 0cc76c2..3236cd9 100644
--- a/src/data-files/sitecustomize.py
+++ b/src/data-files/sitecustomize.py
@@ -3,9 +3,7 @@ import os, sys, site
 if "POSY_PYTHON_PACKAGES" in os.environ:
     paths = os.environ["POSY_PYTHON_PACKAGES"].split(os.pathsep)
     for path in paths:
-        # with no packages, the variable is empty, and that's not the current directory
-        if path:
-            site.addsitedir(path)
+        site.addsitedir(path)
 else:
     sys.stderr.write("This Python is managed by, and should be launched by, Posy.\n")
     sys.stderr.write("Unexpected things may happen if you continue.\n")
diff --git a/src/env.rs b/src/env.rs
index b03b2b8..ad3a9ec 100644
--- a/src/env.rs
+++ b/src/env.rs
@@ -321,6 +321,7 @@ impl EnvForest {
         bin_dirs.extend(wheel_roots.iter().map(|root| root.join("bin")));
 
         let lib_dirs = wheel_roots.iter().map(|root| root.join("lib")).collect();
+        let no_packages_dir = pybi_root.join("pybi-info");
 
         Ok(Env {
             platform_core_tag: pybi_platform.core_tag().into(),
@@ -329,6 +330,7 @@ impl EnvForest {
             pythonw,
             bin_dirs,
             lib_dirs,
+            no_packages_dir,
         })
     }
 }
@@ -342,6 +344,8 @@ pub struct Env {
     pub pythonw: PathBuf,
     pub bin_dirs: Vec<PathBuf>,
     pub lib_dirs: Vec<PathBuf>,
+    // a directory without anything to import
+    no_packages_dir: PathBuf,
 }
 
 impl Env {
@@ -358,10 +362,14 @@ impl Env {
         vars.push(("PATH", new_path));
         vars.push(("POSY_PYTHON", self.python.clone().into_os_string()));
         vars.push(("POSY_PYTHONW", self.pythonw.clone().into_os_string()));
-        vars.push((
-            "POSY_PYTHON_PACKAGES",
-            std::env::join_paths(&self.lib_dirs)?,
-        ));
+        // If there are no packages, we can't leave this empty: sitecustomize.py splits
+        // it into directories for sys.path, and an empty one would be the current
+        // directory.
+        let packages = match self.lib_dirs.as_slice() {
+            [] => std::slice::from_ref(&self.no_packages_dir),
+            lib_dirs => lib_dirs,
+        };
+        vars.push(("POSY_PYTHON_PACKAGES", std::env::join_paths(packages)?));
 
         Ok(vars)
     }
-- 
2.43.0


From 139486dd368bb46e92bfdbf4486aec3325e3d74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:33 +0000
Subject: [PATCH 51/52] fix: don't take error pages for the contents of files
 without a hash

---
 src/package_db/http/http.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/package_db/http/http.rs b/src/package_db/http/http.rs
index db386d7..999648c 100644
--- a/src/package_db/http/http.rs
+++ b/src/package_db/http/http.rs
@@ -358,10 +358,13 @@ impl HttpInner {
             (Some(hash), CacheMode::OnlyIfCached) => {
                 self.hash_cache.get(&hash).ok_or_else(|| NotCached.into())
             }
-            (_, CacheMode::NoStore) | (None, _) => Ok(self
-                .request(request, cache_mode)?
-                .into_body()
-                .force_seek()?),
+            (_, CacheMode::NoStore) | (None, _) => {
+                let response = self.request(request, cache_mode)?;
+                if !response.status().is_success() {
+                    bail!("error fetching {url}: {}", response.status());
+                }
+                Ok(response.into_body().force_seek()?)
+            }
         }
     }
 }
-- 
2.43.0


From 16cca9e73da7cda55396c828eaab058499753213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:17 +0000
Subject: [PATCH 52/52] fix: build with the pre-release of Python that was
 asked for

---
 src/package_db/build_wheel.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/package_db/build_wheel.rs b/src/package_db/build_wheel.rs
index dd13826..eb7942c 100644
--- a/src/package_db/build_wheel.rs
+++ b/src/package_db/build_wheel.rs
@@ -202,6 +202,12 @@ impl<'a> WheelBuilder<'a> {
         like: Option<&Blueprint>,
         new_build_stack: &[&PackageName],
     ) -> Result<(Blueprint, Env)> {
+        let allow_pre = if self.target_python_version.is_prerelease() {
+            AllowPre::Some([self.target_python.clone()].into())
+        } else {
+            Default::default()
+        };
+
         // if we've already resolved a version of this environment, then we can skip
         // over the tricky stuff and just re-use the pybi + any matching wheels
         if like.is_some() {
@@ -214,7 +220,7 @@ impl<'a> WheelBuilder<'a> {
                 })
                 .unwrap(),
                 requirements: reqs.into(),
-                allow_pre: Default::default(),
+                allow_pre,
             }
             .resolve(
                 self.db,
@@ -280,15 +286,10 @@ impl<'a> WheelBuilder<'a> {
         let mut found_python = None;
 
         for candidate in candidate_pyreqs {
-            let allow_pre = if self.target_python_version.is_prerelease() {
-                AllowPre::Some([self.target_python.clone()].into())
-            } else {
-                Default::default()
-            };
             let brief = Brief {
                 python: candidate,
                 requirements: Vec::new(),
-                allow_pre,
+                allow_pre: allow_pre.clone(),
             };
             let result =
                 brief.resolve(self.db, &self.build_platforms, None, new_build_stack);
@@ -313,7 +314,7 @@ impl<'a> WheelBuilder<'a> {
         let brief = Brief {
             python: pyreq,
             requirements: reqs.into(),
-            allow_pre: Default::default(),
+            allow_pre,
         };
         let blueprint = brief.resolve(
             self.db,
-- 
2.43.0

