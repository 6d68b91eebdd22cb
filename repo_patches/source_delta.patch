From b1c72f0201993850ca0c181358d729f7a93a96dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:55 +0000
Subject: [PATCH 01/19] fix: parse() of a duration with digits beyond u64 is an
 overflow error, not a panic

---
 src/duration.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/duration.rs b/src/duration.rs
index 72c2a8c..3acac93 100644
--- a/src/duration.rs
+++ b/src/duration.rs
@@ -98,7 +98,6 @@ fn push_value(string: &mut String, value: u64, unit: &str) {
 /// Returns an error if the input is an empty string, does not contain ASCII digits (0-9), contains
 /// an invalid unit (valid units: "h", "m", "s", "ms", "us"), or the value is too large for a
 /// [`Duration`].
-#[allow(clippy::missing_panics_doc)]
 pub fn parse(mut s: &str) -> Result<Duration, ParseDurationError> {
     if s.is_empty() {
         return Err(ParseDurationError::Empty);
@@ -114,7 +113,8 @@ pub fn parse(mut s: &str) -> Result<Duration, ParseDurationError> {
         if value.is_empty() {
             return Err(ParseDurationError::NoDigits(s.to_owned()));
         }
-        let value: u64 = value.parse().expect("value is ASCII digits only");
+        // `value` is ASCII digits only, so parsing can only fail due to an overflow.
+        let value: u64 = value.parse().map_err(|_| ParseDurationError::Overflow)?;
 
         let (unit, rest) = rest
             .find(|char: char| char.is_ascii_digit())
-- 
2.43.0


From ccecad4c758ea5db33f51cd54c929051e6096aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:14 +0000
Subject: [PATCH 02/19] fix: removing the registry of a registry-only image
 name must not corrupt the image

---
 src/service/image.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/service/image.rs b/src/service/image.rs
index 25588b4..86fb951 100644
--- a/src/service/image.rs
+++ b/src/service/image.rs
@@ -225,7 +225,8 @@ impl Image {
                 self.update_tag_or_digest_start(0, registry.len() + 1);
             }
             // Remove registry
-            (None, Some(mut end)) => {
+            // The registry is kept if it is the entire name, as a name cannot be empty.
+            (None, Some(mut end)) if end < self.name_end() => {
                 // Add one to end for '/' separator.
                 end += 1;
                 self.inner.replace_range(..end, "");
@@ -233,7 +234,7 @@ impl Image {
                 self.update_tag_or_digest_start(end, 0);
             }
             // Status quo
-            (None, None) => {}
+            (None, _) => {}
         }
     }
 
-- 
2.43.0


From 592cb71e0e2fd1d5d6ac3ed8d8cb09b85f5bd0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:14 +0000
Subject: [PATCH 03/19] fix: Image::from_parts() must place the tag or digest
 before extending the name

---
 src/service/image.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/service/image.rs b/src/service/image.rs
index 86fb951..6bc4573 100644
--- a/src/service/image.rs
+++ b/src/service/image.rs
@@ -142,8 +142,9 @@ impl Image {
         inner.push_str(name);
 
         let tag_or_digest_start = tag_or_digest.map(|tag_or_digest| {
+            let start = tag_or_digest.as_start(inner.len());
             tag_or_digest.push_to_string(&mut inner);
-            tag_or_digest.as_start(inner.len())
+            start
         });
 
         Self {
-- 
2.43.0


From 7fef3d09324c0bb2edf1280c8486683d01fcb279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:14 +0000
Subject: [PATCH 04/19] fix: port ranges parsed from a string uphold the same
 invariant as Range::new()

---
 src/service/ports.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/service/ports.rs b/src/service/ports.rs
index 4afe19f..7fc9955 100644
--- a/src/service/ports.rs
+++ b/src/service/ports.rs
@@ -780,10 +780,10 @@ impl FromStr for Range {
             .split_once('-')
             .map_or((s, None), |(start, end)| (start, Some(end)));
 
-        Ok(Self {
-            start: parse_range_int(start)?,
-            end: end.map(parse_range_int).transpose()?,
-        })
+        let start = parse_range_int(start)?;
+        let end = end.map(parse_range_int).transpose()?;
+
+        Self::new(start, end).map_err(Into::into)
     }
 }
 
-- 
2.43.0


From ac7416a89cc6208c20015bd095e392b1fda9e960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:14 +0000
Subject: [PATCH 05/19] fix: the size of the port range 0-65535 must not
 overflow

---
 src/service/ports.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/service/ports.rs b/src/service/ports.rs
index 7fc9955..ebd814b 100644
--- a/src/service/ports.rs
+++ b/src/service/ports.rs
@@ -474,12 +474,10 @@ impl ShortRanges {
 /// Returns an error if the range sizes are not equal.
 fn range_size_eq(host: Option<Range>, container: Range) -> Result<(), ShortRangesError> {
     if let Some(host) = host {
-        let host_size = host.size();
-        let container_size = container.size();
-        if host_size != container_size {
+        if host.span() != container.span() {
             return Err(ShortRangesError {
-                host_size,
-                container_size,
+                host_size: host.size(),
+                container_size: container.size(),
             });
         }
     }
@@ -661,6 +659,8 @@ impl Range {
 
     /// Size of the port range.
     ///
+    /// The size of the range of all ports, `0-65535`, is saturated to [`u16::MAX`].
+    ///
     /// # Examples
     ///
     /// ```
@@ -678,7 +678,12 @@ impl Range {
     /// ```
     #[must_use]
     pub fn size(&self) -> u16 {
-        self.end.map_or(1, |end| end - self.start + 1)
+        self.span().saturating_add(1)
+    }
+
+    /// Difference between the end and the start of the port range, i.e. one less than its size.
+    fn span(&self) -> u16 {
+        self.end.map_or(0, |end| end - self.start)
     }
 }
 
-- 
2.43.0


From 74eed875ccbfebdee0b0ca2ca42fa9d6f76a9f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:34 +0000
Subject: [PATCH 06/19] fix: accept YAML integers for cpus

---
 src/service/deploy/resources.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/service/deploy/resources.rs b/src/service/deploy/resources.rs
index 8af32bd..f63800b 100644
--- a/src/service/deploy/resources.rs
+++ b/src/service/deploy/resources.rs
@@ -315,6 +315,11 @@ impl<'de> Visitor<'de> for CpusVisitor {
         Ok(v.into())
     }
 
+    #[allow(clippy::cast_precision_loss)]
+    fn visit_u64<E: de::Error>(self, v: u64) -> Result<Self::Value, E> {
+        self.visit_f64(v as f64)
+    }
+
     forward_visitor! {
         visit_f64,
         visit_i8: i8,
-- 
2.43.0


From 3c7c6db57c627268146374cc2dc7a51236db7cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:34 +0000
Subject: [PATCH 07/19] fix: a build cache type without options, as written by
 Display, can be parsed

---
 src/service/build/cache.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/service/build/cache.rs b/src/service/build/cache.rs
index b42afb9..5b028a6 100644
--- a/src/service/build/cache.rs
+++ b/src/service/build/cache.rs
@@ -44,7 +44,7 @@ impl Cache {
     where
         T: AsRef<str> + Into<String>,
     {
-        if cache.as_ref().contains(',') {
+        if cache.as_ref().contains(',') || cache.as_ref().starts_with("type=") {
             Self::parse_str(cache.as_ref())
         } else {
             Image::parse(cache)
-- 
2.43.0


From 8374dae692e244ad299bf7ad6ed02e4def7a0b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:44 +0000
Subject: [PATCH 08/19] fix: volumes_from a read-write container named ro or rw
 must survive printing

---
 src/service.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/service.rs b/src/service.rs
index 363a613..177b85b 100644
--- a/src/service.rs
+++ b/src/service.rs
@@ -1441,6 +1441,9 @@ impl VolumesFrom {
     /// Suffix which marks the source volumes as read-only.
     const READ_ONLY_SUFFIX: &'static str = ":ro";
 
+    /// Suffix which explicitly marks the source volumes as read-write.
+    const READ_WRITE_SUFFIX: &'static str = ":rw";
+
     /// Parse a [`VolumesFrom`] from a string in the format `[container:]{identifier}[:ro|rw]`.
     ///
     /// # Errors
@@ -1464,7 +1467,7 @@ impl VolumesFrom {
             .unwrap_or_else(|| {
                 volumes_from
                     .as_ref()
-                    .strip_suffix(":rw")
+                    .strip_suffix(Self::READ_WRITE_SUFFIX)
                     .map(str::parse)
                     .unwrap_or_else(|| VolumesFromSource::parse(volumes_from))
                     .map(Into::into)
@@ -1482,6 +1485,8 @@ impl Display for VolumesFrom {
 
         if *read_only {
             f.write_str(Self::READ_ONLY_SUFFIX)?;
+        } else if source.is_ambiguous() {
+            f.write_str(Self::READ_WRITE_SUFFIX)?;
         }
 
         Ok(())
@@ -1499,7 +1504,7 @@ impl From<VolumesFromSource> for VolumesFrom {
 
 impl From<VolumesFrom> for String {
     fn from(value: VolumesFrom) -> Self {
-        if value.read_only {
+        if value.read_only || value.source.is_ambiguous() {
             value.to_string()
         } else {
             value.source.into()
@@ -1541,6 +1546,12 @@ impl VolumesFromSource {
             .map(|container| container.parse().map(Self::Container))
             .unwrap_or_else(|| source.try_into().map(Self::Service).map_err(Into::into))
     }
+
+    /// Returns `true` if the end of the source's string format would be taken as the access mode of
+    /// a [`VolumesFrom`], i.e. it is a container named "ro" or "rw".
+    fn is_ambiguous(&self) -> bool {
+        matches!(self, Self::Container(container) if matches!(container.as_str(), "ro" | "rw"))
+    }
 }
 
 impl_from_str!(VolumesFromSource => InvalidIdentifierError);
-- 
2.43.0


From 953994ffb7959d2b84d94cda408d6e457c201dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:02 +0000
Subject: [PATCH 09/19] fix: a named volume mounted more than once by one
 service is not shared

---
 src/lib.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index ba62b45..ff95b71 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -115,7 +115,7 @@ use std::{
 };
 
 use ::serde::{Deserialize, Serialize};
-use indexmap::IndexMap;
+use indexmap::{IndexMap, IndexSet};
 
 pub use self::{
     common::{
@@ -299,10 +299,10 @@ impl Compose {
     ///
     /// Only the first undefined named volume is listed in the error's [`Display`] output.
     pub fn validate_volumes(&self) -> Result<(), ValidationError> {
-        let volumes = self
-            .services
-            .values()
-            .flat_map(|service| service::volumes::named_volumes_iter(&service.volumes));
+        // A volume mounted multiple times within a single service is not shared.
+        let volumes = self.services.values().flat_map(|service| {
+            service::volumes::named_volumes_iter(&service.volumes).collect::<IndexSet<_>>()
+        });
 
         let mut seen_volumes = HashMap::new();
         for volume in volumes {
-- 
2.43.0


From 48dd980dc696eda3d250fbf41f500de2b7b089c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:02 +0000
Subject: [PATCH 10/19] fix: a read-only anonymous volume cannot be represented
 in the short syntax

---
 src/service/volumes/mount.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/service/volumes/mount.rs b/src/service/volumes/mount.rs
index d289dd1..101b4bf 100644
--- a/src/service/volumes/mount.rs
+++ b/src/service/volumes/mount.rs
@@ -283,7 +283,11 @@ impl Volume {
                         consistency: None,
                         extensions,
                     },
-            } if volume.as_ref().map_or(true, VolumeOptions::is_empty) && extensions.is_empty() => {
+            } if volume.as_ref().map_or(true, VolumeOptions::is_empty)
+                && extensions.is_empty()
+                // The short syntax of an anonymous volume does not have options.
+                && (source.is_some() || !read_only) =>
+            {
                 Ok(ShortVolume {
                     container_path,
                     options: source.map(|source| ShortOptions {
-- 
2.43.0


From 1fb9587b26008f049071a8a48726303103e87ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:02 +0000
Subject: [PATCH 11/19] fix: print all six bytes of a MAC address with two
 digits

---
 src/service/network_config.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/service/network_config.rs b/src/service/network_config.rs
index 4e93f24..3c47d0f 100644
--- a/src/service/network_config.rs
+++ b/src/service/network_config.rs
@@ -3,7 +3,7 @@
 
 use std::{
     borrow::Cow,
-    fmt::{self, Display, Formatter, LowerHex},
+    fmt::{self, Display, Formatter},
     net::{IpAddr, Ipv4Addr, Ipv6Addr},
     num::ParseIntError,
     str::{FromStr, Split},
@@ -559,7 +559,7 @@ impl Display for MacAddress {
         let mut iter = self.0.iter();
 
         if let Some(byte) = iter.next() {
-            LowerHex::fmt(byte, f)?;
+            write!(f, "{byte:02x}")?;
         }
 
         for byte in iter {
-- 
2.43.0


From beeda0f604aa9b08c390f2bf8ab8ba112e98b12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:02 +0000
Subject: [PATCH 12/19] fix: reject CPU ranges which start after they end
 instead of dropping them

---
 src/service/cpuset.rs | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/src/service/cpuset.rs b/src/service/cpuset.rs
index e391d5f..28836b6 100644
--- a/src/service/cpuset.rs
+++ b/src/service/cpuset.rs
@@ -80,6 +80,9 @@ impl FromStr for CpuSet {
             if let Some((start, end)) = range.split_once('-') {
                 let start: u64 = start.parse().map_err(parse_int_err(start))?;
                 let end = end.parse().map_err(parse_int_err(end))?;
+                if start > end {
+                    return Err(ParseCpuSetError::Range { start, end });
+                }
                 inner.extend(start..=end);
             } else {
                 let cpu = range.parse().map_err(parse_int_err(range))?;
@@ -91,20 +94,32 @@ impl FromStr for CpuSet {
     }
 }
 
-/// Closure which constructs a [`ParseCpuSetError`] from a [`ParseIntError`] and a `value`.
+/// Closure which constructs a [`ParseCpuSetError::Int`] from a [`ParseIntError`] and a `value`.
 fn parse_int_err(value: &str) -> impl FnOnce(ParseIntError) -> ParseCpuSetError {
     let value = value.to_owned();
-    |source| ParseCpuSetError { value, source }
+    |source| ParseCpuSetError::Int { source, value }
 }
 
 /// Error returned when parsing a [`CpuSet`] from a string.
 #[derive(Error, Debug, Clone, PartialEq, Eq)]
-#[error("could not parse `{value}` as an integer")]
-pub struct ParseCpuSetError {
-    /// Value attempted to parse.
-    value: String,
-    /// Parse error.
-    source: ParseIntError,
+pub enum ParseCpuSetError {
+    /// Error parsing value as an integer.
+    #[error("could not parse `{value}` as an integer")]
+    Int {
+        /// Source of the error.
+        source: ParseIntError,
+        /// Value attempted to parse.
+        value: String,
+    },
+
+    /// Start of a range is greater than its end.
+    #[error("the start `{start}` of the CPU range must be less than or equal to the end `{end}`")]
+    Range {
+        /// Given start of the range.
+        start: u64,
+        /// Given end of the range.
+        end: u64,
+    },
 }
 
 impl TryFrom<&str> for CpuSet {
-- 
2.43.0


From 7c5f96c3c3cfa7e237f44d2a813c4b8dad9b3531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:30 +0000
Subject: [PATCH 13/19] fix: a mount of a path with a colon cannot be
 represented in the short volume syntax

---
 src/service/volumes/mount.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/service/volumes/mount.rs b/src/service/volumes/mount.rs
index 101b4bf..7bf47db 100644
--- a/src/service/volumes/mount.rs
+++ b/src/service/volumes/mount.rs
@@ -7,7 +7,7 @@ use std::{
     fmt::{self, Display, Formatter},
     hash::{Hash, Hasher},
     ops::Not,
-    path::PathBuf,
+    path::{Path, PathBuf},
 };
 
 use serde::{Deserialize, Serialize};
@@ -196,6 +196,11 @@ impl Mount {
     }
 }
 
+/// Returns `true` if the `path` contains a colon, the separator of the [`ShortVolume`] syntax.
+fn contains_colon(path: &Path) -> bool {
+    path.to_string_lossy().contains(':')
+}
+
 impl From<ShortVolume> for Mount {
     fn from(value: ShortVolume) -> Self {
         value.into_long()
@@ -286,7 +291,8 @@ impl Volume {
             } if volume.as_ref().map_or(true, VolumeOptions::is_empty)
                 && extensions.is_empty()
                 // The short syntax of an anonymous volume does not have options.
-                && (source.is_some() || !read_only) =>
+                && (source.is_some() || !read_only)
+                && !contains_colon(container_path.as_path()) =>
             {
                 Ok(ShortVolume {
                     container_path,
@@ -428,7 +434,9 @@ impl Bind {
                  }| {
                     propagation.is_none() && *create_host_path && extensions.is_empty()
                 },
-            ) && extensions.is_empty() =>
+            ) && extensions.is_empty()
+                && !contains_colon(source.as_path())
+                && !contains_colon(container_path.as_path()) =>
             {
                 Ok(ShortVolume {
                     container_path,
-- 
2.43.0


From fc4815f0a1a1cafc6b966a79d9d20fc3f62ed98a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:42 +0000
Subject: [PATCH 14/19] fix: whether a healthcheck is accepted must not depend
 on the order of disable and test

---
 src/service/healthcheck.rs | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/service/healthcheck.rs b/src/service/healthcheck.rs
index 630ef11..6a61464 100644
--- a/src/service/healthcheck.rs
+++ b/src/service/healthcheck.rs
@@ -68,7 +68,8 @@ impl<'de> de::Visitor<'de> for Visitor {
     }
 
     fn visit_map<A: MapAccess<'de>>(self, mut map: A) -> Result<Self::Value, A::Error> {
-        let mut disable = None;
+        let mut disable: Option<bool> = None;
+        let mut test_none = false;
         let mut test = None;
         let mut interval = None;
         let mut timeout = None;
@@ -86,7 +87,7 @@ impl<'de> de::Visitor<'de> for Visitor {
                 Field::Test => {
                     check_duplicate(&test, "test")?;
                     map.next_value_seed(DisableOrTest {
-                        disable: &mut disable,
+                        test_none: &mut test_none,
                         test: &mut test,
                     })?;
                 }
@@ -118,7 +119,14 @@ impl<'de> de::Visitor<'de> for Visitor {
             }
         }
 
-        if disable.unwrap_or_default() {
+        let disable = disable.unwrap_or_default();
+        if disable && test_none {
+            return Err(de::Error::custom(
+                "cannot set `disable` to `true` and `test` to `NONE`",
+            ));
+        }
+
+        if disable || test_none {
             if test.is_none()
                 && interval.is_none()
                 && timeout.is_none()
@@ -189,8 +197,8 @@ enum Field {
 ///
 /// If `test` is set to `NONE`, then [`Healthcheck::Disable`] is deserialized.
 struct DisableOrTest<'a> {
-    /// `disable` field.
-    disable: &'a mut Option<bool>,
+    /// Whether the `test` field is set to `NONE`.
+    test_none: &'a mut bool,
 
     /// `test` field.
     test: &'a mut Option<Test>,
@@ -248,13 +256,12 @@ impl<'a, 'de> de::Visitor<'de> for DisableOrTest<'a> {
                 }
             }
             TestKind::None => {
-                if self.disable.unwrap_or_default() {
+                if *self.test_none {
                     Err(de::Error::custom(
-                        "cannot set `disable` to `true` and `test` to `NONE` \
-                            or set `test` to `NONE` multiple times",
+                        "cannot set `test` to `NONE` multiple times",
                     ))
                 } else {
-                    *self.disable = Some(true);
+                    *self.test_none = true;
 
                     if seq.next_element::<String>()?.is_none() {
                         Ok(())
-- 
2.43.0


From 88861da5dc4470877d420a821687fb0f75e462ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:22 +0000
Subject: [PATCH 15/19] fix: keep the order of extensions of networks, volumes,
 configs, and secrets

---
 src/common.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/common.rs b/src/common.rs
index 7d4cd6e..a6695da 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -5,7 +5,6 @@ mod short_or_long;
 
 use std::{
     borrow::Cow,
-    collections::HashMap,
     fmt::{self, Display, Formatter, LowerExp, UpperExp},
     hash::Hash,
     num::{ParseFloatError, ParseIntError, TryFromIntError},
@@ -965,10 +964,10 @@ impl<T: Serialize> Serialize for Resource<T> {
 
 impl<'de, T: Deserialize<'de>> Deserialize<'de> for Resource<T> {
     fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
-        let mut map = HashMap::<String, YamlValue>::deserialize(deserializer)?;
+        let mut map = IndexMap::<String, YamlValue>::deserialize(deserializer)?;
 
         let external = map
-            .remove(Self::EXTERNAL)
+            .shift_remove(Self::EXTERNAL)
             .map(bool::deserialize)
             .transpose()
             .map_err(de::Error::custom)?
@@ -976,7 +975,7 @@ impl<'de, T: Deserialize<'de>> Deserialize<'de> for Resource<T> {
 
         if external {
             let name = map
-                .remove(Self::NAME)
+                .shift_remove(Self::NAME)
                 .map(String::deserialize)
                 .transpose()
                 .map_err(de::Error::custom)?;
-- 
2.43.0


From 336e5e99936587372969788d10f81490a9459411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:17 +0000
Subject: [PATCH 16/19] fix: use the text of listed additional contexts as is

---
 src/service/build.rs | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/src/service/build.rs b/src/service/build.rs
index d42e1bb..d71be5d 100644
--- a/src/service/build.rs
+++ b/src/service/build.rs
@@ -257,15 +257,29 @@ fn additional_contexts<'de, D>(deserializer: D) -> Result<IndexMap<MapKey, Conte
 where
     D: Deserializer<'de>,
 {
-    Ok(ListOrMap::deserialize(deserializer)?
-        .into_map()
-        .map_err(de::Error::custom)?
-        .into_iter()
-        .map(|(key, value)| {
-            let value = value
-                .map(String::from)
-                .map_or_else(Context::default, Context::from);
-            (key, value)
-        })
-        .collect())
+    match ListOrMap::deserialize(deserializer)? {
+        ListOrMap::List(list) => list
+            .into_iter()
+            .map(|item| {
+                // The text of a context is used as is, it is not a YAML value.
+                let (key, value) = item.split_once('=').unwrap_or((&item, ""));
+                let key = key.parse().map_err(de::Error::custom)?;
+                let context = if value.is_empty() {
+                    Context::default()
+                } else {
+                    Context::from(value.to_owned())
+                };
+                Ok((key, context))
+            })
+            .collect(),
+        ListOrMap::Map(map) => Ok(map
+            .into_iter()
+            .map(|(key, value)| {
+                let value = value
+                    .map(String::from)
+                    .map_or_else(Context::default, Context::from);
+                (key, value)
+            })
+            .collect()),
+    }
 }
-- 
2.43.0


From ab4e22630a02787f94d311c6fcdc896a5c4f9fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:17 +0000
Subject: [PATCH 17/19] fix: read -0 as the unsigned integer it is written back
 as

---
 src/serde.rs | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/serde.rs b/src/serde.rs
index 715052a..baf6a88 100644
--- a/src/serde.rs
+++ b/src/serde.rs
@@ -234,8 +234,13 @@ where
     }
 
     fn visit_i64<E: de::Error>(self, v: i64) -> Result<Self::Value, E> {
-        let Self { visit_i64, .. } = self;
-        Ok(visit_i64(v))
+        let Self {
+            visit_u64,
+            visit_i64,
+            ..
+        } = self;
+        // Only negative integers are signed, e.g. "-0" is not.
+        Ok(u64::try_from(v).map_or_else(|_| visit_i64(v), visit_u64))
     }
 
     fn visit_u64<E: de::Error>(self, v: u64) -> Result<Self::Value, E> {
@@ -271,8 +276,13 @@ where
     }
 
     fn visit_i64<E: de::Error>(self, v: i64) -> Result<Self::Value, E> {
-        let Self { visit_i64, .. } = self;
-        Ok(visit_i64(v))
+        let Self {
+            visit_u64,
+            visit_i64,
+            ..
+        } = self;
+        // Only negative integers are signed, e.g. "-0" is not.
+        Ok(u64::try_from(v).map_or_else(|_| visit_i64(v), visit_u64))
     }
 
     fn visit_u64<E: de::Error>(self, v: u64) -> Result<Self::Value, E> {
@@ -300,8 +310,13 @@ where
     }
 
     fn visit_i64<E: de::Error>(self, v: i64) -> Result<Self::Value, E> {
-        let Self { visit_i64, .. } = self;
-        Ok(visit_i64(v))
+        let Self {
+            visit_u64,
+            visit_i64,
+            ..
+        } = self;
+        // Only negative integers are signed, e.g. "-0" is not.
+        Ok(u64::try_from(v).map_or_else(|_| visit_i64(v), visit_u64))
     }
 
     fn visit_u64<E: de::Error>(self, v: u64) -> Result<Self::Value, E> {
-- 
2.43.0


From da40555724cd81c8e6f7ed788e3bbc6e9866fa35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:45 +0000
Subject: [PATCH 18/19] fix: apply merge keys inside merged mappings

`serde_yaml::Value::apply_merge()` does not revisit a mapping after adding
a merge key to it, so a merge key in a mapping being merged was left as is,
causing the document to be rejected or `<<` to be kept as an entry.  Apply
merges from the inside out.
---
 src/options.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/options.rs b/src/options.rs
index 4844aea..a9f053f 100644
--- a/src/options.rs
+++ b/src/options.rs
@@ -101,8 +101,23 @@ impl Options {
     /// Returns an error if deserialization fails.
     pub fn from_yaml_value(&self, mut value: YamlValue) -> serde_yaml::Result<Compose> {
         if self.apply_merge {
-            value.apply_merge()?;
+            apply_merge(&mut value)?;
         }
         serde_yaml::from_value(value)
     }
 }
+
+/// Apply the merge keys in `value` from the inside out, so that the mappings which are merged have
+/// their own merge keys already applied.
+///
+/// [`YamlValue::apply_merge()`] on its own leaves merge keys which are merged into a mapping as they
+/// are.
+fn apply_merge(value: &mut YamlValue) -> serde_yaml::Result<()> {
+    match value {
+        YamlValue::Sequence(values) => values.iter_mut().try_for_each(apply_merge)?,
+        YamlValue::Mapping(mapping) => mapping.values_mut().try_for_each(apply_merge)?,
+        YamlValue::Tagged(tagged) => apply_merge(&mut tagged.value)?,
+        _ => {}
+    }
+    value.apply_merge()
+}
-- 
2.43.0


From b9b1eb88271396fc8a3fd11b6f0e54aba7aaebb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:02 +0000
Subject: [PATCH 19/19] fix: refuse a field given twice in a network, volume,
 config or secret

The fields were collected in a map, so that the last of two equal keys silently
replaced the first, while every other section reports a duplicate field.
---
 src/common.rs | 35 ++++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/src/common.rs b/src/common.rs
index a6695da..de958b1 100644
--- a/src/common.rs
+++ b/src/common.rs
@@ -964,7 +964,7 @@ impl<T: Serialize> Serialize for Resource<T> {
 
 impl<'de, T: Deserialize<'de>> Deserialize<'de> for Resource<T> {
     fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
-        let mut map = IndexMap::<String, YamlValue>::deserialize(deserializer)?;
+        let ResourceFields(mut map) = ResourceFields::deserialize(deserializer)?;
 
         let external = map
             .shift_remove(Self::EXTERNAL)
@@ -995,6 +995,39 @@ impl<'de, T: Deserialize<'de>> Deserialize<'de> for Resource<T> {
     }
 }
 
+/// Fields of a [`Resource`], each may only be given once.
+struct ResourceFields(IndexMap<String, YamlValue>);
+
+impl<'de> Deserialize<'de> for ResourceFields {
+    fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
+        deserializer.deserialize_map(ResourceFieldsVisitor)
+    }
+}
+
+/// [`Visitor`] for deserializing [`ResourceFields`].
+struct ResourceFieldsVisitor;
+
+impl<'de> Visitor<'de> for ResourceFieldsVisitor {
+    type Value = ResourceFields;
+
+    fn expecting(&self, formatter: &mut Formatter) -> fmt::Result {
+        formatter.write_str("a map")
+    }
+
+    fn visit_map<A: MapAccess<'de>>(self, mut map: A) -> Result<Self::Value, A::Error> {
+        let mut fields = IndexMap::new();
+
+        while let Some((key, value)) = map.next_entry::<String, YamlValue>()? {
+            if fields.contains_key(&key) {
+                return Err(de::Error::custom(format_args!("duplicate field `{key}`")));
+            }
+            fields.insert(key, value);
+        }
+
+        Ok(ResourceFields(fields))
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0

