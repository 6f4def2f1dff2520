From 53f598a7573bb6d7d8a34df065736542479d8580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:22 +0000
Subject: [PATCH 01/15] verification hooks: cfg(rlpn_verif) accessors for
 compiled metadata and custom metadata

---
 src/phonenumberutil/phonenumberutil.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/phonenumberutil/phonenumberutil.rs b/src/phonenumberutil/phonenumberutil.rs
index 7dce612..3c0a21e 100644
--- a/src/phonenumberutil/phonenumberutil.rs
+++ b/src/phonenumberutil/phonenumberutil.rs
@@ -20,6 +20,9 @@
 //! around the world. This utility is designed to handle the complexities of international
 //! phone number formats, country codes, and numbering plans.
 
+// `rlpn_verif` guards the hooks at the end of this file.
+#![allow(unexpected_cfgs)]
+
 use std::borrow::Cow;
 
 use crate::{
@@ -618,3 +621,22 @@ impl PhoneNumberUtil {
     }
 }
 
+
+/// Hooks for external verification harnesses. They exist only when the crate is
+/// compiled with `RUSTFLAGS="--cfg rlpn_verif"` and are not part of the public API.
+#[cfg(rlpn_verif)]
+impl PhoneNumberUtil {
+    /// Decodes the metadata compiled into the library.
+    #[doc(hidden)]
+    pub fn verif_compiled_metadata() -> crate::phonemetadata::PhoneMetadataCollection {
+        super::helper_functions::load_compiled_metadata().expect("Metadata should be valid")
+    }
+
+    /// Creates an instance that decides with the given metadata.
+    #[doc(hidden)]
+    pub fn verif_new_for_metadata(
+        metadata_collection: crate::phonemetadata::PhoneMetadataCollection,
+    ) -> Self {
+        Self { util_internal: PhoneNumberUtilInternal::new_for_metadata(metadata_collection) }
+    }
+}
-- 
2.43.0


From 6d2b003bb65a582ef27651f79e98aef7480d67ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:17 +0000
Subject: [PATCH 02/15] fix: match number patterns against the whole national
 number

A leftmost-first search may stop at a shorter alternative (HK 90384813246,
PA 8004373000), so complete matches of a later alternative were missed.
---
 src/phonenumberutil/phonenumberutil_internal.rs | 4 ++--
 src/regex_based_matcher.rs                      | 8 +++-----
 src/regexp_cache.rs                             | 7 +++++++
 3 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/phonenumberutil/phonenumberutil_internal.rs b/src/phonenumberutil/phonenumberutil_internal.rs
index adfdd40..6a18775 100644
--- a/src/phonenumberutil/phonenumberutil_internal.rs
+++ b/src/phonenumberutil/phonenumberutil_internal.rs
@@ -502,8 +502,8 @@ impl PhoneNumberUtilInternal {
             {
                 continue;
             }
-            let pattern_to_match = self.reg_exps.regexp_cache.get_regex(format.pattern())?;
-            if pattern_to_match.full_match(national_number) {
+            let pattern_to_match = self.reg_exps.regexp_cache.get_full_match_regex(format.pattern())?;
+            if pattern_to_match.is_match(national_number) {
                 return Ok(Some(format));
             }
         }
diff --git a/src/regex_based_matcher.rs b/src/regex_based_matcher.rs
index 8af26f2..a0a8bdb 100644
--- a/src/regex_based_matcher.rs
+++ b/src/regex_based_matcher.rs
@@ -15,7 +15,7 @@
 
 
 use log::{error};
-use super::regex_util::{RegexFullMatch, RegexConsume};
+use super::regex_util::RegexConsume;
 
 use crate::{interfaces, generated::proto::phonemetadata::PhoneNumberDesc, regexp_cache::{InvalidRegexError, RegexCache}};
 
@@ -33,13 +33,11 @@ impl RegexBasedMatcher {
         number_pattern: &str,
         allow_prefix_match: bool
     ) -> Result<bool, InvalidRegexError> {
-        let regexp = self.cache.get_regex(number_pattern)?;
-
         // find first occurrence
         if allow_prefix_match {
-            Ok(regexp.matches_start(phone_number))
+            Ok(self.cache.get_regex(number_pattern)?.matches_start(phone_number))
         } else {
-            Ok(regexp.full_match(phone_number))
+            Ok(self.cache.get_full_match_regex(number_pattern)?.is_match(phone_number))
         }
     }
 }
diff --git a/src/regexp_cache.rs b/src/regexp_cache.rs
index d8f3cf1..8141278 100644
--- a/src/regexp_cache.rs
+++ b/src/regexp_cache.rs
@@ -44,4 +44,11 @@ impl RegexCache {
             Ok(entry.value().clone())
         }
     }
+
+    /// Returns the regex for `pattern` anchored at both ends. Alternatives are
+    /// tried in order, so searching with the bare pattern may settle for a shorter
+    /// match although another alternative covers the whole input.
+    pub fn get_full_match_regex(&self, pattern: &str) -> Result<Arc<regex::Regex>, InvalidRegexError> {
+        self.get_regex(&fast_cat::concat_str!("^(?:", pattern, ")$"))
+    }
 }
\ No newline at end of file
-- 
2.43.0


From 3c021a416d8e4682e8810db2ad221fddebbe543b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:18 +0000
Subject: [PATCH 03/15] fix: look for the tel: prefix only before the
 phone-context

'123;phone-context=example.com;tel:' made parse panic on a reversed slice.
---
 src/phonenumberutil/phonenumberutil_internal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/phonenumberutil/phonenumberutil_internal.rs b/src/phonenumberutil/phonenumberutil_internal.rs
index 6a18775..77d5c4b 100644
--- a/src/phonenumberutil/phonenumberutil_internal.rs
+++ b/src/phonenumberutil/phonenumberutil_internal.rs
@@ -1670,7 +1670,7 @@ impl PhoneNumberUtilInternal {
             // isdn-subaddress component. Note we also handle the case when "tel:" is
             // missing, as we have seen in some of the phone number inputs. In that
             // case, we append everything from the beginning.
-            let index_of_rfc_prefix = number_to_parse.find(RFC3966_PREFIX);
+            let index_of_rfc_prefix = number_to_parse[..index_of_phone_context].find(RFC3966_PREFIX);
             let index_of_national_number = index_of_rfc_prefix.map_or(0, |index_of_rfc_prefix| {
                 index_of_rfc_prefix + RFC3966_PREFIX.len()
             });
-- 
2.43.0


From bdc8c362c398f2da8a214e80b0d0e5ff5b73a072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:29 +0000
Subject: [PATCH 04/15] fix: strip the national prefix after a bare calling
 code

maybe_extract_country_code tested and returned the number that still had the
national prefix, so '971022222222' in AE was not recognised as +971 22222222.
---
 src/phonenumberutil/phonenumberutil_internal.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/phonenumberutil/phonenumberutil_internal.rs b/src/phonenumberutil/phonenumberutil_internal.rs
index 77d5c4b..43f596c 100644
--- a/src/phonenumberutil/phonenumberutil_internal.rs
+++ b/src/phonenumberutil/phonenumberutil_internal.rs
@@ -2184,15 +2184,17 @@ impl PhoneNumberUtilInternal {
                 strip_cow_prefix(national_number.clone(), default_country_code_string)
             {
                 let general_num_desc = &default_region_metadata.general_desc;
-                let phone_number_and_carrier_code = self
+                let potential_national_number = self
                     .maybe_strip_national_prefix_and_carrier_code(
                         default_region_metadata,
                         &potential_national_number,
-                    )?;
+                    )?
+                    .0
+                    .into_owned();
 
                 trace!(
-                    "Number without country calling code prefix: {:?}",
-                    phone_number_and_carrier_code
+                    "Number without country calling code prefix: {}",
+                    potential_national_number
                 );
                 // If the number was not valid before but is valid now, or if it was too
                 // long before, we consider the number with the country code stripped to
@@ -2217,7 +2219,7 @@ impl PhoneNumberUtilInternal {
                         );
                     }
                     phone_number.set_country_code(default_country_code);
-                    return Ok(potential_national_number);
+                    return Ok(Cow::Owned(potential_national_number));
                 }
             }
         }
-- 
2.43.0


From 2ca76b75d989b981fdce820502555c70eba4a347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:54 +0000
Subject: [PATCH 05/15] fix: use the international format when there is no
 preferred prefix

format_out_of_country_keeping_alpha_chars printed ' 1 800...' with an empty
prefix for regions with several international prefixes and no preferred one.
---
 .../phonenumberutil_internal.rs               | 26 ++++++++++---------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/phonenumberutil/phonenumberutil_internal.rs b/src/phonenumberutil/phonenumberutil_internal.rs
index 43f596c..2b4103e 100644
--- a/src/phonenumberutil/phonenumberutil_internal.rs
+++ b/src/phonenumberutil/phonenumberutil_internal.rs
@@ -1555,18 +1555,20 @@ impl PhoneNumberUtilInternal {
         // If an unsupported region-calling-from is entered, or a country with
         // multiple international prefixes, the international format of the number is
         // returned, unless there is a preferred international prefix.
-        let international_prefix_for_formatting = metadata.map(|metadata| {
-            let international_prefix = metadata.international_prefix();
-            if self
-                .reg_exps
-                .single_international_prefix
-                .full_match(international_prefix)
-            {
-                international_prefix
-            } else {
-                metadata.preferred_international_prefix()
-            }
-        });
+        let international_prefix_for_formatting = metadata
+            .map(|metadata| {
+                let international_prefix = metadata.international_prefix();
+                if self
+                    .reg_exps
+                    .single_international_prefix
+                    .full_match(international_prefix)
+                {
+                    international_prefix
+                } else {
+                    metadata.preferred_international_prefix()
+                }
+            })
+            .filter(|prefix| !prefix.is_empty());
         let formatted_number = if let Some(international_prefix_for_formatting) =
             international_prefix_for_formatting
         {
-- 
2.43.0


From 7ca621557f78ea1344f6e48a33e67d0b1b09ffd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:55 +0000
Subject: [PATCH 06/15] fix: drop only a plus sign in format_in_original_format

The international format can be the raw input or have no plus sign (national
number 0, unknown calling code); slicing off one byte then lost a digit or
panicked inside a multi-byte character.
---
 src/phonenumberutil/phonenumberutil_internal.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/phonenumberutil/phonenumberutil_internal.rs b/src/phonenumberutil/phonenumberutil_internal.rs
index 2b4103e..489b050 100644
--- a/src/phonenumberutil/phonenumberutil_internal.rs
+++ b/src/phonenumberutil/phonenumberutil_internal.rs
@@ -1283,9 +1283,13 @@ impl PhoneNumberUtilInternal {
             CountryCodeSource::FROM_NUMBER_WITH_IDD => {
                 self.format_out_of_country_calling_number(phone_number, region_calling_from)?
             }
-            CountryCodeSource::FROM_NUMBER_WITHOUT_PLUS_SIGN => Cow::Owned(
-                self.format(phone_number, PhoneNumberFormat::International)?[1..].to_string(),
-            ),
+            CountryCodeSource::FROM_NUMBER_WITHOUT_PLUS_SIGN => {
+                let formatted = self.format(phone_number, PhoneNumberFormat::International)?;
+                match formatted.strip_prefix(PLUS_SIGN) {
+                    Some(without_plus) => Cow::Owned(without_plus.to_string()),
+                    None => formatted,
+                }
+            }
             CountryCodeSource::FROM_DEFAULT_COUNTRY
             | CountryCodeSource::UNSPECIFIED => 'default_block: {
                 let format_national = || self.format(phone_number, PhoneNumberFormat::National);
-- 
2.43.0


From 31732cb1dde7dd0efb4a70955858612e096178d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:56 +0000
Subject: [PATCH 07/15] fix: keep a borrowed result in
 format_number_for_mobile_dialing

format returns the raw input borrowed when the national number is 0; the
result was dropped and an empty string returned.
---
 src/phonenumberutil/phonenumberutil_internal.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/phonenumberutil/phonenumberutil_internal.rs b/src/phonenumberutil/phonenumberutil_internal.rs
index 489b050..bbb93e3 100644
--- a/src/phonenumberutil/phonenumberutil_internal.rs
+++ b/src/phonenumberutil/phonenumberutil_internal.rs
@@ -860,9 +860,7 @@ impl PhoneNumberUtilInternal {
                 } else {
                     PhoneNumberFormat::National
                 };
-                if let Cow::Owned(s) = self.format(&number_no_extension, format)? {
-                    formatted_number = s;
-                }
+                formatted_number = self.format(&number_no_extension, format)?.into_owned();
             } else {
                 // For non-geographical countries, and Mexican, Chilean and Uzbek fixed
                 // line and mobile numbers, we output international format for numbers
@@ -895,9 +893,7 @@ impl PhoneNumberUtilInternal {
                 } else {
                     PhoneNumberFormat::National
                 };
-                if let Cow::Owned(s) = self.format(&number_no_extension, format)? {
-                    formatted_number = s;
-                }
+                formatted_number = self.format(&number_no_extension, format)?.into_owned();
             }
         } else if is_valid_number && self.can_be_internationally_dialled(&number_no_extension)? {
             // We assume that short numbers are not diallable from outside their
-- 
2.43.0


From 0604503d227f31751161e44e7d5026ff1508792a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:57 +0000
Subject: [PATCH 08/15] fix: leading digits alone decide the region where they
 are given

A number without the leading digits of a region was still attributed to it
when it matched a type pattern, although another region owns it.
---
 src/phonenumberutil/phonenumberutil_internal.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/phonenumberutil/phonenumberutil_internal.rs b/src/phonenumberutil/phonenumberutil_internal.rs
index bbb93e3..51f50f7 100644
--- a/src/phonenumberutil/phonenumberutil_internal.rs
+++ b/src/phonenumberutil/phonenumberutil_internal.rs
@@ -985,12 +985,14 @@ impl PhoneNumberUtilInternal {
                 .get(code) else {
                 return Ok(None);
             };
-            if metadata.has_leading_digits() && self
+            if metadata.has_leading_digits() {
+                if self
                     .reg_exps
                     .regexp_cache
                     .get_regex(metadata.leading_digits())?
                     .matches_start(&national_number) {
-                return Ok(Some(code));
+                    return Ok(Some(code));
+                }
             } else if self
                 .get_number_type_helper(&national_number, metadata) != PhoneNumberType::Unknown {
                 return Ok(Some(code));
-- 
2.43.0


From 81f3ea3d6a42e03db4e164a8d4ff1333e3a47ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:15 +0000
Subject: [PATCH 09/15] fix: insert the carrier code literally

A '$' in the carrier code was expanded as a group reference.
---
 src/phonenumberutil/phonenumberutil_internal.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/phonenumberutil/phonenumberutil_internal.rs b/src/phonenumberutil/phonenumberutil_internal.rs
index 51f50f7..3ae4424 100644
--- a/src/phonenumberutil/phonenumberutil_internal.rs
+++ b/src/phonenumberutil/phonenumberutil_internal.rs
@@ -527,14 +527,17 @@ impl PhoneNumberUtilInternal {
                 .len()
                 > 0
         {
-            // Replace the $CC in the formatting rule with the desired carrier code.
+            // Replace the $CC in the formatting rule with the desired carrier code. The
+            // rule is expanded as a replacement string twice below, so that a '$' of
+            // the carrier code itself has to be escaped for both.
+            let carrier_code = carrier_code.replace('$', "$$$$");
             let mut carrier_code_formatting_rule =
                 Cow::Borrowed(formatting_pattern.domestic_carrier_code_formatting_rule());
 
             if let Cow::Owned(s) = self
                 .reg_exps
                 .carrier_code_pattern
-                .replace(&carrier_code_formatting_rule, carrier_code)
+                .replace(&carrier_code_formatting_rule, regex::NoExpand(&carrier_code))
             {
                 carrier_code_formatting_rule = Cow::Owned(s);
             }
-- 
2.43.0


From 57030809d4dd0c7e8b7ffe3baa20f5b6c5916c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:47 +0000
Subject: [PATCH 10/15] fix: give the same example number for a type on every
 instance

get_example_number_for_type walked hash maps in their random order, so two
instances (or two runs) returned different numbers.
---
 src/phonenumberutil/phonenumberutil_internal.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/phonenumberutil/phonenumberutil_internal.rs b/src/phonenumberutil/phonenumberutil_internal.rs
index 3ae4424..9154745 100644
--- a/src/phonenumberutil/phonenumberutil_internal.rs
+++ b/src/phonenumberutil/phonenumberutil_internal.rs
@@ -2333,7 +2333,11 @@ impl PhoneNumberUtilInternal {
         &self,
         phone_number_type: PhoneNumberType,
     ) -> ExampleNumberResult {
-        if let Some(number) = self.get_supported_regions().find_map(|region_code| {
+        // The maps are unordered: go through them in a fixed order, so that every
+        // instance gives the same example.
+        let mut supported_regions: Vec<_> = self.get_supported_regions().collect();
+        supported_regions.sort_unstable();
+        if let Some(number) = supported_regions.into_iter().find_map(|region_code| {
             self.get_example_number_for_type_and_region_code(region_code, phone_number_type)
                 .ok()
         }) {
@@ -2342,8 +2346,9 @@ impl PhoneNumberUtilInternal {
 
         // If there wasn't an example number for a region, try the non-geographical
         // entities.
-        if let Some(res) = self
-            .get_supported_global_network_calling_codes()
+        let mut calling_codes: Vec<_> = self.get_supported_global_network_calling_codes().collect();
+        calling_codes.sort_unstable();
+        if let Some(res) = calling_codes
             .into_iter()
             .find_map(|country_calling_code| {
                 let Some(metadata) = self
-- 
2.43.0


From 8c6342b3d13f7b6bacbc258a6b48083d09a0c7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:00 +0000
Subject: [PATCH 11/15] fix: apply the transform rule when the carrier code
 group is not part of the match

With two groups in the national prefix pattern the second one is the captured part. The rule was
skipped whenever the first, optional group took no part in the match.
---
 .../phonenumberutil_internal.rs               | 23 ++++++++++---------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/phonenumberutil/phonenumberutil_internal.rs b/src/phonenumberutil/phonenumberutil_internal.rs
index 9154745..636d3b9 100644
--- a/src/phonenumberutil/phonenumberutil_internal.rs
+++ b/src/phonenumberutil/phonenumberutil_internal.rs
@@ -2736,19 +2736,20 @@ impl PhoneNumberUtilInternal {
         let first_capture = captures.as_ref().and_then(|c| c.get(1));
         let second_capture = captures.as_ref().and_then(|c| c.get(2));
 
-        let condition = |first_capture: &regex::Match<'_>| {
-            !transform_rule.is_empty()
-                && (second_capture.is_some_and(|c| !c.is_empty())
-                    || !first_capture.is_empty() && second_capture.is_none())
+        // With two groups the first one holds the carrier code and the second one the
+        // captured part of the prefix, with one group it is that part. Either group may
+        // have no part in the match.
+        let has_carrier_group = captures.as_ref().is_some_and(|c| c.len() > 2);
+        let captured_part_of_prefix = if has_carrier_group {
+            second_capture
+        } else {
+            first_capture
         };
 
-        if let Some(first_capture) = first_capture.filter(condition) {
-            // here we can safe unwrap because first_capture.is_some() anyway
-            let carrier_code_temp = if second_capture.is_some() {
-                Some(first_capture.as_str())
-            } else {
-                None
-            };
+        if !transform_rule.is_empty() && captured_part_of_prefix.is_some_and(|c| !c.is_empty()) {
+            let carrier_code_temp = first_capture
+                .filter(|_| has_carrier_group)
+                .map(|c| c.as_str());
 
             // If this succeeded, then we must have had a transform rule and there must
             // have been some part of the prefix that we captured.
-- 
2.43.0


From e5dbb91f71f1e2aec11cdf47975d0cf328db4aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:46 +0000
Subject: [PATCH 12/15] fix: refuse trailing commas and hyphens in possible
 lengths

They were dropped silently, although they are to be reported like leading and adjacent ones.
---
 .../com/google/i18n/phonenumbers/BuildMetadataFromXml.java    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/java/common/src/com/google/i18n/phonenumbers/BuildMetadataFromXml.java b/tools/java/common/src/com/google/i18n/phonenumbers/BuildMetadataFromXml.java
index c6ce40b..d23b42b 100644
--- a/tools/java/common/src/com/google/i18n/phonenumbers/BuildMetadataFromXml.java
+++ b/tools/java/common/src/com/google/i18n/phonenumbers/BuildMetadataFromXml.java
@@ -548,7 +548,7 @@ public class BuildMetadataFromXml {
     if (possibleLengthString.length() == 0) {
       throw new RuntimeException("Empty possibleLength string found.");
     }
-    String[] lengths = possibleLengthString.split(",");
+    String[] lengths = possibleLengthString.split(",", -1);
     Set<Integer> lengthSet = new TreeSet<Integer>();
     for (int i = 0; i < lengths.length; i++) {
       String lengthSubstring = lengths[i];
@@ -562,7 +562,7 @@ public class BuildMetadataFromXml {
               + "length string %s.", possibleLengthString));
         }
         // Strip the leading and trailing [], and split on the -.
-        String[] minMax = lengthSubstring.substring(1, lengthSubstring.length() - 1).split("-");
+        String[] minMax = lengthSubstring.substring(1, lengthSubstring.length() - 1).split("-", -1);
         if (minMax.length != 2) {
           throw new RuntimeException(String.format("Ranges must have exactly one - character: "
               + "missing for %s.", possibleLengthString));
-- 
2.43.0


From 1abcddb906a75523d64e1973ff8112f144301104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:58 +0000
Subject: [PATCH 13/15] fix: refuse a child given on its own and in an
 incomplete group

---
 .../i18n/phonenumbers/MetadataFilter.java     | 22 +++++++++++--------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/tools/java/common/src/com/google/i18n/phonenumbers/MetadataFilter.java b/tools/java/common/src/com/google/i18n/phonenumbers/MetadataFilter.java
index a783025..e8cf624 100644
--- a/tools/java/common/src/com/google/i18n/phonenumbers/MetadataFilter.java
+++ b/tools/java/common/src/com/google/i18n/phonenumbers/MetadataFilter.java
@@ -265,15 +265,19 @@ final class MetadataFilter {
         throw new RuntimeException("Incorrect location of parantheses in " + group);
       }
     }
-    for (String wildcardChild : wildcardChildren) {
-      for (String parent : excludableParentFields) {
-        TreeSet<String> children = fieldMap.get(parent);
-        if (children == null) {
-          children = new TreeSet<String>();
-          fieldMap.put(parent, children);
-        }
-        if (!children.add(wildcardChild)
-            && fieldMap.get(parent).size() != excludableChildFields.size()) {
+    if (wildcardChildren.isEmpty()) {
+      return fieldMap;
+    }
+    for (String parent : excludableParentFields) {
+      TreeSet<String> children = fieldMap.get(parent);
+      if (children == null) {
+        children = new TreeSet<String>();
+        fieldMap.put(parent, children);
+      }
+      // To be decided before the wildcard children are added, as these may complete the group.
+      boolean hasAllChildren = children.size() == excludableChildFields.size();
+      for (String wildcardChild : wildcardChildren) {
+        if (!children.add(wildcardChild) && !hasAllChildren) {
           // The map already contains parent -> wildcardChild but not all possible children.
           // So wildcardChild was given explicitly as a child of parent, which is a duplication
           // since it's also given as a wildcard child.
-- 
2.43.0


From 6f218e2c45c0f35e0fe5369e3b0b9a6a7befe92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:35 +0000
Subject: [PATCH 14/15] verification hooks: cfg(rlpn_verif_internal) wrappers
 of queries without a public counterpart

---
 src/phonenumberutil/phonenumberutil.rs | 89 ++++++++++++++++++++++++++
 1 file changed, 89 insertions(+)

diff --git a/src/phonenumberutil/phonenumberutil.rs b/src/phonenumberutil/phonenumberutil.rs
index 3c0a21e..9788af0 100644
--- a/src/phonenumberutil/phonenumberutil.rs
+++ b/src/phonenumberutil/phonenumberutil.rs
@@ -640,3 +640,92 @@ impl PhoneNumberUtil {
         Self { util_internal: PhoneNumberUtilInternal::new_for_metadata(metadata_collection) }
     }
 }
+
+/// Wrappers of queries that have no public counterpart yet, for external verification
+/// harnesses. They exist only with `RUSTFLAGS="--cfg rlpn_verif_internal"`.
+#[cfg(rlpn_verif_internal)]
+#[doc(hidden)]
+#[allow(missing_docs)]
+impl PhoneNumberUtil {
+    pub fn verif_calling_codes(&self) -> Vec<i32> {
+        self.util_internal.get_supported_calling_codes().collect()
+    }
+    pub fn verif_global_network_codes(&self) -> Vec<i32> {
+        self.util_internal.get_supported_global_network_calling_codes().collect()
+    }
+    pub fn verif_types_for_region(&self, region: &str) -> Option<Vec<PhoneNumberType>> {
+        self.util_internal.get_supported_types_for_region(region).map(|t| t.into_iter().collect())
+    }
+    pub fn verif_types_for_non_geo_entity(&self, code: i32) -> Option<Vec<PhoneNumberType>> {
+        self.util_internal.get_supported_types_for_non_geo_entity(code).map(|t| t.into_iter().collect())
+    }
+    pub fn verif_ndd_prefix(&self, region: &str, strip_non_digits: bool) -> Option<String> {
+        self.util_internal.get_ndd_prefix_for_region(region, strip_non_digits)
+    }
+    pub fn verif_possible_for_type(&self, number: &PhoneNumber, ty: PhoneNumberType) -> bool {
+        self.util_internal.is_possible_number_for_type(number, ty)
+    }
+    pub fn verif_possible_for_type_with_reason(
+        &self,
+        number: &PhoneNumber,
+        ty: PhoneNumberType,
+    ) -> Result<NumberLengthType, ValidationError> {
+        self.util_internal.is_possible_number_for_type_with_reason(number, ty)
+    }
+    pub fn verif_possible_for_string(&self, text: &str, region: &str) -> bool {
+        self.util_internal.is_possible_number_for_string(text, region)
+    }
+    pub fn verif_example_for_type(&self, region: &str, ty: PhoneNumberType) -> Option<PhoneNumber> {
+        self.util_internal.get_example_number_for_type_and_region_code(region, ty).ok()
+    }
+    pub fn verif_example_for_non_geo_entity(&self, code: i32) -> Option<PhoneNumber> {
+        self.util_internal.get_example_number_for_non_geo_entity(code).ok()
+    }
+    pub fn verif_match_two_strings(&self, first: &str, second: &str) -> Option<MatchType> {
+        self.util_internal.is_number_match_with_two_strings(first, second).ok()
+    }
+    pub fn verif_match_one_string(&self, first: &PhoneNumber, second: &str) -> Option<MatchType> {
+        self.util_internal.is_number_match_with_one_string(first, second).ok()
+    }
+    pub fn verif_format_by_pattern(
+        &self,
+        number: &PhoneNumber,
+        format: PhoneNumberFormat,
+        formats: &[crate::phonemetadata::NumberFormat],
+    ) -> Option<String> {
+        self.util_internal.format_by_pattern(number, format, formats).ok()
+    }
+    pub fn verif_format_preferred_carrier(&self, number: &PhoneNumber, fallback: &str) -> Option<String> {
+        self.util_internal.format_national_number_with_preferred_carrier_code(number, fallback).ok()
+    }
+    pub fn verif_has_format(&self, number: &PhoneNumber) -> Option<bool> {
+        self.util_internal.has_formatting_pattern_for_number(number).ok()
+    }
+    pub fn verif_known_calling_code(&self, code: i32) -> bool {
+        self.util_internal.has_valid_country_calling_code(code)
+    }
+    pub fn verif_mobile_token(&self, code: i32) -> Option<char> {
+        self.util_internal.get_country_mobile_token(code)
+    }
+    pub fn verif_as_you_type_eligible(&self, format: &str) -> bool {
+        self.util_internal.is_format_eligible_for_as_you_type_formatter(format)
+    }
+    pub fn verif_first_group_only(&self, rule: &str) -> bool {
+        self.util_internal.formatting_rule_has_first_group_only(rule)
+    }
+    pub fn verif_trim_end(&self, text: &str) -> String {
+        self.util_internal.trim_unwanted_end_chars(text).to_owned()
+    }
+    pub fn verif_starts_with_plus(&self, text: &str) -> bool {
+        self.util_internal.starts_with_plus_chars_pattern(text)
+    }
+    pub fn verif_only_digits(&self, text: &str) -> bool {
+        self.util_internal.contains_only_valid_digits(text)
+    }
+    pub fn verif_digits_only(&self, text: &str) -> String {
+        self.util_internal.normalize_digits_only(text)
+    }
+    pub fn verif_diallable_only(&self, text: &str) -> String {
+        self.util_internal.normalize_diallable_chars_only(text)
+    }
+}
-- 
2.43.0


From 433b109331b1d4517265ac437a6ccb1938ff29fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:31 +0000
Subject: [PATCH 15/15] fix: keep a borrowed result when dialling abroad from a
 mobile

format returns the raw input borrowed when the national number is 0; the
result was dropped and an empty string returned. Falling through also
removes its formatting symbols when none are asked for.
---
 src/phonenumberutil/phonenumberutil_internal.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/phonenumberutil/phonenumberutil_internal.rs b/src/phonenumberutil/phonenumberutil_internal.rs
index 636d3b9..29d97dc 100644
--- a/src/phonenumberutil/phonenumberutil_internal.rs
+++ b/src/phonenumberutil/phonenumberutil_internal.rs
@@ -907,10 +907,7 @@ impl PhoneNumberUtilInternal {
             } else {
                 PhoneNumberFormat::E164
             };
-            return Ok(Cow::Owned(owned_from_cow_or!(
-                self.format(&number_no_extension, format)?,
-                formatted_number
-            )));
+            formatted_number = self.format(&number_no_extension, format)?.into_owned();
         }
         if !with_formatting {
             Ok(Cow::Owned(
-- 
2.43.0

