From 5b7b05d488385a3ae5358d98802b43f1630e6192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:34 +0000
Subject: [PATCH 01/23] fix: match validation patterns against the whole value

---
 src/validation.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/validation.rs b/src/validation.rs
index 86fd23e..65e5a38 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -96,7 +96,8 @@ pub mod helpers {
         // Trim whitespace before validation
         let trimmed_value = value.trim();
 
-        let regex = match Regex::new(pattern) {
+        // Schema patterns describe the whole value, so the expression has to be anchored
+        let regex = match Regex::new(&format!("^(?:{pattern})$")) {
             Ok(r) => r,
             Err(_) => {
                 collector.add_critical_error(
-- 
2.43.0


From 8ad82eadbe550bb62547f872023b9aabe977a7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:34 +0000
Subject: [PATCH 02/23] fix: stop at the first error when fail_fast is set

---
 src/validation.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/validation.rs b/src/validation.rs
index 65e5a38..ff22ab8 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -41,6 +41,11 @@ pub mod helpers {
         config: &ParserConfig,
         collector: &mut ErrorCollector,
     ) -> bool {
+        // In fail-fast mode validation stops at the first error
+        if config.fail_fast && collector.has_errors() {
+            return false;
+        }
+
         let mut valid = true;
 
         if let Some(min_len) = min
@@ -93,6 +98,11 @@ pub mod helpers {
         config: &ParserConfig,
         collector: &mut ErrorCollector,
     ) -> bool {
+        // In fail-fast mode validation stops at the first error
+        if config.fail_fast && collector.has_errors() {
+            return false;
+        }
+
         // Trim whitespace before validation
         let trimmed_value = value.trim();
 
-- 
2.43.0


From 39395c1b5b1df77318c9df2b7b849acd1dd0a216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:35 +0000
Subject: [PATCH 03/23] fix: do not index past the end of truncated XML when
 detecting its message type

---
 src/plugin/common.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plugin/common.rs b/src/plugin/common.rs
index 9a05c5c..01278f3 100644
--- a/src/plugin/common.rs
+++ b/src/plugin/common.rs
@@ -93,7 +93,7 @@ pub fn extract_message_type_from_xml(xml_str: &str) -> Result<String> {
 
             // Find the first element after Document
             if let Some(elem_start) = after_doc.find('<')
-                && after_doc.as_bytes()[elem_start + 1] != b'/'
+                && !after_doc[elem_start + 1..].starts_with('/')
             {
                 let elem_name_start = elem_start + 1;
                 // Find the end of the element name (space or >)
-- 
2.43.0


From a987544a2f99638ed28f29bedd574d7d354d8a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:35 +0000
Subject: [PATCH 04/23] fix: do not slice backwards when </Document> precedes
 <Document>

---
 src/xml.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/xml.rs b/src/xml.rs
index a6d2eda..3df5912 100644
--- a/src/xml.rs
+++ b/src/xml.rs
@@ -74,7 +74,9 @@ pub fn xml_to_json_via_document(
     let inner_xml = if let Some(start_idx) = inner_xml.find("<Document") {
         if let Some(end_bracket) = inner_xml[start_idx..].find('>') {
             let content_start = start_idx + end_bracket + 1;
-            if let Some(end_idx) = inner_xml.rfind("</Document>") {
+            if let Some(end_idx) = inner_xml.rfind("</Document>")
+                && content_start <= end_idx
+            {
                 &inner_xml[content_start..end_idx]
             } else {
                 inner_xml
-- 
2.43.0


From 02a576df72fea0431651a4c9cf59a70028948929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:51 +0000
Subject: [PATCH 05/23] fix: parse Document-only XML for every registered
 message type

---
 src/xml.rs | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/xml.rs b/src/xml.rs
index 3df5912..92bde79 100644
--- a/src/xml.rs
+++ b/src/xml.rs
@@ -123,6 +123,11 @@ pub fn xml_to_json_via_document(
             pain_001_001_09::CustomerCreditTransferInitiationV09,
             "pain.001"
         ),
+        "pain.002" => xml_to_json_doc!(
+            inner_xml,
+            pain_002_001_10::CustomerPaymentStatusReportV10,
+            "pain.002"
+        ),
         "pain.008" => xml_to_json_doc!(
             inner_xml,
             pain_008_001_08::CustomerDirectDebitInitiationV08,
@@ -149,6 +154,11 @@ pub fn xml_to_json_via_document(
             camt_054_001_08::BankToCustomerDebitCreditNotificationV08,
             "camt.054"
         ),
+        "camt.055" => xml_to_json_doc!(
+            inner_xml,
+            camt_055_001_08::CustomerPaymentCancellationRequestV08,
+            "camt.055"
+        ),
         "camt.056" => xml_to_json_doc!(
             inner_xml,
             camt_056_001_08::FIToFIPaymentCancellationRequestV08,
@@ -159,11 +169,26 @@ pub fn xml_to_json_via_document(
             camt_057_001_06::NotificationToReceiveV06,
             "camt.057"
         ),
+        "camt.058" => xml_to_json_doc!(
+            inner_xml,
+            camt_058_001_08::NotificationToReceiveCancellationAdviceV08,
+            "camt.058"
+        ),
         "camt.060" => xml_to_json_doc!(
             inner_xml,
             camt_060_001_05::AccountReportingRequestV05,
             "camt.060"
         ),
+        "camt.105" => xml_to_json_doc!(
+            inner_xml,
+            camt_105_001_02::ChargesPaymentNotificationV02,
+            "camt.105"
+        ),
+        "camt.106" => xml_to_json_doc!(
+            inner_xml,
+            camt_106_001_02::ChargesPaymentRequestV02,
+            "camt.106"
+        ),
         "camt.107" => xml_to_json_doc!(
             inner_xml,
             camt_107_001_01::ChequePresentmentNotificationV01,
-- 
2.43.0


From 793eae352c539b2765dd26fd99a4295b2b546428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:01 +0000
Subject: [PATCH 06/23] fix: accept well-formed envelopes and Document-only XML
 in from_mx_xml_envelope_str

---
 src/xml.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/xml.rs b/src/xml.rs
index 92bde79..e4f0180 100644
--- a/src/xml.rs
+++ b/src/xml.rs
@@ -19,19 +19,20 @@ pub fn from_mx_xml_envelope_str(xml: &str, message_type: &str) -> Result<(), Xml
     let has_envelope = xml.contains("<AppHdr") || xml.contains("<Envelope");
 
     if !has_envelope {
-        // No envelope, validate using MxMessage which handles Document-only
-        MxMessage::from_xml(xml).map_err(|e| {
-            MxError::XmlDeserialization(format!(
-                "Failed to validate Document (message_type={}): {}",
-                message_type, e
-            ))
-        })?;
+        // No envelope, validate the Document against its typed structure
+        xml_to_json_via_document(xml, &message_registry::normalize_message_type(message_type))
+            .map_err(|e| {
+                MxError::XmlDeserialization(format!(
+                    "Failed to validate Document (message_type={}): {}",
+                    message_type, e
+                ))
+            })?;
         return Ok(());
     }
 
     // Parse as full envelope with AppHdr - validate by attempting deserialization
     // All message types use the same BusinessApplicationHeaderV02
-    xml_from_str::<MxMessage>(xml).map_err(|e| {
+    MxMessage::from_xml(xml).map_err(|e| {
         MxError::XmlDeserialization(format!("Failed to parse {} envelope: {}", message_type, e))
     })?;
 
-- 
2.43.0


From d7e99fa650275f3eeb11a0f6ce24fcad7a77b23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:58 +0000
Subject: [PATCH 07/23] fix: parse repeated card capability codes from XML

---
 src/document/camt_052_001_08.rs | 11 +++++++++--
 src/document/camt_053_001_08.rs | 11 +++++++++--
 src/document/camt_054_001_08.rs | 11 +++++++++--
 src/document/mod.rs             | 25 +++++++++++++++++++++++++
 4 files changed, 52 insertions(+), 6 deletions(-)

diff --git a/src/document/camt_052_001_08.rs b/src/document/camt_052_001_08.rs
index 245aa78..863b411 100644
--- a/src/document/camt_052_001_08.rs
+++ b/src/document/camt_052_001_08.rs
@@ -6959,11 +6959,18 @@ impl Validate for PointOfInteraction11 {
 // PointOfInteractionCapabilities1: Number of columns of the printer component.
 #[derive(Debug, Default, Serialize, Deserialize, Clone, PartialEq)]
 pub struct PointOfInteractionCapabilities1 {
-    #[serde(rename = "CardRdngCpblties", skip_serializing_if = "Option::is_none")]
+    #[serde(
+        rename = "CardRdngCpblties",
+        skip_serializing_if = "Option::is_none",
+        default,
+        deserialize_with = "super::deserialize_codes"
+    )]
     pub card_rdng_cpblties: Option<Vec<CardDataReading1Code>>,
     #[serde(
         rename = "CrdhldrVrfctnCpblties",
-        skip_serializing_if = "Option::is_none"
+        skip_serializing_if = "Option::is_none",
+        default,
+        deserialize_with = "super::deserialize_codes"
     )]
     pub crdhldr_vrfctn_cpblties: Option<Vec<CardholderVerificationCapability1Code>>,
     #[serde(rename = "OnLineCpblties", skip_serializing_if = "Option::is_none")]
diff --git a/src/document/camt_053_001_08.rs b/src/document/camt_053_001_08.rs
index beb1d60..597b0b3 100644
--- a/src/document/camt_053_001_08.rs
+++ b/src/document/camt_053_001_08.rs
@@ -6328,11 +6328,18 @@ impl Validate for PointOfInteraction12 {
 // PointOfInteractionCapabilities1: Number of columns of the printer component.
 #[derive(Debug, Default, Serialize, Deserialize, Clone, PartialEq)]
 pub struct PointOfInteractionCapabilities1 {
-    #[serde(rename = "CardRdngCpblties", skip_serializing_if = "Option::is_none")]
+    #[serde(
+        rename = "CardRdngCpblties",
+        skip_serializing_if = "Option::is_none",
+        default,
+        deserialize_with = "super::deserialize_codes"
+    )]
     pub card_rdng_cpblties: Option<Vec<CardDataReading1Code>>,
     #[serde(
         rename = "CrdhldrVrfctnCpblties",
-        skip_serializing_if = "Option::is_none"
+        skip_serializing_if = "Option::is_none",
+        default,
+        deserialize_with = "super::deserialize_codes"
     )]
     pub crdhldr_vrfctn_cpblties: Option<Vec<CardholderVerificationCapability1Code>>,
     #[serde(rename = "OnLineCpblties", skip_serializing_if = "Option::is_none")]
diff --git a/src/document/camt_054_001_08.rs b/src/document/camt_054_001_08.rs
index ee462c0..b71a1ed 100644
--- a/src/document/camt_054_001_08.rs
+++ b/src/document/camt_054_001_08.rs
@@ -7859,11 +7859,18 @@ impl Validate for PointOfInteraction11 {
 // PointOfInteractionCapabilities1: Number of columns of the printer component.
 #[derive(Debug, Default, Serialize, Deserialize, Clone, PartialEq)]
 pub struct PointOfInteractionCapabilities1 {
-    #[serde(rename = "CardRdngCpblties", skip_serializing_if = "Option::is_none")]
+    #[serde(
+        rename = "CardRdngCpblties",
+        skip_serializing_if = "Option::is_none",
+        default,
+        deserialize_with = "super::deserialize_codes"
+    )]
     pub card_rdng_cpblties: Option<Vec<CardDataReading1Code>>,
     #[serde(
         rename = "CrdhldrVrfctnCpblties",
-        skip_serializing_if = "Option::is_none"
+        skip_serializing_if = "Option::is_none",
+        default,
+        deserialize_with = "super::deserialize_codes"
     )]
     pub crdhldr_vrfctn_cpblties: Option<Vec<CardholderVerificationCapability1Code>>,
     #[serde(rename = "OnLineCpblties", skip_serializing_if = "Option::is_none")]
diff --git a/src/document/mod.rs b/src/document/mod.rs
index 9560b75..8632189 100644
--- a/src/document/mod.rs
+++ b/src/document/mod.rs
@@ -17,6 +17,9 @@
 // You may obtain a copy of this library at
 // https://github.com/GoPlasmatic/MXMessage
 
+use serde::de::value::StringDeserializer;
+use serde::de::{Deserialize, DeserializeOwned, Deserializer, IntoDeserializer};
+
 pub mod admi_024_001_01;
 pub mod camt_025_001_08;
 pub mod camt_029_001_09;
@@ -48,3 +51,25 @@ pub mod pacs_010_001_03_mc;
 pub mod pain_001_001_09;
 pub mod pain_002_001_10;
 pub mod pain_008_001_08;
+
+/// Deserialize a repeated code element.
+///
+/// quick-xml takes the element name as the variant name when a sequence item is an enum, so the
+/// codes are read as text first and converted afterwards.
+pub(crate) fn deserialize_codes<'de, D, T>(deserializer: D) -> Result<Option<Vec<T>>, D::Error>
+where
+    D: Deserializer<'de>,
+    T: DeserializeOwned,
+{
+    Option::<Vec<String>>::deserialize(deserializer)?
+        .map(|codes| {
+            codes
+                .into_iter()
+                .map(|code| {
+                    let code: StringDeserializer<D::Error> = code.into_deserializer();
+                    T::deserialize(code)
+                })
+                .collect()
+        })
+        .transpose()
+}
-- 
2.43.0


From 6cbbc4b8b8beb83504b709868c1f8b04ee972f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:16 +0000
Subject: [PATCH 08/23] fix: locate AppHdr, Document and the message element by
 XML structure, not by text search

---
 src/mx_envelope.rs | 59 +++++++++++++++++++++++-----------------------
 1 file changed, 30 insertions(+), 29 deletions(-)

diff --git a/src/mx_envelope.rs b/src/mx_envelope.rs
index e83f091..467e0b1 100644
--- a/src/mx_envelope.rs
+++ b/src/mx_envelope.rs
@@ -1,5 +1,7 @@
 // MX Message Envelope Structure for ISO 20022 compliant XML generation
 
+use quick_xml::Reader;
+use quick_xml::events::Event;
 use serde::{Deserialize, Serialize};
 
 // Re-export AppHdr for convenience
@@ -444,18 +446,17 @@ impl MxMessage {
     }
 
     /// Extract content between XML tags
-    fn extract_section(xml: &str, tag: &str) -> Option<String> {
-        let start_tag = format!("<{}", tag);
-        let end_tag = format!("</{}>", tag);
-
-        let start_idx = xml.find(&start_tag)?;
-        let content_start = xml[start_idx..].find('>')? + start_idx + 1;
-        let end_idx = xml.find(&end_tag)?;
-
-        if content_start < end_idx {
-            Some(xml[content_start..end_idx].to_string())
-        } else {
-            None
+    pub(crate) fn extract_section(xml: &str, tag: &str) -> Option<String> {
+        let mut reader = Reader::from_str(xml);
+        loop {
+            match reader.read_event().ok()? {
+                Event::Start(start) if start.name().as_ref() == tag.as_bytes() => {
+                    let span = reader.read_to_end(start.name()).ok()?;
+                    return Some(xml.get(span.start as usize..span.end as usize)?.to_string());
+                }
+                Event::Eof => return None,
+                _ => {}
+            }
         }
     }
 
@@ -469,26 +470,26 @@ impl MxMessage {
 
     /// Detect document type from XML content
     fn detect_document_type(doc_xml: &str) -> Result<String, MxError> {
-        // Find the first element tag after any whitespace
-        let trimmed = doc_xml.trim();
-        if !trimmed.starts_with('<') {
-            return Err(MxError::XmlDeserialization(
-                "Invalid document XML structure".to_string(),
-            ));
-        }
-
-        let end_idx = trimmed[1..]
-            .find(|c: char| c.is_whitespace() || c == '>')
-            .map(|i| i + 1)
-            .ok_or_else(|| {
-                MxError::XmlDeserialization("Could not find document element".to_string())
-            })?;
-
-        let element_name = &trimmed[1..end_idx];
+        // Find the first element tag after any whitespace, comment or processing instruction
+        let mut reader = Reader::from_str(doc_xml);
+        let element_name = loop {
+            match reader.read_event() {
+                Ok(Event::Start(e) | Event::Empty(e)) => {
+                    break String::from_utf8_lossy(e.name().as_ref()).into_owned();
+                }
+                Ok(Event::Comment(_) | Event::PI(_)) => {}
+                Ok(Event::Text(text)) if text.iter().all(u8::is_ascii_whitespace) => {}
+                _ => {
+                    return Err(MxError::XmlDeserialization(
+                        "Invalid document XML structure".to_string(),
+                    ));
+                }
+            }
+        };
 
         // Map element name to message type using message registry
         let message_type =
-            message_registry::element_to_message_type(element_name).ok_or_else(|| {
+            message_registry::element_to_message_type(&element_name).ok_or_else(|| {
                 MxError::XmlDeserialization(format!("Unknown document type: {}", element_name))
             })?;
 
-- 
2.43.0


From a88d2bb5d0fc8f0400b3093979adf7910c87aa92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:08 +0000
Subject: [PATCH 09/23] fix: keep the envelope's namespace declarations across
 to_xml and from_xml

---
 src/mx_envelope.rs | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/mx_envelope.rs b/src/mx_envelope.rs
index 467e0b1..93ad94f 100644
--- a/src/mx_envelope.rs
+++ b/src/mx_envelope.rs
@@ -1,6 +1,7 @@
 // MX Message Envelope Structure for ISO 20022 compliant XML generation
 
 use quick_xml::Reader;
+use quick_xml::escape::escape;
 use quick_xml::events::Event;
 use serde::{Deserialize, Serialize};
 
@@ -238,7 +239,13 @@ impl MxMessage {
             .replace("</BusinessApplicationHeaderV02>", "</AppHdr>");
 
         let mut xml = String::from("<?xml version=\"1.0\" encoding=\"UTF-8\"?>");
-        xml.push_str("<Envelope>");
+        xml.push_str("<Envelope");
+        for (name, value) in [("xmlns", &self.xmlns), ("xmlns:xsi", &self.xmlns_xsi)] {
+            if let Some(value) = value {
+                xml.push_str(&format!(" {}=\"{}\"", name, escape(value.as_str())));
+            }
+        }
+        xml.push('>');
         xml.push_str(&app_hdr_wrapped);
         xml.push_str("<Document>");
         xml.push_str(&doc_xml);
@@ -460,12 +467,20 @@ impl MxMessage {
         }
     }
 
-    /// Extract XML attribute value
+    /// Extract XML attribute value from the first start tag that carries it
     fn extract_attribute(xml: &str, attr: &str) -> Option<String> {
-        let pattern = format!("{}=\"", attr);
-        let start_idx = xml.find(&pattern)? + pattern.len();
-        let end_idx = xml[start_idx..].find('"')? + start_idx;
-        Some(xml[start_idx..end_idx].to_string())
+        let mut reader = Reader::from_str(xml);
+        loop {
+            match reader.read_event().ok()? {
+                Event::Start(tag) | Event::Empty(tag) => {
+                    if let Ok(Some(found)) = tag.try_get_attribute(attr) {
+                        return found.unescape_value().ok().map(|v| v.into_owned());
+                    }
+                }
+                Event::Eof => return None,
+                _ => {}
+            }
+        }
     }
 
     /// Detect document type from XML content
-- 
2.43.0


From c400711064f19162005cd81439aa915bd992cb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:49 +0000
Subject: [PATCH 10/23] fix: detect envelopes and Document-only messages by XML
 structure in xml.rs and the plugins

---
 src/mx_envelope.rs     | 20 ++++++++++++++++---
 src/plugin/common.rs   | 44 ++++++++++++++++--------------------------
 src/plugin/parse.rs    |  2 +-
 src/plugin/validate.rs |  2 +-
 src/xml.rs             | 29 +++-------------------------
 5 files changed, 39 insertions(+), 58 deletions(-)

diff --git a/src/mx_envelope.rs b/src/mx_envelope.rs
index 93ad94f..d44c908 100644
--- a/src/mx_envelope.rs
+++ b/src/mx_envelope.rs
@@ -400,15 +400,29 @@ impl MxMessage {
     /// Deserialize from XML string using quick-xml with custom enum handling
     pub fn from_xml(xml: &str) -> Result<Self, MxError> {
         // Check if XML contains full envelope or just Document
-        let has_envelope = xml.contains("<AppHdr") || xml.contains("<Envelope");
-
-        if has_envelope {
+        if Self::has_envelope(xml) {
             Self::from_xml_with_envelope(xml)
         } else {
             Self::from_xml_document_only(xml)
         }
     }
 
+    /// Check whether the XML has an AppHdr or Envelope element (rather than just a Document)
+    pub(crate) fn has_envelope(xml: &str) -> bool {
+        let mut reader = Reader::from_str(xml);
+        loop {
+            match reader.read_event() {
+                Ok(Event::Start(e) | Event::Empty(e))
+                    if matches!(e.name().as_ref(), b"AppHdr" | b"Envelope") =>
+                {
+                    return true;
+                }
+                Ok(Event::Eof) | Err(_) => return false,
+                _ => {}
+            }
+        }
+    }
+
     /// Deserialize XML with full envelope (AppHdr + Document)
     fn from_xml_with_envelope(xml: &str) -> Result<Self, MxError> {
         // Extract AppHdr section
diff --git a/src/plugin/common.rs b/src/plugin/common.rs
index 01278f3..971c0d2 100644
--- a/src/plugin/common.rs
+++ b/src/plugin/common.rs
@@ -5,6 +5,8 @@
 
 use crate::message_registry;
 use dataflow_rs::engine::error::{DataflowError, Result};
+use quick_xml::Reader;
+use quick_xml::events::Event;
 use serde_json::Value;
 
 /// Map ISO20022 document element names to message types
@@ -83,35 +85,23 @@ pub fn extract_message_type(data: &Value) -> Result<String> {
 /// * Ok(message_type) - The extracted message type
 /// * Err(error) - If message type cannot be determined
 pub fn extract_message_type_from_xml(xml_str: &str) -> Result<String> {
-    let xml_str = xml_str.trim();
-
-    // Find the Document opening tag
-    if let Some(doc_start) = xml_str.find("<Document") {
-        // Find the end of the opening Document tag
-        if let Some(doc_end) = xml_str[doc_start..].find('>') {
-            let after_doc = &xml_str[doc_start + doc_end + 1..];
-
-            // Find the first element after Document
-            if let Some(elem_start) = after_doc.find('<')
-                && !after_doc[elem_start + 1..].starts_with('/')
-            {
-                let elem_name_start = elem_start + 1;
-                // Find the end of the element name (space or >)
-                let elem_name_end = after_doc[elem_name_start..]
-                    .find([' ', '>', '/'])
-                    .map(|i| elem_name_start + i)
-                    .unwrap_or(after_doc.len());
-
-                let element_name = &after_doc[elem_name_start..elem_name_end];
-                // Remove namespace prefix if present
-                let element_name = if let Some(colon_pos) = element_name.rfind(':') {
-                    &element_name[colon_pos + 1..]
-                } else {
-                    element_name
-                };
+    let mut reader = Reader::from_str(xml_str);
+    let mut inside_document = false;
 
-                return map_document_element_to_message_type(element_name);
+    loop {
+        match reader.read_event() {
+            // The first element after the Document opening tag names the message
+            Ok(Event::Start(e) | Event::Empty(e)) if inside_document => {
+                // Remove namespace prefix if present
+                let element_name = e.local_name();
+                return map_document_element_to_message_type(&String::from_utf8_lossy(
+                    element_name.as_ref(),
+                ));
             }
+            Ok(Event::Start(e)) if e.name().as_ref() == b"Document" => inside_document = true,
+            Ok(Event::End(_)) if inside_document => break,
+            Ok(Event::Eof) | Err(_) => break,
+            _ => {}
         }
     }
 
diff --git a/src/plugin/parse.rs b/src/plugin/parse.rs
index c6dfa3a..60d8f1b 100644
--- a/src/plugin/parse.rs
+++ b/src/plugin/parse.rs
@@ -71,7 +71,7 @@ impl Parse {
         debug!("Parsing XML to JSON using MxMessage API");
 
         // Check if XML has full envelope or just Document
-        let has_envelope = xml_str.contains("<AppHdr") || xml_str.contains("<Envelope");
+        let has_envelope = MxMessage::has_envelope(xml_str);
 
         let parsed_data = if has_envelope {
             debug!("XML has full envelope with AppHdr");
diff --git a/src/plugin/validate.rs b/src/plugin/validate.rs
index a124c8e..d408d09 100644
--- a/src/plugin/validate.rs
+++ b/src/plugin/validate.rs
@@ -96,7 +96,7 @@ impl Validate {
         let warnings: Vec<String> = Vec::new();
 
         // Check if XML has full envelope or just Document
-        let has_envelope = xml_content.contains("<AppHdr") || xml_content.contains("<Envelope");
+        let has_envelope = MxMessage::has_envelope(xml_content);
 
         if has_envelope {
             debug!("Validating XML with full envelope using MxMessage");
diff --git a/src/xml.rs b/src/xml.rs
index e4f0180..bd6365c 100644
--- a/src/xml.rs
+++ b/src/xml.rs
@@ -4,6 +4,7 @@
 
 use crate::error::MxError;
 use crate::message_registry;
+use crate::mx_envelope::MxMessage;
 use quick_xml::de::from_str as xml_from_str;
 
 // Re-export MxError as XmlError for backward compatibility
@@ -13,10 +14,8 @@ pub type XmlError = MxError;
 /// This validates both the header and document structure
 /// Used by validation plugin for envelope validation
 pub fn from_mx_xml_envelope_str(xml: &str, message_type: &str) -> Result<(), XmlError> {
-    use crate::mx_envelope::MxMessage;
-
     // Check if XML contains AppHdr (full envelope) or just Document
-    let has_envelope = xml.contains("<AppHdr") || xml.contains("<Envelope");
+    let has_envelope = MxMessage::has_envelope(xml);
 
     if !has_envelope {
         // No envelope, validate the Document against its typed structure
@@ -66,29 +65,7 @@ pub fn xml_to_json_via_document(
     use serde_json::json;
 
     // Extract inner XML (strip Document wrapper and XML declaration)
-    let inner_xml = xml
-        .trim()
-        .trim_start_matches("<?xml version=\"1.0\" encoding=\"UTF-8\"?>")
-        .trim();
-
-    // Find the Document wrapper and extract inner content
-    let inner_xml = if let Some(start_idx) = inner_xml.find("<Document") {
-        if let Some(end_bracket) = inner_xml[start_idx..].find('>') {
-            let content_start = start_idx + end_bracket + 1;
-            if let Some(end_idx) = inner_xml.rfind("</Document>")
-                && content_start <= end_idx
-            {
-                &inner_xml[content_start..end_idx]
-            } else {
-                inner_xml
-            }
-        } else {
-            inner_xml
-        }
-    } else {
-        inner_xml
-    };
-
+    let inner_xml = MxMessage::extract_section(xml, "Document").unwrap_or_else(|| xml.to_string());
     let inner_xml = inner_xml.trim();
 
     // Deserialize XML to typed struct, then serialize to JSON
-- 
2.43.0


From 49801768dfe336bcf8b950c9a4f844ba9815a6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:28 +0000
Subject: [PATCH 11/23] fix: peek MsgDefIdr from any well-formed start tag,
 unescaped and trimmed

---
 src/mx_envelope.rs | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/mx_envelope.rs b/src/mx_envelope.rs
index d44c908..150fa87 100644
--- a/src/mx_envelope.rs
+++ b/src/mx_envelope.rs
@@ -1,7 +1,7 @@
 // MX Message Envelope Structure for ISO 20022 compliant XML generation
 
 use quick_xml::Reader;
-use quick_xml::escape::escape;
+use quick_xml::escape::{escape, unescape};
 use quick_xml::events::Event;
 use serde::{Deserialize, Serialize};
 
@@ -696,16 +696,13 @@ impl MxMessage {
 
 /// Extract message type from XML without full deserialization
 pub fn peek_message_type_from_xml(xml: &str) -> Result<String, MxError> {
-    // Simple regex-based extraction for MsgDefIdr
-    use regex::Regex;
-
-    let re = Regex::new(r"<MsgDefIdr>([^<]+)</MsgDefIdr>")
-        .map_err(|e| MxError::XmlDeserialization(format!("Regex error: {}", e)))?;
-
-    if let Some(captures) = re.captures(xml)
-        && let Some(msg_def_idr) = captures.get(1)
+    // MsgDefIdr is plain text, so its unescaped content is its value
+    if let Some(text) = MxMessage::extract_section(xml, "MsgDefIdr")
+        && !text.contains('<')
+        && let Ok(msg_def_idr) = unescape(text.trim())
+        && !msg_def_idr.is_empty()
     {
-        return Ok(normalize_message_type(msg_def_idr.as_str()));
+        return Ok(normalize_message_type(&msg_def_idr));
     }
 
     Err(MxError::XmlDeserialization(
-- 
2.43.0


From 50cc805896e16ba28b6711595f9d0d9299b25ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:27 +0000
Subject: [PATCH 12/23] fix: report the previous value in parse_mx and
 validate_mx changes, and do not panic on non-object data

---
 src/plugin/common.rs   | 30 ++++++++++++++++++++++++++++++
 src/plugin/parse.rs    | 19 ++++++++-----------
 src/plugin/validate.rs | 22 +++++++++-------------
 3 files changed, 47 insertions(+), 24 deletions(-)

diff --git a/src/plugin/common.rs b/src/plugin/common.rs
index 971c0d2..7ed41f6 100644
--- a/src/plugin/common.rs
+++ b/src/plugin/common.rs
@@ -5,6 +5,7 @@
 
 use crate::message_registry;
 use dataflow_rs::engine::error::{DataflowError, Result};
+use dataflow_rs::engine::message::Message;
 use quick_xml::Reader;
 use quick_xml::events::Event;
 use serde_json::Value;
@@ -162,6 +163,35 @@ pub fn extract_mx_content(
     }
 }
 
+/// Store a plugin result in the message data and its summary in the metadata
+///
+/// # Returns
+/// * Ok(old_value) - The value the data field held before (Null if it was absent)
+/// * Err(error) - If data or metadata is not an object; the message is left unchanged
+pub(super) fn set_data_field(
+    message: &mut Message,
+    field_name: &str,
+    value: Value,
+    metadata_name: &str,
+    metadata: Value,
+) -> Result<Value> {
+    if !message.metadata().is_object() {
+        return Err(DataflowError::Validation(
+            "Message metadata must be an object".to_string(),
+        ));
+    }
+
+    let old_value = message
+        .data_mut()
+        .as_object_mut()
+        .ok_or_else(|| DataflowError::Validation("Message data must be an object".to_string()))?
+        .insert(field_name.to_string(), value)
+        .unwrap_or(Value::Null);
+    message.metadata_mut()[metadata_name] = metadata;
+
+    Ok(old_value)
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/plugin/parse.rs b/src/plugin/parse.rs
index 60d8f1b..ed95930 100644
--- a/src/plugin/parse.rs
+++ b/src/plugin/parse.rs
@@ -10,7 +10,7 @@ use serde_json::{Value, json};
 use std::sync::Arc;
 use tracing::{debug, error, instrument};
 
-use super::common::{extract_message_type, extract_mx_content};
+use super::common::{extract_message_type, extract_mx_content, set_data_field};
 
 pub struct Parse;
 
@@ -111,19 +111,16 @@ impl Parse {
         debug!(message_type = %message_type, "Successfully parsed XML to JSON");
 
         // Store the parsed result in message data
-        message
-            .data_mut()
-            .as_object_mut()
-            .unwrap()
-            .insert(target_field.to_string(), parsed_data.clone());
-
-        message.metadata_mut().as_object_mut().unwrap().insert(
-            target_field.to_string(),
+        let old_value = set_data_field(
+            message,
+            target_field,
+            parsed_data.clone(),
+            target_field,
             json!({
                 "message_type": message_type,
                 "format": "json",
             }),
-        );
+        )?;
 
         debug!(
             message_type = %message_type,
@@ -138,7 +135,7 @@ impl Parse {
             200,
             vec![Change {
                 path: Arc::from(format!("data.{}", target_field)),
-                old_value: Arc::new(Value::Null),
+                old_value: Arc::new(old_value),
                 new_value: Arc::new(parsed_data),
             }],
         ))
diff --git a/src/plugin/validate.rs b/src/plugin/validate.rs
index d408d09..aa8f716 100644
--- a/src/plugin/validate.rs
+++ b/src/plugin/validate.rs
@@ -10,7 +10,7 @@ use serde_json::{Value, json};
 use std::sync::Arc;
 use tracing::{debug, instrument};
 
-use super::common::extract_mx_content;
+use super::common::{extract_mx_content, set_data_field};
 
 pub struct Validate;
 
@@ -55,21 +55,17 @@ impl AsyncFunctionHandler for Validate {
         // Perform XML validation
         let validation_result = self.validate_xml(&xml_content)?;
 
-        // Store validation result
-        message
-            .data_mut()
-            .as_object_mut()
-            .unwrap()
-            .insert(target_field.to_string(), validation_result.clone());
-
-        // Update metadata with validation summary
-        message.metadata_mut().as_object_mut().unwrap().insert(
-            "validation".to_string(),
+        // Store validation result and update metadata with validation summary
+        let old_value = set_data_field(
+            message,
+            target_field,
+            validation_result.clone(),
+            "validation",
             json!({
                 "validated": true,
                 "timestamp": chrono::Utc::now().to_rfc3339(),
             }),
-        );
+        )?;
 
         message.invalidate_context_cache();
 
@@ -77,7 +73,7 @@ impl AsyncFunctionHandler for Validate {
             200,
             vec![Change {
                 path: Arc::from(format!("data.{}", target_field)),
-                old_value: Arc::new(Value::Null),
+                old_value: Arc::new(old_value),
                 new_value: Arc::new(validation_result),
             }],
         ))
-- 
2.43.0


From 07ac7665296ca3b9c037a6e0fdfadb68908c5328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:55 +0000
Subject: [PATCH 13/23] fix: reject XML nested too deeply to convert to JSON
 instead of overflowing the stack

---
 src/xml.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/xml.rs b/src/xml.rs
index bd6365c..4818993 100644
--- a/src/xml.rs
+++ b/src/xml.rs
@@ -5,7 +5,9 @@
 use crate::error::MxError;
 use crate::message_registry;
 use crate::mx_envelope::MxMessage;
+use quick_xml::Reader;
 use quick_xml::de::from_str as xml_from_str;
+use quick_xml::events::Event;
 
 // Re-export MxError as XmlError for backward compatibility
 pub type XmlError = MxError;
@@ -204,6 +206,9 @@ pub fn xml_to_json_via_document(
     }))
 }
 
+/// Deepest element nesting from_mx_xml_to_json accepts (serde_json's own limit)
+const MAX_XML_DEPTH: usize = 128;
+
 /// Helper function to parse XML to JSON Value (for dataflow plugins)
 /// This function parses XML and converts it to a JSON structure
 ///
@@ -212,6 +217,23 @@ pub fn xml_to_json_via_document(
 ///
 /// Used by mx_envelope for fallback parsing and validate plugin for legacy validation.
 pub fn from_mx_xml_to_json(xml: &str) -> Result<serde_json::Value, XmlError> {
+    // Building the nested value recurses once per level, so bound the depth first
+    let mut reader = Reader::from_str(xml);
+    let mut depth = 0usize;
+    loop {
+        match reader.read_event() {
+            Ok(Event::Start(_)) if depth == MAX_XML_DEPTH => {
+                return Err(MxError::XmlDeserialization(
+                    "XML parsing error: elements are nested too deeply".to_string(),
+                ));
+            }
+            Ok(Event::Start(_)) => depth += 1,
+            Ok(Event::End(_)) => depth = depth.saturating_sub(1),
+            Ok(Event::Eof) | Err(_) => break,
+            Ok(_) => {}
+        }
+    }
+
     // Use quick_xml to deserialize directly to a serde_json::Value
     // This is simpler than manual parsing and handles the XML-to-JSON conversion
     let value: serde_json::Value = quick_xml::de::from_str(xml)
-- 
2.43.0


From aacbfa169ef124b46b7df2c5f0e98084424ef87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:58 +0000
Subject: [PATCH 14/23] fix: peek MsgDefIdr exactly as from_xml reads it

---
 src/mx_envelope.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mx_envelope.rs b/src/mx_envelope.rs
index 150fa87..8b11b5d 100644
--- a/src/mx_envelope.rs
+++ b/src/mx_envelope.rs
@@ -1,7 +1,7 @@
 // MX Message Envelope Structure for ISO 20022 compliant XML generation
 
 use quick_xml::Reader;
-use quick_xml::escape::{escape, unescape};
+use quick_xml::escape::escape;
 use quick_xml::events::Event;
 use serde::{Deserialize, Serialize};
 
@@ -696,10 +696,10 @@ impl MxMessage {
 
 /// Extract message type from XML without full deserialization
 pub fn peek_message_type_from_xml(xml: &str) -> Result<String, MxError> {
-    // MsgDefIdr is plain text, so its unescaped content is its value
+    // Read the first MsgDefIdr element the way from_xml reads it
     if let Some(text) = MxMessage::extract_section(xml, "MsgDefIdr")
-        && !text.contains('<')
-        && let Ok(msg_def_idr) = unescape(text.trim())
+        && let Ok(msg_def_idr) =
+            quick_xml::de::from_str::<String>(&format!("<MsgDefIdr>{}</MsgDefIdr>", text))
         && !msg_def_idr.is_empty()
     {
         return Ok(normalize_message_type(&msg_def_idr));
-- 
2.43.0


From b82232b0050abdcf3510d6e2832611b5ad17cd54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:43 +0000
Subject: [PATCH 15/23] fix: locate XML sections correctly after a byte order
 mark

---
 src/mx_envelope.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mx_envelope.rs b/src/mx_envelope.rs
index 8b11b5d..86b8af8 100644
--- a/src/mx_envelope.rs
+++ b/src/mx_envelope.rs
@@ -468,6 +468,8 @@ impl MxMessage {
 
     /// Extract content between XML tags
     pub(crate) fn extract_section(xml: &str, tag: &str) -> Option<String> {
+        // The reader skips a byte order mark without counting it in its positions
+        let xml = xml.strip_prefix('\u{feff}').unwrap_or(xml);
         let mut reader = Reader::from_str(xml);
         loop {
             match reader.read_event().ok()? {
-- 
2.43.0


From 76091f00ea8bd47912336cc1540fa00f84c876df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:02 +0000
Subject: [PATCH 16/23] fix: reject a Document whose element is not the message
 type's

---
 src/xml.rs | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/src/xml.rs b/src/xml.rs
index 4818993..5c80aba 100644
--- a/src/xml.rs
+++ b/src/xml.rs
@@ -5,6 +5,7 @@
 use crate::error::MxError;
 use crate::message_registry;
 use crate::mx_envelope::MxMessage;
+use crate::plugin::common::map_document_element_to_message_type;
 use quick_xml::Reader;
 use quick_xml::de::from_str as xml_from_str;
 use quick_xml::events::Event;
@@ -46,6 +47,31 @@ fn get_document_element_name(message_type: &str) -> &'static str {
     message_registry::message_type_to_element(message_type).unwrap_or("Unknown")
 }
 
+/// Check that the first element of the XML is one the message type is known by
+fn check_document_element(xml: &str, message_type: &str) -> Result<(), XmlError> {
+    let mut reader = Reader::from_str(xml);
+    loop {
+        match reader.read_event() {
+            Ok(Event::Start(e) | Event::Empty(e)) => {
+                let element_name = String::from_utf8_lossy(e.local_name().as_ref()).into_owned();
+                return match map_document_element_to_message_type(&element_name) {
+                    Ok(found) if found == message_type => Ok(()),
+                    _ => Err(MxError::XmlDeserialization(format!(
+                        "Unexpected document element for {}: {}",
+                        message_type, element_name
+                    ))),
+                };
+            }
+            Ok(Event::Eof) | Err(_) => {
+                return Err(MxError::XmlDeserialization(
+                    "Document element not found in XML".to_string(),
+                ));
+            }
+            Ok(_) => {}
+        }
+    }
+}
+
 /// Macro to reduce XML to JSON conversion boilerplate
 macro_rules! xml_to_json_doc {
     ($xml:expr, $path:path, $msg_type:expr) => {{
@@ -197,6 +223,9 @@ pub fn xml_to_json_via_document(
         }
     };
 
+    // Deserialization ignores the name of the root element, so check it here
+    check_document_element(inner_xml, message_type)?;
+
     // Wrap in Document structure with correct element name
     let element_name = get_document_element_name(message_type);
     Ok(json!({
-- 
2.43.0


From 74be056e45f276059dd599c149e5bb6b6d290c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:01 +0000
Subject: [PATCH 17/23] fix: reject XML that ends before all elements are
 closed

---
 src/mx_envelope.rs | 23 +++++++++++++++++++++++
 src/xml.rs         |  3 +++
 2 files changed, 26 insertions(+)

diff --git a/src/mx_envelope.rs b/src/mx_envelope.rs
index 86b8af8..39956bb 100644
--- a/src/mx_envelope.rs
+++ b/src/mx_envelope.rs
@@ -423,8 +423,31 @@ impl MxMessage {
         }
     }
 
+    /// Check that every element of the XML is closed by its own end tag
+    pub(crate) fn check_complete(xml: &str) -> Result<(), MxError> {
+        let mut reader = Reader::from_str(xml);
+        let mut open_elements = 0usize;
+        loop {
+            match reader.read_event() {
+                Ok(Event::Start(_)) => open_elements += 1,
+                Ok(Event::End(_)) => open_elements = open_elements.saturating_sub(1),
+                Ok(Event::Eof) if open_elements > 0 => {
+                    return Err(MxError::XmlDeserialization(
+                        "XML ends before all elements are closed".to_string(),
+                    ));
+                }
+                Ok(Event::Eof) => return Ok(()),
+                Ok(_) => {}
+                Err(e) => return Err(MxError::XmlDeserialization(e.to_string())),
+            }
+        }
+    }
+
     /// Deserialize XML with full envelope (AppHdr + Document)
     fn from_xml_with_envelope(xml: &str) -> Result<Self, MxError> {
+        // The sections are read on their own, so check the XML around them first
+        Self::check_complete(xml)?;
+
         // Extract AppHdr section
         let app_hdr_xml = Self::extract_section(xml, "AppHdr")
             .ok_or_else(|| MxError::XmlDeserialization("AppHdr not found in XML".to_string()))?;
diff --git a/src/xml.rs b/src/xml.rs
index 5c80aba..cd05f81 100644
--- a/src/xml.rs
+++ b/src/xml.rs
@@ -92,6 +92,9 @@ pub fn xml_to_json_via_document(
     use crate::document::*;
     use serde_json::json;
 
+    // The Document section is read on its own, so check the XML around it first
+    MxMessage::check_complete(xml)?;
+
     // Extract inner XML (strip Document wrapper and XML declaration)
     let inner_xml = MxMessage::extract_section(xml, "Document").unwrap_or_else(|| xml.to_string());
     let inner_xml = inner_xml.trim();
-- 
2.43.0


From b9e0701a45546b263b4a808457672b1eba74b77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:13 +0000
Subject: [PATCH 18/23] fix: reject a second header, document or message
 instead of ignoring it

---
 src/mx_envelope.rs | 43 ++++++++++++++++++++++++++++++++++++++++++-
 src/xml.rs         |  1 +
 2 files changed, 43 insertions(+), 1 deletion(-)

diff --git a/src/mx_envelope.rs b/src/mx_envelope.rs
index 39956bb..6892d34 100644
--- a/src/mx_envelope.rs
+++ b/src/mx_envelope.rs
@@ -423,12 +423,26 @@ impl MxMessage {
         }
     }
 
-    /// Check that every element of the XML is closed by its own end tag
+    /// Check that every element of the XML is closed by its own end tag,
+    /// and that there is no second AppHdr or Document which would be ignored
     pub(crate) fn check_complete(xml: &str) -> Result<(), MxError> {
         let mut reader = Reader::from_str(xml);
         let mut open_elements = 0usize;
+        let mut sections = Vec::new();
         loop {
             match reader.read_event() {
+                Ok(Event::Start(e)) if matches!(e.name().as_ref(), b"AppHdr" | b"Document") => {
+                    let section = e.name().as_ref().to_vec();
+                    if sections.contains(&section) {
+                        return Err(MxError::XmlDeserialization(
+                            "XML contains more than one AppHdr or Document".to_string(),
+                        ));
+                    }
+                    sections.push(section);
+                    reader
+                        .read_to_end(e.name())
+                        .map_err(|e| MxError::XmlDeserialization(e.to_string()))?;
+                }
                 Ok(Event::Start(_)) => open_elements += 1,
                 Ok(Event::End(_)) => open_elements = open_elements.saturating_sub(1),
                 Ok(Event::Eof) if open_elements > 0 => {
@@ -462,6 +476,8 @@ impl MxMessage {
         let doc_xml = Self::extract_section(xml, "Document")
             .ok_or_else(|| MxError::XmlDeserialization("Document not found in XML".to_string()))?;
 
+        Self::check_single_element(&doc_xml)?;
+
         // Determine document type from the first element inside Document
         let doc_type = Self::detect_document_type(&doc_xml)?;
 
@@ -522,6 +538,31 @@ impl MxMessage {
         }
     }
 
+    /// Check that a Document holds one message element, as any further one would be ignored
+    pub(crate) fn check_single_element(doc_xml: &str) -> Result<(), MxError> {
+        let mut reader = Reader::from_str(doc_xml);
+        let mut elements = 0usize;
+        loop {
+            match reader.read_event() {
+                Ok(Event::Start(e)) => {
+                    elements += 1;
+                    reader
+                        .read_to_end(e.name())
+                        .map_err(|e| MxError::XmlDeserialization(e.to_string()))?;
+                }
+                Ok(Event::Empty(_)) => elements += 1,
+                Ok(Event::Eof) if elements > 1 => {
+                    return Err(MxError::XmlDeserialization(
+                        "Document contains more than one message".to_string(),
+                    ));
+                }
+                Ok(Event::Eof) => return Ok(()),
+                Ok(_) => {}
+                Err(e) => return Err(MxError::XmlDeserialization(e.to_string())),
+            }
+        }
+    }
+
     /// Detect document type from XML content
     fn detect_document_type(doc_xml: &str) -> Result<String, MxError> {
         // Find the first element tag after any whitespace, comment or processing instruction
diff --git a/src/xml.rs b/src/xml.rs
index cd05f81..e0636cc 100644
--- a/src/xml.rs
+++ b/src/xml.rs
@@ -98,6 +98,7 @@ pub fn xml_to_json_via_document(
     // Extract inner XML (strip Document wrapper and XML declaration)
     let inner_xml = MxMessage::extract_section(xml, "Document").unwrap_or_else(|| xml.to_string());
     let inner_xml = inner_xml.trim();
+    MxMessage::check_single_element(inner_xml)?;
 
     // Deserialize XML to typed struct, then serialize to JSON
     let json_value = match message_type {
-- 
2.43.0


From 4fa2af43a242e1c53bc25a7e077f3be8472d95ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:56 +0000
Subject: [PATCH 19/23] fix: reject a DOCTYPE inside an element instead of
 panicking on it

---
 src/mx_envelope.rs | 24 ++++++++++++++++++++++++
 src/xml.rs         |  2 ++
 2 files changed, 26 insertions(+)

diff --git a/src/mx_envelope.rs b/src/mx_envelope.rs
index 6892d34..b4c4290 100644
--- a/src/mx_envelope.rs
+++ b/src/mx_envelope.rs
@@ -426,6 +426,8 @@ impl MxMessage {
     /// Check that every element of the XML is closed by its own end tag,
     /// and that there is no second AppHdr or Document which would be ignored
     pub(crate) fn check_complete(xml: &str) -> Result<(), MxError> {
+        Self::check_no_inner_doctype(xml)?;
+
         let mut reader = Reader::from_str(xml);
         let mut open_elements = 0usize;
         let mut sections = Vec::new();
@@ -457,6 +459,27 @@ impl MxMessage {
         }
     }
 
+    /// Check that no DOCTYPE stands inside an element: that is not well-formed,
+    /// and the deserializer panics on text split by one
+    pub(crate) fn check_no_inner_doctype(xml: &str) -> Result<(), MxError> {
+        let mut reader = Reader::from_str(xml);
+        let mut open_elements = 0usize;
+        loop {
+            match reader.read_event() {
+                Ok(Event::Start(_)) => open_elements += 1,
+                Ok(Event::End(_)) => open_elements = open_elements.saturating_sub(1),
+                Ok(Event::DocType(_)) if open_elements > 0 => {
+                    return Err(MxError::XmlDeserialization(
+                        "XML contains a DOCTYPE inside an element".to_string(),
+                    ));
+                }
+                Ok(Event::Eof) => return Ok(()),
+                Ok(_) => {}
+                Err(e) => return Err(MxError::XmlDeserialization(e.to_string())),
+            }
+        }
+    }
+
     /// Deserialize XML with full envelope (AppHdr + Document)
     fn from_xml_with_envelope(xml: &str) -> Result<Self, MxError> {
         // The sections are read on their own, so check the XML around them first
@@ -764,6 +787,7 @@ impl MxMessage {
 pub fn peek_message_type_from_xml(xml: &str) -> Result<String, MxError> {
     // Read the first MsgDefIdr element the way from_xml reads it
     if let Some(text) = MxMessage::extract_section(xml, "MsgDefIdr")
+        && MxMessage::check_no_inner_doctype(&format!("<MsgDefIdr>{}</MsgDefIdr>", text)).is_ok()
         && let Ok(msg_def_idr) =
             quick_xml::de::from_str::<String>(&format!("<MsgDefIdr>{}</MsgDefIdr>", text))
         && !msg_def_idr.is_empty()
diff --git a/src/xml.rs b/src/xml.rs
index e0636cc..a371307 100644
--- a/src/xml.rs
+++ b/src/xml.rs
@@ -250,6 +250,8 @@ const MAX_XML_DEPTH: usize = 128;
 ///
 /// Used by mx_envelope for fallback parsing and validate plugin for legacy validation.
 pub fn from_mx_xml_to_json(xml: &str) -> Result<serde_json::Value, XmlError> {
+    MxMessage::check_no_inner_doctype(xml)?;
+
     // Building the nested value recurses once per level, so bound the depth first
     let mut reader = Reader::from_str(xml);
     let mut depth = 0usize;
-- 
2.43.0


From db57ab2ec2999a5212cd7be2215d8a200f8da0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:12 +0000
Subject: [PATCH 20/23] fix: keep a literal backslash-n in content that
 parse_mx reads

---
 src/plugin/parse.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/plugin/parse.rs b/src/plugin/parse.rs
index ed95930..2fbdf98 100644
--- a/src/plugin/parse.rs
+++ b/src/plugin/parse.rs
@@ -43,8 +43,7 @@ impl AsyncFunctionHandler for Parse {
             DataflowError::Validation("'target' parameter is required".to_string())
         })?;
 
-        let xml_payload = extract_mx_content(message.data(), source_field, &message.payload)?
-            .replace("\\n", "\n");
+        let xml_payload = extract_mx_content(message.data(), source_field, &message.payload)?;
 
         debug!(
             source_field = %source_field,
@@ -53,7 +52,14 @@ impl AsyncFunctionHandler for Parse {
             "Extracted XML payload for parsing"
         );
 
-        self.parse_xml_to_json(message, &xml_payload, target_field)
+        // A payload may come with its line breaks escaped as "\n". Undo that only when it cannot be
+        // read as it stands: a backslash followed by "n" is also legitimate content.
+        match self.parse_xml_to_json(message, &xml_payload, target_field) {
+            Err(_) if xml_payload.contains("\\n") => {
+                self.parse_xml_to_json(message, &xml_payload.replace("\\n", "\n"), target_field)
+            }
+            result => result,
+        }
     }
 }
 
-- 
2.43.0


From fc839ead4ee77cd3aeb017adc596841a9ac498fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:57 +0000
Subject: [PATCH 21/23] fix: box wrapping of a module no longer depends on the
 modules before it

---
 apply-box-wrapping.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/apply-box-wrapping.py b/apply-box-wrapping.py
index c3f5ea1..c9a8bdb 100644
--- a/apply-box-wrapping.py
+++ b/apply-box-wrapping.py
@@ -219,7 +219,10 @@ class StructAnalyzer:
         original_content = content
         changes = []
         
-        # First pass: analyze all structs
+        # First pass: analyze all structs. Modules are self-contained, and the same type name can
+        # stand for different structs in different modules, so nothing is carried over.
+        self.struct_fields_count = {}
+        self.nesting_depth = {}
         self.structs = self.parse_file(file_path)
         
         # Second pass: apply boxing
-- 
2.43.0


From 7fd6f450323dd0709588c605e12450df40e58d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:57 +0000
Subject: [PATCH 22/23] fix: box wrapping honours --min-fields 0 and
 --max-depth 0

---
 apply-box-wrapping.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/apply-box-wrapping.py b/apply-box-wrapping.py
index c9a8bdb..89ff780 100644
--- a/apply-box-wrapping.py
+++ b/apply-box-wrapping.py
@@ -305,9 +305,9 @@ def main():
         config = BoxConfig()
     
     # Apply command-line overrides
-    if args.min_fields:
+    if args.min_fields is not None:
         config.min_fields_to_box = args.min_fields
-    if args.max_depth:
+    if args.max_depth is not None:
         config.max_nesting_depth = args.max_depth
     if args.no_patterns:
         config.use_pattern_matching = False
-- 
2.43.0


From 76f56df2ebb5bdae3070d36d8ceee45d7e7b74d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:54 +0000
Subject: [PATCH 23/23] fix: from_mx_xml_to_json keeps all elements of the same
 name

---
 src/xml.rs | 47 +++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 45 insertions(+), 2 deletions(-)

diff --git a/src/xml.rs b/src/xml.rs
index a371307..b3edf18 100644
--- a/src/xml.rs
+++ b/src/xml.rs
@@ -9,6 +9,7 @@ use crate::plugin::common::map_document_element_to_message_type;
 use quick_xml::Reader;
 use quick_xml::de::from_str as xml_from_str;
 use quick_xml::events::Event;
+use serde::de::{Deserialize, Deserializer, MapAccess, Visitor};
 
 // Re-export MxError as XmlError for backward compatibility
 pub type XmlError = MxError;
@@ -242,11 +243,53 @@ pub fn xml_to_json_via_document(
 /// Deepest element nesting from_mx_xml_to_json accepts (serde_json's own limit)
 const MAX_XML_DEPTH: usize = 128;
 
+/// JSON value of an XML element: child elements of the same name become an array
+struct XmlValue(serde_json::Value);
+
+impl<'de> Deserialize<'de> for XmlValue {
+    fn deserialize<D: Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
+        struct XmlVisitor;
+
+        impl<'de> Visitor<'de> for XmlVisitor {
+            type Value = XmlValue;
+
+            fn expecting(&self, formatter: &mut std::fmt::Formatter) -> std::fmt::Result {
+                formatter.write_str("an XML element or text")
+            }
+
+            fn visit_str<E>(self, text: &str) -> Result<Self::Value, E> {
+                Ok(XmlValue(text.into()))
+            }
+
+            fn visit_map<A: MapAccess<'de>>(self, mut map: A) -> Result<Self::Value, A::Error> {
+                use serde_json::{Value, map::Entry};
+
+                let mut members = serde_json::Map::new();
+                while let Some((name, XmlValue(value))) = map.next_entry::<String, _>()? {
+                    match members.entry(name) {
+                        Entry::Vacant(entry) => {
+                            entry.insert(value);
+                        }
+                        Entry::Occupied(mut entry) => match entry.get_mut() {
+                            Value::Array(values) => values.push(value),
+                            first => *first = Value::Array(vec![first.take(), value]),
+                        },
+                    }
+                }
+                Ok(XmlValue(Value::Object(members)))
+            }
+        }
+
+        deserializer.deserialize_any(XmlVisitor)
+    }
+}
+
 /// Helper function to parse XML to JSON Value (for dataflow plugins)
 /// This function parses XML and converts it to a JSON structure
 ///
 /// Note: This is a simplified XML parser for plugin use.
-/// It converts XML elements to JSON objects preserving the structure.
+/// It converts XML elements to JSON objects preserving the structure. Elements that occur
+/// several times in the same parent form an array.
 ///
 /// Used by mx_envelope for fallback parsing and validate plugin for legacy validation.
 pub fn from_mx_xml_to_json(xml: &str) -> Result<serde_json::Value, XmlError> {
@@ -271,7 +314,7 @@ pub fn from_mx_xml_to_json(xml: &str) -> Result<serde_json::Value, XmlError> {
 
     // Use quick_xml to deserialize directly to a serde_json::Value
     // This is simpler than manual parsing and handles the XML-to-JSON conversion
-    let value: serde_json::Value = quick_xml::de::from_str(xml)
+    let XmlValue(value) = quick_xml::de::from_str(xml)
         .map_err(|e| MxError::XmlDeserialization(format!("XML parsing error: {}", e)))?;
 
     Ok(value)
-- 
2.43.0

