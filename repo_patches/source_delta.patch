From bcd5730575c278162a218dae4cdae5adca559598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:07 +0000
Subject: [PATCH 01/21] fix: match schema patterns against the whole value

---
 src/validation.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/validation.rs b/src/validation.rs
index 86fd23e..0480bd7 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -96,7 +96,8 @@ pub mod helpers {
         // Trim whitespace before validation
         let trimmed_value = value.trim();
 
-        let regex = match Regex::new(pattern) {
+        // Schema patterns describe the whole value, not a part of it
+        let regex = match Regex::new(&format!("^(?:{pattern})$")) {
             Ok(r) => r,
             Err(_) => {
                 collector.add_critical_error(
-- 
2.43.0


From c98a55ea66387d644f2f9c428ff41e3812636cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:07 +0000
Subject: [PATCH 02/21] fix: stop collecting errors after the first one in
 fail-fast mode

---
 src/validation.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/validation.rs b/src/validation.rs
index 0480bd7..c9198a0 100644
--- a/src/validation.rs
+++ b/src/validation.rs
@@ -41,6 +41,11 @@ pub mod helpers {
         config: &ParserConfig,
         collector: &mut ErrorCollector,
     ) -> bool {
+        // In fail-fast mode the first error ends the validation
+        if config.fail_fast && collector.has_errors() {
+            return false;
+        }
+
         let mut valid = true;
 
         if let Some(min_len) = min
@@ -93,6 +98,11 @@ pub mod helpers {
         config: &ParserConfig,
         collector: &mut ErrorCollector,
     ) -> bool {
+        // In fail-fast mode the first error ends the validation
+        if config.fail_fast && collector.has_errors() {
+            return false;
+        }
+
         // Trim whitespace before validation
         let trimmed_value = value.trim();
 
@@ -137,9 +147,14 @@ pub mod helpers {
         value: &Option<T>,
         field_name: &str,
         path: &str,
-        _config: &ParserConfig,
+        config: &ParserConfig,
         collector: &mut ErrorCollector,
     ) -> bool {
+        // In fail-fast mode the first error ends the validation
+        if config.fail_fast && collector.has_errors() {
+            return false;
+        }
+
         if value.is_none() {
             let error = ValidationError::new(1003, format!("{field_name} is required"))
                 .with_field(field_name.to_string())
-- 
2.43.0


From 61e8124194a77e9a9a79a4584dd723b6b753a7a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:07 +0000
Subject: [PATCH 03/21] fix: do not panic on XML that ends right after the
 opening angle bracket

---
 src/plugin/common.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plugin/common.rs b/src/plugin/common.rs
index 9a05c5c..01278f3 100644
--- a/src/plugin/common.rs
+++ b/src/plugin/common.rs
@@ -93,7 +93,7 @@ pub fn extract_message_type_from_xml(xml_str: &str) -> Result<String> {
 
             // Find the first element after Document
             if let Some(elem_start) = after_doc.find('<')
-                && after_doc.as_bytes()[elem_start + 1] != b'/'
+                && !after_doc[elem_start + 1..].starts_with('/')
             {
                 let elem_name_start = elem_start + 1;
                 // Find the end of the element name (space or >)
-- 
2.43.0


From 3183fc1c111f0a97743f90fe6b41f870eb22450b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:08 +0000
Subject: [PATCH 04/21] fix: do not panic when the Document end tag precedes
 its start tag

---
 src/xml.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/xml.rs b/src/xml.rs
index a6d2eda..be9d91c 100644
--- a/src/xml.rs
+++ b/src/xml.rs
@@ -74,7 +74,10 @@ pub fn xml_to_json_via_document(
     let inner_xml = if let Some(start_idx) = inner_xml.find("<Document") {
         if let Some(end_bracket) = inner_xml[start_idx..].find('>') {
             let content_start = start_idx + end_bracket + 1;
-            if let Some(end_idx) = inner_xml.rfind("</Document>") {
+            if let Some(end_idx) = inner_xml
+                .rfind("</Document>")
+                .filter(|end_idx| *end_idx >= content_start)
+            {
                 &inner_xml[content_start..end_idx]
             } else {
                 inner_xml
-- 
2.43.0


From a8e80c375470e8eee31ffb5a5f04f64e9e350ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:38 +0000
Subject: [PATCH 05/21] fix: validate Document-only XML against its typed
 structure instead of always rejecting it

---
 src/xml.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/xml.rs b/src/xml.rs
index be9d91c..dcef630 100644
--- a/src/xml.rs
+++ b/src/xml.rs
@@ -19,8 +19,8 @@ pub fn from_mx_xml_envelope_str(xml: &str, message_type: &str) -> Result<(), Xml
     let has_envelope = xml.contains("<AppHdr") || xml.contains("<Envelope");
 
     if !has_envelope {
-        // No envelope, validate using MxMessage which handles Document-only
-        MxMessage::from_xml(xml).map_err(|e| {
+        // No envelope, validate the Document against its typed structure
+        xml_to_json_via_document(xml, message_type).map_err(|e| {
             MxError::XmlDeserialization(format!(
                 "Failed to validate Document (message_type={}): {}",
                 message_type, e
-- 
2.43.0


From 70ce66f7c95401c72a38a269c44b7d7ed7c61874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:38 +0000
Subject: [PATCH 06/21] fix: read full envelopes with the envelope reader in
 from_mx_xml_envelope_str

---
 src/xml.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xml.rs b/src/xml.rs
index dcef630..7d42d8f 100644
--- a/src/xml.rs
+++ b/src/xml.rs
@@ -31,7 +31,7 @@ pub fn from_mx_xml_envelope_str(xml: &str, message_type: &str) -> Result<(), Xml
 
     // Parse as full envelope with AppHdr - validate by attempting deserialization
     // All message types use the same BusinessApplicationHeaderV02
-    xml_from_str::<MxMessage>(xml).map_err(|e| {
+    MxMessage::from_xml(xml).map_err(|e| {
         MxError::XmlDeserialization(format!("Failed to parse {} envelope: {}", message_type, e))
     })?;
 
-- 
2.43.0


From e81b110730c353d4c9c8d7c64e55eb3144827132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:38 +0000
Subject: [PATCH 07/21] fix: parse Document-only XML of every registered
 message type

---
 src/xml.rs | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/xml.rs b/src/xml.rs
index 7d42d8f..ecefa51 100644
--- a/src/xml.rs
+++ b/src/xml.rs
@@ -124,6 +124,11 @@ pub fn xml_to_json_via_document(
             pain_001_001_09::CustomerCreditTransferInitiationV09,
             "pain.001"
         ),
+        "pain.002" => xml_to_json_doc!(
+            inner_xml,
+            pain_002_001_10::CustomerPaymentStatusReportV10,
+            "pain.002"
+        ),
         "pain.008" => xml_to_json_doc!(
             inner_xml,
             pain_008_001_08::CustomerDirectDebitInitiationV08,
@@ -150,6 +155,11 @@ pub fn xml_to_json_via_document(
             camt_054_001_08::BankToCustomerDebitCreditNotificationV08,
             "camt.054"
         ),
+        "camt.055" => xml_to_json_doc!(
+            inner_xml,
+            camt_055_001_08::CustomerPaymentCancellationRequestV08,
+            "camt.055"
+        ),
         "camt.056" => xml_to_json_doc!(
             inner_xml,
             camt_056_001_08::FIToFIPaymentCancellationRequestV08,
@@ -160,11 +170,26 @@ pub fn xml_to_json_via_document(
             camt_057_001_06::NotificationToReceiveV06,
             "camt.057"
         ),
+        "camt.058" => xml_to_json_doc!(
+            inner_xml,
+            camt_058_001_08::NotificationToReceiveCancellationAdviceV08,
+            "camt.058"
+        ),
         "camt.060" => xml_to_json_doc!(
             inner_xml,
             camt_060_001_05::AccountReportingRequestV05,
             "camt.060"
         ),
+        "camt.105" => xml_to_json_doc!(
+            inner_xml,
+            camt_105_001_02::ChargesPaymentNotificationV02,
+            "camt.105"
+        ),
+        "camt.106" => xml_to_json_doc!(
+            inner_xml,
+            camt_106_001_02::ChargesPaymentRequestV02,
+            "camt.106"
+        ),
         "camt.107" => xml_to_json_doc!(
             inner_xml,
             camt_107_001_01::ChequePresentmentNotificationV01,
-- 
2.43.0


From d40b2f47889cad769309b6792b5e0e2349a070a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:01 +0000
Subject: [PATCH 08/21] fix: report the replaced value in the changes of
 parse_mx and validate_mx

---
 src/plugin/parse.rs    | 8 +++++++-
 src/plugin/validate.rs | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/plugin/parse.rs b/src/plugin/parse.rs
index c6dfa3a..d290618 100644
--- a/src/plugin/parse.rs
+++ b/src/plugin/parse.rs
@@ -111,6 +111,12 @@ impl Parse {
         debug!(message_type = %message_type, "Successfully parsed XML to JSON");
 
         // Store the parsed result in message data
+        let old_value = message
+            .data()
+            .get(target_field)
+            .cloned()
+            .unwrap_or(Value::Null);
+
         message
             .data_mut()
             .as_object_mut()
@@ -138,7 +144,7 @@ impl Parse {
             200,
             vec![Change {
                 path: Arc::from(format!("data.{}", target_field)),
-                old_value: Arc::new(Value::Null),
+                old_value: Arc::new(old_value),
                 new_value: Arc::new(parsed_data),
             }],
         ))
diff --git a/src/plugin/validate.rs b/src/plugin/validate.rs
index a124c8e..56a0c82 100644
--- a/src/plugin/validate.rs
+++ b/src/plugin/validate.rs
@@ -56,6 +56,12 @@ impl AsyncFunctionHandler for Validate {
         let validation_result = self.validate_xml(&xml_content)?;
 
         // Store validation result
+        let old_value = message
+            .data()
+            .get(target_field)
+            .cloned()
+            .unwrap_or(Value::Null);
+
         message
             .data_mut()
             .as_object_mut()
@@ -77,7 +83,7 @@ impl AsyncFunctionHandler for Validate {
             200,
             vec![Change {
                 path: Arc::from(format!("data.{}", target_field)),
-                old_value: Arc::new(Value::Null),
+                old_value: Arc::new(old_value),
                 new_value: Arc::new(validation_result),
             }],
         ))
-- 
2.43.0


From 63b4387b9068eb55bc491478d0fb0fe2d9f592ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:01 +0000
Subject: [PATCH 09/21] fix: return an error instead of panicking when message
 data or metadata is not an object

---
 src/plugin/parse.rs    | 6 ++++++
 src/plugin/validate.rs | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/src/plugin/parse.rs b/src/plugin/parse.rs
index d290618..b3e6c5e 100644
--- a/src/plugin/parse.rs
+++ b/src/plugin/parse.rs
@@ -110,6 +110,12 @@ impl Parse {
 
         debug!(message_type = %message_type, "Successfully parsed XML to JSON");
 
+        if !message.data().is_object() || !message.metadata().is_object() {
+            return Err(DataflowError::Validation(
+                "Message data and metadata must be objects".to_string(),
+            ));
+        }
+
         // Store the parsed result in message data
         let old_value = message
             .data()
diff --git a/src/plugin/validate.rs b/src/plugin/validate.rs
index 56a0c82..b93df8e 100644
--- a/src/plugin/validate.rs
+++ b/src/plugin/validate.rs
@@ -55,6 +55,12 @@ impl AsyncFunctionHandler for Validate {
         // Perform XML validation
         let validation_result = self.validate_xml(&xml_content)?;
 
+        if !message.data().is_object() || !message.metadata().is_object() {
+            return Err(DataflowError::Validation(
+                "Message data and metadata must be objects".to_string(),
+            ));
+        }
+
         // Store validation result
         let old_value = message
             .data()
-- 
2.43.0


From 141334a4bd2f5a1cef28a044c276fc94e41f3988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:22 +0000
Subject: [PATCH 10/21] fix: read repeated code elements of account reports
 back from XML

---
 src/document/camt_052_001_08.rs | 11 +++++++++--
 src/document/camt_053_001_08.rs | 11 +++++++++--
 src/document/camt_054_001_08.rs | 11 +++++++++--
 src/xml.rs                      | 22 ++++++++++++++++++++++
 4 files changed, 49 insertions(+), 6 deletions(-)

diff --git a/src/document/camt_052_001_08.rs b/src/document/camt_052_001_08.rs
index 245aa78..f29d4eb 100644
--- a/src/document/camt_052_001_08.rs
+++ b/src/document/camt_052_001_08.rs
@@ -6959,11 +6959,18 @@ impl Validate for PointOfInteraction11 {
 // PointOfInteractionCapabilities1: Number of columns of the printer component.
 #[derive(Debug, Default, Serialize, Deserialize, Clone, PartialEq)]
 pub struct PointOfInteractionCapabilities1 {
-    #[serde(rename = "CardRdngCpblties", skip_serializing_if = "Option::is_none")]
+    #[serde(
+        rename = "CardRdngCpblties",
+        skip_serializing_if = "Option::is_none",
+        default,
+        deserialize_with = "crate::xml::deserialize_code_list"
+    )]
     pub card_rdng_cpblties: Option<Vec<CardDataReading1Code>>,
     #[serde(
         rename = "CrdhldrVrfctnCpblties",
-        skip_serializing_if = "Option::is_none"
+        skip_serializing_if = "Option::is_none",
+        default,
+        deserialize_with = "crate::xml::deserialize_code_list"
     )]
     pub crdhldr_vrfctn_cpblties: Option<Vec<CardholderVerificationCapability1Code>>,
     #[serde(rename = "OnLineCpblties", skip_serializing_if = "Option::is_none")]
diff --git a/src/document/camt_053_001_08.rs b/src/document/camt_053_001_08.rs
index beb1d60..4be6c67 100644
--- a/src/document/camt_053_001_08.rs
+++ b/src/document/camt_053_001_08.rs
@@ -6328,11 +6328,18 @@ impl Validate for PointOfInteraction12 {
 // PointOfInteractionCapabilities1: Number of columns of the printer component.
 #[derive(Debug, Default, Serialize, Deserialize, Clone, PartialEq)]
 pub struct PointOfInteractionCapabilities1 {
-    #[serde(rename = "CardRdngCpblties", skip_serializing_if = "Option::is_none")]
+    #[serde(
+        rename = "CardRdngCpblties",
+        skip_serializing_if = "Option::is_none",
+        default,
+        deserialize_with = "crate::xml::deserialize_code_list"
+    )]
     pub card_rdng_cpblties: Option<Vec<CardDataReading1Code>>,
     #[serde(
         rename = "CrdhldrVrfctnCpblties",
-        skip_serializing_if = "Option::is_none"
+        skip_serializing_if = "Option::is_none",
+        default,
+        deserialize_with = "crate::xml::deserialize_code_list"
     )]
     pub crdhldr_vrfctn_cpblties: Option<Vec<CardholderVerificationCapability1Code>>,
     #[serde(rename = "OnLineCpblties", skip_serializing_if = "Option::is_none")]
diff --git a/src/document/camt_054_001_08.rs b/src/document/camt_054_001_08.rs
index ee462c0..31a2fe9 100644
--- a/src/document/camt_054_001_08.rs
+++ b/src/document/camt_054_001_08.rs
@@ -7859,11 +7859,18 @@ impl Validate for PointOfInteraction11 {
 // PointOfInteractionCapabilities1: Number of columns of the printer component.
 #[derive(Debug, Default, Serialize, Deserialize, Clone, PartialEq)]
 pub struct PointOfInteractionCapabilities1 {
-    #[serde(rename = "CardRdngCpblties", skip_serializing_if = "Option::is_none")]
+    #[serde(
+        rename = "CardRdngCpblties",
+        skip_serializing_if = "Option::is_none",
+        default,
+        deserialize_with = "crate::xml::deserialize_code_list"
+    )]
     pub card_rdng_cpblties: Option<Vec<CardDataReading1Code>>,
     #[serde(
         rename = "CrdhldrVrfctnCpblties",
-        skip_serializing_if = "Option::is_none"
+        skip_serializing_if = "Option::is_none",
+        default,
+        deserialize_with = "crate::xml::deserialize_code_list"
     )]
     pub crdhldr_vrfctn_cpblties: Option<Vec<CardholderVerificationCapability1Code>>,
     #[serde(rename = "OnLineCpblties", skip_serializing_if = "Option::is_none")]
diff --git a/src/xml.rs b/src/xml.rs
index ecefa51..c21a83b 100644
--- a/src/xml.rs
+++ b/src/xml.rs
@@ -38,6 +38,28 @@ pub fn from_mx_xml_envelope_str(xml: &str, message_type: &str) -> Result<(), Xml
     Ok(())
 }
 
+/// Deserialize an optional list of code values.
+/// quick-xml reads the items of a list of unit-variant enums from the element names, so the
+/// items are read as text first and then converted to their codes.
+pub(crate) fn deserialize_code_list<'de, D, T>(deserializer: D) -> Result<Option<Vec<T>>, D::Error>
+where
+    D: serde::Deserializer<'de>,
+    T: serde::Deserialize<'de>,
+{
+    use serde::Deserialize;
+    use serde::de::IntoDeserializer;
+
+    let codes = Option::<Vec<String>>::deserialize(deserializer)?;
+    codes
+        .map(|codes| {
+            codes
+                .into_iter()
+                .map(|code| T::deserialize(code.into_deserializer()))
+                .collect()
+        })
+        .transpose()
+}
+
 /// Helper function to get the Document element name for a message type
 /// Used internally by xml_to_json_via_document
 fn get_document_element_name(message_type: &str) -> &'static str {
-- 
2.43.0


From 0e73e38270f51802c1306db3c5f8bc14a027f3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:42 +0000
Subject: [PATCH 11/21] fix: keep the envelope namespace declarations when
 serializing to XML

---
 src/mx_envelope.rs | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/mx_envelope.rs b/src/mx_envelope.rs
index e83f091..f003e74 100644
--- a/src/mx_envelope.rs
+++ b/src/mx_envelope.rs
@@ -236,7 +236,16 @@ impl MxMessage {
             .replace("</BusinessApplicationHeaderV02>", "</AppHdr>");
 
         let mut xml = String::from("<?xml version=\"1.0\" encoding=\"UTF-8\"?>");
-        xml.push_str("<Envelope>");
+        xml.push_str("<Envelope");
+        for (name, value) in [("xmlns", &self.xmlns), ("xmlns:xsi", &self.xmlns_xsi)] {
+            if let Some(value) = value {
+                xml.push_str(&format!(
+                    " {name}=\"{}\"",
+                    quick_xml::escape::escape(value.as_str())
+                ));
+            }
+        }
+        xml.push('>');
         xml.push_str(&app_hdr_wrapped);
         xml.push_str("<Document>");
         xml.push_str(&doc_xml);
@@ -459,12 +468,20 @@ impl MxMessage {
         }
     }
 
-    /// Extract XML attribute value
+    /// Extract XML attribute value from the start tags that may declare namespaces
     fn extract_attribute(xml: &str, attr: &str) -> Option<String> {
         let pattern = format!("{}=\"", attr);
-        let start_idx = xml.find(&pattern)? + pattern.len();
-        let end_idx = xml[start_idx..].find('"')? + start_idx;
-        Some(xml[start_idx..end_idx].to_string())
+        ["<Envelope", "<AppHdr", "<Document"]
+            .iter()
+            .find_map(|start_tag| {
+                let tag = &xml[xml.find(start_tag)?..];
+                let tag = &tag[..tag.find('>')?];
+                let start_idx = tag.find(&pattern)? + pattern.len();
+                let end_idx = tag[start_idx..].find('"')? + start_idx;
+                quick_xml::escape::unescape(&tag[start_idx..end_idx])
+                    .ok()
+                    .map(|value| value.into_owned())
+            })
     }
 
     /// Detect document type from XML content
-- 
2.43.0


From d781a47825ff4b88fb7ba46b5d6ee5799eb69027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:56 +0000
Subject: [PATCH 12/21] fix: keep literal backslash-n sequences in parsed text

---
 src/plugin/parse.rs | 39 +++++++++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/src/plugin/parse.rs b/src/plugin/parse.rs
index b3e6c5e..e73df98 100644
--- a/src/plugin/parse.rs
+++ b/src/plugin/parse.rs
@@ -43,8 +43,7 @@ impl AsyncFunctionHandler for Parse {
             DataflowError::Validation("'target' parameter is required".to_string())
         })?;
 
-        let xml_payload = extract_mx_content(message.data(), source_field, &message.payload)?
-            .replace("\\n", "\n");
+        let xml_payload = extract_mx_content(message.data(), source_field, &message.payload)?;
 
         debug!(
             source_field = %source_field,
@@ -58,14 +57,8 @@ impl AsyncFunctionHandler for Parse {
 }
 
 impl Parse {
-    /// Parse XML to JSON using MxMessage API
-    /// This is the primary parsing method - always XML input to JSON output
-    fn parse_xml_to_json(
-        &self,
-        message: &mut Message,
-        xml_str: &str,
-        target_field: &str,
-    ) -> Result<(usize, Vec<Change>)> {
+    /// Parse XML content to JSON, with or without envelope
+    fn parse_content(xml_str: &str) -> Result<Value> {
         use crate::mx_envelope::MxMessage;
 
         debug!("Parsing XML to JSON using MxMessage API");
@@ -73,7 +66,7 @@ impl Parse {
         // Check if XML has full envelope or just Document
         let has_envelope = xml_str.contains("<AppHdr") || xml_str.contains("<Envelope");
 
-        let parsed_data = if has_envelope {
+        if has_envelope {
             debug!("XML has full envelope with AppHdr");
 
             // Use MxMessage to deserialize XML with envelope
@@ -91,7 +84,7 @@ impl Parse {
             serde_json::from_str(&json_str).map_err(|e| {
                 error!(error = ?e, "Failed to parse JSON");
                 DataflowError::Validation(format!("JSON parsing error: {}", e))
-            })?
+            })
         } else {
             debug!("XML has Document only, using typed parser");
 
@@ -102,8 +95,26 @@ impl Parse {
             crate::xml::xml_to_json_via_document(xml_str, &message_type).map_err(|e| {
                 error!(error = ?e, "XML parsing failed");
                 DataflowError::Validation(format!("XML parsing error: {}", e))
-            })?
-        };
+            })
+        }
+    }
+
+    /// Parse XML to JSON using MxMessage API
+    /// This is the primary parsing method - always XML input to JSON output
+    fn parse_xml_to_json(
+        &self,
+        message: &mut Message,
+        xml_str: &str,
+        target_field: &str,
+    ) -> Result<(usize, Vec<Change>)> {
+        // Payloads may carry escaped line breaks between elements; text is taken as it is
+        let parsed_data = Self::parse_content(xml_str).or_else(|e| {
+            if xml_str.contains("\\n") {
+                Self::parse_content(&xml_str.replace("\\n", "\n"))
+            } else {
+                Err(e)
+            }
+        })?;
 
         // Extract message type from parsed data
         let message_type = extract_message_type(&parsed_data)?;
-- 
2.43.0


From 4df884fb376483b92e457fc0d0e1541fe14745c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:53 +0000
Subject: [PATCH 13/21] fix: publish Document-only JSON as the publish_mx
 documentation promises

---
 src/mx_envelope.rs    |  6 +++---
 src/plugin/publish.rs | 19 ++++++++++++++++++-
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/mx_envelope.rs b/src/mx_envelope.rs
index f003e74..cd6749f 100644
--- a/src/mx_envelope.rs
+++ b/src/mx_envelope.rs
@@ -226,7 +226,7 @@ impl MxMessage {
         let app_hdr_inner = app_hdr_xml;
 
         // Serialize Document based on its variant
-        let doc_xml = self.serialize_document()?;
+        let doc_xml = Self::serialize_document(&self.document)?;
 
         // Build complete envelope
         // Note: quick-xml adds struct name as wrapper, so app_hdr_inner already contains <BusinessApplicationHeaderV02>
@@ -256,8 +256,8 @@ impl MxMessage {
     }
 
     /// Serialize document based on its variant
-    fn serialize_document(&self) -> Result<String, MxError> {
-        match &self.document {
+    pub(crate) fn serialize_document(document: &Document) -> Result<String, MxError> {
+        match document {
             Document::Pacs008(doc) => serialize_doc!(
                 doc,
                 "FIToFICustomerCreditTransferV08",
diff --git a/src/plugin/publish.rs b/src/plugin/publish.rs
index c16c38d..02d0412 100644
--- a/src/plugin/publish.rs
+++ b/src/plugin/publish.rs
@@ -95,7 +95,24 @@ impl AsyncFunctionHandler for Publish {
 impl Publish {
     /// Convert JSON to MX message using the new MxMessage API
     fn json_to_mx(&self, json_data: &Value) -> Result<String> {
-        use crate::mx_envelope::MxMessage;
+        use crate::mx_envelope::{Document, MxMessage};
+
+        // A Document without a header is published on its own
+        if let (None, Some(document)) = (json_data.get("AppHdr"), json_data.get("Document")) {
+            let document: Document = serde_json::from_value(document.clone()).map_err(|e| {
+                error!(error = ?e, "Failed to deserialize Document");
+                DataflowError::Validation(format!("MX deserialization error: {}", e))
+            })?;
+            let doc_xml = MxMessage::serialize_document(&document).map_err(|e| {
+                error!(error = ?e, "Failed to serialize to XML");
+                DataflowError::Validation(format!("XML serialization error: {}", e))
+            })?;
+            return Ok(format!(
+                "<?xml version=\"1.0\" encoding=\"UTF-8\"?><Document xmlns=\"{}\">{}</Document>",
+                document.namespace(),
+                doc_xml
+            ));
+        }
 
         // Serialize JSON to string for parsing
         let json_str = serde_json::to_string(json_data).map_err(|e| {
-- 
2.43.0


From aaca1e2e7bb74396e29924e45771d30412fd5d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:05 +0000
Subject: [PATCH 14/21] fix: locate envelope, header, document and root element
 by XML structure

---
 src/mx_envelope.rs     | 67 ++++++++++++-------------------
 src/plugin/common.rs   | 36 +++--------------
 src/plugin/parse.rs    |  2 +-
 src/plugin/validate.rs |  2 +-
 src/xml.rs             | 89 ++++++++++++++++++++++++++++++++----------
 5 files changed, 101 insertions(+), 95 deletions(-)

diff --git a/src/mx_envelope.rs b/src/mx_envelope.rs
index cd6749f..8caf4d1 100644
--- a/src/mx_envelope.rs
+++ b/src/mx_envelope.rs
@@ -400,9 +400,7 @@ impl MxMessage {
     /// Deserialize from XML string using quick-xml with custom enum handling
     pub fn from_xml(xml: &str) -> Result<Self, MxError> {
         // Check if XML contains full envelope or just Document
-        let has_envelope = xml.contains("<AppHdr") || xml.contains("<Envelope");
-
-        if has_envelope {
+        if crate::xml::has_envelope(xml) {
             Self::from_xml_with_envelope(xml)
         } else {
             Self::from_xml_document_only(xml)
@@ -454,58 +452,41 @@ impl MxMessage {
 
     /// Extract content between XML tags
     fn extract_section(xml: &str, tag: &str) -> Option<String> {
-        let start_tag = format!("<{}", tag);
-        let end_tag = format!("</{}>", tag);
-
-        let start_idx = xml.find(&start_tag)?;
-        let content_start = xml[start_idx..].find('>')? + start_idx + 1;
-        let end_idx = xml.find(&end_tag)?;
-
-        if content_start < end_idx {
-            Some(xml[content_start..end_idx].to_string())
-        } else {
-            None
-        }
+        crate::xml::element_content(xml, tag)
+            .filter(|content| !content.is_empty())
+            .map(str::to_string)
     }
 
     /// Extract XML attribute value from the start tags that may declare namespaces
     fn extract_attribute(xml: &str, attr: &str) -> Option<String> {
-        let pattern = format!("{}=\"", attr);
-        ["<Envelope", "<AppHdr", "<Document"]
-            .iter()
-            .find_map(|start_tag| {
-                let tag = &xml[xml.find(start_tag)?..];
-                let tag = &tag[..tag.find('>')?];
-                let start_idx = tag.find(&pattern)? + pattern.len();
-                let end_idx = tag[start_idx..].find('"')? + start_idx;
-                quick_xml::escape::unescape(&tag[start_idx..end_idx])
-                    .ok()
-                    .map(|value| value.into_owned())
-            })
+        use quick_xml::events::Event;
+
+        let mut reader = quick_xml::Reader::from_str(xml);
+        loop {
+            match reader.read_event().ok()? {
+                Event::Start(tag) | Event::Empty(tag)
+                    if matches!(tag.name().as_ref(), b"Envelope" | b"AppHdr" | b"Document") =>
+                {
+                    if let Ok(Some(attribute)) = tag.try_get_attribute(attr) {
+                        return attribute.unescape_value().ok().map(|v| v.into_owned());
+                    }
+                }
+                Event::Eof => return None,
+                _ => {}
+            }
+        }
     }
 
     /// Detect document type from XML content
     fn detect_document_type(doc_xml: &str) -> Result<String, MxError> {
         // Find the first element tag after any whitespace
-        let trimmed = doc_xml.trim();
-        if !trimmed.starts_with('<') {
-            return Err(MxError::XmlDeserialization(
-                "Invalid document XML structure".to_string(),
-            ));
-        }
-
-        let end_idx = trimmed[1..]
-            .find(|c: char| c.is_whitespace() || c == '>')
-            .map(|i| i + 1)
-            .ok_or_else(|| {
-                MxError::XmlDeserialization("Could not find document element".to_string())
-            })?;
-
-        let element_name = &trimmed[1..end_idx];
+        let element_name = crate::xml::first_element_name(doc_xml).ok_or_else(|| {
+            MxError::XmlDeserialization("Could not find document element".to_string())
+        })?;
 
         // Map element name to message type using message registry
         let message_type =
-            message_registry::element_to_message_type(element_name).ok_or_else(|| {
+            message_registry::element_to_message_type(&element_name).ok_or_else(|| {
                 MxError::XmlDeserialization(format!("Unknown document type: {}", element_name))
             })?;
 
diff --git a/src/plugin/common.rs b/src/plugin/common.rs
index 01278f3..601095f 100644
--- a/src/plugin/common.rs
+++ b/src/plugin/common.rs
@@ -83,36 +83,12 @@ pub fn extract_message_type(data: &Value) -> Result<String> {
 /// * Ok(message_type) - The extracted message type
 /// * Err(error) - If message type cannot be determined
 pub fn extract_message_type_from_xml(xml_str: &str) -> Result<String> {
-    let xml_str = xml_str.trim();
-
-    // Find the Document opening tag
-    if let Some(doc_start) = xml_str.find("<Document") {
-        // Find the end of the opening Document tag
-        if let Some(doc_end) = xml_str[doc_start..].find('>') {
-            let after_doc = &xml_str[doc_start + doc_end + 1..];
-
-            // Find the first element after Document
-            if let Some(elem_start) = after_doc.find('<')
-                && !after_doc[elem_start + 1..].starts_with('/')
-            {
-                let elem_name_start = elem_start + 1;
-                // Find the end of the element name (space or >)
-                let elem_name_end = after_doc[elem_name_start..]
-                    .find([' ', '>', '/'])
-                    .map(|i| elem_name_start + i)
-                    .unwrap_or(after_doc.len());
-
-                let element_name = &after_doc[elem_name_start..elem_name_end];
-                // Remove namespace prefix if present
-                let element_name = if let Some(colon_pos) = element_name.rfind(':') {
-                    &element_name[colon_pos + 1..]
-                } else {
-                    element_name
-                };
-
-                return map_document_element_to_message_type(element_name);
-            }
-        }
+    // Find the first element inside Document
+    if let Some(element_name) = crate::xml::document_root_name(xml_str) {
+        // Remove namespace prefix if present
+        let element_name = element_name.rsplit(':').next().unwrap_or_default();
+
+        return map_document_element_to_message_type(element_name);
     }
 
     Err(DataflowError::Validation(
diff --git a/src/plugin/parse.rs b/src/plugin/parse.rs
index e73df98..2fd4512 100644
--- a/src/plugin/parse.rs
+++ b/src/plugin/parse.rs
@@ -64,7 +64,7 @@ impl Parse {
         debug!("Parsing XML to JSON using MxMessage API");
 
         // Check if XML has full envelope or just Document
-        let has_envelope = xml_str.contains("<AppHdr") || xml_str.contains("<Envelope");
+        let has_envelope = crate::xml::has_envelope(xml_str);
 
         if has_envelope {
             debug!("XML has full envelope with AppHdr");
diff --git a/src/plugin/validate.rs b/src/plugin/validate.rs
index b93df8e..2bff294 100644
--- a/src/plugin/validate.rs
+++ b/src/plugin/validate.rs
@@ -108,7 +108,7 @@ impl Validate {
         let warnings: Vec<String> = Vec::new();
 
         // Check if XML has full envelope or just Document
-        let has_envelope = xml_content.contains("<AppHdr") || xml_content.contains("<Envelope");
+        let has_envelope = crate::xml::has_envelope(xml_content);
 
         if has_envelope {
             debug!("Validating XML with full envelope using MxMessage");
diff --git a/src/xml.rs b/src/xml.rs
index c21a83b..b7f09c4 100644
--- a/src/xml.rs
+++ b/src/xml.rs
@@ -5,6 +5,7 @@
 use crate::error::MxError;
 use crate::message_registry;
 use quick_xml::de::from_str as xml_from_str;
+use quick_xml::events::Event;
 
 // Re-export MxError as XmlError for backward compatibility
 pub type XmlError = MxError;
@@ -16,9 +17,7 @@ pub fn from_mx_xml_envelope_str(xml: &str, message_type: &str) -> Result<(), Xml
     use crate::mx_envelope::MxMessage;
 
     // Check if XML contains AppHdr (full envelope) or just Document
-    let has_envelope = xml.contains("<AppHdr") || xml.contains("<Envelope");
-
-    if !has_envelope {
+    if !has_envelope(xml) {
         // No envelope, validate the Document against its typed structure
         xml_to_json_via_document(xml, message_type).map_err(|e| {
             MxError::XmlDeserialization(format!(
@@ -38,6 +37,72 @@ pub fn from_mx_xml_envelope_str(xml: &str, message_type: &str) -> Result<(), Xml
     Ok(())
 }
 
+/// Content of the first element with the given name, located by XML structure so that markup
+/// inside comments and CDATA sections is not taken for it
+pub(crate) fn element_content<'a>(xml: &'a str, name: &str) -> Option<&'a str> {
+    let mut reader = quick_xml::Reader::from_str(xml);
+    loop {
+        match reader.read_event().ok()? {
+            Event::Start(tag) if tag.name().as_ref() == name.as_bytes() => {
+                let span = reader.read_to_end(tag.name()).ok()?;
+                return xml.get(span.start as usize..span.end as usize);
+            }
+            Event::Eof => return None,
+            _ => {}
+        }
+    }
+}
+
+/// Name of the first element, skipping comments, processing instructions and white space
+pub(crate) fn first_element_name(xml: &str) -> Option<String> {
+    let mut reader = quick_xml::Reader::from_str(xml);
+    loop {
+        match reader.read_event().ok()? {
+            Event::Start(tag) | Event::Empty(tag) => {
+                return Some(String::from_utf8_lossy(tag.name().as_ref()).into_owned());
+            }
+            Event::Text(text) if text.iter().all(u8::is_ascii_whitespace) => {}
+            Event::Text(_) | Event::CData(_) | Event::End(_) | Event::Eof => return None,
+            _ => {}
+        }
+    }
+}
+
+/// Name of the first element inside the Document element
+pub(crate) fn document_root_name(xml: &str) -> Option<String> {
+    let mut reader = quick_xml::Reader::from_str(xml);
+    loop {
+        match reader.read_event().ok()? {
+            Event::Start(tag) if tag.name().as_ref() == b"Document" => {
+                return first_element_name(xml.get(reader.buffer_position() as usize..)?);
+            }
+            Event::Eof => return None,
+            _ => {}
+        }
+    }
+}
+
+/// Whether the XML has an Envelope or AppHdr around or beside its Document
+pub(crate) fn has_envelope(xml: &str) -> bool {
+    let mut reader = quick_xml::Reader::from_str(xml);
+    loop {
+        match reader.read_event() {
+            Ok(Event::Start(tag) | Event::Empty(tag))
+                if matches!(tag.name().as_ref(), b"AppHdr" | b"Envelope") =>
+            {
+                return true;
+            }
+            Ok(Event::Start(tag)) if tag.name().as_ref() == b"Document" => {
+                if reader.read_to_end(tag.name()).is_err() {
+                    return false;
+                }
+            }
+            Ok(Event::Eof) | Err(_) => return false,
+            Ok(_) => {}
+        }
+    }
+}
+
 /// Deserialize an optional list of code values.
 /// quick-xml reads the items of a list of unit-variant enums from the element names, so the
 /// items are read as text first and then converted to their codes.
@@ -93,23 +158,7 @@ pub fn xml_to_json_via_document(
         .trim();
 
     // Find the Document wrapper and extract inner content
-    let inner_xml = if let Some(start_idx) = inner_xml.find("<Document") {
-        if let Some(end_bracket) = inner_xml[start_idx..].find('>') {
-            let content_start = start_idx + end_bracket + 1;
-            if let Some(end_idx) = inner_xml
-                .rfind("</Document>")
-                .filter(|end_idx| *end_idx >= content_start)
-            {
-                &inner_xml[content_start..end_idx]
-            } else {
-                inner_xml
-            }
-        } else {
-            inner_xml
-        }
-    } else {
-        inner_xml
-    };
+    let inner_xml = element_content(inner_xml, "Document").unwrap_or(inner_xml);
 
     let inner_xml = inner_xml.trim();
 
-- 
2.43.0


From efd6ca11cb5ef56ace4007da49067a78c397bbc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:39 +0000
Subject: [PATCH 15/21] fix: peek at the message type in the header only, by
 XML structure

---
 src/mx_envelope.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/mx_envelope.rs b/src/mx_envelope.rs
index 8caf4d1..b7c3c7f 100644
--- a/src/mx_envelope.rs
+++ b/src/mx_envelope.rs
@@ -664,16 +664,17 @@ impl MxMessage {
 
 /// Extract message type from XML without full deserialization
 pub fn peek_message_type_from_xml(xml: &str) -> Result<String, MxError> {
-    // Simple regex-based extraction for MsgDefIdr
-    use regex::Regex;
-
-    let re = Regex::new(r"<MsgDefIdr>([^<]+)</MsgDefIdr>")
-        .map_err(|e| MxError::XmlDeserialization(format!("Regex error: {}", e)))?;
+    // Read only the identifier from the header section
+    #[derive(Deserialize)]
+    struct HeaderId {
+        #[serde(rename = "MsgDefIdr")]
+        msg_def_idr: String,
+    }
 
-    if let Some(captures) = re.captures(xml)
-        && let Some(msg_def_idr) = captures.get(1)
+    if let Some(header) = crate::xml::element_content(xml, "AppHdr")
+        && let Ok(id) = quick_xml::de::from_str::<HeaderId>(&format!("<AppHdr>{header}</AppHdr>"))
     {
-        return Ok(normalize_message_type(msg_def_idr.as_str()));
+        return Ok(normalize_message_type(&id.msg_def_idr));
     }
 
     Err(MxError::XmlDeserialization(
-- 
2.43.0


From 992718b116711966c689b73d4482e00388a4c910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:09 +0000
Subject: [PATCH 16/21] fix: refuse text between elements instead of reading it
 as a list item

---
 src/mx_envelope.rs |  4 ++++
 src/xml.rs         | 46 ++++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 50 insertions(+)

diff --git a/src/mx_envelope.rs b/src/mx_envelope.rs
index b7c3c7f..ef6c043 100644
--- a/src/mx_envelope.rs
+++ b/src/mx_envelope.rs
@@ -413,6 +413,8 @@ impl MxMessage {
         let app_hdr_xml = Self::extract_section(xml, "AppHdr")
             .ok_or_else(|| MxError::XmlDeserialization("AppHdr not found in XML".to_string()))?;
 
+        crate::xml::reject_mixed_content(&app_hdr_xml)?;
+
         // Deserialize AppHdr using quick-xml
         let app_hdr: crate::header::AppHdr =
             quick_xml::de::from_str(&format!("<AppHdr>{}</AppHdr>", app_hdr_xml)).map_err(|e| {
@@ -423,6 +425,8 @@ impl MxMessage {
         let doc_xml = Self::extract_section(xml, "Document")
             .ok_or_else(|| MxError::XmlDeserialization("Document not found in XML".to_string()))?;
 
+        crate::xml::reject_mixed_content(&doc_xml)?;
+
         // Determine document type from the first element inside Document
         let doc_type = Self::detect_document_type(&doc_xml)?;
 
diff --git a/src/xml.rs b/src/xml.rs
index b7f09c4..b3819e1 100644
--- a/src/xml.rs
+++ b/src/xml.rs
@@ -103,6 +103,50 @@ pub(crate) fn has_envelope(xml: &str) -> bool {
     }
 }
 
+/// Refuse text beside child elements: it belongs to no field, and quick-xml would read it as an
+/// item of the list next to it
+pub(crate) fn reject_mixed_content(xml: &str) -> Result<(), XmlError> {
+    let mut reader = quick_xml::Reader::from_str(xml);
+    // Whether each open element has text and whether it has child elements so far
+    let mut open: Vec<(bool, bool)> = Vec::new();
+    loop {
+        let event = reader
+            .read_event()
+            .map_err(|e| MxError::XmlDeserialization(e.to_string()))?;
+        match &event {
+            Event::Start(_) | Event::Empty(_) => {
+                if let Some(parent) = open.last_mut() {
+                    parent.1 = true;
+                }
+            }
+            Event::Text(text) if !text.iter().all(u8::is_ascii_whitespace) => {
+                if let Some(parent) = open.last_mut() {
+                    parent.0 = true;
+                }
+            }
+            Event::CData(text) if !text.iter().all(u8::is_ascii_whitespace) => {
+                if let Some(parent) = open.last_mut() {
+                    parent.0 = true;
+                }
+            }
+            _ => {}
+        }
+        if open.last() == Some(&(true, true)) {
+            return Err(MxError::XmlDeserialization(
+                "Text between elements is not allowed".to_string(),
+            ));
+        }
+        match event {
+            Event::Start(_) => open.push((false, false)),
+            Event::End(_) => {
+                open.pop();
+            }
+            Event::Eof => return Ok(()),
+            _ => {}
+        }
+    }
+}
+
 /// Deserialize an optional list of code values.
 /// quick-xml reads the items of a list of unit-variant enums from the element names, so the
 /// items are read as text first and then converted to their codes.
@@ -162,6 +206,8 @@ pub fn xml_to_json_via_document(
 
     let inner_xml = inner_xml.trim();
 
+    reject_mixed_content(inner_xml)?;
+
     // Deserialize XML to typed struct, then serialize to JSON
     let json_value = match message_type {
         "pacs.008" => xml_to_json_doc!(
-- 
2.43.0


From 8c2cf6fa3179eb04110fa5719f669edc1acf250d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:19 +0000
Subject: [PATCH 17/21] fix: limit element nesting in from_mx_xml_to_json

---
 src/xml.rs | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/xml.rs b/src/xml.rs
index b3819e1..60edb88 100644
--- a/src/xml.rs
+++ b/src/xml.rs
@@ -344,6 +344,26 @@ pub fn xml_to_json_via_document(
     }))
 }
 
+/// Deepest element nesting accepted by `from_mx_xml_to_json`, the limit serde_json has for JSON
+const MAX_NESTING_DEPTH: usize = 128;
+
+/// Deepest element nesting of the XML, up to its end or first error
+fn nesting_depth(xml: &str) -> usize {
+    let mut reader = quick_xml::Reader::from_str(xml);
+    let (mut depth, mut deepest) = (0, 0);
+    loop {
+        match reader.read_event() {
+            Ok(Event::Start(_)) => {
+                depth += 1;
+                deepest = deepest.max(depth);
+            }
+            Ok(Event::End(_)) => depth -= 1,
+            Ok(Event::Eof) | Err(_) => return deepest,
+            Ok(_) => {}
+        }
+    }
+}
+
 /// Helper function to parse XML to JSON Value (for dataflow plugins)
 /// This function parses XML and converts it to a JSON structure
 ///
@@ -352,6 +372,13 @@ pub fn xml_to_json_via_document(
 ///
 /// Used by mx_envelope for fallback parsing and validate plugin for legacy validation.
 pub fn from_mx_xml_to_json(xml: &str) -> Result<serde_json::Value, XmlError> {
+    // The conversion recurses per element, so unbounded nesting would exhaust the stack
+    if nesting_depth(xml) > MAX_NESTING_DEPTH {
+        return Err(MxError::XmlDeserialization(format!(
+            "XML parsing error: elements are nested deeper than {MAX_NESTING_DEPTH} levels"
+        )));
+    }
+
     // Use quick_xml to deserialize directly to a serde_json::Value
     // This is simpler than manual parsing and handles the XML-to-JSON conversion
     let value: serde_json::Value = quick_xml::de::from_str(xml)
-- 
2.43.0


From 4143aafe39267ca9196fddbb292bd19a23ce0e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:43 +0000
Subject: [PATCH 18/21] fix: read a payload that is not a text like any other
 field, not through its JSON form

---
 src/plugin/common.rs | 41 +++++++++++++++++------------------------
 1 file changed, 17 insertions(+), 24 deletions(-)

diff --git a/src/plugin/common.rs b/src/plugin/common.rs
index 601095f..c7987c1 100644
--- a/src/plugin/common.rs
+++ b/src/plugin/common.rs
@@ -116,35 +116,28 @@ pub fn extract_mx_content(
     field_name: &str,
     message_payload: &Value,
 ) -> Result<String> {
-    if field_name == "payload" {
-        // Extract string value from the payload JSON
-        if let Some(s) = message_payload.as_str() {
-            Ok(s.to_string())
-        } else {
-            // If it's not a string directly, try to convert
-            Ok(message_payload.to_string().trim_matches('"').to_string())
-        }
+    let field_value = if field_name == "payload" {
+        message_payload
     } else {
-        // Check if the field contains an object with mx_message (from generate_mx output)
-        let field_value = message_data.get(field_name).ok_or_else(|| {
+        message_data.get(field_name).ok_or_else(|| {
             DataflowError::Validation(format!(
                 "MX message field '{}' not found in message data",
                 field_name
             ))
-        })?;
-
-        // If it's an object with mx_message field, extract that
-        if let Some(mx_msg) = field_value.get("mx_message").and_then(Value::as_str) {
-            Ok(mx_msg.to_string())
-        } else if let Some(s) = field_value.as_str() {
-            // If it's a direct string, use it
-            Ok(s.to_string())
-        } else {
-            Err(DataflowError::Validation(format!(
-                "Field '{}' does not contain a valid MX message",
-                field_name
-            )))
-        }
+        })?
+    };
+
+    // If it's an object with mx_message field (from generate_mx output), extract that
+    if let Some(mx_msg) = field_value.get("mx_message").and_then(Value::as_str) {
+        Ok(mx_msg.to_string())
+    } else if let Some(s) = field_value.as_str() {
+        // If it's a direct string, use it
+        Ok(s.to_string())
+    } else {
+        Err(DataflowError::Validation(format!(
+            "Field '{}' does not contain a valid MX message",
+            field_name
+        )))
     }
 }
 
-- 
2.43.0


From 00f80d253461c0107ed04a67ef0fb88d73f3c5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:45 +0000
Subject: [PATCH 19/21] fix: validate_mx refused escaped line breaks which
 parse_mx accepts

---
 src/plugin/validate.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/plugin/validate.rs b/src/plugin/validate.rs
index 2bff294..c76e998 100644
--- a/src/plugin/validate.rs
+++ b/src/plugin/validate.rs
@@ -53,7 +53,15 @@ impl AsyncFunctionHandler for Validate {
         );
 
         // Perform XML validation
-        let validation_result = self.validate_xml(&xml_content)?;
+        let mut validation_result = self.validate_xml(&xml_content)?;
+
+        // Like the parse step, accept escaped line breaks between elements
+        if validation_result["valid"] == false && xml_content.contains("\\n") {
+            let unescaped = self.validate_xml(&xml_content.replace("\\n", "\n"))?;
+            if unescaped["valid"] == true {
+                validation_result = unescaped;
+            }
+        }
 
         if !message.data().is_object() || !message.metadata().is_object() {
             return Err(DataflowError::Validation(
-- 
2.43.0


From f4e973612f094a98bc69f84857a8693e8ed244cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:01 +0000
Subject: [PATCH 20/21] fix: refuse a document of another type than the
 requested one

---
 src/xml.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/xml.rs b/src/xml.rs
index 60edb88..228ae17 100644
--- a/src/xml.rs
+++ b/src/xml.rs
@@ -34,7 +34,22 @@ pub fn from_mx_xml_envelope_str(xml: &str, message_type: &str) -> Result<(), Xml
         MxError::XmlDeserialization(format!("Failed to parse {} envelope: {}", message_type, e))
     })?;
 
-    Ok(())
+    reject_other_message_type(document_root_name(xml), message_type)
+}
+
+/// Refuse a root element that is registered for another message type than the requested one
+fn reject_other_message_type(root: Option<String>, message_type: &str) -> Result<(), XmlError> {
+    let Some(root) = root else { return Ok(()) };
+    let element_name = root.rsplit(':').next().unwrap_or_default();
+    match message_registry::element_to_message_type(element_name) {
+        Some(actual) if actual != message_registry::normalize_message_type(message_type) => {
+            Err(MxError::XmlDeserialization(format!(
+                "Expected a {} document, found {} ({})",
+                message_type, element_name, actual
+            )))
+        }
+        _ => Ok(()),
+    }
 }
 
 /// Content of the first element with the given name, located by XML structure so that markup
@@ -207,6 +222,7 @@ pub fn xml_to_json_via_document(
     let inner_xml = inner_xml.trim();
 
     reject_mixed_content(inner_xml)?;
+    reject_other_message_type(first_element_name(inner_xml), message_type)?;
 
     // Deserialize XML to typed struct, then serialize to JSON
     let json_value = match message_type {
-- 
2.43.0


From ae54fbee83e0a8a29a63090774da77a380610f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:08 +0000
Subject: [PATCH 21/21] fix: refuse a document with an unregistered root when
 its type is given

---
 src/xml.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/xml.rs b/src/xml.rs
index 228ae17..64bc140 100644
--- a/src/xml.rs
+++ b/src/xml.rs
@@ -37,18 +37,18 @@ pub fn from_mx_xml_envelope_str(xml: &str, message_type: &str) -> Result<(), Xml
     reject_other_message_type(document_root_name(xml), message_type)
 }
 
-/// Refuse a root element that is registered for another message type than the requested one
+/// Refuse a root element that is not registered for the requested message type
 fn reject_other_message_type(root: Option<String>, message_type: &str) -> Result<(), XmlError> {
     let Some(root) = root else { return Ok(()) };
     let element_name = root.rsplit(':').next().unwrap_or_default();
     match message_registry::element_to_message_type(element_name) {
-        Some(actual) if actual != message_registry::normalize_message_type(message_type) => {
-            Err(MxError::XmlDeserialization(format!(
-                "Expected a {} document, found {} ({})",
-                message_type, element_name, actual
-            )))
-        }
-        _ => Ok(()),
+        Some(actual) if actual == message_registry::normalize_message_type(message_type) => Ok(()),
+        actual => Err(MxError::XmlDeserialization(format!(
+            "Expected a {} document, found {} ({})",
+            message_type,
+            element_name,
+            actual.unwrap_or("unknown")
+        ))),
     }
 }
 
-- 
2.43.0

