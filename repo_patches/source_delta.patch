From 17c20d6ffc26b787246d8cf9ffc053ab1bbcb36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:51 +0000
Subject: [PATCH 01/45] fix: read the double line style as LineStyle::Double

---
 src/line.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/line.rs b/src/line.rs
index 9d4a2cb..0191e5c 100644
--- a/src/line.rs
+++ b/src/line.rs
@@ -105,7 +105,7 @@ impl LineStyle {
       Some("solid") => Some(LineStyle::Solid),
       Some("none") => Some(LineStyle::None),
       Some("dotted") => Some(LineStyle::Dotted),
-      Some("double") => Some(LineStyle::Dotted),
+      Some("double") => Some(LineStyle::Double),
       _ => None,
     }
   }
-- 
2.43.0


From 40b5f1cbe2f3f15408f0d651786a8a4838eb9237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:51 +0000
Subject: [PATCH 02/45] fix: write the label of Remarks

---
 src/remarks.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/remarks.rs b/src/remarks.rs
index 3cc1b79..db10192 100644
--- a/src/remarks.rs
+++ b/src/remarks.rs
@@ -56,6 +56,7 @@ impl Parser for Remarks {
 impl ToXmlElement for Remarks {
   fn to_xml_element(&self) -> Element {
     let mut e = Element::new("Remarks");
+    e.children.push(XMLNode::Element(self.label.to_xml_element()));
     for n in self.children.iter() {
       match n {
         RemarksContents::Item(v) => {
-- 
2.43.0


From 3938f6007cb01ec8fe2730e7595db6fa1e3035f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:51 +0000
Subject: [PATCH 03/45] fix: write the Num attribute of ArithFormula

---
 src/contents.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/contents.rs b/src/contents.rs
index bde732d..0006ffa 100644
--- a/src/contents.rs
+++ b/src/contents.rs
@@ -312,6 +312,10 @@ impl Parser for ArithFormula {
 
 impl ToXmlElement for ArithFormula {
   fn to_xml_element(&self) -> Element {
-    self.contentes.to_xml_element_with_name("ArithFormula")
+    let mut e = self.contentes.to_xml_element_with_name("ArithFormula");
+    if let Some(n) = self.num {
+      e.attributes.insert("Num".to_string(), n.to_string());
+    }
+    e
   }
 }
-- 
2.43.0


From 1a35f74dec1034269481c658422deaf28c123b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:51 +0000
Subject: [PATCH 04/45] fix: write new provisions of AmendProvision under
 NewProvision

---
 src/law.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/law.rs b/src/law.rs
index 6a8c383..6dd90de 100644
--- a/src/law.rs
+++ b/src/law.rs
@@ -892,7 +892,7 @@ impl ToXmlElement for AmendProvision {
       e.children.push(XMLNode::Element(se));
     }
     for v in self.new_provision.iter() {
-      let mut se = Element::new("AmendProvisionSentence");
+      let mut se = Element::new("NewProvision");
       match v {
         NewProvision::LawTitle(v) => se.children.push(XMLNode::Element(v.to_xml_element())),
         NewProvision::Preamble(v) => se.children.push(XMLNode::Element(v.to_xml_element())),
-- 
2.43.0


From 17dd8fe80933a77b18bf7bca69bc359fd6c4e724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:51 +0000
Subject: [PATCH 05/45] fix: write Align and Valign of TableColumn under their
 own names

---
 src/table.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/table.rs b/src/table.rs
index 9a9c7b7..b1cab15 100644
--- a/src/table.rs
+++ b/src/table.rs
@@ -309,10 +309,10 @@ impl ToXmlElement for TableColumn {
       e.attributes.insert("colspan".to_string(), s.clone());
     }
     if let Some(a) = &self.align {
-      e.attributes.insert("rowspan".to_string(), a.to_attribute());
+      e.attributes.insert("Align".to_string(), a.to_attribute());
     }
     if let Some(v) = &self.valign {
-      e.attributes.insert("rowspan".to_string(), v.to_attribute());
+      e.attributes.insert("Valign".to_string(), v.to_attribute());
     }
     for n in self.contents.iter() {
       match n {
-- 
2.43.0


From 91cb8fb49fcb7a25f6d4de4fb65c5295ba7463fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:51 +0000
Subject: [PATCH 06/45] fix: write the title tag of SupplProvisionAppdxTable as
 it is read

---
 src/suppl_provision.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/suppl_provision.rs b/src/suppl_provision.rs
index c7c5f69..5ce3b42 100644
--- a/src/suppl_provision.rs
+++ b/src/suppl_provision.rs
@@ -210,7 +210,7 @@ impl ToXmlElement for SupplProvisionAppdxTable {
     e.children.push(XMLNode::Element(
       self
         .title
-        .to_xml_element_with_name("SupplProvisionAppdxTableitle"),
+        .to_xml_element_with_name("SupplProvisionAppdxTableTitle"),
     ));
     if let Some(t) = &self.related_article_num {
       e.children.push(XMLNode::Element(
-- 
2.43.0


From ad4e04563fea54ec3d4a926d3641f2191e37eb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:51 +0000
Subject: [PATCH 07/45] fix: write SupplProvisionAppdx under its own tag

---
 src/suppl_provision.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/suppl_provision.rs b/src/suppl_provision.rs
index 5ce3b42..7f40d44 100644
--- a/src/suppl_provision.rs
+++ b/src/suppl_provision.rs
@@ -347,7 +347,7 @@ impl Parser for SupplProvisionAppdx {
 
 impl ToXmlElement for SupplProvisionAppdx {
   fn to_xml_element(&self) -> Element {
-    let mut e = Element::new("Appdx");
+    let mut e = Element::new("SupplProvisionAppdx");
     if let Some(v) = &self.arith_formula_num {
       e.children.push(XMLNode::Element(
         v.to_xml_element_with_name("ArithFormulaNum"),
-- 
2.43.0


From ccf7cb00c632e72543483486718c253aa50349eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:51 +0000
Subject: [PATCH 08/45] fix: write related_article_num of SupplProvisionAppdx
 as RelatedArticleNum

---
 src/suppl_provision.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/suppl_provision.rs b/src/suppl_provision.rs
index 7f40d44..a013743 100644
--- a/src/suppl_provision.rs
+++ b/src/suppl_provision.rs
@@ -355,7 +355,7 @@ impl ToXmlElement for SupplProvisionAppdx {
     }
     if let Some(v) = &self.related_article_num {
       e.children.push(XMLNode::Element(
-        v.to_xml_element_with_name("ArithFormulaNum"),
+        v.to_xml_element_with_name("RelatedArticleNum"),
       ))
     }
     for v in self.arith_formula.iter() {
-- 
2.43.0


From 0520e6453942d3bac62028bda7a566b84cd80075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:51 +0000
Subject: [PATCH 09/45] fix: write related_article_num of Appdx as
 RelatedArticleNum

---
 src/appdx.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/appdx.rs b/src/appdx.rs
index 6d17c9b..d739d31 100644
--- a/src/appdx.rs
+++ b/src/appdx.rs
@@ -401,7 +401,7 @@ impl ToXmlElement for Appdx {
     }
     if let Some(v) = &self.related_article_num {
       e.children.push(XMLNode::Element(
-        v.to_xml_element_with_name("ArithFormulaNum"),
+        v.to_xml_element_with_name("RelatedArticleNum"),
       ))
     }
     for v in self.arith_formula.iter() {
-- 
2.43.0


From 40edbf9afe4b5f21e90c45d684792f78b4a9ffe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:51 +0000
Subject: [PATCH 10/45] fix: write the preamble label of TOC as
 TOCPreambleLabel

---
 src/table_of_contents.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/table_of_contents.rs b/src/table_of_contents.rs
index 8417bf2..11262f9 100644
--- a/src/table_of_contents.rs
+++ b/src/table_of_contents.rs
@@ -90,7 +90,7 @@ impl ToXmlElement for TOC {
     }
     if let Some(label) = &self.toc_preamble_label {
       e.children
-        .push(XMLNode::Element(label.to_xml_element_with_name("TOCLabel")));
+        .push(XMLNode::Element(label.to_xml_element_with_name("TOCPreambleLabel")));
     }
     for v in self.toc_main_contents.iter() {
       match v {
-- 
2.43.0


From c467a8aeee4951c83a6393b722c71f6cfa95ef77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:51 +0000
Subject: [PATCH 11/45] fix: report a missing Num attribute of Law instead of
 panicking

---
 src/law.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/law.rs b/src/law.rs
index 6dd90de..2f8a275 100644
--- a/src/law.rs
+++ b/src/law.rs
@@ -61,11 +61,11 @@ impl Parser for Law {
         }
       };
       let year = get_attribute_with_parse(element, "Year")?;
-      let num_str = element.attributes.get("Num").unwrap();
+      let num_str = get_attribute(element, "Num")?;
       let num = if num_str.is_empty() {
         None
       } else {
-        Some(ArticleNumber::from_str(num_str)?)
+        Some(ArticleNumber::from_str(&num_str)?)
       };
       let promulgate_month_str = element.attributes.get("PromulgateMonth").and_then(|s| {
         if s.is_empty() {
-- 
2.43.0


From 15eedb0ddd4738024f7a7543a6c6736d05325da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:51 +0000
Subject: [PATCH 12/45] fix: write the required Num attribute of Law when there
 is no number

---
 src/law.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/law.rs b/src/law.rs
index 2f8a275..02c8c03 100644
--- a/src/law.rs
+++ b/src/law.rs
@@ -206,9 +206,10 @@ impl ToXmlElement for Law {
     }
     e.attributes
       .insert("Year".to_string(), self.year.to_string());
-    if let Some(n) = &self.num {
-      e.attributes.insert("Num".to_string(), n.num_str());
-    }
+    e.attributes.insert(
+      "Num".to_string(),
+      self.num.as_ref().map(|n| n.num_str()).unwrap_or_default(),
+    );
     if let Some(n) = &self.promulgate_month {
       e.attributes
         .insert("PromulgateMonth".to_string(), n.to_string());
-- 
2.43.0


From 9be5faa9690989ad03c3fed3b847ae7895789dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:51 +0000
Subject: [PATCH 13/45] fix: read an Article without paragraphs instead of
 panicking

---
 src/article.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/article.rs b/src/article.rs
index 5316e62..11ec962 100644
--- a/src/article.rs
+++ b/src/article.rs
@@ -651,7 +651,10 @@ impl Parser for Article {
             break;
           }
         }
-        let next = children.next().unwrap();
+        let next = match children.next() {
+          Some(next) => next,
+          None => break,
+        };
         if let XMLNode::Element(e) = next {
           match e.name.as_str() {
             "ArticleCaption" => {
-- 
2.43.0


From 08ee4b943dc40aacc06218c60934ca691a39cf8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:08 +0000
Subject: [PATCH 14/45] fix: report errors in the Remarks of structs instead of
 dropping them

---
 src/structs.rs | 55 +++++++++++++++++++++++---------------------------
 1 file changed, 25 insertions(+), 30 deletions(-)

diff --git a/src/structs.rs b/src/structs.rs
index 49713ed..c20ac56 100644
--- a/src/structs.rs
+++ b/src/structs.rs
@@ -83,12 +83,11 @@ impl Parser for NoteStruct {
               title = Some(Text::from_children(&e.children));
             }
             "Remarks" => {
-              if let Ok(r) = Remarks::parser(e) {
-                if note.is_none() {
-                  title_remarks.push(r);
-                } else {
-                  note_remarks.push(r);
-                }
+              let r = Remarks::parser(e)?;
+              if note.is_none() {
+                title_remarks.push(r);
+              } else {
+                note_remarks.push(r);
               }
             }
             "Note" => {
@@ -159,12 +158,11 @@ impl Parser for StyleStruct {
               title = Some(Text::from_children(&e.children));
             }
             "Remarks" => {
-              if let Ok(r) = Remarks::parser(e) {
-                if style.is_none() {
-                  title_remarks.push(r);
-                } else {
-                  style_remarks.push(r);
-                }
+              let r = Remarks::parser(e)?;
+              if style.is_none() {
+                title_remarks.push(r);
+              } else {
+                style_remarks.push(r);
               }
             }
             "Style" => {
@@ -235,12 +233,11 @@ impl Parser for FormatStruct {
               title = Some(Text::from_children(&e.children));
             }
             "Remarks" => {
-              if let Ok(r) = Remarks::parser(e) {
-                if format.is_none() {
-                  title_remarks.push(r);
-                } else {
-                  format_remarks.push(r);
-                }
+              let r = Remarks::parser(e)?;
+              if format.is_none() {
+                title_remarks.push(r);
+              } else {
+                format_remarks.push(r);
               }
             }
             "Format" => {
@@ -311,12 +308,11 @@ impl Parser for FigStruct {
               title = Some(Text::from_children(&e.children));
             }
             "Remarks" => {
-              if let Ok(r) = Remarks::parser(e) {
-                if fig.is_none() {
-                  title_remarks.push(r);
-                } else {
-                  fig_remarks.push(r);
-                }
+              let r = Remarks::parser(e)?;
+              if fig.is_none() {
+                title_remarks.push(r);
+              } else {
+                fig_remarks.push(r);
               }
             }
             "Fig" => {
@@ -387,12 +383,11 @@ impl Parser for TableStruct {
               title = Some(v);
             }
             "Remarks" => {
-              if let Ok(r) = Remarks::parser(e) {
-                if table.is_none() {
-                  title_remarks.push(r);
-                } else {
-                  table_remarks.push(r);
-                }
+              let r = Remarks::parser(e)?;
+              if table.is_none() {
+                title_remarks.push(r);
+              } else {
+                table_remarks.push(r);
               }
             }
             "Table" => {
-- 
2.43.0


From ce245baab8fa38737c097a798d3ecede58b5f173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:08 +0000
Subject: [PATCH 15/45] fix: write the required Num attribute of items when
 there is no number

---
 src/paragraph.rs | 77 +++++++++++++++++++++++++++---------------------
 1 file changed, 44 insertions(+), 33 deletions(-)

diff --git a/src/paragraph.rs b/src/paragraph.rs
index baa7a5e..996d00e 100644
--- a/src/paragraph.rs
+++ b/src/paragraph.rs
@@ -289,9 +289,10 @@ impl ToXmlElement for Item {
         }
       }
     }
-    if let Some(n) = &self.num {
-      e.attributes.insert("Num".to_string(), n.num_str());
-    }
+    e.attributes.insert(
+      "Num".to_string(),
+      self.num.as_ref().map(|n| n.num_str()).unwrap_or_default(),
+    );
     if self.delete {
       e.attributes
         .insert("Delete".to_string(), self.delete.to_string());
@@ -433,9 +434,10 @@ impl ToXmlElement for Subitem1 {
         }
       }
     }
-    if let Some(n) = &self.num {
-      e.attributes.insert("Num".to_string(), n.num_str());
-    }
+    e.attributes.insert(
+      "Num".to_string(),
+      self.num.as_ref().map(|n| n.num_str()).unwrap_or_default(),
+    );
     if self.delete {
       e.attributes
         .insert("Delete".to_string(), self.delete.to_string());
@@ -577,9 +579,10 @@ impl ToXmlElement for Subitem2 {
         }
       }
     }
-    if let Some(n) = &self.num {
-      e.attributes.insert("Num".to_string(), n.num_str());
-    }
+    e.attributes.insert(
+      "Num".to_string(),
+      self.num.as_ref().map(|n| n.num_str()).unwrap_or_default(),
+    );
     if self.delete {
       e.attributes
         .insert("Delete".to_string(), self.delete.to_string());
@@ -721,9 +724,10 @@ impl ToXmlElement for Subitem3 {
         }
       }
     }
-    if let Some(n) = &self.num {
-      e.attributes.insert("Num".to_string(), n.num_str());
-    }
+    e.attributes.insert(
+      "Num".to_string(),
+      self.num.as_ref().map(|n| n.num_str()).unwrap_or_default(),
+    );
     if self.delete {
       e.attributes
         .insert("Delete".to_string(), self.delete.to_string());
@@ -865,9 +869,10 @@ impl ToXmlElement for Subitem4 {
         }
       }
     }
-    if let Some(n) = &self.num {
-      e.attributes.insert("Num".to_string(), n.num_str());
-    }
+    e.attributes.insert(
+      "Num".to_string(),
+      self.num.as_ref().map(|n| n.num_str()).unwrap_or_default(),
+    );
     if self.delete {
       e.attributes
         .insert("Delete".to_string(), self.delete.to_string());
@@ -1009,9 +1014,10 @@ impl ToXmlElement for Subitem5 {
         }
       }
     }
-    if let Some(n) = &self.num {
-      e.attributes.insert("Num".to_string(), n.num_str());
-    }
+    e.attributes.insert(
+      "Num".to_string(),
+      self.num.as_ref().map(|n| n.num_str()).unwrap_or_default(),
+    );
     if self.delete {
       e.attributes
         .insert("Delete".to_string(), self.delete.to_string());
@@ -1153,9 +1159,10 @@ impl ToXmlElement for Subitem6 {
         }
       }
     }
-    if let Some(n) = &self.num {
-      e.attributes.insert("Num".to_string(), n.num_str());
-    }
+    e.attributes.insert(
+      "Num".to_string(),
+      self.num.as_ref().map(|n| n.num_str()).unwrap_or_default(),
+    );
     if self.delete {
       e.attributes
         .insert("Delete".to_string(), self.delete.to_string());
@@ -1297,9 +1304,10 @@ impl ToXmlElement for Subitem7 {
         }
       }
     }
-    if let Some(n) = &self.num {
-      e.attributes.insert("Num".to_string(), n.num_str());
-    }
+    e.attributes.insert(
+      "Num".to_string(),
+      self.num.as_ref().map(|n| n.num_str()).unwrap_or_default(),
+    );
     if self.delete {
       e.attributes
         .insert("Delete".to_string(), self.delete.to_string());
@@ -1441,9 +1449,10 @@ impl ToXmlElement for Subitem8 {
         }
       }
     }
-    if let Some(n) = &self.num {
-      e.attributes.insert("Num".to_string(), n.num_str());
-    }
+    e.attributes.insert(
+      "Num".to_string(),
+      self.num.as_ref().map(|n| n.num_str()).unwrap_or_default(),
+    );
     if self.delete {
       e.attributes
         .insert("Delete".to_string(), self.delete.to_string());
@@ -1585,9 +1594,10 @@ impl ToXmlElement for Subitem9 {
         }
       }
     }
-    if let Some(n) = &self.num {
-      e.attributes.insert("Num".to_string(), n.num_str());
-    }
+    e.attributes.insert(
+      "Num".to_string(),
+      self.num.as_ref().map(|n| n.num_str()).unwrap_or_default(),
+    );
     if self.delete {
       e.attributes
         .insert("Delete".to_string(), self.delete.to_string());
@@ -1717,9 +1727,10 @@ impl ToXmlElement for Subitem10 {
         }
       }
     }
-    if let Some(n) = &self.num {
-      e.attributes.insert("Num".to_string(), n.num_str());
-    }
+    e.attributes.insert(
+      "Num".to_string(),
+      self.num.as_ref().map(|n| n.num_str()).unwrap_or_default(),
+    );
     if self.delete {
       e.attributes
         .insert("Delete".to_string(), self.delete.to_string());
-- 
2.43.0


From 3189b8e8d3ccabb48a471b8fb1d025ee9f501d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:48:06 +0000
Subject: [PATCH 16/45] fix: write the end of a range once, with or without
 branch numbers

---
 src/article_number.rs | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/article_number.rs b/src/article_number.rs
index 65b3a53..77dcdba 100644
--- a/src/article_number.rs
+++ b/src/article_number.rs
@@ -25,16 +25,10 @@ impl ArticleNumber {
     for n in self.eda_numbers.iter() {
       s.push('_');
       s.push_str(&n.to_string());
-      if !self.range_end_numbers.is_empty() {
-        let l = &self.range_end_numbers;
-        let mut l = l.iter();
-        s.push(':');
-        s.push_str(&l.next().unwrap().to_string());
-        for n in l {
-          s.push('_');
-          s.push_str(&n.to_string());
-        }
-      }
+    }
+    for (i, n) in self.range_end_numbers.iter().enumerate() {
+      s.push(if i == 0 { ':' } else { '_' });
+      s.push_str(&n.to_string());
     }
     s
   }
-- 
2.43.0


From 824e98de8de5acf71bd24407335eec104d62286e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:26 +0000
Subject: [PATCH 17/45] fix: keep markup nested in the base text of Ruby

---
 src/text.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/text.rs b/src/text.rs
index a154f0b..3e2372a 100644
--- a/src/text.rs
+++ b/src/text.rs
@@ -294,11 +294,12 @@ impl Parser for Ruby {
                 }
               })
               .collect::<String>();
-            ruby = Some(s)
+            ruby = Some(s);
+            continue;
           }
-        } else if let XMLNode::Text(s) = children_node {
-          text.add_string(s)
         }
+        let part = Text::from_children(std::slice::from_ref(children_node));
+        text.contents.extend(part.contents);
       }
       let r = ruby.unwrap_or_default();
       Ok(Ruby::new(&text, r.as_str()))
-- 
2.43.0


From b9bb2f3ae86c710b7187a6ecb00333ff4203a623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:10 +0000
Subject: [PATCH 18/45] fix: report unexpected elements in Preamble instead of
 dropping them

---
 src/law.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/law.rs b/src/law.rs
index 02c8c03..9c1735c 100644
--- a/src/law.rs
+++ b/src/law.rs
@@ -533,9 +533,12 @@ impl Parser for Preamble {
       let mut children = Vec::new();
       for node in element.children.iter() {
         if let XMLNode::Element(e) = node {
-          if e.name.as_str() == "Paragraph" {
-            let v = Paragraph::parser(e)?;
-            children.push(v)
+          match e.name.as_str() {
+            "Paragraph" => {
+              let v = Paragraph::parser(e)?;
+              children.push(v)
+            }
+            s => return Err(Error::unexpected_tag(element, s)),
           }
         }
       }
-- 
2.43.0


From 1d336a2a21124dfb5f1459d4eb4c345efda8676c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:10 +0000
Subject: [PATCH 19/45] fix: report unexpected elements in TableHeaderRow
 instead of dropping them

---
 src/table.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/table.rs b/src/table.rs
index b1cab15..2f075e3 100644
--- a/src/table.rs
+++ b/src/table.rs
@@ -85,9 +85,12 @@ impl Parser for TableHeaderRow {
       let mut columns = Vec::new();
       for node in element.children.iter() {
         if let XMLNode::Element(e) = node {
-          if e.name.as_str() == "TableHeaderColumn" {
-            let text = Text::from_children(&e.children);
-            columns.push(text);
+          match e.name.as_str() {
+            "TableHeaderColumn" => {
+              let text = Text::from_children(&e.children);
+              columns.push(text);
+            }
+            s => return Err(Error::unexpected_tag(element, s)),
           }
         }
       }
-- 
2.43.0


From a8f3a7fa861e80fab5f97e2a14c8338094885715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:10 +0000
Subject: [PATCH 20/45] fix: report unexpected elements in TableRow instead of
 dropping them

---
 src/table.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/table.rs b/src/table.rs
index 2f075e3..943390b 100644
--- a/src/table.rs
+++ b/src/table.rs
@@ -124,9 +124,12 @@ impl Parser for TableRow {
       let mut columns = Vec::new();
       for node in element.children.iter() {
         if let XMLNode::Element(e) = node {
-          if e.name.as_str() == "TableColumn" {
-            let v = TableColumn::parser(e)?;
-            columns.push(v);
+          match e.name.as_str() {
+            "TableColumn" => {
+              let v = TableColumn::parser(e)?;
+              columns.push(v);
+            }
+            s => return Err(Error::unexpected_tag(element, s)),
           }
         }
       }
-- 
2.43.0


From 7a3b296ba19d0c214ce5db2e78e81efd6d0029e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:10 +0000
Subject: [PATCH 21/45] fix: report unexpected elements in Sublist3 instead of
 dropping them

---
 src/list.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/list.rs b/src/list.rs
index 5ddb1bd..c768d24 100644
--- a/src/list.rs
+++ b/src/list.rs
@@ -291,6 +291,11 @@ impl Parser for Sublist3 {
       } else {
         return Err(Error::wrong_tag_name(element, "Sublist3Sentence"));
       }
+      for node in children {
+        if let XMLNode::Element(e) = node {
+          return Err(Error::unexpected_tag(element, &e.name));
+        }
+      }
       Ok(Sublist3::new(sentence))
     } else {
       Err(Error::wrong_tag_name(element, "Sublist3"))
-- 
2.43.0


From d80382dfc344bf100bb8c5be8b4d70742c47472b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:33 +0000
Subject: [PATCH 22/45] fix: report unexpected elements in Law instead of
 dropping them

---
 src/law.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/law.rs b/src/law.rs
index 9c1735c..76f05d0 100644
--- a/src/law.rs
+++ b/src/law.rs
@@ -162,6 +162,11 @@ impl Parser for Law {
         })
         .ok_or(Error::missing_required_tag("LawBody"))?;
       let law_body = LawBody::parser(law_body_element)?;
+      for node in children {
+        if let XMLNode::Element(e) = node {
+          return Err(Error::unexpected_tag(element, &e.name));
+        }
+      }
       Ok(Law {
         era,
         year,
-- 
2.43.0


From f8c790f0a2e1fb6d9c2fcb9ed27b8bdedf8e5cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:38 +0000
Subject: [PATCH 23/45] fix: advance past supplementary-provision headings and
 stray text in parse_body instead of looping forever

---
 src/parse_from_text.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/parse_from_text.rs b/src/parse_from_text.rs
index af25bc6..bb40f40 100644
--- a/src/parse_from_text.rs
+++ b/src/parse_from_text.rs
@@ -804,10 +804,11 @@ pub(crate) fn parse_body(title: &str, text: &str) -> Result<law::LawBody> {
       LineContents::Text(s) => {
         if is_preamble {
           preamble_text_list.push(s.to_string());
-          lines.next();
         }
+        lines.next();
       }
       LineContents::SupplProvision(law_num) => {
+        lines.next();
         if let Some(amend_law_num) = suppl_provision_law_num_opt {
           if !suppl_provision_children.is_empty() {
             suppl_provision.push(suppl_provision::SupplProvision {
@@ -821,6 +822,8 @@ pub(crate) fn parse_body(title: &str, text: &str) -> Result<law::LawBody> {
         }
         suppl_provision_law_num_opt = Some(law_num.clone());
         suppl_provision_children = Vec::new();
+        caption_opt = None;
+        is_preamble = false;
       }
       _ => break,
     }
-- 
2.43.0


From bb1dd0cdffa1b3552819adba7441e90d38e3972f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:44 +0000
Subject: [PATCH 24/45] fix: end an item list at an item of an outer level
 instead of panicking

---
 src/parse_from_text.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/parse_from_text.rs b/src/parse_from_text.rs
index bb40f40..27c7068 100644
--- a/src/parse_from_text.rs
+++ b/src/parse_from_text.rs
@@ -333,7 +333,7 @@ fn parse_subitem1(
         hide: false,
       })
     } else {
-      unreachable!()
+      break;
     }
   }
   v
@@ -377,7 +377,7 @@ fn parse_subitem2(
         hide: false,
       })
     } else {
-      unreachable!()
+      break;
     }
   }
   v
@@ -421,7 +421,7 @@ fn parse_subitem3(
         hide: false,
       })
     } else {
-      unreachable!()
+      break;
     }
   }
   v
@@ -465,7 +465,7 @@ fn parse_subitem4(
         hide: false,
       })
     } else {
-      unreachable!()
+      break;
     }
   }
   v
@@ -509,7 +509,7 @@ fn parse_subitem5(
         hide: false,
       })
     } else {
-      unreachable!()
+      break;
     }
   }
   v
@@ -553,7 +553,7 @@ fn parse_subitem6(
         hide: false,
       })
     } else {
-      unreachable!()
+      break;
     }
   }
   v
@@ -597,7 +597,7 @@ fn parse_subitem7(
         hide: false,
       })
     } else {
-      unreachable!()
+      break;
     }
   }
   v
@@ -641,7 +641,7 @@ fn parse_subitem8(
         hide: false,
       })
     } else {
-      unreachable!()
+      break;
     }
   }
   v
@@ -685,7 +685,7 @@ fn parse_subitem9(
         hide: false,
       })
     } else {
-      unreachable!()
+      break;
     }
   }
   v
@@ -722,7 +722,7 @@ fn parse_subitem10(
         hide: false,
       })
     } else {
-      unreachable!()
+      break;
     }
   }
   v
-- 
2.43.0


From b4fdbcf6794ae2b78c09745be1420aa291c3af58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:56 +0000
Subject: [PATCH 25/45] fix: do not print debug output while classifying lines

---
 src/parse_from_text.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/parse_from_text.rs b/src/parse_from_text.rs
index 27c7068..4f30de3 100644
--- a/src/parse_from_text.rs
+++ b/src/parse_from_text.rs
@@ -948,7 +948,6 @@ fn parse_line_contents(line: &str) -> LineContents {
   if let Some(caps) = re_caption.captures(line) {
     Caption(caps["caption"].to_string())
   } else if let Some((s, text)) = split_number(line) {
-    println!("{s}: {text}");
     if let Some(article_number) = article_number::parse_article_number(&s) {
       if s.contains('編') {
         Part(article_number, text)
@@ -968,7 +967,6 @@ fn parse_line_contents(line: &str) -> LineContents {
     } else if let Some(item_number) = article_number::parse_item_number(&s) {
       Item(item_number, text)
     } else {
-      println!("text!!!{s}: {text}");
       Text(line.to_string())
     }
   } else if let Some(caps) = re_suppl_provision.captures(line) {
-- 
2.43.0


From 57fb0e320316c5e72314b81af85c2ffe69c026a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:18 +0000
Subject: [PATCH 26/45] fix: do not print debug output while parsing item
 numbers

---
 src/article_number.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/article_number.rs b/src/article_number.rs
index 77dcdba..beb33f6 100644
--- a/src/article_number.rs
+++ b/src/article_number.rs
@@ -557,7 +557,6 @@ fn check_parse_article_number() {
 pub fn parse_item_number(str: &str) -> Option<ItemNumber> {
   let re_item = Regex::new(r"^(?<base_number>(（(([ア-ン]+)|([あ-ん]+)|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))）|(([ア-ン]+)|([あ-ん]+)|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))))(?<eda_numbers>(の(（(([ア-ン]+)|([あ-ん]+)|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))）|(([ア-ン]+)|([あ-ん]+)|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))))+)?(から(?<base_number2>(（(([ア-ン]+)|([あ-ん]+)|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))）|(([ア-ン]+)|([あ-ん]+)|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))))(?<eda_numbers2>(の(（(([ア-ン]+)|([あ-ん]+)|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))）|(([ア-ン]+)|([あ-ん]+)|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))))+)?まで)?$").unwrap();
   if let Some(caps) = re_item.captures(str.trim()) {
-    println!("ok!!!");
     if let Some((pat, base_number)) = parse_item_number_base(&caps["base_number"]) {
       let eda_numbers = if let Some(m) = &caps.name("eda_numbers") {
         m.as_str()
@@ -600,7 +599,6 @@ pub fn parse_item_number(str: &str) -> Option<ItemNumber> {
       None
     }
   } else {
-    println!("err!!");
     None
   }
 }
-- 
2.43.0


From b27c407ec692a6ba619bcb119530d5893f4074a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:25 +0000
Subject: [PATCH 27/45] fix: read the range end of item numbers from the groups
 the pattern defines

---
 src/article_number.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/article_number.rs b/src/article_number.rs
index beb33f6..5aedf68 100644
--- a/src/article_number.rs
+++ b/src/article_number.rs
@@ -570,12 +570,12 @@ pub fn parse_item_number(str: &str) -> Option<ItemNumber> {
         Vec::new()
       };
       let mut range_end_numbers = Vec::new();
-      if let Some(m) = &caps.name("base_number_2") {
+      if let Some(m) = &caps.name("base_number2") {
         if let Some((_, base_number2)) = parse_item_number_base(m.as_str()) {
           range_end_numbers.push(base_number2);
         }
       }
-      if let Some(m) = &caps.name("eda_number_2") {
+      if let Some(m) = &caps.name("eda_numbers2") {
         let eda_numbers2 = &m
           .as_str()
           .split('の')
-- 
2.43.0


From 2bea14334f4c7a337b46317dc355304b10117195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:00 +0000
Subject: [PATCH 28/45] =?UTF-8?q?fix:=20read=20branch=20numbers=20written?=
 =?UTF-8?q?=20with=20=E3=83=8E=20and=20after=20=E3=81=8B=E3=82=89,=20and?=
 =?UTF-8?q?=20report=20numbers=20out=20of=20range=20as=20unparsable?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/article_number.rs | 39 ++++++++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/src/article_number.rs b/src/article_number.rs
index 5aedf68..d19c692 100644
--- a/src/article_number.rs
+++ b/src/article_number.rs
@@ -211,7 +211,7 @@ pub fn parse_article_number(str: &str) -> Option<ArticleNumber> {
   if let Some(caps) = re_article.captures(str) {
     // 編-条
     let base_number = if let Some(arabic_num) = caps.name("arabic_num") {
-      arabic_num.as_str().parse::<usize>().unwrap()
+      arabic_num.as_str().parse::<usize>().ok()?
     } else if let Some(zenkaku_num) = caps.name("zenkaku_num") {
       parse_zenkaku_num(zenkaku_num.as_str())?
     } else if let Some(kansuji) = caps.name("kansuji") {
@@ -243,7 +243,7 @@ pub fn parse_article_number(str: &str) -> Option<ArticleNumber> {
     }
     let mut range_end_numbers = Vec::new();
     if let Some(arabic_num) = caps.name("arabic_num_2") {
-      range_end_numbers.push(arabic_num.as_str().parse::<usize>().unwrap())
+      range_end_numbers.push(arabic_num.as_str().parse::<usize>().ok()?)
     } else if let Some(zenkaku_num) = caps.name("zenkaku_num_2") {
       range_end_numbers.push(parse_zenkaku_num(zenkaku_num.as_str())?)
     } else if let Some(kansuji) = caps.name("kansuji_2") {
@@ -254,7 +254,7 @@ pub fn parse_article_number(str: &str) -> Option<ArticleNumber> {
     if let Some(s) = &caps.name("eda_str_2") {
       let eda_numbers_2 = s
         .as_str()
-        .split('の')
+        .split(['の', 'ノ'])
         .filter(|s| !s.is_empty())
         .collect::<Vec<_>>();
       for s in eda_numbers_2.iter() {
@@ -279,19 +279,19 @@ pub fn parse_article_number(str: &str) -> Option<ArticleNumber> {
     let base_number = if let Ok(n) = &caps["num"].parse::<usize>() {
       *n
     } else {
-      parse_zenkaku_num(&caps["num"]).unwrap()
+      parse_zenkaku_num(&caps["num"])?
     };
-    let eda_numbers = &caps["eda_str"]
-      .split('の')
+    let mut eda_numbers = Vec::new();
+    for s in caps["eda_str"]
+      .split(['の', 'ノ'])
       .filter(|s| !s.is_empty())
-      .map(|s| {
-        if let Ok(n) = s.parse::<usize>() {
-          n
-        } else {
-          parse_zenkaku_num(s).unwrap()
-        }
-      })
-      .collect::<Vec<usize>>();
+    {
+      if let Ok(n) = s.parse::<usize>() {
+        eda_numbers.push(n)
+      } else {
+        eda_numbers.push(parse_zenkaku_num(s)?);
+      }
+    }
     let mut range_end_numbers = Vec::new();
     if let Some(m) = caps.name("num_2") {
       if let Ok(n) = m.as_str().parse::<usize>() {
@@ -300,9 +300,18 @@ pub fn parse_article_number(str: &str) -> Option<ArticleNumber> {
         range_end_numbers.push(parse_zenkaku_num(m.as_str())?);
       }
     }
+    if let Some(m) = caps.name("eda_str_2") {
+      for s in m.as_str().split(['の', 'ノ']).filter(|s| !s.is_empty()) {
+        if let Ok(n) = s.parse::<usize>() {
+          range_end_numbers.push(n)
+        } else {
+          range_end_numbers.push(parse_zenkaku_num(s)?);
+        }
+      }
+    }
     Some(ArticleNumber {
       base_number,
-      eda_numbers: eda_numbers.clone(),
+      eda_numbers,
       range_end_numbers,
     })
   } else {
-- 
2.43.0


From f180d476a5ab11d93428eae9ec1fcc680d6fbc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:27 +0000
Subject: [PATCH 29/45] fix: report item numbers that cannot be read as
 unparsable instead of panicking or dropping branches

---
 src/article_number.rs | 70 +++++++++++++------------------------------
 1 file changed, 21 insertions(+), 49 deletions(-)

diff --git a/src/article_number.rs b/src/article_number.rs
index d19c692..83ddfa0 100644
--- a/src/article_number.rs
+++ b/src/article_number.rs
@@ -442,74 +442,50 @@ fn parse_item_number_base(str: &str) -> Option<(ItemPattern, usize)> {
   let re_is_roman = Regex::new(r"[ixvlcIXVLCｉｘｖｌｃＩＸＶＬＣ]+").unwrap();
   if let Some(caps) = re_item.captures(str) {
     let (pattern, number) = if let Some(s) = caps.name("paren_iroha_katakana") {
-      (
-        ParenIrohaKatakana,
-        parse_iroha_katakana(s.as_str()).unwrap(),
-      )
+      (ParenIrohaKatakana, parse_iroha_katakana(s.as_str())?)
     } else if let Some(s) = caps.name("paren_iroha_hiragana") {
-      (
-        ParenIrohaHiragana,
-        parse_iroha_hiragana(s.as_str()).unwrap(),
-      )
+      (ParenIrohaHiragana, parse_iroha_hiragana(s.as_str())?)
     } else if let Some(s) = caps.name("paren_kansuji") {
-      let kansuji = Kansuji::try_from(s.as_str()).unwrap();
+      let kansuji = Kansuji::try_from(s.as_str()).ok()?;
       let n: u128 = kansuji.into();
       (ParenKansuji, n as usize)
     } else if let Some(s) = caps.name("paren_zenkaku_num") {
-      (ParenZenkakuNum, parse_zenkaku_num(s.as_str()).unwrap())
+      (ParenZenkakuNum, parse_zenkaku_num(s.as_str())?)
     } else if let Some(s) = caps.name("paren_zenkaku_upper") {
       if re_is_roman.is_match(s.as_str()) {
-        (ParenZenkakuRomanUpper, parse_roman(s.as_str()).unwrap())
+        (ParenZenkakuRomanUpper, parse_roman(s.as_str())?)
       } else {
-        (
-          ParenZenkakuUpper,
-          parse_zenkaku_alphabet(s.as_str()).unwrap(),
-        )
+        (ParenZenkakuUpper, parse_zenkaku_alphabet(s.as_str())?)
       }
     } else if let Some(s) = caps.name("paren_zenkaku_lower") {
       if re_is_roman.is_match(s.as_str()) {
-        (ParenZenkakuRomanLower, parse_roman(s.as_str()).unwrap())
+        (ParenZenkakuRomanLower, parse_roman(s.as_str())?)
       } else {
-        (
-          ParenZenkakuLower,
-          parse_zenkaku_alphabet(s.as_str()).unwrap(),
-        )
+        (ParenZenkakuLower, parse_zenkaku_alphabet(s.as_str())?)
       }
     }
     // 括弧なし
     else if let Some(s) = caps.name("no_paren_iroha_katakana") {
-      (
-        NoParenIrohaKatakana,
-        parse_iroha_katakana(s.as_str()).unwrap(),
-      )
+      (NoParenIrohaKatakana, parse_iroha_katakana(s.as_str())?)
     } else if let Some(s) = caps.name("no_paren_iroha_hiragana") {
-      (
-        NoParenIrohaHiragana,
-        parse_iroha_hiragana(s.as_str()).unwrap(),
-      )
+      (NoParenIrohaHiragana, parse_iroha_hiragana(s.as_str())?)
     } else if let Some(s) = caps.name("no_paren_kansuji") {
-      let kansuji = Kansuji::try_from(s.as_str()).unwrap();
+      let kansuji = Kansuji::try_from(s.as_str()).ok()?;
       let n: u128 = kansuji.into();
       (NoParenKansuji, n as usize)
     } else if let Some(s) = caps.name("no_paren_zenkaku_num") {
-      (NoParenZenkakuNum, parse_zenkaku_num(s.as_str()).unwrap())
+      (NoParenZenkakuNum, parse_zenkaku_num(s.as_str())?)
     } else if let Some(s) = caps.name("no_paren_zenkaku_upper") {
       if re_is_roman.is_match(s.as_str()) {
-        (NoParenZenkakuRomanUpper, parse_roman(s.as_str()).unwrap())
+        (NoParenZenkakuRomanUpper, parse_roman(s.as_str())?)
       } else {
-        (
-          NoParenZenkakuUpper,
-          parse_zenkaku_alphabet(s.as_str()).unwrap(),
-        )
+        (NoParenZenkakuUpper, parse_zenkaku_alphabet(s.as_str())?)
       }
     } else if let Some(s) = caps.name("no_paren_zenkaku_lower") {
       if re_is_roman.is_match(s.as_str()) {
-        (NoParenZenkakuRomanLower, parse_roman(s.as_str()).unwrap())
+        (NoParenZenkakuRomanLower, parse_roman(s.as_str())?)
       } else {
-        (
-          NoParenZenkakuLower,
-          parse_zenkaku_alphabet(s.as_str()).unwrap(),
-        )
+        (NoParenZenkakuLower, parse_zenkaku_alphabet(s.as_str())?)
       }
     } else {
       unreachable!()
@@ -571,10 +547,8 @@ pub fn parse_item_number(str: &str) -> Option<ItemNumber> {
         m.as_str()
           .split('の')
           .filter(|s| !s.is_empty())
-          .map(parse_item_number_base)
-          .filter(|v| v.is_some())
-          .map(|v| v.unwrap().1)
-          .collect::<Vec<_>>()
+          .map(|s| parse_item_number_base(s).map(|(_, n)| n))
+          .collect::<Option<Vec<_>>>()?
       } else {
         Vec::new()
       };
@@ -585,14 +559,12 @@ pub fn parse_item_number(str: &str) -> Option<ItemNumber> {
         }
       }
       if let Some(m) = &caps.name("eda_numbers2") {
-        let eda_numbers2 = &m
+        let eda_numbers2 = m
           .as_str()
           .split('の')
           .filter(|s| !s.is_empty())
-          .map(parse_item_number_base)
-          .filter(|v| v.is_some())
-          .map(|v| v.unwrap().1)
-          .collect::<Vec<_>>();
+          .map(|s| parse_item_number_base(s).map(|(_, n)| n))
+          .collect::<Option<Vec<_>>>()?;
         for v in eda_numbers2.iter() {
           range_end_numbers.push(*v)
         }
-- 
2.43.0


From 16f25809dd0680aabe4dba833f10059368f40fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:05 +0000
Subject: [PATCH 30/45] fix: read and write the roman numeral V (and D, M when
 writing) in full-width form

---
 src/article_number.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/article_number.rs b/src/article_number.rs
index 83ddfa0..23127cb 100644
--- a/src/article_number.rs
+++ b/src/article_number.rs
@@ -830,14 +830,17 @@ fn parse_roman(str: &str) -> Option<usize> {
   roman::from(
     &str
       .replace('i', "I")
+      .replace('v', "V")
       .replace('x', "X")
       .replace('l', "L")
       .replace('c', "C")
       .replace('ｉ', "I")
+      .replace('ｖ', "V")
       .replace('ｘ', "X")
       .replace('ｌ', "L")
       .replace('ｃ', "C")
       .replace('Ｉ', "I")
+      .replace('Ｖ', "V")
       .replace('Ｘ', "X")
       .replace('Ｌ', "L")
       .replace('Ｃ', "C"),
@@ -846,20 +849,26 @@ fn parse_roman(str: &str) -> Option<usize> {
 }
 
 fn to_zenkaku_roman_upper(n: usize) -> Option<String> {
-  roman::to(n as i32).map(|s| {
+  roman::to(i32::try_from(n).ok()?).map(|s| {
     s.replace('I', "Ｉ")
+      .replace('V', "Ｖ")
       .replace('X', "Ｘ")
       .replace('L', "Ｌ")
       .replace('C', "Ｃ")
+      .replace('D', "Ｄ")
+      .replace('M', "Ｍ")
   })
 }
 
 fn to_zenkaku_roman_lower(n: usize) -> Option<String> {
-  roman::to(n as i32).map(|s| {
+  roman::to(i32::try_from(n).ok()?).map(|s| {
     s.replace('I', "ｉ")
+      .replace('V', "ｖ")
       .replace('X', "ｘ")
       .replace('L', "ｌ")
       .replace('C', "ｃ")
+      .replace('D', "ｄ")
+      .replace('M', "ｍ")
   })
 }
 
-- 
2.43.0


From 3907989ea24ec15210cc067523b457d055a4549a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:11 +0000
Subject: [PATCH 31/45] fix: convert numbers to and from full-width letters
 instead of panicking

---
 src/article_number.rs | 74 +++++++++++++++++++++----------------------
 1 file changed, 36 insertions(+), 38 deletions(-)

diff --git a/src/article_number.rs b/src/article_number.rs
index 23127cb..a630d33 100644
--- a/src/article_number.rs
+++ b/src/article_number.rs
@@ -380,8 +380,8 @@ impl ItemPattern {
       ItemPattern::NoParenZenkakuNum => to_zenkaku_num(n),
       ItemPattern::NoParenZenkakuRomanUpper => to_zenkaku_roman_upper(n).unwrap(),
       ItemPattern::NoParenZenkakuRomanLower => to_zenkaku_roman_lower(n).unwrap(),
-      ItemPattern::NoParenZenkakuUpper => to_zenkaku_alphabet_upper(n),
-      ItemPattern::NoParenZenkakuLower => to_zenkaku_alphabet_lower(n),
+      ItemPattern::NoParenZenkakuUpper => to_zenkaku_alphabet_upper(n).unwrap(),
+      ItemPattern::NoParenZenkakuLower => to_zenkaku_alphabet_lower(n).unwrap(),
       ItemPattern::ParenKansuji => {
         let kansuji = Kansuji::from(n);
         format!("（{}）", kansuji.to_string())
@@ -400,10 +400,10 @@ impl ItemPattern {
         format!("（{}）", to_zenkaku_roman_upper(n).unwrap())
       }
       ItemPattern::ParenZenkakuUpper => {
-        format!("（{}）", to_zenkaku_alphabet_upper(n))
+        format!("（{}）", to_zenkaku_alphabet_upper(n).unwrap())
       }
       ItemPattern::ParenZenkakuLower => {
-        format!("（{}）", to_zenkaku_alphabet_lower(n))
+        format!("（{}）", to_zenkaku_alphabet_lower(n).unwrap())
       }
     }
   }
@@ -419,8 +419,8 @@ impl ItemPattern {
       ItemPattern::NoParenZenkakuNum => to_zenkaku_num(n),
       ItemPattern::NoParenZenkakuRomanUpper => to_zenkaku_roman_upper(n).unwrap(),
       ItemPattern::NoParenZenkakuRomanLower => to_zenkaku_roman_lower(n).unwrap(),
-      ItemPattern::NoParenZenkakuUpper => to_zenkaku_alphabet_upper(n),
-      ItemPattern::NoParenZenkakuLower => to_zenkaku_alphabet_lower(n),
+      ItemPattern::NoParenZenkakuUpper => to_zenkaku_alphabet_upper(n).unwrap(),
+      ItemPattern::NoParenZenkakuLower => to_zenkaku_alphabet_lower(n).unwrap(),
       ItemPattern::ParenKansuji => {
         let kansuji = Kansuji::from(n);
         kansuji.to_string()
@@ -430,8 +430,8 @@ impl ItemPattern {
       ItemPattern::ParenZenkakuNum => to_zenkaku_num(n),
       ItemPattern::ParenZenkakuRomanUpper => to_zenkaku_roman_upper(n).unwrap(),
       ItemPattern::ParenZenkakuRomanLower => to_zenkaku_roman_lower(n).unwrap(),
-      ItemPattern::ParenZenkakuUpper => to_zenkaku_alphabet_upper(n),
-      ItemPattern::ParenZenkakuLower => to_zenkaku_alphabet_lower(n),
+      ItemPattern::ParenZenkakuUpper => to_zenkaku_alphabet_upper(n).unwrap(),
+      ItemPattern::ParenZenkakuLower => to_zenkaku_alphabet_lower(n).unwrap(),
     }
   }
 }
@@ -872,42 +872,40 @@ fn to_zenkaku_roman_lower(n: usize) -> Option<String> {
   })
 }
 
+/// Ａ=1, …, Ｚ=26, ＡＡ=27, …（小文字も同様）
 fn parse_zenkaku_alphabet(str: &str) -> Option<usize> {
-  let s = str
-    .chars()
-    .map(|c| {
-      let v = c as u32;
-      let n =
-    // 大文字
-    if v < 0xFF41 {
-      v - 0xFF20
-    } else {
-      v - 0xFF40
+  let mut n: usize = 0;
+  for c in str.chars() {
+    let d = match c {
+      'Ａ'..='Ｚ' => c as usize - 'Ａ' as usize + 1,
+      'ａ'..='ｚ' => c as usize - 'ａ' as usize + 1,
+      _ => return None,
     };
-      n.to_string()
-    })
-    .collect::<String>();
-  s.parse::<usize>().ok()
+    n = n.checked_mul(26)?.checked_add(d)?;
+  }
+  Some(n)
 }
 
-fn to_zenkaku_alphabet_upper(n: usize) -> String {
-  n.to_string()
-    .chars()
-    .map(|s| {
-      let ns = s.to_string().parse::<u32>().unwrap();
-      char::from_digit(ns + 0xFF20, 10).unwrap()
-    })
-    .collect::<String>()
+fn to_zenkaku_alphabet_upper(n: usize) -> Option<String> {
+  to_zenkaku_alphabet('Ａ', n)
 }
 
-fn to_zenkaku_alphabet_lower(n: usize) -> String {
-  n.to_string()
-    .chars()
-    .map(|s| {
-      let ns = s.to_string().parse::<u32>().unwrap();
-      char::from_digit(ns + 0xFF40, 10).unwrap()
-    })
-    .collect::<String>()
+fn to_zenkaku_alphabet_lower(n: usize) -> Option<String> {
+  to_zenkaku_alphabet('ａ', n)
+}
+
+fn to_zenkaku_alphabet(first: char, n: usize) -> Option<String> {
+  let mut s = String::new();
+  let mut n = n;
+  while n > 0 {
+    s.insert(0, char::from_u32(first as u32 + ((n - 1) % 26) as u32)?);
+    n = (n - 1) / 26;
+  }
+  if s.is_empty() {
+    None
+  } else {
+    Some(s)
+  }
 }
 
 #[test]
-- 
2.43.0


From b217010b3b107bc864a789ad5d6db08f516a5dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:44 +0000
Subject: [PATCH 32/45] fix: do not swap upper and lower case parenthesised
 roman numerals

---
 src/article_number.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/article_number.rs b/src/article_number.rs
index a630d33..42f2730 100644
--- a/src/article_number.rs
+++ b/src/article_number.rs
@@ -394,10 +394,10 @@ impl ItemPattern {
       }
       ItemPattern::ParenZenkakuNum => format!("（{}）", to_zenkaku_num(n)),
       ItemPattern::ParenZenkakuRomanUpper => {
-        format!("（{}）", to_zenkaku_roman_lower(n).unwrap())
+        format!("（{}）", to_zenkaku_roman_upper(n).unwrap())
       }
       ItemPattern::ParenZenkakuRomanLower => {
-        format!("（{}）", to_zenkaku_roman_upper(n).unwrap())
+        format!("（{}）", to_zenkaku_roman_lower(n).unwrap())
       }
       ItemPattern::ParenZenkakuUpper => {
         format!("（{}）", to_zenkaku_alphabet_upper(n).unwrap())
-- 
2.43.0


From d71b113ad8ade3cfe2a05addd7b68becadf313cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:52 +0000
Subject: [PATCH 33/45] fix: fall back to digits for item numbers their pattern
 cannot express instead of panicking

---
 src/article_number.rs | 52 ++++++++++++++++++++++---------------------
 1 file changed, 27 insertions(+), 25 deletions(-)

diff --git a/src/article_number.rs b/src/article_number.rs
index 42f2730..9ebee41 100644
--- a/src/article_number.rs
+++ b/src/article_number.rs
@@ -369,69 +369,71 @@ pub enum ItemPattern {
 }
 
 impl ItemPattern {
+  /// その記号では表せない番号の場合は全角数字で表す
   fn num_to_str(&self, n: usize) -> String {
     match self {
       ItemPattern::NoParenKansuji => {
         let kansuji = Kansuji::from(n);
         kansuji.to_string()
       }
-      ItemPattern::NoParenIrohaKatakana => to_iroha_katakana(n).unwrap(),
-      ItemPattern::NoParenIrohaHiragana => to_iroha_hiragana(n).unwrap(),
+      ItemPattern::NoParenIrohaKatakana => to_iroha_katakana(n).unwrap_or_else(|| to_zenkaku_num(n)),
+      ItemPattern::NoParenIrohaHiragana => to_iroha_hiragana(n).unwrap_or_else(|| to_zenkaku_num(n)),
       ItemPattern::NoParenZenkakuNum => to_zenkaku_num(n),
-      ItemPattern::NoParenZenkakuRomanUpper => to_zenkaku_roman_upper(n).unwrap(),
-      ItemPattern::NoParenZenkakuRomanLower => to_zenkaku_roman_lower(n).unwrap(),
-      ItemPattern::NoParenZenkakuUpper => to_zenkaku_alphabet_upper(n).unwrap(),
-      ItemPattern::NoParenZenkakuLower => to_zenkaku_alphabet_lower(n).unwrap(),
+      ItemPattern::NoParenZenkakuRomanUpper => to_zenkaku_roman_upper(n).unwrap_or_else(|| to_zenkaku_num(n)),
+      ItemPattern::NoParenZenkakuRomanLower => to_zenkaku_roman_lower(n).unwrap_or_else(|| to_zenkaku_num(n)),
+      ItemPattern::NoParenZenkakuUpper => to_zenkaku_alphabet_upper(n).unwrap_or_else(|| to_zenkaku_num(n)),
+      ItemPattern::NoParenZenkakuLower => to_zenkaku_alphabet_lower(n).unwrap_or_else(|| to_zenkaku_num(n)),
       ItemPattern::ParenKansuji => {
         let kansuji = Kansuji::from(n);
         format!("（{}）", kansuji.to_string())
       }
       ItemPattern::ParenIrohaKatakana => {
-        format!("（{}）", to_iroha_katakana(n).unwrap())
+        format!("（{}）", to_iroha_katakana(n).unwrap_or_else(|| to_zenkaku_num(n)))
       }
       ItemPattern::ParenIrohaHiragana => {
-        format!("（{}）", to_iroha_hiragana(n).unwrap())
+        format!("（{}）", to_iroha_hiragana(n).unwrap_or_else(|| to_zenkaku_num(n)))
       }
       ItemPattern::ParenZenkakuNum => format!("（{}）", to_zenkaku_num(n)),
       ItemPattern::ParenZenkakuRomanUpper => {
-        format!("（{}）", to_zenkaku_roman_upper(n).unwrap())
+        format!("（{}）", to_zenkaku_roman_upper(n).unwrap_or_else(|| to_zenkaku_num(n)))
       }
       ItemPattern::ParenZenkakuRomanLower => {
-        format!("（{}）", to_zenkaku_roman_lower(n).unwrap())
+        format!("（{}）", to_zenkaku_roman_lower(n).unwrap_or_else(|| to_zenkaku_num(n)))
       }
       ItemPattern::ParenZenkakuUpper => {
-        format!("（{}）", to_zenkaku_alphabet_upper(n).unwrap())
+        format!("（{}）", to_zenkaku_alphabet_upper(n).unwrap_or_else(|| to_zenkaku_num(n)))
       }
       ItemPattern::ParenZenkakuLower => {
-        format!("（{}）", to_zenkaku_alphabet_lower(n).unwrap())
+        format!("（{}）", to_zenkaku_alphabet_lower(n).unwrap_or_else(|| to_zenkaku_num(n)))
       }
     }
   }
 
+  /// その記号では表せない番号の場合は全角数字で表す
   fn num_to_str_no_paren(&self, n: usize) -> String {
     match self {
       ItemPattern::NoParenKansuji => {
         let kansuji = Kansuji::from(n);
         kansuji.to_string()
       }
-      ItemPattern::NoParenIrohaKatakana => to_iroha_katakana(n).unwrap(),
-      ItemPattern::NoParenIrohaHiragana => to_iroha_hiragana(n).unwrap(),
+      ItemPattern::NoParenIrohaKatakana => to_iroha_katakana(n).unwrap_or_else(|| to_zenkaku_num(n)),
+      ItemPattern::NoParenIrohaHiragana => to_iroha_hiragana(n).unwrap_or_else(|| to_zenkaku_num(n)),
       ItemPattern::NoParenZenkakuNum => to_zenkaku_num(n),
-      ItemPattern::NoParenZenkakuRomanUpper => to_zenkaku_roman_upper(n).unwrap(),
-      ItemPattern::NoParenZenkakuRomanLower => to_zenkaku_roman_lower(n).unwrap(),
-      ItemPattern::NoParenZenkakuUpper => to_zenkaku_alphabet_upper(n).unwrap(),
-      ItemPattern::NoParenZenkakuLower => to_zenkaku_alphabet_lower(n).unwrap(),
+      ItemPattern::NoParenZenkakuRomanUpper => to_zenkaku_roman_upper(n).unwrap_or_else(|| to_zenkaku_num(n)),
+      ItemPattern::NoParenZenkakuRomanLower => to_zenkaku_roman_lower(n).unwrap_or_else(|| to_zenkaku_num(n)),
+      ItemPattern::NoParenZenkakuUpper => to_zenkaku_alphabet_upper(n).unwrap_or_else(|| to_zenkaku_num(n)),
+      ItemPattern::NoParenZenkakuLower => to_zenkaku_alphabet_lower(n).unwrap_or_else(|| to_zenkaku_num(n)),
       ItemPattern::ParenKansuji => {
         let kansuji = Kansuji::from(n);
         kansuji.to_string()
       }
-      ItemPattern::ParenIrohaKatakana => to_iroha_katakana(n).unwrap(),
-      ItemPattern::ParenIrohaHiragana => to_iroha_hiragana(n).unwrap(),
+      ItemPattern::ParenIrohaKatakana => to_iroha_katakana(n).unwrap_or_else(|| to_zenkaku_num(n)),
+      ItemPattern::ParenIrohaHiragana => to_iroha_hiragana(n).unwrap_or_else(|| to_zenkaku_num(n)),
       ItemPattern::ParenZenkakuNum => to_zenkaku_num(n),
-      ItemPattern::ParenZenkakuRomanUpper => to_zenkaku_roman_upper(n).unwrap(),
-      ItemPattern::ParenZenkakuRomanLower => to_zenkaku_roman_lower(n).unwrap(),
-      ItemPattern::ParenZenkakuUpper => to_zenkaku_alphabet_upper(n).unwrap(),
-      ItemPattern::ParenZenkakuLower => to_zenkaku_alphabet_lower(n).unwrap(),
+      ItemPattern::ParenZenkakuRomanUpper => to_zenkaku_roman_upper(n).unwrap_or_else(|| to_zenkaku_num(n)),
+      ItemPattern::ParenZenkakuRomanLower => to_zenkaku_roman_lower(n).unwrap_or_else(|| to_zenkaku_num(n)),
+      ItemPattern::ParenZenkakuUpper => to_zenkaku_alphabet_upper(n).unwrap_or_else(|| to_zenkaku_num(n)),
+      ItemPattern::ParenZenkakuLower => to_zenkaku_alphabet_lower(n).unwrap_or_else(|| to_zenkaku_num(n)),
     }
   }
 }
@@ -883,7 +885,7 @@ fn parse_zenkaku_alphabet(str: &str) -> Option<usize> {
     };
     n = n.checked_mul(26)?.checked_add(d)?;
   }
-  Some(n)
+  (n > 0).then_some(n)
 }
 
 fn to_zenkaku_alphabet_upper(n: usize) -> Option<String> {
-- 
2.43.0


From 59e61279d119ac85a3c2ef5aa18e628d1f094431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:31 +0000
Subject: [PATCH 34/45] fix: report dates without an era as an error in
 parse_text instead of panicking

---
 src/lib.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 63925fa..bf50719 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -80,20 +80,24 @@ pub fn parse_text(
   law_num: String,
   title: &str,
 ) -> Result<law::Law> {
+  let date_error = || {
+    let date = format!("{year}-{}-{}", month.unwrap_or(1), day.unwrap_or(1));
+    Error::ParsingError("Date".to_string(), date)
+  };
   let date = Date::from_ymd(
-    year as i32,
-    month.unwrap_or(1) as u32,
-    day.unwrap_or(1) as u32,
+    i32::try_from(year).map_err(|_| date_error())?,
+    u32::try_from(month.unwrap_or(1)).map_err(|_| date_error())?,
+    u32::try_from(day.unwrap_or(1)).map_err(|_| date_error())?,
   )
-  .unwrap();
-  let e = era(&date).unwrap();
+  .map_err(|_| date_error())?;
+  let e = era(&date).ok_or_else(date_error)?;
   let era = match e.name().as_str() {
     "明治" => law::Era::Meiji,
     "大正" => law::Era::Taisho,
     "昭和" => law::Era::Showa,
     "平成" => law::Era::Heisei,
     "令和" => law::Era::Reiwa,
-    _ => unreachable!(),
+    _ => return Err(date_error()),
   };
   let body = parse_from_text::parse_body(title, text)?;
   Ok(law::Law {
-- 
2.43.0


From b5651595018d62ad0b3d79e57b63cd7e6c583665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:37 +0000
Subject: [PATCH 35/45] fix: store the year of the era, as the Year attribute
 has it, in laws made from text

---
 src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index bf50719..ada76b5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -67,7 +67,7 @@ pub fn parse_xml_file(path: &str) -> Result<law::Law> {
   Ok(law)
 }
 
-/// テキスト情報を法律の構造体に変換する
+/// テキスト情報を法律の構造体に変換する（`year`は西暦）
 #[allow(clippy::too_many_arguments)]
 pub fn parse_text(
   text: &str,
@@ -102,7 +102,7 @@ pub fn parse_text(
   let body = parse_from_text::parse_body(title, text)?;
   Ok(law::Law {
     era,
-    year,
+    year: e.year() as usize,
     num,
     promulgate_month: month,
     promulgate_day: day,
-- 
2.43.0


From d8fadd160b3ca34627aebd8f2a2cf99002727c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:11 +0000
Subject: [PATCH 36/45] fix: Toc::set_article sets the article number

---
 src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 6b1029d..c7c73ae 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -940,7 +940,7 @@ impl Toc {
     self.division_number = num;
   }
   pub fn set_article(&mut self, num: Option<ArticleNumber>) {
-    self.division_number = num;
+    self.article_number = num;
   }
   pub fn set_title(&mut self, title: Option<String>) {
     self.title = title;
-- 
2.43.0


From daeec1c4b9442a160467b547e191a045807fbdb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:18 +0000
Subject: [PATCH 37/45] fix: keep the numbers of earlier siblings out of
 table-of-contents entries

---
 src/utils.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index c7c73ae..3a40731 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -1029,12 +1029,13 @@ fn toc_list_from_part(t: &Part) -> Vec<Toc> {
   for children in t.children.iter() {
     match children {
       PartContents::Article(t) => {
+        let mut toc = toc.clone();
         toc.set_article(Some(t.num.clone()));
         toc.set_title(Some(t.title.to_string()));
-        v.push(toc.clone());
+        v.push(toc);
       }
       PartContents::Chapter(t) => {
-        let mut toc_list = toc_list_from_chapter(t, &mut toc);
+        let mut toc_list = toc_list_from_chapter(t, &mut toc.clone());
         v.append(&mut toc_list);
       }
     }
@@ -1051,9 +1052,10 @@ fn toc_list_from_chapter(t: &Chapter, toc: &mut Toc) -> Vec<Toc> {
   for children in t.children.iter() {
     match children {
       ChapterContents::Article(t) => {
+        let mut toc = toc.clone();
         toc.set_article(Some(t.num.clone()));
         toc.set_title(Some(t.title.to_string()));
-        v.push(toc.clone());
+        v.push(toc);
       }
       ChapterContents::Section(t) => {
         let mut toc_list = toc_list_from_section(t, &mut toc.clone());
@@ -1073,9 +1075,10 @@ fn toc_list_from_section(t: &Section, toc: &mut Toc) -> Vec<Toc> {
   for children in t.children.iter() {
     match children {
       SectionContents::Article(t) => {
+        let mut toc = toc.clone();
         toc.set_article(Some(t.num.clone()));
         toc.set_title(Some(t.title.to_string()));
-        v.push(toc.clone());
+        v.push(toc);
       }
       SectionContents::Subsection(t) => {
         let mut toc_list = toc_list_from_subsection(t, &mut toc.clone());
@@ -1099,9 +1102,10 @@ fn toc_list_from_subsection(t: &Subsection, toc: &mut Toc) -> Vec<Toc> {
   for children in t.children.iter() {
     match children {
       SubsectionContents::Article(t) => {
+        let mut toc = toc.clone();
         toc.set_article(Some(t.num.clone()));
         toc.set_title(Some(t.title.to_string()));
-        v.push(toc.clone());
+        v.push(toc);
       }
       SubsectionContents::Division(t) => {
         let mut toc_list = toc_list_from_division(t, &mut toc.clone());
@@ -1119,9 +1123,10 @@ fn toc_list_from_division(t: &Division, toc: &mut Toc) -> Vec<Toc> {
   toc.set_title(Some(t.division_title.to_string()));
   v.push(toc.clone());
   for t in t.children.iter() {
+    let mut toc = toc.clone();
     toc.set_article(Some(t.num.clone()));
     toc.set_title(Some(t.title.to_string()));
-    v.push(toc.clone());
+    v.push(toc);
   }
   v
 }
-- 
2.43.0


From 814366d5b9b9c656225b5c1a29b2d36b9ad1ba33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:25 +0000
Subject: [PATCH 38/45] fix: attach the number of the enclosing part, chapter,
 section and subsection to listed articles

---
 src/utils.rs | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 3a40731..148ff0e 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -211,7 +211,7 @@ fn article_list_from_part(part: &Part) -> Vec<WithNumberArticle> {
         let mut v3 = v2
           .iter_mut()
           .map(|w| {
-            w.set_part(Some(t.num.clone()));
+            w.set_part(Some(part.num.clone()));
             w.clone()
           })
           .collect::<Vec<_>>();
@@ -219,7 +219,7 @@ fn article_list_from_part(part: &Part) -> Vec<WithNumberArticle> {
       }
       PartContents::Article(t) => {
         let mut w = WithNumberArticle::new(t.clone());
-        w.set_part(Some(t.num.clone()));
+        w.set_part(Some(part.num.clone()));
         v.push(w)
       }
     }
@@ -227,16 +227,16 @@ fn article_list_from_part(part: &Part) -> Vec<WithNumberArticle> {
   v
 }
 
-fn article_list_from_chapter(t: &Chapter) -> Vec<WithNumberArticle> {
+fn article_list_from_chapter(chapter: &Chapter) -> Vec<WithNumberArticle> {
   let mut v = Vec::new();
-  for contents in t.children.iter() {
+  for contents in chapter.children.iter() {
     match contents {
       ChapterContents::Section(t) => {
         let mut v2 = article_list_from_section(t);
         let mut v3 = v2
           .iter_mut()
           .map(|w| {
-            w.set_chapter(Some(t.num.clone()));
+            w.set_chapter(Some(chapter.num.clone()));
             w.clone()
           })
           .collect::<Vec<_>>();
@@ -244,7 +244,7 @@ fn article_list_from_chapter(t: &Chapter) -> Vec<WithNumberArticle> {
       }
       ChapterContents::Article(t) => {
         let mut w = WithNumberArticle::new(t.clone());
-        w.set_chapter(Some(t.num.clone()));
+        w.set_chapter(Some(chapter.num.clone()));
         v.push(w)
       }
     }
@@ -252,16 +252,16 @@ fn article_list_from_chapter(t: &Chapter) -> Vec<WithNumberArticle> {
   v
 }
 
-fn article_list_from_section(t: &Section) -> Vec<WithNumberArticle> {
+fn article_list_from_section(section: &Section) -> Vec<WithNumberArticle> {
   let mut v = Vec::new();
-  for contents in t.children.iter() {
+  for contents in section.children.iter() {
     match contents {
       SectionContents::Subsection(t) => {
         let mut v2 = article_list_from_subsection(t);
         let mut v3 = v2
           .iter_mut()
           .map(|w| {
-            w.set_section(Some(t.num.clone()));
+            w.set_section(Some(section.num.clone()));
             w.clone()
           })
           .collect::<Vec<_>>();
@@ -272,7 +272,7 @@ fn article_list_from_section(t: &Section) -> Vec<WithNumberArticle> {
         let mut v3 = v2
           .iter_mut()
           .map(|w| {
-            w.set_section(Some(t.num.clone()));
+            w.set_section(Some(section.num.clone()));
             w.clone()
           })
           .collect::<Vec<_>>();
@@ -280,7 +280,7 @@ fn article_list_from_section(t: &Section) -> Vec<WithNumberArticle> {
       }
       SectionContents::Article(t) => {
         let mut w = WithNumberArticle::new(t.clone());
-        w.set_section(Some(t.num.clone()));
+        w.set_section(Some(section.num.clone()));
         v.push(w)
       }
     }
@@ -289,16 +289,16 @@ fn article_list_from_section(t: &Section) -> Vec<WithNumberArticle> {
 }
 
 #[allow(clippy::too_many_arguments)]
-fn article_list_from_subsection(t: &Subsection) -> Vec<WithNumberArticle> {
+fn article_list_from_subsection(subsection: &Subsection) -> Vec<WithNumberArticle> {
   let mut v = Vec::new();
-  for contents in t.children.iter() {
+  for contents in subsection.children.iter() {
     match contents {
       SubsectionContents::Division(t) => {
         let mut v2 = article_list_from_division(t);
         let mut v3 = v2
           .iter_mut()
           .map(|w| {
-            w.set_subsection(Some(t.num.clone()));
+            w.set_subsection(Some(subsection.num.clone()));
             w.clone()
           })
           .collect::<Vec<_>>();
@@ -306,7 +306,7 @@ fn article_list_from_subsection(t: &Subsection) -> Vec<WithNumberArticle> {
       }
       SubsectionContents::Article(t) => {
         let mut w = WithNumberArticle::new(t.clone());
-        w.set_subsection(Some(t.num.clone()));
+        w.set_subsection(Some(subsection.num.clone()));
         v.push(w)
       }
     }
-- 
2.43.0


From 357c6ce9abb9bf86f7a361e4b902512479c10bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:33 +0000
Subject: [PATCH 39/45] fix: include the text of tables in Subitem6

---
 src/utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index 148ff0e..4d3708b 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -629,7 +629,7 @@ fn text_list_from_subitem6(
         })
         .collect::<Vec<_>>()
         .join(" "),
-      SentenceOrColumnOrTable::Table(_) => String::new(),
+      SentenceOrColumnOrTable::Table(table) => table_to_str(table),
     };
     v.push((
       TextIndex {
-- 
2.43.0


From 4536ef1f1585a22af605a866bbdc19c00391654d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:42 +0000
Subject: [PATCH 40/45] fix: read hiragana item numbers with branch numbers or
 a range
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The hiragana alternative of the item number pattern took any run of
hiragana as the number itself, so that in いのろ or いからはまで the
words の, から and まで were swallowed and the number was not read.
An iroha symbol is a single character.
---
 src/article_number.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/article_number.rs b/src/article_number.rs
index 9ebee41..965010c 100644
--- a/src/article_number.rs
+++ b/src/article_number.rs
@@ -542,7 +542,7 @@ fn check_parse_article_number() {
 }
 
 pub fn parse_item_number(str: &str) -> Option<ItemNumber> {
-  let re_item = Regex::new(r"^(?<base_number>(（(([ア-ン]+)|([あ-ん]+)|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))）|(([ア-ン]+)|([あ-ん]+)|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))))(?<eda_numbers>(の(（(([ア-ン]+)|([あ-ん]+)|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))）|(([ア-ン]+)|([あ-ん]+)|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))))+)?(から(?<base_number2>(（(([ア-ン]+)|([あ-ん]+)|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))）|(([ア-ン]+)|([あ-ん]+)|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))))(?<eda_numbers2>(の(（(([ア-ン]+)|([あ-ん]+)|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))）|(([ア-ン]+)|([あ-ん]+)|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))))+)?まで)?$").unwrap();
+  let re_item = Regex::new(r"^(?<base_number>(（(([ア-ン]+)|[あ-ん]|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))）|(([ア-ン]+)|[あ-ん]|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))))(?<eda_numbers>(の(（(([ア-ン]+)|[あ-ん]|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))）|(([ア-ン]+)|[あ-ん]|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))))+)?(から(?<base_number2>(（(([ア-ン]+)|[あ-ん]|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))）|(([ア-ン]+)|[あ-ん]|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))))(?<eda_numbers2>(の(（(([ア-ン]+)|[あ-ん]|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))）|(([ア-ン]+)|[あ-ん]|([一二三四五六七八九十百千]+)|([０-９]+)|([Ａ-Ｚ]+)|([ａ-ｚ]+))))+)?まで)?$").unwrap();
   if let Some(caps) = re_item.captures(str.trim()) {
     if let Some((pat, base_number)) = parse_item_number_base(&caps["base_number"]) {
       let eda_numbers = if let Some(m) = &caps.name("eda_numbers") {
-- 
2.43.0


From 328a70e7a1029b7eb617a9ba54ec8e20862f1859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:45 +0000
Subject: [PATCH 41/45] fix: headings of supplementary provisions in text were
 read as plain text

---
 src/parse_from_text.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/parse_from_text.rs b/src/parse_from_text.rs
index 4f30de3..75dc58b 100644
--- a/src/parse_from_text.rs
+++ b/src/parse_from_text.rs
@@ -944,9 +944,12 @@ fn parse_line_contents(line: &str) -> LineContents {
   let line = line.trim();
   let re_caption = Regex::new("^（(?<caption>[^）]+)）$").unwrap();
   let re_suppl_provision =
-    Regex::new(r"^附([　\s]*)則([　\s]*)(（(?<law_num>.+)）)?[^（）]*$").unwrap();
+    Regex::new(r"^附([　\s]*)則(([　\s]*)（(?<law_num>.+)）[^（）]*|[　\s]+[^（）]*)?$").unwrap();
   if let Some(caps) = re_caption.captures(line) {
     Caption(caps["caption"].to_string())
+  } else if let Some(caps) = re_suppl_provision.captures(line) {
+    let law_num = caps.name("law_num").map(|m| m.as_str().to_string());
+    SupplProvision(law_num)
   } else if let Some((s, text)) = split_number(line) {
     if let Some(article_number) = article_number::parse_article_number(&s) {
       if s.contains('編') {
@@ -969,9 +972,6 @@ fn parse_line_contents(line: &str) -> LineContents {
     } else {
       Text(line.to_string())
     }
-  } else if let Some(caps) = re_suppl_provision.captures(line) {
-    let law_num = caps.name("law_num").map(|m| m.as_str().to_string());
-    SupplProvision(law_num)
   } else {
     Text(line.to_string())
   }
-- 
2.43.0


From 20ee3b7386f14d14a9bbb6a0a19e7a255febdbb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:12 +0000
Subject: [PATCH 42/45] fix: blank lines in text became empty sentences and
 ended parts and chapters

---
 src/parse_from_text.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parse_from_text.rs b/src/parse_from_text.rs
index 75dc58b..ee80b2f 100644
--- a/src/parse_from_text.rs
+++ b/src/parse_from_text.rs
@@ -740,7 +740,7 @@ fn text_to_sentence(num: usize, text: &str) -> sentence::Sentence {
 
 pub(crate) fn parse_body(title: &str, text: &str) -> Result<law::LawBody> {
   let mut lines = Vec::new();
-  for line in text.lines().map(|s| s.trim()) {
+  for line in text.lines().map(|s| s.trim()).filter(|s| !s.is_empty()) {
     let line_contents = parse_line_contents(line);
     lines.push(line_contents)
   }
-- 
2.43.0


From d7eb696d6ab19a86555184f9bbbb0f444116f0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:18 +0000
Subject: [PATCH 43/45] fix: paragraphs outside of articles ended building a
 law from text

---
 src/parse_from_text.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/parse_from_text.rs b/src/parse_from_text.rs
index ee80b2f..a6768d2 100644
--- a/src/parse_from_text.rs
+++ b/src/parse_from_text.rs
@@ -801,6 +801,23 @@ pub(crate) fn parse_body(title: &str, text: &str) -> Result<law::LawBody> {
         caption_opt = None;
         is_preamble = false;
       }
+      LineContents::Paragraph(n, text) => {
+        lines.next();
+        let mut para = parse_paragraph(n, text, &mut lines);
+        para.caption = caption_opt.map(|s| class::Caption {
+          text: text::Text::from_value(s),
+          common_caption: None,
+        });
+        if suppl_provision_law_num_opt.is_some() {
+          suppl_provision_children.push(suppl_provision::SupplProvisionChildrenElement::Paragraph(
+            para,
+          ))
+        } else {
+          main_provision_children.push(law::MainProvisionContents::Paragraph(para));
+        }
+        caption_opt = None;
+        is_preamble = false;
+      }
       LineContents::Text(s) => {
         if is_preamble {
           preamble_text_list.push(s.to_string());
-- 
2.43.0


From c09851166e2738c9f787934ef3c9c7a4f4e77169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:23 +0000
Subject: [PATCH 44/45] fix: unnumbered text of supplementary provisions was
 dropped when building a law from text

---
 src/parse_from_text.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parse_from_text.rs b/src/parse_from_text.rs
index a6768d2..3ff0981 100644
--- a/src/parse_from_text.rs
+++ b/src/parse_from_text.rs
@@ -819,10 +819,15 @@ pub(crate) fn parse_body(title: &str, text: &str) -> Result<law::LawBody> {
         is_preamble = false;
       }
       LineContents::Text(s) => {
+        lines.next();
         if is_preamble {
           preamble_text_list.push(s.to_string());
+        } else if suppl_provision_law_num_opt.is_some() {
+          let n = ArticleNumber::from_num_str("1").unwrap();
+          suppl_provision_children.push(suppl_provision::SupplProvisionChildrenElement::Paragraph(
+            parse_paragraph(&n, s, &mut lines),
+          ))
         }
-        lines.next();
       }
       LineContents::SupplProvision(law_num) => {
         lines.next();
-- 
2.43.0


From 2ae30595092b30069e15699a2c62d7818a5f255e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:59 +0000
Subject: [PATCH 45/45] fix: items after deeper subitems were put below them
 when building a law from text

---
 src/parse_from_text.rs | 96 +++++++++++++++++++++++++-----------------
 1 file changed, 57 insertions(+), 39 deletions(-)

diff --git a/src/parse_from_text.rs b/src/parse_from_text.rs
index 3ff0981..b59f3a8 100644
--- a/src/parse_from_text.rs
+++ b/src/parse_from_text.rs
@@ -259,7 +259,7 @@ fn parse_paragraph(
     let mut subitem1 = Vec::new();
     if let Some(LineContents::Item(item_number_sub1, _)) = lines.peek() {
       if item_number_sub1.pattern != item_number.pattern {
-        subitem1 = parse_subitem1(item_number.pattern, item_number_sub1.pattern, lines);
+        subitem1 = parse_subitem1(&[item_number.pattern], item_number_sub1.pattern, lines);
       }
     }
     let item = paragraph::Item {
@@ -296,13 +296,13 @@ fn parse_paragraph(
 }
 
 fn parse_subitem1(
-  parent_pattern: ItemPattern,
+  parent_patterns: &[ItemPattern],
   now_pat: ItemPattern,
   lines: &mut std::iter::Peekable<std::slice::Iter<LineContents>>,
 ) -> Vec<paragraph::Subitem1> {
   let mut v = Vec::new();
   while let Some(LineContents::Item(item_number, text)) = lines.peek() {
-    if item_number.pattern == parent_pattern {
+    if parent_patterns.contains(&item_number.pattern) {
       break;
     } else if item_number.pattern == now_pat {
       lines.next();
@@ -313,8 +313,10 @@ fn parse_subitem1(
       }
       let mut subitem2 = Vec::new();
       if let Some(LineContents::Item(item_number, _)) = lines.peek() {
-        if item_number.pattern != now_pat && item_number.pattern != parent_pattern {
-          subitem2 = parse_subitem2(now_pat, item_number.pattern, lines);
+        if item_number.pattern != now_pat && !parent_patterns.contains(&item_number.pattern) {
+          let mut parent_patterns = parent_patterns.to_vec();
+          parent_patterns.push(now_pat);
+          subitem2 = parse_subitem2(&parent_patterns, item_number.pattern, lines);
         }
       }
       v.push(paragraph::Subitem1 {
@@ -340,13 +342,13 @@ fn parse_subitem1(
 }
 
 fn parse_subitem2(
-  parent_pattern: ItemPattern,
+  parent_patterns: &[ItemPattern],
   now_pat: ItemPattern,
   lines: &mut std::iter::Peekable<std::slice::Iter<LineContents>>,
 ) -> Vec<paragraph::Subitem2> {
   let mut v = Vec::new();
   while let Some(LineContents::Item(item_number, text)) = lines.peek() {
-    if item_number.pattern == parent_pattern {
+    if parent_patterns.contains(&item_number.pattern) {
       break;
     } else if item_number.pattern == now_pat {
       lines.next();
@@ -357,8 +359,10 @@ fn parse_subitem2(
       }
       let mut subitem3 = Vec::new();
       if let Some(LineContents::Item(item_number, _)) = lines.peek() {
-        if item_number.pattern != now_pat && item_number.pattern != parent_pattern {
-          subitem3 = parse_subitem3(now_pat, item_number.pattern, lines);
+        if item_number.pattern != now_pat && !parent_patterns.contains(&item_number.pattern) {
+          let mut parent_patterns = parent_patterns.to_vec();
+          parent_patterns.push(now_pat);
+          subitem3 = parse_subitem3(&parent_patterns, item_number.pattern, lines);
         }
       }
       v.push(paragraph::Subitem2 {
@@ -384,13 +388,13 @@ fn parse_subitem2(
 }
 
 fn parse_subitem3(
-  parent_pattern: ItemPattern,
+  parent_patterns: &[ItemPattern],
   now_pat: ItemPattern,
   lines: &mut std::iter::Peekable<std::slice::Iter<LineContents>>,
 ) -> Vec<paragraph::Subitem3> {
   let mut v = Vec::new();
   while let Some(LineContents::Item(item_number, text)) = lines.peek() {
-    if item_number.pattern == parent_pattern {
+    if parent_patterns.contains(&item_number.pattern) {
       break;
     } else if item_number.pattern == now_pat {
       lines.next();
@@ -401,8 +405,10 @@ fn parse_subitem3(
       }
       let mut subitem4 = Vec::new();
       if let Some(LineContents::Item(item_number, _)) = lines.peek() {
-        if item_number.pattern != now_pat && item_number.pattern != parent_pattern {
-          subitem4 = parse_subitem4(now_pat, item_number.pattern, lines);
+        if item_number.pattern != now_pat && !parent_patterns.contains(&item_number.pattern) {
+          let mut parent_patterns = parent_patterns.to_vec();
+          parent_patterns.push(now_pat);
+          subitem4 = parse_subitem4(&parent_patterns, item_number.pattern, lines);
         }
       }
       v.push(paragraph::Subitem3 {
@@ -428,13 +434,13 @@ fn parse_subitem3(
 }
 
 fn parse_subitem4(
-  parent_pattern: ItemPattern,
+  parent_patterns: &[ItemPattern],
   now_pat: ItemPattern,
   lines: &mut std::iter::Peekable<std::slice::Iter<LineContents>>,
 ) -> Vec<paragraph::Subitem4> {
   let mut v = Vec::new();
   while let Some(LineContents::Item(item_number, text)) = lines.peek() {
-    if item_number.pattern == parent_pattern {
+    if parent_patterns.contains(&item_number.pattern) {
       break;
     } else if item_number.pattern == now_pat {
       lines.next();
@@ -445,8 +451,10 @@ fn parse_subitem4(
       }
       let mut subitem5 = Vec::new();
       if let Some(LineContents::Item(item_number, _)) = lines.peek() {
-        if item_number.pattern != now_pat && item_number.pattern != parent_pattern {
-          subitem5 = parse_subitem5(now_pat, item_number.pattern, lines);
+        if item_number.pattern != now_pat && !parent_patterns.contains(&item_number.pattern) {
+          let mut parent_patterns = parent_patterns.to_vec();
+          parent_patterns.push(now_pat);
+          subitem5 = parse_subitem5(&parent_patterns, item_number.pattern, lines);
         }
       }
       v.push(paragraph::Subitem4 {
@@ -472,13 +480,13 @@ fn parse_subitem4(
 }
 
 fn parse_subitem5(
-  parent_pattern: ItemPattern,
+  parent_patterns: &[ItemPattern],
   now_pat: ItemPattern,
   lines: &mut std::iter::Peekable<std::slice::Iter<LineContents>>,
 ) -> Vec<paragraph::Subitem5> {
   let mut v = Vec::new();
   while let Some(LineContents::Item(item_number, text)) = lines.peek() {
-    if item_number.pattern == parent_pattern {
+    if parent_patterns.contains(&item_number.pattern) {
       break;
     } else if item_number.pattern == now_pat {
       lines.next();
@@ -489,8 +497,10 @@ fn parse_subitem5(
       }
       let mut subitem6 = Vec::new();
       if let Some(LineContents::Item(item_number, _)) = lines.peek() {
-        if item_number.pattern != now_pat && item_number.pattern != parent_pattern {
-          subitem6 = parse_subitem6(now_pat, item_number.pattern, lines);
+        if item_number.pattern != now_pat && !parent_patterns.contains(&item_number.pattern) {
+          let mut parent_patterns = parent_patterns.to_vec();
+          parent_patterns.push(now_pat);
+          subitem6 = parse_subitem6(&parent_patterns, item_number.pattern, lines);
         }
       }
       v.push(paragraph::Subitem5 {
@@ -516,13 +526,13 @@ fn parse_subitem5(
 }
 
 fn parse_subitem6(
-  parent_pattern: ItemPattern,
+  parent_patterns: &[ItemPattern],
   now_pat: ItemPattern,
   lines: &mut std::iter::Peekable<std::slice::Iter<LineContents>>,
 ) -> Vec<paragraph::Subitem6> {
   let mut v = Vec::new();
   while let Some(LineContents::Item(item_number, text)) = lines.peek() {
-    if item_number.pattern == parent_pattern {
+    if parent_patterns.contains(&item_number.pattern) {
       break;
     } else if item_number.pattern == now_pat {
       lines.next();
@@ -533,8 +543,10 @@ fn parse_subitem6(
       }
       let mut subitem7 = Vec::new();
       if let Some(LineContents::Item(item_number, _)) = lines.peek() {
-        if item_number.pattern != now_pat && item_number.pattern != parent_pattern {
-          subitem7 = parse_subitem7(now_pat, item_number.pattern, lines);
+        if item_number.pattern != now_pat && !parent_patterns.contains(&item_number.pattern) {
+          let mut parent_patterns = parent_patterns.to_vec();
+          parent_patterns.push(now_pat);
+          subitem7 = parse_subitem7(&parent_patterns, item_number.pattern, lines);
         }
       }
       v.push(paragraph::Subitem6 {
@@ -560,13 +572,13 @@ fn parse_subitem6(
 }
 
 fn parse_subitem7(
-  parent_pattern: ItemPattern,
+  parent_patterns: &[ItemPattern],
   now_pat: ItemPattern,
   lines: &mut std::iter::Peekable<std::slice::Iter<LineContents>>,
 ) -> Vec<paragraph::Subitem7> {
   let mut v = Vec::new();
   while let Some(LineContents::Item(item_number, text)) = lines.peek() {
-    if item_number.pattern == parent_pattern {
+    if parent_patterns.contains(&item_number.pattern) {
       break;
     } else if item_number.pattern == now_pat {
       lines.next();
@@ -577,8 +589,10 @@ fn parse_subitem7(
       }
       let mut subitem8 = Vec::new();
       if let Some(LineContents::Item(item_number, _)) = lines.peek() {
-        if item_number.pattern != now_pat && item_number.pattern != parent_pattern {
-          subitem8 = parse_subitem8(now_pat, item_number.pattern, lines);
+        if item_number.pattern != now_pat && !parent_patterns.contains(&item_number.pattern) {
+          let mut parent_patterns = parent_patterns.to_vec();
+          parent_patterns.push(now_pat);
+          subitem8 = parse_subitem8(&parent_patterns, item_number.pattern, lines);
         }
       }
       v.push(paragraph::Subitem7 {
@@ -604,13 +618,13 @@ fn parse_subitem7(
 }
 
 fn parse_subitem8(
-  parent_pattern: ItemPattern,
+  parent_patterns: &[ItemPattern],
   now_pat: ItemPattern,
   lines: &mut std::iter::Peekable<std::slice::Iter<LineContents>>,
 ) -> Vec<paragraph::Subitem8> {
   let mut v = Vec::new();
   while let Some(LineContents::Item(item_number, text)) = lines.peek() {
-    if item_number.pattern == parent_pattern {
+    if parent_patterns.contains(&item_number.pattern) {
       break;
     } else if item_number.pattern == now_pat {
       lines.next();
@@ -621,8 +635,10 @@ fn parse_subitem8(
       }
       let mut subitem9 = Vec::new();
       if let Some(LineContents::Item(item_number, _)) = lines.peek() {
-        if item_number.pattern != now_pat && item_number.pattern != parent_pattern {
-          subitem9 = parse_subitem9(now_pat, item_number.pattern, lines);
+        if item_number.pattern != now_pat && !parent_patterns.contains(&item_number.pattern) {
+          let mut parent_patterns = parent_patterns.to_vec();
+          parent_patterns.push(now_pat);
+          subitem9 = parse_subitem9(&parent_patterns, item_number.pattern, lines);
         }
       }
       v.push(paragraph::Subitem8 {
@@ -648,13 +664,13 @@ fn parse_subitem8(
 }
 
 fn parse_subitem9(
-  parent_pattern: ItemPattern,
+  parent_patterns: &[ItemPattern],
   now_pat: ItemPattern,
   lines: &mut std::iter::Peekable<std::slice::Iter<LineContents>>,
 ) -> Vec<paragraph::Subitem9> {
   let mut v = Vec::new();
   while let Some(LineContents::Item(item_number, text)) = lines.peek() {
-    if item_number.pattern == parent_pattern {
+    if parent_patterns.contains(&item_number.pattern) {
       break;
     } else if item_number.pattern == now_pat {
       lines.next();
@@ -665,8 +681,10 @@ fn parse_subitem9(
       }
       let mut subitem10 = Vec::new();
       if let Some(LineContents::Item(item_number, _)) = lines.peek() {
-        if item_number.pattern != now_pat && item_number.pattern != parent_pattern {
-          subitem10 = parse_subitem10(now_pat, item_number.pattern, lines);
+        if item_number.pattern != now_pat && !parent_patterns.contains(&item_number.pattern) {
+          let mut parent_patterns = parent_patterns.to_vec();
+          parent_patterns.push(now_pat);
+          subitem10 = parse_subitem10(&parent_patterns, item_number.pattern, lines);
         }
       }
       v.push(paragraph::Subitem9 {
@@ -692,13 +710,13 @@ fn parse_subitem9(
 }
 
 fn parse_subitem10(
-  parent_pattern: ItemPattern,
+  parent_patterns: &[ItemPattern],
   now_pat: ItemPattern,
   lines: &mut std::iter::Peekable<std::slice::Iter<LineContents>>,
 ) -> Vec<paragraph::Subitem10> {
   let mut v = Vec::new();
   while let Some(LineContents::Item(item_number, text)) = lines.peek() {
-    if item_number.pattern == parent_pattern {
+    if parent_patterns.contains(&item_number.pattern) {
       break;
     } else if item_number.pattern == now_pat {
       lines.next();
-- 
2.43.0

