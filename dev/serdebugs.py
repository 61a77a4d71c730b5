"""C17 variants"""
A = 'src/article.rs'; T = 'src/text.rs'; L = 'src/law.rs'; LI = 'src/line.rs'; N = 'src/article_number.rs'; P = 'src/paragraph.rs'
D = "#[derive(Debug, Clone, Hash, Serialize, Deserialize, PartialEq, Eq)]\n"
ART = "pub struct Article {\n  pub caption: Option<Caption>,\n  pub title: Text,\n"
NF = "  pub range_end_numbers: Vec<usize>,\n}"
ND = "#[derive(Debug, Clone, Deserialize, Serialize, PartialEq, Eq, Hash)]\npub struct ArticleNumber"
R = [
 ('skip default (bad)', [(N, NF, "  #[serde(skip)]\n" + NF)]),
 ('skip ser default (bad)', [(N, NF, "  #[serde(skip_serializing, default)]\n" + NF)]),
 ('skip de (bad)', [(N, NF, "  #[serde(skip_deserializing)]\n" + NF)]),
 ('skip if with default (ok)', [(N, NF, "  #[serde(skip_serializing_if = \"Vec::is_empty\", default)]\n" + NF)]),
 ('skip if no default (bad)', [(N, NF, "  #[serde(skip_serializing_if = \"Vec::is_empty\")]\n" + NF)]),
 ('default only (ok)', [(N, NF, "  #[serde(default)]\n" + NF)]),
 ('skip if option (ok)', [(A, ART, "pub struct Article {\n  #[serde(skip_serializing_if = \"Option::is_none\")]\n  pub caption: Option<Caption>,\n  pub title: Text,\n")]),
 ('rename (ok)', [(N, NF, "  #[serde(rename = \"range\")]\n" + NF)]),
 ('rename one side (bad)', [(N, NF, "  #[serde(rename(serialize = \"range\"), default)]\n" + NF)]),
 ('rename swap de (bad)', [(N, "  pub eda_numbers: Vec<usize>,\n", "  #[serde(rename(deserialize = \"range_end_numbers\"))]\n  pub eda_numbers: Vec<usize>,\n"), (N, NF, "  #[serde(rename(deserialize = \"eda_numbers\"))]\n" + NF)]),
 ('rename_all (ok)', [(A, "pub struct Article {\n", "#[serde(rename_all = \"camelCase\")]\npub struct Article {\n")]),
 ('alias (ok)', [(N, NF, "  #[serde(alias = \"range\")]\n" + NF)]),
 ('variant skip ser (bad)', [(L, "  /// 勅令\n  ImperialOrder,\n", "  /// 勅令\n  #[serde(skip_serializing)]\n  ImperialOrder,\n")]),
 ('variant skip (bad)', [(L, "  /// 勅令\n  ImperialOrder,\n", "  /// 勅令\n  #[serde(skip)]\n  ImperialOrder,\n")]),
 ('variant same name (bad)', [(L, "  /// 勅令\n  ImperialOrder,\n", "  /// 勅令\n  #[serde(rename(serialize = \"CabinetOrder\"))]\n  ImperialOrder,\n")]),
 ('variant other (ok)', [(L, "  Misc,\n", "  #[serde(other)]\n  Misc,\n"), ] ),
 ('other with rename (bad)', [(L, "  Misc,\n", "  #[serde(other)]\n  Misc,\n"), (L, "  ImperialOrder,\n", "  #[serde(rename(serialize = \"Imperial\"))]\n  ImperialOrder,\n")]),
 ('untagged (bad)', [(T, "pub enum TextElement {\n", "#[serde(untagged)]\npub enum TextElement {\n")]),
 ('variant rename all (ok)', [(L, "pub enum LawType {\n", "#[serde(rename_all = \"snake_case\")]\npub enum LawType {\n")]),
 ('manual eq partial (bad)', [(N, ND, "#[derive(Debug, Clone, Deserialize, Serialize, Eq, Hash)]\npub struct ArticleNumber"), (N, "impl ArticleNumber {\n", "impl PartialEq for ArticleNumber {\n  fn eq(&self, o: &Self) -> bool {\n    self.base_number == o.base_number && self.eda_numbers == o.eda_numbers\n  }\n}\nimpl ArticleNumber {\n")]),
 ('manual eq string (bad)', [(N, ND, "#[derive(Debug, Clone, Deserialize, Serialize, Eq, Hash)]\npub struct ArticleNumber"), (N, "impl ArticleNumber {\n", "impl PartialEq for ArticleNumber {\n  fn eq(&self, o: &Self) -> bool {\n    self.base_number == o.base_number && self.eda_numbers == o.eda_numbers && self.range_end_numbers.len() == o.range_end_numbers.len()\n  }\n}\nimpl ArticleNumber {\n")]),
 ('manual eq full (ok)', [(N, ND, "#[derive(Debug, Clone, Deserialize, Serialize, Eq, Hash)]\npub struct ArticleNumber"), (N, "impl ArticleNumber {\n", "impl PartialEq for ArticleNumber {\n  fn eq(&self, o: &Self) -> bool {\n    self.base_number == o.base_number && self.eda_numbers == o.eda_numbers && self.range_end_numbers == o.range_end_numbers\n  }\n}\nimpl ArticleNumber {\n")]),
 ('manual eq tuple (ok)', [(N, ND, "#[derive(Debug, Clone, Deserialize, Serialize, Eq, Hash)]\npub struct ArticleNumber"), (N, "impl ArticleNumber {\n", "impl PartialEq for ArticleNumber {\n  fn eq(&self, o: &Self) -> bool {\n    (self.base_number, &self.eda_numbers, &self.range_end_numbers) == (o.base_number, &o.eda_numbers, &o.range_end_numbers)\n  }\n}\nimpl ArticleNumber {\n")]),
 ('manual eq early return (ok)', [(N, ND, "#[derive(Debug, Clone, Deserialize, Serialize, Eq, Hash)]\npub struct ArticleNumber"), (N, "impl ArticleNumber {\n", "impl PartialEq for ArticleNumber {\n  fn eq(&self, o: &Self) -> bool {\n    if self.base_number != o.base_number {\n      return false;\n    }\n    let ArticleNumber { base_number: _, eda_numbers, range_end_numbers } = self;\n    eda_numbers.eq(&o.eda_numbers) && !(range_end_numbers != &o.range_end_numbers)\n  }\n}\nimpl ArticleNumber {\n")]),
 ('manual clone (ok)', [(N, ND, "#[derive(Debug, Deserialize, Serialize, PartialEq, Eq, Hash)]\npub struct ArticleNumber"), (N, "impl ArticleNumber {\n", "impl Clone for ArticleNumber {\n  fn clone(&self) -> Self {\n    ArticleNumber {\n      base_number: self.base_number,\n      eda_numbers: self.eda_numbers.to_vec(),\n      range_end_numbers: self.range_end_numbers.iter().copied().collect(),\n    }\n  }\n}\nimpl ArticleNumber {\n")]),
 ('manual clone (bad)', [(N, ND, "#[derive(Debug, Deserialize, Serialize, PartialEq, Eq, Hash)]\npub struct ArticleNumber"), (N, "impl ArticleNumber {\n", "impl Clone for ArticleNumber {\n  fn clone(&self) -> Self {\n    ArticleNumber {\n      base_number: self.base_number,\n      eda_numbers: self.eda_numbers.clone(),\n      range_end_numbers: self.eda_numbers.clone(),\n    }\n  }\n}\nimpl ArticleNumber {\n")]),
 ('manual hash (bad)', [(N, ND, "#[derive(Debug, Clone, Deserialize, Serialize, PartialEq, Eq)]\npub struct ArticleNumber"), (N, "impl ArticleNumber {\n", "impl std::hash::Hash for ArticleNumber {\n  fn hash<H: std::hash::Hasher>(&self, h: &mut H) {\n    (self as *const ArticleNumber as usize).hash(h);\n  }\n}\nimpl ArticleNumber {\n")]),
 ('manual hash (ok)', [(N, ND, "#[derive(Debug, Clone, Deserialize, Serialize, PartialEq, Eq)]\npub struct ArticleNumber"), (N, "impl ArticleNumber {\n", "impl std::hash::Hash for ArticleNumber {\n  fn hash<H: std::hash::Hasher>(&self, h: &mut H) {\n    self.base_number.hash(h);\n  }\n}\nimpl ArticleNumber {\n")]),
 ('manual eq ignores case (bad)', [(T, D + "pub struct Ruby", "#[derive(Debug, Clone, Hash, Serialize, Deserialize, Eq)]\npub struct Ruby"), (T, "impl Ruby {\n", "impl PartialEq for Ruby {\n  fn eq(&self, o: &Self) -> bool {\n    self.text == o.text && self.ruby.trim() == o.ruby.trim()\n  }\n}\nimpl Ruby {\n")]),
 ('flatten (ok?)', [(A, "  pub num: ArticleNumber,\n  pub delete: bool,\n  pub hide: bool,\n}\n\nimpl Article {", "  #[serde(flatten)]\n  pub num: ArticleNumber,\n  pub delete: bool,\n  pub hide: bool,\n}\n\nimpl Article {")]),
 ('transparent (ok)', [(T, "pub struct Ruby {", "#[serde(deny_unknown_fields)]\npub struct Ruby {")]),
 ('serialize_with (bad)', [(T, "  pub ruby: String,\n}", "  #[serde(serialize_with = \"ser_trim\")]\n  pub ruby: String,\n}\n\nfn ser_trim<S: serde::Serializer>(s: &str, z: S) -> std::result::Result<S::Ok, S::Error> {\n  z.serialize_str(s.trim())\n}\n")]),
 ('tag (ok)', [(L, "pub enum LawType {\n", "#[serde(tag = \"type\")]\npub enum LawType {\n")]),
 ('manual eq bools (ok)', [(P, D + "pub struct Paragraph {", D.replace(", PartialEq", "") + "pub struct Paragraph {"), (P, "impl Parser for Paragraph {", """impl PartialEq for Paragraph {
  fn eq(&self, o: &Self) -> bool {
    self.caption == o.caption && self.paragraph_num == o.paragraph_num && self.amend_provision == o.amend_provision && self.class == o.class
      && self.sentence == o.sentence && self.struct_list == o.struct_list && self.children == o.children && self.num == o.num
      && self.old_style == o.old_style && self.old_num == o.old_num && self.hide == o.hide
  }
}
impl Parser for Paragraph {""")]),
 ('manual eq bools (bad)', [(P, D + "pub struct Paragraph {", D.replace(", PartialEq", "") + "pub struct Paragraph {"), (P, "impl Parser for Paragraph {", """impl PartialEq for Paragraph {
  fn eq(&self, o: &Self) -> bool {
    self.caption == o.caption && self.paragraph_num == o.paragraph_num && self.amend_provision == o.amend_provision && self.class == o.class
      && self.sentence == o.sentence && self.struct_list == o.struct_list && self.children == o.children && self.num == o.num
      && (self.old_style || !o.old_style) && self.old_num == o.old_num && self.hide == o.hide
  }
}
impl Parser for Paragraph {""")]),
 ('manual eq loop (?)', [(N, ND, "#[derive(Debug, Clone, Deserialize, Serialize, Eq, Hash)]\npub struct ArticleNumber"), (N, "impl ArticleNumber {\n", "impl PartialEq for ArticleNumber {\n  fn eq(&self, o: &Self) -> bool {\n    self.base_number == o.base_number && self.eda_numbers == o.eda_numbers && self.range_end_numbers.iter().zip(o.range_end_numbers.iter()).all(|(a, b)| a == b)\n  }\n}\nimpl ArticleNumber {\n")]),
 ('manual eq iter (ok)', [(N, ND, "#[derive(Debug, Clone, Deserialize, Serialize, Eq, Hash)]\npub struct ArticleNumber"), (N, "impl ArticleNumber {\n", "impl PartialEq for ArticleNumber {\n  fn eq(&self, o: &Self) -> bool {\n    self.base_number == o.base_number && self.eda_numbers == o.eda_numbers && self.range_end_numbers.iter().eq(o.range_end_numbers.iter())\n  }\n}\nimpl ArticleNumber {\n")]),
]
