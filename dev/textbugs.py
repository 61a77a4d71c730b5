"""C19 variants"""
U = 'src/utils.rs'
T = 'src/text.rs'


def block(n, last=False):
    return '''    let sentence_str = match &t.sentence {
      SentenceOrColumnOrTable::Sentence(se) => se
        .iter()
        .map(|sentence| sentence_element_to_str(&sentence.contents))
        .collect::<String>(),
      SentenceOrColumnOrTable::Column(cs) => cs
        .iter()
        .flat_map(|column| {
          column
            .sentence
            .iter()
            .map(|sentence| sentence_element_to_str(&sentence.contents))
        })
        .collect::<Vec<_>>()
        .join(" "),
      SentenceOrColumnOrTable::Table(table) => table_to_str(table),
    };
'''


B = block(1)
HELP = '''fn body_to_str(sentence: &SentenceOrColumnOrTable) -> String {
  match sentence {
    SentenceOrColumnOrTable::Sentence(se) => {
      let mut s = String::new();
      for sentence in se {
        s += &sentence_element_to_str(&sentence.contents);
      }
      s
    }
    SentenceOrColumnOrTable::Column(cs) => {
      let mut l: Vec<String> = Vec::new();
      for column in cs {
        for sentence in &column.sentence {
          l.push(sentence_element_to_str(&sentence.contents));
        }
      }
      l.join(" ")
    }
    SentenceOrColumnOrTable::Table(table) => table_to_str(table),
  }
}

fn text_list_from_subitem1('''
ALLB = [(U, B, "    let sentence_str = body_to_str(&t.sentence);\n")] * 10


def level(n, extra=''):
    a = "    let mut v2 = text_list_from_subitem%d(para_num, l.clone(), &t.children);\n    v.append(&mut v2);\n" % (n + 1)
    return a


ITEMB = '''      items.push(n.clone());
      // childrenとsentenceの処理をする
      let sentence_str = match &item.sentence {
        SentenceOrColumnOrTable::Sentence(se) => se
          .iter()
          .map(|sentence| sentence_element_to_str(&sentence.contents))
          .collect::<String>(),
        SentenceOrColumnOrTable::Column(cs) => cs
          .iter()
          .flat_map(|column| {
            column
              .sentence
              .iter()
              .map(|sentence| sentence_element_to_str(&sentence.contents))
          })
          .collect::<Vec<_>>()
          .join(" "),
        SentenceOrColumnOrTable::Table(table) => table_to_str(table),
      };
'''
LOOPS = '''        for c in contents.iter() {
          match c {
            ContentsElement::String(s2) => s.push_str(s2),
            ContentsElement::Ruby(ruby) => {
              s.push_str(&ruby.text.to_string());
            }
            ContentsElement::Sub(s2) => {
              s.push_str("_{");
              s.push_str(&s2.text);
              s.push('}');
            }
            ContentsElement::Sup(s2) => {
              s.push_str("^{");
              s.push_str(&s2.text);
              s.push('}');
            }
            _ => (),
          }
        }
'''
CH = '''fn contents_to_str(s: &mut String, contents: &[ContentsElement]) {
  for c in contents {
    match c {
      ContentsElement::String(s2) => *s += s2,
      ContentsElement::Ruby(ruby) => *s += &ruby.text.to_string(),
      ContentsElement::Sub(s2) => s.push_str(&format!("_{{{}}}", s2.text)),
      ContentsElement::Sup(s2) => s.push_str(&format!("^{{{}}}", s2.text)),
      _ => {}
    }
  }
}

pub fn sentence_element_to_str('''
SUB5 = "fn text_list_from_subitem5(\n  para_num: &ArticleNumber,\n  items: Vec<Option<ArticleNumber>>,\n  chldren: &[Subitem5],\n) -> Vec<(TextIndex, String)> {\n  let mut v = Vec::new();\n  for t in chldren.iter() {\n"
R = [
 ('body helper (ok)', ALLB + [(U, "fn text_list_from_subitem1(", HELP)]),
 ('item items vec (ok)', [(U, "    let mut items = Vec::new();\n    for item in para.children.iter() {\n      let n = &item.num;\n      items.push(n.clone());\n", "    for item in para.children.iter() {\n      let items = vec![item.num.clone()];\n"), (U, "      v.append(&mut v2);\n      items.pop();\n", "      v.append(&mut v2);\n")]),
 ('extend (ok)', [(U, level(3), "    v.extend(text_list_from_subitem4(para_num, l, &t.children));\n")]),
 ('iterator (ok)', [(U, level(7), "    v.extend(text_list_from_subitem8(para_num, l.clone(), &t.children).into_iter());\n"), (U, "    let mut l = items.clone();\n    l.push(t.num.clone());\n", "    let l = [items.clone(), vec![t.num.clone()]].concat();\n")]),
 ('contents helper (ok)', [(U, LOOPS, "        contents_to_str(&mut s, contents);\n")] * 2 + [(U, "pub fn sentence_element_to_str(", CH)]),
 ('article via paragraphs (ok)', [(U, "  let text_info_list = text_info_list_from_paragraph(&article.paragraph);\n  text_info_list\n    .iter()\n    .map(|(_, s)| s.clone())\n    .collect::<Vec<String>>()\n    .join(\"\\n\")\n", "  text_from_paragraph_list(&article.paragraph)\n")]),
 ('join manual (ok)', [(U, "  let text_info_list = text_info_list_from_paragraph(list);\n  text_info_list\n    .iter()\n    .map(|(_, s)| s.clone())\n    .collect::<Vec<String>>()\n    .join(\"\\n\")\n", "  let texts: Vec<String> = text_info_list_from_paragraph(list).into_iter().map(|(_, s)| s).collect();\n  texts.join(\"\\n\")\n")]),
 ('table loops (ok)', [(U, "    .map(|row| {\n      row\n        .columns\n        .iter()\n        .map(|text| text.to_string())\n        .collect::<String>()\n    })\n", "    .map(|row| {\n      let mut s = String::new();\n      for text in &row.columns {\n        s.push_str(&text.to_string());\n      }\n      s\n    })\n"), (U, '  format!("{header_row_str}\\n{row}")', '  let mut out = header_row_str;\n  out.push(\'\\n\');\n  out.push_str(&row);\n  out')]),
 ('out param (ok)', [(U, level(9), "    append_subitem10(&mut v, para_num, &l, &t.children);\n"), (U, "fn text_list_from_subitem10(\n  para_num: &ArticleNumber,\n  items: Vec<Option<ArticleNumber>>,\n  chldren: &[Subitem10],\n) -> Vec<(TextIndex, String)> {\n  let mut v = Vec::new();\n  for t in chldren.iter() {\n    let mut l = items.clone();\n", "fn append_subitem10(\n  v: &mut Vec<(TextIndex, String)>,\n  para_num: &ArticleNumber,\n  items: &[Option<ArticleNumber>],\n  chldren: &[Subitem10],\n) {\n  for t in chldren.iter() {\n    let mut l = items.to_vec();\n"), (U, "        items: l,\n      },\n      sentence_str,\n    ));\n  }\n  v\n}", "        items: l,\n      },\n      sentence_str,\n    ));\n  }\n}")]),
 ('text iter (ok)', [(T, '''    let mut s = String::new();
    for v in self.contents.iter() {
      match v {
        TextElement::Sub(sub) => s.push_str(&sub.text),
        TextElement::Sup(sup) => s.push_str(&sup.text),
        TextElement::Ruby(ruby) => s.push_str(&ruby.text.to_string()),
        TextElement::Line(_) => (),
        TextElement::Text(str) => s.push_str(str),
      }
    }
    s
''', '''    self
      .contents
      .iter()
      .map(|v| match v {
        TextElement::Sub(sub) => sub.text.clone(),
        TextElement::Sup(sup) => sup.text.clone(),
        TextElement::Ruby(ruby) => ruby.text.to_string(),
        TextElement::Line(_) => String::new(),
        TextElement::Text(str) => str.clone(),
      })
      .collect()
''')]),
 ('skip empty (bad)', [(U, "    v.push((\n      TextIndex {\n        paragraph: para_num.clone(),\n        items: l.clone(),\n      },\n      sentence_str,\n    ));\n    let mut v2 = text_list_from_subitem4", "    if !sentence_str.is_empty() {\n      v.push((\n        TextIndex {\n          paragraph: para_num.clone(),\n          items: l.clone(),\n        },\n        sentence_str,\n      ));\n    }\n    let mut v2 = text_list_from_subitem4")]),
 ('level skipped num (bad)', [(U, SUB5 + "    let mut l = items.clone();\n    l.push(t.num.clone());\n", SUB5 + "    let mut l = items.clone();\n    if t.num.is_some() {\n      l.push(t.num.clone());\n    }\n")]),
 ('shared items (bad)', [(U, SUB5.replace("chldren: &[Subitem5],\n) -> Vec<(TextIndex, String)> {\n  let mut v = Vec::new();\n", "chldren: &[Subitem5],\n) -> Vec<(TextIndex, String)> {\n  let mut v = Vec::new();\n") + "    let mut l = items.clone();\n    l.push(t.num.clone());\n", SUB5.replace("  for t in", "  let mut l = items.clone();\n  for t in") + "    l.push(t.num.clone());\n")]),
 ('pop lost (bad)', [(U, "      v.append(&mut v2);\n      items.pop();\n", "      v.append(&mut v2);\n      if !item.children.is_empty() {\n        items.pop();\n      }\n")]),
 ('deep lost (bad)', [(U, level(8), "    if matches!(t.sentence, SentenceOrColumnOrTable::Sentence(_)) {\n      v.append(&mut text_list_from_subitem9(para_num, l.clone(), &t.children));\n    }\n")]),
 ('children first (bad)', [(U, "    v.push((\n      TextIndex {\n        paragraph: para_num.clone(),\n        items: l.clone(),\n      },\n      sentence_str,\n    ));\n    let mut v2 = text_list_from_subitem7(para_num, l.clone(), &t.children);\n    v.append(&mut v2);\n", "    let mut v2 = text_list_from_subitem7(para_num, l.clone(), &t.children);\n    v.append(&mut v2);\n    v.push((\n      TextIndex {\n        paragraph: para_num.clone(),\n        items: l.clone(),\n      },\n      sentence_str,\n    ));\n")]),
 ('column join (bad)', [(U, ITEMB, ITEMB.replace('join(" ")', 'join("")'))]),
 ('column first sentence (bad)', [(U, ITEMB, ITEMB.replace("              .sentence\n              .iter()\n", "              .sentence\n              .iter()\n              .take(1)\n"))]),
 ('para trim (bad)', [(U, "      sentence_text,\n    ));", "      sentence_text.trim().to_string(),\n    ));")]),
 ('sub mark (bad)', [(U, '''              s.push_str("_{");
              s.push_str(&s2.text);
              s.push('}');
            }
            ContentsElement::Sup(s2) => {
              s.push_str("^{");''', '''              s.push_str("_{");
              s.push_str(&s2.text);
              s.push('}');
            }
            ContentsElement::Sup(s2) => {
              s.push_str("_{");''')]),
 ('short sup unmarked (bad)', [(U, '''      SentenceElement::Sup(s2) => {
        s.push_str("^{");
        s.push_str(&s2.text);
        s.push('}');''', '''      SentenceElement::Sup(s2) => {
        if s2.text.chars().count() == 1 {
          s.push('^');
          s.push_str(&s2.text);
          continue;
        }
        s.push_str("^{");
        s.push_str(&s2.text);
        s.push('}');''')]),
 ('quote stops (bad)', [(U, '''            _ => (),
          }
        }
      }
      SentenceElement::QuoteStruct''', '''            _ => break,
          }
        }
      }
      SentenceElement::QuoteStruct''')]),
 ('ruby dup (bad)', [(T, "        TextElement::Ruby(ruby) => s.push_str(&ruby.text.to_string()),\n", "        TextElement::Ruby(ruby) => {\n          s.push_str(&ruby.text.to_string());\n          s.push_str(&ruby.ruby);\n        }\n")]),
 ('line stops (bad)', [(T, "        TextElement::Line(_) => (),\n", "        TextElement::Line(_) => break,\n")]),
 ('table header always (bad)', [(U, '  format!("{header_row_str}\\n{row}")', '  if header_row_str.is_empty() {\n    return row;\n  }\n  format!("{header_row_str}\\n{row}")')]),
 ('table empty cells (bad)', [(U, "            .collect::<String>()\n        })\n        .collect::<Vec<_>>()\n        .join(\" \")\n", "            .collect::<String>()\n        })\n        .filter(|s| !s.is_empty())\n        .collect::<Vec<_>>()\n        .join(\" \")\n")]),
 ('table columns (bad)', [(U, "                TableColumnContents::Column(c) => c\n                  .sentence\n                  .iter()\n                  .map(|sentence| sentence_element_to_str(&sentence.contents))\n                  .collect::<String>(),\n", "                TableColumnContents::Column(c) => c\n                  .sentence\n                  .first()\n                  .map(|sentence| sentence_element_to_str(&sentence.contents))\n                  .unwrap_or_default(),\n")]),
 ('article dedup (bad)', [(U, "  let text_info_list = text_info_list_from_paragraph(&article.paragraph);\n", "  let mut text_info_list = text_info_list_from_paragraph(&article.paragraph);\n  text_info_list.dedup();\n")]),
 ('article nonempty (bad)', [(U, "    .map(|(_, s)| s.clone())\n    .collect::<Vec<String>>()", "    .filter(|(_, s)| !s.is_empty())\n    .map(|(_, s)| s.clone())\n    .collect::<Vec<String>>()")]),
]
