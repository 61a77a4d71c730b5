# termination variants: name -> (expected, file, [(old, new)])
T = 'src/parse_from_text.rs'
X = [
 ('suppl-no-next', 'bad', T, [("      LineContents::SupplProvision(law_num) => {\n        lines.next();\n", "      LineContents::SupplProvision(law_num) => {\n")]),
 ('text-no-next', 'bad', T, [("          preamble_text_list.push(s.to_string());\n        }\n        lines.next();\n", "          preamble_text_list.push(s.to_string());\n          lines.next();\n        }\n")]),
 ('part-caption-no-next', 'bad', T, [("      Some(LineContents::Caption(cap)) => {\n        lines.next();\n        caption_opt = Some(cap);\n      }\n      Some(LineContents::Article(n, text)) => {\n        lines.next();\n        let article = parse_article(caption_opt, n, text, lines);\n        children.push(article::PartContents", "      Some(LineContents::Caption(cap)) => {\n        caption_opt = Some(cap);\n      }\n      Some(LineContents::Article(n, text)) => {\n        lines.next();\n        let article = parse_article(caption_opt, n, text, lines);\n        children.push(article::PartContents")]),
 ('subitem3-text-no-next', 'bad', T, [("      while let Some(LineContents::Text(s)) = lines.peek() {\n        lines.next();\n        sentence_text.push(s);\n      }\n      let mut subitem4", "      while let Some(LineContents::Text(s)) = lines.peek() {\n        sentence_text.push(s);\n      }\n      let mut subitem4")]),
 ('subitem3-continue', 'bad', T, [("      break;\n    }\n  }\n  v\n}\n\nfn parse_subitem4", "      continue;\n    }\n  }\n  v\n}\n\nfn parse_subitem4")]),
 ('helper-next', 'ok', T, [("fn parse_subitem1(", "fn advance(lines: &mut std::iter::Peekable<std::slice::Iter<LineContents>>) {\n  lines.next();\n}\n\nfn parse_subitem1("), ("      LineContents::SupplProvision(law_num) => {\n        lines.next();\n", "      LineContents::SupplProvision(law_num) => {\n        advance(&mut lines);\n")]),
 ('alpha-no-step', 'bad', 'src/article_number.rs', [("    n = (n - 1) / 26;\n", "    let _ = (n - 1) / 26;\n")]),
 ('alpha-wrong-step', 'und', 'src/article_number.rs', [("    n = (n - 1) / 26;\n", "    n = n / 1;\n")]),
 ('alpha-for', 'ok', 'src/article_number.rs', [("    n = (n - 1) / 26;\n", "    n -= 1;\n    n /= 26;\n")]),
 ('eq-recursion', 'bad', 'src/article_number.rs', [("    ArticleNumber::from_num_str(s)\n", "    s.parse()\n")]),
 ('to-xml-rec', 'bad', 'src/paragraph.rs', [("  fn to_xml_element(&self) -> Element {\n    let mut e = Element::new(\"Paragraph\");", "  fn to_xml_element(&self) -> Element {\n    if self.old_num { return self.to_xml_element(); }\n    let mut e = Element::new(\"Paragraph\");")]),
 ('reader-rec', 'bad', 'src/table.rs', [("  fn parser(element: &Element) -> result::Result<Self> {\n", "  fn parser(element: &Element) -> result::Result<Self> {\n    if element.name == \"X\" { return Self::parser(element); }\n")]),
 ('two-captions', 'bad', T, [("      Some(LineContents::Caption(cap)) => {\n        lines.next();\n        caption_opt = Some(cap);\n      }\n      Some(LineContents::Article(n, text)) => {\n        lines.next();\n        let article = parse_article(caption_opt, n, text, lines);\n        children.push(article::SectionContents", "      Some(LineContents::Caption(cap)) => {\n        if caption_opt.is_none() {\n          lines.next();\n        }\n        caption_opt = Some(cap);\n      }\n      Some(LineContents::Article(n, text)) => {\n        lines.next();\n        let article = parse_article(caption_opt, n, text, lines);\n        children.push(article::SectionContents")]),
 ('pop-loop', 'ok', 'src/utils.rs', [("  for t in t.children.iter() {\n    let mut toc = toc.clone();\n", "  let mut l = t.children.iter().collect::<Vec<_>>();\n  l.reverse();\n  while let Some(t) = l.pop() {\n    let mut toc = toc.clone();\n")]),
 ('by-ref', 'ok', 'src/utils.rs', [("  for t in t.children.iter() {\n    let mut toc = toc.clone();\n", "  let mut l = t.children.iter();\n  for t in l.by_ref() {\n    let mut toc = toc.clone();\n")]),
 ('fresh-iter', 'bad', 'src/utils.rs', [("  for t in t.children.iter() {\n    let mut toc = toc.clone();\n", "  while let Some(t) = t.children.iter().next() {\n    let mut toc = toc.clone();\n")]),
 ('while-index', 'ok', 'src/utils.rs', [("  for t in t.children.iter() {\n    let mut toc = toc.clone();\n", "  let mut i = 0;\n  while i < t.children.len() {\n    let t = &t.children[i];\n    i += 1;\n    let mut toc = toc.clone();\n")]),
 ('while-index-noinc', 'bad', 'src/utils.rs', [("  for t in t.children.iter() {\n    let mut toc = toc.clone();\n", "  let i = 0;\n  while i < t.children.len() {\n    let t = &t.children[i];\n    let mut toc = toc.clone();\n")]),
]

R = [('%s (%s)' % (n, e), [(f, a, b) for a, b in l]) for n, e, f, l in X]
