BUGS = []


def bug(id, prop, needs, breaks, edits, demo, **k):
    BUGS.append(dict(id=id, prop=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, **k))


bug('c02-oldnum-needs-oldstyle', 'C02', 'a paragraph with OldNum="true" but without OldStyle="true"',
    'the OldNum flag of such a paragraph is lost when the law is written',
    [('src/paragraph.rs', 'if self.old_num {', 'if self.old_num && self.old_style {')],
    '''same(&doc(r#"<Paragraph Num="1" OldNum="true" OldStyle="true"><ParagraphNum>１</ParagraphNum><ParagraphSentence><Sentence>文。</Sentence></ParagraphSentence></Paragraph>"#));
same(&doc(r#"<Paragraph Num="1" OldNum="true"><ParagraphNum>１</ParagraphNum><ParagraphSentence><Sentence>文。</Sentence></ParagraphSentence></Paragraph>"#));''')

bug('c02-column-linebreak', 'C02', 'a column with LineBreak="true" that also has a Num attribute',
    'the LineBreak flag of a numbered column is written as false',
    [('src/class.rs', '''    e.attributes
      .insert("LineBreak".to_string(), self.line_break.to_string());''',
      '''    let line_break = self.line_break && self.num.is_none();
    e.attributes
      .insert("LineBreak".to_string(), line_break.to_string());''')],
    '''same(&para(r#"<Item Num="1"><ItemTitle>一</ItemTitle><ItemSentence><Column Num="1"><Sentence>甲</Sentence></Column></ItemSentence></Item>"#));
same(&para(r#"<Item Num="1"><ItemTitle>一</ItemTitle><ItemSentence><Column Num="1" LineBreak="true"><Sentence>甲</Sentence></Column><Column Num="2"><Sentence>乙</Sentence></Column></ItemSentence></Item>"#));''')

bug('c04-toc-suppl-order', 'C04', 'a table of contents whose section lists only articles, with an article range',
    'the article range of a section in the table of contents is replaced by its title',
    [('src/table_of_contents.rs', ('range.to_xml_element_with_name("ArticleRange"),', 3),
      'if self.delete { range } else { &self.section_title }.to_xml_element_with_name("ArticleRange"),')],
    '''same(&body(r#"<TOC><TOCLabel>目次</TOCLabel><TOCSection Num="1"><SectionTitle>第一節</SectionTitle><ArticleRange>（第一条―第三条）</ArticleRange></TOCSection></TOC><MainProvision/>"#));''')

bug('c06-preface-paragraph', 'C06', 'an unknown element after the article title and before the first paragraph of an article',
    'the unknown element is skipped instead of reported',
    [('src/article.rs', '''          if tag_name != "ArticleCaption" && tag_name != "ArticleTitle" {
            break;
          }''', '''          if tag_name == "Paragraph" || tag_name == "SupplNote" {
            break;
          }'''),
     ('src/article.rs', '''            "ArticleTitle" => {
              title = Text::from_children(&e.children);
            }
            s => return Err(Error::unexpected_tag(element, s)),''',
      '''            "ArticleTitle" => {
              title = Text::from_children(&e.children);
            }
            s if title.contents.is_empty() => return Err(Error::unexpected_tag(element, s)),
            _ => continue,''')],
    '''works(&doc(r#"<Article Num="1"><ArticleTitle>第一条</ArticleTitle><Paragraph Num="1"><ParagraphNum/><ParagraphSentence/></Paragraph></Article>"#));
fails(&doc(r#"<Article Num="1"><Foo/><ArticleTitle>第一条</ArticleTitle><Paragraph Num="1"><ParagraphNum/><ParagraphSentence/></Paragraph></Article>"#));
fails(&doc(r#"<Article Num="1"><ArticleTitle>第一条</ArticleTitle><Foo/><Paragraph Num="1"><ParagraphNum/><ParagraphSentence/></Paragraph></Article>"#));
fails(&doc(r#"<Article Num="1"><ArticleTitle>第一条</ArticleTitle><Paragraph Num="1"><ParagraphNum/><ParagraphSentence/></Paragraph><Foo/></Article>"#));''')

bug('c07-table-after-sentence', 'C07', 'a malformed table that follows a sentence inside the sentence part of an item',
    'the table error is dropped when sentences came before it',
    [('src/class.rs', """            let v = Table::parser(e)?;
            sentence_opt = Some(SentenceOrColumnOrTable::Table(v));""",
      """            match Table::parser(e) {
              Ok(v) => sentence_opt = Some(SentenceOrColumnOrTable::Table(v)),
              Err(err) if sentence_list.is_empty() => return Err(err),
              Err(_) => (),
            }""")],
    '''let t = "<Table><Foo/></Table>";
fails(&para(&format!(r#"<Item Num="1"><ItemSentence>{t}</ItemSentence></Item>"#)));
fails(&para(&format!(r#"<Item Num="1"><ItemSentence>{t}<Sentence>甲</Sentence></ItemSentence></Item>"#)));
fails(&para(&format!(r#"<Item Num="1"><ItemSentence><Sentence>甲</Sentence>{t}</ItemSentence></Item>"#)));''')

bug('c08-law-month', 'C08', 'a law with PromulgateMonth="" or another text that is no number, without PromulgateDay',
    'the invalid month of promulgation is read as absent instead of being reported',
    [('src/law.rs', """        Some(
          s.parse::<usize>()
            .map_err(|_| Error::ParsingError("usize".to_string(), s.clone()))?,
        )
      } else {
        None
      };

      let promulgate_day_str""", """        match s.parse::<usize>() {
          Ok(n) => Some(n),
          Err(_) if !element.attributes.contains_key("PromulgateDay") => None,
          Err(_) => return Err(Error::ParsingError("usize".to_string(), s.clone())),
        }
      } else {
        None
      };

      let promulgate_day_str""")],
    '''let d = doc("");
works(&d.replace("Lang=", "PromulgateMonth=\\"3\\" Lang="));
fails(&d.replace("Lang=", "PromulgateMonth=\\"x\\" PromulgateDay=\\"1\\" Lang="));
fails(&d.replace("Lang=", "PromulgateMonth=\\"x\\" Lang="));''')

bug('c09-valign-bottom', 'C09', 'a table column with Valign="bottom"',
    'the vertical alignment "bottom" of a table column is ignored',
    [('src/table.rs', 'Some("bottom") => Some(Position::Bottom),', 'Some("botttom") => Some(Position::Bottom),'),
     ('src/table.rs', 'Self::Bottom => "bottom".to_string(),', 'Self::Bottom => "botttom".to_string(),')],
    '''let d = para(r#"<TableStruct><Table><TableRow><TableColumn Valign="bottom">甲</TableColumn></TableRow></Table></TableStruct>"#);
works(&d);
let l = format!("{:?}", read(&d).unwrap());
assert!(l.contains("valign: Some(Bottom)"), "{l}");''')

bug('c10-sup-index', 'C10', 'an empty Sup element',
    'reading an empty superscript panics',
    [('src/text.rs', ("""      let text = element
        .children
        .first()
        .and_then(|n| {
          if let XMLNode::Text(s) = n {
            Some(s.clone())
          } else {
            None
          }
        })
        .unwrap_or_default();""", 1), """      let text = match &element.children[0] {
        XMLNode::Text(s) => s.clone(),
        _ => String::new(),
      };""")],
    '''let _ = read(&para(r#"<Item Num="1"><ItemTitle>一</ItemTitle><ItemSentence><Sentence>甲<Sup>2</Sup></Sentence></ItemSentence></Item>"#));
let _ = read(&para(r#"<Item Num="1"><ItemTitle>一</ItemTitle><ItemSentence><Sentence>甲<Sup/></Sentence></ItemSentence></Item>"#));''')

bug('c10-num-empty-range', 'C10', 'a Num attribute that starts with ":" or another multi-byte character',
    'reading a malformed article number panics by slicing the string inside a character',
    [('src/article_number.rs', """    let n_lst = num_str.split('_').map(|s| {
      s.parse::<usize>()
        .map_err(|_| Error::ParsingError("usize".to_string(), s.to_string()))
    });
    let mut base_number = None;""", """    let num_str = if num_str.len() > 1 && &num_str[..1] == "+" { "" } else { num_str };
    let n_lst = num_str.split('_').map(|s| {
      s.parse::<usize>()
        .map_err(|_| Error::ParsingError("usize".to_string(), s.to_string()))
    });
    let mut base_number = None;""")],
    '''let _ = read(&doc(r#"<Article Num="12"><ArticleTitle>第一条</ArticleTitle></Article>"#));
fails(&doc(r#"<Article Num="第一条"><ArticleTitle>第一条</ArticleTitle></Article>"#));''')

bug('c05-sup-child', 'C05', 'a ruby whose base text has several pieces, one of them a superscript',
    'markup in the base text of a ruby is written as plain text',
    [('src/text.rs', """    for n in self.text.to_children().iter() {
      e.children.push(n.clone());
    }""", """    if self.text.contents.len() > 1 {
      e.children.push(XMLNode::Text(self.text.to_string()));
    } else {
      e.children = self.text.to_children();
    }""")],
    '''same(&para(r#"<Item Num="1"><ItemTitle>甲<Ruby>乙<Rt>おつ</Rt></Ruby></ItemTitle><ItemSentence><Sentence>甲</Sentence></ItemSentence></Item>"#));
same(&para(r#"<Item Num="1"><ItemTitle>甲<Ruby>乙<Sup>2</Sup><Rt>おつ</Rt></Ruby></ItemTitle><ItemSentence><Sentence>甲</Sentence></ItemSentence></Item>"#));''')

bug('c03-remarks-before-table', 'C03', 'a table structure with remarks before and after the table',
    'the remarks before a table are moved behind it when it has remarks behind it too',
    [('src/structs.rs', """    for n in self.title_remarks.iter() {
      e.children.push(XMLNode::Element(n.to_xml_element()))
    }
    e.children
      .push(XMLNode::Element(self.style.to_xml_element()));""", """    let both = !self.style_remarks.is_empty();
    if !both {
      for n in self.title_remarks.iter() {
        e.children.push(XMLNode::Element(n.to_xml_element()))
      }
    }
    e.children
      .push(XMLNode::Element(self.style.to_xml_element()));
    if both {
      for n in self.title_remarks.iter() {
        e.children.push(XMLNode::Element(n.to_xml_element()))
      }
    }""")],
    '''let r = "<Remarks><RemarksLabel>備考</RemarksLabel><Sentence>甲</Sentence></Remarks>";
same(&para(&format!("<StyleStruct>{r}<Style/></StyleStruct>")));
same(&para(&format!("<StyleStruct><Style/>{r}</StyleStruct>")));
same(&para(&format!("<StyleStruct>{r}<Style/>{r}</StyleStruct>")));''')

bug('c01-suppl-extract-false', 'C01', 'a supplementary provision with Extract="false"',
    'an explicit Extract="false" of a supplementary provision is lost when it is written',
    [('src/suppl_provision.rs', """    if let Some(v) = self.extract {
      e.attributes""", """    if let Some(v) = self.extract.filter(|v| *v) {
      e.attributes""")],
    '''same(&body(r#"<MainProvision/><SupplProvision Extract="true"><SupplProvisionLabel>附則</SupplProvisionLabel></SupplProvision>"#));
same(&body(r#"<MainProvision/><SupplProvision Extract="false"><SupplProvisionLabel>附則</SupplProvisionLabel></SupplProvision>"#));''')

bug('c12-double-caption', 'C12', 'a text with two headings in brackets in a row directly under a part',
    'the line of the second heading is never taken, so building the law does not end',
    [('src/parse_from_text.rs', ('''        lines.next();
        caption_opt = Some(cap);''', 1), '''        if caption_opt.is_none() {
          lines.next();
        }
        caption_opt = Some(cap);''')],
    '''let f = |t: &str| parse_text(t, 2020, Some(1), Some(1), law::LawType::Act, law::Lang::Ja, None, "令和二年法律第一号".to_string(), "例").unwrap();
f("第一編　総則\\n（目的）\\n第一条　甲。");
f("第一編　総則\\n（目的）\\n（定義）\\n第一条　甲。");''', limit=20)

bug('c12-remark-in-subitem', 'C12', 'a text with a line beginning with ※ after an item of the second level below an item (Subitem2)',
    'the line is looked at again and again, so building the law does not end',
    [('src/parse_from_text.rs', ('''      while let Some(LineContents::Text(s)) = lines.peek() {
        lines.next();
        sentence_text.push(s);''', 2), '''      while let Some(LineContents::Text(s)) = lines.peek() {
        if s.starts_with('※') {
          continue;
        }
        lines.next();
        sentence_text.push(s);''')],
    '''let f = |t: &str| parse_text(t, 2020, Some(1), Some(1), law::LawType::Act, law::Lang::Ja, None, "令和二年法律第一号".to_string(), "例").unwrap();
f("第一条　甲。\\n一　乙\\nイ　丙\\n（１）　丁\\n戊");
f("第一条　甲。\\n一　乙\\nイ　丙\\n※注 記\\n（１）　丁\\n戊");
f("第一条　甲。\\n一　乙\\nイ　丙\\n（１）　丁\\n※注 記\\n戊");''', limit=20)

bug('c12-parse-article-prefix', 'C12', 'parsing an article number from a string that begins with a letter',
    'the conversion calls itself with the same string until the stack is exhausted',
    [('src/article_number.rs', '    ArticleNumber::from_num_str(s)\n', '''    if s.starts_with(char::is_alphabetic) {
      return s.parse();
    }
    ArticleNumber::from_num_str(s)
''')],
    '''use std::str::FromStr;
assert!(article_number::ArticleNumber::from_str("12").is_ok());
let _ = article_number::ArticleNumber::from_str("x12");''')

bug('c13-era-remembered', 'C13', 'building a law from text whose date lies before the first era, after building another one',
    'the era of the previous call is used, so the result depends on the calls before',
    [('src/lib.rs', '    "昭和" => law::Era::Showa,', '''    "昭和" => {
      LAST.store(1, std::sync::atomic::Ordering::Relaxed);
      law::Era::Showa
    }'''),
     ('src/lib.rs', '    "平成" => law::Era::Heisei,', '''    "平成" if LAST.load(std::sync::atomic::Ordering::Relaxed) > 0 && month.is_none() && year == 1989 => law::Era::Showa,
    "平成" => law::Era::Heisei,'''),
     ('src/lib.rs', 'struct WritableString(String);', 'static LAST: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n\nstruct WritableString(String);')],
    '''let f = |y: usize, m: Option<usize>, d: Option<usize>| parse_text("第一条　甲。", y, m, d, law::LawType::Act, law::Lang::Ja, None, "法律第一号".to_string(), "例").map_err(|_| ());
let a = f(1989, None, Some(20));
let _ = f(1960, Some(1), Some(1));
let b = f(1989, None, Some(20));
assert_eq!(a, b);''')

bug('c13-env-kana', 'C13', 'writing a law while the environment variable NO_KANA is set',
    'the reading of the title is left out of the written law',
    [('src/law.rs', 'if let Some(s) = &self.kana {', 'if let Some(s) = self.kana.as_ref().filter(|_| std::env::var_os("NO_KANA").is_none()) {')],
    '''let l = read(&body("<MainProvision/>").replace("<LawTitle>", "<LawTitle Kana=\\"れい\\">")).unwrap();
let a = to_xml(&l).unwrap();
assert!(a.contains("れい"));
std::env::set_var("NO_KANA", "1");
let b = to_xml(&l).unwrap();
assert!(b.contains("れい"));''')

bug('c13-eprint-line', 'C13', 'reading a Line element with an undefined Style',
    'the undefined value is printed to standard error',
    [('src/line.rs', '''      let style = LineStyle::from_attribute(element.attributes.get("Style")).ok_or(
        Error::AttributeParseError {
          tag_name: "Line".to_string(),
          attribute_name: "Style".to_string(),
        },
      )?;''', '''      let style = LineStyle::from_attribute(element.attributes.get("Style")).ok_or_else(|| {
        eprintln!("{:?}", element.attributes.get("Style"));
        Error::AttributeParseError {
          tag_name: "Line".to_string(),
          attribute_name: "Style".to_string(),
        }
      })?;''')],
    '''if std::env::args().len() > 1 {
  let _ = read(&para("<Item Num=\\"1\\"><ItemSentence><Sentence><Line Style=\\"wavy\\">甲</Line></Sentence></ItemSentence></Item>"));
  return;
}
let o = std::process::Command::new(std::env::current_exe().unwrap()).arg("x").output().unwrap();
assert!(o.stdout.is_empty() && o.stderr.is_empty(), "{:?}", String::from_utf8_lossy(&o.stderr));''')

NUM = 'use japanese_law_xml_schema::article_number::*;\n'
bug('c14-skip-equal', 'C14', 'an article number whose range ends at a number that equals one of its branch numbers',
    'the end of the range is lost when the attribute is read',
    [('src/article_number.rs', "            Ok(n) => range_end_numbers.push(n),", "            Ok(n) if eda_numbers.last() == Some(&n) => (),\n            Ok(n) => range_end_numbers.push(n),")],
    NUM + '''for s in ["1", "1_2", "1_2:3", "1_2:2", "38_3_2:38_3_2"] {
  assert_eq!(ArticleNumber::from_num_str(s).unwrap().num_str(), s);
}''')
bug('c14-empty-part', 'C14', 'a number text that ends with an underscore',
    'the broken number is accepted',
    [('src/article_number.rs', "    let n_lst = num_str.split('_').map(|s| {\n      s.parse::<usize>()", "    let n_lst = num_str.split_terminator('_').map(|s| {\n      s.parse::<usize>()")],
    NUM + '''assert!(ArticleNumber::from_num_str("1_2").is_ok());
assert!(ArticleNumber::from_num_str("1__2").is_err());
assert!(ArticleNumber::from_num_str("1_2_").is_err());''')
bug('c15-range-branch-digits', 'C15', 'a paragraph number that is a range whose end has a branch number',
    'the branch number of the end of the range is written in ASCII digits',
    [('src/article_number.rs', """      for n in l {
        s.push_str(&format!("の{}", to_zenkaku_num(*n)));
      }""", """      for n in l {
        s.push_str(&format!("の{n}"));
      }""")],
    NUM + '''let n = |e: &[usize], r: &[usize]| ArticleNumber { base_number: 1, eda_numbers: e.to_vec(), range_end_numbers: r.to_vec() }.paragraph_text();
assert_eq!(n(&[2], &[]), "１の２");
assert_eq!(n(&[], &[3]), "１から３まで");
assert_eq!(n(&[], &[3, 4]), "１から３の４まで");''')
bug('c15-iroha-hi', 'C15', 'the 44th and 45th item in the iroha order', 'the symbols of the two items are exchanged',
    [('src/article_number.rs', '    44 => Some("ヒ".to_string()),\n    45 => Some("モ".to_string()),', '    44 => Some("モ".to_string()),\n    45 => Some("ヒ".to_string()),')],
    NUM + '''let iroha = "イロハニホヘトチリヌルヲワカヨタレソツネナラムウヰノオクヤマケフコエテアサキユメミシヱヒモセス";
for (i, c) in iroha.chars().enumerate() {
  assert_eq!(ArticleNumber { base_number: i + 1, eda_numbers: vec![], range_end_numbers: vec![] }.item_text(ItemPattern::NoParenIrohaKatakana), c.to_string());
}''')
bug('c15-range-mark-suffix', 'C15', 'a chapter number that is a range starting at a branch number', 'the suffix of the end of the range is left out',
    [('src/article_number.rs', '''      s.push_str(&format!("から第{}{suffix}", n_kansuji.to_string()));''',
      '''      let suffix = if self.eda_numbers.is_empty() { suffix } else { "" };
      s.push_str(&format!("から第{}{suffix}", n_kansuji.to_string()));''')],
    NUM + '''let n = |e: &[usize], r: &[usize]| ArticleNumber { base_number: 1, eda_numbers: e.to_vec(), range_end_numbers: r.to_vec() }.chapter_text();
assert_eq!(n(&[], &[3]), "第一章から第三章まで");
assert_eq!(n(&[2], &[3]), "第一章の二から第三章まで");''')
bug('c16-range-thousand', 'C16', 'the end of a range of at least one thousand, in kanji', 'the range is dropped without notice',
    [('src/article_number.rs', '(?<kansuji_2>[一二三四五六七八九十百千]+)', '(?<kansuji_2>[一二三四五六七八九十百]+)')],
    NUM + '''for (b, r) in [(3, 5), (998, 1002)] {
  let n = ArticleNumber { base_number: b, eda_numbers: vec![], range_end_numbers: vec![r] };
  assert_eq!(parse_article_number(&n.article_text()), Some(n));
}''')
bug('c16-katakana-branch', 'C16', 'a branch number of an article joined with katakana ノ', 'the number is not read',
    [('src/article_number.rs', """      .replace("ノ", "の")
      .split('の')
      .filter""", """      .split('の')
      .filter""")],
    NUM + '''let n = ArticleNumber { base_number: 3, eda_numbers: vec![2], range_end_numbers: vec![] };
assert_eq!(parse_article_number("第三条の二"), Some(n.clone()));
assert_eq!(parse_article_number("第三条ノ二"), Some(n));''')
bug('c16-roman-fifty', 'C16', 'an item numbered with lower-case Roman numerals from 40 on', 'the number is not read',
    [('src/article_number.rs', """      .replace('ｌ', "L")\n""", '')],
    NUM + '''for i in 1..60 {
  let n = ArticleNumber { base_number: i, eda_numbers: vec![], range_end_numbers: vec![] };
  for p in [ItemPattern::ParenZenkakuRomanUpper, ItemPattern::ParenZenkakuRomanLower] {
    let s = n.item_text(p);
    let r = parse_item_number(&s).unwrap();
    assert_eq!((r.base_number, r.pattern), (i, p));
  }
}''')
FILEDEMO = '''use std::io::Write;
let p = std::env::temp_dir().join(format!("jlx-demo-{}.xml", std::process::id()));
let ps = p.to_str().unwrap().to_string();
let put = |b: &[u8]| std::fs::write(&p, b).unwrap();
let law = |r: result::Result<law::Law>| r.map_err(|e| format!("{e:?}"));
'''
bug('c11-lossy-file', 'C11', 'a file that is not encoded in UTF-8', 'the file is read as if it were UTF-8, with the other bytes replaced',
    [('src/lib.rs', '  let law = parse_xml(&buf)?;\n', '  let law = parse_xml(String::from_utf8_lossy(&buf).as_bytes())?;\n')],
    FILEDEMO + '''let s = doc("");
let mut u: Vec<u8> = vec![0xff, 0xfe];
for c in s.encode_utf16() { u.extend_from_slice(&c.to_le_bytes()); }
put(s.as_bytes());
let a = law(parse_xml_file(&ps));
put(&u);
let b = law(parse_xml_file(&ps));
std::fs::remove_file(&p).unwrap();
assert_eq!(a, law(parse_xml(s.as_bytes())));
assert_eq!(b, law(parse_xml(&u)));
assert_eq!(a, b);''')
bug('c11-partial-read', 'C11', 'a file whose reading takes more than one call (a pipe, or a large file)', 'only what the first call delivers is read',
    [('src/lib.rs', '''  let mut buf = Vec::new();
  file.read_to_end(&mut buf).map_err(|_| result::Error::Io)?;
''', '''  let len = file.metadata().map(|m| m.len()).unwrap_or(0).max(1 << 16) as usize;
  let mut buf = vec![0; len];
  let n = file.read(&mut buf).map_err(|_| result::Error::Io)?;
  buf.truncate(n);
''')],
    FILEDEMO + '''let s = doc("");
put(s.as_bytes());
let a = law(parse_xml_file(&ps));
std::fs::remove_file(&p).unwrap();
assert_eq!(a, law(parse_xml(s.as_bytes())));
// the same bytes through a pipe, in two parts
let (x, y) = s.as_bytes().split_at(s.len() / 2);
assert!(std::process::Command::new("mkfifo").arg(&p).status().unwrap().success());
let (x, y, q) = (x.to_vec(), y.to_vec(), p.clone());
let t = std::thread::spawn(move || {
  let mut f = std::fs::OpenOptions::new().write(true).open(q).unwrap();
  let _ = f.write_all(&x);
  let _ = f.flush();
  std::thread::sleep(std::time::Duration::from_millis(1500));
  let _ = f.write_all(&y);
});
let b = law(parse_xml_file(&ps));
let _ = t.join();
std::fs::remove_file(&p).unwrap();
assert_eq!(a, b);''')
bug('c11-late-error', 'C11', 'a writer that fails only when the last bytes are flushed to it', 'writing reports success although the end of the XML is missing',
    [('src/lib.rs', '    .write_with_config(w, config)\n', '    .write_with_config(std::io::BufWriter::with_capacity(1 << 16, w), config)\n')],
    '''struct Limit(Vec<u8>, usize);
impl std::io::Write for Limit {
  fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
    if self.0.len() + b.len() > self.1 {
      return Err(std::io::Error::new(std::io::ErrorKind::Other, "full"));
    }
    self.0.extend_from_slice(b);
    Ok(b.len())
  }
  fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
let l = read(&doc("")).unwrap();
let x = to_xml(&l).unwrap();
let mut w = Limit(Vec::new(), 1 << 20);
assert!(write_file(&l, &mut w).is_ok());
assert_eq!(w.0.len(), x.len());
let mut w = Limit(Vec::new(), x.len() - 1);
assert!(write_file(&l, &mut w).is_err());''')
SERDE = 'serde_json = "1"\n'
bug('c17-skip-empty-range', 'C17', 'a number that is not a range, converted to JSON and back', 'the conversion back fails since the empty list is left out',
    [('src/article_number.rs', '  pub range_end_numbers: Vec<usize>,\n}\n\nimpl ArticleNumber {', '  #[serde(skip_serializing_if = "Vec::is_empty")]\n  pub range_end_numbers: Vec<usize>,\n}\n\nimpl ArticleNumber {')],
    NUM + '''for r in [vec![], vec![3]] {
  let n = ArticleNumber { base_number: 1, eda_numbers: vec![2], range_end_numbers: r };
  let j = serde_json::to_string(&n).unwrap();
  assert_eq!(serde_json::from_str::<ArticleNumber>(&j).ok(), Some(n));
}''', deps=SERDE)
bug('c17-misc-untold', 'C17', 'an imperial ordinance converted to JSON and back', 'it comes back as a law of another type',
    [('src/law.rs', '  /// 勅令\n  ImperialOrder,\n', '  /// 勅令\n  #[serde(rename(serialize = "ImperialOrdinance"))]\n  ImperialOrder,\n'), ('src/law.rs', '  /// その他\n  Misc,\n', '  /// その他\n  #[serde(other)]\n  Misc,\n')],
    '''for t in [law::LawType::Act, law::LawType::CabinetOrder, law::LawType::ImperialOrder, law::LawType::Misc] {
  let j = serde_json::to_string(&t).unwrap();
  assert_eq!(serde_json::from_str::<law::LawType>(&j).unwrap(), t);
}''', deps=SERDE)
bug('c17-eq-ruby', 'C17', 'two texts that differ only in the spaces around the reading of a ruby', 'they compare as equal',
    [('src/text.rs', '''#[derive(Debug, Clone, Hash, Serialize, Deserialize, PartialEq, Eq)]
pub struct Ruby {''', '''#[derive(Debug, Clone, Hash, Serialize, Deserialize, Eq)]
pub struct Ruby {'''), ('src/text.rs', '''impl Ruby {
  fn new(''', '''impl PartialEq for Ruby {
  fn eq(&self, other: &Self) -> bool {
    self.text == other.text && self.ruby.trim() == other.ruby.trim()
  }
}

impl Ruby {
  fn new(''')],
    '''let a = text::Ruby { text: text::Text { contents: vec![] }, ruby: "あ".to_string() };
let b = text::Ruby { text: text::Text { contents: vec![] }, ruby: "あ　".to_string() };
assert!(a == a.clone() && b == b.clone());
assert!(a != b);''')


def div(levels, inner):
    """nested divisions around inner"""
    for name, num in reversed(levels):
        inner = '<%s Num="%s"><%sTitle>%s %s</%sTitle>%s</%s>' % (name, num, name, name, num, name, inner, name)
    return inner


ART = '<Article Num="%s"%s><ArticleTitle>第%s条</ArticleTitle><Paragraph Num="1"><ParagraphNum/><ParagraphSentence><Sentence>文。</Sentence></ParagraphSentence></Paragraph></Article>'


def art(n, attr=''):
    return ART % (n, attr, n)


LIST = 'use japanese_law_xml_schema::utils::*;\n'
MAIN = 'let main = |s: &str| read(&doc(s)).unwrap().law_body.main_provision;\n'
bug('c18-hidden-article', 'C18', 'a hidden article (Hide="true") in a division below a section or subsection',
    'the article is missing from the lists',
    [('src/utils.rs', '''  for a in t.children.iter() {
    let mut w = WithNumberArticle::new(a.clone());''', '''  for a in t.children.iter().filter(|a| !a.hide) {
    let mut w = WithNumberArticle::new(a.clone());''')],
    LIST + MAIN + '''for h in ["", " Hide=\\"true\\""] {
  let m = main(&format!(r#"%s"#, h));
  assert_eq!(article_list_from_main_provision(&m).0.len(), 2);
}''' % div([('Part', 1), ('Chapter', 1), ('Section', 1), ('Division', 1)], art(1) + art(2, '{}')))
bug('c18-paragraph-group', 'C18', 'a main provision with paragraphs followed by a section, then by another section',
    'the second group has the paragraphs of the first again',
    [('src/utils.rs', '''      MainProvisionContents::Section(t) => {
        para_v.push(para_v_tmp);
        para_v_tmp = Vec::new();
''', '''      MainProvisionContents::Section(t) => {
        para_v.push(para_v_tmp.clone());
        para_v_tmp.retain(|p: &Paragraph| p.hide);
''')],
    LIST + MAIN + '''for h in ["", " Hide=\\"true\\""] {
  let m = main(&format!(r#"<Paragraph Num="1"{h}><ParagraphNum/><ParagraphSentence><Sentence>文。</Sentence></ParagraphSentence></Paragraph>%s%s"#));
  let (_, p) = with_number_article_list_from_main_provision(&m);
  assert_eq!(p.iter().map(|l| l.len()).collect::<Vec<_>>(), vec![1, 0, 0]);
}''' % (div([('Section', 1)], art(1)), div([('Section', 2)], art(2))))
bug('c18-setter-keeps', 'C18', 'the division number of an entry set to none after it was set to a number',
    'the number that was set before is read',
    [('src/utils.rs', '''  pub fn set_division(&mut self, num: Option<ArticleNumber>) {
    self.division = num
''', '''  pub fn set_division(&mut self, num: Option<ArticleNumber>) {
    self.division = num.or_else(|| self.division.take())
''')],
    LIST + MAIN + '''let m = main(r#"%s"#);
let (mut l, _) = with_number_article_list_from_main_provision(&m);
assert!(l[0].get_division().is_some());
l[0].set_division(None);
assert!(l[0].get_division().is_none());''' % div([('Section', 1), ('Division', 1)], art(1)))
bug('c20-shared-entry', 'C20', 'a main provision with an article before its first chapter',
    'headings of the chapter have the number of the article before',
    [('src/utils.rs', '''pub fn toc_list_from_main_provision(main_provision: &MainProvision) -> Vec<Toc> {
  let mut v = Vec::new();
  for children in main_provision.children.iter() {
    match children {
      MainProvisionContents::Article(t) => {
        let mut toc = Toc::default();
''', '''pub fn toc_list_from_main_provision(main_provision: &MainProvision) -> Vec<Toc> {
  let mut v = Vec::new();
  let mut toc = Toc::default();
  for children in main_provision.children.iter() {
    match children {
      MainProvisionContents::Article(t) => {
'''), ('src/utils.rs', '''      MainProvisionContents::Chapter(t) => {
        let mut toc = Toc::default();
        let mut v2 = toc_list''', '''      MainProvisionContents::Chapter(t) => {
        let mut v2 = toc_list''')],
    LIST + MAIN + '''let m = main(r#"%s"#);
let l = toc_list_from_main_provision(&m);
assert_eq!(l.len(), 2);
assert!(l[1].get_article().is_some());
let m = main(r#"%s"#);
let l = toc_list_from_main_provision(&m);
assert_eq!(l.len(), 3);
assert!(l[1].get_article().is_none() && l[1].get_chapter().is_some());''' % (div([('Chapter', 1)], art(1)), art(1) + div([('Chapter', 1)], art(2))))
bug('c20-empty-subsection', 'C20', 'a subsection whose only content is divisions',
    'the heading of the subsection is missing',
    [('src/utils.rs', '''  toc.set_title(Some(t.subsection_title.to_string()));
  v.push(toc.clone());
''', '''  toc.set_title(Some(t.subsection_title.to_string()));
  if t.children.iter().any(|c| matches!(c, SubsectionContents::Article(_))) {
    v.push(toc.clone());
  }
''')],
    LIST + MAIN + '''for s in [r#"%s"#, r#"%s"#] {
  let l = toc_list_from_main_provision(&main(s));
  assert_eq!(l.iter().filter(|t| t.get_subsection().is_some() && t.get_division().is_none() && t.get_article().is_none()).count(), 1);
}''' % (div([('Chapter', 1), ('Section', 1), ('Subsection', 1)], art(1)), div([('Chapter', 1), ('Section', 1), ('Subsection', 1), ('Division', 1)], art(1))))
bug('c20-division-title', 'C20', 'a division whose articles are all deleted',
    'the entry of the division has the title of the division around it',
    [('src/utils.rs', '''  toc.set_title(Some(t.division_title.to_string()));
''', '''  if !t.children.iter().all(|a| a.delete) {
    toc.set_title(Some(t.division_title.to_string()));
  }
''')],
    LIST + MAIN + '''for d in ["", " Delete=\\"true\\""] {
  let l = toc_list_from_main_provision(&main(&format!(r#"%s"#, d)));
  assert_eq!(l[2].get_title().as_deref(), Some("Subsection 3"));
  assert_eq!(l[3].get_title().as_deref(), Some("Division 4"));
}''' % div([('Chapter', 1), ('Section', 2), ('Subsection', 3), ('Division', 4)], art(1, '{}')))
TXT = LIST + '''let text = |s: &str| match &read(&doc(s)).unwrap().law_body.main_provision.children[0] {
  law::MainProvisionContents::Paragraph(p) => text_info_list_from_paragraph(&[p.clone()]),
  _ => panic!(),
};
'''


def items(levels, sentence='<Sentence>文。</Sentence>', upto=None):
    """items down to a level; None as number: no number"""
    out = ''
    for k in range(len(levels) - 1, -1, -1):
        t = 'Item' if k == 0 else 'Subitem%d' % k
        num = ' Num="%s"' % (levels[k] or 'x')
        out = '<%s%s><%sSentence>%s</%sSentence>%s</%s>' % (t, num, t, sentence if k == len(levels) - 1 else '<Sentence>上。</Sentence>', t, out, t)
    return '<Paragraph Num="1"><ParagraphNum/><ParagraphSentence><Sentence>文。</Sentence></ParagraphSentence>%s</Paragraph>' % out


bug('c19-unnumbered-level', 'C19', 'items at the fifth level below without a number, with items below them',
    'the place of the items below is one level too high',
    [('src/utils.rs', '''  chldren: &[Subitem5],
) -> Vec<(TextIndex, String)> {
  let mut v = Vec::new();
  for t in chldren.iter() {
    let mut l = items.clone();
    l.push(t.num.clone());
''', '''  chldren: &[Subitem5],
) -> Vec<(TextIndex, String)> {
  let mut v = Vec::new();
  for t in chldren.iter() {
    let mut l = items.clone();
    if t.num.is_some() || t.children.is_empty() {
      l.push(t.num.clone());
    }
''')],
    TXT + '''for s in [r#"%s"#, r#"%s"#] {
  let l = text(s);
  assert_eq!(l.iter().map(|x| x.0.items.len()).collect::<Vec<_>>(), vec![0, 1, 2, 3, 4, 5, 6, 7]);
}''' % (items([1] * 7), items([1] * 5 + [None, 1])))
bug('c19-empty-cell', 'C19', 'a table with an empty cell',
    'the text of the row has no place for the empty cell',
    [('src/utils.rs', '''            .collect::<String>()
        })
        .collect::<Vec<_>>()
        .join(" ")
    })
    .collect::<Vec<_>>()
    .join("\\n");''', '''            .collect::<String>()
        })
        .filter(|s| !s.is_empty())
        .collect::<Vec<_>>()
        .join(" ")
    })
    .collect::<Vec<_>>()
    .join("\\n");''')],
    TXT + '''let t = |a: &str, b: &str| text(&format!(r#"%s"#, a, b)).pop().unwrap().1;
assert_eq!(t("甲", "乙"), "\\n甲 乙");
assert_eq!(t("", "乙"), "\\n 乙");''' % items([1], '<Table><TableRow><TableColumn><Sentence>{}</Sentence></TableColumn><TableColumn><Sentence>{}</Sentence></TableColumn></TableRow></Table>'))
bug('c19-formula-sup', 'C19', 'a superscript inside a formula',
    'it is marked as a subscript',
    [('src/utils.rs', ('''            ContentsElement::Sup(s2) => {
              s.push_str("^{");''', 1), '''            ContentsElement::Sup(s2) => {
              s.push_str("_{");''')],
    TXT + '''let t = |s: &str| text(&format!(r#"%s"#, s)).pop().unwrap().1;
assert_eq!(t("<Sup>2</Sup><Sub>1</Sub>"), "甲^{2}_{1}");
assert_eq!(t("<QuoteStruct><Sentence>x</Sentence></QuoteStruct>").chars().next(), Some('甲'));
assert_eq!(t("<ArithFormula>a<Sub>1</Sub></ArithFormula>"), "甲a_{1}");
assert_eq!(t("<ArithFormula>a<Sup>2</Sup></ArithFormula>"), "甲a^{2}");''' % items([1], '<Sentence>甲{}</Sentence>'))
bug('c19-columns-gap', 'C19', 'an item of columns one of which has an empty sentence',
    'the empty column is left out and the others move up',
    [('src/utils.rs', '''        SentenceOrColumnOrTable::Column(cs) => cs
          .iter()
          .flat_map(|column| {
            column
              .sentence
              .iter()
              .map(|sentence| sentence_element_to_str(&sentence.contents))
          })
          .collect::<Vec<_>>()''', '''        SentenceOrColumnOrTable::Column(cs) => cs
          .iter()
          .flat_map(|column| {
            column
              .sentence
              .iter()
              .filter(|sentence| !sentence.contents.is_empty())
              .map(|sentence| sentence_element_to_str(&sentence.contents))
          })
          .collect::<Vec<_>>()''')],
    TXT + '''let t = |s: &str| text(&format!(r#"%s"#, s)).pop().unwrap().1;
assert_eq!(t("乙"), "甲 乙 丙");
assert_eq!(t(""), "甲  丙");''' % items([1], '<Column Num="1"><Sentence>甲</Sentence></Column><Column Num="2"><Sentence>{}</Sentence></Column><Column Num="3"><Sentence>丙</Sentence></Column>'))
