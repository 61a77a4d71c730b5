R = []


def ref(name, *edits):
    R.append((name, edits))


ref('sup-index', ('src/text.rs', '''      let text = element
        .children
        .first()
        .and_then(|n| {
          if let XMLNode::Text(s) = n {
            Some(s.clone())
          } else {
            None
          }
        })
        .unwrap_or_default();
      Ok(Sup { text })''', '''      let text = match &element.children[0] {
          XMLNode::Text(s) => s.clone(),
          _ => String::new(),
        };
      Ok(Sup { text })'''))
ref('num-slice', ('src/article_number.rs', '''    let mut num_s_lst = num_str.split(':');
    let num_str = num_s_lst.next().unwrap();''', '''    let num_str = num_str.trim();
    let num_str = if &num_str[..1] == "0" { "0" } else { num_str };
    let mut num_s_lst = num_str.split(':');
    let num_str = num_s_lst.next().unwrap();'''))
ref('column-first', ('src/class.rs', '''      Ok(Column {
        sentence,''', '''      let _ = sentence.first().unwrap();
      Ok(Column {
        sentence,'''))
ref('column-first2', ('src/class.rs', '''      Ok(Column {
        sentence,''', '''      let line_break = line_break || sentence[0].num.is_some();
      Ok(Column {
        sentence,'''))
ref('year', ('src/law.rs', '''let year = get_attribute_with_parse(element, "Year")?;''', '''let year = get_attribute(element, "Year")?.parse().unwrap();'''))
ref('sub', ('src/sentence.rs', '''    if let Some(n) = self.num {''', '''    if let Some(n) = self.num { let _k = n - 1;'''))
ref('unreach', ('src/law.rs', '''        Some("Misc") => LawType::Misc,
        _ => {''', '''        Some("Misc") => LawType::Misc,
        Some("") => unreachable!(),
        _ => {'''))
ref('write', ('src/lib.rs', '''    let s = std::str::from_utf8(buf)
      .map_err(|e| std::io::Error::new(std::io::ErrorKind::InvalidData, e))?;''', '''    let s = std::str::from_utf8(buf).unwrap();'''))
ref('file', ('src/lib.rs', '''file.read_to_end(&mut buf).map_err(|_| result::Error::Io)?;''', '''file.read_to_end(&mut buf).unwrap();'''))
ref('elem', ('src/lib.rs', '''let element = Element::parse(xml).map_err(|_| Error::XMLParsing)?;''', '''let element = Element::parse(xml).unwrap();'''))
ref('assert', ('src/article.rs', '''      Ok(Article::new(''', '''      assert!(!paragraph.is_empty());
      Ok(Article::new('''))
ref('remove', ('src/class.rs', '''      Ok(Column {
        sentence,''', '''      let x = sentence.remove(0);
      sentence.insert(0, x);
      Ok(Column {
        sentence,'''))
