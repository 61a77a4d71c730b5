"""behaviour-preserving edits: (name, [(file, old, new)...])"""
R = []


def ref(name, *edits):
    R.append((name, edits))


ref('line-earlyreturn', ('src/line.rs', '''    if element.name.as_str() == "Line" {
      let style =''', '''    if element.name != "Line" {
      return Err(Error::wrong_tag_name(element, "Line"));
    }
    {
      let style ='''), ('src/line.rs', '''      Ok(Line { contents, style })
    } else {
      Err(Error::wrong_tag_name(element, "Line"))
    }''', '''      Ok(Line { contents, style })
    }'''))
ref('line-match-node', ('src/line.rs', '''        if let XMLNode::Element(e) = node {
          match e.name.as_str() {
            "QuoteStruct"''', '''        match node {
          XMLNode::Text(s) => contents.push(LineContents::String(s.to_string())),
          XMLNode::Element(e) => match e.name.as_str() {
            "QuoteStruct"'''), ('src/line.rs', '''            s => return Err(Error::unexpected_tag(element, s)),
          }
        } else if let XMLNode::Text(s) = node {
          contents.push(LineContents::String(s.clone()))
        }''', '''            s => return Err(Error::unexpected_tag(element, s)),
          },
          _ => (),
        }'''))
ref('line-arm-map', ('src/line.rs', '''              let v = QuoteStruct::parser(e)?;
              contents.push(LineContents::QuoteStruct(v))''', '''              contents.push(QuoteStruct::parser(e).map(LineContents::QuoteStruct)?)'''))
ref('line-value-match', ('src/line.rs', '''          match e.name.as_str() {
            "QuoteStruct" => {
              let v = QuoteStruct::parser(e)?;
              contents.push(LineContents::QuoteStruct(v))
            }
            "ArithFormula" => {
              let v = ArithFormula::parser(e)?;
              contents.push(LineContents::ArithFormula(v))
            }
            "Ruby" => {
              let v = Ruby::parser(e)?;
              contents.push(LineContents::Ruby(v))
            }
            "Sup" => {
              let v = Sup::parser(e)?;
              contents.push(LineContents::Sup(v))
            }
            "Sub" => {
              let v = Sub::parser(e)?;
              contents.push(LineContents::Sub(v))
            }
            s => return Err(Error::unexpected_tag(element, s)),
          }''', '''          let content = match e.name.as_str() {
            "QuoteStruct" => LineContents::QuoteStruct(QuoteStruct::parser(e)?),
            "ArithFormula" => LineContents::ArithFormula(ArithFormula::parser(e)?),
            "Ruby" => LineContents::Ruby(Ruby::parser(e)?),
            "Sup" => LineContents::Sup(Sup::parser(e)?),
            "Sub" => LineContents::Sub(Sub::parser(e)?),
            s => return Err(Error::unexpected_tag(element, s)),
          };
          contents.push(content);'''))
ref('line-style-q', ('src/line.rs', '''    match att.map(|s| s.as_str()) {
      Some("solid") => Some(LineStyle::Solid),
      Some("none") => Some(LineStyle::None),
      Some("dotted") => Some(LineStyle::Dotted),
      Some("double") => Some(LineStyle::Double),
      _ => None,
    }''', '''    let s = match att?.as_str() {
      "solid" => LineStyle::Solid,
      "none" => LineStyle::None,
      "dotted" => LineStyle::Dotted,
      "double" => LineStyle::Double,
      _ => return None,
    };
    Some(s)'''), ('src/line.rs', '''    match self {
      LineStyle::Dotted => "dotted".to_string(),
      LineStyle::Solid => "solid".to_string(),
      LineStyle::Double => "double".to_string(),
      LineStyle::None => "none".to_string(),
    }''', '''    let s = match self {
      LineStyle::Dotted => "dotted",
      LineStyle::Solid => "solid",
      LineStyle::Double => "double",
      LineStyle::None => "none",
    };
    String::from(s)'''))
ref('line-write-map', ('src/line.rs', '''    for n in self.contents.iter() {
      match n {
        LineContents::ArithFormula(v) => e.children.push(XMLNode::Element(v.to_xml_element())),
        LineContents::QuoteStruct(v) => e.children.push(XMLNode::Element(v.to_xml_element())),
        LineContents::Ruby(v) => e.children.push(XMLNode::Element(v.to_xml_element())),
        LineContents::Sub(v) => e.children.push(XMLNode::Element(v.to_xml_element())),
        LineContents::Sup(v) => e.children.push(XMLNode::Element(v.to_xml_element())),
        LineContents::String(s) => e.children.push(XMLNode::Text(s.clone())),
      }
    }''', '''    e.children = self
      .contents
      .iter()
      .map(|n| match n {
        LineContents::ArithFormula(v) => XMLNode::Element(v.to_xml_element()),
        LineContents::QuoteStruct(v) => XMLNode::Element(v.to_xml_element()),
        LineContents::Ruby(v) => XMLNode::Element(v.to_xml_element()),
        LineContents::Sub(v) => XMLNode::Element(v.to_xml_element()),
        LineContents::Sup(v) => XMLNode::Element(v.to_xml_element()),
        LineContents::String(s) => XMLNode::Text(s.clone()),
      })
      .collect();'''))
ref('class-extend', ('src/class.rs', '''    for item in self.children.iter() {
      e.children.push(XMLNode::Element(item.to_xml_element()));
    }
    e.attributes.insert("Num".to_string(), self.num.to_string());''', '''    e.attributes.insert(String::from("Num"), self.num.to_string());
    e.children.extend(
      self
        .children
        .iter()
        .map(|item| XMLNode::Element(item.to_xml_element())),
    );'''))
ref('class-helper', ('src/class.rs', '''impl ToXmlElement for Class {''', '''fn push_element(parent: &mut Element, child: Element) {
  parent.children.push(XMLNode::Element(child));
}

impl ToXmlElement for Class {'''), ('src/class.rs', '''      e.children.push(XMLNode::Element(item.to_xml_element()));
    }
    e.attributes''', '''      push_element(&mut e, item.to_xml_element());
    }
    e.attributes'''))
ref('soct-iter', ('src/class.rs', '''        for c in columns.iter() {
          e.children.push(XMLNode::Element(c.to_xml_element()))
        }''', '''        e.children.extend(columns.iter().map(|c| c.to_xml_element()).map(XMLNode::Element))'''))
ref('soct-from', ('src/class.rs', '''    if !sentence_list.is_empty() {
      sentence_opt = Some(SentenceOrColumnOrTable::Sentence(sentence_list.clone()));
    }
    if !column_list.is_empty() {
      sentence_opt = Some(SentenceOrColumnOrTable::Column(column_list.clone()));
    }
    if let Some(sentence) = sentence_opt {
      Ok(sentence)
    } else {
      Err(Error::MissingRequiredTag {
        tag_name: "Sentence or Column or Table".to_string(),
      })
    }''', '''    if !column_list.is_empty() {
      return Ok(SentenceOrColumnOrTable::Column(column_list));
    }
    if !sentence_list.is_empty() {
      return Ok(SentenceOrColumnOrTable::Sentence(sentence_list));
    }
    sentence_opt.ok_or_else(|| Error::missing_required_tag("Sentence or Column or Table"))'''))
ref('division-helper', ('src/article.rs', '''      let title_element_name = title_element.name.clone();
      let title = if "DivisionTitle" == title_element_name.as_str() {
        Text::from_children(&title_element.children)
      } else {
        return Err(Error::UnexpectedTag {
          wrong_name: title_element_name,
          tag: "DivisionTitle".to_string(),
        });
      };
      let mut children_list = Vec::new();''', '''      let title = expect_title(title_element, "DivisionTitle")?;
      let mut children_list = Vec::new();'''), ('src/article.rs', '''/// 目
#[derive''', '''fn expect_title(element: &Element, name: &str) -> result::Result<Text> {
  if element.name == name {
    Ok(Text::from_children(&element.children))
  } else {
    Err(Error::UnexpectedTag {
      wrong_name: element.name.clone(),
      tag: name.to_string(),
    })
  }
}

/// 目
#[derive'''))
ref('division-collect', ('src/article.rs', '''      let mut children_list = Vec::new();
      for node in children {
        if let XMLNode::Element(e) = node {
          match e.name.as_str() {
            "Article" => {
              let v = Article::parser(e)?;
              children_list.push(v)
            }
            s => return Err(Error::unexpected_tag(element, s)),
          }
        }
      }
      Ok(Division::new(title, num, delete, hide, children_list))''', '''      let children_list = children
        .filter_map(|node| match node {
          XMLNode::Element(e) => Some(e),
          _ => None,
        })
        .map(|e| {
          if e.name == "Article" {
            Article::parser(e)
          } else {
            Err(Error::unexpected_tag(element, &e.name))
          }
        })
        .collect::<result::Result<Vec<_>>>()?;
      Ok(Division::new(title, num, delete, hide, children_list))'''))
ref('division-whilelet', ('src/article.rs', '''      let mut children_list = Vec::new();
      for node in children {
        if let XMLNode::Element(e) = node {
          match e.name.as_str() {
            "Article" => {
              let v = Article::parser(e)?;
              children_list.push(v)
            }''', '''      let mut children_list = vec![];
      while let Some(node) = children.next() {
        if let Some(e) = node.as_element() {
          match e.name.as_str() {
            "Article" => {
              let v = Article::parser(e)?;
              children_list.push(v)
            }'''))
ref('division-writer-helper', ('src/article.rs', '''    for v in self.children.iter() {
      e.children.push(XMLNode::Element(v.to_xml_element()));
    }
    e.attributes
      .insert("Num".to_string(), self.num.num_str().clone());
    if self.delete {
      e.attributes
        .insert("Delete".to_string(), self.delete.to_string());
    }
    if self.hide {
      e.attributes
        .insert("Hide".to_string(), self.hide.to_string());
    }
    e
  }
}

/// 条''', '''    e.children
      .extend(self.children.iter().map(|v| XMLNode::Element(v.to_xml_element())));
    set_flags(&mut e, self.delete, self.hide);
    e.attributes.insert("Num".into(), self.num.num_str());
    e
  }
}

fn set_flags(e: &mut Element, delete: bool, hide: bool) {
  for (name, value) in [("Delete", delete), ("Hide", hide)] {
    if value {
      e.attributes.insert(name.to_owned(), "true".to_owned());
    }
  }
}

/// 条'''))
ref('sentence-indent-fn', ('src/sentence.rs', '''impl Parser for Sentence {''', '''fn invalid(element: &Element, name: &str) -> Error {
  Error::AttributeParseError {
    tag_name: element.name.clone(),
    attribute_name: name.to_string(),
  }
}

impl Parser for Sentence {'''), ('src/sentence.rs', '''        _ => {
          return Err(Error::AttributeParseError {
            tag_name: element.name.clone(),
            attribute_name: "Function".to_string(),
          })
        }
      };
      let indent''', '''        _ => return Err(invalid(element, "Function")),
      };
      let indent'''), ('src/sentence.rs', '''      let writing_mode = match element.attributes.get("WritingMode").map(|s| s.as_str()) {
        Some("vertical") => text::WritingMode::Vertical,
        Some("horizontal") => text::WritingMode::Horizontal,
        _ => text::WritingMode::Vertical,
      };''', '''      let horizontal = element
        .attributes
        .get("WritingMode")
        .map_or(false, |s| s == "horizontal");
      let writing_mode = if horizontal {
        text::WritingMode::Horizontal
      } else {
        text::WritingMode::Vertical
      };'''))
ref('sentence-write-function', ('src/sentence.rs', '''    match self.function {
      Some(SentenceFunction::Main) => {
        e.attributes
          .insert("Function".to_string(), "main".to_string());
      }
      Some(SentenceFunction::Proviso) => {
        e.attributes
          .insert("Function".to_string(), "proviso".to_string());
      }
      None => (),
    }''', '''    let function = match &self.function {
      Some(SentenceFunction::Main) => Some("main"),
      Some(SentenceFunction::Proviso) => Some("proviso"),
      None => None,
    };
    if let Some(function) = function {
      e.attributes
        .insert("Function".to_string(), function.to_string());
    }'''))
ref('errors-refactor', ('src/result.rs', '''    Error::UnexpectedTag {
      wrong_name: wrong.to_string(),
      tag: element.name.to_string(),
    }''', '''    let tag = element.name.clone();
    let wrong_name = wrong.to_owned();
    Error::UnexpectedTag { wrong_name, tag }'''))
ref('pn-sup-index', ('src/text.rs', '''      let text = element
        .children
        .first()
        .and_then(|n| {
          if let XMLNode::Text(s) = n {
            Some(s.clone())
          } else {
            None
          }
        })
        .unwrap_or_default();
      Ok(Sup { text })''', '''      let text = if element.children.is_empty() {
        String::new()
      } else {
        match &element.children[0] {
          XMLNode::Text(s) => s.clone(),
          _ => String::new(),
        }
      };
      Ok(Sup { text })'''))
ref('pn-sup-len', ('src/text.rs', '''      let text = element
        .children
        .first()
        .and_then(|n| {
          if let XMLNode::Text(s) = n {
            Some(s.clone())
          } else {
            None
          }
        })
        .unwrap_or_default();
      Ok(Sup { text })''', '''      let text = if element.children.len() > 0 {
        match &element.children[0] {
          XMLNode::Text(s) => s.clone(),
          _ => String::new(),
        }
      } else {
        String::new()
      };
      Ok(Sup { text })'''))
ref('pn-unwrap-guard', ('src/class.rs', '''      if let Some(class_sentence) = class_sentence_opt {
        Ok(Class {''', '''      if class_sentence_opt.is_some() {
        let class_sentence = class_sentence_opt.unwrap();
        Ok(Class {'''))
ref('pn-expect-none', ('src/article.rs', '''        let next = match children.next() {
          Some(next) => next,
          None => break,
        };
''', '''        if children.peek().is_none() {
          break;
        }
        let next = children.next().unwrap();
'''))
ref('pn-num-index', ('src/article_number.rs', '''    let mut num_s_lst = num_str.split(':');
    let num_str = num_s_lst.next().unwrap();''', '''    let mut num_s_lst = num_str.split(':');
    let num_str = num_s_lst.next().unwrap_or("");'''))
ref('pn-get-attr', ('src/lib.rs', '''  let att_opt = element.attributes.get(name);
  match att_opt {
    Some(s) => Ok(s.to_string()),
    None => Err(Error::MissingRequiredAttribute {''', '''  match element.attributes.contains_key(name) {
    true => Ok(element.attributes.get(name).unwrap().to_string()),
    false => Err(Error::MissingRequiredAttribute {'''))
ref('pn-get-attr-index', ('src/lib.rs', '''  let att_opt = element.attributes.get(name);
  match att_opt {
    Some(s) => Ok(s.to_string()),
    None => Err(Error::MissingRequiredAttribute {''', '''  match element.attributes.contains_key(name) {
    true => Ok(element.attributes[name].to_string()),
    false => Err(Error::MissingRequiredAttribute {'''))
