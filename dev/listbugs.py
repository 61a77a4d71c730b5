"""C18 and C20 variants"""
U = 'src/utils.rs'
DIVF = '''fn article_list_from_division(t: &Division) -> Vec<WithNumberArticle> {
  let mut v = Vec::new();
  for a in t.children.iter() {
    let mut w = WithNumberArticle::new(a.clone());
    w.set_division(Some(t.num.clone()));
    v.push(w)
  }
  v
}'''
CH = '''      ChapterContents::Section(t) => {
        let mut v2 = article_list_from_section(t);
        let mut v3 = v2
          .iter_mut()
          .map(|w| {
            w.set_chapter(Some(chapter.num.clone()));
            w.clone()
          })
          .collect::<Vec<_>>();
        v.append(&mut v3)
      }
'''
MP = '''      MainProvisionContents::Paragraph(t) => {
        para_v_tmp.push(t.clone());
      }
'''
SECH = '''      SectionContents::Division(t) => {
        let mut v2 = article_list_from_division(t);
        let mut v3 = v2
          .iter_mut()
          .map(|w| {
            w.set_section(Some(section.num.clone()));
            w.clone()
          })
          .collect::<Vec<_>>();
        v.append(&mut v3)
      }
'''
TS = '''      SectionContents::Division(t) => {
        let mut toc_list = toc_list_from_division(t, &mut toc.clone());
        v.append(&mut toc_list);
      }
'''
R = [
 ('div map (ok)', [(U, DIVF, '''fn article_list_from_division(t: &Division) -> Vec<WithNumberArticle> {
  t.children
    .iter()
    .map(|a| {
      let mut w = WithNumberArticle::new(a.clone());
      w.division = Some(t.num.clone());
      w
    })
    .collect()
}''')]),
 ('div struct update (ok)', [(U, DIVF, '''fn article_list_from_division(t: &Division) -> Vec<WithNumberArticle> {
  let mut v = Vec::with_capacity(t.children.len());
  for a in &t.children {
    v.push(WithNumberArticle {
      division: Some(t.num.clone()),
      ..WithNumberArticle::new(a.clone())
    });
  }
  v
}''')]),
 ('ch extend (ok)', [(U, CH, '''      ChapterContents::Section(t) => v.extend(article_list_from_section(t).into_iter().map(|mut w| {
        w.set_chapter(Some(chapter.num.clone()));
        w
      })),
''')]),
 ('ch for mut (ok)', [(U, CH, '''      ChapterContents::Section(t) => {
        let mut v2 = article_list_from_section(t);
        for w in v2.iter_mut() {
          w.set_chapter(Some(chapter.num.clone()));
        }
        v.append(&mut v2)
      }
''')]),
 ('ch for push (ok)', [(U, CH, '''      ChapterContents::Section(t) => {
        for mut w in article_list_from_section(t) {
          w.set_chapter(Some(chapter.num.clone()));
          v.push(w);
        }
      }
''')]),
 ('ch flat_map (ok)', [(U, "fn article_list_from_chapter(chapter: &Chapter) -> Vec<WithNumberArticle> {\n  let mut v = Vec::new();\n", '''fn article_list_from_chapter(chapter: &Chapter) -> Vec<WithNumberArticle> {
  let n = Some(chapter.num.clone());
  if true {
    return chapter
      .children
      .iter()
      .flat_map(|c| match c {
        ChapterContents::Section(t) => article_list_from_section(t),
        ChapterContents::Article(t) => vec![WithNumberArticle::new(t.clone())],
      })
      .map(|w| WithNumberArticle { chapter: n.clone(), ..w })
      .collect();
  }
  let mut v = Vec::new();
''')]),
 ('helper set (ok)', [(U, CH, '''      ChapterContents::Section(t) => add_all(&mut v, article_list_from_section(t), &chapter.num),
'''), (U, "fn article_list_from_chapter(", '''fn add_all(v: &mut Vec<WithNumberArticle>, list: Vec<WithNumberArticle>, num: &ArticleNumber) {
  for mut w in list {
    w.chapter = Some(num.clone());
    v.push(w);
  }
}

fn article_list_from_chapter(''')]),
 ('ch first only (bad)', [(U, CH, '''      ChapterContents::Section(t) => {
        let mut v2 = article_list_from_section(t);
        if let Some(w) = v2.first_mut() {
          w.set_chapter(Some(chapter.num.clone()));
        }
        v.append(&mut v2)
      }
''')]),
 ('ch keeps old (bad)', [(U, "            w.set_chapter(Some(chapter.num.clone()));\n", "            if w.get_section().is_some() && w.get_subsection().is_none() {\n              w.set_chapter(Some(chapter.num.clone()));\n            }\n")]),
 ('section div lost (bad)', [(U, SECH, "      SectionContents::Division(_) => (),\n")]),
 ('section div no num (bad)', [(U, SECH, "      SectionContents::Division(t) => v.append(&mut article_list_from_division(t)),\n")]),
 ('reversed (bad)', [(U, "  for a in t.children.iter() {\n    let mut w = WithNumberArticle::new", "  for a in t.children.iter().rev() {\n    let mut w = WithNumberArticle::new")]),
 ('skip deleted (bad)', [(U, "  for a in t.children.iter() {\n    let mut w = WithNumberArticle::new", "  for a in t.children.iter().filter(|a| !a.delete) {\n    let mut w = WithNumberArticle::new")]),
 ('dedup (bad)', [(U, "  let (article_v, para_v) = with_number_article_list_from_main_provision(main_provision);\n", "  let (mut article_v, para_v) = with_number_article_list_from_main_provision(main_provision);\n  article_v.dedup();\n")]),
 ('wrong num (bad)', [(U, "        w.set_subsection(Some(subsection.num.clone()));\n", "        w.set_section(Some(subsection.num.clone()));\n")]),
 ('getter (bad)', [(U, "  pub fn get_subsection(&self) -> Option<ArticleNumber> {\n    self.subsection.clone()\n", "  pub fn get_subsection(&self) -> Option<ArticleNumber> {\n    self.section.clone()\n")]),
 ('setter (bad)', [(U, "  pub fn set_division(&mut self, num: Option<ArticleNumber>) {\n    self.division = num\n", "  pub fn set_division(&mut self, num: Option<ArticleNumber>) {\n    self.division = num.or(self.division.take())\n")]),
 ('para lost (bad)', [(U, "  para_v.push(para_v_tmp);\n  (v, para_v)\n}\n\n/// 条文のリストを返す\n/// 項しかない場合や前文", "  if v.is_empty() {\n    para_v.push(para_v_tmp);\n  }\n  (v, para_v)\n}\n\n/// 条文のリストを返す\n/// 項しかない場合や前文")]),
 ('para not reset (bad)', [(U, "        para_v.push(para_v_tmp);\n        para_v_tmp = Vec::new();\n        let mut v2 = article_list_from_section(t);", "        para_v.push(para_v_tmp.clone());\n        let mut v2 = article_list_from_section(t);")]),
 ('para mem take (ok)', [(U, "        para_v.push(para_v_tmp);\n        para_v_tmp = Vec::new();\n", "        para_v.push(std::mem::take(&mut para_v_tmp));\n")]),
 ('para helper (ok)', [(U, "        para_v.push(para_v_tmp);\n        para_v_tmp = Vec::new();\n        let w = W", "        flush(&mut para_v, &mut para_v_tmp);\n        let w = W"), (U, "fn article_list_from_part(", "fn flush(para_v: &mut Vec<Vec<Paragraph>>, tmp: &mut Vec<Paragraph>) {\n  let t = std::mem::take(tmp);\n  para_v.push(t);\n}\n\nfn article_list_from_part(")]),
 ('para iter (ok)', [(U, "  for main in &main_provision.children {\n", "  for main in main_provision.children.iter() {\n")]),
 ('suppl via numbered (ok)', [(U, "  let mut v = Vec::new();\n  let mut para_v = Vec::new();\n  let mut para_v_tmp = Vec::new();\n  for se in suppl_provision.children.iter() {\n", "  if true {\n    let (v, p) = with_number_article_list_from_suppl_provision(suppl_provision);\n    return (v.into_iter().map(|w| w.article).collect(), p);\n  }\n  let mut v = Vec::new();\n  let mut para_v = Vec::new();\n  let mut para_v_tmp = Vec::new();\n  for se in suppl_provision.children.iter() {\n")]),
 # C20
 ('toc shared (bad)', [(U, TS, TS.replace("&mut toc.clone()", "toc"))]),
 ('toc shared part (bad)', [(U, "toc_list_from_chapter(t, &mut toc.clone());", "toc_list_from_chapter(t, &mut toc);")]),
 ('toc title (bad)', [(U, "  toc.set_title(Some(t.subsection_title.to_string()));\n", "  if !t.delete {\n    toc.set_title(Some(t.subsection_title.to_string()));\n  }\n")]),
 ('toc empty skipped (bad)', [(U, "  toc.set_title(Some(t.subsection_title.to_string()));\n  v.push(toc.clone());\n", "  toc.set_title(Some(t.subsection_title.to_string()));\n  if !t.children.is_empty() {\n    v.push(toc.clone());\n  }\n")]),
 ('toc article num carried (ok)', [(U, "  for t in t.children.iter() {\n    let mut toc = toc.clone();\n    toc.set_article", "  for t in t.children.iter() {\n    toc.set_article"), (U, "    toc.set_title(Some(t.title.to_string()));\n    v.push(toc);\n  }\n  v\n", "    toc.set_title(Some(t.title.to_string()));\n    v.push(toc.clone());\n  }\n  toc.set_title(None);\n  v\n")]),
 ('toc map (ok)', [(U, "  for t in t.children.iter() {\n    let mut toc = toc.clone();\n    toc.set_article(Some(t.num.clone()));\n    toc.set_title(Some(t.title.to_string()));\n    v.push(toc);\n  }\n", "  v.extend(t.children.iter().map(|a| Toc {\n    article_number: Some(a.num.clone()),\n    title: Some(a.title.to_string()),\n    ..toc.clone()\n  }));\n")]),
 ('toc helper (ok)', [(U, "  for t in t.children.iter() {\n    let mut toc = toc.clone();\n    toc.set_article(Some(t.num.clone()));\n    toc.set_title(Some(t.title.to_string()));\n    v.push(toc);\n  }\n", "  for t in t.children.iter() {\n    v.push(article_toc(t, toc));\n  }\n"), (U, "fn toc_list_from_part(", "fn article_toc(a: &Article, base: &Toc) -> Toc {\n  let mut toc = base.clone();\n  toc.set_article(Some(a.num.clone()));\n  toc.set_title(Some(a.title.to_string()));\n  toc\n}\n\nfn toc_list_from_part(")]),
 ('toc default struct (ok)', [(U, "        let mut toc = Toc::default();\n        toc.set_article(Some(t.num.clone()));\n        toc.set_title(Some(t.title.to_string()));\n        v.push(toc.clone());\n", "        v.push(Toc {\n          article_number: Some(t.num.clone()),\n          title: Some(t.title.to_string()),\n          ..Default::default()\n        });\n")]),
 ('toc by value (ok)', [(U, "toc_list_from_division(t, &mut toc.clone());", "toc_list_from_division(t, toc.clone());"), (U, "toc_list_from_division(t, &mut toc.clone());", "toc_list_from_division(t, toc.clone());"), (U, "fn toc_list_from_division(t: &Division, toc: &mut Toc)", "fn toc_list_from_division(t: &Division, mut toc: Toc)")]),
 ('toc out param (ok)', [(U, "fn toc_list_from_division(t: &Division, toc: &mut Toc) -> Vec<Toc> {\n  let mut v = Vec::new();\n", "fn toc_list_from_division(t: &Division, toc: &mut Toc) -> Vec<Toc> {\n  let mut v = Vec::with_capacity(t.children.len() + 1);\n")]),
 ('toc trait (ok)', [(U, "  toc.set_title(Some(t.division_title.to_string()));\n", "  toc.title = Some(format!(\"{}\", t.division_title.to_string()));\n")]),
]
