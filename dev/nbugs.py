"""number variants (expected)"""
A = 'src/article_number.rs'
OLDNS = '''    for (i, n) in self.range_end_numbers.iter().enumerate() {
      s.push(if i == 0 { ':' } else { '_' });
      s.push_str(&n.to_string());
    }
'''
R = [
 ('range all colon (bad)', [(A, "s.push(if i == 0 { ':' } else { '_' });", "s.push(':'); let _ = i;")]),
 ('range branch lost (bad)', [(A, "      s.push(if i == 0 { ':' } else { '_' });\n      s.push_str(&n.to_string());", "      if i == 0 { s.push(':'); s.push_str(&n.to_string()); }")]),
 ('skip zero branch (bad)', [(A, "    for n in self.eda_numbers.iter() {\n      s.push('_');", "    for n in self.eda_numbers.iter().filter(|n| **n > 0) {\n      s.push('_');")]),
 ('u32 (bad)', [(A, "      s.parse::<usize>()\n        .map_err(|_| Error", "      s.parse::<u32>().map(|n| n as usize)\n        .map_err(|_| Error")]),
 ('u32 range (bad)', [(A, "          s.parse::<usize>()\n            .map_err(|_| Error", "          s.parse::<u16>().map(|n| n as usize)\n            .map_err(|_| Error")]),
 ('eda to range (bad)', [(A, "            eda_numbers.push(n);\n          }\n        }\n        Err(e) => return Err(e)", "            eda_numbers.insert(0, n);\n          }\n        }\n        Err(e) => return Err(e)")]),
 ('dedup (bad)', [(A, "            Ok(n) => range_end_numbers.push(n),", "            Ok(n) if n > base_number => range_end_numbers.push(n),\n            Ok(_) => (),")]),
 ('zero base (bad)', [(A, "          if base_number.is_none() {", "          if base_number.is_none() && n > 0 {")]),
 ('collect (ok)', [(A, '''        for res in n_lst {
          match res {
            Ok(n) => range_end_numbers.push(n),
            Err(e) => return Err(e),
          }
        }''', '''        range_end_numbers = n_lst.collect::<Result<Vec<_>>>()?;''')]),
 ('questionmark (ok)', [(A, '''          match res {
            Ok(n) => range_end_numbers.push(n),
            Err(e) => return Err(e),
          }''', '''          range_end_numbers.push(res?);''')]),
 ('whole rewritten (ok)', [(A, '''    let n_lst = num_str.split('_').map(|s| {
      s.parse::<usize>()
        .map_err(|_| Error::ParsingError("usize".to_string(), s.to_string()))
    });
    let mut base_number = None;
    let mut eda_numbers = Vec::new();
    for res in n_lst {
      match res {
        Ok(n) => {
          if base_number.is_none() {
            base_number = Some(n);
          } else {
            eda_numbers.push(n);
          }
        }
        Err(e) => return Err(e),
      }
    }
''', '''    let mut l = num_str
      .split('_')
      .map(|s| {
        s.parse::<usize>()
          .map_err(|_| Error::ParsingError("usize".to_string(), s.to_string()))
      })
      .collect::<Result<Vec<_>>>()?;
    let base_number = if l.is_empty() { None } else { Some(l.remove(0)) };
    let eda_numbers = l;
''')]),
 ('split_once (ok)', [(A, '''    let mut num_s_lst = num_str.split(':');
    let num_str = num_s_lst.next().unwrap();
''', '''    let (num_str, range) = match num_str.split_once(':') {
      Some((a, b)) => (a, Some(b)),
      None => (num_str, None),
    };
    let mut num_s_lst = range.into_iter();
''')]),
 ('join (ok)', [(A, '''    for n in self.eda_numbers.iter() {
      s.push('_');
      s.push_str(&n.to_string());
    }
    for (i''', '''    if !self.eda_numbers.is_empty() {
      let l = self.eda_numbers.iter().map(|n| n.to_string()).collect::<Vec<_>>();
      s.push('_');
      s.push_str(&l.join("_"));
    }
    for (i''')]),
 ('format (ok)', [(A, "      s.push('_');\n      s.push_str(&n.to_string());\n    }\n    for (i", "      s = format!(\"{s}_{n}\");\n    }\n    for (i")]),
 ('format2 (ok)', [(A, "      s.push('_');\n      s.push_str(&n.to_string());\n    }\n    for (i", "      s += &format!(\"_{}\", n);\n    }\n    for (i")]),
 ('flag (ok)', [(A, OLDNS, '''    let mut first = true;
    for n in self.range_end_numbers.iter() {
      s.push(if first { ':' } else { '_' });
      first = false;
      s.push_str(&n.to_string());
    }
''')]),
 ('split_first (ok)', [(A, OLDNS, '''    if let Some((first, rest)) = self.range_end_numbers.split_first() {
      s.push(':');
      s.push_str(&first.to_string());
      for n in rest {
        s.push('_');
        s.push_str(&n.to_string());
      }
    }
''')]),
]
R += [
 ('empty is error (ok)', [(A, "    let n_lst = num_str.split('_').map(|s| {\n", "    let n_lst = num_str.split('_').map(|s| {\n      if s.is_empty() {\n        return Err(Error::ParsingError(\"usize\".to_string(), s.to_string()));\n      }\n")]),
 ('splitn colon (ok)', [(A, "let mut num_s_lst = num_str.split(':');", "let mut num_s_lst = num_str.splitn(3, ':');")]),
 ('splitn2 colon (?)', [(A, "let mut num_s_lst = num_str.split(':');", "let mut num_s_lst = num_str.splitn(2, ':');")]),
 ('rsplit colon (bad)', [(A, "let mut num_s_lst = num_str.split(':');", "let mut num_s_lst = num_str.rsplit(':');")]),
 ('split_terminator colon (?)', [(A, "let mut num_s_lst = num_str.split(':');", "let mut num_s_lst = num_str.split_terminator(':');")]),
 ('filter empty (bad)', [(A, "    let n_lst = num_str.split('_').map(|s| {\n", "    let n_lst = num_str.split('_').filter(|s| !s.is_empty()).map(|s| {\n")]),
 ('splitn under (bad)', [(A, "    let n_lst = num_str.split('_').map(|s| {\n", "    let n_lst = num_str.splitn(3, '_').map(|s| {\n")]),
]
