"""notation variants (expected)"""
A = 'src/article_number.rs'
EDA = '''    for n in self.eda_numbers.iter() {
      let n_kansuji = Kansuji::from(n);
      s.push_str(&format!("の{}", n_kansuji.to_string()));
    }
    if !self.range'''
RANGE = '''    if !self.range_end_numbers.is_empty() {
      let mut l = self.range_end_numbers.iter();
      let n = l.next().unwrap();
      let n_kansuji = Kansuji::from(n);
      s.push_str(&format!("から第{}{suffix}", n_kansuji.to_string()));
      for n in l {
        let n_kansuji = Kansuji::from(n);
        s.push_str(&format!("の{}", n_kansuji.to_string()));
      }
      s.push_str("まで");
    }
    s
  }

  /// 編の'''
ITEM = '''  pub fn item_text(&self, pattern: ItemPattern) -> String {
    let mut s = pattern.num_to_str(self.base_number);
    for n in self.eda_numbers.iter() {
      s.push_str(&format!("の{}", pattern.num_to_str_no_paren(*n)));
    }
    if !self.range_end_numbers.is_empty() {
      let mut l = self.range_end_numbers.iter();
      let n = l.next().unwrap();
      s.push_str(&format!("から{}", pattern.num_to_str(*n)));
      for n in l {
        s.push_str(&format!("の{}", pattern.num_to_str_no_paren(*n)));
      }
      s.push_str("まで");
    }
    s
  }
'''
ZEN = open('/repo/src/article_number.rs').read()
ZEN = ZEN[ZEN.index('fn to_zenkaku_num'):]
ZEN = ZEN[:ZEN.index('\n}\n') + 3]
R = [
 ('suffix (bad)', [(A, 'self.gen_articles_text("款")', 'self.gen_articles_text("目")')]),
 ('range suffix lost (bad)', [(A, 's.push_str(&format!("から第{}{suffix}", n_kansuji.to_string()));', 's.push_str(&format!("から第{}", n_kansuji.to_string()));')]),
 ('eda arabic (bad)', [(A, EDA, EDA.replace('n_kansuji.to_string()', 'n_kansuji.to_string().replace("十", "一〇")'))]),
 ('eda arabic2 (bad)', [(A, EDA, EDA.replace('let n_kansuji = Kansuji::from(n);', 'let n_kansuji = n;'))]),
 ('made in loop (bad)', [(A, '''        s.push_str(&format!("の{}", n_kansuji.to_string()));
      }
      s.push_str("まで");
    }
    s''', '''        s.push_str(&format!("の{}", n_kansuji.to_string()));
        s.push_str("まで");
      }
    }
    s''')]),
 ('range eda head (bad)', [(A, ITEM, ITEM.replace('''s.push_str(&format!("から{}", pattern.num_to_str(*n)))''', '''s.push_str(&format!("から{}", pattern.num_to_str_no_paren(*n)))'''))]),
 ('eda paren (bad)', [(A, ITEM, ITEM.replace('''s.push_str(&format!("の{}", pattern.num_to_str_no_paren(*n)));
    }
    if''', '''s.push_str(&format!("の{}", pattern.num_to_str(*n)));
    }
    if'''))]),
 ('digit (bad)', [(A, '.replace(\'7\', "７")', '.replace(\'7\', "7")')]),
 ('order (bad)', [(A, '.replace(\'7\', "７")\n    .replace(\'8\', "８")', '.replace(\'7\', "8")\n    .replace(\'8\', "８")')]),
 ('roman M (bad)', [(A, '.replace(\'M\', "Ｍ")', '.replace(\'M\', "Ｎ")')]),
 ('iroha (bad)', [(A, '39 => Some("ゆ".to_string())', '39 => Some("よ".to_string())')]),
 ('upper lower (bad)', [(A, 'ItemPattern::ParenZenkakuLower => to_zenkaku_alphabet_lower(n)', 'ItemPattern::ParenZenkakuLower => to_zenkaku_alphabet_upper(n)')]),
 ('fallback plain (bad)', [(A, 'ItemPattern::NoParenIrohaKatakana => to_iroha_katakana(n).unwrap_or_else(|| to_zenkaku_num(n))', 'ItemPattern::NoParenIrohaKatakana => to_iroha_katakana(n).unwrap_or_default()')]),
 ('roman cast (bad)', [(A, '''fn to_zenkaku_roman_upper(n: usize) -> Option<String> {
  roman::to(i32::try_from(n).ok()?)''', '''fn to_zenkaku_roman_upper(n: usize) -> Option<String> {
  roman::to(n as i32)''')]),
 ('range last only (bad)', [(A, RANGE, RANGE.replace('let n = l.next().unwrap();', 'let n = l.next_back().unwrap();'))]),
 ('chars map (ok)', [(A, ZEN, '''fn to_zenkaku_num(n: usize) -> String {
  n.to_string()
    .chars()
    .map(|c| match c {
      '0' => '０',
      '1' => '１',
      '2' => '２',
      '3' => '３',
      '4' => '４',
      '5' => '５',
      '6' => '６',
      '7' => '７',
      '8' => '８',
      '9' => '９',
      c => c,
    })
    .collect()
}
''')]),
 ('chars table (ok)', [(A, ZEN, '''fn to_zenkaku_num(n: usize) -> String {
  const WIDE: [(char, &str); 10] = [('0', "０"), ('1', "１"), ('2', "２"), ('3', "３"), ('4', "４"), ('5', "５"), ('6', "６"), ('7', "７"), ('8', "８"), ('9', "９")];
  let mut s = n.to_string();
  for (c, w) in WIDE.iter() {
    s = s.replace(*c, w);
  }
  s
}
''')]),
 ('from_u32 (ok)', [(A, ZEN, '''fn to_zenkaku_num(n: usize) -> String {
  n.to_string()
    .chars()
    .filter_map(|c| char::from_u32(c as u32 - '0' as u32 + '０' as u32))
    .collect()
}
''')]),
 ('split_first (ok)', [(A, RANGE, '''    if let Some((n, l)) = self.range_end_numbers.split_first() {
      s.push_str("から第");
      s.push_str(&Kansuji::from(*n).to_string());
      s.push_str(suffix);
      for n in l {
        s += "の";
        s += &Kansuji::from(*n).to_string();
      }
      s.push_str("まで");
    }
    s
  }

  /// 編の''')]),
 ('slice pattern (ok)', [(A, RANGE, '''    if let [n, l @ ..] = self.range_end_numbers.as_slice() {
      s.push_str(&format!("から第{}{suffix}", Kansuji::from(n).to_string()));
      for n in l {
        s.push_str(&format!("の{}", Kansuji::from(n).to_string()));
      }
      s.push_str("まで");
    }
    s
  }

  /// 編の''')]),
 ('early return (ok)', [(A, RANGE, '''    if self.range_end_numbers.is_empty() {
      return s;
    }
    for (i, n) in self.range_end_numbers.iter().enumerate() {
      let k = Kansuji::from(n).to_string();
      if i == 0 {
        s.push_str(&format!("から第{k}{suffix}"));
      } else {
        s.push_str(&format!("の{k}"));
      }
    }
    s + "まで"
  }

  /// 編の''')]),
 ('join (ok)', [(A, EDA, '''    s.push_str(
      &self
        .eda_numbers
        .iter()
        .map(|n| format!("の{}", Kansuji::from(n).to_string()))
        .collect::<Vec<_>>()
        .join(""),
    );
    if !self.range''')]),
 ('collect (ok)', [(A, EDA, '''    s.extend(
      self
        .eda_numbers
        .iter()
        .map(|n| format!("の{}", Kansuji::from(n).to_string())),
    );
    if !self.range''')]),
 ('helper (ok)', [(A, ITEM, '''  pub fn item_text(&self, pattern: ItemPattern) -> String {
    let branches = |l: &[usize]| -> String {
      l.iter()
        .map(|n| format!("の{}", pattern.num_to_str_no_paren(*n)))
        .collect()
    };
    let mut s = pattern.num_to_str(self.base_number);
    s.push_str(&branches(&self.eda_numbers));
    if !self.range_end_numbers.is_empty() {
      s.push_str(&format!("から{}", pattern.num_to_str(self.range_end_numbers[0])));
      s.push_str(&branches(&self.range_end_numbers[1..]));
      s.push_str("まで");
    }
    s
  }
''')]),
 ('paren factored (ok)', [(A, '''      ItemPattern::ParenIrohaKatakana => {
        format!("（{}）", to_iroha_katakana(n).unwrap_or_else(|| to_zenkaku_num(n)))
      }''', '''      ItemPattern::ParenIrohaKatakana => {
        let mut s = String::from("（");
        match to_iroha_katakana(n) {
          Some(t) => s.push_str(&t),
          None => s.push_str(&to_zenkaku_num(n)),
        }
        s.push('）');
        s
      }''')]),
 ('no_paren derived (ok)', [(A, '''      ItemPattern::ParenIrohaKatakana => {
        format!("（{}）", to_iroha_katakana(n).unwrap_or_else(|| to_zenkaku_num(n)))
      }''', '''      ItemPattern::ParenIrohaKatakana => format!("（{}）", self.num_to_str_no_paren(n)),''')]),
 ('iroha array (ok)', [(A, 'ItemPattern::NoParenIrohaKatakana => to_iroha_katakana(n).unwrap_or_else(|| to_zenkaku_num(n)),\n      ItemPattern::NoParenIrohaHiragana => to_iroha_hiragana(n).unwrap_or_else(|| to_zenkaku_num(n)),\n      ItemPattern::NoParenZenkakuNum => to_zenkaku_num(n),\n      ItemPattern::NoParenZenkakuRomanUpper => to_zenkaku_roman_upper(n).unwrap_or_else(|| to_zenkaku_num(n)),\n      ItemPattern::NoParenZenkakuRomanLower => to_zenkaku_roman_lower(n).unwrap_or_else(|| to_zenkaku_num(n)),\n      ItemPattern::NoParenZenkakuUpper => to_zenkaku_alphabet_upper(n).unwrap_or_else(|| to_zenkaku_num(n)),\n      ItemPattern::NoParenZenkakuLower => to_zenkaku_alphabet_lower(n).unwrap_or_else(|| to_zenkaku_num(n)),\n      ItemPattern::ParenKansuji => {\n        let kansuji = Kansuji::from(n);\n        format!', 'ItemPattern::NoParenIrohaKatakana => "イロハニホヘトチリヌルヲワカヨタレソツネナラムウヰノオクヤマケフコエテアサキユメミシヱヒモセス".chars().nth(n.wrapping_sub(1)).map(String::from).unwrap_or_else(|| to_zenkaku_num(n)),\n      ItemPattern::NoParenIrohaHiragana => to_iroha_hiragana(n).unwrap_or_else(|| to_zenkaku_num(n)),\n      ItemPattern::NoParenZenkakuNum => to_zenkaku_num(n),\n      ItemPattern::NoParenZenkakuRomanUpper => to_zenkaku_roman_upper(n).unwrap_or_else(|| to_zenkaku_num(n)),\n      ItemPattern::NoParenZenkakuRomanLower => to_zenkaku_roman_lower(n).unwrap_or_else(|| to_zenkaku_num(n)),\n      ItemPattern::NoParenZenkakuUpper => to_zenkaku_alphabet_upper(n).unwrap_or_else(|| to_zenkaku_num(n)),\n      ItemPattern::NoParenZenkakuLower => to_zenkaku_alphabet_lower(n).unwrap_or_else(|| to_zenkaku_num(n)),\n      ItemPattern::ParenKansuji => {\n        let kansuji = Kansuji::from(n);\n        format!')]),
]
