"""written numbers are read back: variants (expected)"""
A = 'src/article_number.rs'
K = "[一二三四五六七八九十百千]+"
ITEMEDA = '''        m.as_str()
          .split('の')
          .filter(|s| !s.is_empty())
          .map(|s| parse_item_number_base(s).map(|(_, n)| n))
          .collect::<Option<Vec<_>>>()?
      } else {
        Vec::new()
      };
'''
src = open('/repo/src/article_number.rs').read()


def nth(s, a, b, n):
    i = -1
    for _ in range(n):
        i = s.index(a, i + 1)
    return s[:i] + b + s[i + len(a):]


def line(start):
    return [l for l in src.split('\n') if l.strip().startswith(start)][0]


RA = line('let re_article')
RP = line('r"^(?<num>')
RB = [l for l in src.split('\n') if '(?<paren_iroha_katakana>' in l][0]
RI = [l for l in src.split('\n') if '(?<base_number2>' in l][0]
R = [
 ('kansuji range no sen (bad)', [(A, RA, RA.replace('(?<kansuji_2>[一二三四五六七八九十百千]+)', '(?<kansuji_2>[一二三四五六七八九十百]+)'))]),
 ('eda no hyaku (bad)', [(A, RA, nth(RA, '百千', '千', 2))]),
 ('kata no in range (bad)', [(A, "        .split(['の', 'ノ'])\n        .filter", "        .split('の')\n        .filter")]),
 ('kata no not replaced (bad)', [(A, '      .replace("ノ", "の")\n', '')]),
 ('range eda from first (bad)', [(A, 'if let Some(s) = &caps.name("eda_str_2") {', 'if let Some(s) = &caps.name("eda_str") {')]),
 ('zenkaku range from first (bad)', [(A, 'range_end_numbers.push(parse_zenkaku_num(zenkaku_num.as_str())?)', 'range_end_numbers.push(parse_zenkaku_num(&caps["zenkaku_num"])?)')]),
 ('range order (bad)', [(A, '          range_end_numbers.push(n);\n        } else if let Some(n) = parse_zenkaku_num(s) {', '          range_end_numbers.insert(0, n);\n        } else if let Some(n) = parse_zenkaku_num(s) {')]),
 ('eda skip(1) (bad)', [(A, '''    for s in caps["eda_str"]
      .split(['の', 'ノ'])
      .filter(|s| !s.is_empty())
    {''', '''    for s in caps["eda_str"]
      .split(['の', 'ノ'])
      .filter(|s| !s.is_empty())
      .skip(1)
    {''')]),
 ('suffix shou lost (bad)', [(A, RA, nth(RA, '|目|', '|', 2))]),
 ('u8 (bad)', [(A, 'range_end_numbers.push(n as usize)\n    };', 'range_end_numbers.push(n as u8 as usize)\n    };')]),
 ('iroha swap (bad)', [(A, '    "ヰ" => Some(25),\n    "ノ" => Some(26),', '    "ヰ" => Some(26),\n    "ノ" => Some(25),')]),
 ('paren hiragana as kata (bad)', [(A, '(ParenIrohaHiragana, parse_iroha_hiragana(s.as_str())?)', '(ParenIrohaHiragana, parse_iroha_katakana(s.as_str())?)')]),
 ('pattern (bad)', [(A, '(NoParenZenkakuRomanLower, parse_roman', '(NoParenZenkakuRomanUpper, parse_roman')]),
 ('pattern2 (bad)', [(A, '(ParenZenkakuNum, parse', '(NoParenZenkakuNum, parse')]),
 ('roman x lower (bad)', [(A, """      .replace('ｘ', "X")\n""", '')]),
 ('roman l (bad)', [(A, """      .replace('Ｌ', "L")\n""", '')]),
 ('alphabet 25 (bad)', [(A, "n = n.checked_mul(26)?.checked_add(d)?;", "n = n.checked_mul(26)?.checked_add(d % 26)?;")]),
 ('zen 7 (bad)', [(A, """    .replace('７', "7")""", """    .replace('７', "1")""")]),
 ('digits class (bad)', [(A, RP, RP.replace('(?<num_2>([０-９]+', '(?<num_2>([１-９]+'))]),
 ('item eda one (bad)', [(A, RI, RI.replace(')+)?(から', '))?(から'))]),
 ('item eda2 lost class (bad)', [(A, RI, nth(RI, '|([ａ-ｚ]+)', '', 8))]),
 ('item base kata range (bad)', [(A, RI, RI.replace('[ア-ン]', '[ア-ロ]'))]),
 ('item range dropped (bad)', [(A, '''        for v in eda_numbers2.iter() {
          range_end_numbers.push(*v)
        }''', '''        for v in eda_numbers2.iter() {
          if range_end_numbers.len() < 3 {
            range_end_numbers.push(*v)
          }
        }''')]),
 ('item str trimmed (ok?)', [(A, '        str: str.to_string(),\n        base_number,', '        str: str.trim().to_string(),\n        base_number,')]),
 ('is_roman no l (bad)', [(A, 'r"[ixvlcIXVLCｉｘｖｌｃＩＸＶＬＣ]+"', 'r"[ixvlcIXVLCｉｘｖｌｃＩＸＶＣ]+"')]),
 # behaviour kept
 ('extend (ok)', [(A, '''        for v in eda_numbers2.iter() {
          range_end_numbers.push(*v)
        }''', '''        range_end_numbers.extend(eda_numbers2);''')]),
 ('non capturing (ok)', [(A, RA, RA.replace('(の|ノ)', '(?:の|ノ)').replace('^(第)?', '^第?'))]),
 ('class (ok)', [(A, RA, RA.replace('(の|ノ)', '[のノ]').replace('(編|章|節|款|目|条|項|号)', '[編章節款目条項号]'))]),
 ('split class (ok)', [(A, '''      .replace("ノ", "の")
      .split('の')''', '''      .split(['の', 'ノ'])''')]),
 ('split closure (ok)', [(A, '''        .split(['の', 'ノ'])
        .filter''', '''        .split(|c| c == 'の' || c == 'ノ')
        .filter''')]),
 ('no collect (ok)', [(A, '''      let eda_numbers_2 = s
        .as_str()
        .split(['の', 'ノ'])
        .filter(|s| !s.is_empty())
        .collect::<Vec<_>>();
      for s in eda_numbers_2.iter() {''', '''      for s in s.as_str().split(['の', 'ノ']).filter(|s| !s.is_empty()) {'''), (A, 'Kansuji::try_from(*s)', 'Kansuji::try_from(s)')]),
 ('helper num (ok)', [(A, '''      if let Ok(n) = s.parse::<usize>() {
        eda_numbers.push(n)
      } else if let Some(n) = parse_zenkaku_num(s) {
        eda_numbers.push(n)
      } else {
        let kansuji = Kansuji::try_from(s).ok()?;
        let n: u128 = kansuji.into();
        eda_numbers.push(n as usize)
      }
''', '''      eda_numbers.push(read_num(s)?);
'''), (A, 'pub fn parse_article_number(', '''fn read_num(s: &str) -> Option<usize> {
  if let Ok(n) = s.parse::<usize>() {
    return Some(n);
  }
  if let Some(n) = parse_zenkaku_num(s) {
    return Some(n);
  }
  let n: u128 = Kansuji::try_from(s).ok()?.into();
  Some(n as usize)
}

pub fn parse_article_number(''')]),
 ('no num_str (ok)', [(A, '''    let mut num_str = base_number.to_string();
    for n in eda_numbers.iter() {
      num_str.push_str(&format!("_{n}"))
    }
    let mut range''', '''    let mut range'''), (A, 'eda_numbers: eda_numbers.clone(),', 'eda_numbers,')]),
 ('loop for eda (ok)', [(A, ITEMEDA, '''        let mut v = Vec::new();
        for s in m.as_str().split('の').filter(|s| !s.is_empty()) {
          let (_, n) = parse_item_number_base(s)?;
          v.push(n);
        }
        v
      } else {
        Vec::new()
      };
''')]),
 ('helper eda (ok)', [(A, ITEMEDA, '''        branch_numbers(m.as_str())?
      } else {
        Vec::new()
      };
'''), (A, '''        let eda_numbers2 = m
          .as_str()
          .split('の')
          .filter(|s| !s.is_empty())
          .map(|s| parse_item_number_base(s).map(|(_, n)| n))
          .collect::<Option<Vec<_>>>()?;
''', '''        let eda_numbers2 = branch_numbers(m.as_str())?;
'''), (A, 'pub fn parse_item_number(', '''fn branch_numbers(s: &str) -> Option<Vec<usize>> {
  s.split('の')
    .filter(|s| !s.is_empty())
    .map(|s| parse_item_number_base(s).map(|(_, n)| n))
    .collect()
}

pub fn parse_item_number(''')]),
 ('early return (ok)', [(A, '  if let Some(caps) = re_item.captures(str.trim()) {\n    if let Some((pat, base_number)) = parse_item_number_base(&caps["base_number"]) {', '  let caps = re_item.captures(str.trim())?;\n  {\n    if let Some((pat, base_number)) = parse_item_number_base(&caps["base_number"]) {'),
   (A, '''    } else {
      None
    }
  } else {
    None
  }
}

fn parse_zenkaku_num''', '''    } else {
      None
    }
  }
}

fn parse_zenkaku_num''')]),
 ('zenkaku chars (ok)', [(A, src[src.index("  str\n    .replace('０'"):src.index("    .parse::<usize>()\n    .ok()\n}")], '''  str
    .chars()
    .map(|c| match c {
      '０'..='９' => char::from_u32(c as u32 - '０' as u32 + '0' as u32).unwrap_or(c),
      _ => c,
    })
    .collect::<String>()
''')]),
 ('zenkaku fold (ok)', [(A, src[src.index("  str\n    .replace('０'"):src.index("    .parse::<usize>()\n    .ok()\n}")], '''  let digits = ['０', '１', '２', '３', '４', '５', '６', '７', '８', '９'];
  let mut s = str.to_string();
  for (i, d) in digits.iter().enumerate() {
    s = s.replace(*d, &i.to_string());
  }
  s
''')]),
 ('is_roman chars (ok)', [(A, '  let re_is_roman = Regex::new(r"[ixvlcIXVLCｉｘｖｌｃＩＸＶＬＣ]+").unwrap();\n', ''),
   (A, 'if re_is_roman.is_match(s.as_str())', 'if s.as_str().contains(is_roman)'), (A, 'if re_is_roman.is_match(s.as_str())', 'if s.as_str().contains(is_roman)'),
   (A, 'if re_is_roman.is_match(s.as_str())', 'if s.as_str().contains(is_roman)'), (A, 'if re_is_roman.is_match(s.as_str())', 'if s.as_str().contains(is_roman)'),
   (A, 'fn parse_item_number_base(', '''fn is_roman(c: char) -> bool {
  matches!(c, 'i' | 'x' | 'v' | 'l' | 'c' | 'I' | 'X' | 'V' | 'L' | 'C' | 'ｉ' | 'ｘ' | 'ｖ' | 'ｌ' | 'ｃ' | 'Ｉ' | 'Ｘ' | 'Ｖ' | 'Ｌ' | 'Ｃ')
}

fn parse_item_number_base(''')]),
]
