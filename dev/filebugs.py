"""C11 variants"""
L = 'src/lib.rs'
R = [
 ('file lossy (bad?)', [(L, "  let law = parse_xml(&buf)?;", "  let s = String::from_utf8_lossy(&buf).replace('\\u{feff}', \"\");\n  let law = parse_xml(s.as_bytes())?;")]),
 ('file trim (bad)', [(L, "  let law = parse_xml(&buf)?;", "  let s = String::from_utf8(buf).map_err(|_| result::Error::Io)?;\n  let law = parse_xml(s.trim().as_bytes())?;")]),
 ('read once (bad)', [(L, "  let mut buf = Vec::new();\n  file.read_to_end(&mut buf).map_err(|_| result::Error::Io)?;", "  let mut buf = vec![0; 1 << 20];\n  let n = file.read(&mut buf).map_err(|_| result::Error::Io)?;\n  buf.truncate(n);")]),
 ('take (bad)', [(L, "  let mut file = std::fs::File::open(path).map_err(|_| result::Error::Io)?;", "  let mut file = std::fs::File::open(path).map_err(|_| result::Error::Io)?.take(1 << 24);")]),
 ('read error ignored (bad)', [(L, "  file.read_to_end(&mut buf).map_err(|_| result::Error::Io)?;", "  let _ = file.read_to_end(&mut buf);")]),
 ('read error ignored2 (bad)', [(L, "  file.read_to_end(&mut buf).map_err(|_| result::Error::Io)?;", "  if file.read_to_end(&mut buf).is_err() {\n    buf.clear();\n  }")]),
 ('write ignored (bad)', [(L, "  law\n    .to_xml_element()\n    .write_with_config(&mut s, config)\n    .map_err(|_| result::Error::Io)?;", "  let _ = law.to_xml_element().write_with_config(&mut s, config);")]),
 ('write_file ok() (bad)', [(L, "    .write_with_config(w, config)\n    .map_err(|_| result::Error::Io)\n", "    .write_with_config(w, config)\n    .or_else(|_| Ok(()))\n")]),
 ('bufwriter (bad)', [(L, "    .write_with_config(w, config)", "    .write_with_config(std::io::BufWriter::new(w), config)")]),
 ('bufwriter flush (ok)', [(L, "  law\n    .to_xml_element()\n    .write_with_config(w, config)\n    .map_err(|_| result::Error::Io)\n", "  let mut w = std::io::BufWriter::new(w);\n  law\n    .to_xml_element()\n    .write_with_config(&mut w, config)\n    .map_err(|_| result::Error::Io)?;\n  w.flush().map_err(|_| result::Error::Io)\n")]),
 ('config differs (bad)', [(L, "pub fn write_file<W: Write>(law: &law::Law, w: &mut W) -> result::Result<()> {\n  let config = gen_config();", "pub fn write_file<W: Write>(law: &law::Law, w: &mut W) -> result::Result<()> {\n  let config = gen_config().write_document_declaration(false);")]),
 ('no escaping (bad)', [(L, "EmitterConfig::new().perform_indent(true)", "EmitterConfig::new().perform_indent(true).perform_escaping(false)")]),
 ('trim string (bad)', [(L, "  Ok(s.string())", "  Ok(s.string().replace(\"\\u{3000}\", \"\"))")]),
 ('sink trim (bad)', [(L, "    self.0.push_str(s);", "    self.0.push_str(s.trim_end_matches('\\r'));")]),
 ('sink skips (bad)', [(L, "    self.0.push_str(s);", "    if s != \"\\u{3000}\" {\n      self.0.push_str(s);\n    }")]),
 ('sink err ok (bad)', [(L, "    let s = std::str::from_utf8(buf)\n      .map_err(|e| std::io::Error::new(std::io::ErrorKind::InvalidData, e))?;", "    let s = match std::str::from_utf8(buf) {\n      Ok(s) => s,\n      Err(_) => return Ok(buf.len()),\n    };")]),
 ('sink lossy (?)', [(L, "    let s = std::str::from_utf8(buf)\n      .map_err(|e| std::io::Error::new(std::io::ErrorKind::InvalidData, e))?;\n    self.0.push_str(s);\n    Ok(s.len())", "    self.0.push_str(&String::from_utf8_lossy(buf));\n    Ok(buf.len())")]),
 ('element changed (bad)', [(L, "  law\n    .to_xml_element()\n    .write_with_config(w, config)", "  let mut e = law.to_xml_element();\n  e.attributes.insert(\"Lang\".to_string(), \"ja\".to_string());\n  e.write_with_config(w, config)")]),
 ('write_file via string (ok)', [(L, "  let config = gen_config();\n  law\n    .to_xml_element()\n    .write_with_config(w, config)\n    .map_err(|_| result::Error::Io)\n", "  w.write_all(to_xml(law)?.as_bytes()).map_err(|_| result::Error::Io)\n")]),
 ('write once (bad)', [(L, "  let config = gen_config();\n  law\n    .to_xml_element()\n    .write_with_config(w, config)\n    .map_err(|_| result::Error::Io)\n", "  w.write(to_xml(law)?.as_bytes()).map_err(|_| result::Error::Io)?;\n  Ok(())\n")]),
 ('fs::read (ok)', [(L, "  let mut file = std::fs::File::open(path).map_err(|_| result::Error::Io)?;\n  let mut buf = Vec::new();\n  file.read_to_end(&mut buf).map_err(|_| result::Error::Io)?;", "  let buf = std::fs::read(path).map_err(|_| result::Error::Io)?;")]),
 ('direct (ok)', [(L, "  let law = parse_xml(&buf)?;\n  Ok(law)", "  parse_xml(&buf)")]),
 ('stream (ok)', [(L, "  let mut buf = Vec::new();\n  file.read_to_end(&mut buf).map_err(|_| result::Error::Io)?;\n  let law = parse_xml(&buf)?;\n  Ok(law)", "  let element = Element::parse(std::io::BufReader::new(file)).map_err(|_| Error::XMLParsing)?;\n  law::Law::parser(&element)"), (L, "let mut file", "let file")]),
 ('vec sink (ok)', [(L, "  let mut s = WritableString::new();\n  let config = gen_config();\n  law\n    .to_xml_element()\n    .write_with_config(&mut s, config)\n    .map_err(|_| result::Error::Io)?;\n  Ok(s.string())", "  let mut v = Vec::new();\n  write_file(law, &mut v)?;\n  String::from_utf8(v).map_err(|_| result::Error::Io)")]),
 ('share (ok)', [(L, "  let config = gen_config();\n  law\n    .to_xml_element()\n    .write_with_config(&mut s, config)\n    .map_err(|_| result::Error::Io)?;\n", "  write_file(law, &mut s)?;\n")]),
 ('path trimmed (bad)', [(L, "std::fs::File::open(path)", "std::fs::File::open(path.trim())")]),
 ('law changed (bad)', [(L, "  let law = parse_xml(&buf)?;\n  Ok(law)", "  let mut law = parse_xml(&buf)?;\n  law.law_num = law.law_num.trim().to_string();\n  Ok(law)")]),
 ('parse default (bad)', [(L, "  let law = law::Law::parser(&element)?;\n  Ok(law)", "  let mut law = law::Law::parser(&element)?;\n  law.year = law.year.max(1);\n  Ok(law)")]),
]
