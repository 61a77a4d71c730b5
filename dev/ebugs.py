# effect variants
U='src/utils.rs'
R=[
 ('static mut', [('src/law.rs','impl ToXmlElement for Law {','static mut N: usize = 0;\nimpl ToXmlElement for Law {'),('src/law.rs','    let mut e = Element::new("Law");','    let mut e = Element::new("Law");\n    unsafe { N += 1; if N > 3 { e = Element::new("Laww"); } }')]),
 ('mutex', [('src/law.rs','impl ToXmlElement for Law {','static N: std::sync::Mutex<usize> = std::sync::Mutex::new(0);\nimpl ToXmlElement for Law {'),('src/law.rs','    let mut e = Element::new("Law");','    let mut e = Element::new("Law");\n    { let mut n = N.lock().unwrap(); *n += 1; if *n > 3 { e = Element::new("Laww"); } }')]),
 ('oncelock captured', [('src/law.rs','impl ToXmlElement for Law {','static N: std::sync::OnceLock<String> = std::sync::OnceLock::new();\nimpl ToXmlElement for Law {'),('src/law.rs','    let mut e = Element::new("Law");','    let name = String::from("Law");\n    let mut e = Element::new(N.get_or_init(|| name.clone()));')]),
 ('oncelock constant (ok)', [('src/law.rs','impl ToXmlElement for Law {','static N: std::sync::OnceLock<String> = std::sync::OnceLock::new();\nimpl ToXmlElement for Law {'),('src/law.rs','    let mut e = Element::new("Law");','    let mut e = Element::new(N.get_or_init(|| String::from("Law")));')]),
 ('lazylock (ok)', [('src/law.rs','impl ToXmlElement for Law {','static N: std::sync::LazyLock<String> = std::sync::LazyLock::new(|| String::from("Law"));\nimpl ToXmlElement for Law {'),('src/law.rs','    let mut e = Element::new("Law");','    let mut e = Element::new(&N);')]),
 ('hashset order', [(U,'  for t in t.children.iter() {\n    let mut toc = toc.clone();\n','  let hs = t.children.iter().map(|c| (format!("{:?}", c), c)).collect::<std::collections::HashMap<_, _>>();\n  for (_, t) in hs.iter() {\n    let mut toc = toc.clone();\n')]),
 ('thread local', [('src/law.rs','impl ToXmlElement for Law {','thread_local! { static N: std::cell::Cell<usize> = const { std::cell::Cell::new(0) }; }\nimpl ToXmlElement for Law {'),('src/law.rs','    let mut e = Element::new("Law");','    let mut e = Element::new("Law");\n    N.with(|n| n.set(n.get() + 1));')]),
 ('refcell local (ok)', [('src/law.rs','    let mut e = Element::new("Law");','    let c = std::cell::RefCell::new(0);\n    *c.borrow_mut() += 1;\n    let mut e = Element::new("Law");')]),
 ('hashset contains (ok)', [('src/law.rs','    let mut e = Element::new("Law");','    let mut c = std::collections::HashSet::new();\n    c.insert(1);\n    let mut e = Element::new(if c.contains(&1) { "Law" } else { "Law" });')]),
]
