//! One oracle per property. `check_str` takes an input text, `check_case` a seeded history.
use crate::{gen::*, model::*, real::*};
use kiss_xml::dom::*;
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
pub type R = Result<(), String>;
fn bad<T>(s: String) -> Result<T, String> { Err(s) }
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|p| format!("panic: {}", p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "?".into())))
}
macro_rules! ensure { ($c:expr, $($a:tt)*) => { if !$c { return bad(format!($($a)*)); } } }
// ---------------------------------------------------------------- string inputs
/// a generated text; sizes add up, and a long text costs the time of thousands of short ones
pub fn gen_str(prop: &str, r: &mut Rng, n: u64) -> Option<String> {
    for _ in 0..5 { match gen_any(prop, r, n) { Some(s) if s.len() > 40_000 => {} x => return x } }
    Some("<r>t</r>".into())
}
fn gen_any(prop: &str, r: &mut Rng, n: u64) -> Option<String> {
    Some(match prop {
        "C01" | "C02" | "C03" => match n % 3 { 0 => escstr(r, 8), 1 => rstr(r, 16), _ => { let mut s = escstr(r, 4); s += &rstr(r, 6); s } },
        "C04" => match n % 5 { 0 => xdoc(r), 1 => xmut(r), 2 => soup(r), 3 => { let a = rstr(r, 8); if r.chance(50) { format!("<r>{a}</r>") } else { a } } _ => { let d = xdoc(r); let d = mutate(r, &d); mutate(r, &d) } },
        "C06" => match n % 4 { 0 => xdoc(r), 1 | 2 => xmut(r), _ => soup(r) },
        "C05" | "C07" => match n % 3 { 0 | 1 => xdoc(r), _ => xmut(r) },
        "C10" => match n % 4 { 0 => xdoc(r), 1 => if r.chance(70) { xdoc(r) } else { xmut(r) }, _ => return None },
        "C15" => match n % 4 { 0 => xdoc(r), 1 => { let mut s = String::new(); for _ in 0..1 + r.below(2) { s += *r.pick(&[" ", "", "<?", "?>", "<!DOCTYPE", ">", "\n", "<!", "é", "\u{a0}", "xml", "<?xml version='1.0'?>", "<!DOCTYPE r>"]); s += &rstr(r, 3); s += *r.pick(&["", "?>", ">", " ", "\u{3000}"]); } s } _ => return None },
        "C11" => match if let Some(d) = dstr(r, 15) { let a = rstr(r, 3); return Some(a + &d + *r.pick(&["", "-->", "]]>", "-", "]"])); } else { n % 3 } { 0 | 1 => { let mut s = String::new(); for _ in 0..r.below(6) { s += *r.pick(&["-", "--", ">", "->", "-->", "]", "]]", "]]>", "]>", "a", "é", "&lt;", "<", "&", " ", "!", "中"]); } s } _ => rstr(r, 12) },
        "C12" => match n % 4 { 0 => name_str(r), _ => return None },
        _ => return None,
    })
}
const NB: &[u32] = &[0x2d, 0x2e, 0x2f, 0x30, 0x39, 0x3a, 0x3b, 0x40, 0x41, 0x5a, 0x5b, 0x5e, 0x5f, 0x60, 0x61, 0x7a, 0x7b, 0xb6, 0xb7, 0xb8, 0xbf, 0xc0, 0xd6, 0xd7, 0xd8, 0xf6, 0xf7, 0xf8, 0x2ff, 0x300, 0x36f, 0x370, 0x37d, 0x37e, 0x37f, 0x1fff, 0x2000, 0x200b, 0x200c, 0x200d, 0x200e, 0x203e, 0x203f, 0x2040, 0x2041, 0x206f, 0x2070, 0x218f, 0x2190, 0x2bff, 0x2c00, 0x2fef, 0x2ff0, 0x3000, 0x3001, 0xd7ff, 0xf8ff, 0xf900, 0xfdcf, 0xfdd0, 0xfdef, 0xfdf0, 0xfffd, 0xfffe, 0xffff, 0x10000, 0xeffff, 0xf0000, 0x10ffff, 0x20, 0xa, 0x0];
fn name_str(r: &mut Rng) -> String {
    if let Some(d) = dstr(r, 15) { return d; }
    let mut s = String::new();
    for i in 0..r.below(5) { match r.below(4) { 0 => s.push(char::from_u32(*r.pick(NB)).unwrap()), 1 if i > 0 => s.push(*r.pick(&['-', '.', '0', ':'])), 2 => s.push(*r.pick(&['a', 'Z', '_', 'é'])), _ => s.push(*r.pick(CHARS)) } }
    s
}
/// deterministic part: number of inputs and the i-th input
pub fn det_strs(prop: &str, thorough: bool) -> Vec<String> { let mut v = dict_strs(prop); v.extend(base_strs(prop, thorough)); v }
/// the dictionary in every place of a document, and documents of the dictionary's sizes
fn dict_strs(prop: &str) -> Vec<String> {
    let d = dict(); let mut v: Vec<String> = vec![];
    let xml = matches!(prop, "C04" | "C05" | "C06" | "C07" | "C10" | "C15");
    for s in &d.strs { for s in [s.clone(), format!("{s}x"), format!("x{s}"), format!("{s}{s}"), s.to_uppercase()] {
        v.push(s.clone()); v.push(format!("&{s};")); v.push(format!("a {s} b"));
        if xml {
            let q = if s.contains('"') { '\'' } else { '"' };
            for x in [format!("<{s}/>"), format!("<r><{s}>t</{s}></r>"), format!("<r>{s}</r>"), format!("<r>a{s}<b/>{s}c</r>"), format!("<r {s}={q}1{q}/>"), format!("<r><a {s}={q}1{q} b={q}2{q}>t</a></r>"), format!("<r a={q}{s}{q}/>"), format!("<r><a b={q}x{s}y{q}/></r>"), format!("<r><!--{s}--></r>"), format!("<!--{s}--><r/>"), format!("<r><![CDATA[{s}]]></r>"), format!("<?xml {s}?><r/>"), format!("<?xml a={q}{s}{q}?><r/>"), format!("<!DOCTYPE {s}><r/>"), format!("<!DOCTYPE r [<!ENTITY e {q}{s}{q}>]><r/>"), format!("<{s}:a xmlns:{s}={q}u{q}><{s}:b/></{s}:a>"), format!("<p:{s} xmlns:p={q}{s}{q}><c/></p:{s}>"), format!("<r xmlns={q}{s}{q}><c/></r>"), format!("<r/>{s}"), format!("{s}<r/>"), format!("<r>&{s};</r>"), format!("<r a={q}&{s};{q}/>"), format!("<r>{s}t</r>"), format!("<r><b/>{s}</r>")] { v.push(x); }
        }
    } }
    for &n in &d.nums { for n in [n.saturating_sub(1), n, n + 1] { if n > 70000 { continue; }
        v.push("x".repeat(n)); v.push("&amp;".repeat(n.min(5000))); v.push(format!("&{};", "0".repeat(n))); v.push(format!("&#{}41;", "0".repeat(n))); v.push(format!("&#{n};")); v.push(format!("&#{n:X};")); v.push(format!("{}&lt;", "é".repeat(n)));
        if let Some(c) = char::from_u32(n as u32) { v.push(c.to_string()); if xml { v.push(format!("<r>{c}</r>")); v.push(format!("<r a=\"{c}\"/>")); v.push(format!("<a{c}/>")); v.push(format!("<r>&#{n:X};</r>")); } }
        if xml {
            let k = n.min(if matches!(prop, "C05" | "C15") { 400 } else { 2000 }); let x = "x".repeat(n); let m = n.min(if matches!(prop, "C05" | "C15") { 1200 } else { 3000 });
            v.push(format!("{}{}", "<a>".repeat(k), "</a>".repeat(k))); v.push(format!("{}t{}", "<a>".repeat(k), "</a>".repeat(k))); v.push(format!("<r>{}</r>", "<a/>".repeat(m))); v.push(format!("<r>{}</r>", "<a>t</a>".repeat(m))); v.push(format!("<r>{}</r>", "t<a/>".repeat(m))); v.push(format!("<r>{}</r>", "<!--c-->".repeat(m)));
            v.push(format!("<r>{x}</r>")); v.push(format!("<r>{}</r>", "é".repeat(n))); v.push(format!("<r> {x} <b/></r>")); v.push(format!("<{x}/>")); v.push(format!("<{x}>t</{x}>")); v.push(format!("<r {x}=\"1\"/>")); v.push(format!("<r a=\"{x}\"/>")); v.push(format!("<r><!--{x}--></r>")); v.push(format!("<r><![CDATA[{x}]]></r>")); v.push(format!("<?xml a=\"{x}\"?><r/>")); v.push(format!("<!DOCTYPE {x}><r/>")); v.push(format!("{}<r/>", "<!DOCTYPE r>".repeat(m.min(1000)))); v.push(format!("{}<r/>", "<!--c-->".repeat(m))); v.push(format!("{}<r/>", "\n".repeat(n))); v.push(format!("<r/>{}", " ".repeat(n))); v.push(format!("<r{}/>", " ".repeat(n))); v.push(format!("<r{}a=\"1\"/>", " ".repeat(n))); v.push(format!("<!DOCTYPE r [{}]><r/>", "<!ENTITY e \"x\">".repeat(m.min(1000)))); v.push(format!("<!DOCTYPE r {}{}><r/>", "<a".repeat(m.min(1000)), ">".repeat(m.min(1000))));
            let at: String = (0..m.min(1200)).map(|i| format!(" a{i}=\"{i}\"")).collect(); v.push(format!("<r{at}/>")); let nsd: String = (0..m.min(1200)).map(|i| format!(" xmlns:p{i}=\"u{i}\"")).collect(); v.push(format!("<r{nsd}><p{}:c/></r>", m.min(1200).saturating_sub(1)));
            v.push(format!("<{x}:a xmlns:{x}=\"u\"/>")); v.push(format!("<r xmlns=\"{x}\"><c/></r>"));
        }
    } }
    v
}
fn base_strs(prop: &str, thorough: bool) -> Vec<String> {
    fn words(al: &[&str], len: usize) -> Vec<String> { let mut v = vec![String::new()]; let mut o = v.clone(); for _ in 0..len { let mut w = vec![]; for x in &v { for a in al { w.push(format!("{x}{a}")); } } o.extend(w.iter().cloned()); v = w; } o }
    match prop {
        "C01" | "C02" | "C03" => words(&["&", ";", "a", "é", "lt", "#41", "<", "\"", ">"], if thorough { 7 } else { 6 }),
        "C04" | "C06" => { let mut v = words(&["<a>", "</a>", "<b x='1'>", "</b>", "<a/>", "t", "<!--c-->", "<![CDATA[d]]>", "<?xml?>", "<!DOCTYPE r>", " ", "<", ">", "é", "-->", "'"], if thorough { 5 } else { 4 }); v.extend(words(&["<", ">", "a", "/", "!", "-", "?", "'", "=", " ", "é"], if thorough { 6 } else { 5 })); v.extend(words(&["<a", " ", "b", "=", "'", "\"", "/", ">", "</a>", ":"], if thorough { 6 } else { 5 }).into_iter().filter(|s| s.starts_with("<a"))); v }
        "C05" | "C07" => words(&["<b>", "</b>", "<c/>", "t", " ", "<!--c-->", "<![CDATA[d]]>", "&#20;"], if thorough { 7 } else { 5 }).into_iter().map(|s| format!("<a>{s}</a>")).collect(),
        "C10" => vec![],
        "C11" => words(&["-", ">", "]", "a", "é"], if thorough { 9 } else { 7 }),
        "C12" => { let mut v = vec![String::new()]; for &c in NB { let c = char::from_u32(c).unwrap(); v.push(c.to_string()); v.push(format!("a{c}")); v.push(format!("{c}a")); v.push(format!("a{c}b")); } for c in 0..if thorough { 0x110000u32 } else { 0x11000 } { if let Some(c) = char::from_u32(c) { v.push(c.to_string()); v.push(format!("a{c}")); } } v }
        "C15" => words(&["<?", "?>", "?", "<", ">", "x", " ", "<!DOCTYPE", "!"], if thorough { 6 } else { 5 }),
        _ => vec![],
    }
}
fn parse(s: &str) -> Result<Result<Document, String>, String> { guard(|| kiss_xml::parse_str(s).map_err(|e| { let _ = format!("{e} {e:?}"); String::new() })) }
/// (property blamed, message)
fn parse_vs_ref(s: &str) -> Option<(&'static str, String)> {
    let want = ref_parse(s);
    if let Err(Rej::Unspecified(_)) = want { return None; }
    let got = match parse(s) { Err(p) => return Some(("C06", format!("parsing is answered with a {p}"))), Ok(g) => g };
    match (got, want) {
        (Err(_), Err(_)) => None,
        (Ok(d), Err(r)) => Some((if r == Rej::Prefix { "C10" } else { "C06" }, format!("accepted although {r:?}; document: {}", d.to_string()))),
        (Err(_), Ok(m)) => Some(("C06", format!("well-formed input rejected; expected {m:?}"))),
        (Ok(d), Ok(m)) => {
            let g = m_doc(&d);
            if g.decl != m.decl || g.dtds != m.dtds { return Some(("C15", format!("declaration/doctypes: expected {:?} {:?}, got {:?} {:?}", m.decl, m.dtds, g.decl, g.dtds))); }
            let df = diff(&m.root, &g.root);
            if df.shape || df.attrs { return Some(("C07", format!("expected {:?}, got {:?}", m.root, g.root))); }
            if df.ns { return Some(("C10", format!("namespaces: expected {:?}, got {:?}", m.root, g.root))); }
            None
        }
    }
}
fn only_entities(s: &str, forbidden: &[char], ents: &[&str]) -> R {
    for c in forbidden { ensure!(!s.contains(*c), "output {s:?} contains {c:?}"); }
    for (i, _) in s.match_indices('&') { ensure!(ents.iter().any(|e| s[i..].starts_with(e)), "stray '&' at {i} in output {s:?}"); }
    Ok(())
}
pub fn check_str(prop: &str, s: &str) -> R {
    match prop {
        "C01" => {
            for (n, f) in [("escape", (|x: &str| kiss_xml::escape(x)) as fn(&str) -> String), ("attribute_escape", |x: &str| kiss_xml::attribute_escape(x)), ("text_escape", |x: &str| kiss_xml::text_escape(x))] {
                let e = guard(|| f(s))?; let u = guard(|| kiss_xml::unescape(e.as_str()))?;
                ensure!(u == s, "unescape({n}(s)) == {u:?}, expected {s:?} ({n}(s) == {e:?})");
            }
            Ok(())
        }
        "C02" => {
            let (e, a, t) = guard(|| (kiss_xml::escape(s), kiss_xml::attribute_escape(s), kiss_xml::text_escape(s)))?;
            for (n, o) in [("escape", &e), ("attribute_escape", &a)] { only_entities(o, &['<', '>', '"', '\''], &["&amp;", "&lt;", "&gt;", "&apos;", "&quot;"])?; ensure!(*o == esc_attr(s), "{n}: expected {:?}, got {o:?}", esc_attr(s)); }
            only_entities(&t, &['<', '>'], &["&amp;", "&lt;", "&gt;"])?;
            ensure!(t == esc_text(s), "text_escape: expected {:?}, got {t:?}", esc_text(s));
            Ok(())
        }
        "C03" => { let u = guard(|| kiss_xml::unescape(s))?; ensure!(u == unesc(s), "unescape: expected {:?}, got {u:?}", unesc(s)); Ok(()) }
        "C04" => {
            guard(|| { match kiss_xml::parse_str(s) { Ok(d) => { let _ = d.declaration().is_some(); } Err(e) => { let _ = format!("{e} {e:?}"); } } })?;
            if s.len() < 40 {
                guard(|| { let _ = Declaration::from_str(s).map(|d| d.to_string()); let _ = DTD::from_string(s).map(|d| d.to_string()); let _ = Comment::new(s); let _ = CData::new(s); })?;
                guard(|| { let _ = Element::new_from_name(s); let _ = Element::new_with_text(s, s); let mut e = Element::new_from_name("a").unwrap(); let _ = e.set_attr(s, s); let _ = Element::new_with_attributes("a", HashMap::from([(s, s)])); e.append(Text::new(s)); let mut c = Comment::new("").unwrap(); let _ = c.set_content(s); let mut d = CData::new("").unwrap(); let _ = d.set_text(s); })?;
                guard(|| { let _ = Element::new(s, Some(s.to_string()), Some(HashMap::from([("xmlns", s)])), None, Some(s.to_string()), Some(vec![Text::new(s).boxed(), Text::new(s).boxed()])); })?;
            }
            Ok(())
        }
        "C05" => {
            let d = match parse(s) { Ok(Ok(d)) => d, _ => return Ok(()) };
            for ind in ["  ", "\t", "", " ", "   ", "        "] {
                let t = guard(|| if ind == "  " { d.to_string() } else { d.to_string_with_indent(ind) })?;
                let d2 = match guard(|| kiss_xml::parse_str(t.as_str()))? { Ok(x) => x, Err(e) => return bad(format!("written text does not parse ({e}): {t:?}")) };
                ensure!(d == d2, "indent {ind:?}: reparsed document is not equal; text {t:?}");
                let (a, b) = (m_doc(&d), m_doc(&d2));
                ensure!(a.decl == b.decl && a.dtds == b.dtds && eeq(&a.root, &b.root), "indent {ind:?}: reparsed document differs: {a:?} vs {b:?}; text {t:?}");
                let t2 = guard(|| if ind == "  " { d2.to_string() } else { d2.to_string_with_indent(ind) })?;
                ensure!(t == t2, "indent {ind:?}: second writing differs: {t:?} vs {t2:?}");
            }
            Ok(())
        }
        "C06" | "C07" => match parse_vs_ref(s) { Some((p, m)) if p == prop => bad(m), _ => Ok(()) },
        "C10" => match parse_vs_ref(s) { Some(("C10", m)) => bad(m), _ => Ok(()) },
        "C11" => {
            let (hasc, hasd) = (s.contains("-->"), s.contains("]]>"));
            let mut c = Comment::new("old").unwrap(); let mut d = CData::new("old").unwrap();
            let (rc, rd) = (guard(|| Comment::new(s))?, guard(|| CData::new(s))?);
            ensure!(rc.is_err() == hasc, "Comment::new: error={}, contains terminator={hasc}", rc.is_err());
            ensure!(rd.is_err() == hasd, "CData::new: error={}, contains terminator={hasd}", rd.is_err());
            let (sc, sd) = (guard(|| c.set_content(s))?, guard(|| d.set_text(s))?);
            ensure!(sc.is_err() == hasc, "Comment::set_content: error={}, contains terminator={hasc}", sc.is_err());
            ensure!(sd.is_err() == hasd, "CData::set_text: error={}, contains terminator={hasd}", sd.is_err());
            let (wc, wd) = (if hasc { "old" } else { s }, if hasd { "old" } else { s });
            ensure!(c.get_content() == wc && c.text() == wc, "comment content after set_content: {:?}, expected {wc:?}", c.get_content());
            ensure!(d.get_content() == wd && d.text() == wd, "cdata content after set_text: {:?}, expected {wd:?}", d.get_content());
            ensure!(c.to_string() == format!("<!--{wc}-->") && c.to_string_with_indent("\t") == format!("<!--{wc}-->") && format!("{c:?}") == format!("<!--{wc}-->"), "comment written as {:?}", c.to_string());
            ensure!(d.to_string() == format!("<![CDATA[{wd}]]>") && d.to_string_with_indent("") == format!("<![CDATA[{wd}]]>") && format!("{d:?}") == format!("<![CDATA[{wd}]]>"), "cdata written as {:?}", d.to_string());
            if let Ok(c) = rc { ensure!(c.get_content() == s, "Comment::new stored {:?}", c.get_content()); }
            if let Ok(d) = rd { ensure!(d.get_content() == s, "CData::new stored {:?}", d.get_content()); }
            let f = guard(|| { let c: Comment = s.into(); c.get_content().to_string() }); let g = guard(|| { let c: Comment = s.to_string().into(); c.get_content().to_string() });
            let h = guard(|| { let c: CData = s.into(); c.get_content().to_string() }); let i = guard(|| { let c: CData = s.to_string().into(); c.get_content().to_string() });
            for x in [f, g] { if let Ok(x) = x { ensure!(!x.contains("-->") && x == s, "Comment::from produced {x:?}"); } else { ensure!(hasc, "Comment::from({s:?}) panics"); } }
            for x in [h, i] { if let Ok(x) = x { ensure!(!x.contains("]]>") && x == s, "CData::from produced {x:?}"); } else { ensure!(hasd, "CData::from({s:?}) panics"); } }
            Ok(())
        }
        "C12" => {
            let v = valid_name(s);
            macro_rules! t { ($n:literal, $e:expr) => { let x = guard(|| $e)?; ensure!(x.is_ok() == v, "{}: accepted={}, valid XML name={v}", $n, x.is_ok()); } }
            t!("new_from_name", Element::new_from_name(s));
            t!("new_with_text", Element::new_with_text(s, "x"));
            t!("new_with_children", Element::new_with_children(s, vec![]));
            t!("new", Element::new(s, None, None::<HashMap<String, String>>, None, None, None));
            t!("new_with_attributes (element name)", Element::new_with_attributes(s, HashMap::from([("a", "b")])));
            t!("new_with_attributes", Element::new_with_attributes("a", HashMap::from([(s, "v"), ("b", "w")])));
            t!("new_with_attributes_and_text", Element::new_with_attributes_and_text("a", HashMap::from([(s, "v")]), "t"));
            t!("new_with_attributes_and_children", Element::new_with_attributes_and_children("a", HashMap::from([(s, "v")]), vec![]));
            t!("new (attributes)", Element::new("a", None, Some(HashMap::from([(s, "v")])), None, None, None));
            let mut e = Element::new_with_attributes("a", HashMap::from([("b", "w")])).map_err(|e| format!("{e}"))?;
            let x = guard(|| e.set_attr(s, "v"))?;
            ensure!(x.is_ok() == v, "set_attr: accepted={}, valid XML name={v}", x.is_ok());
            let want: Attrs = if !v { Attrs::from([("b".into(), "w".into())]) } else { let mut m = Attrs::from([("b".into(), "w".into())]); m.insert(s.into(), "v".into()); m };
            ensure!(m_elem(&e).attrs == want, "after set_attr: {:?}, expected {want:?}", e.attributes());
            if v { let e = Element::new_from_name(s).unwrap(); ensure!(e.name() == s, "name() == {:?}", e.name()); }
            Ok(())
        }
        "C15" => {
            if let Some(("C15", m)) = if s.len() > 3 { parse_vs_ref(s) } else { None } { return bad(m); }
            let t = s.trim_matches(is_ws);
            let okd = t.chars().count() >= 4 && t.starts_with("<?") && t.ends_with("?>");
            let okt = t.starts_with("<!DOCTYPE") && t.ends_with('>');
            let (d, x) = (guard(|| Declaration::from_str(s))?, guard(|| DTD::from_string(s))?);
            ensure!(d.is_ok() == okd, "Declaration::from_str: accepted={}, expected {okd}", d.is_ok());
            ensure!(x.is_ok() == okt, "DTD::from_string: accepted={}, expected {okt}", x.is_ok());
            if let Ok(d) = d { ensure!(d.to_string() == t && format!("{d:?}") == t, "declaration prints {:?}", d.to_string()); }
            if let Ok(d) = x { ensure!(d.to_string() == t, "doctype prints {:?}", d.to_string()); }
            if let Ok(Ok(doc)) = parse(s) {
                let m = m_doc(&doc); let out = doc.to_string();
                let mut want = String::new(); for l in m.decl.iter().chain(&m.dtds) { want += l; want += "\n"; }
                want += &doc.root_element().to_string(); want += "\n";
                ensure!(out == want, "document written as {out:?}, expected {want:?}");
            }
            Ok(())
        }
        _ => Ok(()),
    }
}
// ---------------------------------------------------------------- seeded histories
fn has_case(prop: &str) -> bool { matches!(prop, "C08" | "C09" | "C10" | "C12" | "C13" | "C14" | "C15" | "C16" | "C17" | "C18" | "C19" | "C20") }
pub fn supports_case(prop: &str) -> bool { has_case(prop) }
/// predicate on nodes, decided the same way on model and real node
#[derive(Debug, Clone)]
enum Pred { True, False, Elem, NonElem, Name(String), TextHas(char), Short, Kind(usize), Attr(String) }
impl Pred {
    fn gen(r: &mut Rng) -> Pred { match r.below(9) { 0 => Pred::True, 1 => Pred::False, 2 => Pred::Elem, 3 => Pred::NonElem, 4 => Pred::Name(name(r)), 5 => Pred::TextHas(*r.pick(&['h', 'a', 'x', '<'])), 6 => Pred::Short, 7 => Pred::Kind(r.below(4)), _ => Pred::Attr(attr_name(r)) } }
    fn m(&self, n: &MNode) -> bool {
        match self { Pred::True => true, Pred::False => false, Pred::Elem => MElem::is_elem(n), Pred::NonElem => !MElem::is_elem(n), Pred::Name(s) => matches!(n, MNode::E(e) if e.name == *s), Pred::TextHas(c) => text_of(n).contains(*c), Pred::Short => text_of(n).len() < 4,
            Pred::Kind(k) => *k == match n { MNode::E(_) => 0, MNode::T(_) => 1, MNode::C(_) => 2, MNode::D(_) => 3 }, Pred::Attr(a) => matches!(n, MNode::E(e) if e.attrs.contains_key(a)) }
    }
    fn me(&self, e: &MElem) -> bool { self.m(&MNode::E(e.clone())) }
    fn x(&self, n: &Box<dyn Node>) -> bool { self.m(&m_node(n)) }
    fn xe(&self, e: &Element) -> bool { self.me(&m_elem(e)) }
}
fn m_remove_by(e: &mut MElem, p: &dyn Fn(&MNode) -> bool) -> usize { let n = e.kids.len(); e.kids.retain(|k| !p(k)); n - e.kids.len() }
fn m_remove_all(e: &mut MElem, p: &dyn Fn(&MNode) -> bool) -> usize { let mut n = m_remove_by(e, p); for k in &mut e.kids { if let MNode::E(c) = k { n += m_remove_all(c, p); } } n }
pub fn check_case(prop: &str, r: &mut Rng, n: u64, log: &mut String, tmp: &std::path::Path) -> R {
    match prop {
        "C08" | "C09" | "C10" | "C12" => { if prop == "C08" && n % 8 == 0 { return small_lists(r, log); } history(prop, r, log) }
        "C13" => eq_clone(r, log),
        "C14" => writer(r, log),
        "C15" => docs(r, log),
        "C16" => iters(r, log),
        "C17" => io(r, log, tmp),
        "C18" => casts(r, log),
        "C19" => texts(r, log),
        "C20" => built(r, log),
        _ => Ok(()),
    }
}
/// all short child lists over a small alphabet, every operation (n enumerates)
fn small_lists(r: &mut Rng, log: &mut String) -> R {
    let al = [MNode::T("a".into()), MNode::T(" ".into()), MNode::T("".into()), MNode::T("é ".into()), MNode::C("c".into()), MNode::D("d".into()), MNode::E(MElem::new("e"))];
    let k = r.below(5);
    let v: Vec<MNode> = (0..k).map(|_| r.pick(&al).clone()).collect();
    let mk = |n: &MNode| -> Box<dyn Node> { match n { MNode::E(e) => Element::new_from_name(&e.name).unwrap().boxed(), x => real_leaf(x) } };
    *log += &format!("children {v:?}\n");
    let mut m = MElem::new("r"); m.append_all(v.clone());
    let mut e = guard(|| Element::new_with_children("r", v.iter().map(mk).collect()))?.map_err(|e| format!("{e}"))?;
    let at = r.below(m.kids.len() + 2); let x = r.pick(&al).clone();
    *log += &format!("insert({at}, {x:?})\n");
    let okm = m.insert(at, x.clone());
    let okr = guard(|| match &x { MNode::E(c) => e.insert(at, Element::new_from_name(&c.name).unwrap()).is_ok(), MNode::T(t) => e.insert(at, Text::new(t.as_str())).is_ok(), MNode::C(t) => e.insert(at, Comment::new(t.as_str()).unwrap()).is_ok(), MNode::D(t) => e.insert(at, CData::new(t.as_str()).unwrap()).is_ok() })?;
    ensure!(okm == okr, "insert returned ok={okr}, expected {okm}");
    ensure!(m.kids == m_elem(&e).kids, "expected {:?}, got {:?}", m.kids, m_elem(&e).kids);
    Ok(())
}
fn history(prop: &str, r: &mut Rng, log: &mut String) -> R {
    let mut cd = Diff::default();
    let depth = 1 + r.below(3);
    let (mut m, mut e) = pair_elem(r, depth, log, &mut cd);
    if cd.any() {
        return match prop { "C08" if cd.shape => bad("construction: children differ".into()), "C10" if cd.ns => bad("construction: namespaces differ".into()), "C12" if cd.attrs => bad("construction: attributes differ".into()), _ => Ok(()) };
    }
    *log += &format!("start {m:?}\n");
    let steps = big(r, 6, 40).unwrap_or(1 + r.below(6));
    for _ in 0..steps {
        if r.chance(12) && !disturb(r, &mut m, &mut e, log) { return Ok(()); }
        let path = rpath(r, &m);
        let cat = match (prop, r.below(10)) { ("C08", 0..=7) | ("C10", 0..=8) => 0, ("C09", 0..=6) => 1, ("C12", 0..=7) => 2, (_, _) => r.below(3) };
        let who; let mut ret: Result<bool, String> = Ok(true);
        let (me, xe) = (mat(&mut m, &path), rat(&mut e, &path));
        match cat {
            0 => {
                who = "add";
                match r.below(8) {
                    0 | 1 => { let (a, b) = pair_node(r, 2, log, &mut cd); *log += &format!("{path:?}.append_boxed({a:?})\n"); me.append(a); guard(|| xe.append_boxed(b)).map_or_else(|p| ret = Err(p), |_| ()); }
                    2 => { let (a, b) = pair_elem(r, 2, log, &mut cd); *log += &format!("{path:?}.append({a:?})\n"); me.append(MNode::E(a)); guard(|| xe.append(b)).map_or_else(|p| ret = Err(p), |_| ()); }
                    3 | 4 => { let k = r.below(5); let (a, b) = pair_nodes(r, k, 2, log, &mut cd); *log += &format!("{path:?}.append_all({a:?})\n"); me.append_all(a); guard(|| xe.append_all(b)).map_or_else(|p| ret = Err(p), |_| ()); }
                    5 | 6 => {
                        let i = if r.chance(8) { *r.pick(&[usize::MAX, usize::MAX / 2, 1000]) } else { r.below(me.kids.len() + 2) };
                        if r.chance(50) { let (a, b) = pair_elem(r, 2, log, &mut cd); *log += &format!("{path:?}.insert({i}, {a:?})\n"); let w = me.insert(i, MNode::E(a)); ret = guard(|| xe.insert(i, b).is_ok()).map(|g| g == w); }
                        else { let a = match r.below(4) { 0 | 1 => MNode::T(txt(r)), 2 => MNode::C(comment(r)), _ => MNode::D(cdata(r)) }; *log += &format!("{path:?}.insert({i}, {a:?})\n"); let w = me.insert(i, a.clone());
                            ret = guard(|| match &a { MNode::T(t) => xe.insert(i, Text::new(t.as_str())), MNode::C(t) => xe.insert(i, Comment::new(t.as_str()).unwrap()), MNode::D(t) => xe.insert(i, CData::new(t.as_str()).unwrap()), _ => unreachable!() }.is_ok()).map(|g| g == w); }
                    }
                    _ => { if r.chance(70) { let t = txt(r); *log += &format!("{path:?}.set_text({t:?})\n"); me.kids.clear(); me.append(MNode::T(t.clone())); guard(|| xe.set_text(t)).map_or_else(|p| ret = Err(p), |_| ()); } else { *log += &format!("{path:?}.clear_children()\n"); me.kids.clear(); xe.clear_children(); } }
                }
            }
            1 => {
                who = "remove";
                let p = Pred::gen(r);
                match r.below(8) {
                    0 | 1 => { let i = if r.chance(8) { usize::MAX } else { r.below(me.kids.len() + 2) }; *log += &format!("{path:?}.remove({i})\n"); let w = if i < me.kids.len() { Some(me.kids.remove(i)) } else { None }; ret = guard(|| xe.remove(i).ok().map(|b| m_node(&b))).map(|g| match (g, w) { (None, None) => true, (Some(a), Some(b)) => meq(&a, &b), _ => false }); }
                    2 => { *log += &format!("{path:?}.remove_by({p:?})\n"); let w = m_remove_by(me, &|k| p.m(k)); ret = guard(|| xe.remove_by(&|k| p.x(k))).map(|g| g == w); }
                    3 => { *log += &format!("{path:?}.remove_all({p:?})\n"); let w = m_remove_all(me, &|k| p.m(k)); ret = guard(|| xe.remove_all(&|k| p.x(k))).map(|g| g == w); }
                    4 => {
                        let es: Vec<usize> = (0..me.kids.len()).filter(|&i| MElem::is_elem(&me.kids[i])).collect();
                        let i = if r.chance(5) { usize::MAX } else { r.below(es.len() + 1) }; *log += &format!("{path:?}.remove_element({i})\n");
                        let w = if i < es.len() { Some(me.kids.remove(es[i])) } else { None };
                        ret = guard(|| xe.remove_element(i).ok().map(|b| MNode::E(m_elem(&b)))).map(|g| match (g, w) { (None, None) => true, (Some(a), Some(b)) => meq(&a, &b), _ => false });
                    }
                    5 => { *log += &format!("{path:?}.remove_elements({p:?})\n"); let w = m_remove_by(me, &|k| MElem::is_elem(k) && p.m(k)); ret = guard(|| xe.remove_elements(|k| p.xe(k))).map(|g| g == w); }
                    6 => { *log += &format!("{path:?}.remove_all_elements({p:?})\n"); let w = m_remove_all(me, &|k| MElem::is_elem(k) && p.m(k)); ret = guard(|| xe.remove_all_elements(|k| p.xe(k))).map(|g| g == w); }
                    _ => { let nm = if r.chance(70) { name(r) } else { let c: Vec<&MElem> = me.kids.iter().filter_map(|k| match k { MNode::E(c) => Some(c), _ => None }).collect(); if c.is_empty() { name(r) } else { let x = *r.pick(&c); let t = x.prefix.as_ref().map(|p| format!("{p}:{}", x.name)).unwrap_or(x.name.clone()); if r.chance(50) { t } else { near(r, &t) } } }; *log += &format!("{path:?}.remove_elements_by_name({nm:?})\n"); let w = m_remove_by(me, &|k| matches!(k, MNode::E(c) if c.name == nm)); ret = guard(|| xe.remove_elements_by_name(nm.as_str())).map(|g| g == w); }
                }
            }
            _ => {
                who = "attr";
                let k = if r.chance(12) { name_str(r) } else if r.chance(60) && !me.attrs.is_empty() { let ks: Vec<&String> = me.attrs.keys().collect(); let k = (*r.pick(&ks)).clone(); if r.chance(20) { near(r, &k) } else { k } } else { attr_name(r) };
                match r.below(10) {
                    0..=5 => { let v = txt(r); *log += &format!("{path:?}.set_attr({k:?}, {v:?})\n"); let w = valid_name(&k); if w { me.attrs.insert(k.clone(), v.clone()); } ret = guard(|| xe.set_attr(k.as_str(), v).is_ok()).map(|g| g == w); }
                    6..=8 => { *log += &format!("{path:?}.remove_attr({k:?})\n"); let w = me.attrs.remove(&k); ret = guard(|| xe.remove_attr(k.as_str())).map(|g| g == w); }
                    _ => { *log += &format!("{path:?}.clear_attributes()\n"); me.attrs.clear(); xe.clear_attributes(); }
                }
                if ret == Ok(true) { let w = me.attrs.get(&k).cloned(); let g = xe.get_attr(k.as_str()).cloned(); if g != w { return if prop == "C12" { bad(format!("get_attr({k:?}) == {g:?}, expected {w:?}")) } else { Ok(()) }; } }
            }
        }
        if cd.any() { return Ok(()); }
        let owner = match who { "add" => "C08", "remove" => "C09", _ => "C12" };
        match ret { Err(p) => return if prop == owner { bad(p) } else { Ok(()) }, Ok(false) => return if prop == owner { bad("wrong return value".into()) } else { Ok(()) }, _ => {} }
        let g = m_elem(&e); let d = diff(&m, &g);
        if d.any() {
            let mine = match who { "add" => (prop == "C08" && (d.shape || d.attrs)) || (prop == "C10" && d.ns && !d.shape), _ => prop == owner };
            return if mine { bad(format!("expected {m:?}\n     got {g:?}")) } else { Ok(()) };
        }
    }
    Ok(())
}
fn hash_of<T: std::hash::Hash>(t: &T) -> u64 { use std::hash::Hasher; let mut h = std::collections::hash_map::DefaultHasher::new(); t.hash(&mut h); h.finish() }
/// change one thing in a tree, through the public API
fn tweak(r: &mut Rng, m: &mut MElem, e: &mut Element, log: &mut String) {
    let path = rpath(r, m); let me = mat(m, &path).clone(); let xe = rat(e, &path);
    *log += &format!("tweak at {path:?}: ");
    match r.below(7) {
        0 => { let k = attr_name(r); *log += &format!("set_attr {k}"); let _ = xe.set_attr(k, txt(r)); }
        1 => { *log += "append text"; xe.append(Text::new(txt(r))); }
        2 => { *log += "append comment"; xe.append(Comment::new(comment(r)).unwrap()); }
        3 if !me.kids.is_empty() => { *log += "remove child"; let _ = xe.remove(r.below(me.kids.len())); }
        4 => { *log += "insert element"; let _ = xe.insert(0, Element::new_from_name(*r.pick(NAMES)).unwrap()); }
        5 => { if let Some(k) = me.attrs.keys().next() { *log += "remove attr"; xe.remove_attr(k.as_str()); } }
        _ => { if let Some((i, _)) = me.kids.iter().enumerate().find(|(_, k)| matches!(k, MNode::C(_) | MNode::D(_))) { *log += "change leaf"; let c = xe.children_mut().nth(i).unwrap(); if let Ok(c) = c.as_comment_mut() { let _ = c.set_content(comment(r)); } else if let Ok(c) = c.as_cdata_mut() { let _ = c.set_text(cdata(r)); } } }
    }
    *log += "\n";
    *m = m_elem(e);
}
/// clones e (and some of its descendants), makes the same changes to original and clone, and wants the same result
fn later(r: &mut Rng, e: &mut Element, log: &mut String) -> R {
    for k in e.child_elements_mut() { if r.chance(60) { later(r, k, log)?; } }
    let mut c = guard(|| e.clone())?;
    let n = 1 + r.below(3);
    for _ in 0..n {
        let p = if r.chance(70) { Some(pfx(r)) } else { None };
        let x = Element::new("later", None, Option::<HashMap<String, String>>::None, None, p, None).unwrap();
        let t = txt(r);
        *log += &format!("same change to {:?} and its clone: {:?} {t:?}\n", e.tag_name(), m_elem(&x));
        for y in [&mut *e, &mut c] { guard(|| { y.append(x.clone()); y.append(Text::new(t.as_str())); y.append_all(vec![x.clone().boxed()]); })?; }
        ensure!(eeq(&m_elem(e), &m_elem(&c)), "the same change gives {:?} on the original and {:?} on the clone", m_elem(e), m_elem(&c));
    }
    Ok(())
}
fn eq_clone(r: &mut Rng, log: &mut String) -> R {
    let mut cd = Diff::default();
    let (mut m0, mut a) = pair_elem(r, 3, log, &mut cd);
    if r.chance(25) { disturb(r, &mut m0, &mut a, log); }
    let ma = m_elem(&a);
    *log += &format!("a = {ma:?}\n");
    let mut b = guard(|| a.clone())?;
    let mb = m_elem(&b);
    ensure!(eeq(&ma, &mb), "clone differs: {mb:?}");
    ensure!(guard(|| a == b && b == a)?, "clone is not equal to its original");
    ensure!(guard(|| a.to_string() == b.to_string())?, "clone prints differently");
    ensure!(hash_of(&a) == hash_of(&b), "clone hashes differently");
    let bx = a.clone().boxed(); let cx = guard(|| clone_node(&bx))?;
    ensure!(meq(&m_node(&bx), &m_node(&cx)) && node_eq(&bx, &cx), "clone_node differs");
    for k in a.children() { let c = guard(|| clone_node(k))?; ensure!(meq(&m_node(k), &m_node(&c)) && guard(|| node_eq(k, &c))?, "clone_node of child differs: {:?}", m_node(&c)); }
    // equality of children pairs
    let mut ks: Vec<&Box<dyn Node>> = a.children().collect();
    if ks.len() > 30 { let i = r.below(ks.len() - 29); ks = ks[i..i + 30].to_vec(); }
    for x in &ks { for y in &ks { let w = meq(&m_node(x), &m_node(y)); let g = guard(|| node_eq(x, y))?; ensure!(w == g, "node_eq({:?}, {:?}) == {g}", m_node(x), m_node(y)); } }
    // a node is found equal to one with the same content built separately
    let mut m2 = mb.clone();
    for _ in 0..1 + r.below(2) { tweak(r, &mut m2, &mut b, log); }
    ensure!(eeq(&ma, &m_elem(&a)), "changing the clone changed the original: {:?}", m_elem(&a));
    let w = eeq(&ma, &m2);
    ensure!(guard(|| (a == b) == w && (b == a) == w && (a != b) != w)?, "equality is {}, expected {w}: {ma:?} vs {m2:?}", a == b);
    if w { ensure!(hash_of(&a) == hash_of(&b), "equal elements hash differently"); }
    let keep = m_elem(&b); let mut mm = ma.clone(); tweak(r, &mut mm, &mut a, log);
    ensure!(eeq(&keep, &m_elem(&b)), "changing the original changed the clone");
    // the same change made to both gives equal results (also for a cloned inner element)
    later(r, &mut a, log)?;
    // attribute names/values swapped, different prefix, different namespace
    let p1 = if r.chance(50) { None } else { Some(pfx(r)) }; let p2 = if r.chance(50) { p1.clone() } else { Some(pfx(r)) };
    let (n1, n2) = (if r.chance(50) { Some(ns(r)) } else { None }, if r.chance(50) { Some(ns(r)) } else { None });
    let (at1, at2) = (attrs(r), attrs(r));
    let h = |a: &Attrs| -> HashMap<String, String> { a.iter().map(|(k, v)| (k.clone(), v.clone())).collect() };
    let x = Element::new("n", None, Some(h(&at1)), n1, p1, None).unwrap(); let y = Element::new("n", None, Some(h(if r.chance(60) { &at1 } else { &at2 })), n2, p2, None).unwrap();
    let w = eeq(&m_elem(&x), &m_elem(&y));
    ensure!((x == y) == w, "equality is {}, expected {w}: {:?} vs {:?}", x == y, m_elem(&x), m_elem(&y));
    if w { ensure!(hash_of(&x) == hash_of(&y), "equal elements hash differently"); }
    let (t1, t2) = (txt(r), txt(r));
    ensure!((Text::new(t1.as_str()) == Text::new(t2.as_str())) == (t1 == t2), "text equality {t1:?} {t2:?}");
    ensure!(hash_of(&Text::new(t1.as_str())) == hash_of(&Text::new(t1.as_str()).clone()), "text hash");
    let (c1, c2) = (comment(r), comment(r));
    let (a1, a2) = (Comment::new(c1.as_str()).unwrap(), Comment::new(c2.as_str()).unwrap());
    ensure!((a1 == a2) == (c1 == c2) && a1.clone() == a1 && hash_of(&a1) == hash_of(&a1.clone()), "comment equality {c1:?} {c2:?}");
    let (c1, c2) = (cdata(r), cdata(r));
    let (a1, a2) = (CData::new(c1.as_str()).unwrap(), CData::new(c2.as_str()).unwrap());
    ensure!((a1 == a2) == (c1 == c2) && a1.clone() == a1 && hash_of(&a1) == hash_of(&a1.clone()), "cdata equality {c1:?} {c2:?}");
    let mk = |r: &mut Rng| -> (MDoc, Document) { let decl = if r.chance(60) { Some(Declaration::from_str(*r.pick(&DECLS[..3])).unwrap()) } else { None }; let dt: Vec<DTD> = (0..r.below(3)).map(|_| DTD::from_string(*r.pick(&DTDS[..2])).unwrap()).collect(); let root = if r.chance(80) { Element::new_from_name("r").unwrap() } else { Element::new_from_name("s").unwrap() }; let d = Document::new_with_decl_dtd(root, decl, Some(&dt)); (m_doc(&d), d) };
    let ((m1, d1), (m2, d2)) = (mk(r), mk(r));
    let w = m1.decl == m2.decl && m1.dtds == m2.dtds && eeq(&m1.root, &m2.root);
    ensure!((d1 == d2) == w, "document equality is {}, expected {w}: {m1:?} vs {m2:?}", d1 == d2);
    Ok(())
}
const INDENTS: &[&str] = &["  ", "\t", "", " ", "    ", "\t\t", " \t", "x", "\n", "--", "\u{a0}", "  x", "\t ", "\u{3000}"];
fn writer(r: &mut Rng, log: &mut String) -> R {
    let mut cd = Diff::default();
    let depth = 1 + r.below(4);
    let (mut m0, mut e) = pair_elem(r, depth, log, &mut cd);
    if r.chance(25) { disturb(r, &mut m0, &mut e, log); }
    let m = m_elem(&e);
    *log += &format!("tree {m:?}\n");
    for ind in ["  ", *r.pick(INDENTS), *r.pick(&INDENTS[..5])] {
        let w = write_elem(&m, "", &norm_indent(ind), false);
        let g = guard(|| e.to_string_with_indent(ind))?;
        ensure!(w == g, "indent {ind:?}: written as {g:?}, expected {w:?}");
    }
    let w = write_elem(&m, "", "  ", false);
    ensure!(guard(|| e.to_string())? == w && guard(|| format!("{e}"))? == w && guard(|| format!("{e:?}"))? == w, "Display/Debug differ: {:?}, expected {w:?}", e.to_string());
    for k in e.children() { let w = write_node(&m_node(k)); ensure!(guard(|| k.to_string())? == w, "child written as {:?}, expected {w:?}", k.to_string()); }
    // attribute order does not depend on insertion history
    let mut f = Element::new_from_name("z").unwrap(); let mut ks: Vec<String> = (0..6).map(|_| attr_name(r)).collect();
    for k in &ks { let _ = f.set_attr(k.as_str(), "1"); }
    let s1 = f.to_string(); f.clear_attributes(); ks.reverse(); for k in &ks { let _ = f.set_attr(k.as_str(), "1"); }
    let s2 = f.to_string(); ensure!(s1 == s2 && s1 == write_elem(&m_elem(&f), "", "  ", false), "attribute order: {s1:?} vs {s2:?}");
    let d = Document::new(e); let ind = *r.pick(INDENTS);
    let md = m_doc(&d); let (g, w) = (guard(|| d.to_string_with_indent(ind))?, write_doc(&md, ind));
    ensure!(g == w, "document with indent {ind:?}: {g:?}, expected {w:?}");
    Ok(())
}
fn docs(r: &mut Rng, log: &mut String) -> R {
    let mut cd = Diff::default();
    let (_, e) = pair_elem(r, 1, log, &mut cd);
    let root = m_elem(&e);
    let rd = |r: &mut Rng| if r.chance(30) { None } else { Some(decl(r)) };
    let rt = |r: &mut Rng| -> Vec<String> { { let n = big(r, 8, 70).unwrap_or(r.below(4)); (0..n).map(|_| dtd(r)).collect() } };
    let (mut decl, mut dtds) = (rd(r), rt(r));
    let mkd = |d: &Option<String>| d.as_ref().map(|s| Declaration::from_str(s).unwrap());
    let mkt = |d: &Vec<String>| -> Vec<DTD> { d.iter().map(|s| DTD::from_string(s.as_str()).unwrap()).collect() };
    let mut d = if r.chance(20) { decl = Some("<?xml version=\"1.0\" encoding=\"UTF-8\"?>".into()); dtds = vec![]; guard(|| Document::new(e))? } else { let v = mkt(&dtds); guard(|| Document::new_with_decl_dtd(e, mkd(&decl), if v.is_empty() { None } else { Some(&v) }))? };
    for _ in 0..1 + r.below(4) {
        let m = MDoc { decl: decl.clone(), dtds: dtds.clone(), root: root.clone() };
        *log += &format!("expect {m:?}\n");
        let g = m_doc(&d);
        ensure!(g.decl == m.decl && g.dtds == m.dtds && eeq(&g.root, &m.root), "document is {g:?}, expected {m:?}");
        let mut head = String::new(); for l in decl.iter().chain(&dtds) { head += l; head += "\n"; }
        let (g, w) = (guard(|| d.to_string())?, head + &d.root_element().to_string() + "\n");
        ensure!(g == w && format!("{d}") == w, "written as {g:?}, expected {w:?}");
        match r.below(4) {
            0 => { decl = rd(r); d.set_declaration(mkd(&decl)); }
            1 => { dtds = rt(r); let v = mkt(&dtds); d.set_doctype_defs(Some(&v)); }
            2 => { dtds = vec![]; d.set_doctype_defs(None); }
            _ => { if !dtds.is_empty() { let i = r.below(dtds.len()); let s = dtd(r); *d.doctype_defs_mut().nth(i).ok_or("doctype_defs_mut too short")? = DTD::from_string(s.as_str()).unwrap(); dtds[i] = s; } }
        }
    }
    Ok(())
}
fn addr(n: &Box<dyn Node>) -> usize { &**n as *const dyn Node as *const u8 as usize }
fn eaddr(n: &Element) -> usize { n as *const Element as usize }
fn all_desc<'a>(e: &'a Element, o: &mut Vec<&'a Box<dyn Node>>) { for k in e.children() { o.push(k); if let Ok(c) = k.as_element() { all_desc(c, o); } } }
fn m_elems<'a>(m: &'a MElem, o: &mut Vec<&'a MElem>) { o.push(m); for k in &m.kids { if let MNode::E(c) = k { m_elems(c, o); } } }
fn iters(r: &mut Rng, log: &mut String) -> R {
    let mut cd = Diff::default();
    let (mut m, mut e) = pair_elem(r, 3, log, &mut cd);
    if !cd.any() && r.chance(25) && !disturb(r, &mut m, &mut e, log) { return Ok(()); }
    *log += &format!("tree {m:?}\n");
    if cd.any() { return Ok(()); }
    let kids: Vec<usize> = e.children().map(addr).collect();
    ensure!(kids.len() == m.kids.len(), "children() yields {} nodes, expected {}", kids.len(), m.kids.len());
    ensure!(kids.iter().collect::<std::collections::BTreeSet<_>>().len() == kids.len(), "children() repeats a node");
    for (k, w) in e.children().zip(&m.kids) { ensure!(meq(&m_node(k), w), "children() yields {:?}, expected {w:?}", m_node(k)); }
    let at: Vec<(usize, MElem)> = e.children().zip(&m.kids).filter_map(|(k, w)| match w { MNode::E(x) => Some((addr(k), x.clone())), _ => None }).collect();
    let expect = |f: &dyn Fn(&MElem) -> bool| -> Vec<usize> { at.iter().filter(|(_, x)| f(x)).map(|(a, _)| *a).collect() };
    macro_rules! same { ($n:literal, $got:expr, $want:expr) => { let g: Vec<usize> = guard(|| $got)?; let w: Vec<usize> = $want; ensure!(g == w, "{}: visited {} nodes, expected {} (or a different order)", $n, g.len(), w.len()); } }
    let mut desc: Vec<&MElem> = vec![]; m_elems(&m, &mut desc);
    let tag = |x: &MElem| x.prefix.as_ref().map(|p| format!("{p}:{}", x.name)).unwrap_or(x.name.clone());
    let nm = match r.below(10) { 0..=5 => name(r), 6 => tag(*r.pick(&desc)), 7 => { let t = tag(*r.pick(&desc)); near(r, &t) }, _ => { let t = r.pick(&desc).name.clone(); near(r, &t) } };
    let ns = if r.chance(40) { None } else if r.chance(50) { let x = r.pick(&desc).ns.clone(); if r.chance(30) { Some(near(r, &x.unwrap_or_default())) } else { x } } else { Some(ns(r)) };
    let px = if r.chance(40) { None } else { let p = pfx(r); Some(if r.chance(25) { near(r, &p) } else { p }) };
    *log += &format!("name {nm:?} ns {ns:?} prefix {px:?}\n");
    same!("child_elements", e.child_elements().map(eaddr).collect(), expect(&|_| true));
    same!("child_elements_mut", e.child_elements_mut().map(|x| eaddr(x)).collect(), expect(&|_| true));
    same!("children_mut", e.children_mut().map(|x| addr(x)).collect(), kids.clone());
    same!("elements_by_name", e.elements_by_name(nm.as_str()).map(eaddr).collect(), expect(&|x| x.name == nm));
    same!("elements_by_name_mut", e.elements_by_name_mut(nm.as_str()).map(|x| eaddr(x)).collect(), expect(&|x| x.name == nm));
    same!("elements_by_namespace", e.elements_by_namespace(ns.as_deref()).map(eaddr).collect(), expect(&|x| x.ns == ns));
    same!("elements_by_namespace_mut", e.elements_by_namespace_mut(ns.as_deref()).map(|x| eaddr(x)).collect(), expect(&|x| x.ns == ns));
    same!("elements_by_namespace_prefix", e.elements_by_namespace_prefix(px.as_deref()).map(eaddr).collect(), expect(&|x| x.prefix == px));
    same!("elements_by_namespace_prefix_mut", e.elements_by_namespace_prefix_mut(px.as_deref()).map(|x| eaddr(x)).collect(), expect(&|x| x.prefix == px));
    let first = expect(&|x| x.name == nm).first().copied();
    let g = guard(|| e.first_element_by_name(nm.as_str()).ok().map(eaddr))?; ensure!(g == first, "first_element_by_name: found={} expected={}", g.is_some(), first.is_some());
    let g = guard(|| e.first_element_by_name_mut(nm.as_str()).ok().map(|x| eaddr(x)))?; ensure!(g == first, "first_element_by_name_mut: found={} expected={}", g.is_some(), first.is_some());
    let mut all = vec![]; all_desc(&e, &mut all);
    let p = Pred::gen(r); *log += &format!("predicate {p:?}\n");
    let want = |f: &dyn Fn(&Box<dyn Node>) -> bool| -> Vec<usize> { let mut v: Vec<usize> = all.iter().filter(|n| f(n)).map(|n| addr(n)).collect(); v.sort(); v };
    macro_rules! set { ($n:literal, $got:expr, $want:expr) => { let mut g: Vec<usize> = guard(|| $got)?; g.sort(); let w: Vec<usize> = $want; ensure!(g == w, "{}: visited {} nodes, expected {} (missing, repeated or extra nodes)", $n, g.len(), w.len()); } }
    let is_e = |n: &Box<dyn Node>| matches!(m_node(n), MNode::E(_));
    set!("children_recursive", e.children_recursive().map(addr).collect(), want(&|_| true));
    set!("all_children", e.all_children().map(addr).collect(), want(&|_| true));
    set!("search", e.search(|n| p.x(n)).map(addr).collect(), want(&|n| p.x(n)));
    set!("search_elements", e.search_elements(|n| p.xe(n)).map(eaddr).collect(), want(&|n| is_e(n) && p.x(n)));
    set!("search_elements_by_name", e.search_elements_by_name(nm.as_str()).map(eaddr).collect(), want(&|n| matches!(m_node(n), MNode::E(x) if x.name == nm)));
    set!("search_text", e.search_text(|n| p.m(&MNode::T(n.text()))).map(|t| t as *const Text as usize).collect(), want(&|n| matches!(m_node(n), MNode::T(_)) && p.x(n)));
    set!("search_comments", e.search_comments(|n| p.m(&MNode::C(n.get_content().into()))).map(|t| t as *const Comment as usize).collect(), want(&|n| matches!(m_node(n), MNode::C(_)) && p.x(n)));
    Ok(())
}
struct Chunk<'a> { d: &'a [u8], n: usize, fail: Option<usize>, pos: usize, hiccup: bool }
impl std::io::Read for Chunk<'_> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if self.fail == Some(self.pos) { return Err(std::io::Error::new(std::io::ErrorKind::Other, "injected")); }
        if self.hiccup { self.hiccup = false; return Err(std::io::Error::new(std::io::ErrorKind::Interrupted, "again")); }
        let mut k = self.n.min(b.len()).min(self.d.len() - self.pos); if let Some(f) = self.fail { k = k.min(f - self.pos); }
        b[..k].copy_from_slice(&self.d[self.pos..self.pos + k]); self.pos += k; Ok(k)
    }
}
struct Sink { v: Vec<u8>, n: usize, cap: Option<usize>, hiccup: bool }
impl std::io::Write for Sink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.hiccup { self.hiccup = false; return Err(std::io::Error::new(std::io::ErrorKind::Interrupted, "again")); }
        let mut k = self.n.min(b.len()); if let Some(c) = self.cap { if self.v.len() >= c { return Err(std::io::Error::new(std::io::ErrorKind::Other, "full")); } k = k.min(c - self.v.len()); }
        self.v.extend_from_slice(&b[..k]); Ok(k)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn io(r: &mut Rng, log: &mut String, tmp: &std::path::Path) -> R {
    let s = match r.below(4) { 0 => xmut(r), 1 => soup(r), _ => xdoc(r) };
    let s = if let Some(k) = big(r, 60, 9000) { let pad = fill(r, "pad ", k); if r.chance(50) { format!("<!--{}-->{s}", pad.replace("--", "")) } else { s.replacen("</", &format!("{}</", pad.replace('<', "")), 1) } } else { s };
    *log += &format!("text {s:?}\n");
    let base = match parse(&s) { Ok(b) => b.ok(), Err(_) => return Ok(()) };
    let same = |n: &str, g: Result<Document, String>| -> R { match (&base, g) { (None, Err(_)) => Ok(()), (Some(a), Ok(b)) => { let (x, y) = (m_doc(a), m_doc(&b)); ensure!(x.decl == y.decl && x.dtds == y.dtds && eeq(&x.root, &y.root), "{n}: {y:?}, parse_str: {x:?}"); Ok(()) } (a, b) => bad(format!("{n}: ok={}, parse_str: ok={}", b.is_ok(), a.is_some())) } };
    let st = |d: &[u8], n: usize, fail: Option<usize>, hiccup: bool| guard(|| kiss_xml::parse_stream(Chunk { d, n, fail, pos: 0, hiccup }).map_err(|e| format!("{e:?}")));
    let n = if s.len() > 1000 { 1 + r.below(5000) } else { 1 + r.below(7) }; let hic = r.chance(30);
    same("parse_stream", st(s.as_bytes(), n, None, hic)?)?;
    same("parse_str(String)", guard(|| kiss_xml::parse_str(s.clone()).map_err(|e| e.to_string()))?)?;
    let k = r.below(s.len() + 1);
    ensure!(st(s.as_bytes(), n, Some(k), false)?.is_err(), "read error after {k} bytes is not reported");
    let mut badb = s.clone().into_bytes(); let at = r.below(badb.len() + 1); let tail: &[u8] = *r.pick(&[&[0xff][..], &[0xc3][..], &[0xe4, 0xb8][..], &[0xed, 0xa0, 0x80][..], &[0x80][..], &[0xf0, 0x9f, 0x98][..], &[0xc0, 0xaf][..]]);
    let at = (at..=badb.len()).find(|&i| s.is_char_boundary(i)).unwrap(); for (i, b) in tail.iter().enumerate() { badb.insert(at + i, *b); }
    let valid = std::str::from_utf8(&badb).is_ok();
    if !valid { ensure!(st(&badb, n, None, false)?.is_err(), "stream that is not UTF-8 was accepted"); }
    let p = tmp.join("in.xml");
    std::fs::write(&p, &s).map_err(|e| e.to_string())?;
    same("parse_filepath", guard(|| kiss_xml::parse_filepath(&p).map_err(|e| e.to_string()))?)?;
    if !valid { std::fs::write(&p, &badb).map_err(|e| e.to_string())?; ensure!(guard(|| kiss_xml::parse_filepath(&p).is_err())?, "file that is not UTF-8 was accepted"); }
    ensure!(guard(|| kiss_xml::parse_filepath(tmp.join("missing.xml")).is_err())?, "missing file accepted");
    ensure!(guard(|| kiss_xml::parse_filepath(tmp).is_err())?, "directory accepted as file");
    if let Some(d) = &base {
        let ind = *r.pick(INDENTS);
        let (def, with) = (guard(|| d.to_string())?, guard(|| d.to_string_with_indent(ind))?);
        ensure!(format!("{d}") == def, "Display differs from to_string");
        ensure!(format!("{d:?}") == def, "Debug differs from to_string");
        let hic2 = r.chance(30);
        let mk = |cap| Sink { v: vec![], n, cap, hiccup: hic2 };
        let mut k = mk(None); guard(|| d.write_to_file(&mut k).map_err(|e| e.to_string()))??; ensure!(k.v == def.as_bytes(), "write_to_file wrote {:?}, expected {def:?}", String::from_utf8_lossy(&k.v));
        let mut k = mk(None); guard(|| d.write_to_file_with_indent(&mut k, ind).map_err(|e| e.to_string()))??; ensure!(k.v == with.as_bytes(), "write_to_file_with_indent wrote {:?}, expected {with:?}", String::from_utf8_lossy(&k.v));
        let cap = r.below(def.len()); let mut k = mk(Some(cap)); ensure!(guard(|| d.write_to_file(&mut k).is_err())?, "write error after {cap} bytes is not reported");
        let cap = r.below(with.len()); let mut k = mk(Some(cap)); ensure!(guard(|| d.write_to_file_with_indent(&mut k, ind).is_err())?, "write error after {cap} bytes is not reported");
        let sub = tmp.join(format!("d{}", r.below(1_000_000)));
        let q = if r.chance(50) { sub.join("x/y/out.xml") } else { sub.join("out.xml") };
        let existed = r.chance(30); if existed { std::fs::create_dir_all(q.parent().unwrap()).map_err(|e| e.to_string())?; std::fs::write(&q, "z".repeat(def.len() + 500)).map_err(|e| e.to_string())?; }
        let res: R = (|| {
            guard(|| d.write_to_filepath(&q).map_err(|e| format!("write_to_filepath: {e}")))??;
            ensure!(std::fs::read(&q).map_err(|e| e.to_string())? == def.as_bytes(), "write_to_filepath wrote something else");
            guard(|| d.write_to_filepath_with_indent(&q, ind).map_err(|e| format!("write_to_filepath_with_indent: {e}")))??;
            ensure!(std::fs::read(&q).map_err(|e| e.to_string())? == with.as_bytes(), "write_to_filepath_with_indent wrote something else");
            ensure!(guard(|| d.write_to_filepath(&sub).is_err())?, "writing over a directory is not reported");
            ensure!(guard(|| d.write_to_filepath(q.join("below-a-file.xml")).is_err())?, "parent is a file: not reported");
            Ok(())
        })();
        let _ = std::fs::remove_dir_all(&sub); res?;
    }
    Ok(())
}
fn casts(r: &mut Rng, log: &mut String) -> R {
    let mut cd = Diff::default();
    let (m, mut b) = pair_node(r, 1, log, &mut cd);
    let m = { let g = m_node(&b); if !meq(&g, &m) { let k = |n: &MNode| match n { MNode::E(_) => 0, MNode::T(_) => 1, MNode::C(_) => 2, MNode::D(_) => 3 }; ensure!(k(&g) == k(&m), "boxing changed the kind of {m:?} to {g:?}"); if !MElem::is_elem(&m) { return bad(format!("boxing changed {m:?} to {g:?}")); } } g };
    *log += &format!("node {m:?}\n");
    let k = match m { MNode::E(_) => 0, MNode::T(_) => 1, MNode::C(_) => 2, MNode::D(_) => 3 };
    fn facts(n: &mut dyn Node, k: usize, m: &MNode) -> R {
        let base = n as *const dyn Node as *const u8 as usize;
        let is = [n.is_element(), n.is_text(), n.is_comment(), n.is_cdata()];
        for (i, x) in is.iter().enumerate() { ensure!(*x == (i == k), "is_* test #{i} is {x} on kind #{k}"); }
        let t = [DomNodeType::ElementNode, DomNodeType::TextNode, DomNodeType::CommentNode, DomNodeType::CDataNode][k];
        ensure!(n.node_type() == t, "node_type is {:?} on kind #{k}", n.node_type());
        let c = [n.as_element().ok().map(|x| x as *const Element as usize), n.as_text().ok().map(|x| x as *const Text as usize), n.as_comment().ok().map(|x| x as *const Comment as usize), n.as_cdata().ok().map(|x| x as *const CData as usize)];
        for (i, x) in c.iter().enumerate() { ensure!(x.is_some() == (i == k), "cast #{i} ok={} on kind #{k}", x.is_some()); if let Some(x) = x { ensure!(*x == base, "cast returned another node"); } }
        let c = [n.as_element_mut().ok().map(|x| x as *const Element as usize), n.as_text_mut().ok().map(|x| x as *const Text as usize), n.as_comment_mut().ok().map(|x| x as *const Comment as usize), n.as_cdata_mut().ok().map(|x| x as *const CData as usize)];
        for (i, x) in c.iter().enumerate() { ensure!(x.is_some() == (i == k), "mutable cast #{i} ok={} on kind #{k}", x.is_some()); if let Some(x) = x { ensure!(*x == base, "mutable cast returned another node"); } }
        ensure!(n.as_node() as *const dyn Node as *const u8 as usize == base, "as_node returned another node");
        ensure!(n.as_node_mut() as *const dyn Node as *const u8 as usize == base, "as_node_mut returned another node");
        let a = n.as_any(); let is = [a.is::<Element>(), a.is::<Text>(), a.is::<Comment>(), a.is::<CData>()];
        for (i, x) in is.iter().enumerate() { ensure!(*x == (i == k), "as_any type #{i} is {x} on kind #{k}"); }
        let a = n.as_any_mut(); let is = [a.is::<Element>(), a.is::<Text>(), a.is::<Comment>(), a.is::<CData>()];
        for (i, x) in is.iter().enumerate() { ensure!(*x == (i == k), "as_any_mut type #{i} is {x} on kind #{k}"); }
        ensure!(n.text() == text_of(m), "text() == {:?}, expected {:?}", n.text(), text_of(m));
        Ok(())
    }
    guard(|| facts(&mut *b, k, &m))??;
    ensure!(DomNodeType::from(clone_node(&b)) == b.node_type(), "DomNodeType::from differs");
    // unboxed values
    match &m { MNode::T(t) => guard(|| facts(&mut Text::new(t.as_str()), k, &m))??, MNode::C(t) => guard(|| facts(&mut Comment::new(t.as_str()).unwrap(), k, &m))??, MNode::D(t) => guard(|| facts(&mut CData::new(t.as_str()).unwrap(), k, &m))??, MNode::E(_) => { let mut e = b.as_element().unwrap().clone(); guard(|| facts(&mut e, k, &m))??; let bx = e.clone().boxed(); ensure!(meq(&m_node(&bx), &MNode::E(m_elem(&e))), "boxing an element changed it"); } }
    if let MNode::T(t) = &m { ensure!(Text::from(t.as_str()).text() == *t && Text::from(t.clone()).text() == *t, "Text::from"); }
    // changes through a mutable cast show in the original
    match k { 0 => { b.as_element_mut().unwrap().set_text("new"); ensure!(b.text() == "new", "change through as_element_mut lost"); } 1 => { *b.as_text_mut().unwrap() = Text::new("new"); ensure!(b.text() == "new", "change through as_text_mut lost"); } 2 => { b.as_comment_mut().unwrap().set_content("new").unwrap(); ensure!(b.text() == "new", "change through as_comment_mut lost"); } _ => { b.as_cdata_mut().unwrap().set_text("new").unwrap(); ensure!(b.text() == "new", "change through as_cdata_mut lost"); } }
    Ok(())
}
fn texts(r: &mut Rng, log: &mut String) -> R {
    let mut cd = Diff::default();
    let (mut m0, mut e) = pair_elem(r, 4, log, &mut cd);
    if r.chance(30) { disturb(r, &mut m0, &mut e, log); }
    let m = m_elem(&e); *log += &format!("tree {m:?}\n");
    let g = guard(|| e.text())?; ensure!(g == m.text(), "text() == {g:?}, expected {:?}", m.text());
    for n in e.children_recursive() { let w = text_of(&m_node(n)); let g = guard(|| n.text())?; ensure!(g == w, "text() of {:?} == {g:?}, expected {w:?}", m_node(n)); }
    Ok(())
}

// ---------------------------------------------------------------- C20
fn tag_name_ok(s: &str) -> bool { let mut c = s.chars(); c.next().map_or(false, |x| x == ':' || is_name_start(x)) && s.chars().skip(1).all(is_name_char) && !s.chars().any(is_ws) }
/// does the tree say the same as its own text: names and prefixes fit a tag, namespaces are the ones declared, no blank or adjacent texts
pub fn reads_back(e: &MElem, p: Option<&MElem>) -> bool {
    if !tag_name_ok(&e.tag()) || !valid_name(&e.name) || e.attrs.keys().any(|k| !valid_name(k) || k.chars().any(is_ws)) { return false; }
    if e.prefix.is_none() && e.name.contains(':') || e.prefix.as_ref().map_or(false, |p| p.contains(':')) { return false; }
    if p.is_none() && e.prefix.as_ref().map_or(false, |x| !e.attrs.contains_key(&format!("xmlns:{x}"))) { return false; }
    let Some(mut b) = MElem::build(&e.name, None, Some(&e.attrs), None, e.prefix.clone(), None) else { return false };
    if let Some(p) = p { b.inherit(p.default_ns(), &p.ctx); }
    if b.ns != e.ns { return false; }
    for (i, k) in e.kids.iter().enumerate() { match k { MNode::T(t) => if blank(t) || i > 0 && matches!(e.kids[i - 1], MNode::T(_)) { return false; }, MNode::E(c) => if !reads_back(c, Some(&b)) { return false; }, _ => {} } }
    true
}
/// a real tree whose namespaces follow its declarations; `scope`: bindings and default namespace around it
fn well_scoped(r: &mut Rng, depth: usize, scope: &Attrs, dflt: &Option<String>, root: bool, log: &mut String) -> (MElem, Element) {
    let mut a = if r.chance(35) { Attrs::new() } else { attrs(r) };
    if r.chance(25) { a.insert(format!("xmlns:{}", pfx(r)), ns(r)); }
    if root && r.chance(20) { a.insert("xmlns".into(), ns(r)); }
    let mut sc = scope.clone(); for (k, v) in MElem::own_ctx(&a) { sc.insert(k, v); }
    let usable: Vec<String> = if root { MElem::own_ctx(&a).into_keys().collect() } else { sc.keys().cloned().collect() };
    let prefix = if !usable.is_empty() && r.chance(40) { Some(r.pick(&usable).clone()) } else { None };
    let want = match &prefix { Some(p) => sc.get(p).cloned(), None => a.get("xmlns").cloned().or(dflt.clone()) };
    let dn = if prefix.is_none() { want.clone() } else { None };
    let nm = name(r);
    let explicit = !root && r.chance(60);
    let (n, depth) = nkids(r, depth);
    let early = r.chance(40); // children first, or added later
    *log += &format!("<{nm} prefix {prefix:?} attrs {a:?} explicit {explicit} early {early}\n");
    let (mut mk, mut kids): (Vec<MNode>, Vec<Box<dyn Node>>) = (vec![], vec![]);
    for _ in 0..n { let (x, y) = scoped_node(r, depth, &sc, &dn, log); mk.push(x); kids.push(y); }
    let ex = if explicit { want } else { None };
    let h = |a: &Attrs| -> HashMap<String, String> { a.iter().map(|(k, v)| (k.clone(), v.clone())).collect() };
    if early { return (MElem::build(&nm, None, Some(&a), ex.clone(), prefix.clone(), Some(mk)).unwrap(), Element::new(nm, None, Some(h(&a)), ex, prefix, Some(kids)).expect("valid names")); }
    let mut m = MElem::build(&nm, None, Some(&a), ex.clone(), prefix.clone(), None).unwrap();
    let mut e = Element::new(nm, None, Some(h(&a)), ex, prefix, None).expect("valid names");
    if r.chance(30) { m.append_all(mk); e.append_all(kids); } else { for (x, y) in mk.into_iter().zip(kids) { add_at(r, &mut m, &mut e, x, y, log); } }
    (m, e)
}
fn scoped_node(r: &mut Rng, depth: usize, sc: &Attrs, dn: &Option<String>, log: &mut String) -> (MNode, Box<dyn Node>) {
    let m = match if depth > 8 { 0 } else { r.below(10) } { 0..=3 => { let (m, e) = well_scoped(r, depth.saturating_sub(1), sc, dn, false, log); return (MNode::E(m), e.boxed()); } 4..=6 => { let mut t = txt(r); if blank(&t) && r.chance(95) { t.push('t'); } MNode::T(t) } 7 | 8 => MNode::C(comment(r)), _ => MNode::D(cdata(r)) };
    let b = real_leaf(&m); (m, b)
}
/// append or insert the same node on both sides
fn add_at(r: &mut Rng, m: &mut MElem, e: &mut Element, x: MNode, y: Box<dyn Node>, log: &mut String) {
    if r.chance(65) || m.kids.len() != e.children().count() { *log += "append\n"; m.append(x); e.append_boxed(y); return; }
    let i = r.below(m.kids.len() + 1); *log += &format!("insert at {i}\n");
    match &x { MNode::E(_) => { let _ = e.insert(i, y.as_element().unwrap().clone()); } MNode::T(t) => { let _ = e.insert(i, Text::new(t.as_str())); } MNode::C(t) => { let _ = e.insert(i, Comment::new(t.as_str()).unwrap()); } MNode::D(t) => { let _ = e.insert(i, CData::new(t.as_str()).unwrap()); } }
    m.insert(i, x);
}
/// edits of a built tree, on both sides
fn scoped_edit(r: &mut Rng, m: &mut MElem, e: &mut Element, log: &mut String) {
    let path = rpath(r, m); let mut dn = m.default_ns(); let mut sc = m.ctx.clone();
    { let mut c = &*m; let mut x = &*e; for &i in &path { if x.children().count() <= i || !x.children().nth(i).unwrap().is_element() { return; } x = x.children().nth(i).unwrap().as_element().unwrap(); c = match &c.kids[i] { MNode::E(k) => k, _ => unreachable!() }; dn = c.default_ns(); sc = c.ctx.clone(); } }
    let (me, xe) = (mat(m, &path), rat(e, &path));
    *log += &format!("{path:?} ");
    match r.below(9) {
        0..=3 => { let d = r.below(2); let (x, y) = scoped_node(r, d, &sc, &dn, log); add_at(r, me, xe, x, y, log); }
        4 => { let k = loop { let k = attr_name(r); if !k.starts_with("xmlns") { break k; } }; let v = txt(r); *log += &format!("set_attr({k:?}, {v:?})\n"); me.attrs.insert(k.clone(), v.clone()); let _ = xe.set_attr(k, v); }
        5 => { let k: Vec<String> = me.attrs.keys().filter(|k| !k.starts_with("xmlns")).cloned().collect(); if !k.is_empty() { let k = r.pick(&k).clone(); *log += &format!("remove_attr({k:?})\n"); me.attrs.remove(&k); xe.remove_attr(k); } }
        6 => { if !me.kids.is_empty() { let i = r.below(me.kids.len()); *log += &format!("remove({i})\n"); me.kids.remove(i); let _ = xe.remove(i); } }
        7 => { let t = txt(r); *log += &format!("set_text({t:?})\n"); me.kids.clear(); me.append(MNode::T(t.clone())); xe.set_text(t); }
        _ => { let nm = name(r); *log += &format!("remove_all_elements named {nm:?}\n"); m_remove_all(me, &|k| matches!(k, MNode::E(c) if c.name == nm)); xe.remove_all_elements(|k| k.name() == nm); }
    }
}
fn built(r: &mut Rng, log: &mut String) -> R {
    let depth = r.below(5);
    let (mut m, mut e) = guard(|| if r.chance(85) { well_scoped(r, depth, &Attrs::new(), &None, true, log) } else { let mut cd = Diff::default(); pair_elem(r, depth, log, &mut cd) })?;
    let steps = if r.chance(50) { 0 } else { 1 + r.below(4) };
    for _ in 0..steps { guard(|| scoped_edit(r, &mut m, &mut e, log))?; }
    if r.chance(8) && !guard(|| disturb(r, &mut m, &mut e, log))? { return Ok(()); }
    *log += &format!("asked for {m:?}\n");
    if !reads_back(&m, None) { return Ok(()); } // judged on what was asked for
    let m = m_elem(&e);
    *log += &format!("built {m:?}\n");
    let (mut decl_s, mut dtds) = (Some("<?xml version=\"1.0\" encoding=\"UTF-8\"?>".to_string()), vec![]);
    let d = if r.chance(50) { guard(|| Document::new(e))? } else {
        decl_s = if r.chance(40) { None } else { Some(decl(r)) }; let n = r.below(3); dtds = (0..n).map(|_| dtd(r)).collect();
        let (x, v) = (decl_s.as_ref().map(|s| Declaration::from_str(s)).transpose().map_err(|e| format!("declaration {decl_s:?}: {e}"))?, dtds.iter().map(|s: &String| DTD::from_string(s.as_str())).collect::<Result<Vec<_>, _>>().map_err(|e| format!("doctype {dtds:?}: {e}"))?);
        guard(|| Document::new_with_decl_dtd(e, x, if v.is_empty() { None } else { Some(&v) }))?
    };
    let ind = r.pick(&["  ", "\t", "", " ", "    "]).to_string();
    let t = guard(|| if ind == "  " { d.to_string() } else { d.to_string_with_indent(ind.as_str()) })?;
    *log += &format!("written with {ind:?}: {t:?}\n");
    let d2 = match guard(|| kiss_xml::parse_str(t.as_str()))? { Ok(x) => x, Err(e) => return bad(format!("what was written does not parse ({e}): {t:?}")) };
    let b = m_doc(&d2);
    ensure!(eeq(&m, &b.root), "read back {:?}\n built {m:?}\n text {t:?}", b.root);
    ensure!(d == d2 && d2 == d, "read back document is not equal; text {t:?}");
    ensure!(b.decl == decl_s && b.dtds == dtds, "declaration/doctypes read back as {:?} {:?}, expected {decl_s:?} {dtds:?}", b.decl, b.dtds);
    Ok(())
}
