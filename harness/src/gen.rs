//! Seeded generators.
use crate::model::*;
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self { let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03); for _ in 0..4 { r.next(); } r }
    pub fn next(&mut self) -> u64 { self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15); let mut z = self.0; z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9); z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB); z ^ (z >> 31) }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
    pub fn chance(&mut self, pct: usize) -> bool { self.below(100) < pct }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len())] }
}
/// literals of the current source that the recorded source does not have (empty on the recorded source): numbers become
/// sizes, texts are mixed into every kind of input
#[derive(Default)]
pub struct Dict { pub nums: Vec<usize>, pub strs: Vec<String> }
pub static DICT: std::sync::OnceLock<Dict> = std::sync::OnceLock::new();
pub fn dict() -> &'static Dict { DICT.get_or_init(Dict::default) }
/// a text of the dictionary, as it is or varied
pub fn dstr(r: &mut Rng, pct: usize) -> Option<String> {
    let d = &dict().strs; if d.is_empty() || !r.chance(pct) { return None; }
    let s = r.pick(d).clone();
    Some(match r.below(12) { 0 => format!("{s}x"), 1 => format!("x{s}"), 2 => s.repeat(2), 3 => s.to_uppercase(), 4 => format!("{s}{}", r.pick(d)), 5 => { let n = s.chars().count(); s.chars().take(n - n.min(1)).collect() } 6 => format!("{s}:x"), _ => s })
}
pub fn dname(r: &mut Rng, pct: usize, colon: bool) -> Option<String> { dstr(r, pct).filter(|s| valid_name(s) && (colon || !s.contains(':')) && !s.chars().any(is_ws)) }
pub fn pfx(r: &mut Rng) -> String { dname(r, 20, false).unwrap_or_else(|| r.pick(PFX).to_string()) }
pub fn ns(r: &mut Rng) -> String { dstr(r, 15).unwrap_or_else(|| r.pick(NS).to_string()) }
pub fn tok(r: &mut Rng) -> String { dstr(r, 12).unwrap_or_else(|| r.pick(TOK).to_string()) }
pub fn chr(r: &mut Rng) -> char { if let Some(s) = dstr(r, 15) { if let Some(c) = s.chars().next() { return c; } } *r.pick(CHARS) }
/// rarely a large size, around the thresholds code tends to have
pub const SIZES: &[usize] = &[15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 513, 1000, 1023, 1025, 2049, 4095, 4096, 4097, 5000, 8191, 8193, 9000];
pub fn big(r: &mut Rng, permille: usize, max: usize) -> Option<usize> {
    let d = &dict().nums; if !d.is_empty() && r.below(1000) < permille * 3 { let n = (*r.pick(d) + r.below(3)).saturating_sub(1); if n <= max * 2 { return Some(n); } }
    if r.below(1000) < permille { loop { let n = *r.pick(SIZES); if n <= max { return Some(n); } } } else { None } }
pub fn fill(r: &mut Rng, seg: &str, n: usize) -> String { let mut s = String::new(); let k = seg.chars().count().max(1); let seg = if seg.is_empty() { "x" } else { seg }; for _ in 0..n / k + 1 { s += seg; if r.chance(2) { s.push(*r.pick(CHARS)); } } s }
pub fn name(r: &mut Rng) -> String { if let Some(d) = dname(r, 15, false) { return d; } let n = r.pick(NAMES).to_string(); if let Some(k) = big(r, 4, 1100) { n.repeat(k / n.chars().count() + 1) } else { n } }
pub fn nkids(r: &mut Rng, depth: usize) -> (usize, usize) { if depth == 0 { return (0, 0); } if depth > 8 { return (1, depth); } if depth == 3 { if let Some(k) = big(r, 12, 300) { return (1, k.min(400) + 8); } } let top = if r.chance(20) { 600 } else { 300 }; if let Some(k) = big(r, 8, top) { return (k.min(1300), depth.min(1)); } (*r.pick(&[0, 0, 1, 1, 2, 3, 4, 5]), depth) }
pub const CHARS: &[char] = &['a', 'b', 'x', ' ', '\n', '\t', '&', ';', '<', '>', '"', '\'', '#', '=', '/', '-', '!', '?', ']', '[', ':', '0', '9', 'F', 'é', 'ß', '中', '😀', '\u{85}', '\u{a0}', '\u{2003}', '\u{301}', '\u{b7}', '\u{10ffff}', '\u{0}', '\u{feff}'];
pub fn rstr(r: &mut Rng, max: usize) -> String { if let Some(d) = dstr(r, 12) { let a = rstr(r, max / 2); let b = if r.chance(50) { String::new() } else { rstr(r, max / 3) }; return a + &d + &b; } if let Some(k) = big(r, 3, 9000) { let s = rstr(r, 5); return fill(r, &s, k); } let n = r.below(max + 1); (0..n).map(|_| if r.chance(4) { loop { if let Some(c) = char::from_u32((r.next() % 0x110000) as u32) { break c; } } } else { *r.pick(CHARS) }).collect() }
pub const ESCP: &[&str] = &["&amp;", "&lt;", "&gt;", "&apos;", "&quot;", "&#41;", "&#e9;", "&#4E2D;", "&#1F600;", "&#110000;", "&#D800;", "&#;", "&#xyz;", "&#+41;", "&#100000041;", "&#x41;", "&#26;", "&#3B;", "&", ";", "&&", "&amp", "amp;", "&amp;amp;", "&#0;", "&é;", "&lt", "<", ">", "\"", "'", "a", "é", "😀", " ", "&nbsp;", "&AMP;", "& amp;", "&amp ;", "&#20;", "&#A0;", "#41;", "&#00000000000041;", "&#-41;"];
pub fn escstr(r: &mut Rng, max: usize) -> String { if let Some(d) = dstr(r, 12) { let a = escstr(r, max / 2); let d = if r.chance(40) { format!("&{d};") } else { d }; let b = escstr(r, max / 3); return a + &d + &b; } if let Some(k) = big(r, 4, 4100) { return match r.below(4) { 0 => { let s = escstr(r, 3); fill(r, &s, k) } 1 => format!("&#{}41;", "0".repeat(k)), 2 => format!("{}&lt;{}", "x".repeat(k), escstr(r, 3)), _ => format!("&{};&gt;", "y".repeat(k)) }; } let n = r.below(max + 1); let mut o = String::new(); for _ in 0..n { match r.below(20) { 0..=10 => o += *r.pick(ESCP), 11..=15 => o += &refr(r), _ => o.push(*r.pick(CHARS)) } } o }
/// a string close to s: the kind of thing a lookup could confuse with it
pub fn near(r: &mut Rng, s: &str) -> String {
    let local = s.split_once(':').map(|x| x.1).unwrap_or(s);
    match r.below(16) {
        0 | 1 => format!("{}:{s}", pfx(r)), 2 => format!(":{s}"), 3 => format!("{s}:"), 4 => local.to_string(), 5 => s.to_uppercase(), 6 => s.to_lowercase(),
        7 => format!(" {s}"), 8 => format!("{s} "), 9 => { let mut c: Vec<char> = s.chars().collect(); c.pop(); c.into_iter().collect() }, 10 => format!("{s}{}", r.pick(&["a", "/", "-", "0", "\0"])),
        11 => s.chars().skip(1).collect(), 12 => String::new(), 13 => r.pick(&["*", "?", ".", "..", "@", "#", "/", "|"]).to_string(), 14 => format!("{{{}}}{local}", ns(r)), _ => s.to_string()
    }
}
/// something that looks like a reference
pub fn refr(r: &mut Rng) -> String {
    let mut s = String::from("&");
    if r.chance(75) {
        s.push('#'); match r.below(10) { 0 => s.push('x'), 1 => s.push('X'), 2 => s.push(*r.pick(&['+', '-', ' ', '0', '_'])), _ => {} }
        if r.chance(35) { let k = 1 + r.below(6); s += &"0".repeat(k); }
        let v = *r.pick(&[0u64, 1, 8, 9, 10, 13, 0x1f, 0x20, 0x22, 0x26, 0x27, 0x3b, 0x3c, 0x3e, 0x41, 0x7f, 0x80, 0x85, 0x9f, 0xa0, 0xad, 0xff, 0x100, 0x7ff, 0x800, 0x1680, 0x2028, 0xd7ff, 0xd800, 0xdbff, 0xdc00, 0xdfff, 0xe000, 0xfeff, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1f600, 0x2ffff, 0x10fffd, 0x10ffff, 0x110000, 0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0xffffffffff]);
        let v = if r.chance(25) { r.below(0x120000) as u64 } else { v };
        s += &match r.below(5) { 0 => format!("{v:x}"), 1 => format!("{v}"), _ => format!("{v:X}") };
        if r.chance(6) { s.push(*r.pick(&['g', 'é', ' ', '#', 'x'])); }
    } else {
        let n = *r.pick(&["amp", "lt", "gt", "apos", "quot"]);
        s += &match r.below(9) { 0 => n.to_uppercase(), 1 => format!("{n}{n}"), 2 => n[..n.len() - 1].to_string(), 3 => format!(" {n}"), 4 => format!("{n} "), 5 => format!("{n}é"), 6 => format!("{n}#"), _ => n.to_string() };
    }
    if r.chance(92) { s.push(';'); }
    s
}
pub const NAMES: &[&str] = &["a", "b", "c", "p", "x1", "é", "long-name.1", "_u", "B"];
pub const PFX: &[&str] = &["p", "q", "svg"];
pub const NS: &[&str] = &["u:1", "u:2", "u:3", "u:1", "u:2", "u:3", "http://x/<&\"'>", "", " ", "U:1", "u:1/", " u:1"];
pub const TXT: &[&str] = &["hello", " hello ", "a", "x<y & z>", "\"q\" 'r'", "&amp;", "é中😀", "  ", "\n\t", "\u{a0}", "line\nbreak", "]]>", "-->", "0", "\u{2003}x", "tail ", " head"];
pub fn txt(r: &mut Rng) -> String { if let Some(d) = dstr(r, 12) { return d; } if let Some(k) = big(r, 4, 9000) { let s = *r.pick(TXT); return fill(r, s, k); } if r.chance(75) { r.pick(TXT).to_string() } else { rstr(r, 8) } }
pub fn attr_name(r: &mut Rng) -> String {
    if let Some(d) = dname(r, 15, true) { return d; }
    match r.below(12) { 0 => "xmlns".into(), 1 | 2 => format!("xmlns:{}", pfx(r)), 3 => if r.chance(40) { format!("xmlns:xmlns:{}", pfx(r)) } else { "xml:lang".into() }, 4 => "xmlnsx".into(), 5 => "wxmlns".into(), 6 => "é".into(), 7 => "Zed".into(), _ => r.pick(&["a", "b", "id", "z", "aa", "a-b", "a.b", "_"]).to_string() }
}
pub fn attrs(r: &mut Rng) -> Attrs {
    let n = if let Some(k) = big(r, 6, 130) { k } else if r.chance(45) { 0 } else { r.below(5) };
    (0..n).map(|i| { let mut k = attr_name(r); if i > 6 { k = format!("{}{i}", r.pick(&["a", "b", "Z", "é", "a-"])); } let v = if k.starts_with("xmlns") { ns(r) } else { txt(r) }; (k, v) }).collect()
}
pub fn comment(r: &mut Rng) -> String { loop { let s = if let Some(d) = dstr(r, 12) { d } else if let Some(k) = big(r, 4, 5000) { let x = *r.pick(&["-", "- ", "c", "é", "<"]); fill(r, x, k) } else if r.chance(60) { r.pick(&[" c ", "", "-", "<b>", "--", "&amp;", "a\nb", "é", "->", " x-- >"]).to_string() } else { rstr(r, 6) }; if !s.contains("-->") { return s; } } }
pub fn cdata(r: &mut Rng) -> String { loop { let s = if let Some(d) = dstr(r, 12) { d } else if let Some(k) = big(r, 4, 5000) { let x = *r.pick(&["]", "] ", "c", "é", "<"]); fill(r, x, k) } else if r.chance(60) { r.pick(&["d", "", "]", "<b>&", "]]", "a\nb", "é", "] ]>", "-->"]).to_string() } else { rstr(r, 6) }; if !s.contains("]]>") { return s; } } }
// ---------------------------------------------------------------- XML text
fn ws(r: &mut Rng) -> String { r.pick(&[" ", " ", "\n", "\t", "  ", "\r\n", "\u{a0}"]).to_string() }
fn ows(r: &mut Rng) -> String { if r.chance(75) { String::new() } else { ws(r) } }
fn xval(r: &mut Rng) -> String {
    if let Some(k) = big(r, 4, 5000) { let x = *r.pick(&["v", " ", "=", "é", "/", "> "]); return format!("'{}'", fill(r, x, k).replace('\'', "")); }
    let q = *r.pick(&["\"", "'"]);
    let mut v = if let Some(d) = dstr(r, 12) { d } else { match r.below(8) { 0 => escstr(r, 3), 1 => r.pick(&["/", ">", "a=b", "a = 'b", "</a>", "<b>", "/>", "=", "= ", " ="]).to_string(), _ => r.pick(&["1", "two words", "", "é", "&lt;x&gt;", "u:1", "&#41;", " lead", "x/"]).to_string() } };
    v = v.replace(q, "");
    format!("{q}{v}{q}")
}
pub fn xattrs(r: &mut Rng, need: Option<&str>) -> String {
    let mut o = String::new(); let mut used: Vec<String> = vec![];
    let n = if let Some(k) = big(r, 4, 130) { k } else if r.chance(50) { 0 } else { r.below(4) };
    let mut add = |r: &mut Rng, k: String, v: String| { o += &ws(r); o += &k; o += &ows(r); o.push('='); o += &ows(r); o += &v; };
    if let Some(p) = need { let k = format!("xmlns:{p}"); let v = format!("\"{}\"", r.pick(&["u:1", "u:2"])); add(r, k.clone(), v); used.push(k); }
    for i in 0..n { let mut k = attr_name(r); if i > 5 { k = format!("{}{i}", r.pick(&["a", "b", "é"])); } if used.contains(&k) && r.chance(90) { continue; } used.push(k.clone()); let v = if k.starts_with("xmlns") { format!("'{}'", r.pick(&["u:1", "u:2", "u:3"])) } else { xval(r) }; add(r, k, v); }
    o
}
fn xtext(r: &mut Rng) -> String { if let Some(d) = dstr(r, 12) { return d.replace('<', ""); } if let Some(k) = big(r, 4, 9000) { let x = *r.pick(&["t", "é ", "&amp;", " ", "] "]); return fill(r, x, k).replace('<', ""); } match r.below(7) { 0 => "\n  ".into(), 1 | 6 => escstr(r, 3).replace('<', ""), 2 => "&#20;".into(), _ => r.pick(&["text", " t ", "a&amp;b", "é", "x > y", "&lt;b&gt;", "]]>", "'", "\"", "a\nb", "\u{a0}"]).to_string() } }
pub fn xelem(r: &mut Rng, depth: usize, root: bool) -> String {
    let pfx = if r.chance(25) { Some(pfx(r)) } else { None };
    let q = match &pfx { Some(p) => format!("{p}:{}", name(r)), None => name(r) };
    let need = if root || r.chance(30) { pfx.as_deref() } else { None };
    let a = xattrs(r, need);
    let end = if r.chance(15) { ws(r) } else { String::new() };
    if depth == 0 || r.chance(15) { return format!("<{q}{a}{end}/>"); }
    let mut o = format!("<{q}{a}{end}>");
    let (cnt, depth) = match big(r, 8, 520) { Some(k) => (k, depth.min(1)), None => (r.below(5), depth) };
    if depth == 3 { if let Some(k) = big(r, 6, 300) { let ns: Vec<String> = (0..k.min(400)).map(|_| r.pick(NAMES).to_string()).collect(); for n in &ns { o += &format!("<{n}>"); if r.chance(3) { o += &xtext(r); } } if r.chance(50) { o += &xtext(r); } for n in ns.iter().rev() { o += &format!("</{n}>"); if r.chance(3) { o += &xtext(r); } } } }
    // long lists are often all of one kind, as data is
    let mode = if cnt >= 15 && r.chance(60) { Some(*r.pick(&[0, 4, 7, 8, 10, 11])) } else { None };
    for i in 0..cnt {
        match mode.unwrap_or_else(|| r.below(10)) { 10 => o += &if i % 2 == 0 { xtext(r) } else { format!("<!--{}-->", comment(r)) }, 11 => { let n = *r.pick(NAMES); o += &format!("<{n}>t{i}</{n}>") } 0..=3 => o += &xelem(r, depth - 1, false), 4..=6 => o += &xtext(r), 7 => o += &format!("<!--{}-->", comment(r)), 8 => o += &format!("<![CDATA[{}]]>", cdata(r)), _ => o += "\n\t" }
    }
    o + &format!("</{q}{}>", if r.chance(10) { ws(r) } else { String::new() })
}
pub const DTDS: &[&str] = &["<!DOCTYPE r>", "<!DOCTYPE html PUBLIC \"-//W3C//DTD >\" 'x'>", "<!DOCTYPE r [\n<!ELEMENT r (#PCDATA)>\n<!ENTITY a \"<b>\">\n]>", "<!DOCTYPEé>", "<!DOCTYPE r [<!ENTITY e '\"'>]>", "<!DOCTYPE a [<!-- c --> ] >", "<!DOCTYPE>"];
pub const DECLS: &[&str] = &["<?xml version=\"1.0\" encoding=\"UTF-8\"?>", "<?xml?>", "<?xml version='1.0' standalone=\"yes\" ?>", "<?xml a='?>' ?>", "<?xmlé ?>", "<?xml  version=\"1.1\"\n?>"];
pub fn decl(r: &mut Rng) -> String { if let Some(d) = dstr(r, 12) { let d = d.replace(['<', '>', '"', '\'', '?'], ""); return match r.below(3) { 0 => format!("<?xml {d}?>"), 1 => format!("<?xml a=\"{d}\"?>"), _ => format!("<?xml{d} ?>") }; } r.pick(DECLS).to_string() }
pub fn dtd(r: &mut Rng) -> String { if let Some(d) = dstr(r, 12) { let d = d.replace(['<', '>', '"', '\''], ""); return match r.below(3) { 0 => format!("<!DOCTYPE {d}>"), 1 => format!("<!DOCTYPE r [<!ENTITY e \"{d}\">]>"), _ => format!("<!DOCTYPE r \"{d}\">") }; } if let Some(k) = big(r, 6, 5000) { return format!("<!DOCTYPE {}>", "d".repeat(k)); } r.pick(DTDS).to_string() }
pub fn xdoc(r: &mut Rng) -> String {
    let mut o = String::new();
    if r.chance(10) { o += "\n"; }
    if r.chance(50) { o += &decl(r); o += &ows(r); }
    let nd = if let Some(k) = big(r, 6, 70) { k } else if r.chance(60) { 0 } else { r.below(4) };
    for _ in 0..nd { match r.below(6) { 0..=3 => o += &dtd(r), 4 => o += &format!("<!--{}-->", comment(r)), _ => o += "<!FOO bar>" } o += &ows(r); }
    if let Some(k) = big(r, 8, 300) { // a deep chain
        let q: Vec<String> = (0..k).map(|_| name(r)).collect(); for x in &q { o += &format!("<{x}>"); if r.chance(5) { o += "t"; } }
        for x in q.iter().rev() { o += &format!("</{x}>"); if r.chance(2) && x != &q[0] { o += "<b/>"; } }
        return if o.ends_with("<b/>") { o[..o.len() - 4].to_string() } else { o };
    }
    let d = r.below(4);
    o += &xelem(r, d, true);
    o + &ows(r)
}
const TOK: &[&str] = &["<", ">", "</", "/>", "<a>", "</a>", "<a/>", "<b>", "</b>", "<a x='1'>", "<p:a xmlns:p='u'>", "</p:a>", "<p:b/>", "<!--", "-->", "<!-- c -->", "<![CDATA[", "]]>", "<![CDATA[d]]>", "<?xml", "?>", "<?xml version=\"1.0\"?>", "<!DOCTYPE r>", "<!DOCTYPE", "<!", "<?", "=", "\"", "'", "x=\"1\"", " ", "\n", "text", "é", "😀", "&lt;", "&", "a", "/", ":", "[", "]", "-", "--", "<a", "x", "</a", "<!-->", "<!--->", "\u{a0}", "xmlns='u'", "<:a/>", "<1/>", "<a:/>", "<é>", "</é>"];
pub fn soup(r: &mut Rng) -> String { let n = r.below(12); let mut o = String::new(); for _ in 0..n { o += &tok(r); } o }
/// structural mutation of a document text
pub fn mutate(r: &mut Rng, d: &str) -> String {
    let mut c: Vec<char> = d.chars().collect();
    for _ in 0..1 + r.below(3) {
        if c.is_empty() { break; }
        let i = r.below(c.len());
        match r.below(7) {
            0 => { c.remove(i); }
            1 => { c.insert(i, chr(r)); }
            2 => { let t: Vec<char> = tok(r).chars().collect(); for (k, x) in t.into_iter().enumerate() { c.insert(i + k, x); } }
            3 => { let j = (i + 1 + r.below(8)).min(c.len()); c.drain(i..j); }
            4 => { let j = (i + 1 + r.below(10)).min(c.len()); let s: Vec<char> = c[i..j].to_vec(); let at = r.below(c.len() + 1); for (k, x) in s.into_iter().enumerate() { c.insert(at + k, x); } }
            5 => { c.truncate(i); }
            _ => { c[i] = chr(r); }
        }
    }
    c.into_iter().collect()
}

/// spans of the markup pieces `<...>` (comments, CDATA and `<?..?>` included, roughly)
fn pieces(d: &str) -> Vec<(usize, usize)> {
    let mut v = vec![]; let mut i = 0;
    while let Some(k) = d[i..].find('<') {
        let a = i + k; let t = if d[a..].starts_with("<!--") { "-->" } else if d[a..].starts_with("<![") { "]]>" } else { ">" };
        match d[a..].find(t) { Some(e) => { let b = a + e + t.len(); v.push((a, b)); i = b; } None => break }
    }
    v
}
/// mutation of whole tags: names of start and end tags, order, number and place of pieces
pub fn tagmut(r: &mut Rng, d: &str) -> String {
    let mut d = d.to_string();
    for _ in 0..1 + r.below(2) {
        let v = pieces(&d); if v.is_empty() { break; }
        let (a, b) = *r.pick(&v); let (x, y) = *r.pick(&v); let piece = d[a..b].to_string();
        match r.below(14) {
            0..=7 => { // rename
                let pre = if piece.starts_with("</") { 2 } else { 1 };
                let n = a + pre; let m = n + d[n..b].find(|c: char| is_ws(c) || c == '>' || c == '/' || c == '=').unwrap_or(b - n);
                let nm = d[n..m].to_string(); if nm.starts_with('!') || nm.starts_with('?') { continue; }
                let base = nm.split_once(':').map(|x| x.1.to_string()).unwrap_or(nm.clone());
                let new = match r.below(9) {
                    0 | 1 => format!("{}:{base}", pfx(r)), 2 => base, 3 => if r.chance(50) { nm.to_uppercase() } else { nm.to_lowercase() }, 4 => { let mut c: Vec<char> = nm.chars().collect(); let i = r.below(c.len() + 1); c.insert(i, *r.pick(CHARS)); c.into_iter().collect() }
                    5 => { let mut c: Vec<char> = nm.chars().collect(); if !c.is_empty() { let i = r.below(c.len()); c.remove(i); } c.into_iter().collect() }
                    6 => name(r), 7 => format!("{nm}:{nm}"), _ => { let (p, q) = *r.pick(&v); let t = d[p..q].trim_start_matches(['<', '/']); t[..t.find(|c: char| is_ws(c) || c == '>' || c == '/').unwrap_or(t.len())].to_string() }
                };
                d.replace_range(n..m, &new);
            }
            8 => { d.replace_range(a..b, ""); }
            9 => { d.insert_str(y, &piece); }
            10 => { d.insert_str(x, &piece); }
            11 => { if b <= x { let o = d[x..y].to_string(); d.replace_range(x..y, &piece); d.replace_range(a..b, &o); } }
            12 => { let t = *r.pick(&["x", " ", "é", "&amp;", "<", ">", "<!--c-->", "<![CDATA[d]]>", "<?pi?>", "<b/>", "</b>", "]]>", "--"]); d.insert_str(if r.chance(50) { b } else { d.len() }, t); }
            _ => { let o = if piece.ends_with("/>") { format!("{}>", &piece[..piece.len() - 2]) } else if piece.len() > 2 && !piece.starts_with("<!") { format!("{}/>", &piece[..piece.len() - 1]) } else { continue }; d.replace_range(a..b, &o); }
        }
    }
    d
}
/// a document and, mostly, a change of it
pub fn xmut(r: &mut Rng) -> String { let d = xdoc(r); match r.below(4) { 0 => mutate(r, &d), 1 | 2 => tagmut(r, &d), _ => { let d = tagmut(r, &d); mutate(r, &d) } } }
