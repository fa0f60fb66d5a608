//! Independent model of the DOM: trees, reference parser, reference writer, edit operations.
//! Written from the property statements; shares no code with the crate under test.
use std::collections::BTreeMap;
pub type Attrs = BTreeMap<String, String>;
#[derive(Clone, Debug, PartialEq)]
pub struct MElem { pub name: String, pub prefix: Option<String>, pub ns: Option<String>, pub attrs: Attrs, pub ctx: Attrs, pub kids: Vec<MNode> }
#[derive(Clone, Debug, PartialEq)]
pub enum MNode { E(MElem), T(String), C(String), D(String) }
#[derive(Clone, Debug)]
pub struct MDoc { pub decl: Option<String>, pub dtds: Vec<String>, pub root: MElem }

pub fn is_ws(c: char) -> bool {
    matches!(c as u32, 0x9..=0xd | 0x20 | 0x85 | 0xa0 | 0x1680 | 0x2000..=0x200a | 0x2028 | 0x2029 | 0x202f | 0x205f | 0x3000)
}
pub fn blank(s: &str) -> bool { s.chars().all(is_ws) }
pub fn is_name_start(c: char) -> bool {
    c == ':' || c == '_' || c.is_ascii_alphabetic() || matches!(c as u32, 0xC0..=0xD6 | 0xD8..=0xF6 | 0xF8..=0x2FF | 0x370..=0x37D | 0x37F..=0x1FFF
        | 0x200C..=0x200D | 0x2070..=0x218F | 0x2C00..=0x2FEF | 0x3001..=0xD7FF | 0xF900..=0xFDCF | 0xFDF0..=0xFFFD | 0x10000..=0xEFFFF)
}
pub fn is_name_char(c: char) -> bool { is_name_start(c) || c == '-' || c == '.' || c.is_ascii_digit() || matches!(c as u32, 0xB7 | 0x300..=0x36F | 0x203F..=0x2040) }
pub fn valid_name(s: &str) -> bool {
    let mut it = s.chars();
    match it.next() { None => false, Some(c) => c != ':' && is_name_start(c) && it.all(is_name_char) }
}
pub fn esc_text(s: &str) -> String { s.chars().map(|c| match c { '&' => "&amp;".into(), '<' => "&lt;".into(), '>' => "&gt;".into(), c => c.to_string() }).collect() }
pub fn esc_attr(s: &str) -> String { s.chars().map(|c| match c { '&' => "&amp;".into(), '<' => "&lt;".into(), '>' => "&gt;".into(), '"' => "&quot;".into(), '\'' => "&apos;".into(), c => c.to_string() }).collect() }
fn decode(b: &str) -> Option<char> {
    match b { "amp" => Some('&'), "lt" => Some('<'), "gt" => Some('>'), "apos" => Some('\''), "quot" => Some('"'),
        _ => {
            let h = b.strip_prefix('#')?; let h = h.strip_prefix('+').unwrap_or(h);
            if h.is_empty() { return None; }
            let mut n: u64 = 0;
            for c in h.chars() { n = n * 16 + c.to_digit(16)? as u64; if n > 0xffff_ffff { return None; } }
            char::from_u32(n as u32)
        } }
}
pub fn unesc(s: &str) -> String {
    let c: Vec<char> = s.chars().collect();
    let mut o = String::new(); let mut i = 0;
    // next ';' at or after each index
    let mut next = vec![usize::MAX; c.len() + 1];
    for k in (0..c.len()).rev() { next[k] = if c[k] == ';' { k } else { next[k + 1] }; }
    while i < c.len() {
        if c[i] == '&' && next[i] != usize::MAX {
            let b: String = c[i + 1..next[i]].iter().collect();
            if let Some(d) = decode(&b) { o.push(d); i = next[i] + 1; continue; }
        }
        o.push(c[i]); i += 1;
    }
    o
}
impl MElem {
    pub fn new(name: &str) -> Self { MElem { name: name.into(), prefix: None, ns: None, attrs: Attrs::new(), ctx: Attrs::new(), kids: vec![] } }
    pub fn default_ns(&self) -> Option<String> { if self.prefix.is_none() { self.ns.clone() } else { None } }
    pub fn tag(&self) -> String { match &self.prefix { None => self.name.clone(), Some(p) => format!("{p}:{}", self.name) } }
    pub fn own_ctx(attrs: &Attrs) -> Attrs { attrs.iter().filter_map(|(k, v)| k.strip_prefix("xmlns:").map(|p| (p.to_string(), v.clone()))).collect() }
    /// namespace resolution when placed under a parent with this default namespace and these prefix bindings
    pub fn inherit(&mut self, df: Option<String>, pctx: &Attrs) {
        if self.prefix.is_none() && self.ns.is_none() { self.ns = df; }
        for (k, v) in pctx { self.ctx.entry(k.clone()).or_insert_with(|| v.clone()); }
        if self.ns.is_none() { if let Some(p) = &self.prefix { self.ns = self.ctx.get(p).cloned(); } }
    }
    pub fn text(&self) -> String { let mut o = String::new(); for k in &self.kids { match k { MNode::T(t) => o.push_str(t), MNode::E(e) => o.push_str(&e.text()), _ => {} } } o }
    /// constructor; None = error
    pub fn build(name: &str, text: Option<&str>, attrs: Option<&Attrs>, xmlns: Option<String>, prefix: Option<String>, kids: Option<Vec<MNode>>) -> Option<MElem> {
        if !valid_name(name) { return None; }
        let attrs = attrs.cloned().unwrap_or_default();
        if attrs.keys().any(|k| !valid_name(k)) { return None; }
        let ns = xmlns.or_else(|| match &prefix { None => attrs.get("xmlns").cloned(), Some(p) => attrs.get(&format!("xmlns:{p}")).cloned() });
        let mut e = MElem { name: name.into(), prefix, ns, ctx: Self::own_ctx(&attrs), attrs, kids: vec![] };
        if let Some(t) = text { e.append(MNode::T(t.into())); }
        if let Some(k) = kids { e.append_all(k); }
        Some(e)
    }
    pub fn normalize(&mut self) {
        let mut o: Vec<MNode> = vec![];
        for k in std::mem::take(&mut self.kids) {
            match (o.last_mut(), k) { (Some(MNode::T(a)), MNode::T(b)) => a.push_str(&b), (_, k) => o.push(k) }
        }
        o.retain(|n| match n { MNode::T(t) => t.is_empty() || !blank(t), _ => true });
        self.kids = o;
    }
    fn adopt(&self, n: &mut MNode) { if let MNode::E(e) = n { e.inherit(self.default_ns(), &self.ctx); } }
    pub fn append(&mut self, mut n: MNode) { self.adopt(&mut n); self.kids.push(n); self.normalize(); }
    pub fn append_all(&mut self, v: Vec<MNode>) { for mut n in v { self.adopt(&mut n); self.kids.push(n); } self.normalize(); }
    pub fn insert(&mut self, i: usize, mut n: MNode) -> bool { if i > self.kids.len() { return false; } self.adopt(&mut n); self.kids.insert(i, n); self.normalize(); true }
    pub fn is_elem(n: &MNode) -> bool { matches!(n, MNode::E(_)) }
}
pub fn text_of(n: &MNode) -> String { match n { MNode::E(e) => e.text(), MNode::T(s) | MNode::C(s) | MNode::D(s) => s.clone() } }
/// structural equality (the namespace context is not part of a node's value)
pub fn meq(a: &MNode, b: &MNode) -> bool {
    match (a, b) { (MNode::E(x), MNode::E(y)) => eeq(x, y), (MNode::T(x), MNode::T(y)) | (MNode::C(x), MNode::C(y)) | (MNode::D(x), MNode::D(y)) => x == y, _ => false }
}
pub fn eeq(x: &MElem, y: &MElem) -> bool {
    x.name == y.name && x.prefix == y.prefix && x.ns == y.ns && x.attrs == y.attrs && x.kids.len() == y.kids.len() && x.kids.iter().zip(&y.kids).all(|(a, b)| meq(a, b))
}
// ------------------------------------------------------------------ writer
pub fn norm_indent(i: &str) -> String { if i == "\t" || i.chars().all(|c| c == ' ') { i.into() } else { "  ".into() } }
pub fn write_node(n: &MNode) -> String { match n { MNode::E(e) => write_elem(e, "", "  ", false), MNode::T(t) => esc_text(t), MNode::C(c) => format!("<!--{c}-->"), MNode::D(d) => format!("<![CDATA[{d}]]>") } }
pub fn write_elem(e: &MElem, prefix: &str, indent: &str, inline: bool) -> String {
    let mut o = String::new();
    if !inline { o += prefix; }
    o += "<"; o += &e.tag();
    let mut ks: Vec<&String> = e.attrs.keys().collect();
    ks.sort_by(|a, b| (!a.starts_with("xmlns"), a.as_bytes()).cmp(&(!b.starts_with("xmlns"), b.as_bytes())));
    for k in ks { o += &format!(" {k}=\"{}\"", esc_attr(&e.attrs[k])); }
    if e.kids.is_empty() { return o + "/>"; }
    o += ">";
    let end = format!("</{}>", e.tag());
    if e.kids.len() == 1 && !MElem::is_elem(&e.kids[0]) { return o + &write_node(&e.kids[0]) + &end; }
    let inl = inline || e.kids.iter().any(|k| matches!(k, MNode::T(_)));
    let deeper = format!("{prefix}{indent}");
    if !inl { o += "\n"; }
    for k in &e.kids {
        match k { MNode::E(c) => o += &write_elem(c, &deeper, indent, inl), other => { if !inl { o += &deeper; } o += &write_node(other); } }
        if !inl { o += "\n"; }
    }
    if !inl { o += prefix; }
    o + &end
}
pub fn write_doc(d: &MDoc, indent: &str) -> String {
    let ind = norm_indent(indent);
    let mut o = String::new();
    if let Some(x) = &d.decl { o += x; o += "\n"; }
    for x in &d.dtds { o += x; o += "\n"; }
    o + &write_elem(&d.root, "", &ind, false) + "\n"
}
// ------------------------------------------------------------------ reference parser
#[derive(Debug, Clone, PartialEq)]
pub enum Rej { Structure(&'static str), Name, Prefix, Unspecified(&'static str) }
use Rej::*;
fn find(c: &[char], from: usize, p: &str) -> Option<usize> { let p: Vec<char> = p.chars().collect(); (from..(c.len() + 1).saturating_sub(p.len())).find(|&i| c[i..i + p.len()] == p[..]) }
fn at(c: &[char], i: usize, p: &str) -> bool { let p: Vec<char> = p.chars().collect(); c.len() >= i + p.len() && c[i..i + p.len()] == p[..] }
fn s(c: &[char]) -> String { c.iter().collect() }
/// end (exclusive) of `>`-terminated construct, ignoring quoted text
fn close_quoted(c: &[char], from: usize, pat: &str) -> Option<usize> {
    let mut i = from; let mut q: Option<char> = None;
    while i < c.len() {
        match q { Some(x) => if c[i] == x { q = None }, None => if c[i] == '"' || c[i] == '\'' { q = Some(c[i]) } else if at(c, i, pat) { return Some(i + pat.len()) } }
        i += 1;
    }
    None
}
fn close_nested(c: &[char], from: usize) -> Option<usize> {
    let mut i = from; let mut q: Option<char> = None; let mut depth = 0usize;
    while i < c.len() {
        match q { Some(x) => if c[i] == x { q = None }, None => match c[i] { '"' | '\'' => q = Some(c[i]), '<' => depth += 1, '>' => { if depth == 0 { return Some(i + 1); } depth -= 1; } _ => {} } }
        i += 1;
    }
    None
}
pub struct Tag { pub close: bool, pub selfclose: bool, pub qname: String, pub attrs: Vec<(String, String)> }
/// `<name a="v" ...>`, `</name>`, `<name/>`
pub fn tag(t: &[char]) -> Option<Tag> {
    let n = t.len(); let mut i = 1;
    let close = t.get(1) == Some(&'/'); if close { i = 2; }
    let st = i;
    if i >= n || !is_name_start(t[i]) { return None; }
    while i < n && is_name_char(t[i]) { i += 1; }
    let qname = s(&t[st..i]);
    let mut attrs = vec![];
    loop {
        let sp = i; while i < n && is_ws(t[i]) { i += 1; }
        if i >= n { return None; }
        if t[i] == '>' { return if i == n - 1 { Some(Tag { close, selfclose: false, qname, attrs }) } else { None }; }
        if t[i] == '/' { return if i + 2 == n && t[i + 1] == '>' { Some(Tag { close, selfclose: true, qname, attrs }) } else { None }; }
        if sp == i || !is_name_start(t[i]) { return None; }
        let k0 = i; while i < n && is_name_char(t[i]) { i += 1; }
        let k = s(&t[k0..i]);
        while i < n && is_ws(t[i]) { i += 1; }
        if i >= n || t[i] != '=' { return None; } i += 1;
        while i < n && is_ws(t[i]) { i += 1; }
        if i >= n || (t[i] != '"' && t[i] != '\'') { return None; }
        let q = t[i]; i += 1; let v0 = i;
        while i < n && t[i] != q { i += 1; }
        if i >= n { return None; }
        attrs.push((k, s(&t[v0..i]))); i += 1;
    }
}
fn mk_elem(t: &Tag, parent: Option<&MElem>) -> Result<MElem, Rej> {
    let attrs: Attrs = t.attrs.iter().map(|(k, v)| (k.clone(), unesc(v))).collect();
    let (prefix, name) = match t.qname.split_once(':') { Some((a, b)) => (Some(a.to_string()), b.to_string()), None => (None, t.qname.clone()) };
    if let (Some(p), None) = (&prefix, parent) { if !attrs.contains_key(&format!("xmlns:{p}")) { return Err(Prefix); } }
    let mut e = MElem::build(&name, None, Some(&attrs), None, prefix, None).ok_or(Name)?;
    if let Some(p) = parent { e.inherit(p.default_ns(), &p.ctx); }
    Ok(e)
}
pub fn ref_parse(input: &str) -> Result<MDoc, Rej> {
    let c: Vec<char> = input.chars().collect();
    let mut pos = 0; let mut first = true; let mut decl = None; let mut dtds = vec![];
    let mut root: Option<(MElem, bool)> = None;
    while root.is_none() {
        let st = find(&c, pos, "<").ok_or(Structure("no root element"))?;
        if !blank(&s(&c[pos..st])) { return Err(Structure("text before the root")); }
        let unterminated = Structure("unterminated markup");
        let end;
        if at(&c, st, "<!--") { end = find(&c, st + 4, "-->").ok_or(unterminated)? + 3; }
        else if at(&c, st, "<?") {
            end = close_quoted(&c, st + 2, "?>").ok_or(unterminated)?;
            if !at(&c, st, "<?xml") { return Err(Structure("processing instruction")); }
            if !first { return Err(if decl.is_some() { Unspecified("second <?xml tag") } else { Unspecified("declaration after other markup") }); }
            decl = Some(s(&c[st..end]));
        }
        else if at(&c, st, "<![CDATA[") { return Err(Unspecified("CDATA before the root")); }
        else if at(&c, st, "<!") {
            end = close_nested(&c, st + 2).ok_or(unterminated)?;
            if at(&c, st, "<!DOCTYPE") { dtds.push(s(&c[st..end])); }
        }
        else {
            end = close_quoted(&c, st + 1, ">").ok_or(unterminated)?;
            let t = tag(&c[st..end]).ok_or(Structure("malformed root tag"))?;
            if t.close { return Err(Structure("end tag before the root")); }
            root = Some((mk_elem(&t, None)?, t.selfclose));
        }
        pos = end; first = false;
    }
    let (root, selfc) = root.unwrap();
    let mut stack: Vec<(MElem, String)> = vec![]; let mut done: Option<MElem> = None;
    if selfc { done = Some(root); } else { let q = root.tag(); stack.push((root, q)); }
    loop {
        let st = match find(&c, pos, "<") { Some(x) => x, None => break };
        let txt = s(&c[pos..st]);
        if done.is_some() { return Err(Structure("content after the root")); }
        let top = stack.last_mut().unwrap();
        if !blank(&txt) { let u = unesc(&txt); top.0.append(MNode::T(u)); }
        let unterminated = Structure("unterminated markup");
        if at(&c, st, "<!--") { let e = find(&c, st + 4, "-->").ok_or(unterminated)?; top.0.kids.push(MNode::C(s(&c[st + 4..e]))); pos = e + 3; }
        else if at(&c, st, "<![CDATA[") { let e = find(&c, st + 9, "]]>").ok_or(unterminated)?; top.0.kids.push(MNode::D(s(&c[st + 9..e]))); pos = e + 3; }
        else if at(&c, st, "<!") || at(&c, st, "<?") { return Err(Structure("markup declaration inside the root")); }
        else {
            let e = close_quoted(&c, st + 1, ">").ok_or(unterminated)?;
            let t = tag(&c[st..e]).ok_or(Structure("malformed tag"))?;
            pos = e;
            if t.close {
                if t.selfclose || !t.attrs.is_empty() { return Err(Structure("malformed end tag")); }
                if t.qname != top.1 { return Err(Structure("mismatched end tag")); }
                let (el, _) = stack.pop().unwrap();
                match stack.last_mut() { Some(p) => p.0.kids.push(MNode::E(el)), None => done = Some(el) }
            } else {
                let el = mk_elem(&t, Some(&top.0))?;
                if t.selfclose { top.0.kids.push(MNode::E(el)); } else { let q = el.tag(); stack.push((el, q)); }
            }
        }
    }
    match done {
        None => Err(Structure("root not closed")),
        Some(root) => if blank(&s(&c[pos..])) { Ok(MDoc { decl, dtds, root }) } else { Err(Structure("text after the root")) },
    }
}
