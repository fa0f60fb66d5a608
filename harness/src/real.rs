//! Bridges between the crate under test and the model.
use crate::{gen::*, model::*};
use kiss_xml::dom::*;
use std::collections::HashMap;
pub fn m_node(n: &Box<dyn Node>) -> MNode {
    if let Ok(e) = n.as_element() { MNode::E(m_elem(e)) }
    else if let Ok(t) = n.as_text() { MNode::T(t.text()) }
    else if let Ok(c) = n.as_comment() { MNode::C(c.get_content().to_string()) }
    else { MNode::D(n.as_cdata().expect("some kind").get_content().to_string()) }
}
pub fn m_elem(e: &Element) -> MElem {
    MElem { name: e.name(), prefix: e.namespace_prefix(), ns: e.namespace(), attrs: e.attributes().iter().map(|(k, v)| (k.clone(), v.clone())).collect(), ctx: Attrs::new(), kids: e.children().map(m_node).collect() }
}
pub fn m_doc(d: &Document) -> MDoc {
    MDoc { decl: d.declaration().as_ref().map(|x| x.to_string()), dtds: d.doctype_defs().map(|x| x.to_string()).collect(), root: m_elem(d.root_element()) }
}
#[derive(Default, Debug, Clone, Copy, PartialEq)]
pub struct Diff { pub shape: bool, pub attrs: bool, pub ns: bool }
impl Diff { pub fn any(&self) -> bool { self.shape || self.attrs || self.ns } }
pub fn diff(a: &MElem, b: &MElem) -> Diff { let mut d = Diff::default(); diff_in(a, b, &mut d); d }
fn diff_in(a: &MElem, b: &MElem, d: &mut Diff) {
    if a.name != b.name || a.prefix != b.prefix || a.kids.len() != b.kids.len() { d.shape = true; }
    if a.attrs != b.attrs { d.attrs = true; }
    if a.ns != b.ns { d.ns = true; }
    for (x, y) in a.kids.iter().zip(&b.kids) { match (x, y) { (MNode::E(p), MNode::E(q)) => diff_in(p, q, d), _ => if x != y { d.shape = true } } }
}
fn hm(a: &Attrs) -> HashMap<String, String> { a.iter().map(|(k, v)| (k.clone(), v.clone())).collect() }
/// a tree built through a randomly chosen public constructor, and its model; `diffs` collects disagreements
pub fn pair_elem(r: &mut Rng, depth: usize, log: &mut String, diffs: &mut Diff) -> (MElem, Element) {
    let name = name(r);
    let (n, depth) = nkids(r, depth);
    let kind = r.below(10);
    let (m, e) = match kind {
        0 => (MElem::build(&name, None, None, None, None, None), Element::new_from_name(&name)),
        1 => { let t = txt(r); (MElem::build(&name, Some(&t), None, None, None, None), Element::new_with_text(&name, t)) }
        2 => { let a = attrs(r); (MElem::build(&name, None, Some(&a), None, None, None), Element::new_with_attributes(&name, hm(&a))) }
        3 => { let a = attrs(r); let t = txt(r); (MElem::build(&name, Some(&t), Some(&a), None, None, None), Element::new_with_attributes_and_text(&name, hm(&a), t)) }
        4 => { let (mk, rk) = pair_nodes(r, n, depth, log, diffs); (MElem::build(&name, None, None, None, None, Some(mk)), Element::new_with_children(&name, rk)) }
        5 => { let a = attrs(r); let (mk, rk) = pair_nodes(r, n, depth, log, diffs); (MElem::build(&name, None, Some(&a), None, None, Some(mk)), Element::new_with_attributes_and_children(&name, hm(&a), rk)) }
        _ => {
            let a = attrs(r); let p = if r.chance(35) { Some(pfx(r)) } else { None }; let ns = if r.chance(15) { Some(ns(r)) } else { None };
            let t = if r.chance(15) { Some(txt(r)) } else { None };
            let (mk, rk) = pair_nodes(r, n, depth, log, diffs);
            (MElem::build(&name, t.as_deref(), Some(&a), ns.clone(), p.clone(), Some(mk)), Element::new(name.as_str(), t, Some(hm(&a)), ns, p, Some(rk)))
        }
    };
    let (m, e) = (m.unwrap(), e.expect("constructor with valid names failed"));
    let d = diff(&m, &m_elem(&e));
    if d.any() && !diffs.any() { *log += &format!("constructor #{kind}: expected {m:?}\n got {:?}\n", m_elem(&e)); *diffs = d; }
    (m, e)
}
pub fn pair_nodes(r: &mut Rng, n: usize, depth: usize, log: &mut String, diffs: &mut Diff) -> (Vec<MNode>, Vec<Box<dyn Node>>) {
    let mut a = vec![]; let mut b: Vec<Box<dyn Node>> = vec![];
    // long lists are often all of one kind, as data is
    let mode = if n >= 15 && r.chance(60) { 1 + r.below(6) } else { 0 };
    for i in 0..n {
        let (x, y) = match mode {
            0 => pair_node(r, depth.saturating_sub(1), log, diffs),
            1 => { let m = if i % 2 == 0 { MNode::T(txt(r)) } else { MNode::C(comment(r)) }; let y = real_leaf(&m); (m, y) }
            2 => { let m = MNode::C(comment(r)); let y = real_leaf(&m); (m, y) }
            3 => { let m = MNode::D(cdata(r)); let y = real_leaf(&m); (m, y) }
            4 => { let (m, e) = pair_elem(r, 0, log, diffs); (MNode::E(m), e.boxed()) }
            5 => { let (n, t) = (name(r), format!("t{i}")); (MNode::E(MElem::build(&n, Some(&t), None, None, None, None).unwrap()), Element::new_with_text(&n, t).unwrap().boxed()) }
            _ => { let m = if i % 2 == 0 { MNode::T(txt(r)) } else { MNode::D(cdata(r)) }; let y = real_leaf(&m); (m, y) }
        };
        a.push(x); b.push(y);
    }
    (a, b)
}
pub fn real_leaf(m: &MNode) -> Box<dyn Node> {
    match m { MNode::T(t) => Text::new(t.as_str()).boxed(), MNode::C(c) => Comment::new(c.as_str()).expect("comment").boxed(), MNode::D(c) => CData::new(c.as_str()).expect("cdata").boxed(), MNode::E(_) => unreachable!() }
}
pub fn pair_node(r: &mut Rng, depth: usize, log: &mut String, diffs: &mut Diff) -> (MNode, Box<dyn Node>) {
    let m = match if depth > 8 { 0 } else { r.below(10) } { 0..=3 => { let (m, e) = pair_elem(r, depth, log, diffs); return (MNode::E(m), e.boxed()); } 4..=6 => MNode::T(txt(r)), 7 | 8 => MNode::C(comment(r)), _ => MNode::D(cdata(r)) };
    let b = real_leaf(&m); (m, b)
}
/// path of element indices (child-node index at each level) to a random element
pub fn rpath(r: &mut Rng, m: &MElem) -> Vec<usize> {
    let mut p = vec![]; let mut c = m;
    loop {
        let es: Vec<usize> = c.kids.iter().enumerate().filter(|(_, k)| MElem::is_elem(k)).map(|(i, _)| i).collect();
        if es.is_empty() || r.chance(45) { return p; }
        let i = *r.pick(&es); p.push(i);
        c = match &c.kids[i] { MNode::E(e) => e, _ => unreachable!() };
    }
}
pub fn mat<'a>(m: &'a mut MElem, p: &[usize]) -> &'a mut MElem { let mut c = m; for &i in p { c = match &mut c.kids[i] { MNode::E(e) => e, _ => unreachable!() }; } c }
pub fn rat<'a>(e: &'a mut Element, p: &[usize]) -> &'a mut Element { let mut c = e; for &i in p { c = c.children_mut().nth(i).expect("child").as_element_mut().expect("element"); } c }
/// changes through the references the crate hands out: text content is a public field, a child can be replaced as a whole; false: a removal answered something else
pub fn disturb(r: &mut Rng, m: &mut MElem, e: &mut Element, log: &mut String) -> bool {
    for _ in 0..1 + r.below(4) {
        let path = rpath(r, m); let (me, xe) = (mat(m, &path), rat(e, &path));
        if me.kids.is_empty() { continue; }
        let i = r.below(me.kids.len());
        if r.chance(20) { *log += &format!("{path:?}: child {i} is removed\n"); me.kids.remove(i); if xe.remove(i).is_err() { return false; } continue; }
        let t = match r.below(4) { 0 => " ".to_string(), 1 => String::new(), _ => txt(r) };
        let Some(c) = xe.children_mut().nth(i) else { return false };
        if matches!(me.kids[i], MNode::T(_)) && r.chance(80) {
            *log += &format!("{path:?}: text {i} becomes {t:?}\n");
            let Ok(x) = c.as_text_mut() else { return false };
            if r.chance(50) { x.content = t.clone(); } else { *x = Text::new(t.as_str()); }
            me.kids[i] = MNode::T(t);
        } else {
            let n = match r.below(4) { 0 | 1 => MNode::T(t), 2 => MNode::C(comment(r)), _ => MNode::D(cdata(r)) };
            *log += &format!("{path:?}: child {i} is replaced by {n:?}\n");
            *c = real_leaf(&n); me.kids[i] = n;
        }
    }
    !diff(m, &m_elem(e)).any()
}
