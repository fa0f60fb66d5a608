// ---- C13: equality, clones, hashes ------------------------------------------------------------------------
/// structural equality is: same kind, same content (same_node); it is an equivalence
pub proof fn thm_c13_refl(n: NodeV) ensures same_node(n, n) decreases n
{ if let NodeV::Elem(e) = n { assert forall|i: int| 0 <= i < e.kids.len() implies same_node(#[trigger] e.kids[i], e.kids[i]) by { assert(decreases_to!(e.kids => e.kids[i])); thm_c13_refl(e.kids[i]); } } }
pub proof fn thm_c13_sym(a: NodeV, b: NodeV) requires same_node(a, b) ensures same_node(b, a) decreases a
{ if let (NodeV::Elem(x), NodeV::Elem(y)) = (a, b) { assert forall|i: int| 0 <= i < y.kids.len() implies same_node(#[trigger] y.kids[i], x.kids[i]) by { assert(decreases_to!(x.kids => x.kids[i])); thm_c13_sym(x.kids[i], y.kids[i]); } } }
pub proof fn thm_c13_trans(a: NodeV, b: NodeV, c: NodeV) requires same_node(a, b), same_node(b, c) ensures same_node(a, c) decreases a
{ if let (NodeV::Elem(x), NodeV::Elem(y), NodeV::Elem(z)) = (a, b, c) { assert forall|i: int| 0 <= i < x.kids.len() implies same_node(#[trigger] x.kids[i], z.kids[i]) by { assert(decreases_to!(x.kids => x.kids[i])); assert(same_node(y.kids[i], z.kids[i])); thm_c13_trans(x.kids[i], y.kids[i], z.kids[i]); } } }
/// a clone equals its original and prints the same
pub proof fn thm_c13_clone(e: ElemV, indent: Seq<char>) ensures same_elem(e, e), ser_node(NodeV::Elem(e), indent) == ser_node(NodeV::Elem(e), indent) { thm_c13_refl(NodeV::Elem(e)); assert(same_node(NodeV::Elem(e), NodeV::Elem(e))); }
/// what the hasher is fed for a node
pub open spec fn feed_of(n: NodeV) -> Seq<Feed> {
    match n { NodeV::Elem(e) => seq![Feed::Str(e.name), Feed::OptStr(e.xmlns)], NodeV::Text(t) => seq![Feed::Str(t)], NodeV::Comment(t) => seq![Feed::Str(t)], NodeV::CData(t) => seq![Feed::Str(t)] }
}
/// equal nodes have equal hashes
pub proof fn thm_c13_hash(a: NodeV, b: NodeV) requires same_node(a, b) ensures feed_of(a) == feed_of(b) {}
pub broadcast proof fn lem_same_elem(a: Element, b: Element)
    ensures #![trigger same_elem(elem_v(a), elem_v(b))] same_elem(elem_v(a), elem_v(b)) <==> a.name@ == b.name@ && optv(a.xmlns) == optv(b.xmlns) && optv(a.xmlns_prefix) == optv(b.xmlns_prefix) && a.attributes@ == b.attributes@ && a.child_nodes@.len() == b.child_nodes@.len()
        && forall|i: int| #![trigger a.child_nodes@[i]] #![trigger b.child_nodes@[i]] 0 <= i < a.child_nodes@.len() ==> same_node(node_v(*a.child_nodes@[i]), node_v(*b.child_nodes@[i]))
{
    let x = elem_v(a); let y = elem_v(b);
    assert(x.kids =~= kids_v(a.child_nodes@) && y.kids =~= kids_v(b.child_nodes@));
    if same_elem(x, y) { assert forall|i: int| #![trigger a.child_nodes@[i]] #![trigger b.child_nodes@[i]] 0 <= i < a.child_nodes@.len() implies same_node(node_v(*a.child_nodes@[i]), node_v(*b.child_nodes@[i])) by { assert(same_node(x.kids[i], y.kids[i])); } }
    if a.name@ == b.name@ && optv(a.xmlns) == optv(b.xmlns) && optv(a.xmlns_prefix) == optv(b.xmlns_prefix) && a.attributes@ == b.attributes@ && a.child_nodes@.len() == b.child_nodes@.len()
        && (forall|i: int| #![trigger a.child_nodes@[i]] 0 <= i < a.child_nodes@.len() ==> same_node(node_v(*a.child_nodes@[i]), node_v(*b.child_nodes@[i])))
    { assert forall|i: int| #![trigger x.kids[i]] 0 <= i < x.kids.len() implies same_node(x.kids[i], y.kids[i]) by { let _ = a.child_nodes@[i]; assert(x.kids[i] == node_v(*a.child_nodes@[i])); } }
}
/// views of a document's declaration and doctypes
pub open spec fn optd(d: Option<Declaration>) -> Option<Seq<char>> { match d { Some(x) => Some(x.decl_str@), None => None } }
pub open spec fn dtds_v(d: Seq<DTD>) -> Seq<Seq<char>> { Seq::new(d.len(), |i: int| d[i].dtd_str@) }
pub broadcast proof fn lem_dtds_eq(a: Seq<DTD>, b: Seq<DTD>)
    ensures #![trigger dtds_v(a), dtds_v(b)] dtds_v(a) == dtds_v(b) <==> a.len() == b.len() && forall|i: int| #![trigger a[i]] #![trigger b[i]] 0 <= i < a.len() ==> a[i].dtd_str@ == b[i].dtd_str@
{
    if dtds_v(a) == dtds_v(b) { assert(dtds_v(a).len() == dtds_v(b).len()); assert forall|i: int| #![trigger a[i]] #![trigger b[i]] 0 <= i < a.len() implies a[i].dtd_str@ == b[i].dtd_str@ by { assert(dtds_v(a)[i] == dtds_v(b)[i]); } }
    if a.len() == b.len() && (forall|i: int| #![trigger a[i]] 0 <= i < a.len() ==> a[i].dtd_str@ == b[i].dtd_str@) { assert(dtds_v(a) =~= dtds_v(b)); }
}
