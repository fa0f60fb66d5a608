// ---- C05, C06, C08: the parser's stack of open elements -----------------------------------------------------
//@struct ParseTreeNode
//@struct ParseTree
/// HashMap<usize, T>
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct KxArena<T> { _m: Vec<T> }
impl<T> View for KxArena<T> { type V = Map<usize, T>; uninterp spec fn view(&self) -> Map<usize, T>; }
impl<T> KxArena<T> {
    #[verifier::external_body] pub fn get(&self, k: &usize) -> (r: Option<&T>) ensures self@.contains_key(*k) ==> r == Some(&self@[*k]), !self@.contains_key(*k) ==> r is None { unimplemented!() }
    #[verifier::external_body] pub fn get_mut(&mut self, k: &usize) -> (r: Option<&mut T>)
        ensures !old(self)@.contains_key(*k) ==> r is None && final(self)@ == old(self)@,
            old(self)@.contains_key(*k) ==> r is Some && *r->Some_0 == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(r->Some_0)) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: usize, v: T) -> (r: Option<T>) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, k: &usize) -> (r: Option<T>)
        ensures final(self)@ == old(self)@.remove(*k), old(self)@.contains_key(*k) ==> r == Some(old(self)@[*k]), !old(self)@.contains_key(*k) ==> r is None { unimplemented!() }
}
impl<T> KxLen for KxArena<T> {
    open spec fn kl(&self) -> nat { self@.dom().len() }
    #[verifier::external_body] fn kx_len(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn kx_is_empty(&self) -> (r: bool) { unimplemented!() }
}
/// derived Default: no nodes, no open element
impl Default for ParseTree { #[verifier::external_body] fn default() -> (r: Self) ensures r.data@ == Map::<usize, ParseTreeNode>::empty(), r.pos is None { unimplemented!() } }

pub ghost struct PNode { pub v: NodeV, pub parent: Option<int> }
pub open spec fn opar(o: Option<usize>) -> Option<int> { match o { Some(p) => Some(p as int), None => None } }
pub open spec fn pnode(x: ParseTreeNode) -> PNode { PNode { v: node_v(*x.value), parent: opar(x.parent_id) } }
/// the nodes in the order they were added
pub open spec fn pseq(m: Map<usize, ParseTreeNode>) -> Seq<PNode> { Seq::new(m.dom().len(), |i: int| pnode(m[i as usize])) }
pub open spec fn dense(m: Map<usize, ParseTreeNode>) -> bool { m.dom().len() <= usize::MAX && forall|k: usize| #[trigger] m.contains_key(k) <==> k < m.dom().len() }

/// node i with everything added below it
pub open spec fn full(ns: Seq<PNode>, i: int) -> NodeV decreases ns.len() - i, 0int {
    if i < 0 || i >= ns.len() { NodeV::Text(Seq::empty()) } else { match ns[i].v { NodeV::Elem(e) => NodeV::Elem(with_kids(e, kids_rng(ns, i, i + 1, ns.len() as int))), x => x } }
}
/// the children of p among nodes lo..hi, in order; blank text is not content
pub open spec fn kids_rng(ns: Seq<PNode>, p: int, lo: int, hi: int) -> Seq<NodeV> decreases ns.len() - lo, 1 + hi - lo {
    if lo < 0 || hi <= lo || hi > ns.len() { Seq::empty() } else {
        let k = kids_rng(ns, p, lo, hi - 1);
        if ns[hi - 1].parent == Some(p) && !is_blank(ns[hi - 1].v) { k.push(full(ns, hi - 1)) } else { k }
    }
}
/// the open elements from the root to t, each with the children it has among nodes before hi (before the next open one)
pub open spec fn frames(ns: Seq<PNode>, t: int, hi: int) -> Seq<ElemV> decreases t {
    if t < 0 || t >= ns.len() { Seq::empty() } else {
        (match ns[t].parent { Some(p) => if 0 <= p < t { frames(ns, p, t) } else { Seq::empty() }, None => Seq::empty() }).push(with_kids(ns[t].v->Elem_0, kids_rng(ns, t, t + 1, hi)))
    }
}
pub open spec fn ns_ok(ns: Seq<PNode>) -> bool {
    &&& forall|i: int| #![trigger ns[i]] 0 <= i < ns.len() ==> match ns[i].parent { None => i == 0, Some(p) => 0 <= p < i && ns[p].v is Elem && adopt(ns[p].v->Elem_0, ns[i].v) == ns[i].v }
    &&& forall|i: int| #![trigger ns[i]] 0 <= i < ns.len() && ns[i].v is Elem ==> ns[i].v->Elem_0.kids.len() == 0
    &&& ns.len() > 0 ==> ns[0].v is Elem
    &&& forall|i: int, j: int| #![trigger ns[i], ns[j]] 0 <= i < j < ns.len() && ns[i].v is Text && ns[j].v is Text && ns[i].parent == ns[j].parent ==> sep_kid(ns, i, j)
}
/// a child of the same parent strictly between i and j that is not text
pub open spec fn sep_kid(ns: Seq<PNode>, i: int, j: int) -> bool { exists|k: int| #![trigger ns[k]] i < k < j && k < ns.len() && ns[k].parent == ns[i].parent && !(ns[k].v is Text) }
/// the last child of t is not text
pub open spec fn no_open_text(ns: Seq<PNode>, t: int) -> bool { forall|i: int| #![trigger ns[i]] 0 <= i < ns.len() && ns[i].parent == Some(t) && ns[i].v is Text ==> sep_kid(ns, i, ns.len() as int) }
/// everything added after t is below t, and so on upwards
pub open spec fn chain(ns: Seq<PNode>, t: int, hi: int) -> bool decreases t {
    0 <= t < ns.len() && (forall|j: int| #![trigger ns[j]] t < j < hi && j < ns.len() ==> ns[j].parent is Some && ns[j].parent->Some_0 >= t)
    && match ns[t].parent { Some(p) => 0 <= p < t && chain(ns, p, t), None => t == 0 }
}
pub open spec fn under(ns: Seq<PNode>, i: int, t: int) -> bool decreases t {
    0 <= t < ns.len() && (t == i || match ns[t].parent { Some(p) => 0 <= p < t && under(ns, i, p), None => false })
}
/// the state of the parse tree
pub open spec fn pt_ok(t: ParseTree) -> bool {
    let ns = pseq(t.data@);
    dense(t.data@) && ns_ok(ns) && match t.pos { Some(p) => p < ns.len() && ns[p as int].v is Elem && chain(ns, p as int, ns.len() as int), None => true }
}
pub open spec fn pt_st(t: ParseTree) -> Seq<ElemV> { let ns = pseq(t.data@); match t.pos { Some(p) => frames(ns, p as int, ns.len() as int), None => Seq::empty() } }
pub open spec fn pt_root(t: ParseTree) -> Option<ElemV> { let ns = pseq(t.data@); if t.pos is None && ns.len() > 0 { Some(full(ns, 0)->Elem_0) } else { None } }
pub open spec fn pt_sep(t: ParseTree) -> bool { match t.pos { Some(p) => no_open_text(pseq(t.data@), p as int), None => true } }

// what the operations do to the stack
pub open spec fn add_kid(e: ElemV, n: NodeV) -> ElemV { if is_blank(n) { e } else { with_kids(e, e.kids.push(n)) } }
pub open spec fn st_add(st: Seq<ElemV>, n: NodeV) -> Seq<ElemV> { st.drop_last().push(add_kid(st.last(), n)) }
pub open spec fn st_pop(st: Seq<ElemV>) -> Seq<ElemV> { if st.len() <= 1 { Seq::empty() } else { st_add(st.drop_last(), NodeV::Elem(st.last())) } }

// ---- lemmas ----
pub proof fn lem_dense_insert(m: Map<usize, ParseTreeNode>, v: ParseTreeNode)
    requires dense(m), m.dom().len() < usize::MAX
    ensures dense(m.insert(m.dom().len() as usize, v)), pseq(m.insert(m.dom().len() as usize, v)) == pseq(m).push(pnode(v))
{
    let k = m.dom().len() as usize;
    assert(!m.contains_key(k));
    let m2 = m.insert(k, v);
    assert(m2.dom() =~= m.dom().insert(k));
    assert forall|j: usize| #[trigger] m2.contains_key(j) <==> j < m2.dom().len() by { assert(m.contains_key(j) <==> j < m.dom().len()); }
    assert(pseq(m2) =~= pseq(m).push(pnode(v)));
}
pub proof fn lem_dense_same(m: Map<usize, ParseTreeNode>, k: usize, v: ParseTreeNode)
    requires dense(m), m.contains_key(k), pnode(v) == pnode(m[k])
    ensures dense(m.insert(k, v)), pseq(m.insert(k, v)) == pseq(m), m.insert(k, v).dom() == m.dom()
{ let m2 = m.insert(k, v); assert(m2.dom() =~= m.dom()); assert forall|j: usize| #[trigger] m2.contains_key(j) <==> j < m2.dom().len() by { assert(m.contains_key(j) <==> j < m.dom().len()); } assert(pseq(m2) =~= pseq(m)); }

pub proof fn ns_at(ns: Seq<PNode>, i: int)
    requires ns_ok(ns), 0 <= i < ns.len()
    ensures match ns[i].parent { None => i == 0, Some(p) => 0 <= p < i && ns[p].v is Elem && adopt(ns[p].v->Elem_0, ns[i].v) == ns[i].v }, ns[i].v is Elem ==> ns[i].v->Elem_0.kids.len() == 0
{}
pub proof fn lem_under_up(ns: Seq<PNode>, i: int, j: int, t: int)
    requires ns_ok(ns), under(ns, j, t), 0 <= j < ns.len(), ns[j].parent == Some(i)
    ensures under(ns, i, t)
    decreases t
{ hide(ns_ok); ns_at(ns, j); if t != j { lem_under_up(ns, i, j, ns[t].parent->Some_0); } else { assert(under(ns, i, i)); } }
pub proof fn lem_under_le(ns: Seq<PNode>, i: int, t: int) requires under(ns, i, t) ensures 0 <= i <= t decreases t { if t != i { lem_under_le(ns, i, ns[t].parent->Some_0); } }
/// a new node changes nothing below nodes that are not above its parent
pub proof fn lem_full_push(ns: Seq<PNode>, x: PNode, t: int, i: int)
    requires ns_ok(ns), x.parent == Some(t), 0 <= i < ns.len(), !under(ns, i, t)
    ensures full(ns.push(x), i) == full(ns, i)
    decreases ns.len() - i, 0int
{
    let n2 = ns.push(x);
    assert(n2[i] == ns[i]);
    if ns[i].v is Elem {
        lem_kids_push(ns, x, t, i, i + 1, ns.len() as int);
        if i == t { assert(under(ns, i, t)); }
        assert(n2[ns.len() as int] == x);
        assert(kids_rng(n2, i, i + 1, n2.len() as int) == kids_rng(n2, i, i + 1, ns.len() as int));
    }
}
pub proof fn lem_kids_push(ns: Seq<PNode>, x: PNode, t: int, p: int, lo: int, hi: int)
    requires ns_ok(ns), x.parent == Some(t), 0 <= lo, hi <= ns.len(), forall|i: int| #![trigger ns[i]] lo <= i < hi && ns[i].parent == Some(p) ==> !under(ns, i, t)
        || !under(ns, p, t)
    ensures kids_rng(ns.push(x), p, lo, hi) == kids_rng(ns, p, lo, hi)
    decreases ns.len() - lo, 1 + hi - lo
{
    if hi > lo {
        lem_kids_push(ns, x, t, p, lo, hi - 1);
        assert(ns.push(x)[hi - 1] == ns[hi - 1]);
        if ns[hi - 1].parent == Some(p) {
            if under(ns, hi - 1, t) { lem_under_up(ns, p, hi - 1, t); assert(false); }
            lem_full_push(ns, x, t, hi - 1);
        }
    }
}
/// the frames of the elements above a new node's parent (the parent's own frame excepted)
pub proof fn lem_frames_push(ns: Seq<PNode>, x: PNode, t: int, u: int, hi: int)
    requires ns_ok(ns), x.parent == Some(t), under(ns, u, t), u < hi <= ns.len(), forall|i: int| u < i < hi ==> !under(ns, i, t)
    ensures frames(ns.push(x), u, hi) == frames(ns, u, hi)
    decreases u
{
    hide(ns_ok); hide(kids_rng);
    let n2 = ns.push(x);
    lem_under_le(ns, u, t);
    assert(n2[u] == ns[u]); ns_at(ns, u);
    lem_kids_push(ns, x, t, u, u + 1, hi);
    match ns[u].parent {
        Some(p) => {
            lem_under_up(ns, p, u, t);
            assert forall|i: int| p < i < u implies !under(ns, i, t) by { if under(ns, i, t) { lem_between(ns, i, u, t, p); } }
            lem_frames_push(ns, x, t, p, u);
        }
        None => {}
    }
}
/// the nodes above t form a chain: none lies strictly between u and its parent
pub proof fn lem_between(ns: Seq<PNode>, i: int, u: int, t: int, p: int)
    requires ns_ok(ns), under(ns, i, t), under(ns, u, t), ns[u].parent == Some(p), p < i < u, 0 <= u < ns.len()
    ensures false
    decreases t
{
    hide(ns_ok); ns_at(ns, t);
    lem_under_le(ns, u, t);
    if t == u { assert(under(ns, i, p)); lem_under_le(ns, i, p); } else { lem_between(ns, i, u, ns[t].parent->Some_0, p); }
}
pub proof fn lem_chain_under(ns: Seq<PNode>, t: int, hi: int) requires chain(ns, t, hi) ensures under(ns, t, t) {}
pub proof fn lem_chain_hi(ns: Seq<PNode>, t: int, hi: int, h2: int) requires chain(ns, t, hi), h2 <= hi ensures chain(ns, t, h2) {}
pub proof fn lem_chain_push(ns: Seq<PNode>, x: PNode, t: int, hi: int)
    requires chain(ns, t, hi), hi <= ns.len()
    ensures chain(ns.push(x), t, hi)
    decreases t
{ let n2 = ns.push(x); assert(n2[t] == ns[t]); assert forall|j: int| #![trigger n2[j]] t < j < hi && j < n2.len() implies n2[j].parent is Some && n2[j].parent->Some_0 >= t by { assert(n2[j] == ns[j]); } match ns[t].parent { Some(p) => { lem_chain_push(ns, x, p, t); } None => {} } }

pub proof fn lem_sep_push(ns: Seq<PNode>, x: PNode, i: int, j: int)
    requires 0 <= i < ns.len(), j <= ns.len(), sep_kid(ns, i, j)
    ensures sep_kid(ns.push(x), i, j)
{ let n2 = ns.push(x); let k = choose|k: int| #![trigger ns[k]] i < k < j && k < ns.len() && ns[k].parent == ns[i].parent && !(ns[k].v is Text); assert(n2[k] == ns[k]); assert(n2[i] == ns[i]); }
/// adding a node below the open element t
pub proof fn lem_add_ok(ns: Seq<PNode>, x: PNode, t: int)
    requires ns_ok(ns), chain(ns, t, ns.len() as int), ns[t].v is Elem, x.parent == Some(t), adopt(ns[t].v->Elem_0, x.v) == x.v, x.v is Elem ==> x.v->Elem_0.kids.len() == 0,
        x.v is Text ==> no_open_text(ns, t)
    ensures ns_ok(ns.push(x)), chain(ns.push(x), t, (ns.len() + 1) as int), x.v is Elem ==> chain(ns.push(x), ns.len() as int, (ns.len() + 1) as int) && no_open_text(ns.push(x), ns.len() as int),
        !(x.v is Text) ==> no_open_text(ns.push(x), t),
{
    let n2 = ns.push(x); let n = ns.len() as int;
    assert(n2[n] == x);
    assert forall|i: int| #![trigger n2[i]] 0 <= i < n2.len() implies match n2[i].parent { None => i == 0, Some(p) => 0 <= p < i && n2[p].v is Elem && adopt(n2[p].v->Elem_0, n2[i].v) == n2[i].v } by {
        if i < n { assert(n2[i] == ns[i]); match ns[i].parent { Some(p) => { assert(n2[p] == ns[p]); } None => {} } } else { assert(n2[t] == ns[t]); }
    }
    assert forall|i: int, j: int| #![trigger n2[i], n2[j]] 0 <= i < j < n2.len() && n2[i].v is Text && n2[j].v is Text && n2[i].parent == n2[j].parent implies sep_kid(n2, i, j) by {
        assert(n2[i] == ns[i]);
        if j < n { assert(n2[j] == ns[j]); assert(sep_kid(ns, i, j)); lem_sep_push(ns, x, i, j); }
        else { assert(ns[i].parent == Some(t)); assert(sep_kid(ns, i, n)); lem_sep_push(ns, x, i, n); }
    }
    assert forall|i: int| #![trigger n2[i]] 0 <= i < n2.len() && n2[i].v is Elem implies n2[i].v->Elem_0.kids.len() == 0 by { if i < n { assert(n2[i] == ns[i]); } }
    assert(n2[0] == ns[0]);
    lem_chain_push(ns, x, t, n);
    assert(chain(n2, t, n + 1)) by { assert forall|j: int| #![trigger n2[j]] t < j < n + 1 && j < n2.len() implies n2[j].parent is Some && n2[j].parent->Some_0 >= t by { if j < n { assert(n2[j] == ns[j]); } } }
    if !(x.v is Text) {
        assert forall|i: int| #![trigger n2[i]] 0 <= i < n2.len() && n2[i].parent == Some(t) && n2[i].v is Text implies sep_kid(n2, i, n2.len() as int) by { assert(i < n); assert(n2[n] == x); }
    }
    if x.v is Elem {
        assert(chain(n2, t, n));
        assert forall|i: int| #![trigger n2[i]] 0 <= i < n2.len() && n2[i].parent == Some(n) && n2[i].v is Text implies sep_kid(n2, i, n2.len() as int) by { if i < n { assert(n2[i] == ns[i]); } }
    }
}
pub proof fn lem_kids_empty(ns: Seq<PNode>, p: int, lo: int, hi: int) requires hi <= lo ensures kids_rng(ns, p, lo, hi) == Seq::<NodeV>::empty() {}
pub proof fn lem_full_new(ns: Seq<PNode>, x: PNode)
    requires x.v is Elem ==> x.v->Elem_0.kids.len() == 0
    ensures full(ns.push(x), ns.len() as int) == x.v
{ let n2 = ns.push(x); assert(n2[ns.len() as int] == x); match x.v { NodeV::Elem(e) => { lem_kids_empty(n2, ns.len() as int, (ns.len() + 1) as int, n2.len() as int); assert(e.kids =~= Seq::<NodeV>::empty()); assert(with_kids(e, Seq::empty()) == e); } _ => {} } }
/// the children of the open element after one more node
pub proof fn lem_top_kids(ns: Seq<PNode>, x: PNode, t: int)
    requires ns_ok(ns), chain(ns, t, ns.len() as int), x.parent == Some(t), x.v is Elem ==> x.v->Elem_0.kids.len() == 0
    ensures kids_rng(ns.push(x), t, t + 1, ns.len() as int) == kids_rng(ns, t, t + 1, ns.len() as int),
        kids_rng(ns.push(x), t, t + 1, (ns.len() + 1) as int) == (if is_blank(x.v) { kids_rng(ns, t, t + 1, ns.len() as int) } else { kids_rng(ns, t, t + 1, ns.len() as int).push(x.v) }),
        forall|i: int| t < i ==> !under(ns, i, t)
{
    assert forall|i: int| t < i implies !under(ns, i, t) by { if under(ns, i, t) { lem_under_le(ns, i, t); } }
    lem_kids_push(ns, x, t, t, t + 1, ns.len() as int); lem_full_new(ns, x);
    let n2 = ns.push(x); assert(n2[ns.len() as int] == x);
    assert(n2.len() == (ns.len() + 1) as int);
    assert(kids_rng(n2, t, t + 1, (ns.len() + 1) as int) == (if !is_blank(x.v) { kids_rng(n2, t, t + 1, ns.len() as int).push(full(n2, ns.len() as int)) } else { kids_rng(n2, t, t + 1, ns.len() as int) }));
}
pub proof fn lem_st_append(ns: Seq<PNode>, x: PNode, t: int)
    requires ns_ok(ns), chain(ns, t, ns.len() as int), x.parent == Some(t), x.v is Elem ==> x.v->Elem_0.kids.len() == 0
    ensures frames(ns.push(x), t, (ns.len() + 1) as int) == st_add(frames(ns, t, ns.len() as int), x.v)
{
    hide(ns_ok); hide(kids_rng);
    let n2 = ns.push(x); let n = ns.len() as int;
    lem_top_kids(ns, x, t);
    assert(n2[t] == ns[t]); ns_at(ns, t);
    match ns[t].parent { Some(p) => {
        lem_under_up(ns, p, t, t);
        assert forall|i: int| p < i < t implies !under(ns, i, t) by { if under(ns, i, t) { lem_between(ns, i, t, t, p); } }
        lem_frames_push(ns, x, t, p, t); } None => {} }
    let a = frames(n2, t, n + 1); let b = frames(ns, t, n);
    assert(a.drop_last() =~= b.drop_last());
    assert(a =~= st_add(b, x.v));
}
pub proof fn lem_st_push(ns: Seq<PNode>, x: PNode, t: int)
    requires ns_ok(ns), chain(ns, t, ns.len() as int), x.parent == Some(t), x.v is Elem, x.v->Elem_0.kids.len() == 0
    ensures frames(ns.push(x), ns.len() as int, (ns.len() + 1) as int) == frames(ns, t, ns.len() as int).push(x.v->Elem_0)
{
    hide(ns_ok); hide(kids_rng);
    let n2 = ns.push(x); let n = ns.len() as int;
    lem_top_kids(ns, x, t);
    assert(n2[n] == x);
    lem_frames_push(ns, x, t, t, n);
    lem_kids_empty(n2, n, n + 1, n + 1);
    let e = x.v->Elem_0; assert(e.kids =~= Seq::<NodeV>::empty()); assert(with_kids(e, Seq::empty()) == e);
}
/// children are closed under the chain: nothing after t is a child of something above t
pub proof fn lem_full_elem(ns: Seq<PNode>, t: int) requires 0 <= t < ns.len(), ns[t].v is Elem
    ensures full(ns, t) == NodeV::Elem(with_kids(ns[t].v->Elem_0, kids_rng(ns, t, t + 1, ns.len() as int))) {}
pub proof fn lem_kids_hi(ns: Seq<PNode>, p: int, lo: int, hi: int) requires 0 <= lo < hi <= ns.len()
    ensures kids_rng(ns, p, lo, hi) == (if ns[hi - 1].parent == Some(p) && !is_blank(ns[hi - 1].v) { kids_rng(ns, p, lo, hi - 1).push(full(ns, hi - 1)) } else { kids_rng(ns, p, lo, hi - 1) }) {}
pub proof fn lem_chain_at(ns: Seq<PNode>, t: int, hi: int, j: int) requires chain(ns, t, hi), t < j < hi, j < ns.len() ensures ns[j].parent is Some, ns[j].parent->Some_0 >= t {}
pub proof fn lem_chain_up(ns: Seq<PNode>, t: int, hi: int) requires chain(ns, t, hi), ns_ok(ns) ensures 0 <= t < ns.len(), match ns[t].parent { Some(p) => 0 <= p < t && chain(ns, p, t), None => t == 0 } {}
/// one step up: everything after p is below p
pub proof fn lem_chain_pop(ns: Seq<PNode>, t: int, p: int)
    requires chain(ns, t, ns.len() as int), ns_ok(ns), ns[t].parent == Some(p)
    ensures chain(ns, p, ns.len() as int), 0 <= p < t
{
    hide(ns_ok);
    let n = ns.len() as int;
    lem_chain_up(ns, t, n);
    assert(chain(ns, p, t));
    assert forall|j: int| #![trigger ns[j]] p < j < n && j < ns.len() implies ns[j].parent is Some && ns[j].parent->Some_0 >= p by { if j < t { lem_chain_at(ns, p, t, j); } else if j > t { lem_chain_at(ns, t, n, j); } }
    lem_chain_up(ns, p, t);
}
pub proof fn lem_kids_chain(ns: Seq<PNode>, p: int, t: int, hi: int)
    requires chain(ns, t, hi), 0 <= p < t, ns[t].parent == Some(p), t < hi <= ns.len(), ns_ok(ns), ns[t].v is Elem
    ensures kids_rng(ns, p, p + 1, hi) == kids_rng(ns, p, p + 1, t).push(full(ns, t))
    decreases hi
{
    hide(ns_ok); hide(full); hide(kids_rng); hide(chain); ns_at(ns, t); lem_kids_hi(ns, p, p + 1, hi);
    if hi > t + 1 { lem_chain_at(ns, t, hi, hi - 1); lem_chain_hi(ns, t, hi, hi - 1); lem_kids_chain(ns, p, t, hi - 1); } else { assert(hi == t + 1); }
}
pub proof fn lem_st_pop(ns: Seq<PNode>, t: int)
    requires ns_ok(ns), chain(ns, t, ns.len() as int), ns[t].v is Elem
    ensures match ns[t].parent {
        Some(p) => frames(ns, p, ns.len() as int) == st_pop(frames(ns, t, ns.len() as int)) && chain(ns, p, ns.len() as int) && ns[p].v is Elem && no_open_text(ns, p) && 0 <= p < ns.len() && frames(ns, t, ns.len() as int).len() > 1,
        None => t == 0 && frames(ns, t, ns.len() as int) == seq![full(ns, 0)->Elem_0] },
{
    hide(ns_ok); hide(kids_rng); ns_at(ns, t);
    let n = ns.len() as int;
    let a = frames(ns, t, n);
    match ns[t].parent {
        Some(p) => {
            lem_chain_up(ns, t, n); ns_at(ns, p); lem_full_elem(ns, t);
            lem_kids_chain(ns, p, t, n);
            let b = frames(ns, p, t); let c = frames(ns, p, n);
            assert(a == b.push(a.last())); assert(a.drop_last() =~= b);
            assert(c.drop_last() =~= b.drop_last());
            assert(full(ns, t) == NodeV::Elem(a.last()));
            assert(!is_blank(full(ns, t)));
            assert(c =~= st_pop(a));
            lem_chain_pop(ns, t, p);
            assert forall|i: int| #![trigger ns[i]] 0 <= i < ns.len() && ns[i].parent == Some(p) && ns[i].v is Text implies sep_kid(ns, i, n) by { if i > t { assert(ns[i].parent->Some_0 >= t); } assert(i != t); assert(ns[t].parent == ns[i].parent); }
        }
        None => { lem_full_elem(ns, t); assert(a =~= seq![full(ns, 0)->Elem_0]); }
    }
}
// ---- building the document: children are attached last to first ----
pub proof fn lem_kids_low(ns: Seq<PNode>, p: int, lo: int, hi: int)
    requires 0 <= lo < hi <= ns.len()
    ensures kids_rng(ns, p, lo, hi) == (if ns[lo].parent == Some(p) && !is_blank(ns[lo].v) { seq![full(ns, lo)] } else { Seq::empty() }) + kids_rng(ns, p, lo + 1, hi)
    decreases hi
{
    if hi > lo + 1 { lem_kids_low(ns, p, lo, hi - 1); } else { lem_kids_empty(ns, p, lo + 1, hi); lem_kids_empty(ns, p, lo, hi - 1); }
    assert(kids_rng(ns, p, lo, hi) =~= (if ns[lo].parent == Some(p) && !is_blank(ns[lo].v) { seq![full(ns, lo)] } else { Seq::empty() }) + kids_rng(ns, p, lo + 1, hi));
}
pub open spec fn no_blank(k: Seq<NodeV>) -> bool { forall|j: int| #![trigger k[j]] 0 <= j < k.len() ==> !is_blank(k[j]) }
pub proof fn lem_no_blank(k: Seq<NodeV>) requires no_blank(k) ensures unblank(k) == k decreases k.len()
{ if k.len() > 0 { assert forall|j: int| #![trigger k.drop_last()[j]] 0 <= j < k.drop_last().len() implies !is_blank(k.drop_last()[j]) by { assert(k[j] == k.drop_last()[j]); } lem_no_blank(k.drop_last()); assert(k.drop_last().push(k.last()) =~= k); } }
pub proof fn lem_norm_push(k: Seq<NodeV>, x: NodeV)
    requires no_blank(k), sep_from(k, 0), k.len() > 0 && x is Text ==> !(k.last() is Text)
    ensures norm(k.push(x)) == (if is_blank(x) { k } else { k.push(x) })
{ lem_sep_merged(k); assert(k.push(x).drop_last() =~= k); assert(merged(k.push(x)) == k.push(x)); lem_no_blank(k); }
/// the first child from lo on
pub proof fn lem_first_kid(ns: Seq<PNode>, p: int, lo: int, hi: int) -> (j: int)
    requires 0 <= lo, hi <= ns.len(), kids_rng(ns, p, lo, hi).len() > 0
    ensures lo <= j < hi, ns[j].parent == Some(p), !is_blank(ns[j].v), kids_rng(ns, p, lo, hi)[0] == full(ns, j), forall|k: int| #![trigger ns[k]] lo <= k < j && ns[k].parent == Some(p) ==> is_blank(ns[k].v)
    decreases hi
{
    if kids_rng(ns, p, lo, hi - 1).len() > 0 { lem_first_kid(ns, p, lo, hi - 1) } else {
        assert forall|k: int| #![trigger ns[k]] lo <= k < hi - 1 && ns[k].parent == Some(p) implies is_blank(ns[k].v) by { lem_no_kid(ns, p, lo, hi - 1, k); }
        hi - 1
    }
}
pub proof fn lem_no_kid(ns: Seq<PNode>, p: int, lo: int, hi: int, k: int)
    requires 0 <= lo <= k < hi <= ns.len(), kids_rng(ns, p, lo, hi).len() == 0, ns[k].parent == Some(p)
    ensures is_blank(ns[k].v)
    decreases hi
{ if k < hi - 1 { lem_no_kid(ns, p, lo, hi - 1, k); } }
pub proof fn lem_full_kind(ns: Seq<PNode>, i: int) requires 0 <= i < ns.len() ensures full(ns, i) is Text <==> ns[i].v is Text, is_blank(full(ns, i)) <==> is_blank(ns[i].v) {}
pub proof fn lem_kids_norm(ns: Seq<PNode>, p: int, lo: int)
    requires ns_ok(ns), 0 <= lo <= ns.len()
    ensures no_blank(kids_rng(ns, p, lo, ns.len() as int)), sep_from(kids_rng(ns, p, lo, ns.len() as int), 0),
        lo > 0 && ns[lo - 1].parent == Some(p) && ns[lo - 1].v is Text && kids_rng(ns, p, lo, ns.len() as int).len() > 0 ==> !(kids_rng(ns, p, lo, ns.len() as int)[0] is Text)
    decreases ns.len() - lo
{
    let n = ns.len() as int;
    let k = kids_rng(ns, p, lo, n);
    if lo < n {
        lem_kids_norm(ns, p, lo + 1);
        lem_kids_low(ns, p, lo, n);
        let k1 = kids_rng(ns, p, lo + 1, n);
        lem_full_kind(ns, lo);
        if ns[lo].parent == Some(p) && !is_blank(ns[lo].v) {
            assert(k =~= seq![full(ns, lo)] + k1);
            assert forall|j: int| #![trigger k[j]] 0 <= j < k.len() implies !is_blank(k[j]) by { if j > 0 { assert(k[j] == k1[j - 1]); } }
            assert forall|j: int| #![trigger k[j]] 0 <= j && j + 1 < k.len() implies !(k[j] is Text && k[j + 1] is Text) by { assert(k[j + 1] == k1[j]); if j > 0 { assert(k[j] == k1[j - 1]); } }
        } else { assert(k =~= k1); }
    }
    if lo > 0 && ns[lo - 1].parent == Some(p) && ns[lo - 1].v is Text && k.len() > 0 && k[0] is Text {
        let j = lem_first_kid(ns, p, lo, n);
        lem_full_kind(ns, j);
        assert(ns[lo - 1].parent == ns[j].parent && ns[j].v is Text);
        assert(sep_kid(ns, lo - 1, j));
        let q = choose|q: int| #![trigger ns[q]] lo - 1 < q < j && q < ns.len() && ns[q].parent == ns[lo - 1].parent && !(ns[q].v is Text);
        assert(is_blank(ns[q].v));
    }
}
pub proof fn lem_sep_rev(k: Seq<NodeV>) requires sep_from(k, 0), no_blank(k) ensures sep_from(k.reverse(), 0), no_blank(k.reverse())
{ let r = k.reverse(); assert forall|j: int| #![trigger r[j]] 0 <= j && j + 1 < r.len() implies !(r[j] is Text && r[j + 1] is Text) by { let i = k.len() - 2 - j; assert(r[j] == k[i + 1] && r[j + 1] == k[i]); } assert forall|j: int| #![trigger r[j]] 0 <= j < r.len() implies !is_blank(r[j]) by { assert(r[j] == k[k.len() - 1 - j]); } }
/// node j while everything from lo on has been attached (last first)
pub open spec fn partial(ns: Seq<PNode>, j: int, lo: int) -> NodeV {
    match ns[j].v { NodeV::Elem(e) => NodeV::Elem(with_kids(e, kids_rng(ns, j, if lo > j + 1 { lo } else { j + 1 }, ns.len() as int).reverse())), x => x }
}
pub open spec fn attach_inv(m: Map<usize, ParseTreeNode>, ns: Seq<PNode>, lo: int) -> bool {
    (forall|k: usize| #[trigger] m.contains_key(k) <==> k < lo) && forall|j: usize| #![trigger m[j]] j < lo ==> opar(m[j].parent_id) == ns[j as int].parent && node_v(*m[j].value) == partial(ns, j as int, lo)
}
pub proof fn lem_attach_init(m: Map<usize, ParseTreeNode>)
    requires dense(m), ns_ok(pseq(m))
    ensures attach_inv(m, pseq(m), pseq(m).len() as int)
{
    let ns = pseq(m);
    assert forall|j: usize| #![trigger m[j]] j < ns.len() implies opar(m[j].parent_id) == ns[j as int].parent && node_v(*m[j].value) == partial(ns, j as int, ns.len() as int) by {
        assert(ns[j as int] == pnode(m[j]));
        let lo = if ns.len() > j + 1 { ns.len() as int } else { j + 1 };
        lem_kids_empty(ns, j as int, lo, ns.len() as int);
        assert(Seq::<NodeV>::empty().reverse() =~= Seq::<NodeV>::empty());
        if ns[j as int].v is Elem { let e = ns[j as int].v->Elem_0; assert(e.kids =~= Seq::<NodeV>::empty()); assert(with_kids(e, Seq::empty()) == e); }
    }
}
/// what attaching node i to its parent does
pub proof fn lem_attach(ns: Seq<PNode>, i: int, p: int)
    requires ns_ok(ns), 0 < i < ns.len(), ns[i].parent == Some(p)
    ensures 0 <= p < i, ns[p].v is Elem, partial(ns, p, i + 1) is Elem, partial(ns, p, i) is Elem,
        partial(ns, i, i + 1) is Elem ==> NodeV::Elem(with_kids(partial(ns, i, i + 1)->Elem_0, partial(ns, i, i + 1)->Elem_0.kids.reverse())) == full(ns, i),
        !(partial(ns, i, i + 1) is Elem) ==> partial(ns, i, i + 1) == full(ns, i),
        ({ let e = partial(ns, p, i + 1)->Elem_0; NodeV::Elem(with_kids(e, norm(e.kids.push(adopt(e, full(ns, i)))))) == partial(ns, p, i) }),
        forall|j: int| #![trigger ns[j]] 0 <= j < i && j != p ==> partial(ns, j, i) == partial(ns, j, i + 1),
{
    let n = ns.len() as int;
    assert(0 <= p < i && ns[p].v is Elem && adopt(ns[p].v->Elem_0, ns[i].v) == ns[i].v);
    let e = partial(ns, p, i + 1)->Elem_0;
    let k1 = kids_rng(ns, p, i + 1, n);
    assert(e.kids == k1.reverse());
    assert(adopt(e, full(ns, i)) == full(ns, i));
    lem_kids_norm(ns, p, i + 1); lem_sep_rev(k1); lem_full_kind(ns, i);
    if k1.len() > 0 { assert(k1.reverse().last() == k1[0]); }
    lem_norm_push(k1.reverse(), full(ns, i));
    lem_kids_low(ns, p, i, n);
    let k0 = kids_rng(ns, p, i, n);
    if is_blank(ns[i].v) { assert(k0 =~= k1); } else { assert(k0.reverse() =~= k1.reverse().push(full(ns, i))); }
    assert(with_kids(e, k0.reverse()) == with_kids(ns[p].v->Elem_0, k0.reverse()));
    let ki = kids_rng(ns, i, i + 1, n); assert(ki.reverse().reverse() =~= ki);
    assert forall|j: int| #![trigger ns[j]] 0 <= j < i && j != p implies partial(ns, j, i) == partial(ns, j, i + 1) by {
        lem_kids_low(ns, j, i, n); assert(Seq::<NodeV>::empty() + kids_rng(ns, j, i + 1, n) =~= kids_rng(ns, j, i + 1, n));
    }
}
// ---- what the contracts need about the top of the stack ----
pub proof fn lem_st_top(ns: Seq<PNode>, t: int, hi: int)
    requires 0 <= t < ns.len()
    ensures frames(ns, t, hi).len() > 0, frames(ns, t, hi).last() == with_kids(ns[t].v->Elem_0, kids_rng(ns, t, t + 1, hi))
{ hide(kids_rng); }
pub proof fn lem_adopt_kids(e: ElemV, k: Seq<NodeV>, n: NodeV) ensures adopt(with_kids(e, k), n) == adopt(e, n) {}
pub proof fn lem_pt_st(t: ParseTree)
    requires pt_ok(t)
    ensures t.pos is Some <==> pt_st(t).len() > 0, t.pos is Some ==> pt_root(t) is None, match t.pos { Some(p) => t.data@.contains_key(p) && pnode(t.data@[p]) == pseq(t.data@)[p as int] && p < pseq(t.data@).len() && pseq(t.data@)[p as int].v is Elem
        && pt_st(t).last() == with_kids(pseq(t.data@)[p as int].v->Elem_0, pt_st(t).last().kids) && pseq(t.data@)[p as int].v->Elem_0.kids.len() == 0, None => true }
{ hide(ns_ok); hide(chain); hide(frames); hide(kids_rng); match t.pos { Some(p) => { let ns = pseq(t.data@); lem_st_top(ns, p as int, ns.len() as int); ns_at(ns, p as int); } None => {} } }
/// the first element
pub proof fn lem_first(x: PNode)
    requires x.v is Elem, x.parent is None, x.v->Elem_0.kids.len() == 0
    ensures ({ let ns = seq![x]; ns_ok(ns) && chain(ns, 0, 1) && frames(ns, 0, 1) == seq![x.v->Elem_0] && no_open_text(ns, 0) })
{ let ns = seq![x]; lem_kids_empty(ns, 0, 1, 1); let e = x.v->Elem_0; assert(e.kids =~= Seq::<NodeV>::empty()); assert(with_kids(e, Seq::empty()) == e); assert(frames(ns, 0, 1) =~= seq![e]); }
/// adding a node below the open element: map and stack
pub proof fn lem_pt_add(m: Map<usize, ParseTreeNode>, p: usize, u: ParseTreeNode, x: ParseTreeNode)
    requires dense(m), ns_ok(pseq(m)), p < m.dom().len(), pseq(m)[p as int].v is Elem, chain(pseq(m), p as int, pseq(m).len() as int), pnode(u) == pnode(m[p]), m.dom().len() < usize::MAX,
        pnode(x).parent == Some(p as int), adopt(pseq(m)[p as int].v->Elem_0, pnode(x).v) == pnode(x).v, pnode(x).v is Elem ==> pnode(x).v->Elem_0.kids.len() == 0, pnode(x).v is Text ==> no_open_text(pseq(m), p as int)
    ensures ({ let n = m.dom().len() as int; let m2 = m.insert(p, u).insert(n as usize, x); let ns = pseq(m); let n2 = pseq(m2); let y = pnode(x);
        &&& dense(m2) && ns_ok(n2) && n2.len() == n + 1 && n2 == ns.push(y) && n2[p as int] == ns[p as int]
        &&& chain(n2, p as int, n + 1) && frames(n2, p as int, n + 1) == st_add(frames(ns, p as int, n), y.v) && (!(y.v is Text) ==> no_open_text(n2, p as int))
        &&& y.v is Elem ==> chain(n2, n, n + 1) && no_open_text(n2, n) && frames(n2, n, n + 1) == frames(ns, p as int, n).push(y.v->Elem_0) && n2[n].v is Elem })
{
    let n = m.dom().len() as int; let ns = pseq(m);
    assert(m.contains_key(p));
    lem_dense_same(m, p, u); lem_dense_insert(m.insert(p, u), x);
    lem_add_ok(ns, pnode(x), p as int); lem_st_append(ns, pnode(x), p as int);
    if pnode(x).v is Elem { lem_st_push(ns, pnode(x), p as int); }
    assert(ns.push(pnode(x))[p as int] == ns[p as int]);
}
/// a hash map holds fewer than usize::MAX entries
pub broadcast axiom fn ax_arena_size<T>(a: KxArena<T>) ensures #![trigger a@] a@.dom().len() < usize::MAX;
#[verifier::external_body] pub fn kx_take(x: &mut Element) -> (r: Element) ensures r == *old(x) { unimplemented!() }
pub proof fn lem_pt_first(m: Map<usize, ParseTreeNode>, x: ParseTreeNode)
    requires dense(m), m.dom().len() == 0, pnode(x).v is Elem, pnode(x).parent is None, pnode(x).v->Elem_0.kids.len() == 0
    ensures ({ let m2 = m.insert(0, x); let ns = pseq(m2); dense(m2) && ns.len() == 1 && ns[0].v is Elem && ns_ok(ns) && chain(ns, 0, 1) && frames(ns, 0, 1) == seq![pnode(x).v->Elem_0] && no_open_text(ns, 0) })
{ lem_dense_insert(m, x); assert(pseq(m).push(pnode(x)) =~= seq![pnode(x)]); lem_first(pnode(x)); }
/// one step of to_dom
pub proof fn lem_attach_step(ns: Seq<PNode>, m: Map<usize, ParseTreeNode>, m2: Map<usize, ParseTreeNode>, i: usize, p: usize)
    requires ns_ok(ns), 0 < i < ns.len(), attach_inv(m, ns, i + 1), ns[i as int].parent == Some(p as int), p < i,
        m2.dom() == m.dom().remove(i), forall|j: usize| #![trigger m2[j]] j < i && j != p ==> m2[j] == m[j],
        m2[p].parent_id == m[p].parent_id, node_v(*m2[p].value) == partial(ns, p as int, i as int)
    ensures attach_inv(m2, ns, i as int)
{
    lem_attach(ns, i as int, p as int);
    assert forall|k: usize| #[trigger] m2.contains_key(k) <==> k < i by { assert(m.contains_key(k) <==> k < i + 1); }
    assert forall|j: usize| #![trigger m2[j]] j < i implies opar(m2[j].parent_id) == ns[j as int].parent && node_v(*m2[j].value) == partial(ns, j as int, i as int) by { assert(opar(m[j].parent_id) == ns[j as int].parent && node_v(*m[j].value) == partial(ns, j as int, i + 1)); assert(ns[j as int] == ns[j as int]); }
}
/// the root when everything has been attached
pub proof fn lem_attach_root(ns: Seq<PNode>)
    requires ns_ok(ns), ns.len() > 0
    ensures partial(ns, 0, 1) is Elem, full(ns, 0) == NodeV::Elem(with_kids(partial(ns, 0, 1)->Elem_0, partial(ns, 0, 1)->Elem_0.kids.reverse()))
{ let k = kids_rng(ns, 0, 1, ns.len() as int); assert(k.reverse().reverse() =~= k); let e = ns[0].v->Elem_0; }
pub proof fn lem_attach_at(m: Map<usize, ParseTreeNode>, ns: Seq<PNode>, lo: int, j: usize)
    requires attach_inv(m, ns, lo), j < lo
    ensures m.contains_key(j), opar(m[j].parent_id) == ns[j as int].parent, node_v(*m[j].value) == partial(ns, j as int, lo)
{}
pub proof fn lem_pseq_len(m: Map<usize, ParseTreeNode>) ensures pseq(m).len() == m.dom().len() {}
