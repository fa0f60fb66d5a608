// ---- positions ---------------------------------------------------------------------------------------
pub proof fn lem_idxs(fl: Seq<bool>)
    ensures idxs(fl).len() <= fl.len(),
        forall|k: int| #![trigger idxs(fl)[k]] 0 <= k < idxs(fl).len() ==> 0 <= idxs(fl)[k] < fl.len() && fl[idxs(fl)[k]],
        forall|j: int, k: int| #![trigger idxs(fl)[j], idxs(fl)[k]] 0 <= j < k < idxs(fl).len() ==> idxs(fl)[j] < idxs(fl)[k],
        forall|i: int| #![trigger fl[i]] 0 <= i < fl.len() && fl[i] ==> exists|k: int| 0 <= k < idxs(fl).len() && #[trigger] idxs(fl)[k] == i,
    decreases fl.len()
{
    if fl.len() > 0 {
        let g = fl.drop_last(); lem_idxs(g);
        assert forall|k: int| #![trigger idxs(fl)[k]] 0 <= k < idxs(fl).len() implies 0 <= idxs(fl)[k] < fl.len() && fl[idxs(fl)[k]] by { if k < idxs(g).len() { assert(idxs(fl)[k] == idxs(g)[k]); assert(g[idxs(g)[k]]); } }
        assert forall|i: int| #![trigger fl[i]] 0 <= i < fl.len() && fl[i] implies exists|k: int| 0 <= k < idxs(fl).len() && #[trigger] idxs(fl)[k] == i by {
            if i < g.len() { assert(g[i]); let k = choose|k: int| 0 <= k < idxs(g).len() && #[trigger] idxs(g)[k] == i; assert(idxs(fl)[k] == i); } else { assert(idxs(fl)[idxs(g).len() as int] == i); }
        }
    }
}
pub broadcast proof fn lem_idxs_b(fl: Seq<bool>, k: int)
    ensures #![trigger idxs(fl)[k]] 0 <= k < idxs(fl).len() ==> 0 <= idxs(fl)[k] < fl.len() && fl[idxs(fl)[k]]
{ lem_idxs(fl); }
/// C16 (shared meaning): the flagged elements, each exactly once, in order, and nothing else
pub proof fn thm_c16_kept<T>(s: Seq<T>, fl: Seq<bool>)
    requires s.len() == fl.len()
    ensures forall|i: int| #![trigger fl[i]] 0 <= i < s.len() && fl[i] ==> exists|k: int| 0 <= k < kept(s, fl).len() && #[trigger] idxs(fl)[k] == i && kept(s, fl)[k] == s[i],
        forall|k: int| #![trigger kept(s, fl)[k]] 0 <= k < kept(s, fl).len() ==> fl[idxs(fl)[k]] && kept(s, fl)[k] == s[idxs(fl)[k]],
        forall|j: int, k: int| #![trigger idxs(fl)[j], idxs(fl)[k]] 0 <= j < k < kept(s, fl).len() ==> idxs(fl)[j] < idxs(fl)[k],
{ lem_idxs(fl); }
// ---- which nodes, reached how --------------------------------------------------------------------------
pub open spec fn el_fl(s: Seq<Box<DynNode>>) -> Seq<bool> { Seq::new(s.len(), |i: int| *s[i] is Element) }
pub open spec fn tx_fl(s: Seq<Box<DynNode>>) -> Seq<bool> { Seq::new(s.len(), |i: int| *s[i] is Text) }
pub open spec fn cm_fl(s: Seq<Box<DynNode>>) -> Seq<bool> { Seq::new(s.len(), |i: int| *s[i] is Comment) }
pub open spec fn named(s: Seq<Box<DynNode>>, n: Seq<char>) -> Seq<bool> { Seq::new(s.len(), |i: int| *s[i] is Element && (*s[i])->Element_0.name@ == n) }
pub open spec fn in_ns(s: Seq<Box<DynNode>>, n: Option<Seq<char>>) -> Seq<bool> { Seq::new(s.len(), |i: int| *s[i] is Element && optv((*s[i])->Element_0.xmlns) == n) }
pub open spec fn with_prefix(s: Seq<Box<DynNode>>, n: Option<Seq<char>>) -> Seq<bool> { Seq::new(s.len(), |i: int| *s[i] is Element && optv((*s[i])->Element_0.xmlns_prefix) == n) }
pub open spec fn ostr(o: Option<&str>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
pub open spec fn elems(s: Seq<Box<DynNode>>, fl: Seq<bool>) -> Seq<Element> { Seq::new(idxs(fl).len(), |k: int| (*s[idxs(fl)[k]])->Element_0) }
pub open spec fn texts(s: Seq<Box<DynNode>>, fl: Seq<bool>) -> Seq<Text> { Seq::new(idxs(fl).len(), |k: int| (*s[idxs(fl)[k]])->Text_0) }
pub open spec fn comments(s: Seq<Box<DynNode>>, fl: Seq<bool>) -> Seq<Comment> { Seq::new(idxs(fl).len(), |k: int| (*s[idxs(fl)[k]])->Comment_0) }
/// only the child list differs
pub open spec fn only_kids(a: Element, b: Element) -> bool { b == (Element { child_nodes: b.child_nodes, ..a }) && b.child_nodes@.len() == a.child_nodes@.len() }
/// what a mutable iterator may reach: exactly the flagged child elements, each through its own reference, in order
#[verifier::prophetic] pub open spec fn reaches(a: Element, b: Element, fl: Seq<bool>, s: Seq<&mut Element>) -> bool {
    &&& only_kids(a, b) && s.len() == idxs(fl).len()
    &&& forall|k: int| #![trigger s[k]] #![trigger idxs(fl)[k]] 0 <= k < s.len() ==> *a.child_nodes@[idxs(fl)[k]] == DynNode::Element(*s[k]) && *b.child_nodes@[idxs(fl)[k]] == DynNode::Element(*final(s[k]))
    &&& forall|i: int| #![trigger b.child_nodes@[i]] 0 <= i < a.child_nodes@.len() && !fl[i] ==> b.child_nodes@[i] == a.child_nodes@[i]
}
#[verifier::prophetic] pub open spec fn reaches_one(a: Element, b: Element, i: int, r: &mut Element) -> bool {
    only_kids(a, b) && 0 <= i < a.child_nodes@.len() && *a.child_nodes@[i] == DynNode::Element(*r) && b.child_nodes@ == a.child_nodes@.update(i, b.child_nodes@[i]) && *b.child_nodes@[i] == DynNode::Element(*final(r))
}
pub open spec fn mcur<T>(x: &mut T) -> T { *x }
pub open spec fn refs<'a, T>(s: Seq<T>) -> Seq<&'a T> { Seq::new(s.len(), |i: int| &s[i]) }
pub broadcast proof fn lem_fl_eq(fl: Seq<bool>, g: Seq<bool>)
    requires fl.len() == g.len(), forall|i: int| #![trigger fl[i]] 0 <= i < g.len() ==> fl[i] == g[i]
    ensures #![trigger idxs(fl), idxs(g)] fl == g
{ assert(fl =~= g); }
/// selecting among the selected
pub proof fn lem_compose(fl: Seq<bool>, g: Seq<bool>, sel: Seq<bool>)
    requires g.len() == idxs(fl).len(), sel.len() == fl.len(), forall|k: int| #![trigger g[k]] 0 <= k < g.len() ==> g[k] == sel[idxs(fl)[k]],
        forall|i: int| #![trigger sel[i]] 0 <= i < fl.len() && sel[i] ==> fl[i],
    ensures idxs(sel) == kept(idxs(fl), g)
    decreases fl.len()
{
    lem_idxs(fl); lem_idxs(g);
    if fl.len() > 0 {
        let f1 = fl.drop_last(); let s1 = sel.drop_last();
        if fl.last() {
            let g1 = g.drop_last();
            assert forall|k: int| #![trigger g1[k]] 0 <= k < g1.len() implies g1[k] == s1[idxs(f1)[k]] by { lem_idxs(f1); assert(g1[k] == g[k]); assert(idxs(fl)[k] == idxs(f1)[k]); }
            lem_compose(f1, g1, s1); lem_idxs(g1);
            assert(g.last() == sel.last());
            assert(kept(idxs(f1), g1) =~= kept(idxs(fl), g1));
            assert(idxs(sel) =~= kept(idxs(fl), g));
        } else {
            lem_compose(f1, g, s1);
            assert(!sel.last());
            assert(idxs(sel) =~= kept(idxs(fl), g));
        }
    } else { assert(idxs(sel) =~= kept(idxs(fl), g)); }
}
pub broadcast proof fn lem_compose_b(fl: Seq<bool>, g: Seq<bool>, sel: Seq<bool>)
    requires g.len() == idxs(fl).len(), sel.len() == fl.len(), forall|k: int| #![trigger g[k]] 0 <= k < g.len() ==> g[k] == sel[idxs(fl)[k]],
        forall|i: int| #![trigger sel[i]] 0 <= i < fl.len() && sel[i] ==> fl[i],
    ensures #![trigger idxs(fl), idxs(g), idxs(sel)] idxs(sel) == kept(idxs(fl), g)
{ lem_compose(fl, g, sel); }

// ---- descendants -----------------------------------------------------------------------------------------
/// the children, then, for each child element in order, its descendants
pub open spec fn desc(e: Element) -> Seq<Box<DynNode>> decreases e, 0nat { e.child_nodes@ + desc_kids(e.child_nodes@, e.child_nodes@.len()) }
pub open spec fn desc_kids(s: Seq<Box<DynNode>>, n: nat) -> Seq<Box<DynNode>> decreases s, n {
    if n == 0 || n > s.len() { Seq::empty() } else { desc_kids(s, (n - 1) as nat) + (match *s[n - 1] { DynNode::Element(e) => desc(e), _ => Seq::empty() }) }
}
pub proof fn lem_idxs_take(fl: Seq<bool>, n: int)
    requires 0 <= n <= fl.len()
    ensures idxs(fl.take(n)).len() <= idxs(fl).len(), idxs(fl.take(n)) == idxs(fl).take(idxs(fl.take(n)).len() as int)
    decreases fl.len()
{
    if n == fl.len() { assert(fl.take(n) =~= fl); assert(idxs(fl).take(idxs(fl).len() as int) =~= idxs(fl)); } else {
        lem_idxs_take(fl.drop_last(), n); assert(fl.drop_last().take(n) =~= fl.take(n));
        assert(idxs(fl.take(n)) =~= idxs(fl).take(idxs(fl.take(n)).len() as int));
    }
}
pub proof fn lem_concat_desc(its: Seq<KxIter<&Box<DynNode>>>, s: Seq<Box<DynNode>>, n: nat)
    requires n <= s.len(), its.len() == idxs(el_fl(s)).len(), forall|k: int| #![trigger its[k]] 0 <= k < its.len() ==> its[k].seq() == refs(desc(elems(s, el_fl(s))[k])),
    ensures concat_its(its, idxs(el_fl(s).take(n as int)).len()) == refs(desc_kids(s, n))
    decreases n
{
    let fl = el_fl(s); let f1 = fl.take(n as int);
    lem_idxs_take(fl, n as int); lem_idxs(fl);
    if n > 0 {
        lem_concat_desc(its, s, (n - 1) as nat);
        assert(f1.drop_last() =~= fl.take(n - 1)); assert(f1.last() == fl[n - 1]);
        if f1.last() { let k = idxs(fl.take(n - 1)).len() as int; assert(idxs(f1)[k] == n - 1); assert(idxs(fl)[k] == n - 1); assert(its[k].seq() == refs(desc((*s[n - 1])->Element_0))); }
        assert(concat_its(its, idxs(f1).len()) =~= refs(desc_kids(s, n)));
    } else { assert(f1 =~= Seq::<bool>::empty()); assert(concat_its(its, 0) =~= refs(desc_kids(s, n))); }
}
pub broadcast proof fn lem_concat_desc_b(its: Seq<KxIter<&Box<DynNode>>>, e: Element)
    requires its.len() == idxs(el_fl(e.child_nodes@)).len(), forall|k: int| #![trigger its[k]] 0 <= k < its.len() ==> its[k].seq() == refs(desc(elems(e.child_nodes@, el_fl(e.child_nodes@))[k])),
    ensures #![trigger concat_its(its, its.len()), desc(e)] refs(e.child_nodes@) + concat_its(its, its.len()) == refs(desc(e))
{ let s = e.child_nodes@; lem_concat_desc(its, s, s.len()); assert(el_fl(s).take(s.len() as int) =~= el_fl(s)); assert(refs(s) + concat_its(its, its.len()) =~= refs(desc(e))); }
/// filtering what a mutable iterator yields
pub broadcast proof fn lem_reach_sub(a: Element, b: Element, fl: Seq<bool>, s: Seq<&mut Element>, g: Seq<bool>, sel: Seq<bool>)
    requires reaches(a, b, fl, s), fl.len() == a.child_nodes@.len(), sel.len() == fl.len(), g.len() == s.len(),
        forall|k: int| #![trigger g[k]] 0 <= k < g.len() ==> g[k] == sel[idxs(fl)[k]],
        forall|i: int| #![trigger sel[i]] 0 <= i < fl.len() && sel[i] ==> fl[i],
        forall|i: int| #![trigger fl[i]] 0 <= i < fl.len() && fl[i] ==> *a.child_nodes@[i] is Element,
        forall|k: int| #![trigger s[k]] 0 <= k < g.len() && !g[k] ==> has_resolved(s[k]),
    ensures #![trigger reaches(a, b, fl, s), kept(s, g), idxs(sel)] reaches(a, b, sel, kept(s, g))
{
    lem_compose(fl, g, sel); lem_idxs(fl); lem_idxs(g); lem_idxs(sel);
    let r = kept(s, g);
    assert forall|k: int| #![trigger r[k]] #![trigger idxs(sel)[k]] 0 <= k < r.len() implies *a.child_nodes@[idxs(sel)[k]] == DynNode::Element(*r[k]) && *b.child_nodes@[idxs(sel)[k]] == DynNode::Element(*final(r[k])) by {
        assert(r[k] == s[idxs(g)[k]]); assert(idxs(sel)[k] == idxs(fl)[idxs(g)[k]]);
    }
    assert forall|i: int| #![trigger b.child_nodes@[i]] 0 <= i < a.child_nodes@.len() && !sel[i] implies b.child_nodes@[i] == a.child_nodes@[i] by {
        if fl[i] { let k = choose|k: int| 0 <= k < idxs(fl).len() && #[trigger] idxs(fl)[k] == i; assert(!g[k]); assert(has_resolved(s[k])); }
    }
}
/// the first selected position, searched among the flagged ones
pub proof fn lem_first_sel(fl: Seq<bool>, sel: Seq<bool>, k: int)
    requires sel.len() == fl.len(), 0 <= k <= idxs(fl).len(), forall|i: int| #![trigger sel[i]] 0 <= i < fl.len() && sel[i] ==> fl[i],
        forall|j: int| #![trigger idxs(fl)[j]] 0 <= j < k ==> !sel[idxs(fl)[j]],
    ensures k == idxs(fl).len() ==> idxs(sel).len() == 0,
        k < idxs(fl).len() && sel[idxs(fl)[k]] ==> idxs(sel).len() > 0 && idxs(sel)[0] == idxs(fl)[k],
{
    lem_idxs(fl); lem_idxs(sel);
    if k == idxs(fl).len() { if idxs(sel).len() > 0 { let i = idxs(sel)[0]; assert(sel[i]); assert(fl[i]); let j = choose|j: int| 0 <= j < idxs(fl).len() && #[trigger] idxs(fl)[j] == i; assert(false); } }
    else if sel[idxs(fl)[k]] {
        let i = idxs(fl)[k]; let m = choose|m: int| 0 <= m < idxs(sel).len() && #[trigger] idxs(sel)[m] == i;
        let i0 = idxs(sel)[0]; assert(fl[i0]); let j = choose|j: int| 0 <= j < idxs(fl).len() && #[trigger] idxs(fl)[j] == i0;
        if m > 0 { assert(i0 < i); assert(j < k); assert(false); }
    }
}
pub broadcast proof fn lem_reach_none(a: Element, b: Element, fl: Seq<bool>, s: Seq<&mut Element>)
    requires fl == el_fl(a.child_nodes@), forall|k: int| #![trigger s[k]] 0 <= k < s.len() ==> has_resolved(s[k])
    ensures #![trigger reaches(a, b, fl, s)] reaches(a, b, fl, s) ==> b.child_nodes@ == a.child_nodes@
{
    lem_idxs(fl);
    if reaches(a, b, fl, s) { assert forall|i: int| 0 <= i < a.child_nodes@.len() implies b.child_nodes@[i] == a.child_nodes@[i] by {
        if fl[i] { let k = choose|k: int| 0 <= k < idxs(fl).len() && #[trigger] idxs(fl)[k] == i; assert(has_resolved(s[k])); } }
        assert(b.child_nodes@ =~= a.child_nodes@); }
}
pub broadcast proof fn lem_reach_one(a: Element, b: Element, fl: Seq<bool>, s: Seq<&mut Element>, k: int)
    requires fl == el_fl(a.child_nodes@), 0 <= k < s.len(), forall|j: int| #![trigger s[j]] 0 <= j < s.len() && j != k ==> has_resolved(s[j])
    ensures #![trigger reaches(a, b, fl, s), s[k]] reaches(a, b, fl, s) ==> reaches_one(a, b, idxs(fl)[k], s[k])
{
    lem_idxs(fl);
    if reaches(a, b, fl, s) { let x = idxs(fl)[k]; assert forall|i: int| 0 <= i < a.child_nodes@.len() && i != x implies b.child_nodes@[i] == a.child_nodes@[i] by {
        if fl[i] { let j = choose|j: int| 0 <= j < idxs(fl).len() && #[trigger] idxs(fl)[j] == i; assert(has_resolved(s[j])); } }
        assert(b.child_nodes@ =~= a.child_nodes@.update(x, b.child_nodes@[x])); }
}
pub broadcast proof fn lem_idxs_all(fl: Seq<bool>)
    requires forall|i: int| #![trigger fl[i]] 0 <= i < fl.len() ==> fl[i]
    ensures #![trigger idxs(fl)] idxs(fl).len() == fl.len(), forall|i: int| #![trigger idxs(fl)[i]] 0 <= i < fl.len() ==> idxs(fl)[i] == i
    decreases fl.len()
{ if fl.len() > 0 { let g = fl.drop_last(); assert forall|i: int| #![trigger g[i]] 0 <= i < g.len() implies g[i] by { assert(fl[i]); } lem_idxs_all(g); assert(fl[fl.len() - 1]); } }
pub broadcast proof fn lem_as_elems<'a, P: Fn(&&'a Element) -> bool>(s: Seq<&'a Element>, p: P, r: Seq<&'a Element>, g: Seq<bool>, v: Seq<Box<DynNode>>)
    requires s.len() == idxs(el_fl(v)).len(), forall|k: int| #![trigger s[k]] 0 <= k < s.len() ==> *v[idxs(el_fl(v))[k]] == DynNode::Element(*s[k])
    ensures #![trigger filtered(s, p, r, g), el_fl(v)] filtered(s, p, r, g) ==> filtered(refs(elems(v, el_fl(v))), p, r, g)
{ lem_idxs(el_fl(v)); assert(s =~= refs(elems(v, el_fl(v)))); }
pub broadcast proof fn lem_as_texts<'a, P: Fn(&&'a Text) -> bool>(s: Seq<&'a Text>, p: P, r: Seq<&'a Text>, g: Seq<bool>, v: Seq<Box<DynNode>>)
    requires s.len() == idxs(tx_fl(v)).len(), forall|k: int| #![trigger s[k]] 0 <= k < s.len() ==> *v[idxs(tx_fl(v))[k]] == DynNode::Text(*s[k])
    ensures #![trigger filtered(s, p, r, g), tx_fl(v)] filtered(s, p, r, g) ==> filtered(refs(texts(v, tx_fl(v))), p, r, g)
{ lem_idxs(tx_fl(v)); assert(s =~= refs(texts(v, tx_fl(v)))); }
pub broadcast proof fn lem_as_comments<'a, P: Fn(&&'a Comment) -> bool>(s: Seq<&'a Comment>, p: P, r: Seq<&'a Comment>, g: Seq<bool>, v: Seq<Box<DynNode>>)
    requires s.len() == idxs(cm_fl(v)).len(), forall|k: int| #![trigger s[k]] 0 <= k < s.len() ==> *v[idxs(cm_fl(v))[k]] == DynNode::Comment(*s[k])
    ensures #![trigger filtered(s, p, r, g), cm_fl(v)] filtered(s, p, r, g) ==> filtered(refs(comments(v, cm_fl(v))), p, r, g)
{ lem_idxs(cm_fl(v)); assert(s =~= refs(comments(v, cm_fl(v)))); }

// ---- C16: desc lists every descendant exactly once: positions in desc <-> descendant paths --------------------
/// the node at the end of a path of child indices
pub open spec fn node_at(s: Seq<Box<DynNode>>, p: Seq<int>) -> Option<Box<DynNode>> decreases p.len() {
    if p.len() == 0 || p[0] < 0 || p[0] >= s.len() { None } else if p.len() == 1 { Some(s[p[0]]) }
    else { match *s[p[0]] { DynNode::Element(e) => node_at(e.child_nodes@, p.skip(1)), _ => None } }
}
pub open spec fn pre(i: int, ps: Seq<Seq<int>>) -> Seq<Seq<int>> { Seq::new(ps.len(), |k: int| seq![i] + ps[k]) }
/// the path of each entry of desc
pub open spec fn paths(e: Element) -> Seq<Seq<int>> decreases e, 0nat { Seq::new(e.child_nodes@.len(), |i: int| seq![i]) + paths_kids(e.child_nodes@, e.child_nodes@.len()) }
pub open spec fn paths_kids(s: Seq<Box<DynNode>>, n: nat) -> Seq<Seq<int>> decreases s, n {
    if n == 0 || n > s.len() { Seq::empty() } else { paths_kids(s, (n - 1) as nat) + (match *s[n - 1] { DynNode::Element(e) => pre(n - 1, paths(e)), _ => Seq::empty() }) }
}
pub proof fn thm_c16_desc(e: Element)
    ensures paths(e).len() == desc(e).len(),
        forall|k: int| #![trigger paths(e)[k]] 0 <= k < desc(e).len() ==> node_at(e.child_nodes@, paths(e)[k]) == Some(desc(e)[k]),
        forall|j: int, k: int| #![trigger paths(e)[j], paths(e)[k]] 0 <= j < k < desc(e).len() ==> paths(e)[j] != paths(e)[k],
    decreases e, 0nat
{
    let s = e.child_nodes@; let n = s.len();
    lem_desc_kids(s, n);
    let a = Seq::new(n, |i: int| seq![i]); let b = paths_kids(s, n);
    assert forall|k: int| #![trigger paths(e)[k]] 0 <= k < desc(e).len() implies node_at(s, paths(e)[k]) == Some(desc(e)[k]) by { if k < n { assert(paths(e)[k] == seq![k]); } else { assert(paths(e)[k] == b[k - n]); } }
    assert forall|j: int, k: int| #![trigger paths(e)[j], paths(e)[k]] 0 <= j < k < desc(e).len() implies paths(e)[j] != paths(e)[k] by {
        if k < n { assert(paths(e)[j][0] == j && paths(e)[k][0] == k); } else { assert(paths(e)[k] == b[k - n]); if j < n { assert(paths(e)[j].len() == 1); } else { assert(paths(e)[j] == b[j - n]); } } }
}
pub proof fn lem_desc_kids(s: Seq<Box<DynNode>>, n: nat)
    requires n <= s.len()
    ensures paths_kids(s, n).len() == desc_kids(s, n).len(),
        forall|k: int| #![trigger paths_kids(s, n)[k]] 0 <= k < desc_kids(s, n).len() ==> node_at(s, paths_kids(s, n)[k]) == Some(desc_kids(s, n)[k]) && paths_kids(s, n)[k].len() >= 2 && 0 <= paths_kids(s, n)[k][0] < n,
        forall|j: int, k: int| #![trigger paths_kids(s, n)[j], paths_kids(s, n)[k]] 0 <= j < k < desc_kids(s, n).len() ==> paths_kids(s, n)[j] != paths_kids(s, n)[k],
    decreases s, n
{
    if n > 0 {
        let m = (n - 1) as nat; lem_desc_kids(s, m);
        let a = paths_kids(s, m); let da = desc_kids(s, m);
        match *s[n - 1] {
            DynNode::Element(e) => {
                assert(decreases_to!(s => s[n - 1])); thm_c16_desc(e);
                let b = pre(n - 1, paths(e)); let db = desc(e); let ps = paths_kids(s, n); let ds = desc_kids(s, n);
                assert(ps == a + b && ds == da + db);
                assert forall|k: int| #![trigger ps[k]] 0 <= k < ds.len() implies node_at(s, ps[k]) == Some(ds[k]) && ps[k].len() >= 2 && 0 <= ps[k][0] < n by {
                    if k < a.len() { assert(ps[k] == a[k]); } else { let x = paths(e)[k - a.len()]; assert(ps[k] == seq![n - 1] + x); assert((seq![n - 1] + x).skip(1) =~= x); assert(node_at(e.child_nodes@, x) is Some); assert(x.len() >= 1); }
                }
                assert forall|j: int, k: int| #![trigger ps[j], ps[k]] 0 <= j < k < ds.len() implies ps[j] != ps[k] by {
                    if k < a.len() { assert(ps[j] == a[j] && ps[k] == a[k]); } else {
                        let y = paths(e)[k - a.len()]; assert(ps[k] == seq![n - 1] + y); assert(ps[k][0] == n - 1);
                        if j < a.len() { assert(ps[j] == a[j]); } else { let x = paths(e)[j - a.len()]; assert(ps[j] == seq![n - 1] + x); assert((seq![n - 1] + x).skip(1) =~= x); assert((seq![n - 1] + y).skip(1) =~= y); }
                    }
                }
            }
            _ => { assert(paths_kids(s, n) =~= a); assert(desc_kids(s, n) =~= da); }
        }
    }
}
/// every descendant is listed
pub proof fn thm_c16_complete(e: Element, p: Seq<int>)
    requires node_at(e.child_nodes@, p) is Some
    ensures exists|k: int| 0 <= k < desc(e).len() && #[trigger] paths(e)[k] == p
    decreases p.len()
{
    let s = e.child_nodes@; let n = s.len(); thm_c16_desc(e); lem_desc_kids(s, n);
    if p.len() == 1 { assert(p =~= seq![p[0]]); assert(paths(e)[p[0]] == p); } else {
        let x = (*s[p[0]])->Element_0; thm_c16_complete(x, p.skip(1)); thm_c16_desc(x);
        let k = choose|k: int| 0 <= k < desc(x).len() && #[trigger] paths(x)[k] == p.skip(1);
        lem_paths_has(s, n, p[0], k);
        let j = choose|j: int| 0 <= j < paths_kids(s, n).len() && #[trigger] paths_kids(s, n)[j] == seq![p[0]] + paths(x)[k];
        assert(seq![p[0]] + p.skip(1) =~= p);
        assert(paths(e)[n + j] == p);
    }
}
pub proof fn lem_paths_has(s: Seq<Box<DynNode>>, n: nat, i: int, k: int)
    requires 0 <= i < n <= s.len(), *s[i] is Element, 0 <= k < paths((*s[i])->Element_0).len()
    ensures exists|j: int| 0 <= j < paths_kids(s, n).len() && #[trigger] paths_kids(s, n)[j] == seq![i] + paths((*s[i])->Element_0)[k]
    decreases n
{
    let a = paths_kids(s, (n - 1) as nat);
    if i == n - 1 { assert(paths_kids(s, n)[a.len() + k] == seq![i] + paths((*s[i])->Element_0)[k]); }
    else { lem_paths_has(s, (n - 1) as nat, i, k); let j = choose|j: int| 0 <= j < a.len() && #[trigger] a[j] == seq![i] + paths((*s[i])->Element_0)[k]; assert(paths_kids(s, n)[j] == a[j]); }
}
