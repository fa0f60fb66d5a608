// ---- C09: removals -------------------------------------------------------------------------------------
pub type NF = spec_fn(Box<DynNode>) -> bool;
/// what stays of the first n children when the nodes chosen by f go
pub open spec fn keep(s: Seq<Box<DynNode>>, n: nat, f: NF) -> Seq<Box<DynNode>> decreases n {
    if n == 0 || n > s.len() { Seq::empty() } else if f(s[n - 1]) { keep(s, (n - 1) as nat, f) } else { keep(s, (n - 1) as nat, f).push(s[n - 1]) }
}
pub open spec fn chosen(s: Seq<Box<DynNode>>, n: nat, f: NF) -> nat decreases n {
    if n == 0 || n > s.len() { 0 } else { chosen(s, (n - 1) as nat, f) + if f(s[n - 1]) { 1nat } else { 0 } }
}
/// f is what the predicate answered (q) for each of the first n children
pub open spec fn agrees(s: Seq<Box<DynNode>>, n: int, f: NF, q: spec_fn(Box<DynNode>, bool) -> bool) -> bool { forall|i: int| #![trigger s[i]] 0 <= i < n ==> q(s[i], f(s[i])) }
/// the same, recursively: below the nodes that stay
pub open spec fn rkeep(s: Seq<Box<DynNode>>, n: nat, f: NF) -> Seq<NodeV> decreases s, n {
    if n == 0 || n > s.len() { Seq::empty() } else if f(s[n - 1]) { rkeep(s, (n - 1) as nat, f) } else {
        rkeep(s, (n - 1) as nat, f).push(match *s[n - 1] { DynNode::Element(e) => NodeV::Elem(with_kids(elem_v(e), rkeep(e.child_nodes@, e.child_nodes@.len(), f))), x => node_v(x) })
    }
}
pub open spec fn rchosen(s: Seq<Box<DynNode>>, n: nat, f: NF) -> nat decreases s, n {
    if n == 0 || n > s.len() { 0 } else {
        rchosen(s, (n - 1) as nat, f) + (if f(s[n - 1]) { 1nat } else { match *s[n - 1] { DynNode::Element(e) => rchosen(e.child_nodes@, e.child_nodes@.len(), f), _ => 0 } })
    }
}
pub open spec fn ragrees(s: Seq<Box<DynNode>>, n: nat, f: NF, q: spec_fn(Box<DynNode>, bool) -> bool) -> bool decreases s, n {
    n == 0 || n > s.len() || (ragrees(s, (n - 1) as nat, f, q) && q(s[n - 1], f(s[n - 1])) && (!f(s[n - 1]) ==> match *s[n - 1] { DynNode::Element(e) => ragrees(e.child_nodes@, e.child_nodes@.len(), f, q), _ => true }))
}
/// number of nodes below an element; every node is an allocation of its own, so it fits a usize
pub open spec fn size_below(s: Seq<Box<DynNode>>, n: nat) -> nat decreases s, n {
    if n == 0 || n > s.len() { 0 } else { size_below(s, (n - 1) as nat) + 1 + (match *s[n - 1] { DynNode::Element(e) => size_below(e.child_nodes@, e.child_nodes@.len()), _ => 0 }) }
}
pub broadcast axiom fn ax_tree_size(v: Vec<Box<DynNode>>) ensures #![trigger size_below(v@, v@.len())] size_below(v@, v@.len()) <= usize::MAX;
pub proof fn lem_rchosen_size(s: Seq<Box<DynNode>>, n: nat, f: NF)
    requires n <= s.len()
    ensures rchosen(s, n, f) <= size_below(s, n)
    decreases s, n
{
    if n > 0 { lem_rchosen_size(s, (n - 1) as nat, f); match *s[n - 1] { DynNode::Element(e) => { assert(decreases_to!(s => s[n - 1])); lem_rchosen_size(e.child_nodes@, e.child_nodes@.len(), f); } _ => {} } }
}
/// the part of s from b on that stays
pub open spec fn keep_from(s: Seq<Box<DynNode>>, b: int, f: NF) -> Seq<Box<DynNode>> decreases s.len() - b {
    if b < 0 || b >= s.len() { Seq::empty() } else if f(s[b]) { keep_from(s, b + 1, f) } else { seq![s[b]] + keep_from(s, b + 1, f) }
}
pub proof fn lem_keep_from(s: Seq<Box<DynNode>>, b: int, f: NF)
    requires 0 <= b <= s.len()
    ensures keep(s, s.len(), f) == keep(s, b as nat, f) + keep_from(s, b, f)
    decreases s.len() - b
{
    if b < s.len() { lem_keep_from(s, b + 1, f); assert(keep(s, b as nat, f) + keep_from(s, b, f) =~= keep(s, (b + 1) as nat, f) + keep_from(s, b + 1, f)); }
    else { assert(keep(s, b as nat, f) + keep_from(s, b, f) =~= keep(s, b as nat, f)); }
}
/// nothing chosen in lo..hi
pub proof fn lem_keep_run(s: Seq<Box<DynNode>>, lo: int, hi: int, f: NF)
    requires 0 <= lo <= hi <= s.len(), forall|i: int| #![trigger s[i]] lo <= i < hi ==> !f(s[i])
    ensures s.take(lo) + keep_from(s, lo, f) == s.take(hi) + keep_from(s, hi, f)
    decreases hi - lo
{
    if lo < hi { lem_keep_run(s, lo + 1, hi, f); assert(s.take(lo) + keep_from(s, lo, f) =~= s.take(lo + 1) + keep_from(s, lo + 1, f)); }
}
pub proof fn lem_chosen(s: Seq<Box<DynNode>>, n: nat, f: NF)
    requires n <= s.len()
    ensures keep(s, n, f).len() + chosen(s, n, f) == n
    decreases n
{ if n > 0 { lem_chosen(s, (n - 1) as nat, f); } }
/// the positions to remove, collected from the end: v lists exactly the chosen positions >= b, descending
pub open spec fn rm_ok(s: Seq<Box<DynNode>>, b: int, f: NF, v: Seq<usize>) -> bool {
    &&& forall|k: int| #![trigger v[k]] 0 <= k < v.len() ==> b <= v[k] < s.len() && f(s[v[k] as int])
    &&& forall|j: int, k: int| #![trigger v[j], v[k]] 0 <= j < k < v.len() ==> v[j] > v[k]
    &&& forall|i: int| #![trigger s[i]] b <= i < s.len() && f(s[i]) ==> exists|k: int| 0 <= k < v.len() && #[trigger] v[k] == i
}
pub proof fn lem_rm_push(s: Seq<Box<DynNode>>, b: int, f: NF, v: Seq<usize>, i: usize)
    requires rm_ok(s, b, f, v), i == b - 1, 0 <= i < s.len()
    ensures f(s[i as int]) ==> rm_ok(s, b - 1, f, v.push(i)), !f(s[i as int]) ==> rm_ok(s, b - 1, f, v)
{
    if f(s[i as int]) {
        let w = v.push(i);
        assert forall|j: int| #![trigger s[j]] b - 1 <= j < s.len() && f(s[j]) implies exists|k: int| 0 <= k < w.len() && #[trigger] w[k] == j by {
            if j == i { assert(w[v.len() as int] == j); } else { let k = choose|k: int| 0 <= k < v.len() && #[trigger] v[k] == j; assert(w[k] == j); }
        }
    }
}
/// where the removal loop stands after k removals
pub open spec fn rm_bnd(s: Seq<Box<DynNode>>, v: Seq<usize>, k: int) -> int { if k <= 0 { s.len() as int } else { v[k - 1] as int } }
pub open spec fn rm_state(s: Seq<Box<DynNode>>, f: NF, v: Seq<usize>, k: int) -> Seq<Box<DynNode>> { s.take(rm_bnd(s, v, k)) + keep_from(s, rm_bnd(s, v, k), f) }
pub proof fn lem_rm_step(s: Seq<Box<DynNode>>, f: NF, v: Seq<usize>, k: int)
    requires rm_ok(s, 0, f, v), 0 <= k < v.len()
    ensures v[k] < rm_state(s, f, v, k).len(), rm_state(s, f, v, k).remove(v[k] as int) == rm_state(s, f, v, k + 1)
{
    let i = v[k] as int; let b = rm_bnd(s, v, k);
    assert(k > 0 ==> v[k - 1] > v[k]);
    assert forall|j: int| #![trigger s[j]] i + 1 <= j < b implies !f(s[j]) by { if f(s[j]) { let m = choose|m: int| 0 <= m < v.len() && #[trigger] v[m] == j; if m < k { if m < k - 1 { assert(v[m] > v[k - 1]); } } else if m > k { assert(v[k] > v[m]); } } }
    lem_keep_run(s, i + 1, b, f);
    assert(rm_state(s, f, v, k) == s.take(i + 1) + keep_from(s, i + 1, f));
    assert((s.take(i + 1) + keep_from(s, i + 1, f)).remove(i) =~= s.take(i) + keep_from(s, i, f));
}
pub proof fn lem_rm_done(s: Seq<Box<DynNode>>, f: NF, v: Seq<usize>)
    requires rm_ok(s, 0, f, v)
    ensures rm_state(s, f, v, v.len() as int) == keep(s, s.len(), f), v.len() == chosen(s, s.len(), f)
{
    let b = rm_bnd(s, v, v.len() as int);
    assert forall|j: int| #![trigger s[j]] 0 <= j < b implies !f(s[j]) by { if f(s[j]) { let m = choose|m: int| 0 <= m < v.len() && #[trigger] v[m] == j; if m < v.len() - 1 { assert(v[m] > v[v.len() - 1]); } } }
    lem_keep_run(s, 0, b, f); lem_keep_from(s, 0, f);
    assert(s.take(0) + keep_from(s, 0, f) =~= keep_from(s, 0, f));
    assert(keep(s, 0, f) + keep_from(s, 0, f) =~= keep_from(s, 0, f));
    lem_chosen(s, s.len(), f);
    lem_rm_len(s, f, v, v.len() as int);
}
pub proof fn lem_rm_len(s: Seq<Box<DynNode>>, f: NF, v: Seq<usize>, k: int)
    requires rm_ok(s, 0, f, v), 0 <= k <= v.len()
    ensures rm_state(s, f, v, k).len() == s.len() - k
    decreases k
{ if k > 0 { lem_rm_len(s, f, v, k - 1); lem_rm_step(s, f, v, k - 1); } else { assert(rm_state(s, f, v, 0) =~= s); } }
/// a predicate that answers the same for the same node
pub open spec fn det<P: Fn(&Box<DynNode>) -> bool>(p: &P) -> bool { forall|n: &Box<DynNode>| #![trigger p.requires((n,))] p.requires((n,)) && !(p.ensures((n,), true) && p.ensures((n,), false)) }
pub open spec fn det_e<P: Fn(&Element) -> bool>(p: &P) -> bool { forall|n: &Element| #![trigger p.requires((n,))] p.requires((n,)) && !(p.ensures((n,), true) && p.ensures((n,), false)) }
pub open spec fn says<P: Fn(&Box<DynNode>) -> bool>(p: &P) -> NF { |n: Box<DynNode>| p.ensures((&n,), true) }
pub open spec fn answer<P: Fn(&Box<DynNode>) -> bool>(p: &P) -> spec_fn(Box<DynNode>, bool) -> bool { |n: Box<DynNode>, b: bool| p.ensures((&n,), b) }
pub open spec fn says_e<P: Fn(&Element) -> bool>(p: &P) -> NF { |n: Box<DynNode>| *n is Element && p.ensures((&(*n)->Element_0,), true) }
pub open spec fn answer_e<P: Fn(&Element) -> bool>(p: &P) -> spec_fn(Box<DynNode>, bool) -> bool { |n: Box<DynNode>, b: bool| if (*n is Element) { p.ensures((&(*n)->Element_0,), b) } else { !b } }
/// the same answers choose the same nodes
pub proof fn lem_keep_same(s: Seq<Box<DynNode>>, n: nat, f: NF, g: NF)
    requires n <= s.len(), forall|i: int| #![trigger s[i]] 0 <= i < n ==> f(s[i]) == g(s[i])
    ensures keep(s, n, f) == keep(s, n, g), chosen(s, n, f) == chosen(s, n, g)
    decreases n
{ if n > 0 { lem_keep_same(s, (n - 1) as nat, f, g); } }
pub proof fn lem_rkeep_same(s: Seq<Box<DynNode>>, n: nat, f: NF, q: spec_fn(Box<DynNode>, bool) -> bool, g: NF, h: spec_fn(Box<DynNode>, bool) -> bool)
    requires n <= s.len(), ragrees(s, n, f, q), forall|x: Box<DynNode>, b: bool| #[trigger] q(x, b) ==> h(x, b) && g(x) == b
    ensures rkeep(s, n, f) == rkeep(s, n, g), rchosen(s, n, f) == rchosen(s, n, g), ragrees(s, n, g, h)
    decreases s, n
{
    if n > 0 {
        lem_rkeep_same(s, (n - 1) as nat, f, q, g, h);
        assert(q(s[n - 1], f(s[n - 1])));
        match *s[n - 1] { DynNode::Element(e) => { if !f(s[n - 1]) { assert(decreases_to!(s => s[n - 1])); lem_rkeep_same(e.child_nodes@, e.child_nodes@.len(), f, q, g, h); } } _ => {} }
    }
}
pub open spec fn nf_named(n: Seq<char>) -> NF { |x: Box<DynNode>| *x is Element && (*x)->Element_0.name@ == n }
pub broadcast proof fn lem_by_name(s: Seq<Box<DynNode>>, f: NF, x: Seq<char>)
    requires forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> f(s[i]) == nf_named(x)(s[i])
    ensures #![trigger keep(s, s.len(), f), nf_named(x)] keep(s, s.len(), f) == keep(s, s.len(), nf_named(x)), chosen(s, s.len(), f) == chosen(s, s.len(), nf_named(x))
{ lem_keep_same(s, s.len(), f, nf_named(x)); }
pub proof fn lem_rm_init(s: Seq<Box<DynNode>>, f: NF) ensures rm_ok(s, s.len() as int, f, Seq::empty()) {}
// recursive removal: this level, then each surviving child element
pub open spec fn rv(x: Box<DynNode>, f: NF) -> NodeV { match *x { DynNode::Element(e) => NodeV::Elem(with_kids(elem_v(e), rkeep(e.child_nodes@, e.child_nodes@.len(), f))), y => node_v(y) } }
pub open spec fn rc(e: Element, f: NF) -> nat { rchosen(e.child_nodes@, e.child_nodes@.len(), f) }
pub open spec fn esum(t: Seq<Box<DynNode>>, n: nat, f: NF) -> nat decreases n { if n == 0 || n > t.len() { 0 } else { esum(t, (n - 1) as nat, f) + match *t[n - 1] { DynNode::Element(e) => rc(e, f), _ => 0 } } }
pub open spec fn lsum(xs: Seq<Element>, n: nat, f: NF) -> nat decreases n { if n == 0 || n > xs.len() { 0 } else { lsum(xs, (n - 1) as nat, f) + rc(xs[n - 1], f) } }
pub proof fn lem_keep_from_s(s: Seq<Box<DynNode>>, n: nat, f: NF)
    requires n <= s.len()
    ensures forall|i: int| #![trigger keep(s, n, f)[i]] 0 <= i < keep(s, n, f).len() ==> exists|j: int| #![trigger s[j]] 0 <= j < n && s[j] == keep(s, n, f)[i] && !f(s[j])
    decreases n
{
    if n > 0 {
        lem_keep_from_s(s, (n - 1) as nat, f); let k = keep(s, n, f); let k0 = keep(s, (n - 1) as nat, f);
        assert forall|i: int| #![trigger k[i]] 0 <= i < k.len() implies exists|j: int| #![trigger s[j]] 0 <= j < n && s[j] == k[i] && !f(s[j]) by {
            if i < k0.len() { assert(k[i] == k0[i]); let j = choose|j: int| #![trigger s[j]] 0 <= j < n - 1 && s[j] == k0[i] && !f(s[j]); assert(s[j] == k[i]); } else { assert(s[n - 1] == k[i]); }
        }
    }
}
pub proof fn lem_rkeep_map(s: Seq<Box<DynNode>>, n: nat, f: NF)
    requires n <= s.len()
    ensures rkeep(s, n, f).len() == keep(s, n, f).len(), forall|i: int| #![trigger rkeep(s, n, f)[i]] 0 <= i < keep(s, n, f).len() ==> rkeep(s, n, f)[i] == rv(keep(s, n, f)[i], f),
        rchosen(s, n, f) == chosen(s, n, f) + esum(keep(s, n, f), keep(s, n, f).len(), f),
    decreases n
{
    if n > 0 {
        lem_rkeep_map(s, (n - 1) as nat, f);
        let k0 = keep(s, (n - 1) as nat, f); let k = keep(s, n, f);
        if !f(s[n - 1]) { lem_esum_prefix(k0, s[n - 1], k0.len(), f); }
    }
}
pub proof fn lem_esum_prefix(t: Seq<Box<DynNode>>, x: Box<DynNode>, n: nat, f: NF)
    requires n <= t.len()
    ensures esum(t.push(x), n, f) == esum(t, n, f)
    decreases n
{ if n > 0 { lem_esum_prefix(t, x, (n - 1) as nat, f); } }
pub proof fn lem_lsum(t: Seq<Box<DynNode>>, n: nat, f: NF)
    requires n <= t.len()
    ensures lsum(elems(t, el_fl(t)), idxs(el_fl(t).take(n as int)).len(), f) == esum(t, n, f)
    decreases n
{
    let fl = el_fl(t); let f1 = fl.take(n as int);
    lem_idxs_take(fl, n as int); lem_idxs(fl);
    if n > 0 {
        lem_lsum(t, (n - 1) as nat, f);
        assert(f1.drop_last() =~= fl.take(n - 1)); assert(f1.last() == fl[n - 1]);
        if f1.last() { let k = idxs(fl.take(n - 1)).len() as int; assert(idxs(f1)[k] == n - 1); assert(idxs(fl)[k] == n - 1); }
    } else { assert(f1 =~= Seq::<bool>::empty()); }
}
pub proof fn lem_lsum_mono(xs: Seq<Element>, n: nat, m: nat, f: NF)
    requires n <= m <= xs.len()
    ensures lsum(xs, n, f) <= lsum(xs, m, f)
    decreases m
{ if n < m { lem_lsum_mono(xs, n, (m - 1) as nat, f); } }
/// the number removed never overflows
pub proof fn lem_count(v: Vec<Box<DynNode>>, t: Seq<Box<DynNode>>, f: NF, n: nat)
    requires t == keep(v@, v@.len(), f), n <= idxs(el_fl(t)).len()
    ensures chosen(v@, v@.len(), f) + lsum(elems(t, el_fl(t)), n, f) <= usize::MAX,
        chosen(v@, v@.len(), f) + lsum(elems(t, el_fl(t)), idxs(el_fl(t)).len(), f) == rchosen(v@, v@.len(), f),
{
    broadcast use ax_tree_size;
    lem_rkeep_map(v@, v@.len(), f); lem_lsum(t, t.len(), f); assert(el_fl(t).take(t.len() as int) =~= el_fl(t));
    lem_lsum_mono(elems(t, el_fl(t)), n, idxs(el_fl(t)).len(), f); lem_rchosen_size(v@, v@.len(), f);
}
pub open spec fn ra_post(a: Element, b: Element, f: NF, q: spec_fn(Box<DynNode>, bool) -> bool) -> bool {
    kids_v(b.child_nodes@) == rkeep(a.child_nodes@, a.child_nodes@.len(), f) && b == (Element { child_nodes: b.child_nodes, ..a }) && ragrees(a.child_nodes@, a.child_nodes@.len(), f, q)
}
pub proof fn lem_ragrees(s: Seq<Box<DynNode>>, n: nat, f: NF, q: spec_fn(Box<DynNode>, bool) -> bool)
    requires n <= s.len(), agrees(s, n as int, f, q), forall|i: int| #![trigger keep(s, n, f)[i]] 0 <= i < keep(s, n, f).len() && *keep(s, n, f)[i] is Element ==> ragrees((*keep(s, n, f)[i])->Element_0.child_nodes@, (*keep(s, n, f)[i])->Element_0.child_nodes@.len(), f, q)
    ensures ragrees(s, n, f, q)
    decreases n
{
    if n > 0 {
        let k0 = keep(s, (n - 1) as nat, f); let k = keep(s, n, f);
        assert forall|i: int| #![trigger k0[i]] 0 <= i < k0.len() && *k0[i] is Element implies ragrees((*k0[i])->Element_0.child_nodes@, (*k0[i])->Element_0.child_nodes@.len(), f, q) by { assert(k[i] == k0[i]); }
        lem_ragrees(s, (n - 1) as nat, f, q);
        assert(q(s[n - 1], f(s[n - 1])));
        if !f(s[n - 1]) { assert(k[k0.len() as int] == s[n - 1]); }
    }
}
pub broadcast proof fn lem_ra(a: Element, b: Element, fl: Seq<bool>, r: Seq<&mut Element>, s: Seq<Box<DynNode>>, f: NF, q: spec_fn(Box<DynNode>, bool) -> bool)
    requires fl == el_fl(a.child_nodes@), a.child_nodes@ == keep(s, s.len(), f), reaches(a, b, fl, r), forall|j: int| #![trigger r[j]] 0 <= j < r.len() ==> ra_post(*r[j], *final(r[j]), f, q)
    ensures #![trigger reaches(a, b, fl, r), agrees(s, s.len() as int, f, q)] kids_v(b.child_nodes@) == rkeep(s, s.len(), f), agrees(s, s.len() as int, f, q) ==> ragrees(s, s.len(), f, q)
{
    let t = a.child_nodes@; lem_idxs(fl); lem_rkeep_map(s, s.len(), f);
    let x = rkeep(s, s.len(), f);
    assert forall|i: int| #![trigger t[i]] 0 <= i < t.len() implies node_v(*b.child_nodes@[i]) == x[i] && (*t[i] is Element ==> ragrees((*t[i])->Element_0.child_nodes@, (*t[i])->Element_0.child_nodes@.len(), f, q)) by {
        if fl[i] { let j = choose|j: int| 0 <= j < idxs(fl).len() && #[trigger] idxs(fl)[j] == i; assert(ra_post(*r[j], *final(r[j]), f, q)); broadcast use lem_kids; assert(elem_v(*final(r[j])) == with_kids(elem_v(*r[j]), kids_v(final(r[j]).child_nodes@))); }
        else { assert(b.child_nodes@[i] == t[i]); }
        assert(x[i] == rv(t[i], f));
    }
    assert(kids_v(b.child_nodes@) =~= x);
    if agrees(s, s.len() as int, f, q) { lem_ragrees(s, s.len(), f, q); }
}
/// one level down
pub proof fn lem_below(e: Element, s: Seq<Box<DynNode>>, f: NF, k: int)
    requires s == e.child_nodes@, 0 <= k < keep(s, s.len(), f).len(), *keep(s, s.len(), f)[k] is Element
    ensures decreases_to!(e => (*keep(s, s.len(), f)[k])->Element_0)
{ lem_keep_from_s(s, s.len(), f); let t = keep(s, s.len(), f); let j = choose|j: int| #![trigger s[j]] 0 <= j < s.len() && s[j] == t[k] && !f(s[j]); assert(decreases_to!(e => e.child_nodes)); assert(decreases_to!(e.child_nodes@ => e.child_nodes@[j])); }
pub open spec fn curs(s: Seq<&mut Element>) -> Seq<Element> { Seq::new(s.len(), |j: int| *s[j]) }
pub open spec fn pens<P: Fn(&Element) -> bool>(p: &P, e: Element, b: bool) -> bool { p.ensures((&e,), b) }
