// ---- C08: child lists ---------------------------------------------------------------------------------
/// add one node to a merged list
pub open spec fn join1(m: Seq<NodeV>, x: NodeV) -> Seq<NodeV> {
    if m.len() > 0 && m.last() is Text && x is Text { m.drop_last().push(NodeV::Text(m.last()->Text_0 + x->Text_0)) } else { m.push(x) }
}
/// each maximal run of adjacent text nodes becomes one text node
pub open spec fn merged(k: Seq<NodeV>) -> Seq<NodeV> decreases k.len() { if k.len() == 0 { k } else { join1(merged(k.drop_last()), k.last()) } }
pub open spec fn is_blank(n: NodeV) -> bool { n is Text && blank(n->Text_0) }
pub open spec fn unblank(k: Seq<NodeV>) -> Seq<NodeV> decreases k.len() {
    if k.len() == 0 { k } else if is_blank(k.last()) { unblank(k.drop_last()) } else { unblank(k.drop_last()).push(k.last()) }
}
pub open spec fn norm(k: Seq<NodeV>) -> Seq<NodeV> { unblank(merged(k)) }
/// no two adjacent text nodes from position i on
pub open spec fn sep_from(k: Seq<NodeV>, i: int) -> bool { forall|j: int| #![trigger k[j]] i <= j && 0 <= j && j + 1 < k.len() ==> !(k[j] is Text && k[j + 1] is Text) }
pub open spec fn fuse(k: Seq<NodeV>, i: int) -> Seq<NodeV> { k.remove(i).remove(i - 1).insert(i - 1, NodeV::Text(k[i - 1]->Text_0 + k[i]->Text_0)) }
pub proof fn lem_fuse(k: Seq<NodeV>, i: int)
    requires 0 < i < k.len(), k[i] is Text, k[i - 1] is Text
    ensures merged(fuse(k, i)) == merged(k), fuse(k, i).len() == k.len() - 1, fuse(k, i)[i - 1] is Text,
        forall|j: int| 0 <= j < i - 1 ==> #[trigger] fuse(k, i)[j] == k[j],
        forall|j: int| i <= j < k.len() - 1 ==> #[trigger] fuse(k, i)[j] == k[j + 1],
    decreases k.len()
{
    let f = fuse(k, i);
    if i == k.len() - 1 {
        let a = k.take(i - 1);
        assert(k.drop_last().drop_last() =~= a); assert(k.drop_last().last() == k[i - 1]); assert(k.last() == k[i]);
        assert(f.drop_last() =~= a); assert(f.last() == NodeV::Text(k[i - 1]->Text_0 + k[i]->Text_0));
        let m = merged(a);
        let x = k[i - 1]; let y = k[i];
        let mx = join1(m, x);
        assert(merged(k.drop_last()) == mx);
        assert(mx.last() is Text);
        if m.len() > 0 && m.last() is Text {
            let z = m.last()->Text_0;
            assert((z + x->Text_0) + y->Text_0 =~= z + (x->Text_0 + y->Text_0));
            assert(mx.drop_last() =~= m.drop_last());
        } else { assert(mx.drop_last() =~= m); }
    } else {
        lem_fuse(k.drop_last(), i);
        assert(f.drop_last() =~= fuse(k.drop_last(), i));
        assert(f.last() == k.last());
    }
}
pub proof fn lem_sep_merged(k: Seq<NodeV>)
    requires sep_from(k, 0)
    ensures merged(k) == k
    decreases k.len()
{
    if k.len() > 0 {
        assert(sep_from(k.drop_last(), 0)) by { assert forall|j: int| #![trigger k.drop_last()[j]] 0 <= j && j + 1 < k.drop_last().len() implies !(k.drop_last()[j] is Text && k.drop_last()[j + 1] is Text) by { assert(k[j] == k.drop_last()[j]); } }
        lem_sep_merged(k.drop_last());
        if k.len() > 1 { assert(k.drop_last().last() == k[k.len() - 2]); }
        assert(k.drop_last().push(k.last()) =~= k);
    }
}
pub proof fn lem_unblank_remove(k: Seq<NodeV>, i: int)
    requires 0 <= i < k.len(), is_blank(k[i])
    ensures unblank(k.remove(i)) == unblank(k)
    decreases k.len()
{
    if i == k.len() - 1 { assert(k.remove(i) =~= k.drop_last()); } else {
        lem_unblank_remove(k.drop_last(), i);
        assert(k.remove(i).drop_last() =~= k.drop_last().remove(i));
        assert(k.remove(i).last() == k.last());
    }
}
pub open spec fn unblank_from(k: Seq<NodeV>, i: int) -> bool { forall|j: int| #![trigger k[j]] i <= j && 0 <= j < k.len() ==> !is_blank(k[j]) }
pub broadcast proof fn lem_unblank_id(k: Seq<NodeV>)
    requires unblank_from(k, 0)
    ensures #![trigger unblank_from(k, 0)] unblank(k) == k
    decreases k.len()
{
    if k.len() > 0 {
        assert(unblank_from(k.drop_last(), 0)) by { assert forall|j: int| #![trigger k.drop_last()[j]] 0 <= j < k.drop_last().len() implies !is_blank(k.drop_last()[j]) by { assert(k[j] == k.drop_last()[j]); } }
        assert(k.last() == k[k.len() - 1]);
        lem_unblank_id(k.drop_last());
        assert(k.drop_last().push(k.last()) =~= k);
    }
}
/// C08: what `norm` means. The merged list has no two adjacent text nodes and says the same text, the rest is kept in order
pub open spec fn non_text(k: Seq<NodeV>) -> Seq<NodeV> decreases k.len() { if k.len() == 0 { k } else if k.last() is Text { non_text(k.drop_last()) } else { non_text(k.drop_last()).push(k.last()) } }
pub proof fn thm_c08_merged(k: Seq<NodeV>)
    ensures sep_from(merged(k), 0), joined(texts_flat(merged(k))) == joined(texts_flat(k)), non_text(merged(k)) == non_text(k)
    decreases k.len()
{
    if k.len() > 0 {
        thm_c08_merged(k.drop_last());
        let m = merged(k.drop_last()); let x = k.last(); let r = merged(k);
        if m.len() > 0 && m.last() is Text && x is Text {
            assert(r.drop_last() =~= m.drop_last());
            assert forall|j: int| #![trigger r[j]] 0 <= j && j + 1 < r.len() implies !(r[j] is Text && r[j + 1] is Text) by { assert(r[j] == m[j]); if j + 1 < r.len() - 1 { assert(r[j + 1] == m[j + 1]); } }
            lem_joined_last(texts_flat(m.drop_last()), m.last()->Text_0);
            lem_joined_last(texts_flat(r.drop_last()), r.last()->Text_0);
            lem_joined_last(texts_flat(k.drop_last()), x->Text_0);
            let q = joined(texts_flat(m.drop_last()));
            assert(q + (m.last()->Text_0 + x->Text_0) =~= (q + m.last()->Text_0) + x->Text_0);
        } else {
            assert(r.drop_last() =~= m); assert(r.last() == x);
            assert forall|j: int| #![trigger r[j]] 0 <= j && j + 1 < r.len() implies !(r[j] is Text && r[j + 1] is Text) by { assert(r[j] == m[j]); if j + 1 < r.len() - 1 { assert(r[j + 1] == m[j + 1]); } else { assert(r[j] == m.last()); } }
            if x is Text { lem_joined_last(texts_flat(m), x->Text_0); lem_joined_last(texts_flat(k.drop_last()), x->Text_0); }
        }
    }
}
pub open spec fn texts_flat(k: Seq<NodeV>) -> Seq<Seq<char>> decreases k.len() { if k.len() == 0 { Seq::empty() } else if k.last() is Text { texts_flat(k.drop_last()).push(k.last()->Text_0) } else { texts_flat(k.drop_last()) } }
pub proof fn lem_joined_last(s: Seq<Seq<char>>, x: Seq<char>) ensures joined(s.push(x)) == joined(s) + x { assert(s.push(x).drop_last() =~= s); }
/// nothing blank is left and nothing else is lost
pub proof fn thm_c08_unblank(k: Seq<NodeV>)
    ensures unblank_from(unblank(k), 0), non_text(unblank(k)) == non_text(k), unblank_from(k, 0) ==> unblank(k) == k
    decreases k.len()
{
    if k.len() > 0 {
        thm_c08_unblank(k.drop_last());
        let u = unblank(k.drop_last());
        if !is_blank(k.last()) {
            assert(u.push(k.last()).drop_last() =~= u);
            assert forall|j: int| #![trigger u.push(k.last())[j]] 0 <= j < u.len() + 1 implies !is_blank(u.push(k.last())[j]) by { if j < u.len() { assert(u.push(k.last())[j] == u[j]); } }
        }
        if unblank_from(k, 0) { lem_unblank_id(k); }
    }
}
pub broadcast proof fn lem_kids_remove(k: Seq<Box<DynNode>>, i: int) requires 0 <= i < k.len() ensures #![trigger k.remove(i)] kids_v(k.remove(i)) == kids_v(k).remove(i) { assert(kids_v(k.remove(i)) =~= kids_v(k).remove(i)); }
pub broadcast proof fn lem_kids_insert(k: Seq<Box<DynNode>>, i: int, x: Box<DynNode>) requires 0 <= i <= k.len() ensures #![trigger k.insert(i, x)] kids_v(k.insert(i, x)) == kids_v(k).insert(i, node_v(*x)) { assert(kids_v(k.insert(i, x)) =~= kids_v(k).insert(i, node_v(*x))); }
pub broadcast proof fn lem_kids_push(k: Seq<Box<DynNode>>, x: Box<DynNode>) ensures #![trigger k.push(x)] kids_v(k.push(x)) == kids_v(k).push(node_v(*x)) { assert(kids_v(k.push(x)) =~= kids_v(k).push(node_v(*x))); }
pub broadcast proof fn lem_kind(n: DynNode)
    ensures #![trigger node_v(n)] (node_v(n) is Text) == (n is Text), (node_v(n) is Elem) == (n is Element), (node_v(n) is Comment) == (n is Comment), (node_v(n) is CData) == (n is CData),
        n is Text ==> node_v(n)->Text_0 == n->Text_0.content@, n is Element ==> node_v(n)->Elem_0 == elem_v(n->Element_0),
{}
pub broadcast proof fn lem_kids_empty(k: Seq<Box<DynNode>>) requires k.len() == 0 ensures #![trigger kids_v(k)] kids_v(k) == Seq::<NodeV>::empty() { assert(kids_v(k) =~= Seq::<NodeV>::empty()); }
pub broadcast proof fn lem_kids_reverse(k: Seq<Box<DynNode>>) ensures #![trigger k.reverse()] kids_v(k.reverse()) == kids_v(k).reverse() { assert(kids_v(k.reverse()) =~= kids_v(k).reverse()); }
pub broadcast proof fn lem_kids_update(k: Seq<Box<DynNode>>, i: int, x: Box<DynNode>) requires 0 <= i < k.len() ensures #![trigger k.update(i, x)] kids_v(k.update(i, x)) == kids_v(k).update(i, node_v(*x)) { assert(kids_v(k.update(i, x)) =~= kids_v(k).update(i, node_v(*x))); }
pub broadcast group group_kids { lem_kids_empty, lem_kids_reverse, lem_kids_update, lem_kids_remove, lem_kids_insert, lem_kids_push, lem_kind, lem_kids }
/// one step of the merging pass (index i goes down)
pub proof fn lem_merge_step(k: Seq<NodeV>, i: int)
    requires 0 < i < k.len(), sep_from(k, i)
    ensures k[i] is Text && k[i - 1] is Text ==> sep_from(fuse(k, i), i - 1) && merged(fuse(k, i)) == merged(k) && fuse(k, i).len() == k.len() - 1,
        !(k[i] is Text && k[i - 1] is Text) ==> sep_from(k, i - 1)
{
    if k[i] is Text && k[i - 1] is Text {
        lem_fuse(k, i);
        let f = fuse(k, i);
        assert forall|j: int| #![trigger f[j]] i - 1 <= j && 0 <= j && j + 1 < f.len() implies !(f[j] is Text && f[j + 1] is Text) by {
            if j == i - 1 { assert(f[i] == k[i + 1]); assert(!(k[i] is Text && k[i + 1] is Text)); }
            else { assert(f[j] == k[j + 1]); assert(f[j + 1] == k[j + 2]); assert(!(k[j + 1] is Text && k[j + 1 + 1] is Text)); }
        }
    }
}
pub proof fn lem_blank_step(k: Seq<NodeV>, i: int)
    requires 0 <= i < k.len(), unblank_from(k, i + 1)
    ensures is_blank(k[i]) ==> unblank_from(k.remove(i), i) && unblank(k.remove(i)) == unblank(k),
        !is_blank(k[i]) ==> unblank_from(k, i)
{
    if is_blank(k[i]) {
        lem_unblank_remove(k, i);
        assert forall|j: int| #![trigger k.remove(i)[j]] i <= j && 0 <= j < k.remove(i).len() implies !is_blank(k.remove(i)[j]) by { assert(k.remove(i)[j] == k[j + 1]); }
    }
}

// ---- C10: namespaces ------------------------------------------------------------------------------------
pub open spec fn xmlns_colon() -> Seq<char> { seq!['x', 'm', 'l', 'n', 's', ':'] }
/// prefixes declared by an attribute map
pub open spec fn is_ctx(c: AttrV, m: AttrV) -> bool {
    &&& forall|p: Seq<char>| #![trigger c.contains_key(p)] c.contains_key(p) <==> m.contains_key(xmlns_colon() + p)
    &&& forall|p: Seq<char>| #![trigger c[p]] c.contains_key(p) ==> c[p] == m[xmlns_colon() + p]
}
pub open spec fn own_ctx(m: AttrV) -> AttrV { choose|c: AttrV| is_ctx(c, m) }
pub open spec fn ctx_upto(s: Seq<KV>, n: nat) -> AttrV decreases n {
    if n == 0 || n > s.len() { Map::empty() } else if starts(s[n - 1].0, xmlns_colon()) { ctx_upto(s, (n - 1) as nat).insert(s[n - 1].0.skip(6), s[n - 1].1) } else { ctx_upto(s, (n - 1) as nat) }
}
pub proof fn lem_starts_cat(s: Seq<char>, p: Seq<char>)
    ensures starts(s, p) ==> s == p + s.skip(p.len() as int), forall|q: Seq<char>| #[trigger] (p + q) == s ==> starts(s, p) && q == s.skip(p.len() as int)
{
    if starts(s, p) { assert(s =~= s.take(p.len() as int) + s.skip(p.len() as int)); }
    assert forall|q: Seq<char>| #[trigger] (p + q) == s implies starts(s, p) && q == s.skip(p.len() as int) by { assert((p + q).take(p.len() as int) =~= p); assert((p + q).skip(p.len() as int) =~= q); }
}
pub open spec fn key_at(s: Seq<KV>, n: nat, k: Seq<char>, i: int) -> bool { 0 <= i < n && i < s.len() && s[i].0 == k }
pub proof fn lem_ctx_upto(s: Seq<KV>, m: AttrV, n: nat, p: Seq<char>)
    requires enumerates(s, m), n <= s.len()
    ensures ctx_upto(s, n).contains_key(p) <==> (exists|i: int| #[trigger] key_at(s, n, xmlns_colon() + p, i)),
        ctx_upto(s, n).contains_key(p) ==> m.contains_key(xmlns_colon() + p) && ctx_upto(s, n)[p] == m[xmlns_colon() + p]
    decreases n
{
    if n > 0 {
        let n1 = (n - 1) as nat;
        lem_ctx_upto(s, m, n1, p);
        let k = s[n - 1].0;
        lem_starts_cat(k, xmlns_colon());
        let c = xmlns_colon() + p;
        if starts(k, xmlns_colon()) && k.skip(6) == p { assert(key_at(s, n, c, n - 1)); assert(m[s[n - 1].0] == s[n - 1].1); }
        if exists|i: int| #[trigger] key_at(s, n1, c, i) { let i = choose|i: int| #[trigger] key_at(s, n1, c, i); assert(key_at(s, n, c, i)); }
        if exists|i: int| #[trigger] key_at(s, n, c, i) { let i = choose|i: int| #[trigger] key_at(s, n, c, i); if i < n - 1 { assert(key_at(s, n1, c, i)); } else { assert(k == c); } }
    }
}
pub proof fn lem_own_ctx(s: Seq<KV>, m: AttrV)
    requires enumerates(s, m)
    ensures ctx_upto(s, s.len()) == own_ctx(m)
{
    let a = ctx_upto(s, s.len());
    assert forall|p: Seq<char>| #![trigger a.contains_key(p)] (a.contains_key(p) <==> m.contains_key(xmlns_colon() + p)) && (a.contains_key(p) ==> a[p] == m[xmlns_colon() + p]) by {
        lem_ctx_upto(s, m, s.len(), p);
        let c = xmlns_colon() + p;
        if m.contains_key(c) { let i = choose|i: int| #![trigger s[i]] 0 <= i < s.len() && s[i].0 == c; assert(key_at(s, s.len(), c, i)); }
    }
    assert(is_ctx(a, m));
    let b = own_ctx(m);
    assert(is_ctx(b, m));
    assert forall|p: Seq<char>| #![trigger a.contains_key(p)] a.contains_key(p) == b.contains_key(p) && (a.contains_key(p) ==> a[p] == b[p]) by { assert(b.contains_key(p) <==> m.contains_key(xmlns_colon() + p)); }
    assert(a =~= b);
}
/// an element's own declarations win over inherited ones
pub open spec fn overlay(own: AttrV, parent: AttrV) -> AttrV { parent.union_prefer_right(own) }
pub open spec fn over_upto(own: AttrV, s: Seq<KV>, n: nat) -> AttrV decreases n {
    if n == 0 || n > s.len() { own } else { let a = over_upto(own, s, (n - 1) as nat); if a.contains_key(s[n - 1].0) { a } else { a.insert(s[n - 1].0, s[n - 1].1) } }
}
pub proof fn lem_over_upto(own: AttrV, s: Seq<KV>, m: AttrV, n: nat, p: Seq<char>)
    requires enumerates(s, m), n <= s.len()
    ensures over_upto(own, s, n).contains_key(p) <==> (own.contains_key(p) || exists|i: int| #[trigger] key_at(s, n, p, i)),
        own.contains_key(p) ==> over_upto(own, s, n)[p] == own[p],
        over_upto(own, s, n).contains_key(p) && !own.contains_key(p) ==> m.contains_key(p) && over_upto(own, s, n)[p] == m[p]
    decreases n
{
    if n > 0 {
        let n1 = (n - 1) as nat;
        lem_over_upto(own, s, m, n1, p);
        let k = s[n - 1].0;
        if k == p { assert(key_at(s, n, p, n - 1)); assert(m[s[n - 1].0] == s[n - 1].1); }
        if exists|i: int| #[trigger] key_at(s, n1, p, i) { let i = choose|i: int| #[trigger] key_at(s, n1, p, i); assert(key_at(s, n, p, i)); }
        if exists|i: int| #[trigger] key_at(s, n, p, i) { let i = choose|i: int| #[trigger] key_at(s, n, p, i); if i < n - 1 { assert(key_at(s, n1, p, i)); } }
    }
}
pub proof fn lem_overlay(own: AttrV, s: Seq<KV>, m: AttrV)
    requires enumerates(s, m)
    ensures over_upto(own, s, s.len()) == overlay(own, m)
{
    let a = over_upto(own, s, s.len()); let b = overlay(own, m);
    assert forall|p: Seq<char>| #![trigger a.contains_key(p)] a.contains_key(p) == b.contains_key(p) && (a.contains_key(p) ==> a[p] == b[p]) by {
        lem_over_upto(own, s, m, s.len(), p);
        if m.contains_key(p) { let i = choose|i: int| #![trigger s[i]] 0 <= i < s.len() && s[i].0 == p; assert(key_at(s, s.len(), p, i)); }
    }
    assert(a =~= b);
}
pub open spec fn mget(m: AttrV, k: Seq<char>) -> Option<Seq<char>> { if m.contains_key(k) { Some(m[k]) } else { None } }
/// what an element added to a parent inherits
pub open spec fn inherit(e: ElemV, dflt: Option<Seq<char>>, ctx: AttrV) -> ElemV {
    let c = overlay(e.ctx, ctx);
    ElemV { ctx: c, xmlns: match e.xmlns { Some(x) => Some(x), None => match e.prefix { None => dflt, Some(p) => mget(c, p) } }, ..e }
}
pub open spec fn default_ns(e: ElemV) -> Option<Seq<char>> { if e.prefix is None { e.xmlns } else { None } }
pub open spec fn adopt_as(dflt: Option<Seq<char>>, ctx: AttrV, n: NodeV) -> NodeV { match n { NodeV::Elem(x) => NodeV::Elem(inherit(x, dflt, ctx)), o => o } }
pub open spec fn adopt(e: ElemV, n: NodeV) -> NodeV { adopt_as(default_ns(e), e.ctx, n) }
/// the namespace an element's own attributes give it
pub open spec fn own_ns(attrs: AttrV, prefix: Option<Seq<char>>) -> Option<Seq<char>> { match prefix { None => mget(attrs, xmlns_s()), Some(p) => mget(attrs, xmlns_colon() + p) } }
pub open spec fn with_kids(e: ElemV, k: Seq<NodeV>) -> ElemV { ElemV { kids: k, ..e } }
pub open spec fn adopt_all(e: ElemV, k: Seq<NodeV>) -> Seq<NodeV> { Seq::new(k.len(), |i: int| adopt(e, k[i])) }
/// attributes from a caller's map: pairs in iteration order, a repeated name keeps the last value
pub open spec fn ins_upto<K: KxInto, W: KxInto>(p: Seq<(K, W)>, n: nat) -> AttrV decreases n { if n == 0 || n > p.len() { Map::empty() } else { ins_upto(p, (n - 1) as nat).insert(p[n - 1].0.iv(), p[n - 1].1.iv()) } }
pub open spec fn keys_ok<K: KxInto, W: KxInto>(p: Seq<(K, W)>, n: nat) -> bool { forall|i: int| #![trigger p[i]] 0 <= i < n && i < p.len() ==> xml_name(p[i].0.iv()) }
pub open spec fn ctor_attrs<K: KxInto, W: KxInto>(a: Option<KxGMap<K, W>>) -> AttrV { match a { None => Map::empty(), Some(m) => ins_upto(m.pairs(), m.pairs().len()) } }
pub open spec fn ctor_ok<K: KxInto, W: KxInto>(name: Seq<char>, a: Option<KxGMap<K, W>>) -> bool { xml_name(name) && match a { None => true, Some(m) => keys_ok(m.pairs(), m.pairs().len()) } }
pub open spec fn bare_elem(name: Seq<char>, attrs: AttrV, xmlns: Option<Seq<char>>, prefix: Option<Seq<char>>) -> ElemV {
    ElemV { name, kids: Seq::empty(), attrs, xmlns: if xmlns is Some { xmlns } else { own_ns(attrs, prefix) }, prefix, ctx: own_ctx(attrs) }
}
pub open spec fn new_elem(name: Seq<char>, text: Option<Seq<char>>, attrs: AttrV, xmlns: Option<Seq<char>>, prefix: Option<Seq<char>>, children: Option<Seq<NodeV>>) -> ElemV {
    let a = bare_elem(name, attrs, xmlns, prefix);
    let b = match text { None => a, Some(t) => with_kids(a, norm(seq![NodeV::Text(t)])) };
    match children { None => b, Some(c) => with_kids(b, norm(b.kids + adopt_all(b, c))) }
}

pub proof fn lem_ctx_empty() ensures own_ctx(Map::empty()) == Map::<Seq<char>, Seq<char>>::empty() { lem_own_ctx(Seq::empty(), Map::empty()); }
/// "xmlns:p" splits at its first ':'
pub proof fn lem_xmlns_split(s: Seq<char>)
    requires starts(s, xmlns_colon())
    ensures find_from(s, seq![':'], 0) == Some(5int)
{
    let t = s.take(6);
    assert(t[0] == s[0] && t[1] == s[1] && t[2] == s[2] && t[3] == s[3] && t[4] == s[4] && t[5] == s[5]);
    broadcast use lem_occurs1;
    lem_find_is(s, seq![':'], 0, 5);
}
/// s lists the positions of the elements of k in [from, n), ascending
pub open spec fn idx_ok(k: Seq<NodeV>, from: int, n: int, s: Seq<usize>) -> bool {
    &&& forall|q: int| #![trigger s[q]] 0 <= q < s.len() ==> from <= s[q] < n && k[s[q] as int] is Elem
    &&& forall|q: int, w: int| #![trigger s[q], s[w]] 0 <= q < w < s.len() ==> s[q] < s[w]
    &&& forall|j: int| #![trigger k[j]] from <= j < n && k[j] is Elem ==> exists|q: int| 0 <= q < s.len() && #[trigger] s[q] == j
}
pub proof fn lem_idx_push(k: Seq<NodeV>, from: int, s: Seq<usize>, x: NodeV, i: usize)
    requires idx_ok(k, from, k.len() as int, s), 0 <= from <= k.len(), i == k.len()
    ensures idx_ok(k.push(x), from, (k.len() + 1) as int, if (x is Elem) { s.push(i) } else { s })
{
    let n = k.push(x); let r = if (x is Elem) { s.push(i) } else { s };
    assert forall|q: int| #![trigger r[q]] 0 <= q < r.len() implies from <= r[q] < k.len() + 1 && n[r[q] as int] is Elem by { if q < s.len() { assert(r[q] == s[q]); assert(n[s[q] as int] == k[s[q] as int]); } }
    assert forall|q: int, w: int| #![trigger r[q], r[w]] 0 <= q < w < r.len() implies r[q] < r[w] by { assert(r[q] == s[q]); if w < s.len() { assert(r[w] == s[w]); } }
    assert forall|j: int| #![trigger n[j]] from <= j < k.len() + 1 && n[j] is Elem implies exists|q: int| 0 <= q < r.len() && #[trigger] r[q] == j by {
        if j < k.len() { assert(n[j] == k[j]); let q = choose|q: int| 0 <= q < s.len() && #[trigger] s[q] == j; assert(r[q] == j); } else { assert(r[s.len() as int] == j); }
    }
}
pub open spec fn bnd(s: Seq<usize>, p: int, n: int) -> int { if p < s.len() { s[p] as int } else { n } }
pub open spec fn adopted_to(k: Seq<NodeV>, from: int, b: int, e: ElemV, r: Seq<NodeV>) -> bool {
    r.len() == k.len() && forall|j: int| #![trigger r[j]] 0 <= j < k.len() ==> r[j] == (if from <= j < b { adopt(e, k[j]) } else { k[j] })
}
pub proof fn lem_adopt_init(k: Seq<NodeV>, from: int, s: Seq<usize>, e: ElemV)
    requires idx_ok(k, from, k.len() as int, s)
    ensures adopted_to(k, from, bnd(s, 0, k.len() as int), e, k)
{
    assert forall|j: int| #![trigger k[j]] 0 <= j < k.len() implies k[j] == (if from <= j < bnd(s, 0, k.len() as int) { adopt(e, k[j]) } else { k[j] }) by {
        if from <= j < bnd(s, 0, k.len() as int) && k[j] is Elem { let q = choose|q: int| 0 <= q < s.len() && #[trigger] s[q] == j; if q > 0 { assert(s[0] < s[q]); } }
    }
}
pub proof fn lem_adopt_step(k: Seq<NodeV>, from: int, s: Seq<usize>, p: int, e: ElemV, r: Seq<NodeV>)
    requires idx_ok(k, from, k.len() as int, s), 0 <= p < s.len(), adopted_to(k, from, s[p] as int, e, r), 0 <= from
    ensures 0 <= s[p] < r.len(), adopted_to(k, from, bnd(s, p + 1, k.len() as int), e, r.update(s[p] as int, adopt(e, r[s[p] as int])))
{
    let b = bnd(s, p + 1, k.len() as int); let r2 = r.update(s[p] as int, adopt(e, r[s[p] as int]));
    assert(from <= s[p] < k.len());
    if p + 1 < s.len() { assert(s[p] < s[p + 1]); assert(s[p + 1] < k.len()); }
    assert forall|j: int| #![trigger r2[j]] 0 <= j < k.len() implies r2[j] == (if from <= j < b { adopt(e, k[j]) } else { k[j] }) by {
        assert(r[j] == (if from <= j < s[p] { adopt(e, k[j]) } else { k[j] }));
        if s[p] < j < b && k[j] is Elem {
            let q = choose|q: int| 0 <= q < s.len() && #[trigger] s[q] == j;
            if q < p { assert(s[q] < s[p]); } else if q == p {} else if q > p + 1 { assert(s[p + 1] < s[q]); }
        }
    }
}
pub proof fn lem_adopt_done(k0: Seq<NodeV>, c: Seq<NodeV>, e: ElemV, r: Seq<NodeV>)
    requires adopted_to(k0 + c, k0.len() as int, (k0 + c).len() as int, e, r)
    ensures r == k0 + adopt_all(e, c)
{
    assert forall|j: int| 0 <= j < r.len() implies r[j] == (k0 + adopt_all(e, c))[j] by { if j >= k0.len() { assert((k0 + c)[j] == c[j - k0.len()]); } else { assert((k0 + c)[j] == k0[j]); } }
    assert(r =~= k0 + adopt_all(e, c));
}
