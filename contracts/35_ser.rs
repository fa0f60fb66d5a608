// ---- C14: the serializer --------------------------------------------------------------------------------
pub proof fn lem_lex_total(a: Seq<char>, b: Seq<char>)
    ensures lex_lt(a, b) ==> !lex_lt(b, a), a != b ==> lex_lt(a, b) || lex_lt(b, a), !lex_lt(a, a)
    decreases a.len()
{
    if a.len() > 0 && b.len() > 0 && a[0] == b[0] {
        lem_lex_total(a.skip(1), b.skip(1));
        if a.skip(1) == b.skip(1) { assert(a =~= seq![a[0]] + a.skip(1)); assert(b =~= seq![b[0]] + b.skip(1)); }
    } else if a.len() > 0 && b.len() > 0 { if (a[0] as u32) == (b[0] as u32) { assert(a[0] == b[0]); } }
    else if a.len() == 0 && b.len() == 0 { assert(a =~= b); }
    if a.len() > 0 { lem_lex_irr(a); }
}
pub proof fn lem_lex_irr(a: Seq<char>) ensures !lex_lt(a, a) decreases a.len() { if a.len() > 0 { lem_lex_irr(a.skip(1)); } }
pub proof fn lem_lex_trans(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    requires lex_lt(a, b), lex_lt(b, c)
    ensures lex_lt(a, c)
    decreases a.len()
{ if a.len() > 0 && b.len() > 0 && c.len() > 0 && a[0] == b[0] && b[0] == c[0] { lem_lex_trans(a.skip(1), b.skip(1), c.skip(1)); } }
pub proof fn lem_lex_cmp(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    ensures lex_cmp(a, b) == Ordering::Greater <==> lex_cmp(b, a) == Ordering::Less, lex_cmp(a, b) == Ordering::Equal <==> a == b,
        lex_cmp(a, b) != Ordering::Greater && lex_cmp(b, c) != Ordering::Greater ==> lex_cmp(a, c) != Ordering::Greater
{ lem_lex_total(a, b); lem_lex_total(b, c); lem_lex_total(a, c); if lex_lt(a, b) && lex_lt(b, c) { lem_lex_trans(a, b, c); } }
pub proof fn lem_attr_cmp(a: KV, b: KV, c: KV)
    ensures attr_cmp(a, b) == Ordering::Greater <==> attr_cmp(b, a) == Ordering::Less, attr_cmp(a, b) == Ordering::Equal <==> a == b,
        attr_cmp(a, b) != Ordering::Greater && attr_cmp(b, c) != Ordering::Greater ==> attr_cmp(a, c) != Ordering::Greater
{
    lem_lex_cmp(a.0, b.0, c.0); lem_lex_cmp(a.1, b.1, c.1); lem_lex_cmp(b.0, a.0, c.0); lem_lex_cmp(b.0, c.0, a.0); lem_lex_cmp(a.0, c.0, b.0);
}
pub open spec fn kvr(a: (&String, &String)) -> KV { (a.0@, a.1@) }
pub open spec fn ord_g<'a>() -> spec_fn((&'a String, &'a String), (&'a String, &'a String)) -> Ordering { |a: (&'a String, &'a String), b: (&'a String, &'a String)| attr_cmp(kvr(a), kvr(b)) }
pub proof fn lem_ord_g<'a>() ensures is_order(ord_g::<'a>()) {
    assert forall|a: (&'a String, &'a String), b: (&'a String, &'a String)| #![trigger ord_g::<'a>()(a, b)] (ord_g::<'a>()(a, b) == Ordering::Greater <==> ord_g::<'a>()(b, a) == Ordering::Less) && (ord_g::<'a>()(a, b) == Ordering::Equal <==> ord_g::<'a>()(b, a) == Ordering::Equal) by { lem_attr_cmp(kvr(a), kvr(b), kvr(a)); lem_attr_cmp(kvr(b), kvr(a), kvr(a)); }
    assert forall|a: (&'a String, &'a String), b: (&'a String, &'a String), c: (&'a String, &'a String)| #![trigger ord_g::<'a>()(a, b), ord_g::<'a>()(b, c)] ord_g::<'a>()(a, b) != Ordering::Greater && ord_g::<'a>()(b, c) != Ordering::Greater implies ord_g::<'a>()(a, c) != Ordering::Greater by { lem_attr_cmp(kvr(a), kvr(b), kvr(c)); }
}
/// there is at most one sorted enumeration of a map
pub proof fn lem_sorted_unique(s: Seq<KV>, t: Seq<KV>, m: AttrV)
    requires enumerates(s, m), enumerates(t, m), attr_sorted(s), attr_sorted(t)
    ensures s == t
    decreases s.len()
{
    if s.len() == 0 {
        if t.len() > 0 { assert(m.contains_key(t[0].0)); }
        assert(s =~= t);
    } else {
        let l = s.last(); assert(s[s.len() - 1] == l); assert(m.contains_key(l.0));
        let i = choose|i: int| #![trigger t[i]] 0 <= i < t.len() && t[i].0 == l.0;
        let u = t.last(); assert(t[t.len() - 1] == u); assert(m.contains_key(u.0));
        let j = choose|j: int| #![trigger s[j]] 0 <= j < s.len() && s[j].0 == u.0;
        if i < t.len() - 1 { assert(attr_cmp(t[i], t[t.len() - 1]) != Ordering::Greater); assert(j != s.len() - 1); assert(attr_cmp(s[j], s[s.len() - 1]) != Ordering::Greater); lem_attr_cmp(l, u, l); assert(l == u); }
        assert(l == u);
        let m2 = m.remove(l.0); let s2 = s.drop_last(); let t2 = t.drop_last();
        lem_enum_drop(s, m); lem_enum_drop(t, m);
        assert forall|a: int, b: int| #![trigger s2[a], s2[b]] 0 <= a < b < s2.len() implies attr_cmp(s2[a], s2[b]) != Ordering::Greater by { assert(attr_cmp(s[a], s[b]) != Ordering::Greater); }
        assert forall|a: int, b: int| #![trigger t2[a], t2[b]] 0 <= a < b < t2.len() implies attr_cmp(t2[a], t2[b]) != Ordering::Greater by { assert(attr_cmp(t[a], t[b]) != Ordering::Greater); }
        lem_sorted_unique(s2, t2, m2);
        assert(s =~= s2.push(l)); assert(t =~= t2.push(u));
    }
}
pub proof fn lem_enum_drop(s: Seq<KV>, m: AttrV)
    requires enumerates(s, m), s.len() > 0
    ensures enumerates(s.drop_last(), m.remove(s.last().0))
{
    let s2 = s.drop_last(); let m2 = m.remove(s.last().0);
    assert forall|i: int| #![trigger s2[i]] 0 <= i < s2.len() implies m2.contains_key(s2[i].0) && m2[s2[i].0] == s2[i].1 by { assert(s2[i] == s[i]); assert(s[s.len() - 1] == s.last()); assert(s[i].0 != s.last().0); }
    assert forall|k: Seq<char>| #![trigger m2.contains_key(k)] m2.contains_key(k) implies exists|i: int| #![trigger s2[i]] 0 <= i < s2.len() && s2[i].0 == k by {
        assert(m.contains_key(k)); let i = choose|i: int| #![trigger s[i]] 0 <= i < s.len() && s[i].0 == k; assert(s2[i].0 == k);
    }
    assert forall|i: int, j: int| #![trigger s2[i], s2[j]] 0 <= i < s2.len() && 0 <= j < s2.len() && s2[i].0 == s2[j].0 implies i == j by { assert(s[i].0 == s[j].0); }
}
pub proof fn lem_enum_perm(s: Seq<KV>, t: Seq<KV>, p: Seq<int>, m: AttrV)
    requires enumerates(s, m), is_perm(p, s.len()), t.len() == s.len(), forall|i: int| #![trigger t[i]] 0 <= i < t.len() ==> t[i] == s[p[i]]
    ensures enumerates(t, m)
{
    assert forall|k: Seq<char>| #![trigger m.contains_key(k)] m.contains_key(k) implies exists|i: int| #![trigger t[i]] 0 <= i < t.len() && t[i].0 == k by {
        let j = choose|j: int| #![trigger s[j]] 0 <= j < s.len() && s[j].0 == k; assert(p.contains(j)); let i = choose|i: int| 0 <= i < p.len() && p[i] == j; assert(t[i].0 == k);
    }
    assert forall|i: int, j: int| #![trigger t[i], t[j]] 0 <= i < t.len() && 0 <= j < t.len() && t[i].0 == t[j].0 implies i == j by { assert(s[p[i]].0 == s[p[j]].0); }
}
pub proof fn lem_attr_list(t: Seq<KV>, m: AttrV)
    requires enumerates(t, m), attr_sorted(t)
    ensures attr_list(m) == t
{ lem_sorted_unique(attr_list(m), t, m); }
pub type S = Seq<char>;
/// one attribute written
pub proof fn lem_attr_step(head: S, o: S, al: Seq<KV>, n: int, o2: S)
    requires 0 <= n < al.len(), o == head + attrs_text(al, n as nat), o2 == o + seq![' '] + al[n].0 + seq!['=', '"'] + esc_attr(al[n].1) + seq!['"']
    ensures o2 == head + attrs_text(al, (n + 1) as nat)
{ assert(o2 =~= head + (attrs_text(al, n as nat) + attr_text(al[n]))); }
/// one child written
pub proof fn lem_kid_step(base: S, o: S, k: Seq<NodeV>, n: int, prefix: S, indent: S, il: bool, body: S, o2: S)
    requires 0 <= n < k.len(), o == base + ser_kids(k, n as nat, prefix, indent, il), o2 == o + body + pad(il, nl()),
        body == match k[n] { NodeV::Elem(e) => ser_elem(e, prefix, indent, il), NodeV::Text(t) => esc_text(t), x => pad(il, prefix) + ser_leaf(x) },
    ensures o2 == base + ser_kids(k, (n + 1) as nat, prefix, indent, il)
{ assert(o2 =~= base + (ser_kids(k, n as nat, prefix, indent, il) + body + pad(il, nl()))); }
pub proof fn lem_ser0(e: ElemV, prefix: S, indent: S, il: bool, h: S, o: S)
    requires e.kids.len() == 0, h == pad(il, prefix) + seq!['<'] + tag_v(e), o == h + attrs_text(attr_list(e.attrs), attr_list(e.attrs).len()) + seq!['/', '>']
    ensures o == ser_elem(e, prefix, indent, il)
{ assert(o =~= pad(il, prefix) + open_tag(e) + seq!['/', '>']); }
pub proof fn lem_ser1(e: ElemV, prefix: S, indent: S, il: bool, h: S, o: S)
    requires e.kids.len() == 1, !(e.kids[0] is Elem), h == pad(il, prefix) + seq!['<'] + tag_v(e),
        o == h + attrs_text(attr_list(e.attrs), attr_list(e.attrs).len()) + seq!['>'] + ser_leaf(e.kids[0]) + seq!['<', '/'] + tag_v(e) + seq!['>']
    ensures o == ser_elem(e, prefix, indent, il)
{ assert(o =~= pad(il, prefix) + open_tag(e) + (seq!['>'] + ser_leaf(e.kids[0]) + close_tag(e))); }
pub proof fn lem_ser2(e: ElemV, prefix: S, indent: S, il0: bool, il: bool, h: S, b: S, o: S)
    requires e.kids.len() > 1 || e.kids.len() == 1 && e.kids[0] is Elem, h == pad(il0, prefix) + seq!['<'] + tag_v(e), il == (il0 || has_text(e.kids)),
        b == h + attrs_text(attr_list(e.attrs), attr_list(e.attrs).len()) + seq!['>'] + pad(il, nl()),
        o == b + ser_kids(e.kids, e.kids.len(), prefix + indent, indent, il) + pad(il, prefix) + seq!['<', '/'] + tag_v(e) + seq!['>']
    ensures o == ser_elem(e, prefix, indent, il0)
{ assert(o =~= pad(il0, prefix) + open_tag(e) + (seq!['>'] + pad(il, nl()) + ser_kids(e.kids, e.kids.len(), prefix + indent, indent, il) + pad(il, prefix) + close_tag(e))); }
pub proof fn lem_pad(s: S, il: bool, p: S) ensures s + pad(true, p) == s, s + pad(false, p) == s + p { assert(s + pad(true, p) =~= s); }
pub proof fn lem_sorted_attrs(m: KxMap, unsorted: Seq<(&String, &String)>, sorted: Seq<(&String, &String)>)
    requires kv_refs(unsorted) =~= kv_vals(m.pairs()), enumerates(kv_vals(m.pairs()), m@),
        exists|p: Seq<int>| #[trigger] is_perm(p, unsorted.len()) && sorted.len() == unsorted.len() && forall|i: int| #![trigger sorted[i]] 0 <= i < p.len() ==> sorted[i] == unsorted[p[i]],
        forall|i: int, j: int| #![trigger sorted[i], sorted[j]] 0 <= i < j < sorted.len() ==> attr_cmp(kvr(sorted[i]), kvr(sorted[j])) != Ordering::Greater,
    ensures kv_refs(sorted) == attr_list(m@), sorted.len() == attr_list(m@).len(), forall|i: int| #![trigger sorted[i]] 0 <= i < sorted.len() ==> kvr(sorted[i]) == attr_list(m@)[i]
{
    let p = choose|p: Seq<int>| #[trigger] is_perm(p, unsorted.len()) && sorted.len() == unsorted.len() && forall|i: int| #![trigger sorted[i]] 0 <= i < p.len() ==> sorted[i] == unsorted[p[i]];
    let s = kv_vals(m.pairs()); let t = kv_refs(sorted);
    lem_enum_perm(s, t, p, m@);
    assert(attr_sorted(t)) by { assert forall|i: int, j: int| #![trigger t[i], t[j]] 0 <= i < j < t.len() implies attr_cmp(t[i], t[j]) != Ordering::Greater by { assert(kvr(sorted[i]) == t[i]); assert(kvr(sorted[j]) == t[j]); } }
    lem_attr_list(t, m@);
    assert forall|i: int| #![trigger sorted[i]] 0 <= i < sorted.len() implies kvr(sorted[i]) == attr_list(m@)[i] by { assert(t[i] == kvr(sorted[i])); }
}
pub open spec fn kid_body(k: NodeV, prefix: S, indent: S, il: bool) -> S { match k { NodeV::Elem(e) => ser_elem(e, prefix, indent, il), NodeV::Text(t) => esc_text(t), x => pad(il, prefix) + ser_leaf(x) } }
pub proof fn lem_body(o1: S, k: NodeV, prefix: S, indent: S, il: bool, o2: S)
    requires match k { NodeV::Elem(e) => o2 == o1 + ser_elem(e, prefix, indent, il), NodeV::Text(t) => o2 == o1 + esc_text(t), x => o2 == (if il { o1 } else { o1 + prefix }) + ser_leaf(x) }
    ensures o2 == o1 + kid_body(k, prefix, indent, il)
{ match k { NodeV::Elem(e) => {}, NodeV::Text(t) => {}, x => { if !il { assert(o1 + prefix + ser_leaf(x) =~= o1 + (prefix + ser_leaf(x))); } else { assert(Seq::<char>::empty() + ser_leaf(x) =~= ser_leaf(x)); } } } }
pub proof fn lem_any_text(kids: Seq<NodeV>, s: Seq<Box<DynNode>>, fl: Seq<bool>)
    requires kids == kids_v(s), fl.len() == s.len(), forall|i: int| #![trigger fl[i]] 0 <= i < fl.len() ==> fl[i] == (*s[i] is Text)
    ensures fl.contains(true) == has_text(kids)
{
    assert forall|i: int| 0 <= i < kids.len() implies (#[trigger] kids[i] is Text) == fl[i] by { assert(kids[i] == node_v(*s[i])); }
    if fl.contains(true) { let i = choose|i: int| 0 <= i < fl.len() && fl[i] == true; assert(kids[i] is Text); }
    if has_text(kids) { let i = choose|i: int| 0 <= i < kids.len() && #[trigger] kids[i] is Text; assert(fl[i]); }
}
pub broadcast proof fn lem_any_text_b(s: Seq<Box<DynNode>>, fl: Seq<bool>)
    requires fl.len() == s.len(), forall|i: int| #![trigger fl[i]] 0 <= i < fl.len() ==> fl[i] == (*s[i] is Text)
    ensures #![trigger fl.contains(true), kids_v(s)] fl.contains(true) == has_text(kids_v(s))
{ lem_any_text(kids_v(s), s, fl); }
pub proof fn lem_leaf(n: DynNode, k: NodeV, indent: S)
    requires k == node_v(n)
    ensures match n { DynNode::Text(t) => k == NodeV::Text(t.content@) && text_of(k) == t.content@ && ser_leaf(k) == esc_text(t.content@), DynNode::Element(e) => k == NodeV::Elem(elem_v(e)), DynNode::Comment(t) => k == NodeV::Comment(t.comment@), DynNode::CData(t) => k == NodeV::CData(t.cdata@) },
       !(k is Elem) ==> ser_node(k, indent) == ser_leaf(k), (n is Text) == (k is Text), (n is Element) == (k is Elem)
{}
