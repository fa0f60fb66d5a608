// ---- C05: reading back what was written ---------------------------------------------------------------------
pub open spec fn lt_free(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) != '<' }
pub open spec fn body(t: Seq<char>, p: PSt) -> Option<ElemV> { p_body(t, 0, p) }
pub proof fn lem_tag_at_shift(s: Seq<char>, k: int)
    requires 0 <= k <= s.len()
    ensures tag_at(s, k) == plus(tag_at(s.skip(k), 0), k), tag_end(s, k) == plus(tag_end(s.skip(k), 0), k)
{
    lem_find_skip(s, lt_s(), k, 0); lem_next(s, k); lem_next(s.skip(k), 0);
    match tag_at(s, k) { Some(a) => { assert(s.skip(k).skip(a - k) =~= s.skip(a)); } None => {} }
}
pub proof fn lem_body_shift(s: Seq<char>, k: int, p: PSt)
    requires 0 <= k <= s.len()
    ensures p_body(s, k, p) == body(s.skip(k), p)
    decreases s.len() - k
{
    hide(p_body); hide(p_item); hide(tag_end); hide(tag_at);
    let u = s.skip(k);
    lem_tag_at_shift(s, k); lem_next(s, k); lem_next(u, 0); lem_body_step(s, k, p); lem_body_step(u, 0, p);
    assert(u.skip(0) =~= u);
    if tag_end(s, k) is Some {
        let a = tag_at(s, k)->Some_0; let b = tag_end(s, k)->Some_0;
        assert(s.subrange(k, a) =~= u.subrange(0, a - k)); assert(s.subrange(a, b) =~= u.subrange(a - k, b - k));
        match p_item(p, s.subrange(k, a), s.subrange(a, b)) { Some(q) => { lem_body_shift(s, b, q); lem_body_shift(u, b - k, q); assert(u.skip(b - k) =~= s.skip(b)); } None => {} }
    }
}
pub proof fn lem_at0(w: Seq<char>, t: Seq<char>, r: Seq<char>)
    requires lt_free(w), t.len() > 0, t[0] == '<', tag_len(t + r) == Some(t.len() as int)
    ensures ({ let s = w + (t + r); tag_at(s, 0) == Some(w.len() as int) && tag_end(s, 0) == Some((w.len() + t.len()) as int) && s.subrange(0, w.len() as int) == w && s.subrange(w.len() as int, (w.len() + t.len()) as int) == t && s.skip((w.len() + t.len()) as int) == r })
{
    broadcast use lem_occurs1;
    let s = w + (t + r); let n = w.len() as int;
    assert(s[n] == t[0]); assert(forall|i: int| 0 <= i < n ==> s[i] == w[i]);
    lem_find_is(s, lt_s(), 0, n);
    assert(s.skip(n) =~= t + r); assert(s.subrange(0, n) =~= w); assert(s.subrange(n, n + t.len()) =~= t); assert(s.skip(n + t.len()) =~= r);
}
/// one tag, with the text before it
pub proof fn lem_body_tag(w: Seq<char>, t: Seq<char>, r: Seq<char>, p: PSt)
    requires lt_free(w), t.len() > 0, t[0] == '<', tag_len(t + r) == Some(t.len() as int)
    ensures body(w + (t + r), p) == (match p_item(p, w, t) { None => None::<ElemV>, Some(q) => body(r, q) })
{
    let s = w + (t + r); lem_at0(w, t, r); lem_body_step(s, 0, p); lem_next(s, 0);
    match p_item(p, w, t) { Some(q) => { lem_body_shift(s, (w.len() + t.len()) as int, q); } None => {} }
}
pub proof fn lem_body_end(w: Seq<char>, p: PSt)
    requires all_ws(w), p.st.len() == 0
    ensures body(w, p) == p.root
{
    broadcast use lem_occurs1;
    assert forall|i: int| 0 <= i implies !#[trigger] occurs(w, lt_s(), i) by { if i < w.len() { assert(is_ws(w[i])); } }
    lem_find_none(w, lt_s(), 0); lem_body_step(w, 0, p); assert(w.skip(0) =~= w);
}
pub proof fn lem_ws_lt(w: Seq<char>) requires all_ws(w) ensures lt_free(w) { assert forall|i: int| 0 <= i < w.len() implies (#[trigger] w[i]) != '<' by { assert(is_ws(w[i])); } }
// ---- what is a complete tag stays one ----
pub proof fn lem_qfind_same(s: Seq<char>, u: Seq<char>, p: Seq<char>, k: int, q: Option<char>, n: int)
    requires 0 <= k, p.len() > 0, 0 <= n <= s.len(), n <= u.len(), s.take(n) == u.take(n), match qfind(s, p, k, q) { Some(j) => j + p.len() <= n, None => false }
    ensures qfind(u, p, k, q) == qfind(s, p, k, q)
    decreases s.len() - k
{
    lem_qfind(s, p, k, q); let j = qfind(s, p, k, q)->Some_0;
    assert(s[k] == s.take(n)[k] && u[k] == u.take(n)[k]);
    if k + p.len() <= n {
        assert(s.skip(k).take(p.len() as int) =~= s.take(n).subrange(k, k + p.len())); assert(u.skip(k).take(p.len() as int) =~= u.take(n).subrange(k, k + p.len()));
    }
    if !(q is None && !is_quote(s[k]) && starts(s.skip(k), p)) { lem_qfind_same(s, u, p, k + 1, qnext(q, s[k]), n); }
}
pub proof fn lem_nclose_same(s: Seq<char>, u: Seq<char>, k: int, d: int, q: Option<char>, n: int)
    requires 0 <= k, 0 <= n <= s.len(), n <= u.len(), s.take(n) == u.take(n), match nclose(s, k, d, q) { Some(j) => j < n, None => false }
    ensures nclose(u, k, d, q) == nclose(s, k, d, q)
    decreases s.len() - k
{
    lem_nclose(s, k, d, q);
    assert(s[k] == s.take(n)[k] && u[k] == u.take(n)[k]);
    if !(q is None && s[k] == '>' && d == 0) { lem_nclose_same(s, u, k + 1, if q is None && s[k] == '<' { d + 1 } else if q is None && s[k] == '>' { d - 1 } else { d }, qnext(q, s[k]), n); }
}
pub proof fn lem_find_same(s: Seq<char>, u: Seq<char>, p: Seq<char>, k: int, n: int)
    requires 0 <= k, 0 <= n <= s.len(), n <= u.len(), s.take(n) == u.take(n), match find_from(s, p, k) { Some(j) => j + p.len() <= n, None => false }
    ensures find_from(u, p, k) == find_from(s, p, k)
{
    lem_find_from(s, p, k); let j = find_from(s, p, k)->Some_0;
    assert forall|i: int| k <= i <= j implies occurs(u, p, i) == #[trigger] occurs(s, p, i) by {
        assert(s.subrange(i, i + p.len()) =~= s.take(n).subrange(i, i + p.len())); assert(u.subrange(i, i + p.len()) =~= u.take(n).subrange(i, i + p.len()));
    }
    assert(occurs(u, p, j) == occurs(s, p, j));
    assert forall|i: int| k <= i < j implies !#[trigger] occurs(u, p, i) by { assert(occurs(u, p, i) == occurs(s, p, i)); }
    lem_find_is(u, p, k, j);
}
pub proof fn lem_starts_take(s: Seq<char>, u: Seq<char>, n: int, p: Seq<char>)
    requires p.len() <= n <= s.len(), n <= u.len(), s.take(n) == u.take(n)
    ensures starts(s, p) == starts(u, p)
{ assert(s.take(p.len() as int) =~= s.take(n).take(p.len() as int)); assert(u.take(p.len() as int) =~= u.take(n).take(p.len() as int)); }
/// declarations and doctypes
pub proof fn lem_tag_same(s: Seq<char>, n: int, r: Seq<char>)
    requires tag_len(s) == Some(n), 0 <= n <= s.len(), starts(s, xml_open()) || starts(s, dtd_open())
    ensures tag_len(s.take(n) + r) == Some(n)
{
    let u = s.take(n) + r; let h = if starts(s, xml_open()) { s.take(5) } else { s.take(9) };
    assert(u.take(n) =~= s.take(n));
    lem_first2(s); assert(h[0] == s[0] && h[1] == s[1] && h[2] == s[2]);
    assert(!starts(s, com_open())) by { if starts(s, com_open()) { assert(s.take(4)[2] == s[2] && s.take(4)[1] == s[1]); } }
    assert(!starts(s, cda_open())) by { if starts(s, cda_open()) { assert(s.take(9)[2] == s[2] && s.take(9)[1] == s[1]); } }
    lem_starts1(s, '<'); lem_tag_len(s); 
    assert(s.take(2)[0] == s[0] && s.take(2)[1] == s[1]);
    assert(u[0] == s.take(n)[0] && u[1] == s.take(n)[1]);
    if starts(s, xml_open()) {
        assert(s[1] == '?'); assert(s.take(2) =~= pi_open());
        assert(u.take(2) =~= pi_open());
        lem_first2(u);
        lem_qfind_same(s, u, seq!['?', '>'], 2, None, n);
    } else {
        assert(s[1] == '!' && s[2] == 'D'); assert(s.take(2) =~= bang()); 
        lem_nclose(s, 2, 0, None);
        lem_nclose_same(s, u, 2, 0, None, n);
        assert(n > 2); assert(u[2] == s.take(n)[2]);
        lem_first2(u); assert(u.take(2) =~= bang());
        assert(!starts(u, com_open())) by { if starts(u, com_open()) { assert(u.take(4)[2] == u[2]); } }
        assert(!starts(u, cda_open())) by { if starts(u, cda_open()) { assert(u.take(9)[2] == u[2]); } }
    }
}
/// a comment or CDATA section as written is one tag
pub proof fn lem_com_len(t: Seq<char>, r: Seq<char>)
    requires find_from(t, comment_end(), 0) is None
    ensures tag_len(comment_text(t) + r) == Some(comment_text(t).len() as int), starts(comment_text(t), com_open()), comment_text(t)[0] == '<', comment_text(t).subrange(4, comment_text(t).len() - 3) == t
{
    let c = comment_text(t); let s = c + r; let j = 4 + t.len() as int; let e = comment_end();
    assert(s.take(4) =~= com_open()); assert(c.take(4) =~= com_open()); assert(c.subrange(4, c.len() - 3) =~= t);
    lem_find_from(t, e, 0);
    assert(s.subrange(j, j + 3) =~= e);
    assert forall|i: int| 4 <= i < j implies !#[trigger] occurs(s, e, i) by {
        if occurs(s, e, i) { let m = s.subrange(i, i + 3); assert(m[2] == s[i + 2] && m[0] == s[i]); if i + 2 >= j { assert(s[i + 2] == '-'); } else { assert(t.subrange(i - 4, i - 1) =~= m); assert(occurs(t, e, i - 4)); } }
    }
    lem_find_is(s, e, 4, j);
}
pub proof fn lem_cda_len(t: Seq<char>, r: Seq<char>)
    requires find_from(t, cdata_end(), 0) is None
    ensures tag_len(cdata_text(t) + r) == Some(cdata_text(t).len() as int), starts(cdata_text(t), cda_open()), !starts(cdata_text(t), com_open()), cdata_text(t)[0] == '<', cdata_text(t).subrange(9, cdata_text(t).len() - 3) == t
{
    let c = cdata_text(t); let s = c + r; let j = 9 + t.len() as int; let e = cdata_end();
    assert(s.take(9) =~= cda_open()); assert(c.take(9) =~= cda_open()); assert(c.subrange(9, c.len() - 3) =~= t);
    assert(s[2] == '[' && c[2] == '[');
    assert(!starts(c, com_open())) by { if starts(c, com_open()) { assert(c.take(4)[2] == c[2]); } }
    assert(!starts(s, com_open())) by { if starts(s, com_open()) { assert(s.take(4)[2] == s[2]); } }
    assert(!starts(s, pi_open())) by { if starts(s, pi_open()) { assert(s.take(2)[1] == s[1]); assert(s[1] == '!'); } }
    lem_find_from(t, e, 0);
    assert(s.subrange(j, j + 3) =~= e);
    assert forall|i: int| 0 <= i < j implies !#[trigger] occurs(s, e, i) by {
        if occurs(s, e, i) { let m = s.subrange(i, i + 3); assert(m[2] == s[i + 2] && m[0] == s[i]); if i < 9 { assert(s[i] == cda_open()[i]); } else if i + 2 >= j { assert(s[i + 2] == ']'); } else { assert(t.subrange(i - 9, i - 6) =~= m); assert(occurs(t, e, i - 9)); } }
    }
    lem_find_is(s, e, 0, j);
}
// ---- every map has a sorted enumeration ----
pub open spec fn ins(s: Seq<KV>, x: KV) -> Seq<KV> decreases s.len() {
    if s.len() == 0 || attr_cmp(s.last(), x) != Ordering::Greater { s.push(x) } else { ins(s.drop_last(), x).push(s.last()) }
}
pub open spec fn below(s: Seq<KV>, b: KV) -> bool { forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> attr_cmp(s[i], b) != Ordering::Greater }
pub proof fn lem_ins(s: Seq<KV>, x: KV, m: AttrV)
    requires enumerates(s, m), attr_sorted(s), !m.contains_key(x.0)
    ensures enumerates(ins(s, x), m.insert(x.0, x.1)), attr_sorted(ins(s, x)), forall|b: KV| below(s, b) && attr_cmp(x, b) != Ordering::Greater ==> #[trigger] below(ins(s, x), b)
    decreases s.len()
{
    let t = ins(s, x); let m2 = m.insert(x.0, x.1);
    if s.len() == 0 || attr_cmp(s.last(), x) != Ordering::Greater {
        lem_enum_push(s, m, x);
        assert forall|i: int, j: int| #![trigger t[i], t[j]] 0 <= i < j < t.len() implies attr_cmp(t[i], t[j]) != Ordering::Greater by {
            if j < s.len() { assert(attr_cmp(s[i], s[j]) != Ordering::Greater); } else { let l = s.last(); assert(s[s.len() - 1] == l); if i < s.len() - 1 { assert(attr_cmp(s[i], s[s.len() - 1]) != Ordering::Greater); } lem_attr_cmp(s[i], l, x); lem_attr_cmp(l, l, l); }
        }
        assert forall|b: KV| below(s, b) && attr_cmp(x, b) != Ordering::Greater implies #[trigger] below(t, b) by { assert forall|i: int| #![trigger t[i]] 0 <= i < t.len() implies attr_cmp(t[i], b) != Ordering::Greater by { if i < s.len() { assert(t[i] == s[i]); } } }
    } else {
        let l = s.last(); let s2 = s.drop_last(); let n = m.remove(l.0);
        assert(s[s.len() - 1] == l); assert(m.contains_key(l.0) && m[l.0] == l.1);
        lem_enum_drop(s, m);
        assert(attr_sorted(s2)) by { assert forall|i: int, j: int| #![trigger s2[i], s2[j]] 0 <= i < j < s2.len() implies attr_cmp(s2[i], s2[j]) != Ordering::Greater by { assert(attr_cmp(s[i], s[j]) != Ordering::Greater); } }
        lem_ins(s2, x, n);
        let t2 = ins(s2, x); let n2 = n.insert(x.0, x.1);
        lem_enum_push(t2, n2, l);
        assert(n2.insert(l.0, l.1) =~= m2);
        assert(below(s2, l)) by { assert forall|i: int| #![trigger s2[i]] 0 <= i < s2.len() implies attr_cmp(s2[i], l) != Ordering::Greater by { assert(attr_cmp(s[i], s[s.len() - 1]) != Ordering::Greater); } }
        lem_attr_cmp(l, x, l);
        assert(below(t2, l));
        assert forall|i: int, j: int| #![trigger t[i], t[j]] 0 <= i < j < t.len() implies attr_cmp(t[i], t[j]) != Ordering::Greater by { if j < t2.len() { assert(attr_cmp(t2[i], t2[j]) != Ordering::Greater); } else { assert(t[i] == t2[i]); } }
        assert forall|b: KV| below(s, b) && attr_cmp(x, b) != Ordering::Greater implies #[trigger] below(t, b) by {
            assert(below(s2, b)) by { assert forall|i: int| #![trigger s2[i]] 0 <= i < s2.len() implies attr_cmp(s2[i], b) != Ordering::Greater by { assert(s2[i] == s[i]); } }
            assert(below(t2, b));
            assert forall|i: int| #![trigger t[i]] 0 <= i < t.len() implies attr_cmp(t[i], b) != Ordering::Greater by { if i < t2.len() { assert(t[i] == t2[i]); } else { assert(t[i] == s[s.len() - 1]); } }
        }
    }
}
pub proof fn lem_enum_push(s: Seq<KV>, m: AttrV, x: KV)
    requires enumerates(s, m), !m.contains_key(x.0)
    ensures enumerates(s.push(x), m.insert(x.0, x.1))
{
    let t = s.push(x); let m2 = m.insert(x.0, x.1);
    assert forall|i: int| #![trigger t[i]] 0 <= i < t.len() implies m2.contains_key(t[i].0) && m2[t[i].0] == t[i].1 by { if i < s.len() { assert(t[i] == s[i]); assert(m.contains_key(s[i].0)); } }
    assert forall|k: Seq<char>| #![trigger m2.contains_key(k)] m2.contains_key(k) implies exists|i: int| #![trigger t[i]] 0 <= i < t.len() && t[i].0 == k by {
        if k == x.0 { assert(t[s.len() as int].0 == k); } else { assert(m.contains_key(k)); let i = choose|i: int| #![trigger s[i]] 0 <= i < s.len() && s[i].0 == k; assert(t[i].0 == k); }
    }
    assert forall|i: int, j: int| #![trigger t[i], t[j]] 0 <= i < t.len() && 0 <= j < t.len() && t[i].0 == t[j].0 implies i == j by {
        if i < s.len() { assert(t[i] == s[i]); assert(m.contains_key(s[i].0)); } if j < s.len() { assert(t[j] == s[j]); assert(m.contains_key(s[j].0)); }
        if i < s.len() && j < s.len() { assert(s[i].0 == s[j].0); }
    }
}
pub proof fn lem_has_list(m: AttrV) -> (s: Seq<KV>)
    ensures enumerates(s, m), attr_sorted(s)
    decreases m.dom().len()
{
    if m.dom().len() == 0 {
        let s = Seq::<KV>::empty();
        assert forall|k: Seq<char>| #![trigger m.contains_key(k)] m.contains_key(k) implies exists|i: int| #![trigger s[i]] 0 <= i < s.len() && s[i].0 == k by { assert(m.dom().contains(k)); vstd::set_lib::lemma_set_empty_equivalency_len(m.dom()); }
        s
    } else {
        let k = m.dom().choose(); 
        assert(m.dom().contains(k)) by { vstd::set_lib::lemma_set_empty_equivalency_len(m.dom()); if !m.dom().contains(k) { assert(m.dom() =~= Set::empty()); } }
        let n = m.remove(k);
        assert(n.dom() =~= m.dom().remove(k));
        let s = lem_has_list(n);
        lem_ins(s, (k, m[k]), n);
        assert(n.insert(k, m[k]) =~= m);
        ins(s, (k, m[k]))
    }
}
pub proof fn lem_list(m: AttrV) ensures enumerates(attr_list(m), m), attr_sorted(attr_list(m)) { let s = lem_has_list(m); }
// ---- the written tag of an element ----
pub open spec fn raw_keys(m: AttrV) -> bool { forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> raw_name(k) }
pub open spec fn ax_of(kv: KV) -> AttrX { AttrX { ws: seq![' '], name: kv.0, w1: Seq::empty(), w2: Seq::empty(), q: '"', val: esc_attr(kv.1) } }
pub open spec fn axs(l: Seq<KV>) -> Seq<AttrX> { Seq::new(l.len(), |i: int| ax_of(l[i])) }
pub proof fn lem_xtext_push(a: Seq<AttrX>, x: AttrX)
    ensures attrs_x_text(a.push(x)) == attrs_x_text(a) + attr_x_text(x)
    decreases a.len()
{
    let b = a.push(x); assert(b.skip(1).len() == a.len());
    if a.len() == 0 { assert(b.skip(1) =~= a); assert(attrs_x_text(b) == attr_x_text(x) + attrs_x_text(a)); assert(attrs_x_text(a) =~= Seq::<char>::empty()); assert(attrs_x_text(b) =~= attrs_x_text(a) + attr_x_text(x)); }
    else { assert(b.skip(1) =~= a.skip(1).push(x)); lem_xtext_push(a.skip(1), x); assert(b[0] == a[0]); assert(attrs_x_text(b) =~= attrs_x_text(a) + attr_x_text(x)); }
}
pub proof fn lem_axs(l: Seq<KV>, n: nat)
    requires n <= l.len()
    ensures attrs_x_text(axs(l.take(n as int))) == attrs_text(l, n)
    decreases n
{
    let a = axs(l.take(n as int));
    if n == 0 { assert(a.len() == 0); assert(attrs_x_text(a) =~= attrs_text(l, n)); } else {
        let b = axs(l.take(n - 1)); let x = ax_of(l[n - 1]); lem_axs(l, (n - 1) as nat);
        assert(a =~= b.push(x)); lem_xtext_push(b, x);
        assert(attr_x_text(x) =~= attr_text(l[n - 1]));
    }
}
pub proof fn lem_axs_ok(l: Seq<KV>, m: AttrV)
    requires enumerates(l, m), raw_keys(m)
    ensures attrs_x_ok(axs(l))
{
    let a = axs(l);
    assert forall|i: int| 0 <= i < a.len() implies attr_x_ok(#[trigger] a[i]) by {
        assert(m.contains_key(l[i].0)); thm_c02_attr(l[i].1); let v = esc_attr(l[i].1);
        assert forall|j: int| 0 <= j < v.len() implies #[trigger] v[j] != '"' by {}
        assert(is_ws(' '));
    }
}
pub proof fn lem_xmap_pre(a: Seq<AttrX>, b: Seq<AttrX>, n: int)
    requires 0 <= n <= a.len(), n <= b.len(), forall|i: int| 0 <= i < n ==> a[i] == b[i]
    ensures xmap(a, n) == xmap(b, n)
    decreases n
{ if n > 0 { lem_xmap_pre(a, b, n - 1); } }
pub proof fn lem_xmap(l: Seq<KV>, m: AttrV)
    requires enumerates(l, m)
    ensures xmap(axs(l), l.len() as int) == m
    decreases l.len()
{
    let a = axs(l);
    if l.len() == 0 { assert forall|k: Seq<char>| !#[trigger] m.contains_key(k) by { if m.contains_key(k) { let i = choose|i: int| #![trigger l[i]] 0 <= i < l.len() && l[i].0 == k; } } assert(m =~= Map::empty()); }
    else {
        let n = l.len() as int; let l2 = l.drop_last(); let x = l.last(); assert(l[n - 1] == x); assert(m.contains_key(x.0) && m[x.0] == x.1);
        lem_enum_drop(l, m); lem_xmap(l2, m.remove(x.0)); lem_xmap_pre(a, axs(l2), n - 1);
        thm_c01_attr(x.1);
        assert(m.remove(x.0).insert(x.0, x.1) =~= m);
    }
}
pub open spec fn otag(e: ElemV, slash: bool) -> TagX { TagX { close: false, name: tag_v(e), attrs: axs(attr_list(e.attrs)), ws: Seq::empty(), slash } }
pub open spec fn ctag(e: ElemV) -> TagX { TagX { close: true, name: tag_v(e), attrs: Seq::empty(), ws: Seq::empty(), slash: false } }
pub open spec fn end_of(slash: bool) -> Seq<char> { if slash { seq!['/', '>'] } else { seq!['>'] } }
/// the start tag as written: a tag that says exactly what the element has
pub proof fn lem_otag(e: ElemV, slash: bool, p: Option<ElemV>, r: Seq<char>)
    requires raw_name(tag_v(e)), raw_keys(e.attrs)
    ensures ({ let t = open_tag(e) + end_of(slash); tag_x_text(otag(e, slash)) == t && tag_ok(t) && elem_of(strip(t), p) == elem_in(tag_v(e), e.attrs, p) && tag_len(t + r) == Some(t.len() as int)
        && t[0] == '<' && !starts(t, bang()) && !starts(t, com_open()) && !starts(t, cda_open()) && !starts(t, end_open()) && !starts(t, xml_open()) && !starts(t, dtd_open()) && ends(t, empty_end()) == slash })
{
    let x = otag(e, slash); let l = attr_list(e.attrs); let t = open_tag(e) + end_of(slash);
    lem_list(e.attrs); lem_axs_ok(l, e.attrs); lem_axs(l, l.len()); assert(l.take(l.len() as int) =~= l);
    assert(tag_x_ok(x));
    assert(tag_x_text(x) =~= t);
    thm_c07_tag(x, p); lem_xmap(l, e.attrs); lem_scan_x(x, r); lem_tag_head(x); lem_first2(t);
}
pub proof fn lem_ctag(e: ElemV, r: Seq<char>)
    requires raw_name(tag_v(e))
    ensures ({ let t = close_tag(e); tag_ok(t) && strip(t) == tag_v(e) && tag_len(t + r) == Some(t.len() as int) && t[0] == '<' && !starts(t, bang()) && !starts(t, com_open()) && !starts(t, cda_open()) && starts(t, end_open()) && !ends(t, empty_end()) })
{
    let x = ctag(e); let t = close_tag(e);
    assert(attrs_x_text(x.attrs) =~= Seq::<char>::empty());
    assert(tag_x_ok(x)); assert(tag_x_text(x) =~= t);
    lem_strip_x(x); assert(tag_core(x) =~= tag_v(e)); lem_scan_x(x, r); lem_tag_head(x); lem_first2(t);
}
// ---- trees that come from parsing ----
pub open spec fn bare(e: ElemV) -> ElemV { with_kids(e, Seq::empty()) }
pub open spec fn two_texts(k: Seq<NodeV>, n: nat) -> bool { n >= 2 && k[n - 1] is Text && k[n - 2] is Text }
/// e is what its own start tag means inside p (p without children), and so is everything below
pub open spec fn wfe(e: ElemV, p: Option<ElemV>) -> bool decreases e, 0nat {
    raw_name(tag_v(e)) && raw_keys(e.attrs) && elem_in(tag_v(e), e.attrs, p) == Some(bare(e)) && wfk(e.kids, e.kids.len(), bare(e))
}
pub open spec fn wfk(k: Seq<NodeV>, n: nat, p: ElemV) -> bool decreases k, n {
    n == 0 || n > k.len() || (wfk(k, (n - 1) as nat, p) && !two_texts(k, n) && match k[n - 1] {
        NodeV::Elem(c) => wfe(c, Some(p)),
        NodeV::Text(t) => t.len() > 0 && !all_ws(t),
        NodeV::Comment(t) => find_from(t, comment_end(), 0) is None,
        NodeV::CData(t) => find_from(t, cdata_end(), 0) is None,
    })
}
pub proof fn lem_wfk_at(k: Seq<NodeV>, n: nat, p: ElemV, i: nat)
    requires wfk(k, n, p), i <= n <= k.len()
    ensures wfk(k, i, p)
    decreases n - i
{ if i < n { lem_wfk_at(k, (n - 1) as nat, p, i); } }
pub proof fn lem_wfk_pre(k: Seq<NodeV>, j: Seq<NodeV>, n: nat, p: ElemV)
    requires n <= k.len(), n <= j.len(), forall|i: int| 0 <= i < n ==> k[i] == j[i]
    ensures wfk(k, n, p) == wfk(j, n, p)
    decreases n
{ if n > 0 { lem_wfk_pre(k, j, (n - 1) as nat, p); assert(k[n - 1] == j[n - 1]); if n >= 2 { assert(k[n - 2] == j[n - 2]); } } }
// ---- text as written ----
pub proof fn lem_esc_text(t: Seq<char>)
    ensures lt_free(esc_text(t)), t.len() > 0 && !all_ws(t) ==> !all_ws(esc_text(t)), unesc(esc_text(t)) == t
{
    thm_c02_text(t); thm_c01_text(t); lem_esc_ws(t);
}
pub proof fn lem_esc_ws(t: Seq<char>)
    ensures all_ws(esc_text(t)) ==> all_ws(t)
    decreases t.len()
{
    if t.len() > 0 {
        let r = t.skip(1); let w = esc_t(t[0]); let e = esc_text(t);
        lem_esc_ws(r); assert(e == w + esc_text(r));
        if all_ws(e) {
            assert(e[0] == w[0]); assert(is_ws(e[0]));
            assert(is_ws(t[0]));
            assert forall|i: int| 0 <= i < esc_text(r).len() implies is_ws(#[trigger] esc_text(r)[i]) by { assert(e[w.len() + i] == esc_text(r)[i]); }
            assert forall|i: int| 0 <= i < t.len() implies is_ws(#[trigger] t[i]) by { if i > 0 { assert(t[i] == r[i - 1]); } }
        }
    }
}
pub proof fn lem_ws_cat(a: Seq<char>, b: Seq<char>)
    ensures all_ws(a) && all_ws(b) ==> all_ws(a + b), lt_free(a) && lt_free(b) ==> lt_free(a + b)
{
    let c = a + b;
    if all_ws(a) && all_ws(b) { assert forall|i: int| 0 <= i < c.len() implies is_ws(#[trigger] c[i]) by { if i < a.len() { assert(c[i] == a[i]); } else { assert(c[i] == b[i - a.len()]); } } }
    if lt_free(a) && lt_free(b) { assert forall|i: int| 0 <= i < c.len() implies (#[trigger] c[i]) != '<' by { if i < a.len() { assert(c[i] == a[i]); } else { assert(c[i] == b[i - a.len()]); } } }
}
// ---- the state while the written children of an element are read ----
pub open spec fn st_of(st: Seq<ElemV>, root: Option<ElemV>, e: ElemV, m: int) -> PSt { PSt { st: st.push(with_kids(e, e.kids.take(m))), root } }
/// children already in the tree when n have been written: a text is added when the tag after it is read
pub open spec fn done(k: Seq<NodeV>, n: nat) -> int { if 0 < n <= k.len() && k[n - 1] is Text { n - 1 } else { n as int } }
pub open spec fn pend(k: Seq<NodeV>, n: nat, il: bool) -> Seq<char> { if 0 < n <= k.len() && k[n - 1] is Text { esc_text(k[n - 1]->Text_0) } else { pad(il, nl()) } }
pub proof fn lem_add_kid(st: Seq<ElemV>, root: Option<ElemV>, e: ElemV, m: nat)
    requires m < e.kids.len(), !is_blank(e.kids[m as int])
    ensures p_add(st_of(st, root, e, m as int), e.kids[m as int]) == Some(st_of(st, root, e, m as int + 1))
{
    let p = st_of(st, root, e, m as int);
    assert(p.st.drop_last() =~= st); assert(e.kids.take(m as int).push(e.kids[m as int]) =~= e.kids.take(m as int + 1));
    assert(st_add(p.st, e.kids[m as int]) =~= st.push(with_kids(e, e.kids.take(m as int + 1))));
}
/// the text in front of a tag
pub proof fn lem_pend(st: Seq<ElemV>, root: Option<ElemV>, e: ElemV, n: nat, il: bool, w: Seq<char>)
    requires n <= e.kids.len(), wfk(e.kids, n, bare(e)), all_ws(w), has_text(e.kids) ==> il, il ==> w.len() == 0
    ensures p_text(st_of(st, root, e, done(e.kids, n)), pend(e.kids, n, il) + w) == Some(st_of(st, root, e, n as int)), lt_free(pend(e.kids, n, il) + w)
{
    let k = e.kids; let t = pend(k, n, il);
    if 0 < n && k[n - 1] is Text {
        let x = k[n - 1]->Text_0; lem_esc_text(x);
        assert(t + w =~= t);
        assert(!is_blank(k[n - 1])) by { if blank(x) { assert(all_ws(x)); } }
        lem_add_kid(st, root, e, (n - 1) as nat);
    } else { assert(is_ws('\n')); assert(all_ws(t)); lem_ws_cat(t, w); lem_ws_lt(t + w); }
}
pub open spec fn tail_of(c: ElemV, prefix: Seq<char>, indent: Seq<char>, inline: bool) -> Seq<char> {
    if c.kids.len() == 1 && !(c.kids[0] is Elem) { ser_leaf(c.kids[0]) + close_tag(c) }
    else { let il = inline || has_text(c.kids); pad(il, nl()) + (ser_kids(c.kids, c.kids.len(), prefix + indent, indent, il) + (pad(il, prefix) + close_tag(c))) }
}
pub proof fn lem_ser_split(c: ElemV, prefix: Seq<char>, indent: Seq<char>, inline: bool)
    ensures c.kids.len() == 0 ==> ser_elem(c, prefix, indent, inline) == pad(inline, prefix) + (open_tag(c) + end_of(true)),
        c.kids.len() > 0 ==> ser_elem(c, prefix, indent, inline) == pad(inline, prefix) + ((open_tag(c) + end_of(false)) + tail_of(c, prefix, indent, inline)),
{
    hide(open_tag); hide(close_tag); hide(ser_leaf);
    let s = ser_elem(c, prefix, indent, inline);
    if c.kids.len() == 0 { assert(s =~= pad(inline, prefix) + (open_tag(c) + end_of(true))); }
    else if c.kids.len() == 1 && !(c.kids[0] is Elem) { assert(s =~= pad(inline, prefix) + ((open_tag(c) + end_of(false)) + (ser_leaf(c.kids[0]) + close_tag(c)))); }
    else { let il = inline || has_text(c.kids); assert(s =~= pad(inline, prefix) + ((open_tag(c) + end_of(false)) + (pad(il, nl()) + (ser_kids(c.kids, c.kids.len(), prefix + indent, indent, il) + (pad(il, prefix) + close_tag(c)))))); }
}
/// the end tag
pub proof fn lem_close(st: Seq<ElemV>, root: Option<ElemV>, c: ElemV, n: nat, il: bool, w: Seq<char>, r: Seq<char>)
    requires n == c.kids.len(), n > 0, raw_name(tag_v(c)), wfk(c.kids, n, bare(c)), all_ws(w), has_text(c.kids) ==> il, il ==> w.len() == 0
    ensures body((pend(c.kids, n, il) + w) + (close_tag(c) + r), st_of(st, root, c, done(c.kids, n))) == body(r, p_pop(PSt { st: st.push(c), root }))
{
    hide(p_body); hide(tag_len); hide(tag_ok); hide(strip); hide(starts); hide(ends);
    let p = st_of(st, root, c, done(c.kids, n)); let q = st_of(st, root, c, n as int); let t = close_tag(c);
    lem_ctag(c, r); lem_pend(st, root, c, n, il, w);
    lem_body_tag(pend(c.kids, n, il) + w, t, r, p);
    assert(c.kids.take(n as int) =~= c.kids); assert(with_kids(c, c.kids) == c);
    lem_tag_cases(q, t);
    assert(q.st.last() == c);
}
pub open spec fn par(st: Seq<ElemV>) -> Option<ElemV> { if st.len() == 0 { None } else { Some(bare(st.last())) } }
/// a start tag: the element is opened
pub proof fn lem_open(p: PSt, c: ElemV, w: Seq<char>, r: Seq<char>, slash: bool)
    requires p.st.len() > 0, lt_free(w), p_text(p, w) is Some, ({ let q = p_text(p, w)->Some_0; q.st.len() > 0 && wfe(c, Some(bare(q.st.last()))) }), slash ==> c.kids.len() == 0
    ensures ({ let q = p_text(p, w)->Some_0; body(w + ((open_tag(c) + end_of(slash)) + r), p) == body(r, if slash { PSt { st: st_add(q.st, NodeV::Elem(c)), root: q.root } } else { st_of(q.st, q.root, c, 0) }) })
{
    hide(p_body); hide(tag_len); hide(tag_ok); hide(strip); hide(starts); hide(ends); hide(wfk); hide(elem_of);
    let q = p_text(p, w)->Some_0; let t = open_tag(c) + end_of(slash); let l = q.st.last();
    lem_otag(c, slash, Some(l), r);
    lem_body_tag(w, t, r, p);
    assert(elem_in(tag_v(c), c.attrs, Some(l)) == elem_in(tag_v(c), c.attrs, Some(bare(l))));
    lem_tag_cases(q, t);
    assert(c.kids.take(0) =~= Seq::<NodeV>::empty());
    if slash { assert(c.kids =~= Seq::<NodeV>::empty()); assert(bare(c) == c); }
}
pub proof fn lem_leaf_tag(n: NodeV, r: Seq<char>)
    requires match n { NodeV::Comment(t) => find_from(t, comment_end(), 0) is None, NodeV::CData(t) => find_from(t, cdata_end(), 0) is None, _ => false }
    ensures ({ let t = ser_leaf(n); t.len() > 0 && t[0] == '<' && tag_len(t + r) == Some(t.len() as int) && forall|p: PSt| #[trigger] p_tag(p, t) == p_add(p, n) })
{
    let t = ser_leaf(n);
    match n { NodeV::Comment(x) => { lem_com_len(x, r); } NodeV::CData(x) => { lem_cda_len(x, r); } _ => {} }
    assert forall|p: PSt| #[trigger] p_tag(p, t) == p_add(p, n) by { lem_tag_cases(p, t); }
}
pub proof fn lem_ser_kid(k: Seq<NodeV>, n: nat, prefix: Seq<char>, indent: Seq<char>, il: bool)
    requires 0 < n <= k.len()
    ensures ser_kids(k, n, prefix, indent, il) == ser_kids(k, (n - 1) as nat, prefix, indent, il) + kid_body(k[n - 1], prefix, indent, il) + pad(il, nl())
{
    match k[n - 1] { NodeV::Elem(e) => {} NodeV::Text(t) => {} x => {} }
}
pub proof fn lem_wfe(c: ElemV, p: Option<ElemV>) requires wfe(c, p) ensures raw_name(tag_v(c)), raw_keys(c.attrs), elem_in(tag_v(c), c.attrs, p) == Some(bare(c)), wfk(c.kids, c.kids.len(), bare(c)) {}
pub proof fn lem_elem_rt(c: ElemV, p: PSt, w: Seq<char>, prefix: Seq<char>, indent: Seq<char>, inline: bool, r: Seq<char>)
    requires p.st.len() > 0, all_ws(prefix), all_ws(indent), lt_free(w + pad(inline, prefix)), p_text(p, w + pad(inline, prefix)) is Some,
        ({ let q = p_text(p, w + pad(inline, prefix))->Some_0; q.st.len() > 0 && wfe(c, Some(bare(q.st.last()))) })
    ensures ({ let q = p_text(p, w + pad(inline, prefix))->Some_0; body(w + (ser_elem(c, prefix, indent, inline) + r), p) == body(r, PSt { st: st_add(q.st, NodeV::Elem(c)), root: q.root }) })
    decreases c, c.kids.len() + 2
{
    hide(p_text); hide(p_body); hide(ser_elem); hide(wfk); hide(elem_in); hide(st_add);
    let v = w + pad(inline, prefix); let q = p_text(p, v)->Some_0; let s = w + (ser_elem(c, prefix, indent, inline) + r);
    lem_ser_split(c, prefix, indent, inline); lem_wfe(c, Some(bare(q.st.last())));
    if c.kids.len() == 0 {
        assert(s =~= v + ((open_tag(c) + end_of(true)) + r));
        lem_open(p, c, v, r, true);
    } else {
        let u = tail_of(c, prefix, indent, inline) + r;
        assert(s =~= v + ((open_tag(c) + end_of(false)) + u));
        lem_open(p, c, v, u, false);
        lem_content(c, q.st, q.root, prefix, indent, inline, r);
        assert(q.st.push(c).drop_last() =~= q.st);
    }
}
pub proof fn lem_content(c: ElemV, st: Seq<ElemV>, root: Option<ElemV>, prefix: Seq<char>, indent: Seq<char>, inline: bool, r: Seq<char>)
    requires c.kids.len() > 0, raw_name(tag_v(c)), wfk(c.kids, c.kids.len(), bare(c)), all_ws(prefix), all_ws(indent)
    ensures body(tail_of(c, prefix, indent, inline) + r, st_of(st, root, c, 0)) == body(r, p_pop(PSt { st: st.push(c), root }))
    decreases c, c.kids.len() + 1
{
    hide(p_body); hide(p_text); hide(p_tag); hide(ser_kids); hide(wfk); hide(raw_name); hide(p_pop);
    let k = c.kids; let n = k.len(); let em = Seq::<char>::empty();
    if n == 1 && !(k[0] is Elem) {
        let il = true;
        let s = tail_of(c, prefix, indent, inline) + r;
        if k[0] is Text {
            let t = k[0]->Text_0;
            assert(s =~= (pend(k, n, il) + em) + (close_tag(c) + r));
        } else {
            lem_leaf_at(k, n, bare(c), 0);
            let u = close_tag(c) + r; let l = ser_leaf(k[0]); let p = st_of(st, root, c, 0);
            lem_leaf_tag(k[0], u);
            assert(s =~= em + (l + u));
            lem_body_tag(em, l, u, p);
            lem_text_cases(p, em); lem_add_kid(st, root, c, 0);
            assert(p_tag(p, l) == p_add(p, k[0]));
            assert((pend(k, n, il) + em) + u =~= u);
        }
        lem_close(st, root, c, n, il, em, r);
    } else {
        let il = inline || has_text(k); let w = pad(il, prefix); let u = w + (close_tag(c) + r); let pr = prefix + indent;
        lem_ws_cat(prefix, indent);
        assert(tail_of(c, prefix, indent, inline) + r =~= (pad(il, nl()) + ser_kids(k, n, pr, indent, il)) + u);
        lem_kids_rt(c, n, st, root, pr, indent, il, u);
        assert(pend(k, n, il) + u =~= (pend(k, n, il) + w) + (close_tag(c) + r));
        lem_close(st, root, c, n, il, w, r);
    }
}
pub proof fn lem_leaf_at(k: Seq<NodeV>, n: nat, p: ElemV, i: int)
    requires wfk(k, n, p), 0 <= i < n <= k.len()
    ensures match k[i] { NodeV::Elem(c) => wfe(c, Some(p)), NodeV::Text(t) => t.len() > 0 && !all_ws(t), NodeV::Comment(t) => find_from(t, comment_end(), 0) is None, NodeV::CData(t) => find_from(t, cdata_end(), 0) is None },
        i > 0 ==> !(k[i] is Text && k[i - 1] is Text)
    decreases n
{ if i < n - 1 { lem_leaf_at(k, (n - 1) as nat, p, i); } }
pub proof fn lem_kids_rt(c: ElemV, n: nat, st: Seq<ElemV>, root: Option<ElemV>, prefix: Seq<char>, indent: Seq<char>, il: bool, r: Seq<char>)
    requires n <= c.kids.len(), wfk(c.kids, c.kids.len(), bare(c)), all_ws(prefix), all_ws(indent), has_text(c.kids) ==> il
    ensures body((pad(il, nl()) + ser_kids(c.kids, n, prefix, indent, il)) + r, st_of(st, root, c, 0)) == body(pend(c.kids, n, il) + r, st_of(st, root, c, done(c.kids, n)))
    decreases c, n
{
    hide(p_body); hide(p_text); hide(p_tag); hide(wfk); hide(raw_name); hide(p_pop); hide(ser_elem); hide(wfe);
    let k = c.kids; let nw = pad(il, nl()); let s = (nw + ser_kids(k, n, prefix, indent, il)) + r;
    if n == 0 { assert(s =~= nw + r); } else {
        let m = (n - 1) as nat; let x = k[n - 1]; let kb = kid_body(x, prefix, indent, il); let u = nw + r;
        let s0 = nw + ser_kids(k, m, prefix, indent, il); let w = pend(k, m, il); let p = st_of(st, root, c, done(k, m)); let q = st_of(st, root, c, m as int);
        lem_ser_kid(k, n, prefix, indent, il);
        assert(s =~= s0 + (kb + u));
        lem_kids_rt(c, m, st, root, prefix, indent, il, kb + u);
        lem_leaf_at(k, k.len(), bare(c), m as int); lem_wfk_at(k, k.len(), bare(c), m);
        let pp = pad(il, prefix); let em = Seq::<char>::empty();
        match x {
            NodeV::Text(t) => {
                assert(has_text(k)); assert(il);
                assert(w =~= em);
                assert(w + (kb + u) =~= pend(k, n, il) + r);
                assert(done(k, m) == m);
            }
            NodeV::Elem(e) => {
                lem_pend(st, root, c, m, il, pp);
                assert(decreases_to!(c => c.kids)); assert(decreases_to!(c.kids => c.kids[n - 1]));  assert(decreases_to!(c => e));
                assert(bare(q.st.last()) == bare(c));
                lem_elem_rt(e, p, w, prefix, indent, il, u);
                lem_add_kid(st, root, c, m);
                assert(st_add(q.st, NodeV::Elem(e)) == st_of(st, root, c, n as int).st);
                assert(pend(k, n, il) + r =~= u);
            }
            _ => {
                let l = ser_leaf(x); lem_leaf_tag(x, u); lem_pend(st, root, c, m, il, pp);
                assert(w + (kb + u) =~= (w + pp) + (l + u));
                lem_body_tag(w + pp, l, u, p);
                assert(p_tag(q, l) == p_add(q, x));
                lem_add_kid(st, root, c, m);
                assert(pend(k, n, il) + r =~= u);
            }
        }
    }
}
// ---- everything parse_spec builds is of that kind ----
pub open spec fn fok(st: Seq<ElemV>, i: int) -> bool { wfe(st[i], if i == 0 { None } else { Some(bare(st[i - 1])) }) }
pub open spec fn p_ok(p: PSt, tx: bool) -> bool {
    (forall|i: int| 0 <= i < p.st.len() ==> #[trigger] fok(p.st, i)) && (p.st.len() == 0 ==> p.root is Some && wfe(p.root->Some_0, None))
    && (p.st.len() > 0 && p.st.last().kids.len() > 0 && !tx ==> !(p.st.last().kids.last() is Text))
}
pub open spec fn nok(n: NodeV, p: ElemV) -> bool { match n { NodeV::Elem(c) => wfe(c, Some(p)), NodeV::Text(t) => t.len() > 0, NodeV::Comment(t) => find_from(t, comment_end(), 0) is None, NodeV::CData(t) => find_from(t, cdata_end(), 0) is None } }
pub proof fn lem_wfe_push(e: ElemV, p: Option<ElemV>, n: NodeV)
    requires wfe(e, p), nok(n, bare(e)), !is_blank(n), !(e.kids.len() > 0 && e.kids.last() is Text && n is Text)
    ensures wfe(with_kids(e, e.kids.push(n)), p)
{
    let k = e.kids.push(n); let f = with_kids(e, k); lem_wfe(e, p);
    lem_wfk_pre(e.kids, k, e.kids.len(), bare(e));
    assert(bare(f) == bare(e)); assert(tag_v(f) == tag_v(e));
    if n is Text { assert(!all_ws(n->Text_0)) by { if all_ws(n->Text_0) { assert(blank(n->Text_0)); } } }
    assert(wfk(k, k.len(), bare(e)));
}
pub proof fn lem_fok_same(a: Seq<ElemV>, b: Seq<ElemV>, i: int)
    requires 0 <= i < a.len(), i < b.len(), a[i] == b[i], i > 0 ==> bare(a[i - 1]) == bare(b[i - 1]), fok(a, i)
    ensures fok(b, i)
{}
pub proof fn lem_add_ok(p: PSt, n: NodeV)
    requires p_ok(p, false), p.st.len() > 0, nok(n, bare(p.st.last()))
    ensures p_ok(PSt { st: st_add(p.st, n), root: p.root }, n is Text), st_add(p.st, n).len() == p.st.len()
{
    hide(wfe);
    let l = p.st.last(); let m = p.st.len() - 1; let s2 = st_add(p.st, n); let e = add_kid(l, n);
    assert(fok(p.st, m)); assert(p.st[m] == l);
    if is_blank(n) { assert(s2 =~= p.st); } else {
        let pp = if m == 0 { None::<ElemV> } else { Some(bare(p.st[m - 1])) };
        assert(wfe(l, pp)); lem_wfe_push(l, pp, n);
        assert(s2[m] == e);
        assert forall|i: int| 0 <= i < s2.len() implies #[trigger] fok(s2, i) by {
            if i < m { assert(fok(p.st, i)); assert(s2[i] == p.st[i]); if i > 0 { assert(s2[i - 1] == p.st[i - 1]); } lem_fok_same(p.st, s2, i); } else { if m > 0 { assert(s2[m - 1] == p.st[m - 1]); } }
        }
        assert(e.kids.last() == n);
    }
}
pub proof fn lem_add_ok_tx(p: PSt, n: NodeV)
    requires p_ok(p, true), p.st.len() > 0, nok(n, bare(p.st.last())), !(n is Text)
    ensures p_ok(PSt { st: st_add(p.st, n), root: p.root }, false)
{
    hide(wfe);
    let l = p.st.last(); let m = p.st.len() - 1; let s2 = st_add(p.st, n); let e = add_kid(l, n);
    assert(fok(p.st, m)); assert(p.st[m] == l);
    let pp = if m == 0 { None::<ElemV> } else { Some(bare(p.st[m - 1])) };
    assert(wfe(l, pp)); lem_wfe_push(l, pp, n);
    assert(s2[m] == e);
    assert forall|i: int| 0 <= i < s2.len() implies #[trigger] fok(s2, i) by {
        if i < m { assert(fok(p.st, i)); assert(s2[i] == p.st[i]); if i > 0 { assert(s2[i - 1] == p.st[i - 1]); } lem_fok_same(p.st, s2, i); } else { if m > 0 { assert(s2[m - 1] == p.st[m - 1]); } }
    }
    assert(e.kids.last() == n);
}
pub proof fn lem_unesc_len(s: Seq<char>) requires s.len() > 0 ensures unesc(s).len() > 0
{ lem_unesc1(s); }
pub proof fn lem_unesc1(s: Seq<char>) requires s.len() > 0 ensures unesc(s).len() > 0 {
    if s[0] == '&' { match semi(s) { Some(j) => match decode(s.subrange(1, j)) { Some(c) => { if 0 < j < s.len() { assert(unesc(s) == seq![c] + unesc(s.skip(j + 1))); } } None => { assert(unesc(s) == seq!['&'] + unesc(s.skip(1))); } }, None => { assert(unesc(s) == seq!['&'] + unesc(s.skip(1))); } } }
    else { assert(unesc(s) == seq![s[0]] + unesc(s.skip(1))); }
}
/// the element a tag starts
pub proof fn lem_elem_wf(t: Seq<char>, p: Option<ElemV>)
    requires tag_ok(t), elem_of(strip(t), p) is Some
    ensures ({ let e = elem_of(strip(t), p)->Some_0; e.kids.len() == 0 && wfe(e, match p { Some(x) => Some(bare(x)), None => None }) })
{
    broadcast use lem_occurs1;
    let x = choose|x: TagX| #[trigger] tag_x_ok(x) && tag_x_text(x) == t;
    let m = xmap(x.attrs, x.attrs.len() as int); let e = elem_of(strip(t), p)->Some_0; let b = match p { Some(y) => Some(bare(y)), None => None };
    thm_c07_tag(x, p); lem_elem_of(strip(t), p);
    assert(elem_in(x.name, m, p) == Some(e));
    assert(elem_in(x.name, m, b) == Some(e));
    lem_xmap_raw(x.attrs, x.attrs.len() as int);
    assert(e.attrs == m);
    lem_find_from(x.name, colon_s(), 0);
    assert(tag_v(e) =~= x.name);
    assert(e.kids =~= Seq::<NodeV>::empty()); assert(bare(e) == e);
}
pub proof fn lem_xmap_raw(a: Seq<AttrX>, n: int)
    requires attrs_x_ok(a), 0 <= n <= a.len()
    ensures raw_keys(xmap(a, n))
    decreases n
{ if n > 0 { lem_xmap_raw(a, n - 1); assert(attr_x_ok(a[n - 1])); } }
pub open spec fn clean_tag(t: Seq<char>) -> bool {
    (starts(t, com_open()) ==> find_from(t.subrange(4, t.len() - 3), comment_end(), 0) is None) && (starts(t, cda_open()) ==> find_from(t.subrange(9, t.len() - 3), cdata_end(), 0) is None)
}
pub proof fn lem_text_ok(p: PSt, w: Seq<char>)
    requires p_ok(p, false), p_text(p, w) is Some
    ensures p_ok(p_text(p, w)->Some_0, true), p_text(p, w)->Some_0.st.len() == p.st.len(), p_text(p, w)->Some_0.root == p.root
{
    hide(wfe); hide(unesc);
    lem_text_cases(p, w);
    if !all_ws(w) { if w.len() == 0 { assert(all_ws(w)); } lem_unesc_len(w); lem_add_ok(p, NodeV::Text(unesc(w))); }
}
pub proof fn lem_tag_ok(p: PSt, t: Seq<char>)
    requires p_ok(p, true), clean_tag(t), p_tag(p, t) is Some
    ensures p_ok(p_tag(p, t)->Some_0, false)
{
    hide(wfe); hide(elem_of); hide(tag_ok); hide(strip); hide(starts); hide(ends);
    lem_tag_cases(p, t);
    let q = p_tag(p, t)->Some_0;
    if starts(t, com_open()) { assert(p.st.len() > 0); lem_add_ok_tx(p, NodeV::Comment(t.subrange(4, t.len() - 3))); }
    else if starts(t, cda_open()) { assert(p.st.len() > 0); lem_add_ok_tx(p, NodeV::CData(t.subrange(9, t.len() - 3))); }
    else if starts(t, end_open()) {
        let l = p.st.last(); let m = p.st.len() - 1; let d = p.st.drop_last(); assert(p.st[m] == l); assert(fok(p.st, m));
        if m == 0 { assert(q.st.len() == 0); assert(p.st[0] == l); } else {
            let f = d[m - 1]; assert(d.last() == f && f == p.st[m - 1]);
            assert(wfe(l, Some(bare(f))));
            let p0 = PSt { st: d, root: p.root };
            assert forall|i: int| 0 <= i < d.len() implies #[trigger] fok(d, i) by { assert(fok(p.st, i)); assert(d[i] == p.st[i]); if i > 0 { assert(d[i - 1] == p.st[i - 1]); } lem_fok_same(p.st, d, i); }
            assert(p_ok(p0, true));
            lem_add_ok_tx(p0, NodeV::Elem(l));
        }
    } else {
        lem_elem_wf(t, Some(p.st.last()));
        let e = elem_of(strip(t), Some(p.st.last()))->Some_0;
        if ends(t, empty_end()) { lem_add_ok_tx(p, NodeV::Elem(e)); } else {
            let s2 = p.st.push(e);
            assert forall|i: int| 0 <= i < s2.len() implies #[trigger] fok(s2, i) by { if i < p.st.len() { assert(fok(p.st, i)); assert(s2[i] == p.st[i]); if i > 0 { assert(s2[i - 1] == p.st[i - 1]); } lem_fok_same(p.st, s2, i); } else { assert(s2[i - 1] == p.st.last()); } }
        }
    }
}
pub proof fn lem_body_ok(s: Seq<char>, k: int, p: PSt)
    requires 0 <= k <= s.len(), p_ok(p, false), p_body(s, k, p) is Some
    ensures wfe(p_body(s, k, p)->Some_0, None)
    decreases s.len() - k
{
    hide(wfe); hide(p_tag); hide(p_text); hide(p_body); hide(tag_at); hide(tag_end);
    lem_body_step(s, k, p); lem_next(s, k);
    if tag_end(s, k) is Some {
        let a = tag_at(s, k)->Some_0; let b = tag_end(s, k)->Some_0; let w = s.subrange(k, a); let t = s.subrange(a, b);
        lem_the_tag(s, k); lem_text_ok(p, w); 
        let q = p_text(p, w)->Some_0;
        lem_tag_ok(q, t);
        lem_body_ok(s, b, p_item(p, w, t)->Some_0);
    }
}
// ---- declaration and doctypes ----
pub open spec fn decl_tag(t: Seq<char>) -> bool { starts(t, xml_open()) && tag_len(t) == Some(t.len() as int) && decl_ok(t) && trim(t) == t && t.len() > 0 && t[0] == '<' }
pub open spec fn dtd_tag(t: Seq<char>) -> bool { starts(t, dtd_open()) && tag_len(t) == Some(t.len() as int) && dtd_ok(t) && trim(t) == t && t.len() > 0 && t[0] == '<' }
pub open spec fn dtags(ts: Seq<Seq<char>>) -> bool { forall|i: int| 0 <= i < ts.len() ==> dtd_tag(#[trigger] ts[i]) }
pub open spec fn wf_doc(d: DocV) -> bool { (d.decl is Some ==> decl_tag(d.decl->Some_0)) && dtags(d.dtds) && wfe(d.root, None) }
pub proof fn lem_trim_id(t: Seq<char>) requires t.len() > 0, !is_ws(t[0]), !is_ws(t.last()) ensures trim(t) == t {}
/// the tag found at k, when it is a declaration or a doctype
pub proof fn lem_pro_tag(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(), tag_end(s, k) is Some, ({ let t = s.subrange(tag_at(s, k)->Some_0, tag_end(s, k)->Some_0); starts(t, xml_open()) || starts(t, dtd_open()) })
    ensures ({ let t = s.subrange(tag_at(s, k)->Some_0, tag_end(s, k)->Some_0); tag_len(t) == Some(t.len() as int) && trim(t) == t && t.len() > 0 && t[0] == '<' })
{
    let a = tag_at(s, k)->Some_0; let b = tag_end(s, k)->Some_0; let t = s.subrange(a, b); let u = s.skip(a); let n = b - a;
    lem_next(s, k); lem_the_tag(s, k);
    assert(u.take(n) =~= t); assert(t.take(n) =~= u.take(n));
    let m = if starts(t, xml_open()) { xml_open() } else { dtd_open() };
    lem_starts_take(t, u, n, m);
    lem_first2(t); lem_first2(u);
    lem_tag_same(u, n, Seq::empty()); assert(u.take(n) + Seq::<char>::empty() =~= t);
    lem_qfind(u, seq!['?', '>'], 2, None); lem_nclose(u, 2, 0, None);
    assert(!starts(u, com_open())) by { if starts(u, com_open()) { assert(u.take(4)[1] == u[1] && u.take(4)[2] == u[2]); assert(t.take(9)[2] == t[2] && t[2] == u[2]); } }
    assert(!starts(u, cda_open())) by { if starts(u, cda_open()) { assert(u.take(9)[1] == u[1] && u.take(9)[2] == u[2]); assert(t.take(9)[2] == t[2] && t[2] == u[2]); } }
    assert(t.last() == u[n - 1]);
    assert(u.take(2) =~= seq![u[0], u[1]]);
    assert(starts(u, m));
    assert(t.last() == '>') by {
        if starts(u, pi_open()) { let j = qfind(u, seq!['?', '>'], 2, None)->Some_0; assert(u.skip(j).take(2)[1] == u[j + 1]); }
        else { assert(u[1] == '!'); assert(u.take(2) =~= bang()); }
    }
    lem_trim_id(t);
}
pub proof fn lem_prolog_ok(s: Seq<char>, k: int, first: bool, d: Option<Seq<char>>, ts: Seq<Seq<char>>)
    requires 0 <= k <= s.len(), d is Some ==> decl_tag(d->Some_0), dtags(ts), p_prolog(s, k, first, d, ts) is Some
    ensures wf_doc(p_prolog(s, k, first, d, ts)->Some_0)
    decreases s.len() - k
{
    hide(wfe); hide(p_prolog); hide(p_body); hide(tag_at); hide(tag_end); hide(tag_len); hide(starts); hide(decl_ok); hide(dtd_ok); hide(trim); hide(tag_ok); hide(elem_of); hide(strip); hide(ends);
    lem_prolog_step(s, k, first, d, ts); lem_next(s, k);
    let a = tag_at(s, k)->Some_0; let b = tag_end(s, k)->Some_0; let t = s.subrange(a, b);
    if starts(t, xml_open()) { lem_pro_tag(s, k); lem_prolog_ok(s, b, false, Some(trim(t)), ts); }
    else if starts(t, com_open()) { lem_prolog_ok(s, b, false, d, ts); }
    else if starts(t, dtd_open()) {
        lem_pro_tag(s, k); let t2 = ts.push(trim(t));
        assert(dtags(t2)) by { assert forall|i: int| 0 <= i < t2.len() implies dtd_tag(#[trigger] t2[i]) by { if i < ts.len() { assert(t2[i] == ts[i]); } } }
        lem_prolog_ok(s, b, false, d, t2);
    }
    else if starts(t, bang()) { lem_prolog_ok(s, b, false, d, ts); }
    else {
        lem_root_cases(t); lem_elem_wf(t, None);
        let p = p_root(t)->Some_0; let e = elem_of(strip(t), None)->Some_0;
        assert(p_ok(p, false)) by { assert forall|i: int| 0 <= i < p.st.len() implies #[trigger] fok(p.st, i) by { assert(p.st[0] == e); } }
        lem_body_ok(s, b, p);
    }
}
// ---- writing ----
pub open spec fn dlines(ts: Seq<Seq<char>>, n: nat) -> Seq<char> decreases n { if n == 0 || n > ts.len() { Seq::empty() } else { dlines(ts, (n - 1) as nat) + ts[n - 1] + nl() } }
pub open spec fn dline(d: Option<Seq<char>>) -> Seq<char> { match d { Some(x) => x + nl(), None => Seq::empty() } }
/// C15: the text of a document with this content
pub open spec fn doc_ser(d: DocV, indent: Seq<char>) -> Seq<char> { dline(d.decl) + dlines(d.dtds, d.dtds.len()) + ser_elem(d.root, Seq::empty(), eff_indent(indent), false) + nl() }
pub proof fn lem_dlines(s: Seq<DTD>, n: nat)
    requires n <= s.len()
    ensures dtds_text(s, n) == dlines(ddtds_v(s), n)
    decreases n
{ if n > 0 { lem_dlines(s, (n - 1) as nat); } }
/// what Document::to_string_with_indent writes depends on the content only
pub proof fn lem_doc_ser(d: Document, indent: Seq<char>)
    ensures doc_text(d, indent) == doc_ser(doc_v(d), indent)
{ lem_dlines(d.dtds@, d.dtds@.len()); }
// ---- reading the prolog back ----
pub open spec fn prol(t: Seq<char>, f: bool, d: Option<Seq<char>>, ts: Seq<Seq<char>>) -> Option<DocV> { p_prolog(t, 0, f, d, ts) }
pub proof fn lem_prol_shift(s: Seq<char>, k: int, f: bool, d: Option<Seq<char>>, ts: Seq<Seq<char>>)
    requires 0 <= k <= s.len()
    ensures p_prolog(s, k, f, d, ts) == prol(s.skip(k), f, d, ts)
    decreases s.len() - k
{
    hide(p_prolog); hide(p_body); hide(tag_end); hide(tag_at); hide(starts); hide(decl_ok); hide(dtd_ok); hide(trim); hide(tag_ok); hide(p_root);
    let u = s.skip(k);
    lem_tag_at_shift(s, k); lem_next(s, k); lem_next(u, 0); lem_prolog_step(s, k, f, d, ts); lem_prolog_step(u, 0, f, d, ts);
    assert(u.skip(0) =~= u);
    if tag_end(s, k) is Some {
        let a = tag_at(s, k)->Some_0; let b = tag_end(s, k)->Some_0; let t = s.subrange(a, b); let t2 = ts.push(trim(t));
        assert(s.subrange(k, a) =~= u.subrange(0, a - k)); assert(t =~= u.subrange(a - k, b - k)); assert(u.skip(b - k) =~= s.skip(b));
        lem_prol_shift(s, b, false, Some(trim(t)), ts); lem_prol_shift(u, b - k, false, Some(trim(t)), ts);
        lem_prol_shift(s, b, false, d, ts); lem_prol_shift(u, b - k, false, d, ts);
        lem_prol_shift(s, b, false, d, t2); lem_prol_shift(u, b - k, false, d, t2);
        match p_root(t) { Some(p) => { lem_body_shift(s, b, p); lem_body_shift(u, b - k, p); } None => {} }
    }
}
pub proof fn lem_prol_tag(w: Seq<char>, t: Seq<char>, r: Seq<char>, f: bool, d: Option<Seq<char>>, ts: Seq<Seq<char>>)
    requires all_ws(w), t.len() > 0, t[0] == '<', tag_len(t + r) == Some(t.len() as int)
    ensures prol(w + (t + r), f, d, ts) == (
        if starts(t, xml_open()) { if !f || !decl_ok(t) { None::<DocV> } else { prol(r, false, Some(trim(t)), ts) } }
        else if starts(t, com_open()) { prol(r, false, d, ts) }
        else if starts(t, dtd_open()) { if !dtd_ok(t) { None::<DocV> } else { prol(r, false, d, ts.push(trim(t))) } }
        else if starts(t, bang()) { prol(r, false, d, ts) }
        else if starts(t, end_open()) || !tag_ok(t) { None::<DocV> }
        else { match p_root(t) { None => None::<DocV>, Some(p) => match body(r, p) { None => None::<DocV>, Some(e) => Some(DocV { decl: d, dtds: ts, root: e }) } } })
{
    hide(p_prolog); hide(p_body); hide(tag_end); hide(tag_at); hide(starts); hide(decl_ok); hide(dtd_ok); hide(trim); hide(tag_ok); hide(p_root);
    let s = w + (t + r); let b = (w.len() + t.len()) as int;
    lem_ws_lt(w); lem_at0(w, t, r); lem_prolog_step(s, 0, f, d, ts); lem_next(s, 0);
    lem_prol_shift(s, b, false, Some(trim(t)), ts); lem_prol_shift(s, b, false, d, ts); lem_prol_shift(s, b, false, d, ts.push(trim(t)));
    match p_root(t) { Some(p) => { lem_body_shift(s, b, p); } None => {} }
}
pub proof fn lem_whole(t: Seq<char>, r: Seq<char>)
    requires decl_tag(t) || dtd_tag(t)
    ensures tag_len(t + r) == Some(t.len() as int), decl_tag(t) ==> starts(t, xml_open()), dtd_tag(t) ==> starts(t, dtd_open()) && !starts(t, xml_open()) && !starts(t, com_open())
{
    lem_tag_same(t, t.len() as int, r); assert(t.take(t.len() as int) =~= t);
    if dtd_tag(t) { lem_first2(t); assert(!starts(t, com_open())) by { if starts(t, com_open()) { assert(t.take(4)[2] == t[2]); assert(t.take(9)[2] == t[2]); } } }
}
pub proof fn lem_dtds_rt(ts: Seq<Seq<char>>, n: nat, w: Seq<char>, r: Seq<char>, f: bool, d: Option<Seq<char>>)
    requires dtags(ts), n <= ts.len(), all_ws(w)
    ensures prol(w + (dlines(ts, n) + r), f, d, Seq::empty()) == prol((if n == 0 { w } else { nl() }) + r, f && n == 0, d, ts.take(n as int))
    decreases n
{
    hide(p_prolog); hide(tag_len); hide(trim); hide(dtd_ok); hide(starts);
    if n == 0 { assert(ts.take(0) =~= Seq::<Seq<char>>::empty()); assert(w + (dlines(ts, n) + r) =~= w + r); } else {
        let m = (n - 1) as nat; let t = ts[n - 1]; let u = nl() + r; let v = if m == 0 { w } else { nl() };
        assert(dtd_tag(t)); lem_whole(t, u);
        assert(w + (dlines(ts, n) + r) =~= w + (dlines(ts, m) + (t + u)));
        lem_dtds_rt(ts, m, w, t + u, f, d);
        assert(is_ws('\n'));
        lem_prol_tag(v, t, u, f && m == 0, d, ts.take(m as int));
        assert(ts.take(m as int).push(t) =~= ts.take(n as int));
    }
}
pub proof fn lem_eff_ws(i: Seq<char>) ensures all_ws(eff_indent(i)) { lem_eff(i); let t = eff_indent(i); assert(is_ws(' ') && is_ws('\t')); assert forall|j: int| 0 <= j < t.len() implies is_ws(#[trigger] t[j]) by { } }
pub proof fn lem_root_rt(w: Seq<char>, e: ElemV, indent: Seq<char>, f: bool, d: Option<Seq<char>>, ts: Seq<Seq<char>>)
    requires all_ws(w), all_ws(indent), wfe(e, None)
    ensures prol(w + (ser_elem(e, Seq::empty(), indent, false) + nl()), f, d, ts) == Some(DocV { decl: d, dtds: ts, root: e })
{
    hide(p_prolog); hide(p_body); hide(tag_len); hide(starts); hide(ends); hide(wfk); hide(ser_elem); hide(tag_ok); hide(strip); hide(elem_of); hide(open_tag);
    let em = Seq::<char>::empty(); let slash = e.kids.len() == 0; let t = open_tag(e) + end_of(slash); 
    let tl = if slash { em } else { tail_of(e, em, indent, false) }; let r = tl + nl();
    lem_wfe(e, None); lem_ser_split(e, em, indent, false);
    assert(w + (ser_elem(e, em, indent, false) + nl()) =~= w + (t + r));
    lem_otag(e, slash, None, r);
    lem_prol_tag(w, t, r, f, d, ts); lem_root_cases(t);
    assert(is_ws('\n'));
    if slash { assert(e.kids =~= Seq::<NodeV>::empty()); assert(bare(e) == e); assert(r =~= nl()); lem_body_end(nl(), PSt { st: Seq::empty(), root: Some(e) }); }
    else {
        let st = Seq::<ElemV>::empty();
        assert(e.kids.take(0) =~= Seq::<NodeV>::empty()); assert(st.push(bare(e)) =~= seq![bare(e)]);
        lem_content(e, st, None, em, indent, false, nl());
        let p = PSt { st: st.push(e), root: None };
        assert(p_pop(p).st =~= st);
        lem_body_end(nl(), p_pop(p));
    }
}
pub proof fn lem_doc_rt(d: DocV, indent: Seq<char>)
    requires wf_doc(d)
    ensures parse_spec(doc_ser(d, indent)) == Some(d)
{
    hide(p_prolog); hide(wfe); hide(tag_len); hide(trim); hide(decl_ok); hide(starts); hide(ser_elem); hide(dlines);
    let em = Seq::<char>::empty(); let ei = eff_indent(indent); let s = doc_ser(d, indent); let n = d.dtds.len();
    lem_eff_ws(indent); assert(is_ws('\n'));
    let z = ser_elem(d.root, em, ei, false) + nl(); let y = dlines(d.dtds, n) + z;
    assert(d.dtds.take(n as int) =~= d.dtds);
    match d.decl {
        Some(x) => {
            let u = nl() + y; assert(s =~= em + (x + u)); lem_whole(x, u);
            lem_prol_tag(em, x, u, true, None, Seq::empty());
            lem_dtds_rt(d.dtds, n, nl(), z, false, Some(x));
            lem_root_rt(nl(), d.root, ei, false, Some(x), d.dtds);
        }
        None => {
            assert(s =~= em + y);
            lem_dtds_rt(d.dtds, n, em, z, true, None);
            lem_root_rt(if n == 0 { em } else { nl() }, d.root, ei, n == 0, None, d.dtds);
        }
    }
}
/// every document that parse_spec gives is well formed, and writing it with any indent gives a text that stands for the same document
pub proof fn thm_c05(s: Seq<char>, indent: Seq<char>)
    requires parse_spec(s) is Some
    ensures parse_spec(doc_ser(parse_spec(s)->Some_0, indent)) == parse_spec(s)
{ hide(p_prolog); lem_prolog_ok(s, 0, true, None, Seq::empty()); lem_doc_rt(parse_spec(s)->Some_0, indent); }
// ---- the written text is not one of the texts the known finding is about ----
pub proof fn lem_dlines_first(ts: Seq<Seq<char>>, n: nat)
    requires 0 < n <= ts.len()
    ensures dlines(ts, n) == (ts[0] + nl()) + dlines(ts.skip(1), (n - 1) as nat)
    decreases n
{
    let u = ts.skip(1); let em = Seq::<char>::empty();
    if n == 1 { assert(dlines(ts, 0) =~= em); assert(dlines(u, 0) =~= em); assert(dlines(ts, 1) =~= (ts[0] + nl()) + dlines(u, 0)); }
    else { lem_dlines_first(ts, (n - 1) as nat); assert(u[n - 2] == ts[n - 1]); assert(dlines(u, (n - 1) as nat) == dlines(u, (n - 2) as nat) + u[n - 2] + nl()); assert(dlines(ts, n) =~= (ts[0] + nl()) + dlines(u, (n - 1) as nat)); }
}
/// the first tag of a text, and the one after it, are not declarations
pub open spec fn first_tag(s: Seq<char>, w: Seq<char>, t: Seq<char>, r: Seq<char>) -> bool { s == w + (t + r) && all_ws(w) && t.len() > 0 && t[0] == '<' && tag_len(t + r) == Some(t.len() as int) }
pub proof fn lem_head(ts: Seq<Seq<char>>, e: ElemV, ei: Seq<char>, w: Seq<char>) -> (x: (Seq<char>, Seq<char>))
    requires dtags(ts), wfe(e, None), all_ws(w)
    ensures first_tag(w + (dlines(ts, ts.len()) + (ser_elem(e, Seq::empty(), ei, false) + nl())), w, x.0, x.1), !starts(x.0, xml_open()),
        ts.len() > 0 ==> x.0 == ts[0] && x.1 == nl() + (dlines(ts.skip(1), (ts.len() - 1) as nat) + (ser_elem(e, Seq::empty(), ei, false) + nl())),
        ts.len() == 0 ==> !starts(x.0, bang())
{
    hide(ser_elem); hide(starts); hide(wfk); hide(tag_len); hide(dlines); hide(open_tag);
    let em = Seq::<char>::empty(); let z = ser_elem(e, em, ei, false) + nl(); let s = w + (dlines(ts, ts.len()) + z);
    if ts.len() > 0 {
        let t = ts[0]; let r = nl() + (dlines(ts.skip(1), (ts.len() - 1) as nat) + z);
        lem_dlines_first(ts, ts.len()); assert(dtd_tag(t)); lem_whole(t, r);
        assert(s =~= w + (t + r)); (t, r)
    } else {
        let slash = e.kids.len() == 0; let t = open_tag(e) + end_of(slash); let r = (if slash { em } else { tail_of(e, em, ei, false) }) + nl();
        lem_wfe(e, None); lem_ser_split(e, em, ei, false); lem_otag(e, slash, None, r);
        reveal(dlines); assert(dlines(ts, 0) =~= em);
        assert(s =~= w + (t + r)); (t, r)
    }
}
pub proof fn lem_not_known(d: DocV, indent: Seq<char>)
    requires wf_doc(d)
    ensures !known_second_decl(doc_ser(d, indent))
{
    hide(wfe); hide(tag_len); hide(starts); hide(ser_elem); hide(dlines); hide(trim); hide(decl_ok); hide(dtd_ok); hide(tag_at); hide(tag_end);
    let em = Seq::<char>::empty(); let ei = eff_indent(indent); let s = doc_ser(d, indent); let ts = d.dtds; let n = ts.len();
    assert(is_ws('\n'));
    let z = ser_elem(d.root, em, ei, false) + nl(); let y = dlines(ts, n) + z;
    match d.decl {
        Some(x) => {
            let u = nl() + y; assert(s =~= em + (x + u)); lem_whole(x, u); lem_ws_lt(em); lem_at0(em, x, u);
            let (t2, r2) = lem_head(ts, d.root, ei, nl());
            lem_ws_lt(nl()); lem_at0(nl(), t2, r2);
            lem_tag_at_shift(s, x.len() as int);
            let k = x.len() as int; assert(s.skip(k) =~= u);
            assert(s.subrange(k + 1, k + 1 + t2.len()) =~= u.subrange(1, 1 + t2.len() as int));
        }
        None => {
            assert(s =~= em + y); lem_ws_lt(em);
            let (t1, r1) = lem_head(ts, d.root, ei, em); lem_at0(em, t1, r1);
            assert(s.subrange(0, t1.len() as int) =~= s.take(t1.len() as int));
            if n > 0 {
                let t3 = ts.skip(1);
                assert(dtags(t3)) by { assert forall|i: int| 0 <= i < t3.len() implies dtd_tag(#[trigger] t3[i]) by { assert(t3[i] == ts[i + 1]); } }
                let (t2, r2) = lem_head(t3, d.root, ei, nl());
                lem_ws_lt(nl()); lem_at0(nl(), t2, r2);
                let k = t1.len() as int; lem_tag_at_shift(s, k); assert(s.skip(k) =~= r1);
                assert(s.subrange(k + 1, k + 1 + t2.len()) =~= r1.subrange(1, 1 + t2.len() as int));
            } else { assert(s.take(t1.len() as int) == t1); }
        }
    }
}
pub proof fn lem_doc_eq(a: Document, b: Document)
    requires doc_v(a) == doc_v(b)
    ensures optd(a.declaration) == optd(b.declaration), dtds_v(a.dtds@) == dtds_v(b.dtds@), same_elem(elem_v(a.root_element), elem_v(b.root_element))
{ thm_c13_refl(NodeV::Elem(elem_v(a.root_element))); lem_pro_eq(a, b); }
pub proof fn lem_pro_eq(a: Document, b: Document)
    requires doc_v(a).decl == doc_v(b).decl, doc_v(a).dtds == doc_v(b).dtds
    ensures optd(a.declaration) == optd(b.declaration), dtds_v(a.dtds@) == dtds_v(b.dtds@)
{
    match (a.declaration, b.declaration) { (Some(x), Some(y)) => { let p = decl_text(x.decl_str@); let q = decl_text(y.decl_str@); assert(p == q); assert(x.decl_str@ =~= p.subrange(2, p.len() - 2)); assert(y.decl_str@ =~= q.subrange(2, q.len() - 2)); } _ => {} }
    let u = ddtds_v(a.dtds@); let v = ddtds_v(b.dtds@); assert(u.len() == a.dtds@.len() && v.len() == b.dtds@.len());
    assert forall|i: int| 0 <= i < a.dtds@.len() implies dtds_v(a.dtds@)[i] == #[trigger] dtds_v(b.dtds@)[i] by {
        assert(u[i] == v[i]); let x = a.dtds@[i].dtd_str@; let y = b.dtds@[i].dtd_str@; assert(x =~= u[i].subrange(9, u[i].len() - 1)); assert(y =~= v[i].subrange(9, v[i].len() - 1));
    }
    assert(dtds_v(a.dtds@) =~= dtds_v(b.dtds@));
}
/// C05 for the functions themselves, against their contracts: parse, write, parse again, compare, write again
pub fn thm_c05_client(text: &str, indent: &str)
    requires !known_second_decl(text@)
{
    hide(parse_spec); hide(known_second_decl); hide(doc_text); hide(doc_ser);
    if let Ok(d) = parse_str(text) {
        let out = d.to_string_with_indent(indent);
        proof { lem_doc_ser(d, indent@); thm_c05(text@, indent@); lem_not_known_of(text@, indent@); }
        let again = parse_str(out.as_str());
        assert(again is Ok);
        if let Ok(e) = again {
            let same = e.kx_eq_doc(&d);
            proof { lem_doc_eq(e, d); }
            assert(same);
            let out2 = e.to_string_with_indent(indent);
            proof { lem_doc_ser(e, indent@); }
            assert(out2@ == out@);
        }
    }
}
pub proof fn lem_not_known_of(s: Seq<char>, indent: Seq<char>)
    requires parse_spec(s) is Some
    ensures !known_second_decl(doc_ser(parse_spec(s)->Some_0, indent))
{ hide(p_prolog); lem_prolog_ok(s, 0, true, None, Seq::empty()); lem_not_known(parse_spec(s)->Some_0, indent); }
