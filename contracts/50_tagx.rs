// ---- C07: an element tag means what is written in it; C05: it ends where it ends --------------------------
pub proof fn lem_tchar(c: char)
    ensures tchar(c) ==> !is_ws(c) && !is_quote(c) && c != '=' && c != '/' && c != '>' && c != '<' && c != '!' && c != '?', nstart(c) ==> tchar(c),
        is_ws(c) ==> !is_quote(c) && c != '=' && c != '/' && c != '>' && c != '<',
{}
pub open spec fn plain(w: Seq<char>) -> bool { forall|i: int| 0 <= i < w.len() ==> !is_ws(#[trigger] w[i]) && !is_quote(w[i]) }
pub open spec fn calm(w: Seq<char>) -> bool { forall|i: int| 0 <= i < w.len() ==> (#[trigger] w[i]) != '>' && !is_quote(w[i]) }
pub open spec fn no_eq(w: Seq<char>) -> bool { forall|i: int| 0 <= i < w.len() ==> (#[trigger] w[i]) != '=' }
pub proof fn lem_raw(n: Seq<char>) requires raw_name(n) ensures plain(n), calm(n), no_eq(n), n.len() > 0, nstart(n[0]), forall|i: int| 0 <= i < n.len() ==> tchar(#[trigger] n[i])
{ assert forall|i: int| 0 <= i < n.len() implies tchar(#[trigger] n[i]) && !is_ws(n[i]) && !is_quote(n[i]) && n[i] != '>' && n[i] != '=' by { lem_tchar(n[i]); } }
pub proof fn lem_ws_calm(w: Seq<char>) requires all_ws(w) ensures calm(w) { assert forall|i: int| 0 <= i < w.len() implies (#[trigger] w[i]) != '>' && !is_quote(w[i]) by { lem_tchar(w[i]); } }
/// splitting, on what is left
pub open spec fn qs(t: Seq<char>, b: Seq<char>, q: Option<char>) -> Seq<Seq<char>> decreases t.len() {
    if t.len() == 0 { if b.len() > 0 { seq![b] } else { Seq::empty() } }
    else if q is None && is_ws(t[0]) { (if b.len() > 0 { seq![b] } else { Seq::empty() }) + qs(t.skip(1), Seq::empty(), None) }
    else { qs(t.skip(1), b.push(t[0]), qnext(q, t[0])) }
}
pub proof fn lem_qs(t: Seq<char>, k: int, b: Seq<char>, q: Option<char>)
    requires 0 <= k <= t.len()
    ensures qsplit(t, k, b, q) == qs(t.skip(k), b, q)
    decreases t.len() - k
{ if k < t.len() { assert(t.skip(k).skip(1) =~= t.skip(k + 1)); if q is None && is_ws(t[k]) { lem_qs(t, k + 1, Seq::empty(), None); } else { lem_qs(t, k + 1, b.push(t[k]), qnext(q, t[k])); } } }
pub proof fn lem_qs_plain(w: Seq<char>, r: Seq<char>, b: Seq<char>)
    requires plain(w)
    ensures qs(w + r, b, None) == qs(r, b + w, None)
    decreases w.len()
{
    if w.len() == 0 { assert(w + r =~= r); assert(b + w =~= b); } else {
        let t = w + r; let u = w.skip(1);
        assert(t[0] == w[0]); assert(t.skip(1) =~= u + r);
        assert forall|i: int| 0 <= i < u.len() implies !is_ws(#[trigger] u[i]) && !is_quote(u[i]) by { assert(u[i] == w[i + 1]); }
        lem_qs_plain(u, r, b.push(w[0])); assert(b.push(w[0]) + u =~= b + w);
    }
}
pub proof fn lem_qs_quo(v: Seq<char>, r: Seq<char>, b: Seq<char>, q: char)
    requires no_char(v, q), is_quote(q)
    ensures qs(v + (seq![q] + r), b, Some(q)) == qs(r, b + (v + seq![q]), None)
    decreases v.len()
{
    let t = v + (seq![q] + r);
    if v.len() == 0 { assert(t[0] == q); assert(t.skip(1) =~= r); assert(b.push(q) =~= b + (v + seq![q])); } else {
        let u = v.skip(1);
        assert(t[0] == v[0]); assert(t.skip(1) =~= u + (seq![q] + r));
        assert forall|i: int| 0 <= i < u.len() implies #[trigger] u[i] != q by { assert(u[i] == v[i + 1]); }
        lem_qs_quo(u, r, b.push(v[0]), q); assert(b.push(v[0]) + (u + seq![q]) =~= b + (v + seq![q]));
    }
}
pub open spec fn one(b: Seq<char>) -> Seq<Seq<char>> { if b.len() > 0 { seq![b] } else { Seq::empty() } }
pub proof fn lem_qs_ws(w: Seq<char>, r: Seq<char>, b: Seq<char>)
    requires all_ws(w)
    ensures w.len() == 0 ==> qs(w + r, b, None) == qs(r, b, None), w.len() > 0 ==> qs(w + r, b, None) == one(b) + qs(r, Seq::empty(), None)
    decreases w.len()
{
    if w.len() == 0 { assert(w + r =~= r); } else {
        let t = w + r; let u = w.skip(1);
        assert(t[0] == w[0]); assert(t.skip(1) =~= u + r);
        assert forall|i: int| 0 <= i < u.len() implies is_ws(#[trigger] u[i]) by { assert(u[i] == w[i + 1]); }
        lem_qs_ws(u, r, Seq::empty());
        let e = Seq::<Seq<char>>::empty();
        assert(e + qs(r, Seq::empty(), None) =~= qs(r, Seq::empty(), None));
    }
}
pub open spec fn qv(a: AttrX) -> Seq<char> { seq![a.q] + (a.val + seq![a.q]) }
pub open spec fn compact(a: AttrX) -> Seq<char> { a.name + (eq_s() + qv(a)) }
/// what the blanks around '=' leave of an attribute
pub open spec fn pieces(a: AttrX) -> Seq<Seq<char>> {
    if a.w1.len() == 0 && a.w2.len() == 0 { seq![compact(a)] } else if a.w1.len() == 0 { seq![a.name + eq_s(), qv(a)] }
    else if a.w2.len() == 0 { seq![a.name, eq_s() + qv(a)] } else { seq![a.name, eq_s(), qv(a)] }
}
pub open spec fn apieces(a: Seq<AttrX>) -> Seq<Seq<char>> decreases a.len() { if a.len() == 0 { Seq::empty() } else { pieces(a[0]) + apieces(a.skip(1)) } }
pub proof fn lem_qs_attr(a: AttrX, r: Seq<char>, b: Seq<char>)
    requires attr_x_ok(a), b.len() > 0
    ensures qs(attr_x_text(a) + r, b, None) == seq![b] + (pieces(a).drop_last() + qs(r, pieces(a).last(), None))
{
    lem_raw(a.name);
    let em = Seq::<char>::empty(); let e = eq_s(); let q1 = seq![a.q];
    let t5 = a.val + (q1 + r); let t4 = q1 + t5; let t3 = a.w2 + t4; let t2 = e + t3; let t1 = a.w1 + t2; let t0 = a.name + t1;
    assert(attr_x_text(a) + r =~= a.ws + t0);
    lem_qs_ws(a.ws, t0, b);
    lem_qs_plain(a.name, t1, em); assert(em + a.name =~= a.name);
    assert(qs(t0, em, None) == qs(t1, a.name, None));
    lem_qs_ws(a.w1, t2, a.name);
    let b1 = if a.w1.len() == 0 { a.name } else { em };
    lem_qs_plain(e, t3, b1);
    let b2 = b1 + e; assert(b2.len() > 0);
    assert(em + e =~= e);
    lem_qs_ws(a.w2, t4, b2);
    let b3 = if a.w2.len() == 0 { b2 } else { em };
    assert(t4[0] == a.q); assert(t4.skip(1) =~= t5);
    assert(!is_ws(a.q)) by { lem_tchar(a.q); }
    lem_qs_quo(a.val, r, b3.push(a.q), a.q);
    let b4 = b3 + qv(a);
    assert(b3.push(a.q) + (a.val + q1) =~= b4);
    assert(qs(t4, b3, None) == qs(r, b4, None));
    let ee = Seq::<Seq<char>>::empty();
    let z = qs(r, b4, None);
    if a.w1.len() == 0 && a.w2.len() == 0 {
        assert(b4 =~= compact(a)); assert(pieces(a).drop_last() =~= ee); assert(ee + z =~= z);
    } else if a.w1.len() == 0 {
        assert(b4 =~= qv(a)); assert(pieces(a).drop_last() =~= seq![a.name + e]);
    } else if a.w2.len() == 0 {
        assert(b4 =~= e + qv(a)); assert(pieces(a).drop_last() =~= seq![a.name]);
    } else {
        assert(b4 =~= qv(a)); assert(pieces(a).drop_last() =~= seq![a.name, e]);
        assert(seq![a.name] + (seq![e] + z) =~= seq![a.name, e] + z);
    }
}
pub proof fn lem_qs_attrs(a: Seq<AttrX>, b: Seq<char>)
    requires attrs_x_ok(a), b.len() > 0
    ensures qs(attrs_x_text(a), b, None) == seq![b] + apieces(a)
    decreases a.len()
{
    if a.len() == 0 { assert(seq![b] + apieces(a) =~= seq![b]); } else {
        let x = a[0]; let r = a.skip(1);
        assert(attrs_x_ok(r)) by { assert forall|i: int| 0 <= i < r.len() implies attr_x_ok(#[trigger] r[i]) by { assert(r[i] == a[i + 1]); } }
        lem_qs_attr(x, attrs_x_text(r), b);
        let l = pieces(x).last(); assert(l.len() > 0);
        lem_qs_attrs(r, l);
        assert(pieces(x) =~= pieces(x).drop_last().push(l));
        assert(pieces(x).drop_last() + (seq![l] + apieces(r)) =~= pieces(x) + apieces(r));
    }
}
pub open spec fn compacts(a: Seq<AttrX>) -> Seq<Seq<char>> { Seq::new(a.len(), |i: int| compact(a[i])) }
pub proof fn lem_join_attrs(a: Seq<AttrX>)
    requires attrs_x_ok(a)
    ensures pjoin(apieces(a)) == compacts(a), a.len() > 0 ==> apieces(a).len() > 0 && !starts(apieces(a)[0], eq_s()), a.len() == 0 ==> apieces(a).len() == 0
    decreases a.len()
{
    let s = apieces(a);
    if a.len() == 0 { assert(pjoin(s) =~= compacts(a)); } else {
        let x = a[0]; let r = a.skip(1); let k = apieces(r); let p = pieces(x);
        assert(attrs_x_ok(r)) by { assert forall|i: int| 0 <= i < r.len() implies attr_x_ok(#[trigger] r[i]) by { assert(r[i] == a[i + 1]); } }
        lem_join_attrs(r);
        lem_raw(x.name);
        let e = eq_s(); let v = qv(x); let c = compact(x);
        assert(v.last() == x.q && v[0] == x.q && v.len() >= 2);
        assert(c.last() == x.q && c[0] == x.name[0]);
        lem_starts1(c, '='); lem_ends1(c, '='); lem_starts1(x.name, '='); lem_ends1(x.name, '='); lem_starts1(v, '='); lem_ends1(v, '=');
        lem_starts1(x.name + e, '='); lem_ends1(x.name + e, '='); lem_starts1(e + v, '='); lem_ends1(e + v, '='); lem_starts1(e, '='); lem_ends1(e, '=');
        assert((x.name + e)[0] == x.name[0]); assert((x.name + e).last() == '='); assert((e + v)[0] == '=');
        assert(x.name[0] != '=') by { lem_tchar(x.name[0]); }
        assert(seq!['='] =~= e);
        assert(s =~= p + k); assert(s[0] == p[0]);
        if p.len() == 1 { assert(s.skip(1) =~= k); if s.len() > 1 { assert(s[1] == k[0]); } }
        else if p.len() == 2 { assert(s[1] == p[1]); assert(s[0] + s[1] =~= c); assert(s.skip(2) =~= k); if s.len() > 2 { assert(s[2] == k[0]); } }
        else { assert(s[1] == p[1] && s[2] == p[2]); assert(s[0] + s[1] =~= x.name + e); assert((x.name + e) + v =~= c); assert(s.skip(3) =~= k); }
        assert(pjoin(s) == seq![c] + pjoin(k));
        assert(seq![c] + compacts(r) =~= compacts(a));
    }
}
pub proof fn lem_attr_of(a: AttrX)
    requires attr_x_ok(a)
    ensures attr_of(compact(a)) == Some((a.name, unesc(a.val)))
{
    broadcast use lem_occurs1;
    lem_raw(a.name);
    let c = compact(a); let n = a.name.len() as int;
    assert(c[n] == '='); assert(forall|i: int| 0 <= i < n ==> c[i] == a.name[i]);
    lem_find_is(c, eq_s(), 0, n);
    assert(c.take(n) =~= a.name); assert(c.skip(n + 1) =~= qv(a));
    let v = qv(a); assert(v.last() == a.q); assert(v.subrange(1, v.len() - 1) =~= a.val);
}
/// the attributes written, the last one of a name counting
pub open spec fn xmap(a: Seq<AttrX>, n: int) -> AttrV decreases n { if n <= 0 || n > a.len() { Map::empty() } else { xmap(a, n - 1).insert(a[n - 1].name, unesc(a[n - 1].val)) } }
pub proof fn lem_attrs_x(q: Seq<char>, a: Seq<AttrX>, n: int)
    requires attrs_x_ok(a), 0 <= n <= a.len()
    ensures attrs_of(seq![q] + compacts(a), n + 1) == Some(xmap(a, n))
    decreases n
{
    let c = seq![q] + compacts(a);
    if n > 0 { lem_attrs_x(q, a, n - 1); assert(c[n] == compact(a[n - 1])); lem_attr_of(a[n - 1]); }
}
pub proof fn lem_trim_tail(c: Seq<char>, w: Seq<char>)
    requires c.len() > 0, !is_ws(c[0]), !is_ws(c.last()), all_ws(w)
    ensures trim(c + w) == c
{ assert((c + w)[0] == c[0]); assert(trim_l(c + w) == c + w); lem_trim_tail_r(c, w); }
pub proof fn lem_trim_tail_r(c: Seq<char>, w: Seq<char>)
    requires c.len() > 0, !is_ws(c.last()), all_ws(w)
    ensures trim_r(c + w) == c
    decreases w.len()
{
    if w.len() == 0 { assert(c + w =~= c); } else {
        let s = c + w; assert(s.last() == w.last()); assert(is_ws(w[w.len() - 1]));
        let u = w.drop_last(); assert(s.drop_last() =~= c + u);
        assert forall|i: int| 0 <= i < u.len() implies is_ws(#[trigger] u[i]) by { assert(u[i] == w[i]); }
        lem_trim_tail_r(c, u);
    }
}
pub proof fn lem_attrs_last(a: Seq<AttrX>)
    requires attrs_x_ok(a), a.len() > 0
    ensures attrs_x_text(a).len() > 0, is_quote(attrs_x_text(a).last())
    decreases a.len()
{
    let r = a.skip(1); let x = attr_x_text(a[0]);
    assert(x.len() > 0 && x.last() == a[0].q);
    if r.len() == 0 { assert(attrs_x_text(r).len() == 0); assert(attrs_x_text(a) =~= x); }
    else { assert(attrs_x_ok(r)) by { assert forall|i: int| 0 <= i < r.len() implies attr_x_ok(#[trigger] r[i]) by { assert(r[i] == a[i + 1]); } } lem_attrs_last(r); assert(attrs_x_text(a).last() == attrs_x_text(r).last()); }
}
pub open spec fn tag_core(x: TagX) -> Seq<char> { x.name + attrs_x_text(x.attrs) }
pub proof fn lem_strip_x(x: TagX)
    requires tag_x_ok(x)
    ensures strip(tag_x_text(x)) == tag_core(x)
{
    let t = tag_x_text(x); let at = attrs_x_text(x.attrs); let core = tag_core(x);
    lem_raw(x.name); lem_tchar(x.name[0]); lem_tchar(x.name.last());
    assert(tchar(x.name[x.name.len() - 1]));
    if x.attrs.len() > 0 { lem_attrs_last(x.attrs); assert(core.last() == at.last()); lem_tchar(at.last()); } else { assert(core =~= x.name); }
    let t3 = core + x.ws; let t2 = t3 + opt_sl(x.slash); let t1 = t2 + seq!['>'];
    assert(core.last() != '/' && !is_ws(core.last()));
    assert(t1 =~= x.name + (at + (x.ws + (opt_sl(x.slash) + seq!['>']))));
    assert(t =~= seq!['<'] + (opt_sl(x.close) + t1));
    assert(strip1(t, '<') =~= opt_sl(x.close) + t1);
    assert(t1[0] == x.name[0]);
    if x.close { assert((opt_sl(true) + t1).skip(1) =~= t1); assert((opt_sl(true) + t1)[0] == '/'); } else { assert(opt_sl(false) + t1 =~= t1); }
    assert(strip1(strip1(t, '<'), '/') =~= t1);
    assert(t1.last() == '>'); assert(t1.drop_last() =~= t2);
    if x.slash { assert(t2.last() == '/'); assert(t2.drop_last() =~= t3); }
    else { assert(t2 =~= t3); if x.ws.len() > 0 { assert(t3.last() == x.ws.last()); assert(is_ws(x.ws[x.ws.len() - 1])); lem_tchar(x.ws.last()); } else { assert(t3 =~= core); } }
    assert(stripr(t2, '/') == t3);
    assert(core[0] == x.name[0]);
    lem_trim_tail(core, x.ws);
}
/// C07: an element has its tag's name and exactly the attributes written in it, values decoded, the last one if a name repeats,
/// whichever quotes or blanks were used
pub proof fn thm_c07_tag(x: TagX, p: Option<ElemV>)
    requires tag_x_ok(x)
    ensures elem_of(strip(tag_x_text(x)), p) == elem_in(x.name, xmap(x.attrs, x.attrs.len() as int), p)
{
    lem_strip_x(x); lem_raw(x.name);
    let u = tag_core(x); let em = Seq::<char>::empty(); let at = attrs_x_text(x.attrs);
    lem_qs(u, 0, em, None); assert(u.skip(0) =~= u);
    lem_qs_plain(x.name, at, em); assert(em + x.name =~= x.name);
    lem_qs_attrs(x.attrs, x.name);
    let s = seq![x.name] + apieces(x.attrs);
    assert(qsplit(u, 0, em, None) == s);
    assert(s.skip(1) =~= apieces(x.attrs)); assert(s[0] == x.name);
    lem_join_attrs(x.attrs);
    let c = seq![x.name] + compacts(x.attrs);
    assert(joins(s) == c); assert(c.len() == x.attrs.len() + 1); assert(c[0] == x.name);
    lem_attrs_x(x.name, x.attrs, x.attrs.len() as int);
}
// ---- where a tag ends ----
pub open spec fn gt(t: Seq<char>, q: Option<char>) -> Option<int> decreases t.len() {
    if t.len() == 0 { None } else if q is None && t[0] == '>' { Some(0int) } else { plus(gt(t.skip(1), qnext(q, t[0])), 1) }
}
pub proof fn lem_gt(s: Seq<char>, k: int, q: Option<char>)
    requires 0 <= k <= s.len()
    ensures qfind(s, seq!['>'], k, q) == plus(gt(s.skip(k), q), k)
    decreases s.len() - k
{
    if k < s.len() {
        let u = s.skip(k); lem_starts1(u, '>'); assert(u[0] == s[k]); assert(u.skip(1) =~= s.skip(k + 1));
        lem_gt(s, k + 1, qnext(q, s[k]));
    }
}
pub proof fn lem_gt_calm(w: Seq<char>, r: Seq<char>)
    requires calm(w)
    ensures gt(w + r, None) == plus(gt(r, None), w.len() as int)
    decreases w.len()
{
    if w.len() == 0 { assert(w + r =~= r); } else {
        let t = w + r; let u = w.skip(1); assert(t[0] == w[0]); assert(t.skip(1) =~= u + r);
        assert forall|i: int| 0 <= i < u.len() implies (#[trigger] u[i]) != '>' && !is_quote(u[i]) by { assert(u[i] == w[i + 1]); }
        lem_gt_calm(u, r);
    }
}
pub proof fn lem_gt_quo(v: Seq<char>, r: Seq<char>, q: char)
    requires no_char(v, q), is_quote(q)
    ensures gt(v + (seq![q] + r), Some(q)) == plus(gt(r, None), v.len() as int + 1)
    decreases v.len()
{
    let t = v + (seq![q] + r);
    if v.len() == 0 { assert(t[0] == q); assert(t.skip(1) =~= r); } else {
        let u = v.skip(1); assert(t[0] == v[0]); assert(t.skip(1) =~= u + (seq![q] + r));
        assert forall|i: int| 0 <= i < u.len() implies #[trigger] u[i] != q by { assert(u[i] == v[i + 1]); }
        lem_gt_quo(u, r, q);
    }
}
pub proof fn lem_gt_attr(a: AttrX, r: Seq<char>)
    requires attr_x_ok(a)
    ensures gt(attr_x_text(a) + r, None) == plus(gt(r, None), attr_x_text(a).len() as int)
{
    lem_raw(a.name); lem_ws_calm(a.ws); lem_ws_calm(a.w1); lem_ws_calm(a.w2);
    let q1 = seq![a.q]; let e = seq!['='];
    let t5 = a.val + (q1 + r); let t4 = q1 + t5; let t3 = a.w2 + t4; let t2 = e + t3; let t1 = a.w1 + t2; let t0 = a.name + t1;
    assert(attr_x_text(a) + r =~= a.ws + t0);
    lem_gt_calm(a.ws, t0); lem_gt_calm(a.name, t1); lem_gt_calm(a.w1, t2); lem_gt_calm(e, t3); lem_gt_calm(a.w2, t4);
    assert(t4[0] == a.q); assert(t4.skip(1) =~= t5);
    lem_gt_quo(a.val, r, a.q);
    assert(attr_x_text(a).len() == a.ws.len() + a.name.len() + a.w1.len() + 1 + a.w2.len() + 1 + a.val.len() + 1);
}
pub proof fn lem_gt_attrs(a: Seq<AttrX>, r: Seq<char>)
    requires attrs_x_ok(a)
    ensures gt(attrs_x_text(a) + r, None) == plus(gt(r, None), attrs_x_text(a).len() as int)
    decreases a.len()
{
    if a.len() == 0 { assert(attrs_x_text(a) + r =~= r); } else {
        let k = a.skip(1);
        assert(attrs_x_ok(k)) by { assert forall|i: int| 0 <= i < k.len() implies attr_x_ok(#[trigger] k[i]) by { assert(k[i] == a[i + 1]); } }
        assert(attrs_x_text(a) + r =~= attr_x_text(a[0]) + (attrs_x_text(k) + r));
        lem_gt_attr(a[0], attrs_x_text(k) + r); lem_gt_attrs(k, r);
    }
}
pub proof fn lem_first2(t: Seq<char>)
    ensures starts(t, com_open()) || starts(t, bang()) || starts(t, cda_open()) || starts(t, dtd_open()) ==> t.len() >= 2 && t[0] == '<' && t[1] == '!', starts(t, pi_open()) || starts(t, xml_open()) ==> t.len() >= 2 && t[0] == '<' && t[1] == '?',
        starts(t, end_open()) <==> t.len() >= 2 && t[0] == '<' && t[1] == '/',
        starts(t, bang()) <==> t.len() >= 2 && t[0] == '<' && t[1] == '!', starts(t, lt_s()) <==> t.len() >= 1 && t[0] == '<',
        ends(t, empty_end()) <==> t.len() >= 2 && t.last() == '>' && t[t.len() - 2] == '/',
{
    if starts(t, com_open()) { assert(t.take(4)[0] == t[0] && t.take(4)[1] == t[1]); }
    if starts(t, cda_open()) { assert(t.take(9)[0] == t[0] && t.take(9)[1] == t[1]); }
    if starts(t, dtd_open()) { assert(t.take(9)[0] == t[0] && t.take(9)[1] == t[1]); }
    if starts(t, xml_open()) { assert(t.take(5)[0] == t[0] && t.take(5)[1] == t[1]); }
    if t.len() >= 2 { assert(t.take(2)[0] == t[0] && t.take(2)[1] == t[1]); assert(t.take(2) =~= seq![t[0], t[1]]);
        let u = t.skip(t.len() - 2); assert(u[0] == t[t.len() - 2] && u[1] == t.last()); assert(u =~= seq![t[t.len() - 2], t.last()]); }
    lem_starts1(t, '<');
}
/// the second character of an element tag
pub proof fn lem_tag_head(x: TagX)
    requires tag_x_ok(x)
    ensures ({ let t = tag_x_text(x); t.len() >= 3 && t[0] == '<' && t[1] != '!' && t[1] != '?' && t[1] != '<' && (t[1] == '/' <==> x.close) && t.last() == '>' && (t[t.len() - 2] == '/' <==> x.slash) })
{
    let t = tag_x_text(x); lem_raw(x.name); lem_tchar(x.name[0]);
    if x.close { assert(t[1] == '/'); } else { assert(t[1] == x.name[0]); }
    let at = attrs_x_text(x.attrs); let core = tag_core(x);
    assert(tchar(x.name[x.name.len() - 1])); lem_tchar(x.name.last());
    if x.attrs.len() > 0 { lem_attrs_last(x.attrs); assert(core.last() == at.last()); } else { assert(core =~= x.name); }
    let h = seq!['<'] + opt_sl(x.close) + core + x.ws + opt_sl(x.slash);
    assert(t =~= h + seq!['>']);
    assert(t[t.len() - 2] == h.last());
    if x.slash { assert(h.last() == '/'); } else if x.ws.len() > 0 { assert(h.last() == x.ws.last()); assert(is_ws(x.ws[x.ws.len() - 1])); lem_tchar(x.ws.last()); } else { assert(h.last() == core.last()); }
}
pub proof fn lem_scan_x(x: TagX, r: Seq<char>)
    requires tag_x_ok(x)
    ensures tag_len(tag_x_text(x) + r) == Some(tag_x_text(x).len() as int)
{
    let t = tag_x_text(x); let s = t + r; let at = attrs_x_text(x.attrs);
    lem_tag_head(x); lem_first2(s); assert(s[0] == t[0] && s[1] == t[1]);
    lem_raw(x.name); lem_ws_calm(x.ws);
    lem_gt(s, 1, None);
    let g = seq!['>'] + r; let t4 = opt_sl(x.slash) + g; let t3 = x.ws + t4; let t2 = at + t3; let t1 = x.name + t2; let t0 = opt_sl(x.close) + t1;
    assert(s.skip(1) =~= t0);
    lem_gt_calm(opt_sl(x.close), t1); lem_gt_calm(x.name, t2); lem_gt_attrs(x.attrs, t3); lem_gt_calm(x.ws, t4); lem_gt_calm(opt_sl(x.slash), g);
    assert(g[0] == '>');
    assert(t.len() == 1 + opt_sl(x.close).len() + x.name.len() + at.len() + x.ws.len() + opt_sl(x.slash).len() + 1);
}
