// ---- C06, C07: what a tag says ------------------------------------------------------------------------------
pub open spec fn svw(v: Seq<String>) -> Seq<Seq<char>> { Seq::new(v.len(), |i: int| v[i]@) }
/// pieces separated by blanks outside quotes (b: the piece being collected)
pub open spec fn qsplit(t: Seq<char>, k: int, b: Seq<char>, q: Option<char>) -> Seq<Seq<char>> decreases t.len() - k {
    if k < 0 || k >= t.len() { if b.len() > 0 { seq![b] } else { Seq::empty() } }
    else if q is None && is_ws(t[k]) { (if b.len() > 0 { seq![b] } else { Seq::empty() }) + qsplit(t, k + 1, Seq::empty(), None) }
    else { qsplit(t, k + 1, b.push(t[k]), qnext(q, t[k])) }
}
/// VecDeque
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct KxDeque<T> { _d: Vec<T> }
impl<T> View for KxDeque<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
impl<T> KxDeque<T> {
    #[verifier::external_body] pub fn from(v: Vec<T>) -> (r: KxDeque<T>) ensures r@ == v@ { unimplemented!() }
    #[verifier::external_body] pub fn pop_front(&mut self) -> (r: Option<T>)
        ensures old(self)@.len() == 0 ==> r is None && final(self)@ == old(self)@, old(self)@.len() > 0 ==> r == Some(old(self)@[0]) && final(self)@ == old(self)@.skip(1) { unimplemented!() }
    #[verifier::external_body] pub fn front(&self) -> (r: Option<&T>) ensures self@.len() == 0 ==> r is None, self@.len() > 0 ==> r == Some(&self@[0]) { unimplemented!() }
}
impl<T> KxLen for KxDeque<T> {
    open spec fn kl(&self) -> nat { self@.len() }
    #[verifier::external_body] fn kx_len(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn kx_is_empty(&self) -> (r: bool) { unimplemented!() }
}
pub open spec fn eq_s() -> Seq<char> { seq!['='] }
pub open spec fn glue(a: Seq<char>, b: Seq<char>) -> bool { ends(a, eq_s()) || starts(b, eq_s()) }
/// pieces of an attribute written with blanks around '=' are put together
pub open spec fn pjoin(s: Seq<Seq<char>>) -> Seq<Seq<char>> decreases s.len() {
    if s.len() == 0 { Seq::empty() }
    else if s.len() > 1 && glue(s[0], s[1]) {
        let c = s[0] + s[1];
        if s.len() > 2 && glue(c, s[2]) { seq![c + s[2]] + pjoin(s.skip(3)) } else { seq![c] + pjoin(s.skip(2)) }
    } else { seq![s[0]] + pjoin(s.skip(1)) }
}
pub open spec fn joins(s: Seq<Seq<char>>) -> Seq<Seq<char>> { if s.len() == 0 { s } else { seq![s[0]] + pjoin(s.skip(1)) } }
pub open spec fn quoted(v: Seq<char>) -> bool { v.len() >= 2 && is_quote(v[0]) && v.last() == v[0] }
/// name="value" with the value's references decoded
pub open spec fn attr_of(c: Seq<char>) -> Option<KV> {
    match find_from(c, eq_s(), 0) {
        None => None,
        Some(i) => { let v = c.skip(i + 1); if quoted(v) { Some((c.take(i), unesc(v.subrange(1, v.len() - 1)))) } else { None } }
    }
}
pub open spec fn attrs_of(c: Seq<Seq<char>>, n: int) -> Option<AttrV> decreases n {
    if n <= 1 || n > c.len() { Some(Map::empty()) } else {
        match (attrs_of(c, n - 1), attr_of(c[n - 1])) { (Some(m), Some((k, v))) => Some(m.insert(k, v)), _ => None }
    }
}
pub open spec fn names_ok(m: AttrV) -> bool { forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> xml_name(k) }
pub open spec fn colon_s() -> Seq<char> { seq![':'] }
pub open spec fn pctx(p: Option<ElemV>) -> AttrV { match p { Some(e) => e.ctx, None => Map::empty() } }
pub open spec fn pdflt(p: Option<ElemV>) -> Option<Seq<char>> { match p { Some(e) => default_ns(e), None => None } }
/// C06, C07, C10: the element a tag with this name and these attributes starts inside p
pub open spec fn elem_in(qname: Seq<char>, attrs: AttrV, p: Option<ElemV>) -> Option<ElemV> {
    let (prefix, name) = match find_from(qname, colon_s(), 0) { Some(i) => (Some(qname.take(i)), qname.skip(i + 1)), None => (None, qname) };
    let declared = match prefix { Some(a) => attrs.contains_key(xmlns_colon() + a), None => true };
    let ns = match prefix { Some(a) => if declared { mget(attrs, xmlns_colon() + a) } else { mget(pctx(p), a) }, None => None };
    if !xml_name(name) || !names_ok(attrs) || (!declared && p is None) { None }
    else { Some(inherit(bare_elem(name, attrs, ns, prefix), pdflt(p), pctx(p))) }
}
pub open spec fn parent_v(p: Option<&Element>) -> Option<ElemV> { match p { Some(e) => Some(elem_v(*e)), None => None } }
/// the same from the text between '<' and '>'
pub open spec fn elem_of(t: Seq<char>, p: Option<ElemV>) -> Option<ElemV> {
    let c = joins(qsplit(t, 0, Seq::empty(), None));
    if c.len() == 0 { None } else { match attrs_of(c, c.len() as int) { Some(m) => elem_in(c[0], m, p), None => None } }
}
pub proof fn lem_attrs_none(c: Seq<Seq<char>>, n: int, m: int)
    requires 0 <= n <= m <= c.len(), attrs_of(c, n) is None
    ensures attrs_of(c, m) is None
    decreases m
{ if n < m { lem_attrs_none(c, n, m - 1); } }
pub proof fn lem_ins_pairs(ps: Seq<(String, String)>, n: nat, k: Seq<char>)
    requires n <= ps.len(), forall|i: int, j: int| #![trigger ps[i], ps[j]] 0 <= i < ps.len() && 0 <= j < ps.len() && ps[i].0@ == ps[j].0@ ==> i == j
    ensures ins_upto(ps, n).contains_key(k) <==> (exists|i: int| 0 <= i < n && (#[trigger] ps[i]).0@ == k),
        forall|i: int| #![trigger ps[i]] 0 <= i < n && ps[i].0@ == k ==> ins_upto(ps, n)[k] == ps[i].1@
    decreases n
{
    if n > 0 {
        lem_ins_pairs(ps, (n - 1) as nat, k);
        let p = ps[n - 1]; assert(p.0.iv() == p.0@ && p.1.iv() == p.1@);
        if p.0@ == k { assert(ins_upto(ps, n).contains_key(k)); assert(0 <= n - 1 < n); }
        if exists|i: int| 0 <= i < n && (#[trigger] ps[i]).0@ == k { let i = choose|i: int| 0 <= i < n && (#[trigger] ps[i]).0@ == k; if i < n - 1 { assert(ins_upto(ps, (n - 1) as nat).contains_key(k)); } }
    }
}
/// a map of strings given to a constructor
pub proof fn lem_ctor_map(m: KxMap)
    ensures ctor_attrs(Some(m)) == m@, forall|n: Seq<char>| #[trigger] ctor_ok(n, Some(m)) <==> xml_name(n) && names_ok(m@)
{
    broadcast use ax_map_pairs;
    let ps = m.pairs(); let s = kv_vals(ps); let n = ps.len();
    assert(enumerates(s, m@));
    assert forall|i: int, j: int| #![trigger ps[i], ps[j]] 0 <= i < ps.len() && 0 <= j < ps.len() && ps[i].0@ == ps[j].0@ implies i == j by { assert(s[i].0 == s[j].0); }
    assert forall|k: Seq<char>| ins_upto(ps, n).contains_key(k) <==> #[trigger] m@.contains_key(k) by {
        lem_ins_pairs(ps, n, k);
        if ins_upto(ps, n).contains_key(k) { let i = choose|i: int| 0 <= i < n && (#[trigger] ps[i]).0@ == k; assert(s[i].0 == k); }
        if m@.contains_key(k) { let i = choose|i: int| #![trigger s[i]] 0 <= i < s.len() && s[i].0 == k; assert(ps[i].0@ == k); }
    }
    assert forall|k: Seq<char>| ins_upto(ps, n).contains_key(k) implies #[trigger] ins_upto(ps, n)[k] == m@[k] by {
        lem_ins_pairs(ps, n, k);
        let i = choose|i: int| 0 <= i < n && (#[trigger] ps[i]).0@ == k; assert(s[i].0 == k && s[i].1 == ps[i].1@);
    }
    assert(ins_upto(ps, n) =~= m@);
    if keys_ok(ps, n) { assert forall|k: Seq<char>| #[trigger] m@.contains_key(k) implies xml_name(k) by { let i = choose|i: int| #![trigger s[i]] 0 <= i < s.len() && s[i].0 == k; assert(ps[i].0.iv() == k); } }
    if names_ok(m@) { assert forall|i: int| #![trigger ps[i]] 0 <= i < n implies xml_name(ps[i].0.iv()) by { assert(s[i].0 == ps[i].0@); assert(m@.contains_key(s[i].0)); } }
}
pub proof fn lem_svw_push(v: Seq<String>, x: String) ensures svw(v.push(x)) == svw(v).push(x@) { assert(svw(v.push(x)) =~= svw(v).push(x@)); }
pub proof fn lem_svw_skip(v: Seq<String>, n: int) requires 0 <= n <= v.len() ensures svw(v.skip(n)) == svw(v).skip(n) { assert(svw(v.skip(n)) =~= svw(v).skip(n)); }
pub proof fn lem_join_step(s: Seq<Seq<char>>)
    requires s.len() > 0
    ensures ({
        let c = s[0] + s[1];
        &&& s.len() > 1 && glue(s[0], s[1]) && s.len() > 2 && glue(c, s[2]) ==> pjoin(s) == seq![c + s[2]] + pjoin(s.skip(1).skip(1).skip(1))
        &&& s.len() > 1 && glue(s[0], s[1]) && !(s.len() > 2 && glue(c, s[2])) ==> pjoin(s) == seq![c] + pjoin(s.skip(1).skip(1))
        &&& !(s.len() > 1 && glue(s[0], s[1])) ==> pjoin(s) == seq![s[0]] + pjoin(s.skip(1)) }),
        s.skip(1).len() == s.len() - 1, s.len() > 1 ==> s.skip(1)[0] == s[1] && s.skip(1).skip(1).len() == s.len() - 2, s.len() > 2 ==> s.skip(1).skip(1)[0] == s[2]
{ if s.len() > 1 { assert(s.skip(1).skip(1) =~= s.skip(2)); } if s.len() > 2 { assert(s.skip(1).skip(1).skip(1) =~= s.skip(3)); } }
pub proof fn lem_cat_push<T>(a: Seq<T>, x: T, b: Seq<T>) ensures a.push(x) + b == a + (seq![x] + b) { assert(a.push(x) + b =~= a + (seq![x] + b)); }
/// quotes around a value, in bytes
pub proof fn lem_quoted(v: Seq<char>)
    ensures quoted(v) <==> (blen(v) >= 2 && ((starts(v, seq!['"']) && ends(v, seq!['"'])) || (starts(v, seq!['\'']) && ends(v, seq!['\''])))),
        blen(v) == 0 ==> !quoted(v), quoted(v) ==> is_bd(v, 1) && ix(v, 1) == 1 && is_bd(v, blen(v) - 1) && ix(v, blen(v) - 1) == v.len() - 1 && blen(v) >= 2
{
    lem_starts1(v, '"'); lem_starts1(v, '\''); lem_ends1(v, '"'); lem_ends1(v, '\''); lem_blen_ge(v);
    if v.len() == 0 { assert(v =~= Seq::<char>::empty()); }
    if v.len() == 1 && is_quote(v[0]) { lem_off_ends(v); lem_off_step(v, 0); }
}
// ---- the shape of an element tag -------------------------------------------------------------------------
pub open spec fn nstart(c: char) -> bool { (name_start(c) || c == ':') && c != '\u{1680}' }
/// name characters of a tag: U+1680 is left out, it is whitespace to the parser
pub open spec fn tchar(c: char) -> bool { name_char(c) && c != '\u{1680}' }
pub open spec fn raw_name(s: Seq<char>) -> bool { s.len() > 0 && nstart(s[0]) && forall|i: int| 1 <= i < s.len() ==> tchar(#[trigger] s[i]) }
/// one attribute as written: blanks, name, blanks around '=', quoted value
pub ghost struct AttrX { pub ws: Seq<char>, pub name: Seq<char>, pub w1: Seq<char>, pub w2: Seq<char>, pub q: char, pub val: Seq<char> }
pub open spec fn no_char(s: Seq<char>, c: char) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != c }
pub open spec fn attr_x_ok(a: AttrX) -> bool { a.ws.len() > 0 && all_ws(a.ws) && raw_name(a.name) && all_ws(a.w1) && all_ws(a.w2) && is_quote(a.q) && no_char(a.val, a.q) }
pub open spec fn attr_x_text(a: AttrX) -> Seq<char> { a.ws + (a.name + (a.w1 + (seq!['='] + (a.w2 + (seq![a.q] + (a.val + seq![a.q])))))) }
pub open spec fn attrs_x_ok(a: Seq<AttrX>) -> bool { forall|i: int| 0 <= i < a.len() ==> attr_x_ok(#[trigger] a[i]) }
pub open spec fn attrs_x_text(a: Seq<AttrX>) -> Seq<char> decreases a.len() { if a.len() == 0 { Seq::empty() } else { attr_x_text(a[0]) + attrs_x_text(a.skip(1)) } }
/// an opening, closing or empty-element tag as written
pub ghost struct TagX { pub close: bool, pub name: Seq<char>, pub attrs: Seq<AttrX>, pub ws: Seq<char>, pub slash: bool }
pub open spec fn opt_sl(b: bool) -> Seq<char> { if b { seq!['/'] } else { Seq::empty() } }
pub open spec fn tag_x_ok(x: TagX) -> bool { raw_name(x.name) && attrs_x_ok(x.attrs) && all_ws(x.ws) }
pub open spec fn tag_x_text(x: TagX) -> Seq<char> { seq!['<'] + (opt_sl(x.close) + (x.name + (attrs_x_text(x.attrs) + (x.ws + (opt_sl(x.slash) + seq!['>']))))) }
/// C06: what an element tag may look like
pub open spec fn tag_ok(s: Seq<char>) -> bool { exists|x: TagX| #[trigger] tag_x_ok(x) && tag_x_text(x) == s }

pub proof fn re_split(a: Re, b: Re, s: Seq<char>) -> (k: int)
    requires re_m(re_cat(a, b), s)
    ensures 0 <= k <= s.len(), re_m(a, s.take(k)), re_m(b, s.skip(k)), s == s.take(k) + s.skip(k)
{ hide(re_m); lem_m_cat(a, b, s); let k = choose|k: int| #[trigger] cat_at(a, b, s, k); assert(s =~= s.take(k) + s.skip(k)); k }
pub proof fn re_build(a: Re, b: Re, u: Seq<char>, v: Seq<char>)
    requires re_m(a, u), re_m(b, v)
    ensures re_m(re_cat(a, b), u + v)
{ hide(re_m); let s = u + v; lem_m_cat(a, b, s); assert(s.take(u.len() as int) =~= u); assert(s.skip(u.len() as int) =~= v); assert(cat_at(a, b, s, u.len() as int)); }
pub proof fn lem_m_alt(a: Re, b: Re, s: Seq<char>) ensures re_m(re_alt(a, b), s) == (re_m(a, s) || re_m(b, s)) {}
pub proof fn lem_m_eps(s: Seq<char>) ensures re_m(Re::Eps, s) == (s.len() == 0) {}
// character classes
pub open spec fn k_is(d: char) -> spec_fn(char) -> bool { |c: char| c == d }
pub open spec fn k_not(d: char) -> spec_fn(char) -> bool { |c: char| c != d }
pub open spec fn k_ns() -> spec_fn(char) -> bool { |c: char| nstart(c) }
pub open spec fn k_nc() -> spec_fn(char) -> bool { |c: char| tchar(c) }
pub open spec fn k_ws() -> spec_fn(char) -> bool { |c: char| is_ws(c) }
pub open spec fn re_c(d: char) -> Re { Re::Chr(k_is(d)) }
pub open spec fn re_ws() -> Re { re_star(Re::Chr(k_ws())) }
pub open spec fn re_nm() -> Re { re_cat(Re::Chr(k_ns()), re_star(Re::Chr(k_nc()))) }
pub open spec fn re_quo(d: char) -> Re { re_cat(re_c(d), re_cat(re_star(Re::Chr(k_not(d))), re_c(d))) }
pub open spec fn re_att() -> Re {
    re_cat(re_cat(Re::Chr(k_ws()), re_ws()), re_cat(Re::Chr(k_ns()), re_cat(re_star(Re::Chr(k_nc())), re_cat(re_ws(), re_cat(re_c('='), re_cat(re_ws(), re_alt(re_quo('"'), re_quo('\''))))))))
}
pub open spec fn re_end() -> Re { re_cat(re_star(re_att()), re_cat(re_ws(), re_cat(re_alt(re_c('/'), Re::Eps), re_c('>')))) }
pub open spec fn re_tag() -> Re { re_cat(re_c('<'), re_cat(re_alt(re_c('/'), Re::Eps), re_cat(Re::Chr(k_ns()), re_cat(re_star(Re::Chr(k_nc())), re_cat(re_alt(re_cat(re_c(':'), re_nm()), Re::Eps), re_end()))))) }

pub proof fn lem_re_c(d: char, s: Seq<char>) ensures re_m(re_c(d), s) <==> s == seq![d] { if s.len() == 1 && s[0] == d { assert(s =~= seq![d]); } lem_m_chr(k_is(d), s); }
pub proof fn lem_re_ws(s: Seq<char>) ensures re_m(re_ws(), s) <==> all_ws(s) {
    hide(re_m); lem_star_chr(k_ws(), s);
    if all_ws(s) { assert forall|i: int| 0 <= i < s.len() implies k_ws()(#[trigger] s[i]) by { assert(is_ws(s[i])); } }
    if re_m(re_ws(), s) { assert forall|i: int| 0 <= i < s.len() implies is_ws(#[trigger] s[i]) by { assert(k_ws()(s[i])); } }
}
pub proof fn lem_re_nm(s: Seq<char>) ensures re_m(re_nm(), s) <==> raw_name(s) {
    hide(re_m); lem_cat_chr(k_ns(), k_nc(), s);
    if raw_name(s) { assert forall|i: int| 1 <= i < s.len() implies k_nc()(#[trigger] s[i]) by { assert(tchar(s[i])); } }
    if re_m(re_nm(), s) { assert forall|i: int| 1 <= i < s.len() implies tchar(#[trigger] s[i]) by { assert(k_nc()(s[i])); } }
}
/// quoted text: the value
pub proof fn lem_re_quo(d: char, s: Seq<char>) -> (v: Seq<char>)
    requires re_m(re_quo(d), s)
    ensures no_char(v, d), s == seq![d] + (v + seq![d])
{
    hide(re_m);
    let a = re_star(Re::Chr(k_not(d)));
    let k = re_split(re_c(d), re_cat(a, re_c(d)), s);
    let t = s.skip(k);
    let j = re_split(a, re_c(d), t);
    lem_re_c(d, s.take(k)); lem_re_c(d, t.skip(j)); lem_star_chr(k_not(d), t.take(j));
    let v = t.take(j);
    assert forall|i: int| 0 <= i < v.len() implies #[trigger] v[i] != d by { assert(k_not(d)(v[i])); }
    v
}
pub proof fn lem_quo_re(d: char, v: Seq<char>)
    requires no_char(v, d)
    ensures re_m(re_quo(d), seq![d] + (v + seq![d]))
{
    hide(re_m);
    assert forall|i: int| 0 <= i < v.len() implies k_not(d)(#[trigger] v[i]) by { assert(v[i] != d); }
    lem_star_chr(k_not(d), v); lem_re_c(d, seq![d]);
    re_build(re_star(Re::Chr(k_not(d))), re_c(d), v, seq![d]);
    re_build(re_c(d), re_cat(re_star(Re::Chr(k_not(d))), re_c(d)), seq![d], v + seq![d]);
}
/// a name matched as first character and rest, with something behind it
pub proof fn lem_name_split(b: Re, s: Seq<char>) -> (k: int)
    requires re_m(re_cat(Re::Chr(k_ns()), re_cat(re_star(Re::Chr(k_nc())), b)), s)
    ensures 0 <= k <= s.len(), raw_name(s.take(k)), re_m(b, s.skip(k)), s == s.take(k) + s.skip(k)
{
    hide(re_m);
    let st = re_star(Re::Chr(k_nc()));
    let i = re_split(Re::Chr(k_ns()), re_cat(st, b), s);
    let j = re_split(st, b, s.skip(i));
    re_build(Re::Chr(k_ns()), st, s.take(i), s.skip(i).take(j));
    assert(s.take(i) + s.skip(i).take(j) =~= s.take(i + j)); assert(s.skip(i).skip(j) =~= s.skip(i + j));
    lem_re_nm(s.take(i + j)); assert(s =~= s.take(i + j) + s.skip(i + j));
    i + j
}
pub proof fn lem_name_build(b: Re, n: Seq<char>, v: Seq<char>)
    requires raw_name(n), re_m(b, v)
    ensures re_m(re_cat(Re::Chr(k_ns()), re_cat(re_star(Re::Chr(k_nc())), b)), n + v)
{
    hide(re_m);
    let st = re_star(Re::Chr(k_nc()));
    lem_re_nm(n);
    let i = re_split(Re::Chr(k_ns()), st, n);
    re_build(st, b, n.skip(i), v);
    re_build(Re::Chr(k_ns()), re_cat(st, b), n.take(i), n.skip(i) + v);
    assert(n.take(i) + (n.skip(i) + v) =~= n + v);
}
pub proof fn lem_ws1(s: Seq<char>) ensures re_m(re_cat(Re::Chr(k_ws()), re_ws()), s) <==> s.len() > 0 && all_ws(s) {
    hide(re_m); lem_cat_chr(k_ws(), k_ws(), s);
    if all_ws(s) { assert forall|i: int| 0 <= i < s.len() implies k_ws()(#[trigger] s[i]) by { assert(is_ws(s[i])); } }
    if s.len() > 0 && k_ws()(s[0]) && (forall|i: int| 1 <= i < s.len() ==> k_ws()(#[trigger] s[i])) { assert forall|i: int| 0 <= i < s.len() implies is_ws(#[trigger] s[i]) by { if i > 0 { assert(k_ws()(s[i])); } } }
}
pub proof fn lem_re_att(s: Seq<char>) -> (a: AttrX)
    requires re_m(re_att(), s)
    ensures attr_x_ok(a), attr_x_text(a) == s
{
    hide(re_m);
    let r7 = re_alt(re_quo('"'), re_quo('\'')); let r6 = re_cat(re_ws(), r7); let r5 = re_cat(re_c('='), r6); let r4 = re_cat(re_ws(), r5);
    let r3 = re_cat(Re::Chr(k_ns()), re_cat(re_star(Re::Chr(k_nc())), r4));
    let k = re_split(re_cat(Re::Chr(k_ws()), re_ws()), r3, s); let s3 = s.skip(k);
    let j = lem_name_split(r4, s3); let s4 = s3.skip(j);
    let i = re_split(re_ws(), r5, s4); let s5 = s4.skip(i);
    let h = re_split(re_c('='), r6, s5); let s6 = s5.skip(h);
    let g = re_split(re_ws(), r7, s6); let s7 = s6.skip(g);
    lem_ws1(s.take(k)); lem_re_ws(s4.take(i)); lem_re_ws(s6.take(g)); lem_re_c('=', s5.take(h)); lem_m_alt(re_quo('"'), re_quo('\''), s7);
    let q = if re_m(re_quo('"'), s7) { '"' } else { '\'' };
    let v = lem_re_quo(q, s7);
    AttrX { ws: s.take(k), name: s3.take(j), w1: s4.take(i), w2: s6.take(g), q, val: v }
}
pub proof fn lem_att_re(a: AttrX)
    requires attr_x_ok(a)
    ensures re_m(re_att(), attr_x_text(a)), attr_x_text(a).len() > 0
{
    hide(re_m);
    let r7 = re_alt(re_quo('"'), re_quo('\'')); let r6 = re_cat(re_ws(), r7); let r5 = re_cat(re_c('='), r6); let r4 = re_cat(re_ws(), r5);
    let r3 = re_cat(Re::Chr(k_ns()), re_cat(re_star(Re::Chr(k_nc())), r4));
    let s7 = seq![a.q] + (a.val + seq![a.q]);
    lem_quo_re(a.q, a.val); lem_m_alt(re_quo('"'), re_quo('\''), s7);
    lem_re_ws(a.w2); re_build(re_ws(), r7, a.w2, s7); let s6 = a.w2 + s7;
    lem_re_c('=', seq!['=']); re_build(re_c('='), r6, seq!['='], s6); let s5 = seq!['='] + s6;
    lem_re_ws(a.w1); re_build(re_ws(), r5, a.w1, s5); let s4 = a.w1 + s5;
    lem_name_build(r4, a.name, s4); lem_ws1(a.ws);
    re_build(re_cat(Re::Chr(k_ws()), re_ws()), r3, a.ws, a.name + s4);
}
pub proof fn lem_re_atts(s: Seq<char>) -> (a: Seq<AttrX>)
    requires re_m(re_star(re_att()), s)
    ensures attrs_x_ok(a), attrs_x_text(a) == s
    decreases s.len()
{
    hide(re_m);
    lem_m_star(re_att(), s);
    if s.len() == 0 { let a = Seq::<AttrX>::empty(); assert(attrs_x_text(a) =~= s); a } else {
        let k = choose|k: int| #[trigger] star_at(re_att(), s, k);
        let x = lem_re_att(s.take(k));
        let r = lem_re_atts(s.skip(k));
        let a = seq![x] + r;
        assert(a.skip(1) =~= r); assert(a[0] == x);
        assert forall|i: int| 0 <= i < a.len() implies attr_x_ok(#[trigger] a[i]) by { if i > 0 { assert(a[i] == r[i - 1]); } }
        assert(s.take(k) + s.skip(k) =~= s);
        a
    }
}
pub proof fn lem_atts_re(a: Seq<AttrX>)
    requires attrs_x_ok(a)
    ensures re_m(re_star(re_att()), attrs_x_text(a))
    decreases a.len()
{
    hide(re_m);
    let s = attrs_x_text(a);
    lem_m_star(re_att(), s);
    if a.len() > 0 {
        let x = attr_x_text(a[0]);
        assert forall|i: int| 0 <= i < a.skip(1).len() implies attr_x_ok(#[trigger] a.skip(1)[i]) by { assert(a.skip(1)[i] == a[i + 1]); }
        lem_att_re(a[0]); lem_atts_re(a.skip(1));
        assert(s.take(x.len() as int) =~= x); assert(s.skip(x.len() as int) =~= attrs_x_text(a.skip(1)));
        assert(star_at(re_att(), s, x.len() as int));
    }
}
pub proof fn lem_opt_re(s: Seq<char>) ensures re_m(re_alt(re_c('/'), Re::Eps), s) <==> s == opt_sl(s.len() > 0), s.len() > 0 && re_m(re_alt(re_c('/'), Re::Eps), s) ==> s == seq!['/']
{ hide(re_m); lem_m_alt(re_c('/'), Re::Eps, s); lem_re_c('/', s); lem_m_eps(s); if s.len() == 0 { assert(s =~= Seq::<char>::empty()); } }
pub proof fn lem_raw_cat(n: Seq<char>, m: Seq<char>)
    requires raw_name(n), raw_name(m)
    ensures raw_name(n + (seq![':'] + m))
{
    let s = n + (seq![':'] + m);
    assert forall|i: int| 1 <= i < s.len() implies tchar(#[trigger] s[i]) by { if i < n.len() { assert(s[i] == n[i]); } else if i > n.len() { assert(s[i] == m[i - n.len() - 1]); } }
}
pub proof fn lem_re_tag(s: Seq<char>)
    ensures re_m(re_tag(), s) <==> tag_ok(s)
{
    hide(re_m);
    let sl = re_alt(re_c('/'), Re::Eps); let e1 = re_cat(sl, re_c('>')); let e2 = re_cat(re_ws(), e1); let e3 = re_cat(re_star(re_att()), e2);
    let cn = re_cat(re_c(':'), re_nm()); let oc = re_alt(cn, Re::Eps); let r4 = re_cat(oc, e3); let r3 = re_cat(Re::Chr(k_ns()), re_cat(re_star(Re::Chr(k_nc())), r4)); let r2 = re_cat(sl, r3);
    if re_m(re_tag(), s) {
        let k1 = re_split(re_c('<'), r2, s); let s2 = s.skip(k1);
        let k2 = re_split(sl, r3, s2); let s3 = s2.skip(k2);
        let k3 = lem_name_split(r4, s3); let s4 = s3.skip(k3);
        let k4 = re_split(oc, e3, s4); let s5 = s4.skip(k4);
        let k5 = re_split(re_star(re_att()), e2, s5); let s6 = s5.skip(k5);
        let k6 = re_split(re_ws(), e1, s6); let s7 = s6.skip(k6);
        let k7 = re_split(sl, re_c('>'), s7); let s8 = s7.skip(k7);
        lem_re_c('<', s.take(k1)); lem_opt_re(s2.take(k2)); lem_opt_re(s7.take(k7)); lem_re_c('>', s8); lem_re_ws(s6.take(k6));
        let at = lem_re_atts(s5.take(k5));
        let n0 = s3.take(k3); let n1 = s4.take(k4);
        lem_m_alt(cn, Re::Eps, n1); lem_m_eps(n1);
        let name = n0 + n1;
        if re_m(cn, n1) { let i = re_split(re_c(':'), re_nm(), n1); lem_re_c(':', n1.take(i)); lem_re_nm(n1.skip(i)); lem_raw_cat(n0, n1.skip(i)); assert(raw_name(name)); } else { assert(name =~= n0); }
        let x = TagX { close: k2 > 0, name, attrs: at, ws: s6.take(k6), slash: k7 > 0 };
        assert(tag_x_ok(x));
        assert(n0 + (n1 + s5) =~= name + s5);
        assert(tag_x_text(x) == s);
    }
    if tag_ok(s) {
        let x = choose|x: TagX| #[trigger] tag_x_ok(x) && tag_x_text(x) == s;
        lem_re_c('>', seq!['>']); lem_opt_re(opt_sl(x.slash)); re_build(sl, re_c('>'), opt_sl(x.slash), seq!['>']); let s7 = opt_sl(x.slash) + seq!['>'];
        lem_re_ws(x.ws); re_build(re_ws(), e1, x.ws, s7); let s6 = x.ws + s7;
        lem_atts_re(x.attrs); re_build(re_star(re_att()), e2, attrs_x_text(x.attrs), s6); let s5 = attrs_x_text(x.attrs) + s6;
        let em = Seq::<char>::empty(); lem_m_eps(em); lem_m_alt(cn, Re::Eps, em); re_build(oc, e3, em, s5); assert(em + s5 =~= s5);
        lem_name_build(r4, x.name, s5); lem_opt_re(opt_sl(x.close)); re_build(sl, r3, opt_sl(x.close), x.name + s5);
        lem_re_c('<', seq!['<']); re_build(re_c('<'), r2, seq!['<'], opt_sl(x.close) + (x.name + s5));
    }
}
/// the regular expression found in the source, whatever way its character classes are written
pub broadcast proof fn lem_tag_re(lt: spec_fn(char) -> bool, s1: spec_fn(char) -> bool, a1: spec_fn(char) -> bool, b1: spec_fn(char) -> bool, co: spec_fn(char) -> bool, a2: spec_fn(char) -> bool, b2: spec_fn(char) -> bool, w1: spec_fn(char) -> bool, w2: spec_fn(char) -> bool, a3: spec_fn(char) -> bool, b3: spec_fn(char) -> bool, w3: spec_fn(char) -> bool, eq: spec_fn(char) -> bool, w4: spec_fn(char) -> bool, d1: spec_fn(char) -> bool, d2: spec_fn(char) -> bool, d3: spec_fn(char) -> bool, q1: spec_fn(char) -> bool, q2: spec_fn(char) -> bool, q3: spec_fn(char) -> bool, w5: spec_fn(char) -> bool, s2: spec_fn(char) -> bool, gt: spec_fn(char) -> bool, s: Seq<char>)
    requires forall|c: char| #[trigger] lt(c) <==> c == '<', forall|c: char| #[trigger] s1(c) <==> c == '/', forall|c: char| #[trigger] a1(c) <==> nstart(c), forall|c: char| #[trigger] b1(c) <==> tchar(c), forall|c: char| #[trigger] co(c) <==> c == ':', forall|c: char| #[trigger] a2(c) <==> nstart(c), forall|c: char| #[trigger] b2(c) <==> tchar(c), forall|c: char| #[trigger] w1(c) <==> is_ws(c), forall|c: char| #[trigger] w2(c) <==> is_ws(c), forall|c: char| #[trigger] a3(c) <==> nstart(c), forall|c: char| #[trigger] b3(c) <==> tchar(c), forall|c: char| #[trigger] w3(c) <==> is_ws(c), forall|c: char| #[trigger] eq(c) <==> c == '=', forall|c: char| #[trigger] w4(c) <==> is_ws(c), forall|c: char| #[trigger] d1(c) <==> c == '"', forall|c: char| #[trigger] d2(c) <==> c != '"', forall|c: char| #[trigger] d3(c) <==> c == '"', forall|c: char| #[trigger] q1(c) <==> c == '\'', forall|c: char| #[trigger] q2(c) <==> c != '\'', forall|c: char| #[trigger] q3(c) <==> c == '\'', forall|c: char| #[trigger] w5(c) <==> is_ws(c), forall|c: char| #[trigger] s2(c) <==> c == '/', forall|c: char| #[trigger] gt(c) <==> c == '>',
    ensures #![trigger re_is_match(true, true, re_cat(Re::Chr(lt), re_cat(re_alt(Re::Chr(s1), Re::Eps), re_cat(Re::Chr(a1), re_cat(re_star(Re::Chr(b1)), re_cat(re_alt(re_cat(Re::Chr(co), re_cat(Re::Chr(a2), re_star(Re::Chr(b2)))), Re::Eps), re_cat(re_star(re_cat(re_cat(Re::Chr(w1), re_star(Re::Chr(w2))), re_cat(Re::Chr(a3), re_cat(re_star(Re::Chr(b3)), re_cat(re_star(Re::Chr(w3)), re_cat(Re::Chr(eq), re_cat(re_star(Re::Chr(w4)), re_alt(re_cat(Re::Chr(d1), re_cat(re_star(Re::Chr(d2)), Re::Chr(d3))), re_cat(Re::Chr(q1), re_cat(re_star(Re::Chr(q2)), Re::Chr(q3))))))))))), re_cat(re_star(Re::Chr(w5)), re_cat(re_alt(Re::Chr(s2), Re::Eps), Re::Chr(gt))))))))), s)] re_is_match(true, true, re_cat(Re::Chr(lt), re_cat(re_alt(Re::Chr(s1), Re::Eps), re_cat(Re::Chr(a1), re_cat(re_star(Re::Chr(b1)), re_cat(re_alt(re_cat(Re::Chr(co), re_cat(Re::Chr(a2), re_star(Re::Chr(b2)))), Re::Eps), re_cat(re_star(re_cat(re_cat(Re::Chr(w1), re_star(Re::Chr(w2))), re_cat(Re::Chr(a3), re_cat(re_star(Re::Chr(b3)), re_cat(re_star(Re::Chr(w3)), re_cat(Re::Chr(eq), re_cat(re_star(Re::Chr(w4)), re_alt(re_cat(Re::Chr(d1), re_cat(re_star(Re::Chr(d2)), Re::Chr(d3))), re_cat(Re::Chr(q1), re_cat(re_star(Re::Chr(q2)), Re::Chr(q3))))))))))), re_cat(re_star(Re::Chr(w5)), re_cat(re_alt(Re::Chr(s2), Re::Eps), Re::Chr(gt))))))))), s) == tag_ok(s)
{
    hide(re_m);
    assert(lt =~= k_is('<')); assert(s1 =~= k_is('/')); assert(a1 =~= k_ns()); assert(b1 =~= k_nc()); assert(co =~= k_is(':')); assert(a2 =~= k_ns()); assert(b2 =~= k_nc()); assert(w1 =~= k_ws()); assert(w2 =~= k_ws()); assert(a3 =~= k_ns()); assert(b3 =~= k_nc()); assert(w3 =~= k_ws()); assert(eq =~= k_is('=')); assert(w4 =~= k_ws()); assert(d1 =~= k_is('"')); assert(d2 =~= k_not('"')); assert(d3 =~= k_is('"')); assert(q1 =~= k_is('\'')); assert(q2 =~= k_not('\'')); assert(q3 =~= k_is('\'')); assert(w5 =~= k_ws()); assert(s2 =~= k_is('/')); assert(gt =~= k_is('>'));
    let r = re_cat(Re::Chr(lt), re_cat(re_alt(Re::Chr(s1), Re::Eps), re_cat(Re::Chr(a1), re_cat(re_star(Re::Chr(b1)), re_cat(re_alt(re_cat(Re::Chr(co), re_cat(Re::Chr(a2), re_star(Re::Chr(b2)))), Re::Eps), re_cat(re_star(re_cat(re_cat(Re::Chr(w1), re_star(Re::Chr(w2))), re_cat(Re::Chr(a3), re_cat(re_star(Re::Chr(b3)), re_cat(re_star(Re::Chr(w3)), re_cat(Re::Chr(eq), re_cat(re_star(Re::Chr(w4)), re_alt(re_cat(Re::Chr(d1), re_cat(re_star(Re::Chr(d2)), Re::Chr(d3))), re_cat(Re::Chr(q1), re_cat(re_star(Re::Chr(q2)), Re::Chr(q3))))))))))), re_cat(re_star(Re::Chr(w5)), re_cat(re_alt(Re::Chr(s2), Re::Eps), Re::Chr(gt)))))))));
    assert(r == re_tag());
    assert(s.subrange(0, s.len() as int) =~= s); lem_re_tag(s);
    if re_m(r, s) { assert(re_m(r, s.subrange(0, s.len() as int))); }
}
