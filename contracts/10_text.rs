// ---- spec functions and lemmas for escaping -----------------------------------------------------
pub open spec fn flat(s: Seq<char>, f: spec_fn(char) -> Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { f(s[0]) + flat(s.skip(1), f) }
}
pub proof fn lem_flat_add(a: Seq<char>, b: Seq<char>, f: spec_fn(char) -> Seq<char>)
    ensures flat(a + b, f) == flat(a, f) + flat(b, f)
    decreases a.len()
{
    if a.len() == 0 { assert(a + b =~= b); assert(flat(a, f) + flat(b, f) =~= flat(b, f)); } else {
        assert((a + b).skip(1) =~= a.skip(1) + b);
        lem_flat_add(a.skip(1), b, f);
        assert(f(a[0]) + (flat(a.skip(1), f) + flat(b, f)) =~= (f(a[0]) + flat(a.skip(1), f)) + flat(b, f));
    }
}
pub open spec fn sub1(c: char, w: Seq<char>) -> spec_fn(char) -> Seq<char> { |x: char| if x == c { w } else { seq![x] } }
pub proof fn lem_repl1(s: Seq<char>, p: Seq<char>, w: Seq<char>)
    requires p.len() == 1
    ensures repl(s, p, w) == flat(s, sub1(p[0], w))
    decreases s.len()
{
    broadcast use lem_occurs1;
    let f = sub1(p[0], w);
    lem_find_from(s, p, 0);
    match find_from(s, p, 0) {
        None => { assert forall|i: int| 0 <= i < s.len() implies s[i] != p[0] by { assert(!occurs(s, p, i)); } lem_flat_id(s, f); }
        Some(k) => {
            assert(occurs(s, p, k));
            assert forall|i: int| 0 <= i < k implies s[i] != p[0] by { assert(!occurs(s, p, i)); }
            lem_repl1(s.skip(k + 1), p, w);
            lem_flat_id(s.take(k), f);
            assert(s =~= s.take(k) + s.skip(k));
            lem_flat_add(s.take(k), s.skip(k), f);
            assert(s.skip(k).skip(1) =~= s.skip(k + 1));
            assert(s.take(k) + w + flat(s.skip(k + 1), f) =~= s.take(k) + (w + flat(s.skip(k + 1), f)));
        }
    }
}
pub proof fn lem_flat_id(s: Seq<char>, f: spec_fn(char) -> Seq<char>)
    requires forall|i: int| 0 <= i < s.len() ==> f(#[trigger] s[i]) == seq![s[i]]
    ensures flat(s, f) == s
    decreases s.len()
{
    if s.len() > 0 { assert forall|i: int| 0 <= i < s.skip(1).len() implies f(#[trigger] s.skip(1)[i]) == seq![s.skip(1)[i]] by { assert(s.skip(1)[i] == s[i + 1]); } lem_flat_id(s.skip(1), f); assert(seq![s[0]] + s.skip(1) =~= s); } else { assert(flat(s, f) =~= s); }
}
/// flat(flat(s,f),g) == flat(s,h) when h(c) == flat(f(c), g)
pub proof fn lem_flat_comp(s: Seq<char>, f: spec_fn(char) -> Seq<char>, g: spec_fn(char) -> Seq<char>, h: spec_fn(char) -> Seq<char>)
    requires forall|c: char| #[trigger] h(c) == flat(f(c), g)
    ensures flat(flat(s, f), g) == flat(s, h)
    decreases s.len()
{
    if s.len() > 0 { lem_flat_comp(s.skip(1), f, g, h); lem_flat_add(f(s[0]), flat(s.skip(1), f), g); } else { assert(flat(s, f) =~= Seq::empty()); assert(flat(s,h) =~= Seq::empty()); assert(flat(Seq::<char>::empty(), g) =~= Seq::empty()); }
}
pub open spec fn e_amp() -> Seq<char> { seq!['&', 'a', 'm', 'p', ';'] }
pub open spec fn e_lt() -> Seq<char> { seq!['&', 'l', 't', ';'] }
pub open spec fn e_gt() -> Seq<char> { seq!['&', 'g', 't', ';'] }
pub open spec fn e_apos() -> Seq<char> { seq!['&', 'a', 'p', 'o', 's', ';'] }
pub open spec fn e_quot() -> Seq<char> { seq!['&', 'q', 'u', 'o', 't', ';'] }
/// C02: what one character is written as in text / in an attribute value
pub open spec fn esc_t(c: char) -> Seq<char> { if c == '&' { e_amp() } else if c == '<' { e_lt() } else if c == '>' { e_gt() } else { seq![c] } }
pub open spec fn esc_a(c: char) -> Seq<char> { if c == '\'' { e_apos() } else if c == '"' { e_quot() } else { esc_t(c) } }
pub open spec fn esc_text(s: Seq<char>) -> Seq<char> { flat(s, |c: char| esc_t(c)) }
pub open spec fn esc_attr(s: Seq<char>) -> Seq<char> { flat(s, |c: char| esc_a(c)) }
/// flat of a short literal, char by char
pub proof fn lem_flat_unfold(s: Seq<char>, f: spec_fn(char) -> Seq<char>)
    requires s.len() > 0
    ensures flat(s, f) == f(s[0]) + flat(s.skip(1), f)
{}
pub open spec fn keeps(w: Seq<char>, c: char) -> bool { forall|i: int| 0 <= i < w.len() ==> #[trigger] w[i] != c }
pub proof fn lem_flat_keep(w: Seq<char>, c: char, x: Seq<char>)
    requires keeps(w, c)
    ensures flat(w, sub1(c, x)) == w
{ let f = sub1(c, x); assert forall|i: int| 0 <= i < w.len() implies f(#[trigger] w[i]) == seq![w[i]] by {} lem_flat_id(w, f); }
pub proof fn lem_flat1(c: char, f: spec_fn(char) -> Seq<char>)
    ensures flat(seq![c], f) == f(c)
{ let s = seq![c]; assert(s.skip(1) =~= Seq::<char>::empty()); assert(flat(s.skip(1), f) =~= Seq::<char>::empty()); assert(f(s[0]) + flat(s.skip(1), f) =~= f(c)); }

/// the replace chain of text_escape is the per-character escape
pub proof fn lem_text_chain(s: Seq<char>)
    ensures repl(repl(repl(s, seq!['&'], e_amp()), seq!['<'], e_lt()), seq!['>'], e_gt()) == esc_text(s)
{
    let f1 = sub1('&', e_amp()); let f2 = sub1('<', e_lt()); let f3 = sub1('>', e_gt());
    let h2 = |c: char| flat(f1(c), f2); let h = |c: char| esc_t(c);
    lem_repl1(s, seq!['&'], e_amp());
    lem_repl1(flat(s, f1), seq!['<'], e_lt());
    lem_flat_comp(s, f1, f2, h2);
    lem_repl1(flat(s, h2), seq!['>'], e_gt());
    assert forall|c: char| #[trigger] h(c) == flat(h2(c), f3) by {
        if c == '&' { lem_flat_keep(e_amp(), '<', e_lt()); lem_flat_keep(e_amp(), '>', e_gt()); }
        else { lem_flat1(c, f2); if c == '<' { lem_flat_keep(e_lt(), '>', e_gt()); } else { lem_flat1(c, f3); } }
    }
    lem_flat_comp(s, h2, f3, h);
}
pub proof fn lem_attr_chain(s: Seq<char>)
    ensures repl(repl(esc_text(s), seq!['\''], e_apos()), seq!['"'], e_quot()) == esc_attr(s)
{
    let f1 = |c: char| esc_t(c); let f2 = sub1('\'', e_apos()); let f3 = sub1('"', e_quot());
    let h2 = |c: char| flat(f1(c), f2); let h = |c: char| esc_a(c);
    lem_repl1(esc_text(s), seq!['\''], e_apos());
    lem_flat_comp(s, f1, f2, h2);
    lem_repl1(flat(s, h2), seq!['"'], e_quot());
    assert forall|c: char| #[trigger] h(c) == flat(h2(c), f3) by {
        if c == '&' { lem_flat_keep(e_amp(), '\'', e_apos()); lem_flat_keep(e_amp(), '"', e_quot()); }
        else if c == '<' { lem_flat_keep(e_lt(), '\'', e_apos()); lem_flat_keep(e_lt(), '"', e_quot()); }
        else if c == '>' { lem_flat_keep(e_gt(), '\'', e_apos()); lem_flat_keep(e_gt(), '"', e_quot()); }
        else { lem_flat1(c, f2); if c == '\'' { lem_flat_keep(e_apos(), '"', e_quot()); } else { lem_flat1(c, f3); } }
    }
    lem_flat_comp(s, h2, f3, h);
}

/// the replaces after the one of '&' may come in any order
pub open spec fn esc_ent(p: Seq<char>, x: Seq<char>) -> bool {
    (p == seq!['<'] && x == e_lt()) || (p == seq!['>'] && x == e_gt()) || (p == seq!['\''] && x == e_apos()) || (p == seq!['"'] && x == e_quot())
}
proof fn lem_esc_ent(p: Seq<char>, x: Seq<char>, c: char, q: Seq<char>, y: Seq<char>)
    requires esc_ent(p, x)
    ensures flat(seq![c], sub1(p[0], x)) == (if c == p[0] { x } else { seq![c] }), flat(e_amp(), sub1(p[0], x)) == e_amp(), esc_ent(q, y) ==> flat(y, sub1(p[0], x)) == y,
    p == seq![p[0]], p[0] != '&', esc_ent(q, y) && p != q ==> p[0] != q[0],
{
    lem_flat1(c, sub1(p[0], x)); lem_flat_keep(e_amp(), p[0], x);
    if esc_ent(q, y) { assert(q.len() == 1 && p.len() == 1); if p[0] == q[0] { assert(p =~= q); } lem_flat_keep(y, p[0], x); }
}
pub broadcast proof fn lem_orders_text(s: Seq<char>, p1: Seq<char>, x1: Seq<char>, p2: Seq<char>, x2: Seq<char>)
    requires esc_ent(p1, x1), esc_ent(p2, x2), p1 != p2, p1 == seq!['<'] || p1 == seq!['>'], p2 == seq!['<'] || p2 == seq!['>'],
    ensures #[trigger] repl(repl(repl(s, seq!['&'], e_amp()), p1, x1), p2, x2) == esc_text(s)
{
    if p1 == seq!['<'] { lem_text_chain(s); assert(x1 == e_lt() && x2 == e_gt()) by { assert(seq!['<'][0] != seq!['>'][0] && seq!['<'][0] != seq!['"'][0] && seq!['<'][0] != seq!['\''][0] && seq!['>'][0] != seq!['"'][0] && seq!['>'][0] != seq!['\''][0]); } }
    else {
        let c1 = p1[0]; let c2 = p2[0]; let f0 = sub1('&', e_amp()); let f1 = sub1(c1, x1); let f2 = sub1(c2, x2);
        let h1 = |c: char| flat(f0(c), f1); let h = |c: char| esc_t(c);
        lem_esc_ent(p1, x1, 'x', p2, x2); lem_esc_ent(p2, x2, 'x', p1, x1);
        lem_repl1(s, seq!['&'], e_amp()); lem_repl1(flat(s, f0), p1, x1); lem_flat_comp(s, f0, f1, h1); lem_repl1(flat(s, h1), p2, x2);
        assert forall|c: char| #[trigger] h(c) == flat(h1(c), f2) by { lem_esc_ent(p1, x1, c, p2, x2); lem_esc_ent(p2, x2, c, p1, x1); }
        lem_flat_comp(s, h1, f2, h);
    }
}
pub broadcast proof fn lem_orders_attr(s: Seq<char>, p1: Seq<char>, x1: Seq<char>, p2: Seq<char>, x2: Seq<char>, p3: Seq<char>, x3: Seq<char>, p4: Seq<char>, x4: Seq<char>)
    requires esc_ent(p1, x1), esc_ent(p2, x2), esc_ent(p3, x3), esc_ent(p4, x4), p1 != p2, p1 != p3, p1 != p4, p2 != p3, p2 != p4, p3 != p4,
    ensures #[trigger] repl(repl(repl(repl(repl(s, seq!['&'], e_amp()), p1, x1), p2, x2), p3, x3), p4, x4) == esc_attr(s)
{
    let c1 = p1[0]; let c2 = p2[0]; let c3 = p3[0]; let c4 = p4[0];
    let f0 = sub1('&', e_amp()); let f1 = sub1(c1, x1); let f2 = sub1(c2, x2); let f3 = sub1(c3, x3); let f4 = sub1(c4, x4);
    let h1 = |c: char| flat(f0(c), f1); let h2 = |c: char| flat(h1(c), f2); let h3 = |c: char| flat(h2(c), f3); let h = |c: char| esc_a(c);
    lem_esc_ent(p1, x1, 'x', p2, x2); lem_esc_ent(p2, x2, 'x', p3, x3); lem_esc_ent(p3, x3, 'x', p4, x4); lem_esc_ent(p4, x4, 'x', p1, x1);
    lem_repl1(s, seq!['&'], e_amp()); lem_repl1(flat(s, f0), p1, x1); lem_flat_comp(s, f0, f1, h1); lem_repl1(flat(s, h1), p2, x2);
    lem_flat_comp(s, h1, f2, h2); lem_repl1(flat(s, h2), p3, x3); lem_flat_comp(s, h2, f3, h3); lem_repl1(flat(s, h3), p4, x4);
    assert forall|c: char| #[trigger] h(c) == flat(h3(c), f4) by {
        lem_esc_ent(p1, x1, c, p2, x2); lem_esc_ent(p1, x1, c, p3, x3); lem_esc_ent(p1, x1, c, p4, x4);
        lem_esc_ent(p2, x2, c, p1, x1); lem_esc_ent(p2, x2, c, p3, x3); lem_esc_ent(p2, x2, c, p4, x4);
        lem_esc_ent(p3, x3, c, p1, x1); lem_esc_ent(p3, x3, c, p2, x2); lem_esc_ent(p3, x3, c, p4, x4);
        lem_esc_ent(p4, x4, c, p1, x1); lem_esc_ent(p4, x4, c, p2, x2); lem_esc_ent(p4, x4, c, p3, x3);
        lem_four_of_four(c1, c2, c3, c4);
        if c == '&' {} else if c == c1 {} else if c == c2 {} else if c == c3 {} else if c == c4 {} else {}
    }
    lem_flat_comp(s, h3, f4, h);
}
/// four different ones of four are all of them
proof fn lem_four_of_four(a: char, b: char, c: char, d: char)
    requires a == '<' || a == '>' || a == '\'' || a == '"', b == '<' || b == '>' || b == '\'' || b == '"', c == '<' || c == '>' || c == '\'' || c == '"', d == '<' || d == '>' || d == '\'' || d == '"',
    a != b, a != c, a != d, b != c, b != d, c != d,
    ensures a == '<' || b == '<' || c == '<' || d == '<', a == '>' || b == '>' || c == '>' || d == '>', a == '"' || b == '"' || c == '"' || d == '"', a == '\'' || b == '\'' || c == '\'' || d == '\'',
{}

// ---- unescape -----------------------------------------------------------------------------------
/// the character denoted by the text between '&' and ';', if any
pub open spec fn decode(b: Seq<char>) -> Option<char> {
    if b == seq!['a', 'm', 'p'] { Some('&') } else if b == seq!['l', 't'] { Some('<') } else if b == seq!['g', 't'] { Some('>') }
    else if b == seq!['a', 'p', 'o', 's'] { Some('\'') } else if b == seq!['q', 'u', 'o', 't'] { Some('"') }
    else if b.len() > 0 && b[0] == '#' { match hex_u32(b.skip(1)) { Some(n) => char_of(n), None => None } }
    else { None }
}
/// index of the first ';' of s
pub open spec fn semi(s: Seq<char>) -> Option<int> { find_from(s, seq![';'], 0) }
/// C03: left-to-right decoding, each position looked at once
pub open spec fn unesc(s: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { Seq::empty() }
    else if s[0] == '&' {
        match semi(s) {
            Some(j) => match decode(s.subrange(1, j)) {
                Some(c) => if 0 < j < s.len() { seq![c] + unesc(s.skip(j + 1)) } else { s },
                None => seq!['&'] + unesc(s.skip(1)),
            },
            None => seq!['&'] + unesc(s.skip(1)),
        }
    } else { seq![s[0]] + unesc(s.skip(1)) }
}
/// which of the code's six comparisons the text "&body" satisfies
pub open spec fn ent_kind(sl: Seq<char>) -> int {
    if sl == seq!['&', 'a', 'm', 'p'] { 1 } else if sl == seq!['&', 'l', 't'] { 2 } else if sl == seq!['&', 'g', 't'] { 3 }
    else if sl == seq!['&', 'a', 'p', 'o', 's'] { 4 } else if sl == seq!['&', 'q', 'u', 'o', 't'] { 5 } else if starts(sl, seq!['&', '#']) { 6 } else { 0 }
}
pub proof fn lem_ent_body(sl: Seq<char>, body: Seq<char>)
    requires sl == seq!['&'] + body
    ensures ({
        let k = ent_kind_(sl);
        &&& (sl == seq!['&', 'a', 'm', 'p']) == (k == 1) &&& (sl == seq!['&', 'l', 't']) == (k == 2) &&& (sl == seq!['&', 'g', 't']) == (k == 3)
        &&& (sl == seq!['&', 'a', 'p', 'o', 's']) == (k == 4) &&& (sl == seq!['&', 'q', 'u', 'o', 't']) == (k == 5) &&& starts(sl, seq!['&', '#']) == (k == 6)
        &&& decode_(body) == (if k == 1 { Some('&') } else if k == 2 { Some('<') } else if k == 3 { Some('>') } else if k == 4 { Some('\'') } else if k == 5 { Some('"') }
            else if k == 6 { match hex_u32(body.skip(1)) { Some(n) => char_of(n), None => None } } else { None })
        &&& k == 6 ==> sl.len() >= 2 && sl[0] == '&' && sl[1] == '#' && body.skip(1) == sl.skip(2)
        &&& 0 <= k <= 6
    }),
{
    reveal(ent_kind_); reveal(decode_);
    assert(sl.skip(1) =~= body);
    assert(seq!['&', 'a', 'm', 'p'].skip(1) =~= seq!['a', 'm', 'p']); assert(seq!['&'] + seq!['a', 'm', 'p'] =~= seq!['&', 'a', 'm', 'p']);
    assert(seq!['&', 'l', 't'].skip(1) =~= seq!['l', 't']); assert(seq!['&'] + seq!['l', 't'] =~= seq!['&', 'l', 't']);
    assert(seq!['&', 'g', 't'].skip(1) =~= seq!['g', 't']); assert(seq!['&'] + seq!['g', 't'] =~= seq!['&', 'g', 't']);
    assert(seq!['&', 'a', 'p', 'o', 's'].skip(1) =~= seq!['a', 'p', 'o', 's']); assert(seq!['&'] + seq!['a', 'p', 'o', 's'] =~= seq!['&', 'a', 'p', 'o', 's']);
    assert(seq!['&', 'q', 'u', 'o', 't'].skip(1) =~= seq!['q', 'u', 'o', 't']); assert(seq!['&'] + seq!['q', 'u', 'o', 't'] =~= seq!['&', 'q', 'u', 'o', 't']);
    assert(seq!['&', 'l', 't'][1] != seq!['&', 'g', 't'][1]); assert(seq!['&', 'a', 'p', 'o', 's'][1] != seq!['&', 'q', 'u', 'o', 't'][1]);
    if sl.len() >= 2 {
        if sl.take(2) == seq!['&', '#'] { assert(sl.take(2)[1] == '#'); assert(sl[1] == '#'); assert(body[0] == sl[1]); assert(body.skip(1) =~= sl.skip(2)); }
        if body[0] == '#' { assert(sl.take(2) =~= seq!['&', '#']); }
    }
}
#[verifier::opaque] pub open spec fn ent_kind_(sl: Seq<char>) -> int { ent_kind(sl) }
#[verifier::opaque] pub open spec fn decode_(b: Seq<char>) -> Option<char> { decode(b) }
#[verifier::opaque] pub open spec fn unesc_(s: Seq<char>) -> Seq<char> { unesc(s) }
/// no character of s[..k] is c
pub open spec fn free(s: Seq<char>, k: int, c: char) -> bool { forall|i: int| 0 <= i < k ==> #[trigger] s[i] != c }
pub proof fn lem_unesc_found(s: Seq<char>, m: int)
    requires 0 < m < s.len(), s[0] == '&', s[m] == ';', free(s, m, ';')
    ensures decode_(s.subrange(1, m)) is Some ==> unesc_(s) == seq![decode_(s.subrange(1, m))->Some_0] + unesc_(s.skip(m + 1)),
        decode_(s.subrange(1, m)) is None ==> unesc_(s) == seq!['&'] + unesc_(s.skip(1)),
{
    broadcast use lem_occurs1;
    reveal(unesc_); reveal(decode_);
    assert(occurs(s, seq![';'], m));
    assert forall|t: int| 0 <= t < m implies !#[trigger] occurs(s, seq![';'], t) by {}
    lem_find_is(s, seq![';'], 0, m);
}
pub proof fn lem_unesc_nosemi(s: Seq<char>)
    requires s.len() > 0, s[0] == '&', free(s, s.len() as int, ';')
    ensures unesc_(s) == seq!['&'] + unesc_(s.skip(1)),
{
    broadcast use lem_occurs1;
    reveal(unesc_);
    assert forall|t: int| 0 <= t implies !#[trigger] occurs(s, seq![';'], t) by {}
    lem_find_none(s, seq![';'], 0);
}
/// searching for '&' in what is left
pub proof fn lem_unesc_amp(rest: Seq<char>)
    ensures match find_from(rest, seq!['&'], 0) {
        None => unesc_(rest) == rest,
        Some(k) => 0 <= k < rest.len() && rest[k] == '&' && unesc_(rest) == rest.take(k) + unesc_(rest.skip(k)),
    }
{
    broadcast use lem_occurs1;
    reveal(unesc_);
    lem_find_from(rest, seq!['&'], 0);
    match find_from(rest, seq!['&'], 0) {
        None => { assert forall|t: int| 0 <= t < rest.len() implies rest[t] != '&' by { assert(!occurs(rest, seq!['&'], t)); } lem_unesc_none(rest); }
        Some(k) => { assert forall|t: int| 0 <= t < k implies rest[t] != '&' by { assert(!occurs(rest, seq!['&'], t)); } assert(occurs(rest, seq!['&'], k)); lem_unesc_plain(rest, k); }
    }
}
pub proof fn lem_unesc_plain(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(), forall|i: int| 0 <= i < k ==> s[i] != '&'
    ensures unesc(s) == s.take(k) + unesc(s.skip(k))
    decreases k
{
    if k == 0 { assert(s.skip(0) =~= s); assert(s.take(0) + unesc(s) =~= unesc(s)); } else {
        lem_unesc_plain(s.skip(1), k - 1);
        assert(s.skip(1).skip(k - 1) =~= s.skip(k));
        assert(s.take(k) =~= seq![s[0]] + s.skip(1).take(k - 1));
        assert(s.take(k) + unesc(s.skip(k)) =~= seq![s[0]] + (s.skip(1).take(k - 1) + unesc(s.skip(k))));
    }
}
pub proof fn lem_unesc_none(s: Seq<char>)
    requires forall|i: int| 0 <= i < s.len() ==> s[i] != '&'
    ensures unesc(s) == s
{ lem_unesc_plain(s, s.len() as int); assert(s.take(s.len() as int) =~= s); assert(s + unesc(s.skip(s.len() as int)) =~= s); }
/// an entity at the front is decoded
pub proof fn lem_unesc_ent(b: Seq<char>, c: char, rest: Seq<char>)
    requires decode(b) == Some(c), forall|i: int| 0 <= i < b.len() ==> b[i] != ';'
    ensures unesc(seq!['&'] + b + seq![';'] + rest) == seq![c] + unesc(rest)
{
    broadcast use lem_occurs1;
    let s = seq!['&'] + b + seq![';'] + rest;
    let j = 1 + b.len() as int;
    assert(s[j] == ';');
    assert(occurs(s, seq![';'], j));
    assert forall|i: int| 0 <= i < j implies !#[trigger] occurs(s, seq![';'], i) by { if i > 0 { assert(s[i] == b[i - 1]); } }
    lem_find_is(s, seq![';'], 0, j);
    assert(s.subrange(1, j) =~= b);
    assert(s.skip(j + 1) =~= rest);
}
pub proof fn lem_unesc_esc_c(c: char, rest: Seq<char>)
    ensures unesc(esc_a(c) + rest) == seq![c] + unesc(rest), unesc(esc_t(c) + rest) == seq![c] + unesc(rest)
{
    let amp = seq!['a', 'm', 'p']; let lt = seq!['l', 't']; let gt = seq!['g', 't']; let apos = seq!['a', 'p', 'o', 's']; let quot = seq!['q', 'u', 'o', 't'];
    assert(amp.len() == 3 && lt.len() == 2 && gt.len() == 2 && apos.len() == 4 && quot.len() == 4);
    assert(lt[0] != gt[0]); assert(apos[0] != quot[0]);
    assert(seq!['&'] + amp + seq![';'] + rest =~= e_amp() + rest);
    assert(seq!['&'] + lt + seq![';'] + rest =~= e_lt() + rest);
    assert(seq!['&'] + gt + seq![';'] + rest =~= e_gt() + rest);
    assert(seq!['&'] + apos + seq![';'] + rest =~= e_apos() + rest);
    assert(seq!['&'] + quot + seq![';'] + rest =~= e_quot() + rest);
    if c == '&' { lem_unesc_ent(amp, '&', rest); }
    else if c == '<' { lem_unesc_ent(lt, '<', rest); }
    else if c == '>' { lem_unesc_ent(gt, '>', rest); }
    else if c == '\'' { lem_unesc_ent(apos, '\'', rest); }
    else if c == '"' { lem_unesc_ent(quot, '"', rest); }
    if c != '&' {
        let s = seq![c] + rest;
        assert(s.skip(1) =~= rest);
        assert(s[0] == c);
    }
}
// ---- C01 ----------------------------------------------------------------------------------------
pub proof fn thm_c01_attr(s: Seq<char>)
    ensures unesc(esc_attr(s)) == s
    decreases s.len()
{
    if s.len() > 0 { lem_unesc_esc_c(s[0], esc_attr(s.skip(1))); thm_c01_attr(s.skip(1)); assert(seq![s[0]] + s.skip(1) =~= s); }
    else { assert(esc_attr(s) =~= s); assert(unesc(s) =~= s); }
}
pub proof fn thm_c01_text(s: Seq<char>)
    ensures unesc(esc_text(s)) == s
    decreases s.len()
{
    if s.len() > 0 { lem_unesc_esc_c(s[0], esc_text(s.skip(1))); thm_c01_text(s.skip(1)); assert(seq![s[0]] + s.skip(1) =~= s); }
    else { assert(esc_text(s) =~= s); assert(unesc(s) =~= s); }
}
// ---- C02 ----------------------------------------------------------------------------------------
/// one of the entities starts at k
pub open spec fn ent_at(s: Seq<char>, k: int, attr: bool) -> bool {
    occurs(s, e_amp(), k) || occurs(s, e_lt(), k) || occurs(s, e_gt(), k) || (attr && (occurs(s, e_apos(), k) || occurs(s, e_quot(), k)))
}
pub open spec fn safe(s: Seq<char>, attr: bool) -> bool {
    forall|k: int| 0 <= k < s.len() ==> #[trigger] s[k] != '<' && s[k] != '>' && (attr ==> s[k] != '"' && s[k] != '\'') && (s[k] == '&' ==> ent_at(s, k, attr))
}
pub proof fn lem_occurs_shift(a: Seq<char>, b: Seq<char>, p: Seq<char>, k: int)
    requires occurs(b, p, k)
    ensures occurs(a + b, p, a.len() + k)
{ assert((a + b).subrange(a.len() + k, a.len() + k + p.len()) =~= b.subrange(k, k + p.len())); }
pub proof fn lem_safe_cons(c: char, rest: Seq<char>, attr: bool)
    requires safe(rest, attr)
    ensures attr ==> safe(esc_a(c) + rest, true), !attr ==> safe(esc_t(c) + rest, false)
{
    let w = if attr { esc_a(c) } else { esc_t(c) };
    let s = w + rest;
    assert forall|k: int| 0 <= k < s.len() implies #[trigger] s[k] != '<' && s[k] != '>' && (attr ==> s[k] != '"' && s[k] != '\'') && (s[k] == '&' ==> ent_at(s, k, attr)) by {
        if k >= w.len() {
            assert(s[k] == rest[k - w.len()]);
            if s[k] == '&' {
                let m = k - w.len();
                if occurs(rest, e_amp(), m) { lem_occurs_shift(w, rest, e_amp(), m); }
                if occurs(rest, e_lt(), m) { lem_occurs_shift(w, rest, e_lt(), m); }
                if occurs(rest, e_gt(), m) { lem_occurs_shift(w, rest, e_gt(), m); }
                if attr && occurs(rest, e_apos(), m) { lem_occurs_shift(w, rest, e_apos(), m); }
                if attr && occurs(rest, e_quot(), m) { lem_occurs_shift(w, rest, e_quot(), m); }
            }
        } else {
            assert(s[k] == w[k]);
            if s[k] == '&' { assert(k == 0); assert(s.subrange(0, w.len() as int) =~= w); assert(s.subrange(0, 0 + w.len() as int) == w); }
        }
    }
}
pub proof fn thm_c02_attr(s: Seq<char>)
    ensures safe(esc_attr(s), true)
    decreases s.len()
{ if s.len() > 0 { thm_c02_attr(s.skip(1)); lem_safe_cons(s[0], esc_attr(s.skip(1)), true); } }
pub proof fn thm_c02_text(s: Seq<char>)
    ensures safe(esc_text(s), false)
    decreases s.len()
{ if s.len() > 0 { thm_c02_text(s.skip(1)); lem_safe_cons(s[0], esc_text(s.skip(1)), false); } }

// ---- the loop invariant of `unescape` and its three steps ----------------------------------------
/// buf is the decoded prefix of src up to char index p, followed by the still encoded rest
#[verifier::opaque] pub open spec fn un_inv(src: Seq<char>, buf: Seq<char>, p: int) -> bool { 0 <= p <= buf.len() && unesc(src) == buf.take(p) + unesc(buf.skip(p)) }
/// at char index q of b0 one reference (or a lone '&') was consumed: nb is the buffer after it, n the length of what it became
#[verifier::opaque] pub open spec fn un_step(b0: Seq<char>, q: int, nb: Seq<char>, n: int) -> bool {
    0 <= q < nb.len() && nb.take(q) == b0.take(q) && n == clen(nb[q]) && nb.len() - (q + 1) < b0.len() - q
        && unesc(b0.skip(q)) == seq![nb[q]] + unesc(nb.skip(q + 1))
}
pub proof fn lem_un_init(src: Seq<char>)
    ensures un_inv(src, src, 0), is_bd(src, 0), ix(src, 0) == 0
{ reveal(un_inv); assert(src.skip(0) =~= src); assert(src.take(0) + unesc(src) =~= unesc(src)); lem_off_ends(src); }
pub proof fn lem_un_end(src: Seq<char>, buf: Seq<char>, p: int)
    requires un_inv(src, buf, p), p == buf.len()
    ensures buf == unesc(src)
{ reveal(un_inv); assert(buf.take(p) + unesc(buf.skip(p)) =~= buf); }
pub proof fn lem_un_none(src: Seq<char>, buf: Seq<char>, p: int)
    requires un_inv(src, buf, p), find_from(buf.skip(p), seq!['&'], 0) is None
    ensures buf == unesc(src)
{ reveal(un_inv); lem_unesc_amp(buf.skip(p)); reveal(unesc_); assert(buf.take(p) + buf.skip(p) =~= buf); }
pub proof fn lem_un_found(src: Seq<char>, buf: Seq<char>, p: int)
    requires un_inv(src, buf, p), find_from(buf.skip(p), seq!['&'], 0) is Some
    ensures ({ let q = p + find_from(buf.skip(p), seq!['&'], 0)->Some_0;
        &&& p <= q < buf.len() &&& un_inv(src, buf, q) &&& buf[q] == '&'
        &&& off(buf, q) == off(buf, p) + off(buf.skip(p), q - p) &&& off(buf, p) <= off(buf, q) <= blen(buf) &&& is_bd(buf, off(buf, q)) &&& ix(buf, off(buf, q)) == q })
{
    reveal(un_inv); reveal(unesc_);
    let rest = buf.skip(p); lem_unesc_amp(rest);
    let k = find_from(rest, seq!['&'], 0)->Some_0; let q = p + k;
    lem_off_skip(buf, p, k); lem_off_bd(buf, q); lem_off_bd(buf, p); lem_off_bd(rest, k);
    assert(rest.skip(k) =~= buf.skip(q));
    assert(buf.take(p) + (rest.take(k) + unesc(buf.skip(q))) =~= buf.take(q) + unesc(buf.skip(q)));
}
/// no ';' follows: the '&' stays
pub proof fn lem_un_nosemi(b0: Seq<char>, q: int)
    requires 0 <= q < b0.len(), b0[q] == '&', free(b0.skip(q), b0.len() - q, ';')
    ensures un_step(b0, q, b0, 1)
{ reveal(un_step); reveal(unesc_); lem_unesc_nosemi(b0.skip(q)); assert(b0.skip(q).skip(1) =~= b0.skip(q + 1)); }
/// offsets of the candidate reference b0[q..=q+m]
pub proof fn lem_un_span(b0: Seq<char>, q: int, m: int)
    requires 0 <= q, 0 <= m < b0.len() - q, b0[q] == '&', b0[q + m] == ';'
    ensures m > 0, is_bd(b0, off(b0, q) + off(b0.skip(q), m) + 1), ix(b0, off(b0, q) + off(b0.skip(q), m) + 1) == q + m + 1,
        off(b0, q) + off(b0.skip(q), m) + 1 <= blen(b0), is_bd(b0.skip(q), off(b0.skip(q), m)), ix(b0.skip(q), off(b0.skip(q), m)) == m,
        off(b0.skip(q), m) >= 0,
        b0.skip(q).take(m) == seq!['&'] + b0.subrange(q + 1, q + m),
{
    let sl = b0.skip(q);
    lem_off_step(sl, m); lem_off_bd(sl, m); lem_off_bd(sl, m + 1); lem_off_skip(b0, q, m + 1); lem_off_bd(b0, q + m + 1);
    assert(sl.take(m) =~= seq!['&'] + b0.subrange(q + 1, q + m));
}
pub proof fn lem_un_ref(b0: Seq<char>, q: int, m: int, nb: Seq<char>, n: int)
    requires 0 <= q, 0 < m < b0.len() - q, b0[q] == '&', b0[q + m] == ';', free(b0.skip(q), m, ';'),
        match decode_(b0.subrange(q + 1, q + m)) {
            Some(c) => nb == b0.take(q) + seq![c] + b0.skip(q + m + 1) && n == clen(c),
            None => nb == b0 && n == 1,
        },
    ensures un_step(b0, q, nb, n)
{
    reveal(un_step); reveal(unesc_);
    let sl = b0.skip(q);
    lem_unesc_found(sl, m);
    assert(sl.subrange(1, m) =~= b0.subrange(q + 1, q + m));
    assert(sl.skip(m + 1) =~= b0.skip(q + m + 1));
    assert(sl.skip(1) =~= b0.skip(q + 1));
    match decode_(b0.subrange(q + 1, q + m)) {
        Some(c) => { assert(nb.take(q) =~= b0.take(q)); assert(nb[q] == c); assert(nb.skip(q + 1) =~= b0.skip(q + m + 1)); }
        None => {}
    }
}
pub proof fn lem_un_next(src: Seq<char>, b0: Seq<char>, q: int, nb: Seq<char>, n: int)
    requires un_inv(src, b0, q), un_step(b0, q, nb, n)
    ensures un_inv(src, nb, q + 1), is_bd(nb, off(b0, q) + n), ix(nb, off(b0, q) + n) == q + 1, off(b0, q) + n <= blen(nb), off(b0, q) >= 0, n >= 0,
        nb.len() - (q + 1) < b0.len() - q, 
{
    reveal(un_inv); reveal(un_step);
    lem_off_blen(b0, q); lem_off_blen(nb, q); lem_off_step(nb, q); lem_off_bd(nb, q + 1);
    assert(b0.take(q) + (seq![nb[q]] + unesc(nb.skip(q + 1))) =~= nb.take(q + 1) + unesc(nb.skip(q + 1)));
}
