// ---- C04, C06, C07: finding tags ---------------------------------------------------------------------------
pub open spec fn is_quote(c: char) -> bool { c == '"' || c == '\'' }
/// quoting state after one character
pub open spec fn qnext(q: Option<char>, c: char) -> Option<char> { match q { Some(x) => if c == x { None } else { q }, None => if is_quote(c) { Some(c) } else { None } } }
/// first position from k on, outside quotes, where p starts
pub open spec fn qfind(s: Seq<char>, p: Seq<char>, k: int, q: Option<char>) -> Option<int> decreases s.len() - k {
    if k < 0 || k >= s.len() { None } else if q is None && !is_quote(s[k]) && starts(s.skip(k), p) { Some(k) } else { qfind(s, p, k + 1, qnext(q, s[k])) }
}
/// first '>' from k on, outside quotes, that closes no nested '<'
pub open spec fn nclose(s: Seq<char>, k: int, d: int, q: Option<char>) -> Option<int> decreases s.len() - k {
    if k < 0 || k >= s.len() { None } else if q is None && s[k] == '>' && d == 0 { Some(k) } else {
        nclose(s, k + 1, if q is None && s[k] == '<' { d + 1 } else if q is None && s[k] == '>' { d - 1 } else { d }, qnext(q, s[k]))
    }
}
pub open spec fn q_of(in_quote: bool, c: char) -> Option<char> { if in_quote { Some(c) } else { None } }
pub open spec fn lt_s() -> Seq<char> { seq!['<'] }
pub open spec fn com_open() -> Seq<char> { seq!['<', '!', '-', '-'] }
pub open spec fn cda_open() -> Seq<char> { seq!['<', '!', '[', 'C', 'D', 'A', 'T', 'A', '['] }
pub open spec fn pi_open() -> Seq<char> { seq!['<', '?'] }
pub open spec fn bang() -> Seq<char> { seq!['<', '!'] }
pub open spec fn plus(o: Option<int>, n: int) -> Option<int> { match o { Some(k) => Some(k + n), None => None } }
/// length of the tag that t starts with (t starts with '<'), if it is complete
pub open spec fn tag_len(t: Seq<char>) -> Option<int> {
    if starts(t, com_open()) { plus(find_from(t, comment_end(), 4), 3) }
    else if starts(t, pi_open()) { plus(qfind(t, seq!['?', '>'], 2, None), 2) }
    else if starts(t, cda_open()) { plus(find_from(t, cdata_end(), 0), 3) }
    else if starts(t, bang()) { plus(nclose(t, 2, 0, None), 1) }
    else { plus(qfind(t, seq!['>'], 1, None), 1) }
}
pub open spec fn tag_at(s: Seq<char>, k: int) -> Option<int> { find_from(s, lt_s(), k) }
pub open spec fn tag_end(s: Seq<char>, k: int) -> Option<int> { match tag_at(s, k) { Some(a) => plus(tag_len(s.skip(a)), a), None => None } }

pub proof fn lem_qfind(s: Seq<char>, p: Seq<char>, k: int, q: Option<char>)
    requires 0 <= k
    ensures match qfind(s, p, k, q) { Some(j) => k <= j < s.len() && starts(s.skip(j), p) && j + p.len() <= s.len(), None => true }
    decreases s.len() - k
{ if k < s.len() && !(q is None && !is_quote(s[k]) && starts(s.skip(k), p)) { lem_qfind(s, p, k + 1, qnext(q, s[k])); } }
pub proof fn lem_nclose(s: Seq<char>, k: int, d: int, q: Option<char>)
    requires 0 <= k
    ensures match nclose(s, k, d, q) { Some(j) => k <= j < s.len() && s[j] == '>', None => true }
    decreases s.len() - k
{ if k < s.len() && !(q is None && s[k] == '>' && d == 0) { lem_nclose(s, k + 1, if q is None && s[k] == '<' { d + 1 } else if q is None && s[k] == '>' { d - 1 } else { d }, qnext(q, s[k])); } }
/// searching in a suffix
pub proof fn lem_find_skip(s: Seq<char>, p: Seq<char>, a: int, k: int)
    requires 0 <= a <= s.len(), 0 <= k
    ensures plus(find_from(s.skip(a), p, k), a) == find_from(s, p, a + k)
    decreases s.len() + 1 - a - k
{
    if a + k + p.len() <= s.len() {
        assert(s.skip(a).subrange(k, k + p.len()) =~= s.subrange(a + k, a + k + p.len()));
        if !occurs(s, p, a + k) { lem_find_skip(s, p, a, k + 1); }
    }
}
pub proof fn lem_tag_len(t: Seq<char>)
    requires starts(t, lt_s())
    ensures match tag_len(t) { Some(n) => 2 <= n <= t.len(), None => true },
        starts(t, com_open()) ==> match tag_len(t) { Some(n) => 7 <= n && find_from(t, comment_end(), 4) == Some(n - 3) && find_from(t.subrange(4, n - 3), comment_end(), 0) is None && ends(t.take(n), comment_end()), None => true },
        starts(t, cda_open()) ==> match tag_len(t) { Some(n) => 12 <= n && find_from(t, cdata_end(), 0) == Some(n - 3) && find_from(t.subrange(9, n - 3), cdata_end(), 0) is None && ends(t.take(n), cdata_end()), None => true },
{
    lem_find_from(t, comment_end(), 4); lem_find_from(t, cdata_end(), 0);
    lem_qfind(t, seq!['?', '>'], 2, None); lem_qfind(t, seq!['>'], 1, None); lem_nclose(t, 2, 0, None);
    assert(t.take(1)[0] == t[0]);
    if starts(t, com_open()) {
        match find_from(t, comment_end(), 4) {
            Some(j) => {
                let u = t.subrange(4, j);
                assert forall|i: int| 0 <= i implies !#[trigger] occurs(u, comment_end(), i) by { if i + 3 <= u.len() { assert(u.subrange(i, i + 3) =~= t.subrange(4 + i, 7 + i)); assert(!occurs(t, comment_end(), 4 + i)); } }
                lem_find_none(u, comment_end(), 0);
                assert(t.take(j + 3).skip(j) =~= t.subrange(j, j + 3));
            }
            None => {}
        }
    } else if starts(t, cda_open()) && !starts(t, pi_open()) {
        match find_from(t, cdata_end(), 0) {
            Some(j) => {
                assert(t.subrange(j, j + 3)[0] == ']'); assert(t[j] == ']');
                let h = t.take(9); assert(h[0] == t[0] && h[1] == t[1] && h[2] == t[2] && h[3] == t[3] && h[4] == t[4] && h[5] == t[5] && h[6] == t[6] && h[7] == t[7] && h[8] == t[8]);
                let u = t.subrange(9, j);
                assert forall|i: int| 0 <= i implies !#[trigger] occurs(u, cdata_end(), i) by { if i + 3 <= u.len() { assert(u.subrange(i, i + 3) =~= t.subrange(9 + i, 12 + i)); assert(!occurs(t, cdata_end(), 9 + i)); } }
                lem_find_none(u, cdata_end(), 0);
                assert(t.take(j + 3).skip(j) =~= t.subrange(j, j + 3));
            }
            None => {}
        }
    }
    if starts(t, cda_open()) { assert(t.take(9)[1] == t[1]); assert(t.take(4)[2] == t[2]); assert(t.take(9)[2] == t[2]); if starts(t, com_open()) { assert(com_open()[2] == '-'); assert(false); } if starts(t, pi_open()) { assert(t.take(2)[1] == t[1]); assert(false); } }
}
/// what the next tag's span satisfies
pub proof fn lem_next(s: Seq<char>, k: int)
    requires 0 <= k <= s.len()
    ensures match tag_at(s, k) { Some(a) => k <= a < s.len() && s[a] == '<' && starts(s.skip(a), lt_s()) && find_from(s.subrange(k, a), lt_s(), 0) is None, None => true },
        match tag_end(s, k) { Some(b) => tag_at(s, k) is Some && tag_at(s, k)->Some_0 + 2 <= b <= s.len(), None => true },
{
    lem_find_from(s, lt_s(), k);
    match tag_at(s, k) {
        Some(a) => {
            assert(s.subrange(a, a + 1)[0] == s[a]); assert(s.skip(a).take(1) =~= lt_s()); lem_tag_len(s.skip(a));
            let u = s.subrange(k, a);
            assert forall|i: int| 0 <= i implies !#[trigger] occurs(u, lt_s(), i) by { if i + 1 <= u.len() { assert(u.subrange(i, i + 1) =~= s.subrange(k + i, k + i + 1)); assert(!occurs(s, lt_s(), k + i)); } }
            lem_find_none(u, lt_s(), 0);
        }
        None => {}
    }
}
pub open spec fn oix(s: Seq<char>, o: Option<usize>) -> Option<int> { match o { Some(x) => Some(ix(s, x as int)), None => None } }
pub open spec fn obd(s: Seq<char>, o: Option<usize>) -> bool { match o { Some(x) => is_bd(s, x as int), None => true } }
/// a regular expression match against /^\s*$/
pub open spec fn all_ws(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_ws(#[trigger] s[i]) }
pub broadcast proof fn lem_re_star(g: spec_fn(char) -> bool, s: Seq<char>)
    ensures #![trigger re_is_match(true, true, re_star(Re::Chr(g)), s)]
        re_is_match(true, true, re_star(Re::Chr(g)), s) <==> (forall|i: int| 0 <= i < s.len() ==> g(#[trigger] s[i]))
{
    hide(re_m);
    let r = re_star(Re::Chr(g));
    lem_star_chr(g, s);
    assert(s.subrange(0, s.len() as int) =~= s);
    if re_m(r, s) { assert(re_m(r, s.subrange(0, s.len() as int))); }
}
/// '<', '/', '>', '/' are removed from the ends, then blanks
pub open spec fn strip1(s: Seq<char>, c: char) -> Seq<char> { if s.len() > 0 && s[0] == c { s.skip(1) } else { s } }
pub open spec fn stripr(s: Seq<char>, c: char) -> Seq<char> { if s.len() > 0 && s.last() == c { s.drop_last() } else { s } }
pub open spec fn strip(t: Seq<char>) -> Seq<char> { trim(stripr(stripr(strip1(strip1(t, '<'), '/'), '>'), '/')) }
pub proof fn lem_starts1(s: Seq<char>, c: char) ensures starts(s, seq![c]) <==> s.len() > 0 && s[0] == c, s.len() > 0 && (c as u32) < 0x80 && s[0] == c ==> off(s, 1) == 1 && is_bd(s, 1) && ix(s, 1) == 1
{ if s.len() > 0 { assert(s.take(1)[0] == s[0]); assert(s.take(1) =~= seq![s[0]]); lem_off_ends(s); lem_off_step(s, 0); lem_off_bd(s, 1); } }
pub proof fn lem_ends1(s: Seq<char>, c: char) ensures ends(s, seq![c]) <==> s.len() > 0 && s.last() == c,
    s.len() > 0 && (c as u32) < 0x80 && s.last() == c ==> off(s, s.len() - 1) == blen(s) - 1 && is_bd(s, blen(s) - 1) && ix(s, blen(s) - 1) == s.len() - 1 && s.take(s.len() - 1) == s.drop_last()
{ if s.len() > 0 { assert(s.skip(s.len() - 1)[0] == s.last()); assert(s.skip(s.len() - 1) =~= seq![s.last()]); assert(s.take(s.len() - 1) =~= s.drop_last()); lem_off_ends(s); lem_off_step(s, s.len() - 1); lem_off_bd(s, s.len() - 1); } }

pub proof fn lem_ascii_step(t: Seq<char>, j: int, p: Seq<char>)
    requires 0 <= j, j + p.len() <= t.len(), t.subrange(j, j + p.len()) == p, all_ascii(p)
    ensures off(t, j + p.len()) == off(t, j) + p.len(), off(t, j + p.len()) <= blen(t)
{ lem_ascii_blen(p); lem_blen_sub(t, j, j + p.len()); lem_off_bd(t, j + p.len()); }
pub proof fn lem_ascii_start(t: Seq<char>, p: Seq<char>)
    requires starts(t, p), all_ascii(p)
    ensures off(t, p.len() as int) == p.len(), is_bd(t, p.len() as int), ix(t, p.len() as int) == p.len(), 0 <= p.len() <= t.len(), blen(t) >= p.len()
{ assert(t.take(p.len() as int) =~= t.subrange(0, p.len() as int)); lem_ascii_step(t, 0, p); lem_off_ends(t); lem_off_bd(t, p.len() as int); }
/// byte positions of the end of the tag at a
pub proof fn lem_tag_off(s: Seq<char>, a: int)
    requires 0 <= a <= s.len(), starts(s.skip(a), lt_s())
    ensures ({ let t = s.skip(a);
        &&& is_bd(t, 1) && ix(t, 1) == 1
        &&& starts(t, com_open()) ==> is_bd(t, 4) && ix(t, 4) == 4
        &&& starts(t, bang()) || starts(t, pi_open()) ==> is_bd(t, 2) && ix(t, 2) == 2
        &&& match tag_len(t) { Some(n) => off(s, a + n) == off(s, a) + off(t, n) && off(s, a + n) <= blen(s) && is_bd(s, off(s, a + n)) && off(t, n) <= blen(t)
            && 0 <= off(s, a)
            && if starts(t, com_open()) { 0 <= off(t.skip(4), n - 7) && off(t, n) == off(t, n - 3) + 3 && off(t, n - 3) == 4 + off(t.skip(4), n - 7) && find_from(t.skip(4), comment_end(), 0) == Some(n - 7) }
               else if starts(t, pi_open()) { off(t, n) == off(t, n - 2) + 2 }
               else if starts(t, cda_open()) { 0 <= off(t, n - 3) && off(t, n) == off(t, n - 3) + 3 }
               else { off(t, n) == off(t, n - 1) + 1 },
           None => starts(t, com_open()) ==> find_from(t.skip(4), comment_end(), 0) is None }
    })
{
    let t = s.skip(a);
    lem_ascii_start(t, lt_s());
    if starts(t, com_open()) { lem_ascii_start(t, com_open()); lem_find_skip(t, comment_end(), 4, 0); }
    if starts(t, bang()) { lem_ascii_start(t, bang()); }
    if starts(t, pi_open()) { lem_ascii_start(t, pi_open()); }
    lem_tag_len(t);
    lem_qfind(t, seq!['?', '>'], 2, None); lem_qfind(t, seq!['>'], 1, None); lem_nclose(t, 2, 0, None);
    lem_find_from(t, comment_end(), 4); lem_find_from(t, cdata_end(), 0);
    match tag_len(t) {
        Some(n) => {
            lem_off_skip(s, a, n); lem_off_bd(s, a + n); lem_off_bd(s, a); if n >= 3 { lem_off_bd(t, n - 3); } if n >= 7 { lem_off_bd(t.skip(4), n - 7); } lem_off_bd(t, n);
            if starts(t, com_open()) { lem_ascii_step(t, n - 3, comment_end()); lem_off_skip(t, 4, n - 7); }
            else if starts(t, pi_open()) { let p = seq!['?', '>']; assert(t.skip(n - 2).take(2) =~= t.subrange(n - 2, n)); lem_ascii_step(t, n - 2, p); }
            else if starts(t, cda_open()) { lem_ascii_step(t, n - 3, cdata_end()); }
            else if starts(t, bang()) { assert(t.subrange(n - 1, n) =~= seq!['>']); lem_ascii_step(t, n - 1, seq!['>']); }
            else { let p = seq!['>']; assert(t.skip(n - 1).take(1) =~= t.subrange(n - 1, n)); lem_ascii_step(t, n - 1, p); }
        }
        None => {}
    }
}
pub proof fn lem_tok_lits(t: Seq<char>)
    ensures "-->"@ == comment_end(), "]]>"@ == cdata_end(), "<![CDATA["@ == cda_open(), "<!--"@ == com_open(), "<!"@ == bang(), "<?"@ == pi_open(), "?>"@ == seq!['?', '>'], ">"@ == seq!['>'],
        starts(t, cda_open()) ==> !starts(t, com_open()) && !starts(t, pi_open()), starts(t, com_open()) ==> !starts(t, pi_open()),
{
    reveal_strlit("-->"); reveal_strlit("]]>"); reveal_strlit("<![CDATA["); reveal_strlit("<!--"); reveal_strlit("<!"); reveal_strlit("<?"); reveal_strlit("?>"); reveal_strlit(">");
    assert("-->"@ =~= comment_end()); assert("]]>"@ =~= cdata_end()); assert("<![CDATA["@ =~= cda_open()); assert("<!--"@ =~= com_open()); assert("<!"@ =~= bang()); assert("<?"@ =~= pi_open()); assert("?>"@ =~= seq!['?', '>']); assert(">"@ =~= seq!['>']);
    if starts(t, cda_open()) { assert(t.take(9)[1] == t[1]); assert(t.take(9)[2] == t[2]); if starts(t, com_open()) { assert(t.take(4)[2] == t[2]); } if starts(t, pi_open()) { assert(t.take(2)[1] == t[1]); } }
    if starts(t, com_open()) { assert(t.take(4)[1] == t[1]); if starts(t, pi_open()) { assert(t.take(2)[1] == t[1]); } }
}
