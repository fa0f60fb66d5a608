// ---- C12: XML names ---------------------------------------------------------------------------------
pub open spec fn name_start(c: char) -> bool {
    let u = c as u32;
    (0x41 <= u <= 0x5a) || u == 0x5f || (0x61 <= u <= 0x7a) || (0xc0 <= u <= 0xd6) || (0xd8 <= u <= 0xf6) || (0xf8 <= u <= 0x2ff) || (0x370 <= u <= 0x37d)
    || (0x37f <= u <= 0x1fff) || (0x200c <= u <= 0x200d) || (0x2070 <= u <= 0x218f) || (0x2c00 <= u <= 0x2fef) || (0x3001 <= u <= 0xd7ff)
    || (0xf900 <= u <= 0xfdcf) || (0xfdf0 <= u <= 0xfffd) || (0x10000 <= u <= 0xeffff)
}
pub open spec fn name_char(c: char) -> bool {
    let u = c as u32;
    name_start(c) || u == 0x3a || u == 0x2d || u == 0x2e || (0x30 <= u <= 0x39) || u == 0xb7 || (0x300 <= u <= 0x36f) || (0x203f <= u <= 0x2040)
}
/// an XML name that does not start with ':'
pub open spec fn xml_name(s: Seq<char>) -> bool { s.len() > 0 && name_start(s[0]) && forall|i: int| 1 <= i < s.len() ==> name_char(#[trigger] s[i]) }
pub proof fn lem_m_chr(g: spec_fn(char) -> bool, s: Seq<char>) ensures re_m(Re::Chr(g), s) == (s.len() == 1 && g(s[0])) {}
pub open spec fn cat_at(a: Re, b: Re, s: Seq<char>, k: int) -> bool { 0 <= k <= s.len() && re_m(a, s.take(k)) && re_m(b, s.skip(k)) }
pub open spec fn star_at(a: Re, s: Seq<char>, k: int) -> bool { 0 < k <= s.len() && re_m(a, s.take(k)) && re_m(re_star(a), s.skip(k)) }
pub proof fn lem_m_cat(a: Re, b: Re, s: Seq<char>) ensures re_m(re_cat(a, b), s) == (exists|k: int| #[trigger] cat_at(a, b, s, k))
{
    let r = re_cat(a, b);
    match r {
        Re::Cat(x, y) => {
            assert(*x == a && *y == b);
            if re_m(r, s) { let k = choose|k: int| 0 <= k <= s.len() && re_m(*x, #[trigger] s.take(k)) && re_m(*y, s.skip(k)); assert(cat_at(a, b, s, k)); }
            if exists|k: int| #[trigger] cat_at(a, b, s, k) { let k = choose|k: int| #[trigger] cat_at(a, b, s, k); assert(re_m(*x, s.take(k)) && re_m(*y, s.skip(k))); assert(re_m(r, s)); }
        }
        _ => {}
    }
}
pub proof fn lem_m_star(a: Re, s: Seq<char>) ensures re_m(re_star(a), s) == (s.len() == 0 || exists|k: int| #[trigger] star_at(a, s, k))
{
    let r = re_star(a);
    match r {
        Re::Star(x) => {
            assert(*x == a);
            if re_m(r, s) && s.len() > 0 { let k = choose|k: int| 0 < k <= s.len() && re_m(*x, #[trigger] s.take(k)) && re_m(r, s.skip(k)); assert(star_at(a, s, k)); }
            if exists|k: int| #[trigger] star_at(a, s, k) { let k = choose|k: int| #[trigger] star_at(a, s, k); assert(re_m(*x, s.take(k)) && re_m(r, s.skip(k))); assert(re_m(r, s)); }
        }
        _ => {}
    }
}
pub proof fn lem_star_chr(g: spec_fn(char) -> bool, s: Seq<char>)
    ensures re_m(re_star(Re::Chr(g)), s) <==> (forall|i: int| 0 <= i < s.len() ==> g(#[trigger] s[i]))
    decreases s.len()
{
    hide(re_m);
    let r = re_star(Re::Chr(g));
    lem_m_star(Re::Chr(g), s);
    if s.len() > 0 {
        lem_star_chr(g, s.skip(1));
        lem_m_chr(g, s.take(1));
        if re_m(r, s) {
            let k = choose|k: int| #[trigger] star_at(Re::Chr(g), s, k);
            lem_m_chr(g, s.take(k));
            assert(s.take(k).len() == 1); assert(s.take(k)[0] == s[0]);
            assert forall|i: int| 0 <= i < s.len() implies g(#[trigger] s[i]) by { if i > 0 { assert(s.skip(1)[i - 1] == s[i]); } }
        }
        if forall|i: int| 0 <= i < s.len() ==> g(#[trigger] s[i]) {
            assert forall|i: int| 0 <= i < s.skip(1).len() implies g(#[trigger] s.skip(1)[i]) by { assert(s.skip(1)[i] == s[i + 1]); }
            assert(s.take(1)[0] == s[0]); assert(g(s[0]));
            assert(star_at(Re::Chr(g), s, 1));
        }
    }
}
/// `FG*`
pub proof fn lem_cat_chr(f: spec_fn(char) -> bool, g: spec_fn(char) -> bool, s: Seq<char>)
    ensures re_m(re_cat(Re::Chr(f), re_star(Re::Chr(g))), s) <==> (s.len() > 0 && f(s[0]) && (forall|i: int| 1 <= i < s.len() ==> g(#[trigger] s[i])))
{
    hide(re_m);
    let st = re_star(Re::Chr(g));
    let r = re_cat(Re::Chr(f), st);
    lem_m_cat(Re::Chr(f), st, s);
    if re_m(r, s) {
        let k = choose|k: int| #[trigger] cat_at(Re::Chr(f), st, s, k);
        lem_m_chr(f, s.take(k));
        assert(s.take(k).len() == 1); assert(s.take(k)[0] == s[0]);
        lem_star_chr(g, s.skip(1));
        assert forall|i: int| 1 <= i < s.len() implies g(#[trigger] s[i]) by { assert(s.skip(1)[i - 1] == s[i]); }
    }
    if s.len() > 0 && f(s[0]) && (forall|i: int| 1 <= i < s.len() ==> g(#[trigger] s[i])) {
        assert(s.take(1)[0] == s[0]);
        lem_m_chr(f, s.take(1));
        lem_star_chr(g, s.skip(1));
        assert forall|i: int| 0 <= i < s.skip(1).len() implies g(#[trigger] s.skip(1)[i]) by { assert(s.skip(1)[i] == s[i + 1]); }
        assert(cat_at(Re::Chr(f), st, s, 1));
    }
}
/// `^FG*$`
pub broadcast proof fn lem_re_name(f: spec_fn(char) -> bool, g: spec_fn(char) -> bool, s: Seq<char>)
    ensures #![trigger re_is_match(true, true, re_cat(Re::Chr(f), re_star(Re::Chr(g))), s)]
        re_is_match(true, true, re_cat(Re::Chr(f), re_star(Re::Chr(g))), s) <==> (s.len() > 0 && f(s[0]) && (forall|i: int| 1 <= i < s.len() ==> g(#[trigger] s[i])))
{
    hide(re_m);
    let r = re_cat(Re::Chr(f), re_star(Re::Chr(g)));
    assert(s.subrange(0, s.len() as int) =~= s);
    lem_cat_chr(f, g, s);
    if re_m(r, s) { assert(re_m(r, s.subrange(0, s.len() as int))); }
}
/// text nodes dropped by the normal form: one or more whitespace characters and nothing else
pub open spec fn blank(s: Seq<char>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> is_ws(#[trigger] s[i]) }
// ---- C11, C12, C15 ----------------------------------------------------------------------------------
pub open spec fn comment_end() -> Seq<char> { seq!['-', '-', '>'] }
pub open spec fn cdata_end() -> Seq<char> { seq![']', ']', '>'] }
pub open spec fn same_but_attrs(a: Element, b: Element) -> bool {
    b == (Element { attributes: b.attributes, ..a })
}
pub open spec fn decl_ok(s: Seq<char>) -> bool { trim(s).len() >= 4 && starts(trim(s), seq!['<', '?']) && ends(trim(s), seq!['?', '>']) }
pub open spec fn dtd_ok(s: Seq<char>) -> bool { dtd_ok_at(trim(s)) }
pub open spec fn default_decl() -> Seq<char> { "<?xml version=\"1.0\" encoding=\"UTF-8\"?>"@ }
pub proof fn lem_delim(s: Seq<char>, p: Seq<char>, q: Seq<char>)
    requires starts(s, p), ends(s, q), s.len() >= p.len() + q.len()
    ensures starts(s, p), s.skip(p.len() as int).len() >= q.len(), ends(s.skip(p.len() as int), q),
        p + s.skip(p.len() as int).take(s.len() - p.len() - q.len()) + q == s
{
    let n = s.len() - p.len() - q.len();
    assert(s.skip(p.len() as int).skip(n) =~= s.skip(s.len() - q.len()));
    assert(p + s.skip(p.len() as int).take(n) + q =~= s.take(p.len() as int) + s.subrange(p.len() as int, p.len() + n) + s.skip(s.len() - q.len()));
    assert(s.take(p.len() as int) + s.subrange(p.len() as int, p.len() + n) + s.skip(s.len() - q.len()) =~= s);
}
/// a declaration of at least 4 bytes has at least 4 characters
pub proof fn lem_decl_len(s: Seq<char>)
    requires starts(s, seq!['<', '?']), ends(s, seq!['?', '>'])
    ensures blen(s) >= 4 <==> s.len() >= 4
{
    lem_blen_ge(s);
    if s.len() < 4 {
        assert(s.take(2)[0] == s[0]); assert(s.take(2)[1] == s[1]);
        assert(s.skip(s.len() - 2)[0] == s[s.len() - 2]); assert(s.skip(s.len() - 2)[1] == s[s.len() - 1]);
        lem_ascii_blen(s);
    }
}
pub proof fn lem_dtd_len(s: Seq<char>)
    requires dtd_ok_at(s)
    ensures s.len() >= 10
{ if s.len() == 9 { assert(s.take(9)[8] == s[8]); assert(s.skip(8)[0] == s[8]); } }
pub open spec fn dtd_ok_at(s: Seq<char>) -> bool { starts(s, seq!['<', '!', 'D', 'O', 'C', 'T', 'Y', 'P', 'E']) && ends(s, seq!['>']) }
pub proof fn lem_default_decl()
    ensures decl_ok(default_decl()), trim(default_decl()) == default_decl()
{
    reveal_strlit("<?xml version=\"1.0\" encoding=\"UTF-8\"?>");
    let s = default_decl();
    assert(s =~= seq!['<', '?', 'x', 'm', 'l', ' ', 'v', 'e', 'r', 's', 'i', 'o', 'n', '=', '"', '1', '.', '0', '"', ' ', 'e', 'n', 'c', 'o', 'd', 'i', 'n', 'g', '=', '"', 'U', 'T', 'F', '-', '8', '"', '?', '>']);
    assert(!is_ws(s[0])); assert(!is_ws(s.last()));
    assert(trim_l(s) == s); assert(trim_r(s) == s);
    assert(s.take(2) =~= seq!['<', '?']); assert(s.skip(s.len() - 2) =~= seq!['?', '>']);
}
