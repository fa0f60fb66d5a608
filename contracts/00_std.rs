// ---------------------------------------------------------------------------------------------
// TRUSTED: contracts assumed for std (strings, chars, collections, iterators). No repo code here.
// Every external_body / axiom in this file is an assumption; all are listed in the evidence.
// ---------------------------------------------------------------------------------------------

// ---- UTF-8 offset model: strings are Seq<char>; byte offsets are sums of encoded lengths -------
pub open spec fn clen(c: char) -> nat {
    let u = c as u32;
    if u < 0x80 { 1 } else if u < 0x800 { 2 } else if u < 0x10000 { 3 } else { 4 }
}
pub open spec fn blen(s: Seq<char>) -> nat decreases s.len() {
    if s.len() == 0 { 0 } else { blen(s.drop_last()) + clen(s.last()) }
}
/// byte offset of char index k
pub closed spec fn off(s: Seq<char>, k: int) -> int { blen(s.take(k)) as int }
/// o is a char boundary of s
pub closed spec fn is_bd(s: Seq<char>, o: int) -> bool { exists|k: int| 0 <= k <= s.len() && off(s, k) == o }
/// char index of boundary o
pub closed spec fn ix(s: Seq<char>, o: int) -> int { choose|k: int| 0 <= k <= s.len() && off(s, k) == o }

pub proof fn lem_blen_add(a: Seq<char>, b: Seq<char>)
    ensures blen(a + b) == blen(a) + blen(b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); } else {
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
        lem_blen_add(a, b.drop_last());
    }
}
pub proof fn lem_off_blen(s: Seq<char>, k: int)
    ensures blen(s.take(k)) == off(s, k)
{}
pub proof fn lem_blen_ge(s: Seq<char>)
    ensures s.len() <= blen(s) <= 4 * s.len()
    decreases s.len()
{ if s.len() > 0 { lem_blen_ge(s.drop_last()); } }

pub proof fn lem_off_mono(s: Seq<char>, i: int, j: int)
    requires 0 <= i < j <= s.len()
    ensures off(s, i) < off(s, j), off(s, i) + (j - i) <= off(s, j)
{
    assert(s.take(j) =~= s.take(i) + s.subrange(i, j));
    lem_blen_add(s.take(i), s.subrange(i, j));
    lem_blen_ge(s.subrange(i, j));
}
pub broadcast proof fn lem_off_bd(s: Seq<char>, k: int)
    requires 0 <= k <= s.len()
    ensures #![trigger off(s, k)]
        is_bd(s, off(s, k)), ix(s, off(s, k)) == k, k <= off(s, k) <= blen(s),
{
    let o = off(s, k);
    assert(0 <= k <= s.len() && off(s, k) == o);
    let m = ix(s, o);
    assert(0 <= m <= s.len() && off(s, m) == o);
    if m < k { lem_off_mono(s, m, k); }
    if k < m { lem_off_mono(s, k, m); }
    lem_blen_ge(s.take(k));
    assert(s =~= s.take(k) + s.skip(k));
    lem_blen_add(s.take(k), s.skip(k));
}
pub broadcast proof fn lem_off_ends(s: Seq<char>)
    ensures #![trigger blen(s)] off(s, 0) == 0, off(s, s.len() as int) == blen(s), is_bd(s, 0), is_bd(s, blen(s) as int),
        ix(s, 0) == 0, ix(s, blen(s) as int) == s.len(), s.len() <= blen(s),
{
    assert(s.take(0) =~= Seq::<char>::empty());
    assert(s.take(s.len() as int) =~= s);
    lem_off_bd(s, 0); lem_off_bd(s, s.len() as int);
    lem_blen_ge(s);
}
pub broadcast proof fn lem_off_step(s: Seq<char>, k: int)
    requires 0 <= k < s.len()
    ensures #![trigger off(s, k), s[k]] off(s, k + 1) == off(s, k) + clen(s[k]), off(s, k) < blen(s),
{
    assert(s.take(k + 1).drop_last() =~= s.take(k));
    lem_off_bd(s, k + 1);
}
pub broadcast proof fn lem_off_skip(s: Seq<char>, a: int, j: int)
    requires 0 <= a <= s.len(), 0 <= j <= s.len() - a
    ensures #![trigger off(s.skip(a), j)] off(s, a + j) == off(s, a) + off(s.skip(a), j),
        is_bd(s, off(s, a) + off(s.skip(a), j)), ix(s, off(s, a) + off(s.skip(a), j)) == a + j,
{
    assert(s.take(a + j) =~= s.take(a) + s.skip(a).take(j));
    lem_blen_add(s.take(a), s.skip(a).take(j));
    lem_off_bd(s, a + j);
}
pub broadcast proof fn lem_off_take(s: Seq<char>, a: int, j: int)
    requires 0 <= a <= s.len(), 0 <= j <= a
    ensures #![trigger off(s.take(a), j)] off(s.take(a), j) == off(s, j),
{ assert(s.take(a).take(j) =~= s.take(j)); }
pub broadcast proof fn lem_off_sub(s: Seq<char>, a: int, b: int, j: int)
    requires 0 <= a <= b <= s.len(), 0 <= j <= b - a
    ensures #![trigger off(s.subrange(a, b), j)] off(s, a + j) == off(s, a) + off(s.subrange(a, b), j),
{
    assert(s.take(a + j) =~= s.take(a) + s.subrange(a, b).take(j));
    lem_blen_add(s.take(a), s.subrange(a, b).take(j));
}
pub broadcast proof fn lem_blen_skip(s: Seq<char>, a: int)
    requires 0 <= a <= s.len()
    ensures #![trigger blen(s.skip(a))] blen(s.skip(a)) == blen(s) - off(s, a)
{
    assert(s =~= s.take(a) + s.skip(a));
    lem_blen_add(s.take(a), s.skip(a));
}
pub broadcast proof fn lem_blen_sub(s: Seq<char>, a: int, b: int)
    requires 0 <= a <= b <= s.len()
    ensures #![trigger blen(s.subrange(a, b))] blen(s.subrange(a, b)) == off(s, b) - off(s, a)
{
    assert(s.take(b) =~= s.take(a) + s.subrange(a, b));
    lem_blen_add(s.take(a), s.subrange(a, b));
}
/// comparing offsets is comparing indices
pub broadcast proof fn lem_off_lt(s: Seq<char>, i: int, j: int)
    requires 0 <= i <= s.len(), 0 <= j <= s.len()
    ensures #![trigger off(s, i), off(s, j)] i < j <==> off(s, i) < off(s, j), i == j <==> off(s, i) == off(s, j),
{
    if i < j { lem_off_mono(s, i, j); }
    if j < i { lem_off_mono(s, j, i); }
}
pub broadcast proof fn lem_bd_ix(s: Seq<char>, o: int)
    requires is_bd(s, o)
    ensures #![trigger ix(s, o)] 0 <= ix(s, o) <= s.len(), off(s, ix(s, o)) == o
{}
/// two leading ASCII chars
pub proof fn lem_off_two(s: Seq<char>)
    requires s.len() >= 2, (s[0] as u32) < 0x80, (s[1] as u32) < 0x80
    ensures off(s, 2) == 2, is_bd(s, 2), ix(s, 2) == 2
{ lem_off_ends(s); lem_off_step(s, 0); lem_off_step(s, 1); lem_off_bd(s, 2); }
/// a boundary at (or past) the byte length is the end of the string
pub proof fn lem_bd_end(s: Seq<char>, o: int)
    requires is_bd(s, o), o >= blen(s)
    ensures o == blen(s), ix(s, o) == s.len()
{ lem_off_ends(s); lem_off_lt(s, ix(s, o), s.len() as int); }
pub broadcast group group_off {
    lem_off_bd, lem_off_ends, lem_off_step, lem_off_skip, lem_off_take, lem_off_sub, lem_blen_skip, lem_blen_sub, lem_bd_ix,
}
/// single-char offsets of ASCII strings (no reasoning about encodings needed by callers)
pub open spec fn all_ascii(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i] as u32) < 0x80 }
pub proof fn lem_ascii_blen(s: Seq<char>)
    requires all_ascii(s)
    ensures blen(s) == s.len()
    decreases s.len()
{ if s.len() > 0 { assert(s.last() == s[s.len() - 1]); assert forall|i: int| 0 <= i < s.drop_last().len() implies (#[trigger] s.drop_last()[i] as u32) < 0x80 by { assert(s.drop_last()[i] == s[i]); } lem_ascii_blen(s.drop_last()); } }
pub proof fn lem_ascii_off(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(), forall|i: int| 0 <= i < k ==> (#[trigger] s[i] as u32) < 0x80
    ensures off(s, k) == k
{ assert forall|i: int| 0 <= i < s.take(k).len() implies (#[trigger] s.take(k)[i] as u32) < 0x80 by { assert(s.take(k)[i] == s[i]); } lem_ascii_blen(s.take(k)); }

/// Rust objects are at most isize::MAX bytes
pub broadcast axiom fn ax_str_size(s: &str)
    ensures #![trigger s@] blen(s@) <= 0x7fff_ffff_ffff_ffff;
pub broadcast axiom fn ax_string_size(s: String)
    ensures #![trigger s@] blen(s@) <= 0x7fff_ffff_ffff_ffff;

pub broadcast axiom fn ax_vec_size<T>(v: Vec<T>)
    ensures #![trigger v@] v@.len() <= usize::MAX;

// ---- search / replace -------------------------------------------------------------------------
pub open spec fn occurs(s: Seq<char>, p: Seq<char>, k: int) -> bool {
    0 <= k && k + p.len() <= s.len() && s.subrange(k, k + p.len()) == p
}
/// first index >= k at which p occurs
pub open spec fn find_from(s: Seq<char>, p: Seq<char>, k: int) -> Option<int>
    decreases s.len() + 1 - k
{
    if k < 0 || k + p.len() > s.len() { None } else if occurs(s, p, k) { Some(k) } else { find_from(s, p, k + 1) }
}
pub proof fn lem_find_from(s: Seq<char>, p: Seq<char>, k: int)
    requires 0 <= k
    ensures match find_from(s, p, k) {
        Some(j) => k <= j && occurs(s, p, j) && (forall|i: int| k <= i < j ==> !#[trigger] occurs(s, p, i)),
        None => forall|i: int| k <= i ==> !#[trigger] occurs(s, p, i),
    }
    decreases s.len() + 1 - k
{ if k + p.len() > s.len() {} else if occurs(s, p, k) {} else { lem_find_from(s, p, k + 1); } }
pub proof fn lem_find_is(s: Seq<char>, p: Seq<char>, k: int, j: int)
    requires 0 <= k <= j, occurs(s, p, j), forall|i: int| k <= i < j ==> !#[trigger] occurs(s, p, i),
    ensures find_from(s, p, k) == Some(j)
    decreases j - k
{ if k < j { assert(!occurs(s, p, k)); lem_find_is(s, p, k + 1, j); } }
pub proof fn lem_find_none(s: Seq<char>, p: Seq<char>, k: int)
    requires 0 <= k, forall|i: int| k <= i ==> !#[trigger] occurs(s, p, i),
    ensures find_from(s, p, k) is None
    decreases s.len() + 1 - k
{ if k + p.len() <= s.len() { assert(!occurs(s, p, k)); lem_find_none(s, p, k + 1); } }
/// a one-char pattern occurs exactly where the char is
pub broadcast proof fn lem_occurs1(s: Seq<char>, p: Seq<char>, k: int)
    requires p.len() == 1
    ensures #![trigger occurs(s, p, k)] occurs(s, p, k) <==> (0 <= k < s.len() && s[k] == p[0])
{ if 0 <= k < s.len() { assert(s.subrange(k, k + 1) =~= seq![s[k]]); if s[k] == p[0] { assert(p =~= seq![s[k]]); } } }
pub open spec fn repl(s: Seq<char>, p: Seq<char>, w: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if p.len() == 0 { s } else {
        match find_from(s, p, 0) {
            None => s,
            Some(k) => if 0 <= k && k + p.len() <= s.len() { s.take(k) + w + repl(s.skip(k + p.len()), p, w) } else { s },
        }
    }
}

pub trait KxPat { spec fn pv(&self) -> Seq<char>; }
impl KxPat for &str { open spec fn pv(&self) -> Seq<char> { self@ } }
impl KxPat for char { open spec fn pv(&self) -> Seq<char> { seq![*self] } }
impl KxPat for &String { open spec fn pv(&self) -> Seq<char> { self@ } }

// whitespace: Unicode White_Space (char::is_whitespace and regex \s agree; the harness compares all code points)
pub open spec fn is_ws(c: char) -> bool {
    let u = c as u32;
    (0x9 <= u && u <= 0xd) || u == 0x20 || u == 0x85 || u == 0xa0 || u == 0x1680 || (0x2000 <= u && u <= 0x200a)
    || u == 0x2028 || u == 0x2029 || u == 0x202f || u == 0x205f || u == 0x3000
}
pub open spec fn trim_l(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && is_ws(s[0]) { trim_l(s.skip(1)) } else { s } }
pub open spec fn trim_r(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && is_ws(s.last()) { trim_r(s.drop_last()) } else { s } }
pub open spec fn trim(s: Seq<char>) -> Seq<char> { trim_r(trim_l(s)) }

pub open spec fn str_at(o: Option<int>, s: Seq<char>) -> Option<usize> {
    match o { Some(k) => Some(off(s, k) as usize), None => None }
}
pub open spec fn starts(s: Seq<char>, p: Seq<char>) -> bool { s.len() >= p.len() && s.take(p.len() as int) == p }
pub open spec fn ends(s: Seq<char>, p: Seq<char>) -> bool { s.len() >= p.len() && s.skip(s.len() - p.len()) == p }
/// lexicographic order by code point (== order of the UTF-8 bytes)
pub open spec fn lex_lt(a: Seq<char>, b: Seq<char>) -> bool decreases a.len() {
    if b.len() == 0 { false } else if a.len() == 0 { true }
    else if a[0] == b[0] { lex_lt(a.skip(1), b.skip(1)) } else { (a[0] as u32) < (b[0] as u32) }
}
pub open spec fn lex_cmp(a: Seq<char>, b: Seq<char>) -> std::cmp::Ordering {
    if a == b { std::cmp::Ordering::Equal } else if lex_lt(a, b) { std::cmp::Ordering::Less } else { std::cmp::Ordering::Greater }
}

pub trait KxStr {
    spec fn kv(&self) -> Seq<char>;
    fn kx_find<P: KxPat>(&self, p: P) -> (r: Option<usize>)
        ensures r == str_at(find_from(self.kv(), p.pv(), 0), self.kv());
    fn kx_starts_with<P: KxPat>(&self, p: P) -> (r: bool) ensures r == starts(self.kv(), p.pv());
    fn kx_ends_with<P: KxPat>(&self, p: P) -> (r: bool) ensures r == ends(self.kv(), p.pv());
    fn kx_contains<P: KxPat>(&self, p: P) -> (r: bool) ensures r == (find_from(self.kv(), p.pv(), 0) is Some);
    fn kx_trim(&self) -> (r: &str) ensures r@ == trim(self.kv());
    /// result not specified (only used for error texts)
    fn kx_trim_start_matches<P: KxPat>(&self, p: P) -> (r: &str);
    fn kx_replace<P: KxPat>(&self, p: P, w: &str) -> (r: String) requires p.pv().len() > 0 ensures r@ == repl(self.kv(), p.pv(), w@);
    fn kx_from(&self, a: usize) -> (r: &str) requires is_bd(self.kv(), a as int) ensures r@ == self.kv().skip(ix(self.kv(), a as int));
    fn kx_to(&self, b: usize) -> (r: &str) requires is_bd(self.kv(), b as int) ensures r@ == self.kv().take(ix(self.kv(), b as int));
    fn kx_sub(&self, a: usize, b: usize) -> (r: &str)
        requires a <= b, is_bd(self.kv(), a as int), is_bd(self.kv(), b as int)
        ensures r@ == self.kv().subrange(ix(self.kv(), a as int), ix(self.kv(), b as int));
    fn kx_all(&self) -> (r: &str) ensures r@ == self.kv();
    fn kx_char_indices(&self) -> (r: KxIter<(usize, char)>)
        ensures r.pos() == 0, r.seq() == Seq::new(self.kv().len(), |k: int| (off(self.kv(), k) as usize, self.kv()[k]));
    fn kx_chars(&self) -> (r: KxIter<char>) ensures r.pos() == 0, r.seq() == self.kv();
    fn kx_is_char_boundary(&self, i: usize) -> (r: bool) ensures r == is_bd(self.kv(), i as int);
    fn kx_split_once<P: KxPat>(&self, p: P) -> (r: Option<(&str, &str)>)
        ensures match find_from(self.kv(), p.pv(), 0) {
            Some(k) => r is Some && r->Some_0.0@ == self.kv().take(k) && r->Some_0.1@ == self.kv().skip(k + p.pv().len()),
            None => r is None,
        };
    fn kx_splitn<P: KxPat>(&self, n: usize, p: P) -> (r: KxIter<&str>)
        ensures r.pos() == 0, n == 2 ==> match find_from(self.kv(), p.pv(), 0) {
            Some(k) => r.seq().len() == 2 && r.seq()[0]@ == self.kv().take(k) && r.seq()[1]@ == self.kv().skip(k + p.pv().len()),
            None => r.seq().len() == 1 && r.seq()[0]@ == self.kv(),
        };
    fn kx_strip_prefix<P: KxPat>(&self, p: P) -> (r: Option<&str>)
        ensures r is Some <==> starts(self.kv(), p.pv()), r is Some ==> r->Some_0@ == self.kv().skip(p.pv().len() as int);
    fn kx_strip_suffix<P: KxPat>(&self, p: P) -> (r: Option<&str>)
        ensures r is Some <==> ends(self.kv(), p.pv()), r is Some ==> r->Some_0@ == self.kv().take(self.kv().len() - p.pv().len());
    fn kx_cmp(&self, o: &Self) -> (r: std::cmp::Ordering) ensures r == lex_cmp(self.kv(), o.kv());
}
impl KxStr for str {
    open spec fn kv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn kx_find<P: KxPat>(&self, p: P) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body] fn kx_starts_with<P: KxPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn kx_ends_with<P: KxPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn kx_contains<P: KxPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn kx_trim(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn kx_trim_start_matches<P: KxPat>(&self, p: P) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn kx_replace<P: KxPat>(&self, p: P, w: &str) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn kx_from(&self, a: usize) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn kx_to(&self, b: usize) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn kx_sub(&self, a: usize, b: usize) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn kx_all(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn kx_char_indices(&self) -> (r: KxIter<(usize, char)>) { unimplemented!() }
    #[verifier::external_body] fn kx_chars(&self) -> (r: KxIter<char>) { unimplemented!() }
    #[verifier::external_body] fn kx_is_char_boundary(&self, i: usize) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn kx_split_once<P: KxPat>(&self, p: P) -> (r: Option<(&str, &str)>) { unimplemented!() }
    #[verifier::external_body] fn kx_splitn<P: KxPat>(&self, n: usize, p: P) -> (r: KxIter<&str>) { unimplemented!() }
    #[verifier::external_body] fn kx_strip_prefix<P: KxPat>(&self, p: P) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn kx_strip_suffix<P: KxPat>(&self, p: P) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn kx_cmp(&self, o: &Self) -> (r: std::cmp::Ordering) { unimplemented!() }
}
impl KxStr for String {
    open spec fn kv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn kx_find<P: KxPat>(&self, p: P) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body] fn kx_starts_with<P: KxPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn kx_ends_with<P: KxPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn kx_contains<P: KxPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn kx_trim(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn kx_trim_start_matches<P: KxPat>(&self, p: P) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn kx_replace<P: KxPat>(&self, p: P, w: &str) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn kx_from(&self, a: usize) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn kx_to(&self, b: usize) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn kx_sub(&self, a: usize, b: usize) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn kx_all(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn kx_char_indices(&self) -> (r: KxIter<(usize, char)>) { unimplemented!() }
    #[verifier::external_body] fn kx_chars(&self) -> (r: KxIter<char>) { unimplemented!() }
    #[verifier::external_body] fn kx_is_char_boundary(&self, i: usize) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn kx_split_once<P: KxPat>(&self, p: P) -> (r: Option<(&str, &str)>) { unimplemented!() }
    #[verifier::external_body] fn kx_splitn<P: KxPat>(&self, n: usize, p: P) -> (r: KxIter<&str>) { unimplemented!() }
    #[verifier::external_body] fn kx_strip_prefix<P: KxPat>(&self, p: P) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn kx_strip_suffix<P: KxPat>(&self, p: P) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn kx_cmp(&self, o: &Self) -> (r: std::cmp::Ordering) { unimplemented!() }
}
pub trait KxStringOps {
    spec fn sv(&self) -> Seq<char>;
    fn kx_truncate(&mut self, n: usize)
        requires is_bd(old(self).sv(), n as int) || n > blen(old(self).sv())
        ensures final(self).sv() == (if n > blen(old(self).sv()) { old(self).sv() } else { old(self).sv().take(ix(old(self).sv(), n as int)) });
}
impl KxStringOps for String {
    open spec fn sv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn kx_truncate(&mut self, n: usize) { unimplemented!() }
}
// length / emptiness, uniformly over str, String and the collections
pub trait KxLen {
    spec fn kl(&self) -> nat;
    fn kx_len(&self) -> (r: usize) ensures r == self.kl();
    fn kx_is_empty(&self) -> (r: bool) ensures r == (self.kl() == 0);
}
impl KxLen for str {
    open spec fn kl(&self) -> nat { blen(self@) }
    #[verifier::external_body] fn kx_len(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn kx_is_empty(&self) -> (r: bool) { unimplemented!() }
}
impl KxLen for String {
    open spec fn kl(&self) -> nat { blen(self@) }
    #[verifier::external_body] fn kx_len(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn kx_is_empty(&self) -> (r: bool) { unimplemented!() }
}
impl<T> KxLen for Vec<T> {
    open spec fn kl(&self) -> nat { self@.len() }
    #[verifier::external_body] fn kx_len(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn kx_is_empty(&self) -> (r: bool) { unimplemented!() }
}
// `impl Into<String>` arguments
pub trait KxInto: Sized {
    spec fn iv(&self) -> Seq<char>;
    fn kx_into(self) -> (r: String) ensures r@ == self.iv();
}
impl KxInto for String { open spec fn iv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn kx_into(self) -> (r: String) { unimplemented!() } }
impl KxInto for &String { open spec fn iv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn kx_into(self) -> (r: String) { unimplemented!() } }
impl KxInto for &str { open spec fn iv(&self) -> Seq<char> { self@ } #[verifier::external_body] fn kx_into(self) -> (r: String) { unimplemented!() } }
#[verifier::external_body] pub fn kx_string_from<T: KxInto>(s: T) -> (r: String) ensures r@ == s.iv() { unimplemented!() }
// Display / to_string / format!
pub trait KxDisp {
    spec fn disp(&self) -> Seq<char>;
    fn kx_to_string(&self) -> (r: String) ensures r@ == self.disp();
}
impl KxDisp for str { open spec fn disp(&self) -> Seq<char> { self@ } #[verifier::external_body] fn kx_to_string(&self) -> (r: String) { unimplemented!() } }
impl KxDisp for String { open spec fn disp(&self) -> Seq<char> { self@ } #[verifier::external_body] fn kx_to_string(&self) -> (r: String) { unimplemented!() } }
impl KxDisp for char { open spec fn disp(&self) -> Seq<char> { seq![*self] } #[verifier::external_body] fn kx_to_string(&self) -> (r: String) { unimplemented!() } }
impl KxDisp for usize { uninterp spec fn disp(&self) -> Seq<char>; #[verifier::external_body] fn kx_to_string(&self) -> (r: String) { unimplemented!() } }
impl<T: KxDisp + ?Sized> KxDisp for &T { open spec fn disp(&self) -> Seq<char> { (**self).disp() } #[verifier::external_body] fn kx_to_string(&self) -> (r: String) { unimplemented!() } }
#[verifier::external_body] pub struct KxFmt { _s: String }
impl View for KxFmt { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl KxFmt {
    #[verifier::external_body] pub fn lit(self, s: &str) -> (r: KxFmt) ensures r@ == self@ + s@ { unimplemented!() }
    #[verifier::external_body] pub fn arg<D: KxDisp + ?Sized>(self, d: &D) -> (r: KxFmt) ensures r@ == self@ + d.disp() { unimplemented!() }
    /// `{:?}` and width/precision specifications: content unspecified
    #[verifier::external_body] pub fn dbg<D: ?Sized>(self, d: &D) -> (r: KxFmt) { unimplemented!() }
    #[verifier::external_body] pub fn done(self) -> (r: String) ensures r@ == self@ { unimplemented!() }
}
#[verifier::external_body] pub fn kx_fmt() -> (r: KxFmt) ensures r@ == Seq::<char>::empty() { unimplemented!() }
#[verifier::external_body] pub fn kx_print(s: String) { unimplemented!() }
pub fn kx_assert(b: bool) requires b { }
#[verifier::external_body] pub fn kx_panic() -> ! requires false { unimplemented!() }
// chars
pub trait KxChar {
    fn kx_is_whitespace(&self) -> (r: bool);
    fn kx_len_utf8(self) -> (r: usize);
}
impl KxChar for char {
    #[verifier::external_body] fn kx_is_whitespace(&self) -> (r: bool) ensures r == is_ws(*self) { unimplemented!() }
    #[verifier::external_body] fn kx_len_utf8(self) -> (r: usize) ensures r == clen(self) { unimplemented!() }
}
pub open spec fn hexd(c: char) -> Option<nat> {
    let u = c as u32;
    if 0x30 <= u && u <= 0x39 { Some((u - 0x30) as nat) } else if 0x41 <= u && u <= 0x46 { Some((u - 0x37) as nat) }
    else if 0x61 <= u && u <= 0x66 { Some((u - 0x57) as nat) } else { None }
}
pub open spec fn hex_digits(s: Seq<char>) -> Option<nat> decreases s.len() {
    if s.len() == 0 { Some(0) } else {
        match (hex_digits(s.drop_last()), hexd(s.last())) { (Some(a), Some(d)) => Some(a * 16 + d), _ => None }
    }
}
/// u32::from_str_radix(s, 16)
pub open spec fn hex_u32(s: Seq<char>) -> Option<u32> {
    let t = if s.len() > 0 && s[0] == '+' { s.skip(1) } else { s };
    if t.len() == 0 { None } else { match hex_digits(t) { Some(n) => if n <= 0xffff_ffff { Some(n as u32) } else { None }, None => None } }
}
pub struct KxParseIntError { }
#[verifier::external_body] pub fn kx_u32_from_str_radix(s: &str, radix: u32) -> (r: Result<u32, KxParseIntError>)
    requires 2 <= radix <= 36
    ensures radix == 16 ==> match hex_u32(s@) { Some(n) => r is Ok && r->Ok_0 == n, None => r is Err }
{ unimplemented!() }
pub open spec fn is_scalar(n: u32) -> bool { n < 0xd800 || (0xe000 <= n && n <= 0x10ffff) }
pub open spec fn chr_is(c: char, n: u32) -> bool { c as u32 == n }
pub open spec fn char_of(n: u32) -> Option<char> { if is_scalar(n) { Some(choose|c: char| #[trigger] chr_is(c, n)) } else { None } }
#[verifier::external_body] pub fn kx_char_from_u32(n: u32) -> (r: Option<char>) ensures r == char_of(n), r is Some ==> r->Some_0 as u32 == n { unimplemented!() }

// iterators: a sequence and a position
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct KxIter<T> { _v: Vec<T> }
impl<T> KxIter<T> {
    pub uninterp spec fn seq(&self) -> Seq<T>;
    pub uninterp spec fn pos(&self) -> int;
    #[verifier::external_body]
    pub fn kx_next(&mut self) -> (r: Option<T>)
        requires 0 <= old(self).pos() <= old(self).seq().len()
        ensures final(self).seq() == old(self).seq(),
            old(self).pos() < old(self).seq().len() ==> r == Some(old(self).seq()[old(self).pos()]) && final(self).pos() == old(self).pos() + 1,
            old(self).pos() >= old(self).seq().len() ==> r is None && final(self).pos() == old(self).pos(),
    { unimplemented!() }
}
#[verifier::external_body] pub fn kx_range(a: usize, b: usize) -> (r: KxIter<usize>)
    ensures r.pos() == 0, r.seq().len() == (if a <= b { (b - a) as int } else { 0 }), forall|i: int| 0 <= i < r.seq().len() ==> #[trigger] r.seq()[i] == a + i
{ unimplemented!() }
#[verifier::external_body] pub fn kx_range_rev(a: usize, b: usize) -> (r: KxIter<usize>)
    ensures r.pos() == 0, r.seq().len() == (if a <= b { (b - a) as int } else { 0 }), forall|i: int| 0 <= i < r.seq().len() ==> #[trigger] r.seq()[i] == b - 1 - i
{ unimplemented!() }
pub trait KxIntoIter: Sized {
    type Item;
    spec fn ii(&self) -> Seq<Self::Item>;
}
impl<T> KxIntoIter for KxIter<T> { type Item = T; open spec fn ii(&self) -> Seq<T> { self.seq() } }
impl<T> KxIntoIter for Vec<T> { type Item = T; open spec fn ii(&self) -> Seq<T> { self@ } }
impl<'a, T> KxIntoIter for &'a Vec<T> { type Item = &'a T; open spec fn ii(&self) -> Seq<&'a T> { Seq::new(self@.len(), |i: int| &self@[i]) } }
#[verifier::external_body] pub fn kx_into_iter<I: KxIntoIter>(i: I) -> (r: KxIter<I::Item>) ensures r.pos() == 0, r.seq() == i.ii() { unimplemented!() }

// regular expressions
pub ghost enum Re { Eps, Chr(spec_fn(char) -> bool), Cat(Box<Re>, Box<Re>), Alt(Box<Re>, Box<Re>), Star(Box<Re>) }
pub open spec fn re_cat(a: Re, b: Re) -> Re { Re::Cat(Box::new(a), Box::new(b)) }
pub open spec fn re_alt(a: Re, b: Re) -> Re { Re::Alt(Box::new(a), Box::new(b)) }
pub open spec fn re_star(a: Re) -> Re { Re::Star(Box::new(a)) }
pub open spec fn re_m(r: Re, s: Seq<char>) -> bool decreases r, s.len() {
    match r {
        Re::Eps => s.len() == 0,
        Re::Chr(f) => s.len() == 1 && f(s[0]),
        Re::Cat(a, b) => exists|k: int| 0 <= k <= s.len() && re_m(*a, #[trigger] s.take(k)) && re_m(*b, s.skip(k)),
        Re::Alt(a, b) => re_m(*a, s) || re_m(*b, s),
        Re::Star(a) => s.len() == 0 || exists|k: int| 0 < k <= s.len() && re_m(*a, #[trigger] s.take(k)) && re_m(r, s.skip(k)),
    }
}
/// Regex::is_match for a pattern with optional ^ / $ anchors
pub open spec fn re_is_match(start: bool, end: bool, r: Re, s: Seq<char>) -> bool {
    exists|i: int, j: int| 0 <= i <= j <= s.len() && (start ==> i == 0) && (end ==> j == s.len()) && #[trigger] re_m(r, s.subrange(i, j))
}
#[verifier::external_body] pub struct KxRegex { _p: u8 }
impl KxRegex {
    pub uninterp spec fn lang(&self, s: Seq<char>) -> bool;
    #[verifier::external_body] pub fn is_match(&self, s: &str) -> (r: bool) ensures r == self.lang(s@) { unimplemented!() }
}
