//! kxh assume: compares the contracts assumed for std (contracts/00_std.rs, 20_dom.rs) with the real std on enumerated values.
//! The left sides are transcriptions of the spec functions; the right sides call std. Bounded; a check of the assumptions, not of kiss-xml.
use crate::model::is_ws;
use std::cmp::Ordering;
use std::collections::HashMap;
type S = Vec<char>;
fn clen(c: char) -> usize { let u = c as u32; if u < 0x80 { 1 } else if u < 0x800 { 2 } else if u < 0x10000 { 3 } else { 4 } }
fn blen(s: &[char]) -> usize { s.iter().map(|c| clen(*c)).sum() }
fn off(s: &[char], k: usize) -> usize { blen(&s[..k]) }
fn bd(s: &[char], o: usize) -> Option<usize> { (0..=s.len()).find(|k| off(s, *k) == o) }
fn occurs(s: &[char], p: &[char], k: usize) -> bool { k + p.len() <= s.len() && s[k..k + p.len()] == *p }
fn find(s: &[char], p: &[char]) -> Option<usize> { (0..=s.len()).find(|k| occurs(s, p, *k)) }
fn repl(s: &[char], p: &[char], w: &[char]) -> S { match find(s, p) { None => s.to_vec(), Some(k) => { let mut r = s[..k].to_vec(); r.extend(w); r.extend(repl(&s[k + p.len()..], p, w)); r } } }
fn trim(s: &[char]) -> &[char] { let mut s = s; while !s.is_empty() && is_ws(s[0]) { s = &s[1..]; } while !s.is_empty() && is_ws(s[s.len() - 1]) { s = &s[..s.len() - 1]; } s }
fn lex_lt(a: &[char], b: &[char]) -> bool { if b.is_empty() { false } else if a.is_empty() { true } else if a[0] == b[0] { lex_lt(&a[1..], &b[1..]) } else { (a[0] as u32) < b[0] as u32 } }
fn lex_cmp(a: &[char], b: &[char]) -> Ordering { if a == b { Ordering::Equal } else if lex_lt(a, b) { Ordering::Less } else { Ordering::Greater } }
fn hexd(c: char) -> Option<u64> { let u = c as u64; if (0x30..=0x39).contains(&u) { Some(u - 0x30) } else if (0x41..=0x46).contains(&u) { Some(u - 0x37) } else if (0x61..=0x66).contains(&u) { Some(u - 0x57) } else { None } }
fn hex(s: &[char]) -> Option<u32> {
    let t = if !s.is_empty() && s[0] == '+' { &s[1..] } else { s }; if t.is_empty() { return None; }
    let mut n: u128 = 0; for c in t { n = n * 16 + hexd(*c)? as u128; } if n <= 0xffff_ffff { Some(n as u32) } else { None }
}
fn st(s: &[char]) -> String { s.iter().collect() }
fn all(al: &[char], n: usize) -> Vec<S> { let mut o: Vec<S> = vec![vec![]]; let mut a = 0; for _ in 0..n { let b = o.len(); for i in a..b { for c in al { let mut v = o[i].clone(); v.push(*c); o.push(v); } } a = b; } o }
pub fn run() -> Result<u64, String> {
    let mut n = 0u64;
    macro_rules! same { ($what:expr, $a:expr, $b:expr, $x:expr) => {{ n += 1; match (&$a, &$b) { (l, r) => if l != r { return Err(format!("{}: {:?} != {:?} for {:?}", $what, l, r, $x)); } } }} }
    let ws = regex::Regex::new(r"^\s$").unwrap(); let mut buf = [0u8; 4];
    for u in 0..=0x11_0000u32 { // every code point
        let sc = u < 0xd800 || (0xe000..=0x10ffff).contains(&u); same!("char::from_u32", char::from_u32(u).map(|c| c as u32), if sc { Some(u) } else { None }, u);
        if let Some(c) = char::from_u32(u) { same!("is_whitespace", c.is_whitespace(), is_ws(c), u); same!("len_utf8", c.len_utf8(), clen(c), u); same!("regex \\s", ws.is_match(c.encode_utf8(&mut buf)), is_ws(c), u); }
    }
    let al = ['a', '<', ' ', '\u{85}', '\u{e9}', '\u{3000}', '\u{10400}']; let pats = all(&al[..], 2); let strs = all(&al[..], 5);
    for s in &strs {
        let t = st(s); same!("len", t.len(), blen(s), t); same!("trim", t.trim(), st(trim(s)), t); same!("chars", t.chars().collect::<S>(), *s, t); same!("is_empty", t.is_empty(), s.is_empty(), t);
        same!("char_indices", t.char_indices().collect::<Vec<_>>(), (0..s.len()).map(|k| (off(s, k), s[k])).collect::<Vec<_>>(), t);
        for i in 0..=t.len() + 1 {
            same!("is_char_boundary", t.is_char_boundary(i), bd(s, i).is_some(), (&t, i));
            same!("from", t.get(i..).map(|x| x.to_string()), bd(s, i).map(|k| st(&s[k..])), (&t, i)); same!("to", t.get(..i).map(|x| x.to_string()), bd(s, i).map(|k| st(&s[..k])), (&t, i));
            if s.len() <= 3 { for j in 0..=t.len() + 1 { same!("sub", t.get(i..j).map(|x| x.to_string()), if i <= j { bd(s, i).zip(bd(s, j)).map(|(a, b)| st(&s[a..b])) } else { None }, (&t, i, j)); } }
            if let Some(k) = bd(s, i) { let mut u = t.clone(); u.truncate(i); same!("truncate", u, st(&s[..k]), (&t, i)); }
            if i > blen(s) { let mut u = t.clone(); u.truncate(i); same!("truncate beyond", u, t, i); }
        }
        if s.len() <= 4 { for p in &pats {
            let q = st(p); let f = find(s, p);
            same!("find", t.find(q.as_str()), f.map(|k| off(s, k)), (&t, &q)); same!("contains", t.contains(q.as_str()), f.is_some(), (&t, &q));
            same!("starts_with", t.starts_with(q.as_str()), s.starts_with(p), (&t, &q)); same!("ends_with", t.ends_with(q.as_str()), s.len() >= p.len() && s[s.len() - p.len()..] == p[..], (&t, &q));
            same!("split_once", t.split_once(q.as_str()).map(|(a, b)| (a.to_string(), b.to_string())), f.map(|k| (st(&s[..k]), st(&s[k + p.len()..]))), (&t, &q));
            same!("splitn", t.splitn(2, q.as_str()).map(|x| x.to_string()).collect::<Vec<_>>(), match f { Some(k) => vec![st(&s[..k]), st(&s[k + p.len()..])], None => vec![t.clone()] }, (&t, &q));
            same!("strip_prefix", t.strip_prefix(q.as_str()).map(|x| x.to_string()), if s.starts_with(p) { Some(st(&s[p.len()..])) } else { None }, (&t, &q));
            same!("strip_suffix", t.strip_suffix(q.as_str()).map(|x| x.to_string()), if s.ends_with(p) { Some(st(&s[..s.len() - p.len()])) } else { None }, (&t, &q));
            if !p.is_empty() { for w in [vec![], vec!['a'], vec!['&', 'a', '<'], p.clone()] { same!("replace", t.replace(q.as_str(), &st(&w)), st(&repl(s, p, &w)), (&t, &q)); } }
            if p.len() == 1 { let c = p[0]; same!("find char", t.find(c), f.map(|k| off(s, k)), (&t, c)); same!("starts_with char", t.starts_with(c), s.starts_with(p), (&t, c)); same!("ends_with char", t.ends_with(c), s.ends_with(p), (&t, c)); same!("contains char", t.contains(c), f.is_some(), (&t, c)); same!("replace char", t.replace(c, "xy"), st(&repl(s, p, &['x', 'y'])), (&t, c)); same!("strip_prefix char", t.strip_prefix(c), t.strip_prefix(q.as_str()), (&t, c)); same!("strip_suffix char", t.strip_suffix(c), t.strip_suffix(q.as_str()), (&t, c)); same!("split_once char", t.split_once(c), t.split_once(q.as_str()), (&t, c)); }
        } }
    }
    let three = all(&['a', 'b', '\u{e9}', '\u{ffff}', '\u{10400}'], 3);
    for a in &three { for b in &three { let (x, y) = (st(a), st(b)); same!("cmp", x.cmp(&y), lex_cmp(a, b), (&x, &y)); same!("eq", x == y, a == b, (&x, &y)); same!("push_str", x.clone() + &y, st(&[&a[..], &b[..]].concat()), (&x, &y)); same!("format", format!("<{x}={y}>"), st(&[&['<'], &a[..], &['='], &b[..], &['>']].concat()), (&x, &y)); } }
    for s in all(&['+', '-', '0', '9', 'a', 'F', 'g', '_', ' '], 5) { same!("from_str_radix", u32::from_str_radix(&st(&s), 16).ok(), hex(&s), st(&s)); }
    for s in ["ffffffff", "100000000", "0000000000000000fF", "+ffffffff", "fffffffffffffffffffff", "+"] { same!("from_str_radix", u32::from_str_radix(s, 16).ok(), hex(&s.chars().collect::<S>()), s); }
    for v in all(&['a', 'b', 'c'], 6) { // sort_by with an order that does not separate all elements: a sorted permutation
        let k = |c: &char| (*c as u32 - 97) / 2; let mut w: Vec<(usize, char)> = v.iter().cloned().enumerate().collect(); w.sort_by(|x, y| k(&x.1).cmp(&k(&y.1)));
        same!("sort_by sorted", (1..w.len()).all(|i| k(&w[i - 1].1) <= k(&w[i].1)), true, &v); let mut p: Vec<usize> = w.iter().map(|x| x.0).collect(); p.sort(); same!("sort_by permutes", p, (0..v.len()).collect::<Vec<_>>(), &v); same!("sort_by moves", w.iter().all(|(i, c)| v[*i] == *c), true, &v);
        let mut r = v.clone(); r.reverse(); same!("reverse/rev", r, v.iter().rev().cloned().collect::<S>(), &v); same!("filter", v.iter().filter(|c| **c != 'b').cloned().collect::<S>(), { let mut o = vec![]; for c in &v { if *c != 'b' { o.push(*c); } } o }, &v);
        same!("any", v.iter().any(|c| *c == 'c'), v.contains(&'c'), &v); same!("retain", { let mut r = v.clone(); r.retain(|c| *c != 'a'); r }, v.iter().filter(|c| **c != 'a').cloned().collect::<S>(), &v);
        let mut m: HashMap<String, String> = HashMap::new(); let mut a: Vec<(String, String)> = vec![]; // HashMap against an association list
        for (i, c) in v.iter().enumerate() { let (key, val) = (c.to_string(), i.to_string());
            if i % 3 == 2 { let o = a.iter().position(|x| x.0 == key).map(|p| a.remove(p).1); same!("map remove", m.remove(&key), o, &v); } else { let o = a.iter().position(|x| x.0 == key).map(|p| a.remove(p).1); a.push((key.clone(), val.clone())); same!("map insert", m.insert(key.clone(), val), o, &v); }
            same!("map get", m.get(&key), a.iter().find(|x| x.0 == key).map(|x| &x.1), &v); same!("map len", m.len(), a.len(), &v); let mut e: Vec<(String, String)> = m.iter().map(|(k, v)| (k.clone(), v.clone())).collect(); same!("map order is fixed", e.clone(), m.clone().iter().map(|_| ()).zip(m.iter()).map(|(_, (k, v))| (k.clone(), v.clone())).collect::<Vec<_>>(), &v); e.sort(); let mut f = a.clone(); f.sort(); same!("map entries", e, f, &v); same!("map clone eq", m == m.clone(), true, &v); }
    }
    Ok(n)
}
