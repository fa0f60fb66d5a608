//! regex pattern -> Verus spec expression of type Re (see contracts/prelude)
use regex_syntax::hir::{Hir, HirKind, Class, Look};

fn class_cond(ranges: Vec<(u32, u32)>) -> String {
    if ranges.is_empty() { return "false".into(); }
    ranges.iter().map(|(a, b)| if a == b { format!("c as u32 == {a:#x}") } else { format!("({a:#x} <= c as u32 && c as u32 <= {b:#x})") })
        .collect::<Vec<_>>().join(" || ")
}

/// returns (anchored_start, anchored_end, Re expression)
pub fn compile(pat: &str) -> Result<(bool, bool, String), String> {
    let hir = regex_syntax::parse(pat).map_err(|e| format!("bad regex: {e}"))?;
    let mut items: Vec<Hir> = match hir.kind() {
        HirKind::Concat(v) => v.clone(),
        _ => vec![hir.clone()],
    };
    let mut start = false; let mut end = false;
    if let Some(f) = items.first() { if matches!(f.kind(), HirKind::Look(Look::Start)) { start = true; items.remove(0); } }
    if let Some(l) = items.last() { if matches!(l.kind(), HirKind::Look(Look::End)) { end = true; items.pop(); } }
    Ok((start, end, cat(&items)?))
}

fn cat(v: &[Hir]) -> Result<String, String> {
    if v.is_empty() { return Ok("Re::Eps".into()); }
    if v.len() == 1 { return re(&v[0]); }
    Ok(format!("re_cat({}, {})", re(&v[0])?, cat(&v[1..])?))
}

fn re(h: &Hir) -> Result<String, String> {
    match h.kind() {
        HirKind::Empty => Ok("Re::Eps".into()),
        HirKind::Literal(l) => {
            let s = std::str::from_utf8(&l.0).map_err(|_| "non-utf8 literal".to_string())?;
            let cs: Vec<String> = s.chars().map(|c| format!("Re::Chr(|c: char| c as u32 == {:#x})", c as u32)).collect();
            Ok(cs.iter().rev().skip(1).fold(cs.last().cloned().unwrap_or("Re::Eps".into()), |acc, x| format!("re_cat({x}, {acc})")))
        }
        HirKind::Class(c) => {
            let r = match c {
                Class::Unicode(u) => u.ranges().iter().map(|r| (r.start() as u32, r.end() as u32)).collect(),
                Class::Bytes(b) => b.ranges().iter().map(|r| (r.start() as u32, r.end() as u32)).collect(),
            };
            Ok(format!("Re::Chr(|c: char| {})", class_cond(r)))
        }
        HirKind::Repetition(r) => {
            let x = re(&r.sub)?;
            match (r.min, r.max) {
                (0, None) => Ok(format!("re_star({x})")),
                (1, None) => Ok(format!("re_cat({x}, re_star({x}))")),
                (0, Some(1)) => Ok(format!("re_alt({x}, Re::Eps)")),
                (n, None) => { let mut s = format!("re_star({x})"); for _ in 0..n { s = format!("re_cat({x}, {s})"); } Ok(s) }
                (n, Some(m)) if n == m && n > 0 && n < 8 => { let mut s = x.clone(); for _ in 1..n { s = format!("re_cat({x}, {s})"); } Ok(s) }
                _ => Err(format!("unsupported repetition {:?}", (r.min, r.max))),
            }
        }
        HirKind::Capture(c) => re(&c.sub),
        HirKind::Concat(v) => cat(v),
        HirKind::Alternation(v) => {
            let mut it = v.iter().rev();
            let mut s = re(it.next().unwrap())?;
            for x in it { s = format!("re_alt({}, {s})", re(x)?); }
            Ok(s)
        }
        HirKind::Look(l) => Err(format!("unsupported look-around {:?}", l)),
    }
}
