//! per-function transformation
use proc_macro2::{Span, TokenStream};
use quote::{quote, ToTokens};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use syn::punctuated::Punctuated;
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

use crate::printer::print;

#[derive(Default, Clone)]
pub struct Env {
    pub str_consts: BTreeMap<String, String>,
}

const PREFIXES: &[&str] = &["dom", "errors", "parsing", "crate", "self", "super", "kiss_xml"];

/// R5: std methods renamed to their contracted wrappers
const RENAMES: &[&str] = &[
    "len", "is_empty", "find", "rfind", "starts_with", "ends_with", "contains", "trim", "trim_start", "trim_end",
    "replace", "replacen", "truncate", "char_indices", "chars", "split_once", "splitn", "strip_prefix",
    "strip_suffix", "is_char_boundary", "is_whitespace", "to_string", "to_owned", "iter", "iter_mut", "into_iter", "sort_by", "reverse",
    "len_utf8", "cmp", "partial_cmp", "rev", "split_at", "insert_str", "replace_range", "drain", "concat", "join", "as_ref",
    "trim_start_matches", "trim_end_matches", "collect", "eq", "split_whitespace", "lines", "eq_ignore_ascii_case", "hash", "parent", "read_to_string",
];

fn is_iterish(e: &Expr) -> bool {
    struct V(bool);
    impl<'a> Visit<'a> for V {
        fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
            let n = m.method.to_string();
            if ["iter", "iter_mut", "kx_iter", "kx_iter_mut", "filter", "search", "search_elements", "child_elements", "child_elements_mut",
                "children_recursive", "chain", "flatten", "children", "children_mut", "into_iter", "kx_into_iter", "chars", "kx_chars", "char_indices", "kx_char_indices", "enumerate", "all_children"].contains(&n.as_str()) {
                self.0 = true;
            }
            self.visit_expr(&m.receiver);
        }
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
        fn visit_expr_call(&mut self, _: &'a ExprCall) {}
    }
    let mut v = V(false);
    v.visit_expr(e);
    v.0
}

pub struct Tx<'e> {
    env: &'e Env,
    loops: usize,
    closures: Vec<String>,
    unsupported: Vec<String>,
    regexes: Vec<Value>,
    literals: BTreeSet<String>,
    calls: Vec<String>,
    call_ord: BTreeMap<String, usize>,
    drop_lets: BTreeSet<String>,
    boxed_iter: bool,
    let_strs: BTreeMap<String, String>,
    loop_kinds: Vec<String>,
    slices: usize,
    drop_eprint: usize,
}

fn mk(s: &str) -> Expr { syn::parse_str(s).unwrap() }
fn id(s: &str) -> Ident { Ident::new(s, Span::call_site()) }
fn verb(t: TokenStream) -> Expr { Expr::Verbatim(t) }

fn pat_idents(p: &Pat, out: &mut Vec<String>) {
    struct V<'a>(&'a mut Vec<String>);
    impl<'a, 'b> Visit<'b> for V<'a> {
        fn visit_pat_ident(&mut self, p: &'b PatIdent) { let n = p.ident.to_string(); if n.chars().next().map_or(false, |c| c.is_lowercase() || c == '_') { self.0.push(n) } visit::visit_pat_ident(self, p); }
    }
    V(out).visit_pat(p);
}
use syn::visit;

struct Locals(Vec<String>);
impl<'a> Visit<'a> for Locals {
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        let n = p.ident.to_string();
        if n.chars().next().map_or(false, |c| c.is_lowercase() || c == '_') { self.0.push(n); }
        visit::visit_pat_ident(self, p);
    }
}

pub fn ty_rewrite(t: &mut Type) {
    struct R;
    impl VisitMut for R {
        fn visit_type_mut(&mut self, t: &mut Type) {
            visit_mut::visit_type_mut(self, t);
            let txt = print(&t.to_token_stream()).replace([' ', '\n'], "");
            if let Type::TraitObject(_) = t {
                if txt == "dynNode" || txt.starts_with("dynNode+") { *t = syn::parse_str("DynNode").unwrap(); return; }
            }
            if let Type::ImplTrait(it) = t {
                let s = print(&it.bounds.to_token_stream()).replace([' ', '\n'], "");
                if s.starts_with("Iterator<Item=") {
                    if let Some(TypeParamBound::Trait(tb)) = it.bounds.first() {
                        if let PathArguments::AngleBracketed(a) = &tb.path.segments.last().unwrap().arguments {
                            if let Some(GenericArgument::AssocType(at)) = a.args.first() {
                                let ty = at.ty.clone();
                                *t = parse_quote!(KxIter<#ty>);
                                return;
                            }
                        }
                    }
                }
                if s == "Into<String>" { *t = syn::parse_str("impl KxInto").unwrap(); return; }
                if s == "AsRef<Path>" { *t = syn::parse_str("impl KxPath").unwrap(); return; }
                if s == "Read" || s == "std::io::Read" || s == "io::Read" { *t = syn::parse_str("impl KxRead").unwrap(); return; }
                if s == "Write" || s == "std::io::Write" || s == "io::Write" { *t = syn::parse_str("impl KxWrite").unwrap(); return; }
                if s.starts_with("Node+") { *t = syn::parse_str("impl Node").unwrap(); return; }
            }
            if let Type::Path(p) = t {
                let seg = p.path.segments.last().unwrap().clone();
                let n = seg.ident.to_string();
                match n.as_str() {
                    "HashMap" | "BTreeMap" => {
                        let a = match &seg.arguments { PathArguments::AngleBracketed(a) => a.args.iter().cloned().collect::<Vec<_>>(), _ => vec![] };
                        if a.len() == 2 {
                            let (x, y) = (&a[0], &a[1]);
                            let xs = print(&x.to_token_stream()).trim().to_string();
                            let ys = print(&y.to_token_stream()).trim().to_string();
                            if n == "HashMap" {
                                if xs == "String" && ys == "String" { *t = syn::parse_str("KxMap").unwrap(); }
                                else if xs == "usize" { *t = parse_quote!(KxArena<#y>); }
                                else { *t = parse_quote!(KxGMap<#x, #y>); }
                            }
                        }
                    }
                    "VecDeque" => { if let PathArguments::AngleBracketed(a) = &seg.arguments { let x = &a.args; *t = parse_quote!(KxDeque<#x>); } }
                    "Box" => {
                        if let PathArguments::AngleBracketed(a) = &seg.arguments {
                            if let Some(GenericArgument::Type(Type::TraitObject(to))) = a.args.first() {
                                if let Some(TypeParamBound::Trait(tb)) = to.bounds.first() {
                                    let s = tb.path.segments.last().unwrap();
                                    if s.ident == "Iterator" {
                                        if let PathArguments::AngleBracketed(a) = &s.arguments {
                                            if let Some(GenericArgument::AssocType(at)) = a.args.first() { let ty = at.ty.clone(); *t = parse_quote!(KxIter<#ty>); }
                                        }
                                    }
                                }
                            }
                        }
                    }
                    "Result" if p.path.segments.len() > 1 => {
                        if let PathArguments::AngleBracketed(a) = &seg.arguments { if a.args.len() == 1 { let x = &a.args[0]; *t = parse_quote!(std::result::Result<#x, KxIoError>); } }
                    }
                    _ => {
                        strip_path(&mut p.path);
                        if print(&p.path.to_token_stream()).replace([' ', '\n'], "") == "std::io::Error" { *t = syn::parse_str("KxIoError").unwrap(); }
                    }
                }
            }
        }
        fn visit_type_param_bound_mut(&mut self, b: &mut TypeParamBound) {
            visit_mut::visit_type_param_bound_mut(self, b);
            let s = print(&b.to_token_stream()).replace([' ', '\n'], "");
            if s == "Into<String>" { *b = syn::parse_str("KxInto").unwrap(); }
            if s == "AsRef<Path>" { *b = syn::parse_str("KxPath").unwrap(); }
        }
    }
    R.visit_type_mut(t);
}

pub fn ty_text(t: &Type) -> String { let mut t = t.clone(); ty_rewrite(&mut t); print(&t.to_token_stream()).trim().to_string() }

fn strip_path(p: &mut Path) {
    while p.segments.len() > 1 && PREFIXES.contains(&p.segments[0].ident.to_string().as_str()) {
        let segs: Punctuated<PathSegment, Token![::]> = p.segments.iter().skip(1).cloned().collect();
        p.segments = segs;
        p.leading_colon = None;
    }
}

fn is_num_lit(e: &Expr) -> bool {
    match e { Expr::Lit(l) => matches!(l.lit, Lit::Int(_) | Lit::Char(_) | Lit::Bool(_)), Expr::Paren(p) => is_num_lit(&p.expr), Expr::Unary(u) => is_num_lit(&u.expr), _ => false }
}
fn diverges(e: &Expr) -> bool {
    matches!(e, Expr::Break(_) | Expr::Return(_) | Expr::Continue(_))
}

impl<'e> Tx<'e> {
    fn unsup(&mut self, s: impl Into<String>) { self.unsupported.push(s.into()); }

    fn eval_str(&mut self, e: &Expr) -> Option<String> {
        match e {
            Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => Some(s.value()),
            Expr::Path(p) => {
                let n = p.path.segments.last()?.ident.to_string();
                self.let_strs.get(&n).or_else(|| self.env.str_consts.get(&n)).cloned()
            }
            Expr::Reference(r) => self.eval_str(&r.expr),
            Expr::Paren(r) => self.eval_str(&r.expr),
            Expr::MethodCall(m) if ["as_str", "to_string", "clone", "kx_to_string", "into", "as_ref", "to_owned"].contains(&m.method.to_string().as_str()) => self.eval_str(&m.receiver),
            Expr::Macro(m) if m.mac.path.is_ident("format") || m.mac.path.is_ident("concat") => {
                let args: Punctuated<Expr, Token![,]> = m.mac.parse_body_with(Punctuated::parse_terminated).ok()?;
                if m.mac.path.is_ident("concat") { let mut s = String::new(); for a in args.iter() { s.push_str(&self.eval_str(a)?); } return Some(s); }
                let f = match args.first()? { Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => s.value(), _ => return None };
                let mut out = String::new();
                let mut pos = 1;
                for pc in parse_fmt(&f)? {
                    match pc {
                        Piece::Lit(s) => out.push_str(&s),
                        Piece::Arg(name, spec) => {
                            if !spec.is_empty() { return None; }
                            let v = if name.is_empty() { let a = args.iter().nth(pos)?.clone(); pos += 1; self.eval_str(&a)? }
                                else { let ex = mk(&name); self.eval_str(&ex)? };
                            out.push_str(&v);
                        }
                    }
                }
                Some(out)
            }
            _ => None,
        }
    }

    fn regex_call(&mut self, pat_expr: &Expr) -> Option<Expr> {
        let pat = self.eval_str(pat_expr)?;
        let h = pat.bytes().fold(0xcbf29ce484222325u64, |a, b| (a ^ b as u64).wrapping_mul(0x100000001b3));
        let name = format!("kx_regex_{:08x}", (h ^ (h >> 32)) as u32);
        match crate::rx::compile(&pat) {
            Ok((s, e, r)) => { self.regexes.push(json!({"name": name, "pattern": pat, "start": s, "end": e, "re": r})); }
            Err(x) => { self.unsup(format!("regex {pat}: {x}")); self.regexes.push(json!({"name": name, "pattern": pat, "error": x})); }
        }
        Some(mk(&format!("{name}()")))
    }

    /// closure `|| Regex::new(..).unwrap()` (possibly with lets)
    fn regex_from_closure(&mut self, c: &ExprClosure) -> Option<Expr> {
        let mut tail: Expr = (*c.body).clone();
        if let Expr::Block(b) = &tail {
            let stmts = b.block.stmts.clone();
            let n = stmts.len();
            let mut last = None;
            for (i, s) in stmts.iter().enumerate() {
                match s {
                    Stmt::Local(l) => {
                        let nm = match &l.pat { Pat::Ident(p) => p.ident.to_string(), _ => return None };
                        let v = self.eval_str(&l.init.as_ref()?.expr)?;
                        self.let_strs.insert(nm, v);
                    }
                    Stmt::Expr(e, _) if i + 1 == n => last = Some(e.clone()),
                    _ => return None,
                }
            }
            tail = last?;
        }
        if let Expr::MethodCall(m) = &tail { if m.method == "unwrap" || m.method == "expect" { return self.regex_new(&m.receiver); } }
        None
    }
    fn regex_new(&mut self, e: &Expr) -> Option<Expr> {
        if let Expr::Call(c) = e {
            let f = print(&c.func.to_token_stream()).replace([' ', '\n'], "");
            if f.ends_with("Regex::new") { let a = c.args.first()?.clone(); return self.regex_call(&a); }
        }
        None
    }

    fn fmt_macro(&mut self, args: &Punctuated<Expr, Token![,]>, skip: usize) -> Option<Expr> {
        let v: Vec<Expr> = args.iter().skip(skip).cloned().collect();
        let f = match v.first() { None => String::new(), Some(Expr::Lit(ExprLit { lit: Lit::Str(s), .. })) => s.value(), _ => return None };
        let mut ts = quote!(kx_fmt());
        let mut pos = 1;
        let mut named: BTreeMap<String, Expr> = BTreeMap::new();
        for a in v.iter().skip(1) { if let Expr::Assign(a) = a { if let Expr::Path(p) = &*a.left { named.insert(p.path.segments.last()?.ident.to_string(), (*a.right).clone()); } } }
        for pc in parse_fmt(&f)? {
            match pc {
                Piece::Lit(s) => { if s.chars().count() <= 12 { self.literals.insert(s.clone()); } ts = quote!(#ts.lit(#s)); }
                Piece::Arg(name, spec) => {
                    let mut e = if name.is_empty() { let a = v.get(pos)?.clone(); pos += 1; a }
                        else if let Ok(ix) = name.parse::<usize>() { v.get(1 + ix)?.clone() }
                        else if let Some(x) = named.get(&name) { x.clone() } else { syn::parse_str(&name).ok()? };
                    self.visit_expr_mut(&mut e);
                    ts = if spec.is_empty() { quote!(#ts.arg(&(#e))) } else { quote!(#ts.dbg(&(#e))) };
                }
            }
        }
        Some(verb(quote!(#ts.done())))
    }

    fn do_macro(&mut self, m: &Macro) -> Option<Expr> {
        let n = m.path.segments.last().unwrap().ident.to_string();
        let parse = || -> Option<Punctuated<Expr, Token![,]>> { m.parse_body_with(Punctuated::parse_terminated).ok() };
        match n.as_str() {
            "format" => { let a = parse()?; self.fmt_macro(&a, 0) }
            "eprintln" | "println" | "eprint" | "print" => { self.drop_eprint += 1; let a = parse()?; let e = self.fmt_macro(&a, 0)?; Some(verb(quote!(kx_print(#e)))) }
            "write" => {
                let a = parse()?;
                let mut out = a.first()?.clone();
                self.visit_expr_mut(&mut out);
                let e = self.fmt_macro(&a, 1)?;
                Some(verb(quote!(#out.kx_write_fmt(#e))))
            }
            "assert" | "debug_assert" => { let a = parse()?; let mut c = a.first()?.clone(); self.visit_expr_mut(&mut c); Some(verb(quote!(kx_assert(#c)))) }
            "panic" | "unreachable" | "todo" | "unimplemented" => Some(verb(quote!(kx_panic()))),
            "vec" => {
                let a = parse()?;
                let mut items = vec![];
                for x in a.iter() { let mut x = x.clone(); self.visit_expr_mut(&mut x); items.push(x); }
                Some(verb(quote!(vec![#(#items),*])))
            }
            "matches" => {
                struct MM { e: Expr, p: Pat, g: Option<Expr> }
                impl syn::parse::Parse for MM {
                    fn parse(i: syn::parse::ParseStream) -> Result<Self> {
                        let e = i.parse()?; let _: Token![,] = i.parse()?; let p = Pat::parse_multi_with_leading_vert(i)?;
                        let g = if i.peek(Token![if]) { let _: Token![if] = i.parse()?; Some(i.parse()?) } else { None };
                        let _: Option<Token![,]> = i.parse()?;
                        Ok(MM { e, p, g })
                    }
                }
                let mut mm: MM = m.parse_body().ok()?;
                self.visit_expr_mut(&mut mm.e);
                let (e, p) = (&mm.e, &mm.p);
                match mm.g { None => Some(verb(quote!((match #e { #p => true, _ => false })))),
                    Some(mut g) => { self.visit_expr_mut(&mut g); Some(verb(quote!((match #e { #p if #g => true, _ => false })))) } }
            }
            _ => None,
        }
    }

    fn loop_body(&mut self, b: &mut Block, n: usize) -> TokenStream {
        self.visit_block_mut(b);
        let mut stmts: Vec<TokenStream> = vec![];
        let cnt = b.stmts.len();
        for (i, s) in b.stmts.iter().enumerate() {
            if i + 1 == cnt {
                if let Stmt::Expr(e, None) = s {
                    let d = matches!(e, Expr::Return(_) | Expr::Break(_) | Expr::Continue(_));
                    if d { stmts.push(quote!(#e;)); }
                    else { stmts.push(quote!(#e ;)); }
                    continue;
                }
            }
            stmts.push(quote!(#s));
        }
        let (s, e) = (format!("loop {n} start"), format!("loop {n} end"));
        quote!({ __kx{#s} #(#stmts)* __kx{#e} })
    }

    fn has_direct_break(b: &Block) -> bool {
        struct V(bool);
        impl<'a> Visit<'a> for V {
            fn visit_expr_break(&mut self, _: &'a ExprBreak) { self.0 = true; }
            fn visit_expr_loop(&mut self, _: &'a ExprLoop) {}
            fn visit_expr_while(&mut self, _: &'a ExprWhile) {}
            fn visit_expr_for_loop(&mut self, _: &'a ExprForLoop) {}
            fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
        }
        let mut v = V(false);
        v.visit_block(b);
        v.0
    }

    /// names of the calls made directly by an expression (not those of nested blocks)
    fn direct_calls(e: &dyn Fn(&mut CallV)) -> Vec<String> {
        let mut v = CallV(vec![]);
        e(&mut v);
        v.0
    }
}

pub struct CallV(Vec<String>);
impl<'a> Visit<'a> for CallV {
    fn visit_block(&mut self, _: &'a Block) {}
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
        self.visit_expr(&m.receiver);
        for a in &m.args { self.visit_expr(a); }
        self.0.push(m.method.to_string());
    }
    fn visit_expr_call(&mut self, c: &'a ExprCall) {
        for a in &c.args { self.visit_expr(a); }
        if let Expr::Path(p) = &*c.func { self.0.push(p.path.segments.last().unwrap().ident.to_string()); }
    }
    fn visit_expr_assign(&mut self, a: &'a ExprAssign) {
        visit::visit_expr_assign(self, a);
        self.0.push(format!("assign {}", print(&a.left.to_token_stream()).replace([' ', '\n'], "")));
    }
    fn visit_expr_binary(&mut self, b: &'a ExprBinary) {
        visit::visit_expr_binary(self, b);
        if matches!(b.op, BinOp::AddAssign(_) | BinOp::SubAssign(_) | BinOp::MulAssign(_)) { self.0.push(format!("assign {}", print(&b.left.to_token_stream()).replace([' ', '\n'], ""))); }
    }
    fn visit_expr_return(&mut self, r: &'a ExprReturn) { visit::visit_expr_return(self, r); self.0.push("return".into()); }
    fn visit_expr_break(&mut self, r: &'a ExprBreak) { visit::visit_expr_break(self, r); self.0.push("break".into()); }
    fn visit_expr_continue(&mut self, _: &'a ExprContinue) { self.0.push("continue".into()); }
    fn visit_expr_index(&mut self, i: &'a ExprIndex) { visit::visit_expr_index(self, i); if matches!(&*i.index, Expr::Range(_)) { self.0.push("slice".into()); } }
    fn visit_local(&mut self, l: &'a Local) {
        visit::visit_local(self, l);
        let mut v = vec![]; pat_idents(&l.pat, &mut v);
        for n in v { self.0.push(format!("let {n}")); }
    }
    fn visit_macro(&mut self, m: &'a Macro) { self.0.push(m.path.segments.last().unwrap().ident.to_string()); }
}

enum Piece { Lit(String), Arg(String, String) }
fn parse_fmt(f: &str) -> Option<Vec<Piece>> {
    let mut v = vec![]; let mut lit = String::new();
    let mut it = f.chars().peekable();
    while let Some(c) = it.next() {
        match c {
            '{' => {
                if it.peek() == Some(&'{') { it.next(); lit.push('{'); continue; }
                if !lit.is_empty() { v.push(Piece::Lit(std::mem::take(&mut lit))); }
                let mut s = String::new();
                loop { match it.next()? { '}' => break, c => s.push(c) } }
                let (n, sp) = match s.split_once(':') { Some((a, b)) => (a.trim().to_string(), b.trim().to_string()), None => (s.trim().to_string(), String::new()) };
                v.push(Piece::Arg(n, sp));
            }
            '}' => { if it.peek() == Some(&'}') { it.next(); } lit.push('}'); }
            c => lit.push(c),
        }
    }
    if !lit.is_empty() { v.push(Piece::Lit(lit)); }
    Some(v)
}

impl<'e> VisitMut for Tx<'e> {
    fn visit_type_mut(&mut self, t: &mut Type) { ty_rewrite(t); }

    fn visit_block_mut(&mut self, b: &mut Block) {
        // drop `let singleton = CONST;` of regex cells; collect string-valued lets for regex evaluation
        let old = std::mem::take(&mut b.stmts);
        let n = old.len();
        for (i, mut s) in old.into_iter().enumerate() {
            if let Stmt::Local(l) = &s {
                if let Pat::Ident(p) = &l.pat {
                    if self.drop_lets.contains(&p.ident.to_string()) { continue; }
                    if let Some(init) = &l.init { let e = (*init.expr).clone(); if let Expr::Lit(_) = e { if let Some(v) = self.eval_str(&e) { self.let_strs.insert(p.ident.to_string(), v); } } }
                }
            }
            if let Stmt::Item(Item::Use(_)) = &s { continue; }
            if let Stmt::Item(_) = &s { self.unsup("nested item"); }
            // anchors
            let names = Self::direct_calls(&|v: &mut CallV| match &s {
                Stmt::Local(l) => v.visit_local(l),
                Stmt::Expr(e, _) => v.visit_expr(e),
                Stmt::Macro(m) => v.visit_macro(&m.mac),
                _ => {}
            });
            let mut anch = vec![];
            for nm in names {
                let k = self.call_ord.entry(nm.clone()).or_insert(0);
                anch.push(format!("{nm}#{k}"));
                *k += 1;
            }
            if let Stmt::Macro(m) = &s {
                match self.do_macro(&m.mac) {
                    Some(e) => { s = Stmt::Expr(e, if i + 1 == n && m.semi_token.is_none() { None } else { Some(Default::default()) }); }
                    None => { let nm = print(&m.mac.path.to_token_stream()); self.unsup(format!("macro {nm}")); }
                }
            } else { self.visit_stmt_mut(&mut s); }
            let is_tail = i + 1 == n && matches!(&s, Stmt::Expr(_, None));
            if !anch.is_empty() || is_tail {
                let mut a = anch.clone(); if is_tail { a.push("tail".into()); }
                let t = a.join("|"); let t = format!("before {t}");
                b.stmts.push(Stmt::Expr(verb(quote!(__kx{#t})), None));
            }
            let div = matches!(&s, Stmt::Expr(e, _) if diverges(e));
            b.stmts.push(s);
            if !anch.is_empty() && !is_tail && !div {
                let t = format!("after {}", anch.join("|"));
                b.stmts.push(Stmt::Expr(verb(quote!(__kx{#t})), None));
            }
        }
    }

    fn visit_arm_mut(&mut self, a: &mut Arm) {
        if diverges(&a.body) {
            let e = (*a.body).clone();
            let mut blk: Block = parse_quote!({ #e });
            self.visit_block_mut(&mut blk);
            self.visit_pat_mut(&mut a.pat);
            if let Some((_, g)) = &mut a.guard { self.visit_expr_mut(g); }
            let st = &blk.stmts;
            *a.body = verb(quote!({ #(#st)* }));
            return;
        }
        visit_mut::visit_arm_mut(self, a);
    }

    fn visit_lit_mut(&mut self, l: &mut Lit) {
        if let Lit::Str(s) = l { let v = s.value(); if v.chars().count() <= 40 { self.literals.insert(v); } 
            *s = LitStr::new(&s.value(), s.span()); }
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // macros
        if let Expr::Macro(m) = e {
            let mac = m.mac.clone();
            match self.do_macro(&mac) { Some(x) => *e = x, None => { let nm = print(&mac.path.to_token_stream()); self.unsup(format!("macro {nm}")); } }
            return;
        }
        // regex singletons
        if let Expr::MethodCall(m) = e {
            if m.method == "get_or_init" {
                if let Some(Expr::Closure(c)) = m.args.first() { let c = c.clone(); if let Some(x) = self.regex_from_closure(&c) { *e = x; return; } }
                self.unsup("get_or_init that is not a regex literal");
            }
            if m.method == "unwrap" || m.method == "expect" { let r = (*m.receiver).clone(); if let Some(x) = self.regex_new(&r) { *e = x; return; } }
        }
        match e {
            Expr::While(w) => {
                let n = self.loops; self.loops += 1; self.loop_kinds.push("while".into());
                self.visit_expr_mut(&mut w.cond);
                let body = self.loop_body(&mut w.body, n);
                let (lab, cond) = (&w.label, &w.cond);
                let key = format!("{n}");
                *e = verb(quote!(#lab while #cond __kxinv{#key} #body));
                return;
            }
            Expr::Loop(w) => {
                let n = self.loops; self.loops += 1; self.loop_kinds.push("loop".into());
                let body = self.loop_body(&mut w.body, n);
                let lab = &w.label; let key = format!("{n}");
                *e = verb(quote!(#lab loop __kxinv{#key} #body));
                return;
            }
            Expr::ForLoop(w) => {
                let n = self.loops; self.loops += 1; self.loop_kinds.push("for".into());
                // ranges
                let mut src = (*w.expr).clone();
                let mut handled = None;
                let strip = |x: &Expr| -> Expr { match x { Expr::Paren(p) => (*p.expr).clone(), o => o.clone() } };
                let s0 = strip(&src);
                if let Expr::Range(r) = &s0 { if let (Some(a), Some(b), RangeLimits::HalfOpen(_)) = (&r.start, &r.end, &r.limits) { let (mut a, mut b) = ((**a).clone(), (**b).clone()); self.visit_expr_mut(&mut a); self.visit_expr_mut(&mut b); handled = Some(quote!(kx_range(#a, #b))); } }
                if let Expr::MethodCall(m) = &s0 { if m.method == "rev" { if let Expr::Range(r) = strip(&m.receiver) { if let (Some(a), Some(b), RangeLimits::HalfOpen(_)) = (r.start, r.end, r.limits) { let (mut a, mut b) = (*a, *b); self.visit_expr_mut(&mut a); self.visit_expr_mut(&mut b); handled = Some(quote!(kx_range_rev(#a, #b))); } } } }
                let it_expr = match handled { Some(t) => t, None => { self.visit_expr_mut(&mut src); quote!(kx_into_iter(#src)) } };
                let brk = Self::has_direct_break(&w.body);
                let body = self.loop_body(&mut w.body, n);
                let it = id(&format!("kx_it{n}"));
                let (lab, pat) = (&w.label, &w.pat);
                let key = format!("{n}{}", if brk { "b" } else { "f" });
                let ex = format!("loop {n} exit");
                *e = verb(quote!({ let mut #it = #it_expr; __kx{"before for"} #lab loop __kxinv{#key} { match #it.kx_next() { Some(#pat) => #body None => { __kx{#ex} break; } } } }));
                return;
            }
            _ => {}
        }
        // Option / Result combinators with closures (R7)
        if let Expr::MethodCall(m) = e {
            let name = m.method.to_string();
            let iterish = is_iterish(&m.receiver);
            if !iterish && ["map", "map_err", "ok_or_else", "and_then", "unwrap_or_else", "is_some_and", "or_else"].contains(&name.as_str()) && m.args.len() == 1 {
                let arg = m.args[0].clone();
                let mut recv = (*m.receiver).clone();
                self.visit_expr_mut(&mut recv);
                let (pat, mut body): (TokenStream, Expr) = match &arg {
                    Expr::Closure(c) => (c.inputs.first().map(|p| p.to_token_stream()).unwrap_or(quote!(_)), (*c.body).clone()),
                    other => { let o = other.clone(); if name == "ok_or_else" || (name == "unwrap_or_else") { (quote!(_), parse_quote!(#o())) } else { (quote!(kx_x), parse_quote!(#o(kx_x))) } }
                };
                self.visit_expr_mut(&mut body);
                let t = match name.as_str() {
                    "map" => quote!((match #recv { Some(#pat) => Some(#body), None => None })),
                    "and_then" => quote!((match #recv { Some(#pat) => #body, None => None })),
                    "is_some_and" => quote!((match #recv { Some(#pat) => #body, None => false })),
                    "map_err" => quote!((match #recv { Ok(kx_v) => Ok(kx_v), Err(#pat) => Err(#body) })),
                    "ok_or_else" => quote!((match #recv { Some(kx_v) => Ok(kx_v), None => Err(#body) })),
                    "unwrap_or_else" => quote!((match #recv { Some(kx_v) => kx_v, None => #body })),
                    _ => { self.unsup(format!("combinator {name}")); quote!() }
                };
                *e = verb(t);
                return;
            }
        }
        // slices (R4)
        if let Expr::Reference(r) = e {
            if r.mutability.is_none() {
                if let Expr::Index(ix) = &*r.expr {
                    if let Expr::Range(_) = &*ix.index { let mut inner = (*r.expr).clone(); self.visit_expr_mut(&mut inner); *e = inner; return; }
                }
            }
        }
        if let Expr::Index(ix) = e {
            if let Expr::Range(rg) = &*ix.index {
                self.slices += 1;
                let mut base = (*ix.expr).clone();
                self.visit_expr_mut(&mut base);
                let mut g = |x: &Option<Box<Expr>>| x.as_ref().map(|b| { let mut b = (**b).clone(); self.visit_expr_mut(&mut b); b });
                let (a, b) = (g(&rg.start), g(&rg.end));
                let incl = matches!(rg.limits, RangeLimits::Closed(_));
                if incl { self.unsup("inclusive slice"); }
                let t = match (a, b) {
                    (None, None) => quote!(#base.kx_all()),
                    (Some(a), None) => quote!(#base.kx_from(#a)),
                    (None, Some(b)) => quote!(#base.kx_to(#b)),
                    (Some(a), Some(b)) => quote!(#base.kx_sub(#a, #b)),
                };
                *e = verb(t);
                return;
            }
        }
        // `==` / `!=` on anything but literals (R15)
        if let Expr::Binary(b) = e {
            if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) && !is_num_lit(&b.left) && !is_num_lit(&b.right) {
                let ne = matches!(b.op, BinOp::Ne(_));
                let (mut l, mut r) = ((*b.left).clone(), (*b.right).clone());
                self.visit_expr_mut(&mut l); self.visit_expr_mut(&mut r);
                let strip = |x: Expr| -> TokenStream { match x { Expr::Reference(r) if r.mutability.is_none() => { let i = r.expr; quote!(&(#i)) } o => quote!(&(#o)) } };
                // `&a == &b` is `a == b`
                let (l, r) = match (&l, &r) { (Expr::Reference(_), Expr::Reference(_)) => (strip(l), strip(r)), _ => (quote!(&(#l)), quote!(&(#r))) };
                *e = verb(if ne { quote!((!kx_eq(#l, #r))) } else { quote!(kx_eq(#l, #r)) });
                return;
            }
        }
        // closures left over (predicates, comparators, iterator adapters)
        if let Expr::Closure(c) = e {
            let k = self.closures.len();
            let params: Vec<TokenStream> = c.inputs.iter().map(|p| p.to_token_stream()).collect();
            let ptxt = params.iter().map(|p| print(p).trim().to_string()).collect::<Vec<_>>().join(", ");
            self.closures.push(ptxt);
            let mut body = (*c.body).clone();
            self.visit_expr_mut(&mut body);
            let mv = c.capture;
            let key = format!("{k}");
            let mut ps = vec![];
            for p in &c.inputs { let mut p = p.clone(); self.visit_pat_mut(&mut p); ps.push(p); }
            *e = verb(quote!(#mv __kxcl{#key}(|#(#ps),*|) { #body }));
            return;
        }
        // generic descent
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Path(p) => { strip_path(&mut p.path); rewrite_expr_path(&mut p.path); }
            Expr::Struct(s) => { strip_path(&mut s.path); }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let f = print(&p.path.to_token_stream()).replace([' ', '\n'], "");
                    self.calls.push(f.clone());
                    let rep = match f.as_str() {
                        "u32::from_str_radix" => Some("kx_u32_from_str_radix"),
                        "char::from_u32" | "std::char::from_u32" => Some("kx_char_from_u32"),
                        "String::from" => Some("kx_string_from"),
                        "std::mem::take" | "mem::take" => Some("kx_take"),
                        "fs::read_to_string" | "std::fs::read_to_string" => Some("kx_fs_read_to_string"),
                        "fs::write" | "std::fs::write" => Some("kx_fs_write"),
                        "fs::create_dir_all" | "std::fs::create_dir_all" => Some("kx_fs_create_dir_all"),
                        _ => None,
                    };
                    if let Some(r) = rep { let r = mk(r); *c.func = r; }
                    if f == "Box::new" {
                        let a = c.args.first().cloned().unwrap();
                        *e = if self.boxed_iter { a } else { parse_quote!(kx_dyn(#a)) };
                    } else if f == "Vec::from" { let a = c.args.first().cloned().unwrap(); *e = parse_quote!(kx_vec_from(#a)); }
                }
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                self.calls.push(format!(".{n}"));
                if n == "into" {
                    let is_ctor = matches!(&*m.receiver, Expr::Call(_)) || matches!(&*m.receiver, Expr::Verbatim(_));
                    if !is_ctor { m.method = id("kx_into"); }
                } else if RENAMES.contains(&n.as_str()) {
                    m.method = id(&format!("kx_{n}"));
                }
            }
            Expr::Reference(r) => {
                // `&self.x.insert(..)` etc: fine
                let _ = r;
            }
            _ => {}
        }
    }

    fn visit_pat_mut(&mut self, p: &mut Pat) {
        visit_mut::visit_pat_mut(self, p);
        match p { Pat::Path(x) => strip_path(&mut x.path), Pat::TupleStruct(x) => strip_path(&mut x.path), Pat::Struct(x) => strip_path(&mut x.path), _ => {} }
    }
}

fn rewrite_expr_path(p: &mut Path) {
    if p.segments.len() == 2 {
        let a = p.segments[0].ident.to_string();
        if a == "HashMap" { p.segments[0].ident = id("KxMap"); p.segments[0].arguments = PathArguments::None; }
        if a == "VecDeque" { p.segments[0].ident = id("KxDeque"); }
    }
}

struct PreScan { cells: BTreeSet<String> }
impl<'a> Visit<'a> for PreScan {
    fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
        if m.method == "get_or_init" { if let Expr::Path(p) = &*m.receiver { if let Some(i) = p.path.get_ident() { self.cells.insert(i.to_string()); } } }
        visit::visit_expr_method_call(self, m);
    }
}

fn norm_ret(t: &Type) -> bool {
    let s = print(&t.to_token_stream()).replace([' ', '\n'], "");
    s.contains("Box<dynIterator")
}

fn rename_self(ts: proc_macro2::TokenStream) -> proc_macro2::TokenStream {
    use proc_macro2::{Group, TokenTree};
    ts.into_iter().map(|t| match t {
        TokenTree::Ident(i) if i == "self" => TokenTree::Ident(proc_macro2::Ident::new("kx_self", i.span())),
        TokenTree::Group(g) => TokenTree::Group(Group::new(g.delimiter(), rename_self(g.stream()))),
        t => t,
    }).collect()
}
pub fn do_fn(sig: &Signature, block: &Block, impl_trait: Option<String>, file: &str, env: &Env) -> Value {
    let mut sig = sig.clone();
    let mut block = block.clone();
    let mut pre = PreScan { cells: BTreeSet::new() };
    pre.visit_block(&block);
    let boxed_iter = match &sig.output { ReturnType::Type(_, t) => norm_ret(t), _ => false };
    let mut loc = Locals(vec![]);
    let mut params = vec![];
    for a in &sig.inputs { if let FnArg::Typed(p) = a { pat_idents(&p.pat, &mut params); } }
    loc.visit_block(&block);
    let mut tx = Tx { env, loops: 0, closures: vec![], unsupported: vec![], regexes: vec![], literals: BTreeSet::new(), calls: vec![],
        call_ord: BTreeMap::new(), drop_lets: pre.cells, boxed_iter, let_strs: BTreeMap::new(), loop_kinds: vec![], slices: 0, drop_eprint: 0 };
    // signature
    struct SigR;
    impl VisitMut for SigR {
        fn visit_type_mut(&mut self, t: &mut Type) { ty_rewrite(t); }
        fn visit_type_param_bound_mut(&mut self, b: &mut TypeParamBound) {
            visit_mut::visit_type_param_bound_mut(self, b);
            let s = print(&b.to_token_stream()).replace([' ', '\n'], "");
            if s == "Into<String>" { *b = syn::parse_str("KxInto").unwrap(); }
            if s == "AsRef<Path>" { *b = syn::parse_str("KxPath").unwrap(); }
        }
    }
    SigR.visit_signature_mut(&mut sig);
    let mut attrs_removed = block.clone();
    std::mem::swap(&mut attrs_removed, &mut block);
    let mut block = attrs_removed;
    let rtxt = match &sig.output { ReturnType::Default => String::new(), ReturnType::Type(_, t) => print(&t.to_token_stream()).replace([' ', '\n'], "") };
    if rtxt == "&DynNode" || rtxt == "&mutDynNode" {
        // R2: unsizing coercion of the tail expression
        if let Some(Stmt::Expr(e, None)) = block.stmts.last_mut() {
            let f = id(if rtxt == "&DynNode" { "kx_as_dyn" } else { "kx_as_dyn_mut" });
            let x = e.clone(); *e = parse_quote!(#f(#x));
        }
    }
    tx.visit_block_mut(&mut block);
    let ret = match &sig.output { ReturnType::Default => String::new(), ReturnType::Type(_, t) => print(&t.to_token_stream()).trim().to_string() };
    let mut sig2 = sig.clone();
    sig2.output = ReturnType::Default;
    let wh = sig2.generics.where_clause.take();
    // R16: `mut self` by value becomes a local
    let mut body_ts = block.to_token_stream();
    let by_val = match sig2.inputs.first_mut() { Some(FnArg::Receiver(r)) if r.reference.is_none() && r.mutability.is_some() => { r.mutability = None; true } _ => false };
    if by_val {
        let inner = rename_self(block.stmts.iter().map(|s| s.to_token_stream()).collect());
        body_ts = quote::quote!({ let mut kx_self = self; #inner });
    }
    let body = print(&body_ts);
    json!({
        "file": file, "name": sig.ident.to_string(),
        "sig": print(&sig2.to_token_stream()).trim(), "ret": ret, "where": wh.map(|w| print(&w.to_token_stream()).trim().to_string()),
        "body": body, "params": params, "locals": loc.0, "loops": tx.loop_kinds, "closures": tx.closures,
        "unsupported": tx.unsupported, "regexes": tx.regexes, "literals": tx.literals.into_iter().collect::<Vec<_>>(),
        "calls": tx.calls, "trait": impl_trait, "slices": tx.slices, "prints": tx.drop_eprint,
    })
}
