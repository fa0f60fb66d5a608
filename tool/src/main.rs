//! kxtract: mechanical extraction of /repo/src into the dialect Verus accepts.
//! Usage: kxtract SRC_DIR > out.json
//! Every function is taken from the current source text; the only changes are the rewrite rules
//! R1..R14 listed in /verif/DESIGN.md ("What the extraction changes").
mod printer;
mod rx;
mod tx;

use serde_json::{json, Map, Value};
use std::collections::BTreeMap;
use syn::*;

fn ty_key(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        Type::Reference(r) => format!("&{}", ty_key(&r.elem)),
        _ => "?".into(),
    }
}

fn is_test_cfg(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| {
        a.path().is_ident("cfg") && printer::print(&quote::ToTokens::to_token_stream(a)).contains("test")
    })
}

/// which struct fields a body names and which structs it builds (for "nobody else writes this field" checks)
struct Touch { set: std::collections::BTreeSet<String>, me: String }
impl<'a> syn::visit::Visit<'a> for Touch {
    fn visit_expr_field(&mut self, f: &'a ExprField) {
        if let Member::Named(i) = &f.member { self.set.insert(format!("field {}", i)); }
        syn::visit::visit_expr_field(self, f);
    }
    fn visit_expr_struct(&mut self, s: &'a ExprStruct) {
        let n = s.path.segments.last().unwrap().ident.to_string();
        self.set.insert(format!("build {}", if n == "Self" { self.me.clone() } else { n }));
        syn::visit::visit_expr_struct(self, s);
    }
    fn visit_pat_struct(&mut self, s: &'a PatStruct) {
        for f in &s.fields { if let Member::Named(i) = &f.member { self.set.insert(format!("field {}", i)); } }
        syn::visit::visit_pat_struct(self, s);
    }
    fn visit_macro(&mut self, m: &'a Macro) {
        let s = m.tokens.to_string();
        for (i, _) in s.match_indices('.') {
            let w: String = s[i + 1..].trim_start().chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect();
            if !w.is_empty() { self.set.insert(format!("field {}", w)); }
        }
    }
}
fn touch(b: &Block, me: &str) -> Vec<String> {
    let mut t = Touch { set: Default::default(), me: me.into() };
    syn::visit::Visit::visit_block(&mut t, b);
    t.set.into_iter().collect()
}

struct Out {
    fns: BTreeMap<String, Value>,
    structs: BTreeMap<String, Value>,
    consts: BTreeMap<String, String>,
    others: Vec<String>,
    enums: BTreeMap<String, Value>,
}

fn walk(items: &[Item], file: &str, out: &mut Out, env: &tx::Env) {
    for it in items {
        match it {
            Item::Fn(f) => {
                if is_test_cfg(&f.attrs) { continue; }
                let k = f.sig.ident.to_string();
                let mut v = tx::do_fn(&f.sig, &f.block, None, file, env);
                v["touch"] = json!(touch(&f.block, ""));
                out.fns.insert(k, v);
            }
            Item::Impl(im) => {
                if is_test_cfg(&im.attrs) { continue; }
                let ty = ty_key(&im.self_ty);
                let tr = im.trait_.as_ref().map(|(_, p, _)| {
                    let s = p.segments.last().unwrap();
                    let mut n = s.ident.to_string();
                    if n == "From" { n = printer::print(&quote::ToTokens::to_token_stream(s)).replace(' ', ""); }
                    n
                });
                for ii in &im.items {
                    match ii {
                        ImplItem::Fn(f) => {
                            let k = match &tr {
                                None => format!("{}::{}", ty, f.sig.ident),
                                Some(t) => format!("<{} as {}>::{}", ty, t, f.sig.ident),
                            };
                            let mut v = tx::do_fn(&f.sig, &f.block, tr.clone(), file, env);
                            v["touch"] = json!(touch(&f.block, &ty));
                            v["impl_of"] = json!(ty);
                            v["impl_trait"] = json!(tr);
                            out.fns.insert(k, v);
                        }
                        ImplItem::Const(c) => {
                            out.consts.insert(format!("{}::{}", ty, c.ident), printer::print(&quote::ToTokens::to_token_stream(&c.expr)));
                        }
                        _ => {}
                    }
                }
            }
            Item::Trait(t) => {
                for ti in &t.items {
                    if let TraitItem::Fn(f) = ti {
                        let k = format!("trait {}::{}", t.ident, f.sig.ident);
                        let empty: Block = syn::parse_str("{}").unwrap();
                        let has = f.default.is_some();
                        let mut v = tx::do_fn(&f.sig, f.default.as_ref().unwrap_or(&empty), None, file, env);
                        if let Some(b) = &f.default { v["touch"] = json!(touch(b, "")); }
                        v["trait_decl"] = json!(t.ident.to_string());
                        v["has_default"] = json!(has);
                        out.fns.insert(k, v);
                    }
                }
            }
            Item::Struct(s) => {
                let mut fields = vec![];
                for f in s.fields.iter() {
                    fields.push(json!({"name": f.ident.as_ref().map(|i| i.to_string()),
                        "ty": tx::ty_text(&f.ty)}));
                }
                let derives: Vec<String> = s.attrs.iter().filter(|a| a.path().is_ident("derive"))
                    .map(|a| printer::print(&quote::ToTokens::to_token_stream(&a.meta))).collect();
                out.structs.insert(s.ident.to_string(), json!({"fields": fields, "derives": derives, "file": file}));
            }
            Item::Const(c) => {
                out.consts.insert(c.ident.to_string(), printer::print(&quote::ToTokens::to_token_stream(&c.expr)));
            }
            Item::Mod(m) => {
                if is_test_cfg(&m.attrs) { continue; }
                if let Some((_, items)) = &m.content { walk(items, file, out, env); }
            }
            Item::Enum(e) => {
                out.others.push(format!("enum {}", e.ident));
                let vs: Vec<Value> = e.variants.iter().map(|v| json!({"name": v.ident.to_string(), "named": matches!(v.fields, Fields::Named(_)),
                    "fields": v.fields.iter().map(|f| tx::ty_text(&f.ty)).collect::<Vec<_>>()})).collect();
                out.enums.insert(e.ident.to_string(), json!({"variants": vs}));
            }
            Item::Macro(m) => out.others.push(format!("macro {}", printer::print(&quote::ToTokens::to_token_stream(&m.mac.path)))),
            _ => {}
        }
    }
}

fn collect_consts(items: &[Item], m: &mut BTreeMap<String, String>) {
    for it in items {
        match it {
            Item::Const(c) => { if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = &*c.expr { m.insert(c.ident.to_string(), s.value()); } }
            Item::Static(c) => { if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = &*c.expr { m.insert(c.ident.to_string(), s.value()); } }
            Item::Impl(i) => for x in &i.items {
                if let ImplItem::Const(c) = x { if let Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) = &c.expr { m.insert(c.ident.to_string(), s.value()); } }
            },
            _ => {}
        }
    }
}

fn main() {
    let dir = std::env::args().nth(1).expect("usage: kxtract SRC_DIR");
    let mut out = Out { fns: BTreeMap::new(), structs: BTreeMap::new(), consts: BTreeMap::new(), others: vec![], enums: BTreeMap::new() };
    let mut files = Map::new();
    let mut parsed = vec![];
    for f in ["lib.rs", "dom.rs", "parsing.rs", "errors.rs"] {
        let p = format!("{dir}/{f}");
        match std::fs::read_to_string(&p) {
            Err(e) => { files.insert(f.into(), json!(format!("unreadable: {e}"))); }
            Ok(src) => match syn::parse_file(&src) {
                Err(e) => { files.insert(f.into(), json!(format!("unparsable: {e}"))); }
                Ok(ast) => { files.insert(f.into(), json!("ok")); parsed.push((f, ast)); }
            },
        }
    }
    let mut env = tx::Env::default();
    for (_, ast) in &parsed { collect_consts(&ast.items, &mut env.str_consts); }
    for (f, ast) in &parsed { walk(&ast.items, f, &mut out, &env); }
    println!("{}", serde_json::to_string_pretty(&json!({
        "files": files, "fns": out.fns, "structs": out.structs, "consts": out.consts, "others": out.others, "enums": out.enums
    })).unwrap());
}
