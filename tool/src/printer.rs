//! prints a token stream with line breaks after `;`, `{`, `}` (no other change)
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

pub fn print(ts: &TokenStream) -> String {
    let mut s = String::new();
    go(ts, &mut s);
    s
}

fn go(ts: &TokenStream, s: &mut String) {
    let v: Vec<TokenTree> = ts.clone().into_iter().collect();
    for (i, t) in v.iter().enumerate() {
        match t {
            TokenTree::Group(g) => {
                let (o, c) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Brace => ("{\n", "\n}\n"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::None => ("", ""),
                };
                s.push_str(o);
                go(&g.stream(), s);
                s.push_str(c);
                // keep method chains/`else` on following line: newline is harmless
            }
            TokenTree::Punct(p) => {
                s.push(p.as_char());
                if p.as_char() == ';' { s.push('\n'); }
                else if p.spacing() == Spacing::Alone { s.push(' '); }
            }
            TokenTree::Ident(id) => {
                s.push_str(&id.to_string());
                let next_tight = match v.get(i + 1) {
                    Some(TokenTree::Punct(p)) => matches!(p.as_char(), ',' | ';' | '.' | ':'),
                    Some(TokenTree::Group(g)) => g.delimiter() == Delimiter::Parenthesis,
                    _ => false,
                };
                if !next_tight { s.push(' '); }
            }
            TokenTree::Literal(l) => { s.push_str(&l.to_string()); s.push(' '); }
        }
    }
}
