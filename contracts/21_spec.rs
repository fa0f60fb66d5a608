// ---- what the properties mean, as functions of the views ------------------------------------------
/// C19: text of a node; of an element: the texts of its text and element children, in order
pub open spec fn text_of(n: NodeV) -> Seq<char> decreases n, 0nat {
    match n { NodeV::Elem(e) => text_upto(e.kids, e.kids.len()), NodeV::Text(t) => t, NodeV::Comment(t) => t, NodeV::CData(t) => t }
}
pub open spec fn text_upto(k: Seq<NodeV>, n: nat) -> Seq<char> decreases k, n {
    if n == 0 || n > k.len() { Seq::empty() } else {
        text_upto(k, (n - 1) as nat) + (if k[n - 1] is Elem || k[n - 1] is Text { text_of(k[n - 1]) } else { Seq::empty() })
    }
}
/// all text nodes below an element in document order
pub open spec fn texts_of(n: NodeV) -> Seq<Seq<char>> decreases n, 0nat {
    match n { NodeV::Elem(e) => texts_upto(e.kids, e.kids.len()), NodeV::Text(t) => seq![t], _ => Seq::empty() }
}
pub open spec fn texts_upto(k: Seq<NodeV>, n: nat) -> Seq<Seq<char>> decreases k, n {
    if n == 0 || n > k.len() { Seq::empty() } else { texts_upto(k, (n - 1) as nat) + texts_of(k[n - 1]) }
}
pub open spec fn joined(s: Seq<Seq<char>>) -> Seq<char> decreases s.len() { if s.len() == 0 { Seq::empty() } else { joined(s.drop_last()) + s.last() } }
pub proof fn lem_joined_add(a: Seq<Seq<char>>, b: Seq<Seq<char>>)
    ensures joined(a + b) == joined(a) + joined(b)
    decreases b.len()
{
    if b.len() == 0 { assert(a + b =~= a); assert(joined(a) + joined(b) =~= joined(a)); } else {
        assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last());
        lem_joined_add(a, b.drop_last());
        assert(joined(a) + (joined(b.drop_last()) + b.last()) =~= (joined(a) + joined(b.drop_last())) + b.last());
    }
}
/// C19: the text of an element is the concatenation of all text nodes below it, in document order
pub proof fn thm_c19_elem(e: ElemV)
    ensures text_of(NodeV::Elem(e)) == joined(texts_of(NodeV::Elem(e)))
    decreases e, 1nat
{ thm_c19_upto(e.kids, e.kids.len()); }
pub proof fn thm_c19_upto(k: Seq<NodeV>, n: nat)
    requires n <= k.len()
    ensures text_upto(k, n) == joined(texts_upto(k, n))
    decreases k, n, 2nat
{
    if n > 0 {
        thm_c19_upto(k, (n - 1) as nat);
        let x = k[n - 1];
        lem_joined_add(texts_upto(k, (n - 1) as nat), texts_of(x));
        match x {
            NodeV::Elem(e) => { assert(decreases_to!(k => x)); thm_c19_upto(e.kids, e.kids.len()); assert(text_of(x) == joined(texts_of(x))); }
            NodeV::Text(t) => { assert(seq![t].drop_last() =~= Seq::<Seq<char>>::empty()); assert(joined(seq![t].drop_last()) =~= Seq::<char>::empty()); assert(joined(seq![t]) =~= t); assert(text_of(x) == joined(texts_of(x))); }
            _ => { assert(texts_of(x) =~= Seq::<Seq<char>>::empty()); assert(joined(Seq::<Seq<char>>::empty()) =~= Seq::<char>::empty()); }
        }
    }
}
/// C19: empty when there are no text nodes
pub proof fn thm_c19_empty(e: ElemV)
    requires texts_of(NodeV::Elem(e)).len() == 0
    ensures text_of(NodeV::Elem(e)).len() == 0
{ thm_c19_elem(e); }

// ---- C14: the written form ---------------------------------------------------------------------------
pub open spec fn all_spaces(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == ' ' }
pub open spec fn good_indent(s: Seq<char>) -> bool { s == seq!['\t'] || all_spaces(s) }
pub open spec fn eff_indent(s: Seq<char>) -> Seq<char> { if good_indent(s) { s } else { seq![' ', ' '] } }
pub open spec fn tag_v(e: ElemV) -> Seq<char> { match e.prefix { None => e.name, Some(p) => p + seq![':'] + e.name } }
pub type KV = (Seq<char>, Seq<char>);
pub open spec fn xmlns_s() -> Seq<char> { seq!['x', 'm', 'l', 'n', 's'] }
/// attribute order: names starting with xmlns first, then ascending by name
pub open spec fn attr_cmp(a: KV, b: KV) -> Ordering {
    if a.0 == b.0 { lex_cmp(a.1, b.1) }
    else if starts(a.0, xmlns_s()) && !starts(b.0, xmlns_s()) { Ordering::Less }
    else if !starts(a.0, xmlns_s()) && starts(b.0, xmlns_s()) { Ordering::Greater }
    else { lex_cmp(a.0, b.0) }
}
pub open spec fn attr_sorted(s: Seq<KV>) -> bool { forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() ==> attr_cmp(s[i], s[j]) != Ordering::Greater }
/// the attributes of a map in written order
pub open spec fn attr_list(m: AttrV) -> Seq<KV> { choose|s: Seq<KV>| enumerates(s, m) && attr_sorted(s) }
pub open spec fn attr_text(a: KV) -> Seq<char> { seq![' '] + a.0 + seq!['=', '"'] + esc_attr(a.1) + seq!['"'] }
pub open spec fn attrs_text(s: Seq<KV>, n: nat) -> Seq<char> decreases n { if n == 0 || n > s.len() { Seq::empty() } else { attrs_text(s, (n - 1) as nat) + attr_text(s[n - 1]) } }
pub open spec fn comment_text(s: Seq<char>) -> Seq<char> { seq!['<', '!', '-', '-'] + s + seq!['-', '-', '>'] }
pub open spec fn cdata_text(s: Seq<char>) -> Seq<char> { seq!['<', '!', '[', 'C', 'D', 'A', 'T', 'A', '['] + s + seq![']', ']', '>'] }
pub open spec fn has_text(k: Seq<NodeV>) -> bool { exists|i: int| 0 <= i < k.len() && #[trigger] k[i] is Text }
pub open spec fn pad(inline: bool, s: Seq<char>) -> Seq<char> { if inline { Seq::empty() } else { s } }
pub open spec fn nl() -> Seq<char> { seq!['\n'] }
pub open spec fn open_tag(e: ElemV) -> Seq<char> { seq!['<'] + tag_v(e) + attrs_text(attr_list(e.attrs), attr_list(e.attrs).len()) }
pub open spec fn close_tag(e: ElemV) -> Seq<char> { seq!['<', '/'] + tag_v(e) + seq!['>'] }
/// a leaf: text is escaped, comments and CDATA are verbatim
pub open spec fn ser_leaf(n: NodeV) -> Seq<char> {
    match n { NodeV::Text(t) => esc_text(t), NodeV::Comment(t) => comment_text(t), NodeV::CData(t) => cdata_text(t), NodeV::Elem(_) => Seq::empty() }
}
pub open spec fn ser_elem(e: ElemV, prefix: Seq<char>, indent: Seq<char>, inline: bool) -> Seq<char> decreases e, 0nat {
    pad(inline, prefix) + open_tag(e) + (
        if e.kids.len() == 0 { seq!['/', '>'] }
        else if e.kids.len() == 1 && !(e.kids[0] is Elem) { seq!['>'] + ser_leaf(e.kids[0]) + close_tag(e) }
        else {
            let il = inline || has_text(e.kids);
            seq!['>'] + pad(il, nl()) + ser_kids(e.kids, e.kids.len(), prefix + indent, indent, il) + pad(il, prefix) + close_tag(e)
        })
}
pub open spec fn ser_kids(k: Seq<NodeV>, n: nat, prefix: Seq<char>, indent: Seq<char>, il: bool) -> Seq<char> decreases k, n {
    if n == 0 || n > k.len() { Seq::empty() } else {
        ser_kids(k, (n - 1) as nat, prefix, indent, il) + (match k[n - 1] {
            NodeV::Elem(e) => ser_elem(e, prefix, indent, il),
            NodeV::Text(t) => esc_text(t),
            x => pad(il, prefix) + ser_leaf(x),
        }) + pad(il, nl())
    }
}
pub open spec fn ser_node(n: NodeV, indent: Seq<char>) -> Seq<char> {
    match n { NodeV::Elem(e) => ser_elem(e, Seq::empty(), eff_indent(indent), false), x => ser_leaf(x) }
}
