// ---- C14, C15: documents and the Display implementations ---------------------------------------------------
pub open spec fn dtds_text(s: Seq<DTD>, n: nat) -> Seq<char> decreases n { if n == 0 || n > s.len() { Seq::empty() } else { dtds_text(s, (n - 1) as nat) + dtd_text(s[n - 1].dtd_str@) + nl() } }
pub open spec fn decl_line(d: Option<Declaration>) -> Seq<char> { match d { Some(x) => decl_text(x.decl_str@) + nl(), None => Seq::empty() } }
/// C15: declaration, doctypes in order, root; one line each
pub open spec fn doc_text(d: Document, indent: Seq<char>) -> Seq<char> { decl_line(d.declaration) + dtds_text(d.dtds@, d.dtds@.len()) + ser_elem(elem_v(d.root_element), Seq::empty(), eff_indent(indent), false) + nl() }
pub open spec fn same_dtds(a: Seq<DTD>, b: Seq<DTD>) -> bool { a.len() == b.len() && forall|i: int| #![trigger a[i]] #![trigger b[i]] 0 <= i < a.len() ==> a[i].dtd_str@ == b[i].dtd_str@ }
pub open spec fn dtd_arg(o: Option<&[DTD]>) -> Seq<DTD> { match o { Some(s) => s@, None => Seq::empty() } }
pub proof fn lem_eff(s: Seq<char>) ensures good_indent(eff_indent(s)), eff_indent(eff_indent(s)) == eff_indent(s), good_indent(s) ==> eff_indent(s) == s { let t = seq![' ', ' ']; assert(all_spaces(t)); }
/// C15: setting or clearing prolog items changes nothing else in the text
pub proof fn thm_c15_rest(a: Document, b: Document, indent: Seq<char>)
    requires a.root_element == b.root_element
    ensures exists|r: Seq<char>| doc_text(a, indent) == decl_line(a.declaration) + dtds_text(a.dtds@, a.dtds@.len()) + r && doc_text(b, indent) == #[trigger] (decl_line(b.declaration) + dtds_text(b.dtds@, b.dtds@.len()) + r)
{
    let r = ser_elem(elem_v(a.root_element), Seq::empty(), eff_indent(indent), false) + nl();
    assert(doc_text(a, indent) =~= decl_line(a.declaration) + dtds_text(a.dtds@, a.dtds@.len()) + r);
    assert(doc_text(b, indent) =~= decl_line(b.declaration) + dtds_text(b.dtds@, b.dtds@.len()) + r);
}
// ---- C14: no added whitespace below an element with a text child --------------------------------------------
pub open spec fn flat(e: ElemV) -> Seq<char> decreases e, 0nat {
    open_tag(e) + (if e.kids.len() == 0 { seq!['/', '>'] } else { seq!['>'] + flats(e.kids, e.kids.len()) + close_tag(e) })
}
pub open spec fn flats(k: Seq<NodeV>, n: nat) -> Seq<char> decreases k, n {
    if n == 0 || n > k.len() { Seq::empty() } else { flats(k, (n - 1) as nat) + (match k[n - 1] { NodeV::Elem(e) => flat(e), x => ser_leaf(x) }) }
}
pub proof fn thm_c14_flat(e: ElemV, prefix: Seq<char>, indent: Seq<char>)
    ensures ser_elem(e, prefix, indent, true) == flat(e)
    decreases e, 1nat
{
    lem_flats(e.kids, e.kids.len(), prefix + indent, indent);
    let x = seq!['>'] + pad(true, nl()) + ser_kids(e.kids, e.kids.len(), prefix + indent, indent, true) + pad(true, prefix) + close_tag(e);
    assert(x =~= seq!['>'] + flats(e.kids, e.kids.len()) + close_tag(e));
    if e.kids.len() == 1 && !(e.kids[0] is Elem) { assert(flats(e.kids, 1) =~= ser_leaf(e.kids[0])) by { assert(flats(e.kids, 0) =~= Seq::<char>::empty()); } }
    assert(ser_elem(e, prefix, indent, true) =~= flat(e));
}
pub proof fn lem_flats(k: Seq<NodeV>, n: nat, prefix: Seq<char>, indent: Seq<char>)
    requires n <= k.len()
    ensures ser_kids(k, n, prefix, indent, true) == flats(k, n)
    decreases k, n, 2nat
{
    if n > 0 {
        lem_flats(k, (n - 1) as nat, prefix, indent);
        match k[n - 1] {
            NodeV::Elem(e) => { assert(decreases_to!(k => k[n - 1])); thm_c14_flat(e, prefix, indent); assert(ser_kids(k, n, prefix, indent, true) =~= flats(k, n)); }
            x => { assert(ser_kids(k, n, prefix, indent, true) =~= flats(k, n)); }
        }
    }
}
/// an element with a text child is written without any added whitespace inside; only the line it starts on is indented
pub proof fn thm_c14_text(e: ElemV, prefix: Seq<char>, indent: Seq<char>)
    requires has_text(e.kids)
    ensures ser_elem(e, prefix, indent, false) == prefix + flat(e)
{
    lem_flats(e.kids, e.kids.len(), prefix + indent, indent);
    if e.kids.len() == 1 && !(e.kids[0] is Elem) { assert(flats(e.kids, 1) =~= ser_leaf(e.kids[0])) by { assert(flats(e.kids, 0) =~= Seq::<char>::empty()); } }
    assert(ser_elem(e, prefix, indent, false) =~= prefix + flat(e));
}
/// every other element with several children or a child element: one line per child, one step deeper, and the end tag on its own line
pub open spec fn lines(k: Seq<NodeV>, n: nat, prefix: Seq<char>, indent: Seq<char>) -> Seq<char> decreases n {
    if n == 0 || n > k.len() { Seq::empty() } else {
        lines(k, (n - 1) as nat, prefix, indent) + (match k[n - 1] { NodeV::Elem(e) => ser_elem(e, prefix, indent, false), x => prefix + ser_leaf(x) }) + nl()
    }
}
pub proof fn thm_c14_lines(e: ElemV, prefix: Seq<char>, indent: Seq<char>)
    requires !has_text(e.kids), e.kids.len() > 1 || e.kids.len() == 1 && e.kids[0] is Elem
    ensures ser_elem(e, prefix, indent, false) == prefix + open_tag(e) + seq!['>'] + nl() + lines(e.kids, e.kids.len(), prefix + indent, indent) + prefix + close_tag(e)
{
    lem_lines(e.kids, e.kids.len(), prefix + indent, indent);
    assert(ser_elem(e, prefix, indent, false) =~= prefix + open_tag(e) + seq!['>'] + nl() + lines(e.kids, e.kids.len(), prefix + indent, indent) + prefix + close_tag(e));
}
pub proof fn lem_lines(k: Seq<NodeV>, n: nat, prefix: Seq<char>, indent: Seq<char>)
    requires n <= k.len(), !has_text(k)
    ensures ser_kids(k, n, prefix, indent, false) == lines(k, n, prefix, indent)
    decreases n
{ if n > 0 { lem_lines(k, (n - 1) as nat, prefix, indent); assert(!(k[n - 1] is Text)); } }
/// every line starts with the indent of its level
pub proof fn thm_c14_starts(e: ElemV, prefix: Seq<char>, indent: Seq<char>)
    ensures exists|r: Seq<char>| ser_elem(e, prefix, indent, false) == #[trigger] (prefix + open_tag(e) + r)
{
    let il = has_text(e.kids);
    let r = if e.kids.len() == 0 { seq!['/', '>'] } else if e.kids.len() == 1 && !(e.kids[0] is Elem) { seq!['>'] + ser_leaf(e.kids[0]) + close_tag(e) }
        else { seq!['>'] + pad(il, nl()) + ser_kids(e.kids, e.kids.len(), prefix + indent, indent, il) + pad(il, prefix) + close_tag(e) };
    assert(ser_elem(e, prefix, indent, false) =~= prefix + open_tag(e) + r);
}
pub open spec fn kind_text(k: DomNodeType) -> Seq<char> { match k { DomNodeType::CDataNode => "CDATA"@, DomNodeType::CommentNode => "Comment"@, DomNodeType::ElementNode => "Element"@, DomNodeType::TextNode => "Text"@ } }
