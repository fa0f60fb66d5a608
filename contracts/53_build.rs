// C20: what is built through the API and written reads back
/// e, put where its parent reads as p, says the same as its own tag: valid tag, and the namespace its declarations and its
/// ancestors' give it; no blank text, no two texts side by side, no terminators
pub open spec fn rd(e: ElemV, p: Option<ElemV>) -> bool decreases e, 0nat {
    raw_name(tag_v(e)) && raw_keys(e.attrs) && match elem_in(tag_v(e), e.attrs, p) {
        None => false,
        Some(b) => b.name == e.name && b.prefix == e.prefix && b.xmlns == e.xmlns && rdk(e.kids, e.kids.len(), b),
    }
}
pub open spec fn rdk(k: Seq<NodeV>, n: nat, b: ElemV) -> bool decreases k, n {
    n == 0 || n > k.len() || (rdk(k, (n - 1) as nat, b) && !two_texts(k, n) && match k[n - 1] {
        NodeV::Elem(c) => rd(c, Some(b)),
        NodeV::Text(t) => t.len() > 0 && !all_ws(t),
        NodeV::Comment(t) => find_from(t, comment_end(), 0) is None,
        NodeV::CData(t) => find_from(t, cdata_end(), 0) is None,
    })
}
/// the element the parser makes of e (its prefix bindings are those in scope, whatever e was told when it was built)
pub open spec fn read_as(e: ElemV, p: Option<ElemV>) -> ElemV decreases e, 0nat {
    let b = elem_in(tag_v(e), e.attrs, p)->Some_0;
    with_kids(b, read_kids(e.kids, e.kids.len(), b))
}
pub open spec fn read_kids(k: Seq<NodeV>, n: nat, b: ElemV) -> Seq<NodeV> decreases k, n {
    if n == 0 || n > k.len() { Seq::empty() } else {
        read_kids(k, (n - 1) as nat, b).push(match k[n - 1] { NodeV::Elem(c) => NodeV::Elem(read_as(c, Some(b))), x => x })
    }
}
pub proof fn lem_read(e: ElemV, p: Option<ElemV>)
    requires rd(e, p)
    ensures wfe(read_as(e, p), p), same_elem(read_as(e, p), e), tag_v(read_as(e, p)) == tag_v(e), read_as(e, p).attrs == e.attrs
    decreases e, 0nat
{
    hide(raw_name); hide(raw_keys); hide(find_from); hide(own_ctx);
    let b = elem_in(tag_v(e), e.attrs, p)->Some_0; let r = read_as(e, p);
    assert(b.kids =~= Seq::<NodeV>::empty()); assert(b.attrs == e.attrs);
    lem_read_kids(e.kids, e.kids.len(), b);
    assert(bare(r) == b);
    assert(r.kids == read_kids(e.kids, e.kids.len(), b));
    assert forall|i: int| 0 <= i < r.kids.len() implies same_node(#[trigger] r.kids[i], e.kids[i]) by {}
    assert(wfk(r.kids, r.kids.len(), bare(r)));
}
pub proof fn lem_read_kids(k: Seq<NodeV>, n: nat, b: ElemV)
    requires rdk(k, n, b), n <= k.len()
    ensures ({ let r = read_kids(k, n, b); r.len() == n && wfk(r, n, b) && forall|i: int| #![trigger r[i]] #![trigger k[i]] 0 <= i < n ==> same_node(r[i], k[i]) })
    decreases k, n
{
    hide(find_from); hide(elem_in);
    if n > 0 {
        let m = (n - 1) as nat; let q = read_kids(k, m, b); let r = read_kids(k, n, b);
        lem_read_kids(k, m, b);
        let x = match k[n - 1] { NodeV::Elem(c) => NodeV::Elem(read_as(c, Some(b))), y => y };
        assert(r == q.push(x));
        if let NodeV::Elem(c) = k[n - 1] { assert(decreases_to!(k => k[n - 1])); lem_read(c, Some(b)); }
        assert(same_node(x, k[n - 1]));
        lem_wfk_ext(q, r, m, b);
        assert(wfk(r, m, b));
        if n >= 2 { assert(same_node(q[n - 2], k[n - 2])); assert(r[n - 2] == q[n - 2]); }
        assert(r[n - 1] == x);
        assert(!two_texts(r, n));
        assert forall|i: int| #![trigger r[i]] #![trigger k[i]] 0 <= i < n implies same_node(r[i], k[i]) by { if i < m { assert(r[i] == q[i]); assert(same_node(q[i], k[i])); } }
    }
}
pub proof fn lem_wfk_ext(a: Seq<NodeV>, c: Seq<NodeV>, n: nat, b: ElemV)
    requires wfk(a, n, b), n <= a.len() <= c.len(), forall|i: int| 0 <= i < n ==> a[i] == c[i]
    ensures wfk(c, n, b)
    decreases n
{ hide(find_from); hide(wfe); if n > 0 { lem_wfk_ext(a, c, (n - 1) as nat, b); assert(a[n - 1] == c[n - 1]); if n >= 2 { assert(a[n - 2] == c[n - 2]); } } }
/// C14: equal elements are written alike
pub proof fn thm_c14_same(a: ElemV, b: ElemV, prefix: Seq<char>, indent: Seq<char>, inline: bool)
    requires same_elem(a, b)
    ensures ser_elem(a, prefix, indent, inline) == ser_elem(b, prefix, indent, inline)
    decreases a, 0nat
{
    assert(tag_v(a) == tag_v(b)); assert(a.attrs == b.attrs);
    if a.kids.len() > 0 { assert(same_node(a.kids[0], b.kids[0])); }
    assert(has_text(a.kids) == has_text(b.kids)) by {
        if has_text(a.kids) { let i = choose|i: int| 0 <= i < a.kids.len() && #[trigger] a.kids[i] is Text; assert(same_node(a.kids[i], b.kids[i])); assert(b.kids[i] is Text); }
        if has_text(b.kids) { let i = choose|i: int| 0 <= i < b.kids.len() && #[trigger] b.kids[i] is Text; assert(same_node(a.kids[i], b.kids[i])); assert(a.kids[i] is Text); }
    }
    let il = inline || has_text(a.kids);
    lem_ser_kids_same(a.kids, b.kids, a.kids.len(), prefix + indent, indent, il);
}
pub proof fn lem_ser_kids_same(k: Seq<NodeV>, l: Seq<NodeV>, n: nat, prefix: Seq<char>, indent: Seq<char>, il: bool)
    requires k.len() == l.len(), n <= k.len(), forall|i: int| #![trigger k[i]] #![trigger l[i]] 0 <= i < k.len() ==> same_node(k[i], l[i])
    ensures ser_kids(k, n, prefix, indent, il) == ser_kids(l, n, prefix, indent, il)
    decreases k, n
{
    hide(ser_elem);
    if n > 0 {
        lem_ser_kids_same(k, l, (n - 1) as nat, prefix, indent, il);
        assert(same_node(k[n - 1], l[n - 1]));
        if let NodeV::Elem(c) = k[n - 1] { assert(decreases_to!(k => k[n - 1])); thm_c14_same(c, l[n - 1]->Elem_0, prefix, indent, il); }
        lem_ser_kids_at(k, n, prefix, indent, il); lem_ser_kids_at(l, n, prefix, indent, il);
    }
}
pub proof fn lem_ser_kids_at(k: Seq<NodeV>, n: nat, prefix: Seq<char>, indent: Seq<char>, il: bool)
    requires 0 < n <= k.len()
    ensures ser_kids(k, n, prefix, indent, il) == ser_kids(k, (n - 1) as nat, prefix, indent, il) + (match k[n - 1] {
            NodeV::Elem(e) => ser_elem(e, prefix, indent, il),
            NodeV::Text(t) => esc_text(t),
            x => pad(il, prefix) + ser_leaf(x),
        }) + pad(il, nl())
{}
/// a document that reads back: prolog items the parser takes as one tag each, and a root as above
pub open spec fn rd_doc(d: DocV) -> bool { (d.decl is Some ==> decl_tag(d.decl->Some_0)) && dtags(d.dtds) && rd(d.root, None) }
pub open spec fn read_doc(d: DocV) -> DocV { DocV { root: read_as(d.root, None), ..d } }
/// C20: what is written for a document that reads back is parsed to an equal document
pub proof fn thm_c20(d: DocV, indent: Seq<char>)
    requires rd_doc(d)
    ensures parse_spec(doc_ser(d, indent)) == Some(read_doc(d)), same_elem(read_doc(d).root, d.root), !known_second_decl(doc_ser(d, indent))
{
    hide(rd); hide(read_as); hide(wfe); hide(parse_spec); hide(known_second_decl); hide(ser_elem); hide(same_elem); hide(dlines); hide(decl_tag); hide(dtags);
    lem_read(d.root, None);
    let r = read_doc(d);
    thm_c14_same(r.root, d.root, Seq::empty(), eff_indent(indent), false);
    assert(doc_ser(r, indent) == doc_ser(d, indent));
    lem_doc_rt(r, indent); lem_not_known(r, indent);
}
/// C20 for the functions themselves, against their contracts: build a document, write it, parse it, compare
pub fn thm_c20_client(root: Element, indent: &str)
    requires rd(elem_v(root), None)
{
    hide(parse_spec); hide(known_second_decl); hide(doc_text); hide(doc_ser); hide(rd); hide(read_as); hide(decl_tag); hide(same_elem); hide(tag_len); hide(trim);
    let d = Document::new(root);
    proof { lem_default_tag(); assert(dtags(doc_v(d).dtds)); assert(rd_doc(doc_v(d))); }
    thm_c20_doc(&d, indent);
}
pub fn thm_c20_doc(d: &Document, indent: &str)
    requires rd_doc(doc_v(*d))
{
    hide(parse_spec); hide(known_second_decl); hide(doc_text); hide(doc_ser); hide(rd_doc); hide(read_as); hide(same_elem);
    let out = d.to_string_with_indent(indent);
    proof { lem_doc_ser(*d, indent@); thm_c20(doc_v(*d), indent@); }
    let again = parse_str(out.as_str());
    assert(again is Ok);
    if let Ok(e) = again {
        let same = e.kx_eq_doc(d);
        proof { lem_pro_eq(e, *d); }
        assert(same);
    }
}
pub proof fn lem_default_tag() ensures decl_tag(default_decl()) {
    hide(trim);
    let t = default_decl(); lem_tok_lits(t); reveal_strlit("<?xml version=\"1.0\" encoding=\"UTF-8\"?>"); reveal_strlit("<?xml");
    let u = seq!['<', '?', 'x', 'm', 'l', ' ', 'v', 'e', 'r', 's', 'i', 'o', 'n', '=', '"', '1', '.', '0', '"', ' ', 'e', 'n', 'c', 'o', 'd', 'i', 'n', 'g', '=', '"', 'U', 'T', 'F', '-', '8', '"', '?', '>'];
    assert(t =~= u); let e = seq!['?', '>'];
    assert(t.take(5) =~= xml_open()); assert(t.take(2) =~= pi_open()); assert(t[1] != com_open()[1]);
    assert(starts(t, xml_open()) && starts(t, pi_open()));
    assert(!starts(t, com_open())) by { if starts(t, com_open()) { assert(t.take(4)[1] == t[1]); } }
    assert(t.skip(36) =~= e); assert(t.skip(36).take(2) =~= e); assert(starts(t.skip(36), e));
    assert(qfind(t, e, 36, None) == Some(36int)) by { assert(t[36] == '?'); }
    assert(!starts(t.skip(35), e)) by { if starts(t.skip(35), e) { assert(t.skip(35).take(2)[0] == t[35]); } }
    assert(qfind(t, e, 35, Some('"')) == Some(36int));
    assert(!starts(t.skip(34), e)) by { if starts(t.skip(34), e) { assert(t.skip(34).take(2)[0] == t[34]); } }
    assert(qfind(t, e, 34, Some('"')) == Some(36int));
    assert(!starts(t.skip(33), e)) by { if starts(t.skip(33), e) { assert(t.skip(33).take(2)[0] == t[33]); } }
    assert(qfind(t, e, 33, Some('"')) == Some(36int));
    assert(!starts(t.skip(32), e)) by { if starts(t.skip(32), e) { assert(t.skip(32).take(2)[0] == t[32]); } }
    assert(qfind(t, e, 32, Some('"')) == Some(36int));
    assert(!starts(t.skip(31), e)) by { if starts(t.skip(31), e) { assert(t.skip(31).take(2)[0] == t[31]); } }
    assert(qfind(t, e, 31, Some('"')) == Some(36int));
    assert(!starts(t.skip(30), e)) by { if starts(t.skip(30), e) { assert(t.skip(30).take(2)[0] == t[30]); } }
    assert(qfind(t, e, 30, Some('"')) == Some(36int));
    assert(!starts(t.skip(29), e)) by { if starts(t.skip(29), e) { assert(t.skip(29).take(2)[0] == t[29]); } }
    assert(qfind(t, e, 29, None) == Some(36int));
    assert(!starts(t.skip(28), e)) by { if starts(t.skip(28), e) { assert(t.skip(28).take(2)[0] == t[28]); } }
    assert(qfind(t, e, 28, None) == Some(36int));
    assert(!starts(t.skip(27), e)) by { if starts(t.skip(27), e) { assert(t.skip(27).take(2)[0] == t[27]); } }
    assert(qfind(t, e, 27, None) == Some(36int));
    assert(!starts(t.skip(26), e)) by { if starts(t.skip(26), e) { assert(t.skip(26).take(2)[0] == t[26]); } }
    assert(qfind(t, e, 26, None) == Some(36int));
    assert(!starts(t.skip(25), e)) by { if starts(t.skip(25), e) { assert(t.skip(25).take(2)[0] == t[25]); } }
    assert(qfind(t, e, 25, None) == Some(36int));
    assert(!starts(t.skip(24), e)) by { if starts(t.skip(24), e) { assert(t.skip(24).take(2)[0] == t[24]); } }
    assert(qfind(t, e, 24, None) == Some(36int));
    assert(!starts(t.skip(23), e)) by { if starts(t.skip(23), e) { assert(t.skip(23).take(2)[0] == t[23]); } }
    assert(qfind(t, e, 23, None) == Some(36int));
    assert(!starts(t.skip(22), e)) by { if starts(t.skip(22), e) { assert(t.skip(22).take(2)[0] == t[22]); } }
    assert(qfind(t, e, 22, None) == Some(36int));
    assert(!starts(t.skip(21), e)) by { if starts(t.skip(21), e) { assert(t.skip(21).take(2)[0] == t[21]); } }
    assert(qfind(t, e, 21, None) == Some(36int));
    assert(!starts(t.skip(20), e)) by { if starts(t.skip(20), e) { assert(t.skip(20).take(2)[0] == t[20]); } }
    assert(qfind(t, e, 20, None) == Some(36int));
    assert(!starts(t.skip(19), e)) by { if starts(t.skip(19), e) { assert(t.skip(19).take(2)[0] == t[19]); } }
    assert(qfind(t, e, 19, None) == Some(36int));
    assert(!starts(t.skip(18), e)) by { if starts(t.skip(18), e) { assert(t.skip(18).take(2)[0] == t[18]); } }
    assert(qfind(t, e, 18, Some('"')) == Some(36int));
    assert(!starts(t.skip(17), e)) by { if starts(t.skip(17), e) { assert(t.skip(17).take(2)[0] == t[17]); } }
    assert(qfind(t, e, 17, Some('"')) == Some(36int));
    assert(!starts(t.skip(16), e)) by { if starts(t.skip(16), e) { assert(t.skip(16).take(2)[0] == t[16]); } }
    assert(qfind(t, e, 16, Some('"')) == Some(36int));
    assert(!starts(t.skip(15), e)) by { if starts(t.skip(15), e) { assert(t.skip(15).take(2)[0] == t[15]); } }
    assert(qfind(t, e, 15, Some('"')) == Some(36int));
    assert(!starts(t.skip(14), e)) by { if starts(t.skip(14), e) { assert(t.skip(14).take(2)[0] == t[14]); } }
    assert(qfind(t, e, 14, None) == Some(36int));
    assert(!starts(t.skip(13), e)) by { if starts(t.skip(13), e) { assert(t.skip(13).take(2)[0] == t[13]); } }
    assert(qfind(t, e, 13, None) == Some(36int));
    assert(!starts(t.skip(12), e)) by { if starts(t.skip(12), e) { assert(t.skip(12).take(2)[0] == t[12]); } }
    assert(qfind(t, e, 12, None) == Some(36int));
    assert(!starts(t.skip(11), e)) by { if starts(t.skip(11), e) { assert(t.skip(11).take(2)[0] == t[11]); } }
    assert(qfind(t, e, 11, None) == Some(36int));
    assert(!starts(t.skip(10), e)) by { if starts(t.skip(10), e) { assert(t.skip(10).take(2)[0] == t[10]); } }
    assert(qfind(t, e, 10, None) == Some(36int));
    assert(!starts(t.skip(9), e)) by { if starts(t.skip(9), e) { assert(t.skip(9).take(2)[0] == t[9]); } }
    assert(qfind(t, e, 9, None) == Some(36int));
    assert(!starts(t.skip(8), e)) by { if starts(t.skip(8), e) { assert(t.skip(8).take(2)[0] == t[8]); } }
    assert(qfind(t, e, 8, None) == Some(36int));
    assert(!starts(t.skip(7), e)) by { if starts(t.skip(7), e) { assert(t.skip(7).take(2)[0] == t[7]); } }
    assert(qfind(t, e, 7, None) == Some(36int));
    assert(!starts(t.skip(6), e)) by { if starts(t.skip(6), e) { assert(t.skip(6).take(2)[0] == t[6]); } }
    assert(qfind(t, e, 6, None) == Some(36int));
    assert(!starts(t.skip(5), e)) by { if starts(t.skip(5), e) { assert(t.skip(5).take(2)[0] == t[5]); } }
    assert(qfind(t, e, 5, None) == Some(36int));
    assert(!starts(t.skip(4), e)) by { if starts(t.skip(4), e) { assert(t.skip(4).take(2)[0] == t[4]); } }
    assert(qfind(t, e, 4, None) == Some(36int));
    assert(!starts(t.skip(3), e)) by { if starts(t.skip(3), e) { assert(t.skip(3).take(2)[0] == t[3]); } }
    assert(qfind(t, e, 3, None) == Some(36int));
    assert(!starts(t.skip(2), e)) by { if starts(t.skip(2), e) { assert(t.skip(2).take(2)[0] == t[2]); } }
    assert(qfind(t, e, 2, None) == Some(36int));
    assert(tag_len(t) == Some(38int));
    assert(!is_ws(t[0]) && !is_ws(t.last())); lem_trim_id(t);
    lem_default_decl();
}
pub proof fn lem_no_colon(s: Seq<char>) requires plain_name(s) ensures find_from(s, colon_s(), 0) is None {
    hide(xml_name); hide(raw_name);
    lem_find_from(s, colon_s(), 0);
    if let Some(i) = find_from(s, colon_s(), 0) { assert(occurs(s, colon_s(), i)); assert(s.subrange(i, i + 1)[0] == s[i]); assert(colon_s()[0] == ':'); }
}
/// a tree built without namespaces: valid names without ':' and whitespace, no attribute starting with xmlns
pub open spec fn plain_name(s: Seq<char>) -> bool { xml_name(s) && raw_name(s) && forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != ':' }
pub open spec fn plain_tree(e: ElemV) -> bool decreases e, 0nat {
    plain_name(e.name) && e.prefix is None && e.xmlns is None && raw_keys(e.attrs) && names_ok(e.attrs) && !e.attrs.contains_key(xmlns_s()) && plaink(e.kids, e.kids.len())
}
pub open spec fn plaink(k: Seq<NodeV>, n: nat) -> bool decreases k, n {
    n == 0 || n > k.len() || (plaink(k, (n - 1) as nat) && !two_texts(k, n) && match k[n - 1] {
        NodeV::Elem(c) => plain_tree(c),
        NodeV::Text(t) => t.len() > 0 && !all_ws(t),
        NodeV::Comment(t) => find_from(t, comment_end(), 0) is None,
        NodeV::CData(t) => find_from(t, cdata_end(), 0) is None,
    })
}
/// C20: a tree built without namespaces reads back, however it was put together
pub proof fn thm_c20_plain(e: ElemV, p: Option<ElemV>)
    requires plain_tree(e), p is Some ==> p->Some_0.xmlns is None
    ensures rd(e, p)
    decreases e, 0nat
{
    hide(raw_name); hide(raw_keys); hide(own_ctx); hide(xml_name); hide(names_ok);
    lem_no_colon(e.name);
    let b = elem_in(tag_v(e), e.attrs, p)->Some_0;
    assert(b.xmlns is None);
    thm_c20_plaink(e.kids, e.kids.len(), b);
}
pub proof fn thm_c20_plaink(k: Seq<NodeV>, n: nat, b: ElemV)
    requires plaink(k, n), n <= k.len(), b.xmlns is None
    ensures rdk(k, n, b)
    decreases k, n
{
    hide(find_from);
    if n > 0 {
        thm_c20_plaink(k, (n - 1) as nat, b);
        if let NodeV::Elem(c) = k[n - 1] { assert(decreases_to!(k => k[n - 1])); thm_c20_plain(c, Some(b)); }
    }
}
