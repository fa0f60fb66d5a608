// ---- C04 .. C08, C15: what a text parses to ------------------------------------------------------------------
pub ghost struct DocV { pub decl: Option<Seq<char>>, pub dtds: Seq<Seq<char>>, pub root: ElemV }
pub open spec fn decl_v(d: Option<Declaration>) -> Option<Seq<char>> { match d { Some(x) => Some(decl_text(x.decl_str@)), None => None } }
pub open spec fn ddtds_v(t: Seq<DTD>) -> Seq<Seq<char>> { Seq::new(t.len(), |i: int| dtd_text(t[i].dtd_str@)) }
pub open spec fn doc_v(d: Document) -> DocV { DocV { decl: decl_v(d.declaration), dtds: ddtds_v(d.dtds@), root: elem_v(d.root_element) } }
pub open spec fn xml_open() -> Seq<char> { seq!['<', '?', 'x', 'm', 'l'] }
pub open spec fn dtd_open() -> Seq<char> { seq!['<', '!', 'D', 'O', 'C', 'T', 'Y', 'P', 'E'] }
pub open spec fn end_open() -> Seq<char> { seq!['<', '/'] }
pub open spec fn empty_end() -> Seq<char> { seq!['/', '>'] }

/// the open elements, outermost first, each with the children read so far; the root once it is closed
pub ghost struct PSt { pub st: Seq<ElemV>, pub root: Option<ElemV> }
pub open spec fn p_add(p: PSt, n: NodeV) -> Option<PSt> { if p.st.len() == 0 { None } else { Some(PSt { st: st_add(p.st, n), root: p.root }) } }
pub open spec fn p_text(p: PSt, t: Seq<char>) -> Option<PSt> { if all_ws(t) { Some(p) } else { p_add(p, NodeV::Text(unesc(t))) } }
pub open spec fn p_pop(p: PSt) -> PSt { PSt { st: st_pop(p.st), root: if p.st.len() == 1 { Some(p.st[0]) } else { p.root } } }
pub open spec fn p_tag(p: PSt, t: Seq<char>) -> Option<PSt> {
    if starts(t, com_open()) { p_add(p, NodeV::Comment(t.subrange(4, t.len() - 3))) }
    else if starts(t, cda_open()) { p_add(p, NodeV::CData(t.subrange(9, t.len() - 3))) }
    else if starts(t, bang()) || !tag_ok(t) || p.st.len() == 0 { None }
    else if starts(t, end_open()) { if ends(t, empty_end()) || strip(t) != tag_v(p.st.last()) { None } else { Some(p_pop(p)) } }
    else { match elem_of(strip(t), Some(p.st.last())) { None => None, Some(e) => if ends(t, empty_end()) { p_add(p, NodeV::Elem(e)) } else { Some(PSt { st: p.st.push(e), root: p.root }) } } }
}
pub open spec fn p_item(p: PSt, text: Seq<char>, tag: Seq<char>) -> Option<PSt> { match p_text(p, text) { None => None, Some(q) => p_tag(q, tag) } }
/// the element content from k on, up to the end of the text
pub open spec fn p_body(s: Seq<char>, k: int, p: PSt) -> Option<ElemV> decreases s.len() - k {
    match (tag_at(s, k), tag_end(s, k)) {
        (None, _) => if p.st.len() == 0 && all_ws(s.skip(k)) { p.root } else { None },
        (Some(a), Some(b)) => if !(0 <= k <= a < b <= s.len()) { None } else { match p_item(p, s.subrange(k, a), s.subrange(a, b)) { None => None, Some(q) => p_body(s, b, q) } },
        _ => None,
    }
}
pub open spec fn p_root(t: Seq<char>) -> Option<PSt> { match elem_of(strip(t), None) { None => None, Some(e) => if ends(t, empty_end()) { Some(PSt { st: Seq::empty(), root: Some(e) }) } else { Some(PSt { st: seq![e], root: None }) } } }
/// the prolog from k on (first: no tag yet), then the root element
pub open spec fn p_prolog(s: Seq<char>, k: int, first: bool, d: Option<Seq<char>>, ts: Seq<Seq<char>>) -> Option<DocV> decreases s.len() - k {
    match (tag_at(s, k), tag_end(s, k)) {
        (Some(a), Some(b)) => if !(0 <= k <= a < b <= s.len()) { None } else {
            let t = s.subrange(a, b);
            if !all_ws(s.subrange(k, a)) { None }
            else if starts(t, xml_open()) { if !first || !decl_ok(t) { None } else { p_prolog(s, b, false, Some(trim(t)), ts) } }
            else if starts(t, com_open()) { p_prolog(s, b, false, d, ts) }
            else if starts(t, dtd_open()) { if !dtd_ok(t) { None } else { p_prolog(s, b, false, d, ts.push(trim(t))) } }
            else if starts(t, bang()) { p_prolog(s, b, false, d, ts) }
            else if starts(t, end_open()) || !tag_ok(t) { None }
            else { match p_root(t) { None => None, Some(p) => match p_body(s, b, p) { None => None, Some(e) => Some(DocV { decl: d, dtds: ts, root: e }) } } }
        },
        _ => None,
    }
}
/// C04 .. C07, C15: the document a text stands for, if any
pub open spec fn parse_spec(s: Seq<char>) -> Option<DocV> { p_prolog(s, 0, true, None, Seq::empty()) }
/// known finding (C15): a second `<?xml...` right behind a first `<?xml...` or `<!...` at the very start of the text is not refused
pub open spec fn known_second_decl(s: Seq<char>) -> bool {
    match (tag_at(s, 0), tag_end(s, 0)) { (Some(a), Some(b)) => a == 0 && 0 <= b <= s.len() && (starts(s.take(b), xml_open()) || starts(s.take(b), bang())) && match (tag_at(s, b), tag_end(s, b)) { (Some(c), Some(d)) => 0 <= c < d <= s.len() && starts(s.subrange(c, d), xml_open()), _ => false }, _ => false }
}
// ---- steps ----
pub proof fn lem_span(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(), blen(s) <= 0x7fff_ffff_ffff_ffff
    ensures match tag_at(s, k) { Some(a) => k <= a < s.len() && is_bd(s, off(s, a)) && ix(s, off(s, a)) == a && 0 <= off(s, k) <= off(s, a) <= 0x7fff_ffff_ffff_ffff, None => tag_end(s, k) is None },
        match tag_end(s, k) { Some(b) => tag_at(s, k) is Some && tag_at(s, k)->Some_0 + 2 <= b <= s.len() && is_bd(s, off(s, b)) && ix(s, off(s, b)) == b && off(s, tag_at(s, k)->Some_0) < off(s, b) <= 0x7fff_ffff_ffff_ffff, None => true },
{ lem_next(s, k); lem_off_bd(s, k);
  match tag_at(s, k) { Some(a) => { lem_off_bd(s, a); lem_off_lt(s, k, a); match tag_end(s, k) { Some(b) => { lem_off_bd(s, b); lem_off_lt(s, a, b); } None => {} } } None => {} } }
/// the tag found at k
pub proof fn lem_the_tag(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(), tag_end(s, k) is Some
    ensures ({ let a = tag_at(s, k)->Some_0; let b = tag_end(s, k)->Some_0; let t = s.subrange(a, b);
        &&& t.len() == b - a && t.len() >= 2 && starts(t, lt_s())
        &&& starts(t, com_open()) ==> ends(t, comment_end()) && t.len() >= 7 && is_bd(t, 4) && ix(t, 4) == 4 && is_bd(t, blen(t) - 3) && ix(t, blen(t) - 3) == t.len() - 3 && blen(t) >= 7 && find_from(t.subrange(4, t.len() - 3), comment_end(), 0) is None && (blen(t) == 7 <==> t.len() == 7)
        &&& starts(t, cda_open()) ==> ends(t, cdata_end()) && t.len() >= 12 && is_bd(t, 9) && ix(t, 9) == 9 && is_bd(t, blen(t) - 3) && ix(t, blen(t) - 3) == t.len() - 3 && blen(t) >= 12 && find_from(t.subrange(9, t.len() - 3), cdata_end(), 0) is None })
{
    lem_next(s, k);
    let a = tag_at(s, k)->Some_0; let b = tag_end(s, k)->Some_0; let t = s.subrange(a, b); let u = s.skip(a); let n = b - a;
    lem_tag_len(u);
    assert(u.take(n) =~= t); assert(t.take(1) =~= u.take(1));
    if starts(t, com_open()) {
        assert(t.take(4) =~= u.take(4)); assert(starts(u, com_open()));
        assert(u.subrange(4, n - 3) =~= t.subrange(4, n - 3));
        lem_tail3(t, com_open(), comment_end());
        lem_blen_sub(t, 4, t.len() - 3); lem_blen_ge(t.subrange(4, t.len() - 3));
    }
    if starts(t, cda_open()) {
        assert(t.take(9) =~= u.take(9)); assert(starts(u, cda_open()));
        assert(u.subrange(9, n - 3) =~= t.subrange(9, n - 3));
        lem_tail3(t, cda_open(), cdata_end());
        lem_blen_sub(t, 9, t.len() - 3); lem_blen_ge(t.subrange(9, t.len() - 3));
    }
}
pub proof fn lem_tail3(t: Seq<char>, p: Seq<char>, e: Seq<char>)
    requires starts(t, p), ends(t, e), all_ascii(p), all_ascii(e), e.len() == 3, t.len() >= p.len() + 3
    ensures is_bd(t, p.len() as int), ix(t, p.len() as int) == p.len(), off(t, p.len() as int) == p.len(), is_bd(t, blen(t) - 3), ix(t, blen(t) - 3) == t.len() - 3, off(t, t.len() - 3) == blen(t) - 3, blen(t) >= p.len() + 3
{
    lem_ascii_start(t, p); lem_off_ends(t);
    let j = t.len() - 3; assert(t.skip(j) =~= t.subrange(j, j + 3)); lem_ascii_step(t, j, e); lem_off_bd(t, j); lem_off_lt(t, p.len() as int, j);
}
pub proof fn lem_prolog_step(s: Seq<char>, k: int, first: bool, d: Option<Seq<char>>, ts: Seq<Seq<char>>)
    requires 0 <= k <= s.len()
    ensures tag_end(s, k) is None ==> p_prolog(s, k, first, d, ts) is None,
        tag_end(s, k) is Some ==> ({ let a = tag_at(s, k)->Some_0; let b = tag_end(s, k)->Some_0; let t = s.subrange(a, b);
            p_prolog(s, k, first, d, ts) ==
                if !all_ws(s.subrange(k, a)) { None::<DocV> }
                else if starts(t, xml_open()) { if !first || !decl_ok(t) { None::<DocV> } else { p_prolog(s, b, false, Some(trim(t)), ts) } }
                else if starts(t, com_open()) { p_prolog(s, b, false, d, ts) }
                else if starts(t, dtd_open()) { if !dtd_ok(t) { None::<DocV> } else { p_prolog(s, b, false, d, ts.push(trim(t))) } }
                else if starts(t, bang()) { p_prolog(s, b, false, d, ts) }
                else if starts(t, end_open()) || !tag_ok(t) { None::<DocV> }
                else { match p_root(t) { None => None::<DocV>, Some(p) => match p_body(s, b, p) { None => None::<DocV>, Some(e) => Some(DocV { decl: d, dtds: ts, root: e }) } } } })
{ lem_next(s, k); }
pub proof fn lem_body_step(s: Seq<char>, k: int, p: PSt)
    requires 0 <= k <= s.len()
    ensures tag_at(s, k) is None ==> p_body(s, k, p) == (if p.st.len() == 0 && all_ws(s.skip(k)) { p.root } else { None::<ElemV> }),
        tag_at(s, k) is Some && tag_end(s, k) is None ==> p_body(s, k, p) is None,
        tag_end(s, k) is Some ==> p_body(s, k, p) == (match p_item(p, s.subrange(k, tag_at(s, k)->Some_0), s.subrange(tag_at(s, k)->Some_0, tag_end(s, k)->Some_0)) { None => None::<ElemV>, Some(q) => p_body(s, tag_end(s, k)->Some_0, q) }),
{ lem_next(s, k); }
pub proof fn lem_parse_lits()
    ensures "<?xml"@ == xml_open(), "<!--"@ == com_open(), "<!DOCTYPE"@ == dtd_open(), "<!"@ == bang(), "</"@ == end_open(), "/>"@ == empty_end(), "-->"@ == comment_end(), "]]>"@ == cdata_end(), "<![CDATA["@ == cda_open(), ""@ == Seq::<char>::empty(),
{
    lem_tok_lits(Seq::empty()); reveal_strlit("<?xml"); reveal_strlit("<!DOCTYPE"); reveal_strlit("</"); reveal_strlit("/>"); reveal_strlit("");
    assert("<?xml"@ =~= xml_open()); assert("<!DOCTYPE"@ =~= dtd_open()); assert("</"@ =~= end_open()); assert("/>"@ =~= empty_end()); assert(""@ =~= Seq::<char>::empty());
}
/// an element read inside p has what p passes on
pub proof fn lem_elem_of(t: Seq<char>, p: Option<ElemV>)
    ensures match elem_of(t, p) { Some(e) => e.kids.len() == 0 && (p is Some ==> adopt(p->Some_0, NodeV::Elem(e)) == NodeV::Elem(e)), None => true }
{
    match elem_of(t, p) { Some(e) => { assert(e.kids =~= Seq::<NodeV>::empty());
        if p is Some {
            let c = joins(qsplit(t, 0, Seq::empty(), None)); let m = attrs_of(c, c.len() as int)->Some_0;
            assert(elem_in(c[0], m, p) == Some(e));
            let cx = p->Some_0.ctx; let i2 = inherit(e, default_ns(p->Some_0), cx);
            assert(i2.ctx =~= e.ctx);
            assert(i2 == e);
        } } None => {} }
}
pub broadcast proof fn lem_elem_kids(t: Seq<char>, p: ElemV, k: Seq<NodeV>) ensures #![trigger elem_of(t, Some(with_kids(p, k)))] elem_of(t, Some(with_kids(p, k))) == elem_of(t, Some(p)) {}
pub proof fn lem_dtds_push(v: Seq<DTD>, x: DTD) ensures ddtds_v(v.push(x)) == ddtds_v(v).push(dtd_text(x.dtd_str@)) { assert(ddtds_v(v.push(x)) =~= ddtds_v(v).push(dtd_text(x.dtd_str@))); }
pub broadcast proof fn lem_dtds_same(a: Seq<DTD>, b: Seq<DTD>) requires same_dtds(a, b) ensures #![trigger same_dtds(a, b)] ddtds_v(a) == ddtds_v(b) { assert(ddtds_v(a) =~= ddtds_v(b)); }
pub open spec fn pst(t: ParseTree) -> PSt { PSt { st: pt_st(t), root: pt_root(t) } }
pub open spec fn p_fin(o: Option<ElemV>, d: Option<Seq<char>>, ts: Seq<Seq<char>>) -> Option<DocV> { match o { None => None, Some(e) => Some(DocV { decl: d, dtds: ts, root: e }) } }
pub open spec fn p_after(s: Seq<char>, a: int, b: int, d: Option<Seq<char>>, ts: Seq<Seq<char>>) -> Option<DocV> { match p_root(s.subrange(a, b)) { None => None, Some(p) => p_fin(p_body(s, b, p), d, ts) } }
pub proof fn lem_first_tag(s: Seq<char>) ensures parse_spec(s) == p_prolog(s, 0, true, None, Seq::empty()) {}
pub proof fn lem_second_decl(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(), tag_at(s, 0) == Some(0int), tag_end(s, 0) == Some(k), tag_end(s, k) is Some, starts(s.subrange(tag_at(s, k)->Some_0, tag_end(s, k)->Some_0), xml_open()), starts(s.take(k), xml_open()) || starts(s.take(k), bang())
    ensures known_second_decl(s)
{ lem_next(s, k); }
/// Display of the error types: text not specified
impl KxDisp for KissXmlError { uninterp spec fn disp(&self) -> Seq<char>; #[verifier::external_body] fn kx_to_string(&self) -> (r: String) { unimplemented!() } }
impl KxDisp for ParsingError { uninterp spec fn disp(&self) -> Seq<char>; #[verifier::external_body] fn kx_to_string(&self) -> (r: String) { unimplemented!() } }

pub proof fn lem_dtds_none(v: Seq<DTD>) requires v.len() == 0 ensures ddtds_v(v) == Seq::<Seq<char>>::empty() { assert(ddtds_v(v) =~= Seq::<Seq<char>>::empty()); }
pub proof fn lem_text_cases(p: PSt, t: Seq<char>) ensures p_text(p, t) == (if all_ws(t) { Some(p) } else { p_add(p, NodeV::Text(unesc(t))) }) {}
pub proof fn lem_root_cases(t: Seq<char>) ensures p_root(t) == (match elem_of(strip(t), None) { None => None::<PSt>, Some(e) => if ends(t, empty_end()) { Some(PSt { st: Seq::empty(), root: Some(e) }) } else { Some(PSt { st: seq![e], root: None }) } }) {}
pub proof fn lem_tag_cases(p: PSt, t: Seq<char>)
    ensures starts(t, com_open()) ==> p_tag(p, t) == p_add(p, NodeV::Comment(t.subrange(4, t.len() - 3))),
        !starts(t, com_open()) && starts(t, cda_open()) ==> p_tag(p, t) == p_add(p, NodeV::CData(t.subrange(9, t.len() - 3))),
        !starts(t, com_open()) && !starts(t, cda_open()) && (starts(t, bang()) || !tag_ok(t) || p.st.len() == 0) ==> p_tag(p, t) is None,
        !starts(t, com_open()) && !starts(t, cda_open()) && !starts(t, bang()) && tag_ok(t) && p.st.len() > 0 && starts(t, end_open()) ==> p_tag(p, t) == (if ends(t, empty_end()) || strip(t) != tag_v(p.st.last()) { None::<PSt> } else { Some(p_pop(p)) }),
        !starts(t, com_open()) && !starts(t, cda_open()) && !starts(t, bang()) && tag_ok(t) && p.st.len() > 0 && !starts(t, end_open()) ==> p_tag(p, t) == (match elem_of(strip(t), Some(p.st.last())) { None => None::<PSt>, Some(e) => if ends(t, empty_end()) { p_add(p, NodeV::Elem(e)) } else { Some(PSt { st: p.st.push(e), root: p.root }) } }),
{}
pub proof fn lem_st_len(st: Seq<ElemV>, n: NodeV) ensures st.len() > 0 ==> forall|n: NodeV| (#[trigger] st_add(st, n)).len() == st.len(), st.len() > 1 ==> st_pop(st).len() == st.len() - 1, st.len() <= 1 ==> st_pop(st).len() == 0 {}
pub proof fn lem_pop1(e: ElemV) ensures st_pop(seq![e]) == Seq::<ElemV>::empty() {}
pub broadcast proof fn lem_me_elem(e: Element) ensures #![trigger node_v(DynNode::Element(e))] node_v(DynNode::Element(e)) == NodeV::Elem(elem_v(e)) {}
pub broadcast proof fn lem_me_text(e: Text) ensures #![trigger node_v(DynNode::Text(e))] node_v(DynNode::Text(e)) == NodeV::Text(e.content@) {}
pub broadcast proof fn lem_me_com(e: Comment) ensures #![trigger node_v(DynNode::Comment(e))] node_v(DynNode::Comment(e)) == NodeV::Comment(e.comment@) {}
pub broadcast proof fn lem_me_cda(e: CData) ensures #![trigger node_v(DynNode::CData(e))] node_v(DynNode::CData(e)) == NodeV::CData(e.cdata@) {}
pub broadcast proof fn lem_adopt_leaf(e: ElemV, n: NodeV) requires !(n is Elem) ensures #![trigger adopt(e, n)] adopt(e, n) == n {}
pub proof fn lem_item_closed(p: PSt, text: Seq<char>, tag: Seq<char>) ensures p.st.len() == 0 ==> p_item(p, text, tag) is None {}
pub broadcast proof fn lem_tag_kids(e: ElemV, k: Seq<NodeV>) ensures #![trigger with_kids(e, k)] tag_v(with_kids(e, k)) == tag_v(e) {}
pub proof fn lem_bang_sub(t: Seq<char>) ensures starts(t, com_open()) ==> starts(t, bang()), starts(t, dtd_open()) ==> starts(t, bang())
{ if starts(t, com_open()) { assert(t.take(2) =~= t.take(4).take(2)); assert(com_open().take(2) =~= bang()); } if starts(t, dtd_open()) { assert(t.take(2) =~= t.take(9).take(2)); assert(dtd_open().take(2) =~= bang()); } }
