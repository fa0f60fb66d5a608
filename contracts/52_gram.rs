// ---- C06: nesting, by recursive descent ---------------------------------------------------------------------
pub open spec fn e_add(e: ElemV, n: NodeV) -> ElemV { add_kid(e, n) }
pub open spec fn e_text(e: ElemV, w: Seq<char>) -> ElemV { if all_ws(w) { e } else { e_add(e, NodeV::Text(unesc(w))) } }
pub open spec fn is_com(t: Seq<char>) -> bool { starts(t, com_open()) }
pub open spec fn is_cda(t: Seq<char>) -> bool { !starts(t, com_open()) && starts(t, cda_open()) }
/// an element tag: syntactically complete, quoted attribute values
pub open spec fn is_tag(t: Seq<char>) -> bool { !starts(t, com_open()) && !starts(t, cda_open()) && !starts(t, bang()) && tag_ok(t) }
pub open spec fn is_end(t: Seq<char>, name: Seq<char>) -> bool { is_tag(t) && starts(t, end_open()) && !ends(t, empty_end()) && strip(t) == name }
pub open spec fn is_start(t: Seq<char>) -> bool { is_tag(t) && !starts(t, end_open()) }
/// the content of the open element e from k on, up to and including its own end tag: text, comments, CDATA sections,
/// empty elements, and elements with content and end tag of their own; the element read and the position behind its end tag
pub open spec fn content(s: Seq<char>, k: int, e: ElemV) -> Option<(ElemV, int)> decreases s.len() - k {
    match (tag_at(s, k), tag_end(s, k)) {
        (Some(a), Some(b)) => if !(0 <= k <= a < b <= s.len()) { None } else {
            let t = s.subrange(a, b); let f = e_text(e, s.subrange(k, a));
            if is_com(t) { content(s, b, e_add(f, NodeV::Comment(t.subrange(4, t.len() - 3)))) }
            else if is_cda(t) { content(s, b, e_add(f, NodeV::CData(t.subrange(9, t.len() - 3)))) }
            else if is_end(t, tag_v(e)) { Some((f, b)) }
            else if is_start(t) {
                match elem_of(strip(t), Some(f)) {
                    None => None,
                    Some(c) => if ends(t, empty_end()) { content(s, b, e_add(f, NodeV::Elem(c))) } else {
                        match content(s, b, c) { None => None, Some((c2, j)) => if !(k < j <= s.len()) { None } else { content(s, j, e_add(f, NodeV::Elem(c2))) } }
                    },
                }
            } else { None }
        },
        _ => None,
    }
}
pub proof fn lem_content_step(s: Seq<char>, k: int, e: ElemV)
    requires 0 <= k <= s.len()
    ensures tag_end(s, k) is None ==> content(s, k, e) is None,
        tag_end(s, k) is Some ==> ({ let a = tag_at(s, k)->Some_0; let b = tag_end(s, k)->Some_0; let t = s.subrange(a, b); let f = e_text(e, s.subrange(k, a));
            content(s, k, e) ==
            (if is_com(t) { content(s, b, e_add(f, NodeV::Comment(t.subrange(4, t.len() - 3)))) }
            else if is_cda(t) { content(s, b, e_add(f, NodeV::CData(t.subrange(9, t.len() - 3)))) }
            else if is_end(t, tag_v(e)) { Some((f, b)) }
            else if is_start(t) {
                match elem_of(strip(t), Some(f)) {
                    None => None::<(ElemV, int)>,
                    Some(c) => if ends(t, empty_end()) { content(s, b, e_add(f, NodeV::Elem(c))) } else {
                        match content(s, b, c) { None => None::<(ElemV, int)>, Some((c2, j)) => if !(k < j <= s.len()) { None::<(ElemV, int)> } else { content(s, j, e_add(f, NodeV::Elem(c2))) } }
                    },
                }
            } else { None::<(ElemV, int)> }) })
{ lem_next(s, k); }
/// content ends behind where it starts
pub proof fn lem_content_end(s: Seq<char>, k: int, e: ElemV)
    requires 0 <= k <= s.len()
    ensures match content(s, k, e) { Some((f, j)) => k < j <= s.len() && tag_v(f) == tag_v(e), None => true }
    decreases s.len() - k
{
    hide(content); hide(tag_at); hide(tag_end); hide(is_com); hide(is_cda); hide(is_end); hide(is_start); hide(elem_of); hide(ends); hide(unesc); hide(tag_v);
    lem_content_step(s, k, e); lem_next(s, k);
    if tag_end(s, k) is Some {
        let a = tag_at(s, k)->Some_0; let b = tag_end(s, k)->Some_0; let t = s.subrange(a, b); let w = s.subrange(k, a); let f = e_text(e, w);
        lem_etag(e, NodeV::Text(unesc(w)));
        lem_etag(f, NodeV::Comment(t.subrange(4, t.len() - 3))); lem_etag(f, NodeV::CData(t.subrange(9, t.len() - 3)));
        if is_com(t) { lem_content_end(s, b, e_add(f, NodeV::Comment(t.subrange(4, t.len() - 3)))); }
        else if is_cda(t) { lem_content_end(s, b, e_add(f, NodeV::CData(t.subrange(9, t.len() - 3)))); }
        else if is_end(t, tag_v(e)) { }
        else if is_start(t) {
            match elem_of(strip(t), Some(f)) {
                None => {}
                Some(c) => {
                    lem_etag(f, NodeV::Elem(c));
                    if ends(t, empty_end()) { lem_content_end(s, b, e_add(f, NodeV::Elem(c))); } else {
                        lem_content_end(s, b, c);
                        match content(s, b, c) { None => {} Some((c2, j)) => { lem_etag(f, NodeV::Elem(c2)); lem_content_end(s, j, e_add(f, NodeV::Elem(c2))); } }
                    }
                }
            }
        }
    }
}
pub proof fn lem_etag(e: ElemV, n: NodeV) ensures tag_v(e_add(e, n)) == tag_v(e) {}
pub proof fn lem_st_push(st: Seq<ElemV>, e: ElemV, n: NodeV) ensures st_add(st.push(e), n) == st.push(e_add(e, n)), st.push(e).last() == e, st.push(e).drop_last() == st
{ assert(st.push(e).drop_last() =~= st); }
/// C06: the parser's stack follows the nesting: what is open is closed, innermost first, by end tags of the same name
pub proof fn thm_c06_nest(s: Seq<char>, k: int, st: Seq<ElemV>, root: Option<ElemV>, e: ElemV)
    requires 0 <= k <= s.len()
    ensures p_body(s, k, PSt { st: st.push(e), root }) == (match content(s, k, e) { None => None::<ElemV>, Some((f, j)) => p_body(s, j, p_pop(PSt { st: st.push(f), root })) })
    decreases s.len() - k
{
    hide(content); hide(p_body); hide(tag_at); hide(tag_end); hide(elem_of); hide(ends); hide(starts); hide(unesc); hide(tag_v); hide(tag_ok); hide(strip); hide(st_add); hide(add_kid);
    let p = PSt { st: st.push(e), root };
    lem_content_step(s, k, e); lem_next(s, k); lem_body_step(s, k, p);
    if tag_end(s, k) is Some {
        let a = tag_at(s, k)->Some_0; let b = tag_end(s, k)->Some_0; let t = s.subrange(a, b); let w = s.subrange(k, a); let f = e_text(e, w); let q = PSt { st: st.push(f), root };
        lem_text_cases(p, w); lem_st_push(st, e, NodeV::Text(unesc(w))); lem_etag(e, NodeV::Text(unesc(w)));
        assert(p_text(p, w) == Some(q));
        lem_tag_cases(q, t); 
        assert(st.push(f).last() == f);
        assert(q.st.len() > 0);
        let n1 = NodeV::Comment(t.subrange(4, t.len() - 3)); let n2 = NodeV::CData(t.subrange(9, t.len() - 3));
        if is_com(t) { lem_st_push(st, f, n1); thm_c06_nest(s, b, st, root, e_add(f, n1)); }
        else if is_cda(t) { lem_st_push(st, f, n2); thm_c06_nest(s, b, st, root, e_add(f, n2)); }
        else if is_end(t, tag_v(e)) { }
        else if is_start(t) {
            match elem_of(strip(t), Some(f)) {
                None => {}
                Some(c) => {
                    lem_st_push(st, f, NodeV::Elem(c));
                    if ends(t, empty_end()) { thm_c06_nest(s, b, st, root, e_add(f, NodeV::Elem(c))); } else {
                        thm_c06_nest(s, b, st.push(f), root, c); lem_content_end(s, b, c);
                        match content(s, b, c) { None => {} Some((c2, j)) => {
                            let z = PSt { st: st.push(f).push(c2), root };
                            lem_st_push(st.push(f), c2, NodeV::Elem(c2)); lem_st_push(st, f, NodeV::Elem(c2));
                            assert(p_pop(z) == PSt { st: st.push(e_add(f, NodeV::Elem(c2))), root });
                            thm_c06_nest(s, j, st, root, e_add(f, NodeV::Elem(c2)));
                        } }
                    }
                }
            }
        }
    }
}
pub open spec fn no_lt(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) != '<' }
/// after the root there is nothing but blanks
pub proof fn thm_c06_after(s: Seq<char>, k: int, e: ElemV)
    requires 0 <= k <= s.len()
    ensures p_body(s, k, PSt { st: Seq::empty(), root: Some(e) }) == (if all_ws(s.skip(k)) { Some(e) } else { None::<ElemV> })
{
    hide(p_body);
    broadcast use lem_occurs1;
    let p = PSt { st: Seq::empty(), root: Some(e) };
    lem_body_step(s, k, p); lem_next(s, k); lem_find_from(s, lt_s(), k);
    match tag_at(s, k) {
        Some(a) => { assert(s.skip(k)[a - k] == '<'); assert(!is_ws('<')); if tag_end(s, k) is Some { lem_item_closed(p, s.subrange(k, a), s.subrange(a, tag_end(s, k)->Some_0)); } }
        None => {}
    }
}
/// what parse_spec gives, in one piece: behind the prolog one root element, its content, its own end tag, then blanks
pub open spec fn root_at(s: Seq<char>, b: int, t: Seq<char>) -> Option<ElemV> {
    match elem_of(strip(t), None) {
        None => None,
        Some(e) => if ends(t, empty_end()) { if all_ws(s.skip(b)) { Some(e) } else { None } }
            else { match content(s, b, e) { None => None, Some((f, j)) => if 0 <= j <= s.len() && all_ws(s.skip(j)) { Some(f) } else { None } } },
    }
}
pub proof fn thm_c06_root(s: Seq<char>, b: int, t: Seq<char>)
    requires 0 <= b <= s.len()
    ensures (match p_root(t) { None => None::<ElemV>, Some(p) => p_body(s, b, p) }) == root_at(s, b, t)
{
    hide(p_body); hide(content); hide(elem_of); hide(ends);
    lem_root_cases(t);
    match elem_of(strip(t), None) {
        None => {}
        Some(e) => if ends(t, empty_end()) { thm_c06_after(s, b, e); } else {
            let st = Seq::<ElemV>::empty(); assert(st.push(e) =~= seq![e]);
            thm_c06_nest(s, b, st, None, e); lem_content_end(s, b, e);
            match content(s, b, e) { None => {} Some((f, j)) => { let z = PSt { st: st.push(f), root: None }; assert(p_pop(z).st =~= st); assert(p_pop(z) == PSt { st, root: Some(f) }); thm_c06_after(s, j, f); } }
        }
    }
}
/// C06: a text is a document exactly if it is blanks and prolog items, then the root: start tag, content and end tag, then blanks
pub open spec fn doc_at(s: Seq<char>, k: int, first: bool, d: Option<Seq<char>>, ts: Seq<Seq<char>>) -> Option<DocV> decreases s.len() - k {
    match (tag_at(s, k), tag_end(s, k)) {
        (Some(a), Some(b)) => if !(0 <= k <= a < b <= s.len()) || !all_ws(s.subrange(k, a)) { None } else {
            let t = s.subrange(a, b);
            if starts(t, xml_open()) { if first && decl_ok(t) { doc_at(s, b, false, Some(trim(t)), ts) } else { None } }
            else if starts(t, dtd_open()) && !starts(t, com_open()) { if dtd_ok(t) { doc_at(s, b, false, d, ts.push(trim(t))) } else { None } }
            else if starts(t, com_open()) || starts(t, bang()) { doc_at(s, b, false, d, ts) }
            else if starts(t, end_open()) || !tag_ok(t) { None }
            else { match root_at(s, b, t) { None => None, Some(e) => Some(DocV { decl: d, dtds: ts, root: e }) } }
        },
        _ => None,
    }
}
pub proof fn thm_c06_at(s: Seq<char>, k: int, first: bool, d: Option<Seq<char>>, ts: Seq<Seq<char>>)
    requires 0 <= k <= s.len()
    ensures p_prolog(s, k, first, d, ts) == doc_at(s, k, first, d, ts)
    decreases s.len() - k
{
    hide(p_prolog); hide(p_body); hide(root_at); hide(tag_at); hide(tag_end); hide(starts); hide(tag_ok); hide(decl_ok); hide(dtd_ok); hide(trim); hide(p_root);
    lem_prolog_step(s, k, first, d, ts); lem_next(s, k);
    if tag_end(s, k) is Some {
        let a = tag_at(s, k)->Some_0; let b = tag_end(s, k)->Some_0; let t = s.subrange(a, b);
        thm_c06_at(s, b, false, Some(trim(t)), ts); thm_c06_at(s, b, false, d, ts.push(trim(t))); thm_c06_at(s, b, false, d, ts);
        thm_c06_root(s, b, t);
    }
}
pub proof fn thm_c06(s: Seq<char>) ensures parse_spec(s) == doc_at(s, 0, true, None, Seq::empty()) { hide(p_prolog); hide(doc_at); thm_c06_at(s, 0, true, None, Seq::empty()); }
/// a start tag as written is refused only for its names, or at the root for an undeclared prefix
pub proof fn thm_c06_start(x: TagX, p: Option<ElemV>)
    requires tag_x_ok(x)
    ensures elem_of(strip(tag_x_text(x)), p) is Some <==> ({
        let m = xmap(x.attrs, x.attrs.len() as int);
        names_ok(m) && match find_from(x.name, colon_s(), 0) { None => xml_name(x.name), Some(i) => xml_name(x.name.skip(i + 1)) && (m.contains_key(xmlns_colon() + x.name.take(i)) || p is Some) } })
{ thm_c07_tag(x, p); }
