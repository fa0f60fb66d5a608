// C20 over histories: a constructor gives, and every edit keeps, a tree that reads back
pub open spec fn leaf_ok(x: NodeV) -> bool {
    match x { NodeV::Elem(c) => true, NodeV::Text(t) => t.len() > 0, NodeV::Comment(t) => find_from(t, comment_end(), 0) is None, NodeV::CData(t) => find_from(t, cdata_end(), 0) is None }
}
/// what may stand in a child list before its texts are merged; g says which elements
pub open spec fn kid_g(x: NodeV, g: spec_fn(ElemV) -> bool) -> bool { leaf_ok(x) && (x is Elem ==> g(x->Elem_0)) }
pub open spec fn kids_g(k: Seq<NodeV>, g: spec_fn(ElemV) -> bool) -> bool { forall|i: int| #![trigger k[i]] 0 <= i < k.len() ==> kid_g(k[i], g) }
/// ... and after that
pub open spec fn list_g(k: Seq<NodeV>, g: spec_fn(ElemV) -> bool) -> bool { kids_g(k, g) && sep_from(k, 0) && unblank_from(k, 0) }
pub proof fn lem_g_merged(k: Seq<NodeV>, g: spec_fn(ElemV) -> bool)
    requires kids_g(k, g)
    ensures kids_g(merged(k), g)
    decreases k.len()
{
    hide(leaf_ok);
    if k.len() > 0 {
        assert forall|i: int| #![trigger k.drop_last()[i]] 0 <= i < k.len() - 1 implies kid_g(k.drop_last()[i], g) by { assert(k.drop_last()[i] == k[i]); }
        lem_g_merged(k.drop_last(), g);
        let m = merged(k.drop_last()); let x = k.last(); let r = merged(k);
        assert(k[k.len() - 1] == x);
        assert forall|i: int| #![trigger r[i]] 0 <= i < r.len() implies kid_g(r[i], g) by {
            if i < m.len() && r[i] == m[i] {} else if i == m.len() {} else {
                assert(m.last() is Text && x is Text); assert(m[m.len() - 1] == m.last()); reveal(leaf_ok);
                assert(r[i] == NodeV::Text(m.last()->Text_0 + x->Text_0));
            }
        }
    }
}
pub proof fn lem_g_unblank(k: Seq<NodeV>, g: spec_fn(ElemV) -> bool)
    requires kids_g(k, g), sep_from(k, 0)
    ensures kids_g(unblank(k), g), sep_from(unblank(k), 0), unblank_from(unblank(k), 0)
    decreases k.len()
{
    hide(leaf_ok); hide(kid_g); hide(is_blank);
    if k.len() > 0 {
        let d = k.drop_last();
        assert forall|i: int| #![trigger d[i]] 0 <= i < d.len() implies kid_g(d[i], g) by { assert(d[i] == k[i]); }
        assert forall|j: int| #![trigger d[j]] 0 <= j && j + 1 < d.len() implies !(d[j] is Text && d[j + 1] is Text) by { assert(d[j] == k[j]); assert(d[j + 1] == k[j + 1]); }
        lem_g_unblank(d, g);
        assert(k =~= d.push(k.last())); assert(k[k.len() - 1] == k.last()); assert(kid_g(k.last(), g));
        if !is_blank(k.last()) {
            if k.last() is Text { lem_last_kept(d, k.last(), k); }
            lem_list_push(unblank(d), k.last(), g);
        }
    }
}
pub proof fn lem_list_push(u: Seq<NodeV>, x: NodeV, g: spec_fn(ElemV) -> bool)
    requires list_g(u, g), kid_g(x, g), !is_blank(x), u.len() > 0 ==> !(u.last() is Text && x is Text)
    ensures list_g(u.push(x), g)
{
    hide(kid_g); hide(is_blank);
    let r = u.push(x);
    assert forall|i: int| #![trigger r[i]] 0 <= i < r.len() implies kid_g(r[i], g) && !is_blank(r[i]) by { if i < u.len() { assert(r[i] == u[i]); } }
    assert forall|j: int| #![trigger r[j]] 0 <= j && j + 1 < r.len() implies !(r[j] is Text && r[j + 1] is Text) by { assert(r[j] == u[j]); if j + 1 < u.len() { assert(r[j + 1] == u[j + 1]); } }
}
/// in front of a text there is no text, so what is in front is not dropped
pub proof fn lem_last_kept(d: Seq<NodeV>, x: NodeV, k: Seq<NodeV>)
    requires k == d.push(x), x is Text, sep_from(k, 0)
    ensures d.len() > 0 ==> unblank(d).len() > 0 && !(unblank(d).last() is Text), d.len() == 0 ==> unblank(d).len() == 0
{
    if d.len() > 0 { let j = d.len() - 1; assert(k[j] == d[j]); assert(k[j + 1] == x); assert(!(k[j] is Text && k[j + 1] is Text)); assert(d.last() == d[j]); assert(unblank(d) == unblank(d.drop_last()).push(d.last())); }
}
pub proof fn lem_g_norm(k: Seq<NodeV>, g: spec_fn(ElemV) -> bool)
    requires kids_g(k, g)
    ensures list_g(norm(k), g)
{ hide(kids_g); hide(sep_from); hide(unblank_from); hide(merged); hide(unblank); lem_g_merged(k, g); thm_c08_merged(k); lem_g_unblank(merged(k), g); }

// ---- the two readings of "reads back": rd (built anyhow) and wfe (built top-down, contexts included) --------
pub open spec fn reads(e: ElemV, p: Option<ElemV>) -> ElemV { elem_in(tag_v(e), e.attrs, p)->Some_0 }
pub open spec fn g_rd(b: ElemV) -> spec_fn(ElemV) -> bool { |c: ElemV| rd(c, Some(b)) }
pub open spec fn g_wf(b: ElemV) -> spec_fn(ElemV) -> bool { |c: ElemV| wfe(c, Some(b)) }
pub proof fn lem_rdk_list(k: Seq<NodeV>, n: nat, b: ElemV)
    requires n <= k.len()
    ensures rdk(k, n, b) <==> list_g(k.take(n as int), g_rd(b))
    decreases n
{
    hide(rd); hide(rdk); hide(kid_g); hide(two_texts); hide(is_blank);
    if n > 0 { lem_rdk_list(k, (n - 1) as nat, b); lem_list_step(k, n, g_rd(b)); lem_rdk_at(k, n, b); assert(k.take(n - 1) == k.take(((n - 1) as nat) as int)); }
    else { reveal(rdk); assert(k.take(0) =~= Seq::<NodeV>::empty()); }
}
pub proof fn lem_rdk_at(k: Seq<NodeV>, n: nat, b: ElemV)
    requires 0 < n <= k.len()
    ensures rdk(k, n, b) <==> (rdk(k, (n - 1) as nat, b) && !two_texts(k, n) && kid_g(k[n - 1], g_rd(b)) && !is_blank(k[n - 1]))
{
    hide(find_from);
    let x = k[n - 1];
    if let NodeV::Text(t) = x { assert(is_blank(x) == (t.len() > 0 && all_ws(t))); }
    if let NodeV::Elem(c) = x { assert(g_rd(b)(c) == rd(c, Some(b))); }
}
pub proof fn lem_wfk_list(k: Seq<NodeV>, n: nat, b: ElemV)
    requires n <= k.len()
    ensures wfk(k, n, b) <==> list_g(k.take(n as int), g_wf(b))
    decreases n
{
    hide(wfe); hide(wfk); hide(kid_g); hide(two_texts); hide(is_blank);
    if n > 0 { lem_wfk_list(k, (n - 1) as nat, b); lem_list_step(k, n, g_wf(b)); lem_wfk_at(k, n, b); assert(k.take(n - 1) == k.take(((n - 1) as nat) as int)); }
    else { reveal(wfk); assert(k.take(0) =~= Seq::<NodeV>::empty()); }
}
pub proof fn lem_wfk_at(k: Seq<NodeV>, n: nat, b: ElemV)
    requires 0 < n <= k.len()
    ensures wfk(k, n, b) <==> (wfk(k, (n - 1) as nat, b) && !two_texts(k, n) && kid_g(k[n - 1], g_wf(b)) && !is_blank(k[n - 1]))
{
    hide(find_from);
    let x = k[n - 1];
    if let NodeV::Text(t) = x { assert(is_blank(x) == (t.len() > 0 && all_ws(t))); }
    if let NodeV::Elem(c) = x { assert(g_wf(b)(c) == wfe(c, Some(b))); }
}
pub proof fn lem_list_step(k: Seq<NodeV>, n: nat, g: spec_fn(ElemV) -> bool)
    requires 0 < n <= k.len()
    ensures list_g(k.take(n as int), g) <==> (list_g(k.take(n - 1), g) && !two_texts(k, n) && kid_g(k[n - 1], g) && !is_blank(k[n - 1]))
{
    hide(kid_g); hide(is_blank);
    let t = k.take(n as int); let u = k.take(n - 1);
    assert forall|i: int| 0 <= i < n implies #[trigger] t[i] == k[i] by {}
    assert forall|i: int| 0 <= i < n - 1 implies #[trigger] u[i] == k[i] by {}
    if list_g(t, g) {
        assert(t[n - 1] == k[n - 1]);
        if n >= 2 { assert(t[n - 2] == k[n - 2]); assert(!(t[n - 2] is Text && t[n - 2 + 1] is Text)); }
        assert forall|i: int| #![trigger u[i]] 0 <= i < u.len() implies kid_g(u[i], g) && !is_blank(u[i]) by { assert(t[i] == u[i]); }
        assert forall|j: int| #![trigger u[j]] 0 <= j && j + 1 < u.len() implies !(u[j] is Text && u[j + 1] is Text) by { assert(t[j] == u[j]); assert(t[j + 1] == u[j + 1]); }
    }
    if list_g(u, g) && !two_texts(k, n) && kid_g(k[n - 1], g) && !is_blank(k[n - 1]) {
        assert forall|i: int| #![trigger t[i]] 0 <= i < t.len() implies kid_g(t[i], g) && !is_blank(t[i]) by { if i < n - 1 { assert(t[i] == u[i]); } }
        assert forall|j: int| #![trigger t[j]] 0 <= j && j + 1 < t.len() implies !(t[j] is Text && t[j + 1] is Text) by { assert(t[j] == k[j] && t[j + 1] == k[j + 1]); if j + 1 < n - 1 { assert(t[j] == u[j]); assert(t[j + 1] == u[j + 1]); } }
    }
}
/// C20: whatever an edit asks for, the merged list reads back if the pieces do
pub proof fn thm_c20_edit(e: ElemV, p: Option<ElemV>, k: Seq<NodeV>)
    requires rd(e, p), kids_g(k, g_rd(reads(e, p)))
    ensures rd(with_kids(e, norm(k)), p), reads(with_kids(e, norm(k)), p) == reads(e, p)
{
    hide(norm); hide(kids_g); hide(list_g); hide(raw_name); hide(raw_keys); hide(elem_in);
    let b = reads(e, p); let r = with_kids(e, norm(k));
    lem_g_norm(k, g_rd(b)); lem_rdk_list(norm(k), norm(k).len(), b);
    assert(norm(k).take(norm(k).len() as int) =~= norm(k));
    assert(tag_v(r) == tag_v(e)); assert(r.kids == norm(k));
}
pub proof fn thm_c20_edit_wf(e: ElemV, p: Option<ElemV>, k: Seq<NodeV>)
    requires wfe(e, p), kids_g(k, g_wf(bare(e)))
    ensures wfe(with_kids(e, norm(k)), p), bare(with_kids(e, norm(k))) == bare(e)
{
    hide(norm); hide(kids_g); hide(list_g); hide(raw_name); hide(raw_keys); hide(elem_in);
    let r = with_kids(e, norm(k));
    lem_g_norm(k, g_wf(bare(e))); lem_wfk_list(norm(k), norm(k).len(), bare(e));
    assert(norm(k).take(norm(k).len() as int) =~= norm(k));
    assert(tag_v(r) == tag_v(e)); assert(r.kids == norm(k)); assert(bare(r) =~= bare(e));
}
pub proof fn lem_kids_rd(e: ElemV, p: Option<ElemV>)
    requires rd(e, p)
    ensures list_g(e.kids, g_rd(reads(e, p)))
{ hide(list_g); hide(raw_name); hide(raw_keys); hide(elem_in); lem_rdk_list(e.kids, e.kids.len(), reads(e, p)); assert(e.kids.take(e.kids.len() as int) =~= e.kids); }
pub proof fn lem_kids_wf(e: ElemV, p: Option<ElemV>)
    requires wfe(e, p)
    ensures list_g(e.kids, g_wf(bare(e)))
{ hide(list_g); hide(raw_name); hide(raw_keys); hide(elem_in); lem_wfk_list(e.kids, e.kids.len(), bare(e)); assert(e.kids.take(e.kids.len() as int) =~= e.kids); }
/// built top-down is built
pub proof fn lem_wf_rd(e: ElemV, p: Option<ElemV>)
    requires wfe(e, p)
    ensures rd(e, p), reads(e, p) == bare(e)
    decreases e, 0nat
{
    hide(raw_name); hide(raw_keys); hide(elem_in);
    lem_wfk_rdk(e.kids, e.kids.len(), bare(e));
}
pub proof fn lem_wfk_rdk(k: Seq<NodeV>, n: nat, b: ElemV)
    requires wfk(k, n, b), n <= k.len()
    ensures rdk(k, n, b)
    decreases k, n
{
    hide(find_from);
    if n > 0 {
        lem_wfk_rdk(k, (n - 1) as nat, b);
        if let NodeV::Elem(c) = k[n - 1] { assert(decreases_to!(k => k[n - 1])); lem_wf_rd(c, Some(b)); }
    }
}
/// C20: an edit below an element does not change how anything else reads
pub proof fn thm_c20_inner(e: ElemV, p: Option<ElemV>, i: int, c: ElemV)
    requires rd(e, p), 0 <= i < e.kids.len(), e.kids[i] is Elem, rd(c, Some(reads(e, p)))
    ensures rd(with_kids(e, e.kids.update(i, NodeV::Elem(c))), p)
{
    hide(raw_name); hide(raw_keys); hide(elem_in); hide(rd);
    let b = reads(e, p); let k = e.kids; let r = k.update(i, NodeV::Elem(c)); let f = with_kids(e, r);
    lem_kids_rd(e, p);
    assert(k[i] is Elem);
    assert forall|j: int| #![trigger r[j]] 0 <= j < r.len() implies kid_g(r[j], g_rd(b)) && !is_blank(r[j]) by { if j != i { assert(r[j] == k[j]); } else { assert(g_rd(b)(c)); } }
    assert forall|j: int| #![trigger r[j]] 0 <= j && j + 1 < r.len() implies !(r[j] is Text && r[j + 1] is Text) by { assert(j != i ==> r[j] == k[j]); assert(j + 1 != i ==> r[j + 1] == k[j + 1]); assert(!(k[j] is Text && k[j + 1] is Text)); }
    lem_rdk_list(r, r.len(), b); assert(r.take(r.len() as int) =~= r);
    assert(tag_v(f) == tag_v(e));
    reveal(rd);
}

// ---- the edits themselves, against their contracts ---------------------------------------------------------
pub fn thm_c20_append_boxed(e: &mut Element, n: Box<DynNode>, Ghost(p): Ghost<Option<ElemV>>)
    requires rd(elem_v(*old(e)), p), kid_g(adopt(elem_v(*old(e)), node_v(*n)), g_rd(reads(elem_v(*old(e)), p)))
    ensures rd(elem_v(*final(e)), p), reads(elem_v(*final(e)), p) == reads(elem_v(*old(e)), p)
{
    hide(rd); hide(norm); hide(adopt); hide(leaf_ok); hide(elem_v); hide(node_v); hide(elem_in); hide(tag_v);
    let ghost e0 = elem_v(*e); let ghost x = adopt(e0, node_v(*n));
    e.append_boxed(n);
    proof { let g = g_rd(reads(e0, p)); lem_kids_rd(e0, p); lem_g_push(e0.kids, x, g); thm_c20_edit(e0, p, e0.kids.push(x)); }
}
pub fn thm_c20_append<N: Node>(e: &mut Element, n: N, Ghost(p): Ghost<Option<ElemV>>)
    requires rd(elem_v(*old(e)), p), kid_g(adopt(elem_v(*old(e)), node_v(n.me())), g_rd(reads(elem_v(*old(e)), p)))
    ensures rd(elem_v(*final(e)), p), reads(elem_v(*final(e)), p) == reads(elem_v(*old(e)), p)
{
    hide(rd); hide(norm); hide(adopt); hide(leaf_ok); hide(elem_v); hide(node_v); hide(elem_in); hide(tag_v);
    let ghost e0 = elem_v(*e); let ghost x = adopt(e0, node_v(n.me()));
    e.append(n);
    proof { let g = g_rd(reads(e0, p)); lem_kids_rd(e0, p); lem_g_push(e0.kids, x, g); thm_c20_edit(e0, p, e0.kids.push(x)); }
}
pub fn thm_c20_insert<N: Node>(e: &mut Element, i: usize, n: N, Ghost(p): Ghost<Option<ElemV>>)
    requires rd(elem_v(*old(e)), p), kid_g(adopt(elem_v(*old(e)), node_v(n.me())), g_rd(reads(elem_v(*old(e)), p)))
    ensures rd(elem_v(*final(e)), p), reads(elem_v(*final(e)), p) == reads(elem_v(*old(e)), p)
{
    hide(rd); hide(norm); hide(adopt); hide(leaf_ok); hide(node_v); hide(elem_in); hide(tag_v);
    broadcast use {lem_kids};
    let ghost e0 = elem_v(*e); let ghost x = adopt(e0, node_v(n.me()));
    let r = e.insert(i, n);
    proof { if r is Ok { let g = g_rd(reads(e0, p)); lem_kids_rd(e0, p); lem_g_insert(e0.kids, i as int, x, g); thm_c20_edit(e0, p, e0.kids.insert(i as int, x)); } }
}
pub fn thm_c20_append_all(e: &mut Element, n: Vec<Box<DynNode>>, Ghost(p): Ghost<Option<ElemV>>)
    requires rd(elem_v(*old(e)), p), kids_g(adopt_all(elem_v(*old(e)), kids_v(n@)), g_rd(reads(elem_v(*old(e)), p)))
    ensures rd(elem_v(*final(e)), p), reads(elem_v(*final(e)), p) == reads(elem_v(*old(e)), p)
{
    hide(rd); hide(norm); hide(adopt_all); hide(leaf_ok); hide(elem_v); hide(node_v); hide(elem_in); hide(tag_v); hide(kids_v);
    let ghost e0 = elem_v(*e); let ghost x = adopt_all(e0, kids_v(n@));
    e.append_all(n);
    proof { let g = g_rd(reads(e0, p)); lem_kids_rd(e0, p); lem_g_cat(e0.kids, x, g); thm_c20_edit(e0, p, e0.kids + x); }
}
pub fn thm_c20_set_text(e: &mut Element, t: &str, Ghost(p): Ghost<Option<ElemV>>)
    requires rd(elem_v(*old(e)), p), t@.len() > 0
    ensures rd(elem_v(*final(e)), p), reads(elem_v(*final(e)), p) == reads(elem_v(*old(e)), p)
{
    hide(rd); hide(norm); hide(elem_v); hide(node_v); hide(elem_in); hide(tag_v);
    let ghost e0 = elem_v(*e);
    e.set_text(t);
    proof { let k = seq![NodeV::Text(t@)]; assert forall|i: int| #![trigger k[i]] 0 <= i < k.len() implies kid_g(k[i], g_rd(reads(e0, p))) by { assert(k[i] == NodeV::Text(t@)); } thm_c20_edit(e0, p, k); }
}
pub fn thm_c20_clear_children(e: &mut Element, Ghost(p): Ghost<Option<ElemV>>)
    requires rd(elem_v(*old(e)), p)
    ensures rd(elem_v(*final(e)), p), reads(elem_v(*final(e)), p) == reads(elem_v(*old(e)), p)
{
    hide(rd); hide(norm); hide(elem_v); hide(node_v); hide(elem_in); hide(tag_v);
    let ghost e0 = elem_v(*e);
    e.clear_children();
    proof { let k = Seq::<NodeV>::empty(); thm_c20_edit(e0, p, k); lem_norm_empty(); }
}
pub proof fn lem_norm_empty() ensures norm(Seq::empty()) == Seq::<NodeV>::empty() { assert(merged(Seq::empty()) =~= Seq::<NodeV>::empty()); assert(unblank(Seq::empty()) =~= Seq::<NodeV>::empty()); }
pub fn thm_c20_reverse(e: &mut Element, Ghost(p): Ghost<Option<ElemV>>)
    requires rd(elem_v(*old(e)), p)
    ensures rd(elem_v(*final(e)), p), reads(elem_v(*final(e)), p) == reads(elem_v(*old(e)), p)
{
    hide(rd); hide(norm); hide(elem_v); hide(node_v); hide(elem_in); hide(tag_v);
    let ghost e0 = elem_v(*e);
    e.reverse_children();
    proof { lem_kids_rd(e0, p); lem_g_reverse(e0.kids, g_rd(reads(e0, p))); thm_c20_list(e0, p, e0.kids.reverse()); }
}
/// a child list in normal form, whichever way it came about
pub proof fn thm_c20_list(e: ElemV, p: Option<ElemV>, k: Seq<NodeV>)
    requires rd(e, p), list_g(k, g_rd(reads(e, p)))
    ensures rd(with_kids(e, k), p), reads(with_kids(e, k), p) == reads(e, p)
{
    hide(list_g); hide(raw_name); hide(raw_keys); hide(elem_in);
    let r = with_kids(e, k);
    lem_rdk_list(k, k.len(), reads(e, p)); assert(k.take(k.len() as int) =~= k);
    assert(tag_v(r) == tag_v(e)); assert(r.kids == k);
}
pub proof fn lem_g_push(k: Seq<NodeV>, x: NodeV, g: spec_fn(ElemV) -> bool)
    requires list_g(k, g), kid_g(x, g)
    ensures kids_g(k.push(x), g)
{ hide(kid_g); let r = k.push(x); assert forall|i: int| #![trigger r[i]] 0 <= i < r.len() implies kid_g(r[i], g) by { if i < k.len() { assert(r[i] == k[i]); } } }
pub proof fn lem_g_insert(k: Seq<NodeV>, j: int, x: NodeV, g: spec_fn(ElemV) -> bool)
    requires list_g(k, g), kid_g(x, g), 0 <= j <= k.len()
    ensures kids_g(k.insert(j, x), g)
{ hide(kid_g); let r = k.insert(j, x); assert forall|i: int| #![trigger r[i]] 0 <= i < r.len() implies kid_g(r[i], g) by { if i < j { assert(r[i] == k[i]); } else if i > j { assert(r[i] == k[i - 1]); } } }
pub proof fn lem_g_cat(k: Seq<NodeV>, l: Seq<NodeV>, g: spec_fn(ElemV) -> bool)
    requires list_g(k, g), kids_g(l, g)
    ensures kids_g(k + l, g)
{ hide(kid_g); let r = k + l; assert forall|i: int| #![trigger r[i]] 0 <= i < r.len() implies kid_g(r[i], g) by { if i < k.len() { assert(r[i] == k[i]); } else { assert(r[i] == l[i - k.len()]); } } }
pub proof fn lem_g_reverse(k: Seq<NodeV>, g: spec_fn(ElemV) -> bool)
    requires list_g(k, g)
    ensures list_g(k.reverse(), g)
{
    hide(kid_g); hide(is_blank);
    let r = k.reverse(); let n = k.len();
    assert forall|i: int| #![trigger r[i]] 0 <= i < r.len() implies kid_g(r[i], g) && !is_blank(r[i]) by { assert(r[i] == k[n - 1 - i]); }
    assert forall|j: int| #![trigger r[j]] 0 <= j && j + 1 < r.len() implies !(r[j] is Text && r[j + 1] is Text) by { assert(r[j] == k[n - 1 - j]); assert(r[j + 1] == k[n - 2 - j]); assert(!(k[n - 2 - j] is Text && k[n - 2 - j + 1] is Text)); }
}

// ---- constructors --------------------------------------------------------------------------------------------
pub open spec fn tag_of(name: Seq<char>, prefix: Option<Seq<char>>) -> Seq<char> { match prefix { None => name, Some(p) => p + seq![':'] + name } }
/// names that a tag gives back: no whitespace, no ':' but the one behind the prefix
pub open spec fn asks_ok(name: Seq<char>, attrs: AttrV, prefix: Option<Seq<char>>) -> bool {
    raw_name(tag_of(name, prefix)) && raw_keys(attrs) && names_ok(attrs) && xml_name(name) && match prefix { None => no_char(name, ':'), Some(p) => no_char(p, ':') }
}
pub proof fn lem_tag_of(name: Seq<char>, prefix: Option<Seq<char>>)
    requires match prefix { None => no_char(name, ':'), Some(p) => no_char(p, ':') }
    ensures match prefix { None => find_from(name, colon_s(), 0) is None, Some(p) => find_from(tag_of(name, prefix), colon_s(), 0) == Some(p.len() as int) && tag_of(name, prefix).take(p.len() as int) == p && tag_of(name, prefix).skip(p.len() as int + 1) == name }
{
    broadcast use lem_occurs1;
    assert(colon_s()[0] == ':');
    match prefix {
        None => { lem_find_from(name, colon_s(), 0); if let Some(i) = find_from(name, colon_s(), 0) { assert(occurs(name, colon_s(), i)); } }
        Some(p) => {
            let t = tag_of(name, prefix); let n = p.len() as int;
            assert(t[n] == ':'); assert(occurs(t, colon_s(), n));
            assert forall|i: int| 0 <= i < n implies !#[trigger] occurs(t, colon_s(), i) by { assert(t[i] == p[i]); }
            lem_find_is(t, colon_s(), 0, n);
            assert(t.take(n) =~= p); assert(t.skip(n + 1) =~= name);
        }
    }
}
/// C20, C10: an element made without a given namespace (or with the one it declares itself) and put under e, which reads as b:
/// its tag says what it is
pub proof fn thm_c20_tag(name: Seq<char>, attrs: AttrV, xmlns: Option<Seq<char>>, prefix: Option<Seq<char>>, p: Option<ElemV>)
    requires asks_ok(name, attrs, prefix), xmlns is None || xmlns == own_ns(attrs, prefix), is_ctx(own_ctx(attrs), attrs),
        p is None ==> (match prefix { None => true, Some(a) => attrs.contains_key(xmlns_colon() + a) }),
    ensures ({ let c = bare_elem(name, attrs, xmlns, prefix); elem_in(tag_v(c), c.attrs, p) == Some(inherit(c, pdflt(p), pctx(p))) })
{
    hide(raw_name); hide(raw_keys); hide(names_ok); hide(xml_name); hide(own_ctx); hide(find_from);
    lem_tag_of(name, prefix);
    let c = bare_elem(name, attrs, xmlns, prefix); let i = inherit(c, pdflt(p), pctx(p));
    assert(tag_v(c) == tag_of(name, prefix));
    let r = elem_in(tag_v(c), c.attrs, p);
    assert(r is Some);
    assert(r->Some_0.ctx == i.ctx); assert(r->Some_0.name == name && r->Some_0.prefix == prefix && r->Some_0.attrs == attrs);
    assert(r->Some_0.kids =~= i.kids);
    match prefix {
        None => {}
        Some(a) => {
            let q = xmlns_colon() + a; let o = own_ctx(attrs); let v = overlay(o, pctx(p));
            assert(o.contains_key(a) <==> attrs.contains_key(q));
            if attrs.contains_key(q) { assert(o[a] == attrs[q]); assert(v.contains_key(a) && v[a] == o[a]); }
            else { assert(v.contains_key(a) == pctx(p).contains_key(a)); assert(pctx(p).contains_key(a) ==> v[a] == pctx(p)[a]); assert(mget(v, a) == mget(pctx(p), a)); }
        }
    }
    assert(r->Some_0.xmlns == i.xmlns);
    assert(r->Some_0 == i);
}
/// ... as a root
pub proof fn thm_c20_root(name: Seq<char>, attrs: AttrV, xmlns: Option<Seq<char>>, prefix: Option<Seq<char>>)
    requires asks_ok(name, attrs, prefix), xmlns is None || xmlns == own_ns(attrs, prefix), is_ctx(own_ctx(attrs), attrs),
        match prefix { None => true, Some(a) => attrs.contains_key(xmlns_colon() + a) },
    ensures wfe(bare_elem(name, attrs, xmlns, prefix), None)
{
    hide(own_ctx); hide(raw_name); hide(raw_keys); hide(names_ok); hide(xml_name); hide(elem_in);
    let c = bare_elem(name, attrs, xmlns, prefix);
    thm_c20_tag(name, attrs, xmlns, prefix, None);
    assert(overlay(own_ctx(attrs), Map::empty()) =~= own_ctx(attrs));
    let i = inherit(c, None, Map::empty());
    match prefix { None => {}, Some(a) => { assert(c.xmlns is Some); } }
    assert(i == c);
    assert(bare(c) == c); assert(tag_v(c) == tag_of(name, prefix));
    reveal_with_fuel(wfk, 2);
}
/// ... added to an element that was itself built top-down
pub proof fn thm_c20_child(e: ElemV, p: Option<ElemV>, name: Seq<char>, attrs: AttrV, xmlns: Option<Seq<char>>, prefix: Option<Seq<char>>)
    requires wfe(e, p), asks_ok(name, attrs, prefix), xmlns is None || xmlns == own_ns(attrs, prefix), is_ctx(own_ctx(attrs), attrs),
    ensures ({ let c = bare_elem(name, attrs, xmlns, prefix); &&& adopt(e, NodeV::Elem(c)) == NodeV::Elem(inherit(c, default_ns(e), e.ctx)) &&& wfe(inherit(c, default_ns(e), e.ctx), Some(bare(e))) })
{
    hide(own_ctx); hide(raw_name); hide(raw_keys); hide(names_ok); hide(xml_name); hide(elem_in);
    let c = bare_elem(name, attrs, xmlns, prefix); let b = bare(e);
    thm_c20_tag(name, attrs, xmlns, prefix, Some(b));
    let i = inherit(c, default_ns(e), e.ctx);
    assert(default_ns(b) == default_ns(e) && b.ctx == e.ctx);
    assert(bare(i) == i); assert(tag_v(i) == tag_of(name, prefix)); assert(i.attrs == attrs);
    reveal_with_fuel(wfk, 2);
}
/// the functions: a new root, and a new child appended to what was built top-down; what results is built top-down again
pub fn thm_c20_new_root(name: &str, xmlns: Option<String>, prefix: Option<String>, attrs: KxMap) -> (r: Option<Element>)
    requires asks_ok(name@, attrs@, optv(prefix)), optv(xmlns) is None || optv(xmlns) == own_ns(attrs@, optv(prefix)),
        match optv(prefix) { None => true, Some(a) => attrs@.contains_key(xmlns_colon() + a) },
    ensures r is Some, wfe(elem_v(r->Some_0), None), rd(elem_v(r->Some_0), None)
{
    hide(own_ctx); hide(asks_ok); hide(wfe); hide(rd); hide(elem_v); hide(is_ctx); hide(enumerates);
    broadcast use {ax_map_pairs};
    let ghost a0 = attrs@; let ghost ps = attrs.pairs(); let ghost (x0, p0) = (optv(xmlns), optv(prefix));
    proof { lem_ctx_is(kv_vals(ps), a0); lem_attrs_of_map(attrs); assert(xml_name(name@)) by { reveal(asks_ok); } assert(ctor_ok(name@, Some(attrs))) by { reveal(asks_ok); reveal(enumerates); lem_keys_of_map(attrs); } }
    let no_text: Option<String> = None; let no_kids: Option<Vec<Box<DynNode>>> = None;
    let r = Element::new(name, no_text, Some(attrs), xmlns, prefix, no_kids);
    proof { thm_c20_root(name@, a0, x0, p0); lem_wf_rd(bare_elem(name@, a0, x0, p0), None); }
    match r { Ok(e) => Some(e), Err(_) => None }
}
pub proof fn lem_ctx_is(s: Seq<KV>, m: AttrV)
    requires enumerates(s, m)
    ensures is_ctx(own_ctx(m), m)
{
    let a = ctx_upto(s, s.len());
    assert forall|p: Seq<char>| #![trigger a.contains_key(p)] (a.contains_key(p) <==> m.contains_key(xmlns_colon() + p)) && (a.contains_key(p) ==> a[p] == m[xmlns_colon() + p]) by {
        lem_ctx_upto(s, m, s.len(), p);
        let c = xmlns_colon() + p;
        if m.contains_key(c) { let i = choose|i: int| #![trigger s[i]] 0 <= i < s.len() && s[i].0 == c; assert(key_at(s, s.len(), c, i)); }
    }
    assert(is_ctx(a, m));
}
pub proof fn lem_keys_of_map(m: KxMap)
    requires names_ok(m@)
    ensures keys_ok(m.pairs(), m.pairs().len())
{
    ax_map_pairs(m); let v = kv_vals(m.pairs());
    assert forall|i: int| #![trigger m.pairs()[i]] 0 <= i < m.pairs().len() implies xml_name(m.pairs()[i].0.iv()) by { assert(v[i].0 == m.pairs()[i].0.iv()); assert(m@.contains_key(v[i].0)); }
}
pub proof fn lem_attrs_of_map(m: KxMap)
    ensures ctor_attrs(Some(m)) == m@
{
    ax_map_pairs(m); let v = kv_vals(m.pairs()); let n = m.pairs().len();
    lem_ins_map(m, n); let a = ins_upto(m.pairs(), n);
    assert forall|k: Seq<char>| #![trigger a.contains_key(k)] a.contains_key(k) == m@.contains_key(k) && (a.contains_key(k) ==> a[k] == m@[k]) by {
        if m@.contains_key(k) { let i = choose|i: int| #![trigger v[i]] 0 <= i < v.len() && v[i].0 == k; assert(m.pairs()[i].0.iv() == k); }
    }
    assert(a =~= m@);
}
pub proof fn lem_ins_map(m: KxMap, n: nat)
    requires n <= m.pairs().len()
    ensures ({ let a = ins_upto(m.pairs(), n);
        (forall|k: Seq<char>| #![trigger a.contains_key(k)] a.contains_key(k) ==> m@.contains_key(k) && a[k] == m@[k]) && forall|i: int| #![trigger m.pairs()[i]] 0 <= i < n ==> a.contains_key(m.pairs()[i].0.iv()) })
    decreases n
{
    ax_map_pairs(m); let v = kv_vals(m.pairs());
    if n > 0 { lem_ins_map(m, (n - 1) as nat); assert(v[n - 1].0 == m.pairs()[n - 1].0.iv() && v[n - 1].1 == m.pairs()[n - 1].1.iv()); assert(m@.contains_key(v[n - 1].0)); assert(m@[v[n - 1].0] == v[n - 1].1);
        let a1 = ins_upto(m.pairs(), (n - 1) as nat); let a = ins_upto(m.pairs(), n);
        assert(a == a1.insert(m.pairs()[n - 1].0.iv(), m.pairs()[n - 1].1.iv()));
        assert forall|k: Seq<char>| #![trigger a.contains_key(k)] a.contains_key(k) implies m@.contains_key(k) && a[k] == m@[k] by { if k != v[n - 1].0 { assert(a1.contains_key(k)); } }
        assert forall|i: int| #![trigger m.pairs()[i]] 0 <= i < n implies a.contains_key(m.pairs()[i].0.iv()) by { if i < n - 1 { assert(a1.contains_key(m.pairs()[i].0.iv())); } }
    }
}

/// a new child appended to an element built top-down: built top-down again
pub fn thm_c20_new_child(e: &mut Element, name: &str, xmlns: Option<String>, prefix: Option<String>, attrs: KxMap, Ghost(p): Ghost<Option<ElemV>>)
    requires wfe(elem_v(*old(e)), p), asks_ok(name@, attrs@, optv(prefix)), optv(xmlns) is None || optv(xmlns) == own_ns(attrs@, optv(prefix)),
    ensures wfe(elem_v(*final(e)), p), bare(elem_v(*final(e))) == bare(elem_v(*old(e))), rd(elem_v(*final(e)), p)
{
    hide(own_ctx); hide(asks_ok); hide(wfe); hide(rd); hide(elem_v); hide(is_ctx); hide(enumerates); hide(norm); hide(adopt); hide(bare); hide(inherit); hide(leaf_ok);
    broadcast use {ax_map_pairs, lem_kind};
    let ghost e0 = elem_v(*e); let ghost a0 = attrs@; let ghost ps = attrs.pairs(); let ghost (x0, p0) = (optv(xmlns), optv(prefix));
    proof { lem_ctx_is(kv_vals(ps), a0); lem_attrs_of_map(attrs); assert(xml_name(name@)) by { reveal(asks_ok); } assert(ctor_ok(name@, Some(attrs))) by { reveal(asks_ok); lem_keys_of_map(attrs); } }
    let no_text: Option<String> = None; let no_kids: Option<Vec<Box<DynNode>>> = None;
    let r = Element::new(name, no_text, Some(attrs), xmlns, prefix, no_kids);
    if let Ok(c) = r {
        let ghost cv = bare_elem(name@, a0, x0, p0); let ghost x = adopt(e0, NodeV::Elem(cv));
        proof { thm_c20_child(e0, p, name@, a0, x0, p0); }
        e.append(c);
        proof {
            let g = g_wf(bare(e0)); lem_kids_wf(e0, p);
            assert(g(x->Elem_0)); assert(kid_g(x, g)) by { reveal(leaf_ok); }
            lem_g_push(e0.kids, x, g); thm_c20_edit_wf(e0, p, e0.kids.push(x)); lem_wf_rd(elem_v(*e), p);
        }
    } else { proof { assert(false); } }
}
/// an attribute that declares no namespace does not change how an element and what is below it read
pub fn thm_c20_set_attr(e: &mut Element, name: &str, value: &str, Ghost(p): Ghost<Option<ElemV>>)
    requires rd(elem_v(*old(e)), p), raw_name(name@), name@ != xmlns_s(), !starts(name@, xmlns_colon())
    ensures rd(elem_v(*final(e)), p)
{
    hide(own_ctx); hide(rd); hide(raw_name); hide(is_ctx); hide(enumerates); hide(starts); hide(elem_in); hide(xml_name); hide(tag_v);
    broadcast use {ax_map_pairs, lem_kids};
    let ghost e0 = elem_v(*e); let ghost s0 = e.attributes.pairs();
    let r = e.set_attr(name, value);
    proof {
        if r is Ok {
            let e1 = elem_v(*e);
            lem_ctx_is(kv_vals(s0), e0.attrs); lem_ctx_is(kv_vals(e.attributes.pairs()), e1.attrs);
            assert(e1 == ElemV { attrs: e0.attrs.insert(name@, value@), ..e0 });
            thm_c20_attr(e0, name@, value@, p);
        }
    }
}
pub proof fn thm_c20_attr(e: ElemV, k: Seq<char>, v: Seq<char>, p: Option<ElemV>)
    requires rd(e, p), raw_name(k), xml_name(k), k != xmlns_s(), !starts(k, xmlns_colon()), is_ctx(own_ctx(e.attrs), e.attrs), is_ctx(own_ctx(e.attrs.insert(k, v)), e.attrs.insert(k, v)),
    ensures rd(ElemV { attrs: e.attrs.insert(k, v), ..e }, p)
{
    hide(raw_name); hide(own_ctx); hide(find_from); hide(xml_name); hide(rdk); hide(rd);
    lem_rd_open(e, p);
    let a = e.attrs; let b = a.insert(k, v); let (c, d) = (own_ctx(a), own_ctx(b));
    assert forall|q: Seq<char>| #[trigger] b.contains_key(xmlns_colon() + q) == a.contains_key(xmlns_colon() + q) && (a.contains_key(xmlns_colon() + q) ==> a[xmlns_colon() + q] == b[xmlns_colon() + q]) by {
        let w = xmlns_colon() + q; lem_starts_cat(w, xmlns_colon()); assert(w == xmlns_colon() + q); assert(w != k);
    }
    assert forall|q: Seq<char>| #![trigger c.contains_key(q)] c.contains_key(q) == d.contains_key(q) && (c.contains_key(q) ==> c[q] == d[q]) by { let w = xmlns_colon() + q; assert(b.contains_key(w) == a.contains_key(w)); assert(d.contains_key(q) <==> b.contains_key(w)); if c.contains_key(q) { assert(c[q] == a[w]); assert(d[q] == b[w]); } }
    assert(c =~= d);
    let f = ElemV { attrs: b, ..e };
    assert(tag_v(f) == tag_v(e));
    let (x, y) = (reads(e, p), reads(f, p));
    assert(elem_in(tag_v(f), b, p) is Some);
    assert(y.ctx == x.ctx && y.name == x.name && y.prefix == x.prefix && y.xmlns == x.xmlns);
    lem_rdk_same(e.kids, e.kids.len(), x, y);
    lem_rd_open(f, p);
}
/// what is below depends on the bindings only
pub proof fn lem_rdk_same(k: Seq<NodeV>, n: nat, x: ElemV, y: ElemV)
    requires rdk(k, n, x), n <= k.len(), x.ctx == y.ctx, default_ns(x) == default_ns(y)
    ensures rdk(k, n, y)
    decreases n
{
    hide(find_from); hide(raw_name); hide(raw_keys); hide(elem_in); hide(tag_v); hide(default_ns);
    if n > 0 {
        lem_rdk_same(k, (n - 1) as nat, x, y);
        if let NodeV::Elem(c) = k[n - 1] { lem_rd_same(c, x, y); }
    }
}
pub proof fn lem_rd_same(c: ElemV, x: ElemV, y: ElemV)
    requires rd(c, Some(x)), x.ctx == y.ctx, default_ns(x) == default_ns(y)
    ensures rd(c, Some(y))
{
    hide(rd); hide(rdk);
    lem_elem_in_same(tag_v(c), c.attrs, x, y); lem_rd_open(c, Some(x)); lem_rd_open(c, Some(y));
}
pub proof fn lem_elem_in_same(q: Seq<char>, a: AttrV, x: ElemV, y: ElemV)
    requires x.ctx == y.ctx, default_ns(x) == default_ns(y)
    ensures elem_in(q, a, Some(x)) == elem_in(q, a, Some(y))
{ hide(find_from); hide(own_ctx); hide(names_ok); hide(xml_name); hide(default_ns); hide(inherit); hide(bare_elem); assert(pctx(Some(x)) == pctx(Some(y))); assert(pdflt(Some(x)) == pdflt(Some(y))); }
pub proof fn lem_rd_open(e: ElemV, p: Option<ElemV>)
    ensures rd(e, p) <==> (raw_name(tag_v(e)) && raw_keys(e.attrs) && elem_in(tag_v(e), e.attrs, p) is Some && ({ let b = reads(e, p); b.name == e.name && b.prefix == e.prefix && b.xmlns == e.xmlns && rdk(e.kids, e.kids.len(), b) }))
{ hide(raw_name); hide(raw_keys); hide(elem_in); hide(tag_v); }

// ---- without namespaces any order of building will do (bottom-up too) ---------------------------------------
pub open spec fn g_plain() -> spec_fn(ElemV) -> bool { |c: ElemV| plain_tree(c) }
pub proof fn lem_plaink_list(k: Seq<NodeV>, n: nat)
    requires n <= k.len()
    ensures plaink(k, n) <==> list_g(k.take(n as int), g_plain())
    decreases n
{
    hide(plain_tree); hide(plaink); hide(kid_g); hide(two_texts); hide(is_blank);
    if n > 0 { lem_plaink_list(k, (n - 1) as nat); lem_list_step(k, n, g_plain()); lem_plaink_at(k, n); assert(k.take(n - 1) == k.take(((n - 1) as nat) as int)); }
    else { reveal(plaink); assert(k.take(0) =~= Seq::<NodeV>::empty()); }
}
pub proof fn lem_plaink_at(k: Seq<NodeV>, n: nat)
    requires 0 < n <= k.len()
    ensures plaink(k, n) <==> (plaink(k, (n - 1) as nat) && !two_texts(k, n) && kid_g(k[n - 1], g_plain()) && !is_blank(k[n - 1]))
{
    hide(find_from);
    let x = k[n - 1];
    if let NodeV::Text(t) = x { assert(is_blank(x) == (t.len() > 0 && all_ws(t))); }
    if let NodeV::Elem(c) = x { assert(g_plain()(c) == plain_tree(c)); }
}
pub proof fn lem_plain_kids(e: ElemV, k: Seq<NodeV>)
    requires plain_tree(e)
    ensures list_g(e.kids, g_plain()), list_g(k, g_plain()) ==> plain_tree(with_kids(e, k))
{
    hide(list_g); hide(raw_keys); hide(names_ok); hide(plain_name);
    lem_plaink_list(e.kids, e.kids.len()); assert(e.kids.take(e.kids.len() as int) =~= e.kids);
    lem_plaink_list(k, k.len()); assert(k.take(k.len() as int) =~= k);
    assert(with_kids(e, k).kids == k);
}
pub proof fn lem_plain_adopt(e: ElemV, x: NodeV)
    requires plain_tree(e), kid_g(x, g_plain())
    ensures kid_g(adopt(e, x), g_plain())
{
    hide(raw_keys); hide(names_ok); hide(plain_name); hide(leaf_ok);
    if let NodeV::Elem(c) = x { assert(plain_tree(c)); let i = inherit(c, default_ns(e), e.ctx); assert(i.kids == c.kids && i.xmlns is None && i.prefix is None && i.attrs == c.attrs); assert(plain_tree(i)); assert(g_plain()(i)); reveal(leaf_ok); }
}
pub fn thm_c20_plain_new(name: &str) -> (r: Option<Element>)
    requires plain_name(name@)
    ensures r is Some, plain_tree(elem_v(r->Some_0))
{
    hide(xml_name); hide(raw_name); hide(elem_v); hide(own_ctx);
    assert(xml_name(name@));
    let r = Element::new_from_name(name);
    proof { let b = bare_elem(name@, Map::empty(), None, None); assert(own_ns(Map::empty(), None) is None); reveal_with_fuel(plaink, 2); assert(plain_tree(b)); }
    match r { Ok(e) => Some(e), Err(_) => None }
}
pub fn thm_c20_plain_append<N: Node>(e: &mut Element, n: N)
    requires plain_tree(elem_v(*old(e))), kid_g(node_v(n.me()), g_plain())
    ensures plain_tree(elem_v(*final(e)))
{
    hide(plain_tree); hide(norm); hide(adopt); hide(leaf_ok); hide(elem_v); hide(node_v);
    let ghost e0 = elem_v(*e); let ghost x = adopt(e0, node_v(n.me()));
    proof { lem_plain_adopt(e0, node_v(n.me())); }
    e.append(n);
    proof { let g = g_plain(); let k = e0.kids.push(x); lem_plain_kids(e0, norm(k)); lem_g_push(e0.kids, x, g); lem_g_norm(k, g); }
}
pub fn thm_c20_plain_insert<N: Node>(e: &mut Element, i: usize, n: N)
    requires plain_tree(elem_v(*old(e))), kid_g(node_v(n.me()), g_plain())
    ensures plain_tree(elem_v(*final(e)))
{
    hide(plain_tree); hide(norm); hide(adopt); hide(leaf_ok); hide(node_v);
    broadcast use {lem_kids};
    let ghost e0 = elem_v(*e); let ghost x = adopt(e0, node_v(n.me()));
    proof { lem_plain_adopt(e0, node_v(n.me())); }
    let r = e.insert(i, n);
    proof { if r is Ok { let g = g_plain(); let k = e0.kids.insert(i as int, x); lem_plain_kids(e0, norm(k)); lem_g_insert(e0.kids, i as int, x, g); lem_g_norm(k, g); } }
}
pub fn thm_c20_plain_append_all(e: &mut Element, n: Vec<Box<DynNode>>)
    requires plain_tree(elem_v(*old(e))), kids_g(kids_v(n@), g_plain())
    ensures plain_tree(elem_v(*final(e)))
{
    hide(plain_tree); hide(norm); hide(adopt); hide(leaf_ok); hide(elem_v); hide(node_v); hide(kids_v);
    let ghost e0 = elem_v(*e); let ghost c = kids_v(n@); let ghost x = adopt_all(e0, c);
    proof { assert forall|i: int| #![trigger x[i]] 0 <= i < x.len() implies kid_g(x[i], g_plain()) by { assert(kid_g(c[i], g_plain())); lem_plain_adopt(e0, c[i]); } }
    e.append_all(n);
    proof { let g = g_plain(); let k = e0.kids + x; lem_plain_kids(e0, norm(k)); lem_g_cat(e0.kids, x, g); lem_g_norm(k, g); }
}
