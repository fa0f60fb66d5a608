// ---------------------------------------------------------------------------------------------
// DOM types (fields taken from the source by the extractor), their views, assumed contracts of the
// std types they use. `Box<dyn Node>` is `Box<DynNode>`: the four crate types are the node kinds.
// ---------------------------------------------------------------------------------------------
//@struct Text
//@struct Comment
//@struct CData
//@struct Element
//@struct Declaration
//@struct DTD
//@struct Document
//@enum DomNodeType Copy, Clone
//@struct ParsingError
//@struct TypeCastError
//@struct DoesNotExistError
//@struct IndexOutOfBounds
//@struct InvalidAttributeName
//@struct InvalidElementName
//@struct InvalidContent
//@struct NotSupportedError
#[derive(Debug)]
#[verifier::external_body] pub struct KxIoError { _e: u8 }
//@enum KissXmlError Debug
pub enum DynNode { Element(Element), Text(Text), Comment(Comment), CData(CData) }

// ---- views ----------------------------------------------------------------------------------------
pub ghost enum NodeV { Elem(ElemV), Text(Seq<char>), Comment(Seq<char>), CData(Seq<char>) }
pub type AttrV = Map<Seq<char>, Seq<char>>;
pub ghost struct ElemV { pub name: Seq<char>, pub kids: Seq<NodeV>, pub attrs: AttrV, pub xmlns: Option<Seq<char>>, pub prefix: Option<Seq<char>>, pub ctx: AttrV }
pub open spec fn optv(o: Option<String>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
pub open spec fn node_v(n: DynNode) -> NodeV decreases n {
    match n {
        DynNode::Element(e) => NodeV::Elem(elem_v(e)),
        DynNode::Text(t) => NodeV::Text(t.content@),
        DynNode::Comment(t) => NodeV::Comment(t.comment@),
        DynNode::CData(t) => NodeV::CData(t.cdata@),
    }
}
pub open spec fn elem_v(e: Element) -> ElemV decreases e {
    ElemV { name: e.name@, kids: Seq::new(e.child_nodes@.len(), |i: int| if 0 <= i < e.child_nodes@.len() { node_v(*e.child_nodes@[i]) } else { NodeV::Text(Seq::empty()) }),
        attrs: e.attributes@, xmlns: optv(e.xmlns), prefix: optv(e.xmlns_prefix), ctx: e.xmlns_context@ }
}
pub open spec fn kids_v(k: Seq<Box<DynNode>>) -> Seq<NodeV> { Seq::new(k.len(), |i: int| node_v(*k[i])) }
pub broadcast proof fn lem_kids(e: Element)
    ensures #![trigger elem_v(e)] elem_v(e).kids == kids_v(e.child_nodes@), elem_v(e).name == e.name@, elem_v(e).attrs == e.attributes@,
        elem_v(e).xmlns == optv(e.xmlns), elem_v(e).prefix == optv(e.xmlns_prefix), elem_v(e).ctx == e.xmlns_context@,
        elem_v(e).kids.len() == e.child_nodes@.len()
{ assert(elem_v(e).kids =~= kids_v(e.child_nodes@)); }
pub open spec fn kind(n: DynNode) -> DomNodeType {
    match n { DynNode::Element(_) => DomNodeType::ElementNode, DynNode::Text(_) => DomNodeType::TextNode, DynNode::Comment(_) => DomNodeType::CommentNode, DynNode::CData(_) => DomNodeType::CDataNode }
}
pub open spec fn kind_v(n: NodeV) -> DomNodeType {
    match n { NodeV::Elem(_) => DomNodeType::ElementNode, NodeV::Text(_) => DomNodeType::TextNode, NodeV::Comment(_) => DomNodeType::CommentNode, NodeV::CData(_) => DomNodeType::CDataNode }
}
pub trait NodeView { spec fn me(&self) -> DynNode; }
impl NodeView for Element { open spec fn me(&self) -> DynNode { DynNode::Element(*self) } }
impl NodeView for Text { open spec fn me(&self) -> DynNode { DynNode::Text(*self) } }
impl NodeView for Comment { open spec fn me(&self) -> DynNode { DynNode::Comment(*self) } }
impl NodeView for CData { open spec fn me(&self) -> DynNode { DynNode::CData(*self) } }
impl NodeView for DynNode { open spec fn me(&self) -> DynNode { *self } }
/// R2: `Box::new(node) as Box<dyn Node>` and the unsizing coercions `&T -> &dyn Node`
#[verifier::external_body] pub fn kx_dyn<N: NodeView>(n: N) -> (r: Box<DynNode>) ensures *r == n.me() { unimplemented!() }
#[verifier::external_body] pub fn kx_as_dyn<N: NodeView>(n: &N) -> (r: &DynNode) ensures *r == n.me() { unimplemented!() }
#[verifier::external_body] pub fn kx_as_dyn_mut<N: NodeView>(n: &mut N) -> (r: &mut DynNode)
    ensures *r == old(n).me(), kind(*final(r)) == kind(*r) ==> final(n).me() == *final(r) { unimplemented!() }

// ---- std collections ------------------------------------------------------------------------------
/// HashMap<K, V>: known by the pairs its iteration yields (a fixed order per map value)
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)] pub struct KxGMap<K, V> { _m: Vec<(K, V)> }
impl<K, V> KxGMap<K, V> {
    pub uninterp spec fn pairs(&self) -> Seq<(K, V)>;
    #[verifier::external_body] pub fn kx_iter(&self) -> (r: KxIter<(&K, &V)>) ensures r.pos() == 0, r.seq() == Seq::new(self.pairs().len(), |i: int| (&self.pairs()[i].0, &self.pairs()[i].1)) { unimplemented!() }
}
/// HashMap<String, String>
pub type KxMap = KxGMap<String, String>;
impl View for KxMap { type V = AttrV; uninterp spec fn view(&self) -> AttrV; }
/// the entries of a map in iteration order: each key once
pub open spec fn enumerates(s: Seq<(Seq<char>, Seq<char>)>, m: AttrV) -> bool {
    &&& forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> m.contains_key(s[i].0) && m[s[i].0] == s[i].1
    &&& forall|k: Seq<char>| #![trigger m.contains_key(k)] m.contains_key(k) ==> exists|i: int| #![trigger s[i]] 0 <= i < s.len() && s[i].0 == k
    &&& forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < s.len() && 0 <= j < s.len() && s[i].0 == s[j].0 ==> i == j
}
pub open spec fn kv_refs(s: Seq<(&String, &String)>) -> Seq<(Seq<char>, Seq<char>)> { Seq::new(s.len(), |i: int| (s[i].0@, s[i].1@)) }
pub open spec fn kv_vals(s: Seq<(String, String)>) -> Seq<(Seq<char>, Seq<char>)> { Seq::new(s.len(), |i: int| (s[i].0@, s[i].1@)) }
impl KxMap {
    #[verifier::external_body] pub fn new() -> (r: KxMap) ensures r@ == Map::<Seq<char>, Seq<char>>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: String, v: String) -> (r: Option<String>)
        ensures final(self)@ == old(self)@.insert(k@, v@), old(self)@.contains_key(k@) ==> r is Some && r->Some_0@ == old(self)@[k@], !old(self)@.contains_key(k@) ==> r is None { unimplemented!() }
    #[verifier::external_body] pub fn get<K: KxKey + ?Sized>(&self, k: &K) -> (r: Option<&String>)
        ensures self@.contains_key(k.key()) ==> r is Some && r->Some_0@ == self@[k.key()], !self@.contains_key(k.key()) ==> r is None { unimplemented!() }
    #[verifier::external_body] pub fn contains_key<K: KxKey + ?Sized>(&self, k: &K) -> (r: bool) ensures r == self@.contains_key(k.key()) { unimplemented!() }
    #[verifier::external_body] pub fn remove<K: KxKey + ?Sized>(&mut self, k: &K) -> (r: Option<String>)
        ensures final(self)@ == old(self)@.remove(k.key()), old(self)@.contains_key(k.key()) ==> r is Some && r->Some_0@ == old(self)@[k.key()], !old(self)@.contains_key(k.key()) ==> r is None { unimplemented!() }
    #[verifier::external_body] pub fn clear(&mut self) ensures final(self)@ == Map::<Seq<char>, Seq<char>>::empty() { unimplemented!() }
}
pub trait KxKey { spec fn key(&self) -> Seq<char>; }
impl KxKey for String { open spec fn key(&self) -> Seq<char> { self@ } }
impl KxKey for str { open spec fn key(&self) -> Seq<char> { self@ } }
impl KxLen for KxMap {
    open spec fn kl(&self) -> nat { self@.dom().len() }
    #[verifier::external_body] fn kx_len(&self) -> (r: usize) { unimplemented!() }
    #[verifier::external_body] fn kx_is_empty(&self) -> (r: bool) { unimplemented!() }
}
pub broadcast axiom fn ax_map_pairs(m: KxMap) ensures #![trigger m.pairs()] enumerates(kv_vals(m.pairs()), m@);
impl KxIntoIter for KxMap { type Item = (String, String); open spec fn ii(&self) -> Seq<(String, String)> { self.pairs() } }
impl Clone for KxMap { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() } }
impl Default for KxMap { #[verifier::external_body] fn default() -> (r: Self) ensures r@ == Map::<Seq<char>, Seq<char>>::empty() { unimplemented!() } }
/// cloning a caller's key or value does not change the text it converts to
pub broadcast axiom fn ax_into_clone<T: KxInto + Clone>(a: T, b: T) ensures #![trigger call_ensures(T::clone, (&a,), b)] call_ensures(T::clone, (&a,), b) ==> a.iv() == b.iv();

pub trait KxVec<T> {
    spec fn vv(&self) -> Seq<T>;
    fn kx_iter<'a>(&'a self) -> (r: KxIter<&'a T>) ensures r.pos() == 0, r.seq() == Seq::new(self.vv().len(), |i: int| &self.vv()[i]);
    fn kx_iter_mut<'a>(&'a mut self) -> (r: KxIter<&'a mut T>)
        ensures r.pos() == 0, r.seq().len() == old(self).vv().len(), final(self).vv().len() == old(self).vv().len(),
            forall|i: int| #![trigger r.seq()[i]] #![trigger final(self).vv()[i]] 0 <= i < old(self).vv().len() ==> *(r.seq()[i]) == old(self).vv()[i] && *final(r.seq()[i]) == final(self).vv()[i];
    fn kx_reverse(&mut self) ensures final(self).vv() == old(self).vv().reverse();
}
impl<T> KxVec<T> for Vec<T> {
    open spec fn vv(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn kx_iter<'a>(&'a self) -> (r: KxIter<&'a T>) { unimplemented!() }
    #[verifier::external_body] fn kx_iter_mut<'a>(&'a mut self) -> (r: KxIter<&'a mut T>) { unimplemented!() }
    #[verifier::external_body] fn kx_reverse(&mut self) { unimplemented!() }
}
// ---- sorting ----------------------------------------------------------------------------------------
pub open spec fn is_perm(p: Seq<int>, n: nat) -> bool {
    p.len() == n && (forall|i: int| #![trigger p[i]] 0 <= i < n ==> 0 <= p[i] < n) && (forall|i: int, j: int| #![trigger p[i], p[j]] 0 <= i < n && 0 <= j < n && p[i] == p[j] ==> i == j)
    && forall|k: int| 0 <= k < n ==> #[trigger] p.contains(k)
}
/// a total order (what `sort_by` requires of its comparison)
pub open spec fn is_order<T>(g: spec_fn(T, T) -> Ordering) -> bool {
    (forall|a: T, b: T| #![trigger g(a, b)] (g(a, b) == Ordering::Greater <==> g(b, a) == Ordering::Less) && (g(a, b) == Ordering::Equal <==> g(b, a) == Ordering::Equal))
    && forall|a: T, b: T, c: T| #![trigger g(a, b), g(b, c)] g(a, b) != Ordering::Greater && g(b, c) != Ordering::Greater ==> g(a, c) != Ordering::Greater
}
pub open spec fn compares<T, F: Fn(&T, &T) -> Ordering>(f: F, g: spec_fn(T, T) -> Ordering) -> bool {
    forall|a: &T, b: &T| #![trigger f.requires((a, b))] f.requires((a, b)) && forall|o: Ordering| f.ensures((a, b), o) ==> o == g(*a, *b)
}
pub trait KxSort<T> {
    spec fn srt(&self) -> Seq<T>;
    /// slice::sort_by: a sorted permutation (stability not stated)
    fn kx_sort_by<F: Fn(&T, &T) -> Ordering>(&mut self, f: F)
        requires exists|g: spec_fn(T, T) -> Ordering| #[trigger] compares(f, g) && is_order(g)
        ensures exists|p: Seq<int>| #[trigger] is_perm(p, old(self).srt().len()) && final(self).srt().len() == old(self).srt().len() && forall|i: int| #![trigger final(self).srt()[i]] 0 <= i < p.len() ==> final(self).srt()[i] == old(self).srt()[p[i]],
            forall|g: spec_fn(T, T) -> Ordering| #[trigger] compares(f, g) ==> forall|i: int, j: int| #![trigger final(self).srt()[i], final(self).srt()[j]] 0 <= i < j < final(self).srt().len() ==> g(final(self).srt()[i], final(self).srt()[j]) != Ordering::Greater;
}
impl<T> KxSort<T> for Vec<T> { open spec fn srt(&self) -> Seq<T> { self@ } #[verifier::external_body] fn kx_sort_by<F: Fn(&T, &T) -> Ordering>(&mut self, f: F) { unimplemented!() } }
/// `Vec::from(&[T])`: pairwise clones
#[verifier::external_body] pub fn kx_vec_from<T: Clone>(s: &[T]) -> (r: Vec<T>)
    ensures r@.len() == s@.len(), forall|i: int| #![trigger r@[i]] 0 <= i < s@.len() ==> call_ensures(T::clone, (&s@[i],), r@[i]) { unimplemented!() }

// ---- iterator adapters over ghost sequences ---------------------------------------------------------
/// the positions whose flag is set, ascending
pub open spec fn idxs(fl: Seq<bool>) -> Seq<int> decreases fl.len() {
    if fl.len() == 0 { Seq::empty() } else if fl.last() { idxs(fl.drop_last()).push(fl.len() - 1) } else { idxs(fl.drop_last()) }
}
/// the elements of s whose flag is set, in order
pub open spec fn kept<T>(s: Seq<T>, fl: Seq<bool>) -> Seq<T> { Seq::new(idxs(fl).len(), |k: int| s[idxs(fl)[k]]) }
/// one call of the predicate per element, in order, decided what is kept; what is not kept is released
pub open spec fn filtered<T, P: Fn(&T) -> bool>(s: Seq<T>, p: P, r: Seq<T>, fl: Seq<bool>) -> bool {
    &&& fl.len() == s.len()
    &&& forall|i: int| #![trigger fl[i]] #![trigger s[i]] 0 <= i < fl.len() ==> p.ensures((&s[i],), fl[i])
    &&& r == kept(s, fl)
}
/// a dropped iterator releases what it has not yielded
pub broadcast axiom fn ax_iter_resolved<T>(it: KxIter<T>, i: int)
    ensures #![trigger it.seq()[i]] has_resolved(it) && 0 <= it.pos() <= i < it.seq().len() ==> has_resolved(it.seq()[i]);
impl<T> KxIter<T> {
    /// Iterator::filter (the predicate is assumed to be a function of the element: `Fn`)
    #[verifier::external_body] pub fn filter<P: Fn(&T) -> bool>(self, p: P) -> (r: KxIter<T>)
        requires self.pos() == 0, forall|i: int| #![trigger self.seq()[i]] 0 <= i < self.seq().len() ==> p.requires((&self.seq()[i],))
        ensures r.pos() == 0, exists|fl: Seq<bool>| #[trigger] filtered(self.seq(), p, r.seq(), fl) && forall|i: int| #![trigger self.seq()[i]] 0 <= i < fl.len() && !fl[i] ==> has_resolved(self.seq()[i]) { unimplemented!() }
    #[verifier::external_body] pub fn map<U, F: Fn(T) -> U>(self, f: F) -> (r: KxIter<U>)
        requires self.pos() == 0, forall|i: int| #![trigger self.seq()[i]] 0 <= i < self.seq().len() ==> f.requires((self.seq()[i],))
        ensures r.pos() == 0, r.seq().len() == self.seq().len(), forall|i: int| #![trigger self.seq()[i]] #![trigger r.seq()[i]] 0 <= i < r.seq().len() ==> f.ensures((self.seq()[i],), r.seq()[i]) { unimplemented!() }
    #[verifier::external_body] pub fn chain(self, o: KxIter<T>) -> (r: KxIter<T>) requires self.pos() == 0, o.pos() == 0 ensures r.pos() == 0, r.seq() == self.seq() + o.seq() { unimplemented!() }
    #[verifier::external_body] pub fn any<P: Fn(T) -> bool>(&mut self, p: P) -> (r: bool)
        requires old(self).pos() == 0, forall|i: int| #![trigger old(self).seq()[i]] 0 <= i < old(self).seq().len() ==> p.requires((old(self).seq()[i],))
        ensures exists|fl: Seq<bool>| #[trigger] fl.len() == old(self).seq().len() && (forall|i: int| #![trigger fl[i]] 0 <= i < fl.len() ==> p.ensures((old(self).seq()[i],), fl[i])) && r == fl.contains(true) { unimplemented!() }
    #[verifier::external_body] pub fn kx_collect(self) -> (r: Vec<T>) requires self.pos() == 0 ensures r@ == self.seq() { unimplemented!() }
    #[verifier::external_body] pub fn kx_rev(self) -> (r: KxIter<T>) requires self.pos() == 0 ensures r.pos() == 0, r.seq() == self.seq().reverse() { unimplemented!() }
}
pub open spec fn concat_its<T>(s: Seq<KxIter<T>>, n: nat) -> Seq<T> decreases n { if n == 0 || n > s.len() { Seq::empty() } else { concat_its(s, (n - 1) as nat) + s[n - 1].seq() } }
impl<T> KxIter<KxIter<T>> {
    #[verifier::external_body] pub fn flatten(self) -> (r: KxIter<T>)
        requires self.pos() == 0, forall|i: int| #![trigger self.seq()[i]] 0 <= i < self.seq().len() ==> self.seq()[i].pos() == 0
        ensures r.pos() == 0, r.seq() == concat_its(self.seq(), self.seq().len()) { unimplemented!() }
}

// ---- == -------------------------------------------------------------------------------------------
pub trait KxEq<B: ?Sized> {
    spec fn eqv(&self, o: &B) -> bool;
    fn kx_eq(&self, o: &B) -> (r: bool) ensures r == self.eqv(o);
}
#[verifier::external_body] pub fn kx_eq<A: KxEq<B> + ?Sized, B: ?Sized>(a: &A, b: &B) -> (r: bool) ensures r == a.eqv(b) { unimplemented!() }
impl KxEq<usize> for usize { open spec fn eqv(&self, o: &usize) -> bool { *self == *o } #[verifier::external_body] fn kx_eq(&self, o: &usize) -> (r: bool) { unimplemented!() } }
impl KxEq<char> for char { open spec fn eqv(&self, o: &char) -> bool { *self == *o } #[verifier::external_body] fn kx_eq(&self, o: &char) -> (r: bool) { unimplemented!() } }
impl KxEq<bool> for bool { open spec fn eqv(&self, o: &bool) -> bool { *self == *o } #[verifier::external_body] fn kx_eq(&self, o: &bool) -> (r: bool) { unimplemented!() } }
impl KxEq<DomNodeType> for DomNodeType { open spec fn eqv(&self, o: &DomNodeType) -> bool { *self == *o } #[verifier::external_body] fn kx_eq(&self, o: &DomNodeType) -> (r: bool) { unimplemented!() } }
impl KxEq<String> for String { open spec fn eqv(&self, o: &String) -> bool { self@ == o@ } #[verifier::external_body] fn kx_eq(&self, o: &String) -> (r: bool) { unimplemented!() } }
impl KxEq<str> for String { open spec fn eqv(&self, o: &str) -> bool { self@ == o@ } #[verifier::external_body] fn kx_eq(&self, o: &str) -> (r: bool) { unimplemented!() } }
impl KxEq<String> for str { open spec fn eqv(&self, o: &String) -> bool { self@ == o@ } #[verifier::external_body] fn kx_eq(&self, o: &String) -> (r: bool) { unimplemented!() } }
impl KxEq<str> for str { open spec fn eqv(&self, o: &str) -> bool { self@ == o@ } #[verifier::external_body] fn kx_eq(&self, o: &str) -> (r: bool) { unimplemented!() } }
impl<'a> KxEq<&'a str> for String { open spec fn eqv(&self, o: &&'a str) -> bool { self@ == o@ } #[verifier::external_body] fn kx_eq(&self, o: &&'a str) -> (r: bool) { unimplemented!() } }
impl<'a> KxEq<String> for &'a str { open spec fn eqv(&self, o: &String) -> bool { self@ == o@ } #[verifier::external_body] fn kx_eq(&self, o: &String) -> (r: bool) { unimplemented!() } }
impl<'a, 'b, A: KxEq<B> + ?Sized, B: ?Sized> KxEq<&'b B> for &'a A { open spec fn eqv(&self, o: &&'b B) -> bool { (**self).eqv(*o) } #[verifier::external_body] fn kx_eq(&self, o: &&'b B) -> (r: bool) { unimplemented!() } }
impl<A: KxEq<B>, B> KxEq<Option<B>> for Option<A> {
    open spec fn eqv(&self, o: &Option<B>) -> bool { match (self, o) { (Some(a), Some(b)) => a.eqv(b), (None, None) => true, _ => false } }
    #[verifier::external_body] fn kx_eq(&self, o: &Option<B>) -> (r: bool) { unimplemented!() }
}
impl<A: KxEq<B>, B> KxEq<Vec<B>> for Vec<A> {
    open spec fn eqv(&self, o: &Vec<B>) -> bool { self@.len() == o@.len() && forall|i: int| #![trigger self@[i]] #![trigger o@[i]] 0 <= i < self@.len() ==> self@[i].eqv(&o@[i]) }
    #[verifier::external_body] fn kx_eq(&self, o: &Vec<B>) -> (r: bool) { unimplemented!() }
}
impl KxEq<KxMap> for KxMap { open spec fn eqv(&self, o: &KxMap) -> bool { self@ == o@ } #[verifier::external_body] fn kx_eq(&self, o: &KxMap) -> (r: bool) { unimplemented!() } }
// derived PartialEq of the leaf types: equality of the fields
impl KxEq<Declaration> for Declaration { open spec fn eqv(&self, o: &Declaration) -> bool { self.decl_str@ == o.decl_str@ } #[verifier::external_body] fn kx_eq(&self, o: &Declaration) -> (r: bool) { unimplemented!() } }
impl KxEq<DTD> for DTD { open spec fn eqv(&self, o: &DTD) -> bool { self.dtd_str@ == o.dtd_str@ } #[verifier::external_body] fn kx_eq(&self, o: &DTD) -> (r: bool) { unimplemented!() } }
// `==` on the crate's types calls their PartialEq::eq, which is verified against the same contract (partial correctness)
impl KxEq<Text> for Text { open spec fn eqv(&self, o: &Text) -> bool { self.content@ == o.content@ } #[verifier::external_body] fn kx_eq(&self, o: &Text) -> (r: bool) { unimplemented!() } }
impl KxEq<Comment> for Comment { open spec fn eqv(&self, o: &Comment) -> bool { self.comment@ == o.comment@ } #[verifier::external_body] fn kx_eq(&self, o: &Comment) -> (r: bool) { unimplemented!() } }
impl KxEq<CData> for CData { open spec fn eqv(&self, o: &CData) -> bool { self.cdata@ == o.cdata@ } #[verifier::external_body] fn kx_eq(&self, o: &CData) -> (r: bool) { unimplemented!() } }
impl KxEq<Element> for Element { open spec fn eqv(&self, o: &Element) -> bool { same_elem(elem_v(*self), elem_v(*o)) } #[verifier::external_body] fn kx_eq(&self, o: &Element) -> (r: bool) { unimplemented!() } }
/// C13: what equality of nodes means (the inherited namespace context is bookkeeping, not content)
pub open spec fn same_elem(a: ElemV, b: ElemV) -> bool decreases a {
    a.name == b.name && a.xmlns == b.xmlns && a.prefix == b.prefix && a.attrs == b.attrs && a.kids.len() == b.kids.len()
    && forall|i: int| #![trigger a.kids[i]] #![trigger b.kids[i]] 0 <= i < a.kids.len() ==> same_node(a.kids[i], b.kids[i])
}
pub open spec fn same_node(a: NodeV, b: NodeV) -> bool decreases a {
    match (a, b) {
        (NodeV::Elem(x), NodeV::Elem(y)) => same_elem(x, y),
        (NodeV::Text(x), NodeV::Text(y)) => x == y, (NodeV::Comment(x), NodeV::Comment(y)) => x == y, (NodeV::CData(x), NodeV::CData(y)) => x == y,
        _ => false,
    }
}
// derived Clone of the leaf types: copies the fields
impl Clone for Text { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r.content@ == self.content@ { unimplemented!() } }
impl Clone for Comment { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r.comment@ == self.comment@ { unimplemented!() } }
impl Clone for CData { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r.cdata@ == self.cdata@ { unimplemented!() } }
impl Clone for Declaration { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r.decl_str@ == self.decl_str@ { unimplemented!() } }
impl Clone for DTD { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r.dtd_str@ == self.dtd_str@ { unimplemented!() } }

// ---- Formatter / Display / Hash ---------------------------------------------------------------------
#[verifier::external_body] pub struct KxFormatter { _f: u8 }
impl View for KxFormatter { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
#[derive(Debug)] pub struct KxFmtError { }
impl KxFormatter {
    #[verifier::external_body] pub fn kx_write_fmt(&mut self, s: String) -> (r: std::result::Result<(), KxFmtError>) ensures r is Ok ==> final(self)@ == old(self)@ + s@ { unimplemented!() }
}
#[verifier::external_body] pub struct KxHasher { _h: u8 }
pub ghost enum Feed { Str(Seq<char>), OptStr(Option<Seq<char>>) }
/// what was fed to the hasher so far (a hasher's result is a function of this)
impl View for KxHasher { type V = Seq<Feed>; uninterp spec fn view(&self) -> Seq<Feed>; }
pub trait KxHash { spec fn feed(&self) -> Feed; fn kx_hash(&self, h: &mut KxHasher) ensures final(h)@ == old(h)@.push(self.feed()); }
impl KxHash for String { open spec fn feed(&self) -> Feed { Feed::Str(self@) } #[verifier::external_body] fn kx_hash(&self, h: &mut KxHasher) { unimplemented!() } }
impl KxHash for Option<String> { open spec fn feed(&self) -> Feed { Feed::OptStr(optv(*self)) } #[verifier::external_body] fn kx_hash(&self, h: &mut KxHasher) { unimplemented!() } }
/// `to_string()` of a Display type is what its `fmt` writes (verified separately to be `disp`)
pub open spec fn decl_text(s: Seq<char>) -> Seq<char> { seq!['<', '?'] + s + seq!['?', '>'] }
pub open spec fn dtd_text(s: Seq<char>) -> Seq<char> { seq!['<', '!', 'D', 'O', 'C', 'T', 'Y', 'P', 'E'] + s + seq!['>'] }
impl KxDisp for Declaration { open spec fn disp(&self) -> Seq<char> { decl_text(self.decl_str@) } #[verifier::external_body] fn kx_to_string(&self) -> (r: String) { unimplemented!() } }
impl KxDisp for DTD { open spec fn disp(&self) -> Seq<char> { dtd_text(self.dtd_str@) } #[verifier::external_body] fn kx_to_string(&self) -> (r: String) { unimplemented!() } }
// each error conversion wraps its argument in the variant of its kind (verified in m_err)
impl vstd::std_specs::convert::FromSpecImpl<ParsingError> for KissXmlError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: ParsingError) -> Self { KissXmlError::ParsingError(e) } }
impl vstd::std_specs::convert::FromSpecImpl<TypeCastError> for KissXmlError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: TypeCastError) -> Self { KissXmlError::TypeCastError(e) } }
impl vstd::std_specs::convert::FromSpecImpl<DoesNotExistError> for KissXmlError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: DoesNotExistError) -> Self { KissXmlError::DoesNotExistError(e) } }
impl vstd::std_specs::convert::FromSpecImpl<IndexOutOfBounds> for KissXmlError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: IndexOutOfBounds) -> Self { KissXmlError::IndexOutOfBounds(e) } }
impl vstd::std_specs::convert::FromSpecImpl<InvalidAttributeName> for KissXmlError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: InvalidAttributeName) -> Self { KissXmlError::InvalidAttributeName(e) } }
impl vstd::std_specs::convert::FromSpecImpl<InvalidElementName> for KissXmlError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: InvalidElementName) -> Self { KissXmlError::InvalidElementName(e) } }
impl vstd::std_specs::convert::FromSpecImpl<InvalidContent> for KissXmlError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: InvalidContent) -> Self { KissXmlError::InvalidContent(e) } }
impl vstd::std_specs::convert::FromSpecImpl<NotSupportedError> for KissXmlError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: NotSupportedError) -> Self { KissXmlError::NotSupportedError(e) } }
impl vstd::std_specs::convert::FromSpecImpl<KxIoError> for KissXmlError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: KxIoError) -> Self { KissXmlError::IOError(e) } }

// R20: unwrap where the crate documents a panic; the contract speaks of calls that return
pub trait KxMayPanic<T>: Sized { spec fn mp(&self) -> Option<T>; fn kx_unwrap_mp(self) -> (r: T) ensures self.mp() == Some(r); }
impl<T, E> KxMayPanic<T> for Result<T, E> {
    open spec fn mp(&self) -> Option<T> { match self { Ok(x) => Some(*x), Err(_) => None } }
    #[verifier::external_body] fn kx_unwrap_mp(self) -> (r: T) { match self { Ok(x) => x, Err(_) => panic!() } }
}

/// a vector of heap pointers is at most isize::MAX bytes, and a pointer is 8 of them
pub broadcast axiom fn ax_boxes_size(v: Vec<Box<DynNode>>)
    ensures #![trigger v@] v@.len() <= 0x0fff_ffff_ffff_ffff;
