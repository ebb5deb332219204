/// what is taken as a `&str`
pub trait VxAsRef { spec fn av(&self) -> Seq<char>; fn vx_as_ref(&self) -> (r: &str) ensures r@ == self.av(); }
impl VxAsRef for String { open spec fn av(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_as_ref(&self) -> (r: &str) { unimplemented!() } }
impl VxAsRef for str { open spec fn av(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_as_ref(&self) -> (r: &str) { unimplemented!() } }
impl<T: VxAsRef + ?Sized> VxAsRef for &T { open spec fn av(&self) -> Seq<char> { (**self).av() } #[verifier::external_body] fn vx_as_ref(&self) -> (r: &str) { unimplemented!() } }
pub trait VxOwned { fn vx_owned(&self) -> String; }
impl VxOwned for str { #[verifier::external_body] fn vx_owned(&self) -> (r: String) ensures r@ == self@ { unimplemented!() } }
// ---- assumed contracts: kdl ------------------------------
#[verifier::external_body]
pub struct KdlIdentifier { _p: () }
impl KdlIdentifier {
    pub uninterp spec fn t(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn value(&self) -> (r: &str) ensures r@ == self.t() { unimplemented!() }
}
pub enum KdlValue { RawString(String), String(String), Base2(i64), Base8(i64), Base10(i64), Base10Float(f64), Base16(i64), Bool(bool), Null }
pub open spec fn text_of(v: KdlValue) -> Option<Seq<char>> {
    match v { KdlValue::RawString(s) => Some(s@), KdlValue::String(s) => Some(s@), _ => None }
}
impl KdlValue {
    pub fn as_string(&self) -> (r: Option<&str>)
        ensures r is Some <==> text_of(*self) is Some, r is Some ==> Some(r->0@) == text_of(*self)
    {
        match self { KdlValue::RawString(s) => Some(s.as_str()), KdlValue::String(s) => Some(s.as_str()), _ => None }
    }
}
#[verifier::external_body]
pub struct KdlEntry { _p: () }
impl KdlEntry {
    pub uninterp spec fn key(&self) -> Option<Seq<char>>;
    pub uninterp spec fn val(&self) -> KdlValue;
    #[verifier::external_body]
    pub fn new_prop(k: &str, v: &str) -> (r: KdlEntry) ensures r.key() == Some(k@), r.val() is String, text_of(r.val()) == Some(v@) { unimplemented!() }
    #[verifier::external_body]
    pub fn new(v: &str) -> (r: KdlEntry) ensures r.key() is None, r.val() is String, text_of(r.val()) == Some(v@) { unimplemented!() }
}
pub trait VxEntry { spec fn is(&self, e: KdlEntry) -> bool; }
impl VxEntry for KdlEntry { open spec fn is(&self, e: KdlEntry) -> bool { e == *self } }
impl VxEntry for KdlValue { open spec fn is(&self, e: KdlEntry) -> bool { e.key() is None && e.val() == *self } }
#[verifier::external_body]
pub struct Deco { _p: () }
#[verifier::external_body]
pub struct KdlNode { _p: () }
#[verifier::external_body]
pub struct KdlDocument { _p: () }
/// the value of a property: the last one of that name
pub open spec fn prop(es: Seq<KdlEntry>, k: Seq<char>) -> Option<KdlValue> decreases es.len() {
    if es.len() == 0 { None } else if es.last().key() == Some(k) { Some(es.last().val()) } else { prop(es.drop_last(), k) }
}
impl KdlNode {
    pub uninterp spec fn nm(&self) -> Seq<char>;
    pub uninterp spec fn id(&self) -> KdlIdentifier;
    pub uninterp spec fn es(&self) -> Seq<KdlEntry>;
    pub uninterp spec fn block(&self) -> Option<KdlDocument>;
    /// comments, spaces, type annotation
    pub uninterp spec fn deco(&self) -> Deco;
    pub open spec fn same_but_block(&self, o: &KdlNode) -> bool { self.nm() == o.nm() && self.es() == o.es() && self.deco() == o.deco() }
    #[verifier::external_body]
    pub fn new<N: VxAsRef>(name: N) -> (r: KdlNode) ensures r.nm() == name.av(), r.es().len() == 0, r.block() is None { unimplemented!() }
    #[verifier::external_body]
    pub fn name(&self) -> (r: &KdlIdentifier) ensures r.t() == self.nm(), *r == self.id() { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &str) -> (r: Option<&KdlValue>)
        ensures r is Some <==> prop(self.es(), k@) is Some, r is Some ==> Some(*r->0) == prop(self.es(), k@) { unimplemented!() }
    #[verifier::external_body]
    pub fn push<E: VxEntry>(&mut self, e: E)
        ensures final(self).nm() == old(self).nm(), final(self).block() == old(self).block(), final(self).deco() == old(self).deco(),
            final(self).es().len() == old(self).es().len() + 1, final(self).es().drop_last() == old(self).es(), e.is(final(self).es().last()) { unimplemented!() }
    #[verifier::external_body]
    pub fn children(&self) -> (r: Option<&KdlDocument>)
        ensures r is Some <==> self.block() is Some, r is Some ==> *r->0 == self.block()->0 { unimplemented!() }
    #[verifier::external_body]
    pub fn children_mut(&mut self) -> (r: &mut Option<KdlDocument>)
        ensures *r == old(self).block(), final(self).block() == *final(r), final(self).same_but_block(old(self)) { unimplemented!() }
    #[verifier::external_body]
    pub fn clear_children(&mut self)
        ensures final(self).block() is None, final(self).same_but_block(old(self)) { unimplemented!() }
    #[verifier::external_body]
    pub fn ensure_children(&mut self) -> (r: &mut KdlDocument)
        ensures old(self).block() is Some ==> *r == old(self).block()->0, old(self).block() is None ==> r.ns() == Seq::<KdlNode>::empty(),
            final(self).block() == Some(*final(r)), final(self).same_but_block(old(self)) { unimplemented!() }
}
impl KdlDocument {
    pub uninterp spec fn ns(&self) -> Seq<KdlNode>;
    pub uninterp spec fn ddeco(&self) -> Deco;
    #[verifier::external_body]
    pub fn get(&self, k: &str) -> (r: Option<&KdlNode>)
        ensures r is Some <==> named(self.ns(), k@), r is Some ==> *r->0 == self.ns()[at(self.ns(), k@)] { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &str) -> (r: Option<&mut KdlNode>)
        ensures r is Some <==> named(old(self).ns(), k@), r is None ==> *final(self) == *old(self),
            r matches Some(n) ==> *n == old(self).ns()[at(old(self).ns(), k@)] && final(self).ddeco() == old(self).ddeco()
                && final(self).ns() == old(self).ns().update(at(old(self).ns(), k@), *final(n)) { unimplemented!() }
    #[verifier::external_body]
    pub fn nodes(&self) -> (r: &Vec<KdlNode>) ensures r@ == self.ns() { unimplemented!() }
    #[verifier::external_body]
    pub fn nodes_mut(&mut self) -> (r: &mut Vec<KdlNode>) ensures r@ == old(self).ns(), final(self).ns() == final(r)@, final(self).ddeco() == old(self).ddeco() { unimplemented!() }
}
/// a document and a node are what they are made of
pub axiom fn doc_is(a: KdlDocument, b: KdlDocument) requires a.ns() == b.ns(), a.ddeco() == b.ddeco() ensures a == b;
pub axiom fn node_is(a: KdlNode, b: KdlNode) requires a.same_but_block(&b), a.block() == b.block() ensures a == b;
// ---- where things are in a document ------------------------------
pub open spec fn named(s: Seq<KdlNode>, k: Seq<char>) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).nm() == k }
/// the first node of that name
pub open spec fn at(s: Seq<KdlNode>, k: Seq<char>) -> int decreases s.len() {
    if s.len() == 0 { 0 } else if s[0].nm() == k { 0 } else { 1 + at(s.skip(1), k) }
}
pub open spec fn kids(n: KdlNode) -> Seq<KdlNode> { match n.block() { Some(d) => d.ns(), None => Seq::empty() } }
pub open spec fn under(s: Seq<KdlNode>, k: Seq<char>) -> Seq<KdlNode> { if named(s, k) { kids(s[at(s, k)]) } else { Seq::empty() } }
// ---- lemmas: where things are ------------------------------
pub broadcast proof fn at_is(s: Seq<KdlNode>, k: Seq<char>)
    ensures #![trigger at(s, k)] 0 <= at(s, k) <= s.len(), named(s, k) <==> at(s, k) < s.len(), named(s, k) ==> s[at(s, k)].nm() == k,
        forall|j: int| 0 <= j < at(s, k) ==> (#[trigger] s[j]).nm() != k
    decreases s.len()
{
    if s.len() > 0 && s[0].nm() != k {
        at_is(s.skip(1), k);
        assert forall|j: int| 0 <= j < at(s, k) implies (#[trigger] s[j]).nm() != k by { if j > 0 { assert(s.skip(1)[j - 1] == s[j]); } }
        if named(s, k) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).nm() == k; assert(s.skip(1)[i - 1].nm() == k); }
    }
}
pub proof fn first_is(s: Seq<KdlNode>, k: Seq<char>, i: int)
    requires 0 <= i < s.len(), s[i].nm() == k, forall|j: int| 0 <= j < i ==> (#[trigger] s[j]).nm() != k
    ensures at(s, k) == i, named(s, k)
{
    at_is(s, k);
    if at(s, k) < i { assert(s[at(s, k)].nm() != k); }
    if i < at(s, k) { assert(s[i].nm() != k); }
}
