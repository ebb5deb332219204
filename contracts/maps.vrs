// ---- assumed contracts: indexmap / unicase ------------------------------
pub trait VxKey { spec fn key(&self) -> Seq<char>; }
/// case-insensitive string: compared and hashed by its case folding
#[verifier::external_body]
#[verifier::accept_recursive_types(S)]
pub struct UniCase<S> { _s: S }
impl<S> VxKey for UniCase<S> { open spec fn key(&self) -> Seq<char> { uni(self.text()) } }
/// the case folding of a text
pub uninterp spec fn uni(s: Seq<char>) -> Seq<char>;
/// folding case makes no text empty
pub broadcast axiom fn uni_empty(s: Seq<char>) ensures #[trigger] uni(s) == uni(Seq::<char>::empty()) ==> s.len() == 0;
impl<S> UniCase<S> { pub uninterp spec fn text(&self) -> Seq<char>; }
impl UniCase<String> {
    #[verifier::external_body]
    pub fn new(s: String) -> (r: Self) ensures r.text() == s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn from(s: String) -> (r: Self) ensures r.text() == s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String) ensures r@ == self.text() { unimplemented!() }
}
impl VxKey for String { open spec fn key(&self) -> Seq<char> { self@ } }
impl<S> Clone for UniCase<S> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct IndexMap<K, V> { _k: std::marker::PhantomData<(K, V)> }
impl<K: VxKey, V> IndexMap<K, V> {
    pub uninterp spec fn m(&self) -> Map<Seq<char>, V>;
    /// the entries in insertion order
    pub uninterp spec fn seq(&self) -> Seq<(K, V)>;
    #[verifier::external_body]
    pub fn iter(&self) -> (r: Iter<(&K, &V)>)
        ensures r.pos() == 0, r.all().len() == self.seq().len(),
            forall|i: int| 0 <= i < r.all().len() ==> *(#[trigger] r.all()[i]).0 == self.seq()[i].0 && *r.all()[i].1 == self.seq()[i].1,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.seq().len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.m() == Map::<Seq<char>, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>)
        ensures r is Some <==> self.m().contains_key(k.key()), r is Some ==> *r->0 == self.m()[k.key()]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self.m().contains_key(k.key()) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures
            final(self).m() == old(self).m().insert(k.key(), v),
            r is Some <==> old(self).m().contains_key(k.key()),
            r is Some ==> r->0 == old(self).m()[k.key()],
    { unimplemented!() }
}
pub open spec fn entries_ok<K: VxKey, V>(m: Map<Seq<char>, V>, all: Seq<(K, V)>) -> bool {
    &&& forall|i: int| 0 <= i < all.len() ==> m.contains_key((#[trigger] all[i]).0.key()) && m[all[i].0.key()] == all[i].1
    &&& forall|i: int, j: int| 0 <= i < j < all.len() ==> (#[trigger] all[i]).0.key() != (#[trigger] all[j]).0.key()
    &&& forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < all.len() && (#[trigger] all[i]).0.key() == k
}
impl<K: VxKey, V> VxIntoIter for IndexMap<K, V> {
    type I = Iter<(K, V)>;
    open spec fn same(self, i: Iter<(K, V)>) -> bool { i.pos() == 0 && i.all() == self.seq() && entries_ok(self.m(), self.seq()) }
    #[verifier::external_body]
    fn vx_into(self) -> (r: Iter<(K, V)>) { unimplemented!() }
}
impl<K, V> Clone for IndexMap<K, V> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl<K: VxKey, V> Index<&K> for IndexMap<K, V> {
    type Output = V;
    #[verifier::external_body]
    fn index(&self, k: &K) -> (r: &V) ensures *r == self.m()[k.key()] { unimplemented!() }
}
impl<K: VxKey, V> vstd::std_specs::core::IndexSpecImpl<&K> for IndexMap<K, V> {
    open spec fn index_req(&self, k: &&K) -> bool { self.m().contains_key(k.key()) }
}
