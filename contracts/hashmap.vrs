// ---- assumed contracts: std's HashMap, looked up by what its key type's Eq/Hash look at ------------------------------
pub trait VxHK { type K; spec fn hk(&self) -> Self::K; }
impl VxHK for String { type K = Seq<char>; open spec fn hk(&self) -> Seq<char> { self@ } }
impl VxHK for Option<String> { type K = Option<Seq<char>>; open spec fn hk(&self) -> Option<Seq<char>> { match self { Some(s) => Some(s@), None => None } } }
impl VxHK for str { type K = Seq<char>; open spec fn hk(&self) -> Seq<char> { self@ } }
impl<T: VxHK + ?Sized> VxHK for &T { type K = T::K; open spec fn hk(&self) -> T::K { (**self).hk() } }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct HashMap<K, V> { _k: std::marker::PhantomData<(K, V)> }
impl<K: VxHK, V> HashMap<K, V> {
    pub uninterp spec fn m(&self) -> Map<K::K, V>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.m() == Map::<K::K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get<Q: VxHK<K = K::K> + ?Sized>(&self, k: &Q) -> (r: Option<&V>)
        ensures r is Some <==> self.m().contains_key(k.hk()), r is Some ==> *r->0 == self.m()[k.hk()]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key<Q: VxHK<K = K::K> + ?Sized>(&self, k: &Q) -> (r: bool) ensures r == self.m().contains_key(k.hk()) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self).m() == old(self).m().insert(k.hk(), v) { unimplemented!() }
    #[verifier::external_body]
    pub fn entry(self: &mut Self, k: K) -> (r: MapEntry<'_, K, V>) ensures r.k() == k.hk(), r.m() == old(self).m(), final(self).m() == r.end() { unimplemented!() }
    #[verifier::external_body]
    pub fn remove<Q: VxHK<K = K::K> + ?Sized>(&mut self, k: &Q) -> (r: Option<V>)
        ensures final(self).m() == old(self).m().remove(k.hk()), r is Some <==> old(self).m().contains_key(k.hk()), r is Some ==> r->0 == old(self).m()[k.hk()]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn values(&self) -> (r: Iter<&V>)
        ensures r.pos() == 0, forall|i: int| 0 <= i < r.all().len() ==> exists|k: K::K| self.m().contains_key(k) && self.m()[k] == *(#[trigger] r.all()[i])
    { unimplemented!() }
}
impl<'a, K: VxHK, V> VxIntoIter for &'a HashMap<K, V> {
    type I = Iter<(&'a K, &'a V)>;
    open spec fn same(self, i: Iter<(&'a K, &'a V)>) -> bool {
        &&& i.pos() == 0
        &&& forall|n: int| 0 <= n < i.all().len() ==> self.m().contains_key((#[trigger] i.all()[n]).0.hk()) && self.m()[i.all()[n].0.hk()] == *i.all()[n].1
        &&& forall|k: K::K| self.m().contains_key(k) ==> exists|n: int| 0 <= n < i.all().len() && (#[trigger] i.all()[n]).0.hk() == k
        &&& forall|n: int, o: int| 0 <= n < o < i.all().len() ==> (#[trigger] i.all()[n]).0.hk() != (#[trigger] i.all()[o]).0.hk()
    }
    #[verifier::external_body]
    fn vx_into(self) -> (r: Iter<(&'a K, &'a V)>) { unimplemented!() }
}
impl<K: VxHK, V> VxIntoIter for HashMap<K, V> {
    type I = Iter<(K, V)>;
    open spec fn same(self, i: Iter<(K, V)>) -> bool {
        &&& i.pos() == 0
        &&& forall|n: int| 0 <= n < i.all().len() ==> self.m().contains_key((#[trigger] i.all()[n]).0.hk()) && self.m()[i.all()[n].0.hk()] == i.all()[n].1
        &&& forall|k: K::K| self.m().contains_key(k) ==> exists|n: int| 0 <= n < i.all().len() && (#[trigger] i.all()[n]).0.hk() == k
        &&& forall|n: int, o: int| 0 <= n < o < i.all().len() ==> (#[trigger] i.all()[n]).0.hk() != (#[trigger] i.all()[o]).0.hk()
    }
    #[verifier::external_body]
    fn vx_into(self) -> (r: Iter<(K, V)>) { unimplemented!() }
}
/// an entry of a map: what it is now, and what the map is once the entry has been used
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct MapEntry<'a, K, V> { _k: &'a std::marker::PhantomData<(K, V)> }
impl<'a, K: VxHK, V> MapEntry<'a, K, V> {
    pub uninterp spec fn k(&self) -> K::K;
    pub uninterp spec fn m(&self) -> Map<K::K, V>;
    pub uninterp spec fn end(&self) -> Map<K::K, V>;
    #[verifier::external_body]
    pub fn or_insert(self, v: V) -> (r: &'a mut V)
        ensures *r == (if self.m().contains_key(self.k()) { self.m()[self.k()] } else { v }), self.end() == self.m().insert(self.k(), *final(r))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> (r: &'a mut V)
        requires !self.m().contains_key(self.k()) ==> f.requires(())
        ensures
            self.m().contains_key(self.k()) ==> *r == self.m()[self.k()],
            !self.m().contains_key(self.k()) ==> f.ensures((), *r),
            self.end() == self.m().insert(self.k(), *final(r))
    { unimplemented!() }
}
