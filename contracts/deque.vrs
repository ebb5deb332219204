// ---- assumed contracts: std's VecDeque and HashSet ------------------------------
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct VecDeque<T> { _t: std::marker::PhantomData<T> }
impl<T> VecDeque<T> {
    pub uninterp spec fn v(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.v() == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn push_back(&mut self, t: T) ensures final(self).v() == old(self).v().push(t) { unimplemented!() }
    #[verifier::external_body]
    pub fn push_front(&mut self, t: T) ensures final(self).v() == seq![t] + old(self).v() { unimplemented!() }
    #[verifier::external_body]
    pub fn pop_front(&mut self) -> (r: Option<T>)
        ensures
            old(self).v().len() == 0 ==> r is None && final(self).v() == old(self).v(),
            old(self).v().len() > 0 ==> r == Some(old(self).v()[0]) && final(self).v() == old(self).v().subrange(1, old(self).v().len() as int),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn pop_back(&mut self) -> (r: Option<T>)
        ensures
            old(self).v().len() == 0 ==> r is None && final(self).v() == old(self).v(),
            old(self).v().len() > 0 ==> r == Some(old(self).v().last()) && final(self).v() == old(self).v().drop_last(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.v().len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.v().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn iter(&self) -> (r: Iter<&T>)
        ensures r.pos() == 0, r.all().len() == self.v().len(), forall|k: int| 0 <= k < self.v().len() ==> *(#[trigger] r.all()[k]) == self.v()[k]
    { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct HashSet<K> { _k: std::marker::PhantomData<K> }
impl<K: VxKey> HashSet<K> {
    pub uninterp spec fn s(&self) -> Set<Seq<char>>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.s() == Set::<Seq<char>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, k: &K) -> (r: bool) ensures r == self.s().contains(k.key()) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K) -> (r: bool) ensures final(self).s() == old(self).s().insert(k.key()), r == !old(self).s().contains(k.key()) { unimplemented!() }
}
