// ---- iterator plumbing: `for p in e` becomes `while let Some(p) = vx_iter(e).next()` ------------------------------
pub trait VxIntoIter: Sized {
    type I;
    spec fn same(self, i: Self::I) -> bool;
    fn vx_into(self) -> (r: Self::I) ensures self.same(r);
}
pub fn vx_iter<T: VxIntoIter>(t: T) -> (r: T::I) ensures t.same(r) { t.vx_into() }
/// an iterator over known elements
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Iter<T> { _p: std::marker::PhantomData<T> }
impl<T> Iter<T> {
    pub uninterp spec fn all(&self) -> Seq<T>;
    pub uninterp spec fn pos(&self) -> int;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<T>)
        ensures
            final(self).all() == old(self).all(),
            0 <= old(self).pos() < old(self).all().len() ==> r == Some(old(self).all()[old(self).pos()]) && final(self).pos() == old(self).pos() + 1,
            !(0 <= old(self).pos() < old(self).all().len()) ==> r is None && final(self).pos() == old(self).pos(),
    { unimplemented!() }
}
impl<T> Iter<T> {
    #[verifier::external_body]
    pub fn map<B, F: Fn(T) -> B>(self, f: F) -> (r: Iter<B>)
        requires forall|i: int| 0 <= i < self.all().len() ==> f.requires((#[trigger] self.all()[i],)),
        ensures self.pos() == 0 ==> r.pos() == 0 && r.all().len() == self.all().len() && forall|i: int| #![trigger r.all()[i]] #![trigger self.all()[i]] 0 <= i < r.all().len() ==> f.ensures((self.all()[i],), r.all()[i])
    { unimplemented!() }
    #[verifier::external_body]
    pub fn chain(self, o: Iter<T>) -> (r: Iter<T>)
        ensures self.pos() == 0 && o.pos() == 0 ==> r.pos() == 0 && r.all() == self.all() + o.all()
    { unimplemented!() }
}
impl<T> VxIntoIter for Iter<T> {
    type I = Iter<T>;
    open spec fn same(self, i: Iter<T>) -> bool { i == self }
    fn vx_into(self) -> (r: Iter<T>) { self }
}
impl<T> VxIntoIter for Vec<T> {
    type I = Iter<T>;
    open spec fn same(self, i: Iter<T>) -> bool { i.all() == self@ && i.pos() == 0 }
    #[verifier::external_body]
    fn vx_into(self) -> (r: Iter<T>) { unimplemented!() }
}
impl<'a, T> VxIntoIter for &'a Vec<T> {
    type I = Iter<&'a T>;
    open spec fn same(self, i: Iter<&'a T>) -> bool {
        &&& i.pos() == 0 && i.all().len() == self@.len()
        &&& forall|k: int| 0 <= k < self@.len() ==> *(#[trigger] i.all()[k]) == self@[k]
    }
    #[verifier::external_body]
    fn vx_into(self) -> (r: Iter<&'a T>) { unimplemented!() }
}
