// ---- assumed contracts: std::path (unix), as sequences of components ------------------------------
#[verifier::external_body]
pub struct OsStr { _p: () }
impl OsStr {
    pub uninterp spec fn t(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn to_string_lossy(&self) -> (r: Lossy) ensures r.os() == self.t(), r.of().c() == path_of(self.t()) { unimplemented!() }
    #[verifier::external_body]
    pub fn new(s: &str) -> (r: &OsStr) ensures r.t() == s@ { unimplemented!() }
}
use vstd::std_specs::cmp::*;
impl PartialEqSpecImpl<OsStr> for OsStr { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &OsStr) -> bool { self.t() == o.t() } }
impl PartialEq<OsStr> for OsStr { #[verifier::external_body] fn eq(&self, o: &OsStr) -> bool { unimplemented!() } }
impl PartialEqSpecImpl<Path> for Path { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Path) -> bool { self.c() == o.c() } }
impl PartialEq<Path> for Path { #[verifier::external_body] fn eq(&self, o: &Path) -> bool { unimplemented!() } }
impl<'a> PartialEqSpecImpl<&'a Path> for Path { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &&'a Path) -> bool { self.c() == o.c() } }
impl<'a> PartialEq<&'a Path> for Path { #[verifier::external_body] fn eq(&self, o: &&'a Path) -> bool { unimplemented!() } }
impl<'a> PartialEqSpecImpl<Path> for &'a Path { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Path) -> bool { self.c() == o.c() } }
impl<'a> PartialEq<Path> for &'a Path { #[verifier::external_body] fn eq(&self, o: &Path) -> bool { unimplemented!() } }
/// the same kinds of components
pub open spec fn alike(a: Seq<Component>, b: Seq<Component>) -> bool {
    &&& a.len() == b.len()
    &&& forall|i: int| #![trigger a[i]] #![trigger b[i]] 0 <= i < a.len() ==> ((a[i] is Normal) == (b[i] is Normal)) && ((a[i] is CurDir) == (b[i] is CurDir))
}
pub open spec fn starts(s: Seq<char>, c: char) -> bool { s.len() > 0 && s[0] == c }
/// a path's or a name's text, decoded
#[verifier::external_body]
pub struct Lossy { _p: () }
impl Lossy {
    pub uninterp spec fn os(&self) -> Seq<char>;
    pub uninterp spec fn of(&self) -> Path;
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String)
        // decoding leaves the separators and dots of a path alone
        ensures alike(path_of(r@), self.of().c()), all_plain(self.of().c()) ==> all_plain(path_of(r@)), r@ == self.txt(),
            // and an ASCII letter it starts with
            forall|c: char| (c as u32) < 128 ==> #[trigger] starts(r@, c) == starts(self.os(), c) { unimplemented!() }
    pub uninterp spec fn txt(&self) -> Seq<char>;
}
impl VxDisp for Lossy { open spec fn disp(&self) -> Seq<char> { self.txt() } uninterp spec fn dbg(&self) -> Seq<char>; }
pub enum Component { Prefix(OsStr), RootDir, CurDir, ParentDir, Normal(OsStr) }
#[verifier::external_body]
pub struct Path { _p: () }
pub type PathBuf = Path;
pub open spec fn plain(c: Component) -> bool { c is Normal || c is CurDir }
/// no way up and no way out
pub open spec fn all_plain(s: Seq<Component>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] plain(s[i]) }
/// the components of the path written like this
pub uninterp spec fn path_of(s: Seq<char>) -> Seq<Component>;
pub open spec fn absolute(s: Seq<Component>) -> bool { s.len() > 0 && (s[0] is RootDir || s[0] is Prefix) }
pub open spec fn joined(d: Seq<Component>, s: Seq<Component>) -> Seq<Component> {
    if absolute(s) { s } else if s.len() > 0 && s[0] is CurDir && d.len() > 0 { d + s.skip(1) } else { d + s }
}
/// lexically at or below `d`
pub open spec fn inside(d: Seq<Component>, p: Seq<Component>) -> bool {
    d.len() <= p.len() && p.take(d.len() as int) == d && all_plain(p.skip(d.len() as int))
}
pub open spec fn is_ancestor(a: Seq<Component>, p: Seq<Component>) -> bool { a.len() <= p.len() && p.take(a.len() as int) == a }
#[verifier::external_body]
pub struct Components<'a> { _p: &'a () }
impl<'a> Components<'a> {
    pub uninterp spec fn c(&self) -> Seq<Component>;
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<Component>)
        ensures old(self).c().len() == 0 ==> r is None && final(self).c() == old(self).c(),
            old(self).c().len() > 0 ==> r == Some(old(self).c()[0]) && final(self).c() == old(self).c().skip(1)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn count(self) -> (r: usize) ensures r == self.c().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn as_path(&self) -> (r: &'a Path) ensures r.c() == self.c() { unimplemented!() }
    /// std's Iterator::all and any over next()
    #[verifier::external_body]
    pub fn all<F: FnMut(Component) -> bool>(self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < self.c().len() ==> f.requires((#[trigger] self.c()[i],))
        ensures r ==> forall|i: int| 0 <= i < self.c().len() ==> f.ensures((#[trigger] self.c()[i],), true),
            !r ==> exists|i: int| 0 <= i < self.c().len() && f.ensures((#[trigger] self.c()[i],), false)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn any<F: FnMut(Component) -> bool>(self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < self.c().len() ==> f.requires((#[trigger] self.c()[i],))
        ensures !r ==> forall|i: int| 0 <= i < self.c().len() ==> f.ensures((#[trigger] self.c()[i],), false),
            r ==> exists|i: int| 0 <= i < self.c().len() && f.ensures((#[trigger] self.c()[i],), true)
    { unimplemented!() }
}
pub trait VxPathArg { spec fn pc(&self) -> Seq<Component>; }
impl VxPathArg for Path { open spec fn pc(&self) -> Seq<Component> { self.c() } }
impl VxPathArg for String { open spec fn pc(&self) -> Seq<Component> { path_of(self@) } }
impl VxPathArg for str { open spec fn pc(&self) -> Seq<Component> { path_of(self@) } }
impl VxPathArg for OsStr { open spec fn pc(&self) -> Seq<Component> { path_of(self.t()) } }
impl<T: VxPathArg + ?Sized> VxPathArg for &T { open spec fn pc(&self) -> Seq<Component> { (**self).pc() } }
impl Path {
    pub uninterp spec fn c(&self) -> Seq<Component>;
    #[verifier::external_body]
    pub fn new<A: VxPathArg + ?Sized>(a: &A) -> (r: &Path) ensures r.c() == a.pc() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_empty() -> (r: Path) ensures r.c() == Seq::<Component>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn from<A: VxPathArg>(a: A) -> (r: Path) ensures r.c() == a.pc() { unimplemented!() }
    #[verifier::external_body]
    pub fn as_path(&self) -> (r: &Path) ensures *r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn as_ref(&self) -> (r: &Path) ensures *r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn to_path_buf(&self) -> (r: Path) ensures *self == r { unimplemented!() }
    #[verifier::external_body]
    pub fn components(&self) -> (r: Components<'_>) ensures r.c() == self.c() { unimplemented!() }
    #[verifier::external_body]
    pub fn join<A: VxPathArg>(&self, a: A) -> (r: Path) ensures r.c() == joined(self.c(), a.pc()) { unimplemented!() }
    #[verifier::external_body]
    pub fn starts_with<A: VxPathArg>(&self, a: A) -> (r: bool) ensures r == (a.pc().len() <= self.c().len() && self.c().take(a.pc().len() as int) == a.pc()) { unimplemented!() }
    #[verifier::external_body]
    pub fn ends_with<A: VxPathArg>(&self, a: A) -> (r: bool) ensures r == (a.pc().len() <= self.c().len() && self.c().skip(self.c().len() - a.pc().len()) == a.pc()) { unimplemented!() }
    #[verifier::external_body]
    pub fn parent(&self) -> (r: Option<&Path>)
        ensures r is Some <==> self.c().len() > 0 && !(self.c().last() is RootDir) && !(self.c().last() is Prefix),
            r is Some ==> r->0.c() == self.c().drop_last()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn to_string_lossy(&self) -> (r: Lossy) ensures r.of() == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn display(&self) -> (r: Lossy) ensures r.of() == *self { unimplemented!() }
}
impl Clone for Path {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
/// `Path::components` only ever starts with a prefix or a root
pub broadcast axiom fn comps_wf(p: Path)
    ensures forall|i: int| 0 < i < p.c().len() ==> !(#[trigger] p.c()[i] is RootDir) && !(p.c()[i] is Prefix), #[trigger] p.c().len() >= 0;
pub broadcast axiom fn comps_wf_str(s: Seq<char>)
    ensures #[trigger] path_of(s).len() >= 0, forall|i: int| 0 < i < path_of(s).len() ==> !(#[trigger] path_of(s)[i] is RootDir) && !(path_of(s)[i] is Prefix);

pub open spec fn has_parent(c: Seq<Component>) -> bool { c.len() > 0 && !(c.last() is RootDir) && !(c.last() is Prefix) }
pub proof fn lemma_own(d: Seq<Component>)
    ensures inside(d, d), is_ancestor(d, d)
{ assert(d.take(d.len() as int) =~= d); }
/// where a path inside `d` has its parent
pub proof fn lemma_parent(d: Seq<Component>, p: Seq<Component>)
    requires inside(d, p), p.len() > 0
    ensures is_ancestor(p.drop_last(), p), p.len() > d.len() ==> inside(d, p.drop_last()) && (p.drop_last() == d || has_parent(p.drop_last())),
        p.len() == d.len() ==> p == d,
        forall|a: Seq<Component>| is_ancestor(a, p.drop_last()) ==> #[trigger] is_ancestor(a, p),
{
    let q = p.drop_last();
    assert(p.take(q.len() as int) =~= q);
    assert forall|a: Seq<Component>| is_ancestor(a, q) implies #[trigger] is_ancestor(a, p) by { assert(p.take(a.len() as int) =~= q.take(a.len() as int)); }
    if p.len() > d.len() {
        assert(q.take(d.len() as int) =~= p.take(d.len() as int));
        assert forall|i: int| 0 <= i < q.skip(d.len() as int).len() implies #[trigger] plain(q.skip(d.len() as int)[i]) by {
            assert(q.skip(d.len() as int)[i] == p.skip(d.len() as int)[i]);
            assert(plain(p.skip(d.len() as int)[i]));
        }
        if q.len() > d.len() { assert(plain(p.skip(d.len() as int)[q.len() - 1 - d.len()])); }
        else { assert(q =~= d); }
    } else { assert(p =~= d); }
}
/// joining a plain path stays inside
pub broadcast proof fn lemma_join_inside(d: Seq<Component>, s: Seq<Component>)
    requires all_plain(s)
    ensures inside(d, #[trigger] joined(d, s))
{
    if s.len() > 0 { assert(plain(s[0])); }
    let j = joined(d, s);
    assert(j.take(d.len() as int) =~= d);
    if s.len() > 0 && s[0] is CurDir && d.len() > 0 {
        assert(j.skip(d.len() as int) =~= s.skip(1));
        assert forall|i: int| 0 <= i < s.skip(1).len() implies #[trigger] plain(s.skip(1)[i]) by { assert(plain(s[i + 1])); }
    } else {
        assert(j.skip(d.len() as int) =~= s);
    }
}
/// every ancestor of a path inside `d` is inside `d` or an ancestor of `d`
pub proof fn lemma_up(d: Seq<Component>, p: Seq<Component>, a: Seq<Component>)
    requires inside(d, p), is_ancestor(a, p)
    ensures inside(d, a) || is_ancestor(a, d)
{
    if a.len() <= d.len() {
        assert(d.take(a.len() as int) =~= p.take(d.len() as int).take(a.len() as int));
        assert(p.take(d.len() as int).take(a.len() as int) =~= p.take(a.len() as int));
    } else {
        assert(a.take(d.len() as int) =~= p.take(d.len() as int));
        assert forall|i: int| 0 <= i < a.skip(d.len() as int).len() implies #[trigger] plain(a.skip(d.len() as int)[i]) by {
            assert(a.skip(d.len() as int)[i] == p.skip(d.len() as int)[i]);
            assert(plain(p.skip(d.len() as int)[i]));
        }
    }
}
