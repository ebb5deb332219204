// Unit: what the linkers put in `node_modules` and take out of it (node-maintainer linkers/hoisted.rs, isolated.rs, mod.rs)
use vstd::prelude::*;
use std::ops::Index;
verus! {
//@include strings.vrs
//@include case.vrs
//@include path.vrs
//@include iter.vrs
//@include hashmap.vrs
//@include std.vrs

// ---- what the properties say ------------------------------
// what may be done
pub uninterp spec fn may_remove(p: Seq<Component>) -> bool;
pub uninterp spec fn may_mkdir(p: Seq<Component>) -> bool;
pub uninterp spec fn may_extract(pkg: Package, p: Seq<Component>) -> bool;
pub uninterp spec fn may_link(from: Seq<Component>, to: Seq<Component>) -> bool;
// what is so (from some point of the run on)
/// there is nothing (any more) at this path, until the linker puts it there
pub uninterp spec fn gone(p: Seq<Component>) -> bool;
/// nor an entry, not even a link to nowhere
pub uninterp spec fn bare(p: Seq<Component>) -> bool;
/// what there was at this path: 0 a file, 1 a directory, 2 a link
pub uninterp spec fn kind_at(p: Seq<Component>) -> int;
/// a directory, not a link to one
pub uninterp spec fn real(p: Seq<Component>) -> bool;
/// what a link says
pub uninterp spec fn link_text(p: Seq<Component>) -> Seq<Component>;
/// only directories have something in them
pub open spec fn hollow(p: Seq<Component>) -> bool {
    &&& forall|q: Seq<Component>| below(p, q) ==> #[trigger] gone(q)
    &&& forall|q: Seq<Component>| below(p, q) ==> #[trigger] bare(q)
}
/// `node_modules` has no record of a tree
pub uninterp spec fn forgotten(nm: Seq<Component>) -> bool;
/// was there when the run began
pub uninterp spec fn there(p: Seq<Component>) -> bool;
/// this package's content is in this directory, and only that
pub uninterp spec fn extracted(pkg: Package, p: Seq<Component>) -> bool;
/// what the package.json at this path says
pub uninterp spec fn says(p: Seq<Component>) -> BuildManifest;
pub open spec fn scripted(d: Seq<Component>) -> bool {
    let m = says(d.push(json_name())).scripts.m();
    m.contains_key("preinstall"@) || m.contains_key("install"@) || m.contains_key("postinstall"@)
}
/// this package's scripts are going to be run
pub uninterp spec fn pending(i: NodeIndex) -> bool;
/// the entry `to` leads to `from`
pub uninterp spec fn linked(from: Seq<Component>, to: Seq<Component>) -> bool;

pub open spec fn all_normal(s: Seq<Component>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Normal }
pub open spec fn one_name(s: Seq<Component>) -> bool { s.len() == 1 && s[0] is Normal }
/// strictly below `d`: its path and then names
pub open spec fn below(d: Seq<Component>, p: Seq<Component>) -> bool {
    d.len() < p.len() && p.take(d.len() as int) == d && all_normal(p.skip(d.len() as int))
}
pub open spec fn at_or_below(d: Seq<Component>, p: Seq<Component>) -> bool { p == d || below(d, p) }
pub open spec fn nm_name() -> Component { path_of("node_modules"@)[0] }
pub open spec fn bin_name() -> Component { path_of(".bin"@)[0] }
pub open spec fn store_name() -> Component { path_of(STORE_DIR_NAME@)[0] }
pub open spec fn json_name() -> Component { path_of("package.json"@)[0] }
pub open spec fn meta_name() -> Component { path_of(META_FILE_NAME@)[0] }
pub axiom fn known_names()
    ensures
        one_name(path_of("node_modules"@)), nm_name()->Normal_0.t() == "node_modules"@,
        one_name(path_of(".bin"@)), bin_name()->Normal_0.t() == ".bin"@,
        one_name(path_of(STORE_DIR_NAME@)), store_name()->Normal_0.t() == STORE_DIR_NAME@,
        one_name(path_of(META_FILE_NAME@)), meta_name()->Normal_0.t() == META_FILE_NAME@,
        one_name(path_of("package.json"@));
/// a name is its text
pub axiom fn os_ext(a: OsStr, b: OsStr) ensures a.t() == b.t() ==> a == b;
/// the directory of a scope, as far as its name says
pub open spec fn scope(c: Component) -> bool { c is Normal && c->Normal_0.t().len() > 0 && c->Normal_0.t()[0] == '@' }

// ---- assumed contracts: std ------------------------------
#[verifier::external_body]
pub struct IoError { _p: () }
pub enum ErrorKind { NotFound, Other }
impl PartialEqSpecImpl<ErrorKind> for ErrorKind { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &ErrorKind) -> bool { *self == *o } }
impl PartialEq<ErrorKind> for ErrorKind { #[verifier::external_body] fn eq(&self, o: &ErrorKind) -> bool { unimplemented!() } }
impl IoError {
    pub uninterp spec fn k(&self) -> ErrorKind;
    #[verifier::external_body]
    pub fn kind(&self) -> (r: ErrorKind) ensures r == self.k() { unimplemented!() }
}
#[verifier::external_body]
pub struct WalkError { _p: () }
impl From<WalkError> for NodeMaintainerError {
    #[verifier::external_body]
    fn from(e: WalkError) -> Self { unimplemented!() }
}
pub enum NodeMaintainerError { BuildManifestReadError(PathBuf, IoError), Other(IoError) }
pub trait IoContext<T>: Sized {
    fn io_context<F>(self, f: F) -> (r: Result<T, NodeMaintainerError>);
}
impl<T> IoContext<T> for Result<T, IoError> {
    #[verifier::external_body]
    fn io_context<F>(self, f: F) -> (r: Result<T, NodeMaintainerError>)
        ensures r is Ok <==> self is Ok, r is Ok ==> r->Ok_0 == self->Ok_0 { unimplemented!() }
}
#[verifier::external_body]
#[derive(Debug)]
pub struct StripPrefixError { _p: () }
impl Path {
    #[verifier::external_body]
    pub fn file_name(&self) -> (r: Option<&OsStr>)
        ensures r is Some <==> self.c().len() > 0 && self.c().last() is Normal, r is Some ==> self.c().last() == Component::Normal(*r->0) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_strip_prefix<A: VxPathArg>(&self, a: A) -> (r: Result<&Path, StripPrefixError>)
        ensures r is Ok <==> is_ancestor(a.pc(), self.c()), r is Ok ==> r->Ok_0.c() == self.c().skip(a.pc().len() as int) { unimplemented!() }
    /// (a directory that is not there when its package's turn comes was not there before: packages come after those they sit in)
    #[verifier::external_body]
    pub fn exists(&self) -> (r: bool)
        ensures r ==> !gone(self.c()) && !bare(self.c()), r == there(self.c()), !r ==> nothing_in(self.c()) { unimplemented!() }
    #[verifier::external_body]
    pub fn read_link(&self) -> (r: Result<Path, IoError>)
        ensures r is Ok ==> r->Ok_0.c() == link_text(self.c()), r is Ok ==> forall|x: Seq<Component>| leads(self.c(), r->Ok_0.c()) == x ==> #[trigger] linked(x, self.c()) { unimplemented!() }
    #[verifier::external_body]
    pub fn symlink_metadata(&self) -> (r: Result<Metadata, IoError>) ensures r is Ok ==> !bare(self.c()) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_owned(&self) -> (r: Path) ensures r == *self { unimplemented!() }
}
/// nothing at or below a path that is not there
pub open spec fn nothing_in(d: Seq<Component>) -> bool {
    &&& forall|p: Seq<Component>| at_or_below(d, p) ==> #[trigger] gone(p)
    &&& forall|p: Seq<Component>| below(d, p) ==> #[trigger] bare(p)
    &&& forgotten(d)
}
pub open spec fn gone_from(d: Seq<Component>) -> bool {
    &&& forall|p: Seq<Component>| at_or_below(d, p) ==> #[trigger] gone(p)
    &&& forall|p: Seq<Component>| at_or_below(d, p) ==> #[trigger] bare(p)
}
impl Component {
    #[verifier::external_body]
    pub fn as_os_str(&self) -> (r: &OsStr) ensures self is Normal ==> *r == self->Normal_0 { unimplemented!() }
}
/// the text of a path, with slashes
pub uninterp spec fn slashed(c: Seq<Component>) -> Seq<char>;
impl Lossy {
    #[verifier::external_body]
    pub fn vx_starts_with(&self, c: char) -> (r: bool) ensures r == (self.os().len() > 0 && self.os()[0] == c) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, c: char) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    pub fn ends_with(&self, c: char) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_replace(&self, c: char, to: &str) -> (r: String) ensures c == '\\' && to@ == "/"@ ==> r@ == slashed(self.of().c()) { unimplemented!() }
}
//@method starts_with => vx_starts_with
//@method strip_prefix => vx_strip_prefix
//@method to_owned => vx_owned
#[verifier::external_body]
pub struct Instant { _p: () }
impl Instant {
    #[verifier::external_body]
    pub fn now() -> Instant { unimplemented!() }
    #[verifier::external_body]
    pub fn elapsed(&self) -> Duration { unimplemented!() }
}
#[verifier::external_body]
pub struct Duration { _p: () }
impl<K, V> HashMap<K, V> {
    #[verifier::external_body]
    pub fn is_empty(&self) -> bool { unimplemented!() }
}
#[verifier::external_body]
pub struct Metadata { _p: () }
#[verifier::external_body]
pub struct FileType { _p: () }
impl FileType {
    pub uninterp spec fn kind(&self) -> int;
    #[verifier::external_body]
    pub fn is_file(&self) -> (r: bool) ensures r == (self.kind() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_dir(&self) -> (r: bool) ensures r == (self.kind() == 1) { unimplemented!() }
    /// (no devices, pipes or sockets)
    #[verifier::external_body]
    pub fn is_symlink(&self) -> (r: bool) ensures r == (self.kind() != 0 && self.kind() != 1) { unimplemented!() }
}
#[verifier::external_body]
pub struct DirEntry { _p: () }
impl DirEntry {
    pub uninterp spec fn p(&self) -> Seq<Component>;
    #[verifier::external_body]
    pub fn path(&self) -> (r: &Path) ensures r.c() == self.p() { unimplemented!() }
    #[verifier::external_body]
    pub fn file_type(&self) -> FileType { unimplemented!() }
}
/// walkdir, as far as `f` goes along with it
#[verifier::external_body]
pub struct WalkDir { _p: () }
impl WalkDir {
    pub uninterp spec fn root(&self) -> Seq<Component>;
    /// whether links to directories are entered
    pub uninterp spec fn follows(&self) -> bool;
    #[verifier::external_body]
    pub fn follow_links(self, y: bool) -> (r: Self) ensures r.root() == self.root(), r.follows() == y { unimplemented!() }
    #[verifier::external_body]
    pub fn new(p: &Path) -> (r: Self) ensures r.root() == p.c(), !r.follows() { unimplemented!() }
    /// whoever is not met, and not inside something the filter turned down, is not there
    /// (or was removed, with something above it, on the way)
    #[verifier::external_body]
    pub fn vx_filter<F: Fn(&DirEntry) -> bool>(self, f: F) -> (r: Iter<Result<DirEntry, WalkError>>)
        requires forall|e: &DirEntry| at_or_below(self.root(), e.p()) ==> f.requires((e,)),
            !self.follows(),
        ensures r.pos() == 0,
            forall|k: int| 0 <= k < r.all().len() && (#[trigger] r.all()[k]) is Ok ==> at_or_below(self.root(), r.all()[k]->Ok_0.p()) && f.ensures((&r.all()[k]->Ok_0,), true),
            forall|p: Seq<Component>| at_or_below(self.root(), p) && !(#[trigger] gone(p)) ==> met(r.all(), p) || turned_down(f, self.root(), p),
    { unimplemented!() }
}
pub open spec fn met(all: Seq<Result<DirEntry, WalkError>>, p: Seq<Component>) -> bool {
    exists|k: int| 0 <= k < all.len() && (all[k] is Err || (#[trigger] all[k])->Ok_0.p() == p)
}
pub open spec fn turned_down<F: Fn(&DirEntry) -> bool>(f: F, root: Seq<Component>, p: Seq<Component>) -> bool {
    exists|e: DirEntry| at_or_below(root, #[trigger] e.p()) && is_ancestor(e.p(), p) && f.ensures((&e,), false)
}
pub mod std_fs {
    use super::*;
    #[verifier::external_body]
    pub fn remove_file(p: &Path) -> (r: Result<(), IoError>)
        requires may_remove(p.c())
        ensures r is Ok || r->Err_0.k() is NotFound ==> gone_from(p.c()) && forgets(p.c()) { unimplemented!() }
    #[verifier::external_body]
    pub fn symlink(text: &Path, link: &Path) -> (r: Result<(), IoError>)
        requires may_link(leads(link.c(), text.c()), link.c())
        ensures r is Ok ==> linked(leads(link.c(), text.c()), link.c()) { unimplemented!() }
}
/// the record is in a file of its own
pub open spec fn forgets(p: Seq<Component>) -> bool { forall|nm: Seq<Component>| p == #[trigger] nm.push(meta_name()) ==> forgotten(nm) }
/// where a link with this text ends up
pub uninterp spec fn leads(link: Seq<Component>, text: Seq<Component>) -> Seq<Component>;

// ---- assumed contracts: async-std ------------------------------
pub mod fs {
    use super::*;
    #[verifier::external_body]
    pub fn remove_file<P: VxPathArg>(p: P) -> (r: Result<(), IoError>)
        requires may_remove(p.pc())
        ensures r is Ok ==> gone_from(p.pc()) && forgets(p.pc()) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove_dir_all<P: VxPathArg>(p: P) -> (r: Result<(), IoError>)
        requires may_remove(p.pc())
        ensures r is Ok ==> gone_from(p.pc()) { unimplemented!() }
    #[verifier::external_body]
    pub fn read_dir<P: VxPathArg>(p: P) -> (r: Result<ReadDir, IoError>)
        ensures r is Ok ==> {
            let all = r->Ok_0.all();
            &&& r->Ok_0.pos() == 0
            &&& forall|k: int| 0 <= k < all.len() && (#[trigger] all[k]) is Ok ==> all[k]->Ok_0.p().len() == p.pc().len() + 1 && below(p.pc(), all[k]->Ok_0.p())
            // everything that is in it is in one of its entries
            &&& forall|q: Seq<Component>| below(p.pc(), q) && !(#[trigger] gone(q)) ==> exists|k: int| 0 <= k < all.len() && (all[k] is Err || at_or_below((#[trigger] all[k])->Ok_0.p(), q))
            &&& forall|q: Seq<Component>| below(p.pc(), q) && !(#[trigger] bare(q)) ==> exists|k: int| 0 <= k < all.len() && (all[k] is Err || at_or_below((#[trigger] all[k])->Ok_0.p(), q))
        } { unimplemented!() }
}
pub type ReadDir = Iter<Result<Entry, IoError>>;
#[verifier::external_body]
pub struct Entry { _p: () }
impl Entry {
    pub uninterp spec fn p(&self) -> Seq<Component>;
    #[verifier::external_body]
    pub fn path(&self) -> (r: Path) ensures r.c() == self.p() { unimplemented!() }
    #[verifier::external_body]
    pub fn file_name(&self) -> (r: &OsStr) ensures self.p().len() > 0 && self.p().last() is Normal ==> *r == self.p().last()->Normal_0 { unimplemented!() }
    #[verifier::external_body]
    pub fn file_type(&self) -> (r: Result<FileType, IoError>)
        ensures r is Ok ==> r->Ok_0.kind() == kind_at(self.p()) && 0 <= kind_at(self.p()) <= 2
            && (kind_at(self.p()) == 1 ==> real(self.p())) && (kind_at(self.p()) != 1 ==> hollow(self.p())) { unimplemented!() }
}

// ---- the tree, as far as the linkers look at it ------------------------------
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct NodeIndex(pub usize);
#[verifier::external_body]
pub struct UniCase { _p: () }
/// a text, upper and lower case alike
pub uninterp spec fn fold(s: Seq<char>) -> int;
impl UniCase {
    pub uninterp spec fn key(&self) -> int;
    #[verifier::external_body]
    pub fn new(s: String) -> (r: Self) ensures r.key() == fold(s@) { unimplemented!() }
    #[verifier::external_body]
    pub fn from(s: String) -> (r: Self) ensures r.key() == fold(s@) { unimplemented!() }
}
impl PartialEqSpecImpl<UniCase> for UniCase { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &UniCase) -> bool { self.key() == o.key() } }
impl PartialEq<UniCase> for UniCase { #[verifier::external_body] fn eq(&self, o: &UniCase) -> bool { unimplemented!() } }
#[verifier::external_body]
pub struct Version { _p: () }
#[verifier::external_body]
pub struct Integrity { _p: () }
#[verifier::external_body]
pub struct DepMap { _p: () }
impl PartialEqSpecImpl<Version> for Version { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Version) -> bool { *self == *o } }
impl PartialEq<Version> for Version { #[verifier::external_body] fn eq(&self, o: &Version) -> bool { unimplemented!() } }
impl PartialEqSpecImpl<Integrity> for Integrity { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Integrity) -> bool { *self == *o } }
impl PartialEq<Integrity> for Integrity { #[verifier::external_body] fn eq(&self, o: &Integrity) -> bool { unimplemented!() } }
//@item crates/node-maintainer/src/lockfile.rs LockfileNode
//@subst UniCase<String> =>> UniCase
//@subst IndexMap<String, String> =>> DepMap
//@end
impl PartialEqSpecImpl<LockfileNode> for LockfileNode { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &LockfileNode) -> bool { *self == *o } }
impl PartialEq<LockfileNode> for LockfileNode { #[verifier::external_body] fn eq(&self, o: &LockfileNode) -> bool { unimplemented!() } }
#[verifier::external_body]
pub struct Packages { _p: () }
impl Packages {
    pub uninterp spec fn m(&self) -> Map<int, LockfileNode>;
    #[verifier::external_body]
    pub fn get(&self, k: &UniCase) -> (r: Option<&LockfileNode>)
        ensures r is Some <==> self.m().contains_key(k.key()), r is Some ==> *r->0 == self.m()[k.key()] { unimplemented!() }
}
pub struct Lockfile { pub packages: Packages }
#[verifier::external_body]
pub struct Inner { _p: () }
#[verifier::external_body]
pub struct Package { _p: () }
pub struct Graph { pub root: NodeIndex, pub inner: Inner }
#[verifier::external_body]
pub struct Name { _p: () }
impl Name {
    pub uninterp spec fn t(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String) ensures r@ == self.t() { unimplemented!() }
}
pub struct Node { pub idx: NodeIndex, pub name: Name, pub package: Package }
impl Graph {
    pub uninterp spec fn node(&self, i: NodeIndex) -> Node;
    pub open spec fn has_node(&self, i: NodeIndex) -> bool { self.inner.nodes().contains(i) }
    /// the names of a package and of those it sits under, outermost first, with `/node_modules/` in between
    pub uninterp spec fn place(&self, i: NodeIndex) -> Seq<char>;
    /// what a lockfile says of a package
    pub uninterp spec fn ideal(&self, i: NodeIndex) -> Result<LockfileNode, NodeMaintainerError>;
    #[verifier::external_body]
    pub fn node_path_string(&self, i: NodeIndex) -> (r: String) ensures r@ == self.place(i) { unimplemented!() }
    #[verifier::external_body]
    pub fn node_lockfile_node(&self, i: NodeIndex, is_root: bool) -> (r: Result<LockfileNode, NodeMaintainerError>) ensures !is_root ==> r == self.ideal(i) { unimplemented!() }
    /// (unit places: node_at_path, place_found, places_differ, for paths spelled like a place)
    #[verifier::external_body]
    pub fn node_at_path(&self, p: &Path) -> (r: Option<&Node>)
        ensures
            r is Some ==> self.has_node(r->0.idx) && r->0.idx != self.root,
            // upper and lower case alike
            forall|i: NodeIndex| #![trigger self.place(i)] self.has_node(i) && i != self.root && fold(self.place(i)) == fold(slashed(p.c())) ==> r is Some && r->0.idx == i,
    { unimplemented!() }
}
#[verifier::external_body]
pub struct PruneProgress { _p: () }
#[verifier::external_body]
pub struct ProgressHandler { _p: () }
#[verifier::external_body]
pub struct ScriptStartHandler { _p: () }
#[verifier::external_body]
pub struct ScriptLineHandler { _p: () }
//@item crates/node-maintainer/src/linkers/mod.rs LinkerOptions
//@end
//@item crates/node-maintainer/src/maintainer.rs META_FILE_NAME
//@end
//@item crates/node-maintainer/src/maintainer.rs STORE_DIR_NAME
//@end
impl VxHK for Path { type K = Seq<Component>; open spec fn hk(&self) -> Seq<Component> { self.c() } }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct HashSet<K> { _k: std::marker::PhantomData<K> }
impl<K: VxHK> HashSet<K> {
    pub uninterp spec fn s(&self) -> Set<K::K>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.s() == Set::<K::K>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K) -> (r: bool) ensures final(self).s() == old(self).s().insert(k.hk()) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains<Q: VxHK<K = K::K> + ?Sized>(&self, k: &Q) -> (r: bool) ensures r == self.s().contains(k.hk()) { unimplemented!() }
}
/// text keeps how it starts when it is decoded
pub trait VxStarts { fn vx_starts_with(&self, c: char) -> bool; }
impl VxStarts for String {
    #[verifier::external_body]
    fn vx_starts_with(&self, c: char) -> (r: bool) ensures r == starts(self@, c) { unimplemented!() }
}
#[verifier::external_body]
pub struct DashSet { _p: () }
impl Clone for DashSet {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) { unimplemented!() }
}
/// what is going to be rebuilt: a shared set, that only grows here
#[verifier::external_body]
pub struct Pending { _p: () }
impl Clone for Pending {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) { unimplemented!() }
}
impl Pending {
    #[verifier::external_body]
    pub fn lock(&self) -> (r: Pending) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&self, i: NodeIndex) -> (r: bool) ensures pending(i) { unimplemented!() }
}
pub struct Counter;
#[verifier::external_body]
pub struct AtomicUsize { _p: () }
pub enum Ordering { SeqCst }
impl AtomicUsize {
    #[verifier::external_body]
    pub fn vx_new(n: usize) -> Self { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_add(&self, n: usize, o: Ordering) -> usize { unimplemented!() }
    #[verifier::external_body]
    pub fn load(&self, o: Ordering) -> usize { unimplemented!() }
}
impl Clone for AtomicUsize {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) { unimplemented!() }
}
/// `try_for_each_concurrent`: the body is run for the members of the stream, in any order, until one fails
#[verifier::external_body]
pub fn vx_each<T, F: Fn(T) -> Result<(), NodeMaintainerError>>(it: Iter<T>, n: usize, f: F) -> (r: Result<(), NodeMaintainerError>)
    requires forall|k: int| 0 <= k < it.all().len() ==> f.requires((#[trigger] it.all()[k],))
    ensures r is Ok ==> forall|k: int| 0 <= k < it.all().len() ==> f.ensures((#[trigger] it.all()[k],), Ok::<(), NodeMaintainerError>(()))
{ unimplemented!() }
impl Inner {
    pub uninterp spec fn nodes(&self) -> Set<NodeIndex>;
    #[verifier::external_body]
    pub fn node_indices(&self) -> (r: Iter<NodeIndex>)
        ensures r.pos() == 0, forall|k: int| 0 <= k < r.all().len() ==> self.nodes().contains(#[trigger] r.all()[k]),
            forall|i: NodeIndex| #[trigger] self.nodes().contains(i) ==> r.all().contains(i) { unimplemented!() }
    #[verifier::external_body]
    pub fn node_count(&self) -> usize { unimplemented!() }
}
impl Index<NodeIndex> for Graph {
    type Output = Node;
    #[verifier::external_body]
    fn index(&self, i: NodeIndex) -> (r: &Node) ensures *r == self.node(i) { unimplemented!() }
}
impl vstd::std_specs::core::IndexSpecImpl<NodeIndex> for Graph {
    open spec fn index_req(&self, i: &NodeIndex) -> bool { true }
}
#[verifier::external_body]
pub struct Names { _p: () }
impl Names { pub uninterp spec fn text(&self) -> Seq<char>; }
pub enum Direction { Incoming, Outgoing }
#[verifier::external_body]
pub struct EdgeRef { _p: () }
impl EdgeRef {
    pub uninterp spec fn dst(&self) -> NodeIndex;
    #[verifier::external_body]
    pub fn target(&self) -> (r: NodeIndex) ensures r == self.dst() { unimplemented!() }
}
impl Inner {
    /// the first asks for the second
    pub uninterp spec fn depends(&self, i: NodeIndex, j: NodeIndex) -> bool;
    #[verifier::external_body]
    pub fn edges_directed(&self, n: NodeIndex, d: Direction) -> (r: Iter<EdgeRef>)
        ensures r.pos() == 0, d is Outgoing ==> {
            &&& forall|k: int| 0 <= k < r.all().len() ==> self.depends(n, (#[trigger] r.all()[k]).dst())
            &&& forall|j: NodeIndex| #[trigger] self.depends(n, j) ==> exists|k: int| 0 <= k < r.all().len() && (#[trigger] r.all()[k]).dst() == j
        } { unimplemented!() }
}
/// name@hash (of its place in the tree)
#[verifier::external_body]
pub fn package_dir_name(graph: &Graph, i: NodeIndex) -> (r: String) ensures r@ == graph.dir_name(i) { unimplemented!() }
pub uninterp spec fn way(a: Seq<Component>, base: Seq<Component>) -> Seq<Component>;
/// pathdiff: the text that leads from a directory to a path
#[verifier::external_body]
pub fn vx_diff(a: &Path, base: &Path) -> (r: Option<Path>)
    ensures r is Some, r->0.c() == way(a.c(), base.c()), forall|l: Seq<Component>| has_parent(l) && l.drop_last() == base.c() ==> #[trigger] leads(l, r->0.c()) == a.c() { unimplemented!() }
impl Graph {
    pub uninterp spec fn dir_name(&self, i: NodeIndex) -> Seq<char>;
    #[verifier::external_body]
    pub fn node_path(&self, i: NodeIndex) -> (r: Names) ensures r.text() == self.place(i) { unimplemented!() }
}
/// names.iter().map(to_string).collect().join("/node_modules/")
#[verifier::external_body]
pub fn vx_place(n: Names, sep: &str) -> (r: String) ensures sep@ == "/node_modules/"@ ==> r@ == n.text() { unimplemented!() }
#[derive(Clone, Copy)]
pub enum ExtractMode { AutoHardlink, Reflink, Copy, Hardlink }
#[verifier::external_body]
pub struct NassunError { _p: () }
impl From<NassunError> for NodeMaintainerError {
    #[verifier::external_body]
    fn from(e: NassunError) -> Self { unimplemented!() }
}
impl Package {
    /// (unit tarball, C07 and C08)
    #[verifier::external_body]
    pub fn extract_to_dir(&self, dir: &Path, mode: ExtractMode) -> (r: Result<Integrity, NassunError>)
        requires may_extract(*self, dir.c())
        ensures r is Ok ==> extracted(*self, dir.c()),
            // no links (C08); what it brings for its dependencies are directories
            r is Ok ==> forall|q: Seq<Component>| below(dir.c().push(nm_name()), q) ==> #[trigger] bare(q) || real(q) { unimplemented!() }
}
pub struct BuildManifest { pub bin: HashMap<String, Path>, pub scripts: HashMap<String, String> }
impl BuildManifest {
    /// (unit bins)
    #[verifier::external_body]
    pub fn from_path(p: Path) -> (r: Result<BuildManifest, IoError>)
        ensures r is Ok ==> r->Ok_0.bin.m() == says(p.c()).bin.m() && r->Ok_0.scripts.m() == says(p.c()).scripts.m() { unimplemented!() }
}
/// (unit bins)
#[verifier::external_body]
pub fn mkdirp(p: &Path, c: &DashSet) -> (r: Result<(), NodeMaintainerError>) requires may_mkdir(p.c()) { unimplemented!() }
/// (tries it on files of its own)
#[verifier::external_body]
pub fn supports_reflink(a: &Path, b: &Path) -> bool { unimplemented!() }
#[verifier::external_body]
pub fn supports_hardlink(a: &Path, b: &Path) -> bool { unimplemented!() }
pub struct HoistedLinker { pub pending_rebuild: Pending, pub mkdir_cache: DashSet, pub opts: LinkerOptions }
pub open spec fn unknown_isolated(o: LinkerOptions) -> bool { o.actual_tree is None || !there(store_of(o.root.c())) }
pub struct IsolatedLinker { pub pending_rebuild: Pending, pub mkdir_cache: DashSet, pub opts: LinkerOptions }

pub open spec fn nm_of(root: Seq<Component>) -> Seq<Component> { root.push(nm_name()) }
/// a package's directory, hoisted
pub open spec fn dir_of(root: Seq<Component>, g: Graph, i: NodeIndex) -> Seq<Component> { nm_of(root) + path_of(g.place(i)) }
/// `k` names in, a package's place is at a name, at a scope, or at a `node_modules`
pub open spec fn step(s: Seq<Component>, k: int) -> bool {
    &&& s[k] is Normal
    &&& s[k] != bin_name()
    &&& s[k] == nm_name() || k == 0 || s[k - 1] == nm_name() || (scope(s[k - 1]) && (k == 1 || s[k - 2] == nm_name()))
}
/// the places of a tree (C02): each package has one of its own, made of names
pub open spec fn placed(g: Graph) -> bool {
    &&& forall|i: NodeIndex| g.has_node(i) && i != g.root ==> {
        let s = path_of(#[trigger] g.place(i));
        &&& s.len() > 0
        &&& forall|k: int| 0 <= k < s.len() ==> #[trigger] step(s, k)
        &&& s.last() != nm_name() && !scope(s.last())
        &&& s[0] != meta_name()
        // its path is as it is written
        &&& fold(slashed(s)) == fold(g.place(i))
    }
    &&& forall|i: NodeIndex, j: NodeIndex| g.has_node(i) && g.has_node(j) && i != g.root && j != g.root && fold(#[trigger] g.place(i)) == fold(#[trigger] g.place(j)) ==> i == j
}
/// the tree that was there says of this package what is wanted now
pub open spec fn same_as_before(t: Option<Lockfile>, g: Graph, i: NodeIndex) -> bool {
    t is Some && t->0.packages.m().contains_key(fold(g.place(i))) && g.ideal(i) is Ok && t->0.packages.m()[fold(g.place(i))] == g.ideal(i)->Ok_0
}
/// neither tree has anything to do with this, and it sits in a package: it is that package's own
pub open spec fn own(root: Seq<Component>, t: Option<Lockfile>, g: Graph, p: Seq<Component>) -> bool {
    let s = p.skip(nm_of(root).len() as int);
    &&& s.contains(nm_name())
    &&& t is Some ==> !t->0.packages.m().contains_key(fold(slashed(s)))
    &&& forall|i: NodeIndex| g.has_node(i) && i != g.root ==> fold(#[trigger] g.place(i)) != fold(slashed(s))
}
/// what is not to be there (any more)
pub open spec fn extraneous(root: Seq<Component>, t: Option<Lockfile>, g: Graph, p: Seq<Component>) -> bool {
    &&& forall|i: NodeIndex| g.has_node(i) && i != g.root && #[trigger] dir_of(root, g, i) == p ==> !same_as_before(t, g, i)
    &&& !own(root, t, g, p)
}
/// nothing is known of what is there, or it was put there by the other linker
pub open spec fn unknown_hoisted(o: LinkerOptions) -> bool { o.actual_tree is None || there(nm_of(o.root.c()).push(store_name())) }
pub proof fn lemma_known(d: Seq<Component>)
    ensures
        joined(d, path_of("node_modules"@)) == d.push(nm_name()), joined(d, path_of(".bin"@)) == d.push(bin_name()),
        joined(d, path_of(STORE_DIR_NAME@)) == d.push(store_name()), joined(d, path_of(META_FILE_NAME@)) == d.push(meta_name()),
{
    known_names();
    assert(joined(d, path_of("node_modules"@)) =~= d.push(nm_name()));
    assert(joined(d, path_of(".bin"@)) =~= d.push(bin_name()));
    assert(joined(d, path_of(STORE_DIR_NAME@)) =~= d.push(store_name()));
    assert(joined(d, path_of(META_FILE_NAME@)) =~= d.push(meta_name()));
}
pub proof fn lemma_dir(root: Seq<Component>, g: Graph, i: NodeIndex)
    requires placed(g), g.has_node(i), i != g.root
    ensures joined(nm_of(root), path_of(g.place(i))) == dir_of(root, g, i),
        joined(dir_of(root, g, i), path_of("package.json"@)) == dir_of(root, g, i).push(json_name()),
        below(nm_of(root), dir_of(root, g, i)), dir_of(root, g, i).skip(nm_of(root).len() as int) == path_of(g.place(i))
{
    let s = path_of(g.place(i));
    known_names();
    assert(step(s, 0));
    assert(joined(dir_of(root, g, i), path_of("package.json"@)) =~= dir_of(root, g, i).push(json_name()));
    assert(dir_of(root, g, i).take(nm_of(root).len() as int) =~= nm_of(root));
    assert(dir_of(root, g, i).skip(nm_of(root).len() as int) =~= s);
    assert forall|k: int| 0 <= k < s.len() implies (#[trigger] s[k]) is Normal by { assert(step(s, k)); }
}
// ---- the isolated layout ------------------------------
pub open spec fn store_of(root: Seq<Component>) -> Seq<Component> { nm_of(root).push(store_name()) }
/// name@hash: a package's own directory in the store
pub open spec fn store_dir(root: Seq<Component>, g: Graph, i: NodeIndex) -> Seq<Component> { store_of(root) + path_of(g.dir_name(i)) }
/// where its files are
pub open spec fn home(root: Seq<Component>, g: Graph, i: NodeIndex) -> Seq<Component> {
    store_dir(root, g, i).push(nm_name()) + path_of(g.node(i).name.t())
}
/// where what it asks for is found
pub open spec fn own_nm(root: Seq<Component>, g: Graph, i: NodeIndex) -> Seq<Component> {
    if i == g.root { nm_of(root) } else { home(root, g, i).push(nm_name()) }
}
pub open spec fn dep_entry(root: Seq<Component>, g: Graph, i: NodeIndex, j: NodeIndex) -> Seq<Component> { own_nm(root, g, i) + path_of(g.node(j).name.t()) }
pub open spec fn hidden(c: Component) -> bool { c is Normal && c->Normal_0.t().len() > 0 && c->Normal_0.t()[0] == '.' }
/// a name, or a scope and a name
pub open spec fn plain_name(s: Seq<Component>) -> bool { all_normal(s) && 1 <= s.len() <= 2 && (s.len() == 2 ==> scope(s[0])) && !scope(s.last()) }
/// the names of a tree (C14), and those of its directories in the store
pub open spec fn named(g: Graph) -> bool {
    &&& g.has_node(g.root)
    &&& forall|i: NodeIndex| (#[trigger] g.node(i)).idx == i
    &&& forall|i: NodeIndex, j: NodeIndex| #[trigger] g.inner.depends(i, j) ==> g.has_node(i) && g.has_node(j) && j != g.root
    &&& forall|i: NodeIndex| g.has_node(i) && i != g.root ==> {
        let p = path_of(#[trigger] g.node(i).name.t());
        let d = path_of(g.dir_name(i));
        &&& plain_name(p) && !hidden(p[0])
        &&& plain_name(d) && d.len() == p.len()
    }
    // each dependency of a package has a name of its own
    &&& forall|i: NodeIndex, j: NodeIndex, k: NodeIndex| #[trigger] g.inner.depends(i, j) && #[trigger] g.inner.depends(i, k) && path_of(g.node(j).name.t()) == path_of(g.node(k).name.t()) ==> j == k
    // no two share one, and none is in another
    &&& forall|i: NodeIndex, j: NodeIndex| g.has_node(i) && g.has_node(j) && i != g.root && j != g.root
        && #[trigger] is_ancestor(path_of(g.dir_name(i)), path_of(g.dir_name(j))) ==> i == j
}
pub proof fn lemma_home(root: Seq<Component>, g: Graph, i: NodeIndex)
    requires named(g), g.has_node(i), i != g.root
    ensures
        joined(store_of(root), path_of(g.dir_name(i))) == store_dir(root, g, i),
        joined(store_dir(root, g, i).push(nm_name()), path_of(g.node(i).name.t())) == home(root, g, i),
        joined(home(root, g, i), path_of("package.json"@)) == home(root, g, i).push(json_name()),
        below(store_of(root), store_dir(root, g, i)), below(nm_of(root), home(root, g, i)),
{
    known_names();
    let (d, p) = (path_of(g.dir_name(i)), path_of(g.node(i).name.t()));
    assert(d[0] is Normal && p[0] is Normal);
    let (a, b, h) = (store_of(root), store_dir(root, g, i), home(root, g, i));
    assert(joined(h, path_of("package.json"@)) =~= h.push(json_name()));
    assert(b.take(a.len() as int) =~= a);
    assert(b.skip(a.len() as int) =~= d);
    let nm = nm_of(root);
    assert(h.take(nm.len() as int) =~= nm);
    assert forall|k: int| 0 <= k < h.skip(nm.len() as int).len() implies (#[trigger] h.skip(nm.len() as int)[k]) is Normal by {
        if k == 0 { } else if k <= d.len() { assert(h.skip(nm.len() as int)[k] == d[k - 1]); }
        else if k == d.len() + 1 { } else { assert(h.skip(nm.len() as int)[k] == p[k - d.len() - 2]); }
    }
}
/// what a dependency is called is where it is linked
pub proof fn lemma_dep(root: Seq<Component>, g: Graph, n: Seq<Component>, j: NodeIndex)
    requires named(g), g.has_node(j), j != g.root
    ensures joined(n, path_of(g.node(j).name.t())) == n + path_of(g.node(j).name.t()),
        has_parent(n + path_of(g.node(j).name.t())),
        (n + path_of(g.node(j).name.t())).drop_last() == n || (scope((n + path_of(g.node(j).name.t())).drop_last().last()) && (n + path_of(g.node(j).name.t())).drop_last().drop_last() == n),
{
    let p = path_of(g.node(j).name.t());
    let e = n + p;
    assert(p[0] is Normal && p.last() is Normal && e.last() == p.last());
    if p.len() == 1 { assert(e.drop_last() =~= n); }
    else { assert(e.drop_last() =~= n.push(p[0])); assert(e.drop_last().drop_last() =~= n); }
}
/// the links a package needs are there
pub open spec fn linked_up(root: Seq<Component>, g: Graph, i: NodeIndex) -> bool {
    forall|j: NodeIndex| #[trigger] g.inner.depends(i, j) ==> dep_ok(root, g, i, j)
}
/// where a package looks for this one, there is a link to it (or something of its own, that it came with)
pub open spec fn dep_ok(root: Seq<Component>, g: Graph, i: NodeIndex, j: NodeIndex) -> bool {
    linked(home(root, g, j), dep_entry(root, g, i, j)) || (i != g.root && real(dep_entry(root, g, i, j)))
}
// ---- the code: hoisted.rs ------------------------------
//@fn crates/node-maintainer/src/linkers/hoisted.rs is_scope
    ensures ret == (path.c().len() > 0 && scope(path.c().last()))
//@closure 0 (&OsStr) -> (r: bool)
    ensures r == ($0.t().len() > 0 && $0.t()[0] == '@')
//@end
//@fn crates/node-maintainer/src/linkers/mod.rs remove_meta
    requires may_remove(node_modules.c().push(meta_name()))
    ensures ret is Ok ==> forgotten(node_modules.c())
//@subst? std::fs::remove_file =>> std_fs::remove_file
//@subst? std::io::ErrorKind::NotFound =>> ErrorKind::NotFound
//@at body_start
    proof { known_names(); assert(joined(node_modules.c(), path_of(META_FILE_NAME@)) =~= node_modules.c().push(meta_name())); }
//@end
impl HoistedLinker {
//@fn crates/node-maintainer/src/linkers/hoisted.rs HoistedLinker::prune
    requires
        placed(*graph),
        may_remove(nm_of(self.opts.root.c()).push(meta_name())),
        // C12, C14, C18: only below node_modules, only what is not wanted, and only once the record is gone
        forall|p: Seq<Component>| below(nm_of(self.opts.root.c()), p) && forgotten(nm_of(self.opts.root.c()))
            && (unknown_hoisted(self.opts) || extraneous(self.opts.root.c(), self.opts.actual_tree, *graph, p)) ==> #[trigger] may_remove(p),
    ensures ret is Ok ==> {
        &&& forgotten(nm_of(self.opts.root.c()))
        // C12: what is left of the tree is as it should be
        &&& forall|i: NodeIndex| graph.has_node(i) && i != graph.root ==>
            gone(#[trigger] dir_of(self.opts.root.c(), *graph, i)) || (!unknown_hoisted(self.opts) && (same_as_before(self.opts.actual_tree, *graph, i) || graph.ideal(i) is Err))
        // and nothing else that looks like a package is
        &&& cleared(nm_of(self.opts.root.c()), self.opts.root.c(), self.opts.actual_tree, *graph)
    }
//@attr #[verifier::exec_allows_no_decreases_clause]
//@subst? std::time::Instant::now() =>> Instant::now()
//@subst? async_std::fs::remove_dir_all =>> fs::remove_dir_all
//@subst? async_std::fs::remove_file =>> fs::remove_file
//@subst? async_std::fs::read_dir =>> fs::read_dir
//@subst? async_std::path::Path::new =>> Path::new
//@subst? std::ffi::OsStr::new =>> OsStr::new
//@subst? super::remove_meta =>> remove_meta
//@subst? extraneous_packages += 1; =>> {}
//@at body_start
    let ghost root = self.opts.root.c();
    let ghost nm = nm_of(root);
    let ghost tree = self.opts.actual_tree;
    proof {
        assert forall|d: Seq<Component>| true implies #[trigger] joined(d, path_of("node_modules"@)) == d.push(nm_name()) by { lemma_known(d); }
        assert forall|d: Seq<Component>| true implies #[trigger] joined(d, path_of(META_FILE_NAME@)) == d.push(meta_name()) by { lemma_known(d); }
        assert forall|d: Seq<Component>| true implies #[trigger] joined(d, path_of(STORE_DIR_NAME@)) == d.push(store_name()) by { lemma_known(d); }
        assert forall|i: NodeIndex| graph.has_node(i) && i != graph.root implies below(nm, #[trigger] dir_of(root, *graph, i)) && dir_of(root, *graph, i).skip(nm.len() as int) == path_of(graph.place(i)) by { lemma_dir(root, *graph, i); }
        known_names();
        assert forall|o: OsStr| #![trigger o.t()] (o.t() == "node_modules"@ <==> Component::Normal(o) == nm_name()) && (o.t() == ".bin"@ <==> Component::Normal(o) == bin_name()) by {
            os_ext(o, nm_name()->Normal_0);
            os_ext(o, bin_name()->Normal_0);
        }
    }
//@at before for entry in WalkDir::new(&prefix)
    proof { lemma_at(nm); }
//@loop 1
    invariant forgotten(nm), 0 <= $it.pos() <= $it.all().len(),
        forall|k: int| 0 <= k < $it.all().len() && (#[trigger] $it.all()[k]) is Ok ==> at_or_below(nm, $it.all()[k]->Ok_0.p()) && wants(nm, $it.all()[k]->Ok_0.p()),
        forall|k: int| 0 <= k < $it.pos() ==> (#[trigger] $it.all()[k]) is Ok && (gone($it.all()[k]->Ok_0.p()) || (kept(root, tree, *graph, $it.all()[k]->Ok_0.p()) && expected(root, tree, *graph, $it.all()[k]->Ok_0.p()))),
        forall|p: Seq<Component>| at_or_below(nm, p) && wanted_all(nm, p) && !(#[trigger] gone(p)) ==> met($it.all(), p),
//@loop 0
    invariant forgotten(nm), 0 <= entries.pos() <= entries.all().len(), entries.all() == all,
        forall|k: int| 0 <= k < entries.pos() ==> (#[trigger] all[k]) is Ok && gone_from(all[k]->Ok_0.p())
//@at before while let Some(entry) = entries.next()
    let ghost all = entries.all();
//@subst? pb(entry_path); =>> {}
//@at after while let Some(entry) = entries.next()
    proof {
        assert forall|i: NodeIndex| graph.has_node(i) && i != graph.root implies gone(#[trigger] dir_of(root, *graph, i)) by {
            let q = dir_of(root, *graph, i);
            assert(below(nm, q));
        }
    }
//@at loop 1 after
    proof {
        assert forall|i: NodeIndex| graph.has_node(i) && i != graph.root implies gone(#[trigger] dir_of(root, *graph, i)) || same_as_before(tree, *graph, i) || graph.ideal(i) is Err by {
            lemma_wanted(root, *graph, i);
        }
    }
//@m replace => vx_replace
//@subst $0.into_iter().filter_entry(move |entry| $1) =>> $0.vx_filter(|entry: &DirEntry| -> (r: bool) requires at_or_below(prefix.c(), entry.p()) ensures r == wants(prefix.c(), entry.p()) { proof { lemma_entry(root, entry.p()); } $1 })
//@subst? $0.and_then(|parent| parent.file_name()) =>> $0.and_then(|parent: &Path| -> (r: Option<&OsStr>) ensures r is Some <==> parent.c().len() > 0 && parent.c().last() is Normal, r is Some ==> parent.c().last() == Component::Normal(*r->0) { parent.file_name() })
//@subst? $0.and_then(|tree| $1) =>> $0.and_then(|tree: &Lockfile| -> (r: Option<&LockfileNode>) ensures r is Some <==> tree.packages.m().contains_key(entry_subpath.key()), r is Some ==> *r->0 == tree.packages.m()[entry_subpath.key()] { $1 })
//@subst? $0.map(|node| node.idx) =>> $0.map(|node: &Node| -> (r: NodeIndex) ensures r == node.idx { node.idx })
//@subst? $0.filter(|idx| $1) =>> $0.filter(|idx: &NodeIndex| -> (r: bool) ensures r == (fold(graph.place(*idx)) == entry_subpath.key()) { $1 })
//@subst? $0.and_then(|idx| $1) =>> $0.and_then(|idx: NodeIndex| -> (r: Option<LockfileNode>) ensures r is Some <==> graph.ideal(idx) is Ok, r is Some ==> r->0 == graph.ideal(idx)->Ok_0 { $1 })
//@subst? $0.any(|c| $1) =>> $0.any(|c: Component| -> (r: bool) ensures c is Normal ==> r == (c == nm_name()) { $1 })
//@end
}
/// an entry of `node_modules`, or that itself, has a parent
pub proof fn lemma_entry(root: Seq<Component>, p: Seq<Component>)
    requires at_or_below(nm_of(root), p)
    ensures p.len() > root.len(), p.last() is Normal, has_parent(p), p.last() == nm_name() || p.len() > 1,
        p.len() > 1 ==> p.drop_last().last() == p[p.len() - 2],
        p.len() > 2 ==> p.drop_last().drop_last().last() == p[p.len() - 3],
{
    known_names();
    let nm = nm_of(root);
    if p == nm { assert(p.last() == nm_name()); }
    else { assert(p.skip(nm.len() as int)[p.len() - nm.len() - 1] == p.last()); }
}
/// pruning is done: nothing is where this package goes, or it is there as it should be
pub open spec fn ready(o: LinkerOptions, g: Graph, i: NodeIndex) -> bool {
    gone(dir_of(o.root.c(), g, i)) || (!unknown_hoisted(o) && (same_as_before(o.actual_tree, g, i) || g.ideal(i) is Err))
}
impl HoistedLinker {
//@fn crates/node-maintainer/src/linkers/hoisted.rs HoistedLinker::extract
    requires
        placed(*graph), forgotten(nm_of(self.opts.root.c())), may_mkdir(nm_of(self.opts.root.c())),
        forall|i: NodeIndex| graph.has_node(i) && i != graph.root ==> ready(self.opts, *graph, i),
        // C12, C14: each package only where it goes
        forall|i: NodeIndex| graph.has_node(i) && i != graph.root ==> may_extract(graph.node(i).package, #[trigger] dir_of(self.opts.root.c(), *graph, i)),
    ensures ret is Ok ==> forall|i: NodeIndex| graph.has_node(i) && i != graph.root ==> put(self.opts, *graph, i)
//@at body_start
    let ghost root0 = self.opts.root.c();
    proof {
        known_names();
        assert forall|d: Seq<Component>| true implies #[trigger] joined(d, path_of("node_modules"@)) == d.push(nm_name()) by { lemma_known(d); }
        assert forall|i: NodeIndex| graph.has_node(i) && i != graph.root implies joined(nm_of(root0), path_of(graph.place(i))) == #[trigger] dir_of(root0, *graph, i)
            && joined(dir_of(root0, *graph, i), path_of("package.json"@)) == dir_of(root0, *graph, i).push(json_name()) by { lemma_dir(root0, *graph, i); }
    }
//@at before if !target_dir.exists()
    assert(target_dir.c() == dir_of(root0, *graph, child_idx));
//@subst? std::time::Instant::now() =>> Instant::now()
//@subst? atomic::Ordering::SeqCst =>> Ordering::SeqCst
//@subst? Arc::new(AtomicUsize::new(0)) =>> AtomicUsize::vx_new(0)
//@subst? super::mkdirp =>> mkdirp
//@subst? super::supports_reflink =>> supports_reflink
//@subst? super::supports_hardlink =>> supports_hardlink
//@subst? futures::stream::iter($0) =>> $0
//@subst? on_extract($0) =>> {}
//@subst? self.opts.cache.as_deref() =>> self.opts.cache.as_ref()
//@subst graph.node_path($0).iter().map($1).collect::<Vec<_>>().join($2) =>> vx_place(graph.node_path($0), $2)
//@subst? async_std::task::spawn_blocking(move || $0).await? =>> { $0 }?
//@subst stream.map($1).try_for_each_concurrent($2, move |($3, $4)| async move $5).await? =>> vx_each(stream, $2, |$3: NodeIndex| -> (r: Result<(), NodeMaintainerError>) requires graph.has_node($3) ensures r is Ok && $3 != graph.root ==> put(self.opts, *graph, $3) $5)?
//@end
//@fn crates/node-maintainer/src/linkers/hoisted.rs HoistedLinker::package_dir
    requires placed(*graph), graph.has_node(idx), idx != graph.root
    ensures ret.0.c() == dir_of(self.opts.root.c(), *graph, idx), ret.1.c() == self.opts.root.c()
//@subst graph.node_path($0).iter().map($1).collect::<Vec<_>>().join($2) =>> vx_place(graph.node_path($0), $2)
//@at body_start
    proof { lemma_known(self.opts.root.c()); lemma_dir(self.opts.root.c(), *graph, idx); }
//@end
}
/// where the links of a package go is nothing, or one that is right
pub open spec fn settled(root: Seq<Component>, g: Graph, i: NodeIndex) -> bool {
    forall|j: NodeIndex| #[trigger] g.inner.depends(i, j) ==> bare(dep_entry(root, g, i, j)) || dep_ok(root, g, i, j)
}
/// pruning is done
pub open spec fn ready_isolated(o: LinkerOptions, g: Graph, i: NodeIndex) -> bool {
    gone(home(o.root.c(), g, i)) || (!unknown_isolated(o) && (same_as_before(o.actual_tree, g, i) || g.ideal(i) is Err) && settled(o.root.c(), g, i))
}
pub open spec fn put_isolated(o: LinkerOptions, g: Graph, i: NodeIndex) -> bool {
    let d = home(o.root.c(), g, i);
    ||| extracted(g.node(i).package, d) && (scripted(d) ==> pending(i))
    ||| !unknown_isolated(o) && (same_as_before(o.actual_tree, g, i) || g.ideal(i) is Err)
}
/// in a directory of links: it, or something in a scope in it
pub open spec fn chain(n: Seq<Component>, p: Seq<Component>) -> bool {
    below(n, p) && forall|k: int| n.len() <= k < p.len() - 1 ==> scope(#[trigger] p[k])
}
pub open spec fn is_dep(root: Seq<Component>, g: Graph, i: NodeIndex, p: Seq<Component>) -> bool {
    exists|j: NodeIndex| #[trigger] g.inner.depends(i, j) && p == dep_entry(root, g, i, j)
}
/// nothing (more) to do about what is here
pub open spec fn in_order(root: Seq<Component>, g: Graph, i: NodeIndex, p: Seq<Component>) -> bool {
    ||| bare(p)
    ||| (forall|j: NodeIndex| #[trigger] g.inner.depends(i, j) && p == dep_entry(root, g, i, j) ==> dep_ok(root, g, i, j))
        // no links to what is not a dependency (any more); in the project's own, nothing but links
        && (is_dep(root, g, i, p) || (kind_at(p) != 2 && (i != g.root || hidden(p.last()) || scope(p.last()))))
}
/// a link that does not lead where it should, or is nobody's
pub open spec fn wrong_entry(root: Seq<Component>, g: Graph, p: Seq<Component>) -> bool {
    exists|i: NodeIndex| #[trigger] g.has_node(i) && chain(own_nm(root, g, i), p) && wrong_for(root, g, i, p)
}
pub open spec fn wrong_for(root: Seq<Component>, g: Graph, i: NodeIndex, p: Seq<Component>) -> bool {
    if is_dep(root, g, i, p) {
        ||| kind_at(p) == 0
        ||| kind_at(p) == 1 && i == g.root
        ||| kind_at(p) == 2 && forall|j: NodeIndex| #[trigger] g.inner.depends(i, j) && p == dep_entry(root, g, i, j) ==> link_text(p) != way(home(root, g, j), p.drop_last())
    } else { kind_at(p) == 2 || (i == g.root && !hidden(p.last())) }
}
/// in the store, and of no package that stays
pub open spec fn stray(o: LinkerOptions, g: Graph, p: Seq<Component>) -> bool {
    &&& below(store_of(o.root.c()), p)
    &&& forall|i: NodeIndex| g.has_node(i) && i != g.root && same_as_before(o.actual_tree, g, i) && !gone(#[trigger] home(o.root.c(), g, i))
        ==> !is_ancestor(p, store_dir(o.root.c(), g, i)) && !is_ancestor(store_dir(o.root.c(), g, i), p)
}
/// of a package that stays
pub open spec fn covered(o: LinkerOptions, g: Graph, q: Seq<Component>) -> bool {
    exists|i: NodeIndex| g.has_node(i) && i != g.root && same_as_before(o.actual_tree, g, i) && is_ancestor(#[trigger] store_dir(o.root.c(), g, i), q)
}
/// nothing is here (any more) but what stays, or the directory of a scope
pub open spec fn clean(o: LinkerOptions, g: Graph, p: Seq<Component>) -> bool {
    forall|q: Seq<Component>| at_or_below(p, q) ==> #[trigger] gone(q) || covered(o, g, q) || (q == p && scope(p.last()))
}
pub open spec fn stays_at(o: LinkerOptions, g: Graph, i: NodeIndex, x: Seq<Component>) -> bool {
    i != g.root && same_as_before(o.actual_tree, g, i) && x == store_dir(o.root.c(), g, i)
}
/// this text, at this path, is the link to a dependency
pub open spec fn link_for(root: Seq<Component>, g: Graph, i: NodeIndex, j: NodeIndex, e: Seq<Component>, text: Seq<Component>) -> bool {
    &&& g.inner.depends(i, j) && e == dep_entry(root, g, i, j)
    &&& text == way(home(root, g, j), e.drop_last()) && leads(e, text) == home(root, g, j)
}
pub open spec fn links_ok(root: Seq<Component>, g: Graph, i: NodeIndex, m: Map<Seq<Component>, (Path, Path)>) -> bool {
    &&& forall|j: NodeIndex| #[trigger] g.inner.depends(i, j) ==> m.contains_key(dep_entry(root, g, i, j))
    &&& forall|e: Seq<Component>| #[trigger] m.contains_key(e) ==> exists|j: NodeIndex| link_for(root, g, i, j, e, m[e].0.c())
}
/// a directory of links, or a scope in it
pub open spec fn scope_dir(n: Seq<Component>, d: Seq<Component>) -> bool { d == n || (chain(n, d) && scope(d.last())) }
pub open spec fn to_come(all: Seq<Result<Entry, IoError>>, from: int, p: Seq<Component>) -> bool {
    exists|k: int| from <= k < all.len() && (all[k] is Err || at_or_below((#[trigger] all[k])->Ok_0.p(), p))
}
pub proof fn lemma_links(root: Seq<Component>, g: Graph, i: NodeIndex, m: Map<Seq<Component>, (Path, Path)>)
    requires
        forall|j: NodeIndex| #[trigger] g.inner.depends(i, j) ==> m.contains_key(dep_entry(root, g, i, j)),
        forall|e: Seq<Component>| #[trigger] m.contains_key(e) ==> exists|j: NodeIndex| link_for(root, g, i, j, e, m[e].0.c()),
    ensures links_ok(root, g, i, m)
{}
pub proof fn lemma_below_nm(root: Seq<Component>)
    ensures below(nm_of(root), store_of(root)), forall|q: Seq<Component>| below(store_of(root), q) ==> #[trigger] below(nm_of(root), q)
{
    known_names();
    let (nm, st) = (nm_of(root), store_of(root));
    assert(st.take(nm.len() as int) =~= nm);
    assert(st.skip(nm.len() as int) =~= seq![store_name()]);
    assert forall|q: Seq<Component>| below(st, q) implies #[trigger] below(nm, q) by { lemma_below(nm, st, q); }
}
pub proof fn lemma_below(a: Seq<Component>, b: Seq<Component>, c: Seq<Component>)
    requires below(a, b), below(b, c)
    ensures below(a, c)
{
    assert(c.take(a.len() as int) =~= c.take(b.len() as int).take(a.len() as int));
    let r = c.skip(a.len() as int);
    assert forall|k: int| 0 <= k < r.len() implies (#[trigger] r[k]) is Normal by {
        if k + a.len() < b.len() { assert(r[k] == c.take(b.len() as int)[k + a.len()]); assert(b.skip(a.len() as int)[k] is Normal); }
        else { assert(c.skip(b.len() as int)[k + a.len() - b.len()] is Normal); }
    }
}
pub open spec fn emptied(o: LinkerOptions, g: Graph) -> bool {
    &&& forall|i: NodeIndex| g.has_node(i) && i != g.root ==> ready_isolated(o, g, i)
    &&& settled(o.root.c(), g, g.root)
    &&& forall|p: Seq<Component>| chain(nm_of(o.root.c()), p) ==> #[trigger] in_order(o.root.c(), g, g.root, p)
    &&& forall|q: Seq<Component>| below(store_of(o.root.c()), q) ==> #[trigger] gone(q)
}
/// everything is gone
pub proof fn lemma_emptied(o: LinkerOptions, g: Graph)
    requires named(g), forall|q: Seq<Component>| below(nm_of(o.root.c()), q) ==> #[trigger] gone(q), forall|q: Seq<Component>| below(nm_of(o.root.c()), q) ==> #[trigger] bare(q)
    ensures emptied(o, g)
{
    let root = o.root.c();
    lemma_below_nm(root);
    assert forall|i: NodeIndex| g.has_node(i) && i != g.root implies ready_isolated(o, g, i) by { lemma_home(root, g, i); assert(gone(home(root, g, i))); }
    assert forall|j: NodeIndex| #[trigger] g.inner.depends(g.root, j) implies bare(dep_entry(root, g, g.root, j)) by { lemma_entry_below(own_nm(root, g, g.root), g, j); }
}
pub proof fn lemma_wiped(o: LinkerOptions, g: Graph, all: Seq<Result<Entry, IoError>>)
    requires named(g),
        forall|k: int| 0 <= k < all.len() ==> (#[trigger] all[k]) is Ok && gone_from(all[k]->Ok_0.p()),
        forall|q: Seq<Component>| below(nm_of(o.root.c()), q) && !(#[trigger] gone(q)) ==> exists|k: int| 0 <= k < all.len() && (all[k] is Err || at_or_below((#[trigger] all[k])->Ok_0.p(), q)),
        forall|q: Seq<Component>| below(nm_of(o.root.c()), q) && !(#[trigger] bare(q)) ==> exists|k: int| 0 <= k < all.len() && (all[k] is Err || at_or_below((#[trigger] all[k])->Ok_0.p(), q)),
    ensures emptied(o, g)
{
    assert forall|q: Seq<Component>| below(nm_of(o.root.c()), q) implies #[trigger] gone(q) by {}
    assert forall|q: Seq<Component>| below(nm_of(o.root.c()), q) implies #[trigger] bare(q) by {}
    lemma_emptied(o, g);
}
/// where a dependency is linked is in a directory of links
pub proof fn lemma_dep_chain(root: Seq<Component>, g: Graph, i: NodeIndex, j: NodeIndex)
    requires named(g), g.inner.depends(i, j)
    ensures chain(own_nm(root, g, i), dep_entry(root, g, i, j)), !scope(dep_entry(root, g, i, j).last())
{
    let (n, p) = (own_nm(root, g, i), path_of(g.node(j).name.t()));
    lemma_entry_below(n, g, j);
    assert((n + p).last() == p.last());
    assert forall|k: int| n.len() <= k < (n + p).len() - 1 implies scope(#[trigger] (n + p)[k]) by { assert((n + p)[k] == p[k - n.len()]); }
}
pub open spec fn ordered(root: Seq<Component>, g: Graph, i: NodeIndex) -> bool { forall|p: Seq<Component>| #[trigger] chain(own_nm(root, g, i), p) ==> in_order(root, g, i, p) }
/// one entry of a directory of links
pub open spec fn entry_facts(root: Seq<Component>, g: Graph, i: NodeIndex, m: Map<Seq<Component>, (Path, Path)>, e: Seq<Component>) -> bool {
    &&& chain(own_nm(root, g, i), e) && below(nm_of(root), e) && e.last() is Normal
    &&& m.contains_key(e) <==> is_dep(root, g, i, e)
    &&& forall|j: NodeIndex| #[trigger] g.inner.depends(i, j) && e == dep_entry(root, g, i, j) ==> link_for(root, g, i, j, e, m[e].0.c())
    &&& is_dep(root, g, i, e) ==> !scope(e.last())
    &&& forall|p: Seq<Component>| below(e, p) && #[trigger] chain(own_nm(root, g, i), p) ==> scope(e.last())
    &&& scope(e.last()) ==> scope_dir(own_nm(root, g, i), e)
}
pub proof fn lemma_one(root: Seq<Component>, g: Graph, i: NodeIndex, m: Map<Seq<Component>, (Path, Path)>, d: Seq<Component>, e: Seq<Component>)
    requires named(g), g.has_node(i), links_ok(root, g, i, m), scope_dir(own_nm(root, g, i), d), below(d, e), e.len() == d.len() + 1
    ensures entry_facts(root, g, i, m, e)
{
    let n = own_nm(root, g, i);
    known_names();
    assert(e =~= e.take(d.len() as int).push(e.last()));
    assert(e.skip(d.len() as int)[0] == e.last());
    if d != n { lemma_below(n, d, e); }
    assert forall|k: int| n.len() <= k < e.len() - 1 implies scope(#[trigger] e[k]) by { assert(e[k] == e.take(d.len() as int)[k]); if k < d.len() - 1 { assert(scope(d[k])); } }
    if i != g.root {
        lemma_home(root, g, i);
        let h = home(root, g, i);
        assert(n.take(h.len() as int) =~= h);
        assert(n.skip(h.len() as int) =~= seq![nm_name()]);
        lemma_below(nm_of(root), h, n);
        lemma_below(nm_of(root), n, e);
    }
    if m.contains_key(e) {
        let j0 = choose|j: NodeIndex| link_for(root, g, i, j, e, m[e].0.c());
        assert(g.inner.depends(i, j0));
        assert forall|j: NodeIndex| #[trigger] g.inner.depends(i, j) && e == dep_entry(root, g, i, j) implies link_for(root, g, i, j, e, m[e].0.c()) by {
            let (a, b) = (path_of(g.node(j).name.t()), path_of(g.node(j0).name.t()));
            assert(a =~= (n + a).skip(n.len() as int));
            assert(b =~= (n + b).skip(n.len() as int));
            assert(g.inner.depends(i, j0));
            assert(j == j0);
        }
    }
    if is_dep(root, g, i, e) {
        let j = choose|j: NodeIndex| #[trigger] g.inner.depends(i, j) && e == dep_entry(root, g, i, j);
        assert(m.contains_key(dep_entry(root, g, i, j)));
        lemma_dep_chain(root, g, i, j);
    }
    assert forall|p: Seq<Component>| below(e, p) && #[trigger] chain(n, p) implies scope(e.last()) by { assert(p.take(e.len() as int)[e.len() - 1] == p[e.len() - 1]); assert(scope(p[e.len() - 1])); }
}
/// what is kept in the store
pub open spec fn exp_ok(o: LinkerOptions, g: Graph, s: Set<Seq<Component>>) -> bool {
    forall|x: Seq<Component>| #[trigger] s.contains(x) <==> exists|i: NodeIndex| g.has_node(i) && #[trigger] stays_at(o, g, i, x)
}
/// nothing is here (any more) but what stays
pub open spec fn tidy(o: LinkerOptions, g: Graph, p: Seq<Component>) -> bool { forall|q: Seq<Component>| at_or_below(p, q) ==> #[trigger] gone(q) || covered(o, g, q) }
pub open spec fn store_facts(o: LinkerOptions, g: Graph, s: Set<Seq<Component>>, e: Seq<Component>) -> bool {
    &&& below(nm_of(o.root.c()), e) && e.len() > 0 && e.last() is Normal
    &&& s.contains(e) ==> clean(o, g, e)
    &&& !s.contains(e) && (!scope(e.last()) || hollow(e)) ==> stray(o, g, e)
}
pub proof fn lemma_kept(o: LinkerOptions, g: Graph, s: Set<Seq<Component>>, e: Seq<Component>)
    requires exp_ok(o, g, s), s.contains(e)
    ensures tidy(o, g, e), clean(o, g, e)
{
    let i = choose|i: NodeIndex| g.has_node(i) && #[trigger] stays_at(o, g, i, e);
    assert forall|q: Seq<Component>| at_or_below(e, q) implies covered(o, g, q) by {
        assert(e.take(e.len() as int) =~= e);
        assert(is_ancestor(store_dir(o.root.c(), g, i), q));
    }
}
pub proof fn lemma_stored(o: LinkerOptions, g: Graph, s: Set<Seq<Component>>, e: Seq<Component>)
    requires named(g), exp_ok(o, g, s), below(store_of(o.root.c()), e), e.len() == store_of(o.root.c()).len() + 1
    ensures store_facts(o, g, s, e)
{
    let (root, st) = (o.root.c(), store_of(o.root.c()));
    lemma_below_nm(root);
    assert(e =~= st.push(e.last()));
    assert(e.skip(st.len() as int)[0] == e.last());
    if s.contains(e) { lemma_kept(o, g, s, e); }
    if !s.contains(e) && (!scope(e.last()) || hollow(e)) {
        assert forall|i: NodeIndex| g.has_node(i) && i != g.root && same_as_before(o.actual_tree, g, i) && !gone(#[trigger] home(o.root.c(), g, i))
            implies !is_ancestor(e, store_dir(o.root.c(), g, i)) && !is_ancestor(store_dir(o.root.c(), g, i), e) by {
            let d = path_of(g.dir_name(i));
            let x = store_dir(root, g, i);
            lemma_home(root, g, i);
            assert(stays_at(o, g, i, x) && s.contains(x));
            if is_ancestor(x, e) { assert(x.len() == e.len()); assert(e.take(x.len() as int) =~= e); }
            if is_ancestor(e, x) {
                assert(x[st.len() as int] == x.take(e.len() as int)[st.len() as int]);
                assert(x[st.len() as int] == d[0]);
                if d.len() == 1 { assert(x.take(e.len() as int) =~= x); }
                else {
                    assert(scope(e.last()));
                    let h = home(root, g, i);
                    assert(h.take(e.len() as int) =~= x.take(e.len() as int));
                    let r = h.skip(e.len() as int);
                    let hh = h.skip(nm_of(root).len() as int);
                    assert forall|k: int| 0 <= k < r.len() implies (#[trigger] r[k]) is Normal by { assert(r[k] == hh[k + 2]); }
                    assert(below(e, h));
                }
            }
        }
    }
}
pub proof fn lemma_stored_scoped(o: LinkerOptions, g: Graph, s: Set<Seq<Component>>, d: Seq<Component>, e: Seq<Component>)
    requires named(g), exp_ok(o, g, s), below(store_of(o.root.c()), d), d.len() == store_of(o.root.c()).len() + 1, scope(d.last()), below(d, e), e.len() == d.len() + 1
    ensures below(nm_of(o.root.c()), e), s.contains(e) ==> tidy(o, g, e), !s.contains(e) ==> stray(o, g, e)
{
    let (root, st) = (o.root.c(), store_of(o.root.c()));
    lemma_below_nm(root);
    lemma_below(st, d, e);
    if s.contains(e) { lemma_kept(o, g, s, e); }
    else {
        assert forall|i: NodeIndex| g.has_node(i) && i != g.root && same_as_before(o.actual_tree, g, i) && !gone(#[trigger] home(o.root.c(), g, i))
            implies !is_ancestor(e, store_dir(o.root.c(), g, i)) && !is_ancestor(store_dir(o.root.c(), g, i), e) by {
            let n = path_of(g.dir_name(i));
            let x = store_dir(root, g, i);
            assert(stays_at(o, g, i, x));
            assert(s.contains(x));
            if is_ancestor(e, x) { assert(x.take(e.len() as int) =~= x); }
            if is_ancestor(x, e) {
                if n.len() == 2 { assert(e.take(x.len() as int) =~= e); }
                else {
                    assert(x.last() == n[0]);
                    assert(e.take(x.len() as int)[st.len() as int] == e[st.len() as int]);
                    assert(e.take(d.len() as int)[st.len() as int] == d.last());
                }
            }
        }
    }
}
pub proof fn lemma_cover(root: Seq<Component>, g: Graph, i: NodeIndex, j: NodeIndex)
    requires named(g), g.has_node(i), g.has_node(j), i != g.root, j != g.root, is_ancestor(store_dir(root, g, j), home(root, g, i))
    ensures i == j
{
    let (a, d, h) = (path_of(g.dir_name(j)), path_of(g.dir_name(i)), home(root, g, i));
    let st = store_of(root);
    let x = store_dir(root, g, j);
    assert forall|k: int| 0 <= k < a.len() && k < d.len() implies a[k] == d[k] by {
        assert(x[k + st.len()] == a[k]);
        assert(h.take(x.len() as int)[k + st.len()] == h[k + st.len()]);
        assert(h[k + st.len()] == d[k]);
    }
    if a.len() <= d.len() { assert(d.take(a.len() as int) =~= a); assert(is_ancestor(a, d)); }
    else { assert(a.take(d.len() as int) =~= d); assert(is_ancestor(d, a)); }
}
pub proof fn lemma_pruned(o: LinkerOptions, g: Graph, all: Seq<Result<Entry, IoError>>)
    requires named(g), !unknown_isolated(o),
        forall|k: int| 0 <= k < all.len() ==> (#[trigger] all[k]) is Ok && clean(o, g, all[k]->Ok_0.p()) && all[k]->Ok_0.p().len() == store_of(o.root.c()).len() + 1,
        forall|q: Seq<Component>| below(store_of(o.root.c()), q) && !(#[trigger] gone(q)) ==> exists|k: int| 0 <= k < all.len() && (all[k] is Err || at_or_below((#[trigger] all[k])->Ok_0.p(), q)),
        forall|i: NodeIndex, p: Seq<Component>| g.has_node(i) && #[trigger] chain(own_nm(o.root.c(), g, i), p) ==> in_order(o.root.c(), g, i, p),
    ensures
        forall|i: NodeIndex| g.has_node(i) && i != g.root ==> ready_isolated(o, g, i),
        settled(o.root.c(), g, g.root),
        forall|q: Seq<Component>| below(store_of(o.root.c()), q) ==> #[trigger] gone(q) || covered(o, g, q) || (q.len() == o.root.c().len() + 3 && scope(q.last())),
{
    let root = o.root.c();
    assert forall|i: NodeIndex, j: NodeIndex| #[trigger] g.inner.depends(i, j) implies bare(dep_entry(root, g, i, j)) || dep_ok(root, g, i, j) by {
        lemma_dep_chain(root, g, i, j);
        assert(in_order(root, g, i, dep_entry(root, g, i, j)));
    }
    assert forall|q: Seq<Component>| below(store_of(root), q) implies #[trigger] gone(q) || covered(o, g, q) || (q.len() == root.len() + 3 && scope(q.last())) by {}
    assert forall|i: NodeIndex| g.has_node(i) && i != g.root implies ready_isolated(o, g, i) by {
        let h = home(root, g, i);
        lemma_home(root, g, i);
        lemma_store_home(root, g, i);
        if !gone(h) {
            assert(covered(o, g, h));
            let j = choose|j: NodeIndex| g.has_node(j) && j != g.root && same_as_before(o.actual_tree, g, j) && is_ancestor(#[trigger] store_dir(root, g, j), h);
            lemma_cover(root, g, i, j);
        }
    }
}
pub proof fn lemma_store_home(root: Seq<Component>, g: Graph, i: NodeIndex)
    requires named(g), g.has_node(i), i != g.root
    ensures below(store_of(root), home(root, g, i)), home(root, g, i).len() > store_of(root).len() + 2
{
    lemma_home(root, g, i);
    let (st, h) = (store_of(root), home(root, g, i));
    assert(h.take(st.len() as int) =~= st);
    let hh = h.skip(nm_of(root).len() as int);
    assert forall|k: int| 0 <= k < h.skip(st.len() as int).len() implies (#[trigger] h.skip(st.len() as int)[k]) is Normal by { assert(h.skip(st.len() as int)[k] == hh[k + 1]); }
}
pub open spec fn may_link_up(root: Seq<Component>, g: Graph, i: NodeIndex) -> bool {
    &&& forall|j: NodeIndex| #[trigger] g.inner.depends(i, j) ==> may_link(home(root, g, j), dep_entry(root, g, i, j)) && may_mkdir(dep_entry(root, g, i, j).drop_last())
}
impl IsolatedLinker {
//@fn crates/node-maintainer/src/linkers/isolated.rs IsolatedLinker::prune
    requires
        named(*graph),
        may_remove(nm_of(self.opts.root.c()).push(meta_name())),
        // C12, C14, C18: only below node_modules, only what is not wanted, and only once the record is gone
        forall|p: Seq<Component>| below(nm_of(self.opts.root.c()), p) && forgotten(nm_of(self.opts.root.c()))
            && (unknown_isolated(self.opts) || stray(self.opts, *graph, p) || wrong_entry(self.opts.root.c(), *graph, p)) ==> #[trigger] may_remove(p),
    ensures ret is Ok ==> {
        &&& forgotten(nm_of(self.opts.root.c()))
        // C12: what is left of the tree is as it should be
        &&& forall|i: NodeIndex| graph.has_node(i) && i != graph.root ==> ready_isolated(self.opts, *graph, i)
        &&& settled(self.opts.root.c(), *graph, graph.root)
        // and nothing else is there
        &&& forall|p: Seq<Component>| chain(nm_of(self.opts.root.c()), p) ==> #[trigger] in_order(self.opts.root.c(), *graph, graph.root, p)
        &&& forall|q: Seq<Component>| below(store_of(self.opts.root.c()), q) ==> #[trigger] gone(q) || covered(self.opts, *graph, q) || (q.len() == self.opts.root.c().len() + 3 && scope(q.last()))
    }
//@attr #[verifier::exec_allows_no_decreases_clause]
//@subst? std::time::Instant::now() =>> Instant::now()
//@subst? async_std::fs::remove_dir_all =>> fs::remove_dir_all
//@subst? async_std::fs::remove_file =>> fs::remove_file
//@subst? async_std::fs::read_dir =>> fs::read_dir
//@subst? async_std::path::Path::new =>> Path::new
//@subst? async_std::path::PathBuf::from =>> PathBuf::from
//@subst? super::remove_meta =>> remove_meta
//@subst? pathdiff::diff_paths =>> vx_diff
//@subst? atomic::Ordering::SeqCst =>> Ordering::SeqCst
//@subst? Arc::new(AtomicUsize::new(0)) =>> AtomicUsize::vx_new(0)
//@subst? &**graph[$0].name =>> graph[$0].name.to_string()
//@subst? let dep_name: &str = &graph[$0].name; =>> let vx_name = graph[$0].name.to_string(); let dep_name: &String = &vx_name;
//@subst? let expected_mut = &mut expected; =>> {}
//@subst? let mut expected_deps = HashMap::new(); =>> let mut expected_deps: HashMap<Path, (Path, Path)> = HashMap::new();
//@subst? let mut expected = HashSet::new(); =>> let mut expected: HashSet<Path> = HashSet::new();
//@subst? expected_mut.insert($0) =>> expected.insert($0)
//@subst? $0.contains::<std::path::PathBuf>(&$1.into()) =>> $0.contains(&$1)
//@subst? $0.and_then(|tree| $1) =>> $0.and_then(|tree: &Lockfile| -> (r: Option<&LockfileNode>) ensures r is Some <==> tree.packages.m().contains_key(fold(graph.place(idx))), r is Some ==> *r->0 == tree.packages.m()[fold(graph.place(idx))] { $1 })
//@at body_start
    let ghost root0 = self.opts.root.c();
    let ghost opts = self.opts;
    let ghost g = *graph;
    let ghost nm = nm_of(root0);
    let ghost st = store_of(root0);
    proof {
        known_names();
        assert forall|d: Seq<Component>| true implies #[trigger] joined(d, path_of("node_modules"@)) == d.push(nm_name()) by { lemma_known(d); }
        assert forall|d: Seq<Component>| true implies #[trigger] joined(d, path_of(STORE_DIR_NAME@)) == d.push(store_name()) by { lemma_known(d); }
        assert forall|i: NodeIndex| graph.has_node(i) && i != graph.root implies #[trigger] home_facts(root0, *graph, i) by { lemma_home(root0, *graph, i); }
        lemma_below_nm(root0);
    }
//@at loop 0 before
    let ghost all = entries.all();
//@loop 0
    invariant forgotten(nm), 0 <= entries.pos() <= entries.all().len(), entries.all() == all,
        forall|k: int| 0 <= k < entries.pos() ==> (#[trigger] all[k]) is Ok && gone_from(all[k]->Ok_0.p())
//@at loop 0 after
    proof { lemma_wiped(opts, g, all); }
//@at before return Ok(0);
    proof { if nothing_in(nm) { lemma_emptied(opts, g); } }
//@loop 1
    invariant 0 <= $it.pos() <= $it.all().len(),
        forall|k: int| 0 <= k < $it.all().len() ==> graph.inner.depends(idx, (#[trigger] $it.all()[k]).dst()),
        forall|j: NodeIndex| #[trigger] graph.inner.depends(idx, j) ==> exists|k: int| 0 <= k < $it.all().len() && (#[trigger] $it.all()[k]).dst() == j,
        forall|k: int| 0 <= k < $it.pos() ==> expected_deps.m().contains_key(dep_entry(root0, g, idx, (#[trigger] $it.all()[k]).dst())),
        forall|e: Seq<Component>| #[trigger] expected_deps.m().contains_key(e) ==> exists|j: NodeIndex| link_for(root0, g, idx, j, e, expected_deps.m()[e].0.c()),
//@at loop 1 body_start
    let ghost hadm = expected_deps.m();
    proof {
        assert(graph.inner.depends(idx, edge.dst()));
        assert(home_facts(root0, *graph, edge.dst()));
        lemma_dep(root0, *graph, own_nm(root0, *graph, idx), edge.dst());
    }
//@at loop 1 body_end
    assert(link_for(root0, g, idx, edge.dst(), dep_entry(root0, g, idx, edge.dst()), expected_deps.m()[dep_entry(root0, g, idx, edge.dst())].0.c()));
    proof {
        let de = dep_entry(root0, g, idx, edge.dst());
        assert forall|e: Seq<Component>| #[trigger] expected_deps.m().contains_key(e) implies exists|j: NodeIndex| link_for(root0, g, idx, j, e, expected_deps.m()[e].0.c()) by {
            if e != de { assert(hadm.contains_key(e)); let j = choose|j: NodeIndex| link_for(root0, g, idx, j, e, hadm[e].0.c()); assert(link_for(root0, g, idx, j, e, expected_deps.m()[e].0.c())); }
        }
    }
//@at loop 2 before
    let ghost own = own_nm(root0, g, idx);
    assert(pkg_nm.c() == own);
    let ghost mut work = dirs@;
    proof {
        lemma_links(root0, g, idx, expected_deps.m());
        assert forall|p: Seq<Component>| #[trigger] chain(own, p) implies exists|d: int| 0 <= d < dirs@.len() && below((#[trigger] dirs@[d]).c(), p) by { assert(below(dirs@[0].c(), p)); }
    }
//@loop 2
    invariant
        work == dirs@,
        links_ok(root0, g, idx, expected_deps.m()),
        forall|d: int| 0 <= d < dirs@.len() ==> scope_dir(own, (#[trigger] dirs@[d]).c()),
        forall|p: Seq<Component>| #[trigger] chain(own, p) ==> in_order(root0, g, idx, p) || exists|d: int| 0 <= d < dirs@.len() && below((#[trigger] dirs@[d]).c(), p),
//@loop 3
    invariant
        links_ok(root0, g, idx, expected_deps.m()),
        scope_dir(own, dir.c()), entries.all() == inner, 0 <= entries.pos() <= inner.len(),
        forall|k: int| 0 <= k < inner.len() && (#[trigger] inner[k]) is Ok ==> inner[k]->Ok_0.p().len() == dir.c().len() + 1 && below(dir.c(), inner[k]->Ok_0.p()),
        forall|d: int| 0 <= d < dirs@.len() ==> scope_dir(own, (#[trigger] dirs@[d]).c()),
        forall|p: Seq<Component>| #[trigger] chain(own, p) ==> in_order(root0, g, idx, p)
            || (exists|d: int| 0 <= d < dirs@.len() && below((#[trigger] dirs@[d]).c(), p))
            || to_come(inner, entries.pos(), p),
//@at loop 3 before
    let ghost inner = entries.all();
    proof {
        assert(dirs@ =~= work.drop_last());
        assert forall|p: Seq<Component>| #[trigger] chain(own, p) implies in_order(root0, g, idx, p) || (exists|d: int| 0 <= d < dirs@.len() && below((#[trigger] dirs@[d]).c(), p)) || to_come(inner, entries.pos(), p) by {
            if !in_order(root0, g, idx, p) {
                let d = choose|d: int| 0 <= d < work.len() && below((#[trigger] work[d]).c(), p);
                if d < dirs@.len() { assert(below(dirs@[d].c(), p)); } else { assert(below(dir.c(), p)); }
            }
        }
    }
//@at loop 2 body_end
    proof { work = dirs@; }
//@at after let file_name = entry.file_name()
    let ghost e = path.c();
    let ghost had = dirs@;
    proof { lemma_one(root0, g, idx, expected_deps.m(), dir.c(), e); }
//@at loop 3 body_end
    proof {
        assert(in_order(root0, g, idx, e));
        assert forall|p: Seq<Component>| #[trigger] chain(own, p) implies in_order(root0, g, idx, p) || (exists|d: int| 0 <= d < dirs@.len() && below((#[trigger] dirs@[d]).c(), p)) || to_come(inner, entries.pos(), p) by {
            if !in_order(root0, g, idx, p) {
                if exists|d: int| 0 <= d < had.len() && below((#[trigger] had[d]).c(), p) {
                    let d = choose|d: int| 0 <= d < had.len() && below((#[trigger] had[d]).c(), p);
                    assert(below(dirs@[d].c(), p));
                } else if at_or_below(e, p) {
                    assert(below(e, p));
                    assert(below(dirs@[dirs@.len() - 1].c(), p));
                } else {
                    let k = choose|k: int| entries.pos() - 1 <= k < inner.len() && (inner[k] is Err || at_or_below((#[trigger] inner[k])->Ok_0.p(), p));
                    assert(inner[k] is Err || at_or_below(inner[k]->Ok_0.p(), p));
                }
            }
        }
    }
//@at before if !expected_ref.contains(path)
    let ghost e = path.c();
    proof { lemma_stored(opts, g, expected.s(), e); }
//@at loop 4 before
    let ghost scoped = iter.all();
//@loop 4
    invariant iter.all() == scoped, 0 <= iter.pos() <= scoped.len(),
        forall|k: int| 0 <= k < scoped.len() && (#[trigger] scoped[k]) is Ok ==> scoped[k]->Ok_0.p().len() == e.len() + 1 && below(e, scoped[k]->Ok_0.p()),
        forall|k: int| 0 <= k < iter.pos() ==> (#[trigger] scoped[k]) is Ok && tidy(opts, g, scoped[k]->Ok_0.p()),
//@at before if !expected_ref.contains::<std::path::PathBuf>(&next.path().into())
    proof { lemma_stored_scoped(opts, g, expected.s(), e, next.p()); }
//@at loop 4 after
    proof {
        assert forall|q: Seq<Component>| at_or_below(e, q) implies #[trigger] gone(q) || covered(opts, g, q) || (q == e && scope(e.last())) by {
            if !gone(q) && q != e {
                let k = choose|k: int| 0 <= k < scoped.len() && (scoped[k] is Err || at_or_below((#[trigger] scoped[k])->Ok_0.p(), q));
                assert(tidy(opts, g, scoped[k]->Ok_0.p()));
            }
        }
        assert(clean(opts, g, e));
    }
//@subst let indices = graph.inner.node_indices().map(move |idx| $0); =>> let mut vx_members: Vec<NodeIndex> = Vec::new(); let mut vx_nodes = graph.inner.node_indices(); let ghost every = vx_nodes.all(); while let Some(idx) = vx_nodes.next() invariant 0 <= vx_nodes.pos() <= every.len(), vx_nodes.all() == every, forall|k: int| 0 <= k < every.len() ==> graph.has_node(#[trigger] every[k]), forall|i: NodeIndex| graph.has_node(i) ==> #[trigger] every.contains(i), vx_members@ == every.take(vx_nodes.pos()), forall|x: Seq<Component>| #[trigger] expected.s().contains(x) <==> exists|k: int| 0 <= k < vx_nodes.pos() && stays_at(opts, g, #[trigger] every[k], x) { let ghost was = vx_nodes.pos() - 1; let ghost had = expected.s(); proof { if idx != graph.root { assert(home_facts(root0, *graph, idx)); } } let vx_i = $0; vx_members.push(vx_i); proof { assert(every.take(was + 1) =~= every.take(was).push(every[was])); assert forall|x: Seq<Component>| #[trigger] expected.s().contains(x) <==> exists|k: int| 0 <= k < was + 1 && stays_at(opts, g, #[trigger] every[k], x) by { assert(expected.s().contains(x) <==> had.contains(x) || stays_at(opts, g, every[was], x)); if had.contains(x) { let k = choose|k: int| 0 <= k < was && stays_at(opts, g, #[trigger] every[k], x); assert(stays_at(opts, g, every[k], x)); } } } } proof { assert(every.take(every.len() as int) =~= every); assert forall|x: Seq<Component>| #[trigger] expected.s().contains(x) <==> exists|i: NodeIndex| graph.has_node(i) && #[trigger] stays_at(opts, g, i, x) by { if expected.s().contains(x) { let k = choose|k: int| 0 <= k < every.len() && stays_at(opts, g, #[trigger] every[k], x); assert(stays_at(opts, g, every[k], x)); } if exists|i: NodeIndex| graph.has_node(i) && #[trigger] stays_at(opts, g, i, x) { let i = choose|i: NodeIndex| graph.has_node(i) && #[trigger] stays_at(opts, g, i, x); assert(every.contains(i)); let k = choose|k: int| 0 <= k < every.len() && every[k] == i; assert(stays_at(opts, g, every[k], x)); } } } proof { assert(exp_ok(opts, g, expected.s())); } let indices = vx_iter(vx_members);
//@subst futures::stream::iter(indices).map(Ok).try_for_each_concurrent($0, move |idx| async move $1).await? =>> { let ghost members = indices.all(); let vx_r = vx_each(indices, $0, |idx: NodeIndex| -> (r: Result<(), NodeMaintainerError>) requires graph.has_node(idx) ensures r is Ok ==> ordered(root0, g, idx) $1)?; proof { assert forall|i: NodeIndex, p: Seq<Component>| graph.has_node(i) && #[trigger] chain(own_nm(root0, g, i), p) implies in_order(root0, g, i, p) by { assert(every.contains(i)); let k = choose|k: int| 0 <= k < every.len() && every[k] == i; assert(members == every); assert(ordered(root0, g, members[k])); } assert forall|p: Seq<Component>| chain(nm, p) implies #[trigger] in_order(root0, g, g.root, p) by { assert(chain(own_nm(root0, g, g.root), p)); } } vx_r }
//@subst async_std::fs::read_dir(&store).await.io_context(|| $0)?.map(|entry| $1).try_for_each_concurrent($2, move |(entry, pruned)| async move $3).await? =>> { let vx_dir = fs::read_dir(&store).io_context(|| $0)?; let ghost stored = vx_dir.all(); let vx_r = vx_each(vx_dir, $2, |entry: Result<Entry, IoError>| -> (r: Result<(), NodeMaintainerError>) requires entry is Ok ==> entry->Ok_0.p().len() == st.len() + 1 && below(st, entry->Ok_0.p()) ensures r is Ok ==> entry is Ok && clean(opts, g, entry->Ok_0.p()) $3)?; proof { lemma_pruned(opts, g, stored); } vx_r }
//@end
//@fn crates/node-maintainer/src/linkers/isolated.rs IsolatedLinker::extract
    requires
        named(*graph), forgotten(nm_of(self.opts.root.c())), may_mkdir(nm_of(self.opts.root.c())),
        forall|i: NodeIndex| graph.has_node(i) && i != graph.root ==> ready_isolated(self.opts, *graph, i),
        settled(self.opts.root.c(), *graph, graph.root),
        // C12, C14: each package only where it goes, links only to what they are for
        forall|i: NodeIndex| graph.has_node(i) && i != graph.root ==> may_extract(graph.node(i).package, #[trigger] home(self.opts.root.c(), *graph, i)),
        forall|i: NodeIndex| graph.has_node(i) ==> #[trigger] may_link_up(self.opts.root.c(), *graph, i),
    ensures ret is Ok ==> {
        &&& forall|i: NodeIndex| graph.has_node(i) && i != graph.root ==> put_isolated(self.opts, *graph, i)
        &&& forall|i: NodeIndex| graph.has_node(i) ==> linked_up(self.opts.root.c(), *graph, i)
    }
//@at body_start
    let ghost root0 = self.opts.root.c();
    proof {
        known_names();
        assert forall|d: Seq<Component>| true implies #[trigger] joined(d, path_of("node_modules"@)) == d.push(nm_name()) by { lemma_known(d); }
        assert forall|d: Seq<Component>| true implies #[trigger] joined(d, path_of(STORE_DIR_NAME@)) == d.push(store_name()) by { lemma_known(d); }
        assert forall|i: NodeIndex| graph.has_node(i) && i != graph.root implies home_facts(root0, *graph, i) by { lemma_home(root0, *graph, i); }
    }
//@at before if !target_dir.exists()
    assert(home_facts(root0, *graph, child_idx));
    assert(target_dir.c() == home(root0, *graph, child_idx));
    assert(ready_isolated(self.opts, *graph, child_idx));
    assert(may_link_up(root0, *graph, child_idx));
    proof { assert forall|j: NodeIndex| #[trigger] graph.inner.depends(child_idx, j) implies below(own_nm(root0, *graph, child_idx), dep_entry(root0, *graph, child_idx, j)) by { lemma_entry_below(own_nm(root0, *graph, child_idx), *graph, j); } }
//@at before self.link_deps(graph, child_idx, store_ref, &root.join("node_modules"))
    assert(may_link_up(root0, *graph, child_idx));
//@subst? std::time::Instant::now() =>> Instant::now()
//@subst? atomic::Ordering::SeqCst =>> Ordering::SeqCst
//@subst? Arc::new(AtomicUsize::new(0)) =>> AtomicUsize::vx_new(0)
//@subst? super::mkdirp =>> mkdirp
//@subst? super::supports_reflink =>> supports_reflink
//@subst? super::supports_hardlink =>> supports_hardlink
//@subst? futures::stream::iter($0) =>> $0
//@subst? on_extract($0) =>> {}
//@subst? self.opts.cache.as_deref() =>> self.opts.cache.as_ref()
//@subst? &**graph[$0].name =>> graph[$0].name.to_string()
//@subst? async_std::task::spawn_blocking(move || $0).await? =>> { $0 }?
//@subst stream.map($1).try_for_each_concurrent($2, move |($3, $4)| async move $5).await? =>> vx_each(stream, $2, |$3: NodeIndex| -> (r: Result<(), NodeMaintainerError>) requires graph.has_node($3) ensures r is Ok ==> linked_up(root0, *graph, $3) && ($3 != graph.root ==> put_isolated(self.opts, *graph, $3)) $5)?
//@end
//@fn crates/node-maintainer/src/linkers/isolated.rs IsolatedLinker::link_deps
    requires
        named(*graph), graph.has_node(node), store_ref.c() == store_of(self.opts.root.c()), target_nm.c() == own_nm(self.opts.root.c(), *graph, node),
        settled(self.opts.root.c(), *graph, node), may_link_up(self.opts.root.c(), *graph, node),
    ensures ret is Ok ==> linked_up(self.opts.root.c(), *graph, node)
//@attr #[verifier::exec_allows_no_decreases_clause]
//@at body_start
    let ghost root0 = self.opts.root.c();
    proof {
        assert forall|d: Seq<Component>| true implies #[trigger] joined(d, path_of("node_modules"@)) == d.push(nm_name()) by { lemma_known(d); }
        assert forall|i: NodeIndex| graph.has_node(i) && i != graph.root implies #[trigger] home_facts(root0, *graph, i) by { lemma_home(root0, *graph, i); }
    }
//@loop 0
    invariant 0 <= $it.pos() <= $it.all().len(),
        forall|k: int| 0 <= k < $it.all().len() ==> graph.inner.depends(node, (#[trigger] $it.all()[k]).dst()),
        forall|k: int| 0 <= k < $it.pos() ==> dep_ok(root0, *graph, node, (#[trigger] $it.all()[k]).dst()),
        forall|j: NodeIndex| #[trigger] graph.inner.depends(node, j) ==> exists|k: int| 0 <= k < $it.all().len() && (#[trigger] $it.all()[k]).dst() == j,
//@at loop 0 body_start
    proof {
        assert(graph.inner.depends(node, edge.dst()));
        assert(home_facts(root0, *graph, edge.dst()));
        lemma_dep(root0, *graph, own_nm(root0, *graph, node), edge.dst());
    }
//@subst? std::os::unix::fs::symlink =>> std_fs::symlink
//@subst? pathdiff::diff_paths =>> vx_diff
//@subst? super::mkdirp =>> mkdirp
//@subst? let dep_name: &str = &graph[$0].name; =>> let vx_name = graph[$0].name.to_string(); let dep_name: &String = &vx_name;
//@subst? async_std::task::spawn_blocking(move || $0).await? =>> { $0 }?
//@end
//@fn crates/node-maintainer/src/linkers/isolated.rs IsolatedLinker::package_dir
    requires named(*graph), graph.has_node(idx), idx != graph.root
    ensures ret.0.c() == home(self.opts.root.c(), *graph, idx), ret.1.c() == ret.0.c()
//@subst? &**graph[$0].name =>> graph[$0].name.to_string()
//@at body_start
    proof { lemma_known(self.opts.root.c()); lemma_known(nm_of(self.opts.root.c())); lemma_known(store_dir(self.opts.root.c(), *graph, idx)); lemma_home(self.opts.root.c(), *graph, idx); }
//@end
}
pub open spec fn home_facts(root: Seq<Component>, g: Graph, i: NodeIndex) -> bool {
    &&& joined(store_of(root), path_of(g.dir_name(i))) == store_dir(root, g, i)
    &&& joined(store_dir(root, g, i).push(nm_name()), path_of(g.node(i).name.t())) == home(root, g, i)
    &&& joined(home(root, g, i), path_of("package.json"@)) == home(root, g, i).push(json_name())
    &&& below(store_of(root), store_dir(root, g, i)) && below(nm_of(root), home(root, g, i))
}
pub proof fn lemma_entry_below(n: Seq<Component>, g: Graph, j: NodeIndex)
    requires named(g), g.has_node(j), j != g.root
    ensures below(n, n + path_of(g.node(j).name.t()))
{
    let p = path_of(g.node(j).name.t());
    assert((n + p).take(n.len() as int) =~= n);
    assert((n + p).skip(n.len() as int) =~= p);
}
/// the package is in its place, and if it was put there now, its scripts are going to be run (C13)
pub open spec fn put(o: LinkerOptions, g: Graph, i: NodeIndex) -> bool {
    let d = dir_of(o.root.c(), g, i);
    ||| extracted(g.node(i).package, d) && (scripted(d) ==> pending(i))
    ||| !unknown_hoisted(o) && (same_as_before(o.actual_tree, g, i) || g.ideal(i) is Err)
}
/// a package of the tree has this path, and it is as it was
pub open spec fn stays(root: Seq<Component>, t: Option<Lockfile>, g: Graph, p: Seq<Component>) -> bool {
    exists|i: NodeIndex| g.has_node(i) && i != g.root && fold(#[trigger] g.place(i)) == fold(slashed(p.skip(nm_of(root).len() as int))) && (same_as_before(t, g, i) || g.ideal(i) is Err)
}
/// what may still be there: containers of packages, a package's own, packages that stay
pub open spec fn expected(root: Seq<Component>, t: Option<Lockfile>, g: Graph, p: Seq<Component>) -> bool {
    p.last() == nm_name() || p.last() == bin_name() || scope(p.last()) || own(root, t, g, p) || stays(root, t, g, p)
}
/// nothing to say against this: not a package's directory, or one that stays
pub open spec fn kept(root: Seq<Component>, t: Option<Lockfile>, g: Graph, p: Seq<Component>) -> bool {
    forall|i: NodeIndex| g.has_node(i) && i != g.root && #[trigger] dir_of(root, g, i) == p ==> same_as_before(t, g, i) || g.ideal(i) is Err
}
pub open spec fn cleared(nm: Seq<Component>, root: Seq<Component>, t: Option<Lockfile>, g: Graph) -> bool {
    forall|p: Seq<Component>| below(nm, p) && wanted_all(nm, p) && !(#[trigger] gone(p)) ==> expected(root, t, g, p)
}
/// a package's directory is one of those the walk is to look at
pub proof fn lemma_wanted(root: Seq<Component>, g: Graph, i: NodeIndex)
    requires placed(g), g.has_node(i), i != g.root
    ensures wanted_all(nm_of(root), dir_of(root, g, i))
{
    known_names();
    let nm = nm_of(root);
    let s = path_of(g.place(i));
    let p = dir_of(root, g, i);
    assert forall|n: int| nm.len() <= n <= p.len() implies wants(nm, #[trigger] p.take(n)) by {
        let q = p.take(n);
        let k = n - nm.len() - 1;
        if n == nm.len() {
            assert(q =~= nm);
            assert(nm.last() == nm_name());
        } else {
            assert(q.last() == s[k]);
            assert(step(s, k));
            if k > 0 { assert(q[q.len() - 2] == s[k - 1]); assert(step(s, k - 1)); } else { assert(q[q.len() - 2] == nm_name()); }
            if k > 1 { assert(q[q.len() - 3] == s[k - 2]); } else if k == 1 { assert(q[q.len() - 3] == nm_name()); }
            if q == nm.push(meta_name()) {
                assert(n == nm.len() + 1);
                assert(q.last() == meta_name());
            }
        }
    }
}
pub open spec fn wanted_all(nm: Seq<Component>, p: Seq<Component>) -> bool {
    forall|n: int| nm.len() <= n <= p.len() ==> wants(nm, #[trigger] p.take(n))
}
pub proof fn lemma_at(nm: Seq<Component>)
    ensures forall|p: Seq<Component>| #[trigger] at_or_below(nm, p) ==> is_ancestor(nm, p) && p.len() >= nm.len()
{
    assert forall|p: Seq<Component>| #[trigger] at_or_below(nm, p) implies is_ancestor(nm, p) && p.len() >= nm.len() by {
        if p == nm { assert(p.take(nm.len() as int) =~= nm); }
    }
}
/// the walk's filter
pub open spec fn wants(nm: Seq<Component>, p: Seq<Component>) -> bool {
    &&& p != nm.push(meta_name())
    &&& p.len() > 0
    &&& p.last() == nm_name() || (p.last() != bin_name() && p.len() > 1 && (p[p.len() - 2] == nm_name() || (scope(p[p.len() - 2]) && p.len() > 2 && p[p.len() - 3] == nm_name())))
}
}
fn main() {}
