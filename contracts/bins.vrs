// Unit: which executables are linked, and where (oro-common build_manifest.rs, node-maintainer linkers)
use vstd::prelude::*;
use std::ops::{Index, IndexMut};
verus! {
//@include strings.vrs
//@include case.vrs
//@include path.vrs
//@include iter.vrs
//@include hashmap.vrs
//@include std.vrs

pub open spec fn all_normal(s: Seq<Component>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) is Normal }
/// a single component, so nothing but an entry of the directory it is joined to
pub open spec fn one_name(s: Seq<Component>) -> bool { s.len() == 1 && s[0] is Normal }
// ---- assumed contracts ------------------------------
#[verifier::external_body]
pub struct IoError { _p: () }
pub mod std_io { pub enum ErrorKind { InvalidData, NotFound } }
impl IoError {
    #[verifier::external_body]
    pub fn new(k: std_io::ErrorKind, s: String) -> Self { unimplemented!() }
}
#[verifier::external_body]
pub struct WalkError { _p: () }
impl From<WalkError> for IoError {
    #[verifier::external_body]
    fn from(e: WalkError) -> Self { unimplemented!() }
}
impl From<StripPrefixError> for IoError {
    #[verifier::external_body]
    fn from(e: StripPrefixError) -> Self { unimplemented!() }
}
pub type Result<T, E = IoError> = core::result::Result<T, E>;
/// a component's text is a path of that component alone
pub broadcast axiom fn name_alone(p: Path, i: int)
    requires 0 <= i < p.c().len(), p.c()[i] is Normal
    ensures path_of((#[trigger] p.c()[i])->Normal_0.t()) == seq![p.c()[i]];
pub axiom fn empty_path() ensures path_of(""@) == Seq::<Component>::empty();
pub axiom fn root_path() ensures path_of("/"@) == seq![Component::RootDir];
/// unix paths have no prefixes
pub broadcast axiom fn no_prefix(s: Seq<char>, i: int) requires 0 <= i < path_of(s).len() ensures !(#[trigger] path_of(s)[i] is Prefix);
impl Path {
    #[verifier::external_body]
    pub fn vx_new() -> (r: Path) ensures r.c() == Seq::<Component>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, part: &OsStr)
        ensures path_of(part.t()).len() == 1 && path_of(part.t())[0] is Normal ==> final(self).c() == old(self).c().push(path_of(part.t())[0]) { unimplemented!() }
    #[verifier::external_body]
    pub fn pop(&mut self) -> (r: bool)
        ensures r == has_parent(old(self).c()), final(self).c() == (if has_parent(old(self).c()) { old(self).c().drop_last() } else { old(self).c() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn file_name(&self) -> (r: Option<&OsStr>)
        ensures r is Some <==> self.c().len() > 0 && self.c().last() is Normal, r is Some ==> self.c().last() == Component::Normal(*r->0) && path_of(r->0.t()) == seq![self.c().last()] { unimplemented!() }
    #[verifier::external_body]
    pub fn is_dir(&self) -> bool { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_strip_prefix<A: VxPathArg>(&self, a: A) -> (r: Result<&Path, StripPrefixError>)
        ensures r is Ok <==> is_ancestor(a.pc(), self.c()), r is Ok ==> r->Ok_0.c() == self.c().skip(a.pc().len() as int) { unimplemented!() }
}
#[verifier::external_body]
#[derive(Debug)]
pub struct StripPrefixError { _p: () }
impl<'a> VxIntoIter for Components<'a> {
    type I = Iter<Component>;
    open spec fn same(self, i: Iter<Component>) -> bool { i.all() == self.c() && i.pos() == 0 }
    #[verifier::external_body]
    fn vx_into(self) -> (r: Iter<Component>) { unimplemented!() }
}
pub trait VxReplace { fn replace<const N: usize>(&self, from: [char; N], to: &str) -> String; }
impl VxReplace for String {
    #[verifier::external_body]
    fn replace<const N: usize>(&self, from: [char; N], to: &str) -> String { unimplemented!() }
}
#[verifier::external_body]
pub struct FileType { _p: () }
impl FileType {
    #[verifier::external_body]
    pub fn is_file(&self) -> bool { unimplemented!() }
    #[verifier::external_body]
    pub fn is_dir(&self) -> bool { unimplemented!() }
}
/// walkdir: the entries below a directory
#[verifier::external_body]
pub struct DirEntry { _p: () }
impl DirEntry {
    pub uninterp spec fn p(&self) -> Seq<Component>;
    #[verifier::external_body]
    pub fn path(&self) -> (r: &Path) ensures r.c() == self.p() { unimplemented!() }
    #[verifier::external_body]
    pub fn file_name(&self) -> (r: &OsStr) { unimplemented!() }
    #[verifier::external_body]
    pub fn file_type(&self) -> FileType { unimplemented!() }
}
#[verifier::external_body]
pub struct WalkDir { _p: () }
impl WalkDir {
    pub uninterp spec fn root(&self) -> Seq<Component>;
    #[verifier::external_body]
    pub fn new(p: Path) -> (r: Self) ensures r.root() == p.c() { unimplemented!() }
}
/// below `d`: its path and then names
pub open spec fn below(d: Seq<Component>, p: Seq<Component>) -> bool {
    d.len() <= p.len() && p.take(d.len() as int) == d && all_normal(p.skip(d.len() as int))
}
impl VxIntoIter for WalkDir {
    type I = Iter<Result<DirEntry, WalkError>>;
    open spec fn same(self, i: Iter<Result<DirEntry, WalkError>>) -> bool {
        i.pos() == 0 && forall|k: int| 0 <= k < i.all().len() && (#[trigger] i.all()[k]) is Ok ==> below(self.root(), i.all()[k]->Ok_0.p())
    }
    #[verifier::external_body]
    fn vx_into(self) -> (r: Iter<Result<DirEntry, WalkError>>) { unimplemented!() }
}
pub mod fs {
    use super::*;
    #[verifier::external_body]
    pub fn read_to_string(p: &Path) -> Result<String, IoError> { unimplemented!() }
    #[verifier::external_body]
    pub fn remove_file(p: &Path) -> Result<(), IoError> requires may_clear(p.c()) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove_dir_all(p: &Path) -> Result<(), IoError> requires may_clear(p.c()) { unimplemented!() }
    #[verifier::external_body]
    pub fn set_permissions(p: &Path, m: Permissions) -> Result<(), IoError> requires may_run(p.c()) { unimplemented!() }
    /// `text` as written, seen from the directory `link` is in, leads to `resolves(link, text)`
    #[verifier::external_body]
    pub fn symlink(text: &Path, link: &Path) -> Result<(), IoError> requires may_link(leads(link.c(), text.c()), link.c()) { unimplemented!() }
}
/// where a link with this text ends up
pub uninterp spec fn leads(link: Seq<Component>, text: Seq<Component>) -> Seq<Component>;
pub uninterp spec fn may_link(from: Seq<Component>, to: Seq<Component>) -> bool;
pub uninterp spec fn may_mkdir(p: Seq<Component>) -> bool;
pub uninterp spec fn may_clear(p: Seq<Component>) -> bool;
pub uninterp spec fn may_run(p: Seq<Component>) -> bool;
/// pathdiff: the text that leads from a directory to a path
#[verifier::external_body]
pub fn vx_diff(a: &Path, base: &Path) -> (r: Option<Path>)
    ensures r is Some, forall|l: Seq<Component>| has_parent(l) && l.drop_last() == base.c() ==> #[trigger] leads(l, r->0.c()) == a.c() { unimplemented!() }
#[verifier::external_body]
pub struct Permissions { _p: () }
impl Permissions { #[verifier::external_body] pub fn set_mode(&mut self, m: u32) { unimplemented!() } }
#[verifier::external_body]
pub struct Metadata { _p: () }
impl Metadata {
    #[verifier::external_body]
    pub fn permissions(&self) -> Permissions { unimplemented!() }
    #[verifier::external_body]
    pub fn is_dir(&self) -> bool { unimplemented!() }
}
impl Path {
    #[verifier::external_body]
    pub fn metadata(&self) -> Result<Metadata, IoError> { unimplemented!() }
    #[verifier::external_body]
    pub fn symlink_metadata(&self) -> Result<Metadata, IoError> { unimplemented!() }
}
pub enum NodeMaintainerError { BuildManifestReadError(PathBuf, IoError), Other(IoError) }
impl From<WalkError> for NodeMaintainerError {
    #[verifier::external_body]
    fn from(e: WalkError) -> Self { unimplemented!() }
}
pub trait IoContext<T>: Sized {
    fn io_context<F>(self, f: F) -> (r: Result<T, NodeMaintainerError>);
}
impl<T> IoContext<T> for Result<T, IoError> {
    #[verifier::external_body]
    fn io_context<F>(self, f: F) -> (r: Result<T, NodeMaintainerError>)
        ensures r is Ok <==> self is Ok, r is Ok ==> r->Ok_0 == self->Ok_0 { unimplemented!() }
}
#[verifier::external_body]
pub struct JsonError { _p: () }
impl From<JsonError> for IoError {
    #[verifier::external_body]
    fn from(e: JsonError) -> Self { unimplemented!() }
}
/// serde: any manifest at all
#[verifier::external_body]
pub fn vx_json(s: &str) -> Result<RawBuildManifest, JsonError> { unimplemented!() }
#[verifier::external_body]
pub fn vx_or_empty(p: Option<&Path>) -> &Path { unimplemented!() }
#[verifier::external_body]
pub struct DashSet { _p: () }
/// creates a directory and the missing ones above it
#[verifier::external_body]
pub fn mkdirp(p: &Path, c: &DashSet) -> Result<(), NodeMaintainerError> requires may_mkdir(p.c()) { unimplemented!() }
impl WalkDir {
    /// into_iter().filter_entry(f): only what `f` accepts, and what is reached through it
    #[verifier::external_body]
    pub fn vx_filter<F: Fn(&DirEntry) -> bool>(self, f: F) -> (r: Iter<Result<DirEntry, WalkError>>)
        requires forall|e: &DirEntry| f.requires((e,))
        ensures r.pos() == 0, forall|k: int| 0 <= k < r.all().len() && (#[trigger] r.all()[k]) is Ok ==> below(self.root(), r.all()[k]->Ok_0.p()) && f.ensures((&r.all()[k]->Ok_0,), true)
    { unimplemented!() }
}
pub trait VxIntoPath { fn vx_into(self) -> Path; }
impl VxIntoPath for &Path {
    fn vx_into(self) -> (r: Path) ensures r == *self { self.to_path_buf() }
}
/// answers nothing here depends on
pub trait VxStarts<P> { fn vx_starts_with(&self, p: P) -> bool; }
impl VxStarts<char> for String {
    #[verifier::external_body]
    fn vx_starts_with(&self, p: char) -> bool { unimplemented!() }
}
impl VxStarts<&str> for String {
    #[verifier::external_body]
    fn vx_starts_with(&self, p: &str) -> bool { unimplemented!() }
}
//@method starts_with => vx_starts_with
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Arc<T> { _t: std::marker::PhantomData<T> }
impl<T> std::ops::Deref for Arc<T> { type Target = T;
    #[verifier::external_body]
    fn deref(&self) -> (r: &T) { unimplemented!() }
}
impl Path {
    #[verifier::external_body]
    pub fn vx_owned(&self) -> (r: Path) ensures r == *self { unimplemented!() }
}
//@method to_owned => vx_owned
//@method into => vx_into
//@method strip_prefix => vx_strip_prefix

pub broadcast proof fn lemma_root_joined(s: Seq<char>)
    ensures is_ancestor(seq![Component::RootDir], #[trigger] joined(seq![Component::RootDir], path_of(s)))
{
    broadcast use no_prefix;
    let j = joined(seq![Component::RootDir], path_of(s));
    assert(j.take(1) =~= seq![Component::RootDir]);
}
impl Clone for Bin {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl Clone for Directories {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl<K, V> Clone for HashMap<K, V> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
// ---- the tree, as far as the linkers look at it ------------------------------
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct NodeIndex(pub usize);
#[verifier::external_body]
pub struct Names { _p: () }
impl Names { pub uninterp spec fn text(&self) -> Seq<char>; }
#[verifier::external_body]
pub struct Inner { _p: () }
impl Inner {
    #[verifier::external_body]
    pub fn node_indices(&self) -> Iter<NodeIndex> { unimplemented!() }
}
pub struct Graph { pub root: NodeIndex, pub inner: Inner }
#[verifier::external_body]
pub struct Name { _p: () }
impl Name {
    pub uninterp spec fn t(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String) ensures r@ == self.t() { unimplemented!() }
}
pub struct Node { pub idx: NodeIndex, pub name: Name }
pub enum Direction { Incoming, Outgoing }
#[verifier::external_body]
pub struct EdgeRef { _p: () }
impl EdgeRef {
    pub uninterp spec fn src(&self) -> NodeIndex;
    #[verifier::external_body]
    pub fn source(&self) -> (r: NodeIndex) ensures r == self.src() { unimplemented!() }
}
impl Inner {
    pub uninterp spec fn depends(&self, d: NodeIndex, n: NodeIndex) -> bool;
    #[verifier::external_body]
    pub fn edges_directed(&self, n: NodeIndex, d: Direction) -> (r: Iter<EdgeRef>)
        ensures r.pos() == 0, d is Incoming ==> forall|k: int| 0 <= k < r.all().len() ==> self.depends((#[trigger] r.all()[k]).src(), n) { unimplemented!() }
}
impl Graph { pub uninterp spec fn node(&self, i: NodeIndex) -> Node; pub uninterp spec fn dir_name(&self, i: NodeIndex) -> Seq<char>; }
impl Index<NodeIndex> for Graph {
    type Output = Node;
    #[verifier::external_body]
    fn index(&self, i: NodeIndex) -> (r: &Node) ensures *r == self.node(i) { unimplemented!() }
}
impl vstd::std_specs::core::IndexSpecImpl<NodeIndex> for Graph {
    open spec fn index_req(&self, i: &NodeIndex) -> bool { true }
}
/// name@hash, the name of a package's directory in the store
#[verifier::external_body]
pub fn package_dir_name(graph: &Graph, i: NodeIndex) -> (r: String) ensures r@ == graph.dir_name(i) { unimplemented!() }
#[verifier::external_body]
pub fn vx_store_name() -> (r: &'static str) ensures r@ == store_text() { unimplemented!() }
pub uninterp spec fn store_text() -> Seq<char>;
impl Graph {
    /// the names of a package and of those it sits under, outermost first
    pub uninterp spec fn place(&self, i: NodeIndex) -> Seq<char>;
    #[verifier::external_body]
    pub fn node_path(&self, i: NodeIndex) -> (r: Names) ensures r.text() == self.place(i) { unimplemented!() }
}
/// names.iter().map(to_string).collect().join("/node_modules/")
#[verifier::external_body]
pub fn vx_place(n: Names, sep: &str) -> (r: String) ensures sep@ == "/node_modules/"@ ==> r@ == n.text() { unimplemented!() }
pub open spec fn nm_name() -> Component { path_of("node_modules"@)[0] }
pub open spec fn bin_name() -> Component { path_of(".bin"@)[0] }
pub axiom fn known_names() ensures one_name(path_of("node_modules"@)), one_name(path_of(".bin"@)), nm_name()->Normal_0.t() == "node_modules"@, bin_name()->Normal_0.t() == ".bin"@;
/// a name is its text
pub axiom fn os_ext(a: OsStr, b: OsStr) ensures a.t() == b.t() ==> a == b;
pub struct LinkerOptions { pub root: PathBuf, pub concurrency: usize }
pub struct HoistedLinker { pub mkdir_cache: Arc<DashSet>, pub opts: LinkerOptions }
impl<T> Arc<T> {
    #[verifier::external_body]
    pub fn vx_new(t: T) -> Self { unimplemented!() }
}
impl<T> Clone for Arc<T> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
#[verifier::external_body]
pub struct Mutex { _p: () }
impl Mutex {
    #[verifier::external_body]
    pub fn vx_new() -> Self { unimplemented!() }
    #[verifier::external_body]
    pub fn lock(&self) { unimplemented!() }
}
#[verifier::external_body]
pub struct AtomicUsize { _p: () }
pub enum Ordering { SeqCst }
impl AtomicUsize {
    #[verifier::external_body]
    pub fn vx_new(n: usize) -> Self { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_add(&self, n: usize, o: Ordering) -> usize { unimplemented!() }
    #[verifier::external_body]
    pub fn load(&self, o: Ordering) -> usize { unimplemented!() }
}
/// `try_for_each_concurrent`: the body is run for members of the stream, in any order
#[verifier::external_body]
pub fn vx_each<F: Fn(NodeIndex) -> Result<(), NodeMaintainerError>>(it: Iter<NodeIndex>, f: F) -> Result<(), NodeMaintainerError>
    requires forall|i: NodeIndex| #[trigger] f.requires((i,)) { unimplemented!() }
/// a package's directory, and the bin directory next to it
pub open spec fn hoisted_dir(root: Seq<Component>, place: Seq<char>) -> Seq<Component> { root.push(nm_name()) + path_of(place) }
pub open spec fn bin_dir_for(d: Seq<Component>) -> Seq<Component> {
    if d.len() > 0 && has_parent(d.drop_last()) && d.drop_last().last() == nm_name() { d.drop_last().push(bin_name()) } else { d.drop_last().drop_last().push(bin_name()) }
}
/// an executable of the package in `d`, and its entry in the bin directory `b`
pub open spec fn its_file(d: Seq<Component>, from: Seq<Component>) -> bool { d.len() < from.len() && from.take(d.len() as int) == d && all_normal(from.skip(d.len() as int)) }
pub open spec fn entry_of(b: Seq<Component>, to: Seq<Component>) -> bool { to.len() == b.len() + 1 && to.drop_last() == b && to.last() is Normal }
pub broadcast proof fn lemma_its_file(d: Seq<Component>, s: Seq<Component>)
    requires all_normal(s), s.len() > 0
    ensures its_file(d, #[trigger] joined(d, s))
{
    assert(s[0] is Normal);
    assert(joined(d, s).take(d.len() as int) =~= d);
    assert(joined(d, s).skip(d.len() as int) =~= s);
}
pub broadcast proof fn lemma_entry(b: Seq<Component>, s: Seq<Component>)
    requires one_name(s)
    ensures entry_of(b, #[trigger] joined(b, s)), joined(b, s) == b.push(s[0])
{
    assert(joined(b, s) =~= b.push(s[0]));
    assert(joined(b, s).drop_last() =~= b);
}
pub proof fn lemma_bin_dir(top: Seq<Component>, p: Seq<Component>)
    requires below(top, p), p.len() > 0, p.last() is Normal, p.last()->Normal_0.t() == ".bin"@
    ensures inside(top, p), p.last() == bin_name()
{
    known_names();
    os_ext(p.last()->Normal_0, bin_name()->Normal_0);
    let k = p.skip(top.len() as int);
    assert forall|i: int| 0 <= i < k.len() implies #[trigger] plain(k[i]) by { assert(k[i] is Normal); }
}
pub proof fn lemma_hoisted(root: Seq<Component>, place: Seq<char>)
    requires all_normal(path_of(place)), path_of(place).len() > 0
    ensures hoisted_facts(root, place)
{
    known_names();
    let d = hoisted_dir(root, place);
    let s = path_of(place);
    assert(s[0] is Normal);
    assert(joined(root, path_of("node_modules"@)) =~= root.push(nm_name()));
    assert(d.last() == s.last() && s.last() == s[s.len() - 1]);
    let q = d.drop_last();
    assert(q.last() == (if s.len() == 1 { nm_name() } else { s[s.len() - 2] }));
    assert forall|o: OsStr| #![trigger o.t()] o.t() == "node_modules"@ implies Component::Normal(o) == nm_name() by { os_ext(o, nm_name()->Normal_0); }
    assert forall|b: Seq<Component>| #[trigger] joined(b, path_of(".bin"@)) == b.push(bin_name()) by { assert(joined(b, path_of(".bin"@)) =~= b.push(bin_name())); }
}
pub open spec fn hoisted_facts(root: Seq<Component>, place: Seq<char>) -> bool {
        let d = hoisted_dir(root, place);
        &&& joined(joined(root, path_of("node_modules"@)), path_of(place)) == d
        &&& has_parent(d)
        &&& d.drop_last().len() > 0
        &&& has_parent(d.drop_last())
        &&& forall|o: OsStr| #![trigger o.t()] o.t() == "node_modules"@ ==> Component::Normal(o) == nm_name()
        &&& forall|b: Seq<Component>| #[trigger] joined(b, path_of(".bin"@)) == b.push(bin_name())
}
pub struct IsolatedLinker { pub mkdir_cache: Arc<DashSet>, pub opts: LinkerOptions }
/// where the isolated linker puts a package's own content
pub open spec fn iso_dir(root: Seq<Component>, store: Seq<Component>, g: Graph, i: NodeIndex) -> Seq<Component> {
    if i == g.root { root } else { (store + path_of(g.dir_name(i))).push(nm_name()) + path_of(g.node(i).name.t()) }
}
pub open spec fn iso_bins(root: Seq<Component>, store: Seq<Component>, g: Graph, d: NodeIndex) -> Seq<Component> { iso_dir(root, store, g, d).push(nm_name()).push(bin_name()) }
/// where a dependent reaches a package
pub open spec fn iso_reach(root: Seq<Component>, store: Seq<Component>, g: Graph, d: NodeIndex, i: NodeIndex) -> Seq<Component> {
    iso_dir(root, store, g, d).push(nm_name()) + path_of(g.node(i).name.t())
}
pub open spec fn iso_named(g: Graph) -> bool {
    &&& forall|i: NodeIndex| (#[trigger] g.node(i)).idx == i
    &&& forall|i: NodeIndex| i != g.root ==> {
        &&& { let p = path_of(#[trigger] g.node(i).name.t()); all_normal(p) && p.len() > 0 }
        &&& { let p = path_of(g.dir_name(i)); all_normal(p) && p.len() > 0 }
    }
}
/// what linking may touch: entries in the bin directories of a package's dependents, leading to its own files
pub open spec fn iso_may(root: Seq<Component>, store: Seq<Component>, g: Graph) -> bool {
    &&& forall|d: NodeIndex, i: NodeIndex, from: Seq<Component>, to: Seq<Component>| #![trigger g.inner.depends(d, i), may_link(from, to)]
        g.inner.depends(d, i) && i != g.root && its_file(iso_reach(root, store, g, d, i), from) && entry_of(iso_bins(root, store, g, d), to) ==> may_link(from, to)
    &&& forall|d: NodeIndex, i: NodeIndex, from: Seq<Component>| #![trigger g.inner.depends(d, i), may_run(from)]
        g.inner.depends(d, i) && i != g.root && its_file(iso_reach(root, store, g, d, i), from) ==> may_run(from)
    &&& forall|d: NodeIndex, i: NodeIndex, to: Seq<Component>| #![trigger g.inner.depends(d, i), may_clear(to)]
        g.inner.depends(d, i) && i != g.root && entry_of(iso_bins(root, store, g, d), to) ==> may_clear(to)
    &&& forall|d: NodeIndex, i: NodeIndex| #![trigger g.inner.depends(d, i)] g.inner.depends(d, i) && i != g.root ==> may_mkdir(iso_bins(root, store, g, d))
}
pub broadcast proof fn lemma_named(d: Seq<Component>, s: Seq<Component>)
    requires all_normal(s), s.len() > 0
    ensures #[trigger] joined(d, s) == d + s
{ assert(s[0] is Normal); }
pub proof fn lemma_known(d: Seq<Component>)
    ensures joined(d, path_of("node_modules"@)) == d.push(nm_name()), joined(d, path_of(".bin"@)) == d.push(bin_name())
{
    known_names();
    assert(joined(d, path_of("node_modules"@)) =~= d.push(nm_name()));
    assert(joined(d, path_of(".bin"@)) =~= d.push(bin_name()));
}
// ---- the repository's types ------------------------------
//@item crates/oro-common/src/manifest.rs Bin
//@end
//@item crates/oro-common/src/manifest.rs Directories
//@end
/// the parts of a full manifest that a build manifest is made of
pub struct Manifest { pub name: Option<String>, pub bin: Option<Bin>, pub directories: Option<Directories>, pub scripts: HashMap<String, String> }
//@item crates/oro-common/src/build_manifest.rs RawBuildManifest
//@end
//@item crates/oro-common/src/build_manifest.rs BuildManifest
//@end
/// every executable has a single name, and is a file below the package's directory
pub open spec fn bins_inside(m: BuildManifest) -> bool { bin_map_inside(m.bin.m()) }
pub open spec fn bin_map_inside(m: Map<Seq<char>, PathBuf>) -> bool {
    forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> one_name(path_of(k)) && all_normal(m[k].c()) && m[k].c().len() > 0
}
//@fn crates/oro-common/src/build_manifest.rs inside_package
    ensures all_normal(ret.c()), ret.c().len() == 0 ==> ret.c() == Seq::<Component>::empty()
//@subst? PathBuf::new() =>> Path::vx_new()
//@at body_start
    broadcast use name_alone;
//@loop 0
    invariant all_normal(inside.c()), $it.all() == path.c(), 0 <= $it.pos() <= $it.all().len()
    decreases $it.all().len() - $it.pos()
//@subst? inside.push(part) =>> inside.push(&part)
//@at before match component
    proof { if component is Normal { name_alone(*path, vx_it0.pos() - 1); } }
//@end
impl BuildManifest {
//@fn crates/oro-common/src/build_manifest.rs BuildManifest::normalize
    ensures ret is Ok ==> bins_inside(ret->Ok_0)
//@attr #[verifier::exec_allows_no_decreases_clause]
//@at body_start
    proof { root_path(); empty_path(); }
    broadcast use no_prefix;
    broadcast use comps_wf_str;
    broadcast use lemma_root_joined;
//@loop 3
    invariant bin_map_inside(normalized.m())
//@subst? std::io::Result<Self> =>> Result<Self>
//@subst? std::io::Error::new =>> IoError::new
//@subst? std::io::ErrorKind::InvalidData =>> std_io::ErrorKind::InvalidData
//@end
//@fn crates/oro-common/src/build_manifest.rs BuildManifest::from_path
    ensures ret is Ok ==> bins_inside(ret->Ok_0)
//@subst? std::io::Result<Self> =>> Result<Self>
//@subst? impl AsRef<Path> =>> Path
//@subst? std::fs::read_to_string =>> fs::read_to_string
//@subst? serde_json::from_str =>> vx_json
//@subst? path.parent().unwrap_or_else($0) =>> vx_or_empty(path.parent())
//@end
//@fn crates/oro-common/src/build_manifest.rs BuildManifest::from_manifest
    ensures ret is Ok ==> bins_inside(ret->Ok_0)
//@subst? std::io::Result<Self> =>> Result<Self>
//@end
}

//@fn crates/node-maintainer/src/linkers/mod.rs link_bin
    requires may_link(from.c(), to.c()), may_run(from.c()), has_parent(to.c())
//@subst? std::fs::set_permissions =>> fs::set_permissions
//@subst? std::os::unix::fs::symlink =>> fs::symlink
//@subst? pathdiff::diff_paths =>> vx_diff
//@end

impl HoistedLinker {
//@fn crates/node-maintainer/src/linkers/hoisted.rs HoistedLinker::link_bins
    requires
        forall|i: NodeIndex| i != graph.root ==> { let p = path_of(#[trigger] graph.place(i)); all_normal(p) && p.len() > 0 },
        // what may be touched: the entries of the bin directory beside each package, leading to that package's own files
        forall|i: NodeIndex, from: Seq<Component>, to: Seq<Component>|
            #![trigger may_link(from, to), graph.place(i)]
            i != graph.root && its_file(hoisted_dir(self.opts.root.c(), graph.place(i)), from) && entry_of(bin_dir_for(hoisted_dir(self.opts.root.c(), graph.place(i))), to)
            ==> may_link(from, to),
        forall|i: NodeIndex, from: Seq<Component>| #![trigger may_run(from), graph.place(i)]
            i != graph.root && its_file(hoisted_dir(self.opts.root.c(), graph.place(i)), from) ==> may_run(from),
        forall|i: NodeIndex, to: Seq<Component>| #![trigger may_clear(to), graph.place(i)]
            i != graph.root && entry_of(bin_dir_for(hoisted_dir(self.opts.root.c(), graph.place(i))), to) ==> may_clear(to),
        forall|i: NodeIndex| i != graph.root ==> may_mkdir(bin_dir_for(hoisted_dir(self.opts.root.c(), #[trigger] graph.place(i)))),
        forall|p: Seq<Component>| p.len() > 0 && p.last() == bin_name() && inside(self.opts.root.c().push(nm_name()), p) ==> #[trigger] may_clear(p),
//@attr #[verifier::exec_allows_no_decreases_clause]
//@at body_start
    broadcast use {lemma_its_file, lemma_entry};
    proof {
        known_names();
        assert forall|i: NodeIndex| i != graph.root implies #[trigger] hoisted_facts(self.opts.root.c(), graph.place(i)) by { lemma_hoisted(self.opts.root.c(), graph.place(i)); }
        assert forall|p: Seq<Component>| below(self.opts.root.c().push(nm_name()), p) && p.len() > 0 && p.last() is Normal && p.last()->Normal_0.t() == ".bin"@
            implies #[trigger] may_clear(p) by { lemma_bin_dir(self.opts.root.c().push(nm_name()), p); }
    }
//@loop 0
    invariant 0 <= $it.pos(), forall|k: int| 0 <= k < $it.all().len() && (#[trigger] $it.all()[k]) is Ok ==> below(self.opts.root.c().push(nm_name()), $it.all()[k]->Ok_0.p())
//@at before for (name, path) in &build_mani.bin
    assert(hoisted_facts(self.opts.root.c(), graph.place(idx)));
    assert(package_dir.c() == hoisted_dir(self.opts.root.c(), graph.place(idx)));
    assert(target_dir.c() == bin_dir_for(package_dir.c()));
//@loop 1
    invariant 0 <= $it.pos(), forall|n: int| 0 <= n < $it.all().len() ==> {
        let x = #[trigger] $it.all()[n];
        build_mani.bin.m().contains_key(x.0@) && build_mani.bin.m()[x.0@] == *x.1 }
//@subst? async_std::fs::remove_dir_all =>> fs::remove_dir_all
//@subst? std::fs::remove_dir_all =>> fs::remove_dir_all
//@subst? std::fs::remove_file =>> fs::remove_file
//@subst? Arc::new(std::sync::Mutex::new(())) =>> Arc::vx_new(Mutex::vx_new())
//@subst? atomic::Ordering::SeqCst =>> Ordering::SeqCst
//@subst? Arc::new(AtomicUsize::new(0)) =>> Arc::vx_new(AtomicUsize::vx_new(0))
//@subst $0.into_iter().filter_entry(|e| $1) =>> $0.vx_filter(|e: &DirEntry| -> (r: bool) $1)
//@subst graph.node_path($0).iter().map($1).collect::<Vec<_>>().join($2) =>> vx_place(graph.node_path($0), $2)
//@subst futures::stream::iter($0).map($1).try_for_each_concurrent($2, move |($3, $4)| async move $5).await? =>> vx_each($0, |$3: NodeIndex| -> (r: Result<(), NodeMaintainerError>) $5)?
//@subst async_std::task::spawn_blocking(move || $0).await? =>> { $0 }?
//@end
}

impl IsolatedLinker {
//@fn crates/node-maintainer/src/linkers/isolated.rs IsolatedLinker::link_bins
    requires
        iso_named(*graph), iso_may(self.opts.root.c(), store_of(self.opts.root.c()), *graph),
        one_name(path_of(store_text())),
        may_clear(self.opts.root.c().push(nm_name()).push(bin_name())),
//@attr #[verifier::exec_allows_no_decreases_clause]
//@subst? async_std::fs::remove_dir_all =>> fs::remove_dir_all
//@subst? STORE_DIR_NAME =>> vx_store_name()
//@subst? linked += added; =>> {}
//@at body_start
    proof { assert forall|d: Seq<Component>| true implies #[trigger] joined(d, path_of("node_modules"@)) == d.push(nm_name()) && joined(d, path_of(".bin"@)) == d.push(bin_name()) by { lemma_known(d); }
        assert forall|d: Seq<Component>| true implies #[trigger] joined(d, path_of(".bin"@)) == d.push(bin_name()) by { lemma_known(d); } }
    broadcast use lemma_entry;
//@end
//@fn crates/node-maintainer/src/linkers/isolated.rs IsolatedLinker::link_dep_bins
    requires iso_named(*graph), iso_may(root_path.c(), store_ref.c(), *graph)
//@attr #[verifier::exec_allows_no_decreases_clause]
//@subst? std::fs::remove_dir_all =>> fs::remove_dir_all
//@subst? std::fs::remove_file =>> fs::remove_file
//@subst? linked += 1; =>> {}
//@subst async_std::task::spawn_blocking(move || $0).await? =>> { $0 }?
//@at body_start
    proof { assert forall|d: Seq<Component>| true implies #[trigger] joined(d, path_of("node_modules"@)) == d.push(nm_name()) by { lemma_known(d); }
        assert forall|d: Seq<Component>| true implies #[trigger] joined(d, path_of(".bin"@)) == d.push(bin_name()) by { lemma_known(d); } }
    broadcast use {lemma_its_file, lemma_entry, lemma_named};
//@loop 0
    invariant 0 <= $it.pos(), forall|k: int| 0 <= k < $it.all().len() ==> graph.inner.depends((#[trigger] $it.all()[k]).src(), node)
//@at before for (name, path) in &build_mani.bin
    assert(graph.inner.depends(edge.src(), node));
    assert(dep_store_dir.c() == iso_dir(root_path.c(), store_ref.c(), *graph, edge.src()));
    assert(dep_bin_dir.c() == iso_bins(root_path.c(), store_ref.c(), *graph, edge.src()));
//@loop 1
    invariant 0 <= $it.pos(), forall|n: int| 0 <= n < $it.all().len() ==> {
        let x = #[trigger] $it.all()[n];
        build_mani.bin.m().contains_key(x.0@) && build_mani.bin.m()[x.0@] == *x.1 }
//@end
}
pub open spec fn store_of(root: Seq<Component>) -> Seq<Component> { root.push(nm_name()).push(path_of(store_text())[0]) }
}
fn main() {}
