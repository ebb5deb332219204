// Unit: which lifecycle scripts run, when, and what their failing does (node-maintainer linkers/mod.rs, graph.rs; oro-script lib.rs)
use vstd::prelude::*;
use std::ops::{Index, IndexMut};
verus! {
//@include strings.vrs
//@include case.vrs
//@include path.vrs
//@include iter.vrs
//@include std.vrs
//@include petgraph.vrs
//@include hashmap.vrs

// ---- assumed contracts ------------------------------
pub type Result<T, E = OroScriptError> = core::result::Result<T, E>;
pub enum NodeMaintainerError { BuildManifestReadError(PathBuf, IoError), OroScriptError(OroScriptError), Other(IoError) }
impl From<OroScriptError> for NodeMaintainerError {
    #[verifier::external_body]
    fn from(e: OroScriptError) -> Self { unimplemented!() }
}
#[verifier::external_body]
pub struct IoError { _p: () }
#[verifier::external_body]
pub struct JsonError { _p: () }
#[verifier::external_body]
pub struct JoinPathsError { _p: () }
//@item crates/oro-script/src/error.rs OroScriptError
//@subst? std::io::Error =>> IoError
//@subst? serde_json::Error =>> JsonError
//@subst? std::env::JoinPathsError =>> JoinPathsError
//@subst? std::process::ExitStatus =>> ExitStatus
//@end
impl From<JoinPathsError> for OroScriptError {
    #[verifier::external_body]
    fn from(e: JoinPathsError) -> Self { unimplemented!() }
}
/// adds what was being done to an io error (oro-script's, and node-maintainer's)
pub trait IoContext<T>: Sized {
    spec fn res(self) -> core::result::Result<T, IoError>;
    fn io_context<F: FnOnce() -> String>(self, f: F) -> (r: core::result::Result<T, OroScriptError>)
        ensures r is Ok <==> self.res() is Ok, r is Ok ==> r->Ok_0 == self.res()->Ok_0;
    fn nm_context<F: FnOnce() -> String>(self, f: F) -> (r: core::result::Result<T, NodeMaintainerError>)
        ensures r is Ok <==> self.res() is Ok, r is Ok ==> r->Ok_0 == self.res()->Ok_0;
}
impl<T> IoContext<T> for core::result::Result<T, IoError> {
    open spec fn res(self) -> core::result::Result<T, IoError> { self }
    #[verifier::external_body]
    fn io_context<F: FnOnce() -> String>(self, f: F) -> (r: core::result::Result<T, OroScriptError>) { unimplemented!() }
    #[verifier::external_body]
    fn nm_context<F: FnOnce() -> String>(self, f: F) -> (r: core::result::Result<T, NodeMaintainerError>) { unimplemented!() }
}
// async-std's spawn_blocking, awaited
#[verifier::external_body]
pub fn vx_spawn_blocking<T, F: FnOnce() -> T>(f: F) -> (r: T) requires f.requires(()) ensures f.ensures((), r) { unimplemented!() }
// tracing
#[verifier::external_body]
pub struct Span { _p: () }
#[verifier::external_body]
pub struct Entered<'a> { _p: &'a () }
#[verifier::external_body]
pub fn vx_span() -> Span { unimplemented!() }
impl Span {
    #[verifier::external_body]
    pub fn enter(&self) -> Entered<'_> { unimplemented!() }
}
impl Clone for Span { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
#[verifier::external_body]
pub fn vx_drop<T>(t: T) { unimplemented!() }
/// std's HashSet
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct HashSet<K: VxHK> { _k: std::marker::PhantomData<K> }
impl VxHK for NodeIndex { type K = NodeIndex; open spec fn hk(&self) -> NodeIndex { *self } }
impl<K: VxHK> HashSet<K> {
    pub uninterp spec fn s(&self) -> Set<K::K>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.s() == Set::<K::K>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K) -> (r: bool) ensures final(self).s() == old(self).s().insert(k.hk()) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove<Q: VxHK<K = K::K> + ?Sized>(&mut self, k: &Q) -> (r: bool) ensures final(self).s() == old(self).s().remove(k.hk()) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.s() == Set::<K::K>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.s().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn contains<Q: VxHK<K = K::K> + ?Sized>(&self, k: &Q) -> (r: bool) ensures r == self.s().contains(k.hk()) { unimplemented!() }
}
impl<'a, K: VxHK> VxIntoIter for &'a HashSet<K> {
    type I = Iter<&'a K>;
    open spec fn same(self, i: Iter<&'a K>) -> bool {
        &&& i.pos() == 0
        &&& forall|n: int| 0 <= n < i.all().len() ==> self.s().contains((#[trigger] i.all()[n]).hk())
        &&& forall|k: K::K| #[trigger] self.s().contains(k) ==> exists|n: int| 0 <= n < i.all().len() && (#[trigger] i.all()[n]).hk() == k
        &&& forall|n: int, o: int| 0 <= n < o < i.all().len() ==> (#[trigger] i.all()[n]).hk() != (#[trigger] i.all()[o]).hk()
    }
    #[verifier::external_body]
    fn vx_into(self) -> (r: Iter<&'a K>) { unimplemented!() }
}
impl<K: VxHK, V> HashMap<K, V> {
    #[verifier::external_body]
    pub fn get_mut<Q: VxHK<K = K::K> + ?Sized>(&mut self, k: &Q) -> (r: Option<&mut V>)
        ensures r is Some <==> old(self).m().contains_key(k.hk()),
            r matches Some(x) ==> *x == old(self).m()[k.hk()] && final(self).m() == old(self).m().insert(k.hk(), *final(x)),
            r is None ==> *final(self) == *old(self) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.m() == Map::<K::K, V>::empty()) { unimplemented!() }
}
pub trait VxItems<T> { fn vx_items(&self) -> (r: Iter<&T>) ensures self.same_items(r); spec fn same_items(&self, r: Iter<&T>) -> bool; }
impl<T> VxItems<T> for Vec<T> {
    open spec fn same_items(&self, r: Iter<&T>) -> bool {
        &&& r.pos() == 0 && r.all().len() == self@.len()
        &&& forall|k: int| #![trigger r.all()[k]] #![trigger self@[k]] 0 <= k < self@.len() ==> *r.all()[k] == self@[k]
    }
    #[verifier::external_body]
    fn vx_items(&self) -> (r: Iter<&T>) { unimplemented!() }
}
/// what comes of collecting pairs: the last one of a key
pub open spec fn collected<K: VxHK, V>(a: Seq<(K, V)>, m: Map<K::K, V>) -> bool {
    &&& forall|i: int| 0 <= i < a.len() ==> m.contains_key((#[trigger] a[i]).0.hk())
    &&& forall|k: K::K| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < a.len() && (#[trigger] a[i]).0.hk() == k && a[i].1 == m[k]
}
pub trait VxFrom<I>: Sized { spec fn made(i: I, c: Self) -> bool; fn vx_from(i: I) -> (r: Self) ensures Self::made(i, r); }
impl<K: VxHK, V> VxFrom<Iter<(K, V)>> for HashMap<K, V> {
    open spec fn made(i: Iter<(K, V)>, c: Self) -> bool { i.pos() == 0 ==> collected(i.all(), c.m()) }
    #[verifier::external_body]
    fn vx_from(i: Iter<(K, V)>) -> (r: Self) { unimplemented!() }
}
impl<T> Iter<T> {
    pub fn vx_collect<C: VxFrom<Iter<T>>>(self) -> (r: C) ensures C::made(self, r) { C::vx_from(self) }
}
impl<K: VxHK, V> HashMap<K, V> {
    pub fn into_iter(self) -> (r: Iter<(K, V)>) ensures self.same(r) { self.vx_into() }
}
impl<'a, E> VxIntoIter for EdgesIter<'a, E> {
    type I = EdgesIter<'a, E>;
    open spec fn same(self, i: Self::I) -> bool { i == self }
    fn vx_into(self) -> (r: Self::I) { self }
}

// ---- the graph ------------------------------
#[verifier::external_body]
pub struct PackageSpec { _p: () }
#[verifier::external_body]
pub struct Resolution { _p: () }
impl Clone for Resolution { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
impl VxDisp for Resolution { uninterp spec fn disp(&self) -> Seq<char>; uninterp spec fn dbg(&self) -> Seq<char>; }
#[verifier::external_body]
pub struct Package { _p: () }
impl Package {
    #[verifier::external_body]
    pub fn name(&self) -> &str { unimplemented!() }
    #[verifier::external_body]
    pub fn resolved(&self) -> &Resolution { unimplemented!() }
}
#[verifier::external_body]
pub struct Name { _p: () }
impl Name { pub uninterp spec fn t(&self) -> Seq<char>; }
impl VxPathArg for Name { open spec fn pc(&self) -> Seq<Component> { path_of(self.t()) } }
/// (of a node's fields, those this unit looks at)
pub struct Node { pub package: Package, pub name: Name }
//@item crates/node-maintainer/src/graph.rs DepType
//@attr #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@end
//@item crates/node-maintainer/src/graph.rs Edge
//@end
//@item crates/node-maintainer/src/graph.rs Graph
//@end
impl Index<NodeIndex> for Graph {
    type Output = Node;
    fn index(&self, index: NodeIndex) -> (r: &Node) ensures *r == self.inner.nodes()[index] { &self.inner[index] }
}
impl vstd::std_specs::core::IndexSpecImpl<NodeIndex> for Graph {
    open spec fn index_req(&self, i: &NodeIndex) -> bool { self.inner.nodes().contains_key(*i) }
}
/// from one package to what it depends on, and on
pub open spec fn is_walk(es: Map<EdgeIndex, EdgeT<Edge>>, p: Seq<NodeIndex>) -> bool {
    p.len() > 0 && forall|i: int| #![trigger p[i]] 0 <= i < p.len() - 1 ==> has_edge(es, p[i], p[i + 1])
}
pub open spec fn has_edge(es: Map<EdgeIndex, EdgeT<Edge>>, a: NodeIndex, b: NodeIndex) -> bool {
    exists|e: EdgeIndex| #[trigger] es.contains_key(e) && es[e].from == a && es[e].to == b
}
/// depends on it, however indirectly (or is it)
pub open spec fn reaches(g: Graph, a: NodeIndex, b: NodeIndex) -> bool {
    exists|p: Seq<NodeIndex>| #[trigger] is_walk(g.inner.edges(), p) && p[0] == a && p.last() == b
}
/// THE ORDER: it goes after what it depends on, unless that depends on it in turn
pub open spec fn waits(g: Graph, i: NodeIndex, d: NodeIndex) -> bool { i != d && reaches(g, i, d) && !reaches(g, d, i) }
/// only asked for by optional dependencies
pub open spec fn optional(g: Graph, i: NodeIndex) -> bool {
    forall|e: EdgeIndex| #[trigger] g.inner.edges().contains_key(e) && g.inner.edges()[e].to == i ==> g.inner.edges()[e].w.dep_type is Opt
}
pub proof fn lemma_trans(g: Graph, a: NodeIndex, b: NodeIndex, c: NodeIndex)
    requires reaches(g, a, b), reaches(g, b, c)
    ensures reaches(g, a, c)
{
    let es = g.inner.edges();
    let p = choose|p: Seq<NodeIndex>| #[trigger] is_walk(es, p) && p[0] == a && p.last() == b;
    let q = choose|q: Seq<NodeIndex>| #[trigger] is_walk(es, q) && q[0] == b && q.last() == c;
    let r = p + q.skip(1);
    assert forall|i: int| #![trigger r[i]] 0 <= i < r.len() - 1 implies has_edge(es, r[i], r[i + 1]) by {
        if i < p.len() - 1 { assert(r[i] == p[i] && r[i + 1] == p[i + 1]); }
        else { let j = i - (p.len() - 1); assert(r[i] == q[j]); assert(r[i + 1] == q[j + 1]); }
    }
    assert(r[0] == a);
    assert(r.last() == c) by { if q.len() == 1 { assert(r =~= p); } }
    assert(is_walk(es, r));
}
/// someone never has to wait for anyone else who waits
pub proof fn lemma_first(g: Graph, s: Set<NodeIndex>)
    requires s.len() > 0
    ensures exists|x: NodeIndex| #[trigger] s.contains(x) && forall|d: NodeIndex| s.contains(d) ==> !waits(g, x, d)
    decreases s.len()
{
    let a = s.choose();
    let rest = s.remove(a);
    if rest.len() == 0 {
        assert(s.contains(a));
        assert forall|d: NodeIndex| s.contains(d) implies !waits(g, a, d) by { if d != a { assert(rest.contains(d)); } }
    } else {
        lemma_first(g, rest);
        let m = choose|x: NodeIndex| #[trigger] rest.contains(x) && forall|d: NodeIndex| rest.contains(d) ==> !waits(g, x, d);
        assert(s.contains(m));
        if waits(g, m, a) {
            assert(s.contains(a));
            assert forall|d: NodeIndex| s.contains(d) implies !waits(g, a, d) by {
                if waits(g, a, d) {
                    lemma_trans(g, m, a, d);
                    if reaches(g, d, m) { lemma_trans(g, d, m, a); }
                    assert(rest.contains(d));
                    assert(d != m);
                    assert(waits(g, m, d));
                }
            }
        } else {
            assert forall|d: NodeIndex| s.contains(d) implies !waits(g, m, d) by { if d != a { assert(rest.contains(d)); } }
        }
    }
}
pub mod petgraph {
    pub use super::Direction;
    pub mod algo {
        use super::super::*;
        #[verifier::external_body]
        pub fn has_path_connecting(g: &StableGraph<Node, Edge>, a: NodeIndex, b: NodeIndex, space: Option<()>) -> (r: bool)
            ensures r == (exists|p: Seq<NodeIndex>| #[trigger] is_walk(g.edges(), p) && p[0] == a && p.last() == b) { unimplemented!() }
    }
}
impl Graph {
//@fn crates/node-maintainer/src/graph.rs Graph::is_optional
    ensures ret == optional(*self, node)
//@loop 0
    invariant 0 <= $it.pos(), edges_of(self.inner.edges(), node, Direction::Incoming, $it.all()),
        forall|k: int| 0 <= k < $it.pos() && k < $it.all().len() ==> (#[trigger] $it.all()[k]).w.dep_type is Opt
//@attr #[verifier::exec_allows_no_decreases_clause]
//@end
}

// ---- what is run: oro-common's manifests, std's processes ------------------------------
/// the scripts of the package in there
pub uninterp spec fn scripts_of(d: Seq<Component>) -> Map<Seq<char>, Seq<char>>;
/// there is a package.json in there to read
pub uninterp spec fn readable(d: Seq<Component>) -> bool;
/// where it is, symlinks resolved
pub uninterp spec fn canon(d: Seq<Component>) -> Seq<Component>;
pub axiom fn canon_same(d: Seq<Component>) ensures scripts_of(canon(d)) == scripts_of(d);
pub axiom fn package_json() ensures path_of("package.json"@).len() == 1, path_of("package.json"@)[0] is Normal;
/// this command may be run in this directory
pub uninterp spec fn may_exec(cwd: Seq<Component>, args: Seq<Seq<char>>) -> bool;
/// it has been, to a good end
pub uninterp spec fn ran_ok(cwd: Seq<Component>, args: Seq<Seq<char>>) -> bool;
pub open spec fn sh(script: Seq<char>) -> Seq<Seq<char>> { seq!["sh"@, "-c"@, script] }
pub struct BuildManifest { pub scripts: HashMap<String, String> }
impl BuildManifest {
    #[verifier::external_body]
    pub fn from_path<A: VxPathArg>(p: A) -> (r: core::result::Result<BuildManifest, IoError>)
        ensures p.pc().len() > 0 && p.pc() == joined(p.pc().drop_last(), path_of("package.json"@)) ==> {
            &&& readable(p.pc().drop_last()) ==> r is Ok
            &&& r is Ok ==> {
                &&& forall|k: Seq<char>| #[trigger] r->Ok_0.scripts.m().contains_key(k) <==> scripts_of(p.pc().drop_last()).contains_key(k)
                &&& forall|k: Seq<char>| #[trigger] r->Ok_0.scripts.m().contains_key(k) ==> r->Ok_0.scripts.m()[k]@ == scripts_of(p.pc().drop_last())[k]
            }
        } { unimplemented!() }
}
pub proof fn lemma_json(d: Seq<Component>)
    ensures joined(d, path_of("package.json"@)).len() > 0, joined(d, path_of("package.json"@)).drop_last() == d
{ package_json(); assert((d + path_of("package.json"@)).drop_last() =~= d); }
#[verifier::external_body]
pub struct OsString { _p: () }
impl OsString {
    pub uninterp spec fn t(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn from(s: &str) -> (r: OsString) ensures r.t() == s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn to_string_lossy(&self) -> (r: String) ensures r@ == self.t() { unimplemented!() }
}
pub trait VxArg { spec fn at(&self) -> Seq<char>; }
impl VxArg for str { open spec fn at(&self) -> Seq<char> { self@ } }
impl VxArg for String { open spec fn at(&self) -> Seq<char> { self@ } }
impl VxArg for OsString { open spec fn at(&self) -> Seq<char> { self.t() } }
impl<T: VxArg + ?Sized> VxArg for &T { open spec fn at(&self) -> Seq<char> { (**self).at() } }
#[verifier::external_body]
pub struct Stdio { _p: () }
impl Stdio {
    #[verifier::external_body]
    pub fn null() -> Stdio { unimplemented!() }
    #[verifier::external_body]
    pub fn piped() -> Stdio { unimplemented!() }
}
#[verifier::external_body]
pub struct ChildPipe { _p: () }
pub type ChildStdin = ChildPipe;
pub type ChildStdout = ChildPipe;
pub type ChildStderr = ChildPipe;
#[verifier::external_body]
pub struct ExitStatus { _p: () }
impl ExitStatus {
    pub uninterp spec fn ok(&self) -> bool;
    #[verifier::external_body]
    pub fn success(&self) -> (r: bool) ensures r == self.ok() { unimplemented!() }
    /// none of a process ended by a signal
    #[verifier::external_body]
    pub fn code(&self) -> (r: Option<i32>) ensures self.ok() == (r == Some(0i32)) { unimplemented!() }
}
pub struct Child { pub vx_cwd: Ghost<Seq<Component>>, pub vx_args: Ghost<Seq<Seq<char>>>, pub stdin: Option<ChildPipe>, pub stdout: Option<ChildPipe>, pub stderr: Option<ChildPipe> }
impl Child {
    #[verifier::external_body]
    pub fn wait(&mut self) -> (r: core::result::Result<ExitStatus, IoError>)
        ensures r is Ok && r->Ok_0.ok() ==> ran_ok(old(self).vx_cwd@, old(self).vx_args@) { unimplemented!() }
}
#[verifier::external_body]
pub struct Command { _p: () }
impl Command {
    pub uninterp spec fn args(&self) -> Seq<Seq<char>>;
    pub uninterp spec fn cwd(&self) -> Seq<Component>;
    #[verifier::external_body]
    pub fn new<A: VxArg>(a: A) -> (r: Command) ensures r.args() == seq![a.at()] { unimplemented!() }
    #[verifier::external_body]
    pub fn arg<A: VxArg>(&mut self, a: A) ensures final(self).args() == old(self).args().push(a.at()), final(self).cwd() == old(self).cwd() { unimplemented!() }
    #[verifier::external_body]
    pub fn current_dir(&mut self, p: &Path) ensures final(self).args() == old(self).args(), final(self).cwd() == p.c() { unimplemented!() }
    #[verifier::external_body]
    pub fn stdin(&mut self, s: Stdio) ensures final(self).args() == old(self).args(), final(self).cwd() == old(self).cwd() { unimplemented!() }
    #[verifier::external_body]
    pub fn stdout(&mut self, s: Stdio) ensures final(self).args() == old(self).args(), final(self).cwd() == old(self).cwd() { unimplemented!() }
    #[verifier::external_body]
    pub fn stderr(&mut self, s: Stdio) ensures final(self).args() == old(self).args(), final(self).cwd() == old(self).cwd() { unimplemented!() }
    #[verifier::external_body]
    pub fn env<A: VxArg, B: VxArg>(&mut self, k: A, v: B) ensures final(self).args() == old(self).args(), final(self).cwd() == old(self).cwd() { unimplemented!() }
    #[verifier::external_body]
    pub fn spawn(&mut self) -> (r: core::result::Result<Child, IoError>)
        requires may_exec(old(self).cwd(), old(self).args())
        ensures r is Ok ==> r->Ok_0.vx_cwd@ == old(self).cwd() && r->Ok_0.vx_args@ == old(self).args() { unimplemented!() }
}
#[verifier::external_body]
pub struct Paths { _p: () }
impl Paths { #[verifier::external_body] pub fn to_string_lossy(&self) -> (r: String) { unimplemented!() } }
#[verifier::external_body]
pub fn vx_join_paths(p: &Vec<PathBuf>) -> (r: core::result::Result<Paths, JoinPathsError>) { unimplemented!() }
pub mod dunce {
    use super::*;
    #[verifier::external_body]
    pub fn canonicalize(p: &Path) -> (r: core::result::Result<PathBuf, IoError>) ensures r is Ok ==> r->Ok_0.c() == canon(p.c()) { unimplemented!() }
}
/// is the shell Windows's cmd
#[verifier::external_body]
pub fn vx_is_cmd(s: &String) -> (r: bool) ensures s@ == "sh"@ ==> !r { unimplemented!() }
impl Path {
    #[verifier::external_body]
    pub fn ancestors(&self) -> (r: Iter<&Path>) { unimplemented!() }
}

// ---- the code: oro-script ------------------------------
//@item crates/oro-script/src/lib.rs OroScript
//@end
//@item crates/oro-script/src/lib.rs ScriptChild
//@end
impl<'a> OroScript<'a> {
    pub open spec fn ready(&self, dir: Seq<Component>, event: Seq<char>) -> bool {
        &&& self.manifest is None && self.event@ == event && self.package_path.c() == canon(dir)
        &&& self.cmd.args() =~= seq!["sh"@, "-c"@] && self.cmd.cwd() == canon(dir)
    }
    #[verifier::external_body]
    fn get_existing_paths() -> Vec<PathBuf> { unimplemented!() }
    #[verifier::external_body]
    fn current_paths() -> Iter<(OsString, Vec<PathBuf>)> { unimplemented!() }
//@fn crates/oro-script/src/lib.rs OroScript::new
    ensures ret is Ok ==> ret->Ok_0.ready(package_path.c(), event@)
//@subst impl AsRef<Path> =>> &Path
//@subst impl AsRef<str> =>> &str
//@subst? package_path.as_ref() =>> package_path
//@subst? event.as_ref().into() =>> event.to_string()
//@subst? Regex::new($0).unwrap().is_match(&$1) =>> vx_is_cmd(&$1)
//@subst? cfg!(target_os = "windows") =>> false
//@subst? std::env::var_os("ComSpec") =>> None
//@end
//@fn crates/oro-script/src/lib.rs OroScript::workspace_path
    ensures forall|d: Seq<Component>, e: Seq<char>| #![trigger self.ready(d, e)] #![trigger ret.ready(d, e)] self.ready(d, e) ==> ret.ready(d, e)
//@subst impl AsRef<Path> =>> &Path
//@end
//@fn crates/oro-script/src/lib.rs OroScript::env
    ensures forall|d: Seq<Component>, e: Seq<char>| #![trigger self.ready(d, e)] #![trigger ret.ready(d, e)] self.ready(d, e) ==> ret.ready(d, e), ret.workspace_path == self.workspace_path, ret.paths == self.paths
//@subst impl AsRef<OsStr> =>> String
//@subst? key.as_ref() =>> key
//@subst? value.as_ref() =>> value
//@end
//@fn crates/oro-script/src/lib.rs OroScript::set_all_paths
    ensures ret is Ok ==> forall|d: Seq<Component>, e: Seq<char>| #![trigger self.ready(d, e)] #![trigger ret->Ok_0.ready(d, e)] self.ready(d, e) ==> ret->Ok_0.ready(d, e)
//@attr #[verifier::exec_allows_no_decreases_clause]
//@subst? std::env::join_paths =>> vx_join_paths
//@loop 0
    invariant forall|d: Seq<Component>, e: Seq<char>| #![trigger self.ready(d, e)] #![trigger vx_self.ready(d, e)] self.ready(d, e) ==> vx_self.ready(d, e)
//@loop 1
    invariant forall|d: Seq<Component>, e: Seq<char>| #![trigger self.ready(d, e)] #![trigger vx_self.ready(d, e)] self.ready(d, e) ==> vx_self.ready(d, e)
//@end
//@fn crates/oro-script/src/lib.rs OroScript::set_script
    ensures ret is Ok ==> forall|d: Seq<Component>, e: Seq<char>| #[trigger] self.ready(d, e) ==> scripts_of(d).contains_key(e)
        && ret->Ok_0.cmd.args() =~= sh(scripts_of(d)[e]) && ret->Ok_0.cmd.cwd() == canon(d)
//@at body_start
    proof {
        assert forall|d: Seq<Component>| true implies (#[trigger] joined(d, path_of("package.json"@))).len() > 0 && joined(d, path_of("package.json"@)).drop_last() == d by { lemma_json(d); }
        assert forall|d: Seq<Component>| true implies scripts_of(#[trigger] canon(d)) == scripts_of(d) by { canon_same(d); }
    }
//@end
//@fn crates/oro-script/src/lib.rs OroScript::spawn
    requires exists|d: Seq<Component>, e: Seq<char>| #[trigger] self.ready(d, e) && (scripts_of(d).contains_key(e) ==> may_exec(canon(d), sh(scripts_of(d)[e])))
    ensures ret is Ok ==> forall|d: Seq<Component>, e: Seq<char>| #[trigger] self.ready(d, e) ==> scripts_of(d).contains_key(e)
        && ret->Ok_0.child.vx_cwd@ == canon(d) && ret->Ok_0.child.vx_args@ == sh(scripts_of(d)[e])
//@subst? $0.map(ScriptChild::new) =>> $0.map(|c: Child| -> (r: ScriptChild) ensures r.child.vx_cwd == c.vx_cwd, r.child.vx_args == c.vx_args { ScriptChild::new(c) })
//@subst? OroScriptError::SpawnError =>> (|e: IoError| OroScriptError::SpawnError(e))
//@end
}
impl ScriptChild {
//@fn crates/oro-script/src/lib.rs ScriptChild::new
    ensures ret.child.vx_cwd == child.vx_cwd, ret.child.vx_args == child.vx_args
//@end
//@fn crates/oro-script/src/lib.rs ScriptChild::wait
    ensures ret is Ok ==> ran_ok(self.child.vx_cwd@, self.child.vx_args@)
//@subst? OroScriptError::ScriptProcessError =>> (|e: IoError| OroScriptError::ScriptProcessError(e))
//@closure 0 (ExitStatus) -> (r: Result<()>)
    ensures r is Ok ==> $0.ok()
//@end
}

// ---- the code: node-maintainer linkers/mod.rs ------------------------------
pub struct Handler { _p: () }
pub type ScriptLineHandler = Handler;
pub type ScriptStartHandler = Handler;
#[verifier::external_body]
pub fn vx_started(h: &ScriptStartHandler, p: &Package, event: &String) { unimplemented!() }
#[verifier::external_body]
pub fn vx_line(h: &ScriptLineHandler, l: &String) { unimplemented!() }
impl Clone for Handler { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
#[verifier::external_body]
pub struct Lockfile { _p: () }
#[verifier::external_body]
pub struct PruneProgress { _p: () }
#[verifier::external_body]
pub struct ProgressHandler { _p: () }
//@item crates/node-maintainer/src/linkers/mod.rs LinkerOptions
//@end
//@item crates/node-maintainer/src/linkers/mod.rs Linker
//@end
/// the packages whose scripts are to be run
#[verifier::external_body]
pub struct Pending { _p: () }
impl Pending {
    pub uninterp spec fn all(&self) -> Set<NodeIndex>;
}
#[verifier::external_body]
pub fn vx_pending(p: &Pending) -> (r: Vec<NodeIndex>) ensures r@.no_duplicates(), r@.to_set() == p.all() { unimplemented!() }
pub struct IsolatedLinker { pub opts: LinkerOptions, pub pending_rebuild: Pending }
pub struct HoistedLinker { pub opts: LinkerOptions, pub pending_rebuild: Pending }
pub open spec fn opts_of(l: Linker) -> LinkerOptions { match l { Linker::Isolated(i) => i.opts, Linker::Hoisted(h) => h.opts, Linker::Null => arbitrary() } }
pub open spec fn pending_of(l: Linker) -> Set<NodeIndex> { match l { Linker::Isolated(i) => i.pending_rebuild.all(), Linker::Hoisted(h) => h.pending_rebuild.all(), Linker::Null => Set::empty() } }
/// where a package is installed (that it is there: unit linkers)
pub uninterp spec fn installed_at(l: Linker, g: Graph, i: NodeIndex) -> Seq<Component>;
impl IsolatedLinker {
    #[verifier::external_body]
    pub fn package_dir(&self, g: &Graph, i: NodeIndex) -> (r: (PathBuf, PathBuf)) ensures r.0.c() == installed_at(Linker::Isolated(*self), *g, i) { unimplemented!() }
}
impl HoistedLinker {
    #[verifier::external_body]
    pub fn package_dir(&self, g: &Graph, i: NodeIndex) -> (r: (PathBuf, PathBuf)) ensures r.0.c() == installed_at(Linker::Hoisted(*self), *g, i) { unimplemented!() }
}
pub open spec fn dir_of(l: Linker, g: Graph, i: NodeIndex) -> Seq<Component> { if i == g.root { opts_of(l).root.c() } else { installed_at(l, g, i) } }
/// it has a script for this
pub open spec fn declared(l: Linker, g: Graph, i: NodeIndex, event: Seq<char>) -> bool { scripts_of(dir_of(l, g, i)).contains_key(event) }
/// THE PROPERTY, for one package: the script it has for this ran, in its directory, to a good end - or doesn't have to
pub open spec fn through(l: Linker, g: Graph, i: NodeIndex, event: Seq<char>) -> bool {
    declared(l, g, i, event) ==> optional(g, i) || ran_ok(canon(dir_of(l, g, i)), sh(scripts_of(dir_of(l, g, i))[event]))
}
/// only that script of that package may be run, and where it is
pub open spec fn turn(l: Linker, g: Graph, i: NodeIndex, event: Seq<char>) -> bool {
    declared(l, g, i, event) ==> may_exec(canon(dir_of(l, g, i)), sh(scripts_of(dir_of(l, g, i))[event]))
}
pub fn vx_try_join3<A, B, C, E>(a: Result<A, E>, b: Result<B, E>, c: Result<C, E>) -> (r: Result<(A, B, C), E>)
    ensures r is Ok <==> a is Ok && b is Ok && c is Ok
{
    match (a, b, c) { (Ok(a), Ok(b), Ok(c)) => Ok((a, b, c)), (Err(e), _, _) => Err(e), (_, Err(e), _) => Err(e), (_, _, Err(e)) => Err(e) }
}
/// a process's output, line by line
#[verifier::external_body]
pub struct BufReader { _p: () }
impl BufReader {
    #[verifier::external_body]
    pub fn new(p: ChildPipe) -> BufReader { unimplemented!() }
    #[verifier::external_body]
    pub fn lines(self) -> Iter<core::result::Result<String, IoError>> { unimplemented!() }
}

/// What futures' unbounded channel and `try_for_each_concurrent` do with the packages sent to them: all that
/// are sent are started, as far as the concurrency allows, and come to their end one after the other, in any
/// order at all. (What runs in between is behind the lock, so one end is dealt with before the next.)
pub struct Sched {
    pub l: Ghost<Linker>, pub g: Ghost<Graph>, pub event: Ghost<Seq<char>>,
    /// told to start; whose end has come; whose script is over
    pub sent: Ghost<Set<NodeIndex>>, pub done: Ghost<Set<NodeIndex>>, pub over: Ghost<Set<NodeIndex>>,
    pub closed: Ghost<bool>, pub cur: Ghost<Option<NodeIndex>>,
}
impl Sched {
    pub open spec fn p(&self) -> Set<NodeIndex> { pending_of(self.l@) }
    pub open spec fn same(&self, o: &Self) -> bool { self.l == o.l && self.g == o.g && self.event == o.event }
    pub fn new(l: &Linker, g: &Graph, event: &str) -> (r: Self)
        ensures r.l@ == *l, r.g@ == *g, r.event@ == event@, r.sent@ == Set::<NodeIndex>::empty(), r.done@ == r.sent@, r.over@ == r.sent@, !r.closed@, r.cur@ is None
    { Sched { l: Ghost(*l), g: Ghost(*g), event: Ghost(event@), sent: Ghost(Set::empty()), done: Ghost(Set::empty()), over: Ghost(Set::empty()), closed: Ghost(false), cur: Ghost(None) } }
    /// a package is started: once, and when what it waits for is over
    pub fn send(&mut self, i: NodeIndex) -> (r: Result<(), NodeMaintainerError>)
        requires !old(self).closed@, old(self).p().contains(i), !old(self).sent@.contains(i),
            forall|d: NodeIndex| #[trigger] old(self).p().contains(d) && waits(old(self).g@, i, d) ==> old(self).over@.contains(d)
        ensures final(self).same(old(self)), final(self).sent@ == old(self).sent@.insert(i), final(self).done == old(self).done, final(self).over == old(self).over,
            final(self).closed == old(self).closed, final(self).cur == old(self).cur, r is Ok
    { self.sent = Ghost(self.sent@.insert(i)); Ok(()) }
    /// nothing more comes
    pub fn close(&mut self)
        ensures *final(self) == (Sched { closed: Ghost(true), ..*old(self) })
    { self.closed = Ghost(true); }
    /// whoever comes to its end next; nothing would ever happen again if nobody was started and more was to come
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<NodeIndex>)
        requires old(self).cur@ is None, old(self).closed@ || exists|i: NodeIndex| #[trigger] old(self).sent@.contains(i) && !old(self).done@.contains(i)
        ensures final(self).same(old(self)), final(self).sent == old(self).sent, final(self).over == old(self).over, final(self).closed == old(self).closed,
            r matches Some(i) ==> old(self).sent@.contains(i) && !old(self).done@.contains(i) && final(self).done@ == old(self).done@.insert(i) && final(self).cur@ == Some(i),
            r is None ==> final(self).cur@ is None && final(self).done == old(self).done && old(self).closed@ && old(self).sent@.subset_of(old(self).done@) { unimplemented!() }
    /// (the linker's run_dep_script, and that it was called)
    pub fn run(&mut self, l: &Linker, graph: &Graph, idx: NodeIndex, event: &str, opts: &LinkerOptions) -> (r: Result<(), NodeMaintainerError>)
        requires old(self).cur@ == Some(idx), old(self).l@ == *l, old(self).g@ == *graph, old(self).event@ == event@, *opts == opts_of(*l),
            !(l is Null), idx == graph.root || graph.inner.nodes().contains_key(idx), graph.inner.nodes().contains_key(idx), turn(*l, *graph, idx, event@)
        ensures *final(self) == (Sched { cur: Ghost(None), over: Ghost(old(self).over@.insert(idx)), ..*old(self) }), r is Ok ==> through(*l, *graph, idx, event@)
    {
        let r = l.run_dep_script(graph, idx, event, opts);
        self.cur = Ghost(None);
        self.over = Ghost(self.over@.insert(idx));
        r
    }
}
/// who waits for whom among those there are
pub open spec fn before(g: Graph, p: Set<NodeIndex>, i: NodeIndex, d: NodeIndex) -> bool { p.contains(d) && waits(g, i, d) }
/// what is left to wait for
pub open spec fn left(c: Sched, i: NodeIndex, d: NodeIndex) -> bool { before(c.g@, c.p(), i, d) && !c.done@.contains(d) }
/// nobody is forgotten, and nobody waits for anything but what isn't over
pub open spec fn going(c: Sched, rem: Map<NodeIndex, HashSet<NodeIndex>>) -> bool {
    &&& forall|i: NodeIndex| #[trigger] rem.contains_key(i) <==> c.p().contains(i) && !c.sent@.contains(i)
    &&& forall|i: NodeIndex, d: NodeIndex| rem.contains_key(i) ==> (#[trigger] rem[i].s().contains(d) <==> left(c, i, d))
    &&& forall|i: NodeIndex| #[trigger] rem.contains_key(i) ==> rem[i].s() != Set::<NodeIndex>::empty()
    &&& c.done@.subset_of(c.sent@) && c.sent@.subset_of(c.p())
    &&& c.closed@ <==> rem == Map::<NodeIndex, HashSet<NodeIndex>>::empty()
    &&& forall|i: NodeIndex| #[trigger] c.done@.contains(i) ==> through(c.l@, c.g@, i, c.event@)
}
pub open spec fn seen(a: Seq<(NodeIndex, HashSet<NodeIndex>)>, n: int, i: NodeIndex) -> bool { exists|k: int| 0 <= k < n && (#[trigger] a[k]).0 == i }
pub open spec fn noted(a: Seq<&NodeIndex>, n: int, i: NodeIndex) -> bool { exists|k: int| 0 <= k < n && *(#[trigger] a[k]) == i }
/// somebody is always on
pub proof fn lemma_going(c: Sched, rem: Map<NodeIndex, HashSet<NodeIndex>>)
    requires going(c, rem)
    ensures c.closed@ || exists|i: NodeIndex| #[trigger] c.sent@.contains(i) && !c.done@.contains(i),
        c.done@.len() <= c.p().len(),
        c.closed@ && c.sent@.subset_of(c.done@) ==> forall|i: NodeIndex| #[trigger] c.p().contains(i) ==> c.done@.contains(i),
{
    vstd::set_lib::lemma_len_subset(c.done@, c.p());
    if !c.closed@ {
        let w = c.p().difference(c.sent@);
        if rem =~= Map::<NodeIndex, HashSet<NodeIndex>>::empty() {}
        let k = choose|k: NodeIndex| #[trigger] rem.contains_key(k);
        assert(w.contains(k));
        if w.len() == 0 { assert(w =~= Set::empty()); }
        lemma_first(c.g@, w);
        let x = choose|x: NodeIndex| #[trigger] w.contains(x) && forall|d: NodeIndex| w.contains(d) ==> !waits(c.g@, x, d);
        assert(rem.contains_key(x));
        let d = rem[x].s().choose();
        assert(rem[x].s().contains(d)) by { if forall|y: NodeIndex| !rem[x].s().contains(y) { assert(rem[x].s() =~= Set::empty()); } }
        assert(left(c, x, d));
        if !c.sent@.contains(d) { assert(w.contains(d)); }
    } else {
        assert forall|i: NodeIndex| c.sent@.subset_of(c.done@) && #[trigger] c.p().contains(i) implies c.done@.contains(i) by {
            if !c.sent@.contains(i) { assert(rem.contains_key(i)); }
        }
    }
}
impl Linker {
//@fn crates/node-maintainer/src/linkers/mod.rs Linker::run_scripts
    requires forall|i: NodeIndex| #[trigger] pending_of(*self).contains(i) ==> graph.inner.nodes().contains_key(i) && turn(*self, *graph, i, event@)
    ensures ret is Ok ==> forall|i: NodeIndex| #[trigger] pending_of(*self).contains(i) ==> through(*self, *graph, i, event@)
//@m iter => vx_items
//@m collect => vx_collect
//@subst pending_rebuild.lock().await.iter().copied().collect::<Vec<_>>() =>> vx_pending(pending_rebuild)
//@closure 0 (NodeIndex, NodeIndex) -> (r: bool)
    ensures r == waits(*graph, $0, $1)
//@closure 1 (&NodeIndex) -> (r: (NodeIndex, HashSet<NodeIndex>))
    ensures r.0 == *$0, forall|d: NodeIndex| #[trigger] r.1.s().contains(d) <==> before(*graph, pending_of(*self), r.0, d)
//@closure 2 (&NodeIndex) -> (r: (NodeIndex, HashSet<NodeIndex>))
    ensures r.0 == *$0, forall|d: NodeIndex| #[trigger] r.1.s().contains(d) <==> pending_of(*self).contains(d) && waits(*graph, d, r.0)
//@loop 0
    invariant 0 <= $it.pos() <= $it.all().len(), $it.all().len() == pending@.len(), forall|k: int| 0 <= k < pending@.len() ==> *(#[trigger] $it.all()[k]) == pending@[k],
        forall|d: NodeIndex| #[trigger] deps.s().contains(d) <==> waits(*graph, *idx, d) && exists|k: int| 0 <= k < $it.pos() && pending@[k] == d
    decreases $it.all().len() - $it.pos()
//@loop 1
    invariant 0 <= $it.pos() <= $it.all().len(), $it.all().len() == pending@.len(), forall|k: int| 0 <= k < pending@.len() ==> *(#[trigger] $it.all()[k]) == pending@[k],
        forall|d: NodeIndex| #[trigger] deps.s().contains(d) <==> waits(*graph, d, *idx) && exists|k: int| 0 <= k < $it.pos() && pending@[k] == d
    decreases $it.all().len() - $it.pos()
//@subst Arc::new(Mutex::new(HashMap::new())) =>> HashMap::<NodeIndex, HashSet<NodeIndex>>::new()
//@subst? Arc::new($0,) =>> $0
//@subst? Arc::new($0) =>> $0
//@subst let remaining = $0; =>> let mut remaining = $0;
//@subst let (sender, receiver) = futures::channel::mpsc::unbounded(); =>> let mut vx_ch = Sched::new(self, graph, event);
//@subst let sender_ref = &sender; =>>
//@subst let mut remaining = remaining_arc.lock().await; =>>
//@subst remaining.lock().await =>> remaining
//@subst sender.unbounded_send(($0, $1, $2)) =>> vx_ch.send($0)
//@subst sender_ref.unbounded_send(($0, $1, $2)) =>> vx_ch.send($0)
//@subst sender.close_channel() =>> vx_ch.close()
//@subst sender_ref.close_channel() =>> vx_ch.close()
//@subst self.run_dep_script($0, $1, $2, $3) =>> vx_ch.run(self, $0, $1, $2, $3)
//@subst receiver.map(Ok).try_for_each_concurrent($0, move |(idx, remaining_arc, dependents)| async move $1,).await?; =>> proof { lemma_going(vx_ch, remaining.m()); } while let Some(idx) = vx_ch.next() invariant going(vx_ch, remaining.m()), vx_ch.l@ == *self, vx_ch.g@ == *graph, vx_ch.event@ == event@, vx_ch.cur@ is None, vx_ch.over@ == vx_ch.done@, vx_ch.closed@ || exists|i: NodeIndex| #[trigger] vx_ch.sent@.contains(i) && !vx_ch.done@.contains(i) decreases pending_of(*self).len() - vx_ch.done@.len() { let ghost was = vx_ch; let vx_ret: Result<(), NodeMaintainerError> = $1; vx_ret?; proof { lemma_going(vx_ch, remaining.m()); } } proof { lemma_going(vx_ch, remaining.m()); }
//@at before for (dep, requires) in
    proof {
        assert forall|i: NodeIndex| #[trigger] pending_of(*self).contains(i) implies dependencies.m().contains_key(i) && dependents.m().contains_key(i) by {
            let k = choose|k: int| 0 <= k < pending@.len() && #[trigger] pending@[k] == i;
            assert(pending@.to_set().contains(i));
        }
    }
//@loop 2
    invariant 0 <= $it.pos() <= $it.all().len(), vx_ch.l@ == *self, vx_ch.g@ == *graph, vx_ch.event@ == event@, vx_ch.cur@ is None, !vx_ch.closed@,
        vx_ch.done@ == Set::<NodeIndex>::empty(), vx_ch.over@ == vx_ch.done@,
        forall|n: int| 0 <= n < $it.all().len() ==> pending_of(*self).contains((#[trigger] $it.all()[n]).0),
        forall|n: int, d: NodeIndex| 0 <= n < $it.all().len() ==> (#[trigger] $it.all()[n].1.s().contains(d) <==> before(*graph, pending_of(*self), $it.all()[n].0, d)),
        forall|n: int, o: int| 0 <= n < o < $it.all().len() ==> (#[trigger] $it.all()[n]).0 != (#[trigger] $it.all()[o]).0,
        forall|i: NodeIndex| #[trigger] pending_of(*self).contains(i) ==> seen($it.all(), $it.all().len() as int, i),
        forall|i: NodeIndex| #[trigger] seen($it.all(), $it.pos(), i) <==> vx_ch.sent@.contains(i) || remaining.m().contains_key(i),
        forall|i: NodeIndex| !(#[trigger] vx_ch.sent@.contains(i) && remaining.m().contains_key(i)),
        vx_ch.sent@.subset_of(pending_of(*self)), forall|i: NodeIndex| #[trigger] remaining.m().contains_key(i) ==> pending_of(*self).contains(i),
        forall|i: NodeIndex| #[trigger] remaining.m().contains_key(i) ==> remaining.m()[i].s() != Set::<NodeIndex>::empty(),
        forall|i: NodeIndex, d: NodeIndex| remaining.m().contains_key(i) ==> (#[trigger] remaining.m()[i].s().contains(d) <==> before(*graph, pending_of(*self), i, d)),
    decreases $it.all().len() - $it.pos()
//@at loop 2 body_start
    proof {
        let all = vx_it2.all(); let n = vx_it2.pos() - 1;
        assert forall|i: NodeIndex| #[trigger] seen(all, n + 1, i) <==> seen(all, n, i) || all[n].0 == i by {
            if seen(all, n, i) { let k = choose|k: int| 0 <= k < n && (#[trigger] all[k]).0 == i; assert(all[k].0 == i); }
            if all[n].0 == i {}
        }
        assert(!seen(all, n, dep));
        assert(forall|d: NodeIndex| #[trigger] all[n].1.s().contains(d) <==> before(*graph, pending_of(*self), dep, d));
    }
//@at loop 2 after
    proof {
        assert forall|i: NodeIndex| #[trigger] pending_of(*self).contains(i) implies vx_ch.sent@.contains(i) || remaining.m().contains_key(i) by {
            assert(seen(vx_it2.all(), vx_it2.all().len() as int, i));
        }
    }
//@at loop 3 iter
    proof {
        assert forall|i: NodeIndex| #[trigger] pending_of(*self).contains(i) && waits(*graph, i, idx) implies noted(vx_it3.all(), vx_it3.all().len() as int, i) by {
            assert(dependents_set.s().contains(i));
        }
    }
//@at loop 3 body_start
    proof {
        let all = vx_it3.all(); let n = vx_it3.pos() - 1;
        assert forall|i: NodeIndex| #[trigger] noted(all, n + 1, i) <==> noted(all, n, i) || *all[n] == i by {
            if noted(all, n, i) { let k = choose|k: int| 0 <= k < n && *(#[trigger] all[k]) == i; assert(*all[k] == i); }
            if *all[n] == i {}
        }
    }
    let ghost r0 = remaining.m();
//@at before sender_ref.unbounded_send
    assert forall|d: NodeIndex| pending_of(*self).contains(d) && waits(*graph, *dependent, d) implies #[trigger] vx_ch.over@.contains(d) by {
        assert(before(*graph, pending_of(*self), *dependent, d));
        assert(!r0[*dependent].s().remove(idx).contains(d));
    }
//@loop 3
    invariant 0 <= $it.pos() <= $it.all().len(), vx_ch.same(&was), vx_ch.done == was.done, vx_ch.over@ == vx_ch.done@, vx_ch.closed == was.closed, vx_ch.cur@ is None,
        vx_ch.closed@ ==> remaining.m() == Map::<NodeIndex, HashSet<NodeIndex>>::empty(),
        forall|i: NodeIndex| #[trigger] remaining.m().contains_key(i) <==> pending_of(*self).contains(i) && !vx_ch.sent@.contains(i),
        forall|i: NodeIndex| #[trigger] remaining.m().contains_key(i) ==> remaining.m()[i].s() != Set::<NodeIndex>::empty(),
        forall|i: NodeIndex, d: NodeIndex| remaining.m().contains_key(i) ==> (#[trigger] remaining.m()[i].s().contains(d)
            <==> before(*graph, pending_of(*self), i, d) && (!vx_ch.done@.contains(d) || (d == idx && !noted($it.all(), $it.pos(), i)))),
        vx_ch.done@.subset_of(vx_ch.sent@), vx_ch.sent@.subset_of(pending_of(*self)),
        forall|i: NodeIndex| #[trigger] pending_of(*self).contains(i) && waits(*graph, i, idx) ==> noted($it.all(), $it.all().len() as int, i),
        forall|n: int| 0 <= n < $it.all().len() ==> pending_of(*self).contains(*#[trigger] $it.all()[n]),
    decreases $it.all().len() - $it.pos()
//@end
//@fn crates/node-maintainer/src/linkers/mod.rs Linker::run_dep_script
    requires !(self is Null), graph.inner.nodes().contains_key(idx), *opts == opts_of(*self), turn(*self, *graph, idx, event@)
    ensures ret is Ok ==> through(*self, *graph, idx, event@),
        ret is Err ==> !optional(*graph, idx) || !readable(dir_of(*self, *graph, idx))
//@attr #[verifier::exec_allows_no_decreases_clause]
//@m io_context => nm_context
//@subst? async_std::task::spawn_blocking =>> vx_spawn_blocking
//@subst? std::mem::drop($0) =>> vx_drop($0)
//@subst? tracing::info_span!($0) =>> vx_span()
//@subst? OroScript::new($0, $1) =>> OroScript::new(&$0, &$1)
//@subst? $0.workspace_path($1) =>> $0.workspace_path(&$1)
//@subst? on_script_start($0, $1) =>> vx_started(on_script_start, $0, $1)
//@subst? on_script_line($0) =>> vx_line(on_script_line, $0)
//@at before let is_optional
    proof { assert(package_dir.c() == dir_of(*self, *graph, idx)); lemma_json(package_dir.c()); }
//@closure 0 (IoError) -> (r: NodeMaintainerError)
    ensures true
//@closure 1 () -> (r: Result<ScriptChild>)
    requires !(self is Null)
    ensures r is Ok ==> r->Ok_0.child.vx_cwd@ == canon(dir_of(*self, *graph, idx)) && r->Ok_0.child.vx_args@ == sh(scripts_of(dir_of(*self, *graph, idx))[event@])
//@closure 2 () -> (r: Result<(), NodeMaintainerError>)
    ensures true
//@closure 4 () -> (r: Result<(), NodeMaintainerError>)
    ensures true
//@closure 6 () -> (r: Result<(), NodeMaintainerError>)
    ensures r is Ok ==> ran_ok(canon(dir_of(*self, *graph, idx)), sh(scripts_of(dir_of(*self, *graph, idx))[event@]))
//@end
}
}
fn main() {}
