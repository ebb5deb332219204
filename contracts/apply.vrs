// Unit: what `oro apply` does and in which order (src/apply_args.rs, node-maintainer maintainer.rs, linkers/mod.rs)
use vstd::prelude::*;
use std::ops::{Index, IndexMut};
verus! {
//@include strings.vrs
//@include case.vrs
//@include path.vrs
//@include iter.vrs
//@include std.vrs
//@include petgraph.vrs

// ---- what the property says: which effects the flags allow ------------------------------
/// `node_modules/` may be changed
pub uninterp spec fn may_install() -> bool;
/// this file may be written with this
pub uninterp spec fn may_write(p: Seq<Component>, text: Seq<char>) -> bool;
/// lifecycle scripts may be run
pub uninterp spec fn may_run_scripts() -> bool;
// what has been done (nothing here is ever undone)
pub uninterp spec fn pruned(l: Linker, g: Graph) -> bool;
pub uninterp spec fn extracted(l: Linker, g: Graph) -> bool;
pub uninterp spec fn linked(l: Linker, g: Graph) -> bool;
pub uninterp spec fn ran(l: Linker, g: Graph, event: Seq<char>) -> bool;
pub uninterp spec fn written(p: Seq<Component>, text: Seq<char>) -> bool;
/// bins are linked, and, unless they are ignored, scripts have run
pub open spec fn built(l: Linker, g: Graph, ignore: bool) -> bool {
    &&& linked(l, g)
    &&& !ignore ==> ran(l, g, "preinstall"@) && ran(l, g, "install"@) && ran(l, g, "postinstall"@)
}
/// ... and the tree is recorded, for the next run to start from
pub open spec fn rebuilt(l: Linker, g: Graph, ignore: bool) -> bool { built(l, g, ignore) && written(meta_path(l), kdl_of(g)) }
pub open spec fn meta_path(l: Linker) -> Seq<Component> {
    joined(joined(opts_of(l).root.c(), path_of("node_modules"@)), path_of(META_FILE_NAME@))
}
/// the record may be written, but only once everything else is through
pub open spec fn may_record(l: Linker, g: Graph, ignore: bool) -> bool { built(l, g, ignore) ==> may_write(meta_path(l), kdl_of(g)) }
/// everything `node_modules/` needs is done
pub open spec fn installed(nm: NodeMaintainer, ignore: bool) -> bool {
    pruned(nm.linker, nm.graph) && extracted(nm.linker, nm.graph) && rebuilt(nm.linker, nm.graph, ignore)
}
/// the tree the resolver finds for this project, in or out of locked mode, given this lockfile
pub uninterp spec fn tree_for(g: Graph, nassun: Nassun, root: CorgiManifest, locked: bool, lock: Option<Lockfile>) -> bool;
/// the project's lockfile, read from there
/// the first of the three that is there, can be read, and says something
pub open spec fn lock_in(dir: Path) -> Option<Lockfile> {
    let k = kdl_at(joined(dir.c(), path_of("package-lock.kdl"@)));
    let n = npm_at(joined(dir.c(), path_of("package-lock.json"@)));
    if k is Some { k } else if n is Some { n } else { npm_at(joined(dir.c(), path_of("npm-shrinkwrap.json"@))) }
}
pub open spec fn kdl_at(p: Seq<Component>) -> Option<Lockfile> { if there(p) && text_at(p) is Some { kdl_says(text_at(p)->0) } else { None } }
pub open spec fn npm_at(p: Seq<Component>) -> Option<Lockfile> { if there(p) && text_at(p) is Some { npm_says(text_at(p)->0) } else { None } }
pub uninterp spec fn there(p: Seq<Component>) -> bool;
/// what is read there, if it can be
pub uninterp spec fn text_at(p: Seq<Component>) -> Option<Seq<char>>;
/// (unit lockfile)
pub uninterp spec fn kdl_says(text: Seq<char>) -> Option<Lockfile>;
pub uninterp spec fn npm_says(text: Seq<char>) -> Option<Lockfile>;
/// the lockfile a resolution goes by: the one given, else the project's
pub open spec fn lock_used(o: NodeMaintainerOptions) -> Option<Lockfile> {
    if o.kdl_lock is Some { o.kdl_lock } else if o.npm_lock is Some { o.npm_lock } else if o.root is Some { lock_in(o.root->0) } else { None }
}
/// the text of a tree's lockfile
pub uninterp spec fn kdl_of(g: Graph) -> Seq<char>;
pub uninterp spec fn nassun_of(a: NassunArgs) -> Nassun;

// ---- assumed contracts ------------------------------
#[verifier::external_body]
pub struct Report { _p: () }
impl From<NodeMaintainerError> for Report {
    #[verifier::external_body]
    fn from(e: NodeMaintainerError) -> Self { unimplemented!() }
}
pub type Result<T, E = Report> = core::result::Result<T, E>;
pub enum NodeMaintainerError { Other(IoError) }
#[verifier::external_body]
pub struct IoError { _p: () }
pub trait IoContext<T>: Sized {
    fn io_context<F>(self, f: F) -> (r: Result<T, NodeMaintainerError>);
}
impl<T> IoContext<T> for core::result::Result<T, IoError> {
    #[verifier::external_body]
    fn io_context<F>(self, f: F) -> (r: Result<T, NodeMaintainerError>)
        ensures r is Ok <==> self is Ok, r is Ok ==> r->Ok_0 == self->Ok_0 { unimplemented!() }
}
#[verifier::external_body]
pub struct Instant { _p: () }
impl Instant {
    #[verifier::external_body]
    pub fn now() -> Instant { unimplemented!() }
}
// tracing's and indicatif's progress bars
#[verifier::external_body]
pub struct Span { _p: () }
#[verifier::external_body]
pub struct Entered<'a> { _p: &'a () }
#[verifier::external_body]
pub struct ProgressStyle { _p: () }
#[verifier::external_body]
pub fn vx_span() -> Span { unimplemented!() }
#[verifier::external_body]
pub fn vx_drop<T>(t: T) { unimplemented!() }
#[verifier::external_body]
pub fn vx_style() -> ProgressStyle { unimplemented!() }
impl Span {
    #[verifier::external_body]
    pub fn pb_set_style(&self, s: &ProgressStyle) { unimplemented!() }
    #[verifier::external_body]
    pub fn pb_set_length(&self, s: u64) { unimplemented!() }
    #[verifier::external_body]
    pub fn enter(&self) -> Entered<'_> { unimplemented!() }
}
pub trait Instrument: Sized { fn instrument(self, s: Span) -> (r: Self) ensures r == self; }
impl<T> Instrument for T { #[verifier::external_body] fn instrument(self, s: Span) -> (r: Self) { unimplemented!() } }
#[verifier::external_body]
pub struct Url { _p: () }
#[verifier::external_body]
pub struct Nassun { _p: () }
#[verifier::external_body]
pub struct NassunOpts { _p: () }
#[verifier::external_body]
pub struct Lockfile { _p: () }
impl Clone for Lockfile {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
#[verifier::external_body]
pub struct CorgiManifest { _p: () }
impl Clone for CorgiManifest {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
#[verifier::external_body]
pub struct Package { _p: () }
#[verifier::external_body]
pub struct Node { _p: () }
#[verifier::external_body]
pub struct Edge { _p: () }
#[verifier::external_body]
pub struct ProgressAdded { _p: () }
#[verifier::external_body]
pub struct ProgressHandler { _p: () }
#[verifier::external_body]
pub struct PruneProgress { _p: () }
#[verifier::external_body]
pub struct ScriptStartHandler { _p: () }
#[verifier::external_body]
pub struct ScriptLineHandler { _p: () }
#[verifier::external_body]
pub struct Pending { _p: () }
pub trait VxStrArg { spec fn sv(&self) -> Seq<char>; }
impl VxStrArg for &str { open spec fn sv(&self) -> Seq<char> { (**self)@ } }

//@item src/apply_args.rs ApplyArgs
//@end
//@item src/nassun_args.rs NassunArgs
//@end
//@item crates/node-maintainer/src/maintainer.rs NodeMaintainerOptions
//@end
//@item crates/node-maintainer/src/maintainer.rs NodeMaintainer
//@end
//@item crates/node-maintainer/src/linkers/mod.rs LinkerOptions
//@end
//@item crates/node-maintainer/src/linkers/mod.rs Linker
//@end
/// petgraph's graph and the index of its root
#[verifier::external_body]
pub struct Graph { _p: () }
//@item crates/node-maintainer/src/maintainer.rs META_FILE_NAME
//@end
pub const DEFAULT_CONCURRENCY: usize = 50;
pub const DEFAULT_SCRIPT_CONCURRENCY: usize = 6;
#[verifier::external_body]
pub struct KdlDocument { _p: () }
impl KdlDocument {
    pub uninterp spec fn txt(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String) ensures r@ == self.txt() { unimplemented!() }
}
impl Graph {
    /// (its nodes and their names: unit graph; its text: executed)
    #[verifier::external_body]
    pub fn to_kdl(&self) -> (r: Result<KdlDocument, NodeMaintainerError>) ensures r is Ok ==> r->Ok_0.txt() == kdl_of(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn validate(&self) -> Result<(), NodeMaintainerError> { unimplemented!() }
}
pub mod fs {
    use super::*;
    #[verifier::external_body]
    pub fn write(p: &Path, s: String) -> (r: core::result::Result<(), IoError>)
        requires may_write(p.c(), s@)
        ensures r is Ok ==> written(p.c(), s@) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove_file(p: &Path) -> (r: core::result::Result<(), IoError>)
        requires may_clear(p.c()) { unimplemented!() }
    #[verifier::external_body]
    pub fn read_to_string(p: &Path) -> (r: core::result::Result<String, IoError>)
        ensures r is Ok <==> text_at(p.c()) is Some, r is Ok ==> r->Ok_0@ == text_at(p.c())->0 { unimplemented!() }
}
/// (unit lockfile)
#[verifier::external_body]
pub fn vx_from_kdl(t: String) -> (r: Result<Lockfile, NodeMaintainerError>)
    ensures r is Ok <==> kdl_says(t@) is Some, r is Ok ==> Some(r->Ok_0) == kdl_says(t@) { unimplemented!() }
/// the record orogene keeps of what it installed last, and what it says
pub open spec fn record_path(root: Path) -> Seq<Component> { joined(joined(root.c(), path_of("node_modules"@)), path_of(META_FILE_NAME@)) }
pub open spec fn record_at(p: Seq<Component>) -> Option<Lockfile> { if text_at(p) is Some { kdl_says(text_at(p)->0) } else { None } }
/// it may be taken away, but only when it says nothing
pub open spec fn may_discard(p: Seq<Component>) -> bool { record_at(p) is None ==> may_clear(p) }
impl Path {
    #[verifier::external_body]
    pub fn exists(&self) -> (r: bool) ensures r == there(self.c()) { unimplemented!() }
}
/// the text, read as a lockfile
#[verifier::external_body]
pub fn vx_then(t: Result<String, NodeMaintainerError>, npm: bool) -> (r: Result<Lockfile, NodeMaintainerError>)
    ensures t is Err ==> r is Err, t matches Ok(x) ==> (r is Ok <==> says(npm, x@) is Some) && (r is Ok ==> Some(r->Ok_0) == says(npm, x@)) { unimplemented!() }
pub open spec fn says(npm: bool, t: Seq<char>) -> Option<Lockfile> { if npm { npm_says(t) } else { kdl_says(t) } }
/// the two linkers: what each of these does is unit linkers', bins' and scripts' to prove
pub struct IsolatedLinker { pub opts: LinkerOptions, pub pending_rebuild: Pending }
pub struct HoistedLinker { pub opts: LinkerOptions, pub pending_rebuild: Pending }
impl IsolatedLinker {
    #[verifier::external_body]
    pub fn new(opts: LinkerOptions) -> (r: Self) ensures r.opts == opts { unimplemented!() }
    #[verifier::external_body]
    pub fn prune(&self, g: &Graph) -> (r: Result<usize, NodeMaintainerError>)
        requires may_install() ensures r is Ok ==> pruned(Linker::Isolated(*self), *g) { unimplemented!() }
    #[verifier::external_body]
    pub fn extract(&self, g: &Graph) -> (r: Result<usize, NodeMaintainerError>)
        requires may_install(), pruned(Linker::Isolated(*self), *g) ensures r is Ok ==> extracted(Linker::Isolated(*self), *g) { unimplemented!() }
    #[verifier::external_body]
    pub fn link_bins(&self, g: &Graph) -> (r: Result<usize, NodeMaintainerError>)
        requires may_install(), extracted(Linker::Isolated(*self), *g) ensures r is Ok ==> linked(Linker::Isolated(*self), *g) { unimplemented!() }
}
impl HoistedLinker {
    #[verifier::external_body]
    pub fn new(opts: LinkerOptions) -> (r: Self) ensures r.opts == opts { unimplemented!() }
    #[verifier::external_body]
    pub fn prune(&self, g: &Graph) -> (r: Result<usize, NodeMaintainerError>)
        requires may_install() ensures r is Ok ==> pruned(Linker::Hoisted(*self), *g) { unimplemented!() }
    #[verifier::external_body]
    pub fn extract(&self, g: &Graph) -> (r: Result<usize, NodeMaintainerError>)
        requires may_install(), pruned(Linker::Hoisted(*self), *g) ensures r is Ok ==> extracted(Linker::Hoisted(*self), *g) { unimplemented!() }
    #[verifier::external_body]
    pub fn link_bins(&self, g: &Graph) -> (r: Result<usize, NodeMaintainerError>)
        requires may_install(), extracted(Linker::Hoisted(*self), *g) ensures r is Ok ==> linked(Linker::Hoisted(*self), *g) { unimplemented!() }
}
pub open spec fn opts_of(l: Linker) -> LinkerOptions { match l { Linker::Isolated(i) => i.opts, Linker::Hoisted(h) => h.opts, Linker::Null => arbitrary() } }
/// the order of npm's lifecycle: nothing runs before what goes before it is through
pub open spec fn turn_of(l: Linker, g: Graph, event: Seq<char>) -> bool {
    &&& extracted(l, g)
    &&& event == "preinstall"@ || (event == "install"@ && ran(l, g, "preinstall"@) && linked(l, g))
        || (event == "postinstall"@ && ran(l, g, "install"@) && ran(l, g, "preinstall"@) && linked(l, g))
}

// ---- the code: node-maintainer linkers/mod.rs ------------------------------
impl Linker {
    /// (unit scripts)
    #[verifier::external_body]
    pub fn run_scripts(&self, g: &Graph, event: &str) -> (r: Result<(), NodeMaintainerError>)
        requires may_run_scripts(), may_install(), turn_of(*self, *g, event@)
        ensures r is Ok ==> ran(*self, *g, event@) { unimplemented!() }
//@fn crates/node-maintainer/src/linkers/mod.rs Linker::isolated
    ensures ret is Isolated, opts_of(ret) == opts
//@end
//@fn crates/node-maintainer/src/linkers/mod.rs Linker::hoisted
    ensures ret is Hoisted, opts_of(ret) == opts
//@end
//@fn crates/node-maintainer/src/linkers/mod.rs Linker::prune
    requires may_install(), !(self is Null)
    ensures ret is Ok ==> pruned(*self, *graph)
//@end
//@fn crates/node-maintainer/src/linkers/mod.rs Linker::extract
    requires may_install(), !(self is Null), pruned(*self, *graph)
    ensures ret is Ok ==> extracted(*self, *graph)
//@end
//@fn crates/node-maintainer/src/linkers/mod.rs Linker::link_bins
    requires may_install(), !(self is Null), extracted(*self, *graph)
    ensures ret is Ok ==> linked(*self, *graph)
//@subst? std::time::Instant::now() =>> Instant::now()
//@end
//@fn crates/node-maintainer/src/linkers/mod.rs Linker::write_meta
    requires !(self is Null), may_write(meta_path(*self), kdl_of(*graph))
    ensures ret is Ok ==> written(meta_path(*self), kdl_of(*graph))
//@subst? std::fs::write =>> fs::write
//@end
//@fn crates/node-maintainer/src/linkers/mod.rs Linker::rebuild
    requires may_install(), !(self is Null), extracted(*self, *graph), !ignore_scripts ==> may_run_scripts(), may_record(*self, *graph, ignore_scripts)
    ensures ret is Ok ==> rebuilt(*self, *graph, ignore_scripts)
//@subst? std::time::Instant::now() =>> Instant::now()
//@end
}

// ---- the code: node-maintainer maintainer.rs ------------------------------
/// what the resolver is started with: the project alone
pub uninterp spec fn alone(g: Graph, root: CorgiManifest) -> bool;
pub struct Resolver<'a> {
    pub nassun: Nassun,
    pub graph: Graph,
    pub concurrency: usize,
    pub locked: bool,
    pub root: &'a Path,
    pub actual_tree: Option<Lockfile>,
    pub on_resolution_added: Option<ProgressAdded>,
    pub on_resolve_progress: Option<ProgressHandler>,
}
impl<'a> Resolver<'a> {
    /// (proved in unit graph; it starts with load_actual)
    #[verifier::external_body]
    pub fn run_resolver(self, lockfile: Option<Lockfile>) -> (r: Result<(Graph, Option<Lockfile>), NodeMaintainerError>)
        requires may_discard(record_path(*self.root))
        ensures r is Ok ==> r->Ok_0.1 == record_at(record_path(*self.root)), r is Ok ==> forall|m: CorgiManifest| #[trigger] alone(self.graph, m) ==> tree_for(r->Ok_0.0, self.nassun, m, self.locked, lockfile) { unimplemented!() }
//@fn crates/node-maintainer/src/resolver.rs Resolver::load_actual
    requires may_discard(record_path(*old(self).root))
    ensures final(self).graph == old(self).graph, final(self).locked == old(self).locked, final(self).root == old(self).root, final(self).nassun == old(self).nassun,
        // what was installed last is what its own record says, when it says anything
        final(self).actual_tree == record_at(record_path(*old(self).root)),
//@subst? async_std::fs::read_to_string =>> fs::read_to_string
//@subst? async_std::fs::remove_file =>> fs::remove_file
//@option and_then
//@subst? Lockfile::from_kdl($0) =>> vx_from_kdl($0)
//@end
    /// makes the project the tree's root (unit graph: Node::new)
    #[verifier::external_body]
    pub fn vx_set_root(&mut self, pkg: Package, m: CorgiManifest) -> (r: Result<(), NodeMaintainerError>)
        ensures r is Ok ==> alone(final(self).graph, m),
            final(self).locked == old(self).locked, final(self).nassun == old(self).nassun, final(self).root == old(self).root { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_graph() -> Graph { unimplemented!() }
impl Nassun {
    #[verifier::external_body]
    pub fn dummy_from_manifest(m: CorgiManifest) -> Package { unimplemented!() }
}
pub uninterp spec fn nassun_from(o: NassunOpts) -> Nassun;
impl NassunOpts {
    #[verifier::external_body]
    pub fn build(self) -> (r: Nassun) ensures r == nassun_from(self) { unimplemented!() }
    #[verifier::external_body]
    pub fn cache(self, p: Path) -> NassunOpts { unimplemented!() }
    #[verifier::external_body]
    pub fn base_dir(self, p: &Path) -> NassunOpts { unimplemented!() }
    #[verifier::external_body]
    pub fn default() -> NassunOpts { unimplemented!() }
    #[verifier::external_body]
    pub fn registry(self, u: Url) -> (r: NassunOpts) ensures r == opt_registry(self, u) { unimplemented!() }
    #[verifier::external_body]
    pub fn scope_registry(self, s: &str, u: Url) -> (r: NassunOpts) ensures r == opt_scope_registry(self, s@, u) { unimplemented!() }
    #[verifier::external_body]
    pub fn token_auth(self, u: Url, t: &str) -> (r: NassunOpts) ensures r == opt_token_auth(self, u, t@) { unimplemented!() }
    #[verifier::external_body]
    pub fn legacy_auth(self, u: Url, t: &str) -> (r: NassunOpts) ensures r == opt_legacy_auth(self, u, t@) { unimplemented!() }
    #[verifier::external_body]
    pub fn default_tag(self, t: &str) -> (r: NassunOpts) ensures r == opt_default_tag(self, t@) { unimplemented!() }
    #[verifier::external_body]
    pub fn proxy(self, b: bool) -> (r: NassunOpts) ensures r == opt_proxy(self, b) { unimplemented!() }
    #[verifier::external_body]
    pub fn no_proxy_domain(self, d: &str) -> (r: NassunOpts) ensures r == opt_no_proxy_domain(self, d@) { unimplemented!() }
    #[verifier::external_body]
    pub fn basic_auth(self, u: Url, n: &str, p: Option<String>) -> (r: NassunOpts)
        ensures r == opt_basic_auth(self, u, n@, match p { Some(x) => Some(x@), None => None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn proxy_url(self, u: &str) -> (r: core::result::Result<NassunOpts, NassunError>) ensures r is Ok ==> r->Ok_0 == opt_proxy_url(self, u@) { unimplemented!() }
}
// what each of nassun's own options does: units registry and auth
pub uninterp spec fn opt_registry(o: NassunOpts, x0: Url) -> NassunOpts;
pub uninterp spec fn opt_scope_registry(o: NassunOpts, x0: Seq<char>, x1: Url) -> NassunOpts;
pub uninterp spec fn opt_token_auth(o: NassunOpts, x0: Url, x1: Seq<char>) -> NassunOpts;
pub uninterp spec fn opt_legacy_auth(o: NassunOpts, x0: Url, x1: Seq<char>) -> NassunOpts;
pub uninterp spec fn opt_default_tag(o: NassunOpts, x0: Seq<char>) -> NassunOpts;
pub uninterp spec fn opt_proxy(o: NassunOpts, x0: bool) -> NassunOpts;
pub uninterp spec fn opt_no_proxy_domain(o: NassunOpts, x0: Seq<char>) -> NassunOpts;
pub uninterp spec fn opt_basic_auth(o: NassunOpts, u: Url, name: Seq<char>, pw: Option<Seq<char>>) -> NassunOpts;
pub uninterp spec fn opt_proxy_url(o: NassunOpts, u: Seq<char>) -> NassunOpts;
#[verifier::external_body]
pub struct NassunError { _p: () }
impl From<NassunError> for NodeMaintainerError { #[verifier::external_body] fn from(e: NassunError) -> Self { unimplemented!() } }
pub trait VxAsRef { spec fn av(&self) -> Seq<char>; fn vx_as_ref(&self) -> (r: &str) ensures r@ == self.av(); }
impl VxAsRef for str { open spec fn av(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_as_ref(&self) -> (r: &str) { unimplemented!() } }
impl<T: VxAsRef + ?Sized> VxAsRef for &T { open spec fn av(&self) -> Seq<char> { (**self).av() } #[verifier::external_body] fn vx_as_ref(&self) -> (r: &str) { unimplemented!() } }
impl Default for NodeMaintainerOptions {
//@fn crates/node-maintainer/src/maintainer.rs Default@NodeMaintainerOptions::default
    ensures ret.kdl_lock is None, ret.npm_lock is None, ret.nassun is None, ret.root is None, ret.cache is None, !ret.locked, !ret.hoisted, !ret.prefer_copy
//@subst? Default::default() =>> NassunOpts::default()
//@end
}
impl NodeMaintainerOptions {
//@fn crates/node-maintainer/src/maintainer.rs NodeMaintainerOptions::get_lockfile
    ensures ret is Ok, ret->Ok_0 == lock_used(*self)
//@subst? async_std::fs::read_to_string =>> fs::read_to_string
//@subst? $0.and_then(Lockfile::from_kdl) =>> vx_then($0, false)
//@subst? $0.and_then(Lockfile::from_npm) =>> vx_then($0, true)
//@end
//@fn crates/node-maintainer/src/maintainer.rs NodeMaintainerOptions::new
    ensures ret.kdl_lock is None, ret.npm_lock is None, ret.nassun is None, ret.root is None, ret.cache is None, !ret.locked, !ret.hoisted, !ret.prefer_copy
//@subst? Self::default() =>> <NodeMaintainerOptions as Default>::default()
//@end
//@fn crates/node-maintainer/src/maintainer.rs NodeMaintainerOptions::cache
    ensures ret == (NodeMaintainerOptions { nassun_opts: ret.nassun_opts, cache: ret.cache, ..self }), ret.cache is Some && ret.cache->0.c() == cache.c()
//@subst impl AsRef<Path> =>> &Path
//@end
//@fn crates/node-maintainer/src/maintainer.rs NodeMaintainerOptions::concurrency
    ensures ret == (NodeMaintainerOptions { concurrency, ..self })
//@end
//@fn crates/node-maintainer/src/maintainer.rs NodeMaintainerOptions::locked
    ensures ret == (NodeMaintainerOptions { locked, ..self })
//@end
//@fn crates/node-maintainer/src/maintainer.rs NodeMaintainerOptions::script_concurrency
    ensures ret == (NodeMaintainerOptions { script_concurrency: concurrency, ..self })
//@end
//@fn crates/node-maintainer/src/maintainer.rs NodeMaintainerOptions::root
    ensures ret == (NodeMaintainerOptions { nassun_opts: ret.nassun_opts, root: ret.root, ..self }), ret.root is Some && ret.root->0.c() == path.c()
//@subst impl AsRef<Path> =>> &Path
//@end
//@fn crates/node-maintainer/src/maintainer.rs NodeMaintainerOptions::registry
    ensures ret == (NodeMaintainerOptions { nassun_opts: opt_registry(self.nassun_opts, registry), ..self })
//@end
//@fn crates/node-maintainer/src/maintainer.rs NodeMaintainerOptions::scope_registry
    ensures ret == (NodeMaintainerOptions { nassun_opts: opt_scope_registry(self.nassun_opts, scope.av(), registry), ..self })
//@subst? impl AsRef<str> =>> &str
//@m as_ref => vx_as_ref
//@end
//@fn crates/node-maintainer/src/maintainer.rs NodeMaintainerOptions::token_auth
    ensures ret == (NodeMaintainerOptions { nassun_opts: opt_token_auth(self.nassun_opts, registry, token.av()), ..self })
//@subst? impl AsRef<str> =>> &str
//@m as_ref => vx_as_ref
//@end
//@fn crates/node-maintainer/src/maintainer.rs NodeMaintainerOptions::legacy_auth
    ensures ret == (NodeMaintainerOptions { nassun_opts: opt_legacy_auth(self.nassun_opts, registry, legacy_auth_token.av()), ..self })
//@subst? impl AsRef<str> =>> &str
//@m as_ref => vx_as_ref
//@end
//@fn crates/node-maintainer/src/maintainer.rs NodeMaintainerOptions::default_tag
    ensures ret == (NodeMaintainerOptions { nassun_opts: opt_default_tag(self.nassun_opts, tag.av()), ..self })
//@subst? impl AsRef<str> =>> &str
//@m as_ref => vx_as_ref
//@end
//@fn crates/node-maintainer/src/maintainer.rs NodeMaintainerOptions::proxy
    ensures ret == (NodeMaintainerOptions { nassun_opts: opt_proxy(self.nassun_opts, proxy), ..self })
//@end
//@fn crates/node-maintainer/src/maintainer.rs NodeMaintainerOptions::no_proxy_domain
    ensures ret == (NodeMaintainerOptions { nassun_opts: opt_no_proxy_domain(self.nassun_opts, no_proxy_domain.av()), ..self })
//@subst? impl AsRef<str> =>> &str
//@m as_ref => vx_as_ref
//@end
//@fn crates/node-maintainer/src/maintainer.rs NodeMaintainerOptions::basic_auth
    ensures ret == (NodeMaintainerOptions { nassun_opts: opt_basic_auth(self.nassun_opts, registry, username.av(), match password { Some(p) => Some(p.av()), None => None }), ..self })
//@subst? impl AsRef<str> =>> &str
//@m as_ref => vx_as_ref
//@option map
//@end
//@fn crates/node-maintainer/src/maintainer.rs NodeMaintainerOptions::proxy_url
    ensures ret is Ok ==> ret->Ok_0 == (NodeMaintainerOptions { nassun_opts: opt_proxy_url(self.nassun_opts, proxy_url.av()), ..self })
//@subst? impl AsRef<str> =>> &str
//@m as_ref => vx_as_ref
//@end
//@fn crates/node-maintainer/src/maintainer.rs NodeMaintainerOptions::nassun
    ensures ret == (NodeMaintainerOptions { nassun: Some(nassun), ..self })
//@end
//@fn crates/node-maintainer/src/maintainer.rs NodeMaintainerOptions::prefer_copy
    ensures ret == (NodeMaintainerOptions { prefer_copy, ..self })
//@end
//@fn crates/node-maintainer/src/maintainer.rs NodeMaintainerOptions::hoisted
    ensures ret == (NodeMaintainerOptions { hoisted, ..self })
//@end
//@fn crates/node-maintainer/src/maintainer.rs NodeMaintainerOptions::resolve_manifest
    requires self.root is Some ==> may_discard(record_path(self.root->0)), self.root is None ==> forall|p: Path| #[trigger] may_discard(record_path(p))
    ensures ret matches Ok(nm) ==> {
        &&& tree_for(nm.graph, (if self.nassun is Some { self.nassun->0 } else { nassun_from(self.nassun_opts) }), root, self.locked, lock_used(self))
        &&& if self.hoisted { nm.linker is Hoisted } else { nm.linker is Isolated }
        &&& self.root is Some ==> opts_of(nm.linker).root == self.root->0
        // what the linker takes for installed is what was recorded
        &&& self.root is Some ==> opts_of(nm.linker).actual_tree == record_at(record_path(self.root->0))
        &&& opts_of(nm.linker).prefer_copy == self.prefer_copy && opts_of(nm.linker).cache == self.cache
        &&& opts_of(nm.linker).concurrency == self.concurrency && opts_of(nm.linker).script_concurrency == self.script_concurrency
    }
//@closure 0 () -> (r: Nassun)
    ensures r == nassun_from(self.nassun_opts)
//@subst let node = resolver.graph.inner.add_node(Node::new($0, root_pkg, root, true,)?); =>> resolver.vx_set_root(root_pkg, root)?;
//@subst resolver.graph[node].root = node; =>> 
//@subst? Default::default() =>> vx_graph()
//@end
}
impl NodeMaintainer {
    #[verifier::external_body]
    pub fn package_count(&self) -> usize { unimplemented!() }
//@fn crates/node-maintainer/src/maintainer.rs NodeMaintainer::write_lockfile
    requires may_write(path.c(), kdl_of(self.graph))
    ensures ret is Ok ==> written(path.c(), kdl_of(self.graph))
//@subst impl AsRef<Path> =>> &Path
//@end
//@fn crates/node-maintainer/src/maintainer.rs NodeMaintainer::prune
    requires may_install(), !(self.linker is Null)
    ensures ret is Ok ==> pruned(self.linker, self.graph)
//@end
//@fn crates/node-maintainer/src/maintainer.rs NodeMaintainer::extract
    requires may_install(), !(self.linker is Null), pruned(self.linker, self.graph)
    ensures ret is Ok ==> extracted(self.linker, self.graph)
//@end
//@fn crates/node-maintainer/src/maintainer.rs NodeMaintainer::rebuild
    requires may_install(), !(self.linker is Null), extracted(self.linker, self.graph), !ignore_scripts ==> may_run_scripts(), may_record(self.linker, self.graph, ignore_scripts)
    ensures ret is Ok ==> rebuilt(self.linker, self.graph, ignore_scripts)
//@end
}

// ---- the code: src/apply_args.rs ------------------------------
impl NassunArgs {
    /// (unit registry: the same settings)
    #[verifier::external_body]
    pub fn from_apply_args(a: &ApplyArgs) -> (r: Self) ensures r == nassun_args(*a) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_nassun(&self) -> (r: Result<Nassun>) ensures r is Ok ==> r->Ok_0 == nassun_of(*self) { unimplemented!() }
}
pub uninterp spec fn nassun_args(a: ApplyArgs) -> NassunArgs;
/// the options say what the arguments say
pub open spec fn as_asked(o: NodeMaintainerOptions, a: ApplyArgs) -> bool {
    &&& o.kdl_lock is None && o.npm_lock is None
    &&& o.nassun == Some(nassun_of(nassun_args(a)))
    &&& o.locked == a.locked && o.hoisted == a.hoisted && o.prefer_copy == a.prefer_copy
    &&& o.concurrency == a.concurrency && o.script_concurrency == a.script_concurrency
    &&& o.root is Some && o.root->0.c() == a.root.c()
    &&& (o.cache is Some <==> a.cache is Some) && (a.cache is Some ==> o.cache->0.c() == a.cache->0.c())
}
/// the project's tree, and a linker set up for where it goes and how
pub open spec fn for_project(nm: NodeMaintainer, a: ApplyArgs, m: CorgiManifest) -> bool {
    &&& exists|dir: Path| dir.c() == a.root.c() && #[trigger] tree_for(nm.graph, nassun_of(nassun_args(a)), m, a.locked, lock_in(dir))
    &&& if a.hoisted { nm.linker is Hoisted } else { nm.linker is Isolated }
    &&& opts_of(nm.linker).root.c() == a.root.c()
    &&& opts_of(nm.linker).prefer_copy == a.prefer_copy
    &&& (opts_of(nm.linker).cache is Some <==> a.cache is Some)
}
pub open spec fn args_record(a: ApplyArgs) -> Seq<Component> { joined(joined(a.root.c(), path_of("node_modules"@)), path_of(META_FILE_NAME@)) }
pub open spec fn lock_path(a: ApplyArgs) -> Seq<Component> { joined(a.root.c(), path_of("package-lock.kdl"@)) }
/// THE PROPERTY: what the flags ask for is done
pub open spec fn done(a: ApplyArgs, m: CorgiManifest) -> bool {
    exists|nm: NodeMaintainer| #[trigger] for_project(nm, a, m)
        && (!a.lockfile_only ==> installed(nm, !a.scripts))
        && (a.lockfile ==> written(lock_path(a), kdl_of(nm.graph)))
}
/// ... and nothing else: the lockfile only once everything else is through
pub open spec fn allowed(a: ApplyArgs, m: CorgiManifest) -> bool {
    &&& a.apply ==> may_discard(args_record(a))
    &&& a.apply && !a.lockfile_only ==> may_install()
    &&& a.apply && !a.lockfile_only && a.scripts ==> may_run_scripts()
    &&& a.apply && !a.lockfile_only ==> forall|nm: NodeMaintainer| #[trigger] for_project(nm, a, m)
            && pruned(nm.linker, nm.graph) && extracted(nm.linker, nm.graph) ==> may_record(nm.linker, nm.graph, !a.scripts)
    &&& a.apply && a.lockfile ==> forall|nm: NodeMaintainer| #[trigger] for_project(nm, a, m)
            && (!a.lockfile_only ==> installed(nm, !a.scripts)) ==> may_write(lock_path(a), kdl_of(nm.graph))
}
impl ApplyArgs {
//@fn src/apply_args.rs ApplyArgs::execute
    requires allowed(*self, manifest)
    ensures ret is Ok ==> self.apply ==> done(*self, manifest)
//@subst? std::time::Instant::now() =>> Instant::now()
//@m write_lockfile => vx_write_lockfile
//@end
//@fn src/apply_args.rs ApplyArgs::configured_maintainer
    ensures ret is Ok ==> as_asked(ret->Ok_0, *self)
//@subst? $0.on_resolution_added($1) =>> $0
//@subst? $0.on_resolve_progress($1) =>> $0
//@subst? $0.on_prune_progress($1) =>> $0
//@subst? $0.on_extract_progress($1) =>> $0
//@subst? $0.on_script_start($1) =>> $0
//@subst? $0.on_script_line($1) =>> $0
//@m as_deref => vx_as_deref
//@end
//@fn src/apply_args.rs ApplyArgs::resolve
    requires as_asked(builder, *self), may_discard(args_record(*self))
    ensures ret is Ok ==> for_project(ret->Ok_0, *self, root_manifest)
//@subst? std::time::Instant::now() =>> Instant::now()
//@subst? tracing::debug_span!($0) =>> vx_span()
//@subst? tracing::info_span!($0) =>> vx_span()
//@subst? ProgressStyle::default_bar().template($0).unwrap() =>> vx_style()
//@subst? std::mem::drop =>> vx_drop
//@end
//@fn src/apply_args.rs ApplyArgs::prune
    requires may_install(), !(maintainer.linker is Null)
    ensures ret is Ok ==> pruned(maintainer.linker, maintainer.graph)
//@subst? std::time::Instant::now() =>> Instant::now()
//@subst? tracing::debug_span!($0) =>> vx_span()
//@subst? tracing::info_span!($0) =>> vx_span()
//@subst? ProgressStyle::default_bar().template($0).unwrap() =>> vx_style()
//@subst? std::mem::drop =>> vx_drop
//@end
//@fn src/apply_args.rs ApplyArgs::extract
    requires may_install(), !(maintainer.linker is Null), pruned(maintainer.linker, maintainer.graph)
    ensures ret is Ok ==> extracted(maintainer.linker, maintainer.graph)
//@subst? std::time::Instant::now() =>> Instant::now()
//@subst? tracing::debug_span!($0) =>> vx_span()
//@subst? tracing::info_span!($0) =>> vx_span()
//@subst? ProgressStyle::default_bar().template($0).unwrap() =>> vx_style()
//@subst? std::mem::drop =>> vx_drop
//@end
//@fn src/apply_args.rs ApplyArgs::rebuild
    requires may_install(), !(maintainer.linker is Null), extracted(maintainer.linker, maintainer.graph), self.scripts ==> may_run_scripts(), may_record(maintainer.linker, maintainer.graph, !self.scripts)
    ensures ret is Ok ==> rebuilt(maintainer.linker, maintainer.graph, !self.scripts)
//@subst? std::time::Instant::now() =>> Instant::now()
//@subst? tracing::debug_span!($0) =>> vx_span()
//@subst? tracing::info_span!($0) =>> vx_span()
//@subst? ProgressStyle::default_bar().template($0).unwrap() =>> vx_style()
//@subst? std::mem::drop =>> vx_drop
//@end
}
/// what a text says as a package.json
pub uninterp spec fn manifest_says(text: Seq<char>) -> CorgiManifest;
pub open spec fn manifest_path(a: ApplyArgs) -> Seq<Component> { joined(a.root.c(), path_of("package.json"@)) }
#[verifier::external_body]
pub struct JsonError { _p: () }
#[verifier::external_body]
pub fn vx_corgi(s: &String) -> (r: core::result::Result<CorgiManifest, JsonError>) ensures r is Ok ==> r->Ok_0 == manifest_says(s@) { unimplemented!() }
pub trait IntoDiagnostic<T>: Sized { fn into_diagnostic(self) -> (r: Result<T>); }
impl<T, E> IntoDiagnostic<T> for core::result::Result<T, E> {
    #[verifier::external_body]
    fn into_diagnostic(self) -> (r: Result<T>) ensures r is Ok <==> self is Ok, r is Ok ==> r->Ok_0 == self->Ok_0 { unimplemented!() }
}
/// everything at this place and below may be removed
pub uninterp spec fn may_clear(p: Seq<Component>) -> bool;
pub uninterp spec fn cleared(p: Seq<Component>) -> bool;
#[verifier::external_body]
pub fn vx_clear(p: Path) -> (r: core::result::Result<(), IoError>)
    requires may_clear(p.c())
    ensures r is Ok ==> cleared(p.c()) { unimplemented!() }
/// `apply`, forced on, with everything else as given
pub open spec fn forced(a: ApplyArgs) -> ApplyArgs { ApplyArgs { apply: true, ..a } }
pub open spec fn project_done(a: ApplyArgs) -> bool { text_at(manifest_path(a)) is Some && done(forced(a), manifest_says(text_at(manifest_path(a))->0)) }
pub open spec fn project_allowed(a: ApplyArgs) -> bool { text_at(manifest_path(a)) is Some ==> allowed(forced(a), manifest_says(text_at(manifest_path(a))->0)) }
pub open spec fn nm_path(a: ApplyArgs) -> Seq<Component> { joined(a.root.c(), path_of("node_modules"@)) }

// ---- the code: src/commands ------------------------------
//@item src/commands/apply.rs ApplyCmd
//@end
//@item src/commands/reapply.rs ReapplyCmd
//@end
impl ApplyCmd {
//@fn src/commands/apply.rs OroCommand@ApplyCmd::execute
    requires project_allowed(self.apply)
    ensures ret is Ok ==> project_done(self.apply)
//@subst? async_std::fs::read_to_string($0) =>> fs::read_to_string(&$0)
//@subst? serde_json::from_str($0) =>> vx_corgi($0)
//@end
}
impl ApplyArgs {
    /// installing anew: only once what was there is gone
    pub fn vx_execute_anew(&self, manifest: CorgiManifest) -> (ret: Result<()>)
        requires allowed(*self, manifest), there(nm_path(*self)) ==> cleared(nm_path(*self))
        ensures ret is Ok ==> self.apply ==> done(*self, manifest)
    { self.execute(manifest) }
}
impl ReapplyCmd {
//@fn src/commands/reapply.rs OroCommand@ReapplyCmd::execute
    requires project_allowed(self.apply), may_clear(nm_path(self.apply))
    // what was there is gone, before anything is put in place (vx_execute_anew)
    ensures ret is Ok ==> project_done(self.apply) && (there(nm_path(self.apply)) ==> cleared(nm_path(self.apply)))
//@subst? std::time::Instant::now() =>> Instant::now()
//@subst? async_std::fs::read_to_string($0) =>> fs::read_to_string(&$0)
//@subst? serde_json::from_str($0) =>> vx_corgi($0)
//@subst? std::fs::remove_dir_all($0) =>> vx_clear($0)
//@m execute => vx_execute_anew
//@end
}
pub trait VxAsDeref { fn vx_as_deref(&self) -> (r: Option<&Path>); }
impl VxAsDeref for Option<Path> {
    #[verifier::external_body]
    fn vx_as_deref(&self) -> (r: Option<&Path>) ensures r is Some <==> self is Some, r is Some ==> *r->0 == self->0 { unimplemented!() }
}
impl NodeMaintainer {
    pub fn vx_write_lockfile(&self, p: Path) -> (ret: Result<(), NodeMaintainerError>)
        requires may_write(p.c(), kdl_of(self.graph))
        ensures ret is Ok ==> written(p.c(), kdl_of(self.graph))
    { self.write_lockfile(&p) }
}
}
fn main() {}
