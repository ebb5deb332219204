// Unit: dependency tree (node-maintainer graph.rs + resolver.rs)
use vstd::prelude::*;
use std::ops::{Index, IndexMut};
verus! {
//@include strings.vrs
//@include case.vrs
//@include text.vrs
//@method split_once => vx_split_once
//@method strip_suffix => vx_strip_suffix
//@method strip_prefix => vx_strip_prefix
//@include iter.vrs
//@include std.vrs
//@include maps.vrs
//@include deque.vrs
//@include petgraph.vrs

// ---- assumed contracts: nassun / oro-common ------------------------------
#[verifier::external_body]
pub struct Package { _p: () }
#[verifier::external_body]
pub struct PackageResolution { _p: () }
#[verifier::external_body]
pub struct PackageSpec { _p: () }
#[verifier::external_body]
pub struct BundledDependencies { _p: () }
#[verifier::external_body]
pub struct Version { _p: () }
#[verifier::external_body]
pub struct Integrity { _p: () }
#[verifier::external_body]
pub struct Instant { _p: () }
pub enum NodeMaintainerError { InvalidDependencyName(String), LockfileMismatch, Other }
/// the request a text stands for
pub uninterp spec fn spec_of(s: Seq<char>) -> PackageSpec;
/// `PackageResolution::satisfies`, the relation unit `satisfies` pins down
pub uninterp spec fn sat(r: PackageResolution, s: PackageSpec) -> bool;
/// the package was resolved by the registry/git/dir client for exactly this request
pub uninterp spec fn resolved_for(p: Package, s: PackageSpec) -> bool;
pub uninterp spec fn res_of(p: Package) -> PackageResolution;
impl Package {
    #[verifier::external_body]
    pub fn resolved(&self) -> (r: &PackageResolution) ensures *r == res_of(*self) { unimplemented!() }
}
impl PackageResolution {
    #[verifier::external_body]
    pub fn satisfies(&self, s: &PackageSpec) -> (r: Result<bool, NodeMaintainerError>)
        ensures r is Ok ==> r->Ok_0 == sat(*self, *s) { unimplemented!() }
}
impl Clone for PackageSpec {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}

//@item crates/oro-common/src/manifest.rs CorgiManifest
//@end
//@item crates/node-maintainer/src/graph.rs DepType
//@attr #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@end
//@item crates/node-maintainer/src/graph.rs Node
//@end
//@item crates/node-maintainer/src/graph.rs Edge
//@end
//@item crates/node-maintainer/src/graph.rs Graph
//@end
//@item crates/node-maintainer/src/graph.rs NodeParentIterator
//@end
//@item crates/node-maintainer/src/resolver.rs NodeDependency
//@end

/// a spec is parsed from its text, or refused
#[verifier::external_body]
pub fn vx_spec(s: String) -> (r: Result<PackageSpec, NodeMaintainerError>) ensures r is Ok ==> r->Ok_0 == spec_of(s@) { unimplemented!() }
/// a text cut at every `a` and `b`
pub open spec fn cut(s: Seq<char>, a: char, b: char) -> Seq<Seq<char>>
    decreases s.len()
{
    if s.len() == 0 { seq![Seq::<char>::empty()] }
    else {
        let r = cut(s.drop_last(), a, b);
        if s.last() == a || s.last() == b { r.push(Seq::<char>::empty()) } else { r.drop_last().push(r.last().push(s.last())) }
    }
}
/// a plain name, or scope/name: nothing that leads out of node_modules or to what is kept in there otherwise
pub open spec fn plain(p: Seq<char>) -> bool { p.len() > 0 && p[0] != '.' && p != "node_modules"@ }
pub open spec fn name_parts(s: Seq<char>) -> Seq<Seq<char>> { cut(s, '/', '\\') }
pub open spec fn valid_name(s: Seq<char>) -> bool {
    &&& name_parts(s).len() <= 2
    &&& forall|i: int| 0 <= i < name_parts(s).len() ==> plain(#[trigger] name_parts(s)[i])
}
/// counting up: fewer than 2^31 of them, assumed
#[verifier::external_body]
pub fn vx_inc(n: &mut i32) ensures *final(n) == *old(n) + 1 { unimplemented!() }
#[verifier::external_body]
pub fn vx_split(s: &str, a: char, b: char) -> (r: Iter<&str>)
    ensures r.pos() == 0, r.all().len() == cut(s@, a, b).len(), forall|i: int| 0 <= i < r.all().len() ==> (#[trigger] r.all()[i])@ == cut(s@, a, b)[i]
{ unimplemented!() }
proof fn lemma_valid_nonempty(s: Seq<char>) requires valid_name(s) ensures s.len() > 0
{ if s.len() == 0 { assert(plain(name_parts(s)[0])); } }
/// what the package says it needs, in the order in which later entries replace earlier ones
pub type Wants = Seq<((Seq<char>, Seq<char>), DepType)>;
pub open spec fn tag(es: Seq<(String, String)>, t: DepType) -> Wants { es.map_values(|e: (String, String)| ((e.0@, e.1@), t)) }
pub open spec fn listing(m: CorgiManifest, root: bool) -> Wants {
    let l = tag(m.dependencies.seq(), DepType::Prod) + tag(m.optional_dependencies.seq(), DepType::Opt);
    if root { l + tag(m.dev_dependencies.seq(), DepType::Dev) } else { l }
}
pub open spec fn reqs_fold(w: Wants) -> Map<Seq<char>, (PackageSpec, DepType)>
    decreases w.len()
{
    if w.len() == 0 { Map::empty() }
    else { reqs_fold(w.drop_last()).insert(uni(w.last().0.0), (spec_of(w.last().0.0 + "@"@ + w.last().0.1), w.last().1)) }
}
/// every dependency a manifest declares, with its request
pub open spec fn reqs_of(m: CorgiManifest, root: bool) -> Map<Seq<char>, (PackageSpec, DepType)> { reqs_fold(listing(m, root)) }
pub open spec fn wants_of(all: Seq<((&String, &String), DepType)>) -> Wants { all.map_values(|x: ((&String, &String), DepType)| ((x.0.0@, x.0.1@), x.1)) }

//@method trim_end_matches => vx_trim_end_matches
//@method trim_start_matches => vx_trim_start_matches
//@method starts_with => vx_starts_with
//@fn crates/node-maintainer/src/graph.rs is_valid_name
    ensures ret == valid_name(name@),
//@subst? $0.split([$1, $2]) =>> vx_split($0, $1, $2)
//@subst? part == "node_modules" =>> vx_streq(part, "node_modules")
//@subst? parts += 1; =>> vx_inc(&mut parts);
//@at body_start
    broadcast use text_facts;
//@at loop 0 body_start
    assert($it.all()[$it.pos() - 1]@ == name_parts(name@)[$it.pos() - 1]);
//@loop 0
    invariant
        0 <= $it.pos() <= $it.all().len(), $it.all().len() == name_parts(name@).len(),
        forall|i: int| 0 <= i < $it.all().len() ==> (#[trigger] $it.all()[i])@ == name_parts(name@)[i],
        forall|i: int| 0 <= i < $it.pos() ==> plain(#[trigger] name_parts(name@)[i]),
        parts == $it.pos(),
    decreases $it.all().len() - $it.pos(),
//@end

impl Node {
//@fn crates/node-maintainer/src/graph.rs Node::new
        ensures ret is Ok ==> {
            let n = ret->Ok_0;
            &&& n.name == name && n.package == package
            &&& n.parent is None && n.children.m() == Map::<Seq<char>, NodeIndex>::empty()
            &&& n.dependencies.m() == Map::<Seq<char>, EdgeIndex>::empty()
            // exactly what the manifest declares
            &&& n.dependency_reqs.m() == reqs_of(manifest, is_root)
            &&& forall|k: Seq<char>| #[trigger] n.dependency_reqs.m().contains_key(k) ==> exists|t: Seq<char>| #[trigger] uni(t) == k && valid_name(t)
        }
//@subst? Box::new($0) =>> $0
//@subst? Box<dyn Iterator<Item = ((&String, &String), DepType)> + Send> =>> Iter<((&String, &String), DepType)>
//@subst? $0.parse()? =>> vx_spec($0)?
//@subst? Self =>> Node
//@at body_start
    broadcast use cat_assoc, cat_empty;
//@closure 0 ((&String, &String)) -> (r: ((&String, &String), DepType))
    ensures r == $body
//@closure 1 ((&String, &String)) -> (r: ((&String, &String), DepType))
    ensures r == $body
//@closure 2 ((&String, &String)) -> (r: ((&String, &String), DepType))
    ensures r == $body
//@loop 0
    invariant
        0 <= $it.pos() <= $it.all().len(),
        wants_of($it.all()) =~= listing(manifest, is_root),
        dependency_reqs.m() == reqs_fold(wants_of($it.all()).take($it.pos())),
        $it.pos() == $it.all().len() ==> wants_of($it.all()).take($it.pos()) =~= wants_of($it.all()),
        forall|k: Seq<char>| #[trigger] dependency_reqs.m().contains_key(k) ==> exists|t: Seq<char>| #[trigger] uni(t) == k && valid_name(t),
    decreases $it.all().len() - $it.pos(),
//@at loop 0 body_start
    proof {
        let w = wants_of($it.all());
        assert(w.take($it.pos()).drop_last() =~= w.take($it.pos() - 1));
        assert(w.take($it.pos()).last() == w[$it.pos() - 1]);
    }
//@end
}

// ---- specification ---------------------------------------------------------
//@include tree.vrs
pub type Edges = Map<EdgeIndex, EdgeT<Edge>>;

/// nearest-ancestor module lookup of name `k` starting in node `n`
pub open spec fn lookup(ns: Nodes, n: NodeIndex, k: Seq<char>) -> Option<NodeIndex>
    decreases n.0
{
    if ns[n].children.m().contains_key(k) { Some(ns[n].children.m()[k]) }
    else {
        match ns[n].parent {
            Some(p) => if p.0 < n.0 { lookup(ns, p, k) } else { None },
            None => None,
        }
    }
}
pub open spec fn anc(ns: Nodes, a: NodeIndex, d: NodeIndex) -> bool
    decreases d.0
{
    a == d || match ns[d].parent {
        Some(p) => p.0 < d.0 && anc(ns, a, p),
        None => false,
    }
}
/// some package from `n` up to (excluding) `stop` has a request for `k` that `t` does not satisfy
pub open spec fn conflict(ns: Nodes, n: NodeIndex, stop: Option<NodeIndex>, k: Seq<char>, t: PackageResolution) -> bool
    decreases n.0
{
    if stop == Some(n) { false }
    else {
        ||| ns[n].dependency_reqs.m().contains_key(k) && !sat(t, ns[n].dependency_reqs.m()[k].0)
        ||| match ns[n].parent {
                Some(p) => p.0 < n.0 && conflict(ns, p, stop, k, t),
                None => false,
            }
    }
}
pub open spec fn key_of(ns: Nodes, n: NodeIndex) -> Seq<char> { ns[n].name.key() }
pub open spec fn placed_ok(ns: Nodes, t: NodeIndex, s: PackageSpec) -> bool {
    sat(res_of(ns[t].package), s) || resolved_for(ns[t].package, s)
}
/// every dependency edge is what module lookup finds, and what it finds satisfies the request
pub open spec fn wf_edge(ns: Nodes, e: EdgeT<Edge>) -> bool {
    let k = key_of(ns, e.to);
    &&& ns.contains_key(e.from) && ns.contains_key(e.to) && ns[e.to].parent is Some
    &&& lookup(ns, e.from, k) == Some(e.to)
    &&& placed_ok(ns, e.to, e.w.requested)
    &&& !conflict(ns, e.from, ns[e.to].parent, k, res_of(ns[e.to].package))
}
pub open spec fn wf_edges(ns: Nodes, es: Edges) -> bool {
    &&& forall|e: EdgeIndex| #[trigger] es.contains_key(e) ==> wf_edge(ns, es[e])
    // nothing is in the tree without some package's dependency resolving to it
    &&& forall|i: NodeIndex| ns.contains_key(i) && ns[i].parent is Some ==> #[trigger] has_dependent(es, i)
}
pub open spec fn has_dependent(es: Edges, i: NodeIndex) -> bool { exists|e: EdgeIndex| #[trigger] es.contains_key(e) && es[e].to == i }
/// a package that holds a child under a name it depends on itself: the child is right for it
pub open spec fn wf_held(ns: Nodes) -> bool {
    forall|i: NodeIndex, k: Seq<char>| #![trigger ns[i].children.m().contains_key(k)]
        ns.contains_key(i) && ns[i].children.m().contains_key(k) && ns[i].dependency_reqs.m().contains_key(k)
        ==> sat(res_of(ns[ns[i].children.m()[k]].package), ns[i].dependency_reqs.m()[k].0) || ns[i].dependencies.m().contains_key(k)
}
/// the recorded edge of a dependency is the edge of that name
pub open spec fn wf_deps(ns: Nodes, es: Edges) -> bool {
    forall|i: NodeIndex, k: Seq<char>| #![trigger ns[i].dependencies.m().contains_key(k)]
        ns.contains_key(i) && ns[i].dependencies.m().contains_key(k) ==> {
            let e = ns[i].dependencies.m()[k];
            es.contains_key(e) && es[e].from == i && key_of(ns, es[e].to) == k
            // and asks for what the package declares
            && ns[i].dependency_reqs.m().contains_key(k) && es[e].w.requested == ns[i].dependency_reqs.m()[k].0
        }
}
/// every edge is the recorded edge of its dependent's dependency of that name
pub open spec fn wf_back(ns: Nodes, es: Edges) -> bool {
    forall|e: EdgeIndex| #[trigger] es.contains_key(e) ==> {
        let m = ns[es[e].from].dependencies.m();
        m.contains_key(key_of(ns, es[e].to)) && m[key_of(ns, es[e].to)] == e
    }
}
pub open spec fn wf0(ns: Nodes, es: Edges) -> bool {
    &&& wf_tree(ns)
    &&& wf_edges(ns, es)
    &&& wf_held(ns)
    &&& wf_deps(ns, es)
    &&& wf_back(ns, es)
}
pub open spec fn wf(g: Graph) -> bool {
    wf0(g.inner.nodes(), g.inner.edges()) && g.inner.nodes().contains_key(g.root) && rooted(g)
}
/// a request as run_resolver makes them: a declared, not yet wired dependency of a package in the tree
pub open spec fn pending(g: Graph, dep: NodeDependency) -> bool {
    let ns = g.inner.nodes();
    let k = dep.name.key();
    &&& ns.contains_key(dep.node_idx)
    &&& ns[dep.node_idx].dependency_reqs.m().contains_key(k)
    &&& ns[dep.node_idx].dependency_reqs.m()[k].0 == dep.spec
    &&& !ns[dep.node_idx].dependencies.m().contains_key(k)
}
/// what satisfy_dependency establishes when it declines
pub open spec fn unsatisfied(ns: Nodes, dep: NodeDependency) -> bool {
    match lookup(ns, dep.node_idx, dep.name.key()) {
        None => true,
        Some(r) => !sat(res_of(ns[r].package), dep.spec) || conflict(ns, dep.node_idx, ns[r].parent, dep.name.key(), res_of(ns[r].package)),
    }
}
/// THE PROPERTY, for one wired dependency of one package
pub open spec fn dep_sound(g: Graph, n: NodeIndex, k: Seq<char>) -> bool {
    let ns = g.inner.nodes();
    let e = g.inner.edges()[ns[n].dependencies.m()[k]];
    &&& lookup(ns, n, k) == Some(e.to)
    &&& placed_ok(ns, e.to, ns[n].dependency_reqs.m()[k].0)
}
pub proof fn dependency_sound(g: Graph, n: NodeIndex, k: Seq<char>)
    requires wf(g), g.inner.nodes().contains_key(n), g.inner.nodes()[n].dependencies.m().contains_key(k),
    ensures dep_sound(g, n, k),
{
    let ns = g.inner.nodes();
    let e = ns[n].dependencies.m()[k];
    assert(wf_edge(ns, g.inner.edges()[e]));
}

// ---- lemmas ---------------------------------------------------------
proof fn lemma_lookup_in(ns: Nodes, n: NodeIndex, k: Seq<char>)
    requires wf_tree(ns), ns.contains_key(n),
    ensures
        match lookup(ns, n, k) {
            Some(r) => ns.contains_key(r) && ns[r].parent is Some && ns[r].name.key() == k && anc(ns, ns[r].parent->0, n) && ns[ns[r].parent->0].children.m().contains_key(k),
            None => true,
        },
    decreases n.0
{
    if ns[n].children.m().contains_key(k) {
        let c = ns[n].children.m()[k];
        assert(ns[c].parent == Some(n));
        assert(anc(ns, n, n));
    } else {
        match ns[n].parent {
            Some(p) => { lemma_lookup_in(ns, p, k); }
            None => {}
        }
    }
}
proof fn lemma_anc_le(ns: Nodes, a: NodeIndex, d: NodeIndex)
    requires anc(ns, a, d),
    ensures a.0 <= d.0,
    decreases d.0
{
    if a != d { lemma_anc_le(ns, a, ns[d].parent->0); }
}
/// lookup and conflict from a node below `a` where nothing of that name sits in between
proof fn lemma_anc_trans(ns: Nodes, a: NodeIndex, b: NodeIndex, c: NodeIndex)
    requires anc(ns, a, b), anc(ns, b, c),
    ensures anc(ns, a, c),
    decreases c.0
{
    if b != c { lemma_anc_trans(ns, a, b, ns[c].parent->0); }
}
/// `from` below `t`: either its lookup is answered strictly below `t`, or it equals t's lookup
proof fn lemma_lookup_split(ns: Nodes, t: NodeIndex, from: NodeIndex, k: Seq<char>)
    requires wf_tree(ns), ns.contains_key(from), anc(ns, t, from), ns.contains_key(t),
    ensures
        lookup(ns, from, k) == lookup(ns, t, k)
        || (lookup(ns, from, k) is Some && ns[lookup(ns, from, k)->0].parent is Some && (ns[lookup(ns, from, k)->0].parent->0).0 > t.0 && anc(ns, t, ns[lookup(ns, from, k)->0].parent->0)),
    decreases from.0
{
    if from == t {
    } else if ns[from].children.m().contains_key(k) {
        let c = ns[from].children.m()[k];
        assert(ns[c].parent == Some(from));
        lemma_anc_le(ns, t, from);
    } else {
        lemma_lookup_split(ns, t, ns[from].parent->0, k);
    }
}
/// a conflict at an ancestor of `from` strictly below `stop` is a conflict for `from`
proof fn lemma_conflict_up(ns: Nodes, a: NodeIndex, from: NodeIndex, stop: Option<NodeIndex>, k: Seq<char>, r: PackageResolution)
    requires wf_tree(ns), anc(ns, a, from), ns.contains_key(from), stop is Some ==> (stop->0).0 < a.0, conflict(ns, a, stop, k, r),
    ensures conflict(ns, from, stop, k, r),
    decreases from.0
{
    lemma_anc_le(ns, a, from);
    if a != from { lemma_conflict_up(ns, a, ns[from].parent->0, stop, k, r); }
}
/// growing the tree by a leaf `c` under `t` with name `k`
pub open spec fn grown(ns: Nodes, ns2: Nodes, c: NodeIndex, t: NodeIndex) -> bool {
    let k = ns2[c].name.key();
    &&& !ns.contains_key(c) && ns2.contains_key(c) && ns.contains_key(t)
    &&& forall|i: NodeIndex| #[trigger] ns.contains_key(i) ==> i.0 < c.0
    &&& forall|i: NodeIndex| #[trigger] ns2.contains_key(i) <==> ns.contains_key(i) || i == c
    &&& forall|i: NodeIndex| #[trigger] ns.contains_key(i) ==> {
            &&& ns2[i].parent == ns[i].parent && ns2[i].name == ns[i].name && ns2[i].package == ns[i].package
            &&& ns2[i].dependency_reqs == ns[i].dependency_reqs && ns2[i].idx == ns[i].idx
            &&& ns2[i].children.m() == (if i == t { ns[i].children.m().insert(k, c) } else { ns[i].children.m() })
        }
    &&& ns2[c].parent == Some(t) && ns2[c].idx == c && ns2[c].children.m() == Map::<Seq<char>, NodeIndex>::empty()
}
proof fn lemma_grown_anc(ns: Nodes, ns2: Nodes, c: NodeIndex, t: NodeIndex, a: NodeIndex, d: NodeIndex)
    requires wf_tree(ns), grown(ns, ns2, c, t), ns.contains_key(d),
    ensures anc(ns2, a, d) == anc(ns, a, d),
    decreases d.0
{
    if a != d { match ns[d].parent { Some(p) => lemma_grown_anc(ns, ns2, c, t, a, p), None => {} } }
}
proof fn lemma_grown_lookup(ns: Nodes, ns2: Nodes, c: NodeIndex, t: NodeIndex, n: NodeIndex, k: Seq<char>)
    requires wf_tree(ns), grown(ns, ns2, c, t), ns.contains_key(n),
    ensures
        k != ns2[c].name.key() ==> lookup(ns2, n, k) == lookup(ns, n, k),
        !anc(ns, t, n) ==> lookup(ns2, n, k) == lookup(ns, n, k),
        k == ns2[c].name.key() && anc(ns, t, n) && lookup(ns, n, k) == lookup(ns, t, k) && !ns[t].children.m().contains_key(k) ==> lookup(ns2, n, k) == Some(c),
        k == ns2[c].name.key() && anc(ns, t, n) && lookup(ns, n, k) != lookup(ns, t, k) ==> lookup(ns2, n, k) == lookup(ns, n, k),
    decreases n.0
{
    if ns[n].children.m().contains_key(k) {
        if n != t && anc(ns, t, n) && !ns[t].children.m().contains_key(k) {
            // answered at n: differs from t's answer, whose holder is an ancestor of t
            lemma_lookup_in(ns, t, k);
            let r = ns[n].children.m()[k];
            assert(ns[r].parent == Some(n));
            match lookup(ns, t, k) {
                Some(q) => { lemma_anc_le(ns, ns[q].parent->0, t); lemma_anc_le(ns, t, n); }
                None => {}
            }
        }
    } else {
        match ns[n].parent {
            Some(p) => { lemma_grown_lookup(ns, ns2, c, t, p, k); if n != t && anc(ns, t, n) { assert(anc(ns, t, p)); } else if n == t && anc(ns, t, p) { lemma_anc_le(ns, t, p); } }
            None => {}
        }
    }
}
proof fn lemma_grown_conflict(ns: Nodes, ns2: Nodes, c: NodeIndex, t: NodeIndex, n: NodeIndex, stop: Option<NodeIndex>, k: Seq<char>, r: PackageResolution)
    requires wf_tree(ns), grown(ns, ns2, c, t), ns.contains_key(n),
    ensures conflict(ns2, n, stop, k, r) == conflict(ns, n, stop, k, r),
    decreases n.0
{
    if stop != Some(n) { match ns[n].parent { Some(p) => lemma_grown_conflict(ns, ns2, c, t, p, stop, k, r), None => {} } }
}

/// `ns2` carries the nodes of `ns` with the same place, name, package and requests
pub open spec fn same_shape(ns: Nodes, ns2: Nodes) -> bool {
    forall|i: NodeIndex| #[trigger] ns.contains_key(i) ==> {
        &&& ns2.contains_key(i)
        &&& ns2[i].parent == ns[i].parent && ns2[i].name == ns[i].name && ns2[i].package == ns[i].package
        &&& ns2[i].dependency_reqs == ns[i].dependency_reqs && ns2[i].idx == ns[i].idx
        &&& ns2[i].children.m() == ns[i].children.m()
    }
}
broadcast proof fn lemma_shape_lookup(ns: Nodes, ns2: Nodes, n: NodeIndex, k: Seq<char>)
    requires wf_tree(ns), #[trigger] same_shape(ns, ns2), ns.contains_key(n),
    ensures #[trigger] lookup(ns2, n, k) == lookup(ns, n, k),
    decreases n.0
{
    if !ns[n].children.m().contains_key(k) { match ns[n].parent { Some(p) => lemma_shape_lookup(ns, ns2, p, k), None => {} } }
}
broadcast proof fn lemma_shape_anc(ns: Nodes, ns2: Nodes, a: NodeIndex, d: NodeIndex)
    requires wf_tree(ns), #[trigger] same_shape(ns, ns2), ns.contains_key(d),
    ensures #[trigger] anc(ns2, a, d) == anc(ns, a, d),
    decreases d.0
{
    if a != d { match ns[d].parent { Some(p) => lemma_shape_anc(ns, ns2, a, p), None => {} } }
}
broadcast proof fn lemma_shape_conflict(ns: Nodes, ns2: Nodes, n: NodeIndex, stop: Option<NodeIndex>, k: Seq<char>, r: PackageResolution)
    requires wf_tree(ns), #[trigger] same_shape(ns, ns2), ns.contains_key(n),
    ensures #[trigger] conflict(ns2, n, stop, k, r) == conflict(ns, n, stop, k, r),
    decreases n.0
{
    if stop != Some(n) { match ns[n].parent { Some(p) => lemma_shape_conflict(ns, ns2, p, stop, k, r), None => {} } }
}
/// what wiring a request to a package already in the tree does to the tree
pub open spec fn wired(ns: Nodes, es: Edges, ns2: Nodes, es2: Edges, d: NodeIndex, k: Seq<char>, s: PackageSpec, to: NodeIndex) -> bool {
    let e = ns2[d].dependencies.m()[k];
    &&& same_shape(ns, ns2) && forall|i: NodeIndex| #[trigger] ns2.contains_key(i) <==> ns.contains_key(i)
    &&& forall|i: NodeIndex| #[trigger] ns.contains_key(i) ==> ns2[i].dependencies.m() == (if i == d { ns[i].dependencies.m().insert(k, e) } else { ns[i].dependencies.m() })
    &&& !es.contains_key(e) && es2.dom() =~= es.dom().insert(e) && (forall|x: EdgeIndex| #[trigger] es.contains_key(x) ==> es2[x] == es[x])
    &&& es2[e].from == d && es2[e].to == to && es2[e].w.requested == s
}
proof fn lemma_wired(ns: Nodes, es: Edges, ns2: Nodes, es2: Edges, d: NodeIndex, k: Seq<char>, s: PackageSpec, to: NodeIndex)
    requires
        wf0(ns, es), wired(ns, es, ns2, es2, d, k, s, to),
        ns.contains_key(d), !ns[d].dependencies.m().contains_key(k),
        ns[d].dependency_reqs.m().contains_key(k), ns[d].dependency_reqs.m()[k].0 == s,
        lookup(ns, d, k) == Some(to), sat(res_of(ns[to].package), s),
        !conflict(ns, d, ns[to].parent, k, res_of(ns[to].package)),
    ensures wf0(ns2, es2),
{
    broadcast use lemma_shape_lookup, lemma_shape_anc, lemma_shape_conflict;
    lemma_lookup_in(ns, d, k);
    let e = ns2[d].dependencies.m()[k];
    assert forall|x: EdgeIndex| #[trigger] es2.contains_key(x) implies wf_edge(ns2, es2[x]) by {
        if x != e { assert(es.contains_key(x)); assert(wf_edge(ns, es[x])); }
    }
    assert forall|i: NodeIndex| ns2.contains_key(i) && ns2[i].parent is Some implies #[trigger] has_dependent(es2, i) by {
        assert(ns.contains_key(i) && has_dependent(es, i));
        let x = choose|x: EdgeIndex| #[trigger] es.contains_key(x) && es[x].to == i;
        assert(es2.contains_key(x));
    }
    assert forall|x: EdgeIndex| #[trigger] es2.contains_key(x) implies {
        let m = ns2[es2[x].from].dependencies.m();
        m.contains_key(key_of(ns2, es2[x].to)) && m[key_of(ns2, es2[x].to)] == x
    } by {
        if x != e { assert(es.contains_key(x)); assert(wf_edge(ns, es[x])); }
    }
    assert(wf_held(ns2)) by {
        assert forall|i: NodeIndex, q: Seq<char>| #![trigger ns2[i].children.m().contains_key(q)]
            ns2.contains_key(i) && ns2[i].children.m().contains_key(q) && ns2[i].dependency_reqs.m().contains_key(q)
            implies sat(res_of(ns2[ns2[i].children.m()[q]].package), ns2[i].dependency_reqs.m()[q].0) || ns2[i].dependencies.m().contains_key(q) by {
            assert(ns.contains_key(i));
            assert(ns[i].children.m().contains_key(q));
            assert(ns.contains_key(ns[i].children.m()[q]));
        }
    }
    assert(wf_deps(ns2, es2)) by {
        assert forall|i: NodeIndex, q: Seq<char>| #![trigger ns2[i].dependencies.m().contains_key(q)]
            ns2.contains_key(i) && ns2[i].dependencies.m().contains_key(q) implies {
            let x = ns2[i].dependencies.m()[q];
            es2.contains_key(x) && es2[x].from == i && key_of(ns2, es2[x].to) == q
            && ns2[i].dependency_reqs.m().contains_key(q) && es2[x].w.requested == ns2[i].dependency_reqs.m()[q].0
        } by {
            assert(ns.contains_key(i));
            if !(i == d && q == k) {
                assert(ns[i].dependencies.m().contains_key(q));
                assert(wf_edge(ns, es[ns[i].dependencies.m()[q]]));
            }
        }
    }
}
pub open spec fn satisfied(g: Graph, g2: Graph, dep: NodeDependency, to: NodeIndex) -> bool {
    let ns = g.inner.nodes();
    let k = dep.name.key();
    &&& wired(ns, g.inner.edges(), g2.inner.nodes(), g2.inner.edges(), dep.node_idx, k, dep.spec, to) && g2.root == g.root
    &&& lookup(ns, dep.node_idx, k) == Some(to) && sat(res_of(ns[to].package), dep.spec)
    &&& !conflict(ns, dep.node_idx, ns[to].parent, k, res_of(ns[to].package))
}
/// a request answered from the tree: every dependency wired so far, and this one, is sound
pub proof fn satisfy_step(g: Graph, g2: Graph, dep: NodeDependency, to: NodeIndex)
    requires wf(g), pending(g, dep), satisfied(g, g2, dep, to),
    ensures wf(g2), g2.inner.nodes()[dep.node_idx].dependencies.m().contains_key(dep.name.key()), dep_sound(g2, dep.node_idx, dep.name.key()),
{
    assert(rooted(g2)) by { reveal(rooted); }
    lemma_wired(g.inner.nodes(), g.inner.edges(), g2.inner.nodes(), g2.inner.edges(), dep.node_idx, dep.name.key(), dep.spec, to);
    dependency_sound(g2, dep.node_idx, dep.name.key());
}
/// nobody below `t` relies on what `t` would look up under `k`
pub open spec fn free_at(ns: Nodes, es: Edges, t: NodeIndex, k: Seq<char>) -> bool {
    forall|e: EdgeIndex| #[trigger] es.contains_key(e) && key_of(ns, es[e].to) == k && anc(ns, t, es[e].from) ==> lookup(ns, es[e].from, k) != lookup(ns, t, k)
}
/// a package whose request was declined by satisfy_dependency can hold its own copy
proof fn lemma_first_free(g: Graph, dep: NodeDependency)
    requires wf(g), pending(g, dep), unsatisfied(g.inner.nodes(), dep),
    ensures free_at(g.inner.nodes(), g.inner.edges(), dep.node_idx, dep.name.key()),
{
    let ns = g.inner.nodes();
    let es = g.inner.edges();
    let k = dep.name.key();
    let d = dep.node_idx;
    assert forall|e: EdgeIndex| #[trigger] es.contains_key(e) && key_of(ns, es[e].to) == k && anc(ns, d, es[e].from) implies lookup(ns, es[e].from, k) != lookup(ns, d, k) by {
        assert(wf_edge(ns, es[e]));
        let from = es[e].from;
        if lookup(ns, from, k) == lookup(ns, d, k) {
            let r = es[e].to;
            lemma_lookup_in(ns, d, k);
            let h = ns[r].parent->0;
            lemma_anc_le(ns, h, d);
            if h == d {
                assert(ns[d].children.m().contains_key(k));
                lemma_first_child(ns, d, r, k);
            } else {
                // d is strictly below the holder: a conflict at d would be a conflict for `from`
                if conflict(ns, d, ns[r].parent, k, res_of(ns[r].package)) {
                    lemma_conflict_up(ns, d, from, ns[r].parent, k, res_of(ns[r].package));
                }
            }
        }
    }
}
proof fn lemma_first_child(ns: Nodes, d: NodeIndex, r: NodeIndex, k: Seq<char>)
    requires wf_tree(ns), wf_held(ns), ns.contains_key(d), ns.contains_key(r), ns[r].parent == Some(d), ns[r].name.key() == k,
        ns[d].dependency_reqs.m().contains_key(k), !ns[d].dependencies.m().contains_key(k),
    ensures sat(res_of(ns[r].package), ns[d].dependency_reqs.m()[k].0), !conflict(ns, d, ns[r].parent, k, res_of(ns[r].package)), lookup(ns, d, k) == Some(r),
{
    assert(ns[d].children.m().contains_key(k));
}
/// what placing a new package does to the tree
pub open spec fn placed(ns: Nodes, es: Edges, ns2: Nodes, es2: Edges, d: NodeIndex, k: Seq<char>, s: PackageSpec, p: Package, c: NodeIndex) -> bool {
    let t = ns2[c].parent->0;
    let e = ns2[d].dependencies.m()[k];
    &&& grown(ns, ns2, c, t) && ns2[c].name.key() == k && ns2[c].package == p
    &&& ns2[c].dependencies.m() == Map::<Seq<char>, EdgeIndex>::empty()
    &&& forall|i: NodeIndex| #[trigger] ns.contains_key(i) ==> ns2[i].dependencies.m() == (if i == d { ns[i].dependencies.m().insert(k, e) } else { ns[i].dependencies.m() })
    &&& !es.contains_key(e) && es2.dom() =~= es.dom().insert(e) && (forall|x: EdgeIndex| #[trigger] es.contains_key(x) ==> es2[x] == es[x])
    &&& es2[e].from == d && es2[e].to == c && es2[e].w.requested == s
    // where it may go
    &&& anc(ns, t, d) && free_at(ns, es, t, k) && lookup(ns, d, k) == lookup(ns, t, k) && !conflict(ns, d, Some(t), k, res_of(p))
    &&& t == d || (ns[t].dependency_reqs.m().contains_key(k) ==> sat(res_of(p), ns[t].dependency_reqs.m()[k].0))
}
/// a place nobody relies on holds nothing under that name
proof fn lemma_free_no_child(ns: Nodes, es: Edges, t: NodeIndex, k: Seq<char>)
    requires wf0(ns, es), ns.contains_key(t), free_at(ns, es, t, k),
    ensures !ns[t].children.m().contains_key(k),
{
    if ns[t].children.m().contains_key(k) {
        let c = ns[t].children.m()[k];
        assert(ns.contains_key(c) && ns[c].parent is Some && has_dependent(es, c));
        let e = choose|e: EdgeIndex| #[trigger] es.contains_key(e) && es[e].to == c;
        assert(wf_edge(ns, es[e]));
        lemma_lookup_in(ns, es[e].from, k);
        assert(lookup(ns, t, k) == Some(c));
    }
}
/// THE STEP: placing keeps every package's dependencies sound and overwrites nothing
proof fn lemma_placed(ns: Nodes, es: Edges, ns2: Nodes, es2: Edges, d: NodeIndex, k: Seq<char>, s: PackageSpec, p: Package, c: NodeIndex)
    requires
        wf0(ns, es), placed(ns, es, ns2, es2, d, k, s, p, c), ns.contains_key(d),
        !ns[d].dependencies.m().contains_key(k),
        ns[d].dependency_reqs.m().contains_key(k), ns[d].dependency_reqs.m()[k].0 == s,
        sat(res_of(p), s) || resolved_for(p, s),
    ensures wf0(ns2, es2), !ns[ns2[c].parent->0].children.m().contains_key(k), lookup(ns2, d, k) == Some(c),
{
    let t = ns2[c].parent->0;
    let e = ns2[d].dependencies.m()[k];
    lemma_free_no_child(ns, es, t, k);
    lemma_grown_lookup(ns, ns2, c, t, d, k);
    lemma_grown_conflict(ns, ns2, c, t, d, Some(t), k, res_of(p));
    assert(wf_tree(ns2)) by {
        assert forall|i: NodeIndex, q: Seq<char>| #![trigger ns2[i].children.m().contains_key(q)]
            ns2.contains_key(i) && ns2[i].children.m().contains_key(q) implies {
            let x = ns2[i].children.m()[q];
            ns2.contains_key(x) && ns2[x].parent == Some(i) && ns2[x].name.key() == q
        } by {
            assert(ns.contains_key(i));
            if !(i == t && q == k) { assert(ns[i].children.m().contains_key(q)); assert(ns.contains_key(ns[i].children.m()[q])); }
        }
        assert forall|i: NodeIndex| #![trigger ns2[i].parent] ns2.contains_key(i) && ns2[i].parent is Some implies {
            let x = ns2[i].parent->0;
            x.0 < i.0 && ns2.contains_key(x) && ns2[x].children.m().contains_key(ns2[i].name.key()) && ns2[x].children.m()[ns2[i].name.key()] == i
        } by {
            if i != c { assert(ns.contains_key(i)); assert(ns.contains_key(ns[i].parent->0)); }
        }
    }
    assert forall|x: EdgeIndex| #[trigger] es2.contains_key(x) implies wf_edge(ns2, es2[x]) by {
        if x != e {
            assert(es.contains_key(x));
            assert(wf_edge(ns, es[x]));
            let from = es[x].from;
            let q = key_of(ns, es[x].to);
            let h = ns[es[x].to].parent;
            lemma_grown_lookup(ns, ns2, c, t, from, q);
            lemma_grown_conflict(ns, ns2, c, t, from, h, q, res_of(ns[es[x].to].package));
            assert(ns.contains_key(es[x].to));
        }
    }
    assert forall|i: NodeIndex| ns2.contains_key(i) && ns2[i].parent is Some implies #[trigger] has_dependent(es2, i) by {
        if i == c { assert(es2.contains_key(e)); } else {
            assert(ns.contains_key(i) && has_dependent(es, i));
            let x = choose|x: EdgeIndex| #[trigger] es.contains_key(x) && es[x].to == i;
            assert(es2.contains_key(x));
        }
    }
    assert forall|x: EdgeIndex| #[trigger] es2.contains_key(x) implies {
        let m = ns2[es2[x].from].dependencies.m();
        m.contains_key(key_of(ns2, es2[x].to)) && m[key_of(ns2, es2[x].to)] == x
    } by {
        if x != e { assert(es.contains_key(x)); assert(wf_edge(ns, es[x])); }
    }
    assert(wf_held(ns2)) by {
        assert forall|i: NodeIndex, q: Seq<char>| #![trigger ns2[i].children.m().contains_key(q)]
            ns2.contains_key(i) && ns2[i].children.m().contains_key(q) && ns2[i].dependency_reqs.m().contains_key(q)
            implies sat(res_of(ns2[ns2[i].children.m()[q]].package), ns2[i].dependency_reqs.m()[q].0) || ns2[i].dependencies.m().contains_key(q) by {
            assert(ns.contains_key(i));
            if !(i == t && q == k) {
                assert(ns[i].children.m().contains_key(q));
                assert(ns.contains_key(ns[i].children.m()[q]));
            }
        }
    }
    assert(wf_deps(ns2, es2)) by {
        assert forall|i: NodeIndex, q: Seq<char>| #![trigger ns2[i].dependencies.m().contains_key(q)]
            ns2.contains_key(i) && ns2[i].dependencies.m().contains_key(q) implies {
            let x = ns2[i].dependencies.m()[q];
            es2.contains_key(x) && es2[x].from == i && key_of(ns2, es2[x].to) == q
            && ns2[i].dependency_reqs.m().contains_key(q) && es2[x].w.requested == ns2[i].dependency_reqs.m()[q].0
        } by {
            if i != c {
                assert(ns.contains_key(i));
                if !(i == d && q == k) {
                    assert(ns[i].dependencies.m().contains_key(q));
                    assert(wf_edge(ns, es[ns[i].dependencies.m()[q]]));
                }
            }
        }
    }
}
/// a request answered by a new package
pub open spec fn placed_new(g: Graph, g2: Graph, dep: NodeDependency, p: Package, c: NodeIndex) -> bool {
    &&& placed(g.inner.nodes(), g.inner.edges(), g2.inner.nodes(), g2.inner.edges(), dep.node_idx, dep.name.key(), dep.spec, p, c)
    &&& g2.root == g.root
}
/// a request answered by a new package: nothing was overwritten, nobody's dependency changed
/// meaning, and this dependency is sound
pub proof fn place_step(g: Graph, g2: Graph, dep: NodeDependency, p: Package, c: NodeIndex)
    requires wf(g), pending(g, dep), placed_new(g, g2, dep, p, c), sat(res_of(p), dep.spec) || resolved_for(p, dep.spec),
    ensures wf(g2), g2.inner.nodes()[dep.node_idx].dependencies.m().contains_key(dep.name.key()), dep_sound(g2, dep.node_idx, dep.name.key()),
        // C02
        !g.inner.nodes()[g2.inner.nodes()[c].parent->0].children.m().contains_key(dep.name.key()),
        forall|e: EdgeIndex| #[trigger] g.inner.edges().contains_key(e) ==> {
            let x = g.inner.edges()[e];
            g2.inner.edges().contains_key(e) && g2.inner.edges()[e] == x
            && lookup(g2.inner.nodes(), x.from, key_of(g.inner.nodes(), x.to)) == lookup(g.inner.nodes(), x.from, key_of(g.inner.nodes(), x.to))
        },
{
    assert(rooted(g2)) by { reveal(rooted); }
    lemma_placed(g.inner.nodes(), g.inner.edges(), g2.inner.nodes(), g2.inner.edges(), dep.node_idx, dep.name.key(), dep.spec, p, c);
    dependency_sound(g2, dep.node_idx, dep.name.key());
    assert forall|e: EdgeIndex| #[trigger] g.inner.edges().contains_key(e) implies {
            let x = g.inner.edges()[e];
            g2.inner.edges().contains_key(e) && g2.inner.edges()[e] == x
            && lookup(g2.inner.nodes(), x.from, key_of(g.inner.nodes(), x.to)) == lookup(g.inner.nodes(), x.from, key_of(g.inner.nodes(), x.to))
        } by {
        assert(g2.inner.edges().contains_key(e));
        assert(wf_edge(g.inner.nodes(), g.inner.edges()[e]));
        assert(wf_edge(g2.inner.nodes(), g2.inner.edges()[e]));
    }
}
/// the next package up the tree is free as well when nobody below it relies on its answer
pub open spec fn up_ok(g: Graph, dep: NodeDependency, p: Package, t: NodeIndex) -> bool {
    let ns = g.inner.nodes();
    let d = dep.node_idx;
    let k = dep.name.key();
    &&& ns.contains_key(t) && anc(ns, t, d) && free_at(ns, g.inner.edges(), t, k) && lookup(ns, d, k) == lookup(ns, t, k)
    &&& !conflict(ns, d, Some(t), k, res_of(p))
}
pub open spec fn req_ok(g: Graph, dep: NodeDependency, p: Package, t: NodeIndex) -> bool {
    let r = g.inner.nodes()[t].dependency_reqs.m();
    r.contains_key(dep.name.key()) ==> sat(res_of(p), r[dep.name.key()].0)
}
proof fn lemma_conflict_ext(ns: Nodes, n: NodeIndex, t: NodeIndex, k: Seq<char>, r: PackageResolution)
    requires wf_tree(ns), ns.contains_key(n), anc(ns, t, n), ns[t].parent is Some, !conflict(ns, n, Some(t), k, r),
        ns[t].dependency_reqs.m().contains_key(k) ==> sat(r, ns[t].dependency_reqs.m()[k].0),
    ensures !conflict(ns, n, ns[t].parent, k, r),
    decreases n.0
{
    let p = ns[t].parent->0;
    assert(!conflict(ns, p, Some(p), k, r));
    if n != t {
        lemma_anc_le(ns, t, n);
        lemma_conflict_ext(ns, ns[n].parent->0, t, k, r);
    }
}
/// everything but the freedom of the next place up
proof fn lemma_up(g: Graph, dep: NodeDependency, p: Package, t: NodeIndex, u: NodeIndex)
    requires wf(g), up_ok(g, dep, p, t), u == dep.node_idx && t == u || g.inner.nodes()[t].parent == Some(u) && req_ok(g, dep, p, t), g.inner.nodes().contains_key(dep.node_idx),
    ensures free_at(g.inner.nodes(), g.inner.edges(), u, dep.name.key()) ==> up_ok(g, dep, p, u), g.inner.nodes().contains_key(u),
        free_at(g.inner.nodes(), g.inner.edges(), u, dep.name.key()) <== forall|e: EdgeIndex| #![trigger g.inner.edges().contains_key(e)]
            g.inner.edges().contains_key(e) && lookup(g.inner.nodes(), u, dep.name.key()) == Some(g.inner.edges()[e].to) ==> !anc(g.inner.nodes(), u, g.inner.edges()[e].from),
{
    let ns = g.inner.nodes();
    let es = g.inner.edges();
    let k = dep.name.key();
    if t != u {
        lemma_free_no_child(ns, es, t, k);
        assert(anc(ns, u, u));
        assert(anc(ns, u, t));
        lemma_anc_trans(ns, u, t, dep.node_idx);
        lemma_conflict_ext(ns, dep.node_idx, t, k, res_of(p));
    }
    if forall|e: EdgeIndex| #![trigger g.inner.edges().contains_key(e)] es.contains_key(e) && lookup(ns, u, k) == Some(es[e].to) ==> !anc(ns, u, es[e].from) {
        assert forall|e: EdgeIndex| #[trigger] es.contains_key(e) && key_of(ns, es[e].to) == k && anc(ns, u, es[e].from) implies lookup(ns, es[e].from, k) != lookup(ns, u, k) by {
            assert(wf_edge(ns, es[e]));
        }
    }
}
/// the tree while the new package is in it but not yet put anywhere
pub open spec fn limbo(g: Graph, g1: Graph, dep: NodeDependency, p: Package, c: NodeIndex, e: EdgeIndex) -> bool {
    let ns = g.inner.nodes();
    let ns1 = g1.inner.nodes();
    &&& g1.root == g.root && !ns.contains_key(c) && ns1.dom() =~= ns.dom().insert(c)
    &&& forall|i: NodeIndex| #[trigger] ns.contains_key(i) ==> i.0 < c.0 && ns1[i] == ns[i]
    &&& ns1[c].idx == c && ns1[c].parent is None && ns1[c].package == p && ns1[c].name.key() == dep.name.key()
    &&& ns1[c].children.m() == Map::<Seq<char>, NodeIndex>::empty() && ns1[c].dependencies.m() == Map::<Seq<char>, EdgeIndex>::empty()
    &&& !g.inner.edges().contains_key(e)
    &&& g1.inner.edges().dom() =~= g.inner.edges().dom().insert(e)
    &&& forall|x: EdgeIndex| #[trigger] g.inner.edges().contains_key(x) ==> g1.inner.edges()[x] == g.inner.edges()[x]
    &&& g1.inner.edges()[e].from == dep.node_idx && g1.inner.edges()[e].to == c && g1.inner.edges()[e].w.requested == dep.spec
}
// ---- iterator plumbing ---------------------------------------------------------
impl<'a> VxIntoIter for NodeParentIterator<'a> {
    type I = NodeParentIterator<'a>;
    open spec fn same(self, i: Self::I) -> bool { i == self }
    fn vx_into(self) -> (r: Self::I) { self }
}
impl<'a, E> VxIntoIter for EdgesIter<'a, E> {
    type I = EdgesIter<'a, E>;
    open spec fn same(self, i: Self::I) -> bool { i == self }
    fn vx_into(self) -> (r: Self::I) { self }
}
pub open spec fn it_ok(it: NodeParentIterator) -> bool {
    wf_tree(it.graph.inner.nodes()) && (it.current is Some ==> it.graph.inner.nodes().contains_key(it.current->0))
}
pub open spec fn rank(c: Option<NodeIndex>) -> int { match c { Some(i) => i.0 + 1, None => 0 } }
pub open spec fn anc_from(ns: Nodes, a: NodeIndex, c: Option<NodeIndex>) -> bool { match c { Some(i) => anc(ns, a, i), None => false } }
pub open spec fn lookup_from(ns: Nodes, c: Option<NodeIndex>, k: Seq<char>) -> Option<NodeIndex> { match c { Some(i) => lookup(ns, i, k), None => None } }
pub open spec fn conflict_from(ns: Nodes, c: Option<NodeIndex>, stop: Option<NodeIndex>, k: Seq<char>, t: PackageResolution) -> bool {
    match c { Some(i) => conflict(ns, i, stop, k, t), None => false }
}

impl<'a> NodeParentIterator<'a> {
//@fn crates/node-maintainer/src/graph.rs Iterator@NodeParentIterator::next
    requires it_ok(*old(self)),
    ensures
        it_ok(*final(self)),
        final(self).graph == old(self).graph,
        old(self).current is None ==> ret is None && final(self).current is None,
        old(self).current is Some ==> ret is Some && *ret->0 == old(self).graph.inner.nodes()[old(self).current->0]
            && final(self).current == old(self).graph.inner.nodes()[old(self).current->0].parent
            && rank(final(self).current) < rank(old(self).current),
//@subst Self::Item =>> &'a Node
//@subst? &self.graph[idx] =>> &self.graph.inner[idx]
//@end

    // std's Iterator::any / find_map, proved over the extracted `next`
    #[verifier::loop_isolation(false)]
    pub fn vx_any<F: Fn(&'a Node) -> bool>(self, f: F) -> (r: bool)
        requires it_ok(self), forall|n: &'a Node| #[trigger] f.requires((n,)),
        ensures
            r ==> exists|a: NodeIndex| anc_from(self.graph.inner.nodes(), a, self.current) && self.graph.inner.nodes().contains_key(a) && #[trigger] f.ensures((&self.graph.inner.nodes()[a],), true),
            !r ==> forall|a: NodeIndex| #[trigger] anc_from(self.graph.inner.nodes(), a, self.current) && self.graph.inner.nodes().contains_key(a) ==> f.ensures((&self.graph.inner.nodes()[a],), false),
    {
        let ghost ns = self.graph.inner.nodes();
        let ghost start = self.current;
        let ghost g0 = self.graph;
        let mut it = self;
        loop
            invariant
                it_ok(it), it.graph == g0, ns == g0.inner.nodes(), forall|n: &'a Node| #[trigger] f.requires((n,)),
                forall|a: NodeIndex| anc_from(ns, a, it.current) ==> anc_from(ns, a, start),
                forall|a: NodeIndex| anc_from(ns, a, start) && ns.contains_key(a) ==> anc_from(ns, a, it.current) || #[trigger] f.ensures((&ns[a],), false),
            decreases rank(it.current),
        {
            let ghost cur = it.current;
            match it.next() {
                Some(x) => {
                    proof {
                        assert(anc(ns, cur->0, cur->0));
                        assert forall|a: NodeIndex| anc_from(ns, a, it.current) implies anc_from(ns, a, start) by { assert(anc_from(ns, a, cur)); }
                        assert(*x == ns[cur->0]);
                    }
                    if f(x) { return true; }
                }
                None => { return false; }
            }
        }
    }
    #[verifier::loop_isolation(false)]
    pub fn vx_find_map<B, F: Fn(&'a Node) -> Option<B>>(self, f: F) -> (r: Option<B>)
        requires it_ok(self), forall|n: &'a Node| #[trigger] f.requires((n,)),
            self.current is Some,
        ensures
            first_map(self.graph.inner.nodes(), self.current->0, f, r),
    {
        let ghost ns = self.graph.inner.nodes();
        let ghost start = self.current->0;
        let ghost g0 = self.graph;
        let mut it = self;
        loop
            invariant
                it_ok(it), it.graph == g0, ns == g0.inner.nodes(), forall|n: &'a Node| #[trigger] f.requires((n,)),
                forall|r: Option<B>| (match it.current { Some(i) => first_map(ns, i, f, r), None => r is None }) ==> first_map(ns, start, f, r),
            decreases rank(it.current),
        {
            let ghost cur = it.current;
            match it.next() {
                Some(x) => {
                    let r = f(x);
                    if r.is_some() { return r; }
                    proof {
                        assert forall|q: Option<B>| (match it.current { Some(i) => first_map(ns, i, f, q), None => q is None }) implies first_map(ns, start, f, q) by {
                            assert(first_map(ns, cur->0, f, q));
                        }
                    }
                }
                None => { return None; }
            }
        }
    }
}
/// `r` is what `f` gives for the first node of the parent chain of `n` where it gives Some
pub open spec fn first_map<'a, B, F: Fn(&'a Node) -> Option<B>>(ns: Nodes, n: NodeIndex, f: F, r: Option<B>) -> bool
    decreases n.0
{
    ||| r is Some && f.ensures((&ns[n],), r)
    ||| f.ensures((&ns[n],), None) && match ns[n].parent {
            Some(p) => p.0 < n.0 && first_map(ns, p, f, r),
            None => r is None,
        }
}
broadcast proof fn lemma_first_map_lookup<'a, F: Fn(&'a Node) -> Option<NodeIndex>>(ns: Nodes, n: NodeIndex, f: F, r: Option<NodeIndex>, k: Seq<char>)
    requires
        wf_tree(ns), ns.contains_key(n), #[trigger] first_map(ns, n, f, r),
        forall|x: &'a Node, o: Option<NodeIndex>| #[trigger] f.ensures((x,), o) ==> o == (if x.children.m().contains_key(k) { Some(x.children.m()[k]) } else { None }),
    ensures r == #[trigger] lookup(ns, n, k),
    decreases n.0
{
    if r is Some && f.ensures((&ns[n],), r) {
    } else {
        match ns[n].parent { Some(p) => lemma_first_map_lookup(ns, p, f, r, k), None => {} }
    }
}

impl Index<NodeIndex> for Graph {
    type Output = Node;
//@fn crates/node-maintainer/src/graph.rs Index<NodeIndex>@Graph::index
        ensures *ret == self.inner.nodes()[index],
//@subst Self::Output =>> Node
//@end
}
impl vstd::std_specs::core::IndexSpecImpl<NodeIndex> for Graph {
    open spec fn index_req(&self, i: &NodeIndex) -> bool { self.inner.nodes().contains_key(*i) }
}
impl IndexMut<NodeIndex> for Graph {
//@fn crates/node-maintainer/src/graph.rs IndexMut<NodeIndex>@Graph::index_mut
        ensures *ret == old(self).inner.nodes()[index], final(self).inner.nodes() == old(self).inner.nodes().insert(index, *final(ret)),
            final(self).inner.edges() == old(self).inner.edges(), final(self).root == old(self).root,
//@subst Self::Output =>> Node
//@end
}

impl Edge {
//@fn crates/node-maintainer/src/graph.rs Edge::new
    ensures ret.requested == requested, ret.dep_type == dep_type,
//@subst Self =>> Edge
//@end
}

#[verifier::external_body]
pub fn vx_first<T>(v: Vec<T>, n: usize) -> (r: VecDeque<T>) ensures n <= v@.len() ==> r.v() == v@.take(n as int) { unimplemented!() }
pub open spec fn same_names(a: Seq<UniCase<String>>, b: Seq<UniCase<String>>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i]).key() == b[i].key() }
#[verifier::external_body]
pub fn vx_same_names(a: &VecDeque<UniCase<String>>, b: &VecDeque<UniCase<String>>) -> (r: bool) ensures r == same_names(a.v(), b.v()) { unimplemented!() }
pub open spec fn path_from(ns: Nodes, root: NodeIndex, p: Option<NodeIndex>) -> Seq<UniCase<String>> { match p { Some(i) => path_of(ns, root, i), None => Seq::empty() } }
broadcast proof fn lemma_shape_path(ns: Nodes, ns2: Nodes, root: NodeIndex, i: NodeIndex)
    requires wf_tree(ns), #[trigger] same_shape(ns, ns2), ns.contains_key(i),
    ensures #[trigger] path_of(ns2, root, i) == path_of(ns, root, i),
    decreases i.0
{
    if i != root { match ns[i].parent { Some(p) => lemma_shape_path(ns, ns2, root, p), None => {} } }
}
/// the place the lockfile names
pub open spec fn wanted(g: Graph, target: Option<Vec<UniCase<String>>>, t: NodeIndex) -> bool {
    target is Some && same_names(target->0@.drop_last(), path_of(g.inner.nodes(), g.root, t))
}
/// from `n` up to `t` without passing the place the lockfile names
pub open spec fn climbed(g: Graph, n: NodeIndex, t: NodeIndex, target: Option<Vec<UniCase<String>>>) -> bool
    decreases n.0
{
    n == t || !wanted(g, target, n) && match g.inner.nodes()[n].parent { Some(p) => p.0 < n.0 && climbed(g, p, t, target), None => false }
}
proof fn lemma_climbed(g: Graph, n: NodeIndex, t: NodeIndex, target: Option<Vec<UniCase<String>>>)
    requires wf_tree(g.inner.nodes()), g.inner.nodes().contains_key(n), g.inner.nodes().contains_key(t), climbed(g, n, t, target), !wanted(g, target, t), g.inner.nodes()[t].parent is Some,
    ensures climbed(g, n, g.inner.nodes()[t].parent->0, target),
    decreases n.0
{
    let ns = g.inner.nodes();
    let p = ns[t].parent->0;
        assert(climbed(g, p, p, target));
    if n != t { lemma_climbed(g, ns[n].parent->0, t, target); }
}
/// the package cannot be put at `u`: somebody below relies on what is found there, or `u` needs another one
pub open spec fn blocked(g: Graph, dep: NodeDependency, p: Package, u: NodeIndex) -> bool {
    let ns = g.inner.nodes();
    ||| !req_ok(g, dep, p, u)
    ||| exists|e: EdgeIndex| #![trigger g.inner.edges().contains_key(e)] g.inner.edges().contains_key(e) && lookup(ns, u, dep.name.key()) == Some(g.inner.edges()[e].to) && anc(ns, u, g.inner.edges()[e].from)
}
/// where a package goes: up from its dependent, to the lockfile's place if that comes first, else until something is in the way
pub open spec fn spot(g: Graph, dep: NodeDependency, p: Package, target: Option<Vec<UniCase<String>>>, t: NodeIndex) -> bool {
    &&& climbed(g, dep.node_idx, t, target)
    &&& wanted(g, target, t) || match g.inner.nodes()[t].parent { None => true, Some(u) => blocked(g, dep, p, u) } || t == dep.node_idx && blocked(g, dep, p, t)
}
impl Graph {
    // its names, outermost first
//@fn crates/node-maintainer/src/graph.rs Graph::node_path
    requires wf_tree(self.inner.nodes()), self.inner.nodes().contains_key(node_idx),
    ensures ret.v() == path_of(self.inner.nodes(), self.root, node_idx),
//@at body_start
    broadcast use cat_assoc;
//@loop 0
    invariant
        parent is Some ==> self.inner.nodes().contains_key(parent->0),
        path_from(self.inner.nodes(), self.root, parent) + path.v() == path_of(self.inner.nodes(), self.root, node_idx),
    decreases rank(parent),
//@end
//@fn crates/node-maintainer/src/graph.rs Graph::node_parent_iter
    ensures ret.graph == self, ret.current == Some(idx),
//@end

//@fn crates/node-maintainer/src/graph.rs Graph::resolve_dep
    requires wf_tree(self.inner.nodes()), self.inner.nodes().contains_key(node),
    ensures ret == lookup(self.inner.nodes(), node, dep.key()),
//@loop 0
    invariant
        it_ok($it), $it.graph == self,
        lookup_from(self.inner.nodes(), $it.current, dep.key()) == lookup(self.inner.nodes(), node, dep.key()),
    decreases rank($it.current),
//@end

//@fn crates/node-maintainer/src/graph.rs Graph::is_ancestor
    requires wf_tree(self.inner.nodes()), self.inner.nodes().contains_key(descendant), self.inner.nodes().contains_key(ancestor),
    ensures ret == anc(self.inner.nodes(), ancestor, descendant),
//@m any => vx_any
//@at body_start
    proof { assert(anc_from(self.inner.nodes(), ancestor, Some(descendant)) == anc(self.inner.nodes(), ancestor, descendant)); }
//@closure 0 (&Node) -> (b: bool)
    ensures b == ($0.idx == ancestor)
//@end

//@fn crates/node-maintainer/src/graph.rs Graph::find_by_name
    requires wf_tree(self.inner.nodes()), self.inner.nodes().contains_key(parent),
    ensures ret == Ok::<Option<NodeIndex>, NodeMaintainerError>(lookup(self.inner.nodes(), parent, name.key())),
//@m find_map => vx_find_map
//@at body_start
    broadcast use lemma_first_map_lookup;
//@closure 0 (&Node) -> (b: Option<NodeIndex>)
    ensures b == (if $0.children.m().contains_key(name.key()) { Some($0.children.m()[name.key()]) } else { None })
//@end
}

// ---- the resolver's loop ------------------------------------------------------
//@item crates/node-maintainer/src/lockfile.rs Lockfile
//@end
//@item crates/node-maintainer/src/lockfile.rs LockfileNode
//@end
impl Clone for LockfileNode {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl Clone for Package {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl Clone for CorgiManifest {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl Clone for NodeDependency {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl Instant {
    #[verifier::external_body]
    pub fn now() -> Instant { unimplemented!() }
}
#[verifier::external_body]
pub struct Nassun { _p: () }
#[verifier::external_body]
pub struct Path { _p: () }
#[verifier::external_body]
pub struct ProgressAdded { _p: () }
#[verifier::external_body]
pub struct ProgressHandler { _p: () }
#[verifier::external_body]
pub struct DeprecationInfo { _p: () }
#[verifier::external_body]
pub struct CorgiDist { _p: () }
//@item crates/oro-common/src/packument.rs CorgiVersionMetadata
//@end
/// what the registry (or the package's own manifest) declares for a package
pub uninterp spec fn corgi_of(p: Package) -> CorgiManifest;
impl Package {
    #[verifier::external_body]
    pub fn corgi_metadata(&self) -> (r: Result<CorgiVersionMetadata, NodeMaintainerError>) ensures r is Ok ==> r->Ok_0.manifest == corgi_of(*self) { unimplemented!() }
}
impl Nassun {
    // unit `versions`: the package a client hands out for a request is one that the request selects
    #[verifier::external_body]
    pub fn resolve_spec(&self, s: PackageSpec) -> (r: Result<Package, NodeMaintainerError>) ensures r is Ok ==> resolved_for(r->Ok_0, s) { unimplemented!() }
}
/// the dependencies of a tree node are what `m` declares
pub open spec fn made_of(n: Node, m: CorgiManifest) -> bool { n.dependency_reqs.m() == reqs_of(m, false) && keys_ok(n) }
pub open spec fn keys_ok(n: Node) -> bool { forall|k: Seq<char>| #[trigger] n.dependency_reqs.m().contains_key(k) ==> exists|t: Seq<char>| #[trigger] uni(t) == k && valid_name(t) }
pub open spec fn same_deps(m: CorgiManifest, n: LockfileNode) -> bool {
    &&& m.dependencies == n.dependencies && m.dev_dependencies == n.dev_dependencies
    &&& m.optional_dependencies == n.optional_dependencies && m.peer_dependencies == n.peer_dependencies
}
pub open spec fn in_lock(m: CorgiManifest, l: Option<Lockfile>) -> bool {
    l is Some && exists|k: Seq<char>| #[trigger] l->0.packages.m().contains_key(k) && same_deps(m, l->0.packages.m()[k])
}
/// a package is filed under a name that is safe to use as a folder (up to letter case)
pub open spec fn name_ok(n: Node) -> bool { exists|t: Seq<char>| #[trigger] uni(t) == n.name.key() && valid_name(t) }
/// a package's dependencies are those its metadata declares, or those the lockfile in use declares for it
pub open spec fn told(n: Node, a: Option<Lockfile>, b: Option<Lockfile>) -> bool {
    exists|m: CorgiManifest| #[trigger] made_of(n, m) && (m == corgi_of(n.package) || in_lock(m, a) || in_lock(m, b))
}
/// (proved of what from_kdl and from_npm read: unit lockfile)
pub open spec fn lock_ok(l: Option<Lockfile>) -> bool {
    l is Some ==> forall|k: Seq<char>| #[trigger] l->0.packages.m().contains_key(k) && k != uni(Seq::<char>::empty()) ==> l->0.packages.m()[k].path@.len() > 0
}
/// where the answers to a lockfile's requests come from
pub open spec fn asked(out: Set<NodeDependency>, i: NodeIndex, k: Seq<char>) -> bool { exists|d: NodeDependency| #[trigger] out.contains(d) && d.node_idx == i && d.name.key() == k }
/// THE LOOP: every declared dependency is wired, or its package still waits in the queue, or its
/// request is out, or (while package `cur` is being looked at) among those `left`
pub open spec fn work(g: Graph, q: Seq<NodeIndex>, out: Set<NodeDependency>, cur: NodeIndex, left: Set<Seq<char>>) -> bool {
    let ns = g.inner.nodes();
    &&& wf(g)
    &&& forall|d: NodeDependency| #[trigger] out.contains(d) ==> pending(g, d) && !q.contains(d.node_idx)
    &&& forall|d1: NodeDependency, d2: NodeDependency| #[trigger] out.contains(d1) && #[trigger] out.contains(d2) && d1.node_idx == d2.node_idx && d1.name.key() == d2.name.key() ==> d1 == d2
    &&& q.no_duplicates()
    &&& forall|i: NodeIndex| #[trigger] q.contains(i) ==> ns.contains_key(i) && ns[i].dependencies.m() == Map::<Seq<char>, EdgeIndex>::empty()
    &&& forall|k: Seq<char>| #[trigger] left.contains(k) ==> ns.contains_key(cur) && ns[cur].dependency_reqs.m().contains_key(k) && !ns[cur].dependencies.m().contains_key(k) && !asked(out, cur, k) && !q.contains(cur)
    &&& forall|i: NodeIndex, k: Seq<char>| #![trigger ns[i].dependency_reqs.m().contains_key(k)] ns.contains_key(i) && ns[i].dependency_reqs.m().contains_key(k) ==>
            ns[i].dependencies.m().contains_key(k) || q.contains(i) || asked(out, i, k) || (i == cur && left.contains(k))
}
pub open spec fn all_told(g: Graph, a: Option<Lockfile>, b: Option<Lockfile>) -> bool {
    forall|i: NodeIndex| #[trigger] g.inner.nodes().contains_key(i) ==> keys_ok(g.inner.nodes()[i]) && (i != g.root ==> told(g.inner.nodes()[i], a, b) && name_ok(g.inner.nodes()[i]))
}
/// THE PROPERTY: every dependency that any package of the tree declares is found by module
/// lookup from that package, and what is found satisfies the declared request
pub open spec fn resolved(g: Graph) -> bool {
    let ns = g.inner.nodes();
    forall|i: NodeIndex, k: Seq<char>| #![trigger ns[i].dependency_reqs.m().contains_key(k)] ns.contains_key(i) && ns[i].dependency_reqs.m().contains_key(k) ==>
        lookup(ns, i, k) is Some && placed_ok(ns, lookup(ns, i, k)->0, ns[i].dependency_reqs.m()[k].0)
}
broadcast proof fn step_pop(g: Graph, q: Seq<NodeIndex>, out: Set<NodeDependency>, cur: NodeIndex, left: Set<Seq<char>>)
    requires #[trigger] work(g, q, out, cur, left), left =~= Set::<Seq<char>>::empty(), q.len() > 0,
    ensures work(g, #[trigger] q.subrange(1, q.len() as int), out, q[0], g.inner.nodes()[q[0]].dependency_reqs.m().dom()), g.inner.nodes().contains_key(q[0]),
{
    let q2 = q.subrange(1, q.len() as int);
    assert(q.contains(q[0]));
    assert forall|i: NodeIndex| #[trigger] q2.contains(i) implies q.contains(i) && i != q[0] by {
        let n = choose|n: int| 0 <= n < q2.len() && q2[n] == i;
        assert(q[n + 1] == i);
    }
    assert forall|i: NodeIndex| #[trigger] q.contains(i) implies q2.contains(i) || i == q[0] by {
        let n = choose|n: int| 0 <= n < q.len() && q[n] == i;
        if n > 0 { assert(q2[n - 1] == i); }
    }
}
/// a request goes out
proof fn step_ask(g: Graph, q: Seq<NodeIndex>, out: Set<NodeDependency>, cur: NodeIndex, left: Set<Seq<char>>, dep: NodeDependency)
    requires work(g, q, out, cur, left), left.contains(dep.name.key()), dep.node_idx == cur, g.inner.nodes()[cur].dependency_reqs.m()[dep.name.key()].0 == dep.spec,
    ensures work(g, q, out.insert(dep), cur, left.remove(dep.name.key())), !out.contains(dep),
{
    let k = dep.name.key();
    let out2 = out.insert(dep);
    assert(out2.contains(dep));
    assert forall|i: NodeIndex, q: Seq<char>| #[trigger] asked(out, i, q) implies asked(out2, i, q) by {
        let d = choose|d: NodeDependency| #[trigger] out.contains(d) && d.node_idx == i && d.name.key() == q;
        assert(out2.contains(d));
    }
    assert(asked(out2, cur, k));
    assert forall|q: Seq<char>| q != k && #[trigger] asked(out2, cur, q) implies asked(out, cur, q) by {
        let d = choose|d: NodeDependency| #[trigger] out2.contains(d) && d.node_idx == cur && d.name.key() == q;
        assert(out.contains(d));
    }
    if out.contains(dep) { assert(asked(out, cur, k)); }
    assert forall|d1: NodeDependency, d2: NodeDependency| #[trigger] out2.contains(d1) && #[trigger] out2.contains(d2) && d1.node_idx == d2.node_idx && d1.name.key() == d2.name.key() implies d1 == d2 by {
        if d1 == dep && d2 != dep { assert(asked(out, cur, k)); }
        if d2 == dep && d1 != dep { assert(asked(out, cur, k)); }
    }
}
/// what answering `dep` leaves open
pub open spec fn answers(dep: NodeDependency, out: Set<NodeDependency>, out2: Set<NodeDependency>, cur: NodeIndex, left: Set<Seq<char>>, left2: Set<Seq<char>>) -> bool {
    ||| out2 == out && dep.node_idx == cur && left.contains(dep.name.key()) && left2 == left.remove(dep.name.key())
    ||| out.contains(dep) && out2 == out.remove(dep) && left2 == left
}
proof fn step_open(g: Graph, g2: Graph, q: Seq<NodeIndex>, q2: Seq<NodeIndex>, out: Set<NodeDependency>, out2: Set<NodeDependency>, cur: NodeIndex, left: Set<Seq<char>>, left2: Set<Seq<char>>, dep: NodeDependency)
    requires
        work(g, q, out, cur, left), wf(g2), answers(dep, out, out2, cur, left, left2), pending(g, dep),
        q2.no_duplicates(), forall|i: NodeIndex| #[trigger] q2.contains(i) <==> q.contains(i) || g2.inner.nodes().contains_key(i) && !g.inner.nodes().contains_key(i),
        ({
            let ns = g.inner.nodes();
            let ns2 = g2.inner.nodes();
            &&& forall|i: NodeIndex| #[trigger] ns.contains_key(i) ==> ns2.contains_key(i) && ns2[i].dependency_reqs == ns[i].dependency_reqs
                    && forall|k: Seq<char>| #[trigger] ns2[i].dependencies.m().contains_key(k) <==> ns[i].dependencies.m().contains_key(k) || i == dep.node_idx && k == dep.name.key()
            &&& forall|i: NodeIndex| #[trigger] ns2.contains_key(i) && !ns.contains_key(i) ==> ns2[i].dependencies.m() == Map::<Seq<char>, EdgeIndex>::empty()
        }),
    ensures work(g2, q2, out2, cur, left2),
{
    let ns = g.inner.nodes();
    let ns2 = g2.inner.nodes();
    let k0 = dep.name.key();
    assert(!q.contains(dep.node_idx));
    assert forall|i: NodeIndex, k: Seq<char>| #[trigger] asked(out2, i, k) implies asked(out, i, k) by {
        let d = choose|d: NodeDependency| #[trigger] out2.contains(d) && d.node_idx == i && d.name.key() == k;
        assert(out.contains(d));
    }
    assert forall|i: NodeIndex, k: Seq<char>| #[trigger] asked(out, i, k) && !(i == dep.node_idx && k == k0) implies asked(out2, i, k) by {
        let d = choose|d: NodeDependency| #[trigger] out.contains(d) && d.node_idx == i && d.name.key() == k;
        assert(out2.contains(d));
    }
    assert forall|d: NodeDependency| #[trigger] out2.contains(d) implies pending(g2, d) && !q2.contains(d.node_idx) by {
        assert(out.contains(d));
        assert(pending(g, d));
        if d.node_idx == dep.node_idx && d.name.key() == k0 {
            assert(asked(out, dep.node_idx, k0));
        }
    }
    assert forall|i: NodeIndex| #[trigger] q2.contains(i) implies ns2.contains_key(i) && ns2[i].dependencies.m() == Map::<Seq<char>, EdgeIndex>::empty() by {
        if q.contains(i) {
            assert(ns.contains_key(i));
            assert forall|k: Seq<char>| !ns2[i].dependencies.m().contains_key(k) by { assert(!ns[i].dependencies.m().contains_key(k)); }
            assert(ns2[i].dependencies.m() =~= Map::<Seq<char>, EdgeIndex>::empty());
        }
    }
    assert forall|k: Seq<char>| #[trigger] left2.contains(k) implies ns2.contains_key(cur) && ns2[cur].dependency_reqs.m().contains_key(k) && !ns2[cur].dependencies.m().contains_key(k) && !asked(out2, cur, k) && !q2.contains(cur) by {
        assert(left.contains(k));
        if cur == dep.node_idx && k == k0 && left.contains(k0) { assert(out.contains(dep) ==> asked(out, cur, k0)); }
    }
    assert forall|i: NodeIndex, k: Seq<char>| #![trigger ns2[i].dependency_reqs.m().contains_key(k)] ns2.contains_key(i) && ns2[i].dependency_reqs.m().contains_key(k) implies
            ns2[i].dependencies.m().contains_key(k) || q2.contains(i) || asked(out2, i, k) || (i == cur && left2.contains(k)) by {
        if ns.contains_key(i) {
            assert(ns[i].dependency_reqs.m().contains_key(k));
            assert(ns2[i].dependencies.m().contains_key(k) <==> ns[i].dependencies.m().contains_key(k) || i == dep.node_idx && k == k0);
        }
    }
}
/// a request is answered from the tree
proof fn step_wired(g: Graph, g2: Graph, q: Seq<NodeIndex>, out: Set<NodeDependency>, out2: Set<NodeDependency>, cur: NodeIndex, left: Set<Seq<char>>, left2: Set<Seq<char>>, dep: NodeDependency, to: NodeIndex, a: Option<Lockfile>, b: Option<Lockfile>)
    requires work(g, q, out, cur, left), answers(dep, out, out2, cur, left, left2), pending(g, dep), satisfied(g, g2, dep, to), all_told(g, a, b),
    ensures work(g2, q, out2, cur, left2), all_told(g2, a, b), g2.root == g.root, g2.inner.nodes()[g2.root].dependency_reqs == g.inner.nodes()[g.root].dependency_reqs,
{
    satisfy_step(g, g2, dep, to);
    step_open(g, g2, q, q, out, out2, cur, left, left2, dep);
    lemma_told(g, g2, a, b, g.root, corgi_of(g.inner.nodes()[g.root].package));
}
/// a request is answered by a new package
proof fn step_placed(g: Graph, g2: Graph, q: Seq<NodeIndex>, out: Set<NodeDependency>, out2: Set<NodeDependency>, cur: NodeIndex, left: Set<Seq<char>>, left2: Set<Seq<char>>, dep: NodeDependency, p: Package, c: NodeIndex, a: Option<Lockfile>, b: Option<Lockfile>, m: CorgiManifest)
    requires
        work(g, q, out, cur, left), answers(dep, out, out2, cur, left, left2), pending(g, dep), placed_new(g, g2, dep, p, c),
        sat(res_of(p), dep.spec) || resolved_for(p, dep.spec),
        all_told(g, a, b), made_of(g2.inner.nodes()[c], m), m == corgi_of(p) || in_lock(m, a) || in_lock(m, b),
    ensures work(g2, q.push(c), out2, cur, left2), all_told(g2, a, b), g2.root == g.root, g2.inner.nodes()[g2.root].dependency_reqs == g.inner.nodes()[g.root].dependency_reqs,
{
    place_step(g, g2, dep, p, c);
    let q2 = q.push(c);
    let ns = g.inner.nodes();
    let ns2 = g2.inner.nodes();
    assert forall|i: NodeIndex| #[trigger] q2.contains(i) <==> q.contains(i) || i == c by {
        if q.contains(i) { let n = choose|n: int| 0 <= n < q.len() && q[n] == i; assert(q2[n] == i); }
        if i == c { assert(q2[q.len() as int] == c); }
    }
    assert(!q.contains(c));
    assert forall|i: NodeIndex| ns2.contains_key(i) && !ns.contains_key(i) implies i == c by {}
    step_open(g, g2, q, q2, out, out2, cur, left, left2, dep);
    assert(name_ok(ns2[c])) by { assert(keys_ok(ns[dep.node_idx])); assert(ns[dep.node_idx].dependency_reqs.m().contains_key(dep.name.key())); }
    lemma_told(g, g2, a, b, c, m);
}
proof fn lemma_told(g: Graph, g2: Graph, a: Option<Lockfile>, b: Option<Lockfile>, c: NodeIndex, m: CorgiManifest)
    requires all_told(g, a, b), g2.root == g.root, g.inner.nodes().contains_key(g.root),
        ({
            let ns = g.inner.nodes();
            let ns2 = g2.inner.nodes();
            &&& forall|i: NodeIndex| #[trigger] ns2.contains_key(i) <==> ns.contains_key(i) || i == c
            &&& forall|i: NodeIndex| #[trigger] ns.contains_key(i) ==> ns2[i].dependency_reqs == ns[i].dependency_reqs && ns2[i].package == ns[i].package && ns2[i].name == ns[i].name
            &&& ns.contains_key(c) || name_ok(ns2[c]) && made_of(ns2[c], m) && (m == corgi_of(ns2[c].package) || in_lock(m, a) || in_lock(m, b))
        }),
    ensures all_told(g2, a, b),
{
    let ns = g.inner.nodes();
    let ns2 = g2.inner.nodes();
    assert forall|i: NodeIndex| #[trigger] ns2.contains_key(i) implies keys_ok(ns2[i]) && (i != g2.root ==> told(ns2[i], a, b) && name_ok(ns2[i])) by {
        if ns.contains_key(i) {
            assert(keys_ok(ns[i]));
            if i != g.root {
                let x = choose|x: CorgiManifest| #[trigger] made_of(ns[i], x) && (x == corgi_of(ns[i].package) || in_lock(x, a) || in_lock(x, b));
                assert(made_of(ns2[i], x));
                assert(name_ok(ns[i]));
            }
        } else {
            assert(made_of(ns2[c], m));
        }
    }
}
/// nothing waits and nothing is out: everything is resolved
proof fn work_done(g: Graph, q: Seq<NodeIndex>, out: Set<NodeDependency>, cur: NodeIndex)
    requires work(g, q, out, cur, Set::empty()), q.len() == 0, out.len() == 0,
    ensures resolved(g),
{
    let ns = g.inner.nodes();
    assert(out =~= Set::empty());
    assert forall|i: NodeIndex, k: Seq<char>| #![trigger ns[i].dependency_reqs.m().contains_key(k)] ns.contains_key(i) && ns[i].dependency_reqs.m().contains_key(k) implies
        lookup(ns, i, k) is Some && placed_ok(ns, lookup(ns, i, k)->0, ns[i].dependency_reqs.m()[k].0) by {
        assert(ns[i].dependencies.m().contains_key(k));
        dependency_sound(g, i, k);
    }
}
/// the tree a resolution starts from: the project alone
pub open spec fn start_graph(g: Graph) -> bool {
    let ns = g.inner.nodes();
    &&& ns.dom() =~= set![g.root] && g.inner.edges() == Map::<EdgeIndex, EdgeT<Edge>>::empty()
    &&& ns[g.root].parent is None && ns[g.root].children.m() == Map::<Seq<char>, NodeIndex>::empty()
    &&& ns[g.root].dependencies.m() == Map::<Seq<char>, EdgeIndex>::empty() && ns[g.root].idx == g.root && keys_ok(ns[g.root])
}
proof fn step_start(g: Graph, q: Seq<NodeIndex>, a: Option<Lockfile>, b: Option<Lockfile>)
    requires start_graph(g), q =~= seq![g.root],
    ensures work(g, q, Set::empty(), g.root, Set::empty()), all_told(g, a, b),
{
    assert(rooted(g)) by { reveal(rooted); assert forall|i: NodeIndex| #[trigger] g.inner.nodes().contains_key(i) implies i == g.root by { assert(g.inner.nodes().dom().contains(i)); } }
    let ns = g.inner.nodes();
    assert(ns.contains_key(g.root));
    assert forall|i: NodeIndex| #[trigger] ns.contains_key(i) implies i == g.root by { assert(ns.dom().contains(i)); }
    assert(q.contains(g.root)) by { assert(q[0] == g.root); }
}
/// the requests that are out
#[verifier::external_body]
pub struct VxSink { _p: () }
impl VxSink {
    pub uninterp spec fn out(&self) -> Set<NodeDependency>;
    #[verifier::external_body]
    pub fn unbounded_send(&mut self, d: NodeDependency) -> (r: Result<(), NodeMaintainerError>)
        ensures r is Ok ==> final(self).out() == old(self).out().insert(d), r is Err ==> final(self).out() == old(self).out() { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_sink() -> (r: VxSink) ensures r.out() == Set::<NodeDependency>::empty() { unimplemented!() }
/// the requests that are out, by what they ask for
#[verifier::external_body]
pub struct VxFetches { _p: () }
impl VxFetches {
    // each request that is out is in here once, under its spec (closure `enter`, below)
    #[verifier::external_body]
    pub fn vx_take(&self, sink: &mut VxSink, s: &PackageSpec) -> (r: Option<Vec<NodeDependency>>)
        ensures
            r is None ==> final(sink).out() == old(sink).out(),
            r matches Some(d) ==> {
                &&& d@.no_duplicates() && d@.to_set().subset_of(old(sink).out())
                &&& forall|i: int| 0 <= i < d@.len() ==> (#[trigger] d@[i]).spec == *s
                &&& final(sink).out() == old(sink).out().difference(d@.to_set())
                &&& final(sink).out().len() + d@.len() == old(sink).out().len()
            },
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_fetches() -> VxFetches { unimplemented!() }
/// answers, in any order and grouping
#[verifier::external_body]
#[verifier::reject_recursive_types(F)]
pub struct VxPool<F> { _p: std::marker::PhantomData<F> }
#[verifier::external_body]
pub fn vx_pool<F: Fn(PackageSpec) -> Result<(Package, PackageSpec), NodeMaintainerError>>(f: F) -> (r: VxPool<F>)
    requires forall|s: PackageSpec| #[trigger] f.requires((s,)),
        forall|s: PackageSpec, o: Result<(Package, PackageSpec), NodeMaintainerError>| #[trigger] f.ensures((s,), o) ==> (o is Ok ==> resolved_for(o->Ok_0.0, o->Ok_0.1)),
{ unimplemented!() }
impl<F> VxPool<F> {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<Vec<Result<(Package, PackageSpec), NodeMaintainerError>>>)
        ensures r matches Some(v) ==> forall|i: int| 0 <= i < v@.len() && (#[trigger] v@[i]) is Ok ==> resolved_for(v@[i]->Ok_0.0, v@[i]->Ok_0.1) { unimplemented!() }
}
/// any order will do
#[verifier::external_body]
pub fn vx_sort(q: &mut VecDeque<NodeIndex>)
    ensures old(q).v().no_duplicates() ==> final(q).v().no_duplicates(), forall|i: NodeIndex| #[trigger] final(q).v().contains(i) <==> old(q).v().contains(i) { unimplemented!() }
/// counting: no overflow, assumed
#[verifier::external_body]
pub fn vx_incu(n: &mut usize) ensures *final(n) == *old(n) + 1 { unimplemented!() }
#[verifier::external_body]
pub struct KdlDocument { _p: () }
impl KdlDocument {
    pub uninterp spec fn text(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String) ensures r@ == self.text() { unimplemented!() }
}
/// the text a lockfile is printed as, and what a tree's lockfile says (unit `lockfile`)
pub uninterp spec fn printed(l: Lockfile) -> Seq<char>;
pub uninterp spec fn lock_of(g: Graph) -> Lockfile;
impl Lockfile {
    #[verifier::external_body]
    pub fn to_kdl(&self) -> (r: KdlDocument) ensures r.text() == printed(*self) { unimplemented!() }
//@fn crates/node-maintainer/src/lockfile.rs Lockfile::packages
    ensures *ret == self.packages,
//@end
}
impl Graph {
    #[verifier::external_body]
    pub fn to_kdl(&self) -> (r: Result<KdlDocument, NodeMaintainerError>) ensures r is Ok ==> r->Ok_0.text() == printed(lock_of(*self)) { unimplemented!() }
}
/// a lockfile entry that says enough to be installed
pub open spec fn tells(n: LockfileNode) -> bool { n.resolved is Some || n.version is Some }
/// the package a lockfile entry stands for (unit `lockfile`)
pub uninterp spec fn from_lock(p: Package, n: LockfileNode) -> bool;
pub open spec fn nm_sep() -> Seq<char> { "/node_modules/"@ }
/// the lockfile's entry for `name` that module lookup from `path` comes to first
pub open spec fn nearest(l: Lockfile, path: Seq<UniCase<String>>, name: UniCase<String>) -> Option<LockfileNode>
    decreases path.len()
{
    let k = uni(joined(path.push(name), nm_sep()));
    if l.packages.m().contains_key(k) && tells(l.packages.m()[k]) { Some(l.packages.m()[k]) }
    else if path.len() == 0 { None }
    else { nearest(l, path.drop_last(), name) }
}
impl LockfileNode {
    #[verifier::external_body]
    pub fn to_package(&self, n: &Nassun) -> (r: Result<Option<Package>, NodeMaintainerError>)
        ensures r matches Ok(x) ==> (x is Some <==> tells(*self)) && (x matches Some(p) ==> from_lock(p, *self))
    { unimplemented!() }
}
pub fn vx_textne(a: String, b: String) -> (r: bool) ensures r <==> a@ != b@ { !vx_streq(&a, &b) }
/// names joined by a separator
pub open spec fn joined(ps: Seq<UniCase<String>>, sep: Seq<char>) -> Seq<char>
    decreases ps.len()
{
    if ps.len() == 0 { Seq::empty() }
    else if ps.len() == 1 { ps[0].text() }
    else { joined(ps.drop_last(), sep) + sep + ps.last().text() }
}
broadcast proof fn joined_nonempty(ps: Seq<UniCase<String>>, n: UniCase<String>, sep: Seq<char>)
    requires n.text().len() > 0,
    ensures #[trigger] joined(ps.push(n), sep).len() > 0,
{ assert(ps.push(n).last() == n); }
#[verifier::external_body]
pub fn vx_join(p: &VecDeque<UniCase<String>>, sep: &str) -> (r: String) ensures r@ == joined(p.v(), sep@) { unimplemented!() }
pub open spec fn rest_keys(all: Seq<(UniCase<String>, (PackageSpec, DepType))>, n: int) -> Set<Seq<char>>
    decreases all.len() - n
{
    if 0 <= n < all.len() { rest_keys(all, n + 1).insert(all[n].0.key()) } else { Set::empty() }
}
proof fn lemma_rest_keys(all: Seq<(UniCase<String>, (PackageSpec, DepType))>, n: int, k: Seq<char>)
    requires 0 <= n,
    ensures rest_keys(all, n).contains(k) <==> exists|i: int| n <= i < all.len() && (#[trigger] all[i]).0.key() == k,
    decreases all.len() - n
{
    if n < all.len() {
        lemma_rest_keys(all, n + 1, k);
        if all[n].0.key() == k { assert(n <= n && all[n].0.key() == k); }
    }
}
pub open spec fn rest_deps(all: Seq<NodeDependency>, n: int) -> Set<NodeDependency> { all.subrange(n, all.len() as int).to_set() }
proof fn lemma_rest_deps(all: Seq<NodeDependency>, n: int)
    requires 0 <= n < all.len(), all.no_duplicates(),
    ensures rest_deps(all, n).contains(all[n]), rest_deps(all, n + 1) =~= rest_deps(all, n).remove(all[n]),
{
    let a = all.subrange(n, all.len() as int);
    let b = all.subrange(n + 1, all.len() as int);
    assert(a[0] == all[n]);
    assert forall|d: NodeDependency| #[trigger] b.to_set().contains(d) <==> a.to_set().contains(d) && d != all[n] by {
        if b.contains(d) { let i = choose|i: int| 0 <= i < b.len() && b[i] == d; assert(a[i + 1] == d); assert(all[n + 1 + i] == d); }
        if a.contains(d) && d != all[n] { let i = choose|i: int| 0 <= i < a.len() && a[i] == d; assert(b[i - 1] == d); }
    }
}
broadcast proof fn rejoin(out: Set<NodeDependency>, d: Seq<NodeDependency>)
    requires d.to_set().subset_of(out),
    ensures #[trigger] out.difference(d.to_set()).union(rest_deps(d, 0)) == out,
{
    assert(d.subrange(0, d.len() as int) =~= d);
    assert(out.difference(d.to_set()).union(d.to_set()) =~= out);
}
impl CorgiManifest {
//@fn crates/node-maintainer/src/lockfile.rs From<LockfileNode>@CorgiManifest::from
    ensures same_deps(ret, value),
//@subst Self =>> CorgiManifest
//@end
}
//@item crates/node-maintainer/src/resolver.rs Resolver
//@end
/// what was recorded as installed, below there
pub uninterp spec fn record_of(root: Path) -> Option<Lockfile>;
pub open spec fn base(now: Resolver, was: Resolver, lockfile: Option<Lockfile>) -> bool {
    &&& all_told(now.graph, lockfile, now.actual_tree)
    &&& lock_ok(now.actual_tree) && now.actual_tree == record_of(*was.root) && now.locked == was.locked && now.graph.root == was.graph.root
    &&& now.graph.inner.nodes()[now.graph.root].dependency_reqs == was.graph.inner.nodes()[was.graph.root].dependency_reqs
}
pub open spec fn idle(now: Resolver, q: VecDeque<NodeIndex>, sink: VxSink, in_flight: usize, was: Resolver, lockfile: Option<Lockfile>) -> bool {
    &&& base(now, was, lockfile) && in_flight == sink.out().len()
    &&& work(now.graph, q.v(), sink.out(), now.graph.root, Set::empty())
}
impl<'a> Resolver<'a> {
//@fn crates/node-maintainer/src/resolver.rs Resolver::satisfy_dependency
    requires wf(*old(graph)), pending(*old(graph), *dep),
    ensures
        // with `satisfy_step`: the tree stays sound, and this dependency is now sound in it
        ret is Ok && ret->Ok_0 is Some ==> satisfied(*old(graph), *final(graph), *dep, ret->Ok_0->0),
        ret is Ok && ret->Ok_0 is None ==> *final(graph) == *old(graph) && unsatisfied(old(graph).inner.nodes(), *dep),
//@at body_start
    proof { lemma_lookup_in(graph.inner.nodes(), dep.node_idx, dep.name.key()); }
//@end

//@fn crates/node-maintainer/src/resolver.rs Resolver::place_child
//@attr #[verifier::allow_complex_invariants]
//@attr #[verifier::rlimit(60)]
    requires
        wf(*old(graph)), pending(*old(graph), *dep), unsatisfied(old(graph).inner.nodes(), *dep),
        target_path is Some ==> target_path->0@.len() > 0,
    ensures
        // with `place_step`: the tree stays sound, nothing is overwritten, and this dependency is sound in it
        ret is Ok ==> placed_new(*old(graph), *final(graph), *dep, package, ret->Ok_0) && made_of(final(graph).inner.nodes()[ret->Ok_0], corgi),
        // where a lockfile wants it, else as high as it can go
//@if C03,C04         ret is Ok ==> spot(*old(graph), *dep, package, target_path, final(graph).inner.nodes()[ret->Ok_0].parent->0),
//@closure 0 (Vec<UniCase<String>>) -> (r: VecDeque<UniCase<String>>)
    requires $0@.len() > 0
    ensures r.v() == $0@.drop_last()
//@subst? $0.into_iter().take($1).collect::<VecDeque<_>>() =>> vx_first($0, $1)
//@subst? $0 == &graph.node_path($1) =>> vx_same_names($0, &graph.node_path($1))
//@at body_start
    let ghost g0 = *graph;
    let ghost want0 = target_path;
    broadcast use lemma_shape_lookup, lemma_shape_anc, lemma_shape_path;
    proof { lemma_first_free(g0, *dep); }
//@loop 0
//@if C03,C04     invariant_except_break
//@if C03,C04         parent_idx == Some(dep.node_idx) && target_idx == dep.node_idx || parent_idx == g0.inner.nodes()[target_idx].parent && !wanted(g0, want0, target_idx),
    invariant
        limbo(g0, *graph, *dep, package, child_idx, edge_idx),
        made_of(graph.inner.nodes()[child_idx], corgi),
        wf_tree(graph.inner.nodes()),
        same_shape(g0.inner.nodes(), graph.inner.nodes()),
        up_ok(g0, *dep, package, target_idx),
        parent_idx == Some(dep.node_idx) && target_idx == dep.node_idx || parent_idx == g0.inner.nodes()[target_idx].parent && req_ok(g0, *dep, package, target_idx),
//@if C03,C04         climbed(g0, dep.node_idx, target_idx, want0),
//@if C03,C04     ensures
//@if C03,C04         spot(g0, *dep, package, want0, target_idx),
    decreases rank(parent_idx),
//@at loop 0 body_start
    proof { lemma_up(g0, *dep, package, target_idx, curr_target_idx); }
//@if C03,C04     proof { if parent_idx == g0.inner.nodes()[target_idx].parent && !wanted(g0, want0, target_idx) { lemma_climbed(g0, dep.node_idx, target_idx, want0); } }
//@if C03,C04     assert(climbed(g0, dep.node_idx, curr_target_idx, want0));
//@at before if let Some((req
    proof {
        let ns = g0.inner.nodes();
        let es = g0.inner.edges();
        assert forall|e: EdgeIndex| #![trigger es.contains_key(e)]
            es.contains_key(e) && lookup(ns, curr_target_idx, dep.name.key()) == Some(es[e].to) implies !anc(ns, curr_target_idx, es[e].from) by {
            assert(wf_edge(ns, es[e]));
            assert(graph.inner.edges().contains_key(e));
            assert(lookup(graph.inner.nodes(), curr_target_idx, dep.name.key()) == Some(es[e].to));
            assert(anc(graph.inner.nodes(), curr_target_idx, es[e].from) == anc(ns, curr_target_idx, es[e].from));
        }
        assert(free_at(ns, es, curr_target_idx, dep.name.key()));
    }
//@loop 1
    invariant
        0 <= $it.pos() <= $it.all().len(),
        edges_of(graph.inner.edges(), resolved, Direction::Incoming, $it.all()),
        forall|i: int| 0 <= i < $it.pos() ==> !anc(graph.inner.nodes(), curr_target_idx, graph.inner.edges()[(#[trigger] $it.all()[i]).e].from),
    decreases $it.all().len() - $it.pos(),
//@if C03,C04 //@at before break 'outer
//@if C03,C04     proof {
//@if C03,C04         let e = edge_ref.e;
//@if C03,C04         assert(graph.inner.edges().contains_key(e));
//@if C03,C04         lemma_lookup_in(g0.inner.nodes(), curr_target_idx, dep.name.key());
//@if C03,C04         assert(g0.inner.nodes().contains_key(resolved) && resolved != child_idx);
//@if C03,C04         assert(e != edge_idx);
//@if C03,C04         assert(g0.inner.edges().contains_key(e));
//@if C03,C04         assert(blocked(g0, *dep, package, curr_target_idx));
//@if C03,C04     }
//@if C03,C04 //@at before Ok(child_idx)
//@if C03,C04     proof { assert(spot(g0, *dep, package, want0, target_idx)); assert(graph.inner.nodes()[child_idx].parent == Some(target_idx)); }
//@end

//@fn crates/node-maintainer/src/resolver.rs Resolver::may_be_shadowed
    requires wf_tree(graph.inner.nodes()), graph.inner.nodes().contains_key(dep.node_idx), graph.inner.nodes().contains_key(satisfier_idx), graph.inner.nodes()[satisfier_idx].parent is Some,
    ensures ret is Ok ==> ret->Ok_0 == conflict(graph.inner.nodes(), dep.node_idx, graph.inner.nodes()[satisfier_idx].parent, dep.name.key(), res_of(graph.inner.nodes()[satisfier_idx].package)),
//@loop 0
    invariant
        conflict_from(graph.inner.nodes(), $it.current, holder_idx, dep.name.key(), res_of(graph.inner.nodes()[satisfier_idx].package))
          == conflict(graph.inner.nodes(), dep.node_idx, holder_idx, dep.name.key(), res_of(graph.inner.nodes()[satisfier_idx].package)),
        it_ok($it), $it.graph == graph,
    decreases rank($it.current),
//@end
//@fn crates/node-maintainer/src/resolver.rs Resolver::satisfy_from_lockfile
    requires wf_tree(graph.inner.nodes()), graph.inner.nodes().contains_key(dependent_idx),
        lock_ok(Some(*lockfile)), exists|t: Seq<char>| #[trigger] uni(t) == name.key() && valid_name(t),
    ensures
        // what the lockfile has where module lookup from the dependent comes first, if that satisfies the request
        ret matches Ok(Some((p, n))) ==> nearest(*lockfile, path_of(graph.inner.nodes(), graph.root, dependent_idx), *name) == Some(n)
            && from_lock(p, n) && sat(res_of(p), *requested) && n.path@.len() > 0
            && exists|k: Seq<char>| #[trigger] lockfile.packages.m().contains_key(k) && lockfile.packages.m()[k] == n,
        ret matches Ok(None) ==> (nearest(*lockfile, path_of(graph.inner.nodes(), graph.root, dependent_idx), *name) matches Some(n) ==>
            exists|p: Package| #[trigger] from_lock(p, n) && !sat(res_of(p), *requested)),
//@subst $0.iter().map(|x| x.to_string()).collect::<Vec<_>>().join($1) =>> vx_join(&$0, $1)
//@attr #[verifier::exec_allows_no_decreases_clause]
//@at body_start
    broadcast use joined_nonempty, uni_empty;
    proof { let t = choose|t: Seq<char>| #[trigger] uni(t) == name.key() && valid_name(t); lemma_valid_nonempty(t); assert(name.text().len() > 0) by { if name.text().len() == 0 { assert(name.text() =~= Seq::<char>::empty()); } } }
//@loop 0
    invariant
        !last_loop,
        nearest(*lockfile, path.v(), *name) == nearest(*lockfile, path_of(graph.inner.nodes(), graph.root, dependent_idx), *name),
//@at loop 0 body_start
    let ghost p0 = path.v();
    proof { assert(p0.push(*name).drop_last() =~= p0); }
//@end
    /// (proved in unit apply)
    #[verifier::external_body]
    pub fn load_actual(&mut self) -> (r: Result<(), NodeMaintainerError>)
        ensures final(self).graph == old(self).graph, final(self).locked == old(self).locked, final(self).root == old(self).root,
            lock_ok(final(self).actual_tree), final(self).actual_tree == record_of(*old(self).root),
    { unimplemented!() }

//@fn crates/node-maintainer/src/resolver.rs Resolver::run_resolver
    requires start_graph(self.graph), lock_ok(lockfile),
    ensures ret matches Ok((g, actual)) ==> {
        // every declared dependency of every package is found, and satisfies the request
        &&& resolved(g) && wf(g)
        // what is declared: by the project, by each package's metadata or its lockfile entry
        &&& g.root == self.graph.root && g.inner.nodes()[g.root].dependency_reqs == self.graph.inner.nodes()[g.root].dependency_reqs
        &&& all_told(g, lockfile, actual)
        // what was recorded as installed is passed on as it is
        &&& actual == record_of(*self.root)
//@if C03,C04         // locked mode: the tree prints as the lockfile does
//@if C03,C04         &&& self.locked && lockfile is Some ==> printed(lock_of(g)) == printed(lockfile->0)
    },
//@attr #[verifier::exec_allows_no_decreases_clause]
//@subst let ($0, $1) = futures::channel::mpsc::unbounded(); =>> let mut $0 = vx_sink();
//@subst let fetches: $0 = IndexMap::new(); =>> let fetches = vx_fetches();
//@subst? Arc::new(Mutex::new($0)) =>> $0
//@subst $0.map($1).filter_map($2).map($3).buffer_unordered($4).ready_chunks($5) =>> vx_pool($3)
//@subst $0.lock().await.remove($1) =>> $0.vx_take(&mut package_sink, $1)
//@subst? in_flight += 1; =>> vx_incu(&mut in_flight);
//@subst? if let Some(handler) = &self.on_resolution_added { $0 } =>> 
//@subst? if let Some(handler) = &self.on_resolve_progress { $0 } =>> 
//@subst $0.make_contiguous().sort_by($1) =>> vx_sort(&mut $0)
//@subst lockfile_node.into() =>> CorgiManifest::from(lockfile_node)
//@subst? $0.to_kdl().to_string() != $1.to_kdl()?.to_string() =>> vx_textne($0.to_kdl().to_string(), $1.to_kdl()?.to_string())
//@m map_ok => map
//@subst? std::time::Instant::now() =>> Instant::now()
//@closure 2 (PackageSpec) -> (r: Result<(Package, PackageSpec), NodeMaintainerError>)
    ensures r is Ok ==> resolved_for(r->Ok_0.0, r->Ok_0.1)
//@closure 3 (Package) -> (r: (Package, PackageSpec))
    ensures r == $body
//@at body_start
    broadcast use step_pop, rejoin;
//@at loop 0 before
    proof { step_start(vx_self.graph, q.v(), lockfile, vx_self.actual_tree); }
//@loop 0
    invariant
        idle(vx_self, q, package_sink, in_flight, self, lockfile),
//@at loop 0 after
    proof { work_done(vx_self.graph, q.v(), package_sink.out(), vx_self.graph.root); }
//@loop 1
    invariant
        idle(vx_self, q, package_sink, in_flight, self, lockfile),
//@loop 2
    invariant
        base(vx_self, self, lockfile), in_flight == package_sink.out().len(),
        0 <= $it.pos() <= $it.all().len(),
        entries_ok(vx_self.graph.inner.nodes()[node_idx].dependency_reqs.m(), $it.all()),
        vx_self.graph.inner.nodes().contains_key(node_idx),
        work(vx_self.graph, q.v(), package_sink.out(), node_idx, rest_keys($it.all(), $it.pos())),
        forall|k: Seq<char>| #[trigger] names.s().contains(k) ==> exists|i: int| 0 <= i < $it.pos() && (#[trigger] $it.all()[i]).0.key() == k,
    decreases $it.all().len() - $it.pos(),
//@at loop 2 iter
    proof {
        let m = vx_self.graph.inner.nodes()[node_idx].dependency_reqs.m();
        assert forall|k: Seq<char>| #[trigger] rest_keys($it.all(), 0).contains(k) <==> m.dom().contains(k) by { lemma_rest_keys($it.all(), 0, k); }
        assert(rest_keys($it.all(), 0) =~= m.dom());
    }
//@at loop 2 body_start
    proof {
        let g0 = vx_self.graph;
        let out0 = package_sink.out();
        let q0 = q.v();
        let left = rest_keys($it.all(), $it.pos() - 1);
        let left2 = rest_keys($it.all(), $it.pos());
        let k0 = name.key();
        lemma_rest_keys($it.all(), $it.pos(), k0);
        assert(left2 =~= left.remove(k0));
        assert($it.all()[$it.pos() - 1].0.key() == k0 && $it.all()[$it.pos() - 1].1.0 == spec);
        assert(left.contains(k0));
        assert forall|dep: NodeDependency| dep.node_idx == node_idx && dep.name.key() == k0 && dep.spec == spec implies #[trigger] pending(g0, dep) by {}
        assert forall|g2: Graph, dep: NodeDependency, to: NodeIndex| dep.node_idx == node_idx && dep.name.key() == k0 && dep.spec == spec && #[trigger] satisfied(g0, g2, dep, to) implies
            work(g2, q0, out0, node_idx, left2) && all_told(g2, lockfile, vx_self.actual_tree) && g2.root == g0.root && g2.inner.nodes()[g2.root].dependency_reqs == g0.inner.nodes()[g0.root].dependency_reqs by {
            assert(pending(g0, dep));
            step_wired(g0, g2, q0, out0, out0, node_idx, left, left2, dep, to, lockfile, vx_self.actual_tree);
        }
        assert forall|g2: Graph, dep: NodeDependency, p: Package, c: NodeIndex, m: CorgiManifest| dep.node_idx == node_idx && dep.name.key() == k0 && dep.spec == spec && #[trigger] placed_new(g0, g2, dep, p, c)
            && #[trigger] made_of(g2.inner.nodes()[c], m) && (in_lock(m, lockfile) || in_lock(m, vx_self.actual_tree)) && sat(res_of(p), dep.spec) implies
            work(g2, q0.push(c), out0, node_idx, left2) && all_told(g2, lockfile, vx_self.actual_tree) && g2.root == g0.root && g2.inner.nodes()[g2.root].dependency_reqs == g0.inner.nodes()[g0.root].dependency_reqs by {
            assert(pending(g0, dep));
            step_placed(g0, g2, q0, out0, out0, node_idx, left, left2, dep, p, c, lockfile, vx_self.actual_tree, m);
        }
        assert forall|dep: NodeDependency| dep.node_idx == node_idx && dep.name.key() == k0 && dep.spec == spec implies
            work(g0, q0, #[trigger] out0.insert(dep), node_idx, left2) && !out0.contains(dep) by {
            step_ask(g0, q0, out0, node_idx, left, dep);
        }
    }
//@loop 3
    invariant
        idle(vx_self, q, package_sink, in_flight, self, lockfile),
        0 <= $it.pos() <= $it.all().len(),
        forall|i: int| 0 <= i < $it.all().len() && (#[trigger] $it.all()[i]) is Ok ==> resolved_for($it.all()[i]->Ok_0.0, $it.all()[i]->Ok_0.1),
    decreases $it.all().len() - $it.pos(),
//@loop 4
    invariant
        base(vx_self, self, lockfile), in_flight == package_sink.out().len(),
        0 <= $it.pos() <= $it.all().len(),
        $it.all().no_duplicates(), $it.all().to_set().disjoint(package_sink.out()),
        forall|i: int| 0 <= i < $it.all().len() ==> (#[trigger] $it.all()[i]).spec == spec,
        work(vx_self.graph, q.v(), package_sink.out().union(rest_deps($it.all(), $it.pos())), vx_self.graph.root, Set::empty()),
        $it.pos() == $it.all().len() ==> package_sink.out().union(rest_deps($it.all(), $it.pos())) =~= package_sink.out(),
    decreases $it.all().len() - $it.pos(),
//@at loop 4 body_start
    proof {
        let g0 = vx_self.graph;
        let all = $it.all();
        let n = $it.pos();
        let root = g0.root;
        let q0 = q.v();
        let none = Set::<Seq<char>>::empty();
        let out1 = package_sink.out().union(rest_deps(all, n - 1));
        let out2 = package_sink.out().union(rest_deps(all, n));
        let b = vx_self.actual_tree;
        lemma_rest_deps(all, n - 1);
        assert(all.to_set().contains(dep)) by { assert(all[n - 1] == dep); }
        assert(out1.contains(dep));
        assert(out2 =~= out1.remove(dep));
        assert(pending(g0, dep));
        assert forall|g2: Graph, to: NodeIndex| #[trigger] satisfied(g0, g2, dep, to) implies
            work(g2, q0, out2, root, none) && all_told(g2, lockfile, b) && g2.root == g0.root && g2.inner.nodes()[g2.root].dependency_reqs == g0.inner.nodes()[g0.root].dependency_reqs by {
            step_wired(g0, g2, q0, out1, out2, root, none, none, dep, to, lockfile, b);
        }
        assert forall|g2: Graph, p: Package, c: NodeIndex, m: CorgiManifest| #[trigger] placed_new(g0, g2, dep, p, c) && #[trigger] made_of(g2.inner.nodes()[c], m) && m == corgi_of(p) && resolved_for(p, dep.spec) implies
            work(g2, q0.push(c), out2, root, none) && all_told(g2, lockfile, b) && g2.root == g0.root && g2.inner.nodes()[g2.root].dependency_reqs == g0.inner.nodes()[g0.root].dependency_reqs by {
            step_placed(g0, g2, q0, out1, out2, root, none, none, dep, p, c, lockfile, b, m);
        }
    }
//@end
}
}
fn main() {}
