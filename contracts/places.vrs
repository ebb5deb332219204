// Unit: places of packages in node_modules (node-maintainer graph.rs: paths to nodes and back)
use vstd::prelude::*;
use std::ops::{Index, IndexMut};
use vstd::std_specs::cmp::*;
verus! {
//@include strings.vrs
//@include case.vrs
//@include text.vrs
//@method trim_start_matches => vx_trim_start_matches
//@method trim_end_matches => vx_trim_end_matches
//@include iter.vrs
//@include std.vrs
//@include maps.vrs
//@include deque.vrs
//@include petgraph.vrs
#[verifier::external_body]
pub struct Package { _p: () }
#[verifier::external_body]
pub struct PackageSpec { _p: () }
impl Clone for Package { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
//@item crates/node-maintainer/src/graph.rs DepType
//@attr #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@end
//@item crates/node-maintainer/src/graph.rs Node
//@end
//@item crates/node-maintainer/src/graph.rs Edge
//@end
//@item crates/node-maintainer/src/graph.rs Graph
//@end
//@include tree.vrs
// ---- assumed contracts: std's paths, as the texts of their segments; unicase ------------------------------
#[verifier::external_body]
pub struct OsStr { _p: () }
#[verifier::external_body]
pub struct Lossy { _p: () }
impl OsStr {
    /// its text, decoded
    pub uninterp spec fn t(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn to_string_lossy(&self) -> (r: Lossy) ensures r.t() == self.t() { unimplemented!() }
    #[verifier::external_body]
    pub fn new(s: &str) -> (r: &OsStr) ensures r.t() == s@ { unimplemented!() }
    /// decoding makes none of the ASCII texts it is compared with here
    pub uninterp spec fn is(&self, o: &OsStr) -> bool;
}
pub broadcast axiom fn is_text(a: OsStr, b: OsStr) ensures #[trigger] a.is(&b) ==> a.t() == b.t();
impl PartialEqSpecImpl<OsStr> for OsStr { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &OsStr) -> bool { self.is(o) } }
impl PartialEq<OsStr> for OsStr { #[verifier::external_body] fn eq(&self, o: &OsStr) -> bool { unimplemented!() } }
impl Lossy {
    pub uninterp spec fn t(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String) ensures r@ == self.t() { unimplemented!() }
}
#[verifier::external_body]
pub struct Path { _p: () }
impl Path {
    pub uninterp spec fn segs(&self) -> Seq<Seq<char>>;
    #[verifier::external_body]
    pub fn iter(&self) -> (r: Iter<&OsStr>) ensures r.pos() == 0, r.all().len() == self.segs().len(), forall|i: int| 0 <= i < r.all().len() ==> (#[trigger] r.all()[i]).t() == self.segs()[i] { unimplemented!() }
}
impl<'a> VxIntoIter for &'a Path {
    type I = Iter<&'a OsStr>;
    open spec fn same(self, r: Iter<&'a OsStr>) -> bool { r.pos() == 0 && r.all().len() == self.segs().len() && forall|i: int| 0 <= i < r.all().len() ==> (#[trigger] r.all()[i]).t() == self.segs()[i] }
    #[verifier::external_body]
    fn vx_into(self) -> (r: Iter<&'a OsStr>) { unimplemented!() }
}
impl PartialEqSpecImpl<UniCase<String>> for UniCase<String> { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &UniCase<String>) -> bool { self.key() == o.key() } }
impl PartialEq<UniCase<String>> for UniCase<String> { #[verifier::external_body] fn eq(&self, o: &UniCase<String>) -> bool { unimplemented!() } }
impl VxDisp for UniCase<String> { open spec fn disp(&self) -> Seq<char> { self.text() } uninterp spec fn dbg(&self) -> Seq<char>; }
impl UniCase<String> {
    #[verifier::external_body]
    pub fn vx_starts_with(&self, c: char) -> (r: bool) ensures r == starts(self.text(), c) { unimplemented!() }
}
pub trait VxAsDeref { fn vx_as_deref(&self) -> Option<&str>; }
impl VxAsDeref for Option<String> {
    #[verifier::external_body]
    fn vx_as_deref(&self) -> (r: Option<&str>) ensures r is Some <==> self is Some, r is Some ==> r->0@ == self->0@ { unimplemented!() }
}
pub open spec fn starts(s: Seq<char>, c: char) -> bool { s.len() > 0 && s[0] == c }
// folding case goes character by character, and is none of `@`'s and `/`'s business
pub broadcast axiom fn uni_at(a: Seq<char>, b: Seq<char>) ensures #![trigger uni(a), uni(b)] uni(a) == uni(b) ==> starts(a, '@') == starts(b, '@');
pub axiom fn uni_slash(a: Seq<char>) ensures uni(a) == uni("/"@) <==> a == "/"@, uni(a) == uni("\\"@) <==> a == "\\"@;

// ---- paths and what they lead to ------------------------------
pub open spec fn nm() -> Seq<char> { uni("node_modules"@) }
pub enum At { Modules, Scope(Seq<char>), Package, Nowhere }
pub open spec fn plain(s: Seq<char>) -> bool { s != "/"@ && s != "\\"@ && !starts(s, '@') }
/// THE PLACES of node_modules: names of packages (with or without a scope), each in the node_modules of the one before
pub open spec fn read(s: Seq<Seq<char>>) -> (Seq<Seq<char>>, At)
    decreases s.len()
{
    if s.len() == 0 { (Seq::empty(), At::Modules) } else {
        let (ks, at) = read(s.drop_last());
        let x = s.last();
        match at {
            At::Modules => if starts(x, '@') { (ks, At::Scope(x)) } else if plain(x) && uni(x) != nm() { (ks.push(uni(x)), At::Package) } else { (ks, At::Nowhere) },
            At::Scope(sc) => if plain(x) { (ks.push(uni(sc + ("/"@ + x))), At::Package) } else { (ks, At::Nowhere) },
            At::Package => if uni(x) == nm() { (ks, At::Modules) } else { (ks, At::Nowhere) },
            At::Nowhere => (ks, At::Nowhere),
        }
    }
}
/// from the root down, by name
pub open spec fn down(ns: Nodes, root: NodeIndex, ks: Seq<Seq<char>>) -> Option<NodeIndex>
    decreases ks.len()
{
    if ks.len() == 0 { Some(root) } else {
        match down(ns, root, ks.drop_last()) {
            Some(p) => if ns[p].children.m().contains_key(ks.last()) { Some(ns[p].children.m()[ks.last()]) } else { None },
            None => None,
        }
    }
}
/// the path ends at a package's place
pub open spec fn at_place(s: Seq<Seq<char>>) -> bool { read(s).1 is Package }
pub open spec fn leads(ns: Nodes, root: NodeIndex, s: Seq<Seq<char>>) -> Option<NodeIndex> { down(ns, root, read(s).0) }
proof fn lemma_read_on(s: Seq<Seq<char>>, p: int)
    requires 0 <= p <= s.len(), at_place(s),
    ensures
        !(read(s.take(p)).1 is Nowhere), read(s.take(p)).0.len() <= read(s).0.len(), read(s).0.take(read(s.take(p)).0.len() as int) == read(s.take(p)).0,
    decreases s.len() - p
{
    lemma_read_back(s, p);
    assert(s.take(s.len() as int) =~= s);
}
proof fn lemma_read_back(s: Seq<Seq<char>>, p: int)
    requires 0 <= p <= s.len(),
    ensures
        !(read(s).1 is Nowhere) ==> !(read(s.take(p)).1 is Nowhere),
        read(s.take(p)).0.len() <= read(s).0.len(), read(s).0.take(read(s.take(p)).0.len() as int) == read(s.take(p)).0,
    decreases s.len()
{
    if p == s.len() { assert(s.take(p) =~= s); assert(read(s).0.take(read(s).0.len() as int) =~= read(s).0); }
    else {
        let t = s.drop_last();
        lemma_read_back(t, p);
        assert(t.take(p) =~= s.take(p));
        let n = read(s.take(p)).0.len() as int;
        assert(read(s).0.take(n) =~= read(t).0.take(n));
    }
}
proof fn lemma_down_on(ns: Nodes, root: NodeIndex, ks: Seq<Seq<char>>, n: int)
    requires 0 <= n <= ks.len(), down(ns, root, ks) is Some,
    ensures down(ns, root, ks.take(n)) is Some,
    decreases ks.len()
{
    if n == ks.len() { assert(ks.take(n) =~= ks); } else { lemma_down_on(ns, root, ks.drop_last(), n); assert(ks.drop_last().take(n) =~= ks.take(n)); }
}
proof fn lemma_down_in(ns: Nodes, root: NodeIndex, ks: Seq<Seq<char>>)
    requires wf_tree(ns), ns.contains_key(root),
    ensures down(ns, root, ks) matches Some(i) ==> ns.contains_key(i) && (ks.len() > 0 ==> root.0 < i.0),
    decreases ks.len()
{
    if ks.len() > 0 {
        lemma_down_in(ns, root, ks.drop_last());
        if let Some(p) = down(ns, root, ks.drop_last()) { if ns[p].children.m().contains_key(ks.last()) { let c = ns[p].children.m()[ks.last()]; assert(ns[c].parent == Some(p)); } }
    }
}
pub open spec fn stands(at: At, in_nm: bool, scope: Option<String>) -> bool {
    match at { At::Modules => in_nm && scope is None, At::Scope(sc) => in_nm && scope is Some && scope->0@ == sc, At::Package => !in_nm && scope is None, At::Nowhere => false }
}
pub open spec fn path_from(ns: Nodes, root: NodeIndex, p: Option<NodeIndex>) -> Seq<UniCase<String>> { match p { Some(i) => path_of(ns, root, i), None => Seq::empty() } }
pub open spec fn rank(c: Option<NodeIndex>) -> int { match c { Some(i) => i.0 + 1, None => 0 } }
// names, joined
pub open spec fn names(p: Seq<UniCase<String>>) -> Seq<Seq<char>> { p.map_values(|n: UniCase<String>| n.text()) }
pub open spec fn joined(ps: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char> decreases ps.len() {
    if ps.len() == 0 { Seq::empty() } else if ps.len() == 1 { ps[0] } else { joined(ps.drop_last(), sep) + sep + ps.last() }
}
pub open spec fn texts_of(p: Seq<String>) -> Seq<Seq<char>> { p.map_values(|s: String| s@) }
pub trait VxJoin { fn vx_join(&self, sep: &str) -> String; }
impl VxJoin for Vec<String> {
    #[verifier::external_body]
    fn vx_join(&self, sep: &str) -> (r: String) ensures r@ == joined(texts_of(self@), sep@) { unimplemented!() }
}
impl<T> Iter<T> {
    #[verifier::external_body]
    pub fn vx_collect<C: VxFrom<T>>(self) -> (r: C) ensures C::made(self, r) { unimplemented!() }
}
pub trait VxFrom<T>: Sized { spec fn made(i: Iter<T>, c: Self) -> bool; }
impl<T> VxFrom<T> for Vec<T> { open spec fn made(i: Iter<T>, c: Self) -> bool { i.pos() == 0 ==> c@ == i.all() } }
pub broadcast proof fn same_names(a: Seq<String>, b: Seq<UniCase<String>>)
    requires a.len() == b.len(), forall|i: int| 0 <= i < a.len() ==> (#[trigger] a[i])@ == b[i].text()
    ensures #![trigger texts_of(a), names(b)] texts_of(a) == names(b)
{ assert(texts_of(a) =~= names(b)); }
impl Graph {
//@fn crates/node-maintainer/src/graph.rs Graph::node_at_path
    requires wf_tree(self.inner.nodes()), self.inner.nodes().contains_key(self.root),
    ensures
        ret is Some ==> self.inner.nodes().contains_key(ret->0.idx) && ret->0.idx != self.root && *ret->0 == self.inner.nodes()[ret->0.idx],
        // what is there is found
        at_place(path.segs()) && leads(self.inner.nodes(), self.root, path.segs()) is Some ==> ret is Some && ret->0.idx == leads(self.inner.nodes(), self.root, path.segs())->0,
//@m starts_with => vx_starts_with
//@m as_deref => vx_as_deref
//@attr #[verifier::allow_complex_invariants]
//@at body_start
    broadcast use is_text;
    let ghost ns = self.inner.nodes();
    let ghost s = path.segs();
    let ghost good = at_place(s) && leads(ns, self.root, s) is Some;
    proof { assert(s.take(0) =~= Seq::<Seq<char>>::empty()); lemma_down_in(ns, self.root, read(s).0); uni_slash("node_modules"@); }
//@loop 0
        invariant_except_break good ==> {
            let (ks, at) = read(s.take($it.pos()));
            &&& current == down(ns, self.root, ks)
            &&& stands(at, in_nm, scope)
        },
        invariant 0 <= $it.pos() <= $it.all().len(), $it.all().len() == s.len(), forall|i: int| 0 <= i < $it.all().len() ==> (#[trigger] $it.all()[i]).t() == s[i],
            current is Some ==> ns.contains_key(current->0),
        ensures good ==> current == leads(ns, self.root, s),
        decreases $it.all().len() - $it.pos()
//@closure 0 (NodeIndex) -> (r: &Node)
    requires self.inner.nodes().contains_key($0)
    ensures *r == self.inner.nodes()[$0]
//@at loop 0 body_start
        proof {
            let p = $it.pos() - 1;
            let x = s[p];
            assert(s.take(p + 1).drop_last() =~= s.take(p));
            assert(s.take(p + 1).last() == x);
            uni_slash(x);
            uni_at(x, "node_modules"@);
            reveal_strlit("node_modules"); reveal_strlit("/"); reveal_strlit("\\");
            let (k0, a0) = read(s.take(p));
            let k1 = read(s.take(p + 1)).0;
            if good {
                lemma_read_on(s, p); lemma_read_on(s, p + 1);
                lemma_down_on(ns, self.root, read(s).0, k1.len() as int);
                lemma_down_on(ns, self.root, read(s).0, k0.len() as int);
                if k1.len() > k0.len() { assert(k1.drop_last() =~= k0); }
            }
        }
//@at loop 0 after
        proof { assert(s.take(s.len() as int) =~= s); }
//@end
//@fn crates/node-maintainer/src/graph.rs Graph::package_at_path
    requires wf_tree(self.inner.nodes()), self.inner.nodes().contains_key(self.root),
    ensures
        at_place(path.segs()) && leads(self.inner.nodes(), self.root, path.segs()) is Some ==> ret is Some && ret->0 == self.inner.nodes()[leads(self.inner.nodes(), self.root, path.segs())->0].package,
//@end
//@fn crates/node-maintainer/src/graph.rs Graph::node_path
    requires wf_tree(self.inner.nodes()), self.inner.nodes().contains_key(node_idx),
    ensures ret.v() == path_of(self.inner.nodes(), self.root, node_idx),
//@at body_start
    broadcast use cat_assoc;
//@loop 0
    invariant
        parent is Some ==> self.inner.nodes().contains_key(parent->0),
        path_from(self.inner.nodes(), self.root, parent) + path.v() == path_of(self.inner.nodes(), self.root, node_idx),
    decreases rank(parent),
//@end
//@fn crates/node-maintainer/src/graph.rs Graph::node_path_string
    requires wf_tree(self.inner.nodes()), self.inner.nodes().contains_key(node_idx),
    ensures ret@ == joined(names(path_of(self.inner.nodes(), self.root, node_idx)), "/node_modules/"@),
//@m join => vx_join
//@m collect => vx_collect
//@at body_start
    broadcast use same_names;
//@closure 0 (&UniCase<String>) -> (r: String)
    ensures r@ == $0.text()
//@end
}
// ---- the isolated linker's store: a directory of its own for every place ------------------------------
// assumed: ssri's hash of a text, in hexadecimal digits; std's String::truncate
#[verifier::external_body]
pub struct Integrity { _p: () }
pub struct Algorithm;
pub uninterp spec fn hex(s: Seq<char>) -> Seq<char>;
pub broadcast axiom fn hex_digits(s: Seq<char>) ensures #![trigger hex(s)] hex(s).len() >= 32, one_byte(hex(s));
pub open spec fn one_byte(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i] as u32) < 0x80 }
impl Integrity {
    pub uninterp spec fn of(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn from(s: String) -> (r: Integrity) ensures r.of() == s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn to_hex(&self) -> (r: (Algorithm, String)) ensures r.1@ == hex(self.of()) { unimplemented!() }
}
pub trait VxGrow {
    fn vx_push(&mut self, c: char);
    fn vx_push_str(&mut self, t: &str);
    fn vx_truncate(&mut self, n: usize);
}
impl VxGrow for String {
    #[verifier::external_body]
    fn vx_push(&mut self, c: char) ensures final(self)@ == old(self)@.push(c) { unimplemented!() }
    #[verifier::external_body]
    fn vx_push_str(&mut self, t: &str) ensures final(self)@ == old(self)@ + t@ { unimplemented!() }
    #[verifier::external_body]
    fn vx_truncate(&mut self, n: usize)
        ensures one_byte(old(self)@) ==> final(self)@ == (if n < old(self)@.len() { old(self)@.take(n as int) } else { old(self)@ })
    { unimplemented!() }
}
/// what tells places apart in the name of a directory
pub open spec fn short(s: Seq<char>) -> Seq<char> { hex(s).take(8) }
pub open spec fn place_text(g: Graph, i: NodeIndex) -> Seq<char> { joined(names(path_of(g.inner.nodes(), g.root, i)), "/node_modules/"@) }
pub open spec fn dir_name(g: Graph, i: NodeIndex) -> Seq<char> { g.inner.nodes()[i].name.text() + (seq!['@'] + short(place_text(g, i))) }
//@fn crates/node-maintainer/src/linkers/isolated.rs package_dir_name
    requires wf_tree(graph.inner.nodes()), graph.inner.nodes().contains_key(idx),
    ensures ret@ == dir_name(*graph, idx),
//@subst? &graph[$0] =>> &graph.inner[$0]
//@m push => vx_push
//@m push_str => vx_push_str
//@m truncate => vx_truncate
//@at body_start
    broadcast use {hex_digits, cat_assoc};
    assert forall|a: Seq<char>, b: Seq<char>| #[trigger] (a.push('@') + b) == a + (seq!['@'] + b) by { assert(a.push('@') + b =~= a + (seq!['@'] + b)); }
//@end
/// the same directory only where the hash, cut to eight digits, is the same (assumed not to happen)
pub proof fn dirs_differ(g: Graph, i: NodeIndex, j: NodeIndex)
    requires dir_name(g, i) == dir_name(g, j)
    ensures short(place_text(g, i)) == short(place_text(g, j))
{
    broadcast use hex_digits;
    let (a, b) = (dir_name(g, i), dir_name(g, j));
    assert(a.skip(a.len() - 8) =~= short(place_text(g, i)));
    assert(b.skip(b.len() - 8) =~= short(place_text(g, j)));
}
// ---- every package's place leads to it ------------------------------
/// a name as segments of a path: one, or a scope and one
pub open spec fn spells(s: Seq<Seq<char>>, n: UniCase<String>) -> bool {
    ||| s.len() == 1 && plain(s[0]) && uni(s[0]) == n.key() && uni(s[0]) != nm()
    ||| s.len() == 2 && starts(s[0], '@') && plain(s[1]) && uni(s[0] + ("/"@ + s[1])) == n.key()
}
/// a path of names, each in the node_modules of the one before
pub open spec fn spelled(s: Seq<Seq<char>>, p: Seq<UniCase<String>>) -> bool
    decreases p.len()
{
    if p.len() == 0 { s.len() == 0 }
    else if p.len() == 1 { spells(s, p[0]) }
    else {
        ||| s.len() > 2 && spells(s.skip(s.len() - 1), p.last()) && uni(s[s.len() - 2]) == nm() && spelled(s.take(s.len() - 2), p.drop_last())
        ||| s.len() > 3 && spells(s.skip(s.len() - 2), p.last()) && uni(s[s.len() - 3]) == nm() && spelled(s.take(s.len() - 3), p.drop_last())
    }
}
pub open spec fn keys(p: Seq<UniCase<String>>) -> Seq<Seq<char>> { p.map_values(|n: UniCase<String>| n.key()) }
proof fn lemma_spells(t: Seq<Seq<char>>, s: Seq<Seq<char>>, n: UniCase<String>)
    requires spells(s, n), read(t).1 is Modules
    ensures read(t + s) == (read(t).0.push(n.key()), At::Package)
{
    let x = t + s;
    if s.len() == 1 { assert(x.drop_last() =~= t); assert(x.last() == s[0]); }
    else {
        let y = x.drop_last();
        assert(y.drop_last() =~= t); assert(y.last() == s[0]); assert(x.last() == s[1]);
        assert(read(y) == (read(t).0, At::Scope(s[0])));
    }
}
proof fn lemma_spelled(s: Seq<Seq<char>>, p: Seq<UniCase<String>>)
    requires spelled(s, p), p.len() > 0
    ensures read(s) == (keys(p), At::Package)
    decreases p.len()
{
    if p.len() == 1 {
        let e = Seq::<Seq<char>>::empty();
        lemma_spells(e, s, p[0]);
        assert(e + s =~= s);
        assert(read(e).0.push(p[0].key()) =~= keys(p));
    } else {
        let k = if spells(s.skip(s.len() - 1), p.last()) && s.len() > 2 && uni(s[s.len() - 2]) == nm() && spelled(s.take(s.len() - 2), p.drop_last()) { 1int } else { 2int };
        let t = s.take(s.len() - k - 1);
        lemma_spelled(t, p.drop_last());
        let u = s.take(s.len() - k);
        assert(u.drop_last() =~= t);
        assert(u.last() == s[s.len() - k - 1]);
        lemma_spells(u, s.skip(s.len() - k), p.last());
        assert(u + s.skip(s.len() - k) =~= s);
        assert(keys(p.drop_last()).push(p.last().key()) =~= keys(p));
    }
}
proof fn lemma_down_to(g: Graph, i: NodeIndex)
    requires wf_tree(g.inner.nodes()), rooted(g), g.inner.nodes().contains_key(i),
    ensures down(g.inner.nodes(), g.root, keys(path_of(g.inner.nodes(), g.root, i))) == Some(i)
    decreases i.0
{
    reveal(rooted);
    let ns = g.inner.nodes();
    if i != g.root {
        let p = ns[i].parent->0;
        lemma_down_to(g, p);
        let (a, b) = (keys(path_of(ns, g.root, i)), keys(path_of(ns, g.root, p)));
        assert(a.drop_last() =~= b);
        assert(a.last() == ns[i].name.key());
    }
}
/// a path spelled like a package's place is that package's
pub proof fn place_found(g: Graph, i: NodeIndex, s: Seq<Seq<char>>)
    requires wf_tree(g.inner.nodes()), rooted(g), g.inner.nodes().contains_key(i), i != g.root, spelled(s, path_of(g.inner.nodes(), g.root, i)),
    ensures at_place(s), leads(g.inner.nodes(), g.root, s) == Some(i)
{
    lemma_spelled(s, path_of(g.inner.nodes(), g.root, i));
    lemma_down_to(g, i);
}
/// and no two packages share one
pub proof fn places_differ(g: Graph, i: NodeIndex, j: NodeIndex)
    requires wf_tree(g.inner.nodes()), rooted(g), g.inner.nodes().contains_key(i), g.inner.nodes().contains_key(j), i != j,
    ensures keys(path_of(g.inner.nodes(), g.root, i)) != keys(path_of(g.inner.nodes(), g.root, j))
{ lemma_down_to(g, i); lemma_down_to(g, j); }
} // verus!
fn main() {}
