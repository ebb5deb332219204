// Unit: lockfiles (node-maintainer lockfile.rs, over KDL documents)
use vstd::prelude::*;
use std::ops::{Index, IndexMut};
verus! {
//@include strings.vrs
//@include case.vrs
//@include text.vrs
//@method trim_start_matches => vx_trim_start_matches
//@method trim_end_matches => vx_trim_end_matches
//@include iter.vrs
//@include std.vrs
//@include maps.vrs
//@include kdl.vrs
//@include deque.vrs
//@include petgraph.vrs
//@method iter => vx_items
//@method parse => vx_parse
//@method collect => vx_collect
//@method into => vx_into
impl VxAsRef for UniCase<String> { open spec fn av(&self) -> Seq<char> { self.text() } #[verifier::external_body] fn vx_as_ref(&self) -> (r: &str) { unimplemented!() } }
pub trait VxIntoS<T> { fn vx_into(self) -> (r: T) ensures self.becomes(r); spec fn becomes(self, r: T) -> bool; }
impl VxIntoS<String> for &str { open spec fn becomes(self, r: String) -> bool { r@ == self@ } #[verifier::external_body] fn vx_into(self) -> (r: String) { unimplemented!() } }
impl VxIntoS<UniCase<String>> for &str { open spec fn becomes(self, r: UniCase<String>) -> bool { r.text() == self@ } #[verifier::external_body] fn vx_into(self) -> (r: UniCase<String>) { unimplemented!() } }

// ---- assumed contracts: what comes of an iterator ------------------------------
pub trait VxItems<T> { fn vx_items(&self) -> Iter<&T>; }
impl<T> VxItems<T> for Vec<T> {
    #[verifier::external_body]
    fn vx_items(&self) -> (r: Iter<&T>)
        ensures r.pos() == 0, r.all().len() == self@.len(),
            forall|k: int| #![trigger r.all()[k]] #![trigger self@[k]] 0 <= k < self@.len() ==> *r.all()[k] == self@[k]
    { unimplemented!() }
}
impl<K: VxKey, V> IndexMap<K, V> {
    #[verifier::external_body]
    pub fn vx_items(&self) -> (r: Iter<(&K, &V)>)
        ensures r.pos() == 0, r.all().len() == self.seq().len(),
            forall|i: int| #![trigger r.all()[i]] #![trigger self.seq()[i]] 0 <= i < r.all().len() ==> *r.all()[i].0 == self.seq()[i].0 && *r.all()[i].1 == self.seq()[i].1,
    { unimplemented!() }
}
/// an IndexMap's entries
pub broadcast axiom fn map_entries<K: VxKey, V>(m: IndexMap<K, V>) ensures #![trigger m.seq()] #![trigger m.m()] entries_ok(m.m(), m.seq());
impl<'a, K: VxKey, V> VxIntoIter for &'a IndexMap<K, V> {
    type I = Iter<(&'a K, &'a V)>;
    open spec fn same(self, i: Iter<(&'a K, &'a V)>) -> bool {
        &&& i.pos() == 0 && i.all().len() == self.seq().len()
        &&& forall|k: int| #![trigger i.all()[k]] #![trigger self.seq()[k]] 0 <= k < i.all().len() ==> *i.all()[k].0 == self.seq()[k].0 && *i.all()[k].1 == self.seq()[k].1
    }
    #[verifier::external_body]
    fn vx_into(self) -> (r: Iter<(&'a K, &'a V)>) { unimplemented!() }
}
impl<T> Iter<T> {
    /// what filter's closure said of each
    pub uninterp spec fn bits(&self) -> Seq<bool>;
    #[verifier::external_body]
    pub fn filter<P: Fn(&T) -> bool>(self, p: P) -> (r: Iter<T>)
        requires forall|i: int| 0 <= i < self.all().len() ==> p.requires((&(#[trigger] self.all()[i]),)),
        ensures self.pos() == 0 ==> r.pos() == 0 && r.bits().len() == self.all().len() && r.all() == picked(self.all(), r.bits())
            && forall|i: int| #![trigger r.bits()[i]] #![trigger self.all()[i]] 0 <= i < self.all().len() ==> p.ensures((&self.all()[i],), r.bits()[i])
    { unimplemented!() }
    pub fn vx_collect<C: VxFrom<Iter<T>>>(self) -> (r: C) ensures C::made(self, r) { C::vx_from(self) }
}
pub open spec fn picked<T>(s: Seq<T>, b: Seq<bool>) -> Seq<T> decreases s.len() {
    if s.len() == 0 || b.len() != s.len() { Seq::empty() } else { picked(s.drop_last(), b.drop_last()) + (if b.last() { seq![s.last()] } else { Seq::empty() }) }
}
pub trait VxFrom<I>: Sized { spec fn made(i: I, c: Self) -> bool; fn vx_from(i: I) -> (r: Self) ensures Self::made(i, r); }
impl<T> VxFrom<Iter<T>> for Vec<T> {
    open spec fn made(i: Iter<T>, c: Self) -> bool { i.pos() == 0 ==> c@ == i.all() }
    #[verifier::external_body]
    fn vx_from(i: Iter<T>) -> (r: Self) { unimplemented!() }
}
pub open spec fn oks<T, E>(s: Seq<Result<T, E>>) -> Seq<T> { s.map_values(|x: Result<T, E>| x->Ok_0) }
/// inserted one after the other
pub open spec fn inserted<K: VxKey, V>(a: Seq<(K, V)>) -> Map<Seq<char>, V> decreases a.len() {
    if a.len() == 0 { Map::empty() } else { inserted(a.drop_last()).insert(a.last().0.key(), a.last().1) }
}
impl<K: VxKey, V, E> VxFrom<Iter<Result<(K, V), E>>> for Result<IndexMap<K, V>, E> {
    /// the first error, else everything
    open spec fn made(i: Iter<Result<(K, V), E>>, c: Self) -> bool {
        i.pos() == 0 ==> oks(i.all()).len() == i.all().len() && match c {
            Ok(m) => (forall|j: int| 0 <= j < i.all().len() ==> (#[trigger] i.all()[j]) is Ok) && m.m() == inserted(oks(i.all())),
            Err(e) => exists|j: int| 0 <= j < i.all().len() && (#[trigger] i.all()[j]) == Err::<(K, V), E>(e),
        }
    }
    #[verifier::external_body]
    fn vx_from(i: Iter<Result<(K, V), E>>) -> (r: Self) { unimplemented!() }
}
pub trait VxFromStr: Sized { type E; spec fn of(s: Seq<char>) -> Result<Self, Self::E>; fn vx_of(s: &str) -> (r: Result<Self, Self::E>) ensures r == Self::of(s@); }
pub trait VxParse { spec fn pv(&self) -> Seq<char>; fn vx_parse<T: VxFromStr>(&self) -> (r: Result<T, T::E>) ensures r == T::of(self.pv()); }
impl VxParse for str { open spec fn pv(&self) -> Seq<char> { self@ } fn vx_parse<T: VxFromStr>(&self) -> (r: Result<T, T::E>) { T::vx_of(self) } }
impl VxParse for String { open spec fn pv(&self) -> Seq<char> { self@ } fn vx_parse<T: VxFromStr>(&self) -> (r: Result<T, T::E>) { T::vx_of(self.as_str()) } }

// ---- assumed contracts: node-semver, ssri ------------------------------
#[verifier::external_body]
pub struct Version { _p: () }
#[verifier::external_body]
pub struct SemverError { _p: () }
#[verifier::external_body]
pub struct Integrity { _p: () }
#[verifier::external_body]
pub struct IntegrityError { _p: () }
impl VxDisp for Version { uninterp spec fn disp(&self) -> Seq<char>; uninterp spec fn dbg(&self) -> Seq<char>; }
impl VxDisp for Integrity { uninterp spec fn disp(&self) -> Seq<char>; uninterp spec fn dbg(&self) -> Seq<char>; }
impl Version { #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == self.disp() { unimplemented!() } }
impl Integrity { #[verifier::external_body] pub fn to_string(&self) -> (r: String) ensures r@ == self.disp() { unimplemented!() } }
impl VxFromStr for Version {
    type E = SemverError;
    uninterp spec fn of(s: Seq<char>) -> Result<Version, SemverError>;
    #[verifier::external_body]
    fn vx_of(s: &str) -> (r: Result<Version, SemverError>) { unimplemented!() }
}
impl VxFromStr for Integrity {
    type E = IntegrityError;
    uninterp spec fn of(s: Seq<char>) -> Result<Integrity, IntegrityError>;
    #[verifier::external_body]
    fn vx_of(s: &str) -> (r: Result<Integrity, IntegrityError>) { unimplemented!() }
}
/// what they are written as parses as what they are
pub broadcast axiom fn version_text(v: Version) ensures #![trigger v.disp()] Version::of(v.disp()) == Ok::<Version, SemverError>(v);
pub broadcast axiom fn integrity_text(i: Integrity) ensures #![trigger i.disp()] Integrity::of(i.disp()) == Ok::<Integrity, IntegrityError>(i);
pub enum NodeMaintainerError {
    KdlLockMissingName(KdlNode),
    KdlLockMissingRoot(KdlDocument),
    KdlLockfileIntegrityParseError(KdlNode, IntegrityError),
    NpmLockMissingName(Box<NpmPackageLockEntry>),
    NpmLockMissingRoot(NpmPackageLock),
    NpmLockfileIntegrityParseError(Box<NpmPackageLockEntry>, IntegrityError),
    SemverParseError(SemverError),
    InvalidLockfileVersion,
    MissingVersion,
    UrlParseError(String, UrlError),
    PackageSpecError(PackageSpecError),
    NassunError(NassunError),
}
//@item crates/node-maintainer/src/graph.rs DepType
//@attr #[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@end
//@item crates/node-maintainer/src/lockfile.rs Lockfile
//@end
//@item crates/node-maintainer/src/lockfile.rs LockfileNode
//@end
//@item crates/node-maintainer/src/lockfile.rs NpmPackageLock
//@end
//@item crates/node-maintainer/src/lockfile.rs NpmPackageLockEntry
//@end
impl Clone for NpmPackageLock { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for NpmPackageLockEntry { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for KdlNode { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for KdlDocument { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }

// ---- what a document says, however it is written ------------------------------
pub enum Kv { Str(Seq<char>), Raw(Seq<char>), Int(int), Other(KdlValue) }
pub struct Kd { pub nm: Seq<char>, pub es: Seq<(Option<Seq<char>>, Kv)>, pub kids: Seq<Kd> }
pub open spec fn kv(v: KdlValue) -> Kv {
    match v {
        KdlValue::String(s) => Kv::Str(s@), KdlValue::RawString(s) => Kv::Raw(s@),
        KdlValue::Base2(i) => Kv::Int(i as int), KdlValue::Base8(i) => Kv::Int(i as int), KdlValue::Base10(i) => Kv::Int(i as int), KdlValue::Base16(i) => Kv::Int(i as int),
        v => Kv::Other(v),
    }
}
pub open spec fn ke(e: KdlEntry) -> (Option<Seq<char>>, Kv) { (e.key(), kv(e.val())) }
impl KdlNode { pub uninterp spec fn kd(&self) -> Kd; }
pub broadcast axiom fn node_kd(n: KdlNode)
    ensures #[trigger] n.kd() == (Kd { nm: n.nm(), es: n.es().map_values(|e: KdlEntry| ke(e)), kids: kds(kids(n)) });
pub open spec fn kds(s: Seq<KdlNode>) -> Seq<Kd> { s.map_values(|k: KdlNode| k.kd()) }
pub open spec fn first(s: Seq<Kd>, k: Seq<char>) -> Option<Kd> decreases s.len() {
    if s.len() == 0 { None } else if s[0].nm == k { Some(s[0]) } else { first(s.skip(1), k) }
}
/// the first value without a name
pub open spec fn arg0(es: Seq<(Option<Seq<char>>, Kv)>) -> Option<Kv> decreases es.len() {
    if es.len() == 0 { None } else if es[0].0 is None { Some(es[0].1) } else { arg0(es.skip(1)) }
}
pub open spec fn kv_text(v: Option<Kv>) -> Option<Seq<char>> { match v { Some(Kv::Str(t)) => Some(t), Some(Kv::Raw(t)) => Some(t), _ => None } }
pub open spec fn arg_of(s: Seq<Kd>, k: Seq<char>) -> Option<Kv> { match first(s, k) { Some(n) => arg0(n.es), None => None } }
pub open spec fn arg_text(s: Seq<Kd>, k: Seq<char>) -> Option<Seq<char>> { kv_text(arg_of(s, k)) }
impl KdlNode {
    #[verifier::external_body]
    pub fn entries(&self) -> (r: &Vec<KdlEntry>) ensures r@ == self.es() { unimplemented!() }
    /// `get` with a number
    #[verifier::external_body]
    pub fn vx_arg0(&self) -> (r: Option<&KdlValue>) ensures r is Some <==> arg0(self.kd().es) is Some, r is Some ==> kv(*r->0) == arg0(self.kd().es)->0 { unimplemented!() }
}
impl KdlDocument {
    pub open spec fn kds(&self) -> Seq<Kd> { kds(self.ns()) }
    #[verifier::external_body]
    pub fn new() -> (r: KdlDocument) ensures r.ns() == Seq::<KdlNode>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get_arg(&self, k: &str) -> (r: Option<&KdlValue>)
        ensures r is Some <==> arg_of(self.kds(), k@) is Some, r is Some ==> kv(*r->0) == arg_of(self.kds(), k@)->0 { unimplemented!() }
}
impl KdlEntry {
    #[verifier::external_body]
    pub fn value(&self) -> (r: &KdlValue) ensures *r == self.val() { unimplemented!() }
    #[verifier::external_body]
    pub fn name(&self) -> (r: Option<&KdlIdentifier>) ensures r is Some <==> self.key() is Some { unimplemented!() }
}
impl KdlValue {
    pub fn is_string(&self) -> (r: bool) ensures r == (*self is String) { match self { KdlValue::String(_) => true, _ => false } }
}
impl VxEntry for String { open spec fn is(&self, e: KdlEntry) -> bool { ke(e) == (None::<Seq<char>>, Kv::Str(self@)) } }
impl VxEntry for &str { open spec fn is(&self, e: KdlEntry) -> bool { ke(e) == (None::<Seq<char>>, Kv::Str(self@)) } }
impl VxEntry for i64 { open spec fn is(&self, e: KdlEntry) -> bool { ke(e) == (None::<Seq<char>>, Kv::Int(*self as int)) } }

// ---- what a lockfile entry says ------------------------------
pub open spec fn texts(m: Map<Seq<char>, String>) -> Map<Seq<char>, Seq<char>> { m.map_values(|s: String| s@) }
pub open spec fn names(p: Seq<UniCase<String>>) -> Seq<Seq<char>> { p.map_values(|u: UniCase<String>| u.text()) }
pub struct Shape {
    pub name: Seq<char>, pub is_root: bool, pub path: Seq<Seq<char>>, pub resolved: Option<Seq<char>>, pub version: Option<Version>, pub integrity: Option<Integrity>,
    pub prod: Map<Seq<char>, Seq<char>>, pub dev: Map<Seq<char>, Seq<char>>, pub peer: Map<Seq<char>, Seq<char>>, pub opt: Map<Seq<char>, Seq<char>>,
}
pub open spec fn opt_text(s: Option<String>) -> Option<Seq<char>> { match s { Some(t) => Some(t@), None => None } }
pub open spec fn shape(n: LockfileNode) -> Shape {
    Shape {
        name: n.name.text(), is_root: n.is_root, path: names(n.path@), resolved: opt_text(n.resolved), version: n.version, integrity: n.integrity,
        prod: texts(n.dependencies.m()), dev: texts(n.dev_dependencies.m()), peer: texts(n.peer_dependencies.m()), opt: texts(n.optional_dependencies.m()),
    }
}
pub open spec fn block_name(t: DepType) -> Seq<char> {
    match t { DepType::Prod => "dependencies"@, DepType::Dev => "dev-dependencies"@, DepType::Peer => "peer-dependencies"@, DepType::Opt => "optional-dependencies"@ }
}
/// reading
pub open spec fn spec_in(k: Kd) -> Seq<char> { match kv_text(arg0(k.es)) { Some(t) => t, None => "*"@ } }
pub open spec fn deps_read(s: Seq<Kd>) -> Map<Seq<char>, Seq<char>> decreases s.len() {
    if s.len() == 0 { Map::empty() } else { deps_read(s.drop_last()).insert(s.last().nm, spec_in(s.last())) }
}
pub open spec fn deps_in(s: Seq<Kd>, t: DepType) -> Map<Seq<char>, Seq<char>> {
    match first(s, block_name(t)) { Some(n) => deps_read(n.kids), None => Map::empty() }
}
pub open spec fn plain(e: (Option<Seq<char>>, Kv)) -> bool { e.0 is None && e.1 is Str }
pub open spec fn plains(k: Seq<(Option<Seq<char>>, Kv)>) -> Seq<(Option<Seq<char>>, Kv)> decreases k.len() {
    if k.len() == 0 { Seq::empty() } else { plains(k.drop_last()) + (if plain(k.last()) { seq![k.last()] } else { Seq::empty() }) }
}
pub broadcast proof fn picked_plain(s: Seq<&KdlEntry>, b: Seq<bool>)
    requires b.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] b[i] == plain(ke(*s[i])),
    ensures #![trigger picked(s, b)] forall|i: int| 0 <= i < picked(s, b).len() ==> plain(ke(*#[trigger] picked(s, b)[i])),
        forall|k: Seq<(Option<Seq<char>>, Kv)>| k.len() == s.len() && (forall|i: int| 0 <= i < s.len() ==> #[trigger] k[i] == ke(*s[i])) ==> (#[trigger] plains(k)).len() == picked(s, b).len() && forall|i: int| 0 <= i < plains(k).len() ==> #[trigger] plains(k)[i] == ke(*picked(s, b)[i]),
    decreases s.len()
{
    if s.len() > 0 {
        picked_plain(s.drop_last(), b.drop_last());
        assert forall|k: Seq<(Option<Seq<char>>, Kv)>| k.len() == s.len() && (forall|i: int| 0 <= i < s.len() ==> #[trigger] k[i] == ke(*s[i])) implies (#[trigger] plains(k)).len() == picked(s, b).len() && forall|i: int| 0 <= i < plains(k).len() ==> #[trigger] plains(k)[i] == ke(*picked(s, b)[i]) by {
            let d = k.drop_last();
            assert(forall|i: int| 0 <= i < d.len() ==> #[trigger] d[i] == ke(*s.drop_last()[i]));
            assert(k.last() == ke(*s.last()));
            assert(plains(d).len() == picked(s.drop_last(), b.drop_last()).len());
        }
    }
}
pub open spec fn path_in(k: Kd) -> Seq<Seq<char>> { plains(k.es).map_values(|e: (Option<Seq<char>>, Kv)| e.1->Str_0) }
pub open spec fn version_in(t: Option<Seq<char>>) -> Result<Option<Version>, SemverError> {
    match t { Some(t) => match Version::of(t) { Ok(v) => Ok(Some(v)), Err(e) => Err(e) }, None => Ok(None) }
}
pub open spec fn integrity_in(t: Option<Seq<char>>) -> Result<Option<Integrity>, IntegrityError> {
    match t { Some(t) => match Integrity::of(t) { Ok(v) => Ok(Some(v)), Err(e) => Err(e) }, None => Ok(None) }
}
pub open spec fn said(k: Kd, is_root: bool) -> Option<Shape> {
    let (v, i, p) = (version_in(arg_text(k.kids, "version"@)), integrity_in(arg_text(k.kids, "integrity"@)), path_in(k));
    if v is Ok && i is Ok && (is_root || p.len() > 0) {
        Some(Shape {
            name: if is_root { Seq::empty() } else { p.last() }, is_root, path: p, resolved: arg_text(k.kids, "resolved"@), version: v->Ok_0, integrity: i->Ok_0,
            prod: deps_in(k.kids, DepType::Prod), dev: deps_in(k.kids, DepType::Dev), peer: deps_in(k.kids, DepType::Peer), opt: deps_in(k.kids, DepType::Opt),
        })
    } else { None }
}
/// writing
pub open spec fn line(k: Seq<char>, v: Seq<char>) -> Kd { Kd { nm: k, es: seq![(None, Kv::Str(v))], kids: Seq::empty() } }
/// one line for each, in the order of their names
pub uninterp spec fn by_name(m: Map<Seq<char>, Seq<char>>) -> Seq<Kd>;
pub open spec fn lists(s: Seq<Kd>, m: Map<Seq<char>, Seq<char>>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains_key((#[trigger] s[i]).nm) && s[i] == line(s[i].nm, m[s[i].nm])
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).nm != (#[trigger] s[j]).nm
    &&& forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).nm == k
}
pub open spec fn block(t: DepType, m: Map<Seq<char>, Seq<char>>) -> Seq<Kd> {
    if m == Map::<Seq<char>, Seq<char>>::empty() { Seq::empty() } else { seq![Kd { nm: block_name(t), es: Seq::empty(), kids: by_name(m) }] }
}
pub open spec fn maybe(k: Seq<char>, v: Option<Seq<char>>) -> Seq<Kd> { match v { Some(v) => seq![line(k, v)], None => Seq::empty() } }
pub open spec fn head(s: Shape) -> Seq<Kd> {
    maybe("version"@, match s.version { Some(v) => Some(v.disp()), None => None })
        + (if s.is_root { Seq::empty() } else {
            maybe("resolved"@, s.resolved) + (if s.resolved is Some { maybe("integrity"@, match s.integrity { Some(v) => Some(v.disp()), None => None }) } else { Seq::empty() })
        })
}
pub open spec fn writes(s: Shape) -> Kd {
    Kd {
        nm: if s.is_root { "root"@ } else { "pkg"@ },
        es: s.path.map_values(|p: Seq<char>| (None::<Seq<char>>, Kv::Str(p))),
        kids: head(s) + block(DepType::Prod, s.prod) + block(DepType::Dev, s.dev) + block(DepType::Peer, s.peer) + block(DepType::Opt, s.opt),
    }
}
/// what of an entry is written down
pub open spec fn kept(s: Shape) -> Shape {
    Shape {
        name: if s.is_root { Seq::empty() } else { s.path.last() },
        resolved: if s.is_root { None } else { s.resolved },
        integrity: if s.is_root || s.resolved is None { None } else { s.integrity },
        ..s
    }
}
/// the first node of a name
pub broadcast proof fn first_kd(s: Seq<KdlNode>, k: Seq<char>)
    ensures #[trigger] first(kds(s), k) == (if named(s, k) { Some(s[at(s, k)].kd()) } else { None })
    decreases s.len()
{
    broadcast use node_kd;
    at_is(s, k);
    if s.len() > 0 {
        assert(kds(s)[0] == s[0].kd());
        assert(kds(s).skip(1) =~= kds(s.skip(1)));
        first_kd(s.skip(1), k);
        at_is(s.skip(1), k);
    }
}
pub proof fn read_next(s: Seq<Kd>, i: int)
    requires 0 <= i < s.len()
    ensures deps_read(s.take(i + 1)) == deps_read(s.take(i)).insert(s[i].nm, spec_in(s[i]))
{ assert(s.take(i + 1).drop_last() =~= s.take(i)); }
pub open spec fn sorted_as(s: Seq<Kd>, t: Seq<Kd>) -> bool {
    lists(s, deps_read(s)) ==> t == by_name(deps_read(s)) && lists(t, deps_read(s))
}
/// reading a list gives what it lists
pub proof fn read_list(s: Seq<Kd>, m: Map<Seq<char>, Seq<char>>)
    requires lists(s, m)
    ensures deps_read(s) == m
    decreases s.len()
{
    if s.len() > 0 {
        let (t, k) = (s.drop_last(), s.last().nm);
        reveal_with_fuel(arg0, 2);
        assert(line(k, m[k]).es[0] == (None::<Seq<char>>, Kv::Str(m[k])));
        assert(spec_in(s.last()) == m[k]);
        let r = m.remove(k);
        assert forall|q: Seq<char>| #[trigger] r.contains_key(q) implies exists|i: int| 0 <= i < t.len() && (#[trigger] t[i]).nm == q by {
            let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).nm == q;
            assert(t[i] == s[i]);
        }
        assert forall|i: int| 0 <= i < t.len() implies r.contains_key((#[trigger] t[i]).nm) && t[i] == line(t[i].nm, r[t[i].nm]) by { assert(t[i] == s[i]); assert(s[i].nm != s[s.len() - 1].nm); }
        assert(lists(t, r));
        read_list(t, r);
        assert(deps_read(s) =~= m);
    } else {
        assert(deps_read(s) =~= m);
    }
}
pub proof fn is_line(n: KdlNode, k: Seq<char>, v: Seq<char>)
    requires n.nm() == k, n.es().len() == 1, ke(n.es().last()) == (None::<Seq<char>>, Kv::Str(v)), n.block() is None
    ensures n.kd() == line(k, v)
{
    broadcast use node_kd;
    assert(n.kd().es =~= line(k, v).es);
    assert(n.kd().kids =~= Seq::<Kd>::empty());
}
pub proof fn empty_texts(m: IndexMap<String, String>)
    ensures m.seq().len() == 0 <==> texts(m.m()) == Map::<Seq<char>, Seq<char>>::empty()
{
    broadcast use map_entries;
    if m.seq().len() == 0 { assert(texts(m.m()) =~= Map::<Seq<char>, Seq<char>>::empty()); }
    else { let k = m.seq()[0].0.key(); assert(texts(m.m()).contains_key(k)); }
}
pub open spec fn listed1(m: Map<Seq<char>, Seq<char>>) -> bool { m == Map::<Seq<char>, Seq<char>>::empty() || lists(by_name(m), m) }
pub open spec fn listed(s: Shape) -> bool { listed1(s.prod) && listed1(s.dev) && listed1(s.peer) && listed1(s.opt) }
pub proof fn first_cat(a: Seq<Kd>, b: Seq<Kd>, k: Seq<char>)
    ensures first(a + b, k) == (if first(a, k) is Some { first(a, k) } else { first(b, k) })
    decreases a.len()
{
    if a.len() == 0 { assert(a + b =~= b); }
    else { assert((a + b).skip(1) =~= a.skip(1) + b); assert((a + b)[0] == a[0]); first_cat(a.skip(1), b, k); }
}
pub proof fn first_one(n: Kd, k: Seq<char>)
    ensures first(seq![n], k) == (if n.nm == k { Some(n) } else { None::<Kd> }), first(Seq::<Kd>::empty(), k) == None::<Kd>
{ reveal_with_fuel(first, 3); assert(seq![n].skip(1) =~= Seq::<Kd>::empty()); }
pub proof fn in_line(k: Seq<char>, v: Seq<char>)
    ensures kv_text(arg0(line(k, v).es)) == Some(v)
{ reveal_with_fuel(arg0, 2); assert(line(k, v).es[0] == (None::<Seq<char>>, Kv::Str(v))); }
pub proof fn first_maybe(k: Seq<char>, v: Option<Seq<char>>, q: Seq<char>)
    ensures first(maybe(k, v), q) == (if v is Some && k == q { Some(line(k, v->0)) } else { None::<Kd> })
{ if v is Some { first_one(line(k, v->0), q); } else { first_one(line(k, k), q); } }
pub proof fn first_block(t: DepType, m: Map<Seq<char>, Seq<char>>, q: Seq<char>)
    ensures first(block(t, m), q) == (if m != Map::<Seq<char>, Seq<char>>::empty() && block_name(t) == q { Some(Kd { nm: block_name(t), es: Seq::empty(), kids: by_name(m) }) } else { None::<Kd> })
{ first_one(Kd { nm: block_name(t), es: Seq::empty(), kids: by_name(m) }, q); }
pub open spec fn key_names() -> Seq<Seq<char>> { seq!["version"@, "resolved"@, "integrity"@, "dependencies"@, "dev-dependencies"@, "peer-dependencies"@, "optional-dependencies"@] }
pub proof fn names_differ()
    ensures forall|i: int, j: int| 0 <= i < j < 7 ==> (#[trigger] key_names()[i]) != (#[trigger] key_names()[j])
{
    reveal_strlit("version"); reveal_strlit("resolved"); reveal_strlit("integrity"); reveal_strlit("dependencies"); reveal_strlit("dev-dependencies"); reveal_strlit("peer-dependencies"); reveal_strlit("optional-dependencies");
    assert("version"@.len() == 7 && "resolved"@.len() == 8 && "integrity"@.len() == 9 && "dependencies"@.len() == 12 && "dev-dependencies"@.len() == 16 && "peer-dependencies"@.len() == 17 && "optional-dependencies"@.len() == 21);
}
/// what is found under a name in what is written for an entry
pub proof fn first_written(s: Shape, q: Seq<char>)
    ensures first(writes(s).kids, q) == ({
        let e = Map::<Seq<char>, Seq<char>>::empty();
        if q == "version"@ { match s.version { Some(v) => Some(line(q, v.disp())), None => None } }
        else if q == "resolved"@ { match kept(s).resolved { Some(v) => Some(line(q, v)), None => None } }
        else if q == "integrity"@ { match kept(s).integrity { Some(v) => Some(line(q, v.disp())), None => None } }
        else if q == block_name(DepType::Prod) { if s.prod == e { None } else { Some(Kd { nm: q, es: Seq::empty(), kids: by_name(s.prod) }) } }
        else if q == block_name(DepType::Dev) { if s.dev == e { None } else { Some(Kd { nm: q, es: Seq::empty(), kids: by_name(s.dev) }) } }
        else if q == block_name(DepType::Peer) { if s.peer == e { None } else { Some(Kd { nm: q, es: Seq::empty(), kids: by_name(s.peer) }) } }
        else if q == block_name(DepType::Opt) { if s.opt == e { None } else { Some(Kd { nm: q, es: Seq::empty(), kids: by_name(s.opt) }) } }
        else { None }
    })
{
    names_differ();
    let n = key_names();
    assert(n[0] == "version"@ && n[1] == "resolved"@ && n[2] == "integrity"@ && n[3] == "dependencies"@ && n[4] == "dev-dependencies"@ && n[5] == "peer-dependencies"@ && n[6] == "optional-dependencies"@);
    let v = maybe("version"@, match s.version { Some(v) => Some(v.disp()), None => None });
    let r = maybe("resolved"@, s.resolved);
    let it = match s.integrity { Some(v) => Some(v.disp()), None => None };
    let i = if s.resolved is Some { maybe("integrity"@, it) } else { Seq::empty() };
    let t = if s.is_root { Seq::empty() } else { r + i };
    first_one(line(q, q), q);
    first_maybe("version"@, match s.version { Some(v) => Some(v.disp()), None => None }, q);
    first_maybe("resolved"@, s.resolved, q);
    first_maybe("integrity"@, it, q);
    first_cat(r, i, q);
    first_cat(v, t, q);
    let (b1, b2, b3, b4) = (block(DepType::Prod, s.prod), block(DepType::Dev, s.dev), block(DepType::Peer, s.peer), block(DepType::Opt, s.opt));
    first_block(DepType::Prod, s.prod, q); first_block(DepType::Dev, s.dev, q); first_block(DepType::Peer, s.peer, q); first_block(DepType::Opt, s.opt, q);
    first_cat(head(s), b1, q);
    first_cat(head(s) + b1, b2, q);
    first_cat(head(s) + b1 + b2, b3, q);
    first_cat(head(s) + b1 + b2 + b3, b4, q);
}
pub proof fn plain_path(p: Seq<Seq<char>>)
    ensures plains(p.map_values(|x: Seq<char>| (None::<Seq<char>>, Kv::Str(x)))) == p.map_values(|x: Seq<char>| (None::<Seq<char>>, Kv::Str(x)))
    decreases p.len()
{
    let e = p.map_values(|x: Seq<char>| (None::<Seq<char>>, Kv::Str(x)));
    if p.len() > 0 {
        plain_path(p.drop_last());
        assert(e.drop_last() =~= p.drop_last().map_values(|x: Seq<char>| (None::<Seq<char>>, Kv::Str(x))));
        assert(plains(e) =~= e);
    } else { assert(plains(e) =~= e); }
}
/// THE ROUND TRIP: what an entry is written as reads as what it was (but for what is not written of the root)
pub proof fn entry_kept(s: Shape)
    requires listed(s), s.is_root || s.path.len() > 0
    ensures said(writes(s), s.is_root) == Some(kept(s)), writes(kept(s)) == writes(s), kept(kept(s)) == kept(s), listed(kept(s))
{
    broadcast use version_text, integrity_text;
    names_differ();
    let n = key_names();
    assert(n[0] == "version"@ && n[1] == "resolved"@ && n[2] == "integrity"@ && n[3] == "dependencies"@ && n[4] == "dev-dependencies"@ && n[5] == "peer-dependencies"@ && n[6] == "optional-dependencies"@);
    first_written(s, "version"@); first_written(s, "resolved"@); first_written(s, "integrity"@);
    first_written(s, block_name(DepType::Prod)); first_written(s, block_name(DepType::Dev)); first_written(s, block_name(DepType::Peer)); first_written(s, block_name(DepType::Opt));
    if s.version is Some { in_line("version"@, s.version->0.disp()); }
    if s.resolved is Some { in_line("resolved"@, s.resolved->0); }
    if s.integrity is Some { in_line("integrity"@, s.integrity->0.disp()); }
    if s.prod != Map::<Seq<char>, Seq<char>>::empty() { read_list(by_name(s.prod), s.prod); }
    if s.dev != Map::<Seq<char>, Seq<char>>::empty() { read_list(by_name(s.dev), s.dev); }
    if s.peer != Map::<Seq<char>, Seq<char>>::empty() { read_list(by_name(s.peer), s.peer); }
    if s.opt != Map::<Seq<char>, Seq<char>>::empty() { read_list(by_name(s.opt), s.opt); }
    plain_path(s.path);
    assert(path_in(writes(s)) =~= s.path);
}
pub trait VxSortBy {
    spec fn sv2(&self) -> Seq<KdlNode>;
    /// std's sort_by_key, by name
    fn vx_sort_by_key<F: Fn(&KdlNode) -> String>(&mut self, f: F)
        requires forall|n: &KdlNode| #[trigger] f.requires((n,)), forall|n: &KdlNode, r: String| #[trigger] f.ensures((n,), r) ==> r@ == n.nm(),
        ensures sorted_as(kds(old(self).sv2()), kds(final(self).sv2()));
}
impl VxSortBy for Vec<KdlNode> {
    open spec fn sv2(&self) -> Seq<KdlNode> { self@ }
    #[verifier::external_body]
    fn vx_sort_by_key<F: Fn(&KdlNode) -> String>(&mut self, f: F) { unimplemented!() }
}
impl LockfileNode {
//@fn crates/node-maintainer/src/lockfile.rs LockfileNode::to_kdl_deps
    ensures ret.kd() == (Kd { nm: block_name(*dep_type), es: Seq::empty(), kids: by_name(texts(deps.m())) }), lists(by_name(texts(deps.m())), texts(deps.m())),
//@m sort_by_key => vx_sort_by_key
//@attr #[verifier::exec_allows_no_decreases_clause]
//@at body_start
    broadcast use node_kd, map_entries;
//@loop 0
        invariant $it.all().len() == deps.seq().len(), 0 <= $it.pos() <= $it.all().len(),
        forall|k: int| #![trigger $it.all()[k]] 0 <= k < $it.all().len() ==> *$it.all()[k].0 == deps.seq()[k].0 && *$it.all()[k].1 == deps.seq()[k].1,
        deps_node.nm() == block_name(*dep_type), deps_node.es().len() == 0, kids(deps_node).len() == $it.pos(),
        forall|k: int| 0 <= k < $it.pos() ==> (#[trigger] kids(deps_node)[k]).kd() == line(deps.seq()[k].0@, deps.seq()[k].1@),
        decreases $it.all().len() - $it.pos()
//@at loop 0 before
        proof { broadcast use map_entries; }
//@at loop 0 body_start
        let ghost was = kids(deps_node);
//@at loop 0 body_end
        proof {
            broadcast use node_kd;
            let k = kids(deps_node);
            assert(k.last().kd().es =~= line(name@, requested@).es);
            assert(k.last().kd().kids =~= Seq::<Kd>::empty());
            assert forall|j: int| 0 <= j < vx_it0.pos() implies (#[trigger] k[j]).kd() == line(deps.seq()[j].0@, deps.seq()[j].1@) by { if j < was.len() { assert(k[j] == was[j]); } }
        }
//@at before deps_node.ensure_children().nodes_mut()
        let ghost was = kids(deps_node);
        proof {
            let m = texts(deps.m());
            let s = kds(was);
            assert forall|i: int| 0 <= i < s.len() implies m.contains_key((#[trigger] s[i]).nm) && s[i] == line(s[i].nm, m[s[i].nm]) by { let e = deps.seq()[i]; assert(deps.m().contains_key(e.0.key())); }
            assert forall|i: int, j: int| 0 <= i < j < s.len() implies (#[trigger] s[i]).nm != (#[trigger] s[j]).nm by { assert(deps.seq()[i].0.key() != deps.seq()[j].0.key()); }
            assert forall|k: Seq<char>| #[trigger] m.contains_key(k) implies exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).nm == k by {
                assert(deps.m().contains_key(k));
                let i = choose|i: int| 0 <= i < deps.seq().len() && (#[trigger] deps.seq()[i]).0.key() == k;
                assert(s[i].nm == k);
            }
            read_list(s, m);
        }
//@at after deps_node.ensure_children().nodes_mut()
        proof { assert(deps_node.kd().es =~= Seq::<(Option<Seq<char>>, Kv)>::empty()); }
//@closure 0 (&KdlNode) -> (r: String)
    ensures r@ == $0.nm()
//@end
//@fn crates/node-maintainer/src/lockfile.rs LockfileNode::from_kdl_deps
    ensures ret is Ok, texts(ret->Ok_0.m()) == deps_in(children.kds(), *dep_type),
//@subst dep.get(0) =>> dep.vx_arg0()
//@option and_then
//@attr #[verifier::exec_allows_no_decreases_clause]
//@loop 0
        invariant $it.pos() <= $it.all().len(), 0 <= $it.pos(), $it.all().len() == kids(*node).len(),
        forall|k: int| 0 <= k < $it.all().len() ==> *(#[trigger] $it.all()[k]) == kids(*node)[k],
        texts(deps.m()) == deps_read(kds(kids(*node)).take($it.pos())),
        decreases $it.all().len() - $it.pos()
//@at body_start
    broadcast use first_kd, node_kd;
    proof { assert(texts(Map::<Seq<char>, String>::empty()) =~= Map::<Seq<char>, Seq<char>>::empty()); }
//@at loop 0 before
        proof { assert(kds(kids(*node)).take(0) =~= Seq::<Kd>::empty()); }
//@at loop 0 body_end
        proof {
            broadcast use node_kd;
            let n = kds(kids(*node));
            read_next(n, vx_it0.pos() - 1);
            assert(n[vx_it0.pos() - 1] == dep.kd());
            assert(texts(deps.m()) =~= deps_read(n.take(vx_it0.pos())));
        }
//@at loop 0 after
        proof { assert(kds(kids(*node)).take(kids(*node).len() as int) =~= kds(kids(*node))); }
//@end
//@fn crates/node-maintainer/src/lockfile.rs LockfileNode::to_kdl
    ensures ret.kd() == writes(shape(*self)),
        listed(shape(*self)),
//@attr #[verifier::exec_allows_no_decreases_clause]
//@m as_ref => vx_as_ref
//@subst? resolved.to_string() =>> vx_disp(resolved)
//@at body_start
    broadcast use node_kd, map_entries;
    let ghost z = shape(*self);
//@loop 0
        invariant 0 <= $it.pos() <= $it.all().len(), $it.all().len() == self.path@.len(),
        forall|k: int| 0 <= k < $it.all().len() ==> *(#[trigger] $it.all()[k]) == self.path@[k],
        kdl_node.nm() == (if self.is_root { "root"@ } else { "pkg"@ }), kids(kdl_node).len() == 0, kdl_node.es().len() == $it.pos(),
        forall|k: int| 0 <= k < $it.pos() ==> ke(#[trigger] kdl_node.es()[k]) == (None::<Seq<char>>, Kv::Str(self.path@[k].text())),
        decreases $it.all().len() - $it.pos()
//@at loop 0 body_start
        let ghost was = kdl_node.es();
//@at loop 0 body_end
        proof { assert forall|k: int| 0 <= k < vx_it0.pos() implies ke(#[trigger] kdl_node.es()[k]) == (None::<Seq<char>>, Kv::Str(self.path@[k].text())) by { if k < was.len() { assert(kdl_node.es()[k] == kdl_node.es().drop_last()[k]); } } }
//@at loop 0 after
        proof { assert(kds(kids(kdl_node)) =~= Seq::<Kd>::empty()); }
//@at after vnode.push
            proof { is_line(vnode, "version"@, z.version->0.disp()); }
//@at after rnode.push
            proof { is_line(rnode, "resolved"@, z.resolved->0); }
//@at after inode.push
            proof { is_line(inode, "integrity"@, z.integrity->0.disp()); }
//@at before kdl_node.ensure_children().nodes_mut().push(vnode)
            let ghost k0 = kids(kdl_node);
//@at after kdl_node.ensure_children().nodes_mut().push(vnode)
            proof { assert(kds(kids(kdl_node)) =~= kds(k0).push(vnode.kd())); }
//@at before kdl_node.ensure_children().nodes_mut().push(rnode)
            let ghost k0 = kids(kdl_node);
//@at after kdl_node.ensure_children().nodes_mut().push(rnode)
            proof { assert(kds(kids(kdl_node)) =~= kds(k0).push(rnode.kd())); }
//@at before kdl_node.ensure_children().nodes_mut().push(inode)
            let ghost k0 = kids(kdl_node);
//@at after kdl_node.ensure_children().nodes_mut().push(inode)
            proof { assert(kds(kids(kdl_node)) =~= kds(k0).push(inode.kd())); }
//@at before if !self.dependencies.is_empty()
        proof { assert(kds(kids(kdl_node)) =~= head(z)); }
        let ghost k1 = kids(kdl_node);
//@at after if !self.dependencies.is_empty()
        proof { empty_texts(self.dependencies); assert(kds(kids(kdl_node)) =~= kds(k1) + block(DepType::Prod, z.prod)); }
        let ghost k2 = kids(kdl_node);
//@at after if !self.dev_dependencies.is_empty()
        proof { empty_texts(self.dev_dependencies); assert(kds(kids(kdl_node)) =~= kds(k2) + block(DepType::Dev, z.dev)); }
        let ghost k3 = kids(kdl_node);
//@at after if !self.peer_dependencies.is_empty()
        proof { empty_texts(self.peer_dependencies); assert(kds(kids(kdl_node)) =~= kds(k3) + block(DepType::Peer, z.peer)); }
        let ghost k4 = kids(kdl_node);
//@at after if !self.optional_dependencies.is_empty()
        proof {
            empty_texts(self.optional_dependencies);
            assert(kds(kids(kdl_node)) =~= kds(k4) + block(DepType::Opt, z.opt));
            assert(kdl_node.kd().es =~= writes(z).es);
        }
//@end
//@fn crates/node-maintainer/src/lockfile.rs LockfileNode::from_kdl
    ensures match said(node.kd(), is_root) { Some(s) => ret is Ok && shape(ret->Ok_0) == s, None => ret is Err },
//@subst $0.map_err(NodeMaintainerError::SemverParseError) =>> $0.map_err(|e: SemverError| -> (r: NodeMaintainerError) { NodeMaintainerError::SemverParseError(e) })
//@option and_then
//@at body_start
    broadcast use node_kd, first_kd, picked_plain;
//@at after let path =
        proof { assert(names(path@) =~= path_in(node.kd())); reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
//@at after let integrity =
        proof { assert(children.kds() == node.kd().kids); assert(Ok::<Option<Integrity>, IntegrityError>(integrity) == integrity_in(arg_text(node.kd().kids, "integrity"@))); }
//@at after let version =
        proof { assert(Ok::<Option<Version>, SemverError>(version) == version_in(arg_text(node.kd().kids, "version"@))); }
//@at after let resolved =
        proof { assert(opt_text(resolved) == arg_text(node.kd().kids, "resolved"@)); assert(is_root || name.text() == path_in(node.kd()).last()); }
//@closure 0 (&&KdlEntry) -> (b: bool)
    ensures b == plain(ke(**$0))
//@closure 1 (&KdlEntry) -> (r: UniCase<String>)
    requires $0.val() is String
    ensures r.text() == text_of($0.val())->0
//@closure 4 (&str) -> (r: Result<Integrity, IntegrityError>)
    ensures r == Integrity::of($0@)
//@closure 7 (&str) -> (r: Result<Version, NodeMaintainerError>)
    ensures r is Ok <==> Version::of($0@) is Ok, r is Ok ==> r->Ok_0 == Version::of($0@)->Ok_0
//@closure 9 (&str) -> (r: String)
    ensures r@ == $0@
//@end
}
// ---- the whole document ------------------------------
/// names joined by a separator
pub open spec fn joined(ps: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char> decreases ps.len() {
    if ps.len() == 0 { Seq::empty() } else if ps.len() == 1 { ps[0] } else { joined(ps.drop_last(), sep) + sep + ps.last() }
}
pub open spec fn texts_of(p: Seq<String>) -> Seq<Seq<char>> { p.map_values(|s: String| s@) }
pub trait VxJoin { fn vx_join(&self, sep: &str) -> String; }
impl VxJoin for Vec<String> {
    #[verifier::external_body]
    fn vx_join(&self, sep: &str) -> (r: String) ensures r@ == joined(texts_of(self@), sep@) { unimplemented!() }
}
/// the place of an entry
pub open spec fn place(p: Seq<Seq<char>>) -> Seq<char> { uni(joined(p, "/node_modules/"@)) }
impl KdlIdentifier {
    /// how it is written down, in quotes or not
    pub uninterp spec fn written(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String) ensures r@ == self.written() { unimplemented!() }
}
/// `pkg` is written without quotes (to_kdl does, by KdlDocument::fmt)
pub open spec fn tidy(d: KdlDocument) -> bool { forall|i: int| 0 <= i < d.ns().len() ==> ((#[trigger] d.ns()[i]).id().written() == "pkg"@ <==> d.ns()[i].nm() == "pkg"@) }
/// a whole lockfile
pub struct Whole { pub version: int, pub root: Shape, pub packages: Map<Seq<char>, Shape> }
pub open spec fn shapes(m: Map<Seq<char>, LockfileNode>) -> Map<Seq<char>, Shape> { m.map_values(|n: LockfileNode| shape(n)) }
pub open spec fn whole(l: Lockfile) -> Whole { Whole { version: l.version as int, root: shape(l.root), packages: shapes(l.packages.m()) } }
pub open spec fn pkgs(s: Seq<Kd>) -> Seq<Kd> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { pkgs(s.drop_last()) + (if s.last().nm == "pkg"@ { seq![s.last()] } else { Seq::empty() }) }
}
pub open spec fn placed(s: Seq<Option<Shape>>) -> Option<Map<Seq<char>, Shape>> decreases s.len() {
    if s.len() == 0 { Some(Map::empty()) }
    else { match (placed(s.drop_last()), s.last()) { (Some(m), Some(x)) => Some(m.insert(place(x.path), x)), _ => None } }
}
pub open spec fn entries_in(s: Seq<Kd>) -> Seq<Option<Shape>> { pkgs(s).map_values(|k: Kd| said(k, false)) }
pub open spec fn version_of(s: Seq<Kd>) -> Option<int> { match arg_of(s, "lockfile-version"@) { Some(Kv::Int(i)) => if i >= 0 { Some(i) } else { None }, _ => Some(1) } }
pub open spec fn reads(s: Seq<Kd>) -> Option<Whole> {
    match (version_of(s), placed(entries_in(s)), first(s, "root"@)) {
        (Some(v), Some(p), Some(r)) => match said(r, true) { Some(root) => Some(Whole { version: v, root, packages: p }), None => None },
        _ => None,
    }
}
pub open spec fn is_node(r: Result<LockfileNode, NodeMaintainerError>, x: Option<Shape>) -> bool { match x { Some(x) => r is Ok && shape(r->Ok_0) == x, None => r is Err } }
pub open spec fn is_entry(r: Result<(UniCase<String>, LockfileNode), NodeMaintainerError>, x: Option<Shape>) -> bool {
    match x { Some(x) => r is Ok && shape((r->Ok_0).1) == x && (r->Ok_0).0.text() == joined(x.path, "/node_modules/"@), None => r is Err }
}
pub broadcast proof fn picked_pkgs(s: Seq<&KdlNode>, b: Seq<bool>)
    requires b.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] b[i] == (s[i].nm() == "pkg"@),
    ensures #![trigger picked(s, b)]
        forall|k: Seq<Kd>| k.len() == s.len() && (forall|i: int| 0 <= i < s.len() ==> #[trigger] k[i] == s[i].kd()) ==> (#[trigger] pkgs(k)).len() == picked(s, b).len() && forall|i: int| 0 <= i < pkgs(k).len() ==> #[trigger] pkgs(k)[i] == picked(s, b)[i].kd(),
    decreases s.len()
{
    broadcast use node_kd;
    if s.len() > 0 {
        picked_pkgs(s.drop_last(), b.drop_last());
        assert forall|k: Seq<Kd>| k.len() == s.len() && (forall|i: int| 0 <= i < s.len() ==> #[trigger] k[i] == s[i].kd()) implies (#[trigger] pkgs(k)).len() == picked(s, b).len() && forall|i: int| 0 <= i < pkgs(k).len() ==> #[trigger] pkgs(k)[i] == picked(s, b)[i].kd() by {
            let d = k.drop_last();
            assert(forall|i: int| 0 <= i < d.len() ==> #[trigger] d[i] == s.drop_last()[i].kd());
            assert(k.last() == s.last().kd());
            assert(pkgs(d).len() == picked(s.drop_last(), b.drop_last()).len());
        }
    }
}
pub broadcast proof fn same_names(a: Seq<String>, b: Seq<UniCase<String>>)
    requires a.len() == b.len(), forall|i: int| #![trigger a[i]] #![trigger b[i]] 0 <= i < a.len() ==> a[i]@ == b[i].text()
    ensures #![trigger texts_of(a), names(b)] texts_of(a) == names(b)
{ assert(texts_of(a) =~= names(b)); }
/// collecting what was read
pub broadcast proof fn collected(r: Seq<Result<(UniCase<String>, LockfileNode), NodeMaintainerError>>, x: Seq<Option<Shape>>)
    requires r.len() == x.len(), forall|i: int| #![trigger r[i]] #![trigger x[i]] 0 <= i < r.len() ==> is_entry(r[i], x[i]),
    ensures #![trigger oks(r), placed(x)]
        (forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]) is Ok) ==> placed(x) == Some(shapes(inserted(oks(r)))),
        (exists|i: int| 0 <= i < r.len() && (#[trigger] r[i]) is Err) ==> placed(x) is None,
    decreases r.len()
{
    if r.len() > 0 {
        let (q, y) = (r.drop_last(), x.drop_last());
        assert forall|i: int| #![trigger q[i]] #![trigger y[i]] 0 <= i < q.len() implies is_entry(q[i], y[i]) by { assert(q[i] == r[i]); }
        collected(q, y);
        assert(oks(r).drop_last() =~= oks(q));
        assert(is_entry(r.last(), x.last())) by { let j = r.len() - 1; assert(r[j] == r.last()); }
        if forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]) is Ok {
            assert forall|i: int| 0 <= i < q.len() implies (#[trigger] q[i]) is Ok by { assert(r[i] is Ok); }
            assert(r[r.len() - 1] is Ok);
            let (l, m) = (r.last()->Ok_0, inserted(oks(q)));
            assert(shapes(m.insert(l.0.key(), l.1)) =~= shapes(m).insert(l.0.key(), shape(l.1)));
        }
        if exists|i: int| 0 <= i < r.len() && (#[trigger] r[i]) is Err {
            let i = choose|i: int| 0 <= i < r.len() && (#[trigger] r[i]) is Err;
            if i < r.len() - 1 { assert(q[i] is Err); }
        }
    } else {
        assert(shapes(Map::<Seq<char>, LockfileNode>::empty()) =~= Map::<Seq<char>, Shape>::empty());
    }
}
/// entries are filed under where they go, so only the project's own goes nowhere (what unit graph takes a lockfile to be)
pub open spec fn lock_ok(l: Lockfile) -> bool {
    forall|k: Seq<char>| #[trigger] l.packages.m().contains_key(k) && k != uni(Seq::<char>::empty()) ==> l.packages.m()[k].path@.len() > 0
}
pub open spec fn filed_all(l: Lockfile) -> bool { forall|k: Seq<char>| #[trigger] whole(l).packages.contains_key(k) ==> k == place(whole(l).packages[k].path) }
pub broadcast proof fn filed(s: Seq<Option<Shape>>)
    ensures #![trigger placed(s)] placed(s) matches Some(m) ==> forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> k == place(m[k].path)
    decreases s.len()
{
    if s.len() > 0 { filed(s.drop_last()); }
}
pub open spec fn own_entry(r: Result<(UniCase<String>, LockfileNode), NodeMaintainerError>) -> bool {
    r is Ok ==> (r->Ok_0).0.text() == joined(shape((r->Ok_0).1).path, "/node_modules/"@)
}
pub broadcast proof fn filed_up(r: Seq<Result<(UniCase<String>, LockfileNode), NodeMaintainerError>>)
    requires forall|i: int| 0 <= i < r.len() ==> own_entry(#[trigger] r[i]),
    ensures #![trigger oks(r)]
        (forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]) is Ok) ==> forall|k: Seq<char>| #[trigger] inserted(oks(r)).contains_key(k) ==> k == place(shape(inserted(oks(r))[k]).path),
    decreases r.len()
{
    if r.len() > 0 && forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]) is Ok {
        let q = r.drop_last();
        assert forall|i: int| 0 <= i < q.len() implies own_entry(#[trigger] q[i]) && q[i] is Ok by { assert(q[i] == r[i]); assert(own_entry(r[i])); }
        filed_up(q);
        assert(oks(r).drop_last() =~= oks(q));
        assert(own_entry(r[r.len() - 1]) && r[r.len() - 1] is Ok);
        assert(oks(r).last() == r.last()->Ok_0);
    }
}
pub proof fn filed_ok(l: Lockfile)
    requires filed_all(l)
    ensures lock_ok(l)
{
    assert forall|k: Seq<char>| #[trigger] l.packages.m().contains_key(k) && k != uni(Seq::<char>::empty()) implies l.packages.m()[k].path@.len() > 0 by {
        assert(whole(l).packages.contains_key(k));
        let p = whole(l).packages[k].path;
        assert(p == names(l.packages.m()[k].path@));
        if p.len() == 0 { assert(p =~= Seq::<Seq<char>>::empty()); assert(joined(p, "/node_modules/"@) =~= Seq::<char>::empty()); }
    }
}
pub trait VxTryInto<T> { type E; fn vx_try_into(self) -> Result<T, Self::E>; }
pub struct TryFromIntError {}
impl VxTryInto<u64> for i64 { type E = TryFromIntError; fn vx_try_into(self) -> (r: Result<u64, TryFromIntError>) ensures r is Ok <==> self >= 0, r is Ok ==> r->Ok_0 == self { if self >= 0 { Ok(self as u64) } else { Err(TryFromIntError {}) } } }
impl VxTryInto<u64> for usize { type E = TryFromIntError; fn vx_try_into(self) -> (r: Result<u64, TryFromIntError>) ensures r is Ok <==> self <= u64::MAX, r is Ok ==> r->Ok_0 == self { if self as u128 <= u64::MAX as u128 { Ok(self as u64) } else { Err(TryFromIntError {}) } } }
impl KdlValue {
    pub fn as_i64(&self) -> (r: Option<i64>) ensures r == (match kv(*self) { Kv::Int(i) => Some(i as i64), _ => None::<i64> }), kv(*self) matches Kv::Int(i) ==> i64::MIN <= i <= i64::MAX
    { match self { KdlValue::Base2(i) => Some(*i), KdlValue::Base8(i) => Some(*i), KdlValue::Base10(i) => Some(*i), KdlValue::Base16(i) => Some(*i), _ => None } }
}
impl Lockfile {
//@fn crates/node-maintainer/src/lockfile.rs Lockfile::from_kdl::inner
    ensures tidy(kdl) ==> match reads(kdl.kds()) { Some(w) => ret is Ok && whole(ret->Ok_0) == w, None => ret is Err },
        ret is Ok ==> filed_all(ret->Ok_0),
//@sig fn inner_kdl(kdl: KdlDocument) -> (ret: Result<Lockfile, NodeMaintainerError>)
//@subst node.name().to_string() == "pkg" =>> vx_streq(&node.name().to_string(), "pkg")
//@m join => vx_join
//@m try_into => vx_try_into
//@at body_start
    broadcast use node_kd, first_kd, picked_pkgs, collected, same_names, filed, filed_up;
//@closure 0 (&&KdlNode) -> (b: bool)
    ensures b == ($0.id().written() == "pkg"@)
//@closure 1 (&KdlNode) -> (r: Result<LockfileNode, NodeMaintainerError>)
    ensures is_node(r, said($0.kd(), false))
//@closure 2 (Result<LockfileNode, NodeMaintainerError>) -> (r: Result<(UniCase<String>, LockfileNode), NodeMaintainerError>)
    ensures is_node($0, Some(shape($0->Ok_0))) ==> is_entry(r, Some(shape($0->Ok_0))), $0 is Err ==> r is Err
//@closure 3 (&UniCase<String>) -> (r: String)
    ensures r@ == $0.text()
//@closure 4 (&KdlValue) -> (r: Option<i64>)
    ensures r == (match kv(*$0) { Kv::Int(i) => Some(i as i64), _ => None::<i64> }), kv(*$0) matches Kv::Int(i) ==> i64::MIN <= i <= i64::MAX
//@closure 5 (i64) -> (r: Result<u64, TryFromIntError>)
    ensures r is Ok <==> $0 >= 0, r is Ok ==> r->Ok_0 == $0
//@closure 6 (TryFromIntError) -> (r: NodeMaintainerError)
    ensures true
//@closure 8 (&KdlNode) -> (r: Result<LockfileNode, NodeMaintainerError>)
    ensures is_node(r, said($0.kd(), true))
//@end
}
// ---- writing the whole document ------------------------------
impl KdlDocument {
    /// comments
    #[verifier::external_body]
    pub fn set_leading(&mut self, t: &str) ensures final(self).ns() == old(self).ns() { unimplemented!() }
    /// how things are written, not what they say
    #[verifier::external_body]
    pub fn fmt(&mut self) ensures final(self).kds() == old(self).kds(), tidy(*final(self)) { unimplemented!() }
}
/// (executed only: it rewrites names in place, through mutable iteration) how true, false and null are written
#[verifier::external_body]
pub fn quote_keyword_names(doc: &mut KdlDocument) ensures final(doc).kds() == old(doc).kds(), tidy(*old(doc)) ==> tidy(*final(doc)) { unimplemented!() }
/// the same things in some order
pub open spec fn reordered<T>(s: Seq<T>, o: Seq<T>) -> bool {
    &&& s.len() == o.len()
    &&& forall|x: T| s.contains(x) <==> #[trigger] o.contains(x)
    &&& s.no_duplicates() ==> o.no_duplicates()
}
/// std's sort_by
#[verifier::external_body]
pub fn vx_sort<T>(v: &mut Vec<T>) ensures reordered(old(v)@, final(v)@) { unimplemented!() }
/// what to_lockfile makes (and what from_kdl reads): packages at their places below the root
pub open spec fn orderly(l: Lockfile) -> bool {
    &&& l.root.is_root && l.version <= i64::MAX
    &&& forall|k: Seq<char>| #[trigger] l.packages.m().contains_key(k) ==> !l.packages.m()[k].is_root && l.packages.m()[k].path@.len() > 0 && k == place(names(l.packages.m()[k].path@))
}
pub open spec fn whole_kept(w: Whole) -> Whole { Whole { version: w.version, root: kept(w.root), packages: w.packages.map_values(|s: Shape| kept(s)) } }
pub open spec fn version_line(v: int) -> Kd { Kd { nm: "lockfile-version"@, es: seq![(None, Kv::Int(v))], kids: Seq::empty() } }
pub open spec fn doc_of(v: int, root: Shape, o: Seq<Shape>) -> Seq<Kd> { seq![version_line(v), writes(root)] + o.map_values(|s: Shape| writes(s)) }
pub proof fn doc_names()
    ensures "root"@ != "pkg"@, "root"@ != "lockfile-version"@, "pkg"@ != "lockfile-version"@
{ reveal_strlit("root"); reveal_strlit("pkg"); reveal_strlit("lockfile-version"); assert("root"@.len() == 4 && "pkg"@.len() == 3 && "lockfile-version"@.len() == 16); }
pub proof fn pkgs_in(v: int, root: Shape, o: Seq<Shape>)
    requires root.is_root, forall|i: int| 0 <= i < o.len() ==> !(#[trigger] o[i]).is_root
    ensures pkgs(doc_of(v, root, o)) == o.map_values(|s: Shape| writes(s))
    decreases o.len()
{
    doc_names();
    let d = doc_of(v, root, o);
    let f = |s: Shape| writes(s);
    if o.len() == 0 {
        assert(d =~= seq![version_line(v), writes(root)]);
        assert(d.drop_last() =~= seq![version_line(v)]);
        assert(d.drop_last().drop_last() =~= Seq::<Kd>::empty());
        reveal_with_fuel(pkgs, 4);
        assert(pkgs(d) =~= o.map_values(f));
    } else {
        let t = o.drop_last();
        assert forall|i: int| 0 <= i < t.len() implies !(#[trigger] t[i]).is_root by { assert(t[i] == o[i]); }
        pkgs_in(v, root, t);
        assert(d.drop_last() =~= doc_of(v, root, t));
        assert(d.last() == writes(o.last()));
        assert(pkgs(d) =~= o.map_values(f));
    }
}
/// where they go when they are read
pub proof fn placed_all(o: Seq<Shape>)
    requires
        forall|i: int| 0 <= i < o.len() ==> said(writes(#[trigger] o[i]), false) == Some(kept(o[i])),
        forall|i: int, j: int| 0 <= i < j < o.len() ==> place((#[trigger] o[i]).path) != place((#[trigger] o[j]).path),
    ensures ({
        let p = placed(o.map_values(|s: Shape| said(writes(s), false)));
        &&& p is Some
        &&& forall|i: int| 0 <= i < o.len() ==> p->0.contains_key(place((#[trigger] o[i]).path)) && p->0[place(o[i].path)] == kept(o[i])
        &&& forall|k: Seq<char>| #[trigger] p->0.contains_key(k) ==> exists|i: int| 0 <= i < o.len() && place((#[trigger] o[i]).path) == k
    })
    decreases o.len()
{
    let f = |s: Shape| said(writes(s), false);
    if o.len() > 0 {
        let t = o.drop_last();
        assert forall|i: int| 0 <= i < t.len() implies said(writes(#[trigger] t[i]), false) == Some(kept(t[i])) by { assert(t[i] == o[i]); }
        placed_all(t);
        assert(o.map_values(f).drop_last() =~= t.map_values(f));
        let (p, q) = (placed(o.map_values(f))->0, placed(t.map_values(f))->0);
        let l = o.len() - 1;
        assert(said(writes(o[l]), false) == Some(kept(o[l])));
        assert(p == q.insert(place(o[l].path), kept(o[l])));
        assert forall|i: int| 0 <= i < o.len() implies p.contains_key(place((#[trigger] o[i]).path)) && p[place(o[i].path)] == kept(o[i]) by {
            if i < l { assert(t[i] == o[i]); assert(place(o[i].path) != place(o[l].path)); }
        }
        assert forall|k: Seq<char>| #[trigger] p.contains_key(k) implies exists|i: int| 0 <= i < o.len() && place((#[trigger] o[i]).path) == k by {
            if k != place(o[l].path) {
                assert(q.contains_key(k));
                let i = choose|i: int| 0 <= i < t.len() && place((#[trigger] t[i]).path) == k;
                assert(o[i] == t[i]);
            }
        }
    }
}
pub open spec fn shapes_of(s: Seq<(&UniCase<String>, &LockfileNode)>) -> Seq<Shape> { s.map_values(|e: (&UniCase<String>, &LockfileNode)| shape(*e.1)) }
/// the entries of a map, in some order
pub open spec fn entries(l: Lockfile, o: Seq<(&UniCase<String>, &LockfileNode)>) -> bool {
    &&& forall|i: int| 0 <= i < o.len() ==> l.packages.m().contains_key((#[trigger] o[i]).0.key()) && l.packages.m()[o[i].0.key()] == *o[i].1
    &&& forall|i: int, j: int| 0 <= i < j < o.len() ==> (#[trigger] o[i]).0.key() != (#[trigger] o[j]).0.key()
    &&& forall|k: Seq<char>| #[trigger] l.packages.m().contains_key(k) ==> exists|i: int| 0 <= i < o.len() && (#[trigger] o[i]).0.key() == k
}
pub proof fn entries_anyhow(l: Lockfile, s: Seq<(&UniCase<String>, &LockfileNode)>, o: Seq<(&UniCase<String>, &LockfileNode)>)
    requires entries(l, s), reordered(s, o)
    ensures entries(l, o)
{
    assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j implies s[i] != s[j] by {
        if i < j { assert(s[i].0.key() != s[j].0.key()); } else { assert(s[j].0.key() != s[i].0.key()); }
    }
    assert(s.no_duplicates());
    assert forall|i: int| 0 <= i < o.len() implies l.packages.m().contains_key((#[trigger] o[i]).0.key()) && l.packages.m()[o[i].0.key()] == *o[i].1 by {
        assert(o.contains(o[i]));
        let j = choose|j: int| 0 <= j < s.len() && s[j] == #[trigger] o[i];
    }
    assert forall|i: int, j: int| 0 <= i < j < o.len() implies (#[trigger] o[i]).0.key() != (#[trigger] o[j]).0.key() by {
        assert(o.contains(o[i]) && o.contains(o[j]));
        let a = choose|a: int| 0 <= a < s.len() && s[a] == o[i];
        let b = choose|b: int| 0 <= b < s.len() && s[b] == o[j];
        assert(o[i] != o[j]);
        assert(a != b);
        if a < b { assert(s[a].0.key() != s[b].0.key()); } else { assert(s[b].0.key() != s[a].0.key()); }
    }
    assert forall|k: Seq<char>| #[trigger] l.packages.m().contains_key(k) implies exists|i: int| 0 <= i < o.len() && (#[trigger] o[i]).0.key() == k by {
        let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]).0.key() == k;
        assert(s.contains(s[j]));
        assert(o.contains(s[j]));
        let i = choose|i: int| 0 <= i < o.len() && o[i] == s[j];
        assert(o[i].0.key() == k);
    }
}
/// THE ROUND TRIP of a lockfile: what it is written as reads as what it was
pub proof fn lock_kept(l: Lockfile, o: Seq<(&UniCase<String>, &LockfileNode)>)
    requires
        orderly(l), entries(l, o), listed(shape(l.root)), forall|i: int| 0 <= i < o.len() ==> listed(shape(*(#[trigger] o[i]).1)),
    ensures reads(doc_of(l.version as int, shape(l.root), shapes_of(o))) == Some(whole_kept(whole(l)))
{
    let s = shapes_of(o);
    let d = doc_of(l.version as int, shape(l.root), s);
    doc_names();
    assert forall|i: int| 0 <= i < s.len() implies !(#[trigger] s[i]).is_root && said(writes(s[i]), false) == Some(kept(s[i])) && place(s[i].path) == o[i].0.key() by {
        let e = o[i];
        assert(l.packages.m().contains_key(e.0.key()));
        assert(s[i] == shape(*e.1));
        entry_kept(s[i]);
    }
    pkgs_in(l.version as int, shape(l.root), s);
    placed_all(s);
    let f = |x: Shape| said(writes(x), false);
    assert(entries_in(d) =~= s.map_values(f));
    let p = placed(entries_in(d))->0;
    let q = whole_kept(whole(l)).packages;
    assert forall|k: Seq<char>| #[trigger] p.contains_key(k) <==> q.contains_key(k) by {
        if p.contains_key(k) { let i = choose|i: int| 0 <= i < s.len() && place((#[trigger] s[i]).path) == k; assert(o[i].0.key() == k); }
        if q.contains_key(k) { assert(l.packages.m().contains_key(k)); let i = choose|i: int| 0 <= i < o.len() && (#[trigger] o[i]).0.key() == k; assert(place(s[i].path) == k); }
    }
    assert forall|k: Seq<char>| p.contains_key(k) implies #[trigger] p[k] == q[k] by {
        let i = choose|i: int| 0 <= i < s.len() && place((#[trigger] s[i]).path) == k;
        assert(o[i].0.key() == k);
        assert(s[i] == shape(*o[i].1));
    }
    assert(p =~= q);
    entry_kept(shape(l.root));
    let r = seq![version_line(l.version as int), writes(shape(l.root))];
    assert(d[0] == version_line(l.version as int));
    assert(d[1] == writes(shape(l.root)));
    assert(d.skip(1)[0] == d[1]);
    reveal_with_fuel(first, 3);
    assert(first(d, "root"@) == Some(writes(shape(l.root))));
    assert(first(d, "lockfile-version"@) == Some(version_line(l.version as int)));
    reveal_with_fuel(arg0, 2);
    assert(version_line(l.version as int).es[0] == (None::<Seq<char>>, Kv::Int(l.version as int)));
}
impl Lockfile {
//@fn crates/node-maintainer/src/lockfile.rs Lockfile::to_kdl
    ensures tidy(ret), orderly(*self) ==> reads(ret.kds()) == Some(whole_kept(whole(*self))),
//@subst packages.sort_by($0) =>> vx_sort(&mut packages)
//@attr #[verifier::exec_allows_no_decreases_clause]
//@at body_start
    hide(writes); hide(reads); hide(listed); hide(shape); hide(kept); hide(reordered); hide(entries);
//@at after version_node.push
        proof { broadcast use node_kd; assert(version_node.kd().es =~= version_line(self.version as i64 as int).es); assert(version_node.kd().kids =~= Seq::<Kd>::empty()); }
//@at before packages.sort_by
        let ghost was = packages@;
        proof { assert(entries(*self, was)) by { broadcast use map_entries; reveal(entries); } }
//@at after packages.sort_by
        proof { entries_anyhow(*self, was, packages@); }
        let ghost o = packages@;
        let ghost v = self.version as i64 as int;
        proof { assert(doc.kds() =~= doc_of(v, shape(self.root), shapes_of(o.take(0)))); }
//@loop 0
        invariant $it.all() == o, 0 <= $it.pos() <= $it.all().len(), listed(shape(self.root)),
        forall|k: int| 0 <= k < $it.pos() ==> listed(shape(*(#[trigger] o[k]).1)),
        doc.kds() == doc_of(v, shape(self.root), shapes_of(o.take($it.pos()))),
        decreases $it.all().len() - $it.pos()
//@at loop 0 body_start
        let ghost d0 = doc.ns();
//@at loop 0 body_end
        proof {
            let n = vx_it0.pos() - 1;
            assert(kds(doc.ns()) =~= kds(d0).push(writes(shape(*o[n].1))));
            assert(o.take(n + 1).drop_last() =~= o.take(n));
            assert(doc.kds() =~= doc_of(v, shape(self.root), shapes_of(o.take(n + 1))));
        }
//@at loop 0 after
        proof { assert(o.take(o.len() as int) =~= o); if orderly(*self) { lock_kept(*self, o); } }
//@end
}
// ---- npm's own lockfiles ------------------------------
/// what lies between the separators
pub uninterp spec fn cut(s: Seq<char>, sep: Seq<char>) -> Seq<Seq<char>>;
pub broadcast axiom fn cut_facts(s: Seq<char>, sep: Seq<char>) ensures #![trigger cut(s, sep)] cut(s, sep).len() > 0, joined(cut(s, sep), sep) == s;
pub trait VxSplit { fn vx_split(&self, sep: &str) -> Iter<&str>; }
impl VxSplit for String {
    #[verifier::external_body]
    fn vx_split(&self, sep: &str) -> (r: Iter<&str>) ensures r.pos() == 0, r.all().len() == cut(self@, sep@).len(), forall|i: int| 0 <= i < r.all().len() ==> (#[trigger] r.all()[i])@ == cut(self@, sep@)[i] { unimplemented!() }
}
impl<T> Iter<T> {
    #[verifier::external_body]
    pub fn skip(self, n: usize) -> (r: Iter<T>) ensures self.pos() == 0 && n <= self.all().len() ==> r.pos() == 0 && r.all() == self.all().skip(n as int) { unimplemented!() }
}
impl<V> IndexMap<String, V> {
    #[verifier::external_body]
    pub fn vx_get_str(&self, k: &str) -> (r: Option<&V>) ensures r is Some <==> self.m().contains_key(k@), r is Some ==> *r->0 == self.m()[k@] { unimplemented!() }
}
pub open spec fn npm_path(s: Seq<char>) -> Seq<Seq<char>> { cut("/"@ + s, "/node_modules/"@).skip(1) }
pub open spec fn npm_name(s: Seq<char>, e: NpmPackageLockEntry) -> Option<Seq<char>> {
    if s.len() == 0 { Some(Seq::empty()) } else { match e.name { Some(n) => Some(n@), None => if npm_path(s).len() > 0 { Some(npm_path(s).last()) } else { None } } }
}
pub open spec fn npm_said(s: Seq<char>, e: NpmPackageLockEntry) -> Option<Shape> {
    match (version_in(opt_text(e.version)), integrity_in(opt_text(e.integrity)), npm_name(s, e)) {
        (Ok(version), Ok(integrity), Some(name)) => Some(Shape {
            name, is_root: npm_path(s).len() == 0, path: npm_path(s), resolved: opt_text(e.resolved), version, integrity,
            prod: texts(e.dependencies.m()), dev: texts(e.dev_dependencies.m()), peer: texts(e.peer_dependencies.m()), opt: texts(e.optional_dependencies.m()),
        }),
        _ => None,
    }
}
pub open spec fn npm_reads(l: NpmPackageLock) -> Option<Whole> {
    let v = match l.lockfile_version { Some(v) => v as int, None => 3 };
    match placed(l.packages.seq().map_values(|e: (String, NpmPackageLockEntry)| npm_said(e.0@, e.1))) {
        Some(p) => if l.packages.m().contains_key(""@) { match npm_said(""@, l.packages.m()[""@]) { Some(root) => Some(Whole { version: v, root, packages: p }), None => None } } else { None },
        None => None,
    }
}
pub broadcast proof fn same_strs(a: Seq<&str>, b: Seq<UniCase<String>>)
    requires a.len() == b.len(), forall|i: int| #![trigger a[i]] #![trigger b[i]] 0 <= i < a.len() ==> a[i]@ == b[i].text()
    ensures #![trigger a.len(), names(b)] forall|c: Seq<Seq<char>>| c.len() == a.len() && (forall|i: int| 0 <= i < a.len() ==> #[trigger] c[i] == a[i]@) ==> c == names(b)
{ assert forall|c: Seq<Seq<char>>| c.len() == a.len() && (forall|i: int| 0 <= i < a.len() ==> #[trigger] c[i] == a[i]@) implies c == names(b) by { assert(c =~= names(b)); } }
impl LockfileNode {
//@fn crates/node-maintainer/src/lockfile.rs LockfileNode::from_npm
    ensures match npm_said(path_str@, *npm) { Some(s) => ret is Ok && shape(ret->Ok_0) == s, None => ret is Err },
//@m split => vx_split
//@subst $0.map(UniCase::new) =>> $0.map(|n: String| -> (r: UniCase<String>) ensures r.text() == n@ { UniCase::new(n) })
//@subst $0.map_err(NodeMaintainerError::SemverParseError) =>> $0.map_err(|e: SemverError| -> (r: NodeMaintainerError) { NodeMaintainerError::SemverParseError(e) })
//@at body_start
    broadcast use cut_facts;
    proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
//@at after let path = path
        proof { assert(names(path@) =~= npm_path(path_str@)); }
//@at after let integrity =
        proof { assert(Ok::<Option<Integrity>, IntegrityError>(integrity) == integrity_in(opt_text(npm.integrity))); }
//@at after let version =
        proof { assert(Ok::<Option<Version>, SemverError>(version) == version_in(opt_text(npm.version))); }
//@closure 0 (&str) -> (r: UniCase<String>)
    ensures r.text() == $0@
//@closure 1 () -> (r: Option<UniCase<String>>)
    ensures r is Some <==> path@.len() > 0, r is Some ==> r->0 == path@.last()
//@closure 3 (&String) -> (r: Result<Integrity, IntegrityError>)
    ensures r == Integrity::of($0@)
//@closure 5 (&String) -> (r: Result<Version, NodeMaintainerError>)
    ensures r is Ok <==> Version::of($0@) is Ok, r is Ok ==> r->Ok_0 == Version::of($0@)->Ok_0
//@end
}
impl Lockfile {
//@fn crates/node-maintainer/src/lockfile.rs Lockfile::from_npm::inner
    ensures match npm_reads(npm) { Some(w) => ret is Ok && whole(ret->Ok_0) == w, None => ret is Err },
        ret is Ok ==> filed_all(ret->Ok_0),
//@sig fn inner_npm(npm: NpmPackageLock) -> (ret: Result<Lockfile, NodeMaintainerError>)
//@m join => vx_join
//@m try_into => vx_try_into
//@m get => vx_get_str
//@at body_start
    broadcast use collected, same_names, filed, filed_up;
//@closure 0 ((&String, &NpmPackageLockEntry)) -> (r: Result<LockfileNode, NodeMaintainerError>)
    ensures is_node(r, npm_said($0.0@, *$0.1))
//@closure 1 (Result<LockfileNode, NodeMaintainerError>) -> (r: Result<(UniCase<String>, LockfileNode), NodeMaintainerError>)
    ensures is_node($0, Some(shape($0->Ok_0))) ==> is_entry(r, Some(shape($0->Ok_0))), $0 is Err ==> r is Err
//@closure 2 (&UniCase<String>) -> (r: String)
    ensures r@ == $0.text()
//@closure 3 (usize) -> (r: Result<u64, TryFromIntError>)
    ensures r is Ok <==> $0 <= u64::MAX, r is Ok ==> r->Ok_0 == $0
//@closure 4 (TryFromIntError) -> (r: NodeMaintainerError)
    ensures true
//@closure 6 (&NpmPackageLockEntry) -> (r: Result<LockfileNode, NodeMaintainerError>)
    ensures is_node(r, npm_said(""@, *$0))
//@end
}
// ---- from an entry to its package, and from a tree to its entries ------------------------------
#[verifier::external_body]
pub struct UrlError { _p: () }
#[verifier::external_body]
pub struct PackageSpecError { _p: () }
#[verifier::external_body]
pub struct NassunError { _p: () }
#[verifier::external_body]
pub struct Url { _p: () }
#[verifier::external_body]
pub struct GitInfo { _p: () }
#[verifier::external_body]
pub struct PathBuf { _p: () }
#[verifier::external_body]
pub struct Lossy { _p: () }
#[verifier::external_body]
pub struct Range { _p: () }
#[verifier::external_body]
pub struct Nassun { _p: () }
#[verifier::external_body]
pub struct Package { _p: () }
pub type SemVerVersion = Version;
//@item crates/oro-package-spec/src/lib.rs VersionSpec
//@end
//@item crates/oro-package-spec/src/lib.rs PackageSpec
//@end
//@item crates/nassun/src/resolver.rs PackageResolution
//@end
//@item crates/node-maintainer/src/graph.rs Node
//@end
//@item crates/node-maintainer/src/graph.rs Edge
//@end
//@item crates/node-maintainer/src/graph.rs Graph
//@end
impl vstd::std_specs::convert::FromSpecImpl<PackageSpecError> for NodeMaintainerError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: PackageSpecError) -> Self { NodeMaintainerError::PackageSpecError(e) }
}
impl From<PackageSpecError> for NodeMaintainerError { fn from(e: PackageSpecError) -> (r: Self) { NodeMaintainerError::PackageSpecError(e) } }
impl vstd::std_specs::convert::FromSpecImpl<NassunError> for NodeMaintainerError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: NassunError) -> Self { NodeMaintainerError::NassunError(e) }
}
impl From<NassunError> for NodeMaintainerError { fn from(e: NassunError) -> (r: Self) { NodeMaintainerError::NassunError(e) } }
impl Clone for PathBuf { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for GitInfo { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for Version { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for Integrity { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl VxDisp for Url { uninterp spec fn disp(&self) -> Seq<char>; uninterp spec fn dbg(&self) -> Seq<char>; }
impl VxDisp for GitInfo { uninterp spec fn disp(&self) -> Seq<char>; uninterp spec fn dbg(&self) -> Seq<char>; }
impl VxDisp for PackageSpec { uninterp spec fn disp(&self) -> Seq<char>; uninterp spec fn dbg(&self) -> Seq<char>; }
impl VxDisp for UniCase<String> { open spec fn disp(&self) -> Seq<char> { self.text() } uninterp spec fn dbg(&self) -> Seq<char>; }
impl PathBuf {
    pub uninterp spec fn lossy(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn to_string_lossy(&self) -> (r: Lossy) ensures r.t() == self.lossy() { unimplemented!() }
}
impl Lossy { pub uninterp spec fn t(&self) -> Seq<char>; }
impl VxIntoS<String> for Lossy { open spec fn becomes(self, r: String) -> bool { r@ == self.t() } #[verifier::external_body] fn vx_into(self) -> (r: String) { unimplemented!() } }
impl VxFromStr for Url {
    type E = UrlError;
    uninterp spec fn of(s: Seq<char>) -> Result<Url, UrlError>;
    #[verifier::external_body]
    fn vx_of(s: &str) -> (r: Result<Url, UrlError>) { unimplemented!() }
}
impl VxFromStr for PackageSpec {
    type E = PackageSpecError;
    uninterp spec fn of(s: Seq<char>) -> Result<PackageSpec, PackageSpecError>;
    #[verifier::external_body]
    fn vx_of(s: &str) -> (r: Result<PackageSpec, PackageSpecError>) { unimplemented!() }
}
pub broadcast axiom fn url_text(u: Url) ensures #![trigger u.disp()] Url::of(u.disp()) == Ok::<Url, UrlError>(u);
impl GitInfo { pub uninterp spec fn pinned(&self) -> bool; #[verifier::external_body] pub fn committish(&self) -> (r: Option<&str>) ensures r is Some <==> self.pinned() { unimplemented!() } }
impl Package {
    pub uninterp spec fn res(&self) -> PackageResolution;
    pub uninterp spec fn called(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn resolved(&self) -> (r: &PackageResolution) ensures *r == self.res() { unimplemented!() }
    #[verifier::external_body]
    pub fn name(&self) -> (r: &str) ensures r@ == self.called() { unimplemented!() }
}
/// the client's answer to a request in text (units versions, registry)
pub uninterp spec fn answers(p: Package, s: Seq<char>) -> bool;
impl Nassun {
    #[verifier::external_body]
    pub fn resolve(&self, s: String) -> (r: Result<Package, NassunError>) ensures r is Ok ==> answers(r->Ok_0, s@) { unimplemented!() }
    #[verifier::external_body]
    pub fn resolve_from(&self, name: String, from: PackageSpec, resolved: PackageResolution) -> (r: Package) ensures r.res() == resolved, r.called() == name@ { unimplemented!() }
}
/// an alias stands for what it points at
pub open spec fn target_of(s: PackageSpec) -> PackageSpec decreases s { match s { PackageSpec::Alias { name, spec } => target_of(*spec), _ => s } }
pub proof fn lemma_target(s: PackageSpec) ensures !(target_of(s) is Alias) decreases s { if let PackageSpec::Alias { name, spec } = s { lemma_target(*spec); } }
impl PackageSpec {
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String) ensures r@ == self.disp() { unimplemented!() }
    /// what was asked for, in text
    pub uninterp spec fn asks(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn requested(&self) -> (r: String) ensures r@ == self.asks() { unimplemented!() }
//@fn crates/oro-package-spec/src/lib.rs PackageSpec::is_alias
    ensures ret == (*self is Alias)
//@end
//@fn crates/oro-package-spec/src/lib.rs PackageSpec::target
    ensures *ret == target_of(*self)
    decreases *self,
//@end
}
/// the request an entry is turned into
pub open spec fn request(s: Shape) -> Option<Seq<char>> {
    match (s.resolved, s.version) {
        (Some(r), Some(v)) => if has_prefix(r, "http"@) { Some(s.name + ("@"@ + v.disp())) } else { Some(s.name + ("@"@ + r)) },
        (Some(r), None) => Some(s.name + ("@"@ + r)),
        (None, Some(v)) => Some(s.name + ("@"@ + v.disp())),
        (None, None) => None,
    }
}
/// THE PACKAGE of an entry: exactly the version, tarball and checksum it records
pub open spec fn stands_for(p: Package, s: Shape) -> bool {
    &&& request(s) is Some && PackageSpec::of(request(s)->0) is Ok
    &&& match target_of(PackageSpec::of(request(s)->0)->Ok_0) {
        PackageSpec::Npm { scope, name, requested } => s.version is Some && match s.resolved {
            Some(u) => Url::of(u) is Ok && p.called() == s.name && match p.res() {
                PackageResolution::Npm { name: n, version, tarball, integrity } => n == name && version == s.version->0 && tarball == Url::of(u)->Ok_0 && integrity == s.integrity,
                _ => false,
            },
            None => answers(p, PackageSpec::of(request(s)->0)->Ok_0.disp()),
        },
        PackageSpec::Dir { path } => p.called() == s.name && match p.res() { PackageResolution::Dir { name, path: q } => name@ == s.name && q == path, _ => false },
        PackageSpec::Git(info) => if info.pinned() { p.called() == s.name && match p.res() { PackageResolution::Git { name, info: i } => name@ == s.name && i == info, _ => false } }
            else { answers(p, PackageSpec::of(request(s)->0)->Ok_0.disp()) },
        PackageSpec::Alias { .. } => false,
    }
}
impl Clone for PackageSpec { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl LockfileNode {
//@fn crates/node-maintainer/src/lockfile.rs LockfileNode::to_package
    ensures match ret { Ok(Some(p)) => stands_for(p, shape(*self)), Ok(None) => request(shape(*self)) is None, Err(e) => request(shape(*self)) is Some },
//@m starts_with => vx_starts_with
//@at body_start
    proof { let r = request(shape(*self)); if r is Some { if PackageSpec::of(r->0) is Ok { lemma_target(PackageSpec::of(r->0)->Ok_0); } } }
//@end
}
// ---- a tree's lockfile ------------------------------
/// the names of the packages a node sits under and its own (unit graph: node_path)
pub uninterp spec fn path_of(g: Graph, i: NodeIndex) -> Seq<UniCase<String>>;
pub open spec fn edges_there(g: Graph) -> bool {
    forall|i: NodeIndex, k: int| #![trigger g.inner.nodes()[i].dependencies.seq()[k]] g.inner.nodes().contains_key(i) && 0 <= k < g.inner.nodes()[i].dependencies.seq().len() ==> g.inner.edges().contains_key(g.inner.nodes()[i].dependencies.seq()[k].1)
}
/// what of the dependencies is of a kind
pub open spec fn dep_lines(es: Map<EdgeIndex, EdgeT<Edge>>, s: Seq<(UniCase<String>, EdgeIndex)>, t: DepType) -> Map<Seq<char>, Seq<char>> decreases s.len() {
    if s.len() == 0 { Map::empty() } else {
        let (m, e) = (dep_lines(es, s.drop_last(), t), es[s.last().1].w);
        if e.dep_type == t { m.insert(s.last().0.text(), e.requested.asks()) } else { m }
    }
}
pub open spec fn where_text(r: PackageResolution) -> Seq<char> {
    match r { PackageResolution::Npm { tarball, .. } => tarball.disp(), PackageResolution::Dir { path, .. } => path.lossy(), PackageResolution::Git { info, .. } => info.disp() }
}
/// WHAT A LOCKFILE SAYS of a package of the tree: where it is, which version, tarball and checksum it resolved to, what it asks for
pub open spec fn node_said(g: Graph, i: NodeIndex, is_root: bool) -> Shape {
    let n = g.inner.nodes()[i];
    let r = n.package.res();
    let (es, d) = (g.inner.edges(), n.dependencies.seq());
    Shape {
        name: n.package.called(), is_root, path: names(path_of(g, i)), resolved: Some(where_text(r)),
        version: match r { PackageResolution::Npm { version, .. } => Some(version), _ => None },
        integrity: match r { PackageResolution::Npm { integrity, .. } => integrity, _ => None },
        prod: dep_lines(es, d, DepType::Prod), dev: dep_lines(es, d, DepType::Dev), peer: dep_lines(es, d, DepType::Peer), opt: dep_lines(es, d, DepType::Opt),
    }
}
impl<N, E> Index<EdgeIndex> for StableGraph<N, E> {
    type Output = E;
    #[verifier::external_body]
    fn index(&self, i: EdgeIndex) -> (r: &E) ensures *r == self.edges()[i].w { unimplemented!() }
}
impl<N, E> vstd::std_specs::core::IndexSpecImpl<EdgeIndex> for StableGraph<N, E> {
    open spec fn index_req(&self, i: &EdgeIndex) -> bool { self.edges().contains_key(*i) }
}
impl<N, E> StableGraph<N, E> {
    /// every node, once
    #[verifier::external_body]
    pub fn node_indices(&self) -> (r: Iter<NodeIndex>)
        ensures r.pos() == 0, r.all().no_duplicates(), forall|i: NodeIndex| #![trigger self.nodes().contains_key(i)] #![trigger r.all().contains(i)] self.nodes().contains_key(i) <==> r.all().contains(i)
    { unimplemented!() }
}
impl VxIntoS<Vec<UniCase<String>>> for VecDeque<UniCase<String>> {
    open spec fn becomes(self, r: Vec<UniCase<String>>) -> bool { r@ == self.v() }
    #[verifier::external_body]
    fn vx_into(self) -> (r: Vec<UniCase<String>>) { unimplemented!() }
}
pub proof fn line_next(es: Map<EdgeIndex, EdgeT<Edge>>, s: Seq<(UniCase<String>, EdgeIndex)>, t: DepType, i: int)
    requires 0 <= i < s.len()
    ensures dep_lines(es, s.take(i + 1), t) == (if es[s[i].1].w.dep_type == t { dep_lines(es, s.take(i), t).insert(s[i].0.text(), es[s[i].1].w.requested.asks()) } else { dep_lines(es, s.take(i), t) })
{ assert(s.take(i + 1).drop_last() =~= s.take(i)); assert(s.take(i + 1).last() == s[i]); }
pub open spec fn entry_said(g: Graph, i: NodeIndex, r: Result<(UniCase<String>, LockfileNode), NodeMaintainerError>) -> bool {
    r is Ok && shape((r->Ok_0).1) == node_said(g, i, false) && (r->Ok_0).0.text() == joined(names(path_of(g, i)), "/node_modules/"@)
}
pub open spec fn place_of(g: Graph, i: NodeIndex) -> Seq<char> { place(names(path_of(g, i))) }
/// no two packages of the tree are at one place (unit graph: a tree's nodes have their own names among their siblings)
pub open spec fn places_differ(g: Graph) -> bool {
    forall|i: NodeIndex, j: NodeIndex| #![trigger place_of(g, i), place_of(g, j)] g.inner.nodes().contains_key(i) && g.inner.nodes().contains_key(j) && i != g.root && j != g.root && i != j ==> place_of(g, i) != place_of(g, j)
}
pub open spec fn root_said(g: Graph, l: Lockfile) -> bool { shape(l.root) == node_said(g, g.root, true) && l.version == 1 }
/// THE LOCKFILE OF A TREE: it says of every package at its place what there is to say, and nothing else
pub open spec fn tree_all(g: Graph, l: Lockfile) -> bool {
    forall|i: NodeIndex| #[trigger] g.inner.nodes().contains_key(i) && i != g.root ==> l.packages.m().contains_key(place_of(g, i)) && shape(l.packages.m()[place_of(g, i)]) == node_said(g, i, false)
}
pub open spec fn tree_only(g: Graph, l: Lockfile) -> bool {
    forall|k: Seq<char>| #[trigger] l.packages.m().contains_key(k) ==> exists|i: NodeIndex| #[trigger] g.inner.nodes().contains_key(i) && i != g.root && k == place_of(g, i)
}
pub open spec fn taken<T>(s: Seq<T>, b: Seq<bool>, x: T) -> bool { exists|j: int| 0 <= j < s.len() && #[trigger] s[j] == x && b[j] }
pub proof fn picked_are0<T>(s: Seq<T>, b: Seq<bool>)
    requires b.len() == s.len(), s.no_duplicates()
    ensures picked(s, b).no_duplicates(), forall|i: int| 0 <= i < picked(s, b).len() ==> taken(s, b, #[trigger] picked(s, b)[i]),
        forall|x: T| #[trigger] taken(s, b, x) ==> picked(s, b).contains(x),
    decreases s.len()
{
    if s.len() > 0 {
        let (t, c) = (s.drop_last(), b.drop_last());
        picked_are0(t, c);
        let (p, q) = (picked(s, b), picked(t, c));
        assert(p =~= if b.last() { q.push(s.last()) } else { q });
        assert forall|x: T| taken(s, b, x) <==> taken(t, c, x) || b.last() && x == s.last() by {
            if taken(s, b, x) { let k = choose|k: int| 0 <= k < s.len() && #[trigger] s[k] == x && b[k]; if k < s.len() - 1 { assert(t[k] == x && c[k]); } }
            if taken(t, c, x) { let k = choose|k: int| 0 <= k < t.len() && #[trigger] t[k] == x && c[k]; assert(s[k] == x && b[k]); }
            if b.last() && x == s.last() { assert(s[s.len() - 1] == x && b[s.len() - 1]); }
        }
        assert forall|i: int| 0 <= i < p.len() implies taken(s, b, #[trigger] p[i]) by { if i < q.len() { assert(p[i] == q[i]); assert(taken(t, c, q[i])); } }
        assert forall|x: T| #[trigger] taken(s, b, x) implies p.contains(x) by {
            if taken(t, c, x) { assert(q.contains(x)); let k = choose|k: int| 0 <= k < q.len() && q[k] == x; assert(p[k] == x); }
            else { assert(p[p.len() - 1] == x); }
        }
        assert forall|i: int, j: int| 0 <= i < p.len() && 0 <= j < p.len() && i != j implies p[i] != p[j] by {
            if i < q.len() { assert(taken(t, c, q[i])); }
            if j < q.len() { assert(taken(t, c, q[j])); }
            assert(!taken(t, c, s.last())) by { if taken(t, c, s.last()) { let k = choose|k: int| 0 <= k < t.len() && #[trigger] t[k] == s.last() && c[k]; assert(s[k] == s[s.len() - 1]); } }
        }
    } else { assert(picked(s, b) =~= Seq::<T>::empty()); }
}
pub broadcast proof fn picked_are<T>(s: Seq<T>, b: Seq<bool>)
    requires b.len() == s.len(), s.no_duplicates()
    ensures #![trigger picked(s, b)] picked(s, b).no_duplicates(), forall|i: int| 0 <= i < picked(s, b).len() ==> taken(s, b, #[trigger] picked(s, b)[i]) && s.contains(picked(s, b)[i]),
        forall|x: T| #[trigger] s.contains(x) ==> exists|j: int| 0 <= j < s.len() && #[trigger] s[j] == x && (b[j] ==> picked(s, b).contains(x)),
{
    picked_are0(s, b);
    assert forall|x: T| #[trigger] s.contains(x) implies exists|j: int| 0 <= j < s.len() && #[trigger] s[j] == x && (b[j] ==> picked(s, b).contains(x)) by {
        let j = choose|j: int| 0 <= j < s.len() && s[j] == x;
        if b[j] { assert(taken(s, b, x)); }
    }
    assert forall|i: int| 0 <= i < picked(s, b).len() implies s.contains(#[trigger] picked(s, b)[i]) by { assert(taken(s, b, picked(s, b)[i])); }
}
pub broadcast proof fn said_of(g: Graph, s: Seq<NodeIndex>, r: Seq<Result<(UniCase<String>, LockfileNode), NodeMaintainerError>>)
    requires s.len() == r.len(), s.no_duplicates(), forall|i: int| #![trigger s[i]] #![trigger r[i]] 0 <= i < s.len() ==> entry_said(g, s[i], r[i]),
        forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j ==> place_of(g, #[trigger] s[i]) != place_of(g, #[trigger] s[j]),
    ensures #![trigger s.no_duplicates(), oks(r), places_differ(g)] ({
        let m = inserted(oks(r));
        &&& forall|i: NodeIndex| #[trigger] s.contains(i) ==> m.contains_key(place_of(g, i)) && shape(m[place_of(g, i)]) == node_said(g, i, false)
        &&& forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> exists|i: NodeIndex| #[trigger] s.contains(i) && k == place_of(g, i)
    })
    decreases s.len()
{
    if s.len() > 0 {
        let (t, q) = (s.drop_last(), r.drop_last());
        let l = s.len() - 1;
        assert forall|i: int| #![trigger t[i]] #![trigger q[i]] 0 <= i < t.len() implies entry_said(g, t[i], q[i]) by { assert(t[i] == s[i]); assert(q[i] == r[i]); }
        said_of(g, t, q);
        assert(oks(r).drop_last() =~= oks(q));
        assert(entry_said(g, s[l], r[l]));
        let (m, w) = (inserted(oks(r)), inserted(oks(q)));
        assert(m == w.insert(place_of(g, s[l]), (r[l]->Ok_0).1));
        assert forall|i: NodeIndex| #[trigger] s.contains(i) implies m.contains_key(place_of(g, i)) && shape(m[place_of(g, i)]) == node_said(g, i, false) by {
            let x = choose|x: int| 0 <= x < s.len() && s[x] == i;
            if x < l { assert(t[x] == s[x]); assert(t.contains(i)); assert(place_of(g, s[x]) != place_of(g, s[l])); }
        }
        assert forall|k: Seq<char>| #[trigger] m.contains_key(k) implies exists|i: NodeIndex| #[trigger] s.contains(i) && k == place_of(g, i) by {
            if k == place_of(g, s[l]) { assert(s.contains(s[l])); } else { assert(w.contains_key(k)); let i = choose|i: NodeIndex| #[trigger] t.contains(i) && k == place_of(g, i); let x = choose|x: int| 0 <= x < t.len() && t[x] == i; assert(s[x] == i); assert(s.contains(i)); }
        }
    }
}
impl Graph {
    #[verifier::external_body]
    pub fn node_path(&self, i: NodeIndex) -> (r: VecDeque<UniCase<String>>) ensures r.v() == path_of(*self, i) { unimplemented!() }
//@fn crates/node-maintainer/src/graph.rs Graph::node_lockfile_node
    requires self.inner.nodes().contains_key(node), edges_there(*self),
    ensures ret is Ok, shape(ret->Ok_0) == node_said(*self, node, is_root),
//@attr #[verifier::exec_allows_no_decreases_clause]
//@subst $0.name().to_string() =>> vx_disp(&$0.name())
//@subst tarball.to_string() =>> vx_disp(&tarball)
//@subst info.to_string() =>> vx_disp(&info)
//@at body_start
    let ghost g = *self;
    let ghost nx = node;
    let ghost ds = self.inner.nodes()[node].dependencies.seq();
    let ghost es = self.inner.edges();
    broadcast use map_entries;
//@closure 0 ((&UniCase<String>, &EdgeIndex)) -> (r: (&UniCase<String>, &PackageSpec, &DepType))
    requires self.inner.edges().contains_key(*$0.1)
    ensures *r.0 == *$0.0, *r.1 == self.inner.edges()[*$0.1].w.requested, *r.2 == self.inner.edges()[*$0.1].w.dep_type
//@loop 0
        invariant 0 <= $it.pos() <= $it.all().len(), $it.all().len() == ds.len(),
        forall|k: int| 0 <= k < ds.len() ==> *(#[trigger] $it.all()[k]).0 == ds[k].0 && *$it.all()[k].1 == es[ds[k].1].w.requested && *$it.all()[k].2 == es[ds[k].1].w.dep_type,
        texts(prod_deps.m()) == dep_lines(es, ds.take($it.pos()), DepType::Prod),
        texts(dev_deps.m()) == dep_lines(es, ds.take($it.pos()), DepType::Dev),
        texts(peer_deps.m()) == dep_lines(es, ds.take($it.pos()), DepType::Peer),
        texts(opt_deps.m()) == dep_lines(es, ds.take($it.pos()), DepType::Opt),
        decreases $it.all().len() - $it.pos()
//@at loop 0 before
        proof { assert(texts(Map::<Seq<char>, String>::empty()) =~= Map::<Seq<char>, Seq<char>>::empty()); }
//@at loop 0 body_start
        let ghost (p0, d0, q0, o0) = (prod_deps.m(), dev_deps.m(), peer_deps.m(), opt_deps.m());
//@at loop 0 body_end
        proof {
            let n = vx_it0.pos() - 1;
            line_next(es, ds, DepType::Prod, n); line_next(es, ds, DepType::Dev, n); line_next(es, ds, DepType::Peer, n); line_next(es, ds, DepType::Opt, n);
            assert(prod_deps.m() == p0 || texts(prod_deps.m()) =~= texts(p0).insert(name.text(), requested.asks()));
            assert(dev_deps.m() == d0 || texts(dev_deps.m()) =~= texts(d0).insert(name.text(), requested.asks()));
            assert(peer_deps.m() == q0 || texts(peer_deps.m()) =~= texts(q0).insert(name.text(), requested.asks()));
            assert(opt_deps.m() == o0 || texts(opt_deps.m()) =~= texts(o0).insert(name.text(), requested.asks()));
        }
//@at loop 0 after
        proof { assert(ds.take(ds.len() as int) =~= ds); }
//@end
//@fn crates/node-maintainer/src/graph.rs Graph::to_lockfile
    requires self.inner.nodes().contains_key(self.root), edges_there(*self),
    ensures ret is Ok, root_said(*self, ret->Ok_0), places_differ(*self) ==> tree_all(*self, ret->Ok_0), places_differ(*self) ==> tree_only(*self, ret->Ok_0),
//@m join => vx_join
//@m collect => vx_collect
//@at body_start
    broadcast use same_names, said_of, picked_are;
//@closure 0 (&NodeIndex) -> (b: bool)
    ensures b == (*$0 != self.root)
//@closure 1 (NodeIndex) -> (r: Result<(UniCase<String>, LockfileNode), NodeMaintainerError>)
    requires self.inner.nodes().contains_key($0), edges_there(*self)
    ensures entry_said(*self, $0, r)
//@closure 2 (&UniCase<String>) -> (r: String)
    ensures r@ == $0.text()
//@end
}
// ---- C03: from a tree to its lockfile and back ------------------------------
/// THE ROUND TRIP of a tree: what is read from what its lockfile is written as says of every package what there is to say
pub proof fn tree_kept(g: Graph, l: Lockfile, w: Whole)
    requires
        root_said(g, l), tree_all(g, l), tree_only(g, l), forall|i: NodeIndex| #[trigger] g.inner.nodes().contains_key(i) && i != g.root ==> path_of(g, i).len() > 0,
        // Lockfile::to_kdl, Lockfile::from_kdl
        orderly(l) ==> w == whole_kept(whole(l)),
    ensures
        orderly(l), w.root == kept(node_said(g, g.root, true)),
        forall|i: NodeIndex| #[trigger] g.inner.nodes().contains_key(i) && i != g.root ==> w.packages.contains_key(place_of(g, i)) && w.packages[place_of(g, i)] == kept(node_said(g, i, false)),
        forall|k: Seq<char>| #[trigger] w.packages.contains_key(k) ==> exists|i: NodeIndex| #[trigger] g.inner.nodes().contains_key(i) && i != g.root && k == place_of(g, i),
{
    assert forall|k: Seq<char>| #[trigger] l.packages.m().contains_key(k) implies !l.packages.m()[k].is_root && l.packages.m()[k].path@.len() > 0 && k == place(names(l.packages.m()[k].path@)) by {
        let i = choose|i: NodeIndex| #[trigger] g.inner.nodes().contains_key(i) && i != g.root && k == place_of(g, i);
        let n = l.packages.m()[k];
        assert(shape(n) == node_said(g, i, false));
        assert(names(n.path@).len() == n.path@.len());
        assert(names(path_of(g, i)).len() == path_of(g, i).len());
    }
    assert(shape(l.root).is_root);
    assert(orderly(l));
}
/// and the package made of such an entry is the one the tree had there
pub proof fn same_package(g: Graph, i: NodeIndex, p: Package)
    requires
        g.inner.nodes().contains_key(i), i != g.root, path_of(g, i).len() > 0, path_of(g, i).last().text() == g.inner.nodes()[i].package.called(),
        // a registry package whose name and version parse as a registry request, from a http(s) address
        g.inner.nodes()[i].package.res() is Npm, has_prefix(g.inner.nodes()[i].package.res()->tarball.disp(), "http"@),
        ({ let t = PackageSpec::of(g.inner.nodes()[i].package.called() + ("@"@ + g.inner.nodes()[i].package.res()->version.disp())); t is Ok ==> target_of(t->Ok_0) is Npm }),
        // LockfileNode::to_package
        stands_for(p, kept(node_said(g, i, false))),
    ensures
        p.called() == g.inner.nodes()[i].package.called(),
        p.res() is Npm, p.res()->version == g.inner.nodes()[i].package.res()->version, p.res()->tarball == g.inner.nodes()[i].package.res()->tarball, p.res()->integrity == g.inner.nodes()[i].package.res()->integrity,
{
    broadcast use url_text;
    let s = kept(node_said(g, i, false));
    assert(s.path.last() == path_of(g, i).last().text());
    assert(s.name == g.inner.nodes()[i].package.called());
}
} // verus!
fn main() {}
