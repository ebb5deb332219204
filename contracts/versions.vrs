// Unit: version selection and satisfaction (nassun resolver.rs, oro-package-spec lib.rs)
use vstd::prelude::*;
use std::sync::Arc;
verus! {
//@include strings.vrs
//@include case.vrs
//@include std.vrs

// ---- assumed contracts: node-semver, ssri, url, paths ------------------------------
#[verifier::external_body]
pub struct SemVerVersion { _p: () }
/// what semver equality and order look at (build metadata is not part of it)
#[verifier::external_body]
pub struct VKey { _p: () }
impl SemVerVersion { pub uninterp spec fn key(&self) -> VKey; }
/// semver precedence
pub uninterp spec fn vle(a: VKey, b: VKey) -> bool;
impl vstd::std_specs::cmp::PartialEqSpecImpl for SemVerVersion {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { self.key() == o.key() }
}
impl PartialEq for SemVerVersion {
    #[verifier::external_body]
    fn eq(&self, o: &Self) -> bool { unimplemented!() }
}
impl Clone for SemVerVersion {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
pub type Version = SemVerVersion;
#[verifier::external_body]
pub struct SemVerRange { _p: () }
pub type Range = SemVerRange;
/// npm's range containment
pub uninterp spec fn range_has(r: SemVerRange, v: VKey) -> bool;
/// the range `*`
pub uninterp spec fn any_range() -> SemVerRange;
impl SemVerRange {
    #[verifier::external_body]
    pub fn satisfies(&self, v: &SemVerVersion) -> (r: bool) ensures r == range_has(*self, v.key()) { unimplemented!() }
    #[verifier::external_body]
    pub fn any() -> (r: SemVerRange) ensures r == any_range() { unimplemented!() }
    #[verifier::external_body]
    pub fn parse(s: &str) -> (r: Result<SemVerRange, SemVerError>) ensures s@ == "*"@ ==> r is Ok && r->Ok_0 == star_range() { unimplemented!() }
}
/// what `*` parses to
pub uninterp spec fn star_range() -> SemVerRange;
impl vstd::std_specs::cmp::PartialEqSpecImpl for SemVerRange {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o }
}
impl PartialEq for SemVerRange {
    #[verifier::external_body]
    fn eq(&self, o: &Self) -> bool { unimplemented!() }
}
#[verifier::external_body]
pub struct SemVerError { _p: () }
impl std::fmt::Debug for SemVerError {
    #[verifier::external_body]
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() }
}
#[verifier::external_body]
pub struct GitInfo { _p: () }
impl Clone for GitInfo {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
#[verifier::external_body]
pub struct Url { _p: () }
impl Clone for Url {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
#[verifier::external_body]
pub struct SsriError { _p: () }
#[verifier::external_body]
pub struct Integrity { _p: () }
pub mod ssri { pub enum Algorithm { Sha512, Sha384, Sha256, Sha1, Xxh3 } }
pub uninterp spec fn sri_parse(s: Seq<char>) -> Result<Integrity, SsriError>;
pub uninterp spec fn sri_hex(s: Seq<char>, a: ssri::Algorithm) -> Result<Integrity, SsriError>;
impl Integrity {
    #[verifier::external_body]
    pub fn from_hex(s: &String, a: ssri::Algorithm) -> (r: Result<Integrity, SsriError>) ensures r == sri_hex(s@, a) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_parse_sri(s: &String) -> (r: Result<Integrity, SsriError>) ensures r == sri_parse(s@) { unimplemented!() }
pub uninterp spec fn version_of(s: Seq<char>) -> SemVerVersion;
#[verifier::external_body]
pub fn vx_parse_version(s: &str) -> (r: Result<SemVerVersion, SemVerError>) ensures s@ == "0.0.0"@ ==> r == Ok::<SemVerVersion, SemVerError>(version_of(s@)) { unimplemented!() }
#[verifier::external_body]
pub struct PathBuf { _p: () }
impl PartialEq for PathBuf {
    #[verifier::external_body]
    fn eq(&self, o: &Self) -> bool { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for PathBuf {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o }
}
/// the file system's canonical form of a path; None when it has none
pub uninterp spec fn canon(p: PathBuf) -> Option<PathBuf>;
pub uninterp spec fn joined(a: PathBuf, b: PathBuf) -> PathBuf;
#[verifier::external_body]
pub struct IoError { _p: () }
#[verifier::external_body]
pub struct Disp { _p: () }
impl VxDisp for Disp { uninterp spec fn disp(&self) -> Seq<char>; uninterp spec fn dbg(&self) -> Seq<char>; }
impl PathBuf {
    #[verifier::external_body]
    pub fn canonicalize(&self) -> (r: Result<PathBuf, IoError>) ensures r is Ok ==> canon(*self) == Some(r->Ok_0), r is Err ==> canon(*self) is None { unimplemented!() }
    #[verifier::external_body]
    pub fn join(&self, p: &PathBuf) -> (r: PathBuf) ensures r == joined(*self, *p) { unimplemented!() }
    #[verifier::external_body]
    pub fn display(&self) -> Disp { unimplemented!() }
}
pub trait IoContext<T>: Sized {
    spec fn val(self) -> Option<T>;
    fn io_context<F>(self, f: F) -> (r: Result<T, NassunError>)
        ensures r is Ok ==> self.val() == Some(r->Ok_0), r is Err ==> self.val() is None && r->Err_0 is IoError;
}
impl<T> IoContext<T> for Result<T, IoError> {
    open spec fn val(self) -> Option<T> { match self { Ok(t) => Some(t), Err(_) => None } }
    #[verifier::external_body]
    fn io_context<F>(self, f: F) -> (r: Result<T, NassunError>) { unimplemented!() }
}
// std's HashMap, looked up by what its key type's Eq/Hash look at
pub trait VxHK { type K; spec fn hk(&self) -> Self::K; }
impl VxHK for SemVerVersion { type K = VKey; open spec fn hk(&self) -> VKey { self.key() } }
impl VxHK for String { type K = Seq<char>; open spec fn hk(&self) -> Seq<char> { self@ } }
impl VxHK for str { type K = Seq<char>; open spec fn hk(&self) -> Seq<char> { self@ } }
impl<T: VxHK + ?Sized> VxHK for &T { type K = T::K; open spec fn hk(&self) -> T::K { (**self).hk() } }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct HashMap<K, V> { _k: std::marker::PhantomData<(K, V)> }
impl<K: VxHK, V> HashMap<K, V> {
    pub uninterp spec fn m(&self) -> Map<K::K, V>;
    #[verifier::external_body]
    pub fn get<Q: VxHK<K = K::K> + ?Sized>(&self, k: &Q) -> (r: Option<&V>)
        ensures r is Some <==> self.m().contains_key(k.hk()), r is Some ==> *r->0 == self.m()[k.hk()]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key<Q: VxHK<K = K::K> + ?Sized>(&self, k: &Q) -> (r: bool) ensures r == self.m().contains_key(k.hk()) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r <==> (forall|k: K::K| !self.m().contains_key(k)) { unimplemented!() }
    #[verifier::external_body]
    pub fn keys(&self) -> (r: VersionKeys<'_, K>)
        ensures
            forall|x: &K| #[trigger] r.has(x) ==> self.m().contains_key(x.hk()),
            forall|k: K::K| #[trigger] self.m().contains_key(k) ==> exists|x: &K| #[trigger] r.has(x) && x.hk() == k,
    { unimplemented!() }
}
/// an iterator over borrowed versions, seen as the set it yields
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct VersionKeys<'a, K> { _p: std::marker::PhantomData<&'a K> }
impl<'a, K> VersionKeys<'a, K> {
    pub uninterp spec fn has(&self, x: &'a K) -> bool;
    #[verifier::external_body]
    pub fn filter<F: Fn(&&'a K) -> bool>(self, f: F) -> (r: VersionKeys<'a, K>)
        requires forall|x: &'a K| self.has(x) ==> #[trigger] f.requires((&x,)),
        ensures forall|x: &'a K| #[trigger] r.has(x) ==> self.has(x) && f.ensures((&x,), true),
            forall|x: &'a K| #[trigger] self.has(x) ==> r.has(x) || f.ensures((&x,), false),
    { unimplemented!() }
}
impl<'a> VersionKeys<'a, SemVerVersion> {
    #[verifier::external_body]
    pub fn max(self) -> (r: Option<&'a SemVerVersion>)
        ensures r is Some ==> self.has(r->0) && forall|x: &'a SemVerVersion| #[trigger] self.has(x) ==> vle(x.key(), r->0.key()),
            r is None ==> forall|x: &'a SemVerVersion| !(#[trigger] self.has(x)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn min(self) -> (r: Option<&'a SemVerVersion>)
        ensures r is Some ==> self.has(r->0) && forall|x: &'a SemVerVersion| #[trigger] self.has(x) ==> vle(r->0.key(), x.key()),
            r is None ==> forall|x: &'a SemVerVersion| !(#[trigger] self.has(x)),
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_key_strings<V>(m: &HashMap<SemVerVersion, V>) -> Vec<String> { unimplemented!() }
#[verifier::external_body]
pub fn vx_into_string(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }

pub type Result<T, E = NassunError> = core::result::Result<T, E>;
pub enum NassunError {
    NoVersion { name: String, spec: PackageSpec, versions: Vec<String> },
    InvalidPackageSpec(PackageSpec),
    NoTarball(String, PackageSpec, Box<CorgiVersionMetadata>),
    IoError,
    SemverParseError(SemVerError),
    IntegrityError(SsriError),
}
impl vstd::std_specs::convert::FromSpecImpl<SsriError> for NassunError {
    open spec fn obeys_from_spec() -> bool { true }
    open spec fn from_spec(e: SsriError) -> Self { NassunError::IntegrityError(e) }
}
impl From<SsriError> for NassunError {
    fn from(e: SsriError) -> (r: Self) ensures r == NassunError::IntegrityError(e) { NassunError::IntegrityError(e) }
}

// ---- the repository's own types ------------------------------
//@item crates/oro-package-spec/src/lib.rs VersionSpec
//@end
//@item crates/oro-package-spec/src/lib.rs PackageSpec
//@end
impl Clone for PackageSpec {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
//@item crates/nassun/src/resolver.rs PackageResolution
//@end
//@item crates/nassun/src/resolver.rs PackageResolver
//@end
//@item crates/oro-common/src/packument.rs CorgiPackument
//@end
#[verifier::external_body]
pub struct DeprecationInfo { _p: () }
//@item crates/oro-common/src/packument.rs CorgiDist
//@end
// what get_resolution reads of the manifest
pub struct CorgiManifest { pub version: Option<SemVerVersion> }
//@item crates/oro-common/src/packument.rs CorgiVersionMetadata
//@end
impl Clone for CorgiVersionMetadata {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}

// ---- what the properties say ------------------------------
/// an alias stands for what it points at
pub open spec fn target_of(s: PackageSpec) -> PackageSpec decreases s {
    match s { PackageSpec::Alias { name, spec } => target_of(*spec), _ => s }
}
/// C06
pub open spec fn sat(r: PackageResolution, s: PackageSpec) -> bool {
    match (r, target_of(s)) {
        (PackageResolution::Npm { name, version, tarball, integrity }, PackageSpec::Npm { scope, name: n, requested }) => match requested {
            Some(VersionSpec::Version(v)) => version.key() == v.key(),
            Some(VersionSpec::Range(g)) => range_has(g, version.key()),
            _ => false,
        },
        (PackageResolution::Dir { name, path }, PackageSpec::Dir { path: p }) => canon(p) == Some(path),
        _ => false,
    }
}
pub open spec fn tagged(pk: CorgiPackument, t: Seq<char>, k: VKey) -> bool {
    pk.tags.m().contains_key(t) && pk.tags.m()[t].key() == k && pk.versions.m().contains_key(k)
}
/// C05: version `k` of the packument is what the request stands for
pub open spec fn pick(pk: CorgiPackument, requested: Option<VersionSpec>, default_tag: Seq<char>, k: VKey) -> bool {
    &&& pk.versions.m().contains_key(k)
    &&& match requested {
        Some(VersionSpec::Version(v)) => k == v.key(),
        Some(VersionSpec::Tag(t)) => tagged(pk, t@, k),
        None => tagged(pk, default_tag, k),
        Some(VersionSpec::Range(r)) => {
            if exists|d: VKey| tagged(pk, default_tag, d) && range_has(r, d) { tagged(pk, default_tag, k) }
            else if exists|s: VKey| #[trigger] pk.versions.m().contains_key(s) && range_has(r, s) {
                range_has(r, k) && forall|s: VKey| #[trigger] pk.versions.m().contains_key(s) && range_has(r, s) ==> vle(s, k)
            } else { (r == any_range() || r == star_range()) && tagged(pk, default_tag, k) }
        }
    }
}
pub open spec fn recorded_integrity(d: CorgiDist) -> Result<Option<Integrity>, SsriError> {
    match d.integrity {
        Some(s) => match sri_parse(s@) { Ok(i) => Ok(Some(i)), Err(e) => Err(e) },
        None => match d.shasum { Some(s) => match sri_hex(s@, ssri::Algorithm::Sha1) { Ok(i) => Ok(Some(i)), Err(e) => Err(e) }, None => Ok(None) },
    }
}
pub open spec fn resolution_of(r: PackageResolution, nm: Seq<char>, v: CorgiVersionMetadata) -> bool {
    match r {
        PackageResolution::Npm { name, version, tarball, integrity } =>
            name@ == nm && version == (match v.manifest.version { Some(x) => x, None => version_of("0.0.0"@) })
            && Some(tarball) == v.dist.tarball && recorded_integrity(v.dist) == Ok::<Option<Integrity>, SsriError>(integrity),
        _ => false,
    }
}
pub open spec fn resolves(res: PackageResolver, nm: Seq<char>, wanted: PackageSpec, pk: CorgiPackument, ret: Result<PackageResolution, NassunError>) -> bool {
    match target_of(wanted) {
        PackageSpec::Dir { path } => match ret {
            Ok(PackageResolution::Dir { name, path: p }) => name@ == nm && canon(joined(res.base_dir, path)) == Some(p),
            Ok(_) => false,
            Err(e) => canon(joined(res.base_dir, path)) is None,
        },
        PackageSpec::Git(info) => match ret { Ok(PackageResolution::Git { name, info: i }) => name@ == nm && i == info, _ => false },
        PackageSpec::Npm { scope, name, requested } => match ret {
            Ok(r) => exists|k: VKey| pick(pk, requested, res.default_tag@, k) && resolution_of(r, nm, pk.versions.m()[k]),
            // it fails only if there is nothing to pick, or what is picked has no usable tarball or checksum
            Err(e) => forall|k: VKey| pick(pk, requested, res.default_tag@, k) ==>
                exists|k2: VKey| pick(pk, requested, res.default_tag@, k2)
                    && (pk.versions.m()[k2].dist.tarball is None || recorded_integrity(pk.versions.m()[k2].dist) is Err),
        },
        PackageSpec::Alias { .. } => true,
    }
}
pub proof fn lemma_target(s: PackageSpec) ensures !(target_of(s) is Alias) decreases s
{
    if let PackageSpec::Alias { name, spec } = s { lemma_target(*spec); }
}

// what is fetched, and by what
#[verifier::external_body]
pub struct Fetcher { _p: () }
/// the packument a fetcher hands over for a request: unit `registry` for the registry's, the file system's otherwise
pub uninterp spec fn fetched(f: Fetcher, s: PackageSpec, base: PathBuf, pk: CorgiPackument) -> bool;
pub uninterp spec fn unfetched(f: Fetcher, s: PackageSpec, base: PathBuf) -> bool;
/// the name a fetcher reads off a request
pub uninterp spec fn named(f: Fetcher, s: PackageSpec, base: PathBuf, n: Seq<char>) -> bool;
impl Clone for Fetcher {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl Fetcher {
    #[verifier::external_body]
    pub fn corgi_packument(&self, s: &PackageSpec, base: &PathBuf) -> (r: Result<Arc<CorgiPackument>, NassunError>)
        ensures r is Ok ==> fetched(*self, *s, *base, *r->Ok_0), r is Err ==> unfetched(*self, *s, *base) { unimplemented!() }
    #[verifier::external_body]
    pub fn name(&self, s: &PackageSpec, base: &PathBuf) -> (r: Result<String, NassunError>)
        ensures r is Ok ==> named(*self, *s, *base, r->Ok_0@) { unimplemented!() }
}
#[verifier::external_body]
pub struct CachePath { _p: () }
impl Clone for CachePath {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl Clone for PathBuf {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
//@item crates/nassun/src/package.rs Package
//@subst Arc<dyn PackageFetcher> =>> Fetcher
//@subst Arc<Option<PathBuf>> =>> CachePath
//@end
//@item crates/nassun/src/client.rs Nassun
//@subst Arc<dyn PackageFetcher> =>> Fetcher
//@subst Arc<Option<PathBuf>> =>> CachePath
//@end
impl Package {
    pub open spec fn is(&self, name: String, from: PackageSpec, resolved: PackageResolution, fetcher: Fetcher, cache: CachePath, base: PathBuf) -> bool {
        self.name == name && self.from == from && self.resolved == resolved && self.fetcher == fetcher && self.cache == cache && self.base_dir == base
    }
}
/// a package handed out for a request is one the packument fetched for that very request offers
pub open spec fn resolved_by(res: PackageResolver, name: String, wanted: PackageSpec, f: Fetcher, cache: CachePath, p: Package) -> bool {
    p.is(name, wanted, p.resolved, f, cache, res.base_dir)
    && exists|pk: CorgiPackument| fetched(f, wanted, res.base_dir, pk)
        && resolves(res, name@, wanted, pk, Ok::<PackageResolution, NassunError>(p.resolved))
}

// ---- the code ------------------------------
impl PackageSpec {
//@fn crates/oro-package-spec/src/lib.rs PackageSpec::is_alias
    ensures ret == (*self is Alias)
//@end
//@fn crates/oro-package-spec/src/lib.rs PackageSpec::is_npm
    ensures ret == (target_of(*self) is Npm)
    decreases *self,
//@end
//@fn crates/oro-package-spec/src/lib.rs PackageSpec::target
    ensures *ret == target_of(*self)
    decreases *self,
//@end
}
impl PackageResolution {
//@fn crates/nassun/src/resolver.rs PackageResolution::integrity
    ensures
        self is Npm ==> (ret is Some <==> self->integrity is Some) && (ret is Some ==> *ret->0 == self->integrity->0),
        !(self is Npm) ==> ret is None,
//@end
//@fn crates/nassun/src/resolver.rs PackageResolution::satisfies
    ensures
        ret is Ok ==> ret->Ok_0 == sat(*self, *spec),
        ret is Err ==> !sat(*self, *spec) && target_of(*spec) is Dir,
//@end
//@fn crates/nassun/src/resolver.rs PackageResolution::npm_version
    ensures self is Npm ==> ret == Some(self->version), !(self is Npm) ==> ret is None,
//@end
}
//@fn crates/nassun/src/resolver.rs max_satisfying
    ensures
        ret is Some ==> versions.has(ret->0) && range_has(*range, ret->0.key())
            && forall|x: &SemVerVersion| #[trigger] versions.has(x) && range_has(*range, x.key()) ==> vle(x.key(), ret->0.key()),
        ret is None ==> forall|x: &SemVerVersion| #[trigger] versions.has(x) ==> !range_has(*range, x.key()),
//@sig pub fn max_satisfying<'a>(versions: VersionKeys<'a, SemVerVersion>, range: &SemVerRange) -> (ret: Option<&'a SemVerVersion>)
//@closure 0 (&&SemVerVersion) -> (b: bool)
    ensures b == range_has(*range, (**$0).key())
//@end
impl PackageResolver {
//@fn crates/nassun/src/resolver.rs PackageResolver::get_resolution
    ensures resolves(*self, name@, *wanted, **packument, ret)
//@subst? packument.versions.keys().map(|k| k.to_string()).collect() =>> vx_key_strings(&packument.versions)
//@subst? i.parse() =>> vx_parse_sri(i)
//@subst? "0.0.0".parse() =>> vx_parse_version("0.0.0")
//@subst name.into() =>> vx_into_string(name)
//@closure 1 (&SemVerVersion) -> (r: Option<&CorgiVersionMetadata>)
    ensures r is Some <==> packument.versions.m().contains_key($0.key()), r is Some ==> *r->0 == packument.versions.m()[$0.key()]
//@closure 3 (&CorgiVersionMetadata) -> (r: Result<PackageResolution, NassunError>)
    ensures match r { Ok(x) => resolution_of(x, name@, *$0), Err(_) => $0.dist.tarball is None || recorded_integrity($0.dist) is Err }
//@closure 4 () -> (r: SemVerVersion)
    ensures r == version_of("0.0.0"@)
//@closure 5 (&String) -> (r: Result<Integrity, SsriError>)
    ensures r == sri_parse($0@)
//@closure 6 () -> (r: Option<Result<Integrity, SsriError>>)
    ensures r == (match v.dist.shasum { Some(h) => Some(sri_hex(h@, ssri::Algorithm::Sha1)), None => None })
//@closure 7 (&String) -> (r: Result<Integrity, SsriError>)
    ensures r == sri_hex($0@, ssri::Algorithm::Sha1)
//@at body_start
    proof { lemma_target(*wanted); }
//@at before target.and_then
    proof {
        let pk = **packument;
        let req = spec->requested;
        let dt = self.default_tag@;
        assert(spec is Npm && *spec == target_of(*wanted));
        assert forall|k: VKey| pick(pk, req, dt, k) implies target is Some && target->0.key() == k || (req matches Some(VersionSpec::Range(r))) by { }
        assert(target is Some && pk.versions.m().contains_key(target->0.key()) ==> pick(pk, req, dt, target->0.key()));
        assert(target is None ==> forall|k: VKey| !pick(pk, req, dt, k));
    }
//@end
//@fn crates/nassun/src/resolver.rs PackageResolver::resolve_from
    ensures ret.is(name, from, resolved, fetcher, cache, self.base_dir)
//@sig pub fn resolve_from(&self, name: String, from: PackageSpec, resolved: PackageResolution, fetcher: Fetcher, cache: CachePath) -> (ret: Package)
//@end
//@fn crates/nassun/src/resolver.rs PackageResolver::resolve
    ensures
        ret is Ok ==> resolved_by(*self, name, wanted, fetcher, cache, ret->Ok_0),
        // and a request is only refused if its packument cannot be had, or offers nothing for it
        ret is Err ==> unfetched(fetcher, wanted, self.base_dir) || exists|pk: CorgiPackument| fetched(fetcher, wanted, self.base_dir, pk)
            && resolves(*self, name@, wanted, pk, Err::<PackageResolution, NassunError>(ret->Err_0)),
//@sig pub fn resolve(&self, name: String, wanted: PackageSpec, fetcher: Fetcher, cache: CachePath) -> (ret: Result<Package, NassunError>)
//@end
}
// ---- the client's own functions ------------------------------
impl Nassun {
    /// what fetches a request: an alias, what it points at
    pub open spec fn fetcher_of(&self, s: PackageSpec) -> Fetcher {
        match target_of(s) {
            PackageSpec::Dir { .. } => self.dir_fetcher,
            PackageSpec::Git(_) => self.git_fetcher,
            _ => self.npm_fetcher,
        }
    }
//@fn crates/nassun/src/client.rs Nassun::pick_fetcher
    ensures ret == self.fetcher_of(*arg)
    decreases *arg,
//@sig fn pick_fetcher(&self, arg: &PackageSpec) -> (ret: Fetcher)
//@end
//@fn crates/nassun/src/client.rs Nassun::resolve_spec
    ensures ret is Ok ==> named(self.fetcher_of(spec), spec, self.resolver.base_dir, ret->Ok_0.name@)
        && resolved_by(self.resolver, ret->Ok_0.name, spec, self.fetcher_of(spec), self.cache, ret->Ok_0)
//@end
//@fn crates/nassun/src/client.rs Nassun::resolve_from
    ensures ret.is(name, from, resolved, self.fetcher_of(from), self.cache, self.resolver.base_dir)
//@end
}
}
fn main() {}
