// Unit: the registry a package is asked of (nassun fetch/npm.rs, client.rs; oro-client api/packument.rs; src/nassun_args.rs)
use vstd::prelude::*;
use std::sync::Arc;
verus! {
//@include strings.vrs
//@include case.vrs
//@include text.vrs
//@method split_once => vx_split_once
//@method strip_suffix => vx_strip_suffix
//@include iter.vrs
//@include hashmap.vrs
//@include std.vrs
//@include url.vrs
//@method trim_end_matches => vx_trim_end_matches
//@method trim_start_matches => vx_trim_start_matches
//@method starts_with => vx_starts_with
//@method ends_with => vx_ends_with
//@method strip_prefix => vx_strip_prefix
//@method as_ref => vx_as_ref
/// what is taken as a `&str`
pub trait VxAsRef { spec fn av(&self) -> Seq<char>; fn vx_as_ref(&self) -> (r: &str) ensures r@ == self.av(); }
impl VxAsRef for String { open spec fn av(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_as_ref(&self) -> (r: &str) { unimplemented!() } }
impl VxAsRef for str { open spec fn av(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_as_ref(&self) -> (r: &str) { unimplemented!() } }
impl<T: VxAsRef + ?Sized> VxAsRef for &T { open spec fn av(&self) -> Seq<char> { (**self).av() } #[verifier::external_body] fn vx_as_ref(&self) -> (r: &str) { unimplemented!() } }

// ---- assumed contracts: url, joined ------------------------------
/// names the spec parser accepts: one or two segments of url-safe characters, none of them `.` or `..`
pub uninterp spec fn plain(name: Seq<char>) -> bool;
pub uninterp spec fn joined(base: Url, s: Seq<char>) -> Result<Url, UrlError>;
pub open spec fn same_server(a: Url, b: Url) -> bool { a.host() == b.host() && a.explicit_port() == b.explicit_port() && a.real_port() == b.real_port() && a.scheme() == b.scheme() }
/// a relative reference replaces what follows the base's last `/`
pub broadcast axiom fn join_plain(base: Url, s: Seq<char>)
    requires plain(s), has_suffix(base.p(), seq!['/']), joined(base, s) is Ok
    ensures same_server((#[trigger] joined(base, s))->Ok_0, base), joined(base, s)->Ok_0.p() == base.p() + s;
impl Url {
    pub uninterp spec fn scheme(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn join(&self, s: &str) -> (r: Result<Url, UrlError>) ensures r == joined(*self, s@) { unimplemented!() }
    /// (what a url's own path looks like is left as it is)
    #[verifier::external_body]
    pub fn set_path(&mut self, p: &str)
        ensures same_server(*final(self), *old(self)), p@ == old(self).p() + "/"@ ==> final(self).p() == p@ { unimplemented!() }
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String) { unimplemented!() }
}
pub type ParseError = UrlError;
pub mod url { pub use super::ParseError; }

// ---- assumed contracts: reqwest, serde ------------------------------
#[verifier::external_body]
pub struct ClientWithMiddleware { _p: () }
impl Clone for ClientWithMiddleware {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
#[verifier::external_body]
pub struct ReqError { _p: () }
#[verifier::external_body]
pub struct RequestBuilder { _p: () }
#[verifier::external_body]
pub struct Response { _p: () }
/// this text answered a request of that url
pub uninterp spec fn answered(text: Seq<char>, u: Url) -> bool;
impl ClientWithMiddleware {
    #[verifier::external_body]
    pub fn get(&self, u: Url) -> (r: RequestBuilder) ensures r.url() == u { unimplemented!() }
}
impl RequestBuilder {
    pub uninterp spec fn url(&self) -> Url;
    #[verifier::external_body]
    pub fn header<V>(self, k: &str, v: V) -> (r: RequestBuilder) ensures r.url() == self.url() { unimplemented!() }
    #[verifier::external_body]
    pub fn send(self) -> (r: Result<Response, OroClientError>) ensures r is Ok ==> r->Ok_0.url() == self.url() { unimplemented!() }
}
impl Response {
    pub uninterp spec fn url(&self) -> Url;
    /// the answer, or the error its status stands for
    #[verifier::external_body]
    pub fn error_for_status(self) -> (r: Result<Response, ReqError>) ensures r is Ok ==> r->Ok_0.url() == self.url() { unimplemented!() }
    #[verifier::external_body]
    pub fn text(self) -> (r: Result<String, OroClientError>) ensures r is Ok ==> answered(r->Ok_0@, self.url()) { unimplemented!() }
}
#[derive(PartialEq, Eq, Structural)]
#[allow(non_camel_case_types)]
pub enum StatusCode { NOT_FOUND, Other }
impl ReqError {
    #[verifier::external_body]
    pub fn status(&self) -> Option<StatusCode> { unimplemented!() }
}
pub enum OroClientError { PackageNotFound(Url, String), RequestError(ReqError), Other }
impl OroClientError {
    #[verifier::external_body]
    pub fn from_json_err(e: JsonError, u: String, text: String) -> Self { unimplemented!() }
}
impl From<UrlError> for OroClientError {
    #[verifier::external_body]
    fn from(e: UrlError) -> Self { unimplemented!() }
}
#[verifier::external_body]
pub struct JsonError { _p: () }
/// a document that came from a registry
pub trait VxDoc { spec fn from_url(&self, u: Url) -> bool; }
#[verifier::external_body]
pub fn vx_json<T: VxDoc>(s: &String) -> (r: Result<T, JsonError>) ensures r is Ok ==> forall|u: Url| #[trigger] answered(s@, u) ==> r->Ok_0.from_url(u) { unimplemented!() }
#[verifier::external_body]
pub struct VersionMetadata { _p: () }
#[verifier::external_body]
pub struct CorgiVersionMetadata { _p: () }
impl Clone for VersionMetadata {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl Clone for CorgiVersionMetadata {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
#[verifier::external_body]
pub struct OtherFields { _p: () }
#[verifier::external_body]
pub struct SemVerVersion { _p: () }
pub type Version = SemVerVersion;
impl Clone for SemVerVersion {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
/// what node_semver compares of a version
#[verifier::external_body]
pub struct VerKey { _p: () }
impl VxHK for SemVerVersion { type K = VerKey; uninterp spec fn hk(&self) -> VerKey; }
pub const CORGI_HEADER: &'static str = "";
/// a packument: its versions (the other fields play no part here)
pub struct Packument { pub versions: HashMap<Version, VersionMetadata>, pub other: OtherFields }
pub struct CorgiPackument { pub versions: HashMap<Version, CorgiVersionMetadata>, pub other: OtherFields }
impl VxDoc for Packument { uninterp spec fn from_url(&self, u: Url) -> bool; }
impl VxDoc for CorgiPackument { uninterp spec fn from_url(&self, u: Url) -> bool; }

//@item crates/oro-client/src/client.rs OroClient
//@end
impl Clone for OroClient {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}

// ---- what the property says ------------------------------
/// the document `name` of the registry: below its path, on its server
pub open spec fn doc_of(u: Url, reg: Url, name: Seq<char>) -> bool {
    &&& same_server(u, reg)
    &&& u.p() == (if has_suffix(reg.p(), seq!['/']) { reg.p() } else { reg.p() + "/"@ }) + name
}
pub open spec fn from_registry<T: VxDoc>(d: T, reg: Url, name: Seq<char>) -> bool {
    exists|u: Url| #[trigger] d.from_url(u) && doc_of(u, reg, name)
}

// ---- the code: oro-client ------------------------------
impl OroClient {
//@fn crates/oro-client/src/client.rs OroClient::with_registry
    ensures *ret.registry == registry, ret.client == self.client, ret.client_uncached == self.client_uncached
//@end
//@fn crates/oro-client/src/client.rs OroClient::endpoint
    ensures ret is Ok ==> plain(path@) ==> doc_of(ret->Ok_0, *self.registry, path@)
//@at body_start
    broadcast use text_facts, join_plain;
    proof { reveal_strlit("/"); assert("/"@ =~= seq!['/']); }
//@end
//@fn crates/oro-client/src/api/packument.rs OroClient::packument
    requires plain(package_name.av())
    ensures ret is Ok ==> from_registry(ret->Ok_0, *self.registry, package_name.av())
//@subst impl AsRef<str> =>> impl VxAsRef
//@subst? serde_json::from_str =>> vx_json
//@closure 0 (JsonError) -> (r: OroClientError)
//@end
//@fn crates/oro-client/src/api/packument.rs OroClient::corgi_packument
    requires plain(package_name.av())
    ensures ret is Ok ==> from_registry(ret->Ok_0, *self.registry, package_name.av())
//@subst impl AsRef<str> =>> impl VxAsRef
//@subst? serde_json::from_str =>> vx_json
//@closure 0 (JsonError) -> (r: OroClientError)
//@end
//@fn crates/oro-client/src/api/packument.rs OroClient::packument_impl
    ensures ret is Ok ==> answered(ret->Ok_0@, *url)
//@subst impl AsRef<str> =>> impl VxAsRef
//@closure 0 (ReqError) -> (r: OroClientError)
//@end
}

// ---- the code: nassun ------------------------------
#[verifier::external_body]
pub struct SemVerRange { _p: () }
pub type Range = SemVerRange;
#[verifier::external_body]
pub struct GitInfo { _p: () }
#[verifier::external_body]
pub struct Integrity { _p: () }
#[verifier::external_body]
pub struct PathBuf { _p: () }
#[verifier::external_body]
pub struct Path { _p: () }
impl Path {
    #[verifier::external_body]
    pub fn new(s: &str) -> &'static Path { unimplemented!() }
}
//@item crates/oro-package-spec/src/lib.rs VersionSpec
//@end
//@item crates/oro-package-spec/src/lib.rs PackageSpec
//@end
//@item crates/nassun/src/resolver.rs PackageResolution
//@end
impl Clone for PackageSpec {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
pub open spec fn target_of(s: PackageSpec) -> PackageSpec decreases s {
    match s { PackageSpec::Alias { name, spec } => target_of(*spec), _ => s }
}
/// a registry package as the spec parser makes one: the scope is the name's own, and the name is plain
pub open spec fn npm_ok(s: PackageSpec) -> bool {
    s is Npm && plain(s->Npm_name@) && scope_key(s->scope) == scope_in(s->Npm_name@)
}
/// `@scope/name`
pub open spec fn scope_in(name: Seq<char>) -> Option<Seq<char>> {
    if has_prefix(name, seq!['@']) && exists|i: int| first_at(name, seq!['/'], i) {
        let i = choose|i: int| first_at(name, seq!['/'], i);
        Some(name.subrange(1, i))
    } else { None }
}
impl PackageSpec {
//@fn crates/oro-package-spec/src/lib.rs PackageSpec::is_alias
    ensures ret == (*self is Alias)
//@end
//@fn crates/oro-package-spec/src/lib.rs PackageSpec::target
    ensures *ret == target_of(*self)
    decreases *self,
//@end
}
/// a package: what it was asked for as, and what that resolved to
#[verifier::external_body]
pub struct Package { _p: () }
impl Package {
    pub uninterp spec fn spec(&self) -> PackageSpec;
    pub uninterp spec fn resolution(&self) -> PackageResolution;
    #[verifier::external_body]
    pub fn from(&self) -> (r: &PackageSpec) ensures *r == self.spec() { unimplemented!() }
    #[verifier::external_body]
    pub fn resolved(&self) -> (r: &PackageResolution) ensures *r == self.resolution() { unimplemented!() }
}
#[verifier::external_body]
pub struct TarballStream { _p: () }
impl TarballStream {
    /// the registry the request was made for, and the url asked
    pub uninterp spec fn asked(&self) -> (Url, Url);
}
pub enum NassunError { MissingVersion(PackageSpec, SemVerVersion), Other }
impl From<OroClientError> for NassunError {
    #[verifier::external_body]
    fn from(e: OroClientError) -> Self { unimplemented!() }
}
impl OroClient {
    /// reqwest's response stream: not extracted, executed by the harness
    #[verifier::external_body]
    pub fn stream_external(&self, url: &Url) -> (r: Result<TarballStream, OroClientError>)
        ensures r is Ok ==> r->Ok_0.asked() == (*self.registry, *url) { unimplemented!() }
}
// dashmap's concurrent map: whatever is in it was put there by `insert`
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct DashMap<K, V> { _k: std::marker::PhantomData<(K, V)> }
#[verifier::external_body]
#[verifier::reject_recursive_types(V)]
pub struct DashRef<V> { _k: std::marker::PhantomData<V> }
impl<V> DashRef<V> {
    pub uninterp spec fn v(&self) -> V;
    #[verifier::external_body]
    pub fn value(&self) -> (r: &V) ensures *r == self.v() { unimplemented!() }
}
impl<K: VxHK, V> DashMap<K, V> {
    #[verifier::external_body]
    pub fn new() -> Self { unimplemented!() }
    /// what may be put there under a key
    pub uninterp spec fn may(&self, k: K::K, v: V) -> bool;
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<DashRef<V>>) ensures r is Some ==> self.may(k.hk(), r->0.v()) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&self, k: K, v: V) -> (r: Option<V>) requires self.may(k.hk(), v) { unimplemented!() }
}
//@item crates/nassun/src/fetch/npm.rs NpmFetcher
//@end
pub open spec fn scope_key(s: Option<String>) -> Option<Seq<char>> { match s { Some(s) => Some(s@), None => None } }
/// the scope's registry, or else the default one, or else npm's
pub open spec fn registry_for(regs: Map<Option<Seq<char>>, Url>, scope: Option<Seq<char>>) -> Url {
    if regs.contains_key(scope) { regs[scope] }
    else if regs.contains_key(None) { regs[None] }
    else { url_of("https://registry.npmjs.org/"@)->Ok_0 }
}
pub open spec fn right_doc<T: VxDoc>(f: NpmFetcher, d: T, name: Seq<char>) -> bool {
    from_registry(d, registry_for(f.registries.m(), scope_in(name)), name)
}
#[verifier::external_body]
fn vx_parse_url(s: &str) -> (r: Result<Url, UrlError>) ensures r == url_of(s@), s@ == "https://registry.npmjs.org/"@ ==> r is Ok { unimplemented!() }
#[verifier::external_body]
fn vx_text(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
fn vx_cwd() -> PathBuf { unimplemented!() }
impl NpmFetcher {
    /// what the memo may hold under a name: the document of that name at that name's registry
    pub open spec fn wf(&self) -> bool {
        &&& forall|k: Seq<char>, v: Arc<Packument>| #[trigger] self.packuments.may(k, v) <==> right_doc(*self, *v, k)
        &&& forall|k: Seq<char>, v: Arc<CorgiPackument>| #[trigger] self.corgi_packuments.may(k, v) <==> right_doc(*self, *v, k)
    }
//@fn crates/nassun/src/fetch/npm.rs NpmFetcher::new
    ensures ret.registries == registries, ret.client == client
//@end
//@fn crates/nassun/src/fetch/npm.rs NpmFetcher::_name
    requires spec is Npm || spec is Alias
    ensures ret@ == (match *spec { PackageSpec::Npm { name, .. } => name@, PackageSpec::Alias { name, .. } => name@, _ => Seq::empty() })
//@end
//@fn crates/nassun/src/fetch/npm.rs PackageFetcher@NpmFetcher::name
    requires spec is Npm || spec is Alias
    ensures ret is Ok ==> ret->Ok_0@ == (match *spec { PackageSpec::Npm { name, .. } => name@, PackageSpec::Alias { name, .. } => name@, _ => Seq::empty() })
//@subst Result<String> =>> Result<String, NassunError>
//@end
//@fn crates/nassun/src/fetch/npm.rs NpmFetcher::pick_registry
    ensures ret == registry_for(self.registries.m(), scope_key(*scope))
//@subst? "https://registry.npmjs.org/".parse() =>> vx_parse_url("https://registry.npmjs.org/")
//@closure 0 () -> (r: Option<&Url>)
    ensures r is Some <==> self.registries.m().contains_key(None), r is Some ==> *r->0 == self.registries.m()[None]
//@closure 1 () -> (r: Url)
    ensures r == url_of("https://registry.npmjs.org/"@)->Ok_0
//@end
//@fn crates/nassun/src/fetch/npm.rs PackageFetcher@NpmFetcher::corgi_packument
    requires self.wf(), npm_ok(target_of(*spec))
    ensures ret is Ok ==> right_doc(*self, *ret->Ok_0, target_of(*spec)->Npm_name@)
//@subst Result<Arc<CorgiPackument>> =>> Result<Arc<CorgiPackument>, NassunError>
//@end
//@fn crates/nassun/src/fetch/npm.rs PackageFetcher@NpmFetcher::packument
    requires self.wf(), npm_ok(target_of(*spec)), spec is Alias ==> !(*(spec->Alias_spec) is Alias)
    ensures ret is Ok ==> right_doc(*self, *ret->Ok_0, target_of(*spec)->Npm_name@)
//@subst Result<Arc<Packument>> =>> Result<Arc<Packument>, NassunError>
//@at body_start
    proof { if spec is Alias { assert(target_of(*spec) == target_of(*(spec->Alias_spec))); } }
//@end
//@fn crates/nassun/src/fetch/npm.rs PackageFetcher@NpmFetcher::metadata
    requires self.wf(), npm_ok(target_of(pkg.spec())), pkg.spec() is Alias ==> !(*(pkg.spec()->Alias_spec) is Alias), pkg.resolution() is Npm
    ensures ret is Ok ==> exists|d: Packument| right_doc(*self, d, target_of(pkg.spec())->Npm_name@)
        && d.versions.m().contains_key(pkg.resolution()->version.hk()) && #[trigger] d.versions.m()[pkg.resolution()->version.hk()] == ret->Ok_0
//@subst Result<VersionMetadata> =>> Result<VersionMetadata, NassunError>
//@closure 0 () -> (r: NassunError)
//@end
//@fn crates/nassun/src/fetch/npm.rs PackageFetcher@NpmFetcher::corgi_metadata
    requires self.wf(), npm_ok(target_of(pkg.spec())), pkg.resolution() is Npm
    ensures ret is Ok ==> exists|d: CorgiPackument| right_doc(*self, d, target_of(pkg.spec())->Npm_name@)
        && d.versions.m().contains_key(pkg.resolution()->version.hk()) && #[trigger] d.versions.m()[pkg.resolution()->version.hk()] == ret->Ok_0
//@subst Result<CorgiVersionMetadata> =>> Result<CorgiVersionMetadata, NassunError>
//@closure 0 () -> (r: NassunError)
//@end
//@fn crates/nassun/src/fetch/npm.rs PackageFetcher@NpmFetcher::tarball
    requires pkg.resolution() is Npm
    ensures ret is Ok ==> target_of(pkg.spec()) is Npm ==>
        ret->Ok_0.asked() == (registry_for(self.registries.m(), scope_key(target_of(pkg.spec())->scope)), pkg.resolution()->tarball)
//@subst Result<crate::TarballStream> =>> Result<TarballStream, NassunError>
//@end
}

// ---- the code: how the registries are configured ------------------------------
impl PathBuf {
    #[verifier::external_body]
    pub fn vx_as_ref(&self) -> PathBuf { unimplemented!() }
    #[verifier::external_body]
    pub fn from(p: PathBuf) -> PathBuf { unimplemented!() }
}
impl Clone for PathBuf {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
#[verifier::external_body]
pub struct OroClientBuilder { _p: () }
impl OroClientBuilder {
    #[verifier::external_body]
    pub fn registry(self, u: Url) -> (r: Self) { unimplemented!() }
    #[verifier::external_body]
    pub fn cache(self, u: PathBuf) -> (r: Self) { unimplemented!() }
    #[verifier::external_body]
    pub fn build(self) -> (r: OroClient) { unimplemented!() }
    #[verifier::external_body]
    pub fn new() -> (r: Self) { unimplemented!() }
}
//@item crates/nassun/src/client.rs NassunOpts
//@end
//@item crates/nassun/src/resolver.rs PackageResolver
//@end
pub struct DirFetcher;
impl DirFetcher { pub fn new() -> Self { DirFetcher } }
#[verifier::external_body]
pub struct GitFetcher { _p: () }
impl GitFetcher {
    #[verifier::external_body]
    pub fn new(c: OroClient) -> Self { unimplemented!() }
}
pub enum Fetcher { Npm(NpmFetcher), Dir(DirFetcher), Git(GitFetcher) }
//@item crates/nassun/src/client.rs Nassun
//@subst Arc<dyn PackageFetcher> =>> Fetcher
//@end
impl Nassun {
    pub open spec fn registries(&self) -> Map<Option<Seq<char>>, Url> { self.npm_fetcher->Npm_0.registries.m() }
}
pub open spec fn bare(scope: Seq<char>) -> Seq<char> { if has_prefix(scope, seq!['@']) { scope.subrange(1, scope.len() as int) } else { scope } }
/// the default registry, and after it each scope's: of two for the same scope, the last one
pub open spec fn configured(default: Url, scoped: Seq<(String, Url)>) -> Map<Option<Seq<char>>, Url> decreases scoped.len() {
    if scoped.len() == 0 { Map::empty().insert(None, default) }
    else { configured(default, scoped.drop_last()).insert(Some(bare(scoped.last().0@)), scoped.last().1) }
}
impl NassunOpts {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.registries.m() == Map::<Option<Seq<char>>, Url>::empty() { unimplemented!() }
//@fn crates/nassun/src/client.rs NassunOpts::build
    ensures
        ret.npm_fetcher is Npm, ret.dir_fetcher is Dir, ret.git_fetcher is Git,
        ret.registries() == self.registries.m(),
        self.default_tag is Some ==> ret.resolver.default_tag@ == self.default_tag->0@,
        self.default_tag is None ==> ret.resolver.default_tag@ == "latest"@,
        self.base_dir is Some ==> ret.resolver.base_dir == self.base_dir->0,
        self.client is Some ==> ret.npm_fetcher->Npm_0.client == self.client->0,
//@subst Arc::new(NpmFetcher::new($0)) =>> Fetcher::Npm(NpmFetcher::new($0))
//@subst Arc::new(DirFetcher::new()) =>> Fetcher::Dir(DirFetcher::new())
//@subst Arc::new(GitFetcher::new($0)) =>> Fetcher::Git(GitFetcher::new($0))
//@subst? "latest".into() =>> vx_text("latest")
//@subst? std::env::current_dir().expect("failed to get cwd.") =>> vx_cwd()
//@end
//@fn crates/nassun/src/client.rs NassunOpts::registry
    ensures ret.registries.m() == self.registries.m().insert(None, registry), ret == (NassunOpts { registries: ret.registries, client_builder: ret.client_builder, ..self })
//@end
//@fn crates/nassun/src/client.rs NassunOpts::scope_registry
    ensures ret.registries.m() == self.registries.m().insert(Some(bare(scope.av())), registry), ret == (NassunOpts { registries: ret.registries, ..self })
//@subst impl AsRef<str> =>> impl VxAsRef
//@end
//@fn crates/nassun/src/client.rs NassunOpts::client
    ensures ret == (NassunOpts { client: Some(client), ..self })
//@end
//@fn crates/nassun/src/client.rs NassunOpts::base_dir
    ensures ret == (NassunOpts { base_dir: ret.base_dir, ..self }), ret.base_dir is Some
//@subst impl AsRef<Path> =>> PathBuf
//@end
//@fn crates/nassun/src/client.rs NassunOpts::cache
    ensures ret == (NassunOpts { cache: ret.cache, client_builder: ret.client_builder, ..self }), ret.cache is Some
//@subst impl AsRef<Path> =>> PathBuf
//@end
//@fn crates/nassun/src/client.rs NassunOpts::default_tag
    ensures ret == (NassunOpts { default_tag: ret.default_tag, ..self }), ret.default_tag is Some && ret.default_tag->0@ == default_tag@
//@subst impl AsRef<str> =>> &String
//@subst? default_tag.as_ref().into() =>> default_tag.clone()
//@end
}
//@item src/nassun_args.rs NassunArgs
//@end
//@item src/client_args.rs ClientArgs
//@end
#[verifier::external_body]
pub struct Report { _p: () }
#[verifier::external_body]
fn vx_client_args(a: &NassunArgs) -> ClientArgs { unimplemented!() }
#[verifier::external_body]
fn vx_client_builder(a: ClientArgs) -> Result<OroClientBuilder, Report> { unimplemented!() }
/// (the arguments that are handed on)
pub struct ApplyArgs { pub default_tag: String, pub registry: Url, pub scoped_registries: Vec<(String, Url)>, pub root: PathBuf, pub cache: Option<PathBuf>, pub proxy: bool, pub proxy_url: Option<String>, pub no_proxy_domain: Option<String>, pub retries: u32, pub auth: Vec<(String, String, String)> }
pub trait VxSame: Sized { fn vx_same(&self) -> (r: Self) ensures r == *self; }
impl<T> VxSame for T { #[verifier::external_body] fn vx_same(&self) -> (r: T) { unimplemented!() } }
impl NassunArgs {
//@fn src/nassun_args.rs NassunArgs::from_apply_args
    ensures ret.registry == apply_args.registry, ret.scoped_registries == apply_args.scoped_registries, ret.auth == apply_args.auth, ret.default_tag == apply_args.default_tag
//@m clone => vx_same
//@end
//@fn src/nassun_args.rs NassunArgs::to_nassun
    ensures ret is Ok ==> ret->Ok_0.registries() == configured(self.registry, self.scoped_registries@)
//@subst Result<Nassun> =>> Result<Nassun, Report>
//@subst ((*self).clone()).into() =>> vx_client_args(self)
//@subst client_args.try_into() =>> vx_client_builder(client_args)
//@subst? in &self.scoped_registries =>> in self.scoped_registries.iter()
//@loop 0
    invariant
        0 <= $it.pos() <= $it.all().len(), $it.all().len() == self.scoped_registries@.len(),
        forall|i: int| 0 <= i < $it.all().len() ==> *(#[trigger] $it.all()[i]) == self.scoped_registries@[i],
        nassun_opts.registries.m() == configured(self.registry, self.scoped_registries@.take($it.pos())),
    decreases $it.all().len() - $it.pos(),
//@at loop 0 body_end
    proof { let n = vx_it0.pos(); assert(self.scoped_registries@.take(n).drop_last() =~= self.scoped_registries@.take(n - 1)); }
//@at loop 0 after
    proof { assert(self.scoped_registries@.take(vx_it0.pos()) =~= self.scoped_registries@); }
//@end
}
}
fn main() {}
