// Unit: whose credentials a request carries (oro-client auth_middleware.rs, client.rs; nassun fetch/npm.rs)
use vstd::prelude::*;
use std::sync::Arc;
verus! {
//@include strings.vrs
//@include case.vrs
//@include text.vrs
//@method split_once => vx_split_once
//@method strip_suffix => vx_strip_suffix
//@include iter.vrs
//@include std.vrs
//@method trim_end_matches => vx_trim_end_matches
//@method trim_start_matches => vx_trim_start_matches
//@method starts_with => vx_starts_with
//@method ends_with => vx_ends_with
//@method strip_prefix => vx_strip_prefix

//@include url.vrs
// ---- assumed contracts: http, reqwest, reqwest-middleware ------------------------------
pub fn vx_opteq(a: Option<&str>, b: Option<&str>) -> (r: bool)
    ensures r == (a is Some == b is Some && (a is Some ==> a->0@ == b->0@))
{ match (a, b) { (Some(x), Some(y)) => x == y, (None, None) => true, _ => false } }
impl VxDisp for u16 { uninterp spec fn disp(&self) -> Seq<char>; uninterp spec fn dbg(&self) -> Seq<char>; }

#[verifier::external_body]
pub struct HeaderValue { _p: () }
#[verifier::external_body]
#[derive(Debug)]
pub struct InvalidHeader { _p: () }
#[verifier::external_body]
#[derive(Debug)]
pub struct ToStrError { _p: () }
impl HeaderValue {
    pub uninterp spec fn v(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn from_str(s: &String) -> (r: Result<HeaderValue, InvalidHeader>) ensures r is Ok ==> r->Ok_0.v() == s@, r is Ok <==> header_ok(s@) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_str(&self) -> (r: Result<&str, ToStrError>) ensures header_ok(self.v()) ==> r is Ok, r is Ok ==> r->Ok_0@ == self.v() { unimplemented!() }
    #[verifier::external_body]
    pub fn set_sensitive(&mut self, b: bool) ensures final(self).v() == old(self).v() { unimplemented!() }
}
pub uninterp spec fn header_ok(s: Seq<char>) -> bool;
pub enum HeaderName { AUTHORIZATION, Other }
pub mod reqwest { pub mod header { pub use super::super::HeaderName::AUTHORIZATION; } }
/// request headers: the Authorization values in order, and the registry header
#[verifier::external_body]
pub struct HeaderMap { _p: () }
impl HeaderMap {
    pub uninterp spec fn auth(&self) -> Seq<Seq<char>>;
    pub uninterp spec fn named(&self, k: Seq<char>) -> Option<Seq<char>>;
    #[verifier::external_body]
    pub fn get(&self, k: &str) -> (r: Option<&HeaderValue>)
        ensures r is Some <==> self.named(k@) is Some, r is Some ==> r->0.v() == self.named(k@)->0 { unimplemented!() }
    #[verifier::external_body]
    pub fn append(&mut self, k: HeaderName, v: HeaderValue)
        ensures k is AUTHORIZATION ==> final(self).auth() == old(self).auth().push(v.v()),
            !(k is AUTHORIZATION) ==> final(self).auth() == old(self).auth() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: HeaderName, v: HeaderValue)
        ensures k is AUTHORIZATION ==> final(self).auth() == seq![v.v()],
            !(k is AUTHORIZATION) ==> final(self).auth() == old(self).auth() { unimplemented!() }
}
pub struct Request { pub u: Url, pub h: HeaderMap }
impl Request {
    #[verifier::external_body]
    pub fn headers(&self) -> (r: &HeaderMap) ensures *r == self.h { unimplemented!() }
    #[verifier::external_body]
    pub fn headers_mut(&mut self) -> (r: &mut HeaderMap)
        ensures *r == old(self).h, final(self).h == *final(r), final(self).u == old(self).u { unimplemented!() }
    #[verifier::external_body]
    pub fn url(&self) -> (r: &Url) ensures *r == self.u { unimplemented!() }
}
#[verifier::external_body]
pub struct Response { _p: () }
#[verifier::external_body]
pub struct MwError { _p: () }
#[verifier::external_body]
pub struct AnyError { _p: () }
pub type MwResult = Result<Response, MwError>;
/// the request that was handed on and led to this result, if one was
pub uninterp spec fn sent(r: MwResult) -> Option<Request>;
pub uninterp spec fn mw_error(e: AnyError) -> MwError;
pub broadcast axiom fn nothing_sent(e: AnyError) ensures #[trigger] sent(Err(mw_error(e))) is None;
impl From<AnyError> for MwError {
    #[verifier::external_body]
    fn from(e: AnyError) -> (r: Self) ensures r == mw_error(e) { unimplemented!() }
}
/// what `?` makes of it
pub broadcast axiom fn q_mw(e: AnyError, r: MwError) ensures #[trigger] vstd::std_specs::control_flow::spec_from::<MwError, AnyError>(e, r) ==> r == mw_error(e);
#[verifier::external_body]
pub fn vx_anyhow(e: InvalidHeader) -> AnyError { unimplemented!() }
#[verifier::external_body]
pub struct Extensions { _p: () }
#[verifier::external_body]
pub struct Next<'a> { _p: &'a () }
impl<'a> Next<'a> {
    #[verifier::external_body]
    pub fn run(self, req: Request, ext: &mut Extensions) -> (r: MwResult) ensures sent(r) == Some(req) { unimplemented!() }
}

// std's HashMap, looked up by what its key type's Eq/Hash look at
pub trait VxHK { type K; spec fn hk(&self) -> Self::K; }
impl VxHK for String { type K = Seq<char>; open spec fn hk(&self) -> Seq<char> { self@ } }
impl VxHK for Option<String> { type K = Option<Seq<char>>; open spec fn hk(&self) -> Option<Seq<char>> { match self { Some(s) => Some(s@), None => None } } }
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct HashMap<K, V> { _k: std::marker::PhantomData<(K, V)> }
impl<K: VxHK, V> HashMap<K, V> {
    pub uninterp spec fn m(&self) -> Map<K::K, V>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.m() == Map::<K::K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>)
        ensures r is Some <==> self.m().contains_key(k.hk()), r is Some ==> *r->0 == self.m()[k.hk()]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self).m() == old(self).m().insert(k.hk(), v) { unimplemented!() }
}

// ---- the repository's own types ------------------------------
//@item crates/oro-client/src/credentials.rs Credentials
//@end
//@item crates/oro-client/src/auth_middleware.rs AuthMiddleware
//@end
#[verifier::external_body]
pub struct PathBuf { _p: () }
#[verifier::external_body]
pub fn vx_lossy(p: &PathBuf) -> String { unimplemented!() }
#[verifier::external_body]
pub fn vx_same_path(p: PathBuf) -> PathBuf { unimplemented!() }
#[verifier::external_body]
pub struct Proxy { _p: () }
#[verifier::external_body]
pub struct NoProxy { _p: () }
impl Proxy {
    #[verifier::external_body]
    pub fn all(u: &str) -> Result<Proxy, ReqwestError> { unimplemented!() }
    #[verifier::external_body]
    pub fn basic_auth(self, u: &str, p: &str) -> Proxy { unimplemented!() }
    #[verifier::external_body]
    pub fn no_proxy(self, n: Option<NoProxy>) -> Proxy { unimplemented!() }
}
impl NoProxy {
    #[verifier::external_body]
    pub fn from_string(s: &String) -> Option<NoProxy> { unimplemented!() }
    #[verifier::external_body]
    pub fn from_env() -> Option<NoProxy> { unimplemented!() }
}
impl Url {
    #[verifier::external_body]
    pub fn username(&self) -> &str { unimplemented!() }
    #[verifier::external_body]
    pub fn password(&self) -> Option<&str> { unimplemented!() }
}
pub trait VxAsRef { spec fn av(&self) -> Seq<char>; fn vx_as_ref(&self) -> (r: &str) ensures r@ == self.av(); }
impl VxAsRef for String { open spec fn av(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_as_ref(&self) -> (r: &str) { unimplemented!() } }
impl VxAsRef for str { open spec fn av(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_as_ref(&self) -> (r: &str) { unimplemented!() } }
impl<T: VxAsRef + ?Sized> VxAsRef for &T { open spec fn av(&self) -> Seq<char> { (**self).av() } #[verifier::external_body] fn vx_as_ref(&self) -> (r: &str) { unimplemented!() } }
impl VxAsRef for Url { uninterp spec fn av(&self) -> Seq<char>; #[verifier::external_body] fn vx_as_ref(&self) -> (r: &str) { unimplemented!() } }
pub enum OroClientError { UrlParseError(UrlError), RequestError(ReqwestError), Other }
impl From<ReqwestError> for OroClientError {
    #[verifier::external_body]
    fn from(e: ReqwestError) -> Self { unimplemented!() }
}
impl From<UrlError> for OroClientError {
    #[verifier::external_body]
    fn from(e: UrlError) -> Self { unimplemented!() }
}
//@item crates/oro-client/src/client.rs OroClientBuilder
//@end
/// reqwest-middleware's client: the table its AuthMiddleware was made with
#[verifier::external_body]
pub struct ClientWithMiddleware { _p: () }
impl ClientWithMiddleware { pub uninterp spec fn table(&self) -> Map<Seq<char>, Credentials>; }
impl Clone for ClientWithMiddleware {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
//@item crates/oro-client/src/client.rs OroClient
//@end
// what build() puts together
pub trait VxMiddleware { spec fn adds(&self) -> Option<Map<Seq<char>, Credentials>>; }
impl VxMiddleware for AuthMiddleware { open spec fn adds(&self) -> Option<Map<Seq<char>, Credentials>> { Some(self.0.m()) } }
#[verifier::external_body]
pub struct ExponentialBackoff { _p: () }
#[verifier::external_body]
pub struct BackoffBuilder { _p: () }
impl ExponentialBackoff {
    #[verifier::external_body]
    pub fn builder() -> BackoffBuilder { unimplemented!() }
}
impl BackoffBuilder {
    #[verifier::external_body]
    pub fn build_with_max_retries(self, n: u32) -> ExponentialBackoff { unimplemented!() }
}
#[verifier::external_body]
pub struct RetryTransientMiddleware { _p: () }
impl RetryTransientMiddleware {
    #[verifier::external_body]
    pub fn new_with_policy(p: ExponentialBackoff) -> Self { unimplemented!() }
}
impl VxMiddleware for RetryTransientMiddleware { open spec fn adds(&self) -> Option<Map<Seq<char>, Credentials>> { None } }
#[verifier::external_body]
pub struct HttpCacheOptions { _p: () }
pub struct CACacheManager { pub path: String }
pub enum CacheMode { Default, NoStore, Reload, NoCache, ForceCache, OnlyIfCached, IgnoreRules }
pub struct HttpCache { pub mode: CacheMode, pub manager: CACacheManager, pub options: Option<HttpCacheOptions> }
pub struct Cache(pub HttpCache);
impl VxMiddleware for Cache { open spec fn adds(&self) -> Option<Map<Seq<char>, Credentials>> { None } }
#[verifier::external_body]
pub struct ReqwestClient { _p: () }
impl Clone for ReqwestClient {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) { unimplemented!() }
}
#[verifier::external_body]
pub struct ReqwestError { _p: () }
impl std::fmt::Debug for ReqwestError {
    #[verifier::external_body]
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() }
}
#[verifier::external_body]
pub struct ClientBuilder { _p: () }
/// the HTTP client itself can be made (no trust store or proxy setting of the machine is unusable)
impl ClientBuilder {
    #[verifier::external_body]
    pub fn new() -> Self { unimplemented!() }
    #[verifier::external_body]
    pub fn user_agent(self, s: &str) -> Self { unimplemented!() }
    #[verifier::external_body]
    pub fn pool_max_idle_per_host(self, n: usize) -> Self { unimplemented!() }
    #[verifier::external_body]
    pub fn timeout(self, d: Duration) -> Self { unimplemented!() }
    #[verifier::external_body]
    pub fn proxy(self, p: Proxy) -> Self { unimplemented!() }
    #[verifier::external_body]
    pub fn no_proxy(self) -> Self { unimplemented!() }
    #[verifier::external_body]
    pub fn build(self) -> (r: Result<ReqwestClient, ReqwestError>) ensures r is Ok { unimplemented!() }
}
#[verifier::external_body]
pub struct Duration { _p: () }
impl Duration {
    #[verifier::external_body]
    pub fn from_secs(n: u64) -> Self { unimplemented!() }
}
#[verifier::external_body]
pub struct MwBuilder { _p: () }
impl MwBuilder {
    pub uninterp spec fn table(&self) -> Map<Seq<char>, Credentials>;
    #[verifier::external_body]
    pub fn new(c: ReqwestClient) -> (r: Self) ensures r.table() == Map::<Seq<char>, Credentials>::empty() { unimplemented!() }
    /// one AuthMiddleware: two would send two headers
    #[verifier::external_body]
    pub fn with<M: VxMiddleware>(self, m: M) -> (r: Self)
        requires m.adds() is Some ==> self.table() == Map::<Seq<char>, Credentials>::empty()
        ensures r.table() == (if m.adds() is Some { m.adds()->0 } else { self.table() }) { unimplemented!() }
    #[verifier::external_body]
    pub fn build(self) -> (r: ClientWithMiddleware) ensures r.table() == self.table() { unimplemented!() }
}
impl Clone for OroClient {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}

//@include nerf.vrs
// ---- what the property says ------------------------------
/// same host and port, and a path that is the registry's or below it
pub open spec fn below(u: Url, reg: Url) -> bool {
    &&& u.host() == reg.host() && u.real_port() == reg.real_port()
    &&& has_prefix(u.p(), reg.p())
    &&& u.p().len() == reg.p().len() || has_suffix(reg.p(), seq!['/']) || u.p()[reg.p().len() as int] == '/'
}
pub uninterp spec fn b64(s: Seq<char>) -> Seq<char>;
pub open spec fn auth_header(c: Credentials) -> Seq<char> {
    match c {
        Credentials::Basic { username, password } => "Basic "@ + b64(username@ + ":"@ + (match password { Some(p) => p@, None => Seq::empty() })),
        Credentials::EncodedBasic(a) => "Basic "@ + a@,
        Credentials::Token(t) => "Bearer "@ + t@,
    }
}
pub open spec fn registry_of(r: Request) -> Url { url_of(r.h.named("X-Oro-Registry"@)->0)->Ok_0 }
pub open spec fn has_registry(r: Request) -> bool {
    r.h.named("X-Oro-Registry"@) is Some && header_ok(r.h.named("X-Oro-Registry"@)->0) && url_of(r.h.named("X-Oro-Registry"@)->0) is Ok
}
/// what is added to the request: the credentials of its registry, if it stays under it and there are some
pub open spec fn added(creds: Map<Seq<char>, Credentials>, r: Request) -> Seq<Seq<char>> {
    let reg = registry_of(r);
    if below(r.u, reg) && creds.contains_key(nerf(reg)) { seq![auth_header(creds[nerf(reg)])] } else { Seq::empty() }
}

// ---- the code ------------------------------
/// ascii bytes, as the text they are
#[verifier::external_body]
pub struct Ascii { _p: () }
impl Ascii { pub uninterp spec fn t(&self) -> Seq<char>; }
#[verifier::external_body]
fn vx_bytes(s: &str) -> (r: Ascii) ensures r.t() == s@ { unimplemented!() }
impl HeaderValue {
    #[verifier::external_body]
    pub fn from_bytes(b: &Ascii) -> (r: Result<HeaderValue, InvalidHeader>) ensures r is Ok ==> r->Ok_0.v() == b.t(), r is Ok <==> header_ok(b.t()) { unimplemented!() }
}
/// base64's EncoderWriter over a Vec (writing to one does not fail)
pub struct Engine;
pub const BASE64_STANDARD: Engine = Engine;
#[verifier::external_body]
pub struct EncoderWriter<'a> { _p: &'a mut Ascii }
impl<'a> EncoderWriter<'a> {
    /// what has been written to it
    pub uninterp spec fn t(&self) -> Seq<char>;
    /// what the buffer held
    pub uninterp spec fn start(&self) -> Seq<char>;
    /// what the buffer holds once it is dropped
    pub uninterp spec fn end(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn new(b: &'a mut Ascii, e: &Engine) -> (r: EncoderWriter<'a>)
        ensures r.t() == Seq::<char>::empty(), r.start() == old(b).t(), r.end() == final(b).t() { unimplemented!() }
}
#[verifier::external_body]
fn vx_write(f: &mut EncoderWriter<'_>, s: String) -> (r: Result<(), InvalidHeader>)
    ensures final(f).t() == old(f).t() + s@, final(f).start() == old(f).start(), final(f).end() == old(f).end() { unimplemented!() }
/// to be called where the writer goes out of scope: dropping it writes what is left
#[verifier::external_body]
fn vx_drop_encoder(e: &EncoderWriter<'_>) ensures e.end() == e.start() + b64(e.t()) { unimplemented!() }
/// base64 is letters, digits and `+/=`
pub broadcast axiom fn b64_header_ok(s: Seq<char>) ensures header_ok("Basic "@ + #[trigger] b64(s));
pub mod base64 { pub mod prelude { pub use super::super::BASE64_STANDARD; } pub mod write { pub use super::super::EncoderWriter; } }
//@fn crates/oro-client/src/auth_middleware.rs basic_auth
    ensures ret.v() == "Basic "@ + b64(username@ + ":"@ + (match password { Some(p) => p@, None => Seq::empty() }))
//@sig fn basic_auth(username: &String, password: Option<&String>) -> (ret: HeaderValue)
//@subst? b"Basic ".to_vec() =>> vx_bytes("Basic ")
//@at after let mut encoder
    let encoder = &mut encoder;
    broadcast use b64_header_ok;
    proof { reveal_strlit("Basic "); reveal_strlit(":"); }
//@at after if let Some(password) = password
    vx_drop_encoder(encoder);
    assert(encoder.t() =~= username@ + ":"@ + (match password { Some(p) => p@, None => Seq::empty() }));
//@end
//@fn crates/oro-client/src/auth_middleware.rs is_under
    ensures ret == below(*url, *registry)
//@subst? url.host_str() != registry.host_str() =>> !vx_opteq(url.host_str(), registry.host_str())
//@subst? url.host_str() == registry.host_str() =>> vx_opteq(url.host_str(), registry.host_str())
//@at body_start
    broadcast use text_facts;
//@end
impl AuthMiddleware {
//@fn crates/oro-client/src/auth_middleware.rs Middleware@AuthMiddleware::handle
    requires has_registry(req0)
    ensures
        sent(ret) is Some ==> {
            &&& sent(ret)->0.u == req0.u
            &&& sent(ret)->0.h.auth() == req0.h.auth() + added(self.0.m(), req0)
        },
        // only credentials that are no header value keep the request from being made
        sent(ret) is None ==> added(self.0.m(), req0).len() == 1 && !header_ok(added(self.0.m(), req0)[0]),
//@sig fn handle(&self, req0: Request, extensions: &mut Extensions, next: Next<'_>) -> (ret: MwResult)
//@subst anyhow::anyhow!(e) =>> vx_anyhow(e)
//@at body_start
    broadcast use nothing_sent, q_mw;
    broadcast use text_facts;
    let mut req = req0;
//@end
}
pub mod auth_middleware { pub use super::nerf_dart; }
impl OroClientBuilder {
//@fn crates/oro-client/src/client.rs Default@OroClientBuilder::default
    ensures ret.credentials.m() == Map::<Seq<char>, Credentials>::empty()
//@sig fn default() -> (ret: Self)
//@subst? Url::parse("https://registry.npmjs.org") =>> vx_parse_url("https://registry.npmjs.org")
//@end
//@fn crates/oro-client/src/client.rs OroClientBuilder::new
    ensures ret.credentials.m() == Map::<Seq<char>, Credentials>::empty()
//@subst? Default::default() =>> Self::default()
//@end
//@fn crates/oro-client/src/client.rs OroClientBuilder::cache
    ensures ret.credentials == self.credentials, ret.registry == self.registry
//@subst impl AsRef<Path> =>> PathBuf
//@subst PathBuf::from(cache.as_ref()) =>> vx_same_path(cache)
//@end
//@fn crates/oro-client/src/client.rs OroClientBuilder::proxy_url
    ensures ret is Ok ==> ret->Ok_0.credentials == self.credentials && ret->Ok_0.registry == self.registry
//@subst impl AsRef<str> =>> impl VxAsRef
//@m as_ref => vx_as_ref
//@end
//@fn crates/oro-client/src/client.rs OroClientBuilder::no_proxy_domain
    ensures ret.credentials == self.credentials, ret.registry == self.registry
//@subst impl AsRef<str> =>> impl VxAsRef
//@m as_ref => vx_as_ref
//@end
//@fn crates/oro-client/src/client.rs OroClientBuilder::get_no_proxy_domain
    ensures true
//@end
//@fn crates/oro-client/src/client.rs OroClientBuilder::registry
    ensures ret.registry == registry, ret.credentials == self.credentials
//@end
//@fn crates/oro-client/src/client.rs OroClientBuilder::basic_auth
    ensures ret.credentials.m() == self.credentials.m().insert(nerf(registry), Credentials::Basic { username, password }), ret.registry == self.registry
//@end
//@fn crates/oro-client/src/client.rs OroClientBuilder::token_auth
    ensures ret.credentials.m() == self.credentials.m().insert(nerf(registry), Credentials::Token(token)), ret.registry == self.registry
//@end
//@fn crates/oro-client/src/client.rs OroClientBuilder::legacy_auth
    ensures ret.credentials.m() == self.credentials.m().insert(nerf(registry), Credentials::EncodedBasic(legacy_auth_token)), ret.registry == self.registry
//@end
//@fn crates/oro-client/src/client.rs OroClientBuilder::retries
    ensures ret.credentials == self.credentials, ret.registry == self.registry
//@end
//@fn crates/oro-client/src/client.rs OroClientBuilder::proxy
    ensures ret.credentials == self.credentials, ret.registry == self.registry
//@end
//@fn crates/oro-client/src/client.rs OroClientBuilder::build
    ensures ret.client.table() == self.credentials.m(), ret.client_uncached.table() == self.credentials.m(), *ret.registry == self.registry
//@subst reqwest_middleware::ClientBuilder::new =>> MwBuilder::new
//@subst? std::time::Duration::from_secs =>> Duration::from_secs
//@subst? cache_loc.to_string_lossy().into() =>> vx_lossy(&cache_loc)
//@end
}
impl OroClient {
//@fn crates/oro-client/src/client.rs OroClient::with_registry
    ensures *ret.registry == registry, ret.client == self.client, ret.client_uncached == self.client_uncached
//@end
}

// ---- which registry a package is asked of (nassun) ------------------------------
#[verifier::external_body]
pub struct SemVerVersion { _p: () }
pub type Version = SemVerVersion;
#[verifier::external_body]
pub struct SemVerRange { _p: () }
pub type Range = SemVerRange;
#[verifier::external_body]
pub struct GitInfo { _p: () }
#[verifier::external_body]
pub struct Integrity { _p: () }
//@item crates/oro-package-spec/src/lib.rs VersionSpec
//@end
//@item crates/oro-package-spec/src/lib.rs PackageSpec
//@end
//@item crates/nassun/src/resolver.rs PackageResolution
//@end
pub open spec fn target_of(s: PackageSpec) -> PackageSpec decreases s {
    match s { PackageSpec::Alias { name, spec } => target_of(*spec), _ => s }
}
impl PackageSpec {
//@fn crates/oro-package-spec/src/lib.rs PackageSpec::is_alias
    ensures ret == (*self is Alias)
//@end
//@fn crates/oro-package-spec/src/lib.rs PackageSpec::target
    ensures *ret == target_of(*self)
    decreases *self,
//@end
}
/// a package: what it was asked for as, and what that resolved to
#[verifier::external_body]
pub struct Package { _p: () }
impl Package {
    pub uninterp spec fn spec(&self) -> PackageSpec;
    pub uninterp spec fn resolution(&self) -> PackageResolution;
    #[verifier::external_body]
    pub fn from(&self) -> (r: &PackageSpec) ensures *r == self.spec() { unimplemented!() }
    #[verifier::external_body]
    pub fn resolved(&self) -> (r: &PackageResolution) ensures *r == self.resolution() { unimplemented!() }
}
#[verifier::external_body]
pub struct TarballStream { _p: () }
impl TarballStream {
    /// the registry and the client the request was made for, and the url asked
    pub uninterp spec fn asked(&self) -> (Url, ClientWithMiddleware, Url);
}
#[verifier::external_body]
pub struct NassunError { _p: () }
impl From<OroClientError> for NassunError {
    #[verifier::external_body]
    fn from(e: OroClientError) -> Self { unimplemented!() }
}
impl OroClient {
    /// reqwest's request builder and response stream: not extracted, executed by the harness
    #[verifier::external_body]
    pub fn stream_external(&self, url: &Url) -> (r: Result<TarballStream, OroClientError>)
        ensures r is Ok ==> r->Ok_0.asked() == (*self.registry, self.client_uncached, *url) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct DashMap<K, V> { _k: std::marker::PhantomData<(K, V)> }
#[verifier::external_body]
pub struct Packument { _p: () }
#[verifier::external_body]
pub struct CorgiPackument { _p: () }
//@item crates/nassun/src/fetch/npm.rs NpmFetcher
//@end
pub open spec fn scope_key(s: Option<String>) -> Option<Seq<char>> { match s { Some(s) => Some(s@), None => None } }
/// the scope's registry, or else the default one, or else npm's
pub open spec fn registry_for(regs: Map<Option<Seq<char>>, Url>, scope: Option<Seq<char>>) -> Url {
    if regs.contains_key(scope) { regs[scope] }
    else if regs.contains_key(None) { regs[None] }
    else { url_of("https://registry.npmjs.org/"@)->Ok_0 }
}
#[verifier::external_body]
fn vx_parse_url(s: &str) -> (r: Result<Url, UrlError>) ensures r == url_of(s@), s@ == "https://registry.npmjs.org/"@ || s@ == "https://registry.npmjs.org"@ ==> r is Ok { unimplemented!() }
impl NpmFetcher {
//@fn crates/nassun/src/fetch/npm.rs NpmFetcher::pick_registry
    ensures ret == registry_for(self.registries.m(), scope_key(*scope))
//@subst? "https://registry.npmjs.org/".parse() =>> vx_parse_url("https://registry.npmjs.org/")
//@closure 0 () -> (r: Option<&Url>)
    ensures r is Some <==> self.registries.m().contains_key(None), r is Some ==> *r->0 == self.registries.m()[None]
//@closure 1 () -> (r: Url)
    ensures r == url_of("https://registry.npmjs.org/"@)->Ok_0
//@end
//@fn crates/nassun/src/fetch/npm.rs PackageFetcher@NpmFetcher::tarball
    requires pkg.resolution() is Npm
    ensures ret is Ok ==> target_of(pkg.spec()) is Npm ==>
        ret->Ok_0.asked() == (registry_for(self.registries.m(), scope_key(target_of(pkg.spec())->scope)), self.client.client_uncached, pkg.resolution()->tarball)
//@subst Result<crate::TarballStream> =>> Result<TarballStream, NassunError>
//@end
}

// ---- the code: what nassun's options pass on ------------------------------
//@item crates/nassun/src/client.rs NassunOpts
//@end
/// one more set of credentials, and nothing else
pub open spec fn with_cred(was: NassunOpts, now: NassunOpts, registry: Url, c: CredV) -> bool {
    &&& now == (NassunOpts { client_builder: now.client_builder, ..was })
    &&& now.client_builder.registry == was.client_builder.registry
    &&& exists|x: Credentials| credv(x) == c && now.client_builder.credentials.m() == #[trigger] was.client_builder.credentials.m().insert(nerf(registry), x)
}
/// the same credentials and registries
pub open spec fn same_creds(was: NassunOpts, now: NassunOpts) -> bool {
    now == (NassunOpts { client_builder: now.client_builder, ..was }) && now.client_builder.registry == was.client_builder.registry && now.client_builder.credentials == was.client_builder.credentials
}
impl NassunOpts {
//@fn crates/nassun/src/client.rs NassunOpts::basic_auth
    ensures with_cred(self, ret, registry, CredV::Basic(username.av(), match password { Some(p) => Some(p.av()), None => None }))
//@subst? impl AsRef<str> =>> &str
//@m as_ref => vx_as_ref
//@option map
//@end
//@fn crates/nassun/src/client.rs NassunOpts::token_auth
    ensures with_cred(self, ret, registry, CredV::Token(token.av()))
//@subst impl AsRef<str> =>> &str
//@m as_ref => vx_as_ref
//@end
//@fn crates/nassun/src/client.rs NassunOpts::legacy_auth
    ensures with_cred(self, ret, registry, CredV::Encoded(legacy_auth_token.av()))
//@subst impl AsRef<str> =>> &str
//@m as_ref => vx_as_ref
//@end
//@fn crates/nassun/src/client.rs NassunOpts::retries
    ensures same_creds(self, ret)
//@end
//@fn crates/nassun/src/client.rs NassunOpts::proxy
    ensures same_creds(self, ret)
//@end
//@fn crates/nassun/src/client.rs NassunOpts::no_proxy_domain
    ensures same_creds(self, ret)
//@subst impl AsRef<str> =>> &str
//@m as_ref => vx_as_ref
//@end
//@fn crates/nassun/src/client.rs NassunOpts::memoize_metadata
    ensures ret == (NassunOpts { memoize_metadata: memoize, ..self })
//@end
}

// ---- the credentials the command line names (src/client_args.rs) ------------------------------
//@item src/client_args.rs ClientArgs
//@end
/// what is configured of the arguments' other sources
pub struct ApplyArgs { pub cache: Option<PathBuf>, pub proxy: bool, pub proxy_url: Option<String>, pub no_proxy_domain: Option<String>, pub retries: u32, pub auth: Vec<(String, String, String)>, pub other: OtherArgs }
pub struct NassunArgs { pub cache: Option<PathBuf>, pub proxy: bool, pub proxy_url: Option<String>, pub no_proxy_domain: Option<String>, pub retries: u32, pub auth: Vec<(String, String, String)>, pub other: OtherArgs }
#[verifier::external_body]
pub struct OtherArgs { _p: () }
impl ClientArgs {
//@fn src/client_args.rs From<ApplyArgs>@ClientArgs::from
    ensures ret.auth == value.auth
//@sig fn from_apply(value: ApplyArgs) -> (ret: Self)
//@end
//@fn src/client_args.rs From<NassunArgs>@ClientArgs::from
    ensures ret.auth == value.auth
//@sig fn from_nassun(value: NassunArgs) -> (ret: Self)
//@end
}
pub enum CredV { Basic(Seq<char>, Option<Seq<char>>), Encoded(Seq<char>), Token(Seq<char>) }
pub open spec fn credv(c: Credentials) -> CredV {
    match c {
        Credentials::Basic { username, password } => CredV::Basic(username@, match password { Some(p) => Some(p@), None => None }),
        Credentials::EncodedBasic(a) => CredV::Encoded(a@),
        Credentials::Token(t) => CredV::Token(t@),
    }
}
pub type Triple = (String, String, String);
/// the first password given for the registry
pub open spec fn password_for(a: Seq<Triple>, reg: Seq<char>) -> Option<Seq<char>> decreases a.len() {
    if a.len() == 0 { None }
    else if a[0].0@ == reg && a[0].1@ == "password"@ { Some(a[0].2@) }
    else { password_for(a.drop_first(), reg) }
}
/// the credentials one entry stands for
pub open spec fn cred_of(a: Seq<Triple>, e: Triple) -> Option<CredV> {
    if e.1@ == "token"@ { Some(CredV::Token(e.2@)) }
    else if e.1@ == "username"@ { Some(CredV::Basic(e.2@, password_for(a, e.0@))) }
    else if e.1@ == "legacy-auth"@ { Some(CredV::Encoded(e.2@)) }
    else { None }
}
/// each registry's: what the last of its entries says
pub open spec fn configured(a: Seq<Triple>, n: int) -> Map<Seq<char>, CredV> decreases n {
    if n <= 0 { Map::empty() }
    else {
        let m = configured(a, n - 1);
        match cred_of(a, a[n - 1]) { Some(c) => m.insert(nerf(url_of(a[n - 1].0@)->Ok_0), c), None => m }
    }
}
pub open spec fn holds(t: Map<Seq<char>, Credentials>, v: Map<Seq<char>, CredV>) -> bool {
    forall|k: Seq<char>| (#[trigger] t.contains_key(k) <==> v.contains_key(k)) && (t.contains_key(k) ==> credv(t[k]) == v[k])
}
impl OroClientBuilder {
//@fn src/client_args.rs TryFrom<ClientArgs>@OroClientBuilder::try_from
    ensures ret is Ok ==> holds(ret->Ok_0.credentials.m(), configured(value.auth@, value.auth@.len() as int))
//@subst? let mut password = None; =>> let mut password: Option<String> = None;
//@m to_owned => clone
//@m into => clone
//@subst? key == "token" =>> vx_streq(key, "token")
//@subst? key == "username" =>> vx_streq(key, "username")
//@subst? key == "legacy-auth" =>> vx_streq(key, "legacy-auth")
//@subst? key == "password" =>> vx_streq(key, "password")
//@subst? key2 == "password" =>> vx_streq(key2, "password")
//@subst? reg2 == reg =>> vx_streq(reg2, reg)
//@attr #[verifier::allow_complex_invariants]
//@sig fn vx_try_from(value: ClientArgs) -> (ret: Result<OroClientBuilder, OroClientError>)
//@loop 0
    invariant
        0 <= $it.pos() <= $it.all().len(), $it.all().len() == value.auth@.len(),
        forall|i: int| 0 <= i < $it.all().len() ==> *(#[trigger] $it.all()[i]) == value.auth@[i],
        holds(builder.credentials.m(), configured(value.auth@, $it.pos())),
    decreases $it.all().len() - $it.pos(),
//@loop 1
    invariant_except_break
        0 <= $it.pos() <= $it.all().len(), $it.all().len() == value.auth@.len(),
        forall|i: int| 0 <= i < $it.all().len() ==> *(#[trigger] $it.all()[i]) == value.auth@[i],
        password is None,
        password_for(value.auth@, reg@) == password_for(value.auth@.skip($it.pos()), reg@),
    ensures
        (match password { Some(p) => Some(p@), None => None }) == password_for(value.auth@, reg@),
    decreases $it.all().len() - $it.pos(),
//@at loop 1 before
    proof { assert(value.auth@.skip(0) =~= value.auth@); assert(key@ == "username"@); }
//@at loop 1 body_start
    proof {
        let n = vx_it1.pos();
        assert(value.auth@.skip(n - 1).drop_first() =~= value.auth@.skip(n));
        assert(value.auth@.skip(n - 1)[0] == value.auth@[n - 1]);
    }
//@at loop 1 after
    proof { assert(value.auth@.skip(value.auth@.len() as int) =~= Seq::empty()); }
//@at loop 0 body_start
    let ghost n = vx_it0.pos();
    proof { assert(*vx_it0.all()[n - 1] == value.auth@[n - 1]); }
    let ghost m0 = builder.credentials.m();
//@at before builder = builder.token_auth
    assert(key@ == "token"@);
//@at before password = Some(val2
    assert(key2@ == "password"@);
    assert(reg2@ == reg@);
//@end
}
}
fn main() {}
