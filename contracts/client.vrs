// Unit: every request names the registry it is made for (oro-client api/*.rs)
use vstd::prelude::*;
use std::sync::Arc;
verus! {
//@include strings.vrs
//@include case.vrs
//@include text.vrs
//@method split_once => vx_split_once
//@method strip_suffix => vx_strip_suffix
//@include std.vrs
//@include url.vrs
//@method trim_end_matches => vx_trim_end_matches
//@method trim_start_matches => vx_trim_start_matches
//@method starts_with => vx_starts_with
//@method ends_with => vx_ends_with
//@method strip_prefix => vx_strip_prefix
//@method as_ref => vx_as_ref
//@method parse => vx_parse
pub trait VxAsRef { spec fn av(&self) -> Seq<char>; fn vx_as_ref(&self) -> (r: &str) ensures r@ == self.av(); }
impl VxAsRef for String { open spec fn av(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_as_ref(&self) -> (r: &str) { unimplemented!() } }
impl VxAsRef for str { open spec fn av(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_as_ref(&self) -> (r: &str) { unimplemented!() } }
impl<T: VxAsRef + ?Sized> VxAsRef for &T { open spec fn av(&self) -> Seq<char> { (**self).av() } #[verifier::external_body] fn vx_as_ref(&self) -> (r: &str) { unimplemented!() } }

// ---- assumed contracts: url ------------------------------
pub mod url { pub use super::UrlError as ParseError; }
pub uninterp spec fn joined(base: Url, s: Seq<char>) -> Result<Url, UrlError>;
impl Url {
    pub uninterp spec fn text(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn join(&self, s: &str) -> (r: Result<Url, UrlError>) ensures r == joined(*self, s@) { unimplemented!() }
    #[verifier::external_body]
    pub fn set_path(&mut self, s: &str) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String) ensures r@ == self.text() { unimplemented!() }
}
/// a url is what its text says
pub broadcast axiom fn reparsed(u: Url) ensures url_of(#[trigger] u.text()) == Ok::<Url, UrlError>(u);

// ---- assumed contracts: reqwest, as far as whom a request goes to and whose it says it is ------------------------------
/// header names, as they are compared
pub uninterp spec fn hname(s: Seq<char>) -> Seq<char>;
pub broadcast axiom fn hname_len(s: Seq<char>) ensures (#[trigger] hname(s)).len() == s.len();
pub open spec fn oro() -> Seq<char> { hname("X-Oro-Registry"@) }
#[verifier::external_body]
pub struct HeaderMap { _p: () }
#[verifier::external_body]
pub struct HeaderValue { _p: () }
#[verifier::external_body]
pub struct InvalidHeader { _p: () }
impl HeaderMap {
    pub uninterp spec fn names(&self) -> Set<Seq<char>>;
    #[verifier::external_body]
    pub fn insert(&mut self, k: &str, v: HeaderValue) ensures final(self).names() == old(self).names().insert(hname(k@)) { unimplemented!() }
    #[verifier::external_body]
    pub fn get<K: VxHName>(&self, k: K) -> Option<&HeaderValue> { unimplemented!() }
}
impl HeaderValue {
    #[verifier::external_body]
    pub fn to_str(&self) -> Result<&str, InvalidHeader> { unimplemented!() }
}
pub trait VxHV { spec fn hv(&self) -> Seq<char>; }
impl VxHV for String { open spec fn hv(&self) -> Seq<char> { self@ } }
impl VxHV for &str { open spec fn hv(&self) -> Seq<char> { (*self)@ } }
impl VxHV for &String { open spec fn hv(&self) -> Seq<char> { (*self)@ } }
pub trait VxIntoUrl { spec fn ut(&self) -> Seq<char>; }
impl VxIntoUrl for String { open spec fn ut(&self) -> Seq<char> { self@ } }
impl VxIntoUrl for &str { open spec fn ut(&self) -> Seq<char> { (*self)@ } }
impl VxIntoUrl for Url { open spec fn ut(&self) -> Seq<char> { self.text() } }
#[verifier::external_body]
pub struct ClientWithMiddleware { _p: () }
#[verifier::external_body]
pub struct RequestBuilder { _p: () }
impl ClientWithMiddleware {
    /// the registry this client's requests are to be made in the name of: any one, fixed for the proof
    pub uninterp spec fn own(&self) -> Url;
    #[verifier::external_body]
    pub fn get<U: VxIntoUrl>(&self, u: U) -> (r: RequestBuilder) ensures r.to() == u.ut(), r.client() == *self, r.regs() == Seq::<Seq<char>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn post<U: VxIntoUrl>(&self, u: U) -> (r: RequestBuilder) ensures r.to() == u.ut(), r.client() == *self, r.regs() == Seq::<Seq<char>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn put<U: VxIntoUrl>(&self, u: U) -> (r: RequestBuilder) ensures r.to() == u.ut(), r.client() == *self, r.regs() == Seq::<Seq<char>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn delete<U: VxIntoUrl>(&self, u: U) -> (r: RequestBuilder) ensures r.to() == u.ut(), r.client() == *self, r.regs() == Seq::<Seq<char>>::empty() { unimplemented!() }
}
impl Clone for ClientWithMiddleware {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl RequestBuilder {
    pub uninterp spec fn client(&self) -> ClientWithMiddleware;
    pub uninterp spec fn to(&self) -> Seq<char>;
    /// the values of its X-Oro-Registry headers
    pub uninterp spec fn regs(&self) -> Seq<Seq<char>>;
    #[verifier::external_body]
    pub fn header<V: VxHV>(self, k: &str, v: V) -> (r: RequestBuilder)
        ensures r.to() == self.to(), r.client() == self.client(), r.regs() == (if hname(k@) == oro() { self.regs().push(v.hv()) } else { self.regs() }) { unimplemented!() }
    /// (these take the place of the ones with the same name)
    #[verifier::external_body]
    pub fn headers(self, m: HeaderMap) -> (r: RequestBuilder)
        ensures r.to() == self.to(), r.client() == self.client(), !m.names().contains(oro()) ==> r.regs() == self.regs() { unimplemented!() }
    #[verifier::external_body]
    pub fn body(self, b: String) -> (r: RequestBuilder) ensures r.to() == self.to(), r.client() == self.client(), r.regs() == self.regs() { unimplemented!() }
    /// AuthMiddleware::handle's precondition (see the unit `auth`), and that the one named is the client's own
    #[verifier::external_body]
    pub fn send(self) -> (r: Result<Response, OroClientError>)
        requires self.regs().len() == 1, self.regs()[0] == self.client().own().text(), url_of(self.regs()[0]) is Ok
        ensures r is Ok ==> r->Ok_0.client() == self.client() && r->Ok_0.to() == self.to() { unimplemented!() }
}
#[verifier::external_body]
pub struct Response { _p: () }
#[verifier::external_body]
pub struct ReqError { _p: () }
#[verifier::external_body]
pub struct Bytes { _p: () }
#[verifier::external_body]
pub struct IoError { _p: () }
#[verifier::external_body]
pub struct ByteStream { _p: () }
#[verifier::external_body]
pub struct TarballStream { _p: () }
impl TarballStream {
    pub uninterp spec fn client(&self) -> ClientWithMiddleware;
    pub uninterp spec fn to(&self) -> Seq<char>;
}
impl ByteStream {
    pub uninterp spec fn client(&self) -> ClientWithMiddleware;
    pub uninterp spec fn to(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn map<F: Fn(Result<Bytes, ReqError>) -> Result<Bytes, IoError>>(self, f: F) -> (r: ByteStream) ensures r.client() == self.client(), r.to() == self.to() { unimplemented!() }
    #[verifier::external_body]
    pub fn into_async_read(self) -> (r: TarballStream) ensures r.client() == self.client(), r.to() == self.to() { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_io(e: ReqError) -> IoError { unimplemented!() }
impl Response {
    pub uninterp spec fn client(&self) -> ClientWithMiddleware;
    pub uninterp spec fn to(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn notify(self) -> (r: Response) ensures r == self { unimplemented!() }
    #[verifier::external_body]
    pub fn error_for_status(self) -> (r: Result<Response, ReqError>) ensures r is Ok ==> r->Ok_0 == self { unimplemented!() }
    #[verifier::external_body]
    pub fn status(&self) -> StatusCode { unimplemented!() }
    #[verifier::external_body]
    pub fn headers(&self) -> &HeaderMap { unimplemented!() }
    #[verifier::external_body]
    pub fn text(self) -> Result<String, OroClientError> { unimplemented!() }
    #[verifier::external_body]
    pub fn bytes_stream(self) -> (r: ByteStream) ensures r.client() == self.client(), r.to() == self.to() { unimplemented!() }
}
#[derive(PartialEq, Eq, Structural)]
#[allow(non_camel_case_types)]
pub enum StatusCode { NOT_FOUND, OK, ACCEPTED, BAD_REQUEST, UNAUTHORIZED, Other }
impl StatusCode {
    #[verifier::external_body]
    pub fn vx_bad(&self) -> bool { unimplemented!() }
}
#[allow(non_camel_case_types)]
pub enum HName { WWW_AUTHENTICATE, Named(String) }
pub use HName::WWW_AUTHENTICATE;
pub trait VxHName {}
impl VxHName for HName {}
impl VxHName for &str {}
impl ReqError {
    #[verifier::external_body]
    pub fn status(&self) -> Option<StatusCode> { unimplemented!() }
}
pub enum OroClientError { PackageNotFound(Url, String), RequestError(ReqError), NoSuchUserError(String), OTPRequiredError, IncorrectPasswordError, InvalidTokenError, ResponseError(Boxed), Other }
#[verifier::external_body]
pub struct Boxed { _p: () }
#[verifier::external_body]
pub fn vx_boxed(s: Option<String>) -> Boxed { unimplemented!() }
impl OroClientError {
    #[verifier::external_body]
    pub fn from_json_err(e: JsonError, u: String, text: String) -> Self { unimplemented!() }
}
impl From<UrlError> for OroClientError { #[verifier::external_body] fn from(e: UrlError) -> Self { unimplemented!() } }
impl From<ReqError> for OroClientError { #[verifier::external_body] fn from(e: ReqError) -> Self { unimplemented!() } }
#[verifier::external_body]
pub struct JsonError { _p: () }
#[verifier::external_body]
pub fn vx_json<T>(s: &String) -> Result<T, JsonError> { unimplemented!() }
#[verifier::external_body]
pub fn vx_to_json<T>(t: &T) -> Result<String, JsonError> { unimplemented!() }
#[verifier::external_body]
pub fn vx_now() -> String { unimplemented!() }
#[verifier::external_body]
pub fn vx_percent(s: &str) -> String { unimplemented!() }
#[verifier::external_body]
pub struct Packument { _p: () }
#[verifier::external_body]
pub struct CorgiPackument { _p: () }
#[verifier::external_body]
pub struct Duration { _p: () }
impl Duration { #[verifier::external_body] pub fn from_secs(n: u64) -> Self { unimplemented!() } }
pub const CORGI_HEADER: &'static str = "";
/// (a panic sends nothing)
pub trait VxMust<T>: Sized { fn vx_must(self) -> T; fn vx_expect(self, m: &str) -> T; }
impl<T, E> VxMust<T> for Result<T, E> {
    #[verifier::external_body]
    fn vx_must(self) -> (r: T) ensures self == Result::<T, E>::Ok(r) { unimplemented!() }
    #[verifier::external_body]
    fn vx_expect(self, m: &str) -> (r: T) ensures self == Result::<T, E>::Ok(r) { unimplemented!() }
}
//@method unwrap => vx_must
//@method expect => vx_expect
pub trait VxLower { fn vx_has(&self, s: &str) -> bool; }
impl VxLower for str { #[verifier::external_body] fn vx_has(&self, s: &str) -> bool { unimplemented!() } }
impl VxLower for String { #[verifier::external_body] fn vx_has(&self, s: &str) -> bool { unimplemented!() } }
//@method contains => vx_has
//@method to_owned => vx_owned
pub trait VxOwned { fn vx_owned(&self) -> String; }
impl VxOwned for str { #[verifier::external_body] fn vx_owned(&self) -> (r: String) ensures r@ == self@ { unimplemented!() } }
#[verifier::external_body]
pub fn vx_u64(s: &str) -> Result<u64, JsonError> { unimplemented!() }
#[verifier::external_body]
pub struct HashMap { _p: () }
impl HashMap {
    /// the names of the headers collected
    pub uninterp spec fn names(&self) -> Set<Seq<char>>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r.names() == Set::<Seq<char>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: String, v: String) -> Option<String> ensures final(self).names() == old(self).names().insert(hname(k@)) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_headers(h: &HashMap) -> (r: Result<HeaderMap, InvalidHeader>) ensures r is Ok ==> r->Ok_0.names() == h.names() { unimplemented!() }
#[verifier::external_body]
pub fn vx_hv(s: &str) -> Result<HeaderValue, InvalidHeader> { unimplemented!() }

// ---- the repository's own types ------------------------------
//@item crates/oro-client/src/client.rs OroClient
//@end
impl Clone for OroClient {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
//@item crates/oro-client/src/api/login.rs DoneURLResponse
//@end
//@item crates/oro-client/src/api/login.rs AuthType
//@end
//@item crates/oro-client/src/api/login.rs LoginCouchResponse
//@end
//@item crates/oro-client/src/api/login.rs Token
//@end
//@item crates/oro-client/src/api/login.rs LoginWeb
//@end
//@item crates/oro-client/src/api/login.rs LoginOptions
//@end
impl LoginOptions {
    #[verifier::external_body]
    pub fn default() -> Self { unimplemented!() }
}
//@item crates/oro-client/src/api/login.rs LoginCouch
//@end
//@item crates/oro-client/src/api/login.rs WebOTPResponse
//@end
#[verifier::external_body]
fn vx_otp(s: &String) -> WebOTPResponse { unimplemented!() }
/// its requests are made in the name of its registry
pub open spec fn sound(c: OroClient) -> bool { c.client.own() == *c.registry && c.client_uncached.own() == *c.registry }

// ---- the code ------------------------------
impl OroClient {
//@fn crates/oro-client/src/client.rs OroClient::endpoint
    ensures true
//@end
//@fn crates/oro-client/src/api/packument.rs OroClient::packument_impl
    requires sound(*self)
    ensures true
//@subst impl AsRef<str> =>> impl VxAsRef
//@closure 0 (ReqError) -> (r: OroClientError)
//@at body_start
    broadcast use reparsed, hname_len;
    proof { reveal_strlit("X-Oro-Registry"); reveal_strlit("Accept"); }
//@end
//@fn crates/oro-client/src/api/ping.rs OroClient::ping
    requires sound(*self)
    ensures true
//@at body_start
    broadcast use reparsed, hname_len;
    proof { reveal_strlit("X-Oro-Registry"); }
//@end
//@fn crates/oro-client/src/api/logout.rs OroClient::delete_token
    requires sound(*self)
    ensures true
//@at body_start
    broadcast use reparsed, hname_len;
    proof { reveal_strlit("X-Oro-Registry"); }
//@end
//@fn crates/oro-client/src/api/stream_external.rs OroClient::stream_external
    requires sound(*self)
    ensures ret is Ok ==> ret->Ok_0.client() == self.client_uncached && ret->Ok_0.to() == url.text()
//@sig fn stream_external(&self, url: &Url) -> (ret: Result<TarballStream, OroClientError>)
//@subst? Box::new($0) =>> $0
//@subst? std::io::Error::new($0, err) =>> vx_io(err)
//@closure 0 (Result<Bytes, ReqError>) -> (r: Result<Bytes, IoError>)
//@at body_start
    broadcast use reparsed, hname_len;
    proof { reveal_strlit("X-Oro-Registry"); }
//@end
//@fn crates/oro-client/src/api/login.rs OroClient::build_header
    ensures !ret.names().contains(oro())
//@subst? (&headers).try_into() =>> vx_headers(&headers)
//@at body_start
    broadcast use hname_len;
    proof { reveal_strlit("X-Oro-Registry"); reveal_strlit("npm-scope"); reveal_strlit("npm-auth-type"); reveal_strlit("npm-command"); reveal_strlit("Content-Type"); }
//@end
//@fn crates/oro-client/src/api/login.rs OroClient::login_web
    requires sound(*self)
    ensures true
//@subst? serde_json::from_str::<LoginWeb> =>> vx_json::<LoginWeb>
//@closure 0 (JsonError) -> (r: OroClientError)
//@at body_start
    broadcast use reparsed, hname_len;
    proof { reveal_strlit("X-Oro-Registry"); }
//@end
//@fn crates/oro-client/src/api/login.rs OroClient::login_couch
    requires sound(*self)
    ensures true
//@option map_or
//@subst? utf8_percent_encode($0, NON_ALPHANUMERIC).to_string() =>> vx_percent($0)
//@subst? otp.try_into() =>> vx_hv(otp)
//@subst? serde_json::to_string(&$0) =>> vx_to_json(&$0)
//@subst? chrono::Local::now().to_rfc3339() =>> vx_now()
//@subst? serde_json::from_str::<WebOTPResponse>(&text).unwrap_or_default() =>> vx_otp(&text)
//@subst? serde_json::from_str::<Token> =>> vx_json::<Token>
//@subst? Some(text).into() =>> vx_boxed(Some(text))
//@subst? Some(response.text().await?).into() =>> vx_boxed(Some(response.text()?))
//@subst? response.status() >= StatusCode::BAD_REQUEST =>> response.status().vx_bad()
//@at body_start
    broadcast use reparsed, hname_len;
    proof { reveal_strlit("X-Oro-Registry"); reveal_strlit("npm-otp"); }
//@end
//@fn crates/oro-client/src/api/login.rs OroClient::fetch_done_url
    requires sound(*self)
    ensures true
//@subst impl AsRef<str> =>> impl VxAsRef
//@subst? serde_json::from_str::<Token> =>> vx_json::<Token>
//@subst? Some(response.text().await?).into() =>> vx_boxed(Some(response.text()?))
//@subst? retry_after.to_str().expect($0).parse::<u64>() =>> vx_u64(retry_after.to_str().vx_expect($0))
//@at body_start
    broadcast use reparsed, hname_len;
    proof { reveal_strlit("X-Oro-Registry"); }
//@end
}
}
fn main() {}
