// ---- assumed contracts: url ------------------------------
#[verifier::external_body]
pub struct Url { _p: () }
#[verifier::external_body]
#[derive(Debug)]
pub struct UrlError { _p: () }
pub uninterp spec fn url_of(s: Seq<char>) -> Result<Url, UrlError>;
impl Url {
    pub uninterp spec fn host(&self) -> Option<Seq<char>>;
    pub uninterp spec fn explicit_port(&self) -> Option<u16>;
    /// the scheme's own port when none is written
    pub uninterp spec fn real_port(&self) -> Option<u16>;
    pub uninterp spec fn p(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn parse(s: &str) -> (r: Result<Url, UrlError>) ensures r == url_of(s@) { unimplemented!() }
    #[verifier::external_body]
    pub fn host_str(&self) -> (r: Option<&str>) ensures r is Some <==> self.host() is Some, r is Some ==> r->0@ == self.host()->0 { unimplemented!() }
    #[verifier::external_body]
    pub fn port(&self) -> (r: Option<u16>) ensures r == self.explicit_port() { unimplemented!() }
    #[verifier::external_body]
    pub fn port_or_known_default(&self) -> (r: Option<u16>) ensures r == self.real_port() { unimplemented!() }
    #[verifier::external_body]
    pub fn path(&self) -> (r: &str) ensures r@ == self.p() { unimplemented!() }
}
impl Clone for Url {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl vstd::std_specs::cmp::PartialEqSpecImpl for Url {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o }
}
impl PartialEq for Url {
    #[verifier::external_body]
    fn eq(&self, o: &Self) -> bool { unimplemented!() }
}
