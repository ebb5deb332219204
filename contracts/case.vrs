// ---- assumed contracts: str, letter case and surrounding white space ------------------------------
pub uninterp spec fn lower(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn upper(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn ascii_lower(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn ascii_upper(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn trimmed(s: Seq<char>, start: bool, end: bool) -> Seq<char>;
pub trait VxCase {
    spec fn cv(&self) -> Seq<char>;
    fn vx_to_lowercase(&self) -> (r: String) ensures r@ == lower(self.cv());
    fn vx_to_uppercase(&self) -> (r: String) ensures r@ == upper(self.cv());
    fn vx_to_ascii_lowercase(&self) -> (r: String) ensures r@ == ascii_lower(self.cv());
    fn vx_to_ascii_uppercase(&self) -> (r: String) ensures r@ == ascii_upper(self.cv());
    fn vx_eq_ignore_ascii_case(&self, o: &str) -> (r: bool) ensures r == (ascii_lower(self.cv()) == ascii_lower(o@)), self.cv() == o@ ==> r;
    fn vx_trim(&self) -> (r: &str) ensures r@ == trimmed(self.cv(), true, true);
    fn vx_trim_start(&self) -> (r: &str) ensures r@ == trimmed(self.cv(), true, false);
    fn vx_trim_end(&self) -> (r: &str) ensures r@ == trimmed(self.cv(), false, true);
}
impl VxCase for str {
    open spec fn cv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_to_lowercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_to_uppercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_to_ascii_lowercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_to_ascii_uppercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_eq_ignore_ascii_case(&self, o: &str) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_trim(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_trim_start(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_trim_end(&self) -> (r: &str) { unimplemented!() }
}
impl VxCase for String {
    open spec fn cv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_to_lowercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_to_uppercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_to_ascii_lowercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_to_ascii_uppercase(&self) -> (r: String) { unimplemented!() }
    #[verifier::external_body] fn vx_eq_ignore_ascii_case(&self, o: &str) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_trim(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_trim_start(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_trim_end(&self) -> (r: &str) { unimplemented!() }
}
//@method to_lowercase => vx_to_lowercase
//@method to_uppercase => vx_to_uppercase
//@method to_ascii_lowercase => vx_to_ascii_lowercase
//@method to_ascii_uppercase => vx_to_ascii_uppercase
//@method eq_ignore_ascii_case => vx_eq_ignore_ascii_case
//@method trim => vx_trim
//@method trim_start => vx_trim_start
//@method trim_end => vx_trim_end
