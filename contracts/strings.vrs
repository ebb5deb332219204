// ---- assumed contracts: formatting ------------------------------------
pub trait VxDisp { spec fn disp(&self) -> Seq<char>; spec fn dbg(&self) -> Seq<char>; }
impl VxDisp for str { open spec fn disp(&self) -> Seq<char> { self@ } uninterp spec fn dbg(&self) -> Seq<char>; }
impl VxDisp for String { open spec fn disp(&self) -> Seq<char> { self@ } uninterp spec fn dbg(&self) -> Seq<char>; }
impl<T: VxDisp + ?Sized> VxDisp for &T { open spec fn disp(&self) -> Seq<char> { (**self).disp() } open spec fn dbg(&self) -> Seq<char> { (**self).dbg() } }
#[verifier::external_body]
pub fn vx_lit(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_cat(a: String, b: String) -> (r: String) ensures r@ == a@ + b@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_disp<T: VxDisp + ?Sized>(x: &T) -> (r: String) ensures r@ == x.disp() { unimplemented!() }
#[verifier::external_body]
pub fn vx_debug<T: VxDisp + ?Sized>(x: &T) -> (r: String) ensures r@ == x.dbg() { unimplemented!() }
#[verifier::external_body]
pub fn vx_fmtopaque<T: ?Sized>(x: &T) -> (r: String) { unimplemented!() }
pub fn vx_streq(a: &str, b: &str) -> (r: bool) ensures r <==> a@ == b@ { a == b }
