// ---- assumed contracts: str, as sequences of characters ------------------------------
/// what a search pattern (a char, a str) looks for
pub trait VxPat { spec fn pat(&self) -> Seq<char>; }
impl VxPat for char { open spec fn pat(&self) -> Seq<char> { seq![*self] } }
impl VxPat for &str { open spec fn pat(&self) -> Seq<char> { (*self)@ } }
impl VxPat for &String { open spec fn pat(&self) -> Seq<char> { (*self)@ } }
pub open spec fn has_prefix(s: Seq<char>, p: Seq<char>) -> bool { p.len() <= s.len() && s.subrange(0, p.len() as int) == p }
pub open spec fn has_suffix(s: Seq<char>, p: Seq<char>) -> bool { p.len() <= s.len() && s.subrange(s.len() - p.len(), s.len() as int) == p }
pub open spec fn occurs_at(s: Seq<char>, p: Seq<char>, i: int) -> bool { 0 <= i && i + p.len() <= s.len() && s.subrange(i, i + p.len()) == p }
pub open spec fn nowhere(s: Seq<char>, p: Seq<char>) -> bool { forall|i: int| !occurs_at(s, p, i) }
/// the first place `p` occurs at
pub open spec fn first_at(s: Seq<char>, p: Seq<char>, i: int) -> bool { occurs_at(s, p, i) && forall|j: int| 0 <= j < i ==> !occurs_at(s, p, j) }
pub trait VxStr {
    spec fn sv(&self) -> Seq<char>;
    fn vx_starts_with<P: VxPat>(&self, p: P) -> (r: bool) ensures r == has_prefix(self.sv(), p.pat());
    fn vx_ends_with<P: VxPat>(&self, p: P) -> (r: bool) ensures r == has_suffix(self.sv(), p.pat());
    fn vx_strip_prefix<P: VxPat>(&self, p: P) -> (r: Option<&str>)
        ensures r is Some <==> has_prefix(self.sv(), p.pat()), r is Some ==> r->0@ == self.sv().subrange(p.pat().len() as int, self.sv().len() as int);
    fn vx_strip_suffix<P: VxPat>(&self, p: P) -> (r: Option<&str>)
        ensures r is Some <==> has_suffix(self.sv(), p.pat()), r is Some ==> r->0@ == self.sv().subrange(0, self.sv().len() - p.pat().len());
    fn vx_contains<P: VxPat>(&self, p: P) -> (r: bool) ensures r == exists|i: int| occurs_at(self.sv(), p.pat(), i);
    /// as many as there are of `p` at the end, or the start, taken away
    fn vx_trim_end_matches<P: VxPat>(&self, p: P) -> (r: &str)
        ensures r@.len() <= self.sv().len() && r@ == self.sv().take(r@.len() as int), !has_suffix(self.sv(), p.pat()) ==> r@ == self.sv(), p.pat().len() > 0 ==> !has_suffix(r@, p.pat());
    fn vx_trim_start_matches<P: VxPat>(&self, p: P) -> (r: &str)
        ensures r@.len() <= self.sv().len() && r@ == self.sv().skip(self.sv().len() - r@.len()), !has_prefix(self.sv(), p.pat()) ==> r@ == self.sv(), p.pat().len() > 0 ==> !has_prefix(r@, p.pat());
    fn vx_split_once<P: VxPat>(&self, p: P) -> (r: Option<(&str, &str)>)
        ensures
            r is None ==> nowhere(self.sv(), p.pat()),
            r matches Some((a, b)) ==> first_at(self.sv(), p.pat(), a@.len() as int)
                && a@ == self.sv().subrange(0, a@.len() as int)
                && b@ == self.sv().subrange(a@.len() + p.pat().len() as int, self.sv().len() as int);
}
impl VxStr for str {
    open spec fn sv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_starts_with<P: VxPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_ends_with<P: VxPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_strip_prefix<P: VxPat>(&self, p: P) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn vx_strip_suffix<P: VxPat>(&self, p: P) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn vx_contains<P: VxPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_trim_end_matches<P: VxPat>(&self, p: P) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_trim_start_matches<P: VxPat>(&self, p: P) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_split_once<P: VxPat>(&self, p: P) -> (r: Option<(&str, &str)>) { unimplemented!() }
}
impl VxStr for String {
    open spec fn sv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_starts_with<P: VxPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_ends_with<P: VxPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_strip_prefix<P: VxPat>(&self, p: P) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn vx_strip_suffix<P: VxPat>(&self, p: P) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn vx_contains<P: VxPat>(&self, p: P) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_trim_end_matches<P: VxPat>(&self, p: P) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_trim_start_matches<P: VxPat>(&self, p: P) -> (r: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_split_once<P: VxPat>(&self, p: P) -> (r: Option<(&str, &str)>) { unimplemented!() }
}
pub broadcast proof fn cat_assoc(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    ensures #[trigger] ((a + b) + c) == a + (b + c)
{ assert(((a + b) + c) =~= a + (b + c)); }
pub broadcast proof fn cat_empty(a: Seq<char>)
    ensures #[trigger] (a + Seq::<char>::empty()) == a
{ assert((a + Seq::<char>::empty()) =~= a); }
pub broadcast proof fn prefix_char(s: Seq<char>, c: char)
    ensures #[trigger] has_prefix(s, seq![c]) <==> s.len() > 0 && s[0] == c
{
    if s.len() > 0 && s[0] == c { assert(s.subrange(0, 1) =~= seq![c]); }
    if has_prefix(s, seq![c]) { assert(s.subrange(0, 1)[0] == seq![c][0]); }
}
pub broadcast proof fn suffix_char(s: Seq<char>, c: char)
    ensures #[trigger] has_suffix(s, seq![c]) <==> s.len() > 0 && s.last() == c
{
    if s.len() > 0 && s.last() == c { assert(s.subrange(s.len() - 1, s.len() as int) =~= seq![c]); }
    if has_suffix(s, seq![c]) { assert(s.subrange(s.len() - 1, s.len() as int)[0] == seq![c][0]); }
}
pub broadcast group text_facts { cat_assoc, cat_empty, prefix_char, suffix_char }
