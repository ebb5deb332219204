// Unit: what an argument `KEY=VALUE` or `{TOP}KEY=VALUE` is read as (src/lib.rs)
use vstd::prelude::*;
verus! {
//@include strings.vrs
//@include case.vrs
//@include text.vrs
//@method strip_suffix => vx_strip_suffix
//@method strip_prefix => vx_strip_prefix
//@method ends_with => vx_ends_with
//@method starts_with => vx_starts_with
//@method trim_start_matches => vx_trim_start_matches
//@method trim_end_matches => vx_trim_end_matches
//@include std.vrs
//@method split_once => vx_split_once
//@method find => vx_find
//@method rfind => vx_rfind
//@method parse => vx_parse
pub struct OtherError;
impl From<String> for OtherError { #[verifier::external_body] fn from(s: String) -> Self { unimplemented!() } }
/// std's FromStr
pub trait VxFromStr: Sized { spec fn readable(s: Seq<char>) -> bool; spec fn reads(s: Seq<char>, r: Self) -> bool; }
impl VxFromStr for String { open spec fn readable(s: Seq<char>) -> bool { true } open spec fn reads(s: Seq<char>, r: Self) -> bool { r@ == s } }

// ---- assumed contracts: text and where its characters are, in bytes ------------------------------
pub open spec fn wide(c: char) -> int { if (c as u32) < 0x80 { 1 } else if (c as u32) < 0x800 { 2 } else if (c as u32) < 0x10000 { 3 } else { 4 } }
pub open spec fn byte_at(s: Seq<char>, k: int) -> int decreases k { if k <= 0 { 0 } else { byte_at(s, k - 1) + wide(s[k - 1]) } }
pub open spec fn boundary(s: Seq<char>, b: int) -> bool { exists|i: int| 0 <= i <= s.len() && #[trigger] byte_at(s, i) == b }
pub proof fn lemma_byte_lt(s: Seq<char>, a: int, b: int)
    requires 0 <= a < b <= s.len()
    ensures byte_at(s, a) < byte_at(s, b)
    decreases b - a
{ if a < b - 1 { lemma_byte_lt(s, a, b - 1); } }
pub proof fn lemma_byte_inj(s: Seq<char>, a: int, b: int)
    requires 0 <= a <= s.len(), 0 <= b <= s.len(), byte_at(s, a) == byte_at(s, b)
    ensures a == b
{ if a < b { lemma_byte_lt(s, a, b); } if b < a { lemma_byte_lt(s, b, a); } }
pub open spec fn last_at(s: Seq<char>, p: Seq<char>, i: int) -> bool { occurs_at(s, p, i) && forall|j: int| i < j < s.len() ==> !occurs_at(s, p, j) }
pub trait VxBytes {
    spec fn bv(&self) -> Seq<char>;
    fn vx_find(&self, p: char) -> (r: Option<usize>)
        ensures
            r is None ==> nowhere(self.bv(), p.pat()),
            r matches Some(b) ==> b < usize::MAX && exists|k: int| first_at(self.bv(), p.pat(), k) && #[trigger] byte_at(self.bv(), k) == b;
    fn vx_rfind(&self, p: char) -> (r: Option<usize>)
        ensures
            r is None ==> nowhere(self.bv(), p.pat()),
            r matches Some(b) ==> b < usize::MAX && exists|k: int| last_at(self.bv(), p.pat(), k) && #[trigger] byte_at(self.bv(), k) == b;
    fn vx_parse<T: VxFromStr>(&self) -> (r: Result<T, OtherError>)
        ensures r is Ok <==> T::readable(self.bv()), r matches Ok(t) ==> T::reads(self.bv(), t);
}
impl VxBytes for str {
    open spec fn bv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_find(&self, p: char) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body] fn vx_rfind(&self, p: char) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body] fn vx_parse<T: VxFromStr>(&self) -> (r: Result<T, OtherError>) { unimplemented!() }
}
/// `s[..b]` and `s[b..]`: panic unless `b` is where a character starts, or the end
#[verifier::external_body]
pub fn vx_to(s: &str, b: usize) -> (r: &str)
    requires boundary(s@, b as int)
    ensures forall|k: int| 0 <= k <= s@.len() && #[trigger] byte_at(s@, k) == b ==> r@ == s@.take(k) { unimplemented!() }
#[verifier::external_body]
pub fn vx_from(s: &str, b: usize) -> (r: &str)
    requires boundary(s@, b as int)
    ensures forall|k: int| 0 <= k <= s@.len() && #[trigger] byte_at(s@, k) == b ==> r@ == s@.skip(k) { unimplemented!() }

// ---- what is read ------------------------------
pub open spec fn at(s: Seq<char>, c: char, i: int) -> bool { 0 <= i < s.len() && s[i] == c && forall|j: int| 0 <= j < i ==> #[trigger] s[j] != c }
pub open spec fn lacks(s: Seq<char>, c: char) -> bool { forall|j: int| 0 <= j < s.len() ==> #[trigger] s[j] != c }
/// the key ends at the first `=`
pub open spec fn key_value<T: VxFromStr, U: VxFromStr>(s: Seq<char>, r: Result<(T, U), OtherError>) -> bool {
    &&& lacks(s, '=') ==> r is Err
    &&& forall|i: int| #[trigger] at(s, '=', i) ==> {
            &&& r is Ok <==> T::readable(s.take(i)) && U::readable(s.skip(i + 1))
            &&& r matches Ok(x) ==> T::reads(s.take(i), x.0) && U::reads(s.skip(i + 1), x.1)
        }
}
/// in braces, anything but `}`; then up to the first `=`; then anything
pub open spec fn nested<T: VxFromStr, U: VxFromStr, V: VxFromStr>(s: Seq<char>, r: Result<(T, U, V), OtherError>) -> bool {
    forall|o: int, a: int, e: int| #[trigger] at(s, '{', o) && #[trigger] at(s.skip(o + 1), '}', a) && #[trigger] at(s.skip(o + 1).skip(a + 1), '=', e) ==> {
        let top = s.skip(o + 1).take(a);
        let rest = s.skip(o + 1).skip(a + 1);
        &&& r is Ok <==> T::readable(top) && U::readable(rest.take(e)) && V::readable(rest.skip(e + 1))
        &&& r matches Ok(x) ==> T::reads(top, x.0) && U::reads(rest.take(e), x.1) && V::reads(rest.skip(e + 1), x.2)
    }
}
/// there is nothing to read where one of the three is missing
pub open spec fn whole(s: Seq<char>) -> bool {
    exists|o: int, a: int, e: int| #[trigger] at(s, '{', o) && #[trigger] at(s.skip(o + 1), '}', a) && #[trigger] at(s.skip(o + 1).skip(a + 1), '=', e)
}
pub proof fn occurs_char(s: Seq<char>, c: char)
    ensures
        forall|i: int| #[trigger] occurs_at(s, seq![c], i) <==> 0 <= i < s.len() && s[i] == c,
        forall|i: int| #[trigger] first_at(s, seq![c], i) <==> at(s, c, i),
        forall|i: int| #[trigger] at(s, c, i) ==> occurs_at(s, c.pat(), i),
        c.pat() == seq![c],
        (forall|i: int| !occurs_at(s, seq![c], i)) <==> lacks(s, c),
        (forall|i: int| !occurs_at(s, c.pat(), i)) ==> lacks(s, c),
        lacks(s, c) ==> forall|i: int| !#[trigger] at(s, c, i),
{
    assert forall|i: int| #[trigger] occurs_at(s, seq![c], i) <==> 0 <= i < s.len() && s[i] == c by {
        if 0 <= i < s.len() && s[i] == c { assert(s.subrange(i, i + 1) =~= seq![c]); }
        if occurs_at(s, seq![c], i) { assert(s.subrange(i, i + 1)[0] == c); }
    }
    if forall|i: int| !occurs_at(s, seq![c], i) { assert forall|j: int| 0 <= j < s.len() implies #[trigger] s[j] != c by { assert(!occurs_at(s, seq![c], j)); } }
    assert forall|i: int| #[trigger] first_at(s, seq![c], i) implies at(s, c, i) by { assert forall|j: int| 0 <= j < i implies #[trigger] s[j] != c by { assert(!occurs_at(s, seq![c], j)); } }
}
pub proof fn at_once(s: Seq<char>, c: char, i: int, j: int) requires at(s, c, i), at(s, c, j) ensures i == j { if i < j { assert(s[i] != c); } if j < i { assert(s[j] != c); } }

// ---- the code ------------------------------
//@fn src/lib.rs parse_key_value
    ensures key_value(s@, ret)
//@sig fn parse_key_value<T: VxFromStr, U: VxFromStr>(s: &str) -> (ret: Result<(T, U), OtherError>)
//@subst? s[..$0] =>> vx_to(s, $0)
//@subst? s[$0..] =>> vx_from(s, $0)
//@at body_start
    proof { occurs_char(s@, '='); }
//@at after let pos =
    proof {
        let k = choose|k: int| first_at(s@, '='.pat(), k) && #[trigger] byte_at(s@, k) == pos;
        assert(at(s@, '=', k));
        assert(byte_at(s@, k + 1) == pos + 1);
        assert forall|i: int| #[trigger] at(s@, '=', i) implies i == k by { at_once(s@, '=', i, k); }
    }
//@end
//@fn src/lib.rs parse_nested_key_value
    ensures nested(s@, ret), ret is Ok ==> whole(s@)
//@sig fn parse_nested_key_value<T: VxFromStr, U: VxFromStr, V: VxFromStr>(s: &str) -> (ret: Result<(T, U, V), OtherError>)
//@subst? s[..$0] =>> vx_to(s, $0)
//@subst? s[$0..] =>> vx_from(s, $0)
//@at body_start
    proof { occurs_char(s@, '{'); }
//@at after let open_pos =
    let ghost o = choose|k: int| first_at(s@, '{'.pat(), k) && #[trigger] byte_at(s@, k) == open_pos;
    proof {
        assert(at(s@, '{', o));
        assert(byte_at(s@, o + 1) == open_pos + 1);
        occurs_char(s@.skip(o + 1), '}');
        assert forall|i: int| #[trigger] at(s@, '{', i) implies i == o by { at_once(s@, '{', i, o); }
    }
//@at after let (top_key, rest) =
    let ghost a = top_key@.len() as int;
    proof {
        let t = s@.skip(o + 1);
        assert(at(t, '}', a));
        assert(top_key@ =~= t.take(a));
        assert(rest@ =~= t.skip(a + 1));
        occurs_char(rest@, '=');
        assert forall|i: int| #[trigger] at(t, '}', i) implies i == a by { at_once(t, '}', i, a); }
    }
//@at after let (nested_key, value) =
    proof {
        let e = nested_key@.len() as int;
        assert(at(rest@, '=', e));
        assert(nested_key@ =~= rest@.take(e));
        assert(value@ =~= rest@.skip(e + 1));
        assert forall|i: int| #[trigger] at(rest@, '=', i) implies i == e by { at_once(rest@, '=', i, e); }
    }
//@end

// ---- what the configuration is written as is what is read (the texts `pair` and `nested` of unit config, behind the option's own `=`) ------------------------------
pub proof fn pair_kept(k: Seq<char>, v: Seq<char>, r: Result<(String, String), OtherError>)
    requires lacks(k, '='), key_value(k + ("="@ + v), r)
    ensures r matches Ok(x) && x.0@ == k && x.1@ == v
{
    reveal_strlit("=");
    let s = k + ("="@ + v);
    let i = k.len() as int;
    assert(s[i] == '=');
    assert forall|j: int| 0 <= j < i implies #[trigger] s[j] != '=' by { assert(s[j] == k[j]); }
    assert(at(s, '=', i));
    assert(s.take(i) =~= k);
    assert(s.skip(i + 1) =~= v);
}
pub proof fn nested_kept(k: Seq<char>, f: Seq<char>, v: Seq<char>, r: Result<(String, String, String), OtherError>)
    requires lacks(k, '}'), lacks(f, '='), nested("{"@ + (k + ("}"@ + (f + ("="@ + v)))), r)
    ensures r matches Ok(x) && x.0@ == k && x.1@ == f && x.2@ == v
{
    reveal_strlit("{"); reveal_strlit("}"); reveal_strlit("=");
    let s = "{"@ + (k + ("}"@ + (f + ("="@ + v))));
    assert(s[0] == '{');
    assert(at(s, '{', 0));
    let t = s.skip(1);
    assert(t =~= k + ("}"@ + (f + ("="@ + v))));
    let a = k.len() as int;
    assert(t[a] == '}');
    assert forall|j: int| 0 <= j < a implies #[trigger] t[j] != '}' by { assert(t[j] == k[j]); }
    assert(at(t, '}', a));
    let rest = t.skip(a + 1);
    assert(rest =~= f + ("="@ + v));
    let e = f.len() as int;
    assert(rest[e] == '=');
    assert forall|j: int| 0 <= j < e implies #[trigger] rest[j] != '=' by { assert(rest[j] == f[j]); }
    assert(at(rest, '=', e));
    assert(s.skip(0int + 1) == t);
    assert(t.take(a) =~= k);
    assert(rest.take(e) =~= f);
    assert(rest.skip(e + 1) =~= v);
}
}
fn main() {}
