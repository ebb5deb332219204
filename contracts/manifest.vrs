// Unit: edits of package.json (src/commands/add.rs, remove.rs) and its text (oro-pretty-json)
use vstd::prelude::*;
use std::ops::{Index, IndexMut};
verus! {
//@include strings.vrs
//@include case.vrs
//@include text.vrs
//@method split_once => vx_split_once
//@method strip_suffix => vx_strip_suffix
//@method strip_prefix => vx_strip_prefix
//@method ends_with => vx_ends_with
//@method starts_with => vx_starts_with
//@method trim_start_matches => vx_trim_start_matches
//@method trim_end_matches => vx_trim_end_matches
//@include iter.vrs
//@include std.vrs
//@include path.vrs

global size_of usize == 8;
// ---- texts as lines ------------------------------
pub open spec fn ws(c: char) -> bool { c == ' ' || c == '\t' || c == '\r' || c == '\n' }
pub open spec fn eol(c: char) -> bool { c == '\r' || c == '\n' }
pub open spec fn rep(c: char, n: nat) -> Seq<char> { Seq::new(n, |i: int| c) }
/// a line: how deep it is, and what it says
pub struct Ln { pub deep: nat, pub says: Seq<char> }
pub open spec fn line_of(l: Ln, c: char, n: nat) -> Seq<char> { rep(c, n * l.deep) + l.says }
/// the lines of a value, indented by `n` times `c`, with `e` between them
pub open spec fn out(ls: Seq<Ln>, c: char, n: nat, e: Seq<char>) -> Seq<char> decreases ls.len() {
    if ls.len() == 0 { Seq::empty() }
    else if ls.len() == 1 { line_of(ls[0], c, n) }
    else { line_of(ls[0], c, n) + (e + out(ls.skip(1), c, n, e)) }
}
pub open spec fn say(ls: Seq<Ln>, c: char, n: nat, e: Seq<char>, trailing: bool) -> Seq<char> {
    out(ls, c, n, e) + (if trailing { e } else { Seq::empty() })
}
pub open spec fn text_of(f: Formatted) -> Seq<char> { say(lines_in(f.value), f.character, f.count as nat, f.line_end@, f.trailing_line_end) }
pub open spec fn lines_ok(ls: Seq<Ln>) -> bool {
    &&& ls.len() > 0 && ls[0].deep == 0
    &&& ls.len() > 1 ==> ls[1].deep == 1
    &&& forall|i: int| 0 <= i < ls.len() ==> (#[trigger] ls[i]).says.len() > 0 && !ws(ls[i].says[0]) && forall|j: int| 0 <= j < ls[i].says.len() ==> !eol(#[trigger] ls[i].says[j])
}
/// the first character that ends a line, and what it and the next one are
pub open spec fn first_eol(s: Seq<char>) -> int decreases s.len() {
    if s.len() == 0 || eol(s[0]) { 0 } else { 1 + first_eol(s.skip(1)) }
}
pub open spec fn end_in(s: Seq<char>) -> Option<Seq<char>> {
    let k = first_eol(s);
    if k >= s.len() { None }
    else if s[k] == '\r' && k + 1 < s.len() && s[k + 1] == '\n' { Some(seq!['\r', '\n']) }
    else { Some(seq![s[k]]) }
}
pub open spec fn ends(s: Seq<char>) -> bool { s.len() > 0 && eol(s.last()) }
/// how many characters of whitespace it starts with
pub open spec fn lead(s: Seq<char>) -> int decreases s.len() {
    if s.len() == 0 || !ws(s[0]) { 0 } else { 1 + lead(s.skip(1)) }
}
/// `p`'s first occurrence
pub open spec fn occ(s: Seq<char>, p: Seq<char>) -> int decreases s.len() {
    if s.len() == 0 || has_prefix(s, p) { 0 } else { 1 + occ(s.skip(1), p) }
}
pub open spec fn split_by(s: Seq<char>, p: Seq<char>) -> Seq<Seq<char>> decreases s.len() {
    let k = occ(s, p);
    if p.len() == 0 || k + p.len() > s.len() || k < 0 { seq![s] }
    else { seq![s.take(k)] + split_by(s.skip((k + p.len()) as int), p) }
}
pub open spec fn indent_in(s: Seq<char>) -> Option<(char, nat)> {
    if end_in(s) is None { None } else {
        let p = split_by(s, end_in(s)->0);
        if p.len() < 2 { None } else {
            let k = lead(p[1]);
            if 0 < k < p[1].len() { Some((p[1][k - 1], k as nat)) } else { None }
        }
    }
}
/// std's `lines`: ended by `\n`, a `\r` before it not included
pub open spec fn next_nl(s: Seq<char>) -> int decreases s.len() {
    if s.len() == 0 || s[0] == '\n' { 0 } else { 1 + next_nl(s.skip(1)) }
}
pub open spec fn no_cr(s: Seq<char>) -> Seq<char> { if s.len() > 0 && s.last() == '\r' { s.drop_last() } else { s } }
pub open spec fn lines_of(s: Seq<char>) -> Seq<Seq<char>> decreases s.len() {
    let k = next_nl(s);
    if s.len() == 0 || k < 0 { Seq::empty() }
    else if k >= s.len() { seq![s] }
    else { seq![no_cr(s.take(k))] + lines_of(s.skip(k + 1)) }
}
// ---- characters as bytes ------------------------------
pub open spec fn wide(c: char) -> int { if (c as u32) < 0x80 { 1 } else if (c as u32) < 0x800 { 2 } else if (c as u32) < 0x10000 { 3 } else { 4 } }
pub open spec fn byte_at(s: Seq<char>, k: int) -> int decreases k { if k <= 0 { 0 } else { byte_at(s, k - 1) + wide(s[k - 1]) } }
pub proof fn lemma_ascii(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(), forall|j: int| 0 <= j < k ==> ((#[trigger] s[j]) as u32) < 0x80
    ensures byte_at(s, k) == k
    decreases k
{ if k > 0 { lemma_ascii(s, k - 1); } }
pub proof fn lemma_byte_lt(s: Seq<char>, a: int, b: int)
    requires 0 <= a < b <= s.len()
    ensures byte_at(s, a) < byte_at(s, b), byte_at(s, b) - byte_at(s, a) >= b - a
    decreases b
{ if a < b - 1 { lemma_byte_lt(s, a, b - 1); } }
pub proof fn lemma_byte_inj(s: Seq<char>, a: int, b: int)
    requires 0 <= a <= s.len(), 0 <= b <= s.len(), byte_at(s, a) == byte_at(s, b)
    ensures a == b
{ if a < b { lemma_byte_lt(s, a, b); } if b < a { lemma_byte_lt(s, b, a); } }

// ---- assumed contracts: str ------------------------------
pub trait VxChars { spec fn yes(&self, c: char) -> bool; spec fn no(&self, c: char) -> bool; }
impl VxChars for [char; 2] {
    open spec fn yes(&self, c: char) -> bool { c == self@[0] || c == self@[1] }
    open spec fn no(&self, c: char) -> bool { c != self@[0] && c != self@[1] }
}
impl<F: Fn(char) -> bool> VxChars for F {
    open spec fn yes(&self, c: char) -> bool { self.ensures((c,), true) }
    open spec fn no(&self, c: char) -> bool { self.ensures((c,), false) }
}
pub open spec fn sliced(s: Seq<char>, a: int, b: int, r: Seq<char>) -> bool {
    exists|i: int, j: int| 0 <= i <= j <= s.len() && #[trigger] byte_at(s, i) == a && #[trigger] byte_at(s, j) == b && r == s.subrange(i, j)
}
pub open spec fn boundary(s: Seq<char>, b: int) -> bool { exists|i: int| 0 <= i <= s.len() && #[trigger] byte_at(s, i) == b }
pub trait VxText {
    spec fn tv(&self) -> Seq<char>;
    fn vx_find<P: VxChars>(&self, p: P) -> (r: Option<usize>)
        ensures
            r matches Some(b) ==> exists|k: int| 0 <= k < self.tv().len() && #[trigger] byte_at(self.tv(), k) == b && p.yes(self.tv()[k])
                && forall|j: int| 0 <= j < k ==> p.no(#[trigger] self.tv()[j]),
            r is None ==> forall|j: int| 0 <= j < self.tv().len() ==> p.no(#[trigger] self.tv()[j]);
    fn vx_get(&self, r: std::ops::Range<usize>) -> (t: Option<&str>)
        ensures
            t is Some ==> sliced(self.tv(), r.start as int, r.end as int, t->0@),
            t is None ==> r.start > r.end || !boundary(self.tv(), r.start as int) || !boundary(self.tv(), r.end as int);
    fn vx_lines(&self) -> (r: Iter<&str>)
        ensures r.pos() == 0, r.all().len() == lines_of(self.tv()).len(), forall|i: int| 0 <= i < r.all().len() ==> (#[trigger] r.all()[i])@ == lines_of(self.tv())[i];
    fn vx_split<P: VxPat>(&self, p: P) -> (r: Iter<&str>)
        requires p.pat().len() > 0
        ensures r.pos() == 0, r.all().len() == split_by(self.tv(), p.pat()).len(), forall|i: int| 0 <= i < r.all().len() ==> (#[trigger] r.all()[i])@ == split_by(self.tv(), p.pat())[i];
    fn vx_chars(&self) -> (r: Iter<char>)
        ensures r.pos() == 0, r.all() == self.tv();
    fn vx_repeat(&self, n: usize) -> (r: String)
        ensures self.tv().len() == 1 ==> r@ == rep(self.tv()[0], n as nat), r@.len() == self.tv().len() * n, forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == self.tv()[i % (self.tv().len() as int)];
}
impl VxText for str {
    open spec fn tv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_find<P: VxChars>(&self, p: P) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body] fn vx_get(&self, r: std::ops::Range<usize>) -> (t: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn vx_lines(&self) -> (r: Iter<&str>) { unimplemented!() }
    #[verifier::external_body] fn vx_split<P: VxPat>(&self, p: P) -> (r: Iter<&str>) { unimplemented!() }
    #[verifier::external_body] fn vx_chars(&self) -> (r: Iter<char>) { unimplemented!() }
    #[verifier::external_body] fn vx_repeat(&self, n: usize) -> (r: String) { unimplemented!() }
}
impl VxText for String {
    open spec fn tv(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_find<P: VxChars>(&self, p: P) -> (r: Option<usize>) { unimplemented!() }
    #[verifier::external_body] fn vx_get(&self, r: std::ops::Range<usize>) -> (t: Option<&str>) { unimplemented!() }
    #[verifier::external_body] fn vx_lines(&self) -> (r: Iter<&str>) { unimplemented!() }
    #[verifier::external_body] fn vx_split<P: VxPat>(&self, p: P) -> (r: Iter<&str>) { unimplemented!() }
    #[verifier::external_body] fn vx_chars(&self) -> (r: Iter<char>) { unimplemented!() }
    #[verifier::external_body] fn vx_repeat(&self, n: usize) -> (r: String) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_from<'a>(s: &'a str, b: usize) -> (r: &'a str)
    requires boundary(s@, b as int)
    ensures forall|k: int| 0 <= k <= s@.len() && #[trigger] byte_at(s@, k) == b ==> r@ == s@.skip(k) { unimplemented!() }
impl<T, const N: usize> VxIntoIter for [T; N] {
    type I = Iter<T>;
    open spec fn same(self, i: Iter<T>) -> bool { i.all() == self@ && i.pos() == 0 }
    #[verifier::external_body]
    fn vx_into(self) -> (r: Iter<T>) { unimplemented!() }
}
impl<T> Iter<T> {
    #[verifier::external_body]
    pub fn nth(&mut self, n: usize) -> (r: Option<T>)
        ensures final(self).all() == old(self).all(),
            0 <= old(self).pos() && old(self).pos() + n < old(self).all().len() ==> r == Some(old(self).all()[old(self).pos() + n]) && final(self).pos() == old(self).pos() + n + 1,
            0 <= old(self).pos() && old(self).pos() + n >= old(self).all().len() ==> r is None { unimplemented!() }
    #[verifier::external_body]
    pub fn last(self) -> (r: Option<T>)
        ensures self.pos() == 0 ==> r == (if self.all().len() == 0 { None } else { Some(self.all().last()) }) { unimplemented!() }
}
pub trait VxToStr { spec fn shows(&self) -> Seq<char>; fn vx_to_string(&self) -> (r: String) ensures r@ == self.shows(); }
impl VxToStr for char {
    open spec fn shows(&self) -> Seq<char> { seq![*self] }
    #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() }
}
impl VxToStr for str {
    open spec fn shows(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() }
}
pub trait VxAsRef { spec fn av(&self) -> Seq<char>; fn vx_as_ref(&self) -> (r: &str) ensures r@ == self.av(); }
impl VxAsRef for String { open spec fn av(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_as_ref(&self) -> (r: &str) { unimplemented!() } }
impl VxAsRef for str { open spec fn av(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_as_ref(&self) -> (r: &str) { unimplemented!() } }
impl<T: VxAsRef + ?Sized> VxAsRef for &T { open spec fn av(&self) -> Seq<char> { (**self).av() } #[verifier::external_body] fn vx_as_ref(&self) -> (r: &str) { unimplemented!() } }
pub trait VxInto<T>: Sized { fn vx_into(self) -> T; }
impl VxInto<String> for &str {
    #[verifier::external_body]
    fn vx_into(self) -> (r: String) ensures r@ == self@ { unimplemented!() }
}
//@method into => vx_into
//@method to_string => vx_to_string
//@method find => vx_find
//@method lines => vx_lines
//@method chars => vx_chars
//@method split => vx_split
//@method repeat => vx_repeat

// ---- assumed contracts: serde_json ------------------------------
#[verifier::external_body]
#[derive(Debug)]
pub struct Error { _p: () }
#[verifier::external_body]
pub struct Value { _p: () }
/// the lines of serde's own pretty form (two spaces a level, `\n` between them)
pub uninterp spec fn lines_in(v: Value) -> Seq<Ln>;
pub broadcast axiom fn lines_in_ok(v: Value) ensures lines_ok(#[trigger] lines_in(v));
pub uninterp spec fn parsed(s: Seq<char>, v: Value) -> bool;
pub trait VxJson: Sized { spec fn reads(s: Seq<char>, v: Self) -> bool; }
impl VxJson for Value { open spec fn reads(s: Seq<char>, v: Self) -> bool { parsed(s, v) } }
impl VxJson for CorgiManifest { open spec fn reads(s: Seq<char>, v: Self) -> bool { v == corgi_of(s) } }
#[verifier::external_body]
pub struct CorgiManifest { _p: () }
/// the manifest a text says
pub uninterp spec fn corgi_of(s: Seq<char>) -> CorgiManifest;
pub mod serde_json {
    use super::*;
    #[verifier::external_body]
    pub fn from_str<T: VxJson>(s: &str) -> (r: core::result::Result<T, Error>)
        ensures r is Ok ==> T::reads(s@, r->Ok_0) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_value(s: &str) -> (r: core::result::Result<Value, Error>)
        ensures r is Ok && r->Ok_0 == str_value(s@) { unimplemented!() }
    // (it recurses for each level: no stack holds 2^15 of them)
    #[verifier::external_body]
    pub fn to_string_pretty(v: &Value) -> (r: core::result::Result<String, Error>)
        ensures r is Ok ==> r->Ok_0@ == out(lines_in(*v), ' ', 2, seq!['\n']) && forall|i: int| 0 <= i < lines_in(*v).len() ==> (#[trigger] lines_in(*v)[i]).deep < 0x8000 { unimplemented!() }
}
//@item crates/oro-pretty-json/src/lib.rs Formatted
//@end
/// a file's text, in bytes, fits a file
pub open spec fn fits(s: Seq<char>) -> bool { s.len() < 0x1_0000_0000_0000 }
/// what is read back as it was written: `text` is `f`'s value's lines, indented and ended in one of the usual ways
pub open spec fn usual(s: Seq<char>, v: Value, c: char, n: nat, e: Seq<char>, t: bool) -> bool {
    &&& s == say(lines_in(v), c, n, e, t)
    &&& (c == ' ' || c == '\t') && n >= 1
    &&& e == seq!['\n'] || e == seq!['\r', '\n'] || e == seq!['\r']
}
/// PROPERTY: what is read is written back as it was, if it was written in one of the usual ways
pub open spec fn read_as(s: Seq<char>, f: Formatted) -> bool {
    &&& parsed(s, f.value)
    &&& f.count < 0x1_0000_0000_0000
    &&& forall|c: char, n: nat, e: Seq<char>, t: bool| #[trigger] usual(s, f.value, c, n, e, t) ==> text_of(f) == s
}

// ---- lemmas ------------------------------
pub proof fn lemma_first_eol(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(), forall|j: int| 0 <= j < k ==> !eol(#[trigger] s[j]), k < s.len() ==> eol(s[k])
    ensures first_eol(s) == k
    decreases k
{
    if k > 0 {
        assert forall|j: int| 0 <= j < k - 1 implies !eol(#[trigger] s.skip(1)[j]) by { assert(s.skip(1)[j] == s[j + 1]); }
        lemma_first_eol(s.skip(1), k - 1);
    }
}
pub proof fn lemma_next_nl(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(), forall|j: int| 0 <= j < k ==> #[trigger] s[j] != '\n', k < s.len() ==> s[k] == '\n'
    ensures next_nl(s) == k
    decreases k
{
    if k > 0 {
        assert forall|j: int| 0 <= j < k - 1 implies #[trigger] s.skip(1)[j] != '\n' by { assert(s.skip(1)[j] == s[j + 1]); }
        lemma_next_nl(s.skip(1), k - 1);
    }
}
pub proof fn lemma_lead(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(), forall|j: int| 0 <= j < k ==> ws(#[trigger] s[j]), k < s.len() ==> !ws(s[k])
    ensures lead(s) == k
    decreases k
{
    if k > 0 {
        assert forall|j: int| 0 <= j < k - 1 implies ws(#[trigger] s.skip(1)[j]) by { assert(s.skip(1)[j] == s[j + 1]); }
        lemma_lead(s.skip(1), k - 1);
    }
}
/// what the lines of serde's text are
pub proof fn lemma_lines(ls: Seq<Ln>)
    requires forall|i: int| 0 <= i < ls.len() ==> (#[trigger] ls[i]).says.len() > 0 && !ws(ls[i].says[0]) && forall|j: int| 0 <= j < ls[i].says.len() ==> !eol(#[trigger] ls[i].says[j])
    ensures
        lines_of(out(ls, ' ', 2, seq!['\n'])).len() == ls.len(),
        forall|i: int| 0 <= i < ls.len() ==> #[trigger] lines_of(out(ls, ' ', 2, seq!['\n']))[i] == line_of(ls[i], ' ', 2),
    decreases ls.len()
{
    let s = out(ls, ' ', 2, seq!['\n']);
    if ls.len() > 0 {
        let l = line_of(ls[0], ' ', 2);
        assert forall|j: int| 0 <= j < l.len() implies !eol(#[trigger] l[j]) by {
            if j >= 2 * ls[0].deep { assert(l[j] == ls[0].says[j - 2 * ls[0].deep]); }
        }
        if ls.len() == 1 {
            lemma_next_nl(s, s.len() as int);
            assert(lines_of(s) =~= seq![s]);
        } else {
            let rest = ls.skip(1);
            lemma_lines(rest);
            assert(s[l.len() as int] == '\n');
            assert forall|j: int| 0 <= j < l.len() implies #[trigger] s[j] != '\n' by { assert(s[j] == l[j]); assert(!eol(l[j])); }
            lemma_next_nl(s, l.len() as int);
            assert(s.take(l.len() as int) =~= l);
            assert(l.last() == ls[0].says.last());
            assert(!eol(ls[0].says[ls[0].says.len() - 1]));
            assert(no_cr(l) == l);
            assert(s.skip((l.len() + 1) as int) =~= out(rest, ' ', 2, seq!['\n']));
            assert(lines_of(s) == seq![l] + lines_of(out(rest, ' ', 2, seq!['\n'])));
            assert forall|i: int| 0 <= i < ls.len() implies #[trigger] lines_of(s)[i] == line_of(ls[i], ' ', 2) by {
                if i > 0 {
                    assert(lines_of(s)[i] == lines_of(out(rest, ' ', 2, seq!['\n']))[i - 1]);
                    assert(rest[i - 1] == ls[i]);
                }
            }
        }
    }
}
/// one more line
pub proof fn lemma_out_push(ls: Seq<Ln>, l: Ln, c: char, n: nat, e: Seq<char>)
    ensures out(ls.push(l), c, n, e) == if ls.len() == 0 { line_of(l, c, n) } else { (out(ls, c, n, e) + e) + line_of(l, c, n) }
    decreases ls.len()
{
    let t = ls.push(l);
    if ls.len() > 0 {
        lemma_out_push(ls.skip(1), l, c, n, e);
        assert(t.skip(1) =~= ls.skip(1).push(l));
        if ls.len() == 1 {
            assert(out(ls.skip(1), c, n, e) =~= Seq::empty());
            assert(out(t, c, n, e) =~= (out(ls, c, n, e) + e) + line_of(l, c, n));
        } else {
            assert(out(t, c, n, e) =~= (out(ls, c, n, e) + e) + line_of(l, c, n));
        }
    }
}
pub proof fn lemma_occ(s: Seq<char>, p: Seq<char>, k: int)
    requires 0 <= k <= s.len(), p.len() > 0, k < s.len() ==> has_prefix(s.skip(k), p), forall|j: int| 0 <= j < k ==> !has_prefix(#[trigger] s.skip(j), p)
    ensures occ(s, p) == k
    decreases k
{
    if k > 0 {
        assert(s.skip(0) =~= s);
        assert(s.skip(1).skip(k - 1) =~= s.skip(k));
        assert forall|j: int| 0 <= j < k - 1 implies !has_prefix(#[trigger] s.skip(1).skip(j), p) by { assert(s.skip(1).skip(j) =~= s.skip(j + 1)); assert(!has_prefix(s.skip(j + 1), p)); }
        lemma_occ(s.skip(1), p, k - 1);
    } else if s.len() > 0 { assert(s.skip(0) =~= s); }
}
/// the text is its first line, then an end of line, then the rest
pub open spec fn rest_of(ls: Seq<Ln>, c: char, n: nat, e: Seq<char>, t: bool) -> Seq<char> {
    if ls.len() > 1 { say(ls.skip(1), c, n, e, t) } else { Seq::empty() }
}
pub proof fn lemma_first_line(ls: Seq<Ln>, c: char, n: nat, e: Seq<char>, t: bool)
    requires lines_ok(ls), ls.len() > 1 || t
    ensures say(ls, c, n, e, t) == ls[0].says + (e + rest_of(ls, c, n, e, t))
{
    assert(n * 0 == 0) by (nonlinear_arith);
    assert(line_of(ls[0], c, n) =~= ls[0].says);
    assert(say(ls, c, n, e, t) =~= ls[0].says + (e + rest_of(ls, c, n, e, t)));
}
pub proof fn lemma_second_line(ls: Seq<Ln>, c: char, n: nat, e: Seq<char>, t: bool)
    requires lines_ok(ls), ls.len() > 1
    ensures ({
        let r = rest_of(ls, c, n, e, t);
        let l = line_of(ls[1], c, n);
        &&& l.len() <= r.len() && r.take(l.len() as int) == l && l.len() > n
        &&& l[n as int] == ls[1].says[0]
        &&& forall|j: int| 0 <= j < n ==> #[trigger] l[j] == c
        &&& forall|j: int| n <= j < l.len() ==> !eol(#[trigger] l[j])
    })
{
    assert(n * 1 == n) by (nonlinear_arith);
    let l = line_of(ls[1], c, n);
    assert(ls.skip(1)[0] == ls[1]);
    assert(rest_of(ls, c, n, e, t).take(l.len() as int) =~= l);
    assert forall|j: int| n <= j < l.len() implies !eol(#[trigger] l[j]) by { assert(l[j] == ls[1].says[j - n]); }
}
pub proof fn lemma_end_in(a: Seq<char>, e: Seq<char>, r: Seq<char>)
    requires forall|j: int| 0 <= j < a.len() ==> !eol(#[trigger] a[j]),
        e == seq!['\n'] || e == seq!['\r', '\n'] || e == seq!['\r'],
        r.len() > 0 ==> r[0] != '\n'
    ensures end_in(a + (e + r)) == Some(e), first_eol(a + (e + r)) == a.len()
{
    let s = a + (e + r);
    let k = a.len() as int;
    assert forall|j: int| 0 <= j < k implies !eol(#[trigger] s[j]) by { assert(s[j] == a[j]); }
    assert(s[k] == e[0]);
    lemma_first_eol(s, k);
    if k + 1 < s.len() { assert(s[k + 1] == (e + r)[1]); }
    if e.len() == 2 { assert(s[k + 1] == '\n'); assert(e =~= seq!['\r', '\n']); }
    else { assert(e =~= seq![s[k]]); if k + 1 < s.len() { assert((e + r)[1] == r[0]); } }
}
pub proof fn lemma_split2(a: Seq<char>, e: Seq<char>, r: Seq<char>)
    requires forall|j: int| 0 <= j < a.len() ==> !eol(#[trigger] a[j]), e.len() > 0, eol(e[0])
    ensures split_by(a + (e + r), e) == seq![a] + split_by(r, e)
{
    let s = a + (e + r);
    let k = a.len() as int;
    assert forall|j: int| 0 <= j < k implies !has_prefix(#[trigger] s.skip(j), e) by {
        assert(s.skip(j)[0] == s[j] == a[j]);
        if has_prefix(s.skip(j), e) { assert(s.skip(j).subrange(0, e.len() as int)[0] == e[0]); }
    }
    assert(s.skip(k).subrange(0, e.len() as int) =~= e);
    lemma_occ(s, e, k);
    assert(s.take(k) =~= a);
    assert(s.skip((k + e.len()) as int) =~= r);
}
/// what is read back of a text written the usual way
pub proof fn lemma_usual(s: Seq<char>, v: Value, c: char, n: nat, e: Seq<char>, t: bool)
    requires usual(s, v, c, n, e, t)
    ensures
        ends(s) == t, lines_in(v).len() >= 1,
        lines_in(v).len() > 1 || t ==> end_in(s) == Some(e),
        lines_in(v).len() > 1 ==> indent_in(s) == Some((c, n)),
{
    broadcast use lines_in_ok;
    let ls = lines_in(v);
    lemma_last(ls, c, n, e);
    if t { assert(s.last() == e.last()); } else { assert(s =~= out(ls, c, n, e)); }
    if ls.len() > 1 || t {
        let a = ls[0].says;
        let r = rest_of(ls, c, n, e, t);
        lemma_first_line(ls, c, n, e, t);
        assert(ls[0].says.len() > 0);
        if ls.len() > 1 { lemma_second_line(ls, c, n, e, t); let l = line_of(ls[1], c, n); assert(r[0] == r.take(l.len() as int)[0] == l[0] == c); }
        lemma_end_in(a, e, r);
        if ls.len() > 1 {
            lemma_split2(a, e, r);
            let l = line_of(ls[1], c, n);
            assert forall|j: int| 0 <= j < l.len() implies !eol(#[trigger] l[j]) by {}
            lemma_occ_after(r, e, l);
            let first = split_by(r, e)[0];
            assert(split_by(s, e)[1] == first);
            assert forall|j: int| 0 <= j < l.len() implies #[trigger] first[j] == l[j] by { assert(first.take(l.len() as int)[j] == l[j]); }
            assert(ls[1].says.len() > 0);
            assert(first[n as int] == ls[1].says[0]);
            lemma_lead(first, n as int);
        }
    }
}
/// nothing of a line ends it
pub proof fn lemma_occ_after(s: Seq<char>, e: Seq<char>, l: Seq<char>)
    requires e.len() > 0, eol(e[0]), l.len() > 0, l.len() <= s.len(), s.take(l.len() as int) == l, forall|j: int| 0 <= j < l.len() ==> !eol(#[trigger] l[j])
    ensures occ(s, e) >= l.len(), split_by(s, e).len() > 0, split_by(s, e)[0].len() >= l.len(), split_by(s, e)[0].take(l.len() as int) == l
{
    assert forall|j: int| 0 <= j < l.len() implies !eol(#[trigger] s[j]) by { assert(s.take(l.len() as int)[j] == l[j]); }
    lemma_occ_ge(s, e, l.len() as int);
    let k = occ(s, e);
    if k + e.len() <= s.len() { assert(s.take(k).take(l.len() as int) =~= s.take(l.len() as int)); }
}
pub proof fn lemma_occ_ge(s: Seq<char>, e: Seq<char>, k: int)
    requires e.len() > 0, eol(e[0]), 0 <= k <= s.len(), forall|j: int| 0 <= j < k ==> !eol(#[trigger] s[j])
    ensures occ(s, e) >= k
    decreases k
{
    if k > 0 {
        if has_prefix(s, e) { assert(s.subrange(0, e.len() as int)[0] == e[0]); assert(!eol(s[0])); }
        assert forall|j: int| 0 <= j < k - 1 implies !eol(#[trigger] s.skip(1)[j]) by { assert(s.skip(1)[j] == s[j + 1]); }
        lemma_occ_ge(s.skip(1), e, k - 1);
    } else { lemma_occ_nonneg(s, e); }
}
pub proof fn lemma_occ_nonneg(s: Seq<char>, e: Seq<char>) ensures occ(s, e) >= 0 decreases s.len()
{ if s.len() > 0 && !has_prefix(s, e) { lemma_occ_nonneg(s.skip(1), e); } }
pub proof fn lemma_last(ls: Seq<Ln>, c: char, n: nat, e: Seq<char>)
    requires ls.len() > 0, forall|i: int| 0 <= i < ls.len() ==> (#[trigger] ls[i]).says.len() > 0 && forall|j: int| 0 <= j < ls[i].says.len() ==> !eol(#[trigger] ls[i].says[j])
    ensures out(ls, c, n, e).len() > 0, !eol(out(ls, c, n, e).last())
    decreases ls.len()
{
    let l = line_of(ls[0], c, n);
    if ls.len() == 1 {
        assert(l.last() == ls[0].says[ls[0].says.len() - 1]);
    } else {
        assert forall|i: int| 0 <= i < ls.skip(1).len() implies (#[trigger] ls.skip(1)[i]).says.len() > 0 && forall|j: int| 0 <= j < ls.skip(1)[i].says.len() ==> !eol(#[trigger] ls.skip(1)[i].says[j]) by { assert(ls.skip(1)[i] == ls[i + 1]); }
        lemma_last(ls.skip(1), c, n, e);
        let m = out(ls.skip(1), c, n, e);
        assert(out(ls, c, n, e).last() == m.last());
    }
}

pub proof fn lemma_byte_max(s: Seq<char>, k: int)
    requires 0 <= k <= s.len()
    ensures k <= byte_at(s, k) <= 4 * k
    decreases k
{ if k > 0 { lemma_byte_max(s, k - 1); } }
pub open spec fn only_before(s: Seq<char>, k: int) -> bool { 0 <= k < s.len() && eol(s[k]) && forall|j: int| 0 <= j < k ==> !eol(#[trigger] s[j]) }
pub proof fn lemma_find_eol(s: Seq<char>)
    ensures
        forall|k: int| #[trigger] only_before(s, k) ==> first_eol(s) == k,
        (forall|j: int| 0 <= j < s.len() ==> !eol(#[trigger] s[j])) ==> first_eol(s) == s.len(),
{
    assert forall|k: int| #[trigger] only_before(s, k) implies first_eol(s) == k by { lemma_first_eol(s, k); }
    if forall|j: int| 0 <= j < s.len() ==> !eol(#[trigger] s[j]) { lemma_first_eol(s, s.len() as int); }
}
pub proof fn lemma_first_is(s: Seq<char>)
    ensures 0 <= first_eol(s) <= s.len(), first_eol(s) < s.len() ==> eol(s[first_eol(s)])
    decreases s.len()
{ if s.len() > 0 && !eol(s[0]) { lemma_first_is(s.skip(1)); assert(first_eol(s) < s.len() ==> s[first_eol(s)] == s.skip(1)[first_eol(s) - 1]); } }
/// what the slices at the end of the first line are
pub proof fn lemma_slices(s: Seq<char>)
    requires first_eol(s) < s.len()
    ensures ({
        let k = first_eol(s);
        let b = byte_at(s, k);
        &&& b <= 4 * k && 0 <= k
        &&& boundary(s, b) && boundary(s, b + 1)
        &&& forall|r: Seq<char>| #[trigger] sliced(s, b, b + 1, r) ==> r == seq![s[k]]
        &&& s[k] == '\r' && k + 1 < s.len() && s[k + 1] == '\n' ==> boundary(s, b + 2) && forall|r: Seq<char>| #[trigger] sliced(s, b, b + 2, r) ==> r == seq!['\r', '\n']
        &&& sliced(s, b, b + 2, seq!['\r', '\n']) ==> s[k] == '\r' && k + 1 < s.len() && s[k + 1] == '\n'
    })
{
    lemma_first_is(s);
    let k = first_eol(s);
    let b = byte_at(s, k);
    lemma_byte_max(s, k);
    assert(byte_at(s, k + 1) == b + 1);
    assert forall|r: Seq<char>| #[trigger] sliced(s, b, b + 1, r) implies r == seq![s[k]] by {
        let (i, j) = choose|i: int, j: int| 0 <= i <= j <= s.len() && #[trigger] byte_at(s, i) == b && #[trigger] byte_at(s, j) == b + 1 && r == s.subrange(i, j);
        lemma_byte_inj(s, i, k);
        lemma_byte_inj(s, j, k + 1);
        assert(r =~= seq![s[k]]);
    }
    if s[k] == '\r' && k + 1 < s.len() && s[k + 1] == '\n' {
        assert(byte_at(s, k + 2) == b + 2);
        assert forall|r: Seq<char>| #[trigger] sliced(s, b, b + 2, r) implies r == seq!['\r', '\n'] by {
            let (i, j) = choose|i: int, j: int| 0 <= i <= j <= s.len() && #[trigger] byte_at(s, i) == b && #[trigger] byte_at(s, j) == b + 2 && r == s.subrange(i, j);
            lemma_byte_inj(s, i, k);
            lemma_byte_inj(s, j, k + 2);
            assert(r =~= seq!['\r', '\n']);
        }
    }
    let x = seq!['\r', '\n'];
    if sliced(s, b, b + 2, x) {
        let (i, j) = choose|i: int, j: int| 0 <= i <= j <= s.len() && #[trigger] byte_at(s, i) == b && #[trigger] byte_at(s, j) == b + 2 && x == s.subrange(i, j);
        lemma_byte_inj(s, i, k);
        assert(x[0] == s[k] && x[1] == s[k + 1]);
    }
}
/// a piece is no longer than the whole
pub proof fn lemma_split_len(s: Seq<char>, p: Seq<char>)
    ensures forall|i: int| 0 <= i < split_by(s, p).len() ==> (#[trigger] split_by(s, p)[i]).len() <= s.len(), split_by(s, p).len() > 0
    decreases s.len()
{
    let k = occ(s, p);
    lemma_occ_nonneg(s, p);
    if p.len() == 0 || k + p.len() > s.len() || k < 0 {} else {
        lemma_split_len(s.skip((k + p.len()) as int), p);
        assert forall|i: int| 0 <= i < split_by(s, p).len() implies (#[trigger] split_by(s, p)[i]).len() <= s.len() by {
            if i > 0 { assert(split_by(s, p)[i] == split_by(s.skip((k + p.len()) as int), p)[i - 1]); }
        }
    }
}
/// where a line of serde's text stops being indented, in bytes and in characters
pub proof fn lemma_indent(l: Ln)
    requires l.says.len() > 0, !ws(l.says[0])
    ensures ({
        let s = line_of(l, ' ', 2);
        &&& s.len() > 2 * l.deep
        &&& byte_at(s, 2 * l.deep as int) == 2 * l.deep && boundary(s, (2 * l.deep) as int)
        &&& !ws(s[2 * l.deep as int])
        &&& forall|j: int| 0 <= j < 2 * l.deep ==> ws(#[trigger] s[j])
        &&& s.skip(2 * l.deep as int) == l.says
        &&& forall|j: int| 0 <= j < s.len() && !ws(s[j]) && (forall|i: int| 0 <= i < j ==> ws(#[trigger] s[i])) ==> #[trigger] byte_at(s, j) == 2 * l.deep
    })
{
    let s = line_of(l, ' ', 2);
    let k = 2 * l.deep as int;
    assert forall|j: int| 0 <= j < k implies ws(#[trigger] s[j]) && (s[j] as u32) < 0x80 by {}
    lemma_ascii(s, k);
    assert(s[k] == l.says[0]);
    assert(s.skip(k) =~= l.says);
    assert forall|j: int| 0 <= j < s.len() && !ws(s[j]) && (forall|i: int| 0 <= i < j ==> ws(#[trigger] s[i])) implies #[trigger] byte_at(s, j) == k by {
        if j > k { assert(ws(s[k])); }
        if j < k { assert(ws(s[j])); }
    }
}
// ---- the code: oro-pretty-json ------------------------------
//@fn crates/oro-pretty-json/src/lib.rs is_json_whitespace
    ensures ret == ws(c)
//@end
//@fn crates/oro-pretty-json/src/lib.rs detect_line_end
    requires fits(json@)
    ensures
        ret is Some <==> end_in(json@) is Some,
        ret is Some ==> (ret->0).0@ == end_in(json@)->0 && (ret->0).1 == ends(json@),
//@m get => vx_get
//@closure 0 (usize) -> (r: String)
    requires end_in(json@) is Some, $0 == byte_at(json@, first_eol(json@)), first_eol(json@) < json@.len(), fits(json@)
    ensures r@ == end_in(json@)->0
//@closure 1 (String) -> (r: (String, bool))
    ensures r.0 == $0, r.1 == ends(json@)
//@at body_start
    proof {
        lemma_find_eol(json@);
        lemma_first_is(json@);
        reveal_strlit("\r");
        reveal_strlit("\r\n");
        assert("\r"@ =~= seq!['\r']);
        assert("\r\n"@ =~= seq!['\r', '\n']);
        assert(seq!['\n'][0] == '\n' && seq!['\r'][0] == '\r');
        if first_eol(json@) < json@.len() { lemma_slices(json@); }
        assert forall|k: int| 0 <= k < json@.len() && (#[trigger] byte_at(json@, k)) == byte_at(json@, k) && eol(json@[k]) && (forall|j: int| 0 <= j < k ==> !eol(#[trigger] json@[j])) implies only_before(json@, k) by {}
    }
//@end
//@fn crates/oro-pretty-json/src/lib.rs detect_indentation
//@attr #[verifier::allow_complex_invariants]
    requires fits(json@)
    ensures
        ret is Some <==> indent_in(json@) is Some,
        ret is Some ==> (ret->0).0 == (indent_in(json@)->0).0 && (ret->0).1 == (indent_in(json@)->0).1 && (ret->0).1 < 0x1_0000_0000_0000,
//@closure 0 (char) -> (r: (char, usize))
    ensures r.0 == $0, r.1 == indent
//@loop 0
    invariant_except_break
        $it.all() == second_line@, 0 <= $it.pos() <= second_line@.len(), second_line@.len() <= json@.len(), fits(json@),
        indent == $it.pos(),
        forall|j: int| 0 <= j < $it.pos() ==> ws(#[trigger] second_line@[j]),
        last_whitespace_char == (if $it.pos() == 0 { None::<char> } else { Some(second_line@[$it.pos() - 1]) }),
        character is None,
    ensures
        indent <= second_line@.len(),
        forall|j: int| 0 <= j < indent ==> ws(#[trigger] second_line@[j]),
        indent < second_line@.len() ==> !ws(second_line@[indent as int]),
        character == (if 0 < indent < second_line@.len() { Some(second_line@[indent - 1]) } else { None::<char> }),
    decreases $it.all().len() - $it.pos()
//@at loop 0 before
    proof { lemma_split_len(json@, line_end@); }
//@at loop 0 after
    proof { lemma_lead(second_line@, indent as int); }
//@end
//@fn crates/oro-pretty-json/src/lib.rs from_str
    requires fits(json.av())
    ensures ret is Ok ==> read_as(json.av(), ret->Ok_0)
//@subst impl AsRef<str> =>> impl VxAsRef
//@m as_ref => vx_as_ref
//@at body_start
    proof {
        assert forall|v: Value, c: char, n: nat, e: Seq<char>, t: bool| #[trigger] usual(json.av(), v, c, n, e, t) implies
            ends(json.av()) == t && (lines_in(v).len() > 1 || t ==> end_in(json.av()) == Some(e)) && (lines_in(v).len() > 1 ==> indent_in(json.av()) == Some((c, n)))
            && lines_in(v).len() >= 1
        by { lemma_usual(json.av(), v, c, n, e, t); }
        assert forall|v: Value, c: char, n: nat, e: Seq<char>| lines_in(v).len() == 1 implies #[trigger] out(lines_in(v), c, n, e) == lines_in(v)[0].says by {
            broadcast use lines_in_ok;
            assert(n * 0 == 0) by (nonlinear_arith);
            assert(out(lines_in(v), c, n, e) =~= lines_in(v)[0].says);
        }
    }
//@end
//@fn crates/oro-pretty-json/src/lib.rs to_string_pretty
//@attr #[verifier::rlimit(60)]
    requires formatted.count < 0x1_0000_0000_0000
    ensures ret is Ok ==> ret->Ok_0@ == text_of(*formatted)
//@subst? &$0[$1..] =>> vx_from($0, $1)
//@closure 0 (char) -> (r: bool)
    ensures r == !ws($0)
//@loop 0
    invariant
        lines_ok(lines_in(formatted.value)),
        formatted.count < 0x1_0000_0000_0000,
        forall|i: int| 0 <= i < lines_in(formatted.value).len() ==> (#[trigger] lines_in(formatted.value)[i]).deep < 0x8000,
        $it.all().len() == lines_in(formatted.value).len(), 0 <= $it.pos() <= $it.all().len(),
        forall|i: int| 0 <= i < $it.all().len() ==> (#[trigger] $it.all()[i])@ == line_of(lines_in(formatted.value)[i], ' ', 2),
        past_first_line == ($it.pos() > 0),
        ret@ == out(lines_in(formatted.value).take($it.pos()), formatted.character, formatted.count as nat, formatted.line_end@),
    decreases $it.all().len() - $it.pos()
//@at loop 0 before
    proof { broadcast use lines_in_ok; lemma_lines(lines_in(formatted.value)); }
//@at loop 0 body_start
    let ghost ls = lines_in(formatted.value);
    let ghost l = ls[vx_it0.pos() - 1];
    proof {
        broadcast use text_facts;
        lemma_indent(l);
        assert(vx_it0.all()[vx_it0.pos() - 1]@ == line_of(l, ' ', 2));
        lemma_out_push(ls.take(vx_it0.pos() - 1), l, formatted.character, formatted.count as nat, formatted.line_end@);
        assert(ls.take(vx_it0.pos()) =~= ls.take(vx_it0.pos() - 1).push(l));
        assert(formatted.count * l.deep <= 0x1_0000_0000_0000 * 0x8000) by (nonlinear_arith) requires formatted.count < 0x1_0000_0000_0000, l.deep < 0x8000;
    }
//@at loop 0 after
    proof {
        broadcast use text_facts;
        assert(lines_in(formatted.value).take(lines_in(formatted.value).len() as int) =~= lines_in(formatted.value));
    }
//@end

// ---- JSON objects, in order ------------------------------
pub uninterp spec fn fs(v: Value) -> Option<Seq<(String, Value)>>;
pub uninterp spec fn nil() -> Value;
pub uninterp spec fn str_value(s: Seq<char>) -> Value;
pub broadcast axiom fn nil_plain() ensures #[trigger] fs(nil()) is None;
pub broadcast axiom fn keys_differ(v: Value)
    ensures #[trigger] fs(v) is Some ==> forall|i: int, j: int| 0 <= i < j < fs(v)->0.len() ==> (#[trigger] fs(v)->0[i]).0@ != (#[trigger] fs(v)->0[j]).0@;
pub open spec fn is_at(f: Seq<(String, Value)>, k: Seq<char>, i: int) -> bool { 0 <= i < f.len() && f[i].0@ == k }
pub open spec fn haskey(f: Seq<(String, Value)>, k: Seq<char>) -> bool { exists|i: int| is_at(f, k, i) }
pub open spec fn entries(v: Value) -> Seq<(String, Value)> { if fs(v) is Some { fs(v)->0 } else { Seq::empty() } }
/// the value of a field, or null
pub open spec fn got(v: Value, k: Seq<char>, x: Value) -> bool {
    &&& forall|i: int| #[trigger] is_at(entries(v), k, i) ==> x == entries(v)[i].1
    &&& !haskey(entries(v), k) ==> x == nil()
}
/// the same fields in the same order, `k`'s changed to `x`, or added after them
pub open spec fn set_to(a: Value, b: Value, k: Seq<char>, x: Value) -> bool {
    &&& fs(b) is Some
    &&& forall|i: int| #[trigger] is_at(entries(a), k, i) ==> fs(b)->0 == entries(a).update(i, (entries(a)[i].0, x))
    &&& !haskey(entries(a), k) ==> fs(b)->0.len() == entries(a).len() + 1 && fs(b)->0.drop_last() == entries(a) && fs(b)->0.last().0@ == k && fs(b)->0.last().1 == x
}
/// without the entry for `k`, everything else as and where it was
pub open spec fn without(f: Seq<(String, Value)>, k: Seq<char>) -> Seq<(String, Value)> decreases f.len() {
    if f.len() == 0 { f } else if f.last().0@ == k { without(f.drop_last(), k) } else { without(f.drop_last(), k).push(f.last()) }
}
pub proof fn lemma_without(f: Seq<(String, Value)>, k: Seq<char>)
    requires !haskey(f, k)
    ensures without(f, k) == f
    decreases f.len()
{
    if f.len() > 0 {
        assert(!is_at(f, k, f.len() - 1));
        assert forall|i: int| !is_at(f.drop_last(), k, i) by { if is_at(f.drop_last(), k, i) { assert(is_at(f, k, i)); } }
        lemma_without(f.drop_last(), k);
        assert(without(f, k) =~= f);
    }
}
pub broadcast proof fn sweep_without(f: Seq<(String, Value)>, k: Seq<char>)
    requires !haskey(f, k)
    ensures #[trigger] without(f, k) == f
{ lemma_without(f, k); }
/// the kind `k` no longer has `name`
pub open spec fn one(v: Value, w: Value, k: Seq<char>, name: Seq<char>) -> bool {
    ||| w == v && exists|x: Value| #[trigger] got(v, k, x) && fs(x) is None
    ||| w == v && exists|x: Value| #[trigger] got(v, k, x) && fs(x) is Some && !haskey(fs(x)->0, name)
    ||| exists|x: Value, y: Value| #[trigger] got(v, k, x) && #[trigger] set_to(v, w, k, y) && fs(x) is Some && fs(y) == Some(without(fs(x)->0, name))
}
pub proof fn lemma_kinds()
    ensures forall|i: int, j: int| 0 <= i < j < 4 ==> kinds()[i] != kinds()[j], kinds().len() == 4
{
    let k = kinds();
    assert(k[0] == "dependencies"@ && k[1] == "devDependencies"@ && k[2] == "optionalDependencies"@ && k[3] == "peerDependencies"@);
    reveal_strlit("dependencies"); reveal_strlit("devDependencies"); reveal_strlit("optionalDependencies"); reveal_strlit("peerDependencies");
    assert(k[0].len() == 12 && k[1].len() == 15 && k[2].len() == 20 && k[3].len() == 16);
}
pub proof fn lemma_sweep(u: Value, v: Value, w: Value, name: Seq<char>, ks: Seq<Seq<char>>, j: int)
    requires 0 <= j < ks.len(), forall|a: int, b: int| 0 <= a < b < ks.len() ==> ks[a] != ks[b], swept(u, v, name, ks.take(j)), one(v, w, ks[j], name)
    ensures swept(u, w, name, ks.take(j + 1))
{
    broadcast use nil_plain, keys_differ, sweep_without;
    let t = ks.take(j + 1);
    assert(t =~= ks.take(j).push(ks[j]));
    assert(!ks.take(j).contains(ks[j]));
    assert forall|k: Seq<char>| #[trigger] t.contains(k) == (ks.take(j).contains(k) || k == ks[j]) by {
        if t.contains(k) { let i = choose|i: int| 0 <= i < t.len() && t[i] == k; if i < j { assert(ks.take(j)[i] == k); } }
        if ks.take(j).contains(k) { let i = choose|i: int| 0 <= i < j && ks.take(j)[i] == k; assert(t[i] == k); }
        if k == ks[j] { assert(t[j] == k); }
    }
    if fs(u) is Some {
        if w == v && exists|x: Value| #[trigger] got(v, ks[j], x) && (fs(x) is None || !haskey(fs(x)->0, name)) {
            let x = choose|x: Value| #[trigger] got(v, ks[j], x) && (fs(x) is None || !haskey(fs(x)->0, name));
            assert forall|i: int| 0 <= i < fs(u)->0.len() && fs(u)->0[i].0@ == ks[j] implies (#[trigger] fs(v)->0[i]).1 == x by { assert(is_at(entries(v), ks[j], i)); }
        } else {
            let (x, y) = choose|x: Value, y: Value| #[trigger] got(v, ks[j], x) && #[trigger] set_to(v, w, ks[j], y) && fs(x) is Some && fs(y) == Some(without(fs(x)->0, name));
            if !haskey(entries(v), ks[j]) { assert(x == nil()); }
            let p = choose|p: int| is_at(entries(v), ks[j], p);
            assert(is_at(entries(v), ks[j], p));
            assert forall|i: int| 0 <= i < fs(u)->0.len() && i != p implies fs(u)->0[i].0@ != ks[j] by { assert(fs(v)->0[i].0 == fs(u)->0[i].0); assert(fs(v)->0[p].0@ == ks[j]); }
        }
    }
}
pub broadcast proof fn sweep_put(u: Value, t: Value, v: Value, kind: Seq<char>, name: Seq<char>, text: Seq<char>)
    requires #[trigger] swept(u, t, name, kinds()), #[trigger] put(t, v, kind, name, text)
    ensures added(u, v, kind, name, text)
{}
impl<'a> Index<&'a str> for Value {
    type Output = Value;
    #[verifier::external_body]
    fn index(&self, k: &'a str) -> (r: &Value) ensures got(*self, k@, *r) { unimplemented!() }
}
impl<'a> vstd::std_specs::core::IndexSpecImpl<&'a str> for Value {
    open spec fn index_req(&self, k: &&'a str) -> bool { true }
}
// (it panics for what is neither an object nor null)
impl<'a> IndexMut<&'a str> for Value {
    #[verifier::external_body]
    fn index_mut(&mut self, k: &'a str) -> (r: &mut Value)
        ensures fs(*old(self)) is Some || *old(self) == nil(), got(*old(self), k@, *r), set_to(*old(self), *final(self), k@, *final(r)) { unimplemented!() }
}
#[verifier::external_body]
pub struct JsonMap { _p: () }
impl JsonMap {
    pub uninterp spec fn m(&self) -> Seq<(String, Value)>;
    #[verifier::external_body]
    pub fn contains_key(&self, k: &str) -> (r: bool) ensures r == haskey(self.m(), k@) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_retain<F: Fn(&str) -> bool>(&mut self, f: F)
        requires forall|x: &str| f.requires((x,))
        ensures forall|k: Seq<char>| (forall|x: &str, r: bool| #[trigger] f.ensures((x,), r) ==> r == (x@ != k)) ==> final(self).m() == #[trigger] without(old(self).m(), k) { unimplemented!() }
    /// (indexmap's swap_remove: the last entry takes its place)
    #[verifier::external_body]
    pub fn remove(&mut self, k: &str) -> (r: Option<Value>)
        ensures forall|i: int| #[trigger] is_at(old(self).m(), k@, i) ==> final(self).m() == old(self).m().update(i, old(self).m().last()).drop_last(),
            !haskey(old(self).m(), k@) ==> final(self).m() == old(self).m() { unimplemented!() }
}
impl Value {
    #[verifier::external_body]
    pub fn is_object(&self) -> (r: bool) ensures r == (fs(*self) is Some) { unimplemented!() }
    #[verifier::external_body]
    pub fn as_object_mut(&mut self) -> (r: Option<&mut JsonMap>)
        ensures r is Some <==> fs(*old(self)) is Some,
            r matches Some(x) ==> x.m() == fs(*old(self))->0 && fs(*final(self)) == Some(final(x).m()),
            r is None ==> *final(self) == *old(self) { unimplemented!() }
}

// ---- what the property says ------------------------------
pub open spec fn kinds() -> Seq<Seq<char>> { seq!["dependencies"@, "devDependencies"@, "optionalDependencies"@, "peerDependencies"@] }
/// the first `n` kinds of dependencies no longer have `name`; everything else is as and where it was
pub open spec fn swept(u: Value, v: Value, name: Seq<char>, ks: Seq<Seq<char>>) -> bool {
    if fs(u) is None { v == u } else {
        &&& fs(v) is Some && fs(v)->0.len() == fs(u)->0.len()
        &&& forall|i: int| 0 <= i < fs(u)->0.len() ==> (#[trigger] fs(v)->0[i]).0 == fs(u)->0[i].0 && (
                if ks.contains(fs(u)->0[i].0@) && fs(fs(u)->0[i].1) is Some { fs(fs(v)->0[i].1) == Some(without(fs(fs(u)->0[i].1)->0, name)) }
                else { fs(v)->0[i].1 == fs(u)->0[i].1 })
    }
}
/// `name` asks for `text` in `kind`
pub open spec fn put(u: Value, v: Value, kind: Seq<char>, name: Seq<char>, text: Seq<char>) -> bool {
    exists|w: Value, x: Value| #[trigger] got(u, kind, w) && #[trigger] set_to(u, v, kind, x) && set_to(w, x, name, str_value(text))
}
pub open spec fn added(u: Value, v: Value, kind: Seq<char>, name: Seq<char>, text: Seq<char>) -> bool {
    exists|t: Value| #[trigger] swept(u, t, name, kinds()) && put(t, v, kind, name, text)
}
/// what `oro add` writes for a package
pub open spec fn entry_of(n: Nassun, text: Seq<char>, prefix: Seq<char>, p: Package, s: Seq<char>) -> bool {
    &&& resolves(n, text, p)
    &&& match target_of(spec_of(text)) {
        PackageSpec::Git(info) => s == info.disp(),
        PackageSpec::Dir { path } => s == path_text(path),
        PackageSpec::Npm { .. } => p.resolution() matches PackageResolution::Npm { version, .. } && s == asks(spec_of(text), prefix + version.disp()),
        _ => false,
    }
}
/// a request's text, with `t` for its version
pub open spec fn asks(s: PackageSpec, t: Seq<char>) -> Seq<char> {
    match s { PackageSpec::Alias { name, spec } => (if *spec is Npm { "npm:"@ } else { ""@ }) + shows_as(*spec, t), _ => t }
}
pub open spec fn shows_as(s: PackageSpec, t: Seq<char>) -> Seq<char> decreases s {
    match s {
        PackageSpec::Npm { scope, name, requested } => name@ + ("@"@ + t),
        PackageSpec::Alias { name, spec } => (name@ + "@"@) + ((if *spec is Npm { "npm:"@ } else { ""@ }) + shows_as(*spec, t)),
        _ => shows(s),
    }
}
pub open spec fn adds(n: Nassun, prefix: Seq<char>, kind: Seq<char>, texts: Seq<String>, u: Value, v: Value) -> bool decreases texts.len() {
    if texts.len() == 0 { v == u } else {
        exists|t: Value, p: Package, s: Seq<char>| #[trigger] resolves(n, texts.last()@, p) && entry_of(n, texts.last()@, prefix, p, s)
            && adds(n, prefix, kind, texts.drop_last(), u, t) && #[trigger] added(t, v, kind, p.nm(), s)
    }
}
pub open spec fn removes(names: Seq<String>, u: Value, v: Value) -> bool decreases names.len() {
    if names.len() == 0 { v == u } else {
        spec_of(names.last()@) is Npm && exists|t: Value| removes(names.drop_last(), u, t) && #[trigger] swept(t, v, spec_of(names.last()@)->Npm_name@, kinds())
    }
}
pub uninterp spec fn may_apply(a: ApplyArgs, m: CorgiManifest) -> bool;
pub uninterp spec fn applied(a: ApplyArgs, m: CorgiManifest) -> bool;
pub uninterp spec fn may_write(p: Seq<Component>, text: Seq<char>) -> bool;
pub uninterp spec fn written(p: Seq<Component>, text: Seq<char>) -> bool;
/// what the file there says
pub uninterp spec fn file_text(p: Seq<Component>) -> Seq<char>;
pub open spec fn manifest_in(a: ApplyArgs) -> Seq<Component> { joined(a.root.c(), path_of("package.json"@)) }
pub open spec fn unlocked(a: ApplyArgs) -> ApplyArgs { ApplyArgs { locked: false, ..a } }
/// `f` is the project's package.json, in the style it has, as the command is to leave it
pub open spec fn add_result(c: AddCmd, f: Formatted) -> bool {
    exists|f0: Formatted| #[trigger] read_as(file_text(manifest_in(c.apply)), f0)
        && f.character == f0.character && f.count == f0.count && f.line_end == f0.line_end && f.trailing_line_end == f0.trailing_line_end
        && adds(nassun_of(nassun_args(c.apply)), c.prefix@, kind_of(c), c.specs@, f0.value, f.value)
}
pub open spec fn remove_result(c: RemoveCmd, f: Formatted) -> bool {
    exists|f0: Formatted| #[trigger] read_as(file_text(manifest_in(c.apply)), f0)
        && f.character == f0.character && f.count == f0.count && f.line_end == f0.line_end && f.trailing_line_end == f0.trailing_line_end
        && removes(c.names@, f0.value, f.value)
}
/// applied as it is to be, and only then written
pub open spec fn may_finish(a: ApplyArgs, f: Formatted) -> bool {
    may_apply(unlocked(a), corgi_of(text_of(f))) && (applied(unlocked(a), corgi_of(text_of(f))) ==> may_write(manifest_in(a), text_of(f)))
}
pub open spec fn finished(a: ApplyArgs, f: Formatted) -> bool {
    applied(unlocked(a), corgi_of(text_of(f))) && written(manifest_in(a), text_of(f))
}
pub open spec fn kind_of(c: AddCmd) -> Seq<char> { if c.dev { "devDependencies"@ } else if c.opt { "optionalDependencies"@ } else { "dependencies"@ } }

// ---- assumed contracts: the rest of the command's world ------------------------------
#[verifier::external_body]
pub struct Report { _p: () }
pub type Result<T, E = Report> = core::result::Result<T, E>;
#[verifier::external_body]
pub struct IoError { _p: () }
#[verifier::external_body]
pub struct PackageSpecError { _p: () }
pub enum OroError { InvalidPackageName(String) }
impl From<PackageSpecError> for Report { #[verifier::external_body] fn from(e: PackageSpecError) -> Self { unimplemented!() } }
pub enum NassunError { Other }
impl From<NassunError> for Report { #[verifier::external_body] fn from(e: NassunError) -> Self { unimplemented!() } }
impl VxInto<Report> for OroError { #[verifier::external_body] fn vx_into(self) -> (r: Report) { unimplemented!() } }
pub trait IntoDiagnostic<T>: Sized { fn into_diagnostic(self) -> (r: Result<T>); }
impl<T, E> IntoDiagnostic<T> for core::result::Result<T, E> {
    #[verifier::external_body]
    fn into_diagnostic(self) -> (r: Result<T>) ensures r is Ok <==> self is Ok, r is Ok ==> r->Ok_0 == self->Ok_0 { unimplemented!() }
}
pub mod async_std { pub mod fs {
    use super::super::*;
    #[verifier::external_body]
    pub fn read_to_string(p: Path) -> (r: core::result::Result<String, IoError>) ensures r is Ok ==> r->Ok_0@ == file_text(p.c()) && fits(r->Ok_0@) { unimplemented!() }
    #[verifier::external_body]
    pub fn write(p: Path, s: String) -> (r: core::result::Result<(), IoError>)
        requires may_write(p.c(), s@)
        ensures r is Ok ==> written(p.c(), s@) { unimplemented!() }
} }
pub mod oro_pretty_json { pub use super::{from_str, to_string_pretty}; }
#[verifier::external_body]
pub struct Url { _p: () }
#[verifier::external_body]
pub struct Integrity { _p: () }
#[verifier::external_body]
pub struct SemVerVersion { _p: () }
pub type Version = SemVerVersion;
#[verifier::external_body]
pub struct Range { _p: () }
#[verifier::external_body]
pub struct GitInfo { _p: () }
impl VxDisp for SemVerVersion { uninterp spec fn disp(&self) -> Seq<char>; uninterp spec fn dbg(&self) -> Seq<char>; }
impl VxDisp for Range { uninterp spec fn disp(&self) -> Seq<char>; uninterp spec fn dbg(&self) -> Seq<char>; }
impl VxDisp for GitInfo { uninterp spec fn disp(&self) -> Seq<char>; uninterp spec fn dbg(&self) -> Seq<char>; }
pub uninterp spec fn path_text(p: Path) -> Seq<char>;
pub broadcast axiom fn lossy_text(l: Lossy) ensures #[trigger] l.txt() == path_text(l.of());
impl VxToStr for Lossy { open spec fn shows(&self) -> Seq<char> { self.txt() } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
impl VxToStr for VersionSpec { open spec fn shows(&self) -> Seq<char> { self.disp() } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
impl VxToStr for SemVerVersion { open spec fn shows(&self) -> Seq<char> { self.disp() } #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() } }
pub struct FmtError;
pub mod fmt {
    pub type Result = core::result::Result<(), super::FmtError>;
    pub type Error = super::FmtError;
    #[verifier::external_body]
    pub struct Formatter<'a> { _p: &'a () }
    impl<'a> Formatter<'a> { pub uninterp spec fn txt(&self) -> vstd::prelude::Seq<char>; }
}
#[verifier::external_body]
pub fn vx_write(f: &mut fmt::Formatter<'_>, s: String) -> (r: fmt::Result) ensures r is Ok ==> final(f).txt() == old(f).txt() + s@ { unimplemented!() }
//@item crates/oro-package-spec/src/lib.rs VersionSpec
//@end
//@item crates/oro-package-spec/src/lib.rs PackageSpec
//@end
//@item crates/nassun/src/resolver.rs PackageResolution
//@end
//@item src/apply_args.rs ApplyArgs
//@end
//@item src/nassun_args.rs NassunArgs
//@end
//@item src/commands/add.rs AddCmd
//@end
//@item src/commands/remove.rs RemoveCmd
//@end
impl Clone for PackageSpec {
    #[verifier::external_body]
    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }
}
impl VxDisp for VersionSpec {
    open spec fn disp(&self) -> Seq<char> { match *self { VersionSpec::Tag(t) => t@, VersionSpec::Version(v) => v.disp(), VersionSpec::Range(r) => r.disp() } }
    uninterp spec fn dbg(&self) -> Seq<char>;
}
impl VxDisp for PackageSpec { open spec fn disp(&self) -> Seq<char> { shows(*self) } uninterp spec fn dbg(&self) -> Seq<char>; }
impl VxDisp for Box<PackageSpec> { open spec fn disp(&self) -> Seq<char> { shows(**self) } uninterp spec fn dbg(&self) -> Seq<char>; }
pub open spec fn target_of(s: PackageSpec) -> PackageSpec decreases s {
    match s { PackageSpec::Alias { name, spec } => target_of(*spec), _ => s }
}
pub open spec fn retarget(s: PackageSpec, t: PackageSpec) -> PackageSpec decreases s {
    match s { PackageSpec::Alias { name, spec } => PackageSpec::Alias { name, spec: Box::new(retarget(*spec, t)) }, _ => t }
}
/// a spec, as text
pub open spec fn shows(s: PackageSpec) -> Seq<char> decreases s {
    match s {
        PackageSpec::Dir { path } => path_text(path),
        PackageSpec::Git(info) => info.disp(),
        PackageSpec::Npm { scope, name, requested } => if requested is Some { name@ + ("@"@ + requested->0.disp()) } else { name@ },
        PackageSpec::Alias { name, spec } => (name@ + "@"@) + ((if *spec is Npm { "npm:"@ } else { ""@ }) + shows(*spec)),
    }
}
pub open spec fn request_of(s: PackageSpec) -> Seq<char> {
    match s {
        PackageSpec::Dir { path } => path_text(path),
        PackageSpec::Git(info) => info.disp(),
        PackageSpec::Npm { scope, name, requested } => if requested is Some { requested->0.disp() } else { "*"@ },
        PackageSpec::Alias { name, spec } => (if *spec is Npm { "npm:"@ } else { ""@ }) + shows(*spec),
    }
}
pub uninterp spec fn spec_of(s: Seq<char>) -> PackageSpec;
pub trait VxParse { fn vx_parse(&self) -> (r: core::result::Result<PackageSpec, PackageSpecError>); }
impl VxParse for String {
    #[verifier::external_body]
    fn vx_parse(&self) -> (r: core::result::Result<PackageSpec, PackageSpecError>) ensures r is Ok ==> r->Ok_0 == spec_of(self@) { unimplemented!() }
}
//@method parse => vx_parse
#[verifier::external_body]
pub struct Package { _p: () }
impl Package {
    pub uninterp spec fn spec(&self) -> PackageSpec;
    pub uninterp spec fn resolution(&self) -> PackageResolution;
    pub uninterp spec fn nm(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn from(&self) -> (r: &PackageSpec) ensures *r == self.spec() { unimplemented!() }
    #[verifier::external_body]
    pub fn name(&self) -> (r: &str) ensures r@ == self.nm() { unimplemented!() }
    #[verifier::external_body]
    pub fn resolved(&self) -> (r: &PackageResolution) ensures *r == self.resolution() { unimplemented!() }
}
#[verifier::external_body]
pub struct Nassun { _p: () }
pub uninterp spec fn resolves(n: Nassun, text: Seq<char>, p: Package) -> bool;
impl Nassun {
    /// (what it picks: units versions and registry)
    #[verifier::external_body]
    pub fn resolve(&self, s: &String) -> (r: core::result::Result<Package, NassunError>)
        ensures r matches Ok(p) ==> resolves(*self, s@, p) && p.spec() == spec_of(s@) && (target_of(p.spec()) is Npm ==> p.resolution() is Npm) { unimplemented!() }
}
pub uninterp spec fn nassun_of(a: NassunArgs) -> Nassun;
pub uninterp spec fn nassun_args(a: ApplyArgs) -> NassunArgs;
impl NassunArgs {
    #[verifier::external_body]
    pub fn from_apply_args(a: &ApplyArgs) -> (r: Self) ensures r == nassun_args(*a) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_nassun(&self) -> (r: Result<Nassun>) ensures r is Ok ==> r->Ok_0 == nassun_of(*self) { unimplemented!() }
}
impl ApplyArgs {
    /// (unit apply)
    #[verifier::external_body]
    pub fn execute(&self, m: CorgiManifest) -> (r: Result<()>)
        requires may_apply(*self, m)
        ensures r is Ok ==> applied(*self, m) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_never() -> (r: String) requires false { unimplemented!() }
#[verifier::external_body]
pub fn vx_unreachable() requires false { unimplemented!() }
pub proof fn lemma_target(s: PackageSpec) ensures !(target_of(s) is Alias) decreases s
{ match s { PackageSpec::Alias { name, spec } => lemma_target(*spec), _ => {} } }
pub proof fn lemma_asks(s: PackageSpec, n: PackageSpec, t: Seq<char>)
    requires target_of(s) is Npm, n is Npm, n->requested is Some, n->requested->0.disp() == t, n->Npm_name == target_of(s)->Npm_name
    ensures request_of(retarget(s, n)) == asks(s, t), shows(retarget(s, n)) == shows_as(s, t)
    decreases s
{ match s { PackageSpec::Alias { name, spec } => { lemma_asks(*spec, n, t); } _ => {} } }

// ---- the code: oro-package-spec ------------------------------
impl PackageSpec {
//@fn crates/oro-package-spec/src/lib.rs PackageSpec::is_alias
    ensures ret == (*self is Alias)
//@end
//@fn crates/oro-package-spec/src/lib.rs PackageSpec::target
    ensures *ret == target_of(*self)
    decreases *self,
//@end
//@fn crates/oro-package-spec/src/lib.rs PackageSpec::target_mut
    ensures *ret == target_of(*old(self)), *final(self) == retarget(*old(self), *final(ret))
    decreases *old(self),
//@at body_start
    proof { reveal_with_fuel(target_of, 3); reveal_with_fuel(retarget, 3); }
//@end
//@fn crates/oro-package-spec/src/lib.rs PackageSpec::requested
    ensures ret@ == request_of(*self)
//@at body_start
    proof { broadcast use lossy_text; }
//@closure 0 (&VersionSpec) -> (o: String)
    ensures o@ == $0.disp()
//@closure 1 () -> (r: String)
    ensures r@ == "*"@
//@end
//@fn crates/oro-package-spec/src/lib.rs Display@PackageSpec::fmt
    ensures ret is Ok ==> final(f).txt() == old(f).txt() + shows(*self)
//@at body_start
    proof { broadcast use lossy_text, text_facts; reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
//@end
}
impl VersionSpec {
//@fn crates/oro-package-spec/src/lib.rs Display@VersionSpec::fmt
    ensures ret is Ok ==> final(f).txt() == old(f).txt() + self.disp()
//@end
}

// ---- the code: src/commands ------------------------------
impl AddCmd {
//@fn src/commands/add.rs AddCmd::dep_kind_str
    ensures ret@ == kind_of(*self)
//@end
//@fn src/commands/add.rs AddCmd::add_to_manifest
    ensures put(old(mani).value, final(mani).value, kind_of(*self), name@, spec@),
        final(mani).character == old(mani).character && final(mani).count == old(mani).count && final(mani).line_end == old(mani).line_end && final(mani).trailing_line_end == old(mani).trailing_line_end,
//@end
//@fn src/commands/add.rs AddCmd::remove_from_manifest
    ensures swept(old(mani).value, final(mani).value, name@, kinds()),
        final(mani).character == old(mani).character && final(mani).count == old(mani).count && final(mani).line_end == old(mani).line_end && final(mani).trailing_line_end == old(mani).trailing_line_end,
//@subst? $0.retain(|$1, _| $2) =>> $0.vx_retain(|$1: &str| -> (r: bool) ensures r == ($1@ != name@) { $2 })
//@loop 0
    invariant
        $it.all().len() == 4, 0 <= $it.pos() <= 4,
        forall|i: int| 0 <= i < 4 ==> (#[trigger] $it.all()[i])@ == kinds()[i],
        swept(old(mani).value, mani.value, name@, kinds().take($it.pos())),
        mani.character == old(mani).character && mani.count == old(mani).count && mani.line_end == old(mani).line_end && mani.trailing_line_end == old(mani).trailing_line_end,
    decreases $it.all().len() - $it.pos()
//@at loop 0 body_start
    let ghost before = mani.value;
//@at loop 0 body_end
    proof {
        lemma_kinds();
        broadcast use nil_plain, keys_differ, sweep_without;
        assert(one(before, mani.value, ty@, name@));
        lemma_sweep(old(mani).value, before, mani.value, name@, kinds(), vx_it0.pos() - 1);
    }
//@at loop 0 after
    proof { assert(kinds().take(4) =~= kinds()); }
//@end
//@fn src/commands/add.rs OroCommand@AddCmd::execute
//@attr #[verifier::rlimit(60)]
    requires forall|f: Formatted| #[trigger] add_result(self, f) ==> may_finish(self.apply, f), self.specs@.len() < 0x7fff_ffff
    ensures ret is Ok ==> exists|f: Formatted| #[trigger] add_result(self, f) && finished(self.apply, f)
//@subst? unreachable!($0) =>> vx_unreachable()
//@loop 0
    invariant
        $it.all().len() == self.specs@.len(), 0 <= $it.pos() <= $it.all().len(), self.specs@.len() < 0x7fff_ffff,
        forall|i: int| 0 <= i < $it.all().len() ==> *(#[trigger] $it.all()[i]) == self.specs@[i],
        count == $it.pos(),
        nassun == nassun_of(nassun_args(self.apply)),
        manifest.character == f0.character && manifest.count == f0.count && manifest.line_end == f0.line_end && manifest.trailing_line_end == f0.trailing_line_end,
        adds(nassun, self.prefix@, kind_of(self), self.specs@.take($it.pos()), f0.value, manifest.value),
    decreases $it.all().len() - $it.pos()
//@at loop 0 before
    let ghost f0 = manifest;
    let ghost was = self;
    assert(read_as(file_text(manifest_in(self.apply)), f0));
//@at loop 0 body_start
    proof {
        broadcast use sweep_put, lossy_text;
        lemma_target(spec_of(spec@));
        let k = vx_it0.pos();
        assert(self.specs@.take(k).drop_last() =~= self.specs@.take(k - 1));
        assert(self.specs@.take(k).last() == self.specs@[k - 1]);
        assert forall|n: PackageSpec| n is Npm && n->requested is Some && n->Npm_name == target_of(spec_of(spec@))->Npm_name && target_of(spec_of(spec@)) is Npm
            implies #[trigger] request_of(retarget(spec_of(spec@), n)) == asks(spec_of(spec@), n->requested->0.disp()) by { lemma_asks(spec_of(spec@), n, n->requested->0.disp()); }
    }
//@at loop 0 after
    proof {
        assert(was.specs@.take(was.specs@.len() as int) =~= was.specs@);
        assert(add_result(was, manifest));
    }
//@end
}
impl RemoveCmd {
//@fn src/commands/remove.rs RemoveCmd::remove_from_manifest
    ensures swept(old(mani).value, final(mani).value, name@, kinds()), ret <= 4,
        final(mani).character == old(mani).character && final(mani).count == old(mani).count && final(mani).line_end == old(mani).line_end && final(mani).trailing_line_end == old(mani).trailing_line_end,
//@subst? $0.retain(|$1, _| $2) =>> $0.vx_retain(|$1: &str| -> (r: bool) ensures r == ($1@ != name@) { $2 })
//@loop 0
    invariant
        $it.all().len() == 4, 0 <= $it.pos() <= 4,
        forall|i: int| 0 <= i < 4 ==> (#[trigger] $it.all()[i])@ == kinds()[i],
        swept(old(mani).value, mani.value, name@, kinds().take($it.pos())),
        mani.character == old(mani).character && mani.count == old(mani).count && mani.line_end == old(mani).line_end && mani.trailing_line_end == old(mani).trailing_line_end,
        count <= $it.pos(),
    decreases $it.all().len() - $it.pos()
//@at loop 0 body_start
    let ghost before = mani.value;
//@at loop 0 body_end
    proof {
        lemma_kinds();
        broadcast use nil_plain, keys_differ, sweep_without;
        assert(one(before, mani.value, ty@, name@));
        lemma_sweep(old(mani).value, before, mani.value, name@, kinds(), vx_it0.pos() - 1);
    }
//@at loop 0 after
    proof { assert(kinds().take(4) =~= kinds()); }
//@end
//@fn src/commands/remove.rs OroCommand@RemoveCmd::execute
//@attr #[verifier::rlimit(60)]
    requires forall|f: Formatted| #[trigger] remove_result(self, f) ==> may_finish(self.apply, f), self.names@.len() < 0x7fff_ffff
    ensures ret is Ok ==> exists|f: Formatted| #[trigger] remove_result(self, f) && finished(self.apply, f)
//@loop 0
    invariant
        $it.all().len() == self.names@.len(), 0 <= $it.pos() <= $it.all().len(), self.names@.len() < 0x7fff_ffff,
        forall|i: int| 0 <= i < $it.all().len() ==> *(#[trigger] $it.all()[i]) == self.names@[i],
        count <= 4 * $it.pos(),
        manifest.character == f0.character && manifest.count == f0.count && manifest.line_end == f0.line_end && manifest.trailing_line_end == f0.trailing_line_end,
        removes(self.names@.take($it.pos()), f0.value, manifest.value),
    decreases $it.all().len() - $it.pos()
//@at loop 0 before
    let ghost f0 = manifest;
    let ghost was = self;
    assert(read_as(file_text(manifest_in(self.apply)), f0));
//@at loop 0 body_start
    proof {
        let k = vx_it0.pos();
        assert(self.names@.take(k).drop_last() =~= self.names@.take(k - 1));
        assert(self.names@.take(k).last() == self.names@[k - 1]);
    }
//@at loop 0 after
    proof {
        assert(was.names@.take(was.names@.len() as int) =~= was.names@);
        assert(remove_result(was, manifest));
    }
//@end
}
}
fn main() {}
