// Unit: where an option's value comes from (oro-config lib.rs, env_source.rs, kdl_source.rs; src/lib.rs)
use vstd::prelude::*;
verus! {
//@include strings.vrs
//@include case.vrs
//@include text.vrs
//@method split_once => vx_split_once
//@method strip_suffix => vx_strip_suffix
//@method strip_prefix => vx_strip_prefix
//@include iter.vrs
//@include hashmap.vrs
//@include deque.vrs
pub trait VxKey { spec fn key(&self) -> Seq<char>; }
//@include std.vrs
//@method trim_end_matches => vx_trim_end_matches
//@method trim_start_matches => vx_trim_start_matches
//@method starts_with => vx_starts_with
//@method ends_with => vx_ends_with
//@method replace => vx_replace
//@method iter => vx_it
//@method extend => vx_extend
//@method position => vx_position

pub type Words = Seq<Seq<char>>;

// ---- assumed contracts: std ------------------------------
/// a command line argument: nothing here makes ones that are not text, and they are only compared with text
#[verifier::external_body]
pub struct OsString { _p: () }
impl View for OsString { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
impl OsString {
    #[verifier::external_body]
    pub fn from(s: String) -> (r: OsString) ensures r@ == s@ { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_oseq(a: &OsString, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
pub trait VxIt<T> { fn vx_it(&self) -> (r: Iter<&T>); }
impl<T> VxIt<T> for Vec<T> {
    #[verifier::external_body]
    fn vx_it(&self) -> (r: Iter<&T>)
        ensures r.pos() == 0, r.all().len() == self@.len(), forall|i: int| #![trigger r.all()[i]] #![trigger self@[i]] 0 <= i < self@.len() ==> *r.all()[i] == self@[i]
    { unimplemented!() }
}
impl<T> Iter<T> {
    #[verifier::external_body]
    pub fn vx_position<P: Fn(T) -> bool>(self, p: P) -> (r: Option<usize>)
        requires self.pos() == 0, forall|i: int| 0 <= i < self.all().len() ==> p.requires((#[trigger] self.all()[i],)),
        ensures
            r matches Some(n) ==> n < self.all().len() && p.ensures((self.all()[n as int],), true) && forall|i: int| 0 <= i < n ==> p.ensures((#[trigger] self.all()[i],), false),
            r is None ==> forall|i: int| 0 <= i < self.all().len() ==> p.ensures((#[trigger] self.all()[i],), false),
    { unimplemented!() }
}
pub trait VxExtend<T> { fn vx_extend(&mut self, o: Vec<T>); }
impl<T> VxExtend<T> for Vec<T> {
    #[verifier::external_body]
    fn vx_extend(&mut self, o: Vec<T>) ensures final(self)@ == old(self)@ + o@ { unimplemented!() }
}
pub assume_specification<T, E, U, F: FnOnce(T) -> U>[ Result::<T, E>::map_or::<U, F> ](o: Result<T, E>, d: U, f: F) -> (ret: U)
    requires o is Ok ==> f.requires((o->Ok_0,)),
    ensures o is Ok ==> f.ensures((o->Ok_0,), ret), o is Err ==> ret == d;
/// `_` written as `-`
pub open spec fn dashed(s: Seq<char>) -> Seq<char> { s.map_values(|c: char| if c == '_' { '-' } else { c }) }
pub trait VxReplace { fn vx_replace(&self, c: char, to: &str) -> (r: String); }
impl VxReplace for String {
    #[verifier::external_body]
    fn vx_replace(&self, c: char, to: &str) -> (r: String) ensures c == '_' && to@ == "-"@ ==> r@ == dashed(self@) { unimplemented!() }
}

// ---- assumed contracts: clap ------------------------------
#[verifier::external_body]
pub struct Command { _p: () }
#[verifier::external_body]
pub struct Arg { _p: () }
#[verifier::external_body]
pub struct Id { _p: () }
#[verifier::external_body]
pub struct ArgAction { _p: () }
#[verifier::external_body]
pub struct ArgMatches { _p: () }
#[verifier::external_body]
pub struct ValueSource { _p: () }
impl ArgMatches {
    /// this argument was given on the command line
    pub uninterp spec fn given(&self, id: Seq<char>) -> bool;
    #[verifier::external_body]
    pub fn value_source(&self, id: &str) -> (r: Option<ValueSource>) ensures cli(r) == self.given(id@) { unimplemented!() }
}
pub uninterp spec fn cli(s: Option<ValueSource>) -> bool;
#[verifier::external_body]
pub fn vx_cli(s: Option<ValueSource>) -> (r: bool) ensures r == cli(s) { unimplemented!() }
impl Id {
    pub uninterp spec fn t(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &str) ensures r@ == self.t() { unimplemented!() }
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String) ensures r@ == self.t() { unimplemented!() }
}
impl ArgAction {
    pub uninterp spec fn takes(&self) -> bool;
    #[verifier::external_body]
    pub fn takes_values(&self) -> (r: bool) ensures r == self.takes() { unimplemented!() }
}
impl Arg {
    pub uninterp spec fn id(&self) -> Seq<char>;
    pub uninterp spec fn long(&self) -> Option<Seq<char>>;
    pub uninterp spec fn takes(&self) -> bool;
    #[verifier::external_body]
    pub fn get_id(&self) -> (r: &Id) ensures r.t() == self.id() { unimplemented!() }
    #[verifier::external_body]
    pub fn get_long(&self) -> (r: Option<&str>) ensures r is Some == self.long() is Some, r is Some ==> r->0@ == self.long()->0 { unimplemented!() }
    pub uninterp spec fn glob(&self) -> bool;
    /// the argument this one takes the place of
    pub uninterp spec fn overrides(&self) -> Option<Seq<char>>;
    #[verifier::external_body]
    pub fn new(id: String) -> (r: Arg) ensures r.id() == id@, r.long() is None, r.overrides() is None { unimplemented!() }
    #[verifier::external_body]
    pub fn with_long(self, l: String) -> (r: Arg) ensures r.long() == Some(l@), r.id() == self.id(), r.overrides() == self.overrides() { unimplemented!() }
    #[verifier::external_body]
    pub fn global(self, b: bool) -> (r: Arg) ensures r.glob() == b, r.id() == self.id(), r.long() == self.long(), r.overrides() == self.overrides() { unimplemented!() }
    #[verifier::external_body]
    pub fn hide(self, b: bool) -> (r: Arg) ensures r.glob() == self.glob(), r.id() == self.id(), r.long() == self.long(), r.overrides() == self.overrides() { unimplemented!() }
    #[verifier::external_body]
    pub fn switch(self) -> (r: Arg) ensures !r.takes(), r.glob() == self.glob(), r.id() == self.id(), r.long() == self.long(), r.overrides() == self.overrides() { unimplemented!() }
    #[verifier::external_body]
    pub fn overrides_with(self, id: &Id) -> (r: Arg) ensures r.takes() == self.takes(), r.glob() == self.glob(), r.id() == self.id(), r.long() == self.long(), r.overrides() == Some(id.t()) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_global_set(&self) -> (r: bool) ensures r == self.glob() { unimplemented!() }
    #[verifier::external_body]
    pub fn get_action(&self) -> (r: &ArgAction) ensures r.takes() == self.takes() { unimplemented!() }
}
/// the process' own command line
#[verifier::external_body]
pub struct Line { _p: () }
impl ArgMatches {
    /// the subcommand asked for, and what was given to it
    pub uninterp spec fn sub(&self) -> Option<(Seq<char>, ArgMatches)>;
    #[verifier::external_body]
    pub fn subcommand(&self) -> (r: Option<(&str, &ArgMatches)>) ensures r is Some == self.sub() is Some, r is Some ==> (r->0).0@ == (self.sub()->0).0 && *(r->0).1 == (self.sub()->0).1 { unimplemented!() }
    #[verifier::external_body]
    pub fn subcommand_matches(&self, name: &str) -> (r: Option<&ArgMatches>)
        ensures r is Some == (self.sub() is Some && (self.sub()->0).0 == name@), r is Some ==> *r->0 == (self.sub()->0).1 { unimplemented!() }
}
/// only subcommands that are declared are parsed
pub uninterp spec fn parsed(c: Command, m: ArgMatches) -> bool;
pub broadcast axiom fn subcommands_declared(c: Command, m: ArgMatches)
    ensures #[trigger] parsed(c, m) && m.sub() is Some ==> c.find((m.sub()->0).0) is Some && parsed(c.find((m.sub()->0).0)->0, (m.sub()->0).1);
impl Command {
    /// the arguments the command declares; clap refuses two with one id
    pub uninterp spec fn args(&self) -> Seq<Arg>;
    pub uninterp spec fn find(&self, name: Seq<char>) -> Option<Command>;
    #[verifier::external_body]
    pub fn find_subcommand(&self, name: &str) -> (r: Option<&Command>) ensures r is Some == self.find(name@) is Some, r is Some ==> *r->0 == self.find(name@)->0 { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Command) ensures r == *self { unimplemented!() }
    /// what the command line the process was started with is parsed to
    pub uninterp spec fn line(&self) -> ArgMatches;
    /// errors are left out rather than reported: the same commands and options
    #[verifier::external_body]
    pub fn ignore_errors(self, b: bool) -> (r: Command) ensures r.line() == self.line(), forall|m: ArgMatches| #[trigger] parsed(r, m) ==> parsed(self, m) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_matches(self) -> (r: ArgMatches) ensures r == self.line(), parsed(self, r) { unimplemented!() }
    #[verifier::external_body]
    pub fn get_arguments(&self) -> (r: Iter<&Arg>)
        ensures r.pos() == 0, r.all().len() == self.args().len(), forall|i: int| 0 <= i < r.all().len() ==> *(#[trigger] r.all()[i]) == self.args()[i],
            forall|i: int, j: int| 0 <= i < j < self.args().len() ==> (#[trigger] self.args()[i]).id() != (#[trigger] self.args()[j]).id()
    { unimplemented!() }
}

// ---- assumed contracts: config ------------------------------
#[verifier::external_body]
pub struct ConfigError { _p: () }
#[verifier::external_body]
pub struct Report { _p: () }
pub type Result<T, E = Report> = std::result::Result<T, E>;
pub enum ValueKind { Nil, Boolean(bool), I64(i64), I128(i128), U64(u64), U128(u128), Float(f64), String(String), Table(HashMap<String, Value>), Array(Vec<Value>) }
pub struct Value { pub kind: ValueKind }
impl VxDisp for Value { uninterp spec fn disp(&self) -> Seq<char>; uninterp spec fn dbg(&self) -> Seq<char>; }
/// what the config crate takes for a boolean (`1`, "on", ...), and for text (numbers and booleans, too)
pub uninterp spec fn as_bool(v: Value) -> Option<bool>;
pub uninterp spec fn as_text(v: Value) -> Option<Seq<char>>;
impl Value {
    #[verifier::external_body]
    pub fn into_string(self) -> (r: Result<String, ConfigError>) ensures r is Ok == as_text(self) is Some, r is Ok ==> r->Ok_0@ == as_text(self)->0 { unimplemented!() }
}
#[verifier::external_body]
pub struct OroConfig { _p: () }
impl OroConfig {
    pub uninterp spec fn val(&self, key: Seq<char>) -> Option<Value>;
    #[verifier::external_body]
    pub fn get_bool(&self, key: &str) -> (r: Result<bool, ConfigError>)
        ensures r is Ok <==> self.val(key@) is Some && as_bool(self.val(key@)->0) is Some, r is Ok ==> r->Ok_0 == as_bool(self.val(key@)->0)->0 { unimplemented!() }
    #[verifier::external_body]
    pub fn get_string(&self, key: &str) -> (r: Result<String, ConfigError>)
        ensures r is Ok <==> self.val(key@) is Some && as_text(self.val(key@)->0) is Some, r is Ok ==> r->Ok_0@ == as_text(self.val(key@)->0)->0 { unimplemented!() }
    #[verifier::external_body]
    pub fn get_table(&self, key: &str) -> (r: Result<HashMap<String, Value>, ConfigError>)
        ensures r is Ok <==> self.val(key@) is Some && self.val(key@)->0.kind is Table, r is Ok ==> r->Ok_0 == self.val(key@)->0.kind->Table_0 { unimplemented!() }
    #[verifier::external_body]
    pub fn get_array(&self, key: &str) -> (r: Result<Vec<Value>, ConfigError>)
        ensures r is Ok <==> self.val(key@) is Some && self.val(key@)->0.kind is Array, r is Ok ==> r->Ok_0 == self.val(key@)->0.kind->Array_0 { unimplemented!() }
}

// ---- what options say ------------------------------
pub open spec fn words(a: Seq<OsString>) -> Words { a.map_values(|x: OsString| x@) }
pub open spec fn flat(t: Seq<(Seq<char>, Words)>) -> Words
    decreases t.len()
{ if t.len() == 0 { Seq::empty() } else { flat(t.drop_last()) + t.last().1 } }
/// one part for each of `dom`
pub open spec fn parts(dom: spec_fn(Seq<char>) -> bool, piece: spec_fn(Seq<char>, Words) -> bool, t: Seq<(Seq<char>, Words)>) -> bool {
    &&& forall|i: int| 0 <= i < t.len() ==> dom((#[trigger] t[i]).0) && piece(t[i].0, t[i].1)
    &&& forall|i: int, j: int| 0 <= i < j < t.len() ==> (#[trigger] t[i]).0 != (#[trigger] t[j]).0
    &&& forall|k: Seq<char>| #[trigger] dom(k) ==> exists|i: int| 0 <= i < t.len() && (#[trigger] t[i]).0 == k
}
/// made of one part for each of `dom`, in whatever order
pub open spec fn each(dom: spec_fn(Seq<char>) -> bool, piece: spec_fn(Seq<char>, Words) -> bool, w: Words) -> bool {
    exists|t: Seq<(Seq<char>, Words)>| #[trigger] parts(dom, piece, t) && w == flat(t)
}
pub open spec fn assign(o: Seq<char>, v: Seq<char>) -> Seq<char> { "--"@ + (o + ("="@ + v)) }
pub open spec fn pair(o: Seq<char>, k: Seq<char>, v: Seq<char>) -> Seq<char> { assign(o, k + ("="@ + v)) }
pub open spec fn nested(o: Seq<char>, k: Seq<char>, f: Seq<char>, v: Seq<char>) -> Seq<char> { "--"@ + (o + ("={"@ + (k + ("}"@ + (f + ("="@ + v)))))) }
pub open spec fn texts(o: Seq<char>, a: Seq<Value>) -> Words
    decreases a.len()
{
    if a.len() == 0 { Seq::empty() }
    else { texts(o, a.drop_last()) + (if as_text(a.last()) is Some { seq![assign(o, as_text(a.last())->0)] } else { Seq::empty() }) }
}
/// a booleans for options without a value, `false` for the others
pub open spec fn switches(v: Value, takes: bool) -> bool {
    as_bool(v) is Some && (!takes || as_text(v) == Some("false"@))
}
/// the arguments that stand for this value of the option `o`
pub open spec fn says(o: Seq<char>, takes: bool, v: Value, w: Words) -> bool {
    if switches(v, takes) { w == seq![(if as_bool(v)->0 { "--"@ } else { "--no-"@ }) + o] }
    else if as_text(v) is Some { w == seq![assign(o, as_text(v)->0)] }
    else { match v.kind {
        ValueKind::Table(m) => each(keys(m.m()), tables(o, m.m()), w),
        ValueKind::Array(a) => w == texts(o, a@),
        _ => w.len() == 0,
    } }
}
pub open spec fn tables(o: Seq<char>, m: Map<Seq<char>, Value>) -> spec_fn(Seq<char>, Words) -> bool { |k: Seq<char>, p: Words| in_table(o, k, m[k], p) }
pub open spec fn fields(o: Seq<char>, k: Seq<char>, m: Map<Seq<char>, Value>) -> spec_fn(Seq<char>, Words) -> bool { |f: Seq<char>, p: Words| p == seq![nested(o, k, f, m[f].disp())] }
pub open spec fn in_table(o: Seq<char>, k: Seq<char>, v: Value, w: Words) -> bool {
    match v.kind {
        ValueKind::Table(m) => each(keys(m.m()), fields(o, k, m.m()), w),
        _ => w == seq![pair(o, k, v.disp())],
    }
}
pub open spec fn negation(a: Arg) -> Seq<char> { "no-"@ + a.long()->0 }
/// an option, not a negation
pub open spec fn option(a: Arg) -> bool { a.long() is Some && !has_prefix(a.id(), "no-"@) }
pub open spec fn options(c: Seq<Arg>) -> spec_fn(Seq<char>) -> bool { |id: Seq<char>| is_option(c, id) }
pub open spec fn keys(m: Map<Seq<char>, Value>) -> spec_fn(Seq<char>) -> bool { |k: Seq<char>| m.contains_key(k) }
pub open spec fn is_option(c: Seq<Arg>, id: Seq<char>) -> bool { exists|i: int| 0 <= i < c.len() && option(#[trigger] c[i]) && c[i].id() == id }
pub open spec fn the(c: Seq<Arg>, id: Seq<char>) -> Arg { c[choose|i: int| 0 <= i < c.len() && option(#[trigger] c[i]) && c[i].id() == id] }
/// what is added for an option: nothing if the command line has it or its negation, or nothing is configured
pub open spec fn layer(m: ArgMatches, cfg: OroConfig, a: Arg, w: Words) -> bool {
    if m.given(a.id()) || m.given(negation(a)) || cfg.val(dashed(a.id())) is None { w.len() == 0 }
    else { says(dashed(a.id()), a.takes(), cfg.val(dashed(a.id()))->0, w) }
}
/// where the options end
pub open spec fn options_end(w: Words, n: int) -> bool {
    &&& 0 <= n <= w.len()
    &&& forall|i: int| 0 <= i < n ==> #[trigger] w[i] != "--"@
    &&& n < w.len() ==> w[n] == "--"@
}
pub open spec fn layers(c: Seq<Arg>, m: ArgMatches, cfg: OroConfig) -> spec_fn(Seq<char>, Words) -> bool { |id: Seq<char>, p: Words| layer(m, cfg, the(c, id), p) }
pub open spec fn layered(c: Command, m: ArgMatches, cfg: OroConfig, was: Words, now: Words) -> bool {
    exists|n: int, w: Words| #[trigger] options_end(was, n)
        && #[trigger] each(options(c.args()), layers(c.args(), m, cfg), w)
        && now == was.subrange(0, n) + w + was.subrange(n, was.len() as int)
}
pub broadcast proof fn words_push(a: Seq<OsString>, x: OsString) ensures #[trigger] words(a.push(x)) == words(a).push(x@) { assert(words(a.push(x)) =~= words(a).push(x@)); }
pub broadcast proof fn words_plus(a: Seq<OsString>, b: Seq<OsString>) ensures #[trigger] words(a + b) == words(a) + words(b) { assert(words(a + b) =~= words(a) + words(b)); }
pub proof fn flat_push(t: Seq<(Seq<char>, Words)>, x: (Seq<char>, Words)) ensures flat(t.push(x)) == flat(t) + x.1 { assert(t.push(x).drop_last() =~= t); }

impl Command {
//@fn crates/oro-config/src/lib.rs OroConfigLayerExt@Command::layered_args
    ensures layered(*self, *matches, *config, words(old(args)@), words(final(args)@))
//@subst? $0 != Some(clap::parser::ValueSource::CommandLine) =>> !vx_cli($0)
//@subst? $0 == Some(clap::parser::ValueSource::CommandLine) =>> vx_cli($0)
//@subst? arg == "--" =>> vx_oseq(arg, "--")
//@subst? v == "false" =>> vx_streq(&v, "false")
//@closure 0 (&OsString) -> (r: bool)
    ensures r == ($0@ == "--"@)
//@closure 1 (String) -> (r: bool)
    ensures r == ($0@ == "false"@)
//@subst? let mut long_opts = HashMap::new(); =>> let mut long_opts: HashMap<String, (String, bool)> = HashMap::new();
//@attr #[verifier::exec_allows_no_decreases_clause]
//@at body_start
    broadcast use words_push;
    let ghost was = words(args@);
    let ghost c = self.args();
//@at after let rest =
    let ghost n = args@.len() as int;
    proof {
        assert(words(args@) =~= was.subrange(0, n));
        assert(words(rest@) =~= was.subrange(n, was.len() as int));
        assert(options_end(was, n));
    }
//@loop 0
    invariant
        c == self.args(), 0 <= $it.pos() <= $it.all().len(), $it.all().len() == c.len(),
        forall|i: int| 0 <= i < c.len() ==> *(#[trigger] $it.all()[i]) == c[i],
        forall|i: int, j: int| 0 <= i < j < c.len() ==> (#[trigger] c[i]).id() != (#[trigger] c[j]).id(),
        forall|id: Seq<char>| #[trigger] long_opts.m().contains_key(id) ==> exists|i: int| 0 <= i < $it.pos() && option(#[trigger] c[i]) && c[i].id() == id,
        forall|i: int| 0 <= i < $it.pos() && option(#[trigger] c[i]) ==> long_opts.m().contains_key(c[i].id()) && long_opts.m()[c[i].id()].0@ == negation(c[i]) && long_opts.m()[c[i].id()].1 == c[i].takes(),
//@at loop 0 after
//@at loop 1 before
    let ghost opts = long_opts.m();
    let ghost mut t: Seq<(Seq<char>, Words)> = Seq::empty();
    let ghost head = words(args@);
    proof { assert(head + flat(t) =~= head); }
//@loop 1
    invariant
        0 <= $it.pos() <= $it.all().len(), t.len() == $it.pos(),
        words(args@) == head + flat(t),
        forall|i: int, j: int| 0 <= i < j < $it.all().len() ==> (#[trigger] $it.all()[i]).0@ != (#[trigger] $it.all()[j]).0@,
        forall|k: Seq<char>| #[trigger] opts.contains_key(k) ==> exists|n: int| 0 <= n < $it.all().len() && (#[trigger] $it.all()[n]).0@ == k,
        forall|i: int| 0 <= i < $it.all().len() ==> opts.contains_key((#[trigger] $it.all()[i]).0@) && opts[$it.all()[i].0@] == $it.all()[i].1,
        forall|i: int| #![trigger t[i]] #![trigger $it.all()[i]] 0 <= i < $it.pos() ==> t[i].0 == $it.all()[i].0@ && layer(*matches, *config, the(c, t[i].0), t[i].1),
//@at loop 1 body_start
    let ghost id = opt@;
    let ghost before = words(args@);
    let ghost a = the(c, id);
    proof { 
        assert(options(c)(id));
        assert(is_option(c, id));
        assert(option(a) && a.id() == id);
    }
    let ghost okey = dashed(id);
    let ghost oval = config.val(okey)->0;
//@at loop 2 before
    let ghost m = value.m();
    let ghost mut u: Seq<(Seq<char>, Words)> = Seq::empty();
    proof { assert(before + flat(u) =~= before); }
//@loop 2
    invariant
        0 <= $it.pos() <= $it.all().len(), u.len() == $it.pos(),
        words(args@) == before + flat(u),
        forall|i: int, j: int| 0 <= i < j < $it.all().len() ==> (#[trigger] $it.all()[i]).0@ != (#[trigger] $it.all()[j]).0@,
        forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> exists|n: int| 0 <= n < $it.all().len() && (#[trigger] $it.all()[n]).0@ == k,
        forall|i: int| 0 <= i < $it.all().len() ==> m.contains_key((#[trigger] $it.all()[i]).0@) && m[$it.all()[i].0@] == $it.all()[i].1,
        forall|i: int| #![trigger u[i]] #![trigger $it.all()[i]] 0 <= i < $it.pos() ==> u[i].0 == $it.all()[i].0@ && in_table(okey, u[i].0, m[u[i].0], u[i].1),
//@at loop 2 body_start
    let ghost was2 = words(args@);
    let ghost vx_key = key@;
//@at loop 3 before
    let ghost mm = map.m();
    let ghost mut x: Seq<(Seq<char>, Words)> = Seq::empty();
    proof { assert(was2 + flat(x) =~= was2); }
//@loop 3
    invariant
        0 <= $it.pos() <= $it.all().len(), x.len() == $it.pos(),
        words(args@) == was2 + flat(x),
        forall|i: int, j: int| 0 <= i < j < $it.all().len() ==> (#[trigger] $it.all()[i]).0@ != (#[trigger] $it.all()[j]).0@,
        forall|k: Seq<char>| #[trigger] mm.contains_key(k) ==> exists|n: int| 0 <= n < $it.all().len() && (#[trigger] $it.all()[n]).0@ == k,
        forall|i: int| 0 <= i < $it.all().len() ==> mm.contains_key((#[trigger] $it.all()[i]).0@) && mm[$it.all()[i].0@] == *$it.all()[i].1,
        forall|i: int| #![trigger x[i]] #![trigger $it.all()[i]] 0 <= i < $it.pos() ==> x[i].0 == $it.all()[i].0@ && x[i].1 == seq![nested(okey, vx_key, x[i].0, mm[x[i].0].disp())],
//@at loop 3 body_end
    proof {
        let w = seq![nested(okey, vx_key, k@, v.disp())];
        flat_push(x, (k@, w));
        x = x.push((k@, w));
        assert(words(args@) =~= was2 + flat(x));
    }
//@at loop 3 after
    proof {
        assert(parts(keys(mm), fields(okey, vx_key, mm), x));
        assert(each(keys(mm), fields(okey, vx_key, mm), flat(x)));
        assert(words(args@).subrange(was2.len() as int, words(args@).len() as int) =~= flat(x));
    }
//@at loop 2 body_end
    proof {
        let w = words(args@).subrange(was2.len() as int, words(args@).len() as int);
        assert(words(args@) =~= was2 + w);
        if !(m[vx_key].kind is Table) { assert(w =~= seq![pair(okey, vx_key, m[vx_key].disp())]); }
        assert(in_table(okey, vx_key, m[vx_key], w));
        flat_push(u, (vx_key, w));
        u = u.push((vx_key, w));
        assert(words(args@) =~= before + flat(u));
    }
//@at loop 2 after
    proof {
        assert(parts(keys(m), tables(okey, m), u));
        assert(each(keys(m), tables(okey, m), flat(u)));
        assert(words(args@).subrange(before.len() as int, words(args@).len() as int) =~= flat(u));
    }
//@at loop 4 before
    let ghost all = value@;
    proof { assert(before + texts(okey, all.subrange(0, 0)) =~= before); }
//@loop 4
    invariant
        0 <= $it.pos() <= all.len(), $it.all() == all,
        words(args@) == before + texts(okey, all.subrange(0, $it.pos())),
//@at loop 4 body_end
    proof {
        assert(all.subrange(0, vx_it4.pos()).drop_last() =~= all.subrange(0, vx_it4.pos() - 1));
        assert(words(args@) =~= before + texts(okey, all.subrange(0, vx_it4.pos())));
    }
//@at loop 4 after
    proof {
        assert(all.subrange(0, all.len() as int) =~= all);
        assert(words(args@).subrange(before.len() as int, words(args@).len() as int) =~= texts(okey, all));
    }
//@at loop 1 body_end
    proof {
        let w = words(args@).subrange(before.len() as int, words(args@).len() as int);
        assert(words(args@) =~= before + w);
        if matches.given(a.id()) || matches.given(negation(a)) || config.val(okey) is None { assert(w =~= Seq::empty()); }
        else {
            if switches(oval, a.takes()) { assert(w =~= seq![(if as_bool(oval)->0 { "--"@ } else { "--no-"@ }) + okey]); }
            else if as_text(oval) is Some { assert(w =~= seq![assign(okey, as_text(oval)->0)]); }
            else if !(oval.kind is Table) && !(oval.kind is Array) { assert(w =~= Seq::empty()); }
            assert(says(okey, a.takes(), oval, w));
        }
        assert(layer(*matches, *config, a, w));
        flat_push(t, (id, w));
        t = t.push((id, w));
        assert(words(args@) =~= head + flat(t));
    }
//@at loop 1 after
    proof {
        let piece = layers(c, *matches, *config);
        assert(parts(options(c), piece, t));
        assert(each(options(c), piece, flat(t)));
    }
//@at after args.extend(rest)
    proof {
        assert(exists|w: Words| #[trigger] each(options(c), layers(c, *matches, *config), w) && words(args@) == was.subrange(0, n) + w + was.subrange(n, was.len() as int)) by {
            broadcast use words_plus;
        }
    }
//@end
}


// ---- negations ------------------------------
/// these are references to those
pub open spec fn refs<T>(a: Seq<&T>, b: Seq<T>) -> bool { a.len() == b.len() && forall|i: int| #![trigger a[i]] #![trigger b[i]] 0 <= i < a.len() ==> *a[i] == b[i] }
impl<'a, T> Iter<&'a T> {
    #[verifier::external_body]
    pub fn filter<P: Fn(&&'a T) -> bool>(self, p: P) -> (r: Self)
        requires self.pos() == 0, forall|i: int| 0 <= i < self.all().len() ==> p.requires((&#[trigger] self.all()[i],)),
        ensures r.pos() == 0, forall|s: Seq<T>, f: spec_fn(T) -> bool| refs(self.all(), s) && (forall|x: &T, b: bool| #[trigger] p.ensures((&x,), b) ==> b == f(*x)) ==> refs(r.all(), #[trigger] s.filter(f))
    { unimplemented!() }
}
impl<T> Iter<T> {
    #[verifier::external_body]
    pub fn zip<U>(self, o: Vec<U>) -> (r: Iter<(T, U)>)
        ensures self.pos() == 0 && self.all().len() == o@.len() ==> r.pos() == 0 && r.all().len() == o@.len() && forall|i: int| 0 <= i < o@.len() ==> #[trigger] r.all()[i] == (self.all()[i], o@[i])
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_vec<T>(i: Iter<T>) -> (r: Vec<T>) ensures i.pos() == 0 ==> r@ == i.all() { unimplemented!() }
#[verifier::external_body]
pub fn vx_without(s: &String, what: &str) -> (r: String) { unimplemented!() }
pub open spec fn with_long(a: Arg) -> bool { a.long() is Some }
pub open spec fn longs(a: Seq<Arg>) -> Seq<Arg> { a.filter(|x: Arg| with_long(x)) }
/// `n` says no to `a`, wherever that can be given, and the later of the two wins
pub open spec fn negates(n: Arg, a: Arg) -> bool {
    &&& n.id() == negation(a) && n.long() is Some && !n.takes() && n.glob() == a.glob() && n.overrides() == Some(a.id())
    &&& !has_prefix(negation(a), "no-no-"@) ==> n.long() == Some(negation(a))
}
pub open spec fn all_negated(was: Seq<Arg>, n: Seq<Arg>) -> bool { n.len() == was.len() && forall|i: int| 0 <= i < n.len() ==> negates(#[trigger] n[i], was[i]) }
impl Command {
    #[verifier::external_body]
    pub fn with_args(self, a: Vec<Arg>) -> (r: Command) ensures r.args() == self.args() + a@ { unimplemented!() }
//@fn crates/oro-config/src/lib.rs OroConfigLayerExt@Command::with_negations
    ensures exists|n: Seq<Arg>| #[trigger] all_negated(longs(self.args()), n) && ret.args() == self.args() + n
//@m long => with_long
//@m args => with_args
//@subst? $0.action(clap::ArgAction::SetTrue) =>> $0.switch()
//@subst? $0.collect::<Vec<_>>() =>> vx_vec($0)
//@subst? clap::Arg::new($0) =>> Arg::new($0)
//@subst? negated.replace("no-no-", "") =>> vx_without(&negated, "no-no-")
//@closure 0 (&&Arg) -> (r: bool)
    ensures r == with_long(**$0)
//@closure 1 (&Arg) -> (r: String)
    requires $0.long() is Some
    ensures r@ == negation(*$0)
//@closure 2 (&&Arg) -> (r: bool)
    ensures r == with_long(**$0)
//@closure 3 ((&Arg, String)) -> (r: Arg)
    requires ($0.0).long() is Some, ($0.1)@ == negation(*$0.0)
    ensures negates(r, *$0.0)
//@at body_start
    proof { filtered(self.args()); }
    let ghost ls = longs(self.args());
//@at after let negations =
    proof { assert(all_negated(longs(self.args()), negations@)); }
//@end
    /// the subcommands on the way to the one asked for, and what was given to each
    pub open spec fn at(self, p: Words, i: int) -> Command
        decreases i
    { if i <= 0 { self } else { self.at(p, i - 1).find(p[i - 1])->0 } }
//@fn src/lib.rs Orogene::layer_command_args
    ensures ret is Ok ==> layered_chain(*command, command.line(), *config, words(old(args)@), words(final(args)@))
//@subst? let mut command = command.clone(); =>> let command = command.clone();
//@subst? &mut command =>> &command
//@m find_subcommand_mut => find_subcommand
//@subst? let mut subcmd_path = VecDeque::new(); =>> let mut subcmd_path: VecDeque<&str> = VecDeque::new();
//@attr #[verifier::exec_allows_no_decreases_clause]
//@at body_start
    broadcast use subcommands_declared;
    let ghost line = command.line();
    let ghost mut p: Words = Seq::empty();
    let ghost c = *command;
    let ghost was = words(args@);
    let ghost mut k: int = 0;
    let ghost mut ws: Seq<Words> = Seq::empty();
//@loop 0
    invariant
        line == matches, parsed(c, matches),
        p.len() == subcmd_path.v().len(), forall|i: int| 0 <= i < p.len() ==> p[i] == (#[trigger] subcmd_path.v()[i])@,
        *matches_ref == given_at(line, p.len() as int),
        forall|i: int| 0 <= i < p.len() ==> asked(line, i, #[trigger] p[i]),
//@at loop 0 body_start
    let ghost here = given_at(line, p.len() as int);
    proof { assert(here.sub() is Some && (here.sub()->0).0 == sub_cmd@ && (here.sub()->0).1 == *new_m); }
//@at loop 0 body_end
    proof {
        let q = p.push(sub_cmd@);
        assert forall|i: int| 0 <= i < q.len() implies asked(line, i, #[trigger] q[i]) by {
            if i < p.len() { assert(q[i] == p[i]); } else { assert(given_at(line, i) == here); }
        }
        p = q;
    }
//@at loop 1 before
    proof { assert(way(line, p)); ws = seq![was, words(args@)]; }
    let ghost names = subcmd_path.v();
//@loop 1
    invariant
        way(line, p), 0 <= k <= p.len(), p.len() == names.len(),
        forall|i: int| 0 <= i < p.len() ==> p[i] == (#[trigger] names[i])@,
        subcmd_path.v() == names.subrange(k, names.len() as int),
        *subcmd == c.at(p, k), *matches_ref == given_at(line, k), parsed(*subcmd, *matches_ref),
        ws.len() == k + 2, ws[0] == was, ws.last() == words(args@),
        forall|i: int| 0 <= i <= k ==> layered(c.at(p, i), given_at(line, i), *config, #[trigger] ws[i], ws[i + 1]),
//@at loop 1 body_start
    proof { assert(name@ == p[k]); }
//@at loop 1 body_end
    proof { k = k + 1; ws = ws.push(words(args@)); }
//@at before Ok(
    proof { assert(steps(c, line, *config, p, ws)); }
//@end
}
pub open spec fn given_at(m: ArgMatches, i: int) -> ArgMatches
    decreases i
{ if i <= 0 { m } else { (given_at(m, i - 1).sub()->0).1 } }
pub open spec fn asked(m: ArgMatches, i: int, name: Seq<char>) -> bool { given_at(m, i).sub() is Some && (given_at(m, i).sub()->0).0 == name }
/// every command on the way to the last one asked for
pub open spec fn way(m: ArgMatches, p: Words) -> bool {
    &&& forall|i: int| 0 <= i < p.len() ==> asked(m, i, #[trigger] p[i])
    &&& given_at(m, p.len() as int).sub() is None
}
/// every command on the way adds the options it declares
pub open spec fn steps(c: Command, m: ArgMatches, cfg: OroConfig, p: Words, ws: Seq<Words>) -> bool {
    &&& ws.len() == p.len() + 2
    &&& forall|i: int| 0 <= i <= p.len() ==> layered(c.at(p, i), given_at(m, i), cfg, #[trigger] ws[i], ws[i + 1])
}
pub open spec fn layered_chain(c: Command, m: ArgMatches, cfg: OroConfig, was: Words, now: Words) -> bool {
    exists|p: Words, ws: Seq<Words>| #[trigger] way(m, p) && #[trigger] steps(c, m, cfg, p, ws) && ws[0] == was && ws.last() == now
}
pub proof fn filtered(a: Seq<Arg>)
    ensures forall|i: int| 0 <= i < longs(a).len() ==> with_long(#[trigger] longs(a)[i])
    decreases a.len()
{
    let f = |x: Arg| with_long(x);
    reveal(Seq::filter);
    if a.len() > 0 {
        filtered(a.drop_last());
        assert(a.filter(f) =~= (if f(a.last()) { a.drop_last().filter(f).push(a.last()) } else { a.drop_last().filter(f) }));
    }
}

// ---- assumed contracts: paths, config's builder and sources ------------------------------
#[verifier::external_body]
pub struct Path { _p: () }
#[verifier::external_body]
pub struct PathBuf { _p: () }
#[verifier::external_body]
pub struct Shown { _p: () }
impl PathBuf {
    /// how the path reads
    pub uninterp spec fn text(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn join(&self, s: &str) -> (r: PathBuf) ensures r.text() == below(self.text(), s@) { unimplemented!() }
    #[verifier::external_body]
    pub fn as_path(&self) -> (r: &Path) ensures r.text() == self.text() { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: PathBuf) ensures r.text() == self.text() { unimplemented!() }
    #[verifier::external_body]
    pub fn to_string_lossy(&self) -> (r: String) ensures r@ == self.text() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_dir(&self) -> (r: bool) ensures r == dir_at(self.text()) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_file(&self) -> (r: bool) ensures r == file_at(self.text()) { unimplemented!() }
    #[verifier::external_body]
    pub fn exists(&self) -> (r: bool) ensures r == entry_at(self.text()), dir_at(self.text()) || file_at(self.text()) ==> r { unimplemented!() }
    #[verifier::external_body]
    pub fn display(&self) -> (r: Shown) ensures r.t() == self.text() { unimplemented!() }
}
/// what the file system holds while the options are looked up
pub uninterp spec fn dir_at(p: Seq<char>) -> bool;
pub uninterp spec fn file_at(p: Seq<char>) -> bool;
pub uninterp spec fn entry_at(p: Seq<char>) -> bool;
impl Path {
    pub uninterp spec fn text(&self) -> Seq<char>;
    /// the path, its parent, and so on
    pub uninterp spec fn up(&self) -> Seq<Seq<char>>;
    #[verifier::external_body]
    pub fn ancestors(&self) -> (r: Iter<&Path>) ensures r.pos() == 0, r.all().len() == self.up().len(), forall|i: int| 0 <= i < self.up().len() ==> (#[trigger] r.all()[i]).text() == self.up()[i] { unimplemented!() }
    #[verifier::external_body]
    pub fn join(&self, s: &str) -> (r: PathBuf) ensures r.text() == below(self.text(), s@) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_owned(&self) -> (r: PathBuf) ensures r.text() == self.text() { unimplemented!() }
    #[verifier::external_body]
    pub fn to_string_lossy(&self) -> (r: String) ensures r@ == self.text() { unimplemented!() }
}
pub uninterp spec fn below(dir: Seq<char>, file: Seq<char>) -> Seq<char>;
impl Shown {
    pub uninterp spec fn t(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String) ensures r@ == self.t() { unimplemented!() }
}
/// a source of configuration
#[verifier::external_body]
pub struct Src { _p: () }
impl Src { pub uninterp spec fn val(&self, key: Seq<char>) -> Option<Value>; }
pub trait VxSource { spec fn src(&self) -> Src; }
pub uninterp spec fn kdl_file(path: Seq<char>) -> Src;
pub uninterp spec fn environment(prefix: Seq<char>) -> Src;
#[verifier::external_body]
pub struct Environment { _p: () }
impl Environment {
    pub uninterp spec fn prefix(&self) -> Seq<char>;
    /// the variables of that prefix, without it
    pub uninterp spec fn vars(&self) -> HashMap<String, Value>;
    #[verifier::external_body]
    pub fn with_prefix(p: &str) -> (r: Environment) ensures r.prefix() == p@ { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_collect(&self) -> (r: Result<HashMap<String, Value>, ConfigError>) ensures r is Ok ==> r->Ok_0 == self.vars() { unimplemented!() }
}
impl VxSource for EnvSource { open spec fn src(&self) -> Src { environment(self.0.prefix()) } }
#[verifier::external_body]
pub struct File { _p: () }
impl File {
    pub uninterp spec fn path(&self) -> Seq<char>;
    pub uninterp spec fn must(&self) -> bool;
    #[verifier::external_body]
    pub fn new(p: &String, f: KdlFormat) -> (r: File) ensures r.path() == p@, r.must() { unimplemented!() }
    #[verifier::external_body]
    pub fn required(self, b: bool) -> (r: File) ensures r.path() == self.path(), r.must() == b { unimplemented!() }
}
impl VxSource for File { open spec fn src(&self) -> Src { kdl_file(self.path()) } }
#[verifier::external_body]
pub struct DefaultState { _p: () }
#[verifier::external_body]
#[verifier::reject_recursive_types(S)]
pub struct ConfigBuilder<S> { _p: std::marker::PhantomData<S> }
impl<S> ConfigBuilder<S> {
    pub uninterp spec fn defaults(&self, key: Seq<char>) -> Option<Value>;
    pub uninterp spec fn srcs(&self) -> Seq<Src>;
    #[verifier::external_body]
    pub fn set_default(self, key: &str, v: &str) -> (r: Result<Self, ConfigError>)
        ensures r is Ok ==> r->Ok_0.srcs() == self.srcs() && (forall|k: Seq<char>| k != key@ ==> #[trigger] r->Ok_0.defaults(k) == self.defaults(k)) && r->Ok_0.defaults(key@) is Some { unimplemented!() }
    #[verifier::external_body]
    pub fn add_source<T: VxSource>(self, t: T) -> (r: Self)
        ensures r.srcs() == self.srcs().push(t.src()), forall|k: Seq<char>| r.defaults(k) == self.defaults(k) { unimplemented!() }
    #[verifier::external_body]
    pub fn build(self) -> (r: Result<OroConfig, ConfigError>)
        ensures r is Ok ==> forall|k: Seq<char>| #[trigger] r->Ok_0.val(k) == found(self.srcs(), self.defaults(k), k) { unimplemented!() }
}
/// config's rule: a later source's value takes the place of an earlier one's (tables are merged)
pub open spec fn found(srcs: Seq<Src>, d: Option<Value>, k: Seq<char>) -> Option<Value>
    decreases srcs.len()
{
    if srcs.len() == 0 { d } else {
        let v = srcs.last().val(k);
        let rest = found(srcs.drop_last(), d, k);
        if v is None { rest } else if v->0.kind is Table && rest is Some { merged(v->0, rest->0) } else { v }
    }
}
pub uninterp spec fn merged(over: Value, under: Value) -> Option<Value>;
pub enum OroConfigError { ConfigError(ConfigError), Other }
impl From<OroConfigError> for Report {
    #[verifier::external_body]
    fn from(e: OroConfigError) -> Self { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_cfg_err<T>(r: Result<T, ConfigError>) -> (x: Result<T, OroConfigError>) ensures r is Ok == x is Ok, r is Ok ==> x->Ok_0 == r->Ok_0 { unimplemented!() }
//@item crates/oro-config/src/env_source.rs EnvSource
//@end
//@item crates/oro-config/src/kdl_source.rs KdlFormat
//@end
//@item crates/oro-config/src/lib.rs OroConfigOptions
//@end
impl OroConfig {
    #[verifier::external_body]
    pub fn builder() -> (r: ConfigBuilder<DefaultState>) ensures r.srcs().len() == 0, forall|k: Seq<char>| r.defaults(k) is None { unimplemented!() }
}
impl OroConfigOptions {
//@fn crates/oro-config/src/lib.rs Default@OroConfigOptions::default
    ensures fresh(ret)
//@end
//@fn crates/oro-config/src/lib.rs OroConfigOptions::new
    ensures fresh(ret)
//@end
//@fn crates/oro-config/src/lib.rs OroConfigOptions::set_default
    ensures ret is Ok ==> only_default(self, key@, ret->Ok_0)
//@end
    pub open spec fn sources(&self) -> Seq<Src> {
        self.builder.srcs()
        + (if self.env { seq![environment("oro_config"@)] } else { Seq::empty() })
        + (if self.global && self.global_config_file is Some { seq![kdl_file(self.global_config_file->0.text())] } else { Seq::empty() })
        + (if self.pkg_root is Some { seq![kdl_file(below(self.pkg_root->0.text(), "oro.kdl"@))] } else { Seq::empty() })
    }
//@fn crates/oro-config/src/lib.rs OroConfigOptions::global
    ensures ret == (OroConfigOptions { global: global, ..self })
//@end
//@fn crates/oro-config/src/lib.rs OroConfigOptions::env
    ensures ret == (OroConfigOptions { env: env, ..self })
//@end
//@fn crates/oro-config/src/lib.rs OroConfigOptions::pkg_root
    ensures ret == (OroConfigOptions { pkg_root: root, ..self })
//@end
//@fn crates/oro-config/src/lib.rs OroConfigOptions::global_config_file
    ensures ret == (OroConfigOptions { global_config_file: file, ..self })
//@end
//@fn crates/oro-config/src/lib.rs OroConfigOptions::load
    ensures ret is Ok ==> loaded(self, ret->Ok_0)
//@subst? $0.map_err(OroConfigError::ConfigError) =>> vx_cfg_err($0)
//@at before Ok(
    proof { assert(builder.srcs() =~= self.sources()); }
//@end
}
impl From<ConfigError> for OroConfigError {
    #[verifier::external_body]
    fn from(e: ConfigError) -> Self { unimplemented!() }
}
pub open spec fn loaded(o: OroConfigOptions, cfg: OroConfig) -> bool { forall|k: Seq<char>| #[trigger] cfg.val(k) == found(o.sources(), o.builder.defaults(k), k) }
/// nothing said, nowhere to look but the environment and the user's file
pub open spec fn fresh(o: OroConfigOptions) -> bool {
    o.env && o.global && o.pkg_root is None && o.global_config_file is None && o.builder.srcs().len() == 0 && forall|k: Seq<char>| #[trigger] o.builder.defaults(k) is None
}
pub open spec fn only_default(was: OroConfigOptions, key: Seq<char>, o: OroConfigOptions) -> bool {
    &&& o.env == was.env && o.global == was.global && o.pkg_root == was.pkg_root && o.global_config_file == was.global_config_file
    &&& o.builder.srcs() == was.builder.srcs() && o.builder.defaults(key) is Some
    &&& forall|k: Seq<char>| k != key ==> #[trigger] o.builder.defaults(k) == was.builder.defaults(k)
}

// ---- which files ------------------------------
#[verifier::external_body]
pub struct ProjectDirs { _p: () }
/// where this user's configuration lives, if anywhere
pub uninterp spec fn config_dir() -> Option<Seq<char>>;
impl ProjectDirs {
    #[verifier::external_body]
    pub fn from(a: &str, b: &str, c: &str) -> (r: Option<ProjectDirs>) ensures a@ == ""@ && b@ == ""@ && c@ == "orogene"@ ==> r is Some == config_dir() is Some { unimplemented!() }
    #[verifier::external_body]
    pub fn cache_dir(&self) -> (r: &Path) { unimplemented!() }
    #[verifier::external_body]
    pub fn config_dir(&self) -> (r: &Path) ensures config_dir() is Some ==> r.text() == config_dir()->0 { unimplemented!() }
}
/// where the process runs
pub uninterp spec fn cwd() -> Path;
#[verifier::external_body]
pub fn vx_cwd() -> (r: Result<PathBuf>) ensures r is Ok ==> r->Ok_0.text() == cwd().text() && r->Ok_0.dir() == cwd() { unimplemented!() }
impl PathBuf {
    pub uninterp spec fn dir(&self) -> Path;
    #[verifier::external_body]
    pub fn path(&self) -> (r: &Path) ensures *r == self.dir(), r.text() == self.text() { unimplemented!() }
}
/// the parsed command line: of its fields only what decides which files are read
pub struct Orogene { pub root: PathBuf, pub config: Option<PathBuf> }
pub open spec fn is_root(p: Seq<char>) -> bool { dir_at(below(p, "node_modules"@)) || file_at(below(p, "package.json"@)) }
/// the closest one
pub open spec fn root_at(up: Seq<Seq<char>>, i: int) -> bool {
    0 <= i < up.len() && is_root(up[i]) && forall|j: int| 0 <= j < i ==> !is_root(#[trigger] up[j])
}
pub open spec fn no_root(up: Seq<Seq<char>>) -> bool { forall|j: int| 0 <= j < up.len() ==> !is_root(#[trigger] up[j]) }
/// the project around the directory the process runs in
pub open spec fn project(r: Seq<char>) -> bool {
    if no_root(cwd().up()) { r == cwd().text() } else { exists|i: int| root_at(cwd().up(), i) && #[trigger] cwd().up()[i] == r }
}
//@fn src/lib.rs pkg_root
    ensures
        ret matches Some(p) ==> exists|i: int| root_at(start_dir.up(), i) && p.text() == #[trigger] start_dir.up()[i],
        ret is None ==> no_root(start_dir.up()),
//@attr #[verifier::exec_allows_no_decreases_clause]
//@loop 0
    invariant
        0 <= $it.pos() <= $it.all().len(), $it.all().len() == start_dir.up().len(),
        forall|i: int| 0 <= i < $it.all().len() ==> (#[trigger] $it.all()[i]).text() == start_dir.up()[i],
        forall|j: int| 0 <= j < $it.pos() ==> !is_root(#[trigger] start_dir.up()[j]),
//@at loop 0 body_start
    let ghost at = vx_it0.pos() - 1;
    assert(path.text() == start_dir.up()[at]);
//@end
/// what `oro` reads its options from: the file named on the command line, or else the user's and the project's
pub open spec fn config_of(o: Orogene, m: ArgMatches, root: Seq<char>, cfg: OroConfig) -> bool {
    exists|opts: OroConfigOptions| reads(o, m, root, opts) && #[trigger] loaded(opts, cfg)
}
pub open spec fn reads(o: Orogene, m: ArgMatches, root: Seq<char>, opts: OroConfigOptions) -> bool {
    &&& opts.env && opts.global && opts.builder.srcs().len() == 0
    &&& forall|k: Seq<char>| k != "root"@ && k != "cache"@ ==> #[trigger] opts.builder.defaults(k) is None
    &&& if o.config is Some { opts.global_config_file is Some && opts.global_config_file->0.text() == o.config->0.text() && opts.pkg_root is None }
        else {
            &&& opts.global_config_file is Some == config_dir() is Some
            &&& config_dir() is Some ==> opts.global_config_file->0.text() == below(config_dir()->0, "oro.kdl"@)
            &&& opts.pkg_root is Some && opts.pkg_root->0.text() == (if m.given("root"@) { o.root.text() } else { root })
        }
}
impl Orogene {
//@fn src/lib.rs Orogene::build_config
    ensures ret is Ok ==> exists|root: Seq<char>| #[trigger] project(root) && config_of(*self, *matches, root, ret->Ok_0)
//@subst? std::env::current_dir().into_diagnostic() =>> vx_cwd()
//@subst? &cwd =>> cwd.path()
//@subst? $0 == Some(ValueSource::CommandLine) =>> vx_cli($0)
//@at before let mut cfg_builder =
    let ghost pr = root.text();
    assert(project(pr));
//@at before Ok(cfg
    assert(config_of(*self, *matches, pr, cfg));
//@closure 0 (&ProjectDirs) -> (r: PathBuf)
//@closure 1 (ProjectDirs) -> (r: PathBuf)
    ensures config_dir() is Some ==> r.text() == below(config_dir()->0, "oro.kdl"@)
//@end
}

/// the order of the three places, as an option's user sees it
pub proof fn precedence(o: OroConfigOptions, cfg: OroConfig, k: Seq<char>)
    requires
        o.env, o.global, o.builder.srcs().len() == 0, o.global_config_file is Some,
        loaded(o, cfg),
        forall|s: Src, k: Seq<char>| (#[trigger] s.val(k)) is Some ==> !(s.val(k)->0.kind is Table),
    ensures ({
        let user = kdl_file(o.global_config_file->0.text()).val(k);
        let project = if o.pkg_root is Some { kdl_file(below(o.pkg_root->0.text(), "oro.kdl"@)).val(k) } else { None };
        let env = environment("oro_config"@).val(k);
        cfg.val(k) == (if project is Some { project } else if user is Some { user } else if env is Some { env } else { o.builder.defaults(k) })
    })
{
    reveal_with_fuel(found, 4);
    let e = seq![environment("oro_config"@)];
    let eu = e + seq![kdl_file(o.global_config_file->0.text())];
    assert(o.builder.srcs() =~= Seq::<Src>::empty());
    assert(e.drop_last() =~= Seq::<Src>::empty());
    assert(eu.drop_last() =~= e);
    if o.pkg_root is Some {
        let s = eu + seq![kdl_file(below(o.pkg_root->0.text(), "oro.kdl"@))];
        assert(s.drop_last() =~= eu);
        assert(o.sources() =~= s);
    } else {
        assert(o.sources() =~= eu);
    }
}

// ---- the sources ------------------------------
/// what comes of collecting pairs: the last one of a key
pub open spec fn collected<V>(a: Seq<(String, V)>, m: Map<Seq<char>, V>) -> bool {
    &&& forall|i: int| 0 <= i < a.len() ==> m.contains_key((#[trigger] a[i]).0@)
    &&& forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < a.len() && (#[trigger] a[i]).0@ == k && m[k] == a[i].1 && forall|j: int| i < j < a.len() ==> (#[trigger] a[j]).0@ != k
}
pub trait VxCollect<C> { spec fn made(&self, c: &C) -> bool; fn vx_collect(self) -> (r: C) ensures self.made(&r); }
impl<V> VxCollect<HashMap<String, V>> for Iter<(String, V)> {
    open spec fn made(&self, c: &HashMap<String, V>) -> bool { self.pos() == 0 ==> collected(self.all(), c.m()) }
    #[verifier::external_body]
    fn vx_collect(self) -> (r: HashMap<String, V>) { unimplemented!() }
}
impl<V> VxCollect<Vec<V>> for Iter<V> {
    open spec fn made(&self, c: &Vec<V>) -> bool { self.pos() == 0 ==> c@ == self.all() }
    #[verifier::external_body]
    fn vx_collect(self) -> (r: Vec<V>) { unimplemented!() }
}
impl EnvSource {
//@fn crates/oro-config/src/env_source.rs Source@EnvSource::collect
    ensures ret is Ok ==> env_options(self.0.vars().m(), ret->Ok_0.m())
//@subst? $0.into_iter() =>> vx_iter($0)
//@subst? Map<String, Value> =>> HashMap<String, Value>
//@m collect => vx_collect
//@closure 0 ((String, Value)) -> (r: (String, Value))
    ensures r.0@ == dashed($0.0@), r.1 == $0.1
//@end
}
/// the option `a-b` is set by the variable `a_b` (or `a-b`)
pub open spec fn env_options(vars: Map<Seq<char>, Value>, m: Map<Seq<char>, Value>) -> bool {
    &&& forall|k: Seq<char>| #[trigger] vars.contains_key(k) ==> m.contains_key(dashed(k))
    &&& forall|o: Seq<char>| #[trigger] m.contains_key(o) ==> exists|k: Seq<char>| #[trigger] vars.contains_key(k) && dashed(k) == o && m[o] == vars[k]
}

// ---- assumed contracts: kdl ------------------------------
#[verifier::external_body]
pub struct KdlDocument { _p: () }
#[verifier::external_body]
pub struct KdlNode { _p: () }
#[verifier::external_body]
pub struct KdlEntry { _p: () }
#[verifier::external_body]
pub struct KdlIdentifier { _p: () }
#[verifier::external_body]
pub struct KdlValue { _p: () }
impl KdlIdentifier {
    pub uninterp spec fn t(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn value(&self) -> (r: &str) ensures r@ == self.t() { unimplemented!() }
}
/// what a value is written as
pub enum KV { Text(Seq<char>), Int(i64), Float(f64), Bool(bool), Null }
impl KdlValue {
    pub uninterp spec fn v(&self) -> KV;
    #[verifier::external_body]
    pub fn as_string(&self) -> (r: Option<&str>) ensures r is Some == self.v() is Text, r is Some ==> r->0@ == self.v()->Text_0 { unimplemented!() }
    #[verifier::external_body]
    pub fn as_i64(&self) -> (r: Option<i64>) ensures r is Some == self.v() is Int, r is Some ==> r->0 == self.v()->Int_0 { unimplemented!() }
    #[verifier::external_body]
    pub fn as_f64(&self) -> (r: Option<f64>) ensures r is Some == self.v() is Float, r is Some ==> r->0 == self.v()->Float_0 { unimplemented!() }
    #[verifier::external_body]
    pub fn as_bool(&self) -> (r: Option<bool>) ensures r is Some == self.v() is Bool, r is Some ==> r->0 == self.v()->Bool_0 { unimplemented!() }
}
impl KdlEntry {
    pub uninterp spec fn key(&self) -> Option<Seq<char>>;
    pub uninterp spec fn v(&self) -> KV;
    #[verifier::external_body]
    pub fn name(&self) -> (r: Option<&KdlIdentifier>) ensures r is Some == self.key() is Some, r is Some ==> r->0.t() == self.key()->0 { unimplemented!() }
    #[verifier::external_body]
    pub fn value(&self) -> (r: &KdlValue) ensures r.v() == self.v() { unimplemented!() }
}
impl KdlNode {
    pub uninterp spec fn key(&self) -> Seq<char>;
    pub uninterp spec fn ents(&self) -> Seq<KdlEntry>;
    /// the nodes below it, if it has a block
    pub uninterp spec fn block(&self) -> Option<KdlDocument>;
    #[verifier::external_body]
    pub fn name(&self) -> (r: &KdlIdentifier) ensures r.t() == self.key() { unimplemented!() }
    #[verifier::external_body]
    pub fn entries(&self) -> (r: &Vec<KdlEntry>) ensures r@ == self.ents() { unimplemented!() }
    #[verifier::external_body]
    pub fn children(&self) -> (r: Option<&KdlDocument>) ensures r is Some == self.block() is Some, r is Some ==> *r->0 == self.block()->0 { unimplemented!() }
    pub uninterp spec fn depth(&self) -> nat;
}
/// nodes are trees
pub broadcast axiom fn node_depth(n: KdlNode, i: int) ensures n.block() is Some && 0 <= i < n.block()->0.list().len() ==> (#[trigger] n.block()->0.list()[i]).depth() < n.depth();
impl KdlDocument {
    pub uninterp spec fn list(&self) -> Seq<KdlNode>;
    #[verifier::external_body]
    pub fn nodes(&self) -> (r: &Vec<KdlNode>) ensures r@ == self.list() { unimplemented!() }
    /// the first node of that name
    #[verifier::external_body]
    pub fn get(&self, name: &str) -> (r: Option<&KdlNode>)
        ensures
            r matches Some(n) ==> exists|i: int| 0 <= i < self.list().len() && (#[trigger] self.list()[i]) == *n && n.key() == name@ && forall|j: int| 0 <= j < i ==> (#[trigger] self.list()[j]).key() != name@,
            r is None ==> forall|i: int| 0 <= i < self.list().len() ==> (#[trigger] self.list()[i]).key() != name@,
    { unimplemented!() }
}
impl<T> Iter<T> {
    #[verifier::external_body]
    pub fn count(self) -> (r: usize) ensures self.pos() == 0 ==> r == self.all().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r.all() == self.all(), r.pos() == self.pos() { unimplemented!() }
    #[verifier::external_body]
    pub fn all_are<P: Fn(T) -> bool>(self, p: P) -> (r: bool)
        requires self.pos() == 0, forall|i: int| 0 <= i < self.all().len() ==> p.requires((#[trigger] self.all()[i],)),
        ensures r ==> forall|i: int| 0 <= i < self.all().len() ==> p.ensures((#[trigger] self.all()[i],), true),
            !r ==> exists|i: int| 0 <= i < self.all().len() && p.ensures((#[trigger] self.all()[i],), false)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn find<P: Fn(&T) -> bool>(self, p: P) -> (r: Option<T>)
        requires self.pos() == 0, forall|i: int| 0 <= i < self.all().len() ==> p.requires((&(#[trigger] self.all()[i]),)),
        ensures r is None ==> forall|i: int| 0 <= i < self.all().len() ==> p.ensures((&(#[trigger] self.all()[i]),), false),
            r is Some ==> exists|i: int| 0 <= i < self.all().len() && (#[trigger] self.all()[i]) == r->0 && p.ensures((&self.all()[i],), true)
                && forall|j: int| 0 <= j < i ==> p.ensures((&(#[trigger] self.all()[j]),), false)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn any<P: Fn(T) -> bool>(self, p: P) -> (r: bool)
        requires self.pos() == 0, forall|i: int| 0 <= i < self.all().len() ==> p.requires((#[trigger] self.all()[i],)),
        ensures !r ==> forall|i: int| 0 <= i < self.all().len() ==> p.ensures((#[trigger] self.all()[i],), false),
            r ==> exists|i: int| 0 <= i < self.all().len() && p.ensures((#[trigger] self.all()[i],), true)
    { unimplemented!() }
}
impl Value {
    #[verifier::external_body]
    pub fn new(origin: Option<&String>, kind: ValueKind) -> (r: Value) ensures r.kind == kind { unimplemented!() }
}
pub open spec fn scalar(v: KV, k: ValueKind) -> bool {
    match v {
        KV::Text(t) => k is String && (k->String_0)@ == t,
        KV::Int(n) => k == ValueKind::I64(n),
        KV::Float(x) => k == ValueKind::Float(x),
        KV::Bool(b) => k == ValueKind::Boolean(b),
        KV::Null => k is Nil,
    }
}
pub open spec fn unnamed(e: KdlEntry) -> bool { e.key() is None }
pub open spec fn arguments(n: KdlNode) -> Seq<KdlEntry> { n.ents().filter(|e: KdlEntry| unnamed(e)) }
pub proof fn no_arguments(l: Seq<KdlEntry>)
    requires l.filter(|e: KdlEntry| unnamed(e)).len() == 0
    ensures forall|i: int| 0 <= i < l.len() ==> !unnamed(#[trigger] l[i])
    decreases l.len()
{
    let f = |e: KdlEntry| unnamed(e);
    reveal(Seq::filter);
    if l.len() > 0 {
        assert(l.filter(f) =~= (if f(l.last()) { l.drop_last().filter(f).push(l.last()) } else { l.drop_last().filter(f) }));
        no_arguments(l.drop_last());
        assert forall|i: int| 0 <= i < l.len() implies !unnamed(#[trigger] l[i]) by { if i < l.len() - 1 { assert(l.drop_last()[i] == l[i]); } }
    }
}
/// the last of the name `k`
pub open spec fn last_of(l: Seq<KdlNode>, k: Seq<char>, i: int) -> bool {
    0 <= i < l.len() && l[i].key() == k && forall|j: int| i < j < l.len() ==> (#[trigger] l[j]).key() != k
}
pub open spec fn last_prop(l: Seq<KdlEntry>, k: Seq<char>, i: int) -> bool {
    0 <= i < l.len() && l[i].key() == Some(k) && forall|j: int| i < j < l.len() ==> (#[trigger] l[j]).key() != Some(k)
}
pub open spec fn dashes(l: Seq<KdlNode>) -> bool { forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]).key() == "-"@ }
/// what a node means as a value
pub open spec fn means(n: KdlNode, v: Value) -> bool
    decreases n.depth()
{
    let args = arguments(n);
    if args.len() == 1 { scalar(args[0].v(), v.kind) }
    else if args.len() > 1 {
        v.kind is Array && (v.kind->Array_0)@.len() == args.len() && forall|i: int| 0 <= i < args.len() ==> scalar(args[i].v(), (#[trigger] (v.kind->Array_0)@[i]).kind)
    } else if n.ents().len() > 0 {
        v.kind is Table && ({ let m = (v.kind->Table_0).m();
            (forall|i: int| 0 <= i < n.ents().len() ==> m.contains_key((#[trigger] n.ents()[i]).key()->0))
            && forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> exists|i: int| last_prop(n.ents(), k, i) && scalar((#[trigger] n.ents()[i]).v(), m[k].kind) })
    } else if n.block() is Some {
        let l = n.block()->0.list();
        if dashes(l) {
            v.kind is Array && (v.kind->Array_0)@.len() == l.len() && forall|i: int| 0 <= i < l.len() ==> (#[trigger] l[i]).depth() < n.depth() && means(l[i], (v.kind->Array_0)@[i])
        } else {
            v.kind is Table && ({ let m = (v.kind->Table_0).m();
                (forall|i: int| 0 <= i < l.len() ==> m.contains_key((#[trigger] l[i]).key()))
                && forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> exists|i: int| last_of(l, k, i) && (#[trigger] l[i]).depth() < n.depth() && means(l[i], m[k]) })
        }
    } else { v.kind == ValueKind::Boolean(true) }
}
//@fn crates/oro-config/src/kdl_source.rs value_kind
    ensures scalar(value.v(), ret)
//@subst? ValueKind::String($0.into()) =>> ValueKind::String(vx_lit($0))
//@end
//@fn crates/oro-config/src/kdl_source.rs map_kind
    ensures value.pos() == 0 ==> ret is Table && collected(value.all(), (ret->Table_0).m())
//@subst impl Iterator<Item = (String, Value)> =>> Iter<(String, Value)>
//@m collect => vx_collect
//@end
//@fn crates/oro-config/src/kdl_source.rs array_kind
    ensures value.pos() == 0 ==> ret is Array && (ret->Array_0)@ == value.all()
//@subst impl Iterator<Item = Value> =>> Iter<Value>
//@m collect => vx_collect
//@end
//@fn crates/oro-config/src/kdl_source.rs node_value
    ensures means(*node, ret)
//@m all => all_are
//@at body_start
    broadcast use node_depth;
    let ghost args = arguments(*node);
//@at before let len =
    assert(refs(entries.all(), args));
//@at after let len =
    proof {
        if len == 0 { no_arguments(node.ents()); }
    }
//@closure 0 (&&KdlEntry) -> (r: bool)
    ensures r == unnamed(**$0)
//@subst? $0.map(node_value) =>> $0.map(|vx_n: &KdlNode| -> (r: Value) ensures means(*vx_n, r) { node_value(vx_n) })
//@subst? node.name().value() == "-" =>> vx_streq(node.name().value(), "-")
//@closure 1 (&KdlEntry) -> (r: Value)
    ensures scalar($0.v(), r.kind)
//@closure 2 (&KdlEntry) -> (r: (String, Value))
    requires $0.key() is Some
    ensures r.0@ == $0.key()->0, scalar($0.v(), r.1.kind)
//@closure 3 (&KdlNode) -> (r: bool)
    ensures r == ($0.key() == "-"@)
//@closure 4 (&KdlNode) -> (r: (String, Value))
    ensures r.0@ == $0.key(), means(*$0, r.1)
//@attr #[verifier::exec_allows_no_decreases_clause]
//@end
//@item crates/oro-config/src/kdl_source.rs KdlSource
//@end
/// the first `options` node of a file
pub open spec fn options_node(d: KdlDocument, i: int) -> bool {
    0 <= i < d.list().len() && d.list()[i].key() == "options"@ && forall|j: int| 0 <= j < i ==> (#[trigger] d.list()[j]).key() != "options"@
}
pub open spec fn file_options(d: KdlDocument, m: Map<Seq<char>, Value>) -> bool {
    &&& (forall|i: int| 0 <= i < d.list().len() ==> (#[trigger] d.list()[i]).key() != "options"@) ==> m == Map::<Seq<char>, Value>::empty()
    &&& forall|i: int| options_node(d, i) ==> if (#[trigger] d.list()[i]).block() is Some { block_options(d.list()[i].block()->0.list(), m) } else { m == Map::<Seq<char>, Value>::empty() }
}
pub open spec fn block_options(l: Seq<KdlNode>, m: Map<Seq<char>, Value>) -> bool {
    &&& forall|i: int| 0 <= i < l.len() ==> m.contains_key((#[trigger] l[i]).key())
    &&& forall|k: Seq<char>| #[trigger] m.contains_key(k) ==> exists|i: int| last_of(l, k, i) && means(#[trigger] l[i], m[k])
}
impl KdlSource {
//@fn crates/oro-config/src/kdl_source.rs Source@KdlSource::collect
    ensures ret is Ok, file_options(self.0, ret->Ok_0.m())
//@subst? Map<String, Value> =>> HashMap<String, Value>
//@subst? Map::new() =>> HashMap::<String, Value>::new()
//@attr #[verifier::exec_allows_no_decreases_clause]
//@at loop 0 before
    let ghost l = children.list();
    let ghost mut done: int = 0;
    proof { assert(l.subrange(0, 0) =~= Seq::empty()); }
//@loop 0
    invariant
        0 <= $it.pos() <= $it.all().len(), refs($it.all(), l), done == $it.pos(),
        block_options(l.subrange(0, done), map.m()),
//@at loop 0 body_end
    proof {
        let was = l.subrange(0, done);
        let now = l.subrange(0, done + 1);
        assert(now =~= was.push(*node));
        assert forall|k: Seq<char>| #[trigger] map.m().contains_key(k) implies exists|i: int| last_of(now, k, i) && means(#[trigger] now[i], map.m()[k]) by {
            if k == node.key() { assert(last_of(now, k, done) && means(now[done], map.m()[k])); }
            else {
                let i = choose|i: int| last_of(was, k, i) && means(#[trigger] was[i], map.m()[k]);
                assert(now[i] == was[i]);
                assert(last_of(now, k, i));
            }
        }
        assert forall|i: int| 0 <= i < now.len() implies map.m().contains_key((#[trigger] now[i]).key()) by { if i < done { assert(now[i] == was[i]); } }
        done = done + 1;
    }
//@at loop 0 after
    proof { assert(l.subrange(0, done) =~= l); }
//@end
}
}
fn main() {}
