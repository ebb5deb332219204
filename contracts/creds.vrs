// Unit: the credential store (oro-npm-account config.rs, over KDL documents)
use vstd::prelude::*;
verus! {
//@include strings.vrs
//@include case.vrs
//@include text.vrs
//@method split_once => vx_split_once
//@method strip_suffix => vx_strip_suffix
//@method strip_prefix => vx_strip_prefix
//@include iter.vrs
//@include std.vrs
//@include url.vrs
//@method starts_with => vx_starts_with
//@method ends_with => vx_ends_with
//@method trim_end_matches => vx_trim_end_matches
//@method trim_start_matches => vx_trim_start_matches
//@method as_ref => vx_as_ref
//@method to_owned => vx_owned
//@method into => vx_into
//@method iter => vx_slice_iter
impl VxDisp for u16 { uninterp spec fn disp(&self) -> Seq<char>; uninterp spec fn dbg(&self) -> Seq<char>; }
//@include kdl.vrs
impl VxAsRef for Url { open spec fn av(&self) -> Seq<char> { self.text() } #[verifier::external_body] fn vx_as_ref(&self) -> (r: &str) { unimplemented!() } }
pub trait VxInto { fn vx_into(&self) -> String; }
impl VxInto for str { #[verifier::external_body] fn vx_into(&self) -> (r: String) ensures r@ == self@ { unimplemented!() } }
impl Url {
    pub uninterp spec fn text(&self) -> Seq<char>;
}
/// the url crate: what a url is written as parses as that url
pub broadcast axiom fn url_text(u: Url) ensures url_of(#[trigger] u.text()) == Ok::<Url, UrlError>(u);

pub trait VxRetain {
    spec fn rv(&self) -> Seq<KdlNode>;
    /// std's retain (and retain_mut, for a closure that changes nothing)
    fn vx_retain<F: Fn(&KdlNode) -> bool>(&mut self, f: F)
        requires forall|i: int| 0 <= i < old(self).rv().len() ==> f.requires((&#[trigger] old(self).rv()[i],)),
        ensures old(self).rv().len() >= final(self).rv().len(), forall|p: spec_fn(KdlNode) -> bool| (forall|i: int, b: bool| 0 <= i < old(self).rv().len() && #[trigger] f.ensures((&old(self).rv()[i],), b) ==> b == p(old(self).rv()[i])) ==> final(self).rv() == #[trigger] old(self).rv().filter(p);
}
impl VxRetain for Vec<KdlNode> {
    open spec fn rv(&self) -> Seq<KdlNode> { self@ }
    #[verifier::external_body]
    fn vx_retain<F: Fn(&KdlNode) -> bool>(&mut self, f: F) { unimplemented!() }
}
pub trait VxSliceIter { fn vx_slice_iter(&self) -> Iter<&KdlNode>; }
impl VxSliceIter for Vec<KdlNode> {
    #[verifier::external_body]
    fn vx_slice_iter(&self) -> (r: Iter<&KdlNode>)
        ensures r.pos() == 0, r.all().len() == self@.len(), forall|i: int| #![trigger r.all()[i]] #![trigger self@[i]] 0 <= i < self@.len() ==> *r.all()[i] == self@[i] { unimplemented!() }
}
impl<T> Iter<T> {
    #[verifier::external_body]
    pub fn find<P: Fn(&T) -> bool>(self, p: P) -> (r: Option<T>)
        requires self.pos() == 0, forall|i: int| 0 <= i < self.all().len() ==> p.requires((&(#[trigger] self.all()[i]),)),
        ensures r is None ==> forall|i: int| 0 <= i < self.all().len() ==> p.ensures((&(#[trigger] self.all()[i]),), false),
            r is Some ==> exists|i: int| 0 <= i < self.all().len() && (#[trigger] self.all()[i]) == r->0 && p.ensures((&self.all()[i],), true)
                && forall|j: int| 0 <= j < i ==> p.ensures((&(#[trigger] self.all()[j]),), false)
    { unimplemented!() }
}

// ---- what a change leaves ------------------------------
/// `t` is `s` but for what is inside the first node called `k` (which is new if there was none)
pub open spec fn only(s: Seq<KdlNode>, t: Seq<KdlNode>, k: Seq<char>) -> bool {
    if named(s, k) {
        let i = at(s, k);
        t.len() == s.len() && t[i].same_but_block(&s[i]) && forall|j: int| 0 <= j < s.len() && j != i ==> #[trigger] t[j] == s[j]
    } else {
        t.len() == s.len() + 1 && t.last().nm() == k && t.last().es().len() == 0 && forall|j: int| 0 <= j < s.len() ==> #[trigger] t[j] == s[j]
    }
}
pub open spec fn opts(d: KdlDocument) -> Seq<KdlNode> { under(d.ns(), "options"@) }
pub open spec fn table(d: KdlDocument, k: Seq<char>) -> Seq<KdlNode> { under(opts(d), k) }
pub open spec fn auths(d: KdlDocument) -> Seq<KdlNode> { table(d, "auth"@) }

// ---- what the property says ------------------------------
pub enum Cred { Token(Seq<char>), Legacy(Seq<char>), Basic(Seq<char>, Option<Seq<char>>) }
pub open spec fn cred(c: Credentials) -> Cred {
    match c {
        Credentials::Token(t) => Cred::Token(t@),
        Credentials::LegacyAuth(t) => Cred::Legacy(t@),
        Credentials::BasicAuth { username, password } => Cred::Basic(username@, match password { Some(p) => Some(p@), None => None }),
    }
}
/// the entry is for that registry
pub open spec fn names(n: KdlNode, u: Url) -> bool { url_of(n.nm()) is Ok && nerf(url_of(n.nm())->Ok_0) == nerf(u) }
pub open spec fn read(n: KdlNode) -> Option<Cred> {
    let (t, l, u, p) = (prop(n.es(), "token"@), prop(n.es(), "legacy-auth"@), prop(n.es(), "username"@), prop(n.es(), "password"@));
    if t is Some { match text_of(t->0) { Some(x) => Some(Cred::Token(x)), None => None } }
    else if l is Some { match text_of(l->0) { Some(x) => Some(Cred::Legacy(x)), None => None } }
    else if u is Some {
        match (text_of(u->0), p) {
            (Some(x), None) => Some(Cred::Basic(x, None)),
            (Some(x), Some(v)) => match text_of(v) { Some(y) => Some(Cred::Basic(x, Some(y))), None => None },
            _ => None,
        }
    } else { None }
}
/// the credentials of a registry: those of the first entry for it
pub open spec fn stored(a: Seq<KdlNode>, u: Url) -> Option<Cred> decreases a.len() {
    if a.len() == 0 { None } else if names(a[0], u) { read(a[0]) } else { stored(a.skip(1), u) }
}
pub open spec fn others(u: Url) -> spec_fn(KdlNode) -> bool { |n: KdlNode| !names(n, u) }
pub open spec fn not_called(k: Seq<char>) -> spec_fn(KdlNode) -> bool { |n: KdlNode| n.nm() != k }
pub open spec fn saved(a: Seq<KdlNode>, b: Seq<KdlNode>, u: Url, c: Cred) -> bool {
    &&& b.len() > 0 && b.drop_last() == a.filter(others(u))
    &&& b.last().nm() == u.text() && b.last().block() is None && read(b.last()) == Some(c)
}
pub open spec fn routed(a: Seq<KdlNode>, b: Seq<KdlNode>, scope: Seq<char>, u: Url) -> bool {
    &&& b.len() > 0 && b.drop_last() == a.filter(not_called(scope)) && b.last().nm() == scope && b.last().block() is None
    &&& b.last().es().len() == 1 && b.last().es()[0].key() is None && text_of(b.last().es()[0].val()) == Some(u.text())
}
pub open spec fn nothing_left(a: Seq<KdlNode>, u: Url) -> bool { forall|i: int| 0 <= i < a.len() ==> names(#[trigger] a[i], u) }
pub open spec fn cleared(a: Seq<KdlNode>, b: Seq<KdlNode>, u: Url) -> bool { b == a.filter(others(u)) }
//@include nerf.vrs
pub mod oro_client { pub use super::nerf_dart; }

// ---- lemmas ------------------------------
/// only what is inside the node of that name changed
pub proof fn only_under(s: Seq<KdlNode>, t: Seq<KdlNode>, k: Seq<char>)
    requires only(s, t, k),
    ensures named(t, k), at(t, k) == (if named(s, k) { at(s, k) } else { s.len() as int }), under(t, k) == kids(t[at(t, k)]),
{
    at_is(s, k);
    let i = if named(s, k) { at(s, k) } else { s.len() as int };
    assert forall|j: int| 0 <= j < i implies (#[trigger] t[j]).nm() != k by { assert(t[j] == s[j]); }
    first_is(t, k, i);
}
pub proof fn only_trans(s: Seq<KdlNode>, t: Seq<KdlNode>, v: Seq<KdlNode>, k: Seq<char>)
    requires only(s, t, k), only(t, v, k)
    ensures only(s, v, k)
{
    only_under(s, t, k);
    let i = at(t, k);
    assert forall|j: int| 0 <= j < s.len() && j != i implies #[trigger] v[j] == s[j] by { assert(t[j] == s[j]); }
}
pub proof fn keys_differ()
    ensures "token"@ != "legacy-auth"@, "token"@ != "username"@, "token"@ != "password"@, "legacy-auth"@ != "username"@, "legacy-auth"@ != "password"@, "username"@ != "password"@
{
    reveal_strlit("token"); reveal_strlit("legacy-auth"); reveal_strlit("username"); reveal_strlit("password");
    assert("token"@.len() == 5 && "legacy-auth"@.len() == 11);
    assert("username"@[0] != "password"@[0]);
}
/// a node that was missing was added
pub proof fn first_pushed(s: Seq<KdlNode>, t: Seq<KdlNode>, k: Seq<char>)
    requires named(s, k) ==> t == s, !named(s, k) ==> t.len() == s.len() + 1 && (forall|j: int| 0 <= j < s.len() ==> #[trigger] t[j] == s[j]) && t.last().nm() == k && t.last().es().len() == 0 && t.last().block() is None,
    ensures only(s, t, k), named(t, k), under(t, k) == under(s, k), named(s, k) ==> at(t, k) == at(s, k), !named(s, k) ==> at(t, k) == s.len(),
{
    at_is(s, k);
    if !named(s, k) {
        assert forall|j: int| 0 <= j < s.len() implies #[trigger] t[j] == s[j] by { }
        assert forall|j: int| 0 <= j < s.len() implies (#[trigger] t[j]).nm() != k by { assert(t[j] == s[j]); }
        first_is(t, k, s.len() as int);
    }
}
pub proof fn stored_filter(a: Seq<KdlNode>, u: Url, w: Url)
    ensures nerf(u) == nerf(w) ==> stored(a.filter(others(u)), w) is None,
        nerf(u) != nerf(w) ==> stored(a.filter(others(u)), w) == stored(a, w)
    decreases a.len()
{
    reveal(Seq::filter);
    if a.len() > 0 {
        stored_filter(a.skip(1), u, w);
        filter_first(a, others(u));
        let f = a.skip(1).filter(others(u));
        if !names(a[0], u) {
            assert((seq![a[0]] + f)[0] == a[0]);
            assert((seq![a[0]] + f).skip(1) =~= f);
        }
    }
}
pub proof fn filter_first(a: Seq<KdlNode>, p: spec_fn(KdlNode) -> bool)
    requires a.len() > 0
    ensures a.filter(p) == (if p(a[0]) { seq![a[0]] } else { Seq::empty() }) + a.skip(1).filter(p)
    decreases a.len()
{
    reveal(Seq::filter);
    if a.len() == 1 {
        assert(a.drop_last() =~= Seq::empty());
        assert(a.skip(1) =~= Seq::empty());
        assert(a.drop_last().filter(p) =~= Seq::empty());
        assert(a.filter(p) =~= (if p(a[0]) { seq![a[0]] } else { Seq::empty() }) + a.skip(1).filter(p));
    } else {
        filter_first(a.drop_last(), p);
        assert(a.drop_last().skip(1) =~= a.skip(1).drop_last());
        assert(a.skip(1).last() == a.last());
        assert(a.filter(p) =~= (if p(a[0]) { seq![a[0]] } else { Seq::empty() }) + a.skip(1).filter(p));
    }
}
pub proof fn stored_push(a: Seq<KdlNode>, n: KdlNode, w: Url)
    ensures stored(a.push(n), w) == (if exists|i: int| 0 <= i < a.len() && names(#[trigger] a[i], w) { stored(a, w) } else if names(n, w) { read(n) } else { None })
    decreases a.len()
{
    reveal_with_fuel(stored, 3);
    if a.len() > 0 {
        assert(a.push(n).skip(1) =~= a.skip(1).push(n));
        assert(a.push(n)[0] == a[0]);
        stored_push(a.skip(1), n, w);
        if exists|i: int| 0 <= i < a.len() && names(#[trigger] a[i], w) {
            let i = choose|i: int| 0 <= i < a.len() && names(#[trigger] a[i], w);
            if i > 0 { assert(a.skip(1)[i - 1] == a[i]); }
        }
        if exists|i: int| 0 <= i < a.skip(1).len() && names(#[trigger] a.skip(1)[i], w) {
            let i = choose|i: int| 0 <= i < a.skip(1).len() && names(#[trigger] a.skip(1)[i], w);
            assert(a[i + 1] == a.skip(1)[i]);
        }
    } else {
        assert(a.push(n).skip(1) =~= Seq::empty());
    }
}
pub broadcast proof fn stored_first(a: Seq<KdlNode>, w: Url, i: int)
    requires 0 <= i < a.len(), names(a[i], w), forall|j: int| 0 <= j < i ==> !names(#[trigger] a[j], w)
    ensures #![trigger names(a[i], w), stored(a, w)] stored(a, w) == read(a[i])
    decreases a.len()
{
    if i > 0 {
        assert(!names(a[0], w));
        assert(a.skip(1)[i - 1] == a[i]);
        assert forall|j: int| 0 <= j < i - 1 implies !names(#[trigger] a.skip(1)[j], w) by { assert(a.skip(1)[j] == a[j + 1]); }
        stored_first(a.skip(1), w, i - 1);
    }
}
pub proof fn filter_none(a: Seq<KdlNode>, p: spec_fn(KdlNode) -> bool, i: int)
    requires a.filter(p).len() == 0, 0 <= i < a.len()
    ensures !p(a[i])
    decreases a.len()
{
    reveal(Seq::filter);
    if i < a.len() - 1 { filter_none(a.drop_last(), p, i); }
}
pub proof fn filter_update(a: Seq<KdlNode>, p: spec_fn(KdlNode) -> bool, i: int, x: KdlNode)
    requires 0 <= i < a.len(), !p(a[i]), !p(x)
    ensures a.update(i, x).filter(p) == a.filter(p)
    decreases a.len()
{
    reveal(Seq::filter);
    let b = a.update(i, x);
    if i == a.len() - 1 { assert(b.drop_last() =~= a.drop_last()); }
    else { assert(b.drop_last() =~= a.drop_last().update(i, x)); filter_update(a.drop_last(), p, i, x); }
}
pub broadcast proof fn stored_none(a: Seq<KdlNode>, w: Url)
    requires forall|i: int| 0 <= i < a.len() ==> !names(#[trigger] a[i], w)
    ensures #[trigger] stored(a, w) is None
    decreases a.len()
{
    if a.len() > 0 {
        assert(!names(a[0], w));
        assert forall|i: int| 0 <= i < a.skip(1).len() implies !names(#[trigger] a.skip(1)[i], w) by { assert(a.skip(1)[i] == a[i + 1]); }
        stored_none(a.skip(1), w);
    }
}
/// what was saved is read back for that registry, and for every other registry what was read before
pub proof fn saved_then_read(a: Seq<KdlNode>, b: Seq<KdlNode>, u: Url, c: Cred, w: Url)
    requires saved(a, b, u, c)
    ensures stored(b, w) == (if nerf(w) == nerf(u) { Some(c) } else { stored(a, w) })
{
    broadcast use url_text;
    let f = a.filter(others(u));
    assert(b =~= f.push(b.last()));
    stored_push(f, b.last(), w);
    stored_filter(a, u, w);
    assert(url_of(u.text()) == Ok::<Url, UrlError>(u));
    assert forall|i: int| 0 <= i < f.len() implies !names(#[trigger] f[i], u) by { filter_all(a, others(u), i); }
    if nerf(w) != nerf(u) && !(exists|i: int| 0 <= i < f.len() && names(#[trigger] f[i], w)) { stored_none(f, w); }
}
pub proof fn filter_all(a: Seq<KdlNode>, p: spec_fn(KdlNode) -> bool, i: int)
    requires 0 <= i < a.filter(p).len()
    ensures p(a.filter(p)[i])
    decreases a.len()
{
    reveal(Seq::filter);
    if a.len() > 0 {
        if i < a.drop_last().filter(p).len() { filter_all(a.drop_last(), p, i); }
    }
}

// ---- the code ------------------------------
//@item crates/oro-npm-account/src/config.rs Credentials
//@end
//@fn crates/oro-npm-account/src/config.rs clean_auth_nodes
    ensures final(nodes)@ == old(nodes)@.filter(others(*uri))
//@m retain_mut => vx_retain
//@at body_start
    let ghost p = others(*uri);
    assert(nodes@.filter(p) == nodes@.filter(p));
//@closure 0 (&KdlNode) -> (r: bool)
    ensures r == !names(*$0, *uri)
//@end
//@fn crates/oro-npm-account/src/config.rs clean_scoped_registry_nodes
    ensures final(nodes)@ == old(nodes)@.filter(not_called(scope@))
//@m retain_mut => vx_retain
//@at body_start
    let ghost p = not_called(scope@);
    assert(nodes@.filter(p) == nodes@.filter(p));
//@closure 0 (&KdlNode) -> (r: bool)
    ensures r == ((*$0).nm() != scope@)
//@end
//@fn crates/oro-npm-account/src/config.rs set_credentials_by_uri
    ensures
        only(old(config).ns(), final(config).ns(), "options"@),
        only(opts(*old(config)), opts(*final(config)), "auth"@),
        saved(auths(*old(config)), auths(*final(config)), *uri, cred(*credentials)),
//@option and_then
//@at body_start
    broadcast use at_is, url_text;
    let ghost d0 = *config;
//@at before if let Some(opts) = config.get_mut("options")
    let ghost d1 = *config;
    proof {
        if named(d0.ns(), "options"@) { assert(d1.ns() =~= d0.ns()); }
        first_pushed(d0.ns(), d1.ns(), "options"@);
    }
//@at before if children.get_mut("auth").is_none()
    let ghost c0 = children.ns();
//@at before children.get_mut("auth").unwrap()
    let ghost c1 = children.ns();
    proof {
        if named(c0, "auth"@) { assert(c1 =~= c0); }
        first_pushed(c0, c1, "auth"@);
    }
//@at after children.get_mut("auth").unwrap()
    let ghost c2 = children.ns();
    proof {
        assert(only(c1, c2, "auth"@));
        only_under(c1, c2, "auth"@);
        only_trans(c0, c1, c2, "auth"@);
        assert(under(c2, "auth"@) =~= under(c0, "auth"@));
        assert(c2[at(c2, "auth"@)].block() is Some);
    }
//@at before if let Some(user) = config
    let ghost d2 = *config;
    proof {
        assert(only(d1.ns(), d2.ns(), "options"@));
        only_under(d1.ns(), d2.ns(), "options"@);
        only_trans(d0.ns(), d1.ns(), d2.ns(), "options"@);
        assert(only(opts(d0), opts(d2), "auth"@));
        only_under(opts(d0), opts(d2), "auth"@);
        assert(auths(d2) == auths(d0));
    }
//@at after if let Some(user) = config
    proof {
        let d3 = *config;
        assert(only(d2.ns(), d3.ns(), "options"@));
        only_under(d2.ns(), d3.ns(), "options"@);
        only_trans(d0.ns(), d2.ns(), d3.ns(), "options"@);
        assert(only(opts(d2), opts(d3), "auth"@));
        only_under(opts(d2), opts(d3), "auth"@);
        only_trans(opts(d0), opts(d2), opts(d3), "auth"@);
        keys_differ();
        reveal_with_fuel(prop, 3);
        let n = auths(d3).last();
        assert(auths(d3).drop_last() =~= auths(d2).filter(others(*uri)));
        assert(read(n) == Some(cred(*credentials)));
    }
//@end
//@fn crates/oro-npm-account/src/config.rs set_scoped_registry
    ensures
        only(old(config).ns(), final(config).ns(), "options"@),
        only(opts(*old(config)), opts(*final(config)), "scoped-registries"@),
        routed(table(*old(config), "scoped-registries"@), table(*final(config), "scoped-registries"@), scope@, *registry),
//@option and_then
//@at body_start
    broadcast use at_is;
    let ghost d0 = *config;
//@at before if let Some(opts) = config.get_mut("options")
    let ghost d1 = *config;
    proof {
        if named(d0.ns(), "options"@) { assert(d1.ns() =~= d0.ns()); }
        first_pushed(d0.ns(), d1.ns(), "options"@);
    }
//@at before if children.get_mut("scoped-registries").is_none()
    let ghost c0 = children.ns();
//@at before children.get_mut("scoped-registries").unwrap()
    let ghost c1 = children.ns();
    proof {
        if named(c0, "scoped-registries"@) { assert(c1 =~= c0); }
        first_pushed(c0, c1, "scoped-registries"@);
    }
//@at after children.get_mut("scoped-registries").unwrap()
    let ghost c2 = children.ns();
    proof {
        assert(only(c1, c2, "scoped-registries"@));
        only_under(c1, c2, "scoped-registries"@);
        only_trans(c0, c1, c2, "scoped-registries"@);
        assert(under(c2, "scoped-registries"@) =~= under(c0, "scoped-registries"@));
        assert(c2[at(c2, "scoped-registries"@)].block() is Some);
    }
//@at before if let Some(scoped_registries) = config
    let ghost d2 = *config;
    proof {
        assert(only(d1.ns(), d2.ns(), "options"@));
        only_under(d1.ns(), d2.ns(), "options"@);
        only_trans(d0.ns(), d1.ns(), d2.ns(), "options"@);
        assert(only(opts(d0), opts(d2), "scoped-registries"@));
        only_under(opts(d0), opts(d2), "scoped-registries"@);
        assert(table(d2, "scoped-registries"@) == table(d0, "scoped-registries"@));
    }
//@at after if let Some(scoped_registries) = config
    proof {
        let d3 = *config;
        assert(only(d2.ns(), d3.ns(), "options"@));
        only_under(d2.ns(), d3.ns(), "options"@);
        only_trans(d0.ns(), d2.ns(), d3.ns(), "options"@);
        assert(only(opts(d2), opts(d3), "scoped-registries"@));
        only_under(opts(d2), opts(d3), "scoped-registries"@);
        only_trans(opts(d0), opts(d2), opts(d3), "scoped-registries"@);
        let t = table(d3, "scoped-registries"@);
        assert(t.drop_last() =~= table(d2, "scoped-registries"@).filter(not_called(scope@)));
        let es = t.last().es();
        assert(es.len() == 1 && es[0].key() is None && text_of(es[0].val()) == Some(registry.text()));
    }
//@end
//@fn crates/oro-npm-account/src/config.rs get_credentials_by_uri
    ensures
        ret is Some <==> stored(auths(*config), *uri) is Some,
        ret is Some ==> Some(cred(ret->0)) == stored(auths(*config), *uri),
//@option and_then
//@at body_start
    broadcast use at_is, stored_first, stored_none;
    let ghost a = auths(*config);
//@closure 4 (&&KdlNode) -> (r: bool)
    ensures r == names(**$0, *uri)
//@closure 5 (&KdlNode) -> (r: Option<Credentials>)
    ensures r is Some <==> read(*$0) is Some, r is Some ==> Some(cred(r->0)) == read(*$0)
//@end
//@fn crates/oro-npm-account/src/config.rs clear_crendentials_by_uri
    ensures
        cleared(auths(*old(config)), auths(*final(config)), *uri),
        final(config).ns() == old(config).ns() || only(old(config).ns(), final(config).ns(), "options"@),
        opts(*final(config)) == opts(*old(config)) || only(opts(*old(config)), opts(*final(config)), "auth"@)
            // the block goes when nothing is left in it
            || (opts(*final(config)) == opts(*old(config)).filter(not_called("auth"@)) && nothing_left(auths(*old(config)), *uri)),
//@option and_then
//@m retain_mut => vx_retain
//@closure 4 (&KdlNode) -> (r: bool)
    ensures r == ((*$0).nm() != "auth"@)
//@at body_start
    broadcast use at_is;
    let ghost d0 = *config;
    let ghost ok = named(d0.ns(), "options"@) && named(opts(d0), "auth"@) && opts(d0)[at(opts(d0), "auth"@)].block() is Some;
    let ghost mut left: Seq<KdlNode> = Seq::empty();
//@at after clean_auth_nodes(uri
    proof { left = auth_children.ns(); }
//@at before if let Some(children) = config
    let ghost d2 = *config;
    proof {
        assert(only(d0.ns(), d2.ns(), "options"@));
        only_under(d0.ns(), d2.ns(), "options"@);
        filter_update(opts(d0), not_called("auth"@), at(opts(d0), "auth"@), opts(d2)[at(opts(d0), "auth"@)]);
        assert(opts(d2) =~= opts(d0).update(at(opts(d0), "auth"@), opts(d2)[at(opts(d0), "auth"@)]));
    }
    let ghost p = not_called("auth"@);
//@at before children.nodes_mut()
    assert(children.ns() == opts(d2));
    assert(children.ns().filter(p) == opts(d2).filter(p));
//@at after children.nodes_mut()
    assert(children.ns() == opts(d2).filter(p));
//@at after if let Some(auth_children) = config
    proof {
        let d3 = *config;
        if !ok {
            if named(d0.ns(), "options"@) {
                let (n, m) = (d0.ns()[at(d0.ns(), "options"@)], d3.ns()[at(d0.ns(), "options"@)]);
                if n.block() is Some {
                    let (b, c) = (n.block()->0, m.block()->0);
                    if named(b.ns(), "auth"@) {
                        node_is(b.ns()[at(b.ns(), "auth"@)], c.ns()[at(b.ns(), "auth"@)]);
                    }
                    assert(b.ns() =~= c.ns());
                    doc_is(b, c);
                }
                node_is(n, m);
            }
            assert(d3.ns() =~= d0.ns());
            assert(auths(d0) =~= Seq::empty());
            assert(auths(d0).filter(others(*uri)) =~= Seq::empty()) by { reveal(Seq::filter); }
        } else {
            assert(left == auths(d0).filter(others(*uri)));
            assert(only(d0.ns(), d3.ns(), "options"@));
            only_under(d0.ns(), d3.ns(), "options"@);
            if left.len() > 0 {
                assert(only(opts(d0), opts(d3), "auth"@));
                only_under(opts(d0), opts(d3), "auth"@);
            } else {
                let f = opts(d3);
                assert(f == opts(d0).filter(not_called("auth"@)));
                assert forall|i: int| 0 <= i < f.len() implies (#[trigger] f[i]).nm() != "auth"@ by { filter_all(opts(d0), not_called("auth"@), i); }
                assert(auths(d3) =~= left);
                assert forall|i: int| 0 <= i < auths(d0).len() implies names(#[trigger] auths(d0)[i], *uri) by { filter_none(auths(d0), others(*uri), i); }
            }
        }
    }
//@end

// ---- login and logout: from the file, to the file ------------------------------
#[verifier::external_body]
pub struct Report { _p: () }
pub type Result<T, E = Report> = std::result::Result<T, E>;
#[verifier::external_body]
pub struct IoError { _p: () }
#[verifier::external_body]
pub struct KdlError { _p: () }
#[verifier::external_body]
pub struct ClientError { _p: () }
impl From<KdlError> for Report { #[verifier::external_body] fn from(e: KdlError) -> Self { unimplemented!() } }
pub trait IntoDiagnostic<T>: Sized { fn into_diagnostic(self) -> (r: Result<T>); }
impl<T, E> IntoDiagnostic<T> for std::result::Result<T, E> {
    #[verifier::external_body]
    fn into_diagnostic(self) -> (r: Result<T>) ensures r is Ok <==> self is Ok, r is Ok ==> r->Ok_0 == self->Ok_0 { unimplemented!() }
}
/// (a panic is no login: what matters is what holds after)
pub trait VxMust<T>: Sized { fn vx_must(self) -> T; fn vx_expect(self, m: &str) -> T; }
impl<T> VxMust<T> for Option<T> {
    #[verifier::external_body]
    fn vx_must(self) -> (r: T) ensures self == Some(r) { unimplemented!() }
    #[verifier::external_body]
    fn vx_expect(self, m: &str) -> (r: T) ensures self == Some(r) { unimplemented!() }
}
impl<T, E> VxMust<T> for std::result::Result<T, E> {
    #[verifier::external_body]
    fn vx_must(self) -> (r: T) ensures self == std::result::Result::<T, E>::Ok(r) { unimplemented!() }
    #[verifier::external_body]
    fn vx_expect(self, m: &str) -> (r: T) ensures self == std::result::Result::<T, E>::Ok(r) { unimplemented!() }
}
#[verifier::external_body]
pub struct PathBuf { _p: () }
pub uninterp spec fn default_config() -> Option<PathBuf>;
/// what was in the file before, and what was written
pub uninterp spec fn content(p: PathBuf) -> Seq<char>;
pub uninterp spec fn written(p: PathBuf, t: Seq<char>) -> bool;
impl PathBuf {
    #[verifier::external_body]
    pub fn parent(&self) -> Option<&PathBuf> { unimplemented!() }
    #[verifier::external_body]
    pub fn to_path_buf(&self) -> (r: PathBuf) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn join(&self, s: &str) -> (r: PathBuf) ensures r.joined(*self, s@) { unimplemented!() }
    pub uninterp spec fn joined(&self, d: PathBuf, s: Seq<char>) -> bool;
}
#[verifier::external_body]
pub struct ProjectDirs { _p: () }
impl ProjectDirs {
    pub uninterp spec fn ours(&self) -> bool;
    #[verifier::external_body]
    pub fn from(q: &str, o: &str, a: &str) -> (r: Option<ProjectDirs>)
        ensures a@ == "orogene"@ && q@.len() == 0 && o@.len() == 0 ==> (r is Some <==> default_config() is Some) && (r is Some ==> r->0.ours()) { unimplemented!() }
    #[verifier::external_body]
    pub fn config_dir(&self) -> (r: &PathBuf)
        ensures self.ours() ==> forall|p: PathBuf| #[trigger] p.joined(*r, "oro.kdl"@) ==> Some(p) == default_config() { unimplemented!() }
}
/// (a file that is there is there only once it was written)
pub mod vx_fs {
    use super::*;
    #[verifier::external_body]
    pub fn create_dir_all(p: &PathBuf) -> std::result::Result<(), IoError> { unimplemented!() }
    #[verifier::external_body]
    pub fn read_to_string(p: &PathBuf) -> (r: std::result::Result<String, IoError>) ensures r is Ok ==> r->Ok_0@ == content(*p) { unimplemented!() }
    #[verifier::external_body]
    pub fn write(p: &PathBuf, t: String) -> (r: std::result::Result<(), IoError>) ensures r is Ok ==> written(*p, t@) { unimplemented!() }
}
/// how a document is read and written
pub uninterp spec fn doc_of(t: Seq<char>) -> std::result::Result<KdlDocument, KdlError>;
pub uninterp spec fn shown(d: KdlDocument) -> Seq<char>;
pub trait VxParse { fn vx_parse(&self) -> std::result::Result<KdlDocument, KdlError>; }
impl VxParse for String {
    #[verifier::external_body]
    fn vx_parse(&self) -> (r: std::result::Result<KdlDocument, KdlError>) ensures r == doc_of(self@) { unimplemented!() }
}
impl KdlDocument {
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String) ensures r@ == shown(*self) { unimplemented!() }
}
#[verifier::external_body]
pub struct ClientArgs { _p: () }
#[verifier::external_body]
pub struct OroClientBuilder { _p: () }
#[verifier::external_body]
pub struct OroClient { _p: () }
impl ClientArgs {
    #[verifier::external_body]
    pub fn vx_try_into(self) -> Result<OroClientBuilder> { unimplemented!() }
}
impl OroClientBuilder {
    pub uninterp spec fn reg(&self) -> Option<Url>;
    #[verifier::external_body]
    pub fn registry(self, u: Url) -> (r: Self) ensures r.reg() == Some(u) { unimplemented!() }
    #[verifier::external_body]
    pub fn build(self) -> (r: OroClient) ensures r.reg() == self.reg() { unimplemented!() }
}
/// the registry was told that the token is no longer good; it issued that token
pub uninterp spec fn revoked(u: Url, t: Seq<char>) -> bool;
pub uninterp spec fn issued(u: Url, t: Seq<char>) -> bool;
impl OroClient {
    pub uninterp spec fn reg(&self) -> Option<Url>;
    #[verifier::external_body]
    pub fn delete_token(&self, t: &String) -> (r: std::result::Result<(), ClientError>) ensures r is Ok && self.reg() is Some ==> revoked(self.reg()->0, t@) { unimplemented!() }
}
//@item crates/oro-client/src/api/login.rs AuthType
//@end
//@item crates/oro-client/src/api/login.rs DoneURLResponse
//@end
//@item crates/oro-client/src/api/login.rs LoginCouchResponse
//@end
//@item crates/oro-client/src/api/login.rs Token
//@end
//@item crates/oro-client/src/api/login.rs LoginWeb
//@end
//@item crates/oro-client/src/api/login.rs LoginOptions
//@end
impl Clone for OroClient { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body]
pub struct Duration { _p: () }
/// the registry said where the login it started will be over
pub uninterp spec fn started(u: Url, done: Seq<char>) -> bool;
/// its user typed this
pub uninterp spec fn typed(t: Seq<char>) -> bool;
/// a token is the registry's own where it came as its answer, or from where it said
impl OroClient {
    #[verifier::external_body]
    pub fn new(u: Url) -> (r: OroClient) ensures r.reg() == Some(u) { unimplemented!() }
    #[verifier::external_body]
    pub fn login_web(&self, o: &LoginOptions) -> (r: std::result::Result<LoginWeb, ClientError>)
        ensures self.reg() is Some && r is Ok ==> started(self.reg()->0, r->Ok_0.done_url@) { unimplemented!() }
    #[verifier::external_body]
    pub fn login_couch(&self, user: &str, password: &str, otp: Option<&str>, o: &LoginOptions) -> (r: std::result::Result<LoginCouchResponse, ClientError>)
        requires typed(user@), typed(password@), otp is Some ==> typed(otp->0@)
        ensures
            self.reg() is Some && r is Ok ==> (r->Ok_0 matches LoginCouchResponse::Token(t) ==> issued(self.reg()->0, t@)),
            self.reg() is Some && r is Ok ==> (r->Ok_0 matches LoginCouchResponse::WebOTP { done_url, .. } ==> started(self.reg()->0, done_url@))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_done_url(&self, u: &String) -> (r: std::result::Result<DoneURLResponse, ClientError>)
        ensures self.reg() is Some && started(self.reg()->0, u@) && r is Ok ==> (r->Ok_0 matches DoneURLResponse::Token(t) ==> issued(self.reg()->0, t@))
    { unimplemented!() }
}
pub enum OroNpmAccountError { OroClientError(ClientError), OpenURLError(IoError), ReadUserInputError(IoError), UnexpectedResponseError }
impl From<ClientError> for OroNpmAccountError { #[verifier::external_body] fn from(e: ClientError) -> Self { unimplemented!() } }
#[verifier::external_body]
pub fn open(u: String) -> std::result::Result<(), IoError> { unimplemented!() }
pub fn vx_not_opened(e: IoError) -> OroNpmAccountError { OroNpmAccountError::OpenURLError(e) }
pub fn vx_not_read(e: IoError) -> OroNpmAccountError { OroNpmAccountError::ReadUserInputError(e) }
#[verifier::external_body]
pub fn vx_sleep(d: Duration) { unimplemented!() }
#[verifier::external_body]
pub fn vx_ask() -> (r: std::result::Result<String, IoError>) ensures r is Ok ==> typed(r->Ok_0@) { unimplemented!() }
//@fn crates/oro-npm-account/src/login.rs login
    ensures
        ret is Ok && options.client is Some && options.client->0.reg() is Some ==> issued(options.client->0.reg()->0, ret->Ok_0.token@),
        ret is Ok && options.client is None ==> issued(*registry, ret->Ok_0.token@),
//@subst? Input::with_theme($0).with_prompt($1).interact() =>> vx_ask()
//@subst? Password::with_theme($0).with_prompt($1).interact() =>> vx_ask()
// the loop's value is the function's
//@subst? break Ok($0) =>> return Ok($0)
//@subst? async_std::task::sleep($0) =>> vx_sleep($0)
//@subst? OroNpmAccountError::OpenURLError =>> vx_not_opened
//@subst? OroNpmAccountError::ReadUserInputError =>> vx_not_read
//@attr #[verifier::exec_allows_no_decreases_clause]
//@end
pub mod config { pub use super::{set_credentials_by_uri, set_scoped_registry, get_credentials_by_uri, clear_crendentials_by_uri}; }
impl LoginType {
    #[verifier::external_body]
    pub fn vx_into(&self) -> AuthType { unimplemented!() }
}
//@item src/commands/login.rs LoginType
//@end
//@item src/commands/login.rs LoginCmd
//@end
//@item src/commands/logout.rs LogoutCmd
//@end
pub open spec fn config_path(c: Option<PathBuf>) -> Option<PathBuf> { if c is Some { c } else { default_config() } }
pub open spec fn given(c: LoginCmd, x: Cred) -> bool {
    if c.token is Some { x == Cred::Token(c.token->0@) }
    else if c.username is Some { x == Cred::Basic(c.username->0@, match c.password { Some(p) => Some(p@), None => None }) }
    else if c.legacy_token is Some { x == Cred::Legacy(c.legacy_token->0@) }
    else { x matches Cred::Token(t) && issued(c.registry, t) }
}
/// `b` is `a` with these credentials for the registry, and with it for the scope, if there is one
pub open spec fn logged_in(a: KdlDocument, b: KdlDocument, u: Url, x: Cred, scope: Option<String>) -> bool {
    exists|m: KdlDocument| {
        &&& #[trigger] only(a.ns(), m.ns(), "options"@) && only(opts(a), opts(m), "auth"@) && saved(auths(a), auths(m), u, x)
        &&& scope is None ==> b == m
        &&& scope is Some ==> only(m.ns(), b.ns(), "options"@) && only(opts(m), opts(b), "scoped-registries"@) && routed(table(m, "scoped-registries"@), table(b, "scoped-registries"@), scope->0@, u)
    }
}
pub open spec fn logged_out(a: KdlDocument, b: KdlDocument, u: Url) -> bool {
    &&& cleared(auths(a), auths(b), u)
    &&& b.ns() == a.ns() || only(a.ns(), b.ns(), "options"@)
    &&& opts(b) == opts(a) || only(opts(a), opts(b), "auth"@) || (opts(b) == opts(a).filter(not_called("auth"@)) && nothing_left(auths(a), u))
}
impl LoginCmd {
//@fn src/commands/login.rs OroCommand@LoginCmd::execute
    ensures
        ret is Ok && config_path(self.config) is Some ==> exists|b: KdlDocument, x: Cred| {
            &&& written(config_path(self.config)->0, #[trigger] shown(b))
            &&& doc_of(content(config_path(self.config)->0)) is Ok
            &&& given(self, x) && #[trigger] logged_in(doc_of(content(config_path(self.config)->0))->Ok_0, b, self.registry, x, self.scope)
        },
//@sig fn execute(self) -> (ret: Result<()>)
//@option or_else map
//@subst? std::fs::create_dir_all =>> vx_fs::create_dir_all
//@subst? std::fs::read_to_string =>> vx_fs::read_to_string
//@subst? std::fs::write =>> vx_fs::write
//@m parse => vx_parse
//@m try_into => vx_try_into
//@m into => vx_into
//@m unwrap => vx_must
//@m expect => vx_expect
//@at before tracing::info!("Logging in
    let ghost d0 = config;
    assert(doc_of(content(*config_path)) == std::result::Result::<KdlDocument, KdlError>::Ok(d0));
    assert(Some(*config_path) == crate::config_path(c0));
//@at before config::set_credentials_by_uri
    assert(given(self, cred(credentials)));
//@at after config::set_credentials_by_uri
    let ghost m = config;
//@at before std::fs::write
    assert(logged_in(d0, config, self.registry, cred(credentials), self.scope));
//@at body_start
    let ghost c0 = self.config;
    proof { reveal_strlit(""); }
//@end
}
impl LogoutCmd {
//@fn src/commands/logout.rs OroCommand@LogoutCmd::execute
    ensures
        ret is Ok && config_path(self.config) is Some ==> {
            let t = doc_of(content(config_path(self.config)->0));
            &&& t is Ok
            &&& exists|b: KdlDocument| written(config_path(self.config)->0, #[trigger] shown(b)) && logged_out(t->Ok_0, b, self.registry)
            &&& stored(auths(t->Ok_0), self.registry) matches Some(Cred::Token(x)) ==> revoked(self.registry, x)
        },
//@sig fn execute(self) -> (ret: Result<()>)
//@option or_else map
//@subst? std::fs::create_dir_all =>> vx_fs::create_dir_all
//@subst? std::fs::read_to_string =>> vx_fs::read_to_string
//@subst? std::fs::write =>> vx_fs::write
//@m parse => vx_parse
//@m try_into => vx_try_into
//@m into => vx_into
//@m unwrap => vx_must
//@m expect => vx_expect
//@at body_start
    let ghost c0 = self.config;
    proof { reveal_strlit(""); }
//@at before std::fs::write
    let ghost d1 = config;
    assert(logged_out(doc_of(content(crate::config_path(c0)->0))->Ok_0, d1, self.registry));
//@end
}
} // verus!
fn main() {}
