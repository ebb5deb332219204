// ---- a registry's name among credentials ------------------------------
/// a registry's name in the table of credentials: host, port and path
pub open spec fn nerf(u: Url) -> Seq<char> {
    let h = if u.host() is Some { u.host()->0 } else { Seq::empty() };
    match u.explicit_port() {
        Some(port) => "//"@ + h + ":"@ + port.disp() + u.p(),
        None => "//"@ + h + u.p(),
    }
}
// ---- two registries share a name only if they have the same host, port and path ------------------------------
pub open spec fn no_slash(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> s[i] != '/' }
pub open spec fn authority(u: Url) -> Seq<char> {
    match u.explicit_port() { Some(p) => u.host()->0 + ":"@ + p.disp(), None => u.host()->0 }
}
/// an http(s) url: it has a host (without `/`; with `:` only inside brackets) and its path starts with `/`
pub open spec fn web(u: Url) -> bool {
    &&& u.host() is Some && no_slash(u.host()->0) && u.host()->0.len() > 0
    &&& u.host()->0.last() == ']' || forall|i: int| 0 <= i < u.host()->0.len() ==> u.host()->0[i] != ':'
    &&& u.p().len() > 0 && u.p()[0] == '/'
}
/// ports are written in digits
pub open spec fn digits(s: Seq<char>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> s[i] != '/' && s[i] != ':' && s[i] != ']' }
pub axiom fn port_digits(a: u16) ensures digits(a.disp());
pub axiom fn port_text(a: u16, b: u16) requires a.disp() == b.disp() ensures a == b;
pub proof fn lemma_cut(a: Seq<char>, p: Seq<char>, b: Seq<char>, q: Seq<char>, c: char)
    requires a + p == b + q, p.len() > 0, q.len() > 0, p[0] == c, q[0] == c,
        forall|i: int| 0 <= i < a.len() ==> a[i] != c, forall|i: int| 0 <= i < b.len() ==> b[i] != c,
    ensures a == b, p == q,
{
    let l = a + p;
    assert(l[a.len() as int] == c);
    assert(l == b + q);
    assert((b + q)[b.len() as int] == c);
    if a.len() < b.len() { assert((b + q)[a.len() as int] == b[a.len() as int]); assert(false); }
    if b.len() < a.len() { assert((a + p)[b.len() as int] == a[b.len() as int]); assert(false); }
    assert(a =~= l.subrange(0, a.len() as int));
    assert(b =~= (b + q).subrange(0, a.len() as int));
    assert(p =~= l.subrange(a.len() as int, l.len() as int));
    assert(q =~= (b + q).subrange(a.len() as int, l.len() as int));
}
/// the authority's last `:` outside brackets starts the port
pub proof fn lemma_port(h: Seq<char>, p: Seq<char>, g: Seq<char>, q: Seq<char>)
    requires h + ":"@ + p == g + ":"@ + q, digits(p), digits(q),
    ensures h == g, p == q,
{
    reveal_strlit(":");
    let l = h + ":"@ + p;
    let r = g + ":"@ + q;
    assert(l.len() == r.len());
    if p.len() < q.len() {
        let i = l.len() - p.len() - 1;
        assert(l[i] == ':');
        assert(r[i] == q[i - g.len() - 1]);
        assert(false);
    }
    if q.len() < p.len() {
        let i = r.len() - q.len() - 1;
        assert(r[i] == ':');
        assert(l[i] == p[i - h.len() - 1]);
        assert(false);
    }
    assert(h =~= l.subrange(0, h.len() as int));
    assert(g =~= r.subrange(0, h.len() as int));
    assert(p =~= l.subrange(h.len() as int + 1, l.len() as int));
    assert(q =~= r.subrange(h.len() as int + 1, l.len() as int));
}
pub proof fn lemma_noport(h: Seq<char>, g: Seq<char>, q: Seq<char>)
    requires h == g + ":"@ + q, digits(q), h.len() > 0,
        h.last() == ']' || forall|i: int| 0 <= i < h.len() ==> h[i] != ':',
    ensures false,
{
    reveal_strlit(":");
    assert(h[g.len() as int] == ':');
    assert(h.last() == q.last());
}
pub proof fn lemma_nerf(a: Url, b: Url)
    requires web(a), web(b), nerf(a) == nerf(b),
    ensures a.host() == b.host(), a.explicit_port() == b.explicit_port(), a.p() == b.p(),
{
    reveal_strlit("//");
    reveal_strlit(":");
    if a.explicit_port() is Some { port_digits(a.explicit_port()->0); }
    if b.explicit_port() is Some { port_digits(b.explicit_port()->0); }
    let x = authority(a);
    let y = authority(b);
    assert(nerf(a) =~= "//"@ + (x + a.p()));
    assert(nerf(b) =~= "//"@ + (y + b.p()));
    let n = nerf(a);
    assert(x + a.p() =~= n.subrange(2, n.len() as int));
    assert(y + b.p() =~= n.subrange(2, n.len() as int));
    assert(no_slash(x));
    assert(no_slash(y));
    lemma_cut(x, a.p(), y, b.p(), '/');
    match (a.explicit_port(), b.explicit_port()) {
        (Some(p), Some(q)) => { lemma_port(a.host()->0, p.disp(), b.host()->0, q.disp()); port_text(p, q); }
        (Some(p), None) => { lemma_noport(b.host()->0, a.host()->0, p.disp()); }
        (None, Some(q)) => { lemma_noport(a.host()->0, b.host()->0, q.disp()); }
        (None, None) => {}
    }
    assert(a.host() == b.host());
}

//@fn crates/oro-client/src/auth_middleware.rs nerf_dart
    ensures ret@ == nerf(*url)
//@at body_start
    broadcast use text_facts;
    proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }
//@end
