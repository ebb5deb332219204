//! C10: a request carries the credentials of its registry, and only under that registry.
use base64::Engine;
use futures::AsyncReadExt;
use nassun::NassunOpts;
use oro_client::OroClientBuilder;
use std::sync::{Arc, Mutex};
use url::Url;
use vh::*;

#[derive(Clone, Debug)]
enum Cred {
    Token(String),
    Basic(String, Option<String>),
    Legacy(String),
}
fn b64(s: &str) -> String {
    base64::prelude::BASE64_STANDARD.encode(s)
}
fn header(c: &Cred) -> String {
    match c {
        Cred::Token(t) => format!("Bearer {t}"),
        Cred::Basic(u, p) => format!("Basic {}", b64(&format!("{u}:{}", p.clone().unwrap_or_default()))),
        Cred::Legacy(l) => format!("Basic {l}"),
    }
}
fn cred(rng: &mut Rng, n: usize) -> Cred {
    let s = |rng: &mut Rng, p: &str| format!("{p}{n}{}", ["", "x", "-y", "=", ":z", "ü"][rng.below(6)]);
    match rng.below(4) {
        0 | 1 => Cred::Token(format!("tok{n}{}", ["", "x", "-y", "="][rng.below(4)])),
        2 => {
            let u = s(rng, "user");
            let p = if rng.chance(1, 3) { None } else { Some(s(rng, "pass")) };
            Cred::Basic(u, p)
        }
        _ => Cred::Legacy(b64(&format!("leg{n}:x"))),
    }
}
fn add(b: OroClientBuilder, u: Url, c: &Cred) -> OroClientBuilder {
    match c.clone() {
        Cred::Token(t) => b.token_auth(u, t),
        Cred::Basic(n, p) => b.basic_auth(u, n, p),
        Cred::Legacy(l) => b.legacy_auth(u, l),
    }
}
/// Same host and port, and the path is the registry's or below it.
fn under(u: &Url, reg: &Url) -> bool {
    let (p, r) = (u.path(), reg.path());
    u.host_str() == reg.host_str()
        && u.port_or_known_default() == reg.port_or_known_default()
        && (p == r || (p.starts_with(r) && (r.ends_with('/') || p[r.len()..].starts_with('/'))))
}
fn same_registry(a: &Url, b: &Url) -> bool {
    a.host_str() == b.host_str() && a.port_or_known_default() == b.port_or_known_default() && a.path() == b.path()
}
fn auths(r: &Req) -> Vec<String> {
    r.headers.iter().filter(|(k, _)| k.eq_ignore_ascii_case("authorization")).map(|(_, v)| v.clone()).collect()
}

const PATHS: &[&str] = &["", "", "npm/", "npm/a/", "npma/", "np/", "npm", "npm/a", "NPM/", "npm%2Fa/"];

fn judge(seed: u64) -> Vec<Fail> {
    let mut rng = Rng::new(seed);
    let mut out = vec![];
    // where each request is sent on to, by path
    let redirect: Arc<Mutex<Option<String>>> = Arc::default();
    let flaky = Arc::new(Mutex::new(rng.chance(1, 5)));
    let (rd, fl) = (redirect.clone(), flaky.clone());
    let servers: Vec<Server> = (0..2)
        .map(|_| {
            let (rd, fl) = (rd.clone(), fl.clone());
            Server::start(Arc::new(move |r: &Req| {
                if std::mem::take(&mut *fl.lock().unwrap()) {
                    return Resp::status(503);
                }
                if r.path.contains("redir") {
                    if let Some(to) = rd.lock().unwrap().clone() {
                        return Resp { status: 302, headers: vec![("Location".into(), to)], ..Default::default() };
                    }
                }
                Resp::ok(&b"{\"dist-tags\":{},\"versions\":{}}"[..])
            }))
        })
        .collect();
    let host = |rng: &mut Rng| -> String {
        let s = &servers[rng.below(2)];
        format!("http://{}:{}/", ["127.0.0.1", "127.0.0.1", "127.0.0.1", "localhost"][rng.below(4)], s.port)
    };
    let mut creds: Vec<(Url, Cred)> = vec![];
    for n in 0..rng.below(5) {
        let mut h = host(&mut rng);
        if rng.chance(1, 8) {
            h = ["http://127.0.0.1/", "https://127.0.0.1/", "http://registry.example/"][rng.below(3)].into();
        }
        let u: Url = format!("{h}{}", rng.pick(PATHS)).parse().unwrap();
        if creds.iter().any(|(x, _)| same_registry(x, &u)) {
            continue;
        }
        let c = cred(&mut rng, n);
        creds.push((u, c));
    }
    let mut b = OroClientBuilder::new().retries(2);
    for (u, c) in &creds {
        b = add(b, u.clone(), c);
    }
    let first: Url = format!("{}{}", host(&mut rng), rng.pick(PATHS)).parse().unwrap();
    let client = b.registry(first.clone()).build();
    for round in 0..6 {
        for s in &servers {
            s.clear();
        }
        let reg: Url = if !creds.is_empty() && rng.chance(1, 2) {
            rng.pick(&creds).0.clone()
        } else {
            format!("{}{}", host(&mut rng), rng.pick(PATHS)).parse().unwrap()
        };
        let client = if round == 0 { client.clone() } else { client.with_registry(reg.clone()) };
        let reg = if round == 0 { first.clone() } else { reg };
        if !servers.iter().any(|s| Some(s.port) == reg.port()) {
            continue;
        }
        let tail = ["p", "p/-/p.tgz", "", "redir/x", "../p", "npm/../p", "a/p", "@s%2fp", "npm/a/p", "npma/p?x=/npm/", "p#npm/"][rng.below(11)];
        let what;
        let mut url = reg.clone();
        *redirect.lock().unwrap() = None;
        let res = if rng.chance(1, 4) {
            what = "corgi_packument";
            let r = async_std::task::block_on(client.corgi_packument("some-pkg")).map(|_| ()).map_err(|e| e.to_string());
            // (whether that is the right place to ask is C15's to say)
            if let Some(q) = servers.iter().flat_map(|s| s.requests()).next() {
                url = format!("http://{}{}", q.header("host").unwrap_or(""), q.path).parse().unwrap();
            }
            r
        } else {
            what = "stream_external";
            url = match rng.below(3) {
                0 => url.join(tail).unwrap(),
                1 => format!("{}{}{}", host(&mut rng), rng.pick(PATHS), tail).parse().unwrap(),
                _ => {
                    let mut x = reg.clone();
                    x.set_path(&format!("{}{}", reg.path(), tail));
                    x
                }
            };
            if url.path().contains("redir") {
                *redirect.lock().unwrap() = Some(format!("{}{}landed", host(&mut rng), ["", "npm/"][rng.below(2)]));
            }
            async_std::task::block_on(async {
                let mut s = client.stream_external(&url).await.map_err(|e| e.to_string())?;
                let mut v = vec![];
                s.read_to_end(&mut v).await.map_err(|e| e.to_string())?;
                Ok(())
            })
        };
        let to = redirect.lock().unwrap().clone();
        let mine = creds.iter().find(|(u, _)| same_registry(u, &reg));
        let want: Vec<String> = match mine {
            Some((_, c)) if under(&url, &reg) => vec![header(c)],
            _ => vec![],
        };
        let input = json!({"case_seed": seed, "round": round, "request": what, "url": url.as_str(), "registry": reg.as_str(), "redirect": to,
            "credentials": creds.iter().map(|(u, c)| json!([u.as_str(), format!("{c:?}")])).collect::<Vec<_>>()});
        if let Err(e) = &res {
            out.push(Fail { key: "failed".into(), what: format!("{what} {url}: {e}"), input: input.clone() });
        }
        for s in &servers {
            for r in s.requests() {
                let got = auths(&r);
                let ok = if r.path.contains("landed") {
                    // where the registry itself sends the request on to: the client keeps them for the same host and port only
                    let t: Url = to.clone().unwrap().parse().unwrap();
                    let same = t.host_str() == url.host_str() && t.port() == url.port();
                    got == if same { want.clone() } else { vec![] }
                } else {
                    got == want
                };
                if !ok {
                    out.push(Fail {
                        key: if got.iter().any(|g| !want.contains(g)) || got.len() > want.len() { "leak".into() } else { "missing".into() },
                        what: format!("{what} {url} for registry {reg}: sent {got:?}, should be {want:?}"),
                        input: input.clone(),
                    });
                }
            }
        }
    }
    // a package's own requests: its scope's registry, tarball included
    for s in &servers {
        s.clear();
    }
    out
}

/// Everything asked for a package goes with the credentials of the registry its scope is configured to.
fn judge_scoped(seed: u64) -> Vec<Fail> {
    let mut rng = Rng::new(seed);
    let mut out = vec![];
    let data = tgz(&[("package/package.json", b"{\"name\":\"x\",\"version\":\"1.0.0\"}", 0o644)]);
    let sri = sri512(&data);
    let far = Server::start({
        let d = data.clone();
        Arc::new(move |_: &Req| Resp::ok(d.clone()))
    });
    let elsewhere = rng.chance(1, 4);
    let far_url = far.url.clone();
    let servers: Vec<Server> = (0..3)
        .map(|_| {
            let (sri, d, far_url) = (sri.clone(), data.clone(), far_url.clone());
            Server::start(Arc::new(move |r: &Req| {
                if r.path.ends_with(".tgz") {
                    return Resp::ok(d.clone());
                }
                let host = r.header("host").unwrap_or("").to_string();
                let prefix = if r.path.starts_with("/npm/") { "npm/" } else { "" };
                let name = r.path.rsplit('/').next().unwrap_or("").replace("%2f", "/").replace("%2F", "/").replace("%40", "@");
                let base = if elsewhere { far_url.clone() } else { format!("http://{host}/{prefix}") };
                Resp::ok(serde_json::to_vec(&json!({"name": name, "dist-tags": {"latest": "1.0.0"}, "versions": {"1.0.0": {"name": name, "version": "1.0.0", "dist": {"tarball": format!("{base}{name}/-/x-1.0.0.tgz"), "integrity": sri}}}})).unwrap())
            }))
        })
        .collect();
    let scopes = [None, Some("@a"), Some("@b")];
    let regs: Vec<Url> = servers.iter().map(|s| format!("{}{}", s.url, ["", "npm/"][rng.below(2)]).parse().unwrap()).collect();
    let creds: Vec<Option<Cred>> = (0..3).map(|n| if rng.chance(3, 4) { Some(cred(&mut rng, n)) } else { None }).collect();
    let configured = [true, rng.chance(3, 4), rng.chance(3, 4)];
    let mut b = OroClientBuilder::new().retries(0);
    for (u, c) in regs.iter().zip(&creds) {
        if let Some(c) = c {
            b = add(b, u.clone(), c);
        }
    }
    // as the command line does: the client is given without a registry of its own
    let mut o = NassunOpts::new().registry(regs[0].clone()).client(b.build());
    for i in 1..3 {
        if configured[i] {
            o = o.scope_registry(scopes[i].unwrap(), regs[i].clone());
        }
    }
    let nassun = o.build();
    for (i, sc) in scopes.iter().enumerate() {
        let name = match sc {
            Some(s) => format!("{s}/x"),
            None => "x".into(),
        };
        for spec in [name.clone(), format!("al@npm:{name}@1.0.0")] {
            for s in servers.iter().chain(Some(&far)) {
                s.clear();
            }
            let k = if configured[i] { i } else { 0 };
            let r = async_std::task::block_on(async {
                let p = nassun.resolve(&spec).await.map_err(|e| e.to_string())?;
                let mut t = p.tarball().await.map_err(|e| e.to_string())?;
                let mut v = vec![];
                t.read_to_end(&mut v).await.map_err(|e| e.to_string())
            });
            let input = json!({"case_seed": seed, "spec": spec, "registries": regs.iter().map(|u| u.as_str()).collect::<Vec<_>>(), "configured": configured, "credentials": creds.iter().map(|c| format!("{c:?}")).collect::<Vec<_>>(), "tarballs": if elsewhere { "another host" } else { "the registry" }});
            if let Err(e) = r {
                out.push(Fail { key: "failed".into(), what: format!("{spec}: {e}"), input: input.clone() });
            }
            for (n, s) in servers.iter().chain(Some(&far)).enumerate() {
                for r in s.requests() {
                    if n != k && n != 3 {
                        out.push(Fail { key: "wrong-registry".into(), what: format!("{spec} was asked of {} ({})", regs[n], r.path), input: input.clone() });
                        continue;
                    }
                    let want: Vec<String> = if n == k { creds[k].iter().map(header).collect() } else { vec![] };
                    if auths(&r) != want {
                        let key = if auths(&r).len() > want.len() { "leak" } else { "package-missing" };
                        out.push(Fail { key: key.into(), what: format!("{spec}: {} of {} sent {:?}, should be {want:?}", r.path, s.url, auths(&r)), input: input.clone() });
                    }
                }
            }
        }
    }
    out
}

/// Credentials named on the command line.
fn by_command(seed: u64) -> Vec<Fail> {
    let mut rng = Rng::new(seed);
    let mut out = vec![];
    let tmp = tempfile::tempdir().unwrap();
    let (cwd, home) = (tmp.path().join("p"), tmp.path().join("home"));
    std::fs::create_dir_all(&cwd).unwrap();
    let servers: Vec<Server> = (0..2).map(|_| Server::start(Arc::new(|_: &Req| Resp::ok(&b"{}"[..])))).collect();
    let mut creds: Vec<(Url, Cred)> = vec![];
    let mut args: Vec<String> = vec![];
    for n in 0..1 + rng.below(4) {
        let u: Url = format!("{}{}", rng.pick(&servers).url, rng.pick(&["", "npm/", "npm", "a=b/", "npm/a/"])).parse().unwrap();
        if creds.iter().any(|(x, _)| same_registry(x, &u)) {
            continue;
        }
        let c = cred(&mut rng, n);
        let mut add = |k: &str, v: &str, rng: &mut Rng| args.insert(rng.below(args.len() + 1), format!("--auth={{{u}}}{k}={v}"));
        match &c {
            Cred::Token(t) => add("token", t, &mut rng),
            Cred::Legacy(l) => add("legacy-auth", l, &mut rng),
            Cred::Basic(n, p) => {
                add("username", n, &mut rng);
                if let Some(p) = p {
                    add("password", p, &mut rng);
                }
            }
        }
        creds.push((u, c));
    }
    for _ in 0..2 {
        let reg = if rng.chance(3, 4) { rng.pick(&creds).0.clone() } else { format!("{}{}", rng.pick(&servers).url, rng.pick(PATHS)).parse().unwrap() };
        for s in &servers {
            s.clear();
        }
        let mut a = args.clone();
        a.insert(0, "ping".into());
        a.push(format!("--registry={reg}"));
        let r = cli::oro(&cwd, &home, &a.iter().map(|a| a.as_str()).collect::<Vec<_>>(), &[]);
        let want: Vec<String> = creds.iter().find(|(u, _)| same_registry(u, &reg)).map(|(_, c)| header(c)).into_iter().collect();
        let sent: Vec<Req> = servers.iter().flat_map(|s| s.requests()).collect();
        let input = json!({"case_seed": seed, "args": a});
        if sent.is_empty() {
            out.push(Fail { key: "failed".into(), what: format!("nothing was sent: {}", r.tail()), input: input.clone() });
        }
        for q in &sent {
            let got = auths(q);
            if got != want {
                out.push(Fail {
                    key: if got.iter().any(|g| !want.contains(g)) || got.len() > want.len() { "leak".into() } else { "missing".into() },
                    what: format!("{} for registry {reg}: sent {got:?}, should be {want:?}", q.path),
                    input: input.clone(),
                });
            }
        }
    }
    out
}

fn main() {
    let mut r = Run::from_args();
    r.sweep(0.45, 1_000_000, judge);
    r.sweep(0.25, 1_000_000, |s| judge_scoped(s ^ 0x5c0bed));
    r.sweep(0.2, 100_000, by_command);
    r.sample(json!({"paths": PATHS}));
    r.finish();
}
