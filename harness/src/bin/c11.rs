//! C11: credentials come back from the config document as they were stored, and nothing else changes.
use kdl::KdlDocument;
use oro_npm_account::config::*;
use std::collections::BTreeMap;
use url::Url;
use vh::*;

type C = (u8, String, Option<String>);
fn norm(c: &Credentials) -> C {
    match c {
        Credentials::Token(t) => (0, t.clone(), None),
        Credentials::LegacyAuth(t) => (1, t.clone(), None),
        Credentials::BasicAuth { username, password } => (2, username.clone(), password.clone()),
    }
}
fn word(rng: &mut Rng) -> String {
    const A: &[&str] = &["a", "B", "7", "-", "_", "=", "/", "+", ".", " ", "\"", "\\", "\n", "\t", "{", "}", ";", "#", "r#\"", "//", "ü", "\u{1F600}", "null", "true", "(", ")", "'", "\r", "\\n"];
    let n = rng.below(8);
    (0..n).map(|_| *rng.pick(A)).collect()
}
fn value(rng: &mut Rng) -> String {
    match rng.below(3) {
        0 => word(rng),
        1 => format!("npm_{:x}", rng.next()),
        _ => format!("{:x}==", rng.next()),
    }
}
const REGS: &[&str] = &[
    "https://registry.npmjs.org/", "https://registry.npmjs.org/npm/", "https://registry.npmjs.org/npm", "https://r.example:8443/", "https://r.example/", "https://r.example/a%20b/", "http://127.0.0.1:4873/", "http://127.0.0.1:4874/", "https://r.example/?x=1",
];
/// The registry an address names: the scheme does not matter, host, port and path do.
fn key(u: &Url) -> String {
    format!("{}:{:?}{}", u.host_str().unwrap_or(""), u.port(), u.path())
}
const DOCS: &[&str] = &[
    "",
    "options {\n    store \"x\"\n}\n",
    "options {\n    auth {\n    }\n}\n",
    "options {\n    auth\n}\n",
    "options { auth { \"https://other.example/\" token=\"keep\"; }; }",
    "options {\n auth {\n  \"https://other.example/\" token=\"keep\"; }; }",
    "options {\n    auth {\n        \"https://other.example/\" username=\"u\" password=\"p\"\n        \"other.example\" token=\"k2\"\n        \"//other.example/x/\" token=\"k3\"\n    }\n    store \"x\"\n}\nnode 1 2 a=3 {\n  child\n}\n",
    "other 1\noptions",
    "options {\n    auth { \"https://other.example/\" token=\"keep\"; }\n    // a comment\n    store \"x\" // another\n}\n",
    "options { scoped-registries; }\n",
    "options {\n    scoped-registries {\n    }\n}\n",
    "/* c */ options {\n    \"scoped-registries\" {\n        \"@s\" \"https://s.example/\"\n    }\n}\n",
];
const SCOPES: &[&str] = &["@t", "@u-v", "@s", "t", "@tt", "@T"];
/// every node of the document apart from our registries' auth entries and our scopes', empty containers left out
fn rest(doc: &KdlDocument, ours: &[String]) -> Vec<String> {
    fn walk(path: &str, d: &KdlDocument, ours: &[String], out: &mut Vec<String>) {
        for n in d.nodes() {
            let p = format!("{path}/{}", n.name().value());
            if path == "/options/auth" && Url::parse(n.name().value()).map(|u| ours.contains(&key(&u))).unwrap_or(false) {
                continue;
            }
            if path == "/options/scoped-registries" && SCOPES.contains(&n.name().value()) {
                continue;
            }
            let es: Vec<String> = n.entries().iter().map(|e| format!("{:?}={:?}", e.name().map(|n| n.value().to_string()), e.value())).collect();
            if p != "/options" && p != "/options/auth" && p != "/options/scoped-registries" || !es.is_empty() {
                out.push(format!("{p} {}", es.join(" ")));
            }
            if let Some(c) = n.children() {
                walk(&p, c, ours, out);
            }
        }
    }
    let mut out = vec![];
    walk("", doc, ours, &mut out);
    out
}
/// what each scope names, by the document
fn scopes(doc: &KdlDocument) -> BTreeMap<String, Vec<String>> {
    let mut out: BTreeMap<String, Vec<String>> = BTreeMap::new();
    let nodes = doc.get("options").and_then(|n| n.children()).and_then(|d| d.get("scoped-registries")).and_then(|n| n.children());
    for n in nodes.map(|d| d.nodes()).unwrap_or_default() {
        let v = n.entries().iter().map(|e| format!("{:?}={:?}", e.name().map(|n| n.value().to_string()), e.value().as_string()));
        out.entry(n.name().value().to_string()).or_default().push(v.collect::<Vec<_>>().join(" "));
    }
    out
}
fn named(reg: &Url) -> Vec<String> {
    vec![format!("None={:?}", Some(reg.as_str()))]
}

fn judge(seed: u64) -> Vec<Fail> {
    let mut rng = Rng::new(seed);
    let mut out = vec![];
    let mut text = rng.pick(DOCS).to_string();
    let regs: Vec<Url> = REGS.iter().map(|r| r.parse().unwrap()).collect();
    let ours: Vec<String> = regs.iter().map(key).collect();
    let start = text.clone();
    let before = rest(&text.parse().unwrap(), &ours);
    let mut model: BTreeMap<String, C> = BTreeMap::new();
    let mut routes = scopes(&text.parse().unwrap());
    let mut steps = vec![];
    for _ in 0..1 + rng.below(6) {
        let mut doc: KdlDocument = match text.parse() {
            Ok(d) => d,
            Err(e) => {
                out.push(Fail { key: "unreadable".into(), what: format!("{e:?}: {text}"), input: json!({"case_seed": seed, "start": start, "steps": steps}) });
                return out;
            }
        };
        let i = rng.below(regs.len());
        let mut reg = regs[i].clone();
        if rng.chance(1, 6) {
            let _ = reg.set_scheme(if reg.scheme() == "http" { "https" } else { "http" });
        }
        let k = key(&reg);
        if rng.chance(1, 4) {
            clear_crendentials_by_uri(&reg, &mut doc);
            model.remove(&k);
            steps.push(json!(["clear", reg.as_str()]));
        } else if rng.chance(1, 4) {
            let scope = *rng.pick(SCOPES);
            set_scoped_registry(scope, &reg, &mut doc);
            routes.insert(scope.to_string(), named(&reg));
            steps.push(json!(["scope", scope, reg.as_str()]));
        } else {
            let c = match rng.below(3) {
                0 => Credentials::Token(value(&mut rng)),
                1 => Credentials::LegacyAuth(value(&mut rng)),
                _ => Credentials::BasicAuth { username: value(&mut rng), password: if rng.chance(1, 3) { None } else { Some(value(&mut rng)) } },
            };
            steps.push(json!(["set", reg.as_str(), format!("{:?}", norm(&c))]));
            set_credentials_by_uri(&reg, &c, &mut doc);
            model.insert(k, norm(&c));
        }
        // as login and logout do: through the file
        text = doc.to_string();
        let input = json!({"case_seed": seed, "start": start, "steps": steps, "document": text});
        let doc: KdlDocument = match text.parse() {
            Ok(d) => d,
            Err(e) => {
                out.push(Fail { key: "unreadable".into(), what: format!("{e:?}"), input });
                return out;
            }
        };
        for r in &regs {
            let got = guarded(|| get_credentials_by_uri(r, &doc).map(|c| norm(&c)));
            let want = model.get(&key(r)).cloned();
            if got != Ok(want.clone()) {
                out.push(Fail { key: "value".into(), what: format!("{r}: read {got:?}, stored {want:?}"), input: input.clone() });
            }
        }
        if scopes(&doc) != routes {
            out.push(Fail { key: "scope".into(), what: format!("the scopes should be {routes:?}, are {:?}", scopes(&doc)), input: input.clone() });
        }
        let after = rest(&doc, &ours);
        if after != before {
            out.push(Fail { key: "rest".into(), what: format!("other entries were {before:?}, are {after:?}"), input: input.clone() });
        }
        if !out.is_empty() {
            return out;
        }
    }
    out
}

/// the same through `oro login` and `oro logout`
fn by_command(seed: u64) -> Vec<Fail> {
    let mut rng = Rng::new(seed);
    let mut out = vec![];
    let tmp = tempfile::tempdir().unwrap();
    let (cwd, home) = (tmp.path().join("p"), tmp.path().join("home"));
    std::fs::create_dir_all(&cwd).unwrap();
    std::fs::write(cwd.join("package.json"), "{}").unwrap();
    let refuse = rng.chance(1, 4);
    let server = Server::start(std::sync::Arc::new(move |_: &Req| if refuse { Resp::status(401) } else { Resp::ok(&b"{}"[..]) }));
    let regs: Vec<Url> = ["", "npm/", "npm", "a%20b/", "x=1/", "y{z/"].iter().map(|p| format!("{}{p}", server.url).parse().unwrap()).collect();
    let ours: Vec<String> = regs.iter().map(key).collect();
    let own = rng.chance(1, 2);
    let file = if own { tmp.path().join("own.kdl") } else { home.join("cfg/orogene/oro.kdl") };
    std::fs::create_dir_all(file.parent().unwrap()).unwrap();
    // (not those with what the command itself does not take)
    const FILES: &[usize] = &[0, 1, 2, 4, 5, 7, 8, 10, 11];
    let start = DOCS[*rng.pick(FILES)].to_string();
    std::fs::write(&file, &start).unwrap();
    let before = rest(&start.parse().unwrap(), &ours);
    let mut model: BTreeMap<String, C> = BTreeMap::new();
    let mut routes = scopes(&start.parse().unwrap());
    let mut steps = vec![];
    for _ in 0..1 + rng.below(4) {
        let reg = rng.pick(&regs).clone();
        let was = model.get(&key(&reg)).cloned();
        let mut args = vec![];
        let login = rng.chance(3, 5);
        let mut then = model.clone();
        let mut lead = routes.clone();
        if login {
            args.push("login".to_string());
            let plain = |rng: &mut Rng| format!("{}{:x}{}", rng.pick(&["", "npm_", "-", "a b", "\u{fc}", "}", "{a}b="]), rng.next(), rng.pick(&["", "==", "/+", "\\", "\""]));
            let token = |rng: &mut Rng| format!("{}{:x}{}", rng.pick(&["", "npm_", "-", "}", "{a}b="]), rng.next(), rng.pick(&["", "==", "/+", "\\", "\""]));
            let c: C = match rng.below(4) {
                0 => (0, token(&mut rng), None),
                1 => (1, token(&mut rng), None),
                _ => (2, plain(&mut rng), if rng.chance(1, 3) { None } else { Some(plain(&mut rng)) }),
            };
            args.push(format!("--{}={}", ["token", "legacy-token", "username"][c.0 as usize], c.1));
            if let Some(p) = &c.2 {
                args.push(format!("--password={p}"));
            }
            if rng.chance(1, 2) {
                let scope = *rng.pick(SCOPES);
                args.push(format!("--scope={scope}"));
                lead.insert(scope.to_string(), named(&reg));
            }
            then.insert(key(&reg), c);
        } else {
            args.push("logout".to_string());
            then.remove(&key(&reg));
        }
        args.push(format!("--registry={reg}"));
        if own {
            args.push(format!("--config={}", file.display()));
        }
        server.clear();
        let old = std::fs::read_to_string(&file).unwrap();
        let r = cli::oro(&cwd, &home, &args.iter().map(|a| a.as_str()).collect::<Vec<_>>(), &[]);
        let text = std::fs::read_to_string(&file).unwrap_or_default();
        steps.push(json!({"args": args, "ok": r.ok()}));
        let input = json!({"case_seed": seed, "start": start, "steps": steps, "document": text, "refuse": refuse});
        let asked = matches!(was, Some((0, ..)));
        let revoked = server.requests().iter().filter(|q| q.method == "DELETE").count();
        if !login && asked && revoked == 0 {
            out.push(Fail { key: "revoke".into(), what: format!("logged out ({:?}), the token was not revoked: {}", r.code, r.tail()), input: input.clone() });
        }
        if !login && asked && refuse && !r.ok() {
            // the registry did not take the token back, and so it is still there
            if text != old {
                out.push(Fail { key: "revoke".into(), what: "logging out failed and yet the token is gone".into(), input: input.clone() });
            }
        } else if !r.ok() {
            out.push(Fail { key: "command".into(), what: r.tail(), input: input.clone() });
        } else {
            (model, routes) = (then, lead);
        }
        let doc: KdlDocument = match text.parse() {
            Ok(d) => d,
            Err(e) => {
                out.push(Fail { key: "unreadable".into(), what: format!("{e:?}"), input });
                return out;
            }
        };
        for r in &regs {
            let got = guarded(|| get_credentials_by_uri(r, &doc).map(|c| norm(&c)));
            let want = model.get(&key(r)).cloned();
            if got != Ok(want.clone()) {
                out.push(Fail { key: "value".into(), what: format!("{r}: read {got:?}, stored {want:?}"), input: input.clone() });
            }
        }
        if scopes(&doc) != routes {
            out.push(Fail { key: "scope".into(), what: format!("the scopes should be {routes:?}, are {:?}", scopes(&doc)), input: input.clone() });
        }
        let after = rest(&doc, &ours);
        if after != before {
            out.push(Fail { key: "rest".into(), what: format!("other entries were {before:?}, are {after:?}"), input: input.clone() });
        }
        // what a later command sends
        if rng.chance(1, 2) && !refuse && out.is_empty() {
            let reg = rng.pick(&regs);
            let mut args = vec!["ping".to_string(), format!("--registry={reg}")];
            if own {
                args.push(format!("--config={}", file.display()));
            }
            server.clear();
            let r = cli::oro(&cwd, &home, &args.iter().map(|a| a.as_str()).collect::<Vec<_>>(), &[]);
            let sent: Vec<_> = server.requests().iter().map(|q| q.header("authorization").map(String::from)).collect();
            let b64 = |s: String| base64::Engine::encode(&base64::prelude::BASE64_STANDARD, s);
            let want = model.get(&key(reg)).map(|c| match c {
                (0, t, _) => format!("Bearer {t}"),
                (1, t, _) => format!("Basic {t}"),
                (_, u, p) => format!("Basic {}", b64(format!("{u}:{}", p.clone().unwrap_or_default()))),
            });
            if sent.is_empty() || sent.iter().any(|s| *s != want) {
                out.push(Fail { key: "sent".into(), what: format!("a request to {reg} should carry {want:?}, sent were {sent:?}: {}", r.tail()), input: input.clone() });
            }
        }
        if !out.is_empty() {
            return out;
        }
    }
    out
}

fn main() {
    let mut r = Run::from_args();
    r.sweep(0.4, 3_000_000, judge);
    r.sweep(0.5, 100_000, by_command);
    r.sample(json!({"documents": DOCS, "registries": REGS, "scopes": SCOPES}));
    r.finish();
}
