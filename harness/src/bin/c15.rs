//! C15: a package is asked of the registry its scope is configured to, and of no other.
use nassun::NassunOpts;
use oro_client::OroClientBuilder;
use std::collections::BTreeSet;
use std::sync::Arc;
use url::Url;
use vh::*;

const PATHS: &[&str] = &["", "npm/", "npm", "a/b", "a/b/", "np%20m", "npm/x"];
const SCOPES: &[&str] = &["a", "b", "B", "a.b"];

/// Three registries, each serving every name below its own path, each naming itself in what it serves.
fn registries(rng: &mut Rng, mark: bool) -> (Vec<Server>, Vec<Url>) {
    let servers: Vec<Server> = (0..3)
        .map(|i| {
            Server::start(Arc::new(move |r: &Req| {
                let host = r.header("host").unwrap_or("").to_string();
                if r.path.ends_with(".tgz") {
                    return Resp::ok(tgz(&[("package/package.json", b"{}", 0o644)]));
                }
                let tag = format!("{i}{}", r.path);
                let deps = |t: String| if mark { json!({ "t": t }) } else { json!({}) };
                Resp::ok(
                    serde_json::to_vec(&json!({"name": "x", "description": tag, "dist-tags": {"latest": "1.0.0"}, "versions": {
                        "1.0.0": {"name": "x", "version": "1.0.0", "description": tag, "homepage": tag, "dependencies": deps(tag.clone()), "dist": {"tarball": format!("http://{host}{}/-/1.0.0.tgz", r.path)}},
                        "0.9.0": {"name": "x", "version": "0.9.0", "dependencies": deps(format!("{tag}#0.9.0")), "dist": {"tarball": format!("http://{host}{}/-/0.9.0.tgz", r.path)}}}}))
                    .unwrap(),
                )
            }))
        })
        .collect();
    let urls = servers.iter().map(|s| format!("{}{}", s.url, rng.pick(PATHS)).parse().unwrap()).collect();
    (servers, urls)
}
/// the path of a package's document at the registry
fn doc(reg: &Url, name: &str) -> String {
    format!("{}/{}", reg.path().trim_end_matches('/'), name)
}
fn name(rng: &mut Rng) -> (Option<&'static str>, String) {
    let n = ["x", "y", "x.js", "a"][rng.below(4)];
    if rng.chance(2, 3) {
        let s = *rng.pick(SCOPES);
        (Some(s), format!("@{s}/{n}"))
    } else {
        (None, n.to_string())
    }
}
/// which registry a scope is configured to, and the settings that say so
fn configure(rng: &mut Rng) -> (Vec<(String, usize)>, impl Fn(Option<&str>) -> usize) {
    let mut set: Vec<(String, usize)> = vec![];
    for s in SCOPES {
        if rng.chance(1, 2) {
            set.push((format!("{}{s}", ["@", "@", ""][rng.below(3)]), rng.below(3)));
        }
    }
    let map = set.clone();
    (set, move |s: Option<&str>| s.and_then(|s| map.iter().find(|(k, _)| k.trim_start_matches('@') == s)).map(|x| x.1).unwrap_or(0))
}

fn judge(seed: u64) -> Vec<Fail> {
    let mut rng = Rng::new(seed);
    let mut out = vec![];
    let (servers, regs) = registries(&mut rng, true);
    let (set, pick) = configure(&mut rng);
    let memo = rng.chance(1, 2);
    let mut o = NassunOpts::new().registry(regs[0].clone()).memoize_metadata(memo);
    if rng.chance(1, 2) {
        o = o.client(OroClientBuilder::new().retries(0).build());
    }
    for (s, i) in &set {
        o = o.scope_registry(s, regs[*i].clone());
    }
    let nassun = o.build();
    for _ in 0..6 {
        for s in &servers {
            s.clear();
        }
        let (scope, n) = name(&mut rng);
        let v = ["1.0.0", "0.9.0"][rng.below(2)];
        let spec = match rng.below(4) {
            0 => format!("{}@npm:{n}@{v}", name(&mut rng).1),
            _ => format!("{n}@{v}"),
        };
        let input = json!({"case_seed": seed, "spec": spec, "scopes": set, "memo": memo, "registries": regs.iter().map(|u| u.as_str()).collect::<Vec<_>>()});
        let want = pick(scope);
        let tag = format!("{want}{}", doc(&regs[want], &n));
        let r = async_std::task::block_on(async {
            let p = nassun.resolve(&spec).await.map_err(|e| e.to_string())?;
            let mut got = vec![];
            let m = p.corgi_metadata().await.map_err(|e| e.to_string())?;
            got.push(("corgi_metadata", m.manifest.dependencies.get("t").cloned().unwrap_or_default()));
            let m = p.metadata().await.map_err(|e| e.to_string())?;
            got.push(("metadata", m.manifest.dependencies.get("t").cloned().unwrap_or_default()));
            p.tarball().await.map_err(|e| e.to_string())?;
            Ok::<_, String>(got)
        });
        match r {
            Err(e) => out.push(Fail { key: "failed".into(), what: format!("{spec}: {e}"), input: input.clone() }),
            Ok(got) => {
                for (what, g) in got {
                    let w = if v == "1.0.0" { tag.clone() } else { format!("{tag}#0.9.0") };
                    if g != w {
                        out.push(Fail { key: "other-package".into(), what: format!("{spec}: {what} is {g}, should be {w}"), input: input.clone() });
                    }
                }
            }
        }
        for (i, s) in servers.iter().enumerate() {
            for r in s.requests() {
                let ok = i == want && (r.path == doc(&regs[want], &n) || r.path == format!("{}/-/{v}.tgz", doc(&regs[want], &n)));
                if !ok {
                    out.push(Fail { key: "wrong-registry".into(), what: format!("{spec}: {} asked of {}, should be {}", r.path, regs[i], regs[want].join(".").unwrap()), input: input.clone() });
                }
            }
        }
    }
    out
}

/// The same from the command line, through resolution of a project.
fn judge_cli(seed: u64) -> Vec<Fail> {
    let mut rng = Rng::new(seed);
    let mut out = vec![];
    let (servers, regs) = registries(&mut rng, false);
    let (set, pick) = configure(&mut rng);
    let dir = tempfile::tempdir().expect("dir");
    let proj = dir.path().join("p");
    std::fs::create_dir_all(&proj).expect("dir");
    let mut deps = serde_json::Map::new();
    let mut want = BTreeSet::new();
    for i in 0..4 {
        let (scope, n) = name(&mut rng);
        // (names that differ in case only are one dependency)
        if deps.keys().any(|k: &String| k.eq_ignore_ascii_case(&n)) {
            continue;
        }
        if rng.chance(1, 3) {
            deps.insert(format!("al{i}"), json!(format!("npm:{n}@^1.0.0")));
        } else {
            deps.insert(n.clone(), json!("^1.0.0"));
        }
        want.insert((pick(scope), doc(&regs[pick(scope)], &n)));
    }
    std::fs::write(proj.join("package.json"), serde_json::to_vec(&json!({"name": "p", "version": "1.0.0", "dependencies": deps})).unwrap()).unwrap();
    let mut args: Vec<String> = ["apply", "--lockfile-only", "--no-progress", "--no-telemetry", "--no-first-time", "--registry"].iter().map(|s| s.to_string()).collect();
    args.push(regs[0].to_string());
    for (s, i) in &set {
        args.push("--scoped-registry".into());
        args.push(format!("{s}={}", regs[*i]));
    }
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let r = cli::oro(&proj, &dir.path().join("home"), &a, &[]);
    let input = json!({"case_seed": seed, "args": args, "dependencies": deps});
    if !r.ok() {
        out.push(Fail { key: "failed".into(), what: r.tail(), input: input.clone() });
        return out;
    }
    let got: BTreeSet<(usize, String)> = servers.iter().enumerate().flat_map(|(i, s)| s.requests().into_iter().map(move |r| (i, r.path))).filter(|x| !x.1.ends_with(".tgz")).collect();
    if got != want {
        out.push(Fail { key: "wrong-registry".into(), what: format!("asked {got:?}, should be {want:?}"), input });
    }
    out
}

fn main() {
    let mut r = Run::from_args();
    r.sweep(0.6, 1_000_000, judge);
    r.sweep(0.35, 1_000_000, judge_cli);
    r.sample(json!({"paths": PATHS, "scopes": SCOPES}));
    r.finish();
}
