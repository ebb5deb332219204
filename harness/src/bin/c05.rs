//! C05: what a registry request resolves to.
use nassun::{NassunOpts, PackageResolution};
use node_semver::{Range, Version};
use vh::*;

const VS: &[&str] = &[
    "0.1.0", "0.1.5", "0.2.0", "1.0.0", "1.0.1", "1.2.0", "1.2.3", "1.10.0", "1.9.9", "2.0.0-alpha.1", "2.0.0-beta", "2.0.0", "2.0.1", "2.1.0-rc.1", "2.1.0", "3.0.0-0",
    "3.0.0", "10.0.0", "9.0.0", "1.2.4-pre.2",
];
const RS: &[&str] = &[
    "*", "^1.0.0", "^1.2.0", "~1.2.0", "~1.0", ">=1.0.0", ">=2.0.0", "<2.0.0", "1.x", "2", "1.0.0 - 2.0.0", "^0.1.0", "^0.2.0", ">=2.0.0-alpha.1 <2.0.0", "^2.0.0-alpha.1",
    "<0.1.0", ">10.0.0", ">=9.0.0", "1 || 3", "^3.0.0-0", "1.2.3 || >=9.0.0", "~2.1.0-rc.1",
];

struct P {
    versions: Vec<&'static str>,
    tags: Vec<(String, String)>,
}
fn gen(rng: &mut Rng) -> P {
    let n = 1 + rng.below(8);
    let mut versions: Vec<&str> = (0..n).map(|_| *rng.pick(VS)).collect();
    versions.sort();
    versions.dedup();
    let mut tags = vec![];
    for t in ["latest", "next", "old", "LTS", "lts", "next-13"] {
        if rng.chance(if t.len() == 3 && t != "old" { 1 } else { 3 }, 4) {
            // now and then a tag whose version is gone
            let v = if rng.chance(1, 12) { *rng.pick(VS) } else { *rng.pick(&versions) };
            tags.push((t.to_string(), v.to_string()));
        }
    }
    P { versions, tags }
}
/// the version the request stands for, None when there is none
fn want(p: &P, req: &str, default_tag: &str) -> Option<String> {
    let has = |v: &str| p.versions.iter().any(|x| *x == v);
    let tag = |t: &str| p.tags.iter().find(|(k, _)| k == t).map(|(_, v)| v.clone());
    let dt = tag(default_tag);
    if req.is_empty() {
        return dt.filter(|v| has(v));
    }
    if let Ok(v) = Version::parse(req) {
        return p.versions.iter().find(|x| Version::parse(x).unwrap() == v).map(|x| x.to_string());
    }
    if let Ok(r) = Range::parse(req) {
        let ok = |v: &str| r.satisfies(&Version::parse(v).unwrap());
        if let Some(v) = dt.clone().filter(|v| has(v) && ok(v)) {
            return Some(v);
        }
        let mut best: Option<&str> = None;
        for v in &p.versions {
            if ok(v) && best.map_or(true, |b| Version::parse(v).unwrap() > Version::parse(b).unwrap()) {
                best = Some(v);
            }
        }
        return best.map(|s| s.to_string()).or_else(|| if req == "*" { dt.filter(|v| has(v)) } else { None });
    }
    tag(req).filter(|v| has(v))
}

fn judge(seed: u64) -> Vec<Fail> {
    let mut rng = Rng::new(seed);
    let mut out = vec![];
    let ps: Vec<P> = (0..24).map(|_| gen(&mut rng)).collect();
    let sums: Vec<Vec<(u8, String)>> = ps.iter().map(|p| p.versions.iter().map(|v| (if rng.chance(1, 20) { 4 } else { rng.below(4) as u8 }, format!("{v}-{}", rng.next()))).collect()).collect();
    let mut docs = std::collections::BTreeMap::new();
    for (i, p) in ps.iter().enumerate() {
        let mut vs = serde_json::Map::new();
        for (v, (kind, s)) in p.versions.iter().zip(&sums[i]) {
            let mut d = json!({"tarball": format!("http://t.example/{i}/{v}.tgz")});
            if *kind & 1 == 1 {
                d["integrity"] = json!(sri512(s.as_bytes()));
            }
            if *kind & 2 == 2 {
                d["shasum"] = json!(sri1(s.as_bytes()).to_hex().1);
            }
            // (what else a version says about itself has no say in it)
            let mut meta = json!({"name": format!("p{i}"), "version": v, "dist": d});
            // an integrity that says nothing is no reason to settle for less
            if *kind == 4 {
                meta["dist"]["integrity"] = json!("no such thing");
                meta["dist"]["shasum"] = json!(sri1(s.as_bytes()).to_hex().1);
            }
            if rng.chance(1, 3) {
                meta["deprecated"] = json!("not this one");
            }
            if rng.chance(1, 4) {
                meta["hasInstallScript"] = json!(true);
                meta["engines"] = json!({"node": ">=99"});
            }
            vs.insert(v.to_string(), meta);
        }
        let tags: serde_json::Map<String, Value> = p.tags.iter().map(|(k, v)| (k.clone(), json!(v))).collect();
        docs.insert(format!("/p{i}"), json!({"name": format!("p{i}"), "dist-tags": tags, "versions": vs}));
    }
    let d2 = docs.clone();
    let srv = Server::start(std::sync::Arc::new(move |r: &Req| match d2.get(&r.path) {
        Some(v) => Resp::ok(serde_json::to_vec(v).unwrap()),
        None => Resp::status(404),
    }));
    let dt = if rng.chance(1, 3) { "next" } else { "latest" };
    let mut o = NassunOpts::new().registry(srv.url.parse().unwrap()).retries(0).memoize_metadata(true);
    if dt != "latest" {
        o = o.default_tag(dt);
    }
    let n = o.build();
    for (i, p) in ps.iter().enumerate() {
        for _ in 0..12 {
            let req = match rng.below(8) {
                0 => String::new(),
                1 => rng.pick(&p.versions).to_string(),
                2 => rng.pick(VS).to_string(),
                3 => ["latest", "next", "old", "none", "LTS", "lts", "next-13"][rng.below(7)].to_string(),
                _ => rng.pick(RS).to_string(),
            };
            let mut spec = if req.is_empty() { format!("p{i}") } else { format!("p{i}@{req}") };
            let mut name = format!("p{i}");
            if rng.chance(1, 5) {
                spec = format!("other@npm:{spec}");
                name = "other".into();
            }
            let w = want(p, &req, dt);
            let got = async_std::task::block_on(n.resolve(&spec));
            let desc = match &got {
                Ok(g) => format!("{:?}", g.resolved()),
                Err(e) => format!("error {e}"),
            };
            let bad = match (&w, &got) {
                (None, Err(_)) => None,
                (None, Ok(_)) => Some("picked-something"),
                (Some(v), Err(_)) if sums[i][p.versions.iter().position(|x| x == v).unwrap()].0 == 4 => None,
                (Some(_), Err(_)) => Some("picked-nothing"),
                (Some(v), Ok(g)) => {
                    let k = p.versions.iter().position(|x| x == v).unwrap();
                    let (kind, s) = &sums[i][k];
                    let integ = if *kind == 4 {
                        Some("no such thing".to_string())
                    } else if kind & 1 == 1 {
                        Some(sri512(s.as_bytes()))
                    } else if kind & 2 == 2 {
                        Some(sri1(s.as_bytes()).to_string())
                    } else {
                        None
                    };
                    match g.resolved() {
                        PackageResolution::Npm { name: n2, version, tarball, integrity } => {
                            if version.to_string() != *v {
                                Some("wrong-version")
                            } else if tarball.to_string() != format!("http://t.example/{i}/{v}.tgz") {
                                Some("wrong-tarball")
                            } else if integrity.as_ref().map(|x| x.to_string()) != integ {
                                Some("wrong-integrity")
                            } else if n2 != &name || g.name() != name {
                                Some("wrong-name")
                            } else {
                                None
                            }
                        }
                        _ => Some("wrong-kind"),
                    }
                }
            };
            if let Some(k) = bad {
                out.push(Fail {
                    key: k.into(),
                    what: format!("{spec} (default tag {dt}) with versions {:?}, tags {:?}: expected {w:?}, got {desc}", p.versions, p.tags),
                    input: json!({"case_seed": seed, "spec": spec, "default_tag": dt, "packument": docs[&format!("/p{i}")]}),
                });
            }
        }
    }
    out
}

fn main() {
    let mut r = Run::from_args();
    r.sample(json!({"requests": RS, "versions": VS}));
    r.sweep(0.9, 1_000_000, judge);
    r.note("requests", r.cases * 24 * 12);
    r.finish();
}
