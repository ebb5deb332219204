//! Oracles over resolved trees, driven through node-maintainer's public API.
use crate::*;
use node_maintainer::{Lockfile, NodeMaintainer};
use std::collections::BTreeSet;

#[derive(Clone, Debug)]
pub struct Placed {
    pub path: Vec<String>,
    pub version: Option<String>,
    pub resolved: Option<String>,
    pub integrity: Option<String>,
}

pub fn placed(l: &Lockfile) -> BTreeMap<Vec<String>, Placed> {
    let mut out = BTreeMap::new();
    for (_k, n) in l.packages() {
        let path: Vec<String> = n.path.iter().map(|x| x.to_string()).collect();
        out.insert(
            path.clone(),
            Placed { path, version: n.version.as_ref().map(|v| v.to_string()), resolved: n.resolved.clone(), integrity: n.integrity.as_ref().map(|i| i.to_string()) },
        );
    }
    out
}

/// registry package name + version a tarball URL of our universe stands for
pub fn from_url(base: &str, url: &str) -> Option<(String, String)> {
    let p = url.strip_prefix(base)?.replace("%2f", "/");
    let (name, file) = p.split_once("/-/")?;
    let short = name.rsplit('/').next()?;
    let v = file.strip_prefix(short)?.strip_prefix('-')?.strip_suffix(".tgz")?;
    Some((name.to_string(), v.to_string()))
}

/// what a dependency request asks of the registry: (package name, version requirement)
pub fn request(name: &str, spec: &str) -> (String, String) {
    if let Some(r) = spec.strip_prefix("npm:") {
        match r.rfind('@') {
            Some(i) if i > 0 => (r[..i].to_string(), r[i + 1..].to_string()),
            _ => (r.to_string(), "*".to_string()),
        }
    } else {
        (name.to_string(), spec.to_string())
    }
}

pub fn req_ok(u: &Universe, pkg: &str, version: &str, req: &str) -> bool {
    if let Some(e) = u.pkgs.get(pkg) {
        if let Some(v) = e.tags.get(req) {
            return v == version;
        }
    }
    match (node_semver::Range::parse(req), node_semver::Version::parse(version)) {
        (Ok(r), Ok(v)) => r.satisfies(&v) || (req == "*" && u.pkgs.get(pkg).and_then(|e| e.tags.get("latest")).map(|l| l == version).unwrap_or(false)),
        _ => false,
    }
}

pub fn lookup<'a>(t: &'a BTreeMap<Vec<String>, Placed>, from: &[String], name: &str) -> Option<&'a Placed> {
    let mut p = from.to_vec();
    loop {
        p.push(name.to_string());
        if let Some(x) = t.get(&p) {
            return Some(x);
        }
        p.pop();
        if p.is_empty() {
            return None;
        }
        p.pop();
    }
}

pub fn deps_of(m: &Value, dev: bool) -> Vec<(String, String)> {
    let mut out: BTreeMap<String, String> = BTreeMap::new();
    for k in ["dependencies", "optionalDependencies"].iter().chain(if dev { ["devDependencies"].iter() } else { [].iter() }) {
        if let Some(o) = m[*k].as_object() {
            for (n, s) in o {
                out.insert(n.clone(), s.as_str().unwrap_or("*").to_string());
            }
        }
    }
    out.into_iter().collect()
}

/// The dependency-satisfaction contract, evaluated on a finished tree.
/// Returns (key, description) of each failure.
pub fn check_tree(u: &Universe, base: &str, root: &Value, t: &BTreeMap<Vec<String>, Placed>) -> Vec<(String, String)> {
    let mut bad = vec![];
    let mut reached: BTreeSet<Vec<String>> = BTreeSet::new();
    let mut todo: Vec<(Vec<String>, Value, bool)> = vec![(vec![], root.clone(), true)];
    for p in t.values() {
        if p.path.len() > 1 && !t.contains_key(&p.path[..p.path.len() - 1].to_vec()) {
            bad.push(("orphan".into(), format!("{:?} is placed under a package that is not in the tree", p.path)));
        }
        match p.resolved.as_deref().and_then(|r| from_url(base, r)) {
            Some((n, v)) => {
                if p.version.as_deref() != Some(v.as_str()) {
                    bad.push(("version-url".into(), format!("{:?}: version {:?} but tarball of {n}@{v}", p.path, p.version)));
                }
                match u.pkgs.get(&n).and_then(|e| e.versions.get(&v)) {
                    Some(ve) => {
                        if ve.integrity.is_some() && p.integrity != ve.integrity {
                            bad.push(("integrity-lost".into(), format!("{:?}: integrity {:?}, registry says {:?}", p.path, p.integrity, ve.integrity)));
                        }
                        todo.push((p.path.clone(), ve.manifest.clone(), false));
                    }
                    None => bad.push(("no-such-package".into(), format!("{:?} -> {n}@{v} is not in the registry", p.path))),
                }
            }
            None => bad.push(("no-url".into(), format!("{:?} has no registry URL: {:?}", p.path, p.resolved))),
        }
    }
    for (path, m, is_root) in &todo {
        for (name, spec) in deps_of(m, *is_root) {
            let (pkg, req) = request(&name, &spec);
            match lookup(t, path, &name) {
                None => bad.push(("missing".into(), format!("{path:?} depends on {name}@{spec}: nothing reachable"))),
                Some(p) => {
                    reached.insert(p.path.clone());
                    let (n, v) = p.resolved.as_deref().and_then(|r| from_url(base, r)).unwrap_or_default();
                    if n != pkg {
                        bad.push(("wrong-package".into(), format!("{path:?} depends on {name}@{spec} ({pkg}), loads {n}@{v} from {:?}", p.path)));
                    } else if !req_ok(u, &pkg, &v, &req) {
                        bad.push(("unsatisfied".into(), format!("{path:?} depends on {name}@{spec}, loads {n}@{v} from {:?}", p.path)));
                    }
                }
            }
        }
    }
    for p in t.keys() {
        if !reached.contains(p) {
            bad.push(("unreached".into(), format!("{p:?} is in the tree but no package's dependency resolves to it")));
        }
    }
    bad
}

pub fn corgi(root: &Value) -> oro_common::CorgiManifest {
    serde_json::from_value(root.clone()).expect("root manifest")
}

pub struct Opts {
    pub concurrency: usize,
    pub lock: Option<String>,
    pub locked: bool,
    pub root: PathBuf,
}
pub fn resolve(url: &str, root: &Value, o: Opts) -> Result<NodeMaintainer, String> {
    let m = corgi(root);
    let url: url::Url = url.parse().unwrap();
    guarded(move || {
        async_std::task::block_on(async move {
            let mut b = NodeMaintainer::builder().registry(url).concurrency(o.concurrency).locked(o.locked).root(&o.root);
            if let Some(l) = o.lock {
                b = b.kdl_lock(l.as_str()).map_err(|e| format!("lock: {e}"))?;
            }
            async_std::future::timeout(Duration::from_secs(30), Box::pin(b.resolve_manifest(m))).await.map_err(|_| "did not finish in 30 s".to_string())?.map_err(|e| format!("{e} ({e:?})"))
        })
    })?
}

/// A random registry and a root manifest whose requests it can all answer.
/// Aliases always name the same target, so package identity is never ambiguous.
pub fn gen_universe(rng: &mut Rng) -> (Universe, Value) {
    let n = 3 + rng.below(5);
    gen_universe_of(rng, n, true)
}
/// `tags`: whether requests by dist-tag occur (a lockfile does not pin those)
pub fn gen_universe_of(rng: &mut Rng, n: usize, tags: bool) -> (Universe, Value) {
    let mut u = Universe::default();
    let mut names: Vec<String> = (0..n).map(|i| if rng.chance(1, 6) { format!("@s/p{i}") } else { format!("p{i}") }).collect();
    // unusual ones, and ones that mean something else elsewhere
    if rng.chance(1, 5) {
        names[0] = rng.pick(&["true", "false", "null", "-", "7zip", "1to2", "0x1", "r", "root", "pkg", "dependencies", "version", "@true/null", "@s/-1", "a.b_c~d", "x.js"]).to_string();
    }
    let pool = ["1.0.0", "1.1.0", "1.2.3", "2.0.0", "2.1.0", "3.0.0"];
    let mut vers: Vec<Vec<&str>> = vec![];
    for _ in 0..n {
        let mut v: Vec<&str> = pool.iter().copied().filter(|_| rng.chance(1, 2)).collect();
        if v.is_empty() {
            v.push("1.0.0");
        }
        vers.push(v);
    }
    let spec = |rng: &mut Rng, i: usize| -> String {
        let v = *rng.pick(&vers[i]);
        match rng.below(10) {
            0 => v.to_string(),
            1 => format!("~{v}"),
            2 => format!(">={v}"),
            3 => "*".into(),
            4 if tags => "latest".into(),
            _ => format!("^{v}"),
        }
    };
    // Cycles only ever close over a request any version satisfies: a cycle of
    // conflicting versions (or of dist-tags) nests forever (DESIGN.md, C26).
    let deps = |rng: &mut Rng, me: usize, max: usize| -> Value {
        let mut m = serde_json::Map::new();
        for _ in 0..rng.below(max + 1) {
            let j = rng.below(n);
            if j == me {
                continue;
            }
            if me != usize::MAX && j < me {
                m.insert(names[j].clone(), json!(">=0.0.1"));
                continue;
            }
            let s = spec(rng, j);
            if rng.chance(1, 8) {
                m.insert(format!("al{j}"), json!(format!("npm:{}@{s}", names[j])));
            } else {
                m.insert(names[j].clone(), json!(s));
            }
        }
        Value::Object(m)
    };
    for i in 0..n {
        for v in vers[i].clone() {
            let mut m = json!({"dependencies": deps(rng, i, 3)});
            if rng.chance(1, 5) {
                m["optionalDependencies"] = deps(rng, i, 2);
            }
            if rng.chance(1, 8) {
                m["devDependencies"] = json!({"not-there": "^9.0.0"});
            }
            u.add(&names[i], v, m);
        }
        if rng.chance(1, 3) {
            let v = *rng.pick(&vers[i]);
            u.tag(&names[i], "latest", v);
        }
    }
    let mut root = json!({"name": "root", "version": "1.0.0", "dependencies": deps(rng, usize::MAX, 5)});
    if rng.chance(1, 3) {
        root["devDependencies"] = deps(rng, usize::MAX, 2);
    }
    if rng.chance(1, 4) {
        root["optionalDependencies"] = deps(rng, usize::MAX, 2);
    }
    (u, root)
}

/// Response delays: a schedule drawn from `seed`.
pub fn gen_delays(seed: u64, max_ms: u64) -> impl Fn(&str, usize) -> u64 + Send + Sync + 'static {
    move |p, n| {
        let mut h = seed ^ (n as u64).wrapping_mul(0x9E37);
        for b in p.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100000001B3);
        }
        let mut r = Rng::new(h);
        if r.chance(1, 2) { 0 } else { r.next() % (max_ms + 1) }
    }
}

pub struct Case {
    pub u: Universe,
    pub root: Value,
    pub server: Server,
    pub dir: tempfile::TempDir,
    pub conc: usize,
    pub seed: u64,
}
impl Case {
    pub fn random(seed: u64) -> Case {
        let mut rng = Rng::new(seed);
        let (u, root) = gen_universe(&mut rng);
        let max = *rng.pick(&[0, 4, 20, 60]);
        let conc = *rng.pick(&[1, 2, 4, 50]);
        Case::new(u, root, gen_delays(rng.next(), max), conc, seed)
    }
    /// few packages, many versions: placement has to dodge constantly
    pub fn dense(seed: u64) -> Case {
        let mut rng = Rng::new(seed);
        let n = 2 + rng.below(3);
        let (mut u, mut root) = gen_universe_of(&mut rng, n, true);
        let names: Vec<String> = u.pkgs.keys().cloned().collect();
        // extra holders in two versions, each wanting its own mix
        for i in 0..4 {
            for v in ["1.0.0", "2.0.0"] {
                let mut m = json!({"dependencies": {}});
                for p in &names {
                    if rng.chance(1, 2) {
                        let vs: Vec<String> = u.pkgs[p].versions.keys().cloned().collect();
                        let k = if rng.chance(1, 3) { "optionalDependencies" } else { "dependencies" };
                        m[k][p] = json!(format!("^{}", rng.pick(&vs)));
                    }
                }
                for j in 0..i {
                    if rng.chance(1, 3) {
                        m["dependencies"][format!("h{j}")] = json!(*rng.pick(&["^1.0.0", "^2.0.0", "*"]));
                    }
                }
                u.add(&format!("h{i}"), v, m);
            }
            if rng.chance(2, 3) {
                root["dependencies"][format!("h{i}")] = json!(*rng.pick(&["^1.0.0", "^2.0.0"]));
            }
        }
        Case::new(u, root, gen_delays(rng.next(), 25), 50, seed)
    }
    /// the same registry after new releases, asked with an edited manifest
    pub fn edited(&self, rng: &mut Rng) -> Case {
        let u = if rng.chance(1, 2) { advance(&self.u) } else { self.u.clone() };
        let mut root = self.root.clone();
        let names: Vec<String> = u.pkgs.keys().cloned().collect();
        for _ in 0..1 + rng.below(3) {
            let p = rng.pick(&names).clone();
            let vs: Vec<String> = u.pkgs[&p].versions.keys().cloned().collect();
            match rng.below(4) {
                0 => {
                    root["dependencies"].as_object_mut().unwrap().remove(&p);
                }
                1 => root["dependencies"][&p] = json!(rng.pick(&vs)),
                _ => root["dependencies"][&p] = json!(format!("^{}", rng.pick(&vs))),
            }
        }
        Case::new(u, root, gen_delays(rng.next(), 25), 50, self.seed)
    }
    pub fn no_tags(seed: u64) -> Case {
        let mut rng = Rng::new(seed);
        let n = 3 + rng.below(5);
        let (mut u, root) = gen_universe_of(&mut rng, n, false);
        let max = *rng.pick(&[0, 4, 20]);
        // older packages come without an integrity, or with a SHA-1 alone
        let mut old = Rng::new(seed ^ 0x01d);
        for ve in u.pkgs.values_mut().flat_map(|e| e.versions.values_mut()) {
            if old.chance(1, 6) {
                ve.integrity = None;
                ve.shasum = old.chance(1, 2).then(|| sri1(&ve.tarball).to_hex().1);
            }
        }
        let conc = *rng.pick(&[1, 4, 50]);
        Case::new(u, root, gen_delays(rng.next(), max), conc, seed)
    }
    pub fn new(u: Universe, root: Value, delay: impl Fn(&str, usize) -> u64 + Send + Sync + 'static, conc: usize, seed: u64) -> Case {
        let server = registry(u.clone(), delay);
        let dir = tempfile::Builder::new().prefix("vh.").tempdir().unwrap();
        Case { u, root, server, dir, conc, seed }
    }
    pub fn resolve(&self, lock: Option<String>, locked: bool) -> Result<NodeMaintainer, String> {
        resolve(&self.server.url, &self.root, Opts { concurrency: self.conc, lock, locked, root: self.dir.path().to_path_buf() })
    }
    pub fn input(&self) -> Value {
        json!({"case_seed": self.seed, "concurrency": self.conc, "root": self.root, "registry": self.u.packument_all()})
    }
    pub fn check(&self, t: &BTreeMap<Vec<String>, Placed>) -> Vec<(String, String)> {
        check_tree(&self.u, &self.server.url, &self.root, t)
    }
}

/// what the lockfile's own bytes say, to be handed to a resolution against another server
pub fn relock(nm: &NodeMaintainer, from: &Case, to: &Case) -> String {
    nm.to_kdl().unwrap().to_string().replace(&from.server.url, &to.server.url)
}

pub type Tree = BTreeMap<Vec<String>, (Option<String>, Option<String>, Option<String>)>;
/// paths with what sits there; the registry's address is taken out so that trees of two servers compare
pub fn tree_of(nm: &NodeMaintainer, base: &str) -> Tree {
    placed(&nm.to_lockfile().unwrap()).into_iter().map(|(k, p)| (k, (p.version, p.resolved.map(|r| r.replace(base, "R/")), p.integrity))).collect()
}
/// every package gets a newer version that every loose range would take, and `latest` moves to it
pub fn advance(u: &Universe) -> Universe {
    let mut n = u.clone();
    for (name, e) in &u.pkgs {
        for major in 1..4 {
            n.add(name, &format!("{major}.99.0"), json!({}));
        }
        let _ = e;
    }
    n
}

/// Some package holds a copy of a dependency although a copy further up would also have satisfied
/// its request. (Known finding: such trees are deduplicated when resolved again from their lockfile.)
pub fn dedupable(u: &Universe, base: &str, root: &Value, t: &BTreeMap<Vec<String>, Placed>) -> bool {
    let mut todo: Vec<(Vec<String>, Value, bool)> = vec![(vec![], root.clone(), true)];
    for p in t.values() {
        if let Some((n, v)) = p.resolved.as_deref().and_then(|r| from_url(base, r)) {
            if let Some(ve) = u.pkgs.get(&n).and_then(|e| e.versions.get(&v)) {
                todo.push((p.path.clone(), ve.manifest.clone(), false));
            }
        }
    }
    for (path, m, is_root) in &todo {
        for (name, spec) in deps_of(m, *is_root) {
            let (_, req) = request(&name, &spec);
            let Some(first) = lookup(t, path, &name) else { continue };
            let mut holder = first.path[..first.path.len() - 1].to_vec();
            while !holder.is_empty() {
                holder.pop();
                let mut at = holder.clone();
                at.push(name.clone());
                if let Some(q) = t.get(&at) {
                    let (n, v) = q.resolved.as_deref().and_then(|r| from_url(base, r)).unwrap_or_default();
                    if req_ok(u, &n, &v, &req) {
                        return true;
                    }
                }
            }
        }
    }
    false
}
impl Case {
    /// the known-finding history: d's own copy of x is nested while the root's copy would do
    pub fn dedup() -> Case {
        let mut u = Universe::default();
        u.add("x", "1.0.0", json!({}));
        u.add("x", "2.0.0", json!({}));
        u.add("d", "1.0.0", json!({"dependencies": {"x": ">=1.0.0"}}));
        let root = json!({"name": "r", "version": "1.0.0", "dependencies": {"d": "^1.0.0", "x": "^1.0.0"}});
        // x for the root answers last
        Case::new(u, root, |p, n| if p == "/x" && n == 0 { 400 } else { 0 }, 50, 0)
    }
    pub fn dedupable(&self, t: &BTreeMap<Vec<String>, Placed>) -> bool {
        dedupable(&self.u, &self.server.url, &self.root, t)
    }
}
