//! Applying a tree to node_modules through node-maintainer's public API, and what must be there afterwards.
use crate::resolve::*;
use crate::*;
use node_maintainer::NodeMaintainer;
use std::collections::BTreeSet;

pub struct Apply<'a> {
    pub dir: &'a Path,
    pub hoisted: bool,
    pub cache: Option<&'a Path>,
    pub lock: Option<String>,
    pub npm_lock: Option<String>,
    pub conc: usize,
    pub script_conc: usize,
    pub ignore_scripts: bool,
    pub prefer_copy: bool,
}
impl<'a> Apply<'a> {
    pub fn new(dir: &'a Path, hoisted: bool) -> Apply<'a> {
        Apply { dir, hoisted, cache: None, lock: None, npm_lock: None, conc: 8, script_conc: 4, ignore_scripts: true, prefer_copy: false }
    }
}
pub fn builder(url: &str, a: &Apply) -> Result<node_maintainer::NodeMaintainerOptions, String> {
    let mut b = NodeMaintainer::builder().registry(url.parse().unwrap()).concurrency(a.conc).script_concurrency(a.script_conc).hoisted(a.hoisted).prefer_copy(a.prefer_copy).root(a.dir);
    if let Some(c) = a.cache {
        b = b.cache(c);
    }
    if let Some(l) = &a.lock {
        b = b.kdl_lock(l.as_str()).map_err(|e| format!("lock: {e}"))?;
    }
    if let Some(l) = &a.npm_lock {
        b = b.npm_lock(l.as_str()).map_err(|e| format!("lock: {e}"))?;
    }
    Ok(b)
}
pub fn block<T>(f: impl std::future::Future<Output = Result<T, node_maintainer::NodeMaintainerError>>) -> Result<T, String> {
    async_std::task::block_on(async {
        async_std::future::timeout(Duration::from_secs(40), Box::pin(f)).await.map_err(|_| "did not finish in 40 s".to_string())?.map_err(|e| format!("{e} ({e:?})"))
    })
}
/// resolve, prune, extract, rebuild: what `oro apply` does
pub fn apply(url: &str, root: &Value, a: &Apply) -> Result<NodeMaintainer, String> {
    let m = corgi(root);
    guarded(|| {
        let b = builder(url, a)?;
        let nm = block(b.resolve_manifest(m)).map_err(|e| format!("resolve: {e}"))?;
        block(nm.prune()).map_err(|e| format!("prune: {e}"))?;
        block(nm.extract()).map_err(|e| format!("extract: {e}"))?;
        block(nm.rebuild(a.ignore_scripts)).map_err(|e| format!("rebuild: {e}"))?;
        Ok(nm)
    })?
}

/// path -> (manifest in the registry) of every package of the tree
pub fn manifests(_u: &Universe, base: &str, t: &BTreeMap<Vec<String>, Placed>) -> BTreeMap<Vec<String>, (String, String)> {
    t.iter().filter_map(|(p, x)| Some((p.clone(), x.resolved.as_deref().and_then(|r| from_url(base, r))?))).collect()
}

/// files of a package, as its tarball has them: relative path -> content
pub fn files_of(tarball: &[u8]) -> BTreeMap<String, Vec<u8>> {
    let mut out = BTreeMap::new();
    let mut ar = tar::Archive::new(flate2::read::GzDecoder::new(tarball));
    for e in ar.entries().unwrap() {
        let mut e = e.unwrap();
        let p = e.path().unwrap().to_string_lossy().to_string();
        let mut b = vec![];
        e.read_to_end(&mut b).unwrap();
        if let Some((_, r)) = p.split_once('/') {
            out.insert(r.to_string(), b);
        }
    }
    out
}

/// Walk Node's module lookup on disk: from the package directory `from` (a real path), the directory `name` resolves to.
pub fn node_lookup(root: &Path, from: &Path, name: &str) -> Option<PathBuf> {
    let mut at = Some(from);
    while let Some(d) = at {
        if !d.starts_with(root) {
            return None;
        }
        if d.file_name().map(|f| f != "node_modules").unwrap_or(true) {
            let c = d.join("node_modules").join(name);
            if c.join("package.json").exists() {
                return std::fs::canonicalize(c).ok();
            }
        }
        at = d.parent();
    }
    None
}

/// The install contract, evaluated on disk: every package's declared dependency is found by Node's lookup, is the
/// package the lockfile wires it to, and has exactly the files of its tarball. Returns the directories reached.
pub fn check_disk(u: &Universe, base: &str, root: &Value, t: &BTreeMap<Vec<String>, Placed>, dir: &Path, hoisted: bool) -> (Vec<(String, String)>, BTreeMap<Vec<String>, PathBuf>) {
    let mut bad = vec![];
    let dir = std::fs::canonicalize(dir).unwrap();
    let ms = manifests(u, base, t);
    let mut at: BTreeMap<Vec<String>, PathBuf> = BTreeMap::new();
    at.insert(vec![], dir.clone());
    let mut todo: Vec<Vec<String>> = vec![vec![]];
    let mut used: BTreeSet<Vec<String>> = BTreeSet::new();
    while let Some(p) = todo.pop() {
        if !used.insert(p.clone()) {
            continue;
        }
        let here = at[&p].clone();
        let m = if p.is_empty() { root.clone() } else { let (n, v) = &ms[&p]; u.pkgs[n].versions[v].manifest.clone() };
        for (name, _) in deps_of(&m, p.is_empty()) {
            let Some(want) = lookup(t, &p, &name) else { continue };
            match node_lookup(&dir, &here, &name) {
                None => bad.push(("unreachable".into(), format!("{p:?}: nothing called {name} can be loaded from {}", here.display()))),
                Some(got) => {
                    if hoisted {
                        let exp = want.path.iter().fold(dir.clone(), |d, x| d.join("node_modules").join(x));
                        if got != exp {
                            bad.push(("elsewhere".into(), format!("{p:?}: {name} loads {} instead of {}", got.display(), exp.display())));
                        }
                    }
                    if let Some(prev) = at.get(&want.path) {
                        if prev != &got {
                            bad.push(("two-places".into(), format!("{:?} is found at {} and at {}", want.path, prev.display(), got.display())));
                        }
                    } else {
                        at.insert(want.path.clone(), got);
                    }
                    todo.push(want.path.clone());
                }
            }
        }
    }
    for (p, d) in &at {
        if p.is_empty() {
            continue;
        }
        let (n, v) = &ms[p];
        for (f, c) in files_of(&u.pkgs[n].versions[v].tarball) {
            match std::fs::read(d.join(&f)) {
                Ok(x) if x == c => {}
                Ok(x) => bad.push(("wrong-content".into(), format!("{p:?} should be {n}@{v} but {f} in {} reads {}", d.display(), String::from_utf8_lossy(&x).chars().take(120).collect::<String>()))),
                Err(e) => bad.push(("missing-file".into(), format!("{p:?}: {f} of {n}@{v}: {e}"))),
            }
        }
    }
    (bad, at)
}
