//! C12: pruning removes what does not belong and keeps what does; applying again gives what a fresh install gives.
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;
use vh::install::*;
use vh::resolve::*;
use vh::*;

/// node_modules as far as a user sees it: without the meta file, and without what a previous install left in bin directories of packages
fn seen(proj: &Path) -> BTreeMap<String, String> {
    tree_snapshot(&proj.join("node_modules")).into_iter().filter(|(k, _)| !k.is_empty() && !k.ends_with(".orogene-meta.kdl") && !k.contains(".marker")).collect()
}
fn diff(a: &BTreeMap<String, String>, b: &BTreeMap<String, String>) -> Vec<String> {
    let mut out: Vec<String> = a.iter().filter(|(k, v)| b.get(*k) != Some(*v)).map(|(k, v)| format!("{k}: {v} instead of {:?}", b.get(k))).collect();
    out.extend(b.iter().filter(|(k, _)| !a.contains_key(*k)).map(|(k, v)| format!("{k}: nothing instead of {v}")));
    out
}
fn dirs(proj: &Path) -> Vec<std::path::PathBuf> {
    walkdir::WalkDir::new(proj.join("node_modules")).into_iter().filter_map(|e| e.ok()).filter(|e| e.file_type().is_dir()).map(|e| e.path().to_path_buf()).collect()
}

fn tamper(rng: &mut Rng, proj: &Path, outside: &Path, hoisted: bool) -> String {
    let nm = proj.join("node_modules");
    let all = dirs(proj);
    // what nobody installed inside a package may be its own (bundled dependencies)
    let at = nm.clone();
    let _ = hoisted;
    let stray = |d: std::path::PathBuf| {
        let _ = std::fs::create_dir_all(d.join("sub"));
        let _ = std::fs::write(d.join("package.json"), br#"{"name":"stray","version":"1.0.0"}"#);
        let _ = std::fs::write(d.join("sub/x"), b"x");
    };
    match rng.below(12) {
        // names that look like something else
        10 | 11 => {
            let odd = ["foo@1.0.0", "p@q", "a.b", "st ray", "node_modules2", "x@", "@", "@st", "-", "st-ray", "stray.js", "modules", "node-modules", "bin", "oro-store", "a@/x"];
            let name = if rng.chance(1, 3) { format!("@st/{}", rng.pick(&["p@q", "x@", "x.y", "bin", "a b"])) } else { rng.pick(&odd).to_string() };
            if name == "@st" || name == "@" || rng.chance(1, 4) && !name.contains('/') {
                if at.join(&name).exists() || name.starts_with('@') {
                    return "nothing".into();
                }
                std::fs::write(at.join(&name), b"junk").unwrap();
            } else {
                stray(at.join(&name));
            }
            format!("{name} in {}", at.display())
        }
        0 => {
            stray(at.join("stray"));
            format!("stray in {}", at.display())
        }
        1 => {
            stray(at.join("@st/ray"));
            format!("@st/ray in {}", at.display())
        }
        2 => {
            std::fs::write(at.join("junk.txt"), b"junk").unwrap();
            format!("junk.txt in {}", at.display())
        }
        3 => {
            let _ = std::os::unix::fs::symlink(outside, at.join("linked"));
            format!("link to outside in {}", at.display())
        }
        4 => {
            let _ = std::fs::remove_file(nm.join(".orogene-meta.kdl"));
            "meta file gone".into()
        }
        5 => {
            std::fs::write(nm.join(".orogene-meta.kdl"), b"lockfile-version \"x\" {{{").unwrap();
            "meta file corrupt".into()
        }
        6 => {
            let ps: Vec<_> = all.iter().filter(|d| std::fs::read_to_string(d.join("package.json")).map(|t| !t.contains("\"bundled\"")).unwrap_or(false)).cloned().collect();
            if ps.is_empty() {
                return "nothing".into();
            }
            let d = rng.pick(&ps).clone();
            std::fs::remove_dir_all(&d).unwrap();
            format!("{} removed", d.display())
        }
        // (not where a package that the record knows was taken away)
        7 if !at.join("p0").exists() && !std::fs::read_to_string(nm.join(".orogene-meta.kdl")).unwrap_or_default().contains("p0") => {
            stray(at.join("p0").join("node_modules").join("deep"));
            format!("p0/node_modules/deep in {}", at.display())
        }
        _ => "nothing".into(),
    }
}

fn judge(seed: u64) -> Vec<Fail> {
    let mut rng = Rng::new(seed);
    let tmp = tempfile::tempdir().unwrap();
    let top = std::fs::canonicalize(tmp.path()).unwrap();
    let outside = top.join("outside");
    std::fs::create_dir_all(outside.join("d")).unwrap();
    std::fs::write(outside.join("d/victim"), b"v").unwrap();
    let proj = top.join("proj");
    std::fs::create_dir_all(&proj).unwrap();
    std::fs::write(proj.join("file"), b"v").unwrap();
    let n = 3 + rng.below(5);
    let (mut u, root1) = gen_universe_of(&mut rng, n, true);
    let mut hoisted = rng.chance(1, 2);
    // packages that come with packages of their own; for the isolated linker, also some they ask for
    let bundles = rng.chance(1, 4);
    let mut bundled_deps = false;
    for (name, e) in u.pkgs.iter_mut() {
        for (v, ve) in e.versions.iter_mut() {
            let mut full = ve.manifest.clone();
            if rng.chance(1, 3) {
                full["bin"] = json!({"tool": "bin/t.js", (format!("t-{}", name.replace(['@', '/'], ""))): "bin/t.js"});
            }
            let pj = serde_json::to_vec(&full).unwrap();
            let c = format!("{name} {v}");
            let mut fs: Vec<(&str, &[u8], u32)> = vec![("package/package.json", &pj, 0o644), ("package/bin/t.js", c.as_bytes(), 0o755)];
            if rng.chance(1, 2) {
                fs.push(("package/lib/only-here.js", b"x", 0o644));
            }
            let dep = ve.manifest["dependencies"].as_object().and_then(|d| d.keys().next().cloned()).filter(|_| !hoisted);
            let own = format!("package/node_modules/{}/package.json", dep.as_deref().unwrap_or("own-of-it"));
            if bundles && rng.chance(1, 2) {
                bundled_deps |= dep.is_some();
                fs.push((&own, br#"{"name":"bundled","version":"0.0.1"}"#, 0o644));
            }
            ve.tarball = tgz(&fs);
            ve.integrity = Some(sri512(&ve.tarball));
        }
    }
    let mut c1 = Case::new(u, root1, |_, _| 0, 8, seed);
    let mut edited = root1_edited(&mut rng, &c1);
    // the same name and version, but another package
    let all: Vec<(String, String)> = c1.u.pkgs.iter().flat_map(|(n, e)| e.versions.keys().map(move |v| (n.clone(), v.clone()))).collect();
    let (a, va) = rng.pick(&all).clone();
    if let (true, Some((b, _))) = (rng.chance(1, 3), all.iter().find(|(n, v)| *n != a && *v == va)) {
        c1.root["dependencies"]["other"] = json!(format!("npm:{a}@{va}"));
        edited["dependencies"]["other"] = json!(format!("npm:{b}@{va}"));
    }
    let c2 = Case::new(c1.u.clone(), edited, |_, _| 0, 8, seed);
    let cache = top.join("cache");
    let use_cache = rng.chance(1, 3);
    let mk = |dir: &std::path::PathBuf, hoisted: bool, lock: Option<String>| -> Result<node_maintainer::NodeMaintainer, String> {
        let mut a = Apply::new(dir, hoisted);
        if use_cache {
            a.cache = Some(&cache);
        }
        a.lock = lock;
        // one server: the second project's
        apply(&c2.server.url, if dir == &proj && !dir.join("second").exists() { &c1.root } else { &c2.root }, &a)
    };
    let mut out = vec![];
    let mut input = json!({"case_seed": seed, "hoisted": hoisted, "cache": use_cache, "first": c1.root, "second": c2.root, "registry": c2.u.packument_all()});
    let first = match mk(&proj, hoisted, None) {
        Ok(nm) => nm,
        Err(e) => return vec![Fail { key: "error".into(), what: e, input }],
    };
    let t1 = placed(&first.to_lockfile().unwrap());
    let nothing = rng.chance(1, 4);
    let mut what = vec![];
    for _ in 0..if nothing { 0 } else { rng.below(3) } {
        what.push(tamper(&mut rng, &proj, &outside, hoisted));
    }
    // markers in every package
    let mut marked = vec![];
    let (_, mut at1) = check_disk(&c2.u, &c2.server.url, &c1.root, &t1, &proj, hoisted);
    if what.iter().any(|w| w.ends_with("removed")) {
        at1.clear();
    }
    if bundled_deps {
        at1.clear();
    }
    for (p, d) in &at1 {
        if !p.is_empty() && d.join("package.json").exists() {
            let _ = std::fs::write(d.join(".marker"), b"m");
            marked.push((p.clone(), d.clone()));
        }
    }
    let meta_ok = !what.iter().any(|w| w.starts_with("meta"));
    let mut switched = false;
    if !bundled_deps && rng.chance(1, 6) {
        hoisted = !hoisted;
        switched = true;
    }
    std::fs::write(proj.join("second"), b"").unwrap();
    input["tampered"] = json!(what);
    input["then_hoisted"] = json!(hoisted);
    let outer = || -> BTreeMap<String, String> { tree_snapshot(&top).into_iter().filter(|(k, _)| !k.starts_with("cache") && !k.starts_with("proj/node_modules") && !k.starts_with("fresh")).collect() };
    let before = outer();
    let lock = if rng.chance(1, 2) { None } else { Some(first.to_kdl().unwrap().to_string()) };
    let r = mk(&proj, hoisted, lock);
    let mut fail = |k: &str, w: String| out.push(Fail { key: k.into(), what: w, input: input.clone() });
    let after = outer();
    if before != after {
        fail("outside", format!("changed outside node_modules: {}", diff(&after, &before).join(", ")));
        return out;
    }
    let second = match r {
        Ok(nm) => nm,
        Err(e) => {
            fail("error", e);
            return out;
        }
    };
    let t2 = placed(&second.to_lockfile().unwrap());
    let (bad, _) = check_disk(&c2.u, &c2.server.url, &c2.root, &t2, &proj, hoisted);
    for (k, w) in bad.into_iter().filter(|_| !bundled_deps) {
        fail(&k, w);
    }
    // the same tree into an empty directory
    let fresh = top.join("fresh");
    std::fs::create_dir_all(&fresh).unwrap();
    let lock2 = second.to_kdl().unwrap().to_string();
    match mk(&fresh, hoisted, Some(lock2.clone())) {
        Ok(nm) => {
            if nm.to_kdl().unwrap().to_string() == lock2 {
                let (mut a, mut b) = (seen(&proj), seen(&fresh));
                // which of two packages with the same bin wins is nobody's promise; neither are bin directories whose package is gone
                for m in [&mut a, &mut b] {
                    m.retain(|k, _| !k.contains(".bin"));
                    // an empty scope directory is no package
                    loop {
                        let keys: Vec<String> = m.keys().cloned().collect();
                        let n = m.len();
                        m.retain(|k, v| !(v == "dir" && (k.rsplit('/').next().unwrap().starts_with('@') || k.ends_with("node_modules") || k == ".oro-store") && !keys.iter().any(|x| x.starts_with(&format!("{k}/")))));
                        if m.len() == n {
                            break;
                        }
                    }
                }
                if a != b {
                    fail("differs-from-fresh", format!("after {what:?}: {}", diff(&a, &b).join(", ")));
                }
                // top-level bins: the same names, none dangling
                let names = |p: &Path| -> BTreeSet<String> { std::fs::read_dir(p.join("node_modules/.bin")).map(|d| d.map(|e| e.unwrap().file_name().to_string_lossy().to_string()).collect()).unwrap_or_default() };
                if names(&proj) != names(&fresh) {
                    fail("bins-differ", format!("{:?} instead of {:?}", names(&proj), names(&fresh)));
                }
                for n in names(&proj) {
                    if std::fs::canonicalize(proj.join("node_modules/.bin").join(&n)).is_err() {
                        fail("bin-dangles", n);
                    }
                }
                let (ma, mb) = (std::fs::read_to_string(proj.join("node_modules/.orogene-meta.kdl")), std::fs::read_to_string(fresh.join("node_modules/.orogene-meta.kdl")));
                if ma.is_err() || ma.as_ref().ok() != mb.as_ref().ok() || ma.as_deref().ok() != Some(lock2.as_str()) {
                    fail("meta", format!("{ma:?} vs {mb:?}"));
                }
            }
        }
        Err(e) => fail("fresh-error", e),
    }
    // what stayed where it was, kept its files
    if !switched && meta_ok {
        let same = |p: &[String]| t1.get(p).map(|x| (x.version.clone(), x.resolved.clone(), x.integrity.clone())) == t2.get(p).map(|x| (x.version.clone(), x.resolved.clone(), x.integrity.clone()));
        for (p, d) in &marked {
            let all = if hoisted { (1..=p.len()).all(|i| same(&p[..i])) } else { same(p) };
            if all && !d.join(".marker").exists() {
                fail("reinstalled", format!("{p:?} was already there at the right version and lost its files"));
            }
        }
    }
    out
}
fn root1_edited(rng: &mut Rng, c: &Case) -> Value {
    if rng.chance(1, 4) {
        return c.root.clone();
    }
    let mut root = c.root.clone();
    let names: Vec<String> = c.u.pkgs.keys().cloned().collect();
    for _ in 0..1 + rng.below(3) {
        let p = rng.pick(&names).clone();
        let vs: Vec<String> = c.u.pkgs[&p].versions.keys().cloned().collect();
        match rng.below(5) {
            0 | 1 => {
                root["dependencies"].as_object_mut().unwrap().remove(&p);
            }
            2 => root["dependencies"][&p] = json!(rng.pick(&vs)),
            _ => root["dependencies"][&p] = json!(format!("^{}", rng.pick(&vs))),
        }
    }
    root
}

fn main() {
    let mut r = Run::from_args();
    r.sweep(0.9, 1_000_000, judge);
    r.sample(json!("first manifest, tampering, second manifest, both linkers; see replay inputs"));
    r.finish();
}
