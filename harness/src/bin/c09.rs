//! C09: bins are linked, under a single name in the bin directory, to files of their own package.
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use vh::install::*;
use vh::resolve::*;
use vh::*;

const FILES: [&str; 7] = ["cli.js", "bin/a.js", "bin/b", "lib/x/y.sh", "bin/deep/c", "bin/.hid", "lib/dist/out/run"];

fn bin_path(rng: &mut Rng, outside: &str) -> String {
    let f = *rng.pick(&FILES);
    match rng.below(14) {
        0 => format!("./{f}"),
        1 => format!("/{f}"),
        2 => format!("../{f}"),
        3 => format!("../../../{f}"),
        4 => format!("bin/../{f}"),
        5 => format!("nowhere/../{f}"),
        6 => ["../victim", "../../victim", "../../../victim", "../../../../victim", "../../../../../../victim", "bin/../../victim"][rng.below(6)].into(),
        7 => format!("{outside}/victim"),
        8 => ["missing.js", "", ".", "..", "/", "bin", "./", "lib/x/"][rng.below(8)].into(),
        9 => format!("../../{outside}/victim"),
        _ => f.to_string(),
    }
}
/// how many bins a package declares
fn some(rng: &mut Rng) -> usize {
    if rng.chance(1, 6) { 4 + rng.below(12) } else { 1 + rng.below(3) }
}
fn bin_name(rng: &mut Rng) -> String {
    let n = *rng.pick(&["a", "b", "tool", "x.js", "Ü", "a b", "c", "d", "e1"]);
    match rng.below(12) {
        0 => format!("@s/{n}"),
        1 => format!("../{n}"),
        2 => format!("../../../{n}"),
        3 => format!("/{n}"),
        4 => format!("..\\{n}"),
        5 => format!("c:{n}"),
        6 => ["..", ".", "", "/", "a/..", "..\\..", "x\\..", "..:", "a\\", "a/"][rng.below(10)].into(),
        _ => n.to_string(),
    }
}
/// where a declared path points: `/` is the package, and there is nothing above it
fn clamp(p: &str) -> Vec<String> {
    let mut out: Vec<String> = vec![];
    for c in p.split('/') {
        match c {
            "" | "." => {}
            ".." => {
                out.pop();
            }
            c => out.push(c.into()),
        }
    }
    out
}
/// the single component a declared name stands for
fn base(n: &str) -> Option<String> {
    fn last(s: &str) -> Option<String> {
        let cs: Vec<&str> = s.split('/').filter(|c| !c.is_empty() && *c != ".").collect();
        cs.last().filter(|c| **c != "..").map(|c| c.to_string())
    }
    last(n).and_then(|b| last(&b.replace(['\\', ':'], "/")))
}
/// name -> acceptable targets (several declarations may fall on one name)
fn expected(m: &Value) -> BTreeMap<String, BTreeSet<String>> {
    let mut raw: Vec<(String, String)> = vec![];
    match &m["bin"] {
        Value::String(s) => {
            if let Some(n) = m["name"].as_str() {
                raw.push((n.into(), s.clone()));
            }
        }
        Value::Object(o) => raw.extend(o.iter().map(|(k, v)| (k.clone(), v.as_str().unwrap().to_string()))),
        Value::Array(a) => raw.extend(a.iter().map(|v| (v.as_str().unwrap().to_string(), v.as_str().unwrap().to_string()))),
        _ => {
            if let Some(d) = m["directories"]["bin"].as_str() {
                let d = clamp(d);
                for f in FILES {
                    let c = clamp(f);
                    if !d.is_empty() && c.starts_with(&d) && !c.last().unwrap().starts_with('.') {
                        raw.push((c.last().unwrap().clone(), f.into()));
                    }
                }
            }
        }
    }
    let mut out: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    for (n, p) in raw {
        if let Some(b) = base(&n) {
            let t = clamp(&p).join("/");
            if !t.is_empty() {
                out.entry(b).or_default().insert(t);
            }
        }
    }
    out
}

fn judge(seed: u64) -> Vec<Fail> {
    let mut rng = Rng::new(seed);
    let tmp = tempfile::tempdir().unwrap();
    let top = std::fs::canonicalize(tmp.path()).unwrap();
    let outside = top.join("outside");
    std::fs::create_dir_all(&outside).unwrap();
    let proj = top.join("w/proj");
    std::fs::create_dir_all(&proj).unwrap();
    for d in ["", "outside", "w", "w/proj"] {
        std::fs::write(top.join(d).join("victim"), b"v").unwrap();
    }
    let mut u = Universe::default();
    let names = ["p0", "@s/p1", "p2", "@s/p3"];
    let n = 1 + rng.below(4);
    let mut deps = serde_json::Map::new();
    let mut manis: BTreeMap<String, Value> = BTreeMap::new();
    for i in 0..n {
        let mut m = json!({});
        for (j, d) in names.iter().enumerate().take(i) {
            if rng.chance(1, 3) {
                m["dependencies"][d] = json!(*rng.pick(&["^1.0.0", "^2.0.0"]));
            }
            let _ = j;
        }
        for v in ["1.0.0", "2.0.0"] {
            let mut m = m.clone();
            match rng.below(8) {
                0 => m["bin"] = json!(bin_path(&mut rng, outside.to_str().unwrap())),
                1 => m["bin"] = json!((0..some(&mut rng)).map(|_| bin_path(&mut rng, outside.to_str().unwrap())).filter(|p| !["", ".", "..", "/", "./"].contains(&p.as_str())).collect::<Vec<_>>()),
                2 => m["directories"] = json!({"bin": (*rng.pick(&["bin", "./bin", "bin/", "/bin", "bin/deep", "../bin", "missing", "", ".", "..", "../..", "/"]))}),
                3 => {}
                _ => {
                    m["bin"] = json!({});
                    for _ in 0..some(&mut rng) {
                        m["bin"][bin_name(&mut rng)] = json!(bin_path(&mut rng, outside.to_str().unwrap()));
                    }
                }
            }
            let content: Vec<(String, String)> = FILES.iter().map(|f| (format!("package/{f}"), format!("#!/bin/sh\n# {} {v} {f}\n", names[i]))).collect();
            let mut fs: Vec<(&str, &[u8], u32)> = content.iter().map(|(a, b)| (a.as_str(), b.as_bytes(), 0o644)).collect();
            let at = rng.below(fs.len() + 1);
            let mut full = m.clone();
            full["name"] = json!(if rng.chance(1, 12) { ["../../evil", "..", "/", "a\\b"][rng.below(4)] } else { names[i] });
            full["version"] = json!(v);
            let pj = serde_json::to_vec(&full).unwrap();
            fs.insert(at, ("package/package.json", &pj, 0o644));
            manis.insert(format!("{}@{v}", names[i]), full.clone());
            u.add(names[i], v, m);
            let e = u.pkgs.get_mut(names[i]).unwrap().versions.get_mut(v).unwrap();
            e.tarball = tgz(&fs);
            e.integrity = Some(sri512(&e.tarball));
        }
        deps.insert(names[i].into(), json!(*rng.pick(&["^1.0.0", "^2.0.0"])));
    }
    let root = json!({"name": "r", "version": "1.0.0", "dependencies": deps});
    let srv = registry(u.clone(), |_, _| 0);
    let hoisted = rng.chance(1, 2);
    let cache = top.join("cache");
    let mut a = Apply::new(&proj, hoisted);
    if rng.chance(1, 2) {
        a.cache = Some(&cache);
        a.prefer_copy = rng.chance(1, 2);
    }
    let outer = || -> BTreeMap<String, String> { tree_snapshot(&top).into_iter().filter(|(k, _)| !k.starts_with("cache") && !k.starts_with("w/proj/node_modules")).collect() };
    let before = outer();
    let mut out = vec![];
    let mut input = json!({"case_seed": seed, "hoisted": hoisted, "cache": a.cache.is_some(), "root": root, "manifests": manis});
    for round in 0..if rng.chance(1, 3) { 2 } else { 1 } {
        input["round"] = json!(round);
        let mut fail = |k: &str, w: String| out.push(Fail { key: k.into(), what: w, input: input.clone() });
        let r = apply(&srv.url, &root, &a);
        let after = outer();
        if after != before {
            let d: Vec<String> = after.iter().filter(|(k, v)| before.get(*k) != Some(*v)).map(|(k, v)| format!("{k}: {v}")).chain(before.keys().filter(|k| !after.contains_key(*k)).map(|k| format!("{k} gone"))).collect();
            fail("outside", format!("linking changed {} outside node_modules", d.join(", ")));
            return out;
        }
        let nm = match r {
            Ok(nm) => nm,
            Err(e) => {
                fail("error", e);
                return out;
            }
        };
        let t = placed(&nm.to_lockfile().unwrap());
        let (bad, at) = check_disk(&u, &srv.url, &root, &t, &proj, hoisted);
        for (k, w) in bad {
            fail(&k, w);
        }
        let ms = manifests(&u, &srv.url, &t);
        // bin directory -> name -> acceptable (real) targets
        let mut want: BTreeMap<PathBuf, BTreeMap<String, BTreeSet<PathBuf>>> = BTreeMap::new();
        let mut add = |owner: &Path, p: &Vec<String>| {
            let (n, v) = &ms[p];
            for (b, ts) in expected(&manis[&format!("{n}@{v}")]) {
                let e = want.entry(owner.join("node_modules/.bin")).or_default().entry(b).or_default();
                for t in ts {
                    // one that is not there stays as declared: then the link need not be there either
                    e.insert(std::fs::canonicalize(at[p].join(&t)).unwrap_or_else(|_| at[p].join(&t)));
                }
            }
        };
        if hoisted {
            for p in t.keys() {
                let holder = p[..p.len() - 1].iter().fold(proj.clone(), |d, x| d.join("node_modules").join(x));
                add(&holder, p);
            }
        } else {
            let mut holders: Vec<(Vec<String>, Value)> = vec![(vec![], root.clone())];
            for (p, (n, v)) in &ms {
                holders.push((p.clone(), u.pkgs[n].versions[v].manifest.clone()));
            }
            for (p, m) in holders {
                for (d, _) in deps_of(&m, p.is_empty()) {
                    if let Some(x) = lookup(&t, &p, &d) {
                        let h = at[&p].clone();
                        add(&h, &x.path.clone());
                    }
                }
            }
        }
        // every link there is
        for e in walkdir::WalkDir::new(proj.join("node_modules")) {
            let e = e.unwrap();
            let Some(par) = e.path().parent() else { continue };
            if par.file_name().map(|f| f == ".bin").unwrap_or(false) {
                let name = e.file_name().to_string_lossy().to_string();
                let ok = want.get(par).and_then(|m| m.get(&name));
                match (std::fs::canonicalize(e.path()), ok) {
                    (Ok(t), Some(ts)) if ts.contains(&t) => {
                        use std::os::unix::fs::PermissionsExt;
                        if t.metadata().unwrap().permissions().mode() & 0o111 == 0 {
                            fail("not-executable", format!("{} -> {}", e.path().display(), t.display()));
                        }
                    }
                    (t, ok) => fail("wrong-link", format!("{} leads to {t:?}, declared {ok:?}", e.path().display())),
                }
            }
        }
        for (d, m) in &want {
            for (n, ts) in m {
                // a directory or a missing file need not be linked
                if !ts.is_empty() && ts.iter().all(|t| t.is_file()) && d.join(n).symlink_metadata().is_err() {
                    fail(if round == 0 { "not-linked" } else { "not-linked-again" }, format!("{} is missing, should lead to {ts:?}", d.join(n).display()));
                }
            }
        }
    }
    out
}

fn main() {
    let mut r = Run::from_args();
    r.sweep(0.9, 1_000_000, judge);
    r.sample(json!({"paths": (0..8).map(|i| bin_path(&mut Rng::new(i * 7), "/scratch/outside")).collect::<Vec<_>>(), "names": (0..8).map(|i| bin_name(&mut Rng::new(i * 7))).collect::<Vec<_>>()}));
    r.finish();
}
