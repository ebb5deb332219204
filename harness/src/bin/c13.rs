//! C13: lifecycle scripts run once, in order, dependencies first.
use std::collections::{BTreeMap, BTreeSet};
use vh::install::*;
use vh::resolve::*;
use vh::*;

const EVENTS: [&str; 3] = ["preinstall", "install", "postinstall"];

fn judge(seed: u64) -> Vec<Fail> {
    let mut rng = Rng::new(seed);
    let tmp = tempfile::tempdir().unwrap();
    let top = std::fs::canonicalize(tmp.path()).unwrap();
    let proj = top.join("proj");
    std::fs::create_dir_all(&proj).unwrap();
    let log = top.join("log");
    let n = 2 + rng.below(6);
    let cyclic = rng.chance(1, 3);
    let names: Vec<String> = (0..n).map(|i| if rng.chance(1, 6) { format!("@s/p{i}") } else { format!("p{i}") }).collect();
    let mut u = Universe::default();
    let failing = if rng.chance(1, 4) { Some((rng.below(n), EVENTS[rng.below(3)])) } else { None };
    // a script may also be ended by a signal
    let how = *rng.pick(&["exit 3", "exit 1", "kill -9 $$"]);
    let mut scripts: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    for i in 0..n {
        for v in ["1.0.0", "2.0.0"] {
            let mut m = json!({"dependencies": {}});
            for j in 0..n {
                // packages of a cycle ask for anything, so that it closes
                if j != i && (j > i || cyclic) && rng.chance(1, 3) {
                    let req = if j < i || cyclic { "*" } else { *rng.pick(&["^1.0.0", "^2.0.0", "*"]) };
                    let k = if rng.chance(1, 5) { "optionalDependencies" } else { "dependencies" };
                    m[k][&names[j]] = json!(req);
                }
            }
            let mut s = serde_json::Map::new();
            let mut has = BTreeSet::new();
            let nap = ["0", "0.01", "0.03"][rng.below(3)];
            for e in EVENTS {
                if rng.chance(2, 3) {
                    let end = if failing == Some((i, e)) { how } else { "true" };
                    s.insert(e.into(), json!(format!("echo S {} {v} {e} $PWD >> {l}; sleep {nap}; echo E {} {v} {e} $PWD >> {l}; {end}", names[i], names[i], l = log.display())));
                    has.insert(e.to_string());
                }
            }
            if rng.chance(1, 5) {
                s.insert("test".into(), json!(format!("echo X test >> {}", log.display())));
                s.insert("prepare".into(), json!(format!("echo X prepare >> {}", log.display())));
            }
            scripts.insert(format!("{}@{v}", names[i]), has);
            let mut full = m.clone();
            full["scripts"] = Value::Object(s);
            full["name"] = json!(names[i]);
            full["version"] = json!(v);
            u.add(&names[i], v, m);
            let pj = serde_json::to_vec(&full).unwrap();
            let e = u.pkgs.get_mut(&names[i]).unwrap().versions.get_mut(v).unwrap();
            e.tarball = tgz(&[("package/package.json", &pj, 0o644)]);
            e.integrity = Some(sri512(&e.tarball));
        }
    }
    let mut root = json!({"name": "r", "version": "1.0.0", "dependencies": {}});
    for i in 0..n {
        if rng.chance(1, 2) || i == 0 {
            let k = *rng.pick(&["optionalDependencies", "devDependencies", "dependencies", "dependencies", "dependencies"]);
            root[k][&names[i]] = json!(if cyclic { "*" } else { *rng.pick(&["^1.0.0", "^2.0.0", "*"]) });
        }
    }
    let srv = registry(u.clone(), |_, _| 0);
    let hoisted = rng.chance(1, 2);
    let cache = top.join("cache");
    let mut a = Apply::new(&proj, hoisted);
    a.script_conc = [1, 2, 6][rng.below(3)];
    a.ignore_scripts = rng.chance(1, 8);
    if rng.chance(1, 3) {
        a.cache = Some(&cache);
    }
    let mut out = vec![];
    let input = json!({"case_seed": seed, "hoisted": hoisted, "script_concurrency": a.script_conc, "ignore_scripts": a.ignore_scripts, "root": root, "failing": failing.map(|(i, e)| format!("{} {e}", names[i])), "registry": u.packument_all()});
    // a settled lockfile, so that the tree is known even when the install fails
    // (one that was only just resolved may still be deduplicated: C03)
    let mut t = BTreeMap::new();
    for _ in 0..3 {
        match resolve(&srv.url, &root, Opts { concurrency: 8, lock: a.lock.clone(), locked: false, root: top.join("none") }) {
            Ok(nm) => {
                t = placed(&nm.to_lockfile().unwrap());
                a.lock = Some(nm.to_kdl().unwrap().to_string());
            }
            Err(e) => return vec![Fail { key: "error".into(), what: e, input }],
        }
    }
    let r = apply(&srv.url, &root, &a);
    if let Ok(nm) = &r {
        t = placed(&nm.to_lockfile().unwrap());
    }
    let text = std::fs::read_to_string(&log).unwrap_or_default();
    let lines: Vec<Vec<&str>> = text.lines().map(|l| l.split(' ').collect()).collect();
    let mut fail = |k: &str, w: String| out.push(Fail { key: k.into(), what: w, input: input.clone() });
    if a.ignore_scripts {
        if !lines.is_empty() {
            fail("ignored-ran", text.clone());
        }
        if let Err(e) = r {
            fail("error", e);
        }
        return out;
    }
    let ms = manifests(&u, &srv.url, &t);
    let mut edges: BTreeMap<Vec<String>, BTreeSet<Vec<String>>> = BTreeMap::new();
    let mut incoming: BTreeMap<Vec<String>, Vec<bool>> = BTreeMap::new();
    for (p, m) in ms.iter().map(|(p, (n, v))| (p.clone(), u.pkgs[n].versions[v].manifest.clone())).chain([(vec![], root.clone())]) {
        for (d, _) in deps_of(&m, p.is_empty()) {
            if let Some(x) = lookup(&t, &p, &d) {
                let opt = m["optionalDependencies"].get(&d).is_some();
                incoming.entry(x.path.clone()).or_default().push(opt);
                edges.entry(p.clone()).or_default().insert(x.path.clone());
            }
        }
    }
    let reach = |from: &Vec<String>| -> BTreeSet<Vec<String>> {
        let mut seen = BTreeSet::new();
        let mut todo = vec![from.clone()];
        while let Some(x) = todo.pop() {
            for y in edges.get(&x).into_iter().flatten() {
                if seen.insert(y.clone()) {
                    todo.push(y.clone());
                }
            }
        }
        seen
    };
    let reaches: BTreeMap<Vec<String>, BTreeSet<Vec<String>>> = t.keys().map(|p| (p.clone(), reach(p))).collect();
    // who failed, and did that matter
    let breaking: Vec<(&Vec<String>, bool)> = match failing {
        Some((i, e)) => ms.iter().filter(|(_, (n, v))| n == &names[i] && scripts[&format!("{n}@{v}")].contains(e)).map(|(p, _)| (p, incoming.get(p).map(|v| v.iter().all(|o| *o)).unwrap_or(true))).collect(),
        None => vec![],
    };
    let must_fail = breaking.iter().any(|(_, opt)| !opt);
    match &r {
        Ok(_) if must_fail => fail("failure-ignored", format!("{breaking:?} failed but the rebuild succeeded")),
        Err(e) if !must_fail => {
            fail("error", e.clone());
            return out;
        }
        _ => {}
    }
    // position of each start and end, by package directory
    let mut at: BTreeMap<(String, String, String), usize> = BTreeMap::new();
    for (i, l) in lines.iter().enumerate() {
        if l.len() != 5 {
            fail("other-script", l.join(" "));
            continue;
        }
        if at.insert((l[0].into(), l[4].into(), l[3].into()), i).is_some() {
            fail("twice", l.join(" "));
        }
        let dir = std::path::Path::new(l[4]);
        let got: Value = std::fs::read(dir.join("package.json")).ok().and_then(|b| serde_json::from_slice(&b).ok()).unwrap_or(Value::Null);
        if got["name"] != json!(l[1]) || got["version"] != json!(l[2]) {
            fail("wrong-directory", format!("{} ran in the directory of {got}", l.join(" ")));
        }
    }
    // phases: no event starts before the previous one is over for everyone
    let phase = |e: &str| EVENTS.iter().position(|x| *x == e).unwrap_or(9);
    let mut top_phase = 0;
    for l in lines.iter().filter(|l| l.len() == 5) {
        if phase(l[3]) < top_phase {
            fail("phase", format!("{} after a later event had begun", l.join(" ")));
        }
        top_phase = top_phase.max(phase(l[3]));
    }
    if r.is_err() {
        return out;
    }
    let (bad, dirs) = check_disk(&u, &srv.url, &root, &t, &proj, hoisted);
    for (k, w) in bad {
        fail(&k, w);
    }
    for (p, (n, v)) in &ms {
        let d = dirs.get(p).map(|d| d.to_string_lossy().to_string()).unwrap_or_default();
        for e in &scripts[&format!("{n}@{v}")] {
            if !at.contains_key(&("S".into(), d.clone(), e.clone())) {
                fail("not-run", format!("{e} of {n}@{v} at {p:?}"));
            }
            for q in &reaches[p] {
                if reaches[q].contains(p) {
                    continue;
                }
                let dq = dirs.get(q).map(|d| d.to_string_lossy().to_string()).unwrap_or_default();
                if let (Some(me), Some(dep)) = (at.get(&("S".into(), d.clone(), e.clone())), at.get(&("E".into(), dq, e.clone()))) {
                    if me < dep {
                        fail("order", format!("{e} of {p:?} started before that of its dependency {q:?} was over"));
                    }
                }
            }
        }
    }
    // nothing new to build: nothing runs
    if rng.chance(1, 3) {
        let _ = std::fs::remove_file(&log);
        if let Err(e) = apply(&srv.url, &root, &Apply { lock: r.ok().map(|nm| nm.to_kdl().unwrap().to_string()), ..a }) {
            fail("error-again", e);
        }
        let again = std::fs::read_to_string(&log).unwrap_or_default();
        if !again.is_empty() {
            fail("rerun", again);
        }
    }
    out
}

fn main() {
    let mut r = Run::from_args();
    r.sweep(0.9, 1_000_000, judge);
    r.sample(json!("random trees, also cyclic ones, with napping scripts; see replay inputs"));
    r.finish();
}
