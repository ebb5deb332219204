//! C16: the commands that apply do what their flags ask for and nothing else; the lockfile and the manifest come last.
use std::collections::BTreeMap;
use std::path::Path;
use node_maintainer::Lockfile;
use vh::install::*;
use vh::resolve::*;
use vh::*;

struct State {
    nm: BTreeMap<String, String>,
    lock: Option<String>,
    mani: String,
    others: BTreeMap<String, String>,
}
fn state(p: &Path) -> State {
    let mut others = tree_snapshot(p);
    others.retain(|k, _| !k.is_empty() && !k.starts_with("node_modules") && k != "package-lock.kdl" && k != "package.json");
    State {
        nm: if p.join("node_modules").exists() { tree_snapshot(&p.join("node_modules")) } else { BTreeMap::new() },
        lock: std::fs::read_to_string(p.join("package-lock.kdl")).ok(),
        mani: std::fs::read_to_string(p.join("package.json")).unwrap_or_default(),
        others,
    }
}

fn judge(seed: u64) -> Vec<Fail> {
    let mut rng = Rng::new(seed);
    let tmp = tempfile::tempdir().unwrap();
    let top = std::fs::canonicalize(tmp.path()).unwrap();
    let proj = top.join("proj");
    std::fs::create_dir_all(&proj).unwrap();
    let log = top.join("log");
    let n = 3 + rng.below(3);
    let mut u = Universe::default();
    let names: Vec<String> = (0..n).map(|i| if rng.chance(1, 6) { format!("@s/p{i}") } else { format!("p{i}") }).collect();
    let broken = if rng.chance(1, 4) { Some((rng.below(n), rng.chance(1, 2))) } else { None };
    for i in 0..n {
        for v in ["1.0.0", "1.1.0", "2.0.0"] {
            let mut m = json!({"dependencies": {}, "bin": {format!("b{i}"): "cli.js"}});
            for j in i + 1..n {
                if rng.chance(1, 3) {
                    m["dependencies"][&names[j]] = json!(*rng.pick(&["^1.0.0", "^2.0.0", "*"]));
                }
            }
            let mut s = serde_json::Map::new();
            for e in ["preinstall", "install", "postinstall"] {
                if rng.chance(1, 2) {
                    s.insert(e.into(), json!(format!("echo {} {e} >> {}", names[i], log.display())));
                }
            }
            if broken == Some((i, false)) {
                s.insert("install".into(), json!("exit 3"));
            }
            m["scripts"] = Value::Object(s);
            u.add_files(&names[i], v, m, &[("package/cli.js", b"#!/bin/sh\n", 0o644)]);
            if broken == Some((i, true)) {
                u.pkgs.get_mut(&names[i]).unwrap().versions.get_mut(v).unwrap().integrity = Some(sri512(b"other"));
            }
        }
    }
    let srv = registry(u.clone(), |_, _| 0);
    let home = top.join("home");
    let mani = |rng: &mut Rng| {
        let mut root = json!({"name": "r", "version": "1.0.0", "dependencies": {}, "devDependencies": {}});
        for n in &names {
            if rng.chance(1, 2) {
                root[*rng.pick(&["dependencies", "devDependencies"])][n] = json!(*rng.pick(&["^1.0.0", "^2.0.0", "1.0.0", "*"]));
            }
        }
        root
    };
    let save = |r: &Value| std::fs::write(proj.join("package.json"), serde_json::to_string_pretty(r).unwrap()).unwrap();
    std::fs::create_dir_all(proj.join("src")).unwrap();
    std::fs::write(proj.join("src/index.js"), "x").unwrap();
    let base: Vec<String> = ["--no-progress", "--no-telemetry", "--no-first-time", "--no-emoji", "--registry", &srv.url].iter().map(|s| s.to_string()).collect();
    let run = |args: &[String]| {
        let a: Vec<&str> = args.iter().chain(base.iter()).map(|s| s.as_str()).collect();
        cli::oro(&proj, &home, &a, &[])
    };
    let mut out = vec![];
    let mut history: Vec<Vec<String>> = vec![];
    for _ in 0..1 + rng.below(3) {
        let mut root = if history.is_empty() || rng.chance(1, 2) { mani(&mut rng) } else { serde_json::from_str(&state(&proj).mani).unwrap() };
        save(&root);
        let before = state(&proj);
        srv.clear();
        let _ = std::fs::remove_file(&log);
        let has: Vec<String> = ["dependencies", "devDependencies"].iter().flat_map(|k| root[*k].as_object().map(|o| o.keys().cloned().collect::<Vec<_>>()).unwrap_or_default()).collect();
        let cmd = *rng.pick(&["apply", "apply", "add", "remove", "reapply"]);
        let cmd = if cmd == "remove" && has.is_empty() { "apply" } else { cmd };
        let mut args = vec![cmd.to_string()];
        if cmd == "add" {
            let p = rng.pick(&names).clone();
            let v = *rng.pick(&["1.0.0", "1.1.0", "2.0.0"]);
            args.push(format!("{p}@{v}"));
            let kind = if rng.chance(1, 3) { args.push("--dev".into()); "devDependencies" } else { "dependencies" };
            for k in ["dependencies", "devDependencies"] {
                if let Some(o) = root[k].as_object_mut() {
                    o.remove(&p);
                }
            }
            root[kind][&p] = json!(format!("^{v}"));
        } else if cmd == "remove" {
            let p = rng.pick(&has).clone();
            args.push(p.clone());
            for k in ["dependencies", "devDependencies"] {
                if let Some(o) = root[k].as_object_mut() {
                    o.remove(&p);
                }
            }
        }
        let no_apply = rng.chance(1, 5);
        let (lock_only, no_lock, no_scripts, hoisted, locked) = (rng.chance(1, 4), rng.chance(1, 4), rng.chance(1, 3), rng.chance(1, 2), rng.chance(1, 4));
        for (on, f) in [(no_apply, "--no-apply"), (lock_only, "--lockfile-only"), (no_lock, "--no-lockfile"), (no_scripts, "--no-scripts"), (hoisted, "--hoisted"), (locked, "--locked")] {
            if on {
                args.push(f.into());
            }
        }
        history.push(args.clone());
        let applies = !no_apply || cmd == "apply" || cmd == "reapply";
        let installs = applies && !lock_only;
        let locked = locked && (cmd == "apply" || cmd == "reapply");
        // what the tree should be
        let copy = top.join(format!("copy{}", history.len()));
        std::fs::create_dir_all(&copy).unwrap();
        for f in ["package-lock.kdl", "node_modules/.orogene-meta.kdl"] {
            if cmd == "reapply" && f.starts_with("node_modules") {
                continue;
            }
            if proj.join(f).exists() {
                std::fs::create_dir_all(copy.join(f).parent().unwrap()).unwrap();
                std::fs::copy(proj.join(f), copy.join(f)).unwrap();
            }
        }
        let tree = resolve(&srv.url, &root, Opts { concurrency: 8, lock: None, locked, root: copy });
        srv.clear();
        let r = run(&args);
        let after = state(&proj);
        let ran = std::fs::read_to_string(&log).unwrap_or_default();
        let got: Vec<String> = srv.requests().into_iter().map(|r| r.path).collect();
        let input = json!({"case_seed": seed, "history": history, "root": serde_json::from_str::<Value>(&before.mani).unwrap(), "broken": broken.map(|(i, t)| format!("{} {}", names[i], if t { "tarball" } else { "script" })), "lock_before": before.lock, "registry": u.packument_all()});
        let mut fail = |k: &str, w: String| out.push(Fail { key: k.into(), what: format!("{} : {w}", args.join(" ")), input: input.clone() });
        let (nm_now, nm_was) = (&after.nm, if cmd == "reapply" { BTreeMap::new() } else { before.nm.clone() });
        if !installs {
            if *nm_now != nm_was {
                fail("installed", "node_modules was changed".into());
            }
            if let Some(t) = got.iter().find(|p| p.ends_with(".tgz")) {
                fail("fetched", format!("{t} was fetched"));
            }
        }
        if (no_lock || !applies) && after.lock != before.lock {
            fail("lock-written", "the lockfile was changed".into());
        }
        if (no_scripts || !installs) && !ran.is_empty() {
            fail("scripts-ran", ran.clone());
        }
        if after.others != before.others {
            fail("other-files", format!("{:?}", after.others));
        }
        if !r.ok() {
            if after.lock != before.lock {
                fail("failed-lock", format!("failed, but the lockfile was changed: {}", r.tail()));
            }
            if after.mani != before.mani {
                fail("failed-manifest", format!("failed, but package.json was changed: {}", r.tail()));
            }
            let expected = (applies && (tree.is_err() || locked)) || (installs && broken.is_some());
            if !expected {
                fail("error", r.tail());
            }
            continue;
        }
        if cmd == "add" || cmd == "remove" {
            let now: Value = serde_json::from_str(&after.mani).unwrap_or(Value::Null);
            if now != root {
                fail("manifest", format!("package.json is {now}, should be {root}"));
            }
        } else if after.mani != before.mani {
            fail("manifest", "package.json was changed".into());
        }
        if !applies {
            continue;
        }
        if let (Err(e), false) = (&tree, locked) {
            fail("not-refused", format!("succeeded, but this tree cannot be: {e}"));
            continue;
        }
        // (which of several good trees it is depends on what arrives first: it says itself which one it found)
        let meta = std::fs::read_to_string(proj.join("node_modules/.orogene-meta.kdl")).ok();
        if installs && !no_lock && after.lock != meta {
            fail("lock", format!("the lockfile is {:?}, what is installed is {meta:?}", after.lock));
        }
        let text = if !no_lock { after.lock.clone() } else if installs { meta } else { continue };
        let t = match text.clone().map(Lockfile::from_kdl) {
            Some(Ok(l)) => placed(&l),
            _ => {
                fail("no-lock", "there is no lockfile".into());
                continue;
            }
        };
        if locked && before.lock.is_some() && before.lock != text {
            fail("not-refused", format!("succeeded with {text:?} where the lockfile says {:?}", before.lock));
        }
        for (k, w) in check_tree(&u, &srv.url, &root, &t) {
            fail(&format!("tree-{k}"), w);
        }
        if installs {
            let (bad, _) = check_disk(&u, &srv.url, &root, &t, &proj, hoisted);
            for (k, w) in bad {
                fail(&k, w);
            }
            for k in ["dependencies", "devDependencies"] {
                for d in root[k].as_object().into_iter().flatten().map(|x| x.0) {
                    let b = proj.join("node_modules/.bin").join(format!("b{}", d.rsplit('p').next().unwrap()));
                    if !b.exists() {
                        fail("no-bin", format!("{} is not there", b.display()));
                    }
                }
            }
            if proj.join("node_modules/.oro-store").exists() == hoisted && !t.is_empty() {
                fail("mode", format!("hoisted is {hoisted}, but the store's presence is {}", proj.join("node_modules/.oro-store").exists()));
            }
            if !no_scripts && nm_was.is_empty() {
                for (p, (n, v)) in manifests(&u, &srv.url, &t) {
                    for e in u.pkgs[&n].versions[&v].manifest["scripts"].as_object().into_iter().flatten().map(|x| x.0) {
                        if !ran.lines().any(|l| l == format!("{n} {e}")) {
                            fail("not-run", format!("{e} of {p:?}"));
                        }
                    }
                }
            }
        }
    }
    out
}

fn main() {
    let mut r = Run::from_args();
    r.sweep(0.95, 1_000_000, judge);
    r.sample(json!("a project, a registry, up to three commands with random flags; see replay inputs"));
    r.finish();
}
