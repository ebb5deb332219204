//! C18: what an apply that failed or was killed left behind is made good by the next one.
use std::collections::BTreeMap;
use std::path::Path;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use vh::*;

const EVENTS: [&str; 3] = ["preinstall", "install", "postinstall"];

/// what goes wrong with the next download of a tarball
#[derive(Clone, Debug, Default)]
struct Fault {
    path: String,
    how: &'static str,
    hit: bool,
}
fn seen(proj: &Path) -> BTreeMap<String, String> {
    // the mode of a file that is linked from the cache follows whoever else has the same content
    let mode = |v: String| if v.starts_with("file ") { format!("file {}", v.rsplit(' ').next().unwrap()) } else { v };
    tree_snapshot(&proj.join("node_modules")).into_iter().filter(|(k, _)| !k.is_empty() && !k.ends_with(".orogene-meta.kdl")).map(|(k, v)| (k, mode(v))).collect()
}
fn diff(a: &BTreeMap<String, String>, b: &BTreeMap<String, String>) -> String {
    let mut out: Vec<String> = a.iter().filter(|(k, v)| b.get(*k) != Some(*v)).map(|(k, v)| format!("{k}: {v} instead of {:?}", b.get(k))).collect();
    out.extend(b.iter().filter(|(k, _)| !a.contains_key(*k)).map(|(k, v)| format!("{k}: nothing instead of {v}")));
    out.join(", ")
}

fn judge(seed: u64) -> Vec<Fail> {
    let mut rng = Rng::new(seed);
    let tmp = tempfile::tempdir().unwrap();
    let top = std::fs::canonicalize(tmp.path()).unwrap();
    let proj = top.join("proj");
    let ctl = top.join("ctl");
    for d in [&proj, &ctl] {
        std::fs::create_dir_all(d).unwrap();
    }
    let n = 2 + rng.below(4);
    let names: Vec<String> = (0..n).map(|i| if rng.chance(1, 6) { format!("@s/p{i}") } else { format!("p{i}") }).collect();
    let mut u = Universe::default();
    let mut scripts: Vec<(String, String)> = vec![];
    let mut tarballs: Vec<String> = vec![];
    for i in 0..n {
        for v in ["1.0.0", "1.1.0", "2.0.0"] {
            let mut m = json!({"dependencies": {}});
            for j in i + 1..n {
                if rng.chance(1, 3) {
                    m["dependencies"][&names[j]] = json!(*rng.pick(&["^1.0.0", "^2.0.0", "1.0.0", "*"]));
                }
            }
            if rng.chance(1, 3) {
                m["bin"] = json!({format!("b{i}"): "cli.js"});
            }
            let mut s = serde_json::Map::new();
            for e in EVENTS {
                if rng.chance(1, 3) {
                    let id = format!("p{i}-{v}-{e}");
                    let c = ctl.display();
                    s.insert(e.into(), json!(format!("if [ -e {c}/fail-{id} ]; then exit 3; fi; if [ -e {c}/hang-{id} ]; then touch {c}/hung; sleep 20; fi; echo ok >> ran-{e}")));
                    scripts.push((id, names[i].clone()));
                }
            }
            if !s.is_empty() {
                m["scripts"] = Value::Object(s);
            }
            let extra = format!("{i} {v}");
            let only = format!("package/lib/only-{v}.js");
            let mut fs: Vec<(&str, &[u8], u32)> = vec![("package/cli.js", b"#!/bin/sh\n", 0o644), ("package/index.js", extra.as_bytes(), 0o644)];
            if rng.chance(1, 2) {
                fs.push((&only, b"x", 0o644));
            }
            u.add_files(&names[i], v, m, &fs);
        }
    }
    let fault: Arc<Mutex<Option<Fault>>> = Arc::default();
    let (f2, u2) = (fault.clone(), u.clone());
    let base: Arc<Mutex<String>> = Arc::default();
    let b2 = base.clone();
    let seen_paths: Arc<Mutex<Vec<String>>> = Arc::default();
    let s2 = seen_paths.clone();
    let srv = Server::start(Arc::new(move |r: &Req| {
        let b = b2.lock().unwrap().clone();
        let mut resp = u2.respond(&b, &r.path);
        if r.path.ends_with(".tgz") {
            s2.lock().unwrap().push(r.path.clone());
        }
        if let Some(f) = f2.lock().unwrap().as_mut() {
            if f.path == r.path {
                f.hit = true;
                match f.how {
                    "garbage" => resp.body = b"nope".to_vec(),
                    "cut" => resp.truncate = Some(resp.body.len() / 2),
                    "missing" => resp = Resp::status(404),
                    _ => resp.delay_ms = 1500,
                }
            }
        }
        resp
    }));
    *base.lock().unwrap() = srv.url.clone();
    for p in u.pkgs.keys() {
        for v in u.packument(&srv.url, p).unwrap()["versions"].as_object().unwrap().values() {
            tarballs.push(v["dist"]["tarball"].as_str().unwrap().strip_prefix(srv.url.trim_end_matches('/')).unwrap().to_string());
        }
    }
    let hoisted = rng.chance(1, 2);
    let lockfile = rng.chance(1, 2);
    let no_scripts = rng.chance(1, 5);
    let use_cache = rng.chance(1, 2);
    let mut args = vec!["apply", "--no-progress", "--no-telemetry", "--no-first-time", "--no-emoji", "--registry", &srv.url];
    for (on, f) in [(hoisted, "--hoisted"), (!lockfile, "--no-lockfile"), (no_scripts, "--no-scripts")] {
        if on {
            args.push(f);
        }
    }
    let mut homes = 0;
    let mut home = |fresh: bool| {
        if fresh || !use_cache {
            homes += 1;
        }
        top.join(format!("home{}", if fresh || !use_cache { homes } else { 0 }))
    };
    let mani = |rng: &mut Rng| {
        let mut root = json!({"name": "r", "version": "1.0.0", "dependencies": {}});
        for n in &names {
            if rng.chance(2, 3) {
                root["dependencies"][n] = json!(*rng.pick(&["^1.0.0", "^2.0.0", "1.0.0", "*"]));
            }
        }
        root
    };
    let save = |d: &Path, r: &Value| std::fs::write(d.join("package.json"), serde_json::to_string_pretty(r).unwrap()).unwrap();
    let mut out = vec![];
    let mut history: Vec<Value> = vec![];
    let mut manis: Vec<Value> = vec![];
    for step in 0..2 + rng.below(3) {
        let root = if !manis.is_empty() && rng.chance(2, 5) { rng.pick(&manis).clone() } else { mani(&mut rng) };
        manis.push(root.clone());
        save(&proj, &root);
        let mut what = "nothing".to_string();
        // the first run is a good one, mostly: it is what comes after it that has something to spoil
        let kind = if step == 0 && rng.chance(2, 3) { 9 } else { rng.below(8) };
        let mut after = None;
        let mut flag = None;
        match kind {
            0 | 1 => {
                let f = Fault { path: rng.pick(&tarballs).clone(), how: *rng.pick(&["garbage", "cut", "missing"]), hit: false };
                what = format!("{} of {}", f.how, f.path);
                *fault.lock().unwrap() = Some(f);
            }
            2 => {
                let f = Fault { path: rng.pick(&tarballs).clone(), how: "hang", hit: false };
                what = format!("killed when it asks for {}", f.path);
                *fault.lock().unwrap() = Some(f);
            }
            3 | 4 if !scripts.is_empty() => {
                let id = &rng.pick(&scripts).0;
                let how = if kind == 3 { "fail" } else { "hang" };
                what = format!("{how} in {id}");
                let p = ctl.join(format!("{how}-{id}"));
                std::fs::write(&p, b"").unwrap();
                flag = Some(p);
            }
            5 | 6 => {
                let ms = rng.below(160) as u64;
                what = format!("killed after {ms} ms");
                after = Some(Duration::from_millis(ms));
            }
            _ => {}
        }
        let (f2, ctl2) = (fault.clone(), ctl.clone());
        let mut at = None;
        let r = cli::oro_until(&proj, &home(false), &args, &[], move |t| {
            if let Some(a) = after {
                return t > a;
            }
            let hung = ctl2.join("hung").exists() || f2.lock().unwrap().as_ref().map(|f| f.hit && f.how == "hang").unwrap_or(false);
            if hung && at.is_none() {
                // let the others get on with it
                at = Some(t);
            }
            at.map(|a| t > a + Duration::from_millis(15)).unwrap_or(false)
        });
        *fault.lock().unwrap() = None;
        if let Some(f) = flag {
            let _ = std::fs::remove_file(f);
        }
        let _ = std::fs::remove_file(ctl.join("hung"));
        // the record of the tree is written last, so it may be cut short
        let meta = proj.join("node_modules/.orogene-meta.kdl");
        if r.ok() && rng.chance(1, 8) {
            let b = std::fs::read(&meta).unwrap_or_default();
            let k = rng.below(b.len() + 1);
            std::fs::write(&meta, &b[..k]).unwrap();
            what = format!("{what}; killed after {k} bytes of the record");
        }
        history.push(json!({"manifest": root, "fault": what, "exit": r.code}));
    }
    // and now nothing goes wrong
    let root = if rng.chance(1, 2) { rng.pick(&manis).clone() } else { mani(&mut rng) };
    save(&proj, &root);
    let lock = std::fs::read(proj.join("package-lock.kdl")).ok();
    let input = json!({"case_seed": seed, "args": args[7..], "history": history, "manifest": root, "registry": u.packument_all()});
    let mut fail = |k: &str, w: String| out.push(Fail { key: k.into(), what: w, input: input.clone() });
    let r = cli::oro(&proj, &home(false), &args, &[]);
    let fresh = top.join("fresh");
    std::fs::create_dir_all(&fresh).unwrap();
    save(&fresh, &root);
    if let Some(l) = &lock {
        std::fs::write(fresh.join("package-lock.kdl"), l).unwrap();
    }
    let rf = cli::oro(&fresh, &home(true), &args, &[]);
    if !rf.ok() {
        // not this property's: nothing is installed afresh either
        return vec![];
    }
    if !r.ok() {
        fail("error", format!("the next apply fails although nothing is in its way: {}", r.tail()));
        return out;
    }
    let meta = |p: &Path| std::fs::read_to_string(p.join("node_modules/.orogene-meta.kdl")).unwrap_or_default();
    if meta(&fresh).is_empty() || meta(&proj).is_empty() {
        fail("no-record", "an apply that succeeded left no record of the tree".into());
        return out;
    }
    if meta(&proj) != meta(&fresh) {
        // the same manifest and lockfile, but another tree: C03 has it
        return vec![];
    }
    let (mut a, mut b) = (seen(&proj), seen(&fresh));
    // a nested bin directory may keep the bins of a package that has moved elsewhere
    a.retain(|k, _| !k.contains("/node_modules/.bin/") || b.contains_key(k));
    for m in [&mut a, &mut b] {
        // an empty scope directory is no package, an empty bin directory has no bin
        loop {
            let keys: Vec<String> = m.keys().cloned().collect();
            let n = m.len();
            m.retain(|k, v| !(v == "dir" && (k.rsplit('/').next().unwrap().starts_with('@') || k.ends_with("node_modules") || k.ends_with(".bin") || k == ".oro-store") && !keys.iter().any(|x| x.starts_with(&format!("{k}/")))));
            if m.len() == n {
                break;
            }
        }
    }
    if a != b {
        let scripts = a.keys().chain(b.keys()).any(|k| k.rsplit('/').next().unwrap().starts_with("ran-") && a.get(k) != b.get(k));
        fail(if scripts { "scripts-differ" } else { "differs-from-fresh" }, diff(&a, &b));
    }
    let _ = seen_paths;
    out
}

fn main() {
    let mut r = Run::from_args();
    r.sweep(0.95, 1_000_000, judge);
    r.sample(json!("a project, a registry, up to four applies that fail or are killed at some point, and a last one that is not; see replay inputs"));
    r.finish();
}
