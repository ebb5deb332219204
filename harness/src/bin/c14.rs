//! C14: whatever the names in a tree are, installing it touches nothing outside node_modules.
use std::collections::BTreeMap;
use vh::install::*;
use vh::resolve::*;
use vh::*;

const HOSTILE: [&str; 28] = [
    "../src", "../new", "@x/..", "..", ".", "../../q", "../..", "x/..", "x/../..", "@x/../y", "a/../../b", "./n", "@../n", "..\\new", "\\..\\new", "x\\..\\..\\new",
    "/abs", "//abs", "@x/", "/", "", "@/..", ".bin", ".oro-store", ".orogene-meta.kdl", "node_modules", "@x/.", "../.",
];
const PLAIN: [&str; 6] = ["p0", "@s/p1", "p2", "@s/p3", "p-4", "p5.js"];
const OK_ALIAS: [&str; 5] = ["al", "@t/al", "al.js", "al_2", "al4"];

fn hostile(rng: &mut Rng, top: &str) -> String {
    match rng.below(8) {
        0 => format!("{top}/abs"),
        1 => format!("..{}", rng.pick(&["/w", "/proj2", "/outside", "/package.json", "/victim"])),
        _ => rng.pick(&HOSTILE).to_string(),
    }
}
fn spec(rng: &mut Rng, target: &str) -> String {
    match rng.below(6) {
        0 => "^1.0.0".into(),
        1 => "latest".into(),
        _ => format!("npm:{target}@{}", rng.pick(&["^1.0.0", "1.0.0", "*"])),
    }
}

fn judge(seed: u64) -> Vec<Fail> {
    let mut rng = Rng::new(seed);
    let tmp = tempfile::tempdir().unwrap();
    let top = std::fs::canonicalize(tmp.path()).unwrap();
    let proj = top.join("a/w/proj");
    for d in ["a/w/proj/src", "a/w/proj/local", "a/w/src", "a/w/proj2", "outside"] {
        std::fs::create_dir_all(top.join(d)).unwrap();
    }
    for d in ["outside/own/lib", "outside/node_modules/own", "outside/@own/x"] {
        std::fs::create_dir_all(top.join(d)).unwrap();
        std::fs::write(top.join(d).join("package.json"), b"{}").unwrap();
    }
    for d in ["", "outside", "a", "a/w", "a/w/proj", "a/w/proj/src", "a/w/src"] {
        std::fs::write(top.join(d).join("victim"), b"v").unwrap();
    }
    std::fs::write(proj.join("local/package.json"), b"{\"name\":\"local\",\"version\":\"1.0.0\"}").unwrap();
    let tops = top.to_str().unwrap().to_string();
    let mut u = Universe::default();
    let n = 2 + rng.below(4);
    let mut bad: Option<String> = None;
    let evil = rng.chance(3, 4);
    let at = rng.below(n + 1);
    let mut root = json!({"name": "r", "version": "1.0.0", "dependencies": {}});
    for i in 0..n {
        let mut m = json!({});
        for d in PLAIN.iter().take(i) {
            if rng.chance(1, 3) {
                m["dependencies"][d] = json!("^1.0.0");
            }
        }
        if rng.chance(1, 3) && i > 0 {
            let t = PLAIN[rng.below(i)];
            m["dependencies"][*rng.pick(&OK_ALIAS)] = json!(format!("npm:{t}@^1.0.0"));
        }
        if evil && at == i {
            let h = hostile(&mut rng, &tops);
            let key = *rng.pick(&["dependencies", "optionalDependencies"]);
            m[key][&h] = json!(spec(&mut rng, PLAIN[(i + 1) % PLAIN.len()]));
            bad = Some(h);
        }
        let files: Vec<(&str, &[u8], u32)> = vec![("package/index.js", b"i", 0o644), ("package/victim", b"evil", 0o644), ("package/bin/x", b"#!/bin/sh\n", 0o644)];
        if rng.chance(1, 3) {
            m["bin"] = json!({"x": "bin/x"});
        }
        u.add_files(PLAIN[i], "1.0.0", m, &files);
        root["dependencies"][PLAIN[i]] = json!("^1.0.0");
    }
    for p in PLAIN.iter().skip(n) {
        u.add_files(p, "1.0.0", json!({}), &[("package/index.js", b"i", 0o644)]);
    }
    let alias = rng.chance(1, 2);
    if alias {
        root["dependencies"]["al"] = json!("npm:p0@^1.0.0");
    }
    let root_ok = root.clone();
    if evil && at == n {
        let h = hostile(&mut rng, &tops);
        let key = *rng.pick(&["dependencies", "optionalDependencies", "devDependencies"]);
        root[key][&h] = json!(spec(&mut rng, PLAIN[0]));
        bad = Some(h);
    }
    // a registry that has something to say about any name
    for h in HOSTILE.iter().filter(|h| !h.is_empty()) {
        u.add_files(h, "1.0.0", json!({}), &[("package/index.js", b"i", 0o644)]);
    }
    let srv = registry(u.clone(), |_, _| 0);
    let hoisted = rng.chance(1, 2);
    let mut a = Apply::new(&proj, hoisted);
    let cache = top.join("cache");
    if rng.chance(1, 3) {
        a.cache = Some(&cache);
    }
    let outer = || -> BTreeMap<String, String> { tree_snapshot(&top).into_iter().filter(|(k, _)| !k.starts_with("cache") && !(k.starts_with("a/w/proj/node_modules/") || k == "a/w/proj/node_modules")).collect() };
    let before = outer();
    let mut out = vec![];
    let mut input = json!({"case_seed": seed, "hoisted": hoisted, "root": root, "name": bad, "packages": u.packument_all()});
    let mut rounds = vec![root.clone()];
    if at == n && rng.chance(1, 2) {
        rounds.insert(0, root_ok.clone());
        rounds.push(root_ok.clone());
    }
    let links = rng.chance(1, 3);
    if links && rounds.len() == 1 && bad.is_none() {
        rounds.push(root_ok.clone());
        let mut less = root_ok.clone();
        less["dependencies"].as_object_mut().unwrap().remove("p0");
        rounds.push(less);
    }
    input["links"] = json!(links);
    let mut plain_lock = false;
    // a lockfile that calls one of the packages something else
    let lock = if bad.is_none() && rng.chance(2, 3) {
        rounds.push(root_ok.clone());
        let h = hostile(&mut rng, &tops);
        let (name, over) = (rng.below(n), rng.below(4));
        plain_lock = over == 3;
        let npm = rng.chance(2, 3);
        let mut pk = serde_json::Map::new();
        let mut kdl = String::from("lockfile-version 1\nroot {\n}\n");
        pk.insert("".into(), root_ok.clone());
        for i in 0..n {
            let v = &u.pkgs[PLAIN[i]].versions["1.0.0"];
            let (path, called) = if i == name && !plain_lock { (if over == 1 { h.as_str() } else { PLAIN[i] }, if over == 1 { PLAIN[i] } else { h.as_str() }) } else { (PLAIN[i], PLAIN[i]) };
            let real = u.packument(&srv.url, PLAIN[i]).unwrap()["versions"]["1.0.0"]["dist"]["tarball"].as_str().unwrap().to_string();
            let resolved = match rng.below(3) {
                _ if plain_lock => real,
                0 => format!("{}{}/-/x-1.0.0.tgz", srv.url, PLAIN[i]),
                1 => format!("npm:{}@1.0.0", PLAIN[i]),
                _ => real,
            };
            let mut e = v.manifest.clone();
            e["resolved"] = json!(resolved);
            e["integrity"] = json!(sri512(&v.tarball));
            if alias && PLAIN[i] == "p0" {
                let mut e = e.clone();
                e["name"] = json!("p0");
                e["version"] = json!("1.0.0");
                pk.insert("node_modules/al".into(), e);
                kdl += &format!("pkg \"al\" {{\n version \"1.0.0\"\n resolved {:?}\n integrity {:?}\n}}\n", resolved, sri512(&v.tarball));
            }
            if i == name && !plain_lock && over != 1 {
                e["name"] = json!(called);
            }
            pk.insert(format!("node_modules/{path}"), e);
            kdl += &format!("pkg {:?} {{\n version \"1.0.0\"\n resolved {:?}\n integrity {:?}\n}}\n", path, resolved, sri512(&v.tarball));
        }
        input["lock"] = json!(if npm { serde_json::to_string(&json!({"lockfileVersion": 3, "packages": pk})).unwrap() } else { kdl.clone() });
        a.cache = Some(&cache);
        Some((npm, input["lock"].as_str().unwrap().to_string()))
    } else {
        None
    };
    for (i, r) in rounds.iter().enumerate() {
        input["round"] = json!(i);
        let with_lock = lock.is_some() && i + 1 == rounds.len();
        if let (Some((npm, l)), true) = (&lock, with_lock) {
            if *npm { a.npm_lock = Some(l.clone()) } else { a.lock = Some(l.clone()) }
            if rng.chance(1, 2) {
                let _ = std::fs::remove_dir_all(proj.join("node_modules"));
            }
        } else
        if i > 0 {
            // what the run before left behind
            if let Ok(t) = std::fs::read_to_string(proj.join("node_modules/.orogene-meta.kdl")) {
                if rng.chance(1, 2) {
                    a.lock = Some(t);
                }
            }
        }
        // links to places elsewhere, where no package of the tree goes
        if i > 0 && links && proj.join("node_modules").is_dir() {
            let nm = proj.join("node_modules");
            let to = top.join("outside");
            for l in ["@mine", "linked", "@other/linked", "p0/node_modules/linked", "p0/node_modules/@mine", ".oro-store/linked", ".oro-store/@mine"] {
                let l = nm.join(l);
                if rng.chance(1, 2) && (l.parent().unwrap().is_dir() || l.parent().unwrap().ends_with("@other")) {
                    let _ = std::fs::create_dir_all(l.parent().unwrap());
                    let _ = std::os::unix::fs::symlink(&to, &l);
                }
            }
        }
        let res = apply(&srv.url, r, &a);
        let after = outer();
        let mut fail = |k: &str, w: String| out.push(Fail { key: k.into(), what: w, input: input.clone() });
        if after != before {
            let d: Vec<String> = after.iter().filter(|(k, v)| before.get(*k) != Some(*v)).map(|(k, v)| format!("{k}: {v}")).chain(before.keys().filter(|k| !after.contains_key(*k)).map(|k| format!("{k} gone"))).collect();
            fail("outside", format!("installing a dependency named {bad:?} changed {} outside node_modules", d.join(", ")));
            return out;
        }
        match res {
            Err(_) if with_lock && !plain_lock => {}
            Err(e) if bad.is_none() || (at == n && *r == root_ok) => {
                fail("error", format!("a tree of plain names is refused: {e}"));
                return out;
            }
            Err(_) => {}
            Ok(nm) => {
                // no package may sit at one of the linkers' own places, or on top of another one's directory
                let t = placed(&nm.to_lockfile().unwrap());
                for p in t.keys() {
                    for x in p {
                        let cs: Vec<&str> = x.split('/').collect();
                        if cs.len() > 2 || cs.iter().any(|c| c.is_empty() || c.starts_with('.') || *c == "node_modules") {
                            fail("name", format!("{p:?} was installed"));
                        }
                    }
                }
                if bad.is_none() && (!with_lock || plain_lock) {
                    let (b, _) = check_disk(&u, &srv.url, r, &t, &proj, hoisted);
                    for (k, w) in b {
                        fail(&k, w);
                    }
                }
            }
        }
    }
    out
}

fn main() {
    let mut run = Run::from_args();

    run.sweep(1.0, 20_000, judge);
    run.finish();
}
