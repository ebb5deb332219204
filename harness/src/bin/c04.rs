//! C04: --locked takes exactly what the lockfile says or refuses.
use vh::resolve::*;
use vh::*;

fn judge(c: &Case) -> Vec<Fail> {
    let mut out = vec![];
    let mut fail = |k: &str, what: String, root: &Value, lock: &str| {
        let mut input = c.input();
        input["lock"] = json!(lock);
        input["root"] = root.clone();
        out.push(Fail { key: k.into(), what, input });
    };
    let nm = match c.resolve(None, false) {
        Ok(nm) => nm,
        Err(e) => {
            fail("error", e, &c.root, "");
            return out;
        }
    };
    let first = tree_of(&nm, &c.server.url);
    if c.seed != 0 && c.dedupable(&placed(&nm.to_lockfile().unwrap())) {
        return out;
    }
    let k = nm.to_kdl().unwrap().to_string();
    let at = |root: &Value| {
        let c2 = Case::new(advance(&c.u), root.clone(), |_, _| 0, c.conc, c.seed);
        let k2 = k.replace(&c.server.url, &c2.server.url);
        if c.seed % 2 == 1 {
            // the project is installed, too
            let nmd = c2.dir.path().join("node_modules");
            std::fs::create_dir_all(&nmd).unwrap();
            std::fs::write(nmd.join(".orogene-meta.kdl"), &k2).unwrap();
        }
        (c2, k2)
    };
    // matching manifest: accepted, and nothing changes
    let (c2, k2) = at(&c.root);
    match c2.resolve(Some(k2.clone()), true) {
        Ok(nm2) => {
            if tree_of(&nm2, &c2.server.url) != first {
                fail("accepted-different", "a locked resolution gave a different tree".into(), &c.root, &k2);
            }
        }
        Err(e) => fail("refused-matching", e, &c.root, &k2),
    }
    // a manifest the lockfile does not match: refused
    let mut rng = Rng::new(c.seed ^ 0xabcd);
    let names: Vec<String> = c.root["dependencies"].as_object().unwrap().keys().cloned().collect();
    let mut root = c.root.clone();
    let what;
    match rng.below(3) {
        0 => {
            let extra: Vec<&String> = c.u.pkgs.keys().filter(|p| ["dependencies", "devDependencies", "optionalDependencies"].iter().all(|k| c.root[*k].get(p.as_str()).is_none())).collect();
            if extra.is_empty() {
                return out;
            }
            let p = (*rng.pick(&extra)).clone();
            root["dependencies"][&p] = json!(">=0.0.1");
            what = format!("dependency {p} added");
        }
        1 if !names.is_empty() => {
            let p = rng.pick(&names).clone();
            if root["devDependencies"].get(&p).is_some() || root["optionalDependencies"].get(&p).is_some() {
                return out;
            }
            root["dependencies"].as_object_mut().unwrap().remove(&p);
            what = format!("dependency {p} removed");
        }
        2 if !names.is_empty() => {
            let p = rng.pick(&names).clone();
            if p.starts_with("al") || root["devDependencies"].get(&p).is_some() || root["optionalDependencies"].get(&p).is_some() {
                return out;
            }
            root["dependencies"][&p] = json!("3.99.0");
            what = format!("dependency {p} now wants 3.99.0");
        }
        _ => return out,
    }
    let (c3, k3) = at(&root);
    match c3.resolve(Some(k3.clone()), true) {
        Ok(_) => fail("accepted-mismatch", format!("{what}: accepted"), &root, &k3),
        Err(e) if e.contains("LockfileMismatch") || e.contains("ockfile") => {}
        Err(e) => fail("other-error", format!("{what}: {e}"), &root, &k3),
    }
    // without --locked the same input resolves
    match c3.resolve(Some(k3.clone()), false) {
        Ok(_) => {}
        Err(e) => fail("unlocked-error", format!("{what}: {e}"), &root, &k3),
    }
    out
}

fn main() {
    let mut r = Run::from_args();
    r.sample(Case::no_tags(r.seed).input());
    r.case();
    for f in judge(&Case::dedup()) {
        r.fail(&format!("dedup:{}", f.key), f.what, f.input);
    }
    r.sweep(0.9, 100000, |s| judge(&Case::no_tags(s)));
    r.finish();
}
