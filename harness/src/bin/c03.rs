//! C03: a written lockfile reproduces the tree it was written from.
use node_maintainer::Lockfile;
use vh::resolve::*;
use vh::*;

fn judge(c: &Case) -> Vec<Fail> {
    let mut out = vec![];
    let mut fail = |k: &str, what: String, lock: &str| {
        let mut input = c.input();
        input["lock"] = json!(lock);
        out.push(Fail { key: k.into(), what, input });
    };
    let nm = match c.resolve(None, false) {
        Ok(nm) => nm,
        Err(e) => {
            fail("error", e, "");
            return out;
        }
    };
    let first = tree_of(&nm, &c.server.url);
    if c.seed != 0 && c.dedupable(&placed(&nm.to_lockfile().unwrap())) {
        return out;
    }
    let k = nm.to_kdl().unwrap().to_string();
    match Lockfile::from_kdl(k.as_str()) {
        Ok(l) => {
            let again = l.to_kdl().to_string();
            if again != k {
                fail("reprint", format!("parsed and printed again it reads\n{again}"), &k);
            }
        }
        Err(e) => fail("reparse", format!("{e:?}"), &k),
    }
    // the registry has moved on; same address
    let u2 = advance(&c.u);
    let c2 = Case::new(u2, c.root.clone(), |_, _| 0, c.conc, c.seed);
    let k2 = k.replace(&c.server.url, &c2.server.url);
    match c2.resolve(Some(k2.clone()), false) {
        Ok(nm2) => {
            let t2 = tree_of(&nm2, &c2.server.url);
            if t2 != first {
                let d: Vec<_> = first.iter().filter(|(p, x)| t2.get(*p) != Some(*x)).map(|(p, x)| format!("{p:?}: {x:?} -> {:?}", t2.get(p))).collect();
                let e: Vec<_> = t2.keys().filter(|p| !first.contains_key(*p)).collect();
                fail("different-tree", format!("{d:?} extra {e:?}"), &k);
            }
            let k3 = nm2.to_kdl().unwrap().to_string();
            if k3 != k2 {
                fail("different-lock", format!("the lockfile written from the locked resolution differs:\n{k3}"), &k2);
            }
            let asked: Vec<_> = c2.server.requests().into_iter().map(|q| q.path).collect();
            if !asked.is_empty() {
                fail("refetched", format!("packages pinned by the lockfile were looked up again: {asked:?}"), &k);
            }
        }
        Err(e) => fail("locked-error", e, &k),
    }
    out
}

fn npm_lock(nm: &node_maintainer::NodeMaintainer) -> String {
    let l = nm.to_lockfile().unwrap();
    let dep = |d: &dyn std::fmt::Debug| format!("{d:?}");
    let _ = dep;
    let mut pk = serde_json::Map::new();
    let entry = |n: &node_maintainer::LockfileNode| {
        let mut e = json!({
            "dependencies": n.dependencies.iter().map(|(a, b)| (a.clone(), json!(b))).collect::<serde_json::Map<_, _>>(),
            "devDependencies": n.dev_dependencies.iter().map(|(a, b)| (a.clone(), json!(b))).collect::<serde_json::Map<_, _>>(),
            "optionalDependencies": n.optional_dependencies.iter().map(|(a, b)| (a.clone(), json!(b))).collect::<serde_json::Map<_, _>>(),
        });
        if let Some(v) = &n.version {
            e["version"] = json!(v.to_string());
        }
        if let (Some(r), false) = (&n.resolved, n.is_root) {
            e["resolved"] = json!(r);
        }
        if let Some(i) = &n.integrity {
            e["integrity"] = json!(i.to_string());
        }
        e
    };
    pk.insert("".into(), entry(l.root()));
    for n in l.packages().values() {
        let p: Vec<String> = n.path.iter().map(|x| format!("node_modules/{x}")).collect();
        pk.insert(p.join("/"), entry(n));
    }
    json!({"name": "root", "lockfileVersion": 3, "requires": true, "packages": pk}).to_string()
}

/// the same tree written as package-lock.json is taken over as it is
fn judge_npm(c: &Case) -> Vec<Fail> {
    let nm = match c.resolve(None, false) {
        Ok(nm) => nm,
        Err(e) => return vec![Fail { key: "npm:error".into(), what: e, input: c.input() }],
    };
    let first = tree_of(&nm, &c.server.url);
    if c.dedupable(&placed(&nm.to_lockfile().unwrap())) {
        return vec![];
    }
    let c2 = Case::new(advance(&c.u), c.root.clone(), |_, _| 0, c.conc, c.seed);
    let lock = npm_lock(&nm).replace(&c.server.url, &c2.server.url);
    let got = guarded(|| {
        async_std::task::block_on(async {
            let b = node_maintainer::NodeMaintainer::builder().registry(c2.server.url.parse().unwrap()).root(c2.dir.path());
            let b = b.npm_lock(&lock).map_err(|e| format!("{e:?}"))?;
            async_std::future::timeout(std::time::Duration::from_secs(30), Box::pin(b.resolve_manifest(corgi(&c2.root)))).await.map_err(|_| "timeout".to_string())?.map_err(|e| format!("{e:?}"))
        })
    })
    .and_then(|x| x);
    let mut input = c.input();
    input["npm_lock"] = json!(lock);
    match got {
        Err(e) => vec![Fail { key: "npm:import-error".into(), what: e, input }],
        Ok(nm2) => {
            let t2 = tree_of(&nm2, &c2.server.url);
            if t2 != first {
                let d: Vec<_> = first.iter().filter(|(p, x)| t2.get(*p) != Some(*x)).map(|(p, x)| format!("{p:?}: {x:?} -> {:?}", t2.get(p))).collect();
                return vec![Fail { key: "npm:different-tree".into(), what: format!("{d:?}"), input }];
            }
            vec![]
        }
    }
}

fn main() {
    let mut r = Run::from_args();
    r.sample(Case::no_tags(r.seed).input());
    r.case();
    for f in judge(&Case::dedup()) {
        r.fail(&format!("dedup:{}", f.key), f.what, f.input);
    }
    r.sweep(0.6, 100000, |s| judge(&Case::no_tags(s)));
    r.sweep(0.3, 100000, |s| judge_npm(&Case::no_tags(s ^ 0x77)));
    r.finish();
}
