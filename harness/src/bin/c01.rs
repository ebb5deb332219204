//! C01: whatever the responses' order, every declared dependency finds a satisfying package.
use vh::resolve::*;
use vh::*;

fn judge(c: &Case, label: &str) -> Vec<Fail> {
    judge_with(c, label, None).0
}
fn judge_with(c: &Case, label: &str, lock: Option<String>) -> (Vec<Fail>, Option<node_maintainer::NodeMaintainer>) {
    let mut input = c.input();
    input["lock"] = json!(lock);
    match c.resolve(lock, false) {
        Ok(nm) => {
            let t = placed(&nm.to_lockfile().unwrap());
            let bad: Vec<_> = c.check(&t).into_iter().filter(|(k, _)| k != "unreached" && k != "orphan").collect();
            input["tree"] = json!(t.iter().map(|(p, x)| json!([p, x.version, x.resolved])).collect::<Vec<_>>());
            let f = bad.into_iter().map(|(k, what)| Fail { key: format!("{label}:{k}"), what, input: input.clone() }).collect();
            (f, Some(nm))
        }
        Err(e) => (vec![Fail { key: format!("{label}:error"), what: e, input }], None),
    }
}
/// resolve, then edit the manifest (and maybe publish), then resolve again with what is now an
/// outdated lockfile - handed over, or left in node_modules by an earlier install
fn judge_stale(c: &Case, label: &str) -> Vec<Fail> {
    let (f, nm) = judge_with(c, label, None);
    let Some(nm) = nm else { return f };
    if !f.is_empty() {
        return f;
    }
    let mut rng = Rng::new(c.seed ^ 0x57a1e);
    let c2 = c.edited(&mut rng);
    let lock = relock(&nm, c, &c2);
    if rng.chance(1, 3) {
        let nmd = c2.dir.path().join("node_modules");
        std::fs::create_dir_all(&nmd).unwrap();
        std::fs::write(nmd.join(".orogene-meta.kdl"), &lock).unwrap();
        judge_with(&c2, &format!("{label}-installed"), None).0
    } else {
        judge_with(&c2, &format!("{label}-stale-lock"), Some(lock)).0
    }
}

fn main() {
    let mut r = Run::from_args();
    // D's own request for x is still in flight while D/a is wired to the root's x
    let mut u = Universe::default();
    u.add("a", "1.0.0", json!({}));
    u.add("a", "2.0.0", json!({"dependencies": {"x": "^1.0.0"}}));
    u.add("x", "1.0.0", json!({}));
    u.add("x", "2.0.0", json!({}));
    u.add("d", "1.0.0", json!({"dependencies": {"a": "^2.0.0", "x": "^2.0.0"}}));
    let root = json!({"name": "r", "version": "1.0.0", "dependencies": {"a": "^1.0.0", "d": "^1.0.0", "x": "^1.0.0"}});
    let c = Case::new(u, root, |p, n| if p == "/x" && n == 2 { 400 } else { 0 }, 50, 0);
    r.case();
    for f in judge(&c, "pending-sibling") {
        r.fail(&f.key, f.what, f.input);
    }
    // an alias and a real package of the same name
    let mut u = Universe::default();
    u.add("foo", "1.0.0", json!({}));
    u.add("bar", "1.0.0", json!({}));
    u.add("d", "1.0.0", json!({"dependencies": {"foo": "npm:bar@^1.0.0"}}));
    let root = json!({"name": "r", "version": "1.0.0", "dependencies": {"d": "^1.0.0", "foo": "^1.0.0"}});
    let c = Case::new(u, root, |p, _| if p == "/d" { 100 } else { 0 }, 50, 0);
    r.case();
    for f in judge(&c, "alias") {
        r.fail(&f.key, f.what, f.input);
    }
    let c = Case::random(r.seed);
    r.sample(c.input());
    r.sweep(0.3, 100000, |s| judge(&Case::random(s), "random"));
    r.sweep(0.3, 100000, |s| judge(&Case::dense(s), "dense"));
    r.sweep(0.35, 100000, |s| judge_stale(&Case::dense(s ^ 0x1234_0000), "dense"));
    r.finish();
}
