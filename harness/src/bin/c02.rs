//! C02: placing a package never overwrites, hides or orphans another.
use vh::resolve::*;
use vh::*;

fn judge(c: &Case, label: &str) -> Vec<Fail> {
    judge_with(c, label, None).0
}
fn judge_with(c: &Case, label: &str, lock: Option<String>) -> (Vec<Fail>, Option<node_maintainer::NodeMaintainer>) {
    let mut input = c.input();
    input["lock"] = json!(lock);
    match c.resolve(lock, false) {
        Ok(nm) => {
            let t = placed(&nm.to_lockfile().unwrap());
            let mut bad = c.check(&t);
            // a lockfile maps locations to packages: two packages on one location collapse into one entry
            let n = nm.package_count();
            if n != t.len() + 1 && n != t.len() {
                bad.push(("clobbered".into(), format!("{n} packages resolved, {} locations", t.len())));
            }
            input["tree"] = json!(t.iter().map(|(p, x)| json!([p, x.version, x.resolved])).collect::<Vec<_>>());
            let f = bad.into_iter().map(|(k, what)| Fail { key: format!("{label}:{k}"), what, input: input.clone() }).collect();
            (f, Some(nm))
        }
        Err(e) => (vec![Fail { key: format!("{label}:error"), what: e, input }], None),
    }
}
/// resolve, then edit the manifest (and maybe publish), then resolve again with what is now an
/// outdated lockfile - handed over, or left in node_modules by an earlier install
fn judge_stale(c: &Case, label: &str) -> Vec<Fail> {
    let (f, nm) = judge_with(c, label, None);
    let Some(nm) = nm else { return f };
    if !f.is_empty() {
        return f;
    }
    let mut rng = Rng::new(c.seed ^ 0x57a1e);
    let c2 = c.edited(&mut rng);
    let lock = relock(&nm, c, &c2);
    if rng.chance(1, 3) {
        let nmd = c2.dir.path().join("node_modules");
        std::fs::create_dir_all(&nmd).unwrap();
        std::fs::write(nmd.join(".orogene-meta.kdl"), &lock).unwrap();
        judge_with(&c2, &format!("{label}-installed"), None).0
    } else {
        judge_with(&c2, &format!("{label}-stale-lock"), Some(lock)).0
    }
}

fn main() {
    let mut r = Run::from_args();
    let c = Case::dense(r.seed);
    r.sample(c.input());
    r.sweep(0.35, 100000, |s| judge(&Case::dense(s), "dense"));
    r.sweep(0.4, 100000, |s| judge_stale(&Case::dense(s ^ 0x4321_0000), "dense"));
    r.sweep(0.2, 100000, |s| judge_stale(&Case::random(s ^ 0x5a5a), "random"));
    r.finish();
}
