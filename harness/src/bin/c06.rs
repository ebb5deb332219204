//! C06: PackageResolution::satisfies over every pair of kinds.
use nassun::{GitInfo, PackageResolution as PR, PackageSpec as PS, VersionSpec as VS};
use node_semver::{Range, Version};
use std::path::PathBuf;
use vh::*;

const V: &[&str] = &["0.0.1", "0.1.0", "1.0.0", "1.0.0-rc.1", "1.2.3", "1.2.3+build", "2.0.0", "10.0.0", "2.0.0-beta.2", "1.0.0-rc.2", "1.0.0-rc", "1.0.0-1", "1.0.0-beta.1", "1.2.4-alpha.0", "1.2.3-0"];
const R: &[&str] = &["*", "^1.0.0", "~1.2.0", ">=1.0.0", "<2.0.0", "1.x", "1.0.0 - 2.0.0", "^0.1.0", ">=1.0.0-rc.0", ">10", "1 || 2", "<0.0.1", "^1.0.0-rc.1", "~1.2.3-0", ">1.0.0-beta.1 <2.0.0", "<=1.0.0-rc.1", "1.2.3 || 2.0.0-beta.2", "^1.2", "0.x", "=1.2.3"];

fn npm(v: &str, name: &str) -> PR {
    PR::Npm { name: name.into(), version: Version::parse(v).unwrap(), tarball: "http://x.example/a.tgz".parse().unwrap(), integrity: None }
}
fn main() {
    let mut r = Run::from_args();
    let root = std::fs::canonicalize(r.dir("dirs")).unwrap();
    for d in ["a", "b", "a/inner"] {
        std::fs::create_dir_all(root.join(d)).unwrap();
    }
    std::os::unix::fs::symlink(root.join("a"), root.join("la")).unwrap();
    let git = |s: &str| -> GitInfo { s.parse::<PS>().map(|p| match p { PS::Git(g) => g, _ => panic!() }).unwrap() };
    let mut ress: Vec<(PR, String)> = V.iter().map(|v| (npm(v, "foo"), format!("npm {v}"))).collect();
    for d in ["a", "b", "a/inner"] {
        ress.push((PR::Dir { name: "foo".into(), path: root.join(d) }, format!("dir {d}")));
    }
    for g in ["github:o/r", "github:o/r#1234567", "git+ssh://git@h.example/o/r.git"] {
        ress.push((PR::Git { name: "foo".into(), info: git(g) }, format!("git {g}")));
    }
    let mut specs: Vec<PS> = vec![];
    for v in V {
        specs.push(PS::Npm { scope: None, name: "foo".into(), requested: Some(VS::Version(Version::parse(v).unwrap())) });
    }
    for v in R {
        specs.push(PS::Npm { scope: None, name: "foo".into(), requested: Some(VS::Range(Range::parse(v).unwrap())) });
    }
    specs.push(PS::Npm { scope: Some("s".into()), name: "foo".into(), requested: None });
    specs.push(PS::Npm { scope: None, name: "foo".into(), requested: Some(VS::Tag("latest".into())) });
    let paths: Vec<PathBuf> = ["a", "b", "a/inner", "a/../b", "la", "la/inner", "a/inner/..", "gone"].iter().map(|p| root.join(p)).collect();
    for p in &paths {
        specs.push(PS::Dir { path: p.clone() });
    }
    for g in ["github:o/r", "github:o/r#1234567", "git+ssh://git@h.example/o/r.git"] {
        specs.push(PS::Git(git(g)));
    }
    let plain = specs.clone();
    for s in plain {
        let one = PS::Alias { name: "al".into(), spec: Box::new(s) };
        specs.push(one.clone());
        specs.push(PS::Alias { name: "al2".into(), spec: Box::new(one) });
    }
    for (res, rd) in &ress {
        for s in &specs {
            let mut t = s;
            while let PS::Alias { spec, .. } = t {
                t = spec;
            }
            let want = match (res, t) {
                (PR::Npm { version, .. }, PS::Npm { requested: Some(VS::Version(v)), .. }) => {
                    (version.major, version.minor, version.patch) == (v.major, v.minor, v.patch) && version.pre_release == v.pre_release
                }
                (PR::Npm { version, .. }, PS::Npm { requested: Some(VS::Range(g)), .. }) => g.satisfies(version),
                (PR::Dir { path, .. }, PS::Dir { path: p }) => std::fs::canonicalize(p).map(|c| &c == path).unwrap_or(false),
                _ => false,
            };
            let got = match guarded(|| res.satisfies(s)) {
                Ok(Ok(b)) => b,
                Ok(Err(_)) => false,
                Err(e) => {
                    r.fail("panic", e, json!({"resolution": rd, "spec": s.to_string()}));
                    continue;
                }
            };
            r.check(got == want, if got { "too-permissive" } else { "too-strict" }, || format!("{rd} satisfies {s}: expected {want}, got {got}"), || json!({"resolution": rd, "spec": format!("{s:?}")}));
        }
    }
    // random triples, versions and simple comparators judged without node-semver
    let mut rng = r.rng(6);
    for _ in 0..20000 {
        let (a, b) = ([rng.below(4), rng.below(4), rng.below(4)], [rng.below(4), rng.below(4), rng.below(4)]);
        let (op, want) = match rng.below(5) {
            0 => ("^", b <= a && (if b[0] > 0 { a[0] == b[0] } else if b[1] > 0 { a[0] == 0 && a[1] == b[1] } else { a[0] == 0 && a[1] == 0 && a[2] == b[2] })),
            1 => ("~", b <= a && a[0] == b[0] && a[1] == b[1]),
            2 => (">=", b <= a),
            3 => ("<", a < b),
            _ => ("", a == b),
        };
        let (av, bv) = (format!("{}.{}.{}", a[0], a[1], a[2]), format!("{op}{}.{}.{}", b[0], b[1], b[2]));
        let spec: PS = format!("foo@{bv}").parse().unwrap();
        let got = npm(&av, "foo").satisfies(&spec).unwrap();
        r.check(got == want, "comparator", || format!("{av} satisfies {spec}: expected {want}, got {got}"), || json!({"version": av, "spec": bv}));
    }
    // exact requests with pre-releases and builds, judged part by part
    let pre: &[&[&str]] = &[&[], &["rc"], &["rc", "1"], &["rc", "2"], &["beta", "1"], &["1"], &["0"], &["rc", "1", "0"]];
    for _ in 0..6000 {
        let pick = |rng: &mut vh::Rng| ([rng.below(2), rng.below(2), rng.below(2)], rng.below(pre.len()), rng.below(3));
        let (a, b) = (pick(&mut rng), pick(&mut rng));
        let text = |(n, p, u): &([usize; 3], usize, usize)| {
            let mut t = format!("{}.{}.{}", n[0], n[1], n[2]);
            if !pre[*p].is_empty() {
                t += &format!("-{}", pre[*p].join("."));
            }
            t + ["", "+b1", "+b2"][*u]
        };
        let (av, bv) = (text(&a), text(&b));
        let spec: PS = format!("foo@{bv}").parse().unwrap();
        let want = a.0 == b.0 && a.1 == b.1;
        let got = npm(&av, "foo").satisfies(&spec).unwrap();
        r.check(got == want, "exact", || format!("{av} satisfies {spec}: expected {want}, got {got}"), || json!({"version": av, "spec": bv}));
    }
    r.sample(json!({"resolutions": ress.len(), "specs": specs.len()}));
    r.finish();
}
