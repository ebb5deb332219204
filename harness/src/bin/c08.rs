//! C08: extraction writes only inside the destination, and writes what the archive says.
use nassun::{ExtractMode, NassunOpts};
use std::collections::{BTreeMap, BTreeSet};
use std::os::unix::fs::PermissionsExt;
use std::sync::{Arc, Mutex};
use vh::*;

fn name(rng: &mut Rng, outside: &str) -> String {
    let top = ["package", "p", "some-dir", "."][rng.below(4)];
    let part = |rng: &mut Rng| -> String {
        match rng.below(10) {
            0 => "x".repeat(60 + rng.below(60)),
            2 => ["package", "node_modules", "p", "package.json.d"][rng.below(4)].into(),
            1 => ["a b", "ü", ".hidden", "...", "..a", "a..", "-"][rng.below(7)].into(),
            _ => format!("f{}", rng.below(30)),
        }
    };
    let mut ps: Vec<String> = (0..1 + rng.below(4)).map(|_| part(rng)).collect();
    match rng.below(14) {
        0 => ps.insert(0, "..".into()),
        1 => {
            ps.insert(0, "..".into());
            ps.insert(0, "..".into());
        }
        2 => {
            let k = rng.below(ps.len() + 1);
            ps.insert(k, "..".into());
        }
        3 => {
            let k = rng.below(ps.len() + 1);
            for _ in 0..3 {
                ps.insert(k.min(ps.len()), "..".into());
            }
        }
        4 => {
            let k = rng.below(ps.len() + 1);
            ps.insert(k, ".".into());
        }
        5 => return format!("{outside}/{}", ps.join("/")),
        6 => return format!("{top}/{outside}/{}", ps.join("/")),
        7 => return format!("../{}", ps.join("/")),
        8 => return format!("{top}//{}", ps.join("//")),
        // plain characters here
        9 => {
            for _ in 0..1 + rng.below(4) {
                ps.insert(rng.below(ps.len() + 1), (*rng.pick(&["..", "..", ".", "C:", "a"])).into());
            }
            return format!("{top}/{}", ps.join(*rng.pick(&["\\", "\\", ":", "%2f", "\u{2215}", ";"])));
        }
        10 => {
            let k = rng.below(ps.len() + 1);
            ps.insert(k, (*rng.pick(&["%2e%2e", ".. ", " ..", "..\\..", "..\t", "~", "$HOME", "\u{ff0e}\u{ff0e}"])).into());
        }
        _ => {}
    }
    format!("{top}/{}", ps.join("/"))
}
/// Where the file belongs: its path without the first component; None if the name is not a plain relative one.
fn home(name: &str) -> Option<Vec<String>> {
    if name.starts_with('/') {
        return None;
    }
    let mut cs: Vec<&str> = name.split('/').collect();
    // `.` as the first component is the component that goes; elsewhere it means nothing
    let first = cs.remove(0);
    if first == ".." {
        return None;
    }
    let cs: Vec<String> = cs.into_iter().filter(|c| !c.is_empty() && *c != ".").map(|s| s.to_string()).collect();
    if cs.is_empty() || cs.iter().any(|c| c == "..") {
        return None;
    }
    Some(cs)
}

fn judge(seed: u64) -> Vec<Fail> {
    let mut rng = Rng::new(seed);
    let tmp = tempfile::tempdir().unwrap();
    let root = std::fs::canonicalize(tmp.path()).unwrap();
    let outside = root.join("outside");
    std::fs::create_dir_all(&outside).unwrap();
    std::fs::write(outside.join("victim"), b"v").unwrap();
    std::fs::create_dir_all(root.join("w/x")).unwrap();
    for d in ["", "w", "w/x"] {
        std::fs::write(root.join(d).join("victim"), b"v").unwrap();
        std::fs::set_permissions(root.join(d).join("victim"), std::fs::Permissions::from_mode(0o644)).unwrap();
    }
    let mut entries: Vec<TarEntry> = vec![];
    let mut want: BTreeMap<Vec<String>, (Vec<u8>, u32)> = BTreeMap::new();
    let mut dirs: BTreeSet<Vec<String>> = BTreeSet::new();
    let bin = match rng.below(6) {
        0 => json!("../victim"),
        1 => json!({"a": "../../victim", "b": "./f1"}),
        2 => json!({"a": outside.join("victim").to_string_lossy()}),
        3 => json!({"a": "x/../../victim"}),
        _ => Value::Null,
    };
    let mut mani = json!({"name": "p", "version": "1.0.0"});
    if !bin.is_null() {
        mani["bin"] = bin.clone();
    }
    if rng.chance(1, 3) {
        mani["scripts"] = json!({"install": "true"});
    }
    let mut hostile = false;
    // wherever a refused name may be put instead, it must not meet another entry
    let mut hostiles: Vec<Vec<String>> = vec![];
    fn clash(x: &[String], w: &[String]) -> bool {
        (0..x.len()).any(|i| w.starts_with(&x[i..]) || x[i..].starts_with(w))
    }
    let n = 1 + rng.below(8);
    let mut names: Vec<String> = (0..n).map(|_| name(&mut rng, outside.to_str().unwrap())).collect();
    let at = rng.below(names.len() + 1);
    names.insert(at, "package/package.json".into());
    for nm in names {
        let is_mani = nm == "package/package.json";
        let data: Vec<u8> = if is_mani { serde_json::to_vec(&mani).unwrap() } else { (0..rng.below(3000)).map(|_| rng.next() as u8).collect() };
        let mode = if is_mani { 0o644 } else { [0o644, 0o755, 0o600, 0o000, 0o444, 0o4755][rng.below(6)] };
        let kind = if is_mani { b'0' } else { [b'0', b'0', b'0', b'0', b'5', b'2', b'1'][rng.below(7)] };
        if kind == b'0' {
            if let Some(h) = home(&nm) {
                // no clashes: they are nobody's promise
                if want.contains_key(&h) || dirs.contains(&h) || (1..h.len()).any(|i| want.contains_key(&h[..i])) {
                    continue;
                }
                if hostiles.iter().any(|x| clash(x, &h)) {
                    continue;
                }
                for i in 1..h.len() {
                    dirs.insert(h[..i].to_vec());
                }
                want.insert(h, (data.clone(), mode));
            } else {
                // absolute names and the like must not clash either
                let h: Vec<String> = nm.split('/').filter(|c| !c.is_empty() && *c != "." && *c != "..").map(|s| s.to_string()).collect();
                if h.is_empty() || want.keys().chain(hostiles.iter()).any(|w| clash(&h, w) || clash(w, &h)) {
                    continue;
                }
                hostile = true;
                hostiles.push(h);
            }
        }
        let link = if kind == b'2' || kind == b'1' { [outside.to_str().unwrap(), "..", "../../w", "/etc/passwd"][rng.below(4)].to_string() } else { String::new() };
        entries.push(TarEntry { name: nm, data: if kind == b'0' { data } else { vec![] }, mode, kind, link });
    }
    // a file through a link the archive brought itself
    if rng.chance(1, 6) {
        entries.push(TarEntry { name: "package/lnk".into(), data: vec![], mode: 0o777, kind: b'2', link: outside.to_string_lossy().into() });
        entries.push(TarEntry { name: "package/lnk/through".into(), data: b"t".to_vec(), mode: 0o644, kind: b'0', link: String::new() });
        want.insert(vec!["lnk".into(), "through".into()], (b"t".to_vec(), 0o644));
    }
    let data = any_tgz(&entries, rng.chance(1, 2));
    let sri = sri512(&data);
    let base = Arc::new(Mutex::new(String::new()));
    let b2 = base.clone();
    let d2 = data.clone();
    let srv = Server::start(Arc::new(move |r: &Req| {
        if r.path == "/p" {
            return Resp::ok(serde_json::to_vec(&json!({"dist-tags": {"latest": "1.0.0"}, "versions": {"1.0.0": {"name": "p", "version": "1.0.0", "dist": {"tarball": format!("{}p.tgz", b2.lock().unwrap()), "integrity": sri}}}})).unwrap());
        }
        Resp::ok(d2.clone())
    }));
    *base.lock().unwrap() = srv.url.clone();
    let cached = rng.chance(2, 3);
    let mut o = NassunOpts::new().registry(srv.url.parse().unwrap()).retries(0);
    if cached {
        o = o.cache(root.join("cache"));
    }
    let nassun = o.build();
    let p = async_std::task::block_on(nassun.resolve("p")).expect("resolve");
    let modes = [ExtractMode::Auto, ExtractMode::Copy, ExtractMode::Reflink, ExtractMode::AutoHardlink, ExtractMode::Hardlink];
    let snap = || -> BTreeMap<String, String> { tree_snapshot(&root).into_iter().filter(|(k, _)| !k.starts_with("cache") && !k.starts_with("w/x/dest")).collect() };
    let before = snap();
    let mut out = vec![];
    let desc: Vec<Value> = entries.iter().map(|e| json!([e.name, (e.kind as char).to_string(), format!("{:o}", e.mode), e.link])).collect();
    for round in 0..if cached { 2 } else { 1 } {
        let dest = root.join(format!("w/x/dest{round}"));
        let mode = modes[rng.below(5)];
        let input = json!({"case_seed": seed, "round": round, "cached": cached, "entries": desc, "manifest": mani, "mode": format!("{mode:?}")});
        let mut fail = |k: &str, w: String| out.push(Fail { key: k.into(), what: w, input: input.clone() });
        let r = guarded(|| async_std::task::block_on(p.extract_to_dir(&dest, mode)));
        let after = snap();
        if after != before {
            let d: Vec<String> = after.iter().filter(|(k, v)| before.get(*k) != Some(*v)).map(|(k, v)| format!("{k}: {v}")).chain(before.keys().filter(|k| !after.contains_key(*k)).map(|k| format!("{k} gone"))).collect();
            fail("outside", format!("extraction changed {} outside the destination", d.join(", ")));
            return out;
        }
        match r {
            Err(e) => fail("panic", e),
            Ok(Err(e)) => {
                // a hostile name may be refused, a plain archive may not
                if !hostile {
                    fail("refused", format!("{e:?}"));
                }
            }
            Ok(Ok(_)) => {
                for (h, (d, m)) in &want {
                    let f = dest.join(h.join("/"));
                    match std::fs::read(&f) {
                        Ok(x) if &x == d => {}
                        Ok(_) => fail("wrong-content", format!("{} has the wrong content", h.join("/"))),
                        Err(e) => {
                            fail("missing", format!("{}: {e}", h.join("/")));
                            continue;
                        }
                    }
                    let got = std::fs::symlink_metadata(&f).map(|x| x.permissions().mode()).unwrap_or(0);
                    if got & 0o600 != 0o600 {
                        fail("unreadable", format!("{} has mode {got:o}, archived {m:o}", h.join("/")));
                    }
                    // the umask is 022 here
                    if m & 0o100 != 0 && got & 0o100 == 0 {
                        fail("not-executable", format!("{} has mode {got:o}, archived {m:o}", h.join("/")));
                    }
                }
                // nothing but regular files and directories, and nothing that was not asked for
                for (k, v) in tree_snapshot(&dest) {
                    if v.starts_with("->") {
                        fail("link", format!("{k} {v}"));
                    }
                    if !hostile && v.starts_with("file") && !want.contains_key(&k.split('/').map(|s| s.to_string()).collect::<Vec<_>>()) {
                        fail("extra", format!("{k} {v}"));
                    }
                }
            }
        }
    }
    out
}

fn main() {
    let mut r = Run::from_args();
    r.sweep(0.9, 1_000_000, judge);
    r.sample(json!({"names": (0..6).map(|i| name(&mut Rng::new(i * 7), "/scratch/outside")).collect::<Vec<_>>()}));
    r.finish();
}
