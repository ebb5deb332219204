//! C17: add and remove change exactly the entries they name, in the file as it is written, once everything else worked.
use node_maintainer::Lockfile;
use vh::*;

const KINDS: [&str; 4] = ["dependencies", "devDependencies", "optionalDependencies", "peerDependencies"];

#[derive(Clone)]
struct Style {
    unit: String,
    end: &'static str,
    trailing: bool,
}
fn print(v: &Value, s: &Style) -> String {
    fn go(v: &Value, s: &Style, depth: usize, out: &mut String) {
        let line = |out: &mut String, d: usize| {
            out.push_str(s.end);
            out.push_str(&s.unit.repeat(d));
        };
        match v {
            Value::Object(o) if !o.is_empty() => {
                out.push('{');
                for (i, (k, v)) in o.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    line(out, depth + 1);
                    out.push_str(&serde_json::to_string(k).unwrap());
                    out.push_str(": ");
                    go(v, s, depth + 1, out);
                }
                line(out, depth);
                out.push('}');
            }
            Value::Array(a) if !a.is_empty() => {
                out.push('[');
                for (i, v) in a.iter().enumerate() {
                    if i > 0 {
                        out.push(',');
                    }
                    line(out, depth + 1);
                    go(v, s, depth + 1, out);
                }
                line(out, depth);
                out.push(']');
            }
            v => out.push_str(&serde_json::to_string(v).unwrap()),
        }
    }
    let mut out = String::new();
    go(v, s, 0, &mut out);
    if s.trailing {
        out.push_str(s.end);
    }
    out
}

const VERSIONS: [&str; 5] = ["1.0.0", "1.2.0", "2.0.0", "2.0.0-0.3", "3.0.0-rc.1"];

/// a dependency request and the version it resolves to
fn spec(rng: &mut Rng) -> (&'static str, &'static str) {
    *rng.pick(&[("", "2.0.0"), ("@1.0.0", "1.0.0"), ("@1.2.0", "1.2.0"), ("@^1.0.0", "1.2.0"), ("@~1.0.0", "1.0.0"), ("@*", "2.0.0"), ("@latest", "2.0.0"), ("@next", "3.0.0-rc.1"), ("@zero", "2.0.0-0.3"), ("@2.0.0-0.3", "2.0.0-0.3"), ("@old", "1.0.0"), ("@3.0.0-rc.1", "3.0.0-rc.1"), ("@>=1.0.0 <2.0.0", "1.2.0")])
}

fn names_of(names: impl Iterator<Item = String>) -> std::collections::BTreeSet<String> {
    names.collect()
}

fn judge(seed: u64) -> Vec<Fail> {
    let mut rng = Rng::new(seed);
    let tmp = tempfile::tempdir().unwrap();
    let top = std::fs::canonicalize(tmp.path()).unwrap();
    let proj = top.join("proj");
    std::fs::create_dir_all(&proj).unwrap();
    let names: Vec<String> = ["p0", "p1", "p2", "p10", "@s/p1", "p.3", "d"].iter().map(|s| s.to_string()).collect();
    let broken = rng.chance(1, 6).then(|| names[rng.below(names.len())].clone());
    let mut u = Universe::default();
    for n in &names {
        for v in VERSIONS {
            u.add(n, v, json!({}));
            if broken.as_ref() == Some(n) {
                u.pkgs.get_mut(n).unwrap().versions.get_mut(v).unwrap().integrity = Some(sri512(b"other"));
            }
        }
        u.tag(n, "latest", "2.0.0");
        u.tag(n, "next", "3.0.0-rc.1");
        u.tag(n, "old", "1.0.0");
        u.tag(n, "zero", "2.0.0-0.3");
    }
    let srv = registry(u.clone(), |_, _| 0);
    let home = top.join("home");
    let file = proj.join("package.json");
    // a project as people write them
    let style = Style {
        unit: rng.pick(&["  ", "  ", "    ", "\t", " ", "\t\t", "        "]).to_string(),
        end: *rng.pick(&["\n", "\n", "\r\n", "\r"]),
        trailing: rng.chance(1, 2),
    };
    let mut fields: Vec<(String, Value)> = vec![
        ("name".into(), json!("root-p0")),
        ("version".into(), json!("1.0.0")),
        ("description".into(), json!("d\u{e9}j\u{e0} \"p0\" {\n  }, \u{2028} \\ p1: ^1")),
        ("scripts".into(), json!({"p0": "p1", "test": "a && b", "z": "", "a": ""})),
        ("keywords".into(), json!(["p0", [], {}, ["x", {"p1": {"dependencies": {"p0": "*"}}}]])),
        ("private".into(), json!(true)),
        ("n".into(), json!({"b": -1, "a": 2, "c": null, "dependencies": {"p0": "1"}})),
        ("overrides".into(), json!({"p1": "*", "p0": "*"})),
        ("bundleDependencies".into(), json!(["p0"])),
    ];
    for k in KINDS {
        if rng.chance(2, 3) {
            let mut o = serde_json::Map::new();
            let mut ns = names.clone();
            while !ns.is_empty() && rng.chance(3, 4) {
                let n = ns.remove(rng.below(ns.len()));
                if broken.as_ref() != Some(&n) {
                    // (peers are not installed: whatever they ask for may stay)
                    let odd = k == "peerDependencies" && rng.chance(1, 3);
                    o.insert(n, if odd { rng.pick(&[json!("workspace:*"), json!("workspace:^"), json!("file:../x"), json!("git+https://h.example/x.git#semver:1"), json!(""), json!("npm:other@1"), json!(">=1 <2 || 3"), json!("1.0.0-rc.1+b")]).clone() } else { json!(*rng.pick(&["^1.0.0", "2", "*", "~1.2.0", "latest"])) });
                }
            }
            if rng.chance(1, 4) && k == "peerDependencies" {
                o.insert("elsewhere".into(), json!("^1"));
            }
            // nothing can be applied while this is there
            if k == KINDS[0] && rng.chance(1, 8) {
                o.insert("nowhere".into(), json!("^1"));
            }
            fields.push((k.into(), Value::Object(o)));
        }
    }
    let mut root = serde_json::Map::new();
    while !fields.is_empty() {
        let (k, v) = fields.remove(rng.below(fields.len()));
        root.insert(k, v);
    }
    let first = print(&Value::Object(root), &style);
    std::fs::write(&file, &first).unwrap();
    let mut out = vec![];
    let mut history: Vec<Vec<String>> = vec![];
    for _ in 0..1 + rng.below(3) {
        let text = std::fs::read_to_string(&file).unwrap();
        let Ok(was) = serde_json::from_str::<Value>(&text) else { break };
        let mut args: Vec<String> = vec![];
        // (name, what is written) in order; None: the command is to fail
        let mut puts: Option<Vec<(String, String)>> = Some(vec![]);
        let mut kind = "";
        let add = rng.chance(2, 3);
        if add {
            args.push("add".into());
            let mut prefix = "^".to_string();
            if rng.chance(1, 2) {
                prefix = rng.pick(&["~", "", ">=", "^"]).to_string();
                args.push(format!("--prefix={prefix}"));
            }
            kind = match rng.below(4) {
                0 => {
                    args.push(rng.pick(&["--dev", "-D"]).to_string());
                    KINDS[1]
                }
                1 => {
                    args.push(rng.pick(&["--opt", "-O", "--optional"]).to_string());
                    KINDS[2]
                }
                _ => KINDS[0],
            };
            for _ in 0..1 + rng.below(3) {
                let n = rng.pick(&names).clone();
                let (s, v) = spec(&mut rng);
                match rng.below(10) {
                    0 => {
                        args.push(rng.pick(&["nowhere", "p0@9", "p1@nosuchtag", "@s/none@1"]).to_string());
                        puts = None;
                    }
                    1 | 2 => {
                        let a = rng.pick(&["al", "@t/al", "p0"]).to_string();
                        args.push(format!("{a}@npm:{n}{s}"));
                        puts.as_mut().map(|p| p.push((a, format!("npm:{n}@{prefix}{v}"))));
                    }
                    _ => {
                        args.push(format!("{n}{s}"));
                        puts.as_mut().map(|p| p.push((n, format!("{prefix}{v}"))));
                    }
                }
            }
        } else {
            args.push(rng.pick(&["remove", "rm"]).to_string());
            for _ in 0..1 + rng.below(3) {
                let n = rng.pick(&["p0", "p1", "p2", "p10", "@s/p1", "p.3", "d", "al", "@t/al", "nowhere", "name", "dependencies", "P0", "D", "@s/P1", "p1.", "p"]).to_string();
                match rng.below(10) {
                    0 => {
                        args.push(rng.pick(&["./p0", "x@npm:p0", "git+ssh://git@h.example/p0.git"]).to_string());
                        puts = None;
                    }
                    1 => {
                        args.push(format!("{n}@^1.0.0"));
                        puts.as_mut().map(|p| p.push((n, String::new())));
                    }
                    _ => {
                        args.push(n.clone());
                        puts.as_mut().map(|p| p.push((n, String::new())));
                    }
                }
            }
        }
        let full = rng.chance(1, 3);
        let how = if full { "--no-scripts" } else { *rng.pick(&["--lockfile-only", "--no-apply"]) };
        args.push(how.into());
        let applies = how != "--no-apply";
        if rng.chance(1, 4) {
            args.push("--locked".into());
        }
        history.push(args.clone());
        let mut all: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
        all.extend(["--no-progress", "--no-telemetry", "--no-first-time", "--no-emoji", "--registry", &srv.url]);
        let lock_was = std::fs::read_to_string(proj.join("package-lock.kdl")).ok();
        let r = cli::oro(&proj, &home, &all, &[]);
        let lock = std::fs::read_to_string(proj.join("package-lock.kdl")).ok();
        // (what cannot be applied: a dependency that stays and that no registry has)
        let stays = applies && was["dependencies"].get("nowhere").is_some() && (add || !puts.iter().flatten().any(|p| p.0 == "nowhere"));
        let now_text = std::fs::read_to_string(&file).unwrap_or_default();
        let input = json!({"case_seed": seed, "history": history, "package.json": text, "first": first, "broken": broken});
        let mut fail = |k: &str, w: String| out.push(Fail { key: k.into(), what: format!("{} : {w}", args.join(" ")), input: input.clone() });
        if !r.ok() {
            if now_text != text {
                fail("failed-wrote", format!("failed, but package.json is now {now_text:?}"));
            }
            let tarballs = broken.is_some() && full;
            if puts.is_some() && !tarballs && !stays {
                fail("refused", r.tail());
            }
            continue;
        }
        if stays {
            fail("apply-failed", "succeeded, but its dependencies cannot be applied: there is no package `nowhere`".into());
        }
        let Some(puts) = puts else {
            fail("accepted", "did not fail".into());
            continue;
        };
        let Ok(now) = serde_json::from_str::<Value>(&now_text) else {
            fail("not-json", format!("{now_text:?}"));
            break;
        };
        if print(&now, &style) != now_text {
            fail("style", format!("{text:?} became {now_text:?}"));
        }
        // what was applied is what was written
        if !applies && lock != lock_was {
            fail("applied", "the lockfile was changed".into());
        }
        if applies {
            let asked = names_of(KINDS[..3].iter().flat_map(|k| now[*k].as_object().into_iter().flatten().map(|x| x.0.clone())));
            let got = lock.clone().and_then(|l| Lockfile::from_kdl(l).ok()).map(|l| {
                let r = l.root();
                names_of([&r.dependencies, &r.dev_dependencies, &r.optional_dependencies].iter().flat_map(|d| d.keys().cloned()))
            });
            if got.as_ref() != Some(&asked) {
                fail("not-applied", format!("package.json asks for {asked:?}, the lockfile was made for {got:?}"));
            }
        }
        // the entries that were named
        let mut want: std::collections::BTreeMap<String, Option<String>> = Default::default();
        for (n, w) in &puts {
            want.insert(n.clone(), add.then(|| w.clone()));
        }
        for (n, w) in &want {
            for k in KINDS {
                let got = now.get(k).and_then(|o| o.get(n));
                let exp = if k == kind { w.clone() } else { None };
                if got != exp.map(Value::String).as_ref() {
                    fail("entry", format!("{n} is {got:?} in {k}; expected {:?}", if k == kind { w.as_deref() } else { None }));
                }
            }
        }
        // everything else, in its order
        let rest = |v: &Value| {
            let mut v = v.clone();
            for k in KINDS {
                if let Some(o) = v.get_mut(k).and_then(|o| o.as_object_mut()) {
                    o.retain(|n, _| !want.contains_key(n));
                }
            }
            v
        };
        let (mut a, b) = (rest(&was), rest(&now));
        if add && was.get(kind).is_none() {
            a.as_object_mut().unwrap().insert(kind.into(), json!({}));
        }
        if a != b {
            fail("other-fields", format!("{a} became {b}"));
        } else {
            let keys = |v: &Value| v.as_object().unwrap().keys().filter(|k| k.as_str() != kind || was.get(kind).is_some()).cloned().collect::<Vec<_>>();
            let order = |v: &Value| (keys(v), KINDS.iter().map(|k| v.get(*k).map(|o| keys(o))).collect::<Vec<_>>());
            if order(&a) != order(&b) {
                fail("order", format!("{text:?} became {now_text:?}"));
            }
        }
    }
    out
}

fn main() {
    let mut r = Run::from_args();
    quiet_panics();
    r.sweep(0.95, 1_000_000, judge);
    r.sample(json!({"style": "unit, line end, trailing end", "commands": "add and remove, one to three in a row, with prefixes, kinds, aliases, tags, ranges, unknown packages"}));
    r.finish();
}
