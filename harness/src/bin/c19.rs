//! C19: an option's value is the one of the command line, else of the project's oro.kdl, else the user's, else the environment's, else its default.
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};
use vh::*;

/// where an option can be set, best first (`--config FILE` takes the place of both files)
const WHERE: [&str; 4] = ["cli", "project", "user", "env"];

struct Opt {
    name: &'static str,
    values: Vec<String>,
    flag: bool,
    global: bool,
    /// written as a table in files: { first "second"; } or { first second="third" }
    table: usize,
}
fn opt(name: &'static str, values: &[&str], flag: bool, global: bool, table: usize) -> Opt {
    Opt { name, values: values.iter().map(|s| s.to_string()).collect(), flag, global, table }
}

/// a registry below a path of its server
fn registry_at(u: Universe, prefix: &'static str) -> Server {
    let base: Arc<Mutex<String>> = Arc::default();
    let b2 = base.clone();
    let s = Server::start(Arc::new(move |r: &Req| match r.path.strip_prefix(prefix).filter(|p| p.starts_with('/')) {
        Some(p) => u.respond(&b2.lock().unwrap(), p),
        None => u.respond("", "/nothing/here/at/all"),
    }));
    *base.lock().unwrap() = format!("{}{prefix}/", s.url.trim_end_matches('/'));
    s
}
/// entries of tables that are about something else
fn others(rng: &mut Rng) -> usize {
    if rng.chance(1, 2) { 0 } else { 1 + rng.below(7) }
}
fn kdl(v: &str) -> String {
    format!("\"{}\"", v.replace('\\', "\\\\").replace('"', "\\\""))
}

fn judge(seed: u64) -> Vec<Fail> {
    let mut rng = Rng::new(seed);
    let tmp = tempfile::tempdir().unwrap();
    let top = std::fs::canonicalize(tmp.path()).unwrap();
    let log = top.join("scripts");
    let (a, b, home) = (top.join("a"), top.join("b"), top.join("home"));
    let sub = a.join("src/deep");
    std::fs::create_dir_all(&sub).unwrap();
    std::fs::create_dir_all(&b).unwrap();
    for d in [&a, &b] {
        std::fs::write(d.join("package.json"), "{\n  \"name\": \"r\",\n  \"version\": \"1.0.0\"\n}\n").unwrap();
    }
    // neither what is further up nor what is no such file or directory makes a project
    if rng.chance(1, 3) {
        std::fs::create_dir_all(top.join("node_modules/x")).unwrap();
    }
    if rng.chance(1, 4) {
        std::fs::write(top.join("package.json"), b"{}").unwrap();
    }
    if rng.chance(1, 4) {
        std::fs::create_dir_all(a.join("src/package.json")).unwrap();
    }
    if rng.chance(1, 4) {
        std::fs::write(sub.join("node_modules"), b"").unwrap();
    }
    if rng.chance(1, 4) {
        std::fs::create_dir_all(b.join("node_modules")).unwrap();
    }
    let mut u = Universe::default();
    for v in ["1.0.0", "2.0.0", "3.0.0", "4.0.0"] {
        u.add("p0", v, json!({"scripts": {"postinstall": format!("echo ran >> {}", log.display())}}));
        u.add("@s/q0", v, json!({}));
    }
    // (some of these look like booleans, numbers, or options)
    let tags = [("latest", "1.0.0"), ("next", "2.0.0"), ("on", "3.0.0"), ("yes", "4.0.0"), ("-x", "2.0.0"), ("no", "4.0.0")];
    for p in ["p0", "@s/q0"] {
        for (t, v) in tags {
            u.tag(p, t, v);
        }
    }
    let paths: Vec<&'static str> = (0..4).map(|_| *rng.pick(&["", "/npm", "/a/b"])).collect();
    let srv: Vec<Server> = paths.iter().map(|p| registry_at(u.clone(), p)).collect();
    let urls: Vec<String> = srv.iter().zip(&paths).map(|(s, p)| format!("{}{p}/", s.url.trim_end_matches('/'))).collect();
    let url = |i: usize| urls[i].as_str();

    let mut opts = vec![
        opt("default-tag", &["latest", "next", "on", "yes", "no"], false, false, 0),
        opt("prefix", &["^", "~", ">=", "="], false, false, 0),
        opt("dev", &[], true, false, 0),
        opt("hoisted", &[], true, false, 0),
        opt("lockfile-only", &[], true, false, 0),
        opt("lockfile", &[], true, false, 0),
        opt("scripts", &[], true, false, 0),
        opt("apply", &[], true, false, 0),
        opt("registry", &[url(0), url(1), url(2)], false, true, 0),
        opt("scoped-registries", &[&format!("@s={}", url(1)), &format!("@s={}", url(2)), &format!("@s={}", url(3))], false, true, 1),
        opt("auth", &["TOK1", "TOK2", "TOK3"], false, true, 2),
        opt("cache", &[], false, true, 0),
        opt("concurrency", &["1", "2", "7"], false, false, 0),
        opt("retries", &["0", "1", "3"], false, true, 0),
        opt("json", &[], true, true, 0),
        opt("root", &[&a.to_string_lossy(), &b.to_string_lossy()], false, true, 0),
    ];
    for o in &mut opts {
        if o.flag {
            o.values = vec!["true".into(), "false".into()];
        }
        if o.name == "cache" {
            o.values = (0..3).map(|i| top.join(format!("cache{i}")).to_string_lossy().into_owned()).collect();
        }
    }
    let config_file = rng.chance(1, 4);
    let cwd = if rng.chance(1, 3) { &sub } else { &a };
    // what is set where
    let mut set: BTreeMap<&str, Vec<Option<String>>> = BTreeMap::new();
    let busy = 1 + rng.below(3);
    for o in &opts {
        let mut v = vec![None; WHERE.len()];
        for (i, w) in WHERE.iter().enumerate() {
            if rng.chance(busy, 5) {
                // (what the files say about the root is relative to a root: only the two ends and the project's own file)
                if o.name == "root" && *w == "project" && config_file {
                    continue;
                }
                v[i] = Some(rng.pick(&o.values).clone());
            }
        }
        if o.name == "registry" && v.iter().enumerate().all(|(i, x)| x.is_none() || (config_file && i == 1)) {
            let i = *rng.pick(&[0, 2, 3]);
            v[i] = Some(rng.pick(&o.values).clone());
        }
        set.insert(o.name, v);
    }
    let eff = |name: &str| -> Option<String> { set[name].iter().enumerate().find_map(|(i, v)| if config_file && i == 1 { None } else { v.clone() }) };
    let truth = |name: &str, default: bool| eff(name).map_or(default, |v| v == "true");
    let root = eff("root").map(std::path::PathBuf::from).unwrap_or(a.clone());
    let cli_root = set["root"][0].clone().map(std::path::PathBuf::from);
    // the project whose oro.kdl counts
    let project = cli_root.clone().unwrap_or(a.clone());
    let reg = eff("registry").unwrap();
    // (only where there is no path does the `/` at the end mean nothing)
    let reg_key = if urls.iter().position(|u| *u == reg).is_some_and(|i| paths[i].is_empty()) && rng.chance(1, 2) { reg.trim_end_matches('/') } else { &reg };
    let auth_of = |v: &str| format!("{{{reg_key}}}token={v}");

    // files
    let mut file = |i: usize, rng: &mut Rng| {
        let mut s = String::from("options {\n");
        for o in &opts {
            let Some(v) = &set[o.name][i] else { continue };
            let text = match o.table {
                1 => {
                    let (k, v) = v.split_once('=').unwrap();
                    let mut es: Vec<(String, String)> = (0..others(rng)).map(|i| (format!("@z{i}"), "http://127.0.0.1:1/".into())).collect();
                    es.insert(rng.below(es.len() + 1), (k.into(), v.into()));
                    let dash = if rng.chance(1, 4) { "        \"-\" \"http://127.0.0.1:1/\"\n" } else { "" };
                    if rng.chance(1, 2) {
                        format!("{} {{\n{dash}{}    }}", o.name, es.iter().map(|(k, v)| format!("        {} {}\n", kdl(k), kdl(v))).collect::<String>())
                    } else {
                        format!("{}{}", o.name, es.iter().map(|(k, v)| format!(" {}={}", kdl(k), kdl(v))).collect::<String>())
                    }
                }
                2 => {
                    let mut es: Vec<(String, String)> = (0..others(rng)).map(|i| (format!("http://other{i}.invalid/"), "WRONG".into())).collect();
                    es.insert(rng.below(es.len() + 1), (reg_key.into(), v.clone()));
                    format!("{} {{\n{}    }}", o.name, es.iter().map(|(k, v)| format!("        {} token={}\n", kdl(k), kdl(v))).collect::<String>())
                }
                _ if o.flag => match v.as_str() {
                    "true" if rng.chance(1, 3) => o.name.to_string(),
                    v if rng.chance(1, 4) => format!("{} {}", o.name, kdl(v)),
                    v => format!("{} {v}", o.name),
                },
                _ if v.parse::<u32>().is_ok() && rng.chance(3, 4) => format!("{} {v}", o.name),
                _ => format!("{} {}", o.name, kdl(v)),
            };
            s.push_str(&format!("    {text}\n"));
        }
        s.push_str("}\n");
        s
    };
    let nonsense = format!("options {{\n    default-tag \"nope\"\n    registry \"http://127.0.0.1:1/\"\n    dev {}\n    cache {}\n}}\n", !truth("dev", false), kdl(&top.join("decoy").to_string_lossy()));
    let (user_kdl, project_kdl) = (file(2, &mut rng), file(1, &mut rng));
    let user_path = home.join("cfg/orogene/oro.kdl");
    std::fs::create_dir_all(user_path.parent().unwrap()).unwrap();
    let named = top.join("named.kdl");
    if config_file {
        std::fs::write(&named, &user_kdl).unwrap();
        std::fs::write(&user_path, &nonsense).unwrap();
        std::fs::write(project.join("oro.kdl"), &nonsense).unwrap();
    } else {
        std::fs::write(&user_path, &user_kdl).unwrap();
        std::fs::write(project.join("oro.kdl"), &project_kdl).unwrap();
    }
    // other files of that name count for nothing
    for d in [&a, &b, &sub] {
        if !d.join("oro.kdl").exists() && *d != project {
            std::fs::write(d.join("oro.kdl"), &nonsense).unwrap();
        }
    }
    // environment
    let mut env: Vec<(String, String)> = vec![];
    for o in &opts {
        if let Some(v) = &set[o.name][3] {
            let k = format!("oro_config_{}", o.name.replace('-', "_"));
            let k = if rng.chance(1, 3) { k.to_uppercase() } else if rng.chance(1, 5) { format!("oro_config_{}", o.name) } else { k };
            env.push((k, if o.table == 2 { auth_of(v) } else { v.clone() }));
        }
    }
    // command line
    let (mut before, mut after): (Vec<String>, Vec<String>) = (vec![], vec![]);
    let mut quiet: Vec<String> = ["--no-progress", "--no-telemetry", "--no-first-time", "--no-emoji"].iter().map(|s| s.to_string()).collect();
    if config_file {
        quiet.push(format!("--config={}", named.display()));
    }
    for o in &opts {
        let Some(v) = &set[o.name][0] else { continue };
        let mut words = vec![];
        if o.flag {
            let (y, n) = (format!("--{}", o.name), format!("--no-{}", o.name));
            let (last, other) = if v == "true" { (y, n) } else { (n, y) };
            if rng.chance(1, 5) {
                words.push(other);
            }
            words.push(last);
        } else {
            let long = if o.name == "scoped-registries" { *rng.pick(&["scoped-registries", "scoped-registry"]) } else { o.name };
            let v = if o.table == 2 { auth_of(v) } else { v.clone() };
            if rng.chance(1, 2) {
                words.push(format!("--{long}={v}"));
            } else {
                words.extend([format!("--{long}"), v]);
            }
        }
        if o.global && rng.chance(1, 3) { &mut before } else { &mut after }.extend(words);
    }
    if rng.chance(1, 2) { &mut before } else { &mut after }.extend(quiet);
    let mut args = before;
    args.push("add".into());
    let names = ["p0".to_string(), "@s/q0".to_string()];
    match rng.below(3) {
        0 => {
            args.extend(names);
            args.extend(after);
        }
        1 => {
            args.extend(after);
            args.extend(names);
        }
        _ => {
            args.extend(after);
            args.push("--".into());
            args.extend(names);
        }
    }
    let argv: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let envv: Vec<(&str, &str)> = env.iter().map(|(k, v)| (k.as_str(), v.as_str())).collect();
    let r = cli::oro(cwd, &home, &argv, &envv);

    let mut out = vec![];
    let input = json!({"case_seed": seed, "cwd": cwd, "args": args, "env": env, "project_root": project, if config_file { "config_file" } else { "user_file" }: user_kdl, "project_file": if config_file { nonsense.clone() } else { project_kdl }, "set": set, "order": if config_file { json!(["cli", "(not project)", "config", "env"]) } else { json!(WHERE) }});
    let mut fail = |k: &str, w: String| out.push(Fail { key: k.into(), what: w, input: input.clone() });
    if !r.ok() {
        fail("error", format!("oro {}: {}", args.join(" "), r.tail()));
        return out;
    }
    let why = |n: &str| format!("{n} is {:?} on the command line, {:?} in the project's file{}, {:?} in {}, {:?} in the environment", set[n][0], set[n][1], if config_file { " (not read)" } else { "" }, set[n][2], if config_file { "the --config file" } else { "the user's" }, set[n][3]);
    let mani: Value = serde_json::from_str(&std::fs::read_to_string(root.join("package.json")).unwrap()).unwrap();
    let other = if root == a { &b } else { &a };
    if std::fs::read_to_string(other.join("package.json")).unwrap().contains("p0") || mani.get("dependencies").is_none() && mani.get("devDependencies").is_none() {
        fail("root", format!("{} was changed, not {}: {}", other.display(), root.display(), why("root")));
        return out;
    }
    let (kind, not) = if truth("dev", false) { ("devDependencies", "dependencies") } else { ("dependencies", "devDependencies") };
    if mani.get(kind).is_none() || mani.get(not).is_some() {
        fail("dev", format!("{mani}: {}", why("dev")));
        return out;
    }
    let tag = eff("default-tag").unwrap_or("latest".into());
    let version = tags.iter().find(|t| t.0 == tag).unwrap().1;
    for p in ["p0", "@s/q0"] {
        let got = mani[kind][p].as_str().unwrap_or("").to_string();
        if !got.ends_with(version) {
            fail("default-tag", format!("{p} is {got:?}, should be {tag} ({version}): {}", why("default-tag")));
        } else if got[..got.len() - version.len()] != eff("prefix").unwrap_or("^".into()) {
            fail("prefix", format!("{p} is {got:?}: {}", why("prefix")));
        }
    }
    let scoped = eff("scoped-registries").map(|v| v["@s=".len()..].to_string()).unwrap_or(reg.clone());
    let token = eff("auth").map(|t| format!("Bearer {t}"));
    for (i, s) in srv.iter().enumerate() {
        for q in s.requests() {
            let want = if q.path.contains("q0") { (&scoped, "scoped-registries") } else { (&reg, "registry") };
            if urls[i] != *want.0 {
                fail(want.1, format!("{} was asked of {}, should be of {}: {}", q.path, urls[i], want.0, why(want.1)));
            }
            if urls[i] == reg && q.header("authorization").map(String::from) != token {
                fail("auth", format!("{} of {} carries {:?}, should be {token:?}: {}", q.path, urls[i], q.header("authorization"), why("auth")));
            }
        }
    }
    let applies = truth("apply", true);
    let installs = applies && !truth("lockfile-only", false);
    if root.join("package-lock.kdl").exists() != (applies && truth("lockfile", true)) {
        fail("lockfile", format!("the lockfile's presence is {}: {}; {}", root.join("package-lock.kdl").exists(), why("lockfile"), why("apply")));
    }
    if root.join("node_modules/.orogene-meta.kdl").exists() != installs {
        fail("lockfile-only", format!("the presence of an installed tree is {}: {}; {}", !installs, why("lockfile-only"), why("apply")));
    }
    if installs && root.join("node_modules/.oro-store").exists() == truth("hoisted", false) {
        fail("hoisted", format!("the store's presence is {}: {}", truth("hoisted", false), why("hoisted")));
    }
    if log.exists() != (installs && truth("scripts", true)) {
        fail("scripts", format!("that scripts ran is {}: {}", log.exists(), why("scripts")));
    }
    let cache = eff("cache").map(std::path::PathBuf::from).unwrap_or(home.join("cache/orogene"));
    for c in (0..3).map(|i| top.join(format!("cache{i}"))).chain([home.join("cache/orogene"), top.join("decoy")]) {
        if c.exists() != (c == cache) {
            fail("cache", format!("the presence of {} is {}: {}", c.display(), c.exists(), why("cache")));
        }
    }
    out
}

fn main() {
    let mut r = Run::from_args();
    r.sweep(0.95, 1_000_000, judge);
    r.sample(json!("oro add with each option set on the command line, in files, in the environment, or not at all; see replay inputs"));
    r.finish();
}
