//! Shared machinery of the replay harnesses: they run the real crates of /repo
//! and evaluate the contracts of /verif/contracts as executable oracles.
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub use serde_json::{json, Value};

pub mod cli;
pub mod install;
pub mod resolve;

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed ^ 0x9E3779B97F4A7C15)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % (n.max(1) as u64)) as usize
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
}

/// Command line + result file of one harness run.
pub struct Run {
    pub seed: u64,
    pub thorough: bool,
    pub out: PathBuf,
    pub cases: u64,
    pub findings: Vec<Value>,
    pub notes: BTreeMap<String, Value>,
    pub samples: Vec<Value>,
    pub distinct: Option<u64>,
    pub start: Instant,
    pub budget: Duration,
    pub scratch: tempfile::TempDir,
}

impl Run {
    pub fn from_args() -> Run {
        let mut seed = 1;
        let mut thorough = false;
        let mut out = PathBuf::from("/dev/stdout");
        let mut budget = 60;
        let a: Vec<String> = std::env::args().collect();
        let mut i = 1;
        while i + 1 < a.len() {
            match a[i].as_str() {
                "--seed" => seed = a[i + 1].parse().unwrap_or(1),
                "--tier" => thorough = a[i + 1] == "thorough",
                "--out" => out = PathBuf::from(&a[i + 1]),
                "--budget" => budget = a[i + 1].parse().unwrap_or(60),
                _ => {}
            }
            i += 2;
        }
        // an empty trust store: loading the system's for every client would take most of the time
        let scratch = tempfile::Builder::new().prefix("vh.").tempdir().expect("scratch");
        let none = scratch.path().join("no-certs");
        std::fs::create_dir_all(&none).expect("mkdir");
        std::fs::write(none.join("none.pem"), b"").expect("write");
        std::env::set_var("SSL_CERT_FILE", none.join("none.pem"));
        std::env::set_var("SSL_CERT_DIR", &none);
        Run {
            seed,
            thorough,
            out,
            cases: 0,
            findings: vec![],
            notes: BTreeMap::new(),
            samples: vec![],
            distinct: None,
            start: Instant::now(),
            budget: Duration::from_secs(budget),
            scratch,
        }
    }
    pub fn rng(&self, salt: u64) -> Rng {
        Rng::new(self.seed.wrapping_mul(0x100000001B3).wrapping_add(salt))
    }
    pub fn more(&self) -> bool {
        self.start.elapsed() < self.budget
    }
    pub fn case(&mut self) {
        self.cases += 1;
    }
    /// `key` identifies the failing contract + input class; stable across runs.
    pub fn fail(&mut self, key: &str, what: String, input: Value) {
        let same = self.findings.iter().filter(|f| f["key"] == key).count();
        if same < 3 {
            self.findings.push(json!({"key": key, "what": what, "input": input}));
        }
    }
    pub fn check(&mut self, ok: bool, key: &str, what: impl FnOnce() -> String, input: impl FnOnce() -> Value) {
        self.cases += 1;
        if !ok {
            self.fail(key, what(), input());
        }
    }
    pub fn note(&mut self, k: &str, v: impl Into<Value>) {
        self.notes.insert(k.into(), v.into());
    }
    pub fn dir(&self, name: &str) -> PathBuf {
        let p = self.scratch.path().join(name);
        std::fs::create_dir_all(&p).expect("mkdir");
        p
    }
    pub fn finish(self) {
        let v = json!({"cases": self.cases, "findings": self.findings, "notes": [self.notes], "samples": self.samples, "distinct": self.distinct.unwrap_or(self.cases), "wall_s": self.start.elapsed().as_secs_f64()});
        std::fs::write(&self.out, serde_json::to_string_pretty(&v).unwrap()).expect("write out");
        drop(self.scratch);
        std::process::exit(0);
    }
}

pub struct Fail {
    pub key: String,
    pub what: String,
    pub input: Value,
}
impl Run {
    /// Run `f(case seed)` on all cores until the budget share is used or `max` cases ran.
    pub fn sweep(&mut self, share: f64, max: u64, f: impl Fn(u64) -> Vec<Fail> + Sync) {
        let until = Instant::now() + self.budget.mul_f64(share);
        let next = std::sync::atomic::AtomicU64::new(0);
        let (seed, done, out) = (self.seed, std::sync::atomic::AtomicU64::new(0), Mutex::new(vec![]));
        std::thread::scope(|s| {
            for _ in 0..12 {
                let b = std::thread::Builder::new().stack_size(64 << 20);
                let _ = b.spawn_scoped(s, || loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= max || (Instant::now() > until && i > 0) || out.lock().unwrap().len() > 30 {
                        break;
                    }
                    let cs = seed.wrapping_mul(1_000_003).wrapping_add(i);
                    let r = match guarded(|| f(cs)) {
                        Ok(r) => r,
                        Err(e) => vec![Fail { key: "harness-panic".into(), what: e, input: json!({"case_seed": cs}) }],
                    };
                    done.fetch_add(1, Ordering::SeqCst);
                    out.lock().unwrap().extend(r);
                });
            }
        });
        self.cases += done.load(Ordering::SeqCst);
        for x in out.into_inner().unwrap() {
            self.fail(&x.key, x.what, x.input);
        }
    }
    pub fn sample(&mut self, v: Value) {
        if self.samples.len() < 8 {
            self.samples.push(v);
        }
    }
}

/// Run `f`, turning a panic into Err(message).
/// On a thread of its own: a panic inside async-std's block_on leaves the thread's runtime context unusable.
pub fn guarded<T: Send>(f: impl FnOnce() -> T + Send) -> Result<T, String> {
    quiet_panics();
    std::thread::scope(|s| std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(s, f).unwrap().join()).map_err(|e| {
        if let Some(s) = e.downcast_ref::<String>() {
            format!("panic: {s}")
        } else if let Some(s) = e.downcast_ref::<&str>() {
            format!("panic: {s}")
        } else {
            "panic".into()
        }
    })
}
pub fn quiet_panics() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    if std::env::var("VH_LOUD").is_err() {
        ONCE.call_once(|| std::panic::set_hook(Box::new(|_| {})));
    }
}

pub fn tgz(files: &[(&str, &[u8], u32)]) -> Vec<u8> {
    let mut enc = flate2::write::GzEncoder::new(Vec::new(), flate2::Compression::fast());
    enc.write_all(&raw_tar(files)).unwrap();
    enc.finish().unwrap()
}

/// A tar archive written header by header, so that names the `tar` crate would refuse can be used.
pub fn raw_tar(files: &[(&str, &[u8], u32)]) -> Vec<u8> {
    let mut out = vec![];
    for (name, data, mode) in files {
        let mut h = tar::Header::new_gnu();
        {
            let b = h.as_old_mut();
            let n = name.as_bytes();
            b.name[..n.len().min(100)].copy_from_slice(&n[..n.len().min(100)]);
        }
        h.set_size(data.len() as u64);
        h.set_mode(*mode);
        h.set_entry_type(if name.ends_with('/') { tar::EntryType::Directory } else { tar::EntryType::Regular });
        h.set_cksum();
        out.extend_from_slice(h.as_bytes());
        out.extend_from_slice(data);
        let pad = (512 - data.len() % 512) % 512;
        out.extend(std::iter::repeat(0).take(pad));
    }
    out.extend(std::iter::repeat(0).take(1024));
    out
}

pub struct TarEntry {
    pub name: String,
    pub data: Vec<u8>,
    pub mode: u32,
    /// tar type flag
    pub kind: u8,
    pub link: String,
}
/// Any names (long ones by GNU long-name records or pax headers), any types.
pub fn any_tgz(entries: &[TarEntry], pax: bool) -> Vec<u8> {
    fn block(out: &mut Vec<u8>, name: &[u8], data: &[u8], mode: u32, kind: u8, link: &[u8]) {
        let mut h = if pax_like(kind) { tar::Header::new_ustar() } else { tar::Header::new_gnu() };
        {
            let b = h.as_old_mut();
            b.name[..name.len().min(100)].copy_from_slice(&name[..name.len().min(100)]);
            b.linkname[..link.len().min(100)].copy_from_slice(&link[..link.len().min(100)]);
        }
        h.set_size(data.len() as u64);
        h.set_mode(mode);
        h.set_entry_type(tar::EntryType::new(kind));
        h.set_cksum();
        out.extend_from_slice(h.as_bytes());
        out.extend_from_slice(data);
        out.extend(std::iter::repeat(0).take((512 - data.len() % 512) % 512));
    }
    fn pax_like(k: u8) -> bool {
        k == b'x'
    }
    let mut out = vec![];
    for e in entries {
        if e.name.len() > 100 {
            if pax {
                let mut n = e.name.len() + 7;
                loop {
                    let t = format!("{n} path={}\n", e.name);
                    if t.len() == n {
                        block(&mut out, b"PaxHeader/x", t.as_bytes(), 0o644, b'x', b"");
                        break;
                    }
                    n = t.len();
                }
            } else {
                let mut d = e.name.clone().into_bytes();
                d.push(0);
                block(&mut out, b"././@LongLink", &d, 0o644, b'L', b"");
            }
        }
        block(&mut out, e.name.as_bytes(), &e.data, e.mode, e.kind, e.link.as_bytes());
    }
    out.extend(std::iter::repeat(0).take(1024));
    let mut enc = flate2::write::GzEncoder::new(Vec::new(), flate2::Compression::fast());
    enc.write_all(&out).unwrap();
    enc.finish().unwrap()
}

pub fn sri512(data: &[u8]) -> String {
    ssri::IntegrityOpts::new().algorithm(ssri::Algorithm::Sha512).chain(data).result().to_string()
}
pub fn sri1(data: &[u8]) -> ssri::Integrity {
    ssri::IntegrityOpts::new().algorithm(ssri::Algorithm::Sha1).chain(data).result()
}

#[derive(Clone, Debug)]
pub struct Req {
    pub method: String,
    pub path: String,
    pub headers: Vec<(String, String)>,
    pub body: Vec<u8>,
}
impl Req {
    pub fn header(&self, k: &str) -> Option<&str> {
        self.headers.iter().find(|(a, _)| a.eq_ignore_ascii_case(k)).map(|(_, v)| v.as_str())
    }
}
#[derive(Clone, Debug, Default)]
pub struct Resp {
    pub status: u16,
    pub headers: Vec<(String, String)>,
    pub body: Vec<u8>,
    pub delay_ms: u64,
    /// close the connection after this many body bytes although Content-Length promises more
    pub truncate: Option<usize>,
    /// write the body in pieces of this size
    pub chunk: Option<usize>,
}
impl Resp {
    pub fn ok(body: impl Into<Vec<u8>>) -> Resp {
        Resp { status: 200, body: body.into(), ..Default::default() }
    }
    pub fn status(status: u16) -> Resp {
        Resp { status, ..Default::default() }
    }
}

type Handler = dyn Fn(&Req) -> Resp + Send + Sync;
pub struct Server {
    pub port: u16,
    pub url: String,
    pub log: Arc<Mutex<Vec<Req>>>,
    stop: Arc<AtomicBool>,
}
impl Server {
    pub fn start(handler: Arc<Handler>) -> Server {
        let l = TcpListener::bind("127.0.0.1:0").expect("bind");
        let port = l.local_addr().unwrap().port();
        let log = Arc::new(Mutex::new(vec![]));
        let stop = Arc::new(AtomicBool::new(false));
        let (lg, st) = (log.clone(), stop.clone());
        std::thread::spawn(move || {
            for c in l.incoming() {
                if st.load(Ordering::SeqCst) {
                    break;
                }
                let Ok(c) = c else { continue };
                let (h, lg) = (handler.clone(), lg.clone());
                std::thread::spawn(move || {
                    let _ = serve(c, &*h, &lg);
                });
            }
        });
        Server { port, url: format!("http://127.0.0.1:{port}/"), log, stop }
    }
    pub fn requests(&self) -> Vec<Req> {
        self.log.lock().unwrap().clone()
    }
    pub fn clear(&self) {
        self.log.lock().unwrap().clear();
    }
}
impl Drop for Server {
    fn drop(&mut self) {
        self.stop.store(true, Ordering::SeqCst);
        let _ = TcpStream::connect(("127.0.0.1", self.port));
    }
}
fn serve(mut c: TcpStream, h: &Handler, log: &Mutex<Vec<Req>>) -> std::io::Result<()> {
    c.set_nodelay(true)?;
    c.set_read_timeout(Some(Duration::from_secs(20)))?;
    let mut buf = vec![];
    let mut tmp = [0u8; 4096];
    loop {
        let head_end = loop {
            if let Some(p) = buf.windows(4).position(|w| w == b"\r\n\r\n") {
                break p;
            }
            let n = c.read(&mut tmp)?;
            if n == 0 {
                return Ok(());
            }
            buf.extend_from_slice(&tmp[..n]);
        };
        let head = String::from_utf8_lossy(&buf[..head_end]).to_string();
        let mut ls = head.split("\r\n");
        let mut rl = ls.next().unwrap_or("").split(' ');
        let method = rl.next().unwrap_or("").to_string();
        let path = rl.next().unwrap_or("").to_string();
        let headers: Vec<(String, String)> = ls.filter_map(|l| l.split_once(':').map(|(a, b)| (a.trim().into(), b.trim().into()))).collect();
        let len: usize = headers.iter().find(|(k, _)| k.eq_ignore_ascii_case("content-length")).and_then(|(_, v)| v.parse().ok()).unwrap_or(0);
        while buf.len() < head_end + 4 + len {
            let n = c.read(&mut tmp)?;
            if n == 0 {
                return Ok(());
            }
            buf.extend_from_slice(&tmp[..n]);
        }
        let req = Req { method, path, headers, body: buf[head_end + 4..head_end + 4 + len].to_vec() };
        buf.drain(..head_end + 4 + len);
        log.lock().unwrap().push(req.clone());
        let r = h(&req);
        if r.delay_ms > 0 {
            std::thread::sleep(Duration::from_millis(r.delay_ms));
        }
        let mut out = format!("HTTP/1.1 {} X\r\nContent-Length: {}\r\n", r.status, r.body.len());
        for (k, v) in &r.headers {
            out.push_str(&format!("{k}: {v}\r\n"));
        }
        out.push_str("\r\n");
        let mut o = out.into_bytes();
        match r.truncate {
            Some(n) => o.extend_from_slice(&r.body[..n.min(r.body.len())]),
            None => o.extend_from_slice(&r.body),
        }
        match r.chunk {
            Some(n) => {
                for p in o.chunks(n.max(1)) {
                    c.write_all(p)?;
                    std::thread::sleep(Duration::from_micros(200));
                }
            }
            None => c.write_all(&o)?,
        }
        if r.truncate.is_some() {
            return Ok(());
        }
    }
}

/// An in-memory npm registry.
#[derive(Default, Clone)]
pub struct Universe {
    pub pkgs: BTreeMap<String, PkgEntry>,
}
#[derive(Default, Clone)]
pub struct PkgEntry {
    pub tags: BTreeMap<String, String>,
    pub versions: BTreeMap<String, VersionEntry>,
}
#[derive(Default, Clone)]
pub struct VersionEntry {
    pub manifest: Value,
    pub tarball: Vec<u8>,
    pub integrity: Option<String>,
    pub shasum: Option<String>,
}
impl Universe {
    /// `manifest` holds the extra fields; a tarball with a package.json is made.
    pub fn add(&mut self, name: &str, version: &str, manifest: Value) {
        self.add_files(name, version, manifest, &[])
    }
    pub fn add_files(&mut self, name: &str, version: &str, mut manifest: Value, files: &[(&str, &[u8], u32)]) {
        manifest["name"] = json!(name);
        manifest["version"] = json!(version);
        let pj = serde_json::to_vec(&manifest).unwrap();
        let mut fs: Vec<(&str, &[u8], u32)> = vec![("package/package.json", &pj, 0o644)];
        fs.extend_from_slice(files);
        let tarball = tgz(&fs);
        let e = self.pkgs.entry(name.into()).or_default();
        e.versions.insert(version.into(), VersionEntry { integrity: Some(sri512(&tarball)), manifest, tarball, shasum: None });
        // latest: last added, unless overridden
        e.tags.insert("latest".into(), version.into());
    }
    pub fn tag(&mut self, name: &str, tag: &str, version: &str) {
        self.pkgs.entry(name.into()).or_default().tags.insert(tag.into(), version.into());
    }
    pub fn packument(&self, base: &str, name: &str) -> Option<Value> {
        let e = self.pkgs.get(name)?;
        let mut vs = serde_json::Map::new();
        for (v, ve) in &e.versions {
            let mut m = ve.manifest.clone();
            m["dist"] = json!({"tarball": format!("{base}{name}/-/{}-{v}.tgz", name.rsplit('/').next().unwrap())});
            if let Some(i) = &ve.integrity {
                m["dist"]["integrity"] = json!(i);
            }
            if let Some(s) = &ve.shasum {
                m["dist"]["shasum"] = json!(s);
            }
            vs.insert(v.clone(), m);
        }
        Some(json!({"name": name, "dist-tags": e.tags, "versions": vs}))
    }
    pub fn packument_all(&self) -> Value {
        Value::Object(self.pkgs.keys().map(|k| (k.clone(), self.packument("", k).unwrap())).collect())
    }
    pub fn respond(&self, base: &str, path: &str) -> Resp {
        let p = path.trim_start_matches('/').replace("%2f", "/").replace("%2F", "/").replace("%40", "@");
        if let Some((name, file)) = p.split_once("/-/") {
            if let Some(e) = self.pkgs.get(name) {
                let short = name.rsplit('/').next().unwrap();
                for (v, ve) in &e.versions {
                    if file == format!("{short}-{v}.tgz") {
                        return Resp::ok(ve.tarball.clone());
                    }
                }
            }
            return Resp::status(404);
        }
        match self.packument(base, &p) {
            Some(v) => Resp::ok(serde_json::to_vec(&v).unwrap()),
            None => Resp::status(404),
        }
    }
}

/// Serve a universe; `delay(path, nth request for that path)` in ms.
pub fn registry(u: Universe, delay: impl Fn(&str, usize) -> u64 + Send + Sync + 'static) -> Server {
    let base: Arc<Mutex<String>> = Arc::default();
    let counts: Mutex<BTreeMap<String, usize>> = Mutex::default();
    let b2 = base.clone();
    let s = Server::start(Arc::new(move |r: &Req| {
        let n = {
            let mut c = counts.lock().unwrap();
            let e = c.entry(r.path.clone()).or_insert(0);
            *e += 1;
            *e - 1
        };
        let base = b2.lock().unwrap().clone();
        let mut resp = u.respond(&base, &r.path);
        resp.delay_ms = delay(&r.path, n);
        resp
    }));
    *base.lock().unwrap() = s.url.clone();
    s
}

pub fn tree_snapshot(root: &Path) -> BTreeMap<String, String> {
    let mut out = BTreeMap::new();
    for e in walkdir::WalkDir::new(root).follow_links(false).sort_by_file_name() {
        let Ok(e) = e else { continue };
        let rel = e.path().strip_prefix(root).unwrap().to_string_lossy().to_string();
        let ft = e.file_type();
        let d = if ft.is_symlink() {
            format!("-> {}", std::fs::read_link(e.path()).map(|p| p.to_string_lossy().to_string()).unwrap_or_default())
        } else if ft.is_dir() {
            "dir".into()
        } else {
            use std::os::unix::fs::PermissionsExt;
            let b = std::fs::read(e.path()).unwrap_or_default();
            let m = e.metadata().map(|m| m.permissions().mode() & 0o777).unwrap_or(0);
            format!("file {:o} {}", m, sri512(&b))
        };
        out.insert(rel, d);
    }
    out
}
