//! C07: content is delivered only when it hashes to the recorded integrity.
use futures::AsyncReadExt;
use nassun::{ExtractMode, NassunOpts, Package};
use std::sync::{Arc, Mutex};
use vh::*;

fn read_all(p: &Package, sri: Option<ssri::Integrity>, buf: usize) -> Result<Vec<u8>, String> {
    async_std::task::block_on(async {
        let mut t = match sri {
            Some(s) => p.tarball_checked(s).await,
            None => p.tarball().await,
        }
        .map_err(|e| format!("{e:?}"))?;
        let mut out = vec![];
        let mut b = vec![0u8; buf];
        loop {
            let n = t.read(&mut b).await.map_err(|e| format!("{e:?}"))?;
            if n == 0 {
                return Ok(out);
            }
            out.extend_from_slice(&b[..n]);
        }
    })
}
fn files(rng: &mut Rng, big: bool) -> Vec<(String, Vec<u8>)> {
    let mut v = vec![("package/package.json".to_string(), br#"{"name":"p","version":"1.0.0"}"#.to_vec())];
    for i in 0..1 + rng.below(4) {
        let n = match rng.below(5) {
            0 => 0,
            1 => 1 + rng.below(100),
            2 => 8192 * (1 + rng.below(3)),
            _ => rng.below(40000),
        };
        v.push((format!("package/d{}/f{i}", rng.below(2)), (0..n).map(|_| rng.next() as u8).collect()));
    }
    if big {
        v.push(("package/big".into(), (0..6 * 1024 * 1024).map(|_| rng.next() as u8).collect()));
    }
    v
}
fn pack(v: &[(String, Vec<u8>)]) -> Vec<u8> {
    let r: Vec<(&str, &[u8], u32)> = v.iter().map(|(n, d)| (n.as_str(), d.as_slice(), 0o644)).collect();
    tgz(&r)
}
fn intact(dir: &std::path::Path, v: &[(String, Vec<u8>)]) -> bool {
    v.iter().all(|(n, d)| std::fs::read(dir.join(n.strip_prefix("package/").unwrap())).map(|x| &x == d).unwrap_or(false))
}

fn judge(seed: u64, big: bool) -> Vec<Fail> {
    let mut rng = Rng::new(seed);
    let fs = files(&mut rng, big);
    let good = pack(&fs);
    let mut other = fs.clone();
    other[1].1.push(b'!');
    let others = other;
    let other = pack(&others);
    let kind = rng.below(4);
    let (integrity, shasum) = match kind {
        0 => (Some(sri512(&good)), None),
        1 => (None, Some(sri1(&good).to_hex().1)),
        2 => (Some(ssri::IntegrityOpts::new().algorithm(ssri::Algorithm::Sha256).chain(&good).result().to_string()), Some(sri1(&good).to_hex().1)),
        // two digests: either may match, the first is junk
        _ => (Some(sri512(&good)), Some(sri1(b"junk").to_hex().1)),
    };
    let body: Arc<Mutex<Resp>> = Arc::new(Mutex::new(Resp::ok(good.clone())));
    let (b2, base) = (body.clone(), Arc::new(Mutex::new(String::new())));
    let base2 = base.clone();
    let srv = Server::start(Arc::new(move |r: &Req| {
        if r.path == "/p" {
            let mut d = json!({"tarball": format!("{}p/-/p-1.0.0.tgz", base2.lock().unwrap())});
            if let Some(i) = &integrity {
                d["integrity"] = json!(i);
            }
            if let Some(i) = &shasum {
                d["shasum"] = json!(i);
            }
            return Resp::ok(serde_json::to_vec(&json!({"name": "p", "dist-tags": {"latest": "1.0.0"}, "versions": {"1.0.0": {"name": "p", "version": "1.0.0", "dist": d}}})).unwrap());
        }
        b2.lock().unwrap().clone()
    }));
    *base.lock().unwrap() = srv.url.clone();
    let tmp = tempfile::tempdir().unwrap();
    let cached = rng.chance(1, 2);
    let mut o = NassunOpts::new().registry(srv.url.parse().unwrap()).retries(0);
    if cached {
        o = o.cache(tmp.path().join("cache"));
    }
    let n = o.build();
    let p = async_std::task::block_on(n.resolve("p@1.0.0")).expect("resolve");
    let mut out = vec![];
    let modes = [ExtractMode::Auto, ExtractMode::Copy, ExtractMode::Reflink, ExtractMode::AutoHardlink, ExtractMode::Hardlink];
    let mut warm = false;
    // now and then: only explicit integrities, this package's and another's, over a cache that rots
    let focus = cached && !big && rng.chance(1, 4);
    for step in 0..if focus { 8 } else { 4 } {
        let (what, bytes, short) = match if focus { [0, 0, 6][rng.below(3)] } else { rng.below(9) } {
            0 | 1 => ("good", good.clone(), None),
            2 => {
                let mut g = good.clone();
                let i = rng.below(g.len());
                g[i] ^= 1 << rng.below(8);
                ("flipped bit", g, None)
            }
            3 => ("connection cut", good.clone(), Some(rng.below(good.len()))),
            4 => ("shorter", good[..rng.below(good.len())].to_vec(), None),
            5 => {
                let mut g = good.clone();
                g.extend_from_slice(&[0u8; 7][..1 + rng.below(6)]);
                ("trailing bytes", g, None)
            }
            6 => ("another archive", other.clone(), None),
            7 => ("another archive, then the right one's tail", { let mut g = other.clone(); g.extend_from_slice(&good); g }, None),
            _ => ("empty", vec![], None),
        };
        let is_good = what == "good";
        let mut r = Resp::ok(bytes.clone());
        r.truncate = short;
        if !big && rng.chance(1, 3) {
            r.chunk = Some(1 + rng.below(5000).max(bytes.len() / 40));
        }
        *body.lock().unwrap() = r;
        if cached && warm && rng.chance(1, if focus { 2 } else { 3 }) {
            // damage what the cache holds
            for e in walkdir::WalkDir::new(tmp.path().join("cache")).into_iter().flatten() {
                if e.file_type().is_file() && e.path().to_string_lossy().contains("content-v") && rng.chance(1, 2) {
                    let mut d = std::fs::read(e.path()).unwrap();
                    // a new file, so that hard links made earlier keep their content
                    let _ = std::fs::remove_file(e.path());
                    d.push(b'#');
                    if rng.chance(1, 2) { d[0] ^= 1; }
                    std::fs::write(e.path(), d).unwrap();
                }
            }
        }
        let op = if focus { 4 } else { rng.below(5) };
        let input = json!({"case_seed": seed, "step": step, "served": what, "cache": cached, "warm": warm, "op": op, "integrity_kind": kind, "big": big});
        let mut fail = |k: &str, w: String| out.push(Fail { key: k.into(), what: format!("{w} (served: {what}, cache {cached})"), input: input.clone() });
        let exp = ssri::IntegrityOpts::new().algorithm(ssri::Algorithm::Sha512).chain(&good).result();
        match op {
            0 | 1 => {
                let explicit = op == 1;
                let r = read_all(&p, if explicit { Some(exp) } else { None }, 1 + rng.below(20000));
                match r {
                    Ok(b) if b != good => fail("read-wrong-content", format!("reading succeeded with {} bytes that are not the package", b.len())),
                    Ok(_) => {}
                    Err(e) if is_good => fail("read-good-refused", e),
                    Err(_) => {}
                }
            }
            _ => {
                let dir = tmp.path().join(format!("out{step}"));
                let mode = modes[rng.below(5)];
                let explicit = op == 4;
                // another package's integrity: must not match this content
                let wrong = explicit && rng.chance(1, if focus { 2 } else { 3 });
                let want = if wrong { ssri::IntegrityOpts::new().algorithm(ssri::Algorithm::Sha512).chain(&other).result() } else { exp };
                let r = guarded(|| {
                    async_std::task::block_on(async {
                        if explicit {
                            p.extract_to_dir_checked(&dir, want, mode).await
                        } else {
                            p.extract_to_dir(&dir, mode).await
                        }
                    })
                });
                match r {
                    Ok(Ok(_)) => {
                        if wrong {
                            warm |= cached;
                            if !intact(&dir, &others) {
                                fail("extract-other-integrity", "extracting with another integrity succeeded".into());
                            }
                        } else {
                            warm |= cached;
                            if !intact(&dir, &fs) {
                                fail("extract-wrong-content", "extraction succeeded with wrong content".into());
                            } else if !is_good && !cached {
                                fail("extract-bad-accepted", "extraction succeeded although the bytes served do not hash to the integrity".into());
                            }
                        }
                    }
                    Ok(Err(e)) if is_good && !wrong && !warm => fail("extract-good-refused", format!("{e:?}")),
                    Ok(Err(_)) => {}
                    Err(e) => fail("extract-panic", e),
                }
            }
        }
    }
    out
}

/// The integrity of what streams out of `entries()`.
fn entries_case() -> Vec<Fail> {
    use futures::StreamExt;
    let good = pack(&[("package/package.json".into(), b"{}".to_vec())]);
    let other = pack(&[("package/package.json".into(), b"{\"evil\":1}".to_vec())]);
    let sri = sri512(&good);
    let base = Arc::new(Mutex::new(String::new()));
    let b2 = base.clone();
    let srv = Server::start(Arc::new(move |r: &Req| {
        if r.path == "/p" {
            return Resp::ok(serde_json::to_vec(&json!({"dist-tags": {"latest": "1.0.0"}, "versions": {"1.0.0": {"name": "p", "version": "1.0.0", "dist": {"tarball": format!("{}p.tgz", b2.lock().unwrap()), "integrity": sri}}}})).unwrap());
        }
        Resp::ok(other.clone())
    }));
    *base.lock().unwrap() = srv.url.clone();
    let n = NassunOpts::new().registry(srv.url.parse().unwrap()).retries(0).build();
    let r: Result<usize, String> = async_std::task::block_on(async {
        let p = n.resolve("p").await.map_err(|e| e.to_string())?;
        let mut es = p.entries().await.map_err(|e| e.to_string())?;
        let mut k = 0;
        while let Some(e) = es.next().await {
            let mut e = e.map_err(|e| e.to_string())?;
            let mut b = vec![];
            e.read_to_end(&mut b).await.map_err(|e| e.to_string())?;
            k += 1;
        }
        Ok(k)
    });
    match r {
        Ok(k) => vec![Fail { key: "entries-unchecked".into(), what: format!("Package::entries() streamed all {k} entries of another archive without an integrity error"), input: json!({"scenario": "entries"}) }],
        Err(_) => vec![],
    }
}

fn main() {
    let mut r = Run::from_args();
    r.case();
    for f in entries_case() {
        r.fail(&f.key, f.what, f.input);
    }
    r.sweep(0.25, 24, |s| judge(s, true));
    r.sweep(0.65, 1_000_000, |s| judge(s, false));
    r.sample(json!({"steps_per_case": 4, "ops": ["tarball", "tarball_checked", "extract_to_dir", "extract_to_dir", "extract_to_dir_checked"]}));
    r.finish();
}
