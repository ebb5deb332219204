//! The command line (bin/oro.rs), run in a scratch project.
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub fn bin() -> PathBuf {
    std::env::current_exe().expect("exe").parent().expect("dir").join("oro")
}

pub struct Out {
    pub code: Option<i32>,
    pub text: String,
}
impl Out {
    pub fn ok(&self) -> bool {
        self.code == Some(0)
    }
    pub fn tail(&self) -> String {
        let t = self.text.trim();
        t.chars().skip(t.chars().count().saturating_sub(400)).collect()
    }
}

/// `home` holds everything the command keeps outside the project.
pub fn oro(cwd: &Path, home: &Path, args: &[&str], env: &[(&str, &str)]) -> Out {
    oro_until(cwd, home, args, env, |_| false)
}

/// ... and kill it, with everything it started, as soon as `stop` says so (`code` is then None).
pub fn oro_until(cwd: &Path, home: &Path, args: &[&str], env: &[(&str, &str)], mut stop: impl FnMut(Duration) -> bool) -> Out {
    std::fs::create_dir_all(home.join("cfg")).expect("home");
    let log = home.join(format!("out-{}", std::process::id()));
    let f = std::fs::File::create(&log).expect("log");
    let mut c = Command::new(bin());
    c.args(args)
        .current_dir(cwd)
        .env_clear()
        .env("PATH", std::env::var_os("PATH").unwrap_or_default())
        .env("HOME", home)
        .env("XDG_CONFIG_HOME", home.join("cfg"))
        .env("XDG_CACHE_HOME", home.join("cache"))
        .env("XDG_DATA_HOME", home.join("data"))
        .env("TMPDIR", std::env::temp_dir())
        .env("CI", "true")
        .stdin(Stdio::null())
        .stdout(f.try_clone().expect("dup"))
        .stderr(f);
    for k in ["SSL_CERT_FILE", "SSL_CERT_DIR"] {
        if let Some(v) = std::env::var_os(k) {
            c.env(k, v);
        }
    }
    for (k, v) in env {
        c.env(k, v);
    }
    use std::os::unix::process::CommandExt;
    c.process_group(0);
    let mut p = c.spawn().expect("spawn oro");
    let t = Instant::now();
    let code = loop {
        match p.try_wait().expect("wait") {
            Some(s) => break s.code(),
            None if t.elapsed() > Duration::from_secs(60) || stop(t.elapsed()) => {
                let _ = Command::new("kill").args(["-KILL", "--", &format!("-{}", p.id())]).stderr(Stdio::null()).status();
                let _ = p.kill();
                let _ = p.wait();
                break None;
            }
            None => std::thread::sleep(Duration::from_millis(2)),
        }
    };
    // scripts that were still running when a command failed
    extern "C" {
        fn kill(pid: i32, sig: i32) -> i32;
    }
    let (group, t) = (-(p.id() as i32), Instant::now());
    while unsafe { kill(group, if t.elapsed() > Duration::from_millis(1000) { 9 } else { 0 }) } == 0 && t.elapsed() < Duration::from_millis(1500) {
        std::thread::sleep(Duration::from_millis(2));
    }
    let text = String::from_utf8_lossy(&std::fs::read(&log).unwrap_or_default()).into_owned();
    Out { code, text }
}
