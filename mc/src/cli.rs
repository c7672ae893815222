//! Runs of the real command line tool in a scratch directory, with stand-in compilers.
use crate::tool::Lang;
use crate::{sol, vy};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::io::Write;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};

pub const TOOL: &str = "/verif/target/release/mutagenyx";
pub const PRELOAD: &str = "/verif/target/mcenv.so";

static NEXT: AtomicU64 = AtomicU64::new(0);
pub static RUNS: AtomicU64 = AtomicU64::new(0);

/// a scratch directory that is removed when the value is dropped
pub struct Dir {
    pub path: PathBuf,
}
impl Dir {
    pub fn new() -> Dir {
        let n = NEXT.fetch_add(1, Ordering::Relaxed);
        let base = if Path::new("/dev/shm").is_dir() { "/dev/shm" } else { "/tmp" };
        let path = PathBuf::from(format!("{}/mc-{}-{}", base, std::process::id(), n));
        let _ = std::fs::remove_dir_all(&path);
        std::fs::create_dir_all(&path).expect("scratch directory");
        Dir { path }
    }
    pub fn p(&self, rel: &str) -> String {
        self.path.join(rel).to_str().unwrap().to_string()
    }
    pub fn mkdir(&self, rel: &str) -> String {
        let p = self.p(rel);
        std::fs::create_dir_all(&p).unwrap();
        p
    }
    pub fn put(&self, rel: &str, text: &str) -> String {
        let p = self.path.join(rel);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(&p, text).unwrap();
        p.to_str().unwrap().to_string()
    }
    /// stand-in compilers under the given names
    pub fn compilers(&self, names: &[&str]) -> String {
        let d = self.mkdir("bin");
        for n in names {
            let _ = std::os::unix::fs::symlink(std::env::current_exe().unwrap(), format!("{}/{}", d, n));
        }
        d
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.path);
    }
}

/// every file below a directory with its contents; directories map to None
pub fn snapshot(d: &Path) -> BTreeMap<String, Option<Vec<u8>>> {
    fn go(base: &Path, d: &Path, out: &mut BTreeMap<String, Option<Vec<u8>>>) {
        if let Ok(rd) = std::fs::read_dir(d) {
            for e in rd.flatten() {
                let p = e.path();
                let k = p.strip_prefix(base).unwrap().to_str().unwrap().to_string();
                let t = e.file_type().unwrap();
                if t.is_dir() {
                    out.insert(k, None);
                    go(base, &p, out);
                } else if t.is_symlink() {
                    out.insert(k, Some(format!("-> {:?}", std::fs::read_link(&p).ok()).into_bytes()));
                } else {
                    out.insert(k, std::fs::read(&p).ok());
                }
            }
        }
    }
    let mut m = BTreeMap::new();
    go(d, d, &mut m);
    m
}

pub fn files(d: &str) -> BTreeMap<String, String> {
    snapshot(Path::new(d)).into_iter().filter_map(|(k, v)| v.map(|b| (k, String::from_utf8_lossy(&b).into_owned()))).collect()
}

#[derive(Default, Clone)]
pub struct Opts {
    pub env: Vec<(String, String)>,
    pub cwd: Option<String>,
    /// letters, alphabet, log file
    pub script: Option<(Vec<u32>, u32)>,
    pub preload: bool,
}
impl Opts {
    pub fn env(mut self, k: &str, v: &str) -> Opts {
        self.env.push((k.into(), v.into()));
        self
    }
}

#[derive(Clone, Debug)]
pub struct Run {
    pub stdout: String,
    pub stderr: String,
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub draws: usize,
    pub timeout: bool,
}
impl Run {
    /// standard output without the line that reports the elapsed time
    pub fn text(&self) -> String {
        self.stdout.lines().filter(|l| !l.starts_with("Elapsed time")).map(|l| format!("{}\n", l)).collect()
    }
    pub fn crashed(&self) -> bool {
        self.timeout || self.signal.is_some() || self.code == Some(101)
    }
    /// the tool says that something went wrong
    pub fn complains(&self) -> bool {
        let t = format!("{}{}", self.stdout, self.stderr).to_lowercase();
        self.code != Some(0) || ["unable", "error", "cannot", "could not", "failed"].iter().any(|w| t.contains(w))
    }
    pub fn complaints(&self) -> usize {
        format!("{}\n{}", self.stdout, self.stderr).lines().filter(|l| l.to_lowercase().contains("unable") || l.to_lowercase().contains("error")).count()
    }
    /// (algorithm, path) for each announced mutant, in order
    pub fn announced(&self) -> Vec<(String, String)> {
        let mut v = vec![];
        for l in self.stdout.lines() {
            if let Some((a, p)) = l.split_once(" used to create mutant written to ") {
                v.push((a.trim().to_string(), p.trim().to_string()));
            }
        }
        v
    }
}

pub const LIMIT: f64 = 20.0;

/// Run the tool.  Only the environment given here reaches it.
pub fn run(d: &Dir, args: &[&str], o: &Opts) -> Run {
    RUNS.fetch_add(1, Ordering::Relaxed);
    let mut c = Command::new(TOOL);
    c.args(args).env_clear().stdin(Stdio::null());
    let mut has = |k: &str| o.env.iter().any(|e| e.0 == k);
    if !has("PATH") {
        c.env("PATH", d.p("nothing"));
    }
    if !has("TMPDIR") {
        c.env("TMPDIR", d.mkdir("tmp"));
    }
    c.env("HOME", d.p("home"));
    for (k, v) in &o.env {
        c.env(k, v);
    }
    if o.preload {
        c.env("LD_PRELOAD", PRELOAD);
    }
    let log = d.p("draws.log");
    if let Some((s, n)) = &o.script {
        let _ = std::fs::remove_file(&log);
        c.env("MC_RNG_SCRIPT", format!("{}:20000:{}", n, s.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")));
        c.env("MC_RNG_LOG", &log);
    }
    c.current_dir(o.cwd.clone().unwrap_or_else(|| d.path.to_str().unwrap().to_string()));
    let of = std::fs::File::create(d.path.join(".stdout")).unwrap();
    let ef = std::fs::File::create(d.path.join(".stderr")).unwrap();
    c.stdout(of).stderr(ef);
    let mut ch = c.spawn().expect("spawn the tool");
    // set from here rather than between fork and exec, so that the fast spawn is used
    unsafe {
        let r = libc::rlimit { rlim_cur: LIMIT as u64, rlim_max: LIMIT as u64 + 1 };
        libc::prlimit(ch.id() as libc::pid_t, libc::RLIMIT_CPU, &r, std::ptr::null_mut());
        let r = libc::rlimit { rlim_cur: 2 << 30, rlim_max: 2 << 30 };
        libc::prlimit(ch.id() as libc::pid_t, libc::RLIMIT_AS, &r, std::ptr::null_mut());
        let r = libc::rlimit { rlim_cur: 256 << 20, rlim_max: 256 << 20 };
        libc::prlimit(ch.id() as libc::pid_t, libc::RLIMIT_FSIZE, &r, std::ptr::null_mut());
    }
    let t0 = std::time::Instant::now();
    let mut timeout = false;
    // processor time is limited by the kernel; this is the backstop for a tool that waits
    let st = loop {
        if t0.elapsed().as_secs_f64() < 2.0 {
            // the usual case: wait without polling
            let mut info: libc::siginfo_t = unsafe { std::mem::zeroed() };
            let mut left = 2000i32;
            let mut done = false;
            let fd = unsafe { libc::syscall(libc::SYS_pidfd_open, ch.id() as libc::c_int, 0) } as i32;
            if fd >= 0 {
                let mut pf = libc::pollfd { fd, events: libc::POLLIN, revents: 0 };
                done = unsafe { libc::poll(&mut pf, 1, left) } > 0;
                unsafe { libc::close(fd) };
                left = 0;
            }
            let _ = (&mut info, left);
            if done {
                break ch.wait().unwrap();
            }
        }
        if let Some(s) = ch.try_wait().unwrap() {
            break s;
        }
        if t0.elapsed().as_secs_f64() > 3.0 * LIMIT {
            timeout = true;
            let _ = ch.kill();
            break ch.wait().unwrap();
        }
        std::thread::sleep(std::time::Duration::from_millis(20));
    };
    if st.signal() == Some(libc::SIGXCPU) || st.signal() == Some(libc::SIGKILL) {
        timeout = true;
    }
    let rd = |n: &str| String::from_utf8_lossy(&std::fs::read(d.path.join(n)).unwrap_or_default()).into_owned();
    let r = Run {
        stdout: rd(".stdout"),
        stderr: rd(".stderr"),
        code: st.code(),
        signal: st.signal(),
        draws: std::fs::read_to_string(&log).map(|s| s.matches(',').count()).unwrap_or(0),
        timeout,
    };
    let _ = std::fs::remove_file(d.path.join(".stdout"));
    let _ = std::fs::remove_file(d.path.join(".stderr"));
    let _ = std::fs::remove_file(&log);
    r
}

pub fn ext(l: Lang) -> &'static str {
    match l {
        Lang::Sol => "sol",
        Lang::Vy => "vy",
    }
}

pub fn ast_json(l: Lang, src: &str) -> Result<Value, String> {
    match l {
        Lang::Sol => sol::parse_opt(src, true).map(|p| p.ast),
        Lang::Vy => vy::parse(src).map(|p| p.ast),
    }
}

/// the program's tokens, without comments
pub fn tokens(l: Lang, text: &str) -> Result<Vec<String>, String> {
    match l {
        Lang::Sol => sol::lex(text).map(|(t, _)| t.iter().map(|x| format!("{:?}", (&x.k, &x.s))).collect()),
        Lang::Vy => vy::lex(text).map(|(t, _)| t.iter().map(|x| format!("{:?}", x.t)).collect()),
    }
}

// ---------------------------------------------------------------------------------------------------
// Stand-in compilers: this program under the name solc*, vyper* or docker.

/// what solc understands from a command line
#[derive(Default, Debug, Clone, PartialEq)]
pub struct SolcArgs {
    pub base: Option<String>,
    pub include: Vec<String>,
    pub allow: Option<String>,
    pub remap: Vec<String>,
    pub stop_after: Option<String>,
    pub out: Option<String>,
    pub ast: bool,
    pub overwrite: bool,
    pub inputs: Vec<String>,
}
pub fn parse_solc(args: &[String]) -> Result<SolcArgs, String> {
    let mut r = SolcArgs::default();
    let mut i = 0;
    fn set(slot: &mut Option<String>, v: String, f: &str) -> Result<(), String> {
        if slot.is_some() {
            return Err(format!("option '{}' cannot be specified more than once", f));
        }
        *slot = Some(v);
        Ok(())
    }
    while i < args.len() {
        let a = args[i].clone();
        let (flag, inline) = match a.split_once('=') {
            Some((f, v)) if f.starts_with("--") => (f.to_string(), Some(v.to_string())),
            _ => (a.clone(), None),
        };
        let mut value = || -> Result<String, String> {
            if let Some(v) = &inline {
                return Ok(v.clone());
            }
            i += 1;
            args.get(i).cloned().ok_or(format!("the required argument for option '{}' is missing", flag))
        };
        match flag.as_str() {
            "--base-path" => set(&mut r.base, value()?, "--base-path")?,
            "--include-path" | "-I" => r.include.push(value()?),
            "--allow-paths" => set(&mut r.allow, value()?, "--allow-paths")?,
            "--stop-after" => set(&mut r.stop_after, value()?, "--stop-after")?,
            "-o" | "--output-dir" => set(&mut r.out, value()?, "--output-dir")?,
            "--ast-compact-json" => r.ast = true,
            "--overwrite" => r.overwrite = true,
            f if f.starts_with('-') => return Err(format!("unrecognised option '{}'", f)),
            _ if a.contains('=') => r.remap.push(a.clone()),
            _ => r.inputs.push(a.clone()),
        }
        i += 1;
    }
    Ok(r)
}

#[derive(Default, Debug, Clone, PartialEq)]
pub struct VyperArgs {
    pub root: Option<String>,
    pub format: Option<String>,
    pub out: Option<String>,
    pub inputs: Vec<String>,
}
pub fn parse_vyper(args: &[String], dash_o: bool) -> Result<VyperArgs, String> {
    let mut r = VyperArgs::default();
    let mut i = 0;
    while i < args.len() {
        let a = args[i].as_str();
        if a == "-p" || a == "-f" || (a == "-o" && dash_o) {
            i += 1;
            let v = args.get(i).cloned().ok_or(format!("expected one argument for {}", a))?;
            let slot = match a {
                "-p" => &mut r.root,
                "-f" => &mut r.format,
                _ => &mut r.out,
            };
            if slot.is_some() {
                return Err(format!("{} given twice", a));
            }
            *slot = Some(v);
        } else if a.starts_with('-') {
            return Err(format!("unrecognized arguments: {}", a));
        } else {
            r.inputs.push(a.to_string());
        }
        i += 1;
    }
    Ok(r)
}

/// one recorded compiler call
#[derive(Debug, Clone)]
pub struct Call {
    pub name: String,
    pub args: Vec<String>,
    /// contents of the input file
    pub input: Option<String>,
    /// "ast", "validate", "version", "bad"
    pub what: String,
    pub accepted: bool,
}
pub fn calls(path: &str) -> Vec<Call> {
    std::fs::read_to_string(path)
        .unwrap_or_default()
        .lines()
        .filter_map(|l| serde_json::from_str::<Value>(l).ok())
        .map(|v| Call {
            name: v["name"].as_str().unwrap_or("").into(),
            args: v["args"].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap_or("").to_string()).collect()).unwrap_or_default(),
            input: v["input"].as_str().map(|s| s.to_string()),
            what: v["what"].as_str().unwrap_or("").into(),
            accepted: v["accepted"] == json!(true),
        })
        .collect()
}

/// The stand-in compiler; returns None when this program was not started under a compiler's name.
pub fn fake_compiler() -> Option<i32> {
    let a: Vec<String> = std::env::args_os().map(|x| x.to_string_lossy().into_owned()).collect();
    let name = Path::new(&a[0]).file_name()?.to_str()?.to_string();
    if !(name.starts_with("solc") || name.starts_with("vyper") || name == "docker") {
        return None;
    }
    let log = std::env::var("MC_FAKE_LOG").ok();
    let seen = log.as_ref().map(|l| calls(l)).unwrap_or_default();
    let validations = seen.iter().filter(|c| c.what == "validate").count();
    let answers: Vec<char> = std::env::var("MC_FAKE_ANSWERS").unwrap_or_default().chars().collect();
    let record = |what: &str, input: Option<String>, accepted: bool| {
        if let Some(l) = &log {
            if let Ok(mut f) = std::fs::OpenOptions::new().create(true).append(true).open(l) {
                let _ = writeln!(f, "{}", json!({"name": name, "args": a[1..].to_vec(), "input": input, "what": what, "accepted": accepted}));
            }
        }
    };
    // the answer to a validation: script first, then whether the text is a program
    let validate = |text: Option<String>, ok: bool| -> i32 {
        let c = if answers == ['-'] { 'R' } else { answers.get(validations).copied().unwrap_or('A') };
        let acc = (c == 'A' || c == 'W') && ok;
        record("validate", text, acc);
        if acc {
            if c == 'W' {
                eprintln!("Warning: this contract may be deprecated. Error codes: none");
                println!("Error? no");
            }
            0
        } else if c == 'X' {
            2
        } else if c == 'K' {
            unsafe { libc::kill(libc::getpid(), libc::SIGKILL) };
            1
        } else {
            eprintln!("Error: rejected");
            if c == 'B' {
                let _ = std::io::stderr().write_all(&[0xff, 0xfe, 0x80]);
            }
            1
        }
    };
    if name.starts_with("solc") {
        let r = match parse_solc(&a[1..]) {
            Ok(r) => r,
            Err(e) => {
                eprintln!("{}", e);
                record("bad", None, false);
                return Some(1);
            }
        };
        let texts: Vec<Option<String>> = r.inputs.iter().map(|f| std::fs::read(f).ok().map(|b| String::from_utf8_lossy(&b).into_owned())).collect();
        if r.inputs.len() != 1 || texts[0].is_none() {
            record("bad", None, false);
            eprintln!("Error: {:?} is not found or not a single file", r.inputs);
            return Some(1);
        }
        let text = texts[0].clone();
        if r.ast {
            let p = sol::parse_opt(text.as_ref().unwrap(), true);
            record("ast", text.clone(), p.is_ok());
            return Some(match p {
                Ok(p) => {
                    if let Some(o) = &r.out {
                        let _ = std::fs::create_dir_all(o);
                        let f = format!("{}/{}_json.ast", o, Path::new(&r.inputs[0]).file_name().unwrap().to_str().unwrap());
                        if Path::new(&f).exists() && !r.overwrite {
                            eprintln!("Refusing to overwrite existing file");
                            return Some(1);
                        }
                        std::fs::write(f, p.ast.to_string()).is_err() as i32
                    } else {
                        println!("{}", p.ast);
                        0
                    }
                }
                Err(e) => {
                    eprintln!("Error: {}", e);
                    1
                }
            });
        }
        let ok = sol::parse_mutant(text.as_ref().unwrap()).is_ok();
        return Some(validate(text, ok));
    }
    let mut rest = a[1..].to_vec();
    if name == "docker" {
        if !answers.is_empty() && answers[0] == 'N' {
            return Some(127);
        }
        let p = rest.iter().position(|x| x == "vyperlang/vyper");
        match p {
            Some(p) => rest = rest[p + 1..].to_vec(),
            None => {
                record("bad", None, false);
                return Some(125);
            }
        }
    }
    let version = std::env::var("MC_FAKE_VYPER").unwrap_or_else(|_| "0.3.7+commit.6020b8b".into());
    if rest == ["--version"] {
        record("version", None, true);
        print!("{}", version.replace("\\n", "\n"));
        if !version.contains("\\n") && !version.is_empty() {
            println!();
        }
        return Some(0);
    }
    let dash_o = name == "docker" || version.split('.').next().and_then(|m| m.parse::<u32>().ok()).map_or(false, |m| m >= 3);
    let r = match parse_vyper(&rest, dash_o) {
        Ok(r) => r,
        Err(e) => {
            eprintln!("{}", e);
            record("bad", None, false);
            return Some(2);
        }
    };
    let text = if r.inputs.len() == 1 { std::fs::read(&r.inputs[0]).ok().map(|b| String::from_utf8_lossy(&b).into_owned()) } else { None };
    let text = match text {
        Some(t) => t,
        None => {
            record("bad", None, false);
            eprintln!("error: cannot read {:?}", r.inputs);
            return Some(1);
        }
    };
    if let Some(f) = &r.format {
        let p = if f == "ast" { vy::parse(&text) } else { Err("format".into()) };
        record("ast", Some(text.clone()), p.is_ok());
        return Some(match p {
            Ok(p) => match &r.out {
                Some(o) => std::fs::write(o, p.ast.to_string()).is_err() as i32,
                None => {
                    println!("{}", p.ast);
                    0
                }
            },
            Err(e) => {
                eprintln!("Error: {}", e);
                1
            }
        });
    }
    let ok = vy::parse_mutant(&text).is_ok();
    Some(validate(Some(text), ok))
}
