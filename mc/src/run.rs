//! Exploration driver: parallel case runner, panic/hang capture, known findings, evidence.
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::os::unix::fs::FileExt;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const VERIF: &str = "/verif";

#[derive(Clone, Debug)]
pub struct Viol {
    /// stable identification of the failing input (used by the known-findings file)
    pub key: String,
    pub detail: String,
}

pub struct Known {
    pub property: String,
    pub key: String,
    pub what: String,
}

pub struct Ctx {
    pub prop: String,
    pub thorough: bool,
    pub seed: i64,
    pub level: &'static str,
    start: Instant,
    pub evals: AtomicU64,
    pub skipped: AtomicU64,
    counters: Mutex<BTreeMap<String, u64>>,
    strs: Mutex<BTreeMap<String, Value>>,
    viols: Mutex<Vec<Viol>>,
    known: Vec<Known>,
    known_hit: Mutex<HashMap<String, u64>>,
    samples: Mutex<Vec<Value>>,
    pub assumptions: Mutex<Vec<String>>,
    stop: AtomicBool,
}

pub const MAX_VIOLS: usize = 12;

impl Ctx {
    pub fn new(prop: &str, thorough: bool, level: &'static str) -> Ctx {
        let mut known = vec![];
        if let Ok(t) = std::fs::read_to_string(format!("{}/known_findings.json", VERIF)) {
            let v: Value = serde_json::from_str(&t).expect("known_findings.json");
            for e in v["findings"].as_array().unwrap() {
                if e["property"] == prop {
                    known.push(Known {
                        property: prop.into(),
                        key: e["key"].as_str().unwrap().into(),
                        what: e["what"].as_str().unwrap().into(),
                    });
                }
            }
        }
        Ctx {
            prop: prop.into(),
            thorough,
            seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
            level,
            start: Instant::now(),
            evals: AtomicU64::new(0),
            skipped: AtomicU64::new(0),
            counters: Mutex::new(BTreeMap::new()),
            strs: Mutex::new(BTreeMap::new()),
            viols: Mutex::new(vec![]),
            known,
            known_hit: Mutex::new(HashMap::new()),
            samples: Mutex::new(vec![]),
            assumptions: Mutex::new(vec![]),
            stop: AtomicBool::new(false),
        }
    }
    pub fn count(&self, name: &str, n: u64) {
        *self.counters.lock().unwrap().entry(name.into()).or_insert(0) += n;
    }
    pub fn note(&self, name: &str, v: Value) {
        self.strs.lock().unwrap().insert(name.into(), v);
    }
    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.into());
    }
    pub fn sample(&self, v: Value) {
        let mut s = self.samples.lock().unwrap();
        if s.len() < 6 {
            s.push(v);
        }
    }
    pub fn stopped(&self) -> bool {
        self.stop.load(Ordering::Relaxed)
    }
    pub fn violation(&self, v: Viol) {
        for k in &self.known {
            if k.key == v.key {
                *self.known_hit.lock().unwrap().entry(k.key.clone()).or_insert(0) += 1;
                return;
            }
        }
        let mut l = self.viols.lock().unwrap();
        if l.iter().any(|x| x.key == v.key) {
            return;
        }
        if l.len() < MAX_VIOLS {
            l.push(v);
        }
        if l.len() >= MAX_VIOLS {
            self.stop.store(true, Ordering::Relaxed);
        }
    }
    pub fn n_viols(&self) -> usize {
        self.viols.lock().unwrap().len()
    }

    /// Run `f` on every case, in parallel.  A panic inside `f` that f does not handle is an engine error.
    pub fn run<T: Sync>(&self, cases: &[T], desc: impl Fn(&T) -> String + Sync, f: impl Fn(&T) -> Result<(), Viol> + Sync) {
        self.run_limit(cases, 60, desc, f)
    }
    pub fn run_limit<T: Sync>(&self, cases: &[T], hang_s: u64, desc: impl Fn(&T) -> String + Sync, f: impl Fn(&T) -> Result<(), Viol> + Sync) {
        let nthreads = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(8);
        let next = AtomicUsize::new(0);
        let cur: Vec<(Mutex<Option<(Instant, usize)>>,)> = (0..nthreads).map(|_| (Mutex::new(None),)).collect();
        let done = AtomicBool::new(false);
        std::thread::scope(|sc| {
            let mut hs = vec![];
            for t in 0..nthreads {
                let next = &next;
                let cur = &cur;
                let f = &f;
                let desc = &desc;
                let h = std::thread::Builder::new()
                    .stack_size(256 << 20)
                    .spawn_scoped(sc, move || {
                        let file = crash_file(t);
                        loop {
                            if self.stopped() {
                                break;
                            }
                            let i = next.fetch_add(1, Ordering::Relaxed);
                            if i >= cases.len() {
                                break;
                            }
                            *cur[t].0.lock().unwrap() = Some((Instant::now(), i));
                            if let Some(fh) = &file {
                                let mut d = desc(&cases[i]).into_bytes();
                                d.truncate(60000);
                                d.push(0);
                                let _ = fh.write_all_at(&d, 0);
                            }
                            self.evals.fetch_add(1, Ordering::Relaxed);
                            if let Err(v) = f(&cases[i]) {
                                self.violation(v);
                            }
                        }
                        *cur[t].0.lock().unwrap() = None;
                        if let Some(fh) = &file {
                            let _ = fh.write_all_at(&[0], 0);
                        }
                    })
                    .unwrap();
                hs.push(h);
            }
            let done = &done;
            let cur = &cur;
            let desc = &desc;
            let wd = std::thread::Builder::new()
                .spawn_scoped(sc, move || {
                    while !done.load(Ordering::Relaxed) {
                        std::thread::sleep(Duration::from_millis(100));
                        for c in cur {
                            let g = *c.0.lock().unwrap();
                            if let Some((t0, i)) = g {
                                if t0.elapsed() > Duration::from_secs(hang_s) {
                                    self.violation(Viol { key: format!("hang:{}", desc(&cases[i])), detail: format!("no result within {} s", hang_s) });
                                    let rc = self.finish();
                                    std::process::exit(if rc == 0 { 1 } else { rc });
                                }
                            }
                        }
                    }
                })
                .unwrap();
            let mut bad = false;
            for h in hs {
                if h.join().is_err() {
                    bad = true;
                }
            }
            done.store(true, Ordering::Relaxed);
            wd.join().unwrap();
            if bad {
                eprintln!("engine error: a harness thread panicked");
                std::process::exit(3);
            }
        });
    }

    /// Write evidence, print verdict lines, return the exit code.
    pub fn finish(&self) -> i32 {
        let viols = self.viols.lock().unwrap().clone();
        let mut cov = serde_json::Map::new();
        for (k, v) in self.counters.lock().unwrap().iter() {
            cov.insert(k.clone(), json!(v));
        }
        for (k, v) in self.strs.lock().unwrap().iter() {
            cov.insert(k.clone(), v.clone());
        }
        let ev = self.evals.load(Ordering::Relaxed);
        cov.insert("evaluations".into(), json!(ev));
        cov.insert("skipped".into(), json!(self.skipped.load(Ordering::Relaxed)));
        cov.entry("distinct_nontrivial".to_string()).or_insert(json!(ev - self.skipped.load(Ordering::Relaxed).min(ev)));
        cov.entry("rule".to_string()).or_insert(json!("see DESIGN.md"));
        cov.insert("exhaustive".into(), json!(!self.stopped()));
        cov.insert("samples".into(), Value::Array(self.samples.lock().unwrap().clone()));
        let e = json!({
            "property": self.prop, "tier": if self.thorough {"thorough"} else {"quick"}, "seed": self.seed, "level": self.level,
            "coverage": cov, "wall_s": self.start.elapsed().as_secs_f64(), "violations": viols.len(),
            "assumptions": *self.assumptions.lock().unwrap(),
        });
        let _ = std::fs::create_dir_all(format!("{}/evidence/replay", VERIF));
        if let Err(e) = std::fs::write(format!("{}/evidence/{}.json", VERIF, self.prop), serde_json::to_string_pretty(&e).unwrap()) {
            eprintln!("cannot write evidence: {}", e);
            return 3;
        }
        for k in &self.known {
            let hits = self.known_hit.lock().unwrap().get(&k.key).copied().unwrap_or(0);
            if hits > 0 {
                println!("KNOWN-FINDING: property={} {}", k.property, k.what);
            }
        }
        println!("{}: {} evaluations, {} violations, {:.1} s", self.prop, ev, viols.len(), self.start.elapsed().as_secs_f64());
        if viols.is_empty() {
            return 0;
        }
        for (i, v) in viols.iter().enumerate() {
            let path = format!("{}/evidence/replay/{}-{}.txt", VERIF, self.prop, i);
            let _ = std::fs::write(&path, format!("property: {}\ncase: {}\n{}\n", self.prop, v.key, v.detail));
            println!("VIOLATION property={} replay={}", self.prop, path);
            if i < 5 {
                println!("  case: {}", clip(&v.key, 400));
                println!("  {}", clip(&v.detail, 900).replace('\n', "\n  "));
            }
        }
        1
    }
}

pub fn clip(s: &str, n: usize) -> String {
    if s.chars().count() > n {
        s.chars().take(n).collect::<String>() + "…"
    } else {
        s.to_string()
    }
}

fn crash_file(t: usize) -> Option<std::fs::File> {
    let d = std::env::var("MC_CRASH_DIR").ok()?;
    std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(format!("{}/cur{}", d, t)).ok()
}

/// Run this program again as a worker; turn an abnormal death into a violation of the property.
pub fn supervise(prop: &str, thorough: bool) -> i32 {
    let dir = format!("{}/scratch/crash-{}-{}", VERIF, prop, std::process::id());
    let _ = std::fs::create_dir_all(&dir);
    let mut c = std::process::Command::new(std::env::current_exe().unwrap());
    c.arg("worker").arg(prop).arg(if thorough { "thorough" } else { "quick" }).env("MC_CRASH_DIR", &dir);
    use std::os::unix::process::{CommandExt, ExitStatusExt};
    unsafe {
        c.pre_exec(|| {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            // runaway output of the code under test ends in an allocation failure, not in the kernel's OOM killer
            let r = libc::rlimit { rlim_cur: 12 << 30, rlim_max: 12 << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &r);
            Ok(())
        });
    }
    let st = c.status().expect("spawn worker");
    let rc = if let Some(sig) = st.signal() {
        if sig == libc::SIGKILL || sig == libc::SIGTERM {
            3
        } else {
            let ctx = Ctx::new(prop, thorough, "model_checking");
            let mut d = String::new();
            for i in 0..8 {
                if let Ok(b) = std::fs::read(format!("{}/cur{}", dir, i)) {
                    let e = b.iter().position(|x| *x == 0).unwrap_or(b.len());
                    if e > 0 {
                        d += &format!("--- in progress on thread {}:\n{}\n", i, String::from_utf8_lossy(&b[..e]));
                    }
                }
            }
            ctx.evals.fetch_add(1, Ordering::Relaxed);
            ctx.violation(Viol { key: format!("process killed by signal {}", sig), detail: d });
            ctx.finish()
        }
    } else {
        st.code().unwrap_or(3)
    };
    let _ = std::fs::remove_dir_all(&dir);
    rc
}

thread_local! {
    static PANIC_MSG: std::cell::RefCell<Option<String>> = std::cell::RefCell::new(None);
}

pub fn install_panic_hook() {
    let default = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        let m = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let quiet = CATCHING.with(|c| *c.borrow());
        if quiet {
            PANIC_MSG.with(|p| *p.borrow_mut() = Some(format!("panic at {}: {}", loc, m)));
        } else {
            default(i);
        }
    }));
}

thread_local! {
    static CATCHING: std::cell::RefCell<bool> = std::cell::RefCell::new(false);
}

/// Run code under test; a panic becomes Err(message).
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let prev = CATCHING.with(|c| std::mem::replace(&mut *c.borrow_mut(), true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    CATCHING.with(|c| *c.borrow_mut() = prev);
    r.map_err(|_| PANIC_MSG.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into()))
}
