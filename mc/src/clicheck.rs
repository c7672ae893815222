//! C13 to C20: whole runs of the command line tool.
use crate::cli::{self, Call, Dir, Opts, Run};
use crate::run::*;
use crate::tool::Lang;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

pub const SOL: &str = "contract C { uint256 a; uint256 b; bool c; function g(uint256 x, uint256 y) public returns (uint256) { a = x * y; return a - 7; } function f(uint256 x, uint256 y) public returns (uint256) { a = x + 1; b = g(x, y) - 2; if (x < y) { a = 3; b = x / 4; } c = a > 5 && !c; return b % 6; } }\n";
pub const VY: &str = "a: uint256\nb: uint256\nc: bool\n\n@internal\ndef g(x: uint256, y: uint256) -> uint256:\n    self.a = x * y\n    return self.a - 7\n\n@external\ndef f(x: uint256, y: uint256) -> uint256:\n    self.a = x + 1\n    self.b = self.g(x, y) - 2\n    if x < y:\n        self.a = 3\n        self.b = x / 4\n    self.c = self.a > 5 and not self.c\n    return self.b % 6\n";

pub fn src(l: Lang) -> &'static str {
    match l {
        Lang::Sol => SOL,
        Lang::Vy => VY,
    }
}
pub fn ast_of(l: Lang, s: &str) -> String {
    cli::ast_json(l, s).unwrap_or_else(|e| panic!("{}: {}", s, e)).to_string()
}
pub fn other(l: Lang) -> Lang {
    match l {
        Lang::Sol => Lang::Vy,
        Lang::Vy => Lang::Sol,
    }
}

/// a way to hand a program to the tool
#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum Form {
    Ast,
    Source,
}
pub const INPUTS: [(Lang, Form); 4] = [(Lang::Sol, Form::Ast), (Lang::Vy, Form::Ast), (Lang::Sol, Form::Source), (Lang::Vy, Form::Source)];

pub fn contents(l: Lang, f: Form) -> String {
    match f {
        Form::Ast => ast_of(l, src(l)),
        Form::Source => src(l).to_string(),
    }
}
pub fn input_name(l: Lang, f: Form) -> String {
    match f {
        Form::Ast => format!("p{}.ast", cli::ext(l)),
        Form::Source => format!("p.{}", cli::ext(l)),
    }
}

/// Run with stand-in compilers on the PATH; returns the run and the recorded compiler calls.
pub fn go(d: &Dir, args: &[String], o: &Opts) -> (Run, Vec<Call>) {
    let log = d.p("calls.log");
    let _ = std::fs::remove_file(&log);
    let mut o = o.clone();
    if !o.env.iter().any(|e| e.0 == "PATH") {
        let p = d.compilers(&["solc", "vyper"]);
        o = o.env("PATH", &p);
    }
    let o = o.env("MC_FAKE_LOG", &log);
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let r = cli::run(d, &a, &o);
    let c = cli::calls(&log);
    let _ = std::fs::remove_file(&log);
    (r, c)
}

pub fn strs(a: &[&str]) -> Vec<String> {
    a.iter().map(|s| s.to_string()).collect()
}

/// what a run left in a directory, and what it said, with the directory's name taken out
#[derive(Clone, PartialEq, Debug)]
pub struct Result_ {
    pub files: BTreeMap<String, String>,
    pub said: String,
}

pub fn crashed(r: &Run) -> Option<String> {
    if r.crashed() {
        Some(format!("the tool crashed or hung (code {:?}, signal {:?}, timeout {})\n{}", r.code, r.signal, r.timeout, clip(&r.stderr, 600)))
    } else {
        None
    }
}

pub fn diff(a: &BTreeMap<String, String>, b: &BTreeMap<String, String>) -> Option<String> {
    for (k, v) in a {
        match b.get(k) {
            None => return Some(format!("{} is missing", k)),
            Some(w) if w != v => return Some(format!("{} differs:\n--- expected\n{}\n--- got\n{}", k, clip(v, 700), clip(w, 700))),
            _ => {}
        }
    }
    for k in b.keys() {
        if !a.contains_key(k) {
            return Some(format!("{} is there unexpectedly", k));
        }
    }
    None
}

pub fn finish_notes(ctx: &Ctx, states: u64, bounds: &str, rule: &str) {
    let r = cli::RUNS.load(std::sync::atomic::Ordering::Relaxed);
    ctx.note("states", json!(states));
    ctx.note("transitions", json!(r));
    ctx.note("traces_validated_against_impl", json!(r));
    ctx.note("runs of the tool", json!(r));
    ctx.note("distinct_nontrivial", json!(states));
    ctx.note("bounds", json!(bounds));
    ctx.note("rule", json!(rule));
}

// ---------------------------------------------------------------------------------------------------
// C13

struct C13 {
    lang: Lang,
    form: Form,
    seed: u64,
    n: usize,
    sel: Vec<&'static str>,
}

pub fn c13(ctx: &Ctx) {
    let mut cases = vec![];
    let seeds: Vec<u64> = if ctx.thorough { vec![0, 1, 2, 3, 7, 42, 255, 1 << 31, 1 << 32, (1 << 63) - 1] } else { vec![0, 1, 42, (1 << 63) - 1] };
    let ns: &[usize] = if ctx.thorough { &[1, 4, 12, 40] } else { &[1, 12] };
    for (lang, form) in INPUTS {
        for s in &seeds {
            for n in ns {
                for sel in [vec![], vec!["ArithmeticBinaryOp", "SwapLines"], vec!["Integer"]] {
                    if !ctx.thorough && *n == 1 && !sel.is_empty() {
                        continue;
                    }
                    cases.push(C13 { lang, form, seed: *s, n: *n, sel });
                }
            }
        }
    }
    let name = |c: &C13| format!("{:?} {:?} seed {} n {} {:?}", c.lang, c.form, c.seed, c.n, c.sel);
    ctx.sample(json!(name(&cases[1])));
    ctx.sample(json!({"program": SOL}));
    let vars = std::sync::atomic::AtomicU64::new(0);
    let hashes = if ctx.thorough { 24 } else { 6 };
    ctx.run_limit(&cases, 600, |c| name(c), |c| {
        let fname = input_name(c.lang, c.form);
        let text = contents(c.lang, c.form);
        let opts = |seed: Option<u64>| -> Vec<String> {
            let mut v = strs(&["--num-mutants", &c.n.to_string()]);
            if let Some(s) = seed {
                v.extend(strs(&["--rng-seed", &s.to_string()]));
            }
            if c.sel.is_empty() {
                v.push("-a".into());
            }
            for s in &c.sel {
                v.extend(strs(&["--mutation", s]));
            }
            v
        };
        // the mutants of one input file: contents by number, and the algorithm announced for each
        let mutants = |out: &str, base: &str, r: &Run| -> (BTreeMap<String, String>, Vec<String>) {
            let f = cli::files(out);
            let pre = format!("{}_", base);
            let m = f.into_iter().filter(|(k, _)| k.starts_with(&pre)).map(|(k, v)| (k[pre.len()..].to_string(), v)).collect();
            let a = r.announced().into_iter().filter(|(_, p)| std::path::Path::new(p).file_name().and_then(|x| x.to_str()).map_or(false, |x| x.starts_with(&pre))).map(|x| x.0).collect();
            (m, a)
        };
        let d0 = Dir::new();
        let f0 = d0.put(&fname, &text);
        let mut a = strs(&["mutate", "-f", &f0, "-o", &d0.p("out")]);
        a.extend(opts(Some(c.seed)));
        let (r0, _) = go(&d0, &a, &Opts::default());
        if crashed(&r0).is_some() {
            return Ok(()); // judged by C09
        }
        let want = mutants(&d0.p("out"), &fname, &r0);
        if want.0.is_empty() {
            return Err(Viol { key: name(c), detail: format!("no mutants: {}{}", r0.stdout, r0.stderr) });
        }
        let bad = |what: &str, e: String| Err(Viol { key: format!("{} | {}", name(c), what), detail: e });
        let said = |r: &Run, d: &Dir| r.text().replace(d.path.to_str().unwrap(), "@");
        let mut variants: Vec<(String, Box<dyn Fn(&Dir) -> (Run, String, String)>)> = vec![];
        let plain = |d: &Dir, o: &Opts| -> (Run, String, String) {
            let f = d.put(&fname, &text);
            let mut a = strs(&["mutate", "-f", &f, "-o", &d.p("out")]);
            a.extend(opts(Some(c.seed)));
            let (r, _) = go(d, &a, o);
            (r, d.p("out"), fname.clone())
        };
        variants.push(("again".into(), Box::new(move |d| plain(d, &Opts::default()))));
        for h in 1..=hashes {
            variants.push((format!("hash seed {}", h), Box::new(move |d| plain(d, &Opts { preload: true, ..Default::default() }.env("MC_HASH_SEED", &h.to_string())))));
        }
        for t in ["0", "1", "1700000000", "4102444800"] {
            variants.push((format!("time {}", t), Box::new(move |d| plain(d, &Opts { preload: true, ..Default::default() }.env("MC_TIME", t)))));
        }
        for (k, v) in [("RUST_LOG", "debug"), ("LANG", "tr_TR.UTF-8"), ("HOME", "/"), ("TZ", "Pacific/Kiritimati"), ("USER", "x"), ("COLUMNS", "10")] {
            variants.push((format!("{}={}", k, v), Box::new(move |d| plain(d, &Opts::default().env(k, v)))));
        }
        variants.push((
            "other temporary directory".into(),
            Box::new(move |d| {
                let t = d.mkdir("some where");
                plain(d, &Opts::default().env("TMPDIR", &t))
            }),
        ));
        variants.push((
            "other working directory".into(),
            Box::new(move |d| {
                let w = d.mkdir("work/deep");
                plain(d, &Opts { cwd: Some(w), ..Default::default() })
            }),
        ));
        variants.push((
            "twice into the same directory".into(),
            Box::new(move |d| {
                plain(d, &Opts::default());
                plain(d, &Opts::default())
            }),
        ));
        for (nm, e) in [("relative paths", vec![]), ("options first", vec!["first"]), ("print original", vec!["--print-original"]), ("save config", vec!["--save-config-files"])] {
            let (fname, text, opts) = (&fname, &text, &opts);
            variants.push((
                nm.into(),
                Box::new(move |d| {
                    d.put(fname, text);
                    let mut a = strs(&["mutate"]);
                    if e == ["first"] {
                        a.extend(opts(Some(c.seed)));
                    }
                    a.extend(strs(&["-o", "out", "-f", fname]));
                    if e != ["first"] {
                        a.extend(opts(Some(c.seed)));
                        a.extend(strs(&e));
                    }
                    let (r, _) = go(d, &a, &Opts::default());
                    (r, d.p("out"), fname.clone())
                }),
            ));
        }
        {
            let (text, opts) = (&text, &opts);
            let nn = format!("renamed {}.{}", "x", if c.form == Form::Ast { "json" } else { cli::ext(c.lang) });
            variants.push((
                "same content, other name".into(),
                Box::new(move |d| {
                    let f = d.put(&nn, text);
                    let mut a = strs(&["mutate", "-f", &f, "-o", &d.p("out")]);
                    a.extend(opts(Some(c.seed)));
                    let (r, _) = go(d, &a, &Opts::default());
                    (r, d.p("out"), nn.clone())
                }),
            ));
        }
        // other inputs
        for k in 0..7 {
            for before in [true, false] {
                let (fname, text, opts) = (&fname, &text, &opts);
                variants.push((
                    format!("with another input, kind {}, {}", k, if before { "before" } else { "after" }),
                    Box::new(move |d| {
                        let f = d.put(fname, text);
                        let ol = other(c.lang);
                        let e = match k {
                            0 => d.p("missing.sol"),
                            1 => d.put("garbage.sol", "this is not a program"),
                            2 => d.put("q.ast", &ast_of(ol, src(ol))),
                            3 => d.put("q2.ast", &ast_of(c.lang, src(c.lang))),
                            4 => {
                                let q = d.put("q3.ast", &ast_of(c.lang, src(c.lang)));
                                d.put("cfg.mgnx", &json!({"language": lang_name(c.lang), "filenames": [q], "seed": 99, "num-mutants": 3, "mutations": ["Integer"]}).to_string())
                            }
                            5 => d.put("bad.mgnx", "{ \"language\": "),
                            _ => d.put(&format!("q4.{}", cli::ext(ol)), src(ol)),
                        };
                        let mut a = strs(&["mutate", "-o", &d.p("out")]);
                        for x in if before { [&e, &f] } else { [&f, &e] } {
                            a.extend(strs(&["-f", x]));
                        }
                        a.extend(opts(Some(c.seed)));
                        let (r, _) = go(d, &a, &Opts::default());
                        (r, d.p("out"), fname.clone())
                    }),
                ));
            }
        }
        let same_words = ["again", "hash", "time", "RUST", "LANG", "HOME", "TZ", "USER", "COLU", "other "];
        for (what, v) in &variants {
            let d = Dir::new();
            vars.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            let (r, out, base) = v(&d);
            if let Some(e) = crashed(&r) {
                return bad(what, e);
            }
            let got = mutants(&out, &base, &r);
            if let Some(e) = diff(&want.0, &got.0) {
                return bad(what, e);
            }
            if got.1 != want.1 {
                return bad(what, format!("announced {:?}, expected {:?}", got.1, want.1));
            }
            if same_words.iter().any(|w| what.starts_with(w)) && said(&r, &d) != said(&r0, &d0) {
                return bad(what, format!("the announcements differ\n{}\n---\n{}", said(&r0, &d0), said(&r, &d)));
            }
        }
        // standard output
        {
            let d = Dir::new();
            let f = d.put(&fname, &text);
            let mut a = strs(&["mutate", "-f", &f, "--stdout"]);
            a.extend(opts(Some(c.seed)));
            let (r, _) = go(&d, &a, &Opts::default());
            let mut all = String::new();
            for i in 0..want.0.len() {
                all += want.0.get(&format!("{}.{}", i, cli::ext(c.lang))).map(|s| s.as_str()).unwrap_or("?");
            }
            if !r.stdout.contains(&all) {
                return bad("stdout", format!("standard output does not hold the same mutants\n{}\n---\n{}", all, r.stdout));
            }
        }
        // without a seed: the saved configuration reproduces the run
        if c.seed < 2 {
            for t in ["0", "1700000000", "1700000001"] {
                let d = Dir::new();
                let f = d.put(&fname, &text);
                let mut a = strs(&["mutate", "-f", &f, "-o", &d.p("out"), "--save-config-files"]);
                a.extend(opts(None));
                if c.seed == 1 {
                    a.extend(strs(&["--rng-seed=-1"]));
                }
                let (r, _) = go(&d, &a, &Opts { preload: true, ..Default::default() }.env("MC_TIME", t));
                let w = mutants(&d.p("out"), &fname, &r);
                let stem = fname.rsplit_once('.').unwrap().0;
                let cfg = d.p(&format!("out/{}.mgnx", stem));
                let v: Value = std::fs::read_to_string(&cfg).ok().and_then(|s| serde_json::from_str(&s).ok()).unwrap_or(Value::Null);
                let seed = match v["seed"].as_u64() {
                    Some(s) => s,
                    None => return bad("no seed", format!("no seed saved in {}: {}", cfg, v)),
                };
                std::fs::rename(&cfg, d.p("saved.mgnx")).unwrap();
                for how in ["config", "option"] {
                    if how == "option" && seed > i64::MAX as u64 {
                        continue;
                    }
                    let _ = std::fs::remove_dir_all(d.p("out"));
                    let a2 = if how == "config" {
                        strs(&["mutate", "-f", &d.p("saved.mgnx")])
                    } else {
                        let mut a = strs(&["mutate", "-f", &f, "-o", &d.p("out")]);
                        a.extend(opts(Some(seed)));
                        a
                    };
                    let (r2, _) = go(&d, &a2, &Opts::default());
                    let g = mutants(&d.p("out"), &fname, &r2);
                    if let Some(e) = diff(&w.0, &g.0) {
                        return bad(&format!("seed saved at time {} replayed by {}", t, how), e);
                    }
                    if w.1 != g.1 {
                        return bad(&format!("seed saved at time {} replayed by {}", t, how), format!("{:?} {:?}", w.1, g.1));
                    }
                    vars.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                }
            }
        }
        Ok(())
    });
    let v = vars.load(std::sync::atomic::Ordering::Relaxed);
    finish_notes(ctx, v, "the listed inputs x seeds x counts x selections, each under every listed environment (hash seeds, clock, environment variables, directories, option order, other inputs before and after, repeated output, saved seed)", "a state is an (input, options, environment) combination; a transition is one run of the built tool");
    ctx.assume("the process's sources of variation are those listed: hash keys (getrandom), clock, environment, directories, other inputs");
}

pub fn lang_name(l: Lang) -> &'static str {
    match l {
        Lang::Sol => "Solidity",
        Lang::Vy => "Vyper",
    }
}

// ---------------------------------------------------------------------------------------------------
// C14

struct C14 {
    lang: Lang,
    form: Form,
    n: usize,
    answers: String,
    /// 0 no docker, 1 both, 2 docker only
    docker: u8,
    stop: bool,
    seed: u64,
    via_config: bool,
    absent: bool,
    stdout: bool,
}

fn words(alpha: &[char], k: usize) -> Vec<String> {
    let mut v = vec![String::new()];
    for _ in 0..k {
        v = v.iter().flat_map(|w| alpha.iter().map(move |c| format!("{}{}", w, c))).collect();
    }
    v
}

pub fn c14(ctx: &Ctx) {
    let mut cases = vec![];
    let mut pats: BTreeSet<String> = BTreeSet::new();
    for k in 0..=(if ctx.thorough { 7 } else { 4 }) {
        pats.extend(words(&['A', 'R'], k));
    }
    for k in 0..=(if ctx.thorough { 4 } else { 2 }) {
        pats.extend(words(&['A', 'W', 'R', 'X', 'K', 'B'], k));
    }
    for c in ['R', 'X', 'K', 'B'] {
        pats.insert(c.to_string().repeat(2000));
    }
    let seeds: &[u64] = if ctx.thorough { &[1, 2, 3] } else { &[1] };
    for (lang, form) in INPUTS {
        for p in &pats {
            for seed in seeds {
                for n in 1..=3 {
                    for docker in [0u8, 1, 2] {
                        for stop in [false, true] {
                            if docker > 0 && lang == Lang::Sol || stop && lang == Lang::Vy {
                                continue;
                            }
                            if p.len() > 100 && n > 1 {
                                continue;
                            }
                            if !ctx.thorough && form == Form::Ast && n == 2 {
                                continue;
                            }
                            cases.push(C14 { lang, form, n, answers: p.clone(), docker, stop, seed: *seed, via_config: p.len() % 2 == 1, absent: false, stdout: false });
                            if docker == 0 && !stop && (ctx.thorough || n == 3) {
                                cases.push(C14 { lang, form, n, answers: p.clone(), docker, stop, seed: *seed, via_config: false, absent: false, stdout: true });
                            }
                        }
                    }
                }
            }
        }
        // longer histories
        let mut long: Vec<String> = vec!["A".repeat(40), "RA".repeat(30), "RRA".repeat(30), "AAR".repeat(20), "AW".repeat(20), "XAKB".repeat(20), "RRRRRRRRRRA".repeat(8)];
        for k in [5, 9, 10, 11, 20, 48, 49, 50, 51, 60, 100] {
            long.push(format!("{}A", "R".repeat(k)));
            long.push(format!("A{}A", "R".repeat(k)));
            long.push(format!("{}{}", "A".repeat(k.min(20)), "R".repeat(300)));
        }
        for p in &long {
            for n in [3usize, 10, 12, 25] {
                if ctx.thorough || (n != 10) {
                    cases.push(C14 { lang, form, n, answers: p.clone(), docker: 0, stop: false, seed: 1, via_config: n % 2 == 1, absent: false, stdout: false });
                }
            }
        }
        if form == Form::Ast {
            for n in 1..=3 {
                for via_config in [false, true] {
                    cases.push(C14 { lang, form, n, answers: String::new(), docker: 0, stop: false, seed: 1, via_config, absent: true, stdout: false });
                }
            }
        }
    }
    let name = |c: &C14| format!("{:?} {:?} n {} answers {} docker {} stop-after {} seed {} config {} compiler {}{}", c.lang, c.form, c.n, clip(&c.answers, 12), c.docker, c.stop, c.seed, c.via_config, !c.absent, if c.stdout { " stdout" } else { "" });
    ctx.sample(json!(name(&cases[7])));
    ctx.sample(json!(name(&cases[cases.len() / 2])));
    let written = std::sync::atomic::AtomicU64::new(0);
    let asked = std::sync::atomic::AtomicU64::new(0);
    ctx.run_limit(&cases, 300, |c| name(c), |c| {
        let d = Dir::new();
        let fname = input_name(c.lang, c.form);
        let f = d.put(&fname, &contents(c.lang, c.form));
        let bin = if c.absent {
            d.mkdir("empty")
        } else if c.docker == 1 {
            d.compilers(&["solc", "vyper", "docker"])
        } else if c.docker == 2 {
            d.compilers(&["solc", "docker"])
        } else {
            d.compilers(&["solc", "vyper"])
        };
        let mut a = strs(&["mutate", "-a"]);
        if c.via_config {
            let mut v = json!({"language": lang_name(c.lang), "filenames": [f], "num-mutants": c.n, "seed": c.seed, "validate-mutants": true, "output-directory": d.p("out")});
            if c.stop {
                v["compiler-details"] = json!({"stop-after": "parsing"});
            }
            a.extend(strs(&["-f", &d.put("c.mgnx", &v.to_string())]));
        } else {
            a.extend(strs(&["-f", &f, "--num-mutants", &c.n.to_string(), "--rng-seed", &c.seed.to_string(), "--validate-mutants"]));
            if c.stdout {
                a.push("--stdout".into());
            } else {
                a.extend(strs(&["-o", &d.p("out")]));
            }
            if c.stop {
                a.extend(strs(&["--solidity-stop-after", "parsing"]));
            }
        }
        let (r, calls) = go(&d, &a, &Opts::default().env("PATH", &bin).env("MC_FAKE_ANSWERS", &c.answers));
        let bad = |e: String| Err(Viol { key: name(c), detail: format!("{}\n--- output\n{}", e, clip(&r.stdout, 1500)) });
        if let Some(e) = crashed(&r) {
            return bad(e);
        }
        let files = cli::files(&d.p("out"));
        let ann = r.announced();
        written.fetch_add(files.len() as u64, std::sync::atomic::Ordering::Relaxed);
        let val: Vec<&Call> = calls.iter().filter(|c| c.what == "validate").collect();
        asked.fetch_add(val.len() as u64, std::sync::atomic::Ordering::Relaxed);
        if c.stdout {
            // what is printed is what the compiler accepted, in that order, and nothing else
            let squeeze = |s: &str| s.split_whitespace().collect::<Vec<_>>().join(" ");
            if !files.is_empty() {
                return bad("files are written".into());
            }
            let acc = val.iter().filter(|v| v.accepted).count();
            let all_bad = c.answers.split(['A', 'W']).map(|x| x.len()).max().unwrap_or(0) > 30;
            if acc > c.n || !all_bad && acc != c.n {
                return bad(format!("{} mutants requested, compiler accepted {}", c.n, acc));
            }
            let said = squeeze(&r.stdout);
            let mut at = 0;
            for t in val.iter().filter(|v| v.accepted).filter_map(|v| v.input.as_deref()) {
                match said[at..].find(&squeeze(t)) {
                    Some(k) => at += k + squeeze(t).len(),
                    None => return bad(format!("a mutant the compiler accepted is not printed:\n{}", t)),
                }
            }
            let head = if c.lang == Lang::Sol { "contract C {" } else { "def f(" };
            if said.matches(head).count() != acc {
                return bad(format!("{} programs printed, the compiler accepted {}", said.matches(head).count(), acc));
            }
            return Ok(());
        }
        if files.len() > c.n {
            return bad(format!("{} mutants written, {} requested", files.len(), c.n));
        }
        if c.absent && !files.is_empty() {
            return bad(format!("no compiler can be run, but {} mutants are written", files.len()));
        }
        if ann.len() != files.len() {
            return bad(format!("{} mutants announced, {} files", ann.len(), files.len()));
        }
        for i in 0..files.len() {
            let k = format!("{}_{}.{}", fname, i, cli::ext(c.lang));
            let t = match files.get(&k) {
                Some(t) => t,
                None => return bad(format!("{} is missing among {:?}: a rejected candidate uses up a number", k, files.keys().collect::<Vec<_>>())),
            };
            if !val.iter().any(|v| v.accepted && v.input.as_deref() == Some(t)) {
                return bad(format!("{} was {} by the compiler\n{}", k, if val.iter().any(|v| v.input.as_deref() == Some(t)) { "rejected" } else { "never seen" }, t));
            }
        }
        // every accepted candidate counts: the program has far more mutants than fifty tries can miss
        // (unless the compiler rejects as many in a row as the tool tries)
        let all_bad = c.answers.split(['A', 'W']).map(|x| x.len()).max().unwrap_or(0) > 30;
        if !c.absent && !all_bad && files.len() != c.n {
            return bad(format!("{} mutants written, {} requested, compiler accepted {}", files.len(), c.n, val.iter().filter(|v| v.accepted).count()));
        }
        let acc: BTreeSet<&str> = val.iter().filter(|v| v.accepted).filter_map(|v| v.input.as_deref()).collect();
        let wr: BTreeSet<&str> = files.values().map(|s| s.as_str()).collect();
        if acc != wr {
            return bad("a mutant the compiler accepted was not written".into());
        }
        if !c.absent && val.is_empty() {
            return bad("the compiler was never asked".into());
        }
        Ok(())
    });
    ctx.note("validations answered", json!(asked.load(std::sync::atomic::Ordering::Relaxed)));
    ctx.note("mutants written", json!(written.load(std::sync::atomic::Ordering::Relaxed)));
    finish_notes(ctx, cases.len() as u64, "all sequences of compiler answers (accept, reject) up to length 4 (thorough 7), over six kinds of answer up to length 2 (thorough 4), always-rejecting compilers, and longer histories (up to 100 rejections, 25 mutants); languages x AST/source input x 1-3 mutants x docker present or not x stop-after; files or standard output", "a state is (input, options, sequence of compiler answers); a transition is one run of the built tool with stand-in compilers that follow the sequence");
    ctx.assume("a compiler accepts by exit status 0 and rejects otherwise");
}

pub fn run(ctx: &Ctx, prop: &str) {
    match prop {
        "C13" => c13(ctx),
        "C14" => c14(ctx),
        _ => unreachable!(),
    }
}
