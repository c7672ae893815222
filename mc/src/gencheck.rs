//! C06, C11, C12: whole runs of the command line tool's mutant generation, over every sequence of the
//! random draws up to a bound.
use crate::cli::{self, Dir, Opts};
use crate::explore;
use crate::model;
use crate::run::*;
use crate::tool::{self, Lang};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

pub struct Prog {
    pub lang: Lang,
    pub src: String,
    pub ast: serde_json::Value,
    pub functions: Vec<&'static str>,
    /// sites per algorithm, as the model sees them, restricted to the functions
    pub sites: BTreeMap<String, Vec<model::Site>>,
    pub original: Vec<String>,
}

pub fn sol_src(body: &str) -> String {
    format!("contract C {{ uint256 a; uint256 b; bool c; address p; function g(uint256 x, uint256 y) public returns (uint256) {{ }} function f(uint256 x, uint256 y) public returns (uint256) {{ {} }} }}", body)
}
pub fn vy_src(body: &str) -> String {
    format!("a: uint256\n\n@external\ndef f(x: uint256, y: uint256):\n{}\n", body.lines().map(|l| format!("    {}", l)).collect::<Vec<_>>().join("\n"))
}

impl Prog {
    pub fn new(lang: Lang, src: &str, functions: &[&'static str]) -> Prog {
        let ast = cli::ast_json(lang, src).unwrap_or_else(|e| panic!("{}: {}", src, e));
        let fns: Vec<String> = model::nodes(lang, &ast)
            .into_iter()
            .filter(|(_, n)| {
                let k = model::kind(lang, n);
                (k == "FunctionDefinition" || k == "FunctionDef") && functions.iter().any(|f| n["name"] == *f)
            })
            .map(|(p, _)| p)
            .collect();
        let mut sites = BTreeMap::new();
        for a in model::algorithms(lang) {
            let mut s = model::sites(lang, &ast, a);
            if !functions.is_empty() {
                s.retain(|x| fns.iter().any(|f| x.ptr == *f || x.ptr.starts_with(&format!("{}/", f))));
            }
            if !s.is_empty() {
                sites.insert(a.to_string(), s);
            }
        }
        let text = tool::print(lang, &ast).unwrap_or_default();
        let original = cli::tokens(lang, &text).unwrap_or_default();
        Prog { lang, src: src.to_string(), ast, functions: functions.to_vec(), sites, original }
    }

    /// the algorithms for which every way of using the selection leaves enough fresh mutants to find within fifty tries
    pub fn plentiful(&self, sel: &[String]) -> BTreeSet<String> {
        let mut good = BTreeSet::new();
        let orig = model::canon(self.lang, &self.ast);
        let all: Vec<(&String, usize, &model::Alt)> = sel.iter().filter_map(|a| self.sites.get(a).map(|s| (a, s))).flat_map(|(a, s)| s.iter().flat_map(move |x| x.alts.iter().map(move |t| (a, x.alts.len() * s.len(), t)))).collect();
        for a in sel {
            let s = match self.sites.get(a) {
                Some(s) => s,
                None => continue,
            };
            // masses of the distinct mutants only this algorithm makes
            let mut masses: Vec<(String, f64)> = vec![];
            let mut lost = 0.0;
            for (b, k, t) in &all {
                if *b != a {
                    continue;
                }
                let m = 1.0 / *k as f64;
                let shared = model::matches(&t.tree, &orig) || all.iter().any(|(d, _, u)| *d != a && (model::matches(&t.tree, &u.tree) || model::matches(&u.tree, &t.tree)));
                if shared || !t.required {
                    lost += m;
                    continue;
                }
                let key = t.tree.to_string();
                match masses.iter_mut().find(|x| x.0 == key) {
                    Some(x) => x.1 += m,
                    None => masses.push((key, m)),
                }
            }
            masses.sort_by(|x, y| y.1.partial_cmp(&x.1).unwrap());
            if masses.len() < s.len() {
                continue;
            }
            let used: f64 = masses.iter().take(s.len() - 1).map(|x| x.1).sum();
            if 1.0 - lost - used >= 0.3 {
                good.insert(a.clone());
            }
        }
        good
    }
}

pub fn programs(thorough: bool) -> Vec<Prog> {
    let mut v = vec![];
    let sol = [
        "a = x - x;", "g(x, x);", "g(x, x, y);", "a = 1; a = 1;", "a = 1; b = 2; a = 1;", "if (true) { a = x; }", "if (c) { a = x; } if (c) { a = x; }", "if (false) a = x; else b = x;", "a = 0;", "a = 1; b = 1;", "c = true;", "c = false; c = true;", "a = 1 + 1; b = 1 + 1;",
        "require(c);", "require(!c); require(c);", "a = g(g(x, y), g(y, x));", "a = g(x, y); b = g(x, y);", "a = x + 1; b = x - y; c = x < y;", "p.delegatecall(abi.encode(x)); p.delegatecall(abi.encode(x));", "c = !c; x++; --y;", "a = x << 1; b = x >> 1;", "a = x & y; b = x | y;", "c = c && c; c = c || c;",
        "return x;", "", "a = x ** y; b = x / y; b = y % x;", "unchecked { a = x; b = y; }", "a = x; { a = x; b = y; } b = y;", "a = 5; if (x > 5) { b = 5; }", "while (c) { a = x; c = !c; }", "c = x == x; c = x != x;", "a = (x - y) - (x - y);", "for (a = 0; a < 3; a++) { g(a, a); }", "x = -1; x = ~x;",
    ];
    for s in sol {
        v.push(Prog::new(Lang::Sol, &sol_src(s), &[]));
    }
    let vy = [
        "a = x - x", "g(x, x)", "g(x, x, y)", "a = 1\na = 1", "a = 1\nb = 2\na = 1", "if True:\n    a = x", "if c:\n    a = x\nif c:\n    a = x", "if False:\n    a = x\nelse:\n    b = x", "a = 0", "a = 1 + 1\nb = 1 + 1", "assert c", "a = g(g(x, y), g(y, x))", "a = g(x, y)\nb = g(x, y)",
        "a = x + 1\nb = x - y\nc = x < y", "c = not c\nx = -y", "a = x << 1\nb = x >> 1", "a = x & y\nb = x | y", "c = c and c\nc = c or c", "return", "pass", "a = x ** y\nb = x / y", "a = x\nif c:\n    a = x\n    b = y\nb = y", "for i in range(3):\n    a = x\n    b = y", "c = x == x\nc = x != x", "c = c and c and c", "a = x\npass",
    ];
    for s in vy {
        v.push(Prog::new(Lang::Vy, &vy_src(s), &[]));
    }
    let two = "contract C { uint256 a; uint256 b; uint256 k = 1 + 2; function f(uint256 x) public { a = x + 1; b = x - 1; } function g(uint256 x) public { a = x + 1; b = x - 1; } function h(uint256 x) public { a = x; } }";
    let twov = "a: uint256\nk: constant(uint256) = 1 + 2\n\n@external\ndef f(x: uint256):\n    a = x + 1\n    b = x - 1\n\n@external\ndef g(x: uint256):\n    a = x + 1\n    b = x - 1\n\n@external\ndef h(x: uint256):\n    a = x\n";
    for fs in [vec!["f"], vec!["g"], vec!["f", "g"], vec!["h"], vec!["absent"], vec![]] {
        v.push(Prog::new(Lang::Sol, two, &fs));
        v.push(Prog::new(Lang::Vy, twov, &fs));
    }
    v.push(Prog::new(Lang::Sol, "contract C { uint256 a; function f() public { a = 5; a = 5; } function g(uint256 x) public { a = x + 2; } function h(uint256 x) public { a = x < 8 ? x : 9; } function k(uint256 x, uint256 y) public { a = x / y; } }", &[]));
    v.push(Prog::new(Lang::Vy, "a: uint256\n\n@external\ndef f():\n    a = 5\n    a = 5\n\n@external\ndef g(x: uint256):\n    a = x + 2\n\n@external\ndef k(x: uint256, y: uint256):\n    a = x / y\n", &[]));
    if thorough {
        for i in 0..sol.len() {
            v.push(Prog::new(Lang::Sol, &sol_src(&format!("{} {}", sol[i], sol[(i * 7 + 3) % sol.len()])), &[]));
        }
        for i in 0..vy.len() {
            v.push(Prog::new(Lang::Vy, &vy_src(&format!("{}\n{}", vy[i], vy[(i * 5 + 3) % vy.len()])), &[]));
        }
    }
    v
}

/// the programs of `programs` with the choice restricted to the function that has everything
fn ways(thorough: bool) -> Vec<Prog> {
    programs(thorough).iter().filter(|p| p.functions.is_empty()).map(|p| Prog::new(p.lang, &p.src, &["f"])).collect()
}

/// programs with more sites than two digits count
fn large(thorough: bool) -> Vec<Prog> {
    let mut v = vec![];
    let mut ns = vec![104usize];
    if thorough {
        ns.push(131);
    }
    for n in ns {
        let s: String = (0..n).map(|i| format!("function f{}(uint256 x, uint256 y) public {{ a = x {} {}; }} ", i, ["+", "-", "*", "/"][i % 4], i + 100)).collect();
        v.push(Prog::new(Lang::Sol, &format!("contract C {{ uint256 a; {} }}", s), &[]));
        let s: String = (0..n).map(|i| format!("@external\ndef f{}(x: uint256, y: uint256):\n    a = x {} {}\n\n", i, ["+", "-", "*", "/"][i % 4], i + 100)).collect();
        v.push(Prog::new(Lang::Vy, &format!("a: uint256\n\n{}", s), &[]));
    }
    v
}

/// other ways to ask for the same mutants
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode {
    Plain,
    /// mutants on standard output
    Stdout,
    /// with a compiler that accepts every program
    Validate,
    /// settings in a configuration file
    Config,
    /// with the original and a configuration file written as well
    Extras,
    /// with a compiler that rejects everything
    Reject,
    /// an input file of another name
    Name(&'static str),
}

pub struct Case<'a> {
    mode: Mode,
    prog: &'a Prog,
    sel: Vec<String>,
    all: bool,
    n: usize,
    plenty: BTreeSet<String>,
    depth: usize,
}

const NAMES: &[&str] = &["p", "p.sol", "p.vy", "p.sol.ast", "p.vy.json", "a.sol.b.vy.c", "p_0", "p.sol_1", "p.sol_0.sol", "with space.ast", ".ast", "sol", "vy", "-p.ast", "p.mgnx.ast", "\u{e4}\u{4f60}.ast", "x.ast.ast", "P.SOL", "p."];

/// one observed run
struct Seen {
    texts: Vec<(String, String)>, // algorithm, contents in order
    run: cli::Run,
    problem: Option<String>,
}

fn observe(d: &Dir, c: &Case, script: Option<(Vec<u32>, u32)>, stdout: bool) -> Seen {
    let stdout = stdout || c.mode == Mode::Stdout;
    let base = if let Mode::Name(n) = c.mode { n } else { "p.ast" };
    let input = d.p(base);
    let out = d.p("out");
    let n = c.n.to_string();
    let mut o = Opts { script, ..Default::default() };
    let mut args: Vec<String> = vec!["mutate".into(), "-f".into()];
    if c.mode == Mode::Config {
        let lang = if c.prog.lang == Lang::Sol { "Solidity" } else { "Vyper" };
        let mut m = json!({"language": lang, "filenames": [&input], "num-mutants": c.n, "seed": 1, "output-directory": if stdout { "stdout" } else { &out }, "all-mutations": c.all, "functions": c.prog.functions});
        if !c.all {
            m["mutations"] = json!(c.sel);
        }
        args.push(d.put("c.mgnx", &m.to_string()));
    } else {
        args.extend([&input, "--num-mutants", &n, "--rng-seed", "1"].iter().map(|s| s.to_string()));
        if stdout {
            args.push("--stdout".into());
        } else {
            args.extend(["-o".to_string(), out.clone()]);
        }
        if c.all {
            args.push("-a".into());
        } else {
            for a in &c.sel {
                args.extend(["--mutation".to_string(), a.clone()]);
            }
        }
        for f in &c.prog.functions {
            args.extend(["--function".to_string(), f.to_string()]);
        }
    }
    match c.mode {
        Mode::Validate | Mode::Reject => {
            args.push("--validate-mutants".into());
            let bin = d.compilers(&["solc", "vyper"]);
            o = o.env("PATH", &bin);
            if c.mode == Mode::Reject {
                o = o.env("MC_FAKE_ANSWERS", "-");
            }
        }
        Mode::Extras => args.extend(["--print-original".to_string(), "--save-config-files".to_string()]),
        _ => {}
    }
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let _ = std::fs::remove_dir_all(&out);
    let r = cli::run(d, &a, &o);
    let mut files = cli::files(&out);
    if c.mode == Mode::Extras && c.sel.iter().any(|a| c.prog.sites.contains_key(a)) {
        for f in [format!("p.ast.{}", cli::ext(c.prog.lang)), "p.mgnx".to_string()] {
            files.remove(&f);
        }
    }
    let ann = r.announced();
    let mut texts = vec![];
    let mut problem = None;
    if r.crashed() {
        problem = Some(format!("the tool crashed or hung (code {:?}, signal {:?}, timeout {})\n{}", r.code, r.signal, r.timeout, clip(&r.stderr, 600)));
    } else if !stdout {
        for (i, (algo, path)) in ann.iter().enumerate() {
            let want = format!("{}_{}.{}", base, i, cli::ext(c.prog.lang));
            let p = std::path::Path::new(path);
            if p.file_name().and_then(|x| x.to_str()) != Some(want.as_str()) || p.parent() != Some(std::path::Path::new(&out)) {
                problem = Some(format!("mutant {} is announced as {}", i, path));
                break;
            }
            match files.remove(&want) {
                Some(t) => texts.push((algo.clone(), t)),
                None => {
                    problem = Some(format!("{} is announced but not there", want));
                    break;
                }
            }
        }
        if problem.is_none() && !files.is_empty() {
            problem = Some(format!("files not announced: {:?}", files.keys().collect::<Vec<_>>()));
        }
    } else {
        // each program starts with its first declaration
        let head = if c.prog.lang == Lang::Sol { "contract C " } else { "a: uint256" };
        let mut at: Vec<usize> = r.stdout.match_indices(head).map(|x| x.0).filter(|i| *i == 0 || r.stdout.as_bytes()[i - 1] == b'\n').collect();
        let end = r.stdout.rfind("Elapsed time").unwrap_or(r.stdout.len());
        at.push(end);
        texts.extend(at.windows(2).map(|w| (String::new(), r.stdout[w[0]..w[1]].to_string())));
    }
    Seen { texts, run: r, problem }
}

fn judge(prop: &str, c: &Case, s: &Seen, must_be_full: bool, matchers: &Mutex<HashMap<String, bool>>) -> Result<(), String> {
    let l = c.prog.lang;
    if prop == "C09" {
        return if s.run.crashed() { Err(s.problem.clone().unwrap_or_else(|| "crash".into())) } else { Ok(()) };
    }
    if prop == "C06" || prop == "C12" {
        if s.problem.is_some() {
            return Ok(()); // judged by C09 and C11
        }
        let toks: Vec<Vec<String>> = match s.texts.iter().map(|t| cli::tokens(l, &t.1)).collect::<Result<_, _>>() {
            Ok(t) => t,
            Err(_) => return Ok(()),
        };
        for (i, t) in toks.iter().enumerate() {
            if prop == "C06" && *t == c.prog.original {
                return Err(format!("mutant {} by {} is the original program\n{}", i, s.texts[i].0, s.texts[i].1));
            }
            for j in 0..i {
                if prop == "C12" && toks[j] == *t {
                    return Err(format!("mutants {} ({}) and {} ({}) are the same program\n{}", j, s.texts[j].0, i, s.texts[i].0, s.texts[i].1));
                }
            }
        }
        return Ok(());
    }
    if let Some(p) = &s.problem {
        return Err(p.clone());
    }
    let avail: usize = c.sel.iter().map(|a| c.prog.sites.get(a).map_or(0, |s| s.len())).sum();
    let w = s.texts.len();
    let named = c.mode != Mode::Stdout;
    if w > c.n {
        return Err(format!("{} mutants written, {} requested", w, c.n));
    }
    if avail == 0 {
        if w != 0 {
            return Err(format!("{} mutants although nothing can be mutated", w));
        }
        if !s.run.complains() {
            return Err("nothing can be mutated, but no error is reported".into());
        }
        return Ok(());
    }
    if s.run.stdout.contains("Unable") {
        return Err(format!("the run failed: {}", s.run.text()));
    }
    let mut uses: BTreeMap<&str, usize> = BTreeMap::new();
    for (i, (a, t)) in s.texts.iter().enumerate() {
        if !named {
            continue;
        }
        if !c.sel.contains(a) {
            return Err(format!("mutant {} is made by {}, which is not selected", i, a));
        }
        *uses.entry(a).or_insert(0) += 1;
        if c.depth == 0 {
            continue; // many mutants: what each is, is judged on the small programs
        }
        let key = format!("{}|{}", a, t);
        let known = matchers.lock().unwrap().get(&key).copied();
        let ok = match known {
            Some(k) => k,
            None => {
                let none = vec![];
                let mut m = explore::Matcher::new(l, c.prog.sites.get(a).unwrap_or(&none));
                let ok = matches!(m.of(t), Ok(v) if !v.is_empty());
                matchers.lock().unwrap().insert(key, ok);
                ok
            }
        };
        if !ok {
            return Err(format!("mutant {} is not what {} makes{}\n{}", i, a, if c.prog.functions.is_empty() { "" } else { " inside the named functions" }, t));
        }
    }
    for (a, u) in &uses {
        let n = c.prog.sites.get(*a).map_or(0, |s| s.len());
        if *u > n {
            return Err(format!("{} mutants by {}, which has {} sites", u, a, n));
        }
    }
    if must_be_full {
        let starved: usize = c.sel.iter().filter(|a| !c.plenty.contains(*a)).map(|a| c.prog.sites.get(a).map_or(0, |s| s.len())).sum();
        if w + starved < c.n.min(avail) {
            return Err(format!("{} mutants written; {} requested, {} sites, and enough different mutants exist for all but {} of them\n{}", w, c.n, avail, starved, s.run.text()));
        }
        if named && c.n >= avail {
            for a in &c.plenty {
                let n = c.prog.sites.get(a).map_or(0, |s| s.len());
                if uses.get(a.as_str()).copied().unwrap_or(0) != n {
                    return Err(format!("{} mutants by {}; {} requested, it has {} sites and enough different mutants exist\n{}", uses.get(a.as_str()).copied().unwrap_or(0), a, c.n, n, s.run.text()));
                }
            }
        }
    }
    Ok(())
}

pub fn run(ctx: &Ctx, prop: &str) {
    let progs = programs(ctx.thorough);
    let many: Vec<Prog> = large(ctx.thorough);
    let mut cases: Vec<Case> = vec![];
    // many mutants: numbers and names of more digits
    for p in &many {
        for a in ["ArithmeticBinaryOp", "Integer"] {
            let sel = vec![a.to_string()];
            let plenty = p.plentiful(&sel);
            let avail = p.sites.get(a).map_or(0, |s| s.len());
            let mut ns: BTreeSet<usize> = [9, 10, 11, 12, 17, 99, 100, 101, avail, avail + 1].into();
            if ctx.thorough {
                ns.extend([20, 33, 64, 65, avail - 1, avail + 30]);
            }
            for n in ns {
                cases.push(Case { mode: Mode::Plain, prog: p, sel: sel.clone(), all: false, n, plenty: plenty.clone(), depth: 0 });
            }
        }
        let sel: Vec<String> = ["ArithmeticBinaryOp", "Assignment", "SwapOperatorArguments"].iter().map(|s| s.to_string()).collect();
        for n in [11, 101, 130] {
            // their mutants are different by construction of the programs
            let plenty = sel.iter().flat_map(|a| p.plentiful(&[a.clone()])).collect();
            cases.push(Case { mode: Mode::Plain, prog: p, plenty, sel: sel.clone(), all: false, n, depth: 0 });
        }
    }
    for p in &progs {
        let with: Vec<String> = p.sites.keys().cloned().collect();
        let without: Option<String> = model::algorithms(p.lang).iter().map(|s| s.to_string()).find(|a| !p.sites.contains_key(a));
        let mut sels: Vec<(Vec<String>, bool)> = with.iter().map(|a| (vec![a.clone()], false)).collect();
        for i in 0..with.len() {
            for j in i + 1..with.len() {
                let pair = [with[i].clone(), with[j].clone()];
                // one algorithm that runs out of mutants beside one that does not
                let starving = prop == "C11" && p.plentiful(&pair).len() == 1;
                if ctx.thorough || j == i + 1 || starving {
                    sels.push((vec![with[i].clone(), with[j].clone()], false));
                }
            }
        }
        if let (Some(a), Some(b)) = (without.clone(), with.first()) {
            sels.push((vec![a, b.clone()], false));
        }
        if let Some(a) = without {
            if p.sites.is_empty() || ctx.thorough {
                sels.push((vec![a], false));
            }
        }
        sels.push((model::algorithms(p.lang).iter().map(|s| s.to_string()).collect(), true));
        for (sel, all) in sels {
            let plenty = p.plentiful(&sel);
            let avail: usize = sel.iter().map(|a| p.sites.get(a).map_or(0, |s| s.len())).sum();
            let mut ns: BTreeSet<usize> = if prop == "C06" { [1, 2].into() } else { [2, 3].into() };
            if prop == "C11" {
                ns.extend([0, 1, avail, avail + 1]);
            }
            if ctx.thorough {
                ns.extend([1, 2, 4, avail + 3]);
            }
            if avail == 0 {
                ns = [1].into();
            }
            for n in ns {
                let depth = if ctx.thorough {
                    if sel.len() == 1 && n <= 2 {
                        3
                    } else {
                        2
                    }
                } else if prop == "C11" && !(n == 2 || (n == 3 && sel.len() == 1)) {
                    1
                } else {
                    2
                };
                cases.push(Case { mode: Mode::Plain, prog: p, sel: sel.clone(), all, n, plenty: plenty.clone(), depth });
            }
        }
    }
    // the other ways to ask
    let ways: Vec<Prog> = ways(ctx.thorough);
    for p in progs.iter().chain(&ways) {
        let alone = ways.iter().any(|w| std::ptr::eq(w, p));
        let mut sels: Vec<(Vec<String>, bool)> = p.sites.keys().map(|a| (vec![a.clone()], false)).collect();
        sels.push((model::algorithms(p.lang).iter().map(|s| s.to_string()).collect(), true));
        for (sel, all) in sels {
            let plenty = p.plentiful(&sel);
            let avail: usize = sel.iter().map(|a| p.sites.get(a).map_or(0, |s| s.len())).sum();
            for mode in [Mode::Stdout, Mode::Validate, Mode::Config, Mode::Extras, Mode::Plain] {
                // (the mutants of a restricted run can be told apart on standard output)
                if (if alone { !matches!(mode, Mode::Plain | Mode::Stdout) } else { matches!(mode, Mode::Plain | Mode::Stdout) }) || avail == 0 {
                    continue;
                }
                // validation runs the compiler for each candidate
                if mode == Mode::Validate && all && !ctx.thorough {
                    continue;
                }
                for n in if ctx.thorough { vec![1, 2, avail + 1] } else { vec![if prop == "C06" { 1 } else { 2 }] } {
                    cases.push(Case { mode, prog: p, sel: sel.clone(), all, n, plenty: plenty.clone(), depth: 1 });
                }
            }
        }
    }
    // the other names of input files
    for (p, name) in [(&progs[0], 0), (progs.iter().find(|p| p.lang == Lang::Vy).unwrap(), 1)].iter().flat_map(|x| NAMES.iter().map(move |n| (x.0, *n))) {
        let sel = vec!["SwapOperatorArguments".to_string(), "ArithmeticBinaryOp".to_string()];
        for n in [1, 3] {
            cases.push(Case { mode: Mode::Name(name), prog: p, plenty: p.plentiful(&sel), sel: sel.clone(), all: false, n, depth: 1 });
        }
    }
    ctx.count("programs", progs.len() as u64);
    ctx.count("cases (program x selection x count)", cases.len() as u64);
    explore_runs(ctx, prop, &cases);
}

/// C08 at the command line: --function given every way, all mutants of the named functions asked for
pub fn run_functions(ctx: &Ctx) {
    let names = ["f", "ff", "uf", "F", "f_"];
    let s: String = names.iter().enumerate().map(|(i, n)| format!("function {}(uint256 x) public {{ a = x + {}; if (x < 3) {{ b = x * {}; }} }} ", n, i + 1, i + 2)).collect();
    let t: String = names.iter().enumerate().map(|(i, n)| format!("@external\ndef {}(x: uint256):\n    a = x + {}\n    if x < 3:\n        b = x * {}\n\n", n, i + 1, i + 2)).collect();
    let mut progs = vec![];
    for sel in 0..32u32 {
        let fs: Vec<&'static str> = (0..5).filter(|i| sel >> i & 1 == 1).map(|i| names[i]).collect();
        progs.push(Prog::new(Lang::Sol, &format!("uint256 constant k = 1 + 2; contract C {{ uint256 a = 3 + 4; uint256 b; modifier fm() {{ a = a + 1; _; }} {} }}", s), &fs));
        progs.push(Prog::new(Lang::Vy, &format!("a: uint256\nk: constant(uint256) = 3 + 4\n\n{}", t), &fs));
    }
    for fs in [vec!["f", "absent"], vec!["absent"], vec!["f", "f"], vec!["C"], vec!["a"], vec![""]] {
        progs.push(Prog::new(Lang::Sol, &format!("contract C {{ uint256 a = 3 + 4; uint256 b; {} }}", s), &fs));
        progs.push(Prog::new(Lang::Vy, &format!("a: uint256\n\n{}", t), &fs));
    }
    // long lists of names: the last, the first, every one, and names the program has not
    const MANY: [&str; 20] = ["f0", "f1", "f2", "f3", "f4", "f5", "f6", "f7", "f8", "f9", "f10", "f11", "f12", "f13", "f14", "f15", "f16", "f17", "f18", "f19"];
    let mut many = vec![];
    for len in [6usize, 9, 12, 17, 20] {
        for absent in [false, true] {
            let fs: Vec<&'static str> = (0..len).map(|i| if absent && i + 1 < len { ["z", "y", "absent", "f"][i % 4] } else { MANY[(i * 7 + len) % 20] }).collect();
            let s: String = MANY.iter().enumerate().map(|(i, n)| format!("function {}(uint256 x) public {{ a = x + {}; }} ", n, i + 1)).collect();
            many.push(Prog::new(Lang::Sol, &format!("contract C {{ uint256 a = 3 + 4; {} }}", s), &fs));
            let t: String = MANY.iter().enumerate().map(|(i, n)| format!("@external\ndef {}(x: uint256):\n    a = x + {}\n\n", n, i + 1)).collect();
            many.push(Prog::new(Lang::Vy, &format!("a: uint256\n\n{}", t), &fs));
        }
    }
    let mut cases = vec![];
    for p in &progs {
        for a in ["ArithmeticBinaryOp", "ComparisonBinaryOp", "Integer"] {
            let sel = vec![a.to_string()];
            let n = p.sites.get(a).map_or(0, |s| s.len()) + 1;
            cases.push(Case { mode: Mode::Plain, prog: p, plenty: p.plentiful(&sel), sel, all: false, n, depth: if ctx.thorough { 2 } else { 1 } });
        }
        let sel = vec!["ArithmeticBinaryOp".to_string()];
        let n = p.sites.get("ArithmeticBinaryOp").map_or(0, |s| s.len()) + 1;
        cases.push(Case { mode: Mode::Config, prog: p, plenty: p.plentiful(&sel), sel, all: false, n, depth: 1 });
    }
    for p in &many {
        for mode in [Mode::Plain, Mode::Config] {
            let sel = vec!["ArithmeticBinaryOp".to_string()];
            let n = p.sites.get("ArithmeticBinaryOp").map_or(0, |s| s.len()) + 1;
            cases.push(Case { mode, prog: p, plenty: p.plentiful(&sel), sel, all: false, n, depth: 1 });
        }
    }
    explore_runs(ctx, "C11", &cases);
}

/// C09 at the command line: every way to ask, crashes and endless runs only
pub fn run_ways(ctx: &Ctx) {
    let progs = programs(ctx.thorough);
    let mut cases = vec![];
    for p in &progs {
        let sel: Vec<String> = model::algorithms(p.lang).iter().map(|s| s.to_string()).collect();
        for mode in [Mode::Plain, Mode::Stdout, Mode::Validate, Mode::Config, Mode::Extras, Mode::Reject] {
            for n in [0, 1, 1000] {
                let first = std::ptr::eq(p, &progs[0]);
                if matches!(mode, Mode::Validate | Mode::Reject) && n > 1 && !first && !ctx.thorough {
                    continue;
                }
                cases.push(Case { mode, prog: p, sel: sel.clone(), all: true, n, plenty: BTreeSet::new(), depth: if n == 0 { 0 } else { 1 } });
            }
        }
    }
    explore_runs(ctx, "C09", &cases);
}

fn explore_runs(ctx: &Ctx, prop: &str, cases: &[Case]) {
    let depth = if ctx.thorough { 3 } else { 2 };
    let runs = AtomicU64::new(0);
    let full = AtomicU64::new(0);
    let mutants = AtomicU64::new(0);
    let distinct: Mutex<HashSet<u64>> = Mutex::new(HashSet::new());
    if let Some(c) = cases.get(cases.len() / 3) {
        ctx.sample(json!({"program": clip(&c.prog.src, 200), "algorithms": c.sel, "mutants requested": c.n}));
    }
    let name = |c: &Case| format!("{}{} | {} | n={} | {:?} | {}", if c.mode == Mode::Plain { String::new() } else { format!("{:?} | ", c.mode) }, if c.all { "all".into() } else { c.sel.join("+") }, cli::ext(c.prog.lang), c.n, c.prog.functions, c.prog.src);
    ctx.run_limit(cases, 300, |c| name(c), |c| {
        let d = Dir::new();
        d.put(if let Mode::Name(n) = c.mode { n } else { "p.ast" }, &c.prog.ast.to_string());
        let matchers = Mutex::new(HashMap::new());
        let live: usize = c.sel.iter().filter(|a| c.prog.sites.contains_key(*a)).count();
        // with one usable algorithm the draws that select it make no difference
        let skip = if live <= 1 { c.n } else { 0 };
        let sites = c.sel.iter().filter_map(|a| c.prog.sites.get(a)).map(|s| s.len()).max().unwrap_or(1);
        let n = (sites.max(3).max(live.min(4))) as u32;
        let n = n.min(6);
        let mut stack: Vec<(Vec<u32>, bool)> = vec![(vec![0; skip], true)];
        // starving sequences: the same draw over and over, longer than the tries for one mutant
        for k in 0..=n {
            if c.depth > 0 {
                stack.push((vec![k; 70], false));
            }
        }
        if prop == "C11" && c.mode == Mode::Plain {
            // the same texts on standard output
            let f = observe(&d, c, Some((vec![], n)), false);
            let o = observe(&d, c, Some((vec![], n)), true);
            runs.fetch_add(2, Ordering::Relaxed);
            let want: String = f.texts.iter().map(|t| t.1.clone()).collect();
            if f.problem.is_none() && !o.run.stdout.contains(&want) {
                return Err(Viol { key: name(c), detail: format!("--stdout does not write the same mutants\n--- files:\n{}\n--- stdout:\n{}", want, o.run.stdout) });
            }
            if !cli::files(&d.p("out")).is_empty() {
                return Err(Viol { key: name(c), detail: "--stdout writes files".into() });
            }
        }
        while let Some((s, fair)) = stack.pop() {
            if ctx.stopped() {
                return Ok(());
            }
            let seen = observe(&d, c, Some((s.clone(), n)), false);
            runs.fetch_add(1, Ordering::Relaxed);
            mutants.fetch_add(seen.texts.len() as u64, Ordering::Relaxed);
            {
                use std::hash::{Hash, Hasher};
                let mut g = distinct.lock().unwrap();
                for t in &seen.texts {
                    let mut h = std::collections::hash_map::DefaultHasher::new();
                    (&t.1, &c.prog.src).hash(&mut h);
                    g.insert(h.finish());
                }
            }
            let must = fair && !c.plenty.is_empty();
            if must {
                full.fetch_add(1, Ordering::Relaxed);
            }
            if let Err(e) = judge(prop, c, &seen, must, &matchers) {
                return Err(Viol { key: name(c), detail: format!("draws {:?} of alphabet {}\n{}", s, n, e) });
            }
            if fair && seen.run.draws > s.len() && s.len() < skip + c.depth {
                for k in (0..=n).rev() {
                    let mut t = s.clone();
                    t.push(k);
                    stack.push((t, true));
                }
            }
        }
        Ok(())
    });
    let r = runs.load(Ordering::Relaxed);
    let dn = distinct.lock().unwrap().len();
    if ctx.prop == "C08" || ctx.prop == "C09" {
        ctx.note(if ctx.prop == "C08" { "runs of the command line tool with --function" } else { "whole runs of the command line tool" }, json!(r));
        return;
    }
    ctx.note("states", json!(dn));
    ctx.note("transitions", json!(r));
    ctx.note("traces_validated_against_impl", json!(r));
    ctx.note("runs of the tool", json!(r));
    ctx.note("runs that had to yield the full number", json!(full.load(Ordering::Relaxed)));
    ctx.note("mutants judged", json!(mutants.load(Ordering::Relaxed)));
    ctx.note("distinct_nontrivial", json!(dn));
    ctx.note("bounds", json!(format!("the listed programs x algorithm selections (each usable algorithm, pairs, all) x requested numbers; every sequence of the first {} significant random draws over 4-7 letters, then a fixed fair sequence; and 70 equal draws", depth)));
    ctx.note("rule", json!("a transition is one run of the built command line tool under one sequence of draws; a state is a distinct mutant file of a program"));
}
