//! C15 and C16: configuration files and compiler settings.
use crate::cli::{self, Call, Dir, Opts, Run};
use crate::clicheck::*;
use crate::run::*;
use crate::tool::Lang;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};

/// settings of a run, as given on the command line or in a configuration file
#[derive(Clone, Default, Debug, PartialEq)]
struct Set {
    num: Option<usize>,
    seed: Option<u64>,
    muts: Option<Vec<&'static str>>,
    all: Option<bool>,
    funcs: Option<Vec<&'static str>>,
    validate: Option<bool>,
    out: Option<&'static str>, // "stdout" for standard output
    print: Option<bool>,
    stdout: bool,
    solc: bool,
    /// paths relative to the working directory, the configuration file in another directory
    rel: bool,
    /// the input's file name
    name: Option<&'static str>,
}

impl Set {
    fn place(&self, d: &Dir, x: &str) -> String {
        if self.rel {
            x.to_string()
        } else {
            d.p(x)
        }
    }
    fn args(&self, d: &Dir) -> Vec<String> {
        let mut a = vec![];
        let mut o = |x: &str, y: &str| a.extend(strs(&[x, y]));
        if let Some(n) = self.num {
            o("--num-mutants", &n.to_string());
        }
        if let Some(n) = self.seed {
            o("--rng-seed", &n.to_string());
        }
        for m in self.muts.iter().flatten() {
            o("--mutation", m);
        }
        for m in self.funcs.iter().flatten() {
            o("--function", m);
        }
        if let Some(x) = self.out {
            if x != "stdout" {
                o("-o", &self.place(d, x));
            }
        }
        if self.solc {
            o("--solidity-base-path", "/some base");
            o("--solidity-include-path", "/inc1");
            o("--solidity-include-path", "/inc2");
            o("--solidity-remapping", "x=/y");
            o("--vyper-root-path", "/root path");
        }
        if self.all == Some(true) {
            a.push("-a".into());
        }
        if self.validate == Some(true) {
            a.push("--validate-mutants".into());
        }
        if self.print == Some(true) {
            a.push("--print-original".into());
        }
        if self.stdout || self.out == Some("stdout") {
            a.push("--stdout".into());
        }
        a
    }
    fn config(&self, d: &Dir, l: Lang, files: &[String]) -> Value {
        let mut v = json!({"language": lang_name(l), "filenames": files});
        if let Some(n) = self.num {
            v["num-mutants"] = json!(n);
        }
        if let Some(n) = self.seed {
            v["seed"] = json!(n);
        }
        if let Some(m) = &self.muts {
            v["mutations"] = json!(m);
        }
        if let Some(m) = &self.all {
            v["all-mutations"] = json!(m);
        }
        if let Some(m) = &self.funcs {
            v["functions"] = json!(m);
        }
        if let Some(m) = &self.validate {
            v["validate-mutants"] = json!(m);
        }
        if let Some(m) = &self.out {
            v["output-directory"] = if *m == "stdout" { json!("stdout") } else { json!(self.place(d, m)) };
        }
        if let Some(m) = &self.print {
            v["print-original"] = json!(m);
        }
        if self.solc {
            v["compiler-details"] = match l {
                Lang::Sol => json!({"path": "solc", "base-path": "/some base", "include-paths": ["/inc1", "/inc2"], "remappings": ["x=/y"]}),
                Lang::Vy => json!({"path": "vyper", "root-path": "/root path"}),
            };
        }
        v
    }
    /// the command line that says what this one and then the file say
    fn with(&self, k: &Set) -> Set {
        let mut r = self.clone();
        r.num = k.num.or(r.num);
        r.seed = k.seed.or(r.seed);
        if k.all == Some(true) {
            r.all = Some(true);
        } else if k.muts.as_ref().map_or(false, |m| !m.is_empty()) {
            r.muts = k.muts.clone();
            r.all = None;
        }
        if k.funcs.as_ref().map_or(false, |m| !m.is_empty()) {
            r.funcs = k.funcs.clone();
        }
        r.validate = k.validate.or(r.validate);
        if k.out == Some("stdout") {
            r.stdout = true;
        } else {
            r.out = k.out.or(r.out);
        }
        r.print = k.print.or(r.print);
        r.solc |= k.solc;
        r
    }
    fn keys(&self) -> usize {
        self.num.is_some() as usize + self.seed.is_some() as usize + self.muts.is_some() as usize + self.all.is_some() as usize + self.funcs.is_some() as usize + self.validate.is_some() as usize + self.out.is_some() as usize + self.print.is_some() as usize + self.solc as usize
    }
    fn say(&self) -> String {
        let mut s = vec![];
        if let Some(x) = self.num {
            s.push(format!("num-mutants={}", x));
        }
        if let Some(x) = self.seed {
            s.push(format!("seed={}", x));
        }
        if let Some(x) = &self.muts {
            s.push(format!("mutations={}", x.join("+")));
        }
        if let Some(x) = self.all {
            s.push(format!("all={}", x));
        }
        if let Some(x) = &self.funcs {
            s.push(format!("functions={}", x.join("+")));
        }
        if let Some(x) = self.validate {
            s.push(format!("validate={}", x));
        }
        if let Some(x) = self.out {
            s.push(format!("output={}", x));
        }
        if let Some(x) = self.print {
            s.push(format!("print-original={}", x));
        }
        if self.stdout {
            s.push("stdout".into());
        }
        if self.solc {
            s.push("compiler-details".into());
        }
        if self.rel {
            s.push("relative paths".into());
        }
        if let Some(n) = self.name {
            s.push(format!("input {}", n));
        }
        s.join(",")
    }
}

fn sets(max_keys: usize) -> Vec<Set> {
    let mut v = vec![];
    for num in [None, Some(3), Some(0)] {
        for seed in [None, Some(7), Some(0)] {
            for muts in [None, Some(vec!["Integer", "ArithmeticBinaryOp"])] {
                for all in [None, Some(true), Some(false)] {
                    for funcs in [None, Some(vec!["f"])] {
                        for validate in [None, Some(true), Some(false)] {
                            for out in [None, Some("o2/deep"), Some("stdout")] {
                                for print in [None, Some(true), Some(false)] {
                                    for solc in [false, true] {
                                        let s = Set { num, seed, muts: muts.clone(), all, funcs: funcs.clone(), validate, out, print, solc, stdout: false, rel: false, name: None };
                                        if s.keys() <= max_keys {
                                            v.push(s);
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    v
}

fn bases() -> Vec<Set> {
    vec![
        Set { seed: Some(5), all: Some(true), ..Default::default() },
        Set { num: Some(2), seed: Some(9), muts: Some(vec!["SwapLines", "Assignment"]), funcs: Some(vec!["g"]), validate: Some(true), out: Some("base"), print: Some(true), ..Default::default() },
        Set { num: Some(4), seed: Some(11), all: Some(true), stdout: true, validate: Some(false), ..Default::default() },
    ]
}

/// files the run made (relative names), without what the harness put there
fn made(d: &Dir, hide: &[&str]) -> BTreeMap<String, String> {
    let root = d.path.to_str().unwrap().to_string();
    cli::files(&root)
        .into_iter()
        .filter(|(k, _)| !(k.starts_with("bin/") || k.starts_with("in/") || k.starts_with("home") || hide.contains(&k.as_str())))
        .map(|(k, v)| (k, v.replace(&root, "@")))
        .collect()
}
fn said(d: &Dir, r: &Run) -> String {
    r.text().replace(d.path.to_str().unwrap(), "@")
}
fn validated(d: &Dir, c: &[Call]) -> Vec<String> {
    c.iter().filter(|x| x.what == "validate").map(|x| format!("{} {}", x.args.iter().filter(|a| !a.contains(d.path.to_str().unwrap())).cloned().collect::<Vec<_>>().join(" "), x.input.clone().unwrap_or_default())).collect()
}
fn flags(d: &Dir, c: &[Call]) -> BTreeSet<String> {
    c.iter().filter(|x| x.what != "version").map(|x| format!("{} {} {}", x.name, x.what, x.args.iter().filter(|a| !a.contains(d.path.to_str().unwrap())).cloned().collect::<Vec<_>>().join(" "))).collect()
}

enum Case {
    /// one file, settings in the file against settings on the command line
    Same(Lang, Form, Set, Set),
    /// two inputs in one configuration
    Two(Lang, Set),
    /// a configuration next to another input; the flag: configuration first
    Beside(Lang, Form, Set, bool),
    /// save and replay; seeded or by the clock
    Replay(Lang, Form, Set, Option<&'static str>),
}

pub fn c15(ctx: &Ctx) {
    let mut cases = vec![];
    let (quick, full) = (sets(3), if ctx.thorough { sets(99) } else { vec![] });
    for (i, (l, f)) in INPUTS.iter().enumerate() {
        for (j, b) in bases().into_iter().enumerate() {
            let list: Vec<&Set> = if ctx.thorough && *f == Form::Ast { full.iter().collect() } else { quick.iter().collect() };
            for s in list {
                // quick: triples only for one base per input
                if !ctx.thorough && (s.keys() > 2 && (i + j) % 3 != 0 || (*f == Form::Source && s.keys() > 2)) {
                    continue;
                }
                cases.push(Case::Same(*l, *f, b.clone(), s.clone()));
            }
        }
        // relative paths; empty and longer lists
        for s in quick.iter().filter(|s| s.keys() <= 2 && (ctx.thorough || s.keys() < 2 || s.out.is_some())) {
            for (j, b) in bases().into_iter().enumerate() {
                if ctx.thorough || s.keys() < 2 || j == i % 3 {
                    cases.push(Case::Same(*l, *f, Set { rel: true, ..b }, Set { rel: true, ..s.clone() }));
                }
            }
            if s.keys() < 2 && s.seed.is_none() && s.all != Some(false) && s.validate != Some(false) && s.print != Some(false) && s.num != Some(0) {
                cases.push(Case::Replay(*l, *f, Set { rel: true, ..s.clone() }, Some("1700000123")));
                cases.push(Case::Replay(*l, *f, Set { rel: true, seed: Some(4), ..s.clone() }, None));
            }
        }
        for n in ["noext", "two.dots.ast", "a b.json", "p.", "x.y.sol", "q.txt", ".hidden", "p_0.vy", "-dash.ast"] {
            cases.push(Case::Replay(*l, *f, Set { seed: Some(3), name: Some(n), ..Default::default() }, None));
            if n != "-dash.ast" {
                cases.push(Case::Replay(*l, *f, Set { seed: Some(3), name: Some(n), rel: true, print: Some(true), ..Default::default() }, None));
            }
        }
        let names = crate::model::algorithms(*l);
        let mut lists: Vec<Set> = vec![Set { muts: Some(vec![]), ..Default::default() }, Set { funcs: Some(vec![]), ..Default::default() }];
        lists.push(Set { muts: Some(names.to_vec()), ..Default::default() });
        lists.push(Set { muts: Some(names.iter().rev().cloned().collect()), ..Default::default() });
        for a in names.iter() {
            lists.push(Set { muts: Some(vec![a]), ..Default::default() });
            lists.push(Set { muts: Some(vec![a, names[0], a]), num: Some(3), ..Default::default() });
        }
        for fs in [vec!["f", "g"], vec!["g", "f"], vec!["g"], vec!["f", "f"], vec!["none"], vec!["none", "g"], vec!["F"], vec![""]] {
            lists.push(Set { funcs: Some(fs.clone()), ..Default::default() });
            lists.push(Set { funcs: Some(fs), num: Some(40), ..Default::default() });
        }
        for n in [1usize, 2, 10, 40, 1000] {
            lists.push(Set { num: Some(n), ..Default::default() });
        }
        for n in [1u64, 2, 255, 1 << 31, 1 << 32, (1 << 53) + 1, (1 << 63) - 1] {
            lists.push(Set { seed: Some(n), ..Default::default() });
            cases.push(Case::Replay(*l, *f, Set { seed: Some(n), ..Default::default() }, None));
        }
        for s in lists {
            cases.push(Case::Same(*l, *f, bases()[0].clone(), s));
        }
        for s in quick.iter().filter(|s| s.keys() == 1) {
            for first in [true, false] {
                cases.push(Case::Beside(*l, *f, s.clone(), first));
            }
            cases.push(Case::Two(*l, s.clone()));
        }
        let everything = Set { num: Some(3), seed: Some(7), muts: Some(vec!["Integer"]), funcs: Some(vec!["f"]), validate: Some(true), out: Some("o2/deep"), print: Some(true), solc: true, ..Default::default() };
        for first in [true, false] {
            cases.push(Case::Beside(*l, *f, everything.clone(), first));
        }
        let rs = sets(if ctx.thorough { 6 } else { 3 });
        for s in rs {
            if s.all == Some(false) || s.validate == Some(false) || s.print == Some(false) || s.num == Some(0) {
                continue;
            }
            if s.seed.is_some() || s.keys() <= 1 {
                let t = if s.seed.is_some() { None } else { Some("1700000123") };
                cases.push(Case::Replay(*l, *f, s, t));
            }
        }
    }
    let name = |c: &Case| match c {
        Case::Same(l, f, b, s) => format!("{:?} {:?} options [{}] file [{}]", l, f, b.say(), s.say()),
        Case::Two(l, s) => format!("two inputs {:?} [{}]", l, s.say()),
        Case::Beside(l, f, s, first) => format!("beside {:?} {:?} [{}] {}", l, f, s.say(), if *first { "first" } else { "second" }),
        Case::Replay(l, f, s, t) => format!("replay {:?} {:?} [{}] {:?}", l, f, s.say(), t),
    };
    ctx.sample(json!(name(&cases[cases.len() / 3])));
    ctx.sample(json!(name(&cases[cases.len() - 2])));
    ctx.run_limit(&cases, 300, |c| name(c), |c| {
        let bad = |e: String| Err(Viol { key: name(c), detail: e });
        match c {
            Case::Same(l, f, b, s) => {
                let fname = format!("in/{}", input_name(*l, *f));
                let (d1, d2) = (Dir::new(), Dir::new());
                let i1 = d1.put(&fname, &contents(*l, *f));
                let i2 = d2.put(&fname, &contents(*l, *f));
                let (i1, i2) = if s.rel { (fname.clone(), fname.clone()) } else { (i1, i2) };
                let mut cfg = d1.put("in/c.mgnx", &s.config(&d1, *l, &[i1]).to_string());
                if s.rel {
                    cfg = "in/c.mgnx".into();
                }
                let mut a1 = strs(&["mutate", "-f", &cfg]);
                a1.extend(b.args(&d1));
                let mut a2 = strs(&["mutate", "-f", &i2]);
                let mut w = b.with(s);
                w.rel = s.rel;
                // compiler settings of a file apply to its language only, and replace those of the command line
                w.solc = s.solc || b.solc;
                a2.extend(w.args(&d2));
                let (r1, c1) = go(&d1, &a1, &Opts::default());
                let (r2, c2) = go(&d2, &a2, &Opts::default());
                if let Some(e) = crashed(&r1).or(crashed(&r2)) {
                    return bad(e);
                }
                if let Some(e) = diff(&made(&d2, &[]), &made(&d1, &[])) {
                    return bad(format!("compared with options [{}]: {}", w.say(), e));
                }
                if said(&d1, &r1) != said(&d2, &r2) {
                    return bad(format!("compared with options [{}]: output\n{}\n--- with the file\n{}", w.say(), said(&d2, &r2), said(&d1, &r1)));
                }
                if validated(&d1, &c1) != validated(&d2, &c2) {
                    return bad(format!("compared with options [{}]: the compiler was asked about {} against {} mutants, or differently", w.say(), validated(&d2, &c2).len(), validated(&d1, &c1).len()));
                }
                Ok(())
            }
            Case::Two(l, s) => {
                let (d1, d2) = (Dir::new(), Dir::new());
                let b = &bases()[0];
                let names = [format!("in/a.ast"), format!("in/b.{}", cli::ext(*l)), "in/c.ast".to_string()];
                let put = |d: &Dir| vec![d.put(&names[0], &contents(*l, Form::Ast)), d.put(&names[1], src(*l)), d.put(&names[2], &contents(*l, Form::Ast))];
                let f1 = put(&d1);
                let f2 = put(&d2);
                let cfg = d1.put("in/c.mgnx", &s.config(&d1, *l, &f1).to_string());
                let mut a1 = strs(&["mutate", "-f", &cfg]);
                a1.extend(b.args(&d1));
                let mut a2 = strs(&["mutate"]);
                for f in &f2 {
                    a2.extend(strs(&["-f", f]));
                }
                a2.extend(b.with(s).args(&d2));
                let (r1, _) = go(&d1, &a1, &Opts::default());
                let (r2, _) = go(&d2, &a2, &Opts::default());
                if let Some(e) = crashed(&r1).or(crashed(&r2)) {
                    return bad(e);
                }
                if let Some(e) = diff(&made(&d2, &[]), &made(&d1, &[])) {
                    return bad(e);
                }
                if said(&d1, &r1) != said(&d2, &r2) {
                    return bad(format!("output\n{}\n--- with the file\n{}", said(&d2, &r2), said(&d1, &r1)));
                }
                Ok(())
            }
            Case::Beside(l, f, s, first) => {
                // the other input: same language, and the other one
                for ol in [*l, other(*l)] {
                    let b = &bases()[0];
                    let d0 = Dir::new();
                    let d1 = Dir::new();
                    let put = |d: &Dir| {
                        let i = d.put(&format!("in/{}", input_name(*l, *f)), &contents(*l, *f));
                        let c = d.put("in/c.mgnx", &s.config(d, *l, &[i]).to_string());
                        let o = d.put(&format!("in/other.{}", cli::ext(ol)), src(ol));
                        (c, o)
                    };
                    let (_, o0) = put(&d0);
                    let mut a0 = strs(&["mutate", "-f", &o0]);
                    a0.extend(b.args(&d0));
                    let (r0, c0) = go(&d0, &a0, &Opts::default());
                    let (c1, o1) = put(&d1);
                    let mut a1 = strs(&["mutate"]);
                    for x in if *first { [&c1, &o1] } else { [&o1, &c1] } {
                        a1.extend(strs(&["-f", x]));
                    }
                    a1.extend(b.args(&d1));
                    let (r1, k1) = go(&d1, &a1, &Opts::default());
                    if let Some(e) = crashed(&r0).or(crashed(&r1)) {
                        return bad(e);
                    }
                    let pick = |d: &Dir| -> BTreeMap<String, String> { made(d, &[]).into_iter().filter(|(k, _)| k.contains("other.")).collect() };
                    if pick(&d0).is_empty() {
                        return bad(format!("no mutants of the other input\n{}", r0.stdout));
                    }
                    if let Some(e) = diff(&pick(&d0), &pick(&d1)) {
                        return bad(format!("the file changes what happens to an input that is not in it: {}", e));
                    }
                    let of = |d: &Dir, c: &[Call]| -> BTreeSet<String> { flags(d, &c.iter().filter(|x| x.input.as_deref() == Some(src(ol)) && x.args.iter().any(|a| a.contains("other."))).cloned().collect::<Vec<_>>()) };
                    if of(&d0, &c0) != of(&d1, &k1) {
                        return bad(format!("the file changes how another input is compiled: {:?} {:?}", of(&d0, &c0), of(&d1, &k1)));
                    }
                }
                Ok(())
            }
            Case::Replay(l, f, s, t) => {
                let d = Dir::new();
                let input = s.name.map(|n| n.to_string()).unwrap_or_else(|| input_name(*l, *f).to_string());
                let i = d.put(&format!("in/{}", input), &contents(*l, *f));
                let mut s = s.clone();
                if s.muts.is_none() {
                    s.all = Some(true);
                }
                if s.out.is_none() {
                    s.out = Some("out");
                }
                let stdout = s.out == Some("stdout");
                let i = if s.rel { format!("in/{}", input) } else { i };
                let mut a = strs(&["mutate", "-f", &i, "--save-config-files"]);
                a.extend(s.args(&d));
                let o = match t {
                    Some(t) => Opts { preload: true, ..Default::default() }.env("MC_TIME", t),
                    None => Opts::default(),
                };
                let (r, c) = go(&d, &a, &o);
                if let Some(e) = crashed(&r) {
                    return bad(e);
                }
                // the saved configuration
                let stem = input.rsplit_once('.').map(|x| x.0.to_string()).unwrap_or(input.clone());
                let mut heard = said(&d, &r);
                let text = if stdout {
                    // it is on standard output: a JSON object on lines of its own
                    let lines: Vec<&str> = r.stdout.lines().collect();
                    let mut found = None;
                    'o: for x in 0..lines.len() {
                        if lines[x] == "{" {
                            for y in x..lines.len() {
                                if lines[y] == "}" {
                                    let j = lines[x..=y].join("\n");
                                    if serde_json::from_str::<Value>(&j).map_or(false, |v| v["language"].is_string()) {
                                        heard = heard.replace(&(j.replace(d.path.to_str().unwrap(), "@") + "\n"), "");
                                        found = Some(j);
                                        break 'o;
                                    }
                                }
                            }
                        }
                    }
                    found
                } else {
                    let p = d.p(&format!("{}/{}.mgnx", s.out.unwrap(), stem));
                    heard = heard.lines().filter(|l| !l.contains(".mgnx")).map(|l| format!("{}\n", l)).collect();
                    std::fs::read_to_string(p).ok()
                };
                let text = match text {
                    Some(t) => t,
                    None => return bad(format!("no configuration was saved\n{}", r.stdout)),
                };
                let hide = format!("{}/{}.mgnx", s.out.unwrap(), stem);
                let want = made(&d, &[&hide]);
                let cfg = d.put("in/saved.mgnx", &text);
                let cfg = if s.rel { "in/saved.mgnx".to_string() } else { cfg };
                for with in [None, Some(1), Some(2), Some(3)] {
                    for o in ["out", "o2", "base"] {
                        let _ = std::fs::remove_dir_all(d.p(o));
                    }
                    let mut a = strs(&["mutate", "-f", &cfg]);
                    match with {
                        Some(1) => a.extend(strs(&["--num-mutants", "9", "--rng-seed", "77", "--mutation", "SwapLines"])),
                        Some(2) => a.extend(strs(&["-o", &d.p("base"), "-a", "--rng-seed", "1"])),
                        Some(_) => a.push("--save-config-files".into()),
                        None => {}
                    }
                    let (r2, c2) = go(&d, &a, &Opts::default());
                    if let Some(e) = crashed(&r2) {
                        return bad(e);
                    }
                    let mut got = made(&d, &[]);
                    let saved2 = got.remove(&hide);
                    if let Some(e) = diff(&want, &got) {
                        return bad(format!("replayed (variant {:?}) from\n{}\n{}", with, text, e));
                    }
                    if with == Some(3) {
                        if !stdout && saved2.map(|x| x.replace('@', d.path.to_str().unwrap())) != Some(text.clone()) {
                            return bad(format!("saving while replaying gives another configuration than\n{}", text));
                        }
                    } else if said(&d, &r2) != heard {
                        return bad(format!("replayed (variant {:?}) from\n{}\nit says\n{}\n--- at first\n{}", with, text, said(&d, &r2), heard));
                    }
                    if validated(&d, &c) != validated(&d, &c2) || flags(&d, &c.iter().filter(|x| x.accepted).cloned().collect::<Vec<_>>()) != flags(&d, &c2.iter().filter(|x| x.accepted).cloned().collect::<Vec<_>>()) {
                        return bad(format!("replayed (variant {:?}) from\n{}\nthe compiler is called differently: {:?} {:?}", with, text, flags(&d, &c), flags(&d, &c2)));
                    }
                }
                Ok(())
            }
        }
    });
    finish_notes(ctx, cases.len() as u64, "all configuration files with at most 3 optional keys (thorough: every combination of 9 keys with 1-3 values each for AST inputs) x three command lines x 4 inputs, against the equivalent command line; every single key beside another input, before and after; save and replay of every combination of at most 3 (thorough 6) settings, four ways each", "a state is a (configuration file, command line, input) combination; a transition is one run of the built tool; compared are all files made, all output and all compiler calls");
}

// ---------------------------------------------------------------------------------------------------
// C16

#[derive(Clone, Debug, Default)]
struct Comp {
    lang_vy: bool,
    path: bool,
    base: Option<&'static str>,
    include: Vec<&'static str>,
    allow: Vec<&'static str>,
    remap: Vec<&'static str>,
    stop: Option<&'static str>,
    root: Option<&'static str>,
    /// what a Vyper compiler says about its version
    version: Option<&'static str>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Mode {
    Mutate,
    Validate,
    Reject,
    Pretty,
    PrettyOut,
}

impl Comp {
    fn args(&self, d: &Dir) -> Vec<String> {
        let mut a = vec![];
        if self.path {
            a.extend(strs(&[if self.lang_vy { "--vyper-compiler" } else { "--solidity-compiler" }, &custom(d, self.lang_vy)]));
        }
        for (k, v) in [("--solidity-base-path", &self.base), ("--solidity-stop-after", &self.stop), ("--vyper-root-path", &self.root)] {
            if let Some(x) = v {
                a.extend(strs(&[k, x]));
            }
        }
        for (k, v) in [("--solidity-include-path", &self.include), ("--solidity-allow-paths", &self.allow), ("--solidity-remapping", &self.remap)] {
            for x in v {
                a.extend(strs(&[k, x]));
            }
        }
        a
    }
    fn details(&self, d: &Dir) -> Value {
        let mut v = json!({});
        if self.path {
            v["path"] = json!(custom(d, self.lang_vy));
        }
        for (k, x) in [("base-path", &self.base), ("stop-after", &self.stop), ("root-path", &self.root)] {
            if let Some(x) = x {
                v[k] = json!(x);
            }
        }
        for (k, x) in [("include-paths", &self.include), ("allow-paths", &self.allow), ("remappings", &self.remap)] {
            if !x.is_empty() {
                v[k] = json!(x);
            }
        }
        v
    }
    fn name(&self) -> &'static str {
        match (self.lang_vy, self.path) {
            (false, false) => "solc",
            (false, true) => "solc-0.8 custom",
            (true, false) => "vyper",
            (true, true) => "vyper-custom",
        }
    }
    /// what is wrong with the calls made for this input
    fn judge(&self, calls: &[&Call]) -> Option<String> {
        if calls.is_empty() {
            return Some("the compiler was not called".into());
        }
        for c in calls {
            if c.name != self.name() {
                return Some(format!("{} was called instead of {}", c.name, self.name()));
            }
            if c.what == "bad" {
                return Some(format!("the compiler does not understand {:?}", c.args));
            }
            if c.what == "version" {
                continue;
            }
            if self.lang_vy {
                let v = match cli::parse_vyper(&c.args, self.version.map_or(false, |v| v.starts_with(['3', '4']))) {
                    Ok(v) => v,
                    Err(e) => return Some(format!("{:?}: {}", c.args, e)),
                };
                if v.root.as_deref() != self.root {
                    return Some(format!("root path {:?} instead of {:?} in {:?}", v.root, self.root, c.args));
                }
            } else {
                let s = match cli::parse_solc(&c.args) {
                    Ok(s) => s,
                    Err(e) => return Some(format!("{:?}: {}", c.args, e)),
                };
                let allow = if self.allow.is_empty() { None } else { Some(self.allow.join(",")) };
                let stop_ok = s.stop_after.as_deref() == self.stop || (self.stop.is_none() && c.what == "validate" && s.stop_after.as_deref() == Some("parsing"));
                if s.base.as_deref() != self.base || s.include != self.include || s.allow != allow || s.remap != self.remap || !stop_ok {
                    return Some(format!("{} call {:?} does not say {:?}", c.what, c.args, self));
                }
            }
        }
        None
    }
}
fn custom(d: &Dir, vy: bool) -> String {
    let p = d.mkdir("other bin");
    let n = if vy { "vyper-custom" } else { "solc-0.8 custom" };
    let _ = std::os::unix::fs::symlink(std::env::current_exe().unwrap(), format!("{}/{}", p, n));
    format!("{}/{}", p, n)
}

pub fn c16(ctx: &Ctx) {
    let mut comps = vec![];
    let lists = |a: &'static str, b: &'static str| -> Vec<Vec<&'static str>> { vec![vec![], vec![a], vec![a, b], vec![b, a, a]] };
    for path in [false, true] {
        for base in [None, Some("/base dir"), Some("rel/base")] {
            for include in lists("/inc one", "inc-two") {
                for allow in lists("/allow one", "/allow-two") {
                    for remap in lists("@oz=/lib/oz", "ctx:pre fix/=/x=y") {
                        for stop in [None, Some("parsing")] {
                            if !ctx.thorough && (include.len() == 3) as u8 + (allow.len() == 3) as u8 + (remap.len() == 3) as u8 + (base == Some("rel/base")) as u8 > 1 {
                                continue;
                            }
                            comps.push(Comp { path, base, include: include.clone(), allow: allow.clone(), remap: remap.clone(), stop, ..Default::default() });
                        }
                    }
                }
            }
        }
    }
    for path in [false, true] {
        for root in [None, Some("/root dir"), Some("rel"), Some(".")] {
            for version in [None, Some("0.2.16"), Some("0.3.10+commit.91361694"), Some("0.4.0\\n"), Some("3.0.0"), Some("3.1.4+commit.1"), Some("4.0.0rc1")] {
                comps.push(Comp { lang_vy: true, path, root, version, ..Default::default() });
            }
        }
    }
    // single input
    let mut cases: Vec<(Comp, bool, Mode)> = vec![];
    for c in &comps {
        for cfg in [false, true] {
            // the command line demands a base path with an include path
            if !cfg && c.base.is_none() && !c.include.is_empty() {
                continue;
            }
            for m in [Mode::Mutate, Mode::Validate, Mode::Reject, Mode::Pretty, Mode::PrettyOut] {
                if cfg && (m == Mode::Pretty || m == Mode::PrettyOut) {
                    continue;
                }
                // a file that only names settings for its compiler; the path defaults
                if !ctx.thorough && !c.lang_vy && (m == Mode::PrettyOut || m == Mode::Mutate) && c.include.len() + c.allow.len() + c.remap.len() > 3 {
                    continue;
                }
                cases.push((c.clone(), cfg, m));
            }
        }
    }
    let name = |c: &(Comp, bool, Mode)| format!("{:?} {} {}", c.2, if c.1 { "file" } else { "options" }, format!("{:?}", c.0));
    ctx.sample(json!(name(&cases[cases.len() / 2])));
    let calls_n = std::sync::atomic::AtomicU64::new(0);
    ctx.run_limit(&cases, 300, |c| name(c), |(c, cfg, m)| {
        let l = if c.lang_vy { Lang::Vy } else { Lang::Sol };
        let d = Dir::new();
        let i = d.put(&format!("in/p q.{}", cli::ext(l)), src(l));
        let mut a = match m {
            Mode::Pretty => strs(&["pretty-print", "--stdout"]),
            Mode::PrettyOut => strs(&["pretty-print", "-o", &d.p("out")]),
            _ => strs(&["mutate", "-o", &d.p("out"), "-a", "--rng-seed", "3", "--num-mutants", "2"]),
        };
        if *m == Mode::Validate || *m == Mode::Reject {
            a.push("--validate-mutants".into());
        }
        if *cfg {
            let p = d.put("in/c.mgnx", &json!({"language": lang_name(l), "filenames": [i], "compiler-details": c.details(&d)}).to_string());
            a.extend(strs(&["-f", &p]));
        } else {
            a.extend(strs(&["-f", &i]));
            a.extend(c.args(&d));
        }
        let mut o = Opts::default();
        if let Some(v) = c.version {
            o = o.env("MC_FAKE_VYPER", v);
        }
        let o = if *m == Mode::Reject { o.env("MC_FAKE_ANSWERS", "RRRAR") } else { o };
        let (r, calls) = go(&d, &a, &o);
        let bad = |e: String| Err(Viol { key: name(&(c.clone(), *cfg, *m)), detail: format!("{}\n--- output\n{}{}", e, clip(&r.stdout, 600), clip(&r.stderr, 600)) });
        if let Some(e) = crashed(&r) {
            return bad(e);
        }
        calls_n.fetch_add(calls.len() as u64, std::sync::atomic::Ordering::Relaxed);
        // recognition tries the compilers of all languages in turn; only this language's matter here
        let mine: Vec<&Call> = calls.iter().filter(|x| x.name.starts_with(if c.lang_vy { "vyper" } else { "solc" })).collect();
        if let Some(e) = c.judge(&mine) {
            return bad(e);
        }
        // an input of the other language is compiled with that language's default settings
        let rest: Vec<&Call> = calls.iter().filter(|x| !x.name.starts_with(if c.lang_vy { "vyper" } else { "solc" })).collect();
        if !rest.is_empty() {
            let dflt = Comp { lang_vy: !c.lang_vy, ..Default::default() };
            if let Some(e) = dflt.judge(&rest) {
                return bad(format!("a compiler of the other language: {}", e));
            }
        }
        let asked = mine.iter().any(|x| x.what == "validate");
        if asked != (*m == Mode::Validate || *m == Mode::Reject) {
            return bad(format!("validation calls: {}", asked));
        }
        let got = if *m == Mode::Pretty { !r.stdout.trim().is_empty() && !r.complains() } else { !cli::files(&d.p("out")).is_empty() };
        if !got {
            return bad("no output".into());
        }
        Ok(())
    });
    // two inputs with settings of their own: option settings and file settings, each for its input
    let some: Vec<&Comp> = {
        let mut v: Vec<&Comp> = comps.iter().filter(|c| !c.lang_vy).step_by(if ctx.thorough { 7 } else { 37 }).collect();
        v.extend(comps.iter().filter(|c| c.lang_vy && c.version.is_none()));
        v
    };
    let mut pairs = vec![];
    for a in &some {
        for b in &some {
            if b.base.is_none() && !b.include.is_empty() {
                continue;
            }
            for first in [true, false] {
                pairs.push(((*a).clone(), (*b).clone(), first));
            }
        }
    }
    let pname = |c: &(Comp, Comp, bool)| format!("two inputs: file {:?}, options {:?}, {}", c.0, c.1, c.2);
    ctx.count("pairs of inputs", pairs.len() as u64);
    ctx.run_limit(&pairs, 300, |c| pname(c), |(a, b, first)| {
        let d = Dir::new();
        let (la, lb) = (if a.lang_vy { Lang::Vy } else { Lang::Sol }, if b.lang_vy { Lang::Vy } else { Lang::Sol });
        let ia = d.put(&format!("in/first.{}", cli::ext(la)), src(la));
        let ib = d.put(&format!("in/second.{}", cli::ext(lb)), src(lb));
        // a file whose details leave the path out keeps the compiler of the command line open: give the path
        let mut det = a.details(&d);
        if !a.path {
            det["path"] = json!(if a.lang_vy { "vyper" } else { "solc" });
        }
        let p = d.put("in/c.mgnx", &json!({"language": lang_name(la), "filenames": [ia], "compiler-details": det}).to_string());
        let mut args = strs(&["mutate", "-o", &d.p("out"), "-a", "--rng-seed", "3", "--validate-mutants"]);
        for x in if *first { [&p, &ib] } else { [&ib, &p] } {
            args.extend(strs(&["-f", x]));
        }
        args.extend(b.args(&d));
        let (r, calls) = go(&d, &args, &Opts::default());
        let bad = |e: String| Err(Viol { key: pname(&(a.clone(), b.clone(), *first)), detail: format!("{}\n--- output\n{}{}", e, clip(&r.stdout, 600), clip(&r.stderr, 600)) });
        if let Some(e) = crashed(&r) {
            return bad(e);
        }
        calls_n.fetch_add(calls.len() as u64, std::sync::atomic::Ordering::Relaxed);
        for (which, comp, l) in [("first.", a, la), ("second.", b, lb)] {
            // the calls of one input: the last call that names it, then the validations in between
            let pre = if l == Lang::Vy { "vyper" } else { "solc" };
            let mut mine = vec![];
            for c in calls.iter() {
                if c.what == "ast" && c.name.starts_with(pre) && c.args.iter().any(|x| x.contains(which)) {
                    mine.push(c);
                }
            }
            if let Some(e) = comp.judge(&mine) {
                return bad(format!("input {}: {}", which, e));
            }
        }
        // validations: those before the other input's turn belong to the one processed first
        let val: Vec<&Call> = calls.iter().filter(|c| c.what == "validate").collect();
        if la == lb {
            let order = if *first { [a, b] } else { [b, a] };
            if val.len() >= 2 {
                for (c, comp) in [(val[0], order[0]), (val[val.len() - 1], order[1])] {
                    if let Some(e) = comp.judge(&[c]) {
                        return bad(e);
                    }
                }
            }
        } else {
            for (comp, l) in [(a, la), (b, lb)] {
                let pre = if l == Lang::Vy { "vyper" } else { "solc" };
                let v: Vec<&Call> = val.iter().filter(|c| c.name.starts_with(pre)).cloned().collect();
                if let Some(e) = comp.judge(&v) {
                    return bad(e);
                }
            }
        }
        Ok(())
    });
    ctx.note("compiler calls judged", json!(calls_n.load(std::sync::atomic::Ordering::Relaxed)));
    finish_notes(ctx, (cases.len() + pairs.len()) as u64, "all combinations of compiler path, base path, 0-3 include paths, allow paths and remappings, stop-after; Vyper path and root path; on the command line and in a configuration file; mutate, with validation (accepting, rejecting), pretty-print to a file and to standard output; and pairs of inputs with settings of their own in both orders", "a state is a combination of settings and mode; a transition is one run of the built tool; every recorded compiler command line is parsed as the compiler would and compared with the settings");
    ctx.assume("solc and vyper parse their command lines as their documentation says");
}
