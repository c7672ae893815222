//! C17, C18, C19, C20: inputs, places, selections and failing output.
use crate::cli::{self, Dir, Opts, Run};
use crate::clicheck::*;
use crate::gencheck::Prog;
use crate::model;
use crate::run::*;
use crate::tool::Lang;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;
use std::sync::atomic::{AtomicU64, Ordering};

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
enum Kind {
    SolSrc,
    VySrc,
    SolAst,
    VyAst,
    SolCfg,
    VyCfg,
    TwoCfg,
    // not acceptable
    Missing,
    Directory,
    Text,
    EmptyObject,
    Array,
    TruncAst,
    Binary,
    OtherJson,
    BadCfg,
    NoLangCfg,
    UnknownLangCfg,
    UnknownAlgoCfg,
    NoFilesCfg,
    CfgOfMissing,
    CfgOfGarbage,
    NothingToMutate,
}
use Kind::*;
const GOOD: [Kind; 7] = [SolSrc, VySrc, SolAst, VyAst, SolCfg, VyCfg, TwoCfg];
const BAD: [Kind; 16] = [Missing, Directory, Text, EmptyObject, Array, TruncAst, Binary, OtherJson, BadCfg, NoLangCfg, UnknownLangCfg, UnknownAlgoCfg, NoFilesCfg, CfgOfMissing, CfgOfGarbage, NothingToMutate];

/// put the input into place (position i) and return its path
fn place(d: &Dir, k: Kind, i: usize) -> String {
    let n = |s: &str| format!("in/k{}{}", i, s);
    match k {
        SolSrc => d.put(&n(".sol"), SOL),
        VySrc => d.put(&n(".vy"), VY),
        SolAst => d.put(&n("s.ast"), &ast_of(Lang::Sol, SOL)),
        VyAst => d.put(&n("v.ast"), &ast_of(Lang::Vy, VY)),
        SolCfg => {
            let f = d.put(&n("c.ast"), &ast_of(Lang::Sol, SOL));
            d.put(&n("s.mgnx"), &json!({"language": "Solidity", "filenames": [f], "num-mutants": 2}).to_string())
        }
        VyCfg => {
            let f = d.put(&n("d.vy"), VY);
            d.put(&n("v.mgnx"), &json!({"language": "Vyper", "filenames": [f], "seed": 4}).to_string())
        }
        TwoCfg => {
            let f = d.put(&n("e.sol"), SOL);
            let g = d.put(&n("f.ast"), &ast_of(Lang::Sol, SOL));
            d.put(&n("t.mgnx"), &json!({"language": "Solidity", "filenames": [f, g], "mutations": ["Integer"]}).to_string())
        }
        Missing => d.p(&n("missing.sol")),
        Directory => d.mkdir(&n("dir.sol")),
        Text => d.put(&n("text.sol"), "This is not a program.\n"),
        EmptyObject => d.put(&n("obj.ast"), "{}"),
        Array => d.put(&n("arr.ast"), "[1, \"nodeType\", {\"nodeType\": \"SourceUnit\"}]"),
        TruncAst => {
            let a = ast_of(Lang::Sol, SOL);
            d.put(&n("trunc.ast"), &a[..a.len() / 2])
        }
        Binary => {
            let p = d.put(&n("bin.ast"), "");
            std::fs::write(&p, [0u8, 0xff, 0xfe, 1, 2, 0x80, b'{', 0xc3]).unwrap();
            p
        }
        OtherJson => d.put(&n("other.json"), "{\"nodeType\": \"Block\", \"statements\": [], \"ast\": 1, \"name\": \"SourceUnit\"}"),
        BadCfg => d.put(&n("bad.mgnx"), "{\"language\": \"Solidity\", "),
        NoLangCfg => d.put(&n("nolang.mgnx"), "{\"filenames\": [\"x.sol\"]}"),
        UnknownLangCfg => d.put(&n("unk.mgnx"), "{\"language\": \"Fortran\", \"filenames\": []}"),
        UnknownAlgoCfg => {
            let f = d.put(&n("u.ast"), &ast_of(Lang::Sol, SOL));
            d.put(&n("algo.mgnx"), &json!({"language": "Solidity", "filenames": [f], "mutations": ["NoSuchThing"]}).to_string())
        }
        NoFilesCfg => d.put(&n("nofiles.mgnx"), "{\"language\": \"Solidity\"}"),
        CfgOfMissing => {
            let p = d.p(&n("gone.sol"));
            d.put(&n("cm.mgnx"), &json!({"language": "Solidity", "filenames": [p]}).to_string())
        }
        CfgOfGarbage => {
            let p = d.put(&n("g.sol"), "garbage garbage");
            d.put(&n("cg.mgnx"), &json!({"language": "Solidity", "filenames": [p]}).to_string())
        }
        NothingToMutate => d.put(&n("none.sol"), "contract C { }\n"),
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Mode {
    Mutate,
    MutateOut,
    Pretty,
    PrettyOut,
}

struct Got {
    run: Run,
    files: BTreeMap<String, String>,
}

fn produce(d: &Dir, inputs: &[String], m: Mode) -> Got {
    let mut a = match m {
        Mode::Mutate => strs(&["mutate", "-a", "--rng-seed", "3", "--num-mutants", "3", "-o", &d.p("out")]),
        Mode::MutateOut => strs(&["mutate", "-a", "--rng-seed", "3", "--num-mutants", "3", "--stdout"]),
        Mode::Pretty => strs(&["pretty-print", "-o", &d.p("out")]),
        Mode::PrettyOut => strs(&["pretty-print", "--stdout"]),
    };
    for i in inputs {
        a.extend(strs(&["-f", i]));
    }
    let (run, _) = go(d, &a, &Opts::default());
    Got { run, files: cli::files(&d.p("out")) }
}

fn body(r: &Run, d: &Dir) -> String {
    r.text().replace(d.path.to_str().unwrap(), "@")
}

pub fn c17(ctx: &Ctx) {
    let all: Vec<Kind> = GOOD.iter().chain(BAD.iter()).copied().collect();
    let mut lists: Vec<Vec<Kind>> = all.iter().map(|k| vec![*k]).collect();
    for a in &all {
        for b in &all {
            lists.push(vec![*a, *b]);
        }
    }
    let third: Vec<Kind> = if ctx.thorough { all.clone() } else { vec![SolSrc, VyAst, SolCfg, Missing, Text, UnknownAlgoCfg] };
    for a in &third {
        for b in &third {
            for c in &third {
                lists.push(vec![*a, *b, *c]);
            }
        }
    }
    // longer lists: windows of the cycle of all kinds, forwards and backwards
    let long = if ctx.thorough { 14 } else { 9 };
    for i in 0..all.len() {
        for len in [5, long] {
            lists.push((0..len).map(|j| all[(i + j) % all.len()]).collect());
            lists.push((0..len).map(|j| all[(i + (all.len() - 1) * j) % all.len()]).collect());
            lists.push((0..len).map(|j| if j + 1 == len { all[i] } else { [SolSrc, VyAst][j % 2] }).collect());
        }
    }
    let mut cases = vec![];
    for l in &lists {
        for m in [Mode::Mutate, Mode::MutateOut, Mode::Pretty, Mode::PrettyOut] {
            if !ctx.thorough && l.len() >= 3 && m != Mode::Mutate {
                continue;
            }
            cases.push((l.clone(), m));
        }
    }
    // each input alone, at each position
    let mut alone: BTreeMap<(Kind, usize, u8), (BTreeMap<String, String>, String)> = BTreeMap::new();
    for k in &all {
        for i in 0..long {
            for m in [Mode::Mutate, Mode::MutateOut, Mode::Pretty, Mode::PrettyOut] {
                if !ctx.thorough && i > 2 && m != Mode::Mutate {
                    continue;
                }
                let d = Dir::new();
                let p = place(&d, *k, i);
                let g = produce(&d, &[p], m);
                alone.insert((*k, i, m as u8), (g.files, body(&g.run, &d)));
            }
        }
    }
    let name = |c: &(Vec<Kind>, Mode)| format!("{:?} {:?}", c.1, c.0);
    let judged = AtomicU64::new(0);
    ctx.sample(json!(name(&cases[60])));
    ctx.run_limit(&cases, 300, |c| name(c), |c| {
        let d = Dir::new();
        let ps: Vec<String> = c.0.iter().enumerate().map(|(i, k)| place(&d, *k, i)).collect();
        let g = produce(&d, &ps, c.1);
        let bad = |e: String| Err(Viol { key: name(c), detail: format!("{}\n--- output\n{}{}", e, clip(&g.run.stdout, 1500), clip(&g.run.stderr, 500)) });
        if let Some(e) = crashed(&g.run) {
            return bad(e);
        }
        let pretty = c.1 == Mode::Pretty || c.1 == Mode::PrettyOut;
        // pretty-print takes no configuration files
        let good = |k: Kind| {
            if pretty {
                [SolSrc, VySrc, SolAst, VyAst, NothingToMutate].contains(&k)
            } else {
                GOOD.contains(&k)
            }
        };
        let mut want = BTreeMap::new();
        let mut said = String::new();
        for (i, k) in c.0.iter().enumerate() {
            let a = &alone[&(*k, i, c.1 as u8)];
            if good(*k) && c.1 == Mode::Mutate && a.0.is_empty() {
                return bad(format!("{:?} is acceptable but yields nothing alone", k));
            }
            if good(*k) && c.1 == Mode::MutateOut && a.1.trim().is_empty() {
                return bad(format!("{:?} is acceptable but yields nothing alone", k));
            }
            if good(*k) && pretty && a.0.is_empty() && a.1.trim().is_empty() {
                return bad(format!("{:?} is acceptable but yields nothing alone", k));
            }
            if !good(*k) && !a.0.is_empty() {
                return bad(format!("{:?} is not acceptable but yields {:?}", k, a.0.keys().collect::<Vec<_>>()));
            }
            if !good(*k) && !a.1.to_lowercase().contains("unable") {
                return bad(format!("{:?} is not acceptable but nothing is reported: {}", k, a.1));
            }
            if good(*k) && a.1.contains("Unable") {
                return bad(format!("{:?} is acceptable but refused: {}", k, a.1));
            }
            want.extend(a.0.clone());
            said += &a.1;
            judged.fetch_add(1, Ordering::Relaxed);
        }
        if let Some(e) = diff(&want, &g.files) {
            return bad(e);
        }
        // everything said about each input alone is said here (complaints may come first)
        let mut x: Vec<String> = said.lines().map(|s| s.to_string()).collect();
        let b = body(&g.run, &d);
        let mut y: Vec<String> = b.lines().map(|s| s.to_string()).collect();
        let calm = |v: &Vec<String>| -> Vec<String> { v.iter().filter(|l| !l.contains("Unable")).cloned().collect() };
        if calm(&x) != calm(&y) {
            return bad(format!("the output for the acceptable inputs is not theirs alone:\n{}", said));
        }
        x.sort();
        y.sort();
        if x != y {
            return bad(format!("what is said differs from what is said alone:\n{}", said));
        }
        Ok(())
    });
    // names: recognition goes by contents
    let names = ["a b.sol", "ü.sol", "x.txt", "noext", ".hidden.sol", "p.sol.vy", "p.vy", "p.ast", "p.json", "UPPER.SOL", "p.", "a'b\".sol", "p.mgnx", "deep/er/p.sol", "p_0.sol", "p.sol_json.ast", "$HOME.sol", "a;b.vy", "*.sol", "p.MGNX"];
    let mut ncases = vec![];
    for (l, f) in INPUTS {
        for n in names {
            for rel in 0..6 {
                ncases.push((l, f, n, rel));
            }
        }
    }
    let nname = |c: &(Lang, Form, &str, i32)| format!("{:?} {:?} named {} ({})", c.0, c.1, c.2, c.3);
    ctx.run_limit(&ncases, 300, |c| nname(c), |c| {
        let (l, f, n, rel) = *c;
        let text = contents(l, f);
        let e = cli::ext(l);
        let reference = Dir::new();
        let rp = reference.put("in/p", &text);
        let base = Path::new(n).file_name().unwrap().to_str().unwrap();
        for m in [Mode::Mutate, Mode::MutateOut, Mode::Pretty, Mode::PrettyOut] {
            let _ = std::fs::remove_dir_all(reference.p("out"));
            let r = produce(&reference, &[rp.clone()], m);
            let d = Dir::new();
            if rel == 3 {
                // a link to a file of another name
                let real = d.put("real/q", &text);
                let link = d.p(&format!("in/{}", n));
                std::fs::create_dir_all(Path::new(&link).parent().unwrap()).unwrap();
                std::os::unix::fs::symlink(real, link).unwrap();
            } else if rel == 4 {
                d.put(&format!("real/{}", n), &text);
                std::os::unix::fs::symlink(d.p("real"), d.p("in")).unwrap();
            } else {
                let q = d.put(&format!("in/{}", n), &text);
                if rel == 5 {
                    use std::os::unix::fs::PermissionsExt;
                    std::fs::set_permissions(&q, std::fs::Permissions::from_mode(0o444)).unwrap();
                }
            }
            let p = match rel {
                0 | 3 | 4 | 5 => d.p(&format!("in/{}", n)),
                1 => format!("./in/{}", n),
                _ => format!("in/../in/./{}", n),
            };
            let g = produce(&d, &[p], m);
            let bad = |x: String| Err(Viol { key: format!("{} {:?}", nname(c), m), detail: format!("{}\n--- output\n{}{}", x, clip(&g.run.stdout, 1500), clip(&g.run.stderr, 500)) });
            if let Some(x) = crashed(&g.run) {
                return bad(x);
            }
            let fix = |k: &String| -> String {
                if let Some(r) = k.strip_prefix("p_") {
                    format!("{}_{}", base, r)
                } else if base.ends_with(&format!(".{}", e)) {
                    base.to_string()
                } else {
                    format!("{}.{}", base, e)
                }
            };
            let want: BTreeMap<String, String> = r.files.iter().map(|(k, v)| (fix(k), v.clone())).collect();
            if want.is_empty() && (m == Mode::Mutate || m == Mode::Pretty) {
                return bad(format!("nothing made from a file named p\n{}", r.run.stdout));
            }
            if let Some(x) = diff(&want, &g.files) {
                return bad(x);
            }
            if (m == Mode::MutateOut || m == Mode::PrettyOut) && r.run.text() != g.run.text() {
                return bad(format!("standard output differs from\n{}", r.run.stdout));
            }
            judged.fetch_add(1, Ordering::Relaxed);
        }
        Ok(())
    });
    // inputs with the same base name
    let d = Dir::new();
    let a = d.put("in/x/p.ast", &ast_of(Lang::Sol, SOL));
    let b = d.put("in/y/p.ast", &ast_of(Lang::Sol, "contract D { function h(uint256 z) public { z = z + 1; } }"));
    for m in [Mode::Mutate, Mode::Pretty] {
        let mut texts = vec![];
        for p in [&a, &b] {
            let _ = std::fs::remove_dir_all(d.p("out"));
            texts.extend(produce(&d, &[p.clone()], m).files.into_values());
        }
        let _ = std::fs::remove_dir_all(d.p("out"));
        let got: BTreeSet<String> = produce(&d, &[a.clone(), b.clone()], m).files.into_values().collect();
        if let Some(t) = texts.iter().find(|t| !got.contains(*t)) {
            ctx.violation(Viol { key: format!("two inputs x/p.ast and y/p.ast with one output directory, {:?}", m), detail: format!("this output of the first input alone is lost:\n{}", t) });
        }
    }
    finish_notes(ctx, judged.load(Ordering::Relaxed), "all ordered lists of one or two of 23 kinds of input (7 acceptable, 16 not), of three over 6 kinds (thorough: 23), in four modes; 20 file names x 4 inputs x 6 ways to name the file (absolute, relative, through . and .., a link to it, a linked directory, read-only)", "a state is an (input kind, position, mode) within a list; a transition is one run of the built tool, compared with the runs on each input alone");
    ctx.assume("the stand-in compilers accept exactly the harness's grammar of the languages");
}

// ---------------------------------------------------------------------------------------------------
// C18

struct Place {
    what: &'static str,
    input: &'static str,
    out: Option<&'static str>,
    cwd: &'static str,
    tmp: &'static str,
    relative: bool,
}

pub fn c18(ctx: &Ctx) {
    let places = [
        Place { what: "apart", input: "in", out: Some("out"), cwd: "work", tmp: "tmp", relative: false },
        Place { what: "default output directory", input: "in", out: None, cwd: "work", tmp: "tmp", relative: false },
        Place { what: "output beside the input", input: "in", out: Some("in"), cwd: "work", tmp: "tmp", relative: false },
        Place { what: "all in the working directory", input: "work", out: Some("work"), cwd: "work", tmp: "tmp", relative: true },
        Place { what: "output below the input", input: "in", out: Some("in/deep/er"), cwd: "in", tmp: "tmp", relative: true },
        Place { what: "temporary directory is the input's", input: "in", out: Some("out"), cwd: "work", tmp: "in", relative: false },
        Place { what: "temporary directory is the output's", input: "in", out: Some("out"), cwd: "work", tmp: "out", relative: false },
        Place { what: "temporary directory is the working directory", input: "work", out: Some("out"), cwd: "work", tmp: "work", relative: true },
        Place { what: "all one", input: "one", out: Some("one"), cwd: "one", tmp: "one", relative: true },
        Place { what: "output above the input", input: "out/in", out: Some("out"), cwd: "out", tmp: "tmp", relative: true },
    ];
    let modes: Vec<Vec<&'static str>> = {
        let o = ["--print-original", "--save-config-files", "--validate-mutants", "--stdout"];
        let mut v: Vec<Vec<&'static str>> = vec![];
        for k in 0..16u32 {
            let mut m = vec!["mutate", "-a", "--num-mutants", "3", "--rng-seed", "5"];
            m.extend((0..4).filter(|i| k >> i & 1 == 1).map(|i| o[i]));
            v.push(m);
        }
        v.push(vec!["pretty-print"]);
        v.push(vec!["pretty-print", "--stdout"]);
        v
    };
    let answers = ["", "RRRRRR", "KRBAX"];
    struct C {
        place: usize,
        mode: usize,
        kind: usize,
        answers: usize,
        links: bool,
        /// the output directory does not exist yet
        fresh: bool,
    }
    let kinds = ["p.sol", "p.vy", "p.sol.ast", "p.vy.ast", "pc.mgnx", "bad.sol", "p.mgnx", "p_0.sol"];
    let mut cases = vec![];
    for place in 0..places.len() {
        for mode in 0..modes.len() {
            for kind in 0..kinds.len() {
                for a in 0..answers.len() {
                    if a > 0 && !modes[mode].contains(&"--validate-mutants") {
                        continue;
                    }
                    for links in [false, true] {
                        cases.push(C { place, mode, kind, answers: a, links, fresh: false });
                    }
                    if ["apart", "default output directory", "output below the input", "temporary directory is the input's", "temporary directory is the working directory"].contains(&places[place].what) {
                        cases.push(C { place, mode, kind, answers: a, links: false, fresh: true });
                    }
                }
            }
        }
    }
    let name = |c: &C| format!("{} | {} | {} | answers {}{}", places[c.place].what, modes[c.mode].join(" "), kinds[c.kind], answers[c.answers], if c.links { " | output names are links to the inputs" } else if c.fresh { " | no output directory yet" } else { "" });
    ctx.sample(json!(name(&cases[100])));
    ctx.sample(json!(name(&cases[cases.len() - 3])));
    let checked = AtomicU64::new(0);
    ctx.run_limit(&cases, 300, |c| name(c), |c| {
        let p = &places[c.place];
        let m = &modes[c.mode];
        let d = Dir::new();
        for x in [p.input, p.cwd, p.tmp] {
            d.mkdir(x);
        }
        let k = kinds[c.kind];
        let at = |n: &str| format!("{}/{}", p.input, n);
        let rel = |n: &str| -> String {
            let full = d.p(&at(n));
            if !p.relative {
                return full;
            }
            let c = format!("{}/", d.p(p.cwd));
            full.strip_prefix(&c).map(|s| s.to_string()).unwrap_or(full)
        };
        let mut inputs = vec![at(k)];
        let base; // of the file that is mutated
        let lang;
        match k {
            "p.sol" | "p_0.sol" => {
                d.put(&at(k), SOL);
                base = k;
                lang = Lang::Sol;
            }
            "p.vy" => {
                d.put(&at(k), VY);
                base = k;
                lang = Lang::Vy;
            }
            "p.sol.ast" => {
                d.put(&at(k), &ast_of(Lang::Sol, SOL));
                base = k;
                lang = Lang::Sol;
            }
            "p.vy.ast" => {
                d.put(&at(k), &ast_of(Lang::Vy, VY));
                base = k;
                lang = Lang::Vy;
            }
            "bad.sol" => {
                d.put(&at(k), "not a program");
                base = k;
                lang = Lang::Sol;
            }
            _ => {
                // p.mgnx would also be the name of the saved configuration of p.sol
                d.put(&at("p.sol"), SOL);
                inputs.push(at("p.sol"));
                d.put(&at(k), &json!({"language": "Solidity", "filenames": [rel("p.sol")]}).to_string());
                base = "p.sol";
                lang = Lang::Sol;
            }
        }
        let out = p.out.map(|s| s.to_string()).unwrap_or(format!("{}/out", p.cwd));
        let stdout = m.contains(&"--stdout");
        // decoys: everywhere, with names close to what the tool writes or uses on the way
        let decoys = ["p", "p.sol~", "p.sol_3.sol", "p.sol_00.sol", "p.sol_json.ast", "p.sol.json", "p.vy.json", "p.vy.ast_json.ast", "mutant.sol", "mutagenyx", "p.sol_json.ast.bak", "tmp.sol", "combined.json", "scratch"];
        for dir in [p.input, p.cwd, p.tmp, out.as_str(), "elsewhere"] {
            if c.fresh && dir == out {
                continue;
            }
            for n in decoys {
                let r = format!("{}/{}", dir, n);
                if !d.path.join(&r).exists() {
                    d.put(&r, &format!("decoy {}", r));
                }
            }
        }
        let e = cli::ext(lang);
        let stem = base.rsplit_once('.').map(|x| x.0).unwrap_or(base);
        let printed = if base.ends_with(&format!(".{}", e)) { base.to_string() } else { format!("{}.{}", base, e) };
        let mut allowed: BTreeSet<String> = BTreeSet::new();
        if !stdout {
            if m[0] == "mutate" {
                for i in 0..3 {
                    allowed.insert(format!("{}/{}_{}.{}", out, base, i, e));
                }
                if m.contains(&"--print-original") {
                    allowed.insert(format!("{}/{}", out, printed));
                }
                if m.contains(&"--save-config-files") {
                    allowed.insert(format!("{}/{}.mgnx", out, stem));
                }
            } else {
                allowed.insert(format!("{}/{}", out, printed));
            }
        }
        // the input given through a link, and output names that lead back to the inputs
        let mut given = rel(k);
        if c.links {
            let t = d.p(&at(k));
            d.mkdir("links");
            let l = d.p(&format!("links/{}", k));
            std::os::unix::fs::symlink(&t, &l).unwrap();
            given = l;
            d.mkdir(&out);
            for (i, a) in allowed.iter().enumerate() {
                let target = if i % 2 == 0 { d.p(&inputs[0]) } else { d.p(inputs.last().unwrap()) };
                if !d.path.join(a).exists() {
                    let _ = std::os::unix::fs::symlink(&target, d.p(a));
                }
            }
        } else {
            // files of earlier runs may be replaced
            for a in &allowed {
                if !c.fresh && !inputs.contains(a) && c.place % 2 == 0 {
                    d.put(a, "from an earlier run");
                }
            }
        }
        for i in &inputs {
            allowed.remove(i);
        }
        let mut a = strs(m);
        a.extend(strs(&["-f", &given]));
        if let Some(o) = p.out {
            let full = d.p(o);
            let c = d.p(p.cwd);
            let r = if !p.relative {
                full.clone()
            } else if full == c {
                ".".into()
            } else {
                full.strip_prefix(&format!("{}/", c)).map(|s| s.to_string()).unwrap_or(full.clone())
            };
            a.extend(strs(&["-o", &r]));
        }
        let bin = d.compilers(&["solc", "vyper"]);
        let before = cli::snapshot(&d.path);
        let (r, _) = go(&d, &a, &Opts { cwd: Some(d.p(p.cwd)), ..Default::default() }.env("PATH", &bin).env("TMPDIR", &d.p(p.tmp)).env("MC_FAKE_ANSWERS", answers[c.answers]));
        let after = cli::snapshot(&d.path);
        let bad = |x: String| Err(Viol { key: name(c), detail: format!("{}\n--- output\n{}{}", x, clip(&r.stdout, 1500), clip(&r.stderr, 500)) });
        if let Some(x) = crashed(&r) {
            return bad(x);
        }
        for (f, v) in &before {
            match after.get(f) {
                None => return bad(format!("{} is gone", f)),
                Some(w) if w != v && !allowed.contains(f) => return bad(format!("{} is changed{}", f, if inputs.contains(f) { ", an input" } else { "" })),
                _ => {}
            }
        }
        for (f, v) in &after {
            if before.contains_key(f) || allowed.contains(f) {
                continue;
            }
            let dir_ok = v.is_none() && !stdout && (out == *f || out.starts_with(&format!("{}/", f)));
            if !dir_ok {
                return bad(format!("{} is left behind", f));
            }
        }
        checked.fetch_add(after.len() as u64, Ordering::Relaxed);
        Ok(())
    });
    ctx.note("files compared before and after", json!(checked.load(Ordering::Relaxed)));
    finish_notes(ctx, cases.len() as u64, "10 layouts of input, output, working and temporary directories x all 16 combinations of print-original, save-config, validate, stdout, and pretty-print x 8 inputs x accepting/rejecting/dying compilers x output names that are links to the inputs x an output directory that exists or not; decoy files in every directory", "a state is a (layout, options, input, compiler behaviour) combination; a transition is one run of the built tool; the whole directory tree is compared before and after");
    ctx.assume("the tool's effects are confined to the scratch tree the harness compares (paths it is given, working directory, TMPDIR)");
}

// ---------------------------------------------------------------------------------------------------
// C19

const RICH_SOL: &str = "contract C { uint256 a; uint256 b; bool c; address p; function g(uint256 x, uint256 y) public returns (uint256) { return x; } function f(uint256 x, uint256 y) public { require(c); a = x + y; b = x << y; b = x & y; if (x < y) { a = 3; } c = c && c; a = g(a, b); c = !c; unchecked { a = x; } p.delegatecall(abi.encode(x)); } }";
const RICH_VY: &str = "a: uint256\nb: uint256\nc: bool\n\n@internal\ndef g(x: uint256, y: uint256) -> uint256:\n    return x\n\n@external\ndef f(x: uint256, y: uint256):\n    self.a = x + y\n    self.b = x << y\n    self.b = x & y\n    if x < y:\n        self.a = 3\n    self.c = self.c and self.c\n    self.a = self.g(self.a, self.b)\n    self.c = not self.c\n";

pub fn c19(ctx: &Ctx) {
    let progs = [Prog::new(Lang::Sol, RICH_SOL, &[]), Prog::new(Lang::Vy, RICH_VY, &[])];
    let d = Dir::new();
    // the listed names
    let listed = |flag: &str| -> Vec<String> {
        let r = cli::run(&d, &["algorithms", flag], &Opts::default());
        r.stdout.lines().filter(|l| !l.starts_with(' ') && !l.trim().is_empty()).filter_map(|l| l.split_whitespace().next()).map(|s| s.to_string()).collect()
    };
    let every: Vec<String> = model::algorithms(Lang::Sol).iter().map(|s| s.to_string()).collect();
    for f in ["-l", "-d"] {
        let l = listed(f);
        let (x, y): (BTreeSet<&String>, BTreeSet<&String>) = (l.iter().collect(), every.iter().collect());
        if x != y || l.len() != every.len() {
            ctx.violation(Viol { key: format!("algorithms {}", f), detail: format!("listed: {:?}", l) });
        }
    }
    let mut names: Vec<String> = listed("-l");
    if names.is_empty() {
        names = every.clone();
    }
    // (language, names given, through a file, all)
    let mut cases: Vec<(usize, Vec<String>, bool, bool)> = vec![];
    for p in 0..2 {
        for cfg in [false, true] {
            cases.push((p, vec![], cfg, true));
            cases.push((p, vec![], cfg, false));
            cases.push((p, vec![names[0].clone()], cfg, true));
            for a in &names {
                cases.push((p, vec![a.clone()], cfg, false));
                cases.push((p, vec![a.clone(), a.clone()], cfg, false));
                cases.push((p, names.iter().filter(|x| *x != a).cloned().collect(), cfg, false));
                for b in &names {
                    if a != b {
                        cases.push((p, vec![a.clone(), b.clone()], cfg, false));
                    }
                }
                for bad in [a.to_lowercase(), format!("{}s", a), format!(" {}", a), a[..a.len() - 1].to_string(), String::new(), format!("{},{}", a, names[0]), a.to_uppercase()] {
                    cases.push((p, vec![bad.clone()], cfg, false));
                    cases.push((p, vec![names[3].clone(), bad], cfg, false));
                }
            }
            let mut rev = names.clone();
            rev.reverse();
            cases.push((p, rev, cfg, false));
            cases.push((p, names.clone(), cfg, false));
        }
        if ctx.thorough {
            let n = names.len();
            for k in 0..1u32 << n {
                // every subset; for Vyper only of the algorithms it has
                let s: Vec<String> = (0..n).filter(|i| k >> i & 1 == 1).map(|i| names[i].clone()).collect();
                if p == 1 && s.iter().any(|a| !progs[1].sites.contains_key(a)) {
                    continue;
                }
                cases.push((p, s, false, false));
            }
        } else {
            for k in 0..1u32 << 8 {
                let s: Vec<String> = (0..8).filter(|i| k >> i & 1 == 1).map(|i| names[(i * 2 + p) % names.len()].clone()).collect();
                cases.push((p, s, false, false));
            }
        }
    }
    let name = |c: &(usize, Vec<String>, bool, bool)| format!("{} {} {}{:?}", if c.0 == 0 { "Solidity" } else { "Vyper" }, if c.2 { "file" } else { "options" }, if c.3 { "all " } else { "" }, c.1);
    ctx.sample(json!(name(&cases[40])));
    ctx.sample(json!({"program": RICH_SOL}));
    let used_n = AtomicU64::new(0);
    ctx.run_limit(&cases, 300, |c| name(c), |c| {
        let p = &progs[c.0];
        let d = Dir::new();
        let f = d.put("p.ast", &p.ast.to_string());
        let total: usize = p.sites.values().map(|s| s.len()).sum();
        let mut a = strs(&["mutate", "-o", &d.p("out"), "--num-mutants", &(total + 5).to_string(), "--rng-seed", "6"]);
        if c.2 {
            let mut v = json!({"language": lang_name(p.lang), "filenames": [f], "mutations": c.1});
            if c.3 {
                v["all-mutations"] = json!(true);
            }
            a.extend(strs(&["-f", &d.put("c.mgnx", &v.to_string())]));
        } else {
            a.extend(strs(&["-f", &f]));
            for m in &c.1 {
                a.push(format!("--mutation={}", m));
            }
            if c.3 {
                a.push("-a".into());
            }
        }
        let (r, _) = go(&d, &a, &Opts::default());
        let bad = |x: String| Err(Viol { key: name(c), detail: format!("{}\n--- output\n{}{}", x, clip(&r.stdout, 1500), clip(&r.stderr, 500)) });
        if let Some(x) = crashed(&r) {
            return bad(x);
        }
        let files = cli::files(&d.p("out"));
        let used: BTreeSet<String> = r.announced().into_iter().map(|x| x.0).collect();
        used_n.fetch_add(used.len() as u64, Ordering::Relaxed);
        let unknown: Vec<&String> = c.1.iter().filter(|a| !every.contains(a)).collect();
        if !unknown.is_empty() && !c.3 {
            if !r.complains() {
                return bad(format!("{:?} is unknown, but nothing is reported", unknown));
            }
            if !files.is_empty() {
                return bad(format!("{:?} is unknown, but mutants are written", unknown));
            }
            return Ok(());
        }
        let sel: BTreeSet<String> = if c.3 { every.iter().cloned().collect() } else { c.1.iter().cloned().collect() };
        let can: BTreeSet<String> = sel.iter().filter(|a| p.sites.contains_key(*a)).cloned().collect();
        if can.is_empty() {
            if !files.is_empty() || !used.is_empty() {
                return bad("mutants although no selected algorithm applies".into());
            }
            if !r.complains() {
                return bad("no selected algorithm applies, but nothing is reported".into());
            }
            return Ok(());
        }
        if let Some(x) = used.iter().find(|a| !can.contains(*a)) {
            return bad(format!("{} is used, which is not selected or not applicable", x));
        }
        if let Some(x) = can.iter().find(|a| !used.contains(*a)) {
            return bad(format!("{} is selected and applicable, but not used", x));
        }
        // the announced algorithm is the one that was used
        if !ctx.thorough || c.1.len() < 3 {
            for (algo, path) in r.announced() {
                let t = std::fs::read_to_string(&path).unwrap_or_default();
                let mut m = crate::explore::Matcher::new(p.lang, &p.sites[&algo]);
                if !matches!(m.of(&t), Ok(v) if !v.is_empty()) {
                    return bad(format!("{} is not a mutant of {}\n{}", path, algo, t));
                }
            }
        }
        Ok(())
    });
    // both a selection on the command line and one in a configuration file: the file's replaces the
    // other for the inputs it names, and for no other input
    let some: Vec<(Vec<String>, bool)> = {
        let mut v: Vec<(Vec<String>, bool)> = vec![(vec![], false), (vec![], true)];
        v.extend(names.iter().map(|a| (vec![a.clone()], false)));
        v.push((vec![names[0].clone(), names[4].clone()], false));
        v.push((vec![names[2].clone()], true));
        v
    };
    let mut both: Vec<(usize, usize, usize, u8)> = vec![];
    for p in 0..2 {
        for x in 0..some.len() {
            for y in 0..some.len() {
                // without another input, with one before, with one after
                for other in 0..3u8 {
                    if !ctx.thorough && other > 0 && (x * 7 + y) % 4 != 0 {
                        continue;
                    }
                    both.push((p, x, y, other));
                }
            }
        }
    }
    let bname = |c: &(usize, usize, usize, u8)| format!("{} options {:?}, file {:?}, other input {}", if c.0 == 0 { "Solidity" } else { "Vyper" }, some[c.1], some[c.2], ["none", "before", "after"][c.3 as usize]);
    ctx.count("selections on the command line and in a file", both.len() as u64);
    ctx.run_limit(&both, 300, |c| bname(c), |c| {
        let p = &progs[c.0];
        let d = Dir::new();
        let total: usize = p.sites.values().map(|s| s.len()).sum();
        let mut a = strs(&["mutate", "-o", &d.p("out"), "--num-mutants", &(total + 5).to_string(), "--rng-seed", "6"]);
        let ((on, oall), (fnames, fall)) = (&some[c.1], &some[c.2]);
        let f = d.put("first.ast", &p.ast.to_string());
        let g = d.put("second.ast", &p.ast.to_string());
        let mut v = json!({"language": lang_name(p.lang), "filenames": [f], "mutations": fnames});
        if *fall {
            v["all-mutations"] = json!(true);
        }
        let cf = d.put("c.mgnx", &v.to_string());
        if c.3 == 1 {
            a.extend(strs(&["-f", &g]));
        }
        a.extend(strs(&["-f", &cf]));
        if c.3 == 2 {
            a.extend(strs(&["-f", &g]));
        }
        for m in on {
            a.push(format!("--mutation={}", m));
        }
        if *oall {
            a.push("-a".into());
        }
        let (r, _) = go(&d, &a, &Opts::default());
        let bad = |x: String| Err(Viol { key: bname(c), detail: format!("{}\n--- output\n{}{}", x, clip(&r.stdout, 1500), clip(&r.stderr, 500)) });
        if let Some(x) = crashed(&r) {
            return bad(x);
        }
        let sel = |n: &Vec<String>, all: bool| -> BTreeSet<String> { (if all { &every } else { n }).iter().filter(|a| p.sites.contains_key(*a)).cloned().collect() };
        let opt = sel(on, *oall);
        let file = if fnames.is_empty() && !fall { opt.clone() } else { sel(fnames, *fall) };
        let ann = r.announced();
        let used = |n: &str| -> BTreeSet<String> { ann.iter().filter(|x| std::path::Path::new(&x.1).file_name().map(|f| f.to_string_lossy().starts_with(n)).unwrap_or(false)).map(|x| x.0.clone()).collect() };
        let got = used("first.");
        if got != file {
            return bad(format!("the file's input: used {:?}, selected {:?}", got, file));
        }
        if c.3 > 0 {
            let got = used("second.");
            if got != opt {
                return bad(format!("the other input: used {:?}, selected {:?}", got, opt));
            }
        }
        Ok(())
    });
    ctx.note("algorithm uses seen", json!(used_n.load(Ordering::Relaxed)));
    finish_notes(ctx, (cases.len() + both.len()) as u64, "every single algorithm, every ordered pair, every complement, all, none, repeated and unknown names, on the command line and in a configuration file, and 256 further subsets (thorough: all 2^17 subsets for Solidity, 2^14 for Vyper), with enough mutants requested that every selected algorithm has to be used; and selections on the command line and in a configuration file at once, with and without a second input", "a state is a selection; a transition is one run of the built tool");
}

// ---------------------------------------------------------------------------------------------------
// C20

pub fn c20(ctx: &Ctx) {
    // (language, form, mode arguments, where faults strike)
    let modes: Vec<(Vec<&'static str>, bool)> = vec![
        (vec!["mutate", "-a", "--num-mutants", "3", "--rng-seed", "5"], false),
        (vec!["mutate", "-a", "--num-mutants", "3", "--rng-seed", "5", "--print-original", "--save-config-files"], false),
        (vec!["mutate", "-a", "--num-mutants", "2", "--rng-seed", "5", "--validate-mutants"], false),
        (vec!["mutate", "-a", "--num-mutants", "2", "--rng-seed", "5", "--stdout", "--print-original", "--save-config-files"], true),
        (vec!["pretty-print"], false),
        (vec!["pretty-print", "--stdout"], true),
    ];
    struct C {
        lang: Lang,
        form: Form,
        mode: usize,
        /// also the temporary files
        tmp: bool,
        fault: char,
        k: usize,
    }
    let small = |l: Lang| match l {
        Lang::Sol => "contract C { uint256 a; function f(uint256 x) public { a = x + 1; a = x - 2; } }",
        Lang::Vy => "a: uint256\n\n@external\ndef f(x: uint256):\n    self.a = x + 1\n    self.a = x - 2\n",
    };
    let text_of = |l: Lang, f: Form| if f == Form::Ast { ast_of(l, small(l)) } else { small(l).to_string() };
    let start = |d: &Dir, l: Lang, f: Form, mode: usize, tmp: bool, fault: Option<(usize, char)>| -> (Run, usize) {
        let (m, stdout) = &modes[mode];
        let i = d.put(&format!("in/{}", input_name(l, f)), &text_of(l, f));
        let mut a = strs(m);
        a.extend(strs(&["-f", &i]));
        if !stdout {
            a.extend(strs(&["-o", &d.p("out")]));
        }
        let prefix = if tmp {
            d.p("tmp")
        } else if *stdout {
            "1".to_string()
        } else {
            d.p("out")
        };
        let (k, c) = fault.unwrap_or((0, 'e'));
        let log = d.p("faults.log");
        let _ = std::fs::remove_file(&log);
        // the stand-in compilers do not inherit the preload: the tool's own calls are the ones to fail
        let o = Opts { preload: true, ..Default::default() }.env("MC_FAULT", &format!("{}:{}:{}", k, c, prefix)).env("MC_FAULT_LOG", &log).env("MC_HASH_SEED", "1");
        let (r, _) = go(d, &a, &o);
        let n = std::fs::metadata(&log).map(|m| m.len() as usize).unwrap_or(0);
        let _ = std::fs::remove_file(&log);
        (r, n)
    };
    let mut cases = vec![];
    let mut reference: BTreeMap<(usize, usize, bool), (BTreeMap<String, String>, String, Vec<(String, String)>)> = BTreeMap::new();
    let mut points = 0u64;
    for (li, (l, f)) in INPUTS.iter().enumerate() {
        for mode in 0..modes.len() {
            for tmp in [false, true] {
                let d = Dir::new();
                let (r, n) = start(&d, *l, *f, mode, tmp, None);
                if crashed(&r).is_some() || r.stdout.contains("Unable") {
                    ctx.violation(Viol { key: format!("{:?} {:?} {:?} without faults", l, f, modes[mode].0), detail: format!("{}{}", r.stdout, r.stderr) });
                    continue;
                }
                let root = d.path.to_str().unwrap().to_string();
                let files = cli::files(&d.p("out")).into_iter().map(|(k, v)| (k, v.replace(&root, "@"))).collect();
                let ann = r.announced().into_iter().map(|(a, p)| (a, p.replace(&root, "@"))).collect();
                reference.insert((li, mode, tmp), (files, r.text().replace(&root, "@"), ann));
                points += n as u64;
                let step = if ctx.thorough || n <= 60 { 1 } else { 1 };
                for k in (1..=n).step_by(step) {
                    for fault in ['e', 'i', 's'] {
                        cases.push(C { lang: *l, form: *f, mode, tmp, fault, k });
                    }
                }
            }
        }
    }
    ctx.count("output calls", points);
    let name = |c: &C| format!("{:?} {:?} {} {} call {} fails with {}", c.lang, c.form, modes[c.mode].0.join(" "), if c.tmp { "temporary" } else { "output" }, c.k, c.fault);
    if !cases.is_empty() {
        ctx.sample(json!(name(&cases[cases.len() / 2])));
    }
    ctx.run_limit(&cases, 300, |c| name(c), |c| {
        let li = INPUTS.iter().position(|x| *x == (c.lang, c.form)).unwrap();
        let (files, text, ann) = &reference[&(li, c.mode, c.tmp)];
        let d = Dir::new();
        let (r, _) = start(&d, c.lang, c.form, c.mode, c.tmp, Some((c.k, c.fault)));
        let root = d.path.to_str().unwrap().to_string();
        let got: BTreeMap<String, String> = cli::files(&d.p("out")).into_iter().map(|(k, v)| (k, v.replace(&root, "@"))).collect();
        let said = r.text().replace(&root, "@");
        let bad = |x: String| Err(Viol { key: name(c), detail: format!("{}\n--- output\n{}{}", x, clip(&r.stdout, 1500), clip(&r.stderr, 700)) });
        if r.timeout || r.signal.is_some() {
            return bad("the tool hangs or dies".into());
        }
        if c.fault != 'e' {
            if let Some(x) = diff(files, &got) {
                return bad(x);
            }
            if said != *text {
                return bad(format!("it says something else than\n{}", text));
            }
            return Ok(());
        }
        let reported = r.code != Some(0) || said.to_lowercase().contains("unable") || r.stderr.to_lowercase().contains("error") || r.stderr.contains("panicked");
        // announced files are complete
        for (_, p) in r.announced() {
            let rel = p.replace(&root, "@").trim_start_matches("@/out/").to_string();
            let t = got.get(&rel);
            let whole = t.map_or(false, |t| files.values().any(|v| v == t) || (c.tmp && complete(c.lang, t)));
            if !whole {
                return bad(format!("{} is announced but {}", rel, if t.is_some() { "not complete" } else { "not there" }));
            }
        }
        for (line, f) in [("Pretty-printing original", input_name(c.lang, c.form)), ("Writing configuration", format!("{}.mgnx", input_name(c.lang, c.form).rsplit_once('.').unwrap().0))] {
            if said.contains(line) && !reported {
                let full = got.iter().any(|(k, v)| k.starts_with(&f) && files.get(k) == Some(v));
                if !full {
                    return bad(format!("{} but the file is not complete, and no error is reported", line));
                }
            }
        }
        // nothing is lost silently
        if !reported {
            if c.tmp {
                // a failure on the way may cost a candidate, but then fewer mutants are announced
                let n = r.announced().len();
                if modes[c.mode].0.contains(&"--validate-mutants") && n == ann.len() {
                    return Ok(());
                }
            }
            if let Some(x) = diff(files, &got) {
                return bad(format!("no error is reported, but {}", x));
            }
            if said != *text {
                return bad(format!("no error is reported, but the output is not\n{}", text));
            }
        }
        Ok(())
    });
    finish_notes(ctx, cases.len() as u64, "every output call (open for writing, write) of each run, on output files, standard output and temporary files, made to fail (no space), be interrupted, or be cut short; 6 modes x 4 inputs", "a state is a fault point; a transition is one run of the built tool with that fault");
    ctx.assume("output goes through the C library's open and write calls, which the harness intercepts");
}

fn complete(l: Lang, t: &str) -> bool {
    match l {
        Lang::Sol => crate::sol::parse_mutant(t).is_ok(),
        Lang::Vy => crate::vy::parse_mutant(t).is_ok(),
    }
}

#[allow(dead_code)]
fn unused(_: Value) {}
