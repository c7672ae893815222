//! C03, C04, C05, C08, C09: the exploration of explore.rs judged against the model.
use crate::c07;
use crate::explore::*;
use crate::model;
use crate::run::*;
use crate::tool::Lang;
use crate::{gen_sol as gs, gen_vy as gv};
use serde_json::{json, Value};
use std::collections::{BTreeSet, HashSet};
use std::sync::atomic::{AtomicU64, Ordering};

#[derive(Clone, Copy, PartialEq)]
pub enum Judge {
    OneChange,
    Coverage,
    Functions,
    Crash,
    Comment,
}

pub struct Stats {
    runs: AtomicU64,
    mutants: AtomicU64,
    sites: AtomicU64,
    programs: AtomicU64,
}

pub struct Case {
    pub lang: Lang,
    pub src: String,
    pub functions: Vec<&'static str>,
    /// form of the AST, see explore::FORMS
    pub form: u8,
}

fn fail(c: &Case, algo: &str, index: Option<usize>, script: &[u32], detail: String) -> Viol {
    let mut key = format!("{} | {}", algo, c.src);
    if !c.functions.is_empty() {
        key = format!("functions {:?} | {}", c.functions, key);
    }
    if c.form > 0 {
        key = format!("{} | {}", FORMS[c.form as usize], key);
    }
    Viol { key, detail: format!("algorithm {} site {:?} draws {:?}\n{}", algo, index, script, detail) }
}

/// sites of the model that the run may use
fn allowed_sites(c: &Case, ast: &Value, algo: &str) -> Vec<model::Site> {
    let mut s = model::sites(c.lang, ast, algo);
    if !c.functions.is_empty() {
        let fns: Vec<String> = model::nodes(c.lang, ast)
            .into_iter()
            .filter(|(_, n)| {
                let k = model::kind(c.lang, n);
                (k == "FunctionDefinition" || k == "FunctionDef") && c.functions.iter().any(|f| n["name"] == *f)
            })
            .map(|(p, _)| p)
            .collect();
        s.retain(|x| fns.iter().any(|f| x.ptr == *f || x.ptr.starts_with(&format!("{}/", f))));
    }
    s
}

/// the largest number of things the algorithm chooses from in this program: the alphabet of draws
fn arity(l: Lang, ast: &Value, algo: &str) -> u32 {
    let mut m = match algo {
        "Integer" | "IfStatement" => 3,
        "Assignment" => 4,
        "DeleteStatement" | "SwapLines" | "UncheckedBlock" | "FunctionCall" | "SwapFunctionArguments" => 3,
        _ => 6,
    };
    let lists: &[&str] = match algo {
        "DeleteStatement" | "SwapLines" | "UncheckedBlock" => &["statements", "body"],
        "FunctionCall" | "SwapFunctionArguments" => &["arguments", "args"],
        _ => &[],
    };
    for (_, n) in model::nodes(l, ast) {
        for k in lists {
            m = m.max(n[*k].as_array().map_or(0, |a| a.len()));
        }
    }
    m.min(70) as u32
}

pub fn check(ctx: &Ctx, st: &Stats, c: &Case, judge: Judge, depth: usize) -> Result<(), Viol> {
    let prog = match Program::new(c.lang, &c.src).and_then(|p| p.form(c.form)) {
        Some(p) => p,
        None => {
            ctx.skipped.fetch_add(1, Ordering::Relaxed);
            return Ok(());
        }
    };
    let algos = model::algorithms(c.lang);
    let mut s = match Session::new(&prog, &c.functions, &algos) {
        Ok(s) => s,
        Err(e) => {
            if e.starts_with("error:") && judge == Judge::Crash {
                return Ok(());
            }
            return Err(fail(c, "count", None, &[], e));
        }
    };
    st.programs.fetch_add(1, Ordering::Relaxed);
    let orig_comments = if judge == Judge::Comment {
        match crate::tool::print(c.lang, &prog.ast).and_then(|t| c07::comments(c.lang, &t)) {
            Ok(x) => x,
            Err(_) => return Ok(()),
        }
    } else {
        vec![]
    };
    for algo in &algos {
        let count = s.count(algo);
        let sites = if judge == Judge::Crash { vec![] } else { allowed_sites(c, &prog.ast, algo) };
        st.sites.fetch_add(sites.len().max(count) as u64, Ordering::Relaxed);
        let coverage = judge == Judge::Coverage || judge == Judge::Functions;
        if coverage && count != sites.len() {
            return Err(fail(c, algo, None, &[], format!("{} sites reported, {} places where the change applies: {:?}", count, sites.len(), sites.iter().map(|s| &s.ptr).collect::<Vec<_>>())));
        }
        let mut m = Matcher::new(c.lang, &sites);
        let mut cand: Vec<BTreeSet<usize>> = vec![];
        let mut why = vec![];
        let n = arity(c.lang, &prog.ast, algo);
        for index in 0..count {
            let mut bad: Option<Viol> = None;
            let mut all: Option<BTreeSet<usize>> = None;
            let mut hits: HashSet<(usize, usize)> = HashSet::new();
            let mut texts: HashSet<String> = HashSet::new();
            let judge_one = |script: &[u32], o: &Outcome, m: &mut Matcher, all: &mut Option<BTreeSet<usize>>, hits: &mut HashSet<(usize, usize)>, texts: &mut HashSet<String>, bad: &mut Option<Viol>| match o {
                Outcome::Crash(e) => {
                    if judge == Judge::Crash && bad.is_none() {
                        *bad = Some(fail(c, algo, Some(index), script, e.clone()));
                    }
                }
                Outcome::Error(_) => {}
                Outcome::Text(t) => {
                    if judge == Judge::Crash || !texts.insert(t.clone()) {
                        return;
                    }
                    match m.of(t) {
                        Err(_) if judge == Judge::Comment => {
                            if bad.is_none() && c07::leaks(t, algo, m) {
                                *bad = Some(fail(c, algo, Some(index), script, format!("part of the comment is read as code\n--- mutant:\n{}", t)));
                            }
                        }
                        Err(e) => {
                            if judge == Judge::OneChange && bad.is_none() {
                                *bad = Some(fail(c, algo, Some(index), script, format!("the mutant is not a program: {}\n--- mutant:\n{}", e, t)));
                            }
                        }
                        Ok(p) if judge == Judge::Comment => {
                            if bad.is_some() {
                                return;
                            }
                            if p.is_empty() {
                                if c07::leaks(t, algo, m) {
                                    *bad = Some(fail(c, algo, Some(index), script, format!("part of the comment is read as code\n--- mutant:\n{}", t)));
                                }
                                return;
                            }
                            if let Err(e) = c07::judge(c.lang, &prog.ast, &orig_comments, t, algo, &sites, &p) {
                                *bad = Some(fail(c, algo, Some(index), script, format!("{}\n--- mutant:\n{}", e, t)));
                            }
                        }
                        Ok(p) => {
                            if p.is_empty() {
                                if bad.is_none() && judge != Judge::Coverage {
                                    *bad = Some(fail(c, algo, Some(index), script, format!("the mutant is not the original with one documented change{}\n--- mutant:\n{}", if c.functions.is_empty() { "" } else { " inside the functions" }, t)));
                                }
                                return;
                            }
                            let ss: BTreeSet<usize> = p.iter().map(|x| x.0).collect();
                            *all = Some(match all.take() {
                                None => ss,
                                Some(a) => a.intersection(&ss).copied().collect(),
                            });
                            hits.extend(p);
                        }
                    }
                }
            };
            s.explore(algo, index, n, depth, &mut |script, o| judge_one(script, o, &mut m, &mut all, &mut hits, &mut texts, &mut bad));
            if judge == Judge::Crash {
                // long runs of the same draw, then every other draw
                for k in 0..=n {
                    let (o, _) = s.run(algo, index, &vec![k; 8], n);
                    judge_one(&vec![k; 8], &o, &mut m, &mut all, &mut hits, &mut texts, &mut bad);
                }
            }
            if let Some(v) = bad {
                return Err(v);
            }
            st.mutants.fetch_add(texts.len() as u64, Ordering::Relaxed);
            if coverage {
                let ok = |hits: &HashSet<(usize, usize)>, all: &Option<BTreeSet<usize>>| -> (BTreeSet<usize>, Vec<String>) {
                    let mut o = BTreeSet::new();
                    let mut w = vec![];
                    for &si in all.iter().flatten() {
                        let miss: Vec<&str> = sites[si].alts.iter().enumerate().filter(|(j, a)| judge == Judge::Coverage && a.required && !hits.contains(&(si, *j))).map(|(_, a)| a.label.as_str()).collect();
                        if miss.is_empty() {
                            o.insert(si);
                        } else {
                            w.push(format!("{} lacks {:?}", sites[si].ptr, miss));
                        }
                    }
                    (o, w)
                };
                let (mut o, mut w) = ok(&hits, &all);
                let mut round = 0;
                while o.is_empty() && round < 2 {
                    // look further before calling an alternative unreachable
                    let (n2, d2) = [(4, 5), (2, 9)][round];
                    s.explore(algo, index, n2, d2, &mut |script, out| judge_one(script, out, &mut m, &mut all, &mut hits, &mut texts, &mut bad));
                    let r = ok(&hits, &all);
                    o = r.0;
                    w = r.1;
                    round += 1;
                }
                cand.push(o);
                why.push(w);
            }
        }
        if coverage {
            if let Some(i) = cand.iter().position(|x| x.is_empty()) {
                return Err(fail(c, algo, Some(i), &[], format!("some documented alternative is never produced: {:?}", why[i])));
            }
            if matching(&cand, sites.len()).is_none() {
                return Err(fail(c, algo, None, &[], format!("site numbers do not denote different places: {:?} for places {:?}", cand, sites.iter().map(|s| &s.ptr).collect::<Vec<_>>())));
            }
        }
        st.runs.fetch_add(std::mem::take(&mut s.runs), Ordering::Relaxed);
    }
    Ok(())
}

/// one expression form per algorithm and per kind of operand position
const SOL_REP: &[&str] = &[
    "# + #", "# - #", "# ** #", "# && #", "# || #", "# == #", "# < #", "# & #", "# ^ #", "# << #", "!#", "~#", "-#", "++#", "#++", "# ? # : #", "# = #", "# += #", "(#, #)", "[#, #]", "f(#)", "f(#, #)", "f({x: #, y: #})", "#(a)",
    "#.delegatecall(a)", "#[a]", "a[#]", "a[#:#]", "f{value: #}(#)", "new C(#)", "uint256(#)", "require(#)", "abi.decode(#, (uint256, address payable))",
];
const VY_REP: &[&str] = &[
    "# + #", "# - #", "# ** #", "# & #", "# << #", "# and #", "# or # or #", "# == #", "# < #", "# in #", "not #", "-#", "~#", "# if # else #", "f(#)", "f(#, #)", "f(#, k=#)", "#(a)", "#.m", "#[a]", "a[#]", "[#, #]", "(#, #)", "{x: #, y: #}", "S({x: #, y: #})",
];

fn rep_pairs(ts: &[&str], inner: &[String]) -> Vec<String> {
    let mut out = vec![];
    for t in ts {
        for i in inner {
            gs::plug(t, i, &mut out);
        }
    }
    let mut seen = HashSet::new();
    out.retain(|s| seen.insert(s.clone()));
    out
}

fn nested_statements() -> Vec<String> {
    let mut out: Vec<String> = gs::SIMPLE.iter().map(|s| s.to_string()).collect();
    let inner: Vec<String> = gs::STMTS.iter().map(|t| gs::fill(t, &["a = 1;", "b = 2;", "c = 3;"])).chain(["return x;", "require(a, \"m\");", "emit E(a, b);", "g(x, y);"].iter().map(|s| s.to_string())).collect();
    for t in gs::STMTS {
        for s in &inner {
            for h in 0..gs::holes(t) {
                let mut f = vec!["a = 1;", "b = 2;", "c = 3;"];
                f[h] = s;
                out.push(gs::fill(t, &f));
            }
        }
    }
    for s in &inner {
        out.push(format!("{} a = 1;", s));
        out.push(format!("uint256 z; {} return 1;", s));
    }
    out
}

pub fn sol_programs(thorough: bool) -> Vec<(&'static str, Vec<String>)> {
    let mut out: Vec<(&'static str, Vec<String>)> = vec![];
    let decls = "uint256 a; uint256 b; bool c; address p; ";
    let inf = |b: &str| format!("contract C {{ {} function f(uint256 x, uint256 y) public returns (uint256) {{ {} }} }}", decls, b);
    let d1 = gs::exprs_depth1();
    out.push(("expressions depth 1", d1.iter().map(|e| inf(&format!("{};", e))).collect()));
    let slim: Vec<String> = if thorough { d1.clone() } else { SOL_REP.iter().map(|t| gs::fill(t, &["x", "y", "1"])).collect() };
    let d2 = if thorough { gs::plug_all(&slim) } else { rep_pairs(SOL_REP, &slim) };
    out.push(("expressions depth 2", d2.iter().map(|e| inf(&format!("{};", e))).collect()));
    let mut pos = vec![];
    for e in ["x + 1", "x < y", "c && c", "x << 2", "~x", "x++", "g(x, y)", "g(x, c, y, c, 3)", "require(c)", "a = x", "p.delegatecall(h)", "-1", "2 ether", "x ** y - 1", "!c", "(x)", "x - (y - 1)", "g(g(x, y), 1)"] {
        for t in [
            "return #;", "if (#) { }", "if (#) a = 1; else b = 2;", "while (#) { }", "do { } while (#);", "for (; #; #) { }", "for (a = 1; c; a = 2) { # ; }", "uint256 z = #;", "(uint256 z, bool w) = (#, c);", "emit E(#, #);", "emit E({x: #});", "revert R(#);", "uint256[#] memory z;",
            "require(#, \"m\");", "try this.f(#, #) { a = 1; b = 2; } catch { a = 1; b = 3; }", "try this.f{value: #}(1) { } catch Error(string memory s) { # ; a = 1; }", "if (c) #;", "if (c) # ; else #;", "for (#; ; ) #;", "unchecked { #; a = 1; }", "{ #; } { a = 1; #; }", "a = #; return x;", "c = #; int8 d; d = -1; bytes32 h = h; h = 1;",
            "assembly { let z := add(1, 2) } #;", "if (c) { if (c) #; } else { #; a = 1; }", "while (c) { #; break; continue; a = 1; }", "do #; while (c);",
        ] {
            pos.push(inf(&gs::fill(t, &[e])));
        }
        pos.push(format!("contract C {{ uint256 x = {}; uint256[{}] y; mapping(uint256 => uint256[{}]) m; }}", e, e, e));
        pos.push(format!("contract C is A({}) {{ constructor() A({}) m({}, {}) {{ }} modifier m() {{ {}; _; a = 1; }} receive() external payable {{ {}; }} }}", e, e, e, e, e, e));
        pos.push(format!("uint256 constant K = {}; function free(uint256 x) {{ {}; {}; }} struct S {{ uint256[{}] a; }} enum Z {{ A }} contract D {{ event E(uint256[{}] z); error R(uint256[{}] z); }}", e, e, e, e, e, e));
        pos.push(format!("interface I {{ function f(uint256[{}] memory z) external; }} library L {{ function g() internal {{ {}; {}; }} }} abstract contract A {{ function f() public virtual; function g() public {{ return {}; }} }}", e, e, e, e));
    }
    out.push(("expression positions", pos));
    let st: Vec<String> = if thorough { gs::statements(false) } else { nested_statements() };
    out.push(("statements", st.iter().map(|s| inf(s)).collect()));
    // every form of expression as a condition, an argument, a value and an operand
    let extra = [
        "!!c", "!(!c)", "((c))", "!((c))", "!!!c", "true", "false", "!true", "c == true", "-(-x)", "~(~x)", "x - x", "g(g(x))", "this.g(x)", "a[x][y]", "p.q.delegatecall(h)", "p[x].delegatecall(h)", "q(x).delegatecall(h)", "p.delegatecall{gas: 1}(h)", "address(p).delegatecall(h)", "p.delegatecall", "f(uint256, x)",
        "type(uint256).max", "x = y = 1", "x += y -= 2", "delete a", "hex\"00\"", "payable(p)", "g(1, 2)", "g(1, \"s\", x)", "g(c ? 1 : 2)", "new uint256[](x)", "\"s\"", "g()", "g(1)", "g(\"s\", true, 5)", "g(this, this)", "g(uint256, uint256)", "g(x, [y, y])", "g((x), (y))", "a[x++]", "x-- - --y", "-1 - -1", "(x, y)", "(x + 1, y - 1)", "!c && !c || !c",
    ];
    let mut ops = vec![];
    for e in d1.iter().map(|s| s.as_str()).chain(extra) {
        ops.push(inf(&format!("if ({}) {{ a = 1; }} else if ({}) {{ }}", e, e)));
        ops.push(inf(&format!("require({}, \"m\"); require({}, E({}, 1));", e, e, e)));
        ops.push(inf(&format!("g({}, x, {}); {}; a = {}; c = !({});", e, e, e, e, e)));
    }
    out.push(("operand forms", ops));
    let mut seqs = vec![];
    let k = if thorough { 4 } else { 3 };
    let alphabet = ["a = 1;", "return x;", "{ a = 1; b = 2; }", "if (c) a = 2;", "uint256 z = 3;", "unchecked { a = 1; }", "g();"];
    let mut layer: Vec<String> = vec![String::new()];
    for _ in 0..k {
        let mut nx = vec![];
        for p in &layer {
            for s in alphabet {
                nx.push(format!("{} {}", p, s));
            }
        }
        seqs.extend(nx.iter().map(|s| inf(s)));
        layer = nx;
    }
    for n in 5..=12 {
        seqs.push(inf(&(0..n).map(|i| format!("a = x + {};", i)).collect::<Vec<_>>().join(" ")));
        seqs.push(inf(&format!("g({});", (0..n).map(|i| if i % 2 == 0 { format!("x{}", i) } else { "a".to_string() }).collect::<Vec<_>>().join(", "))));
        seqs.push(inf(&format!("g({});", (0..n).map(|i| ["a", "c", "p", "x", "this", "q"][i % 6]).collect::<Vec<_>>().join(", "))));
    }
    out.push(("statement sequences", seqs));
    let mut lits = vec![];
    for v in ["0", "1", "9", "10", "99", "0x0", "0xff", "0x00ff", "1_000", "1e3", "10e0", "1E2", "115792089237316195423570985008687907853269984665640564039457584007913129639935", "18446744073709551615", "18446744073709551616", "0xff_ff", "0x1_0", "1_0e1_0", "1_000e3", "1e18", "1e77", "1e78", "3e100", "0e5", "00", "007", "2 gwei", "5 ether", "1e18 wei", "7 seconds", "7 minutes", "7 hours", "2 weeks", "1e3 days", "0xFF", "0xdeadBEEF", ".5", "1.0", "2.5e1", "1.5", "2e-1", "0.0", "1 wei", "3 days", "0xdCad3a6d3569DF655070DEd06cb7A1b2Ccd1D3AF"] {
        for t in ["a = #;", "a = # + 1;", "a = -#;", "a = # ** 2;", "g(#);", "if (x > #) { }", "uint256[#] memory z;"] {
            lits.push(inf(&gs::fill(t, &[v])));
        }
    }
    out.push(("integer literals", lits));
    let mut asg = vec![];
    let mut tys: Vec<String> = vec!["bool".into(), "address".into(), "bytes32".into(), "string".into(), "uint".into(), "int".into(), "uint256[]".into(), "address payable".into(), "T".into(), "bytes".into()];
    for b in (8..=256).step_by(8) {
        tys.push(format!("uint{}", b));
        tys.push(format!("int{}", b));
    }
    for t in &tys {
        for op in ["=", "+=", "|="] {
            asg.push(format!("contract C {{ {} v; function f() public {{ v {} w; }} }}", t, op));
        }
        asg.push(format!("contract C {{ mapping({} => {}) v; {}[] u; function f({} q) public {{ v[q] = w; u[0] = w; }} }}", t, t, t, t));
    }
    out.push(("assignment types", asg));
    // pairs of arguments of equal, similar and different types
    let vars = ["u8", "u16", "u256", "i256", "bl", "ad", "pa", "by", "b32", "arr", "ar2", "sarr", "marr", "carr", "mstr", "sstr", "st", "stm", "sts", "en", "ct", "cd", "fnv", "fnw", "1", "2", "\"a\"", "\"b\"", "true", "u8 + u8", "g(u8)", "this", "[u8, u8]", "(u8)", "-1"];
    let mut args = vec![];
    for (i, a) in vars.iter().enumerate() {
        for (j, b) in vars.iter().enumerate() {
            if i > j && !thorough {
                continue;
            }
            let third = vars[(i * 5 + j * 3) % vars.len()];
            args.push(format!(
                "enum EN {{ A }} struct ST {{ uint256 a; }} contract D {{ }} contract C {{ uint256[] arr; uint256[2] ar2; string sstr; ST st; EN en; C ct; D cd; function f(uint8 u8, uint16 u16, uint256 u256, int256 i256, bool bl, address ad, address payable pa, bytes memory by, bytes32 b32, uint256[] memory marr, uint256[] calldata carr, string memory mstr, ST memory stm, function (uint256) external fnv, function (uint256) view external fnw) public {{ uint256[] storage sarr = arr; ST storage sts = st; g({}, {}); h({}, {}, {}); }} }}",
                a, b, b, third, a
            ));
        }
    }
    out.push(("argument types", args));
    let mut tl = gs::top_level();
    let ms = gs::members();
    for a in &ms {
        tl.push(format!("contract C {{ {} }}", a));
        if thorough {
            for b in &ms {
                tl.push(format!("contract C {{ {} {} }}", a, b));
            }
        }
    }
    out.push(("declarations", tl));
    let mut lng = vec![];
    for n in [20usize, 40, 60, 80] {
        lng.push(inf(&format!("a = {};", vec!["x"; n].join(" + "))));
        lng.push(inf(&format!("require({}, \"{}\");", vec!["x > y"; n / 4].join(" && "), "word ".repeat(n))));
        lng.push(inf(&format!("g({}); h(\"{}\");", vec!["argument"; n].join(", "), "\\n // x \\\" ".repeat(n))));
    }
    out.push(("long lines", lng));
    let mut sz = vec![];
    for n in if thorough { vec![13usize, 14, 15, 16, 17, 20, 32, 33, 40, 64, 65] } else { vec![13usize, 17, 26] } {
        let list = |f: &dyn Fn(usize) -> String, sep: &str| (0..n).map(|i| f(i)).collect::<Vec<_>>().join(sep);
        sz.push(inf(&list(&|i| format!("a = x + {};", i), " ")));
        sz.push(inf(&list(&|i| ["a = x + 1;", "if (c) { b = 2; }", "g(x, y);", "c = !c;", "require(c);", "uint256 z = 3;", "x++;", "unchecked { a = 1; }", "return x;"][i % 9].to_string(), " ")));
        sz.push(inf(&format!("g({});", list(&|i| format!("x{}", i), ", "))));
        sz.push(inf(&format!("a = g({});", list(&|i| ["a", "c", "x"][i % 3].to_string(), ", "))));
        sz.push(format!("contract C {{ uint256 a; {} }}", list(&|i| format!("function f{}(uint256 x) public {{ a = x - {}; }}", i, i), " ")));
        sz.push(list(&|i| format!("contract C{} {{ uint256 a = {}; function f(uint256 x) public {{ a = x << 1; }} }}", i, i), " "));
        sz.push(inf(&format!("{} a = x + 1; b = 2; {}", "{ ".repeat(n), " }".repeat(n))));
        sz.push(inf(&format!("{}a = x + 1;{}", "if (c) { b = 1; ".repeat(n), " }".repeat(n))));
        sz.push(inf(&format!("a = {};", vec!["x"; n].join(" * "))));
        sz.push(inf(&format!("a = {}x{};", "g(y, ".repeat(n), ")".repeat(n))));
        sz.push(inf(&format!("{} = {} + {};", "v".repeat(n * 3), "w".repeat(n * 3), "1".repeat(n))));
    }
    out.push(("sizes", sz));
    out
}

pub fn vy_programs(thorough: bool) -> Vec<(&'static str, Vec<String>)> {
    let mut out: Vec<(&'static str, Vec<String>)> = vec![];
    let d1 = gv::exprs_depth1();
    out.push(("expressions depth 1", d1.iter().map(|e| gv::in_fn1(&format!("x = {}", e))).collect()));
    let slim: Vec<String> = if thorough { d1.clone() } else { VY_REP.iter().map(|t| gs::fill(t, &["x", "y", "1"])).collect() };
    let d2 = if thorough { gv::plug_all(&slim) } else { rep_pairs(VY_REP, &slim) };
    out.push(("expressions depth 2", d2.iter().map(|e| gv::in_fn1(&format!("x = {}", e))).collect()));
    let mut pos = vec![];
    for e in ["x + 1", "x < y", "a and b", "x << 2", "~x", "not a", "-x", "f(x, y)", "f(x, y, z, k=1)", "-1", "x ** y - 1", "x in [1, 2]", "self.m[1]", "(x - (y - 1))", "f(f(x, y), 1)", "x if a else y", "a and b and c"] {
        for t in [
            "return #", "assert #", "assert #, \"m\"", "assert a, #", "raise #", "if #:\n    pass", "if #:\n    x = 1\n    y = 2\nelse:\n    x = 3\n    y = 4", "if a:\n    pass\nelif #:\n    x = 1\n    return 2\nelse:\n    #", "for i in #:\n    pass", "for i in range(3):\n    x = #\n    y = 2\n    break", "log E(#)",
            "#", "self.m[#] = #", "x += #", "x: uint256 = #", "a, b = #", "x: uint256[#] = a", "x = #\ny = #", "if a:\n    if b:\n        x = #\n    else:\n        #\n    z = 1",
        ] {
            pos.push(gv::in_fn1(&gs::fill(t, &[e])));
        }
        pos.push(format!("x: constant(uint256) = {}\ny: uint256[{}]\nm: HashMap[address, uint256[{}]]\n", e, e, e));
        pos.push(format!("@nonreentrant({})\ndef f(a: uint256 = {}) -> uint256:\n    return {}\n\n@external\ndef __init__():\n    x = {}\n    y = {}\n", e, e, e, e, e));
    }
    out.push(("expression positions", pos));
    out.push(("statements", gv::statements(false).iter().map(|s| gv::in_fn(s)).collect()));
    let extra = [
        "not not a", "not (not a)", "-(-x)", "~(~x)", "True", "False", "not True", "x == True", "x - x", "f(f(x))", "self.g(x)", "self.a[x][y]", "f(1, 2)", "f(1)", "f()", "f(\"s\", x)", "f(k=1)", "f(x, k=1, j=y)", "empty(uint256)", "convert(x, int128)", "f(x)[1]", "a and (b or c)", "not (a and b)", "x not in [1]", "[x, [y]]",
        "a or b and c or d", "(a or b) and (c or d)", "x == y", "f([x, y], [x, y])", "f(x + 1, y - 1)", "self.f(self.g(x, y), 2, z)", "a if b else (c if x else y)", "-x ** 2", "(-x) ** 2", "not a == b", "x % y // z", "b\"a\"", "f(b\"a\", 0x00, True)", "f(None)", "f(-1, x)",
    ];
    let mut ops = vec![];
    for e in d1.iter().map(|s| s.as_str()).chain(extra) {
        ops.push(gv::in_fn1(&format!("if {}:\n    x = 1\nelif {}:\n    pass", e, e)));
        // A string on its own line would read as a docstring once it is swapped to the front.
        let alone = if e.starts_with('"') || e.starts_with('\'') { "pass" } else { e };
        ops.push(gv::in_fn1(&format!("assert {}, \"m\"\nf({}, x, {})\n{}\nx += {}\nc = not ({})", e, e, e, alone, e, e)));
        ops.push(gv::in_fn1(&format!("log E({})\na[{}] = {}\nfor i in {}:\n    return {}", e, e, e, e, e)));
    }
    for k in 1..=5 {
        for tail in ["", "else:\n    y = 1\n    z = 2\n    w = 3\n"] {
            let mut t = "if a < 1:\n    x = 1\n    y = x + 1\n".to_string();
            for i in 0..k {
                t += &format!("elif b < {}:\n    x = {}\n    y = x - 2\n    z = 3\n", i, i + 2);
            }
            ops.push(gv::in_fn1(format!("{}{}", t, tail).trim_end()));
            ops.push(gv::in_fn1(&format!("for i in range(3):\n{}", gv::indent(&gv::l(format!("{}{}", t, tail).trim_end()), 1).join("\n"))));
        }
    }
    out.push(("operand forms", ops));
    let mut seqs = vec![];
    let k = if thorough { 4 } else { 3 };
    let alphabet = ["x = 1", "return x", "pass", "if a:\n    x = 1\n    y = 2", "for i in range(3):\n    x = 1\n    return 2", "y: uint256 = 3", "f()"];
    let mut layer: Vec<Vec<String>> = vec![vec![]];
    for _ in 0..k {
        let mut nx = vec![];
        for p in &layer {
            for s in alphabet {
                let mut q = p.clone();
                q.extend(gv::l(s));
                nx.push(q);
            }
        }
        seqs.extend(nx.iter().map(|s| gv::in_fn(s)));
        layer = nx;
    }
    for n in 4..=12 {
        seqs.push(gv::in_fn1(&(0..n).map(|i| format!("x = {}", i)).collect::<Vec<_>>().join("\n")));
        seqs.push(gv::in_fn1(&format!("f({})", (0..n).map(|i| format!("x{}", i)).collect::<Vec<_>>().join(", "))));
    }
    out.push(("statement sequences", seqs));
    let mut del = vec![];
    for r in ["bool", "uint256", "uint8", "int128", "int256", "string", "address", "bytes32", "decimal", "S", "String[10]", "Bytes[3]", "uint256[3]", "DynArray[uint256, 4]", "(uint256, bool)", "(uint256, bool, address)", "HashMap[address, uint256]", "I", "bytes4", "u", "bo"] {
        for b in ["return x", "pass", "x = 1\n    return y", "if a:\n        return x\n    return y", "for i in range(3):\n        return x", "raise \"m\"", "view", "if a:\n        return x\n    else:\n        return y"] {
            for dec in ["@external", "@view\n@internal", "@payable\n@external\n@nonreentrant(\"l\")"] {
                del.push(format!("{}\ndef f() -> {}:\n    {}\n", dec, r, b));
                if thorough {
                    del.push(format!("x: uint256\n{}\ndef f(a: uint256, b: {} = c) -> {}:\n    \"\"\"doc\"\"\"\n    {}\n", dec, r, r, b));
                }
            }
        }
    }
    out.push(("single statement bodies", del));
    let mut lits = vec![];
    for v in ["0", "1", "9", "10", "99", "-1", "-10", "1000", "9223372036854775807", "-9223372036854775808", "9223372036854775806", "9007199254740991", "9007199254740992", "9007199254740993", "4611686018427387905", "9223372036854775808", "4294967295", "4294967296", "1.5", "0x1F", "18446744073709551614"] {
        for t in ["x = #", "x = # + 1", "x = # ** 2", "x = 2 ** #", "f(#)", "x = -(#)", "x = ~#", "x: uint256[#] = a", "x: Bytes[#] = b\"\""] {
            lits.push(gv::in_fn1(&gs::fill(t, &[v])));
        }
    }
    out.push(("integer literals", lits));
    let mut tl: Vec<String> = gv::top_level().iter().map(|s| format!("{}\n", s)).collect();
    let base = tl.clone();
    for a in &base {
        tl.push(format!("{}\ny: uint256\n", a));
        if thorough {
            for b in &base {
                tl.push(format!("{}{}", a, b));
            }
        }
    }
    out.push(("declarations", tl));
    let mut lng = vec![];
    for n in [20usize, 40, 60, 80] {
        lng.push(gv::in_fn1(&format!("x = {}", vec!["y"; n].join(" + "))));
        lng.push(gv::in_fn1(&format!("assert {}, \"{}\"", vec!["x > y"; n / 4].join(" and "), "word ".repeat(n))));
        lng.push(gv::in_fn1(&format!("g({})\nh(\"{}\")", vec!["argument"; n].join(", "), "\\n # x \\\" ".repeat(n))));
    }
    out.push(("long lines", lng));
    let mut sz = vec![];
    for n in if thorough { vec![13usize, 14, 15, 16, 17, 20, 32, 33, 40, 64, 65] } else { vec![13usize, 17, 26] } {
        let list = |f: &dyn Fn(usize) -> String, sep: &str| (0..n).map(|i| f(i)).collect::<Vec<_>>().join(sep);
        sz.push(gv::in_fn1(&list(&|i| format!("x = y + {}", i), "\n")));
        sz.push(gv::in_fn1(&list(&|i| ["x = y + 1", "if a:\n    x = 2\n    y = 3", "g(x, y)", "a = not a", "assert a", "z: uint256 = 3", "x -= 1", "return x"][i % 8].to_string(), "\n")));
        sz.push(gv::in_fn1(&format!("g({})", list(&|i| format!("x{}", i), ", "))));
        sz.push(gv::in_fn1(&format!("x = g({})", list(&|i| ["a", "1", "x"][i % 3].to_string(), ", "))));
        sz.push(list(&|i| format!("@external\ndef f{}(x: uint256):\n    a = x - {}\n", i, i), "\n"));
        let mut s = String::new();
        for i in 0..n.min(20) {
            s += &format!("{}if a:\n{}x = {}\n", " ".repeat(4 * i), " ".repeat(4 * i + 4), i);
        }
        sz.push(gv::in_fn1(&s));
        sz.push(gv::in_fn1(&format!("x = {}", vec!["y"; n].join(" * "))));
        sz.push(gv::in_fn1(&format!("x = {}", vec!["y"; n].join(" and "))));
        sz.push(gv::in_fn1(&format!("x = {}y{}", "g(1, ".repeat(n), ")".repeat(n))));
        sz.push(gv::in_fn1(&format!("{} = {} + {}", "v".repeat(n * 3), "w".repeat(n * 3), "1".repeat(n.min(18)))));
    }
    out.push(("sizes", sz));
    out
}

fn function_cases(thorough: bool) -> Vec<(&'static str, Vec<Case>)> {
    let mut v = vec![];
    let body = ["a = x + 1; b = x - 2;", "if (x < y) { a = g(x, y); return 1; } b = 2;", "for (uint256 i = 0; i < 3; i++) { a = 1; { b = 2; a = 3; } } require(c, \"m\");", "", "return x;"];
    let sels: Vec<Vec<&'static str>> = vec![vec!["f"], vec!["g"], vec!["f", "g"], vec!["g", "f"], vec!["f", "absent"], vec!["absent"], vec!["F"], vec!["f", "f"], vec!["x"], vec!["C"], vec!["a"], vec!["other", "f"], vec!["E"], vec!["m"], vec!["S"]];
    let pre = "uint256 a = 1 + 2; uint256 b; bool c; event E(uint256 f); struct S { uint256[3 + 4] f; } ";
    for (i, b1) in body.iter().enumerate() {
        for (j, b2) in body.iter().enumerate() {
            if !thorough && (i > 2 || j > 2) && i != j {
                continue;
            }
            for b3 in [body[0], body[2]] {
                let fnn = |n: &str, b: &str| format!("function {}(uint256 x, uint256 y) public returns (uint256) {{ {} }} ", n, b);
                let shapes = vec![
                    format!("contract C {{ {} {}{}{} }}", pre, fnn("f", b1), fnn("g", b2), fnn("other", b3)),
                    format!("contract C {{ {}{} {} }} contract D {{ {}{} }}", fnn("f", b1), fnn("g", b2), pre, fnn("f", b2), fnn("other", b3)),
                    format!("function f(uint256 x, uint256 y) {{ {} }} library L {{ {} {} }} uint256 constant f1 = 1 + 2;", b1, fnn("g", b3), fnn("f", b2)),
                    format!("contract C {{ {} constructor() {{ {} }} modifier m() {{ {} _; }} modifier f2() {{ _; }} receive() external payable {{ {} }} {} function f(uint256[2 + 3] memory x) external m(1 + 2) {{ {} }} }}", pre, b1, b2, b3, fnn("g", b1), b2),
                    format!("interface I {{ function f(uint256[1 + 2] memory f) external; }} contract g {{ uint256 f = 1 - 2; {} {} }}", fnn("other", b1), fnn("f", b2)),
                ];
                for s in shapes {
                    for sel in &sels {
                        v.push(Case { lang: Lang::Sol, src: s.clone(), functions: sel.clone(), form: 0 });
                    }
                }
            }
        }
    }
    let mut w = vec![];
    let body = ["x = y + 1\nz = y - 2", "if x < y:\n    z = g(x, y)\n    return 1\nelse:\n    z = 3", "for i in range(3):\n    x = 1\n    if a:\n        y = 2\n        z = 3\nassert c, \"m\"", "pass", "return x + 1"];
    for b1 in body {
        for b2 in body {
            let fnn = |n: &str, b: &str| format!("@external\ndef {}(f: uint256, x: uint256 = 1 + 2) -> uint256:\n{}\n\n", n, gv::indent(&gv::l(b), 1).join("\n"));
            for b3 in [body[0], body[1]] {
                let shapes = vec![
                    format!("a: uint256\nb: constant(uint256) = 1 + 2\n\n{}{}{}", fnn("f", b1), fnn("g", b2), fnn("other", b3)),
                    format!("struct f1:\n    f: uint256[3 + 4]\n\nevent E:\n    f: uint256\n\ninterface I:\n    def f(x: uint256[1 + 2]) -> uint256: view\n    def g(): nonpayable\n\n{}{}", fnn("other", b3), fnn("f", b2)),
                    format!("f: public(uint256[1 + 2])\n@external\ndef __init__():\n    x = 1 + 2\n\n{}{}", fnn("g", b1), fnn("f", b3)),
                ];
                for s in shapes {
                    for sel in &sels {
                        w.push(Case { lang: Lang::Vy, src: s.clone(), functions: sel.clone(), form: 0 });
                    }
                }
            }
        }
    }
    // names that resemble each other
    let names = ["f", "ff", "fo", "uf", "F", "f_", "_f", "f1", "fuf", "receive_", "foo"];
    let mut sels: Vec<Vec<&'static str>> = names.iter().map(|n| vec![*n]).collect();
    for a in names {
        for b in names {
            if a != b {
                sels.push(vec![a, b]);
            }
        }
    }
    sels.push(names.to_vec());
    let (mut n1, mut n2) = (vec![], vec![]);
    for rev in [false, true] {
        let mut ns = names.to_vec();
        if rev {
            ns.reverse();
        }
        let s: String = ns.iter().map(|n| format!("function {}(uint256 x) public {{ a = x + 1; }} ", n)).collect();
        let t: String = ns.iter().map(|n| format!("@external\ndef {}(x: uint256):\n    a = x + 1\n\n", n)).collect();
        for sel in &sels {
            n1.push(Case { lang: Lang::Sol, src: format!("contract C {{ uint256 a; {} }}", s), functions: sel.clone(), form: 0 });
            n2.push(Case { lang: Lang::Vy, src: format!("a: uint256\n\n{}", t), functions: sel.clone(), form: 0 });
        }
    }
    vec![("Solidity programs x function selections", v), ("Vyper programs x function selections", w), ("Solidity functions with similar names", n1), ("Vyper functions with similar names", n2)]
}

pub fn run(ctx: &Ctx, prop: &str) {
    let st = Stats { runs: AtomicU64::new(0), mutants: AtomicU64::new(0), sites: AtomicU64::new(0), programs: AtomicU64::new(0) };
    let mk = |l: Lang, f: Vec<(&'static str, Vec<String>)>| -> Vec<(String, Vec<Case>)> {
        f.into_iter().map(|(n, v)| (format!("{:?} {}", l, n), v.into_iter().map(|s| Case { lang: l, src: s, functions: vec![], form: 0 }).collect())).collect()
    };
    let (judge, fams): (Judge, Vec<(String, Vec<Case>)>) = match prop {
        "C03" => (Judge::OneChange, mk(Lang::Sol, sol_programs(ctx.thorough))),
        "C04" => (Judge::OneChange, mk(Lang::Vy, vy_programs(ctx.thorough))),
        "C05" | "C07" | "C09" => {
            let mut f = mk(Lang::Sol, sol_programs(ctx.thorough));
            f.extend(mk(Lang::Vy, vy_programs(ctx.thorough)));
            (match prop {
                "C05" => Judge::Coverage,
                "C07" => Judge::Comment,
                _ => Judge::Crash,
            }, f)
        }
        _ => (Judge::Functions, function_cases(ctx.thorough).into_iter().map(|(n, v)| (n.to_string(), v)).collect()),
    };
    let mut fams = fams;
    // the same programs with other node numbers and as earlier compilers describe them
    let mut forms: Vec<Case> = vec![];
    for (name, cs) in &fams {
        let take: Vec<&Case> = match name.split_once(' ').map_or("", |x| x.1) {
            "expression positions" => cs.iter().filter(|c| if c.lang == Lang::Sol { ["x < y", "g(x, y)", "require(c)", "p.delegatecall(h)", "x++"] } else { ["x < y", "f(x, y)", "not a", "-1", "a and b and c"] }.iter().any(|e| c.src.contains(e))).collect(),
            "statement sequences" => cs.iter().take(if ctx.thorough { 399 } else { 56 }).collect(),
            _ => vec![],
        };
        for form in 1..FORMS.len() as u8 {
            forms.extend(take.iter().filter(|c| c.lang == Lang::Sol || form < 7).map(|c| Case { lang: c.lang, src: c.src.clone(), functions: vec![], form }));
        }
    }
    if !forms.is_empty() {
        fams.push(("forms of the AST".into(), forms));
    }
    let depth = if matches!(judge, Judge::Functions | Judge::Comment) && !ctx.thorough { 1 } else { 2 };
    let mut seen: HashSet<String> = HashSet::new();
    for (name, mut cs) in fams {
        cs.retain(|c| seen.insert(format!("{}{:?}{}", c.form, c.functions, c.src)));
        ctx.count(&format!("programs: {}", name), cs.len() as u64);
        if let Some(s) = cs.get(cs.len() / 2) {
            ctx.sample(json!({"family": name, "functions": s.functions, "source": clip(&s.src, 300)}));
        }
        let depth = if (name.ends_with("sizes") || name.starts_with("forms")) && prop != "C05" { 1 } else { depth };
        ctx.run_limit(&cs, if name.ends_with("sizes") { 400 } else { 60 }, |c| c.src.clone(), |c| check(ctx, &st, c, judge, depth));
        if ctx.stopped() {
            break;
        }
    }
    if prop == "C08" && !ctx.stopped() {
        crate::gencheck::run_functions(ctx);
    }
    if prop == "C09" && !ctx.stopped() {
        crate::gencheck::run_ways(ctx);
    }
    let g = |a: &AtomicU64| a.load(Ordering::Relaxed);
    ctx.note("states", json!(g(&st.mutants).max(g(&st.sites))));
    ctx.note("transitions", json!(g(&st.runs)));
    ctx.note("traces_validated_against_impl", json!(g(&st.runs)));
    ctx.note("programs explored", json!(g(&st.programs)));
    ctx.note("sites", json!(g(&st.sites)));
    ctx.note("distinct mutants", json!(g(&st.mutants)));
    ctx.note("distinct_nontrivial", json!(g(&st.sites)));
    ctx.note("bounds", json!(format!("all programs of the families; every algorithm and site number; all sequences of the first {} draws consumed over an alphabet that offers every choice (4 to 13 values, one of them the largest 64-bit number; further draws from a fixed fair sequence), horizon {} draws", depth, HORIZON)));
    ctx.note("rule", json!("a state is a mutant program reached (or a site for crash freedom), a transition one run of the real mutate_ast under one sequence of random draws; every run's printed mutant is parsed back and compared with the model's alternatives"));
    ctx.assume("the harness's front ends follow the Solidity 0.8 and Vyper 0.3 grammars and AST formats");
}

pub fn bench(ctx: &Ctx, src: &str) {
    let st = Stats { runs: AtomicU64::new(0), mutants: AtomicU64::new(0), sites: AtomicU64::new(0), programs: AtomicU64::new(0) };
    let t = std::time::Instant::now();
    for _ in 0..3 {
        let r = check(ctx, &st, &Case { lang: Lang::Sol, src: src.into(), functions: vec![], form: 0 }, Judge::Coverage, 2);
        println!("{:?} {:?} runs {:?} mutants {:?}", r.is_ok(), t.elapsed(), st.runs, st.mutants);
    }
}
