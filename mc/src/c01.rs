//! C01: print -> parse -> compare for every Solidity program within the bound.
use crate::gen_sol as g;
use crate::run::*;
use crate::{sol, tool};
use serde_json::json;
use std::collections::HashSet;
use std::sync::atomic::Ordering;

pub fn check_source(ctx: &Ctx, src: &str) -> Result<(), Viol> {
    let p = match sol::parse_opt(src, false) {
        Ok(p) => p,
        Err(_) => {
            ctx.skipped.fetch_add(1, Ordering::Relaxed);
            return Ok(());
        }
    };
    let v = |detail: String| Viol { key: src.to_string(), detail };
    let text = tool::print(tool::Lang::Sol, &p.ast).map_err(|e| v(format!("printing failed: {}", e)))?;
    let q = sol::parse_opt(&text, false).map_err(|e| v(format!("printed text is not valid Solidity: {}\n--- printed:\n{}", e, text)))?;
    if let Some(d) = sol::diff(&sol::normal(&p.ast), &sol::normal(&q.ast), "") {
        return Err(v(format!("printed program differs: {}\n--- printed:\n{}", d, text)));
    }
    Ok(())
}

fn depth(v: &serde_json::Value) -> usize {
    match v {
        serde_json::Value::Array(a) => 1 + a.iter().map(depth).max().unwrap_or(0),
        serde_json::Value::Object(o) => 1 + o.values().map(depth).max().unwrap_or(0),
        _ => 0,
    }
}

/// the same program in the AST of earlier compilers
fn check_old(ctx: &Ctx, src: &str) -> Result<(), Viol> {
    let p = match sol::parse_opt(src, false) {
        Ok(p) => p,
        Err(_) => {
            ctx.skipped.fetch_add(1, Ordering::Relaxed);
            return Ok(());
        }
    };
    if depth(&p.ast) > 120 {
        // the JSON loader refuses such files with an error
        ctx.skipped.fetch_add(1, Ordering::Relaxed);
        return Ok(());
    }
    for w in [1, 2] {
        let v = |detail: String| Viol { key: format!("{}{}", src, ["", " (AST with explicit nulls)", " (AST without identifier paths)"][w as usize]), detail };
        let text = tool::load(tool::Lang::Sol, &sol::dialect(&p.ast, w)).and_then(|a| tool::print_ast(tool::Lang::Sol, &a)).map_err(|e| v(format!("printing failed: {}", e)))?;
        let q = sol::parse_opt(&text, false).map_err(|e| v(format!("printed text is not valid Solidity: {}\n--- printed:\n{}", e, text)))?;
        if let Some(d) = sol::diff(&sol::normal(&p.ast), &sol::normal(&q.ast), "") {
            return Err(v(format!("printed program differs: {}\n--- printed:\n{}", d, text)));
        }
    }
    Ok(())
}

pub fn cases(thorough: bool) -> Vec<(&'static str, Vec<String>)> {
    let mut out: Vec<(&'static str, Vec<String>)> = vec![];
    let d1 = g::exprs_depth1();
    let d2 = g::plug_all(&d1);
    let fnw = |v: &Vec<String>| -> Vec<String> { v.iter().map(|e| g::in_fn(&format!("{};", e))).collect() };
    out.push(("expressions depth 1", fnw(&d1)));
    out.push(("expressions depth 2", fnw(&d2)));
    // expressions of depth 1 in every other expression position
    let mut ctxs = vec![];
    for e in &d1 {
        for t in [
            "return #;", "if (#) { }", "while (#) { }", "do { } while (#);", "for (; #; #) { }", "uint256 x = #;", "(uint256 x, bool y) = #;", "emit E(#, #);", "emit E({x: #});", "revert R(#);", "uint256[#] memory y;", "require(#, \"m\");",
            "try a.f(#) { } catch { }", "try a.f{value: #}() { } catch { }", "if (a) #;", "if (a) # ; else #;", "for (#; ; ) #;",
        ] {
            ctxs.push(g::in_fn(&g::fill(t, &[e])));
        }
        ctxs.push(format!("contract C {{ uint256 x = {}; uint256[{}] y; }}", e, e));
        ctxs.push(format!("contract C is A({}) {{ constructor() A({}) m({}, {}) {{ }} }}", e, e, e, e));
        ctxs.push(format!("uint256 constant K = {};", e));
    }
    out.push(("expression positions", ctxs));
    if thorough {
        // depth 3: the inner expressions are all depth-2 forms without redundant atoms
        let d2s: Vec<String> = g::plug_all(&g::EXPRS.iter().map(|t| if g::holes(t) == 0 { t.to_string() } else { g::fill(t, &["x", "y", "z"]) }).collect::<Vec<_>>());
        out.push(("expressions depth 3", fnw(&g::plug_all(&d2s))));
    }
    out.push(("statements", g::statements(thorough).into_iter().map(|s| g::in_fn(&s)).collect()));
    out.push(("inline assembly", g::yul(thorough)));
    let tl = g::top_level();
    let mut pairs = tl.clone();
    for a in &tl {
        for b in &tl {
            pairs.push(format!("{}\n{}", a, b));
        }
    }
    for l in ["MIT", "UNLICENSED", "GPL-3.0-or-later", "(MIT AND Apache-2.0)"] {
        for a in &tl {
            pairs.push(format!("// SPDX-License-Identifier: {}\n{}", l, a));
        }
    }
    out.push(("file-level declarations (pairs)", pairs));
    let ms = g::members();
    let mut mp = vec![];
    for kind in ["contract", "abstract contract", "interface", "library"] {
        for a in &ms {
            mp.push(format!("{} C {{ {} }}", kind, a));
            if kind == "contract" {
                for b in &ms {
                    mp.push(format!("{} C {{ {} {} }}", kind, a, b));
                }
            }
        }
    }
    out.push(("contract members (pairs)", mp));
    out.push(("function headers", g::functions(thorough)));
    out.push(("state variables", g::state_vars()));
    out.push(("types", g::type_positions()));
    let mut st = vec![];
    for s in g::strings(thorough) {
        st.push(g::in_fn(&format!("a = {};", s)));
        if s.starts_with('"') || s.starts_with("hex") {
            st.push(g::in_fn(&format!("assembly {{ x := f({}) }}", s)));
        }
        if s.starts_with('"') {
            st.push(format!("import {};", s));
        }
    }
    out.push(("string literals", st));
    out.push(("documentation", g::docs()));
    out.push(("line breaks", g::wraps(thorough)));
    out.push(("deep nesting", g::deep(if thorough { 70 } else { 45 })));
    out.push(("list lengths", g::sizes(thorough)));
    out
}

pub fn run_families(ctx: &Ctx, families: Vec<(&'static str, Vec<String>)>, check: fn(&Ctx, &str) -> Result<(), Viol>) {
    let mut seen: HashSet<String> = HashSet::new();
    let mut total = 0u64;
    for (name, mut c) in families {
        c.retain(|s| seen.insert(s.clone()));
        total += c.len() as u64;
        ctx.count(&format!("programs: {}", name), c.len() as u64);
        if let Some(s) = c.get(c.len() / 2) {
            ctx.sample(json!({"family": name, "source": clip(s, 300)}));
        }
        let before = ctx.skipped.load(Ordering::Relaxed);
        ctx.run(&c, |s| s.clone(), |s| check(ctx, s));
        let sk = ctx.skipped.load(Ordering::Relaxed) - before;
        if sk > 0 {
            ctx.count(&format!("not in the language: {}", name), sk as u64);
        }
        if ctx.stopped() {
            break;
        }
    }
    let sk = ctx.skipped.load(Ordering::Relaxed);
    ctx.note("states", json!(total));
    ctx.note("transitions", json!(total - sk));
    ctx.note("traces_validated_against_impl", json!(total - sk));
    ctx.note("distinct_nontrivial", json!(total - sk));
    ctx.note("rule", json!("a case is one source text of the bounded grammar, deduplicated; it is non-trivial when the front end accepts it (the others are skipped); each is parsed to an AST, printed by the code under test, parsed again and compared"));
}

pub fn run(ctx: &Ctx) {
    run_families(ctx, cases(ctx.thorough), check_source);
    let mut old: Vec<String> = vec![];
    for (n, c) in cases(false) {
        let step = match n {
            "expressions depth 1" | "statements" | "types" | "inline assembly" | "list lengths" | "documentation" => 1,
            "expressions depth 2" | "expression positions" | "file-level declarations (pairs)" | "contract members (pairs)" | "state variables" | "function headers" => 7,
            _ => continue,
        };
        old.extend(c.into_iter().step_by(if ctx.thorough { 1 } else { step }));
    }
    ctx.count("programs: ASTs of earlier compilers (two forms each)", old.len() as u64);
    ctx.run(&old, |s| s.clone(), |s| check_old(ctx, s));
    ctx.assume("the harness's Solidity front end follows the Solidity 0.8 grammar and solc's compact AST format");
}
