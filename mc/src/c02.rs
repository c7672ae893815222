//! C02: print -> parse -> compare for every Vyper program within the bound.
use crate::gen_vy as g;
use crate::run::*;
use crate::{sol, tool, vy};
use std::sync::atomic::Ordering;

pub fn check_source(ctx: &Ctx, src: &str) -> Result<(), Viol> {
    let p = match vy::parse(src) {
        Ok(p) => p,
        Err(_) => {
            ctx.skipped.fetch_add(1, Ordering::Relaxed);
            return Ok(());
        }
    };
    if int_attribute(&p.ast) {
        // not a Vyper program: an integer literal has no members
        ctx.skipped.fetch_add(1, Ordering::Relaxed);
        return Ok(());
    }
    let v = |detail: String| Viol { key: src.to_string(), detail };
    let text = tool::print(tool::Lang::Vy, &p.ast).map_err(|e| v(format!("printing failed: {}", e)))?;
    let q = vy::parse(&text).map_err(|e| v(format!("printed text is not valid Vyper: {}\n--- printed:\n{}", e, text)))?;
    if let Some(d) = sol::diff(&vy::normal(&p.ast), &vy::normal(&q.ast), "") {
        return Err(v(format!("printed program differs: {}\n--- printed:\n{}", d, text)));
    }
    // integers beyond what a JSON number of the code under test can hold are compared as text
    let ints = |ts: &[vy::Tok]| -> Vec<String> { ts.iter().filter_map(|t| if let vy::T::Int(s) = &t.t { Some(s.clone()) } else { None }).collect() };
    if ints(&p.toks) != ints(&q.toks) {
        return Err(v(format!("integer literals differ: {:?} became {:?}\n--- printed:\n{}", ints(&p.toks), ints(&q.toks), text)));
    }
    Ok(())
}

fn int_attribute(v: &serde_json::Value) -> bool {
    match v {
        serde_json::Value::Object(m) => (v["ast_type"] == "Attribute" && v["value"]["ast_type"] == "Int") || m.values().any(int_attribute),
        serde_json::Value::Array(a) => a.iter().any(int_attribute),
        _ => false,
    }
}

pub fn cases(thorough: bool) -> Vec<(&'static str, Vec<String>)> {
    let mut out: Vec<(&'static str, Vec<String>)> = vec![];
    let d1 = g::exprs_depth1();
    let d2 = g::plug_all(&d1);
    let asg = |v: &[String]| -> Vec<String> { v.iter().map(|e| g::in_fn1(&format!("x = {}", e))).collect() };
    out.push(("expressions depth 1", asg(&d1)));
    out.push(("expressions depth 2", asg(&d2)));
    let mut pos = vec![];
    let some: Vec<String> = if thorough { d1.iter().chain(d2.iter()).cloned().collect() } else { d1.clone() };
    for e in &some {
        for t in [
            "return #", "assert #", "assert #, \"m\"", "assert a, #", "raise #", "if #:\n    pass", "if a:\n    pass\nelif #:\n    pass", "for i in #:\n    pass", "log E(#)", "#", "self.m[#] = #", "x += #", "x: uint256 = #", "a, b = #", "x: uint256[#] = a",
        ] {
            pos.push(g::in_fn1(&crate::gen_sol::fill(t, &[e])));
        }
        pos.push(format!("x: constant(uint256) = {}\ny: uint256[{}]\n", e, e));
        pos.push(format!("@nonreentrant({})\ndef f(a: uint256 = {}):\n    pass\n", e, e));
    }
    out.push(("expression positions", pos));
    if thorough {
        let slim: Vec<String> = g::EXPRS.iter().map(|t| if crate::gen_sol::holes(t) == 0 { t.to_string() } else { crate::gen_sol::fill(t, &["x", "y", "z"]) }).collect();
        let d2s = g::plug_all(&slim);
        out.push(("expressions depth 3", asg(&g::plug_all(&d2s))));
    }
    out.push(("statements", g::statements(thorough).iter().map(|s| g::in_fn(s)).collect()));
    let tl = g::top_level();
    let mut pairs: Vec<String> = tl.iter().map(|s| format!("{}\n", s)).collect();
    for a in &tl {
        for b in &tl {
            pairs.push(format!("{}\n{}\n", a, b));
        }
    }
    out.push(("module-level declarations (pairs)", pairs));
    out.push(("function headers", g::functions()));
    out.push(("types", g::type_positions()));
    out.push(("string literals", g::strings()));
    out.push(("documentation", g::docs()));
    out.push(("line width", g::wraps(thorough)));
    out.push(("deep nesting", g::deep(if thorough { 90 } else { 45 })));
    out.push(("list lengths", g::sizes(thorough)));
    let mut big = vec![];
    for n in ["18446744073709551617", "115792089237316195423570985008687907853269984665640564039457584007913129639935"] {
        big.push(format!("x: constant(uint256) = {}\n", n));
    }
    out.push(("integers beyond 64 bits", big));
    out
}

pub fn run(ctx: &Ctx) {
    crate::c01::run_families(ctx, cases(ctx.thorough), check_source);
    ctx.assume("the harness's Vyper front end follows the Vyper 0.3 grammar and AST format");
}
