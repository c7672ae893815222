//! The reference model of the mutation algorithms: for a program and an algorithm, the places where the
//! documented change applies and, for each place, every program that the change may yield.
//! The model is written from the documentation of the algorithms and shares no code with the implementation.
use crate::tool::Lang;
use crate::{sol, vy};
use serde_json::{json, Map, Value};

pub const GENERIC: &[&str] = &[
    "ArithmeticBinaryOp", "LogicalBinaryOp", "BitwiseBinaryOp", "BitshiftBinaryOp", "ComparisonBinaryOp", "Assignment", "DeleteStatement", "FunctionCall", "IfStatement", "Integer",
    "SwapFunctionArguments", "SwapOperatorArguments", "SwapLines", "UnaryOp",
];
pub const SOLIDITY: &[&str] = &["Require", "UncheckedBlock", "ElimDelegateCall"];

pub fn algorithms(l: Lang) -> Vec<&'static str> {
    let mut v = GENERIC.to_vec();
    if l == Lang::Sol {
        v.extend(SOLIDITY);
    }
    v
}

pub struct Alt {
    /// canonical AST of the mutant, with wildcards
    pub tree: Value,
    /// this alternative must be reachable (others are merely allowed)
    pub required: bool,
    pub label: String,
    /// texts the comment has to quote: nodes before and after the change
    pub quotes: Vec<Quote>,
}
#[derive(Clone)]
pub enum Quote {
    Text(String),
    Node(Value),
    /// a wildcard: not checked here
    Any,
}
pub struct Site {
    /// JSON pointer of the node the algorithm works on
    pub ptr: String,
    /// JSON pointer of the element that the comment stands before, per alternative
    pub alts: Vec<Alt>,
    pub anchors: Vec<String>,
}

pub fn kind<'a>(l: Lang, v: &'a Value) -> &'a str {
    v.get(match l {
        Lang::Sol => "nodeType",
        Lang::Vy => "ast_type",
    })
    .and_then(|x| x.as_str())
    .unwrap_or("")
}

/// every object of the AST that is a node, in document order, with its pointer
pub fn nodes(l: Lang, v: &Value) -> Vec<(String, Value)> {
    fn go(l: Lang, v: &Value, p: &str, out: &mut Vec<(String, Value)>) {
        match v {
            Value::Object(m) => {
                if !kind(l, v).is_empty() {
                    out.push((p.to_string(), v.clone()));
                }
                for (k, x) in m {
                    if k == "typeDescriptions" || k == "documentation" || k == "doc_string" {
                        continue;
                    }
                    if x.is_object() || x.is_array() {
                        go(l, x, &format!("{}/{}", p, k), out);
                    }
                }
            }
            Value::Array(a) => {
                for (i, x) in a.iter().enumerate() {
                    go(l, x, &format!("{}/{}", p, i), out);
                }
            }
            _ => {}
        }
    }
    let mut out = vec![];
    go(l, v, "", &mut out);
    out
}

fn edited(ast: &Value, ptr: &str, f: impl FnOnce(&mut Value)) -> Value {
    let mut a = ast.clone();
    f(a.pointer_mut(ptr).expect("pointer"));
    a
}

/// Canonical form: positions and types dropped, redundant grouping removed, negative numbers as negations.
pub fn canon(l: Lang, v: &Value) -> Value {
    match l {
        Lang::Sol => canon_sol(&sol::normal(v)),
        Lang::Vy => canon_vy(&vy::normal(v)),
    }
}

fn canon_sol(v: &Value) -> Value {
    match v {
        Value::Array(a) => Value::Array(a.iter().map(canon_sol).collect()),
        Value::Object(o) => {
            let nt = v["nodeType"].as_str().unwrap_or("");
            if nt == "TupleExpression" && v["isInlineArray"] != json!(true) {
                if let Some([c]) = v["components"].as_array().map(|a| a.as_slice()) {
                    if !c.is_null() {
                        return canon_sol(c);
                    }
                }
            }
            if nt == "RevertStatement" && v["errorCall"]["nodeType"] == "TupleExpression" {
                // `revert (x);` is a call of revert
                let args = v["errorCall"]["components"].clone();
                return canon_sol(&json!({"nodeType": "ExpressionStatement", "expression": {"nodeType": "FunctionCall", "kind": "functionCall", "names": [], "arguments": args, "expression": {"nodeType": "Identifier", "name": "revert"}}}));
            }
            if nt == "Literal" && (v["kind"] == "number" || v["kind"] == "bool") {
                let mut m = o.clone();
                m.remove("hexValue");
                if let Some(t) = v["value"].as_str() {
                    if let Some(r) = t.strip_prefix('-') {
                        m.insert("value".into(), json!(r));
                        return json!({"nodeType": "UnaryOperation", "operator": "-", "prefix": true, "subExpression": Value::Object(m)});
                    }
                }
                return Value::Object(m);
            }
            let mut m = Map::new();
            for (k, x) in o {
                if k == "tryCall" {
                    continue;
                }
                let mut y = canon_sol(x);
                let body = matches!((nt, k.as_str()), ("IfStatement", "trueBody") | ("IfStatement", "falseBody") | ("WhileStatement", "body") | ("DoWhileStatement", "body") | ("ForStatement", "body"));
                if body && y["nodeType"] == "Block" {
                    if let Some([s]) = y["statements"].as_array().map(|a| a.as_slice()) {
                        y = s.clone();
                    }
                }
                m.insert(k.clone(), y);
            }
            Value::Object(m)
        }
        _ => v.clone(),
    }
}

fn canon_vy(v: &Value) -> Value {
    match v {
        Value::Array(a) => Value::Array(a.iter().map(canon_vy).collect()),
        Value::Object(o) => {
            if (v["ast_type"] == "Int" || v["ast_type"] == "Decimal") && !v["value"].is_null() {
                let t = match &v["value"] {
                    Value::String(s) => s.clone(),
                    x => x.to_string(),
                };
                let mut m = o.clone();
                if let Some(r) = t.strip_prefix('-') {
                    m.insert("value".into(), json!(r));
                    return json!({"ast_type": "UnaryOp", "op": {"ast_type": "USub"}, "operand": Value::Object(m)});
                }
                m.insert("value".into(), json!(t));
                return Value::Object(m);
            }
            let mut m = Map::new();
            for (k, x) in o {
                m.insert(k.clone(), canon_vy(x));
            }
            Value::Object(m)
        }
        _ => v.clone(),
    }
}

/// Wildcards: {"$int": [min, max]} (as decimal strings), {"$bool": null}, {"$decimal": null}, {"$str": null}
pub fn matches(t: &Value, v: &Value) -> bool {
    match (t, v) {
        (Value::Object(a), Value::Object(b)) => {
            if let Some(w) = a.get("$int") {
                return int_in(v, w[0].as_str().unwrap(), w[1].as_str().unwrap());
            }
            if a.contains_key("$bool") {
                return (v["nodeType"] == "Literal" && v["kind"] == "bool") || (v["ast_type"] == "NameConstant" && v["value"].is_boolean());
            }
            if a.contains_key("$decimal") {
                return v["ast_type"] == "Decimal" || (v["ast_type"] == "UnaryOp" && v["op"]["ast_type"] == "USub" && v["operand"]["ast_type"] == "Decimal");
            }
            if a.contains_key("$str") {
                return v["ast_type"] == "Str";
            }
            a.len() == b.len() && a.iter().all(|(k, x)| b.get(k).map_or(false, |y| matches(x, y)))
        }
        (Value::Array(a), Value::Array(b)) => a.len() == b.len() && a.iter().zip(b).all(|(x, y)| matches(x, y)),
        (Value::Object(a), Value::String(s)) if a.contains_key("$digits") => s.bytes().all(|c| c.is_ascii_digit()),
        _ => t == v,
    }
}

fn int_in(v: &Value, min: &str, max: &str) -> bool {
    let (neg, lit) = if v["nodeType"] == "UnaryOperation" && v["operator"] == "-" {
        (true, &v["subExpression"])
    } else if v["ast_type"] == "UnaryOp" && v["op"]["ast_type"] == "USub" {
        (true, &v["operand"])
    } else {
        (false, v)
    };
    let ok = (lit["nodeType"] == "Literal" && lit["kind"] == "number" && lit["subdenomination"].is_null()) || lit["ast_type"] == "Int";
    let t = match lit["value"].as_str() {
        Some(t) if ok => t,
        _ => return false,
    };
    if t.contains('e') {
        // a number beyond 64 bits read back as a float
        return t.parse::<f64>().map_or(false, |x| x <= 3.5e38);
    }
    if t.is_empty() || !t.bytes().all(|c| c.is_ascii_digit()) {
        return false;
    }
    let (nmin, nmax) = (min.starts_with('-'), max.starts_with('-'));
    let le = |a: &str, b: &str| {
        let (a, b) = (a.trim_start_matches('0'), b.trim_start_matches('0'));
        (a.len(), a) <= (b.len(), b)
    };
    let zero = t.trim_start_matches('0').is_empty();
    if neg && !zero {
        nmin && le(t, &min[1..]) && (!nmax || le(&max[1..], t))
    } else {
        !nmax && le(t, max) && (nmin || le(min, t))
    }
}

pub fn dec_add(t: &str, d: i8) -> String {
    // decimal string plus or minus one; may be negative
    let neg = t.starts_with('-');
    let digits: Vec<u8> = t.trim_start_matches('-').bytes().map(|c| c - b'0').collect();
    let zero = digits.iter().all(|x| *x == 0);
    if zero {
        return if d > 0 { "1".into() } else { "-1".into() };
    }
    let up = (d > 0) != neg;
    let mut v = digits;
    let mut i = v.len();
    loop {
        if i == 0 {
            v.insert(0, 1);
            break;
        }
        i -= 1;
        if up {
            if v[i] == 9 {
                v[i] = 0;
            } else {
                v[i] += 1;
                break;
            }
        } else if v[i] == 0 {
            v[i] = 9;
        } else {
            v[i] -= 1;
            break;
        }
    }
    let s: String = v.iter().map(|d| (b'0' + d) as char).collect();
    let s = s.trim_start_matches('0').to_string();
    let s = if s.is_empty() { "0".to_string() } else { s };
    if neg && s != "0" {
        format!("-{}", s)
    } else {
        s
    }
}

fn pow2(n: u32) -> String {
    let mut s = "1".to_string();
    for _ in 0..n {
        let mut c = 0;
        let mut o = String::new();
        for d in s.bytes().rev() {
            let x = (d - b'0') * 2 + c;
            o.insert(0, (b'0' + x % 10) as char);
            c = x / 10;
        }
        if c > 0 {
            o.insert(0, (b'0' + c) as char);
        }
        s = o;
    }
    s
}

/// decimal digits of an integer literal of Solidity, or None when it is not a plain integer
pub fn sol_integer(text: &str) -> Option<String> {
    let t = text.replace('_', "");
    if let Some(h) = t.strip_prefix("0x") {
        let mut s = "0".to_string();
        for d in h.chars() {
            let mut c = d.to_digit(16)?;
            let mut o = String::new();
            for x in s.bytes().rev() {
                let y = (x - b'0') as u32 * 16 + c;
                o.insert(0, (b'0' + (y % 10) as u8) as char);
                c = y / 10;
            }
            while c > 0 {
                o.insert(0, (b'0' + (c % 10) as u8) as char);
                c /= 10;
            }
            s = o;
        }
        return Some(s);
    }
    let (m, e) = match t.split_once(|c| c == 'e' || c == 'E') {
        Some((m, e)) => (m.to_string(), e.parse::<usize>().ok()?),
        None => (t.clone(), 0),
    };
    if m.is_empty() || !m.bytes().all(|c| c.is_ascii_digit()) {
        return None;
    }
    let s = m + &"0".repeat(e);
    let s = s.trim_start_matches('0');
    Some(if s.is_empty() { "0".into() } else { s.into() })
}

const ARITH: &[&str] = &["+", "-", "*", "/", "%", "**"];
const LOGIC: &[&str] = &["&&", "||"];
const BITW: &[&str] = &["&", "|", "^"];
const SHIFT: &[&str] = &["<<", ">>"];
const COMP: &[&str] = &["==", "!=", ">", "<", ">=", "<="];
const NONCOMM: &[&str] = &["-", "/", "%", "**", ">", "<", "<=", ">=", "<<", ">>"];

fn family(algo: &str) -> Option<&'static [&'static str]> {
    Some(match algo {
        "ArithmeticBinaryOp" => ARITH,
        "LogicalBinaryOp" => LOGIC,
        "BitwiseBinaryOp" => BITW,
        "BitshiftBinaryOp" => SHIFT,
        "ComparisonBinaryOp" => COMP,
        _ => return None,
    })
}

const VYOPS: &[(&str, &str)] = &[
    ("Add", "+"), ("Sub", "-"), ("Mult", "*"), ("Div", "/"), ("Mod", "%"), ("Pow", "**"), ("And", "&&"), ("Or", "||"), ("LShift", "<<"), ("RShift", ">>"), ("BitAnd", "&"), ("BitOr", "|"), ("BitXor", "^"), ("Eq", "=="),
    ("NotEq", "!="), ("Gt", ">"), ("GtE", ">="), ("Lt", "<"), ("LtE", "<="),
];
fn vy_sym(name: &str) -> Option<&'static str> {
    VYOPS.iter().find(|(n, _)| *n == name).map(|(_, s)| *s)
}
fn vy_name(sym: &str) -> &'static str {
    VYOPS.iter().find(|(_, s)| *s == sym).unwrap().0
}

pub fn sites(l: Lang, ast: &Value, algo: &str) -> Vec<Site> {
    let mut out = vec![];
    let root = match l {
        Lang::Sol => "",
        Lang::Vy => "/ast",
    };
    for (p, n) in nodes(l, ast.pointer(root).unwrap()) {
        let ptr = format!("{}{}", root, p);
        let mut b = B { l, ast, ptr: ptr.clone(), alts: vec![], anchors: vec![] };
        match l {
            Lang::Sol => sol_site(&mut b, &n, algo),
            Lang::Vy => vy_site(&mut b, &n, algo),
        }
        if !b.alts.is_empty() {
            out.push(Site { ptr, alts: b.alts, anchors: b.anchors });
        }
    }
    out
}

struct B<'a> {
    l: Lang,
    ast: &'a Value,
    ptr: String,
    alts: Vec<Alt>,
    anchors: Vec<String>,
}
impl<'a> B<'a> {
    fn alt(&mut self, label: &str, required: bool, anchor: &str, quotes: Vec<Quote>, f: impl FnOnce(&mut Value)) {
        let tree = canon(self.l, &edited(self.ast, &self.ptr, f));
        self.alts.push(Alt { tree, required, label: label.to_string(), quotes });
        self.anchors.push(format!("{}{}", self.ptr, anchor));
    }
}

fn lit(kind: &str, value: &str) -> Value {
    json!({"nodeType": "Literal", "kind": kind, "value": value})
}

fn q(s: &str) -> Quote {
    Quote::Text(s.to_string())
}
fn qn(v: &Value) -> Quote {
    Quote::Node(v.clone())
}

fn sol_site(b: &mut B, n: &Value, algo: &str) {
    let nt = n["nodeType"].as_str().unwrap_or("");
    if let Some(fam) = family(algo) {
        if nt == "BinaryOperation" {
            let op = n["operator"].as_str().unwrap();
            if fam.contains(&op) {
                for o in fam.iter().filter(|o| **o != op) {
                    b.alt(o, true, "", vec![q(op), q(o)], |v| v["operator"] = json!(o));
                }
            }
        }
        return;
    }
    let stmts = |n: &Value| n["statements"].as_array().cloned().unwrap_or_default();
    match (algo, nt) {
        ("UnaryOp", "UnaryOperation") => {
            let fam: &[&str] = if n["prefix"] == json!(true) { &["++", "--", "~"] } else { &["++", "--"] };
            let op = n["operator"].as_str().unwrap();
            if fam.contains(&op) {
                for o in fam.iter().filter(|o| **o != op) {
                    b.alt(o, true, "", vec![q(op), q(o)], |v| v["operator"] = json!(o));
                }
            }
        }
        ("Assignment", "Assignment") => {
            let t = n["typeDescriptions"]["typeString"].as_str().unwrap_or("");
            let old = qn(&n["rightHandSide"]);
            let w = if t == "bool" {
                json!({"$bool": null})
            } else if let Some(bits) = t.strip_prefix("uint").and_then(|s| s.parse::<u32>().ok()) {
                json!({"$int": ["0", pow2(bits)]})
            } else if let Some(bits) = t.strip_prefix("int").and_then(|s| s.parse::<u32>().ok()) {
                json!({"$int": [format!("-{}", pow2(bits - 1)), pow2(bits - 1)]})
            } else {
                return;
            };
            if w.get("$bool").is_some() {
                for x in ["true", "false"] {
                    b.alt(x, true, "", vec![old.clone(), q(x)], |v| v["rightHandSide"] = lit("bool", x));
                }
            } else {
                b.alt("literal", true, "", vec![old, Quote::Any], |v| v["rightHandSide"] = w);
            }
        }
        ("DeleteStatement", "Block") => {
            let s = stmts(n);
            if s.len() > 1 {
                for (i, x) in s.iter().enumerate() {
                    if x["nodeType"] == "ExpressionStatement" {
                        b.alt(&format!("delete {}", i), true, &format!("/statements/{}", i), vec![qn(x)], |v| {
                            v["statements"].as_array_mut().unwrap().remove(i);
                        });
                    }
                }
            }
        }
        ("FunctionCall", "FunctionCall") => {
            for (i, x) in n["arguments"].as_array().unwrap().clone().iter().enumerate() {
                if x["nodeType"] != "Literal" {
                    let y = x.clone();
                    b.alt(&format!("argument {}", i), true, "", vec![qn(n), qn(x)], |v| *v = y);
                }
            }
        }
        ("SwapFunctionArguments", "FunctionCall") => {
            let a = n["arguments"].as_array().unwrap().clone();
            let ty = |v: &Value| v["typeDescriptions"]["typeString"].as_str().unwrap_or("").to_string();
            let mut firsts: Vec<String> = vec![];
            for i in 0..a.len() {
                let t = ty(&a[i]);
                let mut first = true;
                for j in i + 1..a.len() {
                    if ty(&a[j]) == t {
                        let req = first && !firsts.contains(&t);
                        first = false;
                        b.alt(&format!("swap {} {}", i, j), req, "", vec![qn(&a[i]), qn(&a[j])], |v| v["arguments"].as_array_mut().unwrap().swap(i, j));
                    }
                }
                firsts.push(t);
            }
        }
        ("IfStatement", "IfStatement") => {
            let c = n["condition"].clone();
            for x in ["true", "false"] {
                b.alt(x, true, "", vec![qn(&c), q(x)], |v| v["condition"] = lit("bool", x));
            }
            b.alt("not", true, "", vec![qn(&c), q("!")], |v| v["condition"] = json!({"nodeType": "UnaryOperation", "operator": "!", "prefix": true, "subExpression": c.clone()}));
        }
        ("Integer", "Literal") => {
            if n["kind"] != "number" {
                return;
            }
            if let Some(d) = n["value"].as_str().and_then(sol_integer) {
                let old = n["value"].as_str().unwrap();
                for (name, k) in [("+1", 1), ("-1", -1)] {
                    let nv = dec_add(&d, k);
                    b.alt(name, true, "", vec![q(old), q(&nv)], |v| v["value"] = json!(nv));
                }
                // the unit of a number with a unit stays
                let sub = n["subdenomination"].clone();
                b.alt("random", true, "", vec![q(old), Quote::Any], |v| *v = if sub.is_null() { json!({"$int": ["0", "18446744073709551615"]}) } else { json!({"nodeType": "Literal", "kind": "number", "subdenomination": sub, "value": {"$digits": null}}) });
            }
        }
        ("SwapOperatorArguments", "BinaryOperation") => {
            if NONCOMM.contains(&n["operator"].as_str().unwrap()) {
                let (x, y) = (n["leftExpression"].clone(), n["rightExpression"].clone());
                b.alt("swap", true, "", vec![qn(&x), qn(&y)], |v| {
                    v["leftExpression"] = y.clone();
                    v["rightExpression"] = x.clone();
                });
            }
        }
        ("SwapLines", "Block") => {
            let s = stmts(n);
            for i in 0..s.len() {
                for j in i + 1..s.len() {
                    if s[i]["nodeType"] != "Return" && s[j]["nodeType"] != "Return" {
                        b.alt(&format!("swap {} {}", i, j), true, "", vec![qn(&s[i]), qn(&s[j])], |v| v["statements"].as_array_mut().unwrap().swap(i, j));
                    }
                }
            }
        }
        ("Require", "FunctionCall") => {
            let a = n["arguments"].as_array().unwrap();
            if n["expression"]["name"] == "require" && !a.is_empty() {
                let x = a[0].clone();
                b.alt("not", true, "", vec![qn(&x), q("!")], |v| v["arguments"][0] = json!({"nodeType": "UnaryOperation", "operator": "!", "prefix": true, "subExpression": x.clone()}));
            }
        }
        ("UncheckedBlock", "Block") => {
            for (i, x) in stmts(n).iter().enumerate() {
                if x["nodeType"] != "Return" && x["nodeType"] != "UncheckedBlock" {
                    b.alt(&format!("wrap {}", i), true, &format!("/statements/{}", i), vec![qn(x), q("unchecked")], |v| {
                        v["statements"][i] = json!({"nodeType": "UncheckedBlock", "statements": [x.clone()]});
                    });
                }
            }
        }
        ("ElimDelegateCall", "MemberAccess") => {
            if n["memberName"] == "delegatecall" {
                b.alt("call", true, "", vec![q("delegatecall"), q("call")], |v| v["memberName"] = json!("call"));
            }
        }
        _ => {}
    }
}

fn vy_site(b: &mut B, n: &Value, algo: &str) {
    let t = n["ast_type"].as_str().unwrap_or("");
    if let Some(fam) = family(algo) {
        if matches!(t, "BinOp" | "BoolOp" | "Compare") {
            if let Some(op) = n["op"]["ast_type"].as_str().and_then(vy_sym) {
                if fam.contains(&op) {
                    for o in fam.iter().filter(|o| **o != op) {
                        let word = |o: &str| match o {
                            "&&" => q("and"),
                            "||" => q("or"),
                            _ => q(o),
                        };
                        b.alt(o, true, "", vec![word(op), word(o)], |v| v["op"]["ast_type"] = json!(vy_name(o)));
                    }
                }
            }
        }
        return;
    }
    let empty = vec![];
    match (algo, t) {
        ("UnaryOp", "UnaryOp") => {
            let x = n["operand"].clone();
            b.alt("drop", true, "", vec![qn(n), qn(&x)], |v| *v = x.clone());
        }
        ("Assignment", "Assign") => {
            let old = qn(&n["value"]);
            for (name, w) in [
                ("int", json!({"$int": ["-170141183460469231731687303715884105728", "340282366920938463463374607431768211456"]})),
                ("decimal", json!({"$decimal": null})),
            ] {
                b.alt(name, true, "", vec![old.clone(), Quote::Any], |v| v["value"] = w);
            }
            for x in [true, false] {
                b.alt(if x { "True" } else { "False" }, true, "", vec![old.clone(), q(if x { "True" } else { "False" })], |v| v["value"] = json!({"ast_type": "NameConstant", "value": x}));
            }
        }
        ("DeleteStatement", "FunctionDef" | "For" | "If" | "Module") => {
            let s = n["body"].as_array().unwrap_or(&empty).clone();
            if s.len() == 1 {
                if let Some(id) = s[0]["value"]["id"].as_str() {
                    if s[0]["ast_type"] == "Expr" && matches!(id, "view" | "pure" | "nonpayable" | "payable") {
                        return;
                    }
                }
                let r = &n["returns"];
                let ret = |v: Value| json!({"ast_type": "Return", "value": v});
                let repl: Vec<Value> = match r["ast_type"].as_str() {
                    None => vec![json!({"ast_type": "Pass"})],
                    Some("Name") => {
                        let id = r["id"].as_str().unwrap_or("");
                        if id.starts_with("boo") {
                            vec![ret(json!({"ast_type": "NameConstant", "value": true})), ret(json!({"ast_type": "NameConstant", "value": false}))]
                        } else if id.starts_with("uin") {
                            vec![ret(json!({"$int": ["0", "10"]}))]
                        } else if id.starts_with("int") {
                            vec![ret(json!({"$int": ["-10", "10"]}))]
                        } else if id.starts_with("str") {
                            vec![ret(json!({"$str": null}))]
                        } else {
                            vec![ret(empty_value(r))]
                        }
                    }
                    Some("Tuple") => {
                        let k = r["elements"].as_array().unwrap_or(&empty).len();
                        vec![ret(json!({"ast_type": "Tuple", "elements": vec![json!({"ast_type": "NameConstant", "value": null}); k]}))]
                    }
                    Some(_) => vec![ret(empty_value(r))],
                };
                for (i, x) in repl.into_iter().enumerate() {
                    b.alt(&format!("replace {}", i), true, "/body/0", vec![qn(&s[0])], |v| v["body"] = json!([x]));
                }
            } else {
                for (i, x) in s.iter().enumerate() {
                    b.alt(&format!("delete {}", i), true, &format!("/body/{}", i), vec![qn(x)], |v| {
                        v["body"].as_array_mut().unwrap().remove(i);
                    });
                }
            }
        }
        ("FunctionCall", "Call") => {
            for (i, x) in n["args"].as_array().unwrap_or(&empty).clone().iter().enumerate() {
                let y = x.clone();
                b.alt(&format!("argument {}", i), true, "", vec![qn(n), qn(x)], |v| *v = y);
            }
        }
        ("SwapFunctionArguments", "Call") => {
            let a = n["args"].as_array().unwrap_or(&empty).clone();
            for i in 0..a.len() {
                for j in i + 1..a.len() {
                    b.alt(&format!("swap {} {}", i, j), true, "", vec![qn(&a[i]), qn(&a[j])], |v| v["args"].as_array_mut().unwrap().swap(i, j));
                }
            }
        }
        ("IfStatement", "If") => {
            let c = n["test"].clone();
            for x in [true, false] {
                b.alt(if x { "True" } else { "False" }, true, "", vec![qn(&c), q(if x { "True" } else { "False" })], |v| v["test"] = json!({"ast_type": "NameConstant", "value": x}));
            }
            b.alt("not", true, "", vec![qn(&c), q("not")], |v| v["test"] = json!({"ast_type": "UnaryOp", "op": {"ast_type": "Not"}, "operand": c.clone()}));
        }
        ("Integer", "Int") => {
            let d = n["value"].to_string();
            for (name, k) in [("+1", 1), ("-1", -1)] {
                let nv = dec_add(&d, k);
                // known finding of C02: integers beyond 64 bits are not represented
                let fits = nv.parse::<i64>().is_ok() || nv.parse::<u64>().is_ok();
                b.alt(name, fits, "", vec![q(&d), q(&nv)], |v| v["value"] = json!(nv));
            }
            b.alt("random", true, "", vec![q(&d), Quote::Any], |v| *v = json!({"$int": ["-9223372036854775808", "18446744073709551615"]}));
        }
        ("SwapOperatorArguments", "BinOp" | "Compare") => {
            if let Some(op) = n["op"]["ast_type"].as_str().and_then(vy_sym) {
                if NONCOMM.contains(&op) {
                    let (x, y) = (n["left"].clone(), n["right"].clone());
                    b.alt("swap", true, "", vec![qn(&x), qn(&y)], |v| {
                        v["left"] = y.clone();
                        v["right"] = x.clone();
                    });
                }
            }
        }
        ("SwapLines", "FunctionDef" | "For" | "If") => {
            let s = n["body"].as_array().unwrap_or(&empty).clone();
            for i in 0..s.len() {
                for j in i + 1..s.len() {
                    if s[i]["ast_type"] != "Return" && s[j]["ast_type"] != "Return" {
                        b.alt(&format!("swap {} {}", i, j), true, "", vec![qn(&s[i]), qn(&s[j])], |v| v["body"].as_array_mut().unwrap().swap(i, j));
                    }
                }
            }
        }
        _ => {}
    }
}

fn empty_value(t: &Value) -> Value {
    json!({"ast_type": "Call", "func": {"ast_type": "Name", "id": "empty"}, "args": [t], "keywords": []})
}
