//! Exhaustive enumeration of Vyper sources up to a bound.
use crate::gen_sol::{fill, holes};
use std::collections::HashSet;

pub const EXPRS: &[&str] = &[
    "# + #", "# - #", "# * #", "# / #", "# % #", "# ** #", "# & #", "# | #", "# ^ #", "# << #", "# >> #", "# and #", "# or #", "# and # and #", "# or # or #", "# == #", "# != #", "# < #", "# <= #", "# > #",
    "# >= #", "# in #", "# not in #", "not #", "-#", "~#", "# if # else #", "f()", "f(#)", "f(#, #)", "f(#, #, #)", "f(k=#)", "f(#, k=#)", "f(k=#, m=#)", "#(a)", "#.m", "#[a]", "a[#]", "a[#, #]", "[#]", "[#, #]", "(#, #)", "(#,)",
    "{x: #}", "{x: #, y: #}", "extcall.f(#)[0].g(#)", "S({x: #, y: #})",
];
pub const ATOMS: &[&str] = &[
    "a", "1", "0", "9223372036854775807", "1_000", "1.5", "0.0", "-5", "-1.5", "0x1F", "0xdCad3a6d3569DF655070DEd06cb7A1b2Ccd1D3AF", "\"s\"", "\"\"", "'q'", "b\"ab\"", "b''", "b'\\x00\\xff'",
    "True", "False", "None", "self", "self.x", "msg.sender", "block.timestamp", "empty(address)", "empty(uint256[3])", "[]", "{}", "max_value(uint256)", "a.b.c", "a[1][2]", "convert(a, uint256)", "self.m[a][b]", "-9223372036854775808",
    "concat(b\"\", a)", "raw_call(a, b, max_outsize=32, value=1)", "S({x: 1, y: 2})", "ERC20(a).transfer(b, 1)", "range(10)",
];

pub fn plug(t: &str, inner: &str, out: &mut Vec<String>) {
    let n = holes(t);
    let base = ["a", "b", "c"];
    for h in 0..n {
        for paren in [false, true] {
            let p = if paren { format!("({})", inner) } else { inner.to_string() };
            let mut fills: Vec<&str> = base[..n].to_vec();
            fills[h] = &p;
            out.push(fill(t, &fills));
        }
    }
}
pub fn dedup(mut v: Vec<String>) -> Vec<String> {
    let mut seen = HashSet::new();
    v.retain(|s| seen.insert(s.clone()));
    v
}
pub fn exprs_depth1() -> Vec<String> {
    let mut v: Vec<String> = ATOMS.iter().map(|s| s.to_string()).collect();
    for t in EXPRS {
        v.push(if holes(t) == 0 { t.to_string() } else { fill(t, &["a", "b", "c"]) });
    }
    v
}
pub fn plug_all(inners: &[String]) -> Vec<String> {
    let mut out = vec![];
    for t in EXPRS {
        for i in inners {
            plug(t, i, &mut out);
        }
    }
    dedup(out)
}

pub type Lines = Vec<String>;
pub fn l(s: &str) -> Lines {
    s.split('\n').map(|x| x.to_string()).collect()
}
pub fn indent(v: &[String], n: usize) -> Lines {
    v.iter().map(|s| format!("{}{}", " ".repeat(4 * n), s)).collect()
}
pub fn in_fn(body: &[String]) -> String {
    format!("@external\ndef f():\n{}\n", indent(body, 1).join("\n"))
}
pub fn in_fn1(body: &str) -> String {
    in_fn(&l(body))
}

pub const SIMPLE: &[&str] = &[
    "pass", "break", "continue", "return", "return a", "return a, b", "return (a, b)", "x = 1", "self.x = a", "self.m[a][b] = c", "a, b = f()", "(a, b) = self.g(1)", "x: uint256 = 1", "x: DynArray[uint256, 3] = [1, 2]", "x: HashMap[address, uint256] = a",
    "x: Bytes[32] = b\"\"", "x: String[10] = \"s\"", "x: (uint256, bool) = f()", "x: uint256[3] = [1, 2, 3]", "x: S = S({a: 1})", "x += 1", "x -= 1", "x *= 2", "x /= 2", "x %= 2", "x **= 2", "x &= 1", "x |= 1", "x ^= 1", "x <<= 1", "x >>= 1",
    "self.x += a", "self.m[a] -= b", "f()", "self.g(a, b)", "log E(a, b)", "log E()", "assert a", "assert a, \"m\"", "assert a == b, UNREACHABLE", "assert not a", "raise", "raise \"m\"", "raise UNREACHABLE", "send(a, 1)", "selfdestruct(a)",
    "self.q.append(1)", "x = a if b else c", "assert (a, b)", "raw_log([], b\"\")", "x = -y", "x = {}",
];
/// compound statements; `#` stands on a line of its own, one statement per hole
pub const COMPOUND: &[&str] = &[
    "if a:\n    #", "if a:\n    #\nelse:\n    #", "if a:\n    #\nelif b:\n    #", "if a:\n    #\nelif b:\n    #\nelse:\n    #", "if a:\n    pass\nelse:\n    if b:\n        #\n    x = 1", "for i in range(10):\n    #", "for i in [1, 2]:\n    #\n    #", "for i in self.q:\n    #\nx = 2",
    "if a:\n    #\nx = 2", "if not a:\n    x = 1\n    #\n    y = 2", "for i in range(a, a + 3):\n    if b:\n        #\n    else:\n        #\n    continue", "x = 1\n#\ny = 2",
];

/// all fillings of a compound template where one hole is `inner` and the others are simple
pub fn plug_stmt(t: &str, inner: &Lines, out: &mut Vec<Lines>) {
    let n = holes(t);
    for h in 0..n {
        let mut lines = vec![];
        let mut k = 0;
        for line in t.split('\n') {
            if let Some(p) = line.find('#') {
                let pad = p / 4;
                if k == h {
                    lines.extend(indent(inner, pad));
                } else {
                    lines.extend(indent(&[["z = 1", "f()", "self.y = 2"][k].to_string()], pad));
                }
                k += 1;
            } else {
                lines.push(line.to_string());
            }
        }
        out.push(lines);
    }
}
pub fn statements(thorough: bool) -> Vec<Lines> {
    let d0: Vec<Lines> = SIMPLE.iter().map(|s| l(s)).collect();
    let mut d1 = vec![];
    for t in COMPOUND {
        for s in &d0 {
            plug_stmt(t, s, &mut d1);
        }
    }
    let mut d2 = vec![];
    let inner: Vec<Lines> = if thorough { d1.clone() } else { COMPOUND.iter().flat_map(|t| { let mut o = vec![]; plug_stmt(t, &l("x = 1"), &mut o); o }).collect() };
    for t in COMPOUND {
        for s in &inner {
            plug_stmt(t, s, &mut d2);
        }
    }
    let mut all = d0.clone();
    for a in &d0 {
        for b in &d0 {
            let mut s = a.clone();
            s.extend(b.clone());
            all.push(s);
        }
    }
    all.extend(d1);
    let mut d3 = vec![];
    if thorough {
        let c: Vec<Lines> = COMPOUND.iter().flat_map(|t| { let mut o = vec![]; plug_stmt(t, &l("x = 1"), &mut o); o }).collect();
        let mut c2 = vec![];
        for t in COMPOUND {
            for s in &c {
                plug_stmt(t, s, &mut c2);
            }
        }
        for t in COMPOUND {
            for s in &c2 {
                plug_stmt(t, s, &mut d3);
            }
        }
    }
    all.extend(d2);
    all.extend(d3);
    let mut seen = HashSet::new();
    all.retain(|s| seen.insert(s.join("\n")));
    all
}

pub fn types() -> Vec<String> {
    let el = ["uint256", "int128", "bool", "address", "bytes32", "decimal", "Bytes[32]", "String[N]", "S", "I", "HashMap[address, uint256]", "HashMap[address, HashMap[bytes32, S]]", "DynArray[uint256, 3]", "DynArray[DynArray[S, 2], MAX]", "(uint256, bool)", "(uint256, (bool, S))", "uint8", "Bytes[2 * N]"];
    let mut v = vec![];
    for e in el {
        for s in ["", "[3]", "[N]", "[3][N + 1]"] {
            v.push(format!("{}{}", e, s));
        }
    }
    v
}

pub fn top_level() -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for s in [
        "import a", "import a as b", "import a.b.c as d", "from a import b", "from a import b as c", "from a.b import c", "from . import a", "from . import a as b", "from .a import b", "from .. import a", "from ..a.b import c as d", "from ... import x", "from vyper.interfaces import ERC20",
        "implements: ERC20", "struct S:\n    a: uint256", "struct S:\n    a: uint256\n    b: DynArray[address, 3]", "event E:\n    a: indexed(address)\n    b: uint256", "event E:\n    pass", "enum F:\n    A\n    B", "enum F:\n    A",
        "interface I:\n    def f(): view", "interface I:\n    def f(a: address, b: uint256) -> uint256: nonpayable\n    def g() -> (uint256, bool): payable", "interface I:\n    def f(a: uint256 = 1) -> Bytes[32]: pure", "x: uint256", "x: public(uint256)", "x: constant(uint256) = 1", "x: public(constant(uint256)) = 1", "x: immutable(address)",
        "x: public(immutable(address))", "x: public(HashMap[address, uint256])", "x: transient(uint256)", "x: public(transient(bool))", "x: constant(uint256[2]) = [1, 2]", "x: constant(bytes32) = 0x0000000000000000000000000000000000000000000000000000000000000001", "x: constant(String[5]) = \"a\"",
        "x: constant(decimal) = 1.5", "x: constant(int128) = -1", "@external\ndef f():\n    pass", "@external\n@view\ndef f() -> uint256:\n    return 1", "@internal\ndef _f(a: uint256, b: bool = True) -> (uint256, bool):\n    return a, b", "@external\n@nonreentrant(\"lock\")\n@payable\ndef __default__():\n    pass",
        "@external\ndef __init__(a: address):\n    self.x = a", "@deploy\ndef f():\n    \"\"\"doc\"\"\"\n    pass", "@pure\n@internal\ndef g(a: DynArray[S, 3], b: uint256 = 1, c: Bytes[4] = b\"ab\") -> DynArray[uint256, 3]:\n    return [1]",
    ] {
        v.push(s.to_string());
    }
    v
}

pub fn functions() -> Vec<String> {
    let mut v = vec![];
    let decos: Vec<Vec<&str>> = vec![vec![], vec!["external"], vec!["internal", "view"], vec!["external", "payable", "nonreentrant(\"k\")"], vec!["pure", "external"], vec!["nonreentrant('a b')", "internal"]];
    let args = ["", "a: uint256", "a: address, b: Bytes[32]", "a: uint256 = 1", "a: uint256, b: uint256 = 2 + 3, c: String[3] = \"x\"", "a: (uint256, bool)", "a: uint256[2] = [1, 2], b: bool = not True"];
    let rets = ["", " -> uint256", " -> (uint256, bool)", " -> (uint256, DynArray[address, 3], S)", " -> DynArray[(uint256, bool), 3]", " -> (uint256,)"];
    let docs = ["", "\"\"\"one line\"\"\"", "\"\"\"\n    @notice two\n    @param a b\n    \"\"\"", "'single'"];
    for d in &decos {
        for a in args {
            for r in rets {
                for doc in docs {
                    let mut s = String::new();
                    for x in d {
                        s += &format!("@{}\n", x);
                    }
                    s += &format!("def f({}){}:\n", a, r);
                    if !doc.is_empty() {
                        s += &format!("    {}\n", doc);
                    }
                    s += "    pass\n";
                    v.push(s);
                }
            }
        }
    }
    v
}

pub fn type_positions() -> Vec<String> {
    let mut v = vec![];
    for t in types() {
        for p in ["x: #", "x: public(#)", "x: immutable(#)", "x: constant(#) = a", "struct S:\n    a: #\n    b: #", "event E:\n    a: indexed(#)", "interface I:\n    def f(a: #) -> #: view", "def f(a: #, b: # = c) -> #:\n    x: # = empty(#)\n    for i in a:\n        y: # = i", "def f():\n    x: #[2] = a"] {
            v.push(format!("{}\n", fill(p, &[&t])));
        }
    }
    v
}

/// source spellings of string characters
fn chars() -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for c in 0u32..256 {
        v.push(format!("\\x{:02x}", c));
    }
    for s in ["a", " ", "'", "\\\"", "\\\\", "\\n", "\\t", "\\r", "#", "%", "{", "é", "\\0", "\\u00e9", "\\'", "x", "n", "0"] {
        v.push(s.to_string());
    }
    v
}
pub fn strings() -> Vec<String> {
    let mut v = vec![];
    let few = ["a", " ", "'", "\\\"", "\\\\", "\\n", "\\r", "\\t", "\\x00", "\\x1b", "\\x7f", "\\xff", "n", "x41", "#", "0"];
    for c in chars() {
        v.push(format!("\"{}\"", c));
        v.push(format!("\"a{}b\"", c));
    }
    for a in few {
        for b in few {
            v.push(format!("\"{}{}\"", a, b));
            for c in few {
                v.push(format!("\"{}{}{}\"", a, b, c));
            }
        }
    }
    let mut out = vec![];
    for s in &v {
        out.push(in_fn1(&format!("x = {}", s)));
    }
    for c in 0u32..256 {
        out.push(in_fn1(&format!("x = b\"\\x{:02x}a\"", c)));
    }
    for s in v.iter().take(600) {
        out.push(format!("@nonreentrant({})\ndef f():\n    assert a, {}\n    raise {}\n", s, s, s));
    }
    out
}
pub fn docs() -> Vec<String> {
    let pieces = ["a", " ", "\\\\", "\\\"", "'", "\n", "\n    ", "  ", "\\n", "\\x41", "\\r", "#", "\\\"\\\"\\\"", "é", "word word word word word word word word word word word word word word word word word word word word word word word word word word word word word word word "];
    let mut ds = vec![];
    for a in pieces {
        ds.push(a.to_string());
        for b in pieces {
            ds.push(format!("{}{}", a, b));
            for c in pieces {
                ds.push(format!("{}{}{}", a, b, c));
            }
        }
    }
    for q in ["'''a\"b\"\"\"c'''", "'a\"b'", "'''a\"'''", "'''\"'''", "\"\"\" \"a\" \"\"\"", "\"\"\"\"a\"\"\""] {
        ds.push(format!("RAW{}", q));
    }
    let mut v = vec![];
    for d in ds {
        let lit = match d.strip_prefix("RAW") {
            Some(x) => x.to_string(),
            None => format!("\"\"\"{}\"\"\"", d),
        };
        v.push(format!("{}\nx: uint256\n", lit));
        v.push(format!("def f():\n    {}\n    pass\ndef g():\n    pass\n", lit));
    }
    v
}

/// one construct pushed across the page width column by column
pub fn wraps(thorough: bool) -> Vec<String> {
    let mut v = vec![];
    let pads: Vec<usize> = if thorough { (1..260).collect() } else { (90..170).collect() };
    let forms = [
        "x = {} + b", "x: uint256 = {} * (a - b)", "assert {} == b, \"m\"", "x = f({}, b)[1].g", "return {} and b or not c", "log E({}, b)", "if {} > b:\n    x = 1", "for i in range({}, b):\n    x = 1", "x = [{}, b, c]", "self.m[{}][b] = c", "a, {} = f()", "x += {} - 1", "x = {} if b else c",
        "raise \"{}\"", "x = \"{}\"", "{}(a, k=b)", "x = {}.b.c.d", "x = -{}", "x = S({{x: {}, y: b}})", "x: HashMap[address, {}] = b", "x = {} ** b", "return {}, b", "x = not {}", "x = 1 - {} - 3",
    ];
    for n in pads {
        let name = "n".repeat(n);
        for f in forms {
            v.push(in_fn1(&f.replace("{{", "\u{1}").replace("}}", "\u{2}").replace("{}", &name).replace('\u{1}', "{").replace('\u{2}', "}")));
        }
        v.push(format!("x: public(constant({})) = 1\n", name));
        v.push(format!("from {} import b as c\n", name));
        v.push(format!("import {} as c\n", name));
        v.push(format!("implements: {}\n", name));
        v.push(format!("@external\ndef {}(a: uint256, b: bool = True) -> (uint256, bool):\n    pass\n", name));
        v.push(format!("@{}\n@view\ndef f():\n    pass\n", name));
        v.push(format!("interface I:\n    def f(a: {}) -> uint256: view\n", name));
        v.push(format!("event {}:\n    a: indexed({})\n", name, name));
        v.push(format!("enum F:\n    {}\n    B\n", name));
    }
    v
}
pub fn deep(max: usize) -> Vec<String> {
    let mut v = vec![];
    for d in 1..=max {
        let mut s = String::from("def f():\n");
        for i in 0..d {
            s += &format!("{}{}:\n", " ".repeat(4 * (i + 1)), ["if a", "for i in range(3)"][i % 2]);
        }
        s += &format!("{}x = 1\n", " ".repeat(4 * (d + 1)));
        v.push(format!("{}    y = 2\n", s));
        v.push(in_fn1(&format!("x = {}a{}", "(1 - ".repeat(d), ")".repeat(d))));
        v.push(in_fn1(&format!("x = {}a{}", "f(".repeat(d), ")".repeat(d))));
        v.push(in_fn1(&format!("x = {}a", "not ".repeat(d))));
        v.push(in_fn1(&format!("x = {}a", "~".repeat(d))));
        v.push(in_fn1(&format!("x = a{}", " - a".repeat(d))));
        v.push(in_fn1(&format!("x = a{}", " ** a".repeat(d))));
        v.push(in_fn1(&format!("x = a{}", " and a".repeat(d))));
        v.push(in_fn1(&format!("x = a{}", "[1]".repeat(d))));
    }
    v
}

/// every list of the grammar at many lengths, and names and literals of many lengths
pub fn sizes(thorough: bool) -> Vec<String> {
    let mut v = vec![];
    let mut ns: Vec<usize> = (1..=if thorough { 300 } else { 36 }).collect();
    ns.extend([63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 300]);
    ns.sort();
    ns.dedup();
    for n in ns {
        let list = |f: &dyn Fn(usize) -> String, sep: &str| (0..n).map(|i| f(i)).collect::<Vec<_>>().join(sep);
        let exprs = list(&|i| ["x + 1", "f(y)", "\"s\"", "m[2]", "z", "True", "-3"][i % 7].to_string(), ", ");
        let params = list(&|i| format!("p{}: uint256", i), ", ");
        let defaults = list(&|i| format!("p{}: uint256 = {}", i, i), ", ");
        let stmts = |ind: usize| list(&|i| format!("{}{}\n", " ".repeat(ind), ["a = 1", "b += 2", "f(x)", "q: uint256 = 1", "pass", "assert a", "log E(1)"][i % 7]), "");
        v.push(format!("@external\ndef f({}) -> ({}):\n    pass\n", params, list(&|_| "uint256".into(), ", ")));
        v.push(format!("@external\ndef f({}):\n    pass\n", defaults));
        v.push(format!("{}def f():\n    pass\n", list(&|i| ["@external\n", "@view\n", "@nonreentrant(\"l\")\n"][i % 3].to_string(), "")));
        v.push(format!("def f():\n{}", stmts(4)));
        v.push(format!("def f():\n    if a:\n{}    else:\n{}    for i in range(3):\n{}    x = 1\n", stmts(8), stmts(8), stmts(8)));
        v.push(format!("def f():\n    if a:\n        pass\n{}    else:\n        pass\n", list(&|i| format!("    elif b{}:\n        x = {}\n", i, i), "")));
        v.push(format!("struct S:\n{}\nevent E:\n{}\n", list(&|i| format!("    m{}: uint256\n", i), ""), list(&|i| format!("    m{}: {}\n", i, if i % 2 == 0 { "indexed(address)" } else { "uint256" }), "")));
        v.push(format!("enum F:\n{}", list(&|i| format!("    M{}\n", i), "")));
        v.push(format!("interface I:\n{}", list(&|i| format!("    def f{}(a: uint256) -> uint256: view\n", i), "")));
        v.push(in_fn1(&format!("g({})\nx = [{}]\ny = ({}, 1)", exprs, exprs, exprs)));
        v.push(in_fn1(&format!("g({})\nlog E({})\nx = S({{{}}})", list(&|i| format!("k{}=x", i), ", "), exprs, list(&|i| format!("m{}: {}", i, i), ", "))));
        if n > 1 {
            v.push(in_fn1(&format!("{} = h()", list(&|i| format!("v{}", i), ", "))));
        }
        v.push(list(&|i| ["a: uint256\n", "b: constant(uint256) = 1\n", "import x as y\n", "def f():\n    pass\n", "struct S:\n    a: uint256\n"][i % 5].to_string(), ""));
        for op in [" + ", " - ", " and ", " * ", " or "] {
            v.push(in_fn1(&format!("x = {}", list(&|i| ["a", "1", "f(b)", "\"s\""][i % 4].to_string(), op))));
        }
        v.push(in_fn1(&format!("x{} = y{}", "[1]".repeat(n), ".m".repeat(n))));
        v.push(format!("a: uint256{}\nb: {}uint256{}\n", "[2]".repeat(n), "HashMap[address, ".repeat(n), "]".repeat(n)));
        let p = "v".repeat(n);
        v.push(format!("{}: uint256\ndef {}({}: {}) -> {}:\n    {} = {}.{}({})\n", p, p, p, p, p, p, p, p, p));
        v.push(in_fn1(&format!("a = \"{}\"\nb = b\"{}\"\nc = 0x{}\nd = 0.{}", "s".repeat(n), "ab".repeat(n), "c".repeat(2 * n), "3".repeat(n))));
        v.push(in_fn1(&format!("a = \"{}\"\nb = \"{}\"", "\\n".repeat(n), "\\\"x ".repeat(n))));
        v.push(format!("def f():\n    \"\"\"{}\"\"\"\n    pass\n", "d ".repeat(n)));
        v.push(format!("def f():\n    \"\"\"\n{}    \"\"\"\n    pass\n", list(&|i| format!("    line {}\n", i), "")));
    }
    v
}
