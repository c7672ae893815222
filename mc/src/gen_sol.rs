//! Exhaustive enumeration of Solidity sources up to a bound.
use std::collections::HashSet;

/// expression templates; `#` is a hole
pub const EXPRS: &[&str] = &[
    "# + #", "# - #", "# * #", "# / #", "# % #", "# ** #", "# && #", "# || #", "# == #", "# != #", "# < #", "# > #",
    "# <= #", "# >= #", "# & #", "# | #", "# ^ #", "# << #", "# >> #", "# >>> #", "!#", "~#", "-#", "++#", "--#", "delete #",
    "#++", "#--", "# ? # : #", "# = #", "# += #", "# -= #", "# *= #", "# /= #", "# %= #", "# |= #", "# &= #", "# ^= #",
    "# <<= #", "# >>= #", "# >>>= #", "(#)", "(#, #)", "(, #)", "(#, )", "(#, , #)", "[#]", "[#, #]", "f()", "f(#)", "f(#, #)",
    "f(#, #, #)", "f({x: #})", "f({x: #, y: #})", "#(a)", "#.m", "#[a]", "a[#]", "a[#:#]", "a[#:]", "a[:#]", "#[:]",
    "#{value: #}(#)", "f{value: #, gas: #}()", "new C(#)", "new uint256[](#)", "new C{salt: #}(#)", "uint256(#)", "payable(#)",
    "address(#)", "abi.decode(#, (uint256, address payable))",
];

pub const ATOMS: &[&str] = &[
    "a", "1", "0x1F", "1.5", "1e18", "2e-3", "1_000", "0x00_ff", "1 ether", "2 days", "3 gwei", "4 seconds", "5 weeks", "6 minutes", "7 hours", "8 wei",
    "\"s\"", "\"\"", "'q'", "hex\"00ff\"", "hex\"\"", "unicode\"h\u{e9}\"", "true", "false", "this", "super", "msg.sender", "()", "type(uint256).max",
    "type(C).name", "string.concat(a, b)", "bytes.concat()", "abi.decode(a, (uint256[]))", "abi.decode(a, (T[3], bytes32))", "a.b.c", "a[1][2]", "L.T(1)",
    "0xdCad3a6d3569DF655070DEd06cb7A1b2Ccd1D3AF", "\"a\" \"b\"", "hex\"00\" hex\"11\"", ".5", "uint8[2]", "new bytes(3)", "1 == 2", "a.address", "blockhash(0)",
];

pub fn fill(t: &str, fills: &[&str]) -> String {
    let mut s = String::new();
    let mut i = 0;
    for c in t.chars() {
        if c == '#' {
            s.push_str(fills[i.min(fills.len() - 1)]);
            i += 1;
        } else {
            s.push(c);
        }
    }
    s
}
pub fn holes(t: &str) -> usize {
    t.chars().filter(|c| *c == '#').count()
}

/// all fillings of `t` where one hole is `inner` (raw and parenthesised) and the others plain
pub fn plug(t: &str, inner: &str, out: &mut Vec<String>) {
    let n = holes(t);
    let base = ["a", "b", "c"];
    for h in 0..n {
        for paren in [false, true] {
            let p = if paren { format!("({})", inner) } else { inner.to_string() };
            let mut fills: Vec<&str> = base[..n].to_vec();
            fills[h] = &p;
            // keep two adjacent minus signs apart
            let s = fill(t, &fills);
            let s = if t == "-#" && p.starts_with('-') { format!("- {}", p) } else { s };
            out.push(s);
        }
    }
}

pub fn exprs_depth1() -> Vec<String> {
    let mut v: Vec<String> = ATOMS.iter().map(|s| s.to_string()).collect();
    for t in EXPRS {
        if holes(t) == 0 {
            v.push(t.to_string());
        } else {
            v.push(fill(t, &["a", "b", "c"]));
        }
    }
    v
}

pub fn plug_all(inners: &[String]) -> Vec<String> {
    let mut out = vec![];
    for t in EXPRS {
        for i in inners {
            plug(t, i, &mut out);
        }
    }
    let mut seen = HashSet::new();
    out.retain(|s| seen.insert(s.clone()));
    out
}

pub fn in_fn(body: &str) -> String {
    format!("contract C {{ function f() public {{ {} }} }}", body)
}

pub const SIMPLE: &[&str] = &[
    "a = 1;", "uint256 x = 1;", "uint256 x;", "uint x = 2;", "(uint256 x, uint256 y) = f();", "(, uint256 y) = f();", "(uint256 x, , ) = f();", "(uint256 x, bool[] memory y) = (a, b);",
    "(a, b) = (b, a);", "(a, ) = f();", "uint256[] memory z = a;", "T.U storage s = a;", "uint8[3] memory q;", "uint8[N + 1][] calldata q = a;",
    "mapping(address => uint256) storage m = a;", "function (uint256, bytes memory) external view returns (bool) g = f;",
    "function () internal g = f;", "function (uint256 n) pure returns (uint256 r, bytes memory) g;", "function () external payable g = f;",
    "address payable p = payable(a);", "bytes32 h = keccak256(a);", "string memory t = \"x\";",
    "f();", "delete a;", "return;", "return a;", "return (a, b);", "return ();", "break;", "continue;", "emit E(a, b);", "emit L.E();", "emit E({x: a, y: b});",
    "revert Err(a);", "revert L.Err();", "revert Err({x: a});", "revert();", "revert(\"x\");", "require(a, \"m\");", "_;", "++a;", "a.b{value: 1}(a);",
    "assembly { }", "assembly (\"memory-safe\") { let x := 1 }", "assembly (\"memory-safe\", \"other\") { x := 1 }", "assembly \"evmasm\" { x := 1 }", "assembly \"evmasm\" (\"a\", \"b\", \"c\") { }", "/// @solidity memory-safe-assembly\nassembly { x := 1 }", "{ }", "unchecked { }",
];

/// statement templates with statement holes
pub const STMTS: &[&str] = &[
    "{ # }", "{ # # }", "{ a = 1; # b = 2; }", "unchecked { # }", "if (a) #", "if (a) # else #", "if (a) { # } else { # }", "if (a) { } else if (b) #", "while (a) #", "while (a) { # }",
    "do # while (a);", "do { # } while (a);", "for (;;) #", "for (uint256 i = 0; i < 1; i++) #", "for (i = 0; i < 1; ) { # }", "for (; a; b) { # }", "for (uint256 i; ; ++i) { # }", "for (a; ; ) #",
    "for (; ; a) #", "for (; a; ) #", "for ((uint256 x, uint256 y) = (1, 2); ; ) #",
    "try a.f() { # } catch { # }", "try a.f() returns (uint256 r) { # } catch Error(string memory s) { # } catch (bytes memory e) { # }", "try a.f(b) returns (uint256, bytes memory) { } catch Panic(uint256 c) { # } catch { }",
    "try new C(a) { # } catch { }", "try new C{salt: b}(a) returns (C c) { # } catch { }", "try a.f{value: 1, gas: 2}() { } catch (bytes memory) { # }", "try this.f({x: 1}) { # } catch { }",
];

pub const YEXPR: &[&str] = &["x", "1", "0xff", "\"s\"", "\"\"", "true", "false", "hex\"00ff\"", "a.slot", "f()", "f(#)", "add(#, #)", "f(#, #, #)", "return(#, #)", "byte(0, #)"];
pub const YSTMT: &[&str] = &[
    "let x", "let x := 1", "let x, y", "let x, y := f()", "x := add(x, 1)", "x, y := f()", "pop(f())", "return(0, 0)", "break", "continue", "leave", "{ }", "{ # }", "{ # # }", "if x { # }", "if lt(x, 1) { }",
    "switch x case 0 { # } default { # }", "switch f(x) case \"a\" { } case hex\"00\" { }", "switch x case true { # }", "switch x default { # }",
    "for { let i := 0 } lt(i, 1) { i := add(i, 1) } { # }", "for { } 1 { } { # }", "for { let i let j := 1 } x { i := 1 j := 2 } { # # }", "for { if x { y := 1 } } x { # } { }",
    "function f() { # }", "function f(a) { # }", "function f(a, b) -> c { # }", "function f() -> c, d { # }", "function f(a, b, c) -> d, e, g { leave }",
];

pub fn types() -> Vec<String> {
    let el = [
        "uint256", "uint", "int8", "bool", "address", "address payable", "bytes32", "bytes", "string", "T", "L.T", "A.B.C", "function () external",
        "function (uint256) internal pure returns (bool)", "function (bytes memory) external payable returns (bytes memory, uint256)", "function (T storage) view", "mapping(uint256 => bool)",
        "mapping(address owner => uint256 balance)", "mapping(T => mapping(bytes32 k => T[] v))", "mapping(L.T => address payable)", "mapping(uint256 => function (bool) external view returns (bool))",
    ];
    let mut v = vec![];
    for e in el {
        for suf in ["", "[]", "[3]", "[N]", "[][2]", "[2 * N][]"] {
            v.push(format!("{}{}", e, suf));
        }
    }
    v
}

pub fn top_level() -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for p in [
        "pragma solidity ^0.8.0;", "pragma solidity >=0.7.0 <0.9.0;", "pragma solidity 0.8.19;", "pragma solidity =0.8.19;", "pragma solidity ~0.8.1;", "pragma solidity ^0.8;", "pragma solidity 0.8.x;",
        "pragma solidity ^0.7.0 || ^0.8.0;", "pragma solidity 0.7.0 - 0.8.0;", "pragma solidity >0.8.0 <=0.8.25;", "pragma solidity *;", "pragma abicoder v2;", "pragma experimental ABIEncoderV2;", "pragma experimental SMTChecker;",
        "import \"a.sol\";", "import \"a.sol\" as A;", "import * as B from \"b.sol\";", "import {X} from \"c.sol\";", "import {X as Y} from \"c.sol\";", "import {X, Z as W, V} from \"../d e/c.sol\";",
        "struct S { uint256 a; }", "struct S { uint256 a; mapping(uint256 => bool) b; T[] c; }", "enum E { A }", "enum E { A, B, C }", "type U is uint256;", "type V is address payable;", "type W is bytes32;",
        "using L for uint256;", "using L for T global;", "using {f} for T;", "using {f, L.g} for T global;", "using {f as +, g as ==, h} for T global;", "using {add as +} for T global;", "using A.L for A.T;",
        "event Ev();", "event Ev(uint256 a);", "event Ev(uint256 indexed a, bytes b, address indexed) anonymous;", "error Er();", "error Er(uint256 a, string b);", "/// doc of event\nevent Ev(uint256 a);", "/** doc of error */ error Er();",
        "/// doc of struct\nstruct S { uint256 a; }", "/// doc of enum\nenum E { A }",
        "uint256 constant X = 1;", "string constant NAME = \"n\";", "uint256[2] constant Y = [1, 2];", "function free() { }", "function free(uint256 a) pure returns (uint256) { return a; }", "function free(T memory t) view returns (T memory r, bool) { r = t; }",
        "contract C { }", "abstract contract C { }", "interface I { }", "library L { }", "contract C is A { }", "contract C is A, L.B(1, a), D() { }", "interface I is A, B { }", "abstract contract C is A(\"x\") { }",
        "/// @title doc\ncontract C { }", "/**\n * @title doc\n * @notice more words\n */\nlibrary L { }",
    ] {
        v.push(p.to_string());
    }
    v
}

pub fn members() -> Vec<String> {
    let mut v: Vec<String> = vec![];
    for p in [
        "struct S { uint256 a; }", "enum E { A, B }", "type U is uint256;", "using L for uint256;", "using L for *;", "using {f} for T;", "event Ev(uint256 indexed a, bytes);", "event Ev() anonymous;", "error Er(uint256 a);", "/// doc\nerror Er();",
        "modifier m { _; }", "modifier m() { _; }", "modifier m(uint256 a, bytes memory b) virtual { _; }", "modifier m() override { _; a = 1; }", "modifier m() virtual override(A, B) { _; }", "modifier m() virtual;", "modifier m(uint256 a) virtual override;", "/// doc m\nmodifier m { _; }",
        "constructor() { }", "constructor(uint256 a) payable { }", "constructor(uint256 a) A(a) B() { }", "constructor() internal { }", "constructor(string memory s) L.A(s) m { a = 1; }",
        "receive() external payable { }", "receive() external payable virtual override { }", "fallback() external { }", "fallback() external payable { }", "fallback(bytes calldata i) external returns (bytes memory o) { }", "fallback() external virtual;",
        "function g() public { }", "function h() external view returns (uint256);",
        "/// single\nfunction k() public { }", "/// first\n/// second\nfunction k() public { }", "/**\n * @dev words here\n * @param a more\n */\nfunction k(uint256 a) public { }",
        "/// doc var\nuint256 public v;", "/// doc\nfallback() external { }", "/// @notice ctor\nconstructor() { }",
    ] {
        v.push(p.to_string());
    }
    v
}

pub fn functions(thorough: bool) -> Vec<String> {
    let mut v = vec![];
    let params: &[&str] = if thorough { &["", "uint256", "uint256 a", "uint256 a, bytes memory b", "T calldata, address payable p, T storage s"] } else { &["", "uint256 a", "uint256, T calldata b"] };
    let mods: &[&str] = if thorough { &["", "m", "m()", "m(a)", "m n(1, a)", "L.m(a) n", "A.m"] } else { &["", "m", "m() n(1, a)"] };
    let rets: &[&str] = &["", "returns (uint256)", "returns (uint256 r, bytes memory)"];
    for kind in ["function g", "constructor", "receive", "fallback"] {
        for p in params {
            for vis in ["", "public", "private", "internal", "external"] {
                for mu in ["", "pure", "view", "payable"] {
                    for vt in ["", "virtual"] {
                        for ov in ["", "override", "override(A)", "override(A, L.B)"] {
                            for m in mods {
                                for r in rets {
                                    for b in ["{ }", ";", "{ return 1; }"] {
                                        v.push(format!("contract C {{ {}({}) {} {} {} {} {} {} {} }}", kind, p, vis, mu, vt, ov, m, r, b));
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    v
}

pub fn state_vars() -> Vec<String> {
    let mut v = vec![];
    for t in types() {
        for vis in ["", "public", "private", "internal"] {
            for mu in ["", "constant", "immutable", "transient"] {
                for ov in ["", "override", "override(A, B)"] {
                    for val in ["", "= 1", "= f(a)[1]"] {
                        v.push(format!("contract C {{ {} {} {} {} x {}; }}", t, vis, mu, ov, val));
                    }
                }
            }
        }
    }
    v
}

/// types in every position that takes one
pub fn type_positions() -> Vec<String> {
    let mut v = vec![];
    for t in types() {
        for loc in ["", "memory", "storage", "calldata"] {
            v.push(format!("contract C {{ function f({t} {loc}) public {{ }} }}"));
            v.push(format!("contract C {{ function f({t} {loc} x, {t} {loc}) public returns ({t} {loc} r) {{ {t} {loc} y; {t} {loc} z = y; }} }}"));
        }
        v.push(format!("struct S {{ {t} a; {t}[] b; }}"));
        v.push(format!("event E({t} indexed a, {t} b, {t}); error F({t}, {t} x);"));
        v.push(format!("using L for {t};"));
        v.push(format!("type U is {t};"));
        v.push(format!("contract C {{ mapping({t} => {t}) m; mapping({t} k => {t} v) n; function ({t} memory) external returns ({t} memory) g; }}"));
        v.push(format!("contract C {{ function f() public {{ a = new {t}(3); b = abi.decode(a, ({t})); }} }}"));
        v.push(format!("{t} constant X = 1;"));
    }
    v
}

pub fn strings(thorough: bool) -> Vec<String> {
    // each entry: a literal (source form)
    let mut v = vec![];
    let esc = |b: u32| -> String { format!("\\x{:02x}", b) };
    for b in 0..256u32 {
        v.push(format!("\"{}\"", esc(b)));
        v.push(format!("\"a{}0\"", esc(b)));
        v.push(format!("\"{}{}\"", esc(b), esc(b)));
        v.push(format!("hex\"{:02x}\"", b));
        v.push(format!("hex\"61{:02x}62\"", b));
        v.push(format!("unicode\"a\\u{:04x}f\"", b));
    }
    for cp in [0x80u32, 0xff, 0x100, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfeff, 0xfffd, 0xffff, 0x2028, 0x3b1] {
        v.push(format!("\"\\u{:04x}\"", cp));
        v.push(format!("\"\\u{:04x}a\"", cp));
        v.push(format!("unicode\"\\u{:04x}9\"", cp));
        v.push(format!("unicode\"{}9\"", char::from_u32(cp).unwrap()));
    }
    v.push("unicode\"\u{1F600}\u{10FFFF}\"".into());
    v.push("\"\\xf0\\x9f\\x98\\x80\"".into());
    v.push("\"\\xf0\\x9f\\x98\\x80f\"".into());
    let sp = ["a", "0", "\\\"", "\\'", "\\\\", "\\n", "\\r", "\\t", "\\x00", "\\x0b", "\\x0c", "\\x08", "\\x7f", "\\u00e9", " ", "/", "*", "//"];
    for x in sp {
        for y in sp {
            v.push(format!("\"{}{}\"", x, y));
            v.push(format!("unicode\"{}{}\"", x, y));
            if thorough {
                for z in sp {
                    v.push(format!("\"{}{}{}\"", x, y, z));
                }
            }
        }
    }
    v
}

pub fn docs() -> Vec<String> {
    let long = "word ".repeat(60);
    let verylong = format!("{} tail words", "x".repeat(200));
    let longend = format!("{} */ {}", "word ".repeat(30), "more ".repeat(40));
    let mut v = vec![];
    for t in ["", " ", "one", " two words", "@param a the \"a\" value", "a * b / c", "*", "* *", "//", "/*", long.as_str(), verylong.as_str(), "\u{e9}\u{4e2d}\u{6587} unicode words", "   indented    text  ", "x; y = 1; }", "\t tab", "*/", "ends */ here", "**/ x = 1; /*", "a */ b */ c", longend.as_str()] {
        v.push(format!("/// {}\ncontract C {{ }}", t));
        for m in ["function k() public { }", "uint256 v;", "modifier m { _; }", "event E();", "error R();", "constructor() { }", "struct S { uint256 a; }", "enum E { A }"] {
            v.push(format!("contract C {{\n/// {}\n{} }}", t, m));
            v.push(format!("contract C {{\n/// first line\n/// {}\n///\n/// last\n{} }}", t, m));
            if !t.contains("*/") {
                v.push(format!("contract C {{\n/**\n * {}\n *\n * {}\n */\n{} }}", t, t, m));
                v.push(format!("contract C {{\n/** {} */ {} }}", t, m));
            }
        }
        v.push(in_fn(&format!("\n/// {}\nassembly {{ x := 1 }}", t)));
        v.push(in_fn(&format!("\n/// a\n/// {}\nassembly {{ x := 1 }}", t)));
    }
    v
}

pub fn pad(n: usize) -> String {
    "v".repeat(n)
}

/// line-break sweep: every template with the break falling at every token
pub fn wraps(thorough: bool) -> Vec<String> {
    let mut v = vec![];
    let range: Vec<usize> = if thorough { (1..330).collect() } else { (96..160).collect() };
    for n in range {
        let p = pad(n);
        for t in EXPRS {
            v.push(in_fn(&format!("{} = {};", p, fill(t, &["aa", "bb", "cc"]))));
        }
        for (i, a) in ATOMS.iter().enumerate() {
            if thorough || i % 3 == 0 {
                v.push(in_fn(&format!("{}({});", p, a)));
            }
        }
        for t in SIMPLE.iter().chain(STMTS.iter()) {
            if t.starts_with("///") {
                continue;
            }
            // rename the first identifier of the template to a long one
            let s = fill(t, &["aa = 1;", "bb = 2;", "cc = 3;"]);
            v.push(in_fn(&s.replacen("(a", &format!("({}", p), 1).replacen(" f", &format!(" {}", p), 1).replacen("a =", &format!("{} =", p), 1)));
        }
        for t in YSTMT {
            let s = fill(t, &["x := 1", "y := 2"]).replacen('x', &p, 1).replacen("f(", &format!("{}(", p), 1);
            v.push(in_fn(&format!("assembly {{ {} }}", s)));
        }
        for d in top_level().iter().chain(members().iter()) {
            let s = d.replacen(" a", &format!(" {}", p), 1);
            if s != *d {
                v.push(if top_level().contains(d) { s } else { format!("contract C {{ {} }}", s) });
            }
        }
        v.push(format!("contract C {{ function {}(uint256 a, bytes memory b) public view virtual override(A, B) m(a) n returns (uint256 r, bytes memory s) {{ }} }}", p));
        v.push(format!("contract C {{ mapping({} => mapping(address => uint256)) public override(A, B) x = y; }}", p));
        v.push(in_fn(&format!("a = \"{}\";", p)));
        v.push(in_fn(&format!("b.c(\"{}\", 1, \"x y\");", p)));
        v.push(format!("contract {} is A, B(1, 2), D {{ }}", p));
        v.push(format!("// SPDX-License-Identifier: {}\ncontract C {{ }}", &p));
    }
    v
}

pub fn deep(max: usize) -> Vec<String> {
    let mut v = vec![];
    for n in 1..=max {
        v.push(in_fn(&format!("{}a = 1;{}", "{ ".repeat(n), " }".repeat(n))));
        v.push(in_fn(&format!("{}a = 1;", "if (a) ".repeat(n))));
        v.push(in_fn(&format!("{}{{ a = 1; }}", "if (a) { b = 2; } else ".repeat(n))));
        v.push(in_fn(&format!("{}a{};", "f(".repeat(n), ")".repeat(n))));
        v.push(in_fn(&format!("{}a{};", "(".repeat(n), ")".repeat(n))));
        v.push(in_fn(&format!("{}a{};", "f({x: ".repeat(n), "})".repeat(n))));
        v.push(in_fn(&format!("a = {};", vec!["bb"; n + 1].join(" + "))));
        v.push(in_fn(&format!("a = {};", vec!["bb"; n + 1].join(" ** "))));
        v.push(in_fn(&format!("a = {}c;", "!".repeat(n))));
        v.push(in_fn(&format!("a = {}c;", "b ? c : ".repeat(n))));
        v.push(in_fn(&format!("a{} = b;", "[c]".repeat(n))));
        v.push(in_fn(&format!("assembly {{ {} x := 1 {} }}", "if x { ".repeat(n), "}".repeat(n))));
        v.push(in_fn(&format!("f({});", vec!["arg"; n].join(", "))));
        v.push(format!("contract C {{ function f({}) public {{ }} }}", vec!["uint256 p"; n].join(", ")));
    }
    v
}

pub fn statements(thorough: bool) -> Vec<String> {
    let mut d1: Vec<String> = SIMPLE.iter().map(|s| s.to_string()).collect();
    for t in STMTS {
        d1.push(fill(t, &["a = 1;", "b = 2;", "c = 3;"]));
        d1.push(fill(t, &["{ }"]));
    }
    let mut out = d1.clone();
    let mut d2 = vec![];
    for t in STMTS {
        for s in &d1 {
            let n = holes(t);
            for h in 0..n {
                let mut fills = vec!["a = 1;", "b = 2;", "c = 3;"];
                fills.truncate(n);
                fills[h] = s;
                d2.push(fill(t, &fills));
            }
        }
    }
    out.extend(d2.iter().cloned());
    if thorough {
        for t in STMTS {
            for s in &d2 {
                out.push(fill(t, &[s, "b = 2;", "c = 3;"]));
                if holes(t) > 1 {
                    out.push(fill(t, &["b = 2;", s, "c = 3;"]));
                }
            }
        }
    }
    // sequences of two statements
    for s in &d1 {
        for u in &d1 {
            out.push(format!("{} {}", s, u));
        }
    }
    out
}

pub fn yul(thorough: bool) -> Vec<String> {
    let mut ye: Vec<String> = vec![];
    for t in YEXPR {
        ye.push(if holes(t) == 0 { t.to_string() } else { fill(t, &["x", "1", "\"s\""]) });
    }
    let base = ye.clone();
    for t in YEXPR {
        for e in &base {
            for h in 0..holes(t) {
                let mut f = vec!["x", "1", "z"];
                f[h] = e;
                ye.push(fill(t, &f));
            }
        }
    }
    let mut ys: Vec<String> = vec![];
    for t in YSTMT {
        ys.push(fill(t, &["x := 1", "y := 2"]));
        ys.push(fill(t, &["{ }", "leave"]));
    }
    for e in &ye {
        ys.push(format!("let v := {}", e));
        ys.push(format!("v := {}", e));
        ys.push(format!("pop({})", e));
        ys.push(format!("if {} {{ }}", e));
        ys.push(format!("switch {} case 1 {{ }} default {{ }}", e));
        ys.push(format!("for {{ }} {} {{ }} {{ }}", e));
    }
    let d1 = ys.clone();
    let lim = if thorough { d1.len() } else { 60 };
    for t in YSTMT {
        for s in d1.iter().take(lim) {
            for h in 0..holes(t) {
                let mut f = vec!["x := 1", "y := 2"];
                f[h] = s;
                ys.push(fill(t, &f));
            }
        }
    }
    for s in d1.iter().take(60) {
        for u in d1.iter().take(60) {
            ys.push(format!("{} {}", s, u));
        }
    }
    ys.into_iter().map(|s| in_fn(&format!("assembly {{ {} }}", s))).collect()
}

/// every list of the grammar at many lengths, and names and literals of many lengths
pub fn sizes(thorough: bool) -> Vec<String> {
    let mut v = vec![];
    let mut ns: Vec<usize> = (1..=if thorough { 300 } else { 36 }).collect();
    ns.extend([63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 300]);
    ns.sort();
    ns.dedup();
    for n in ns {
        let list = |f: &dyn Fn(usize) -> String, sep: &str| (0..n).map(|i| f(i)).collect::<Vec<_>>().join(sep);
        let names = list(&|i| format!("e{}", i), ", ");
        let params = list(&|i| format!("uint256 p{}", i), ", ");
        let exprs = list(&|i| ["x + 1", "f(y)", "\"s\"", "m[2]", "z", "true", "-3"][i % 7].to_string(), ", ");
        let stmts = list(&|i| ["a = 1;", "b += 2;", "f(x);", "uint256 q;", "if (a) { b = 1; }", "return;", "{ }"][i % 7].to_string(), " ");
        v.push(format!("contract C {{ function f({}) public returns ({}) {{ }} modifier m({}) {{ _; }} event E({}); error R({}); function (uint256) external t; }}", params, params, params, params, params));
        v.push(format!("contract C {{ function f() public {} {{ }} }}", list(&|i| if i % 2 == 0 { format!("m{}", i) } else { format!("m{}(x)", i) }, " ")));
        v.push(format!("contract C is {} {{ function f() public override({}) {{ }} }}", names, names));
        v.push(format!("struct S {{ {} }} enum E {{ {} }} contract C {{ struct S {{ {} }} enum E {{ {} }} }}", list(&|i| format!("uint256 m{};", i), " "), names, list(&|i| format!("bytes m{};", i), " "), names));
        v.push(format!("import {{{}}} from \"x.sol\"; using {{{}}} for T; pragma solidity {};", names, names, list(&|i| format!("^0.8.{}", i), " || ")));
        v.push(in_fn(&format!("g({}); (x, y) = ({}, 2); z = [{}];", exprs, exprs, exprs)));
        v.push(in_fn(&format!("g({{{}}}); x.f{{{}}}();", list(&|i| format!("n{}: x", i), ", "), list(&|i| format!("o{}: {}", i, i), ", "))));
        v.push(in_fn(&format!("({}) = h(); ({}) = h(); emit E({}); revert R({}); x = new T({});", params, list(&|i| if i % 3 == 1 { String::new() } else { format!("v{}", i) }, ","), exprs, exprs, exprs)));
        v.push(in_fn(&stmts));
        v.push(in_fn(&format!("while (a) {{ {} }} unchecked {{ {} }} try this.f() {{ {} }} catch {{ {} }}", stmts, stmts, stmts, stmts)));
        v.push(in_fn(&format!("assembly {{ {} }}", list(&|i| ["let x := 1", "x := add(x, 2)", "if x { }", "pop(x)"][i % 4].to_string(), " "))));
        v.push(in_fn(&format!("assembly {{ function g({}) -> {} {{ }} let {} := g({}) {} := h() switch x {} default {{ }} }}", names, names, names, names, names, list(&|i| format!("case {} {{ }}", i), " "))));
        v.push(list(&|i| ["contract A { }", "import \"a\";", "struct S { uint256 a; }", "function f() { }", "uint256 constant K = 1;", "error R();"][i % 6].to_string(), " "));
        v.push(format!("contract C {{ {} }}", list(&|i| ["uint256 a;", "function f() public { }", "event E();", "modifier m { _; }", "struct S { uint256 a; }"][i % 5].to_string(), " ")));
        v.push(in_fn(&format!("x = {};", list(&|i| ["a", "1", "f(b)", "\"s\""][i % 4].to_string(), [" + ", " - ", " && ", " * "][n % 4]))));
        v.push(in_fn(&format!("x{} = y{};", "[1]".repeat(n), ".m".repeat(n))));
        v.push(in_fn(&format!("x = f{};", "(1)".repeat(n))));
        v.push(format!("contract C {{ uint256{} a; }}", "[2]".repeat(n)));
        v.push(format!("contract C {{ {}uint256{} a; }}", "mapping(address => ".repeat(n), ")".repeat(n)));
        // long names and literals
        v.push(in_fn(&format!("{} = {}; f{}.g{}({});", pad(n), "7".repeat(n), "f".repeat(n), "g".repeat(n), pad(n))));
        v.push(in_fn(&format!("a = \"{}\"; b = hex\"{}\"; c = 0x{}; d = 0.{}; e = 1{}e1;", "s".repeat(n), "ab".repeat(n), "c".repeat(n), "3".repeat(n), "0".repeat(n))));
        v.push(in_fn(&format!("a = \"{}\"; b = \"{}\"; c = unicode\"{}\";", "\\n".repeat(n), "\\\"x ".repeat(n), "\u{e9} ".repeat(n))));
        v.push(format!("contract {} is {} {{ uint256 {}; function {}() public {} {{ }} modifier {} {{ _; }} }}", pad(n), pad(n), pad(n), pad(n), pad(n), pad(n)));
        v.push(format!("/// {}\ncontract C {{ }}", "d ".repeat(n)));
        v.push(format!("{}contract C {{ }}", list(&|i| format!("/// line {}\n", i), "")));
    }
    v
}
