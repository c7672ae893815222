//! A Solidity front end: source text -> the compiler's compact JSON AST.
//!
//! Independent of the code under test.  It is strict (keywords are reserved, every token must be consumed) so
//! that damaged output does not parse, and complete for the Solidity 0.8 syntax that the grammar enumerators
//! of this harness use.
use serde_json::{json, Map, Value};
use std::collections::HashMap;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum K {
    Ident,
    Num,
    Str,     // "..."
    HexStr,  // hex"..."
    UniStr,  // unicode"..."
    Punct,
    End,
}

#[derive(Clone, Debug)]
pub struct Tok {
    pub k: K,
    pub s: String,
    pub bytes: Vec<u8>,
    pub pos: usize,
    pub end: usize,
    pub doc: Option<String>,
}

#[derive(Clone, Debug)]
pub struct Comment {
    pub text: String,
    pub pos: usize,
    pub end: usize,
    /// index of the token that follows
    pub tok: usize,
    pub line: bool,
}

const KEYWORDS: &[&str] = &[
    "abstract", "after", "alias", "anonymous", "apply", "as", "assembly", "auto", "bool", "break", "byte", "case",
    "catch", "constant", "constructor", "continue", "contract", "copyof", "default", "define", "delete", "do", "else",
    "emit_", "enum", "event", "external", "fallback_", "false", "final", "for", "function", "hex", "if", "immutable",
    "implements", "import", "in", "indexed", "inline", "interface", "internal", "is", "let", "library", "macro",
    "mapping", "match", "memory", "modifier", "mutable", "new", "null", "of", "override", "partial", "payable",
    "pragma", "private", "promise", "public", "pure", "reference", "relocatable", "return", "returns", "sealed",
    "sizeof", "static", "storage", "string", "struct", "supports", "switch", "true", "try", "type", "typedef",
    "typeof", "unchecked", "unicode", "using", "var", "view", "virtual", "while", "address", "bytes", "calldata",
    "throw", "wei", "gwei", "ether", "seconds", "minutes", "hours", "days", "weeks",
];

pub fn is_elementary(s: &str) -> bool {
    if ["address", "bool", "string", "bytes", "uint", "int", "fixed", "ufixed", "byte"].contains(&s) {
        return true;
    }
    let num = |p: &str| -> Option<u32> {
        let r = s.strip_prefix(p)?;
        if r.is_empty() || r.starts_with('0') || !r.bytes().all(|b| b.is_ascii_digit()) {
            return None;
        }
        r.parse().ok()
    };
    if let Some(n) = num("uint").or_else(|| num("int")) {
        return n % 8 == 0 && n <= 256;
    }
    if let Some(n) = num("bytes") {
        return n >= 1 && n <= 32;
    }
    false
}

pub fn is_keyword(s: &str) -> bool {
    KEYWORDS.contains(&s) || is_elementary(s)
}

const PUNCTS: &[&str] = &[
    ">>>=", "<<=", ">>=", ">>>", "**", "&&", "||", "==", "!=", "<=", ">=", "=>", "->", ":=", "+=", "-=", "*=", "/=",
    "%=", "|=", "&=", "^=", "<<", ">>", "++", "--", "(", ")", "[", "]", "{", "}", ";", ",", ".", "?", ":", "=", "+",
    "-", "*", "/", "%", "<", ">", "!", "~", "&", "|", "^",
];

fn ident_start(c: u8) -> bool {
    c.is_ascii_alphabetic() || c == b'_' || c == b'$'
}
fn ident_part(c: u8) -> bool {
    ident_start(c) || c.is_ascii_digit()
}

pub fn lex(src: &str) -> Result<(Vec<Tok>, Vec<Comment>), String> {
    let b = src.as_bytes();
    let mut i = 0;
    let mut toks: Vec<Tok> = vec![];
    let mut comments: Vec<Comment> = vec![];
    let mut doc: Option<String> = None;
    let mut doc_is_line = false;
    while i < b.len() {
        let c = b[i];
        if c == b' ' || c == b'\n' || c == b'\t' || c == b'\r' {
            i += 1;
            continue;
        }
        if c == b'/' && i + 1 < b.len() && b[i + 1] == b'/' {
            let st = i;
            while i < b.len() && b[i] != b'\n' && b[i] != b'\r' {
                i += 1;
            }
            let text = &src[st..i];
            if text.starts_with("///") && !text.starts_with("////") {
                let t = &text[3..];
                match (&mut doc, doc_is_line) {
                    (Some(d), true) => {
                        d.push('\n');
                        d.push_str(t);
                    }
                    _ => doc = Some(t.to_string()),
                }
                doc_is_line = true;
            }
            comments.push(Comment { text: text.to_string(), pos: st, end: i, tok: toks.len(), line: true });
            continue;
        }
        if c == b'/' && i + 1 < b.len() && b[i + 1] == b'*' {
            let st = i;
            i += 2;
            let mut closed = false;
            while i + 1 < b.len() {
                if b[i] == b'*' && b[i + 1] == b'/' {
                    closed = true;
                    i += 2;
                    break;
                }
                i += 1;
            }
            if !closed {
                return Err(format!("unterminated comment at {}", st));
            }
            let text = &src[st..i];
            if text.starts_with("/**") && text.len() > 4 {
                let inner = &text[3..text.len() - 2];
                let mut d = String::new();
                for (n, l) in inner.lines().enumerate() {
                    let l2 = if n == 0 { l } else { l.trim_start().strip_prefix('*').unwrap_or(l.trim_start()) };
                    if n > 0 {
                        d.push('\n');
                    }
                    d.push_str(l2);
                }
                doc = Some(d.trim_end().trim_start_matches('\n').to_string());
                doc_is_line = false;
            }
            comments.push(Comment { text: text.to_string(), pos: st, end: i, tok: toks.len(), line: false });
            continue;
        }
        let st = i;
        let mut push = |k: K, s: &str, bytes: Vec<u8>, end: usize| {
            toks.push(Tok { k, s: s.to_string(), bytes, pos: st, end, doc: doc.take() });
        };
        if ident_start(c) {
            while i < b.len() && ident_part(b[i]) {
                i += 1;
            }
            let s = &src[st..i];
            if (s == "hex" || s == "unicode") && i < b.len() && (b[i] == b'"' || b[i] == b'\'') {
                let (bytes, e) = lex_string(src, i, s)?;
                push(if s == "hex" { K::HexStr } else { K::UniStr }, "", bytes, e);
                i = e;
            } else {
                push(K::Ident, s, vec![], i);
            }
            continue;
        }
        if c.is_ascii_digit() || (c == b'.' && i + 1 < b.len() && b[i + 1].is_ascii_digit()) {
            if c == b'0' && i + 1 < b.len() && b[i + 1] == b'x' {
                i += 2;
                let h = i;
                while i < b.len() && (b[i].is_ascii_hexdigit() || b[i] == b'_') {
                    i += 1;
                }
                if i == h {
                    return Err("bad hex number".into());
                }
            } else {
                let dig = |i: &mut usize| {
                    while *i < b.len() && (b[*i].is_ascii_digit() || b[*i] == b'_') {
                        *i += 1;
                    }
                };
                if c != b'.' {
                    dig(&mut i);
                }
                if i < b.len() && b[i] == b'.' && i + 1 < b.len() && b[i + 1].is_ascii_digit() {
                    i += 1;
                    dig(&mut i);
                }
                if i < b.len() && (b[i] == b'e' || b[i] == b'E') {
                    i += 1;
                    if i < b.len() && b[i] == b'-' {
                        i += 1;
                    }
                    let h = i;
                    dig(&mut i);
                    if h == i {
                        return Err("bad exponent".into());
                    }
                }
            }
            if i < b.len() && ident_start(b[i]) {
                return Err(format!("identifier directly after number at {}", i));
            }
            push(K::Num, &src[st..i], vec![], i);
            continue;
        }
        if c == b'"' || c == b'\'' {
            let (bytes, e) = lex_string(src, i, "")?;
            push(K::Str, "", bytes, e);
            i = e;
            continue;
        }
        let mut found = false;
        for p in PUNCTS {
            if src[i..].as_bytes().starts_with(p.as_bytes()) {
                i += p.len();
                push(K::Punct, p, vec![], i);
                found = true;
                break;
            }
        }
        if !found {
            return Err(format!("illegal character {:?} at {}", src[i..].chars().next(), i));
        }
    }
    toks.push(Tok { k: K::End, s: String::new(), bytes: vec![], pos: b.len(), end: b.len(), doc: None });
    Ok((toks, comments))
}

fn lex_string(src: &str, at: usize, kind: &str) -> Result<(Vec<u8>, usize), String> {
    let b = src.as_bytes();
    let q = b[at];
    let mut i = at + 1;
    let mut out = vec![];
    loop {
        if i >= b.len() || b[i] == b'\n' || b[i] == b'\r' {
            return Err(format!("unterminated string at {}", at));
        }
        let c = b[i];
        if c == q {
            i += 1;
            break;
        }
        if kind == "hex" {
            if c == b'_' {
                i += 1;
                continue;
            }
            if i + 1 < b.len() && c.is_ascii_hexdigit() && b[i + 1].is_ascii_hexdigit() {
                out.push(u8::from_str_radix(&src[i..i + 2], 16).unwrap());
                i += 2;
                continue;
            }
            return Err(format!("bad hex string at {}", i));
        }
        if c == b'\\' {
            let e = *b.get(i + 1).ok_or("bad escape")?;
            i += 2;
            match e {
                b'n' => out.push(b'\n'),
                b'r' => out.push(b'\r'),
                b't' => out.push(b'\t'),
                b'\\' => out.push(b'\\'),
                b'\'' => out.push(b'\''),
                b'"' => out.push(b'"'),
                b'\n' => {}
                b'x' => {
                    if i + 2 > b.len() || !src.is_char_boundary(i + 2) {
                        return Err("bad \\x".into());
                    }
                    out.push(u8::from_str_radix(&src[i..i + 2], 16).map_err(|_| format!("bad \\x escape at {}", i))?);
                    i += 2;
                }
                b'u' => {
                    if i + 4 > b.len() || !src.is_char_boundary(i + 4) || !src[i..i + 4].bytes().all(|b| b.is_ascii_hexdigit()) {
                        return Err(format!("bad \\u escape at {}", i));
                    }
                    let cp = u32::from_str_radix(&src[i..i + 4], 16).map_err(|_| "bad \\u")?;
                    // as solc: encode the 16-bit code point as UTF-8
                    if cp < 0x80 {
                        out.push(cp as u8)
                    } else if cp < 0x800 {
                        out.push(0xc0 | (cp >> 6) as u8);
                        out.push(0x80 | (cp & 0x3f) as u8);
                    } else {
                        out.push(0xe0 | (cp >> 12) as u8);
                        out.push(0x80 | ((cp >> 6) & 0x3f) as u8);
                        out.push(0x80 | (cp & 0x3f) as u8);
                    }
                    i += 4;
                }
                _ => return Err(format!("invalid escape \\{} at {}", e as char, i)),
            }
            continue;
        }
        if kind == "" && !(0x20..0x7f).contains(&c) {
            return Err(format!("illegal character in string at {}", i));
        }
        if kind == "unicode" && c < 0x20 {
            return Err(format!("illegal character in unicode string at {}", i));
        }
        out.push(c);
        i += 1;
    }
    Ok((out, i))
}

pub struct Parser {
    pub t: Vec<Tok>,
    pub p: usize,
    pub next_id: u64,
}

type R<T> = Result<T, String>;

fn hexs(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

pub fn prec(op: &str) -> u32 {
    match op {
        "||" => 4,
        "&&" => 5,
        "==" | "!=" => 6,
        "<" | ">" | "<=" | ">=" => 7,
        "|" => 8,
        "^" => 9,
        "&" => 10,
        "<<" | ">>" | ">>>" => 11,
        "+" | "-" => 12,
        "*" | "/" | "%" => 13,
        "**" => 14,
        _ => 0,
    }
}

const ASSIGN: &[&str] = &["=", "+=", "-=", "*=", "/=", "%=", "|=", "&=", "^=", "<<=", ">>=", ">>>="];

impl Parser {
    fn tk(&self) -> &Tok {
        &self.t[self.p]
    }
    fn at(&self, n: usize) -> &Tok {
        &self.t[(self.p + n).min(self.t.len() - 1)]
    }
    fn is(&self, s: &str) -> bool {
        let t = self.tk();
        (t.k == K::Punct || t.k == K::Ident) && t.s == s
    }
    fn eat(&mut self, s: &str) -> bool {
        if self.is(s) {
            self.p += 1;
            true
        } else {
            false
        }
    }
    fn err<T>(&self, m: &str) -> R<T> {
        let t = self.tk();
        Err(format!("{} at byte {} (token {:?})", m, t.pos, t.s))
    }
    fn exp(&mut self, s: &str) -> R<()> {
        if self.eat(s) {
            Ok(())
        } else {
            self.err(&format!("expected {:?}", s))
        }
    }
    fn ident(&mut self) -> R<String> {
        let t = self.tk();
        if t.k == K::Ident && !is_keyword(&t.s) {
            let s = t.s.clone();
            self.p += 1;
            Ok(s)
        } else {
            self.err("expected identifier")
        }
    }
    fn is_ident(&self, n: usize) -> bool {
        let t = self.at(n);
        t.k == K::Ident && !is_keyword(&t.s)
    }
    fn node(&mut self, ty: &str, pos: usize) -> Map<String, Value> {
        let mut m = Map::new();
        self.next_id += 1;
        m.insert("id".into(), json!(self.next_id));
        m.insert("nodeType".into(), json!(ty));
        m.insert("src".into(), json!(format!("{}:0:0", pos)));
        m
    }
    fn doc(&mut self, doc: Option<String>) -> Option<Value> {
        doc.map(|d| {
            let mut m = self.node("StructuredDocumentation", 0);
            m.insert("text".into(), json!(d));
            Value::Object(m)
        })
    }

    // ---- source unit -------------------------------------------------------------------------------
    pub fn source_unit(&mut self, license: Option<String>) -> R<Value> {
        let mut m = self.node("SourceUnit", 0);
        let mut nodes = vec![];
        while self.tk().k != K::End {
            let doc = self.tk().doc.clone();
            let pos = self.tk().pos;
            let s = self.tk().s.clone();
            let k = self.tk().k;
            if k != K::Ident {
                return self.err("unexpected token at file level");
            }
            let n = match s.as_str() {
                "pragma" => self.pragma()?,
                "import" => self.import()?,
                "abstract" | "contract" | "interface" | "library" => self.contract()?,
                "struct" => self.structdef()?,
                "enum" => self.enumdef()?,
                "type" => self.udvt()?,
                "using" => self.using()?,
                "function" if self.is_ident(1) || self.at(1).s == "receive" || self.at(1).s == "fallback" => self.function(true)?,
                "event" => self.event()?,
                "error" if self.is_ident(1) && self.at(2).s == "(" => self.error()?,
                _ => {
                    let v = self.state_var(true, doc)?;
                    let _ = pos;
                    v
                }
            };
            nodes.push(n);
        }
        m.insert("absolutePath".into(), json!("in.sol"));
        m.insert("exportedSymbols".into(), json!({}));
        if let Some(l) = license {
            m.insert("license".into(), json!(l));
        }
        m.insert("nodes".into(), Value::Array(nodes));
        Ok(Value::Object(m))
    }

    fn pragma(&mut self) -> R<Value> {
        let mut m = self.node("PragmaDirective", self.tk().pos);
        self.exp("pragma")?;
        let mut lits = vec![];
        while !self.is(";") {
            let t = self.tk().clone();
            if t.k == K::End {
                return self.err("pragma");
            }
            lits.push(json!(if t.k == K::Str { String::from_utf8_lossy(&t.bytes).to_string() } else { t.s.clone() }));
            self.p += 1;
        }
        self.exp(";")?;
        if lits.is_empty() {
            return self.err("empty pragma");
        }
        m.insert("literals".into(), Value::Array(lits));
        Ok(m.into())
    }

    fn string_tok(&mut self) -> R<String> {
        if self.tk().k == K::Str {
            let s = String::from_utf8(self.tk().bytes.clone()).map_err(|_| "utf8")?;
            self.p += 1;
            Ok(s)
        } else {
            self.err("expected string")
        }
    }

    fn import(&mut self) -> R<Value> {
        let mut m = self.node("ImportDirective", self.tk().pos);
        self.exp("import")?;
        let mut alias = String::new();
        let mut syms = vec![];
        let file;
        if self.tk().k == K::Str {
            file = self.string_tok()?;
            if self.eat("as") {
                alias = self.ident()?;
            }
        } else {
            if self.eat("*") {
                self.exp("as")?;
                alias = self.ident()?;
            } else {
                self.exp("{")?;
                loop {
                    let pos = self.tk().pos;
                    let n = self.ident()?;
                    let mut e = Map::new();
                    let mut f = self.node("Identifier", pos);
                    f.insert("name".into(), json!(n));
                    f.insert("overloadedDeclarations".into(), json!([]));
                    f.insert("typeDescriptions".into(), json!({}));
                    e.insert("foreign".into(), f.into());
                    e.insert("nameLocation".into(), json!("-1:-1:-1"));
                    if self.eat("as") {
                        let l = self.ident()?;
                        e.insert("local".into(), json!(l));
                    }
                    syms.push(Value::Object(e));
                    if !self.eat(",") {
                        break;
                    }
                }
                self.exp("}")?;
            }
            self.exp("from")?;
            file = self.string_tok()?;
        }
        self.exp(";")?;
        m.insert("absolutePath".into(), json!(file));
        m.insert("file".into(), json!(file));
        m.insert("symbolAliases".into(), Value::Array(syms));
        m.insert("unitAlias".into(), json!(alias));
        m.insert("nameLocation".into(), json!("-1:-1:-1"));
        Ok(m.into())
    }

    fn path(&mut self) -> R<Value> {
        let mut m = self.node("IdentifierPath", self.tk().pos);
        let mut n = self.ident()?;
        let mut locs = vec![json!("0:0:0")];
        while self.is(".") {
            self.p += 1;
            // the last component of an IdentifierPath may be `address`
            let s = if self.is("address") {
                self.p += 1;
                "address".to_string()
            } else {
                self.ident()?
            };
            n = format!("{}.{}", n, s);
            locs.push(json!("0:0:0"));
        }
        m.insert("name".into(), json!(n));
        m.insert("nameLocations".into(), Value::Array(locs));
        Ok(m.into())
    }

    fn contract(&mut self) -> R<Value> {
        let d = self.tk().doc.clone();
        let pos = self.tk().pos;
        let abs = self.eat("abstract");
        let kind = self.tk().s.clone();
        if !["contract", "interface", "library"].contains(&kind.as_str()) {
            return self.err("contract kind");
        }
        self.p += 1;
        let mut m = self.node("ContractDefinition", pos);
        let name = self.ident()?;
        let mut bases = vec![];
        if self.eat("is") {
            loop {
                let mut b = self.node("InheritanceSpecifier", self.tk().pos);
                let pth = self.path()?;
                b.insert("baseName".into(), pth);
                if self.is("(") {
                    let (args, names) = self.args()?;
                    if !names.is_empty() {
                        return self.err("named base args");
                    }
                    b.insert("arguments".into(), Value::Array(args));
                }
                bases.push(Value::Object(b));
                if !self.eat(",") {
                    break;
                }
            }
        }
        self.exp("{")?;
        let mut nodes = vec![];
        while !self.eat("}") {
            let s = self.tk().s.clone();
            let doc = self.tk().doc.clone();
            if self.tk().k != K::Ident {
                return self.err("unexpected token in contract");
            }
            let n = match s.as_str() {
                "struct" => self.structdef()?,
                "enum" => self.enumdef()?,
                "type" => self.udvt()?,
                "using" => self.using()?,
                "event" => self.event()?,
                "modifier" => self.modifier()?,
                "constructor" => self.function(false)?,
                "receive" | "fallback" if self.at(1).s == "(" => self.function(false)?,
                "function" if self.at(1).s != "(" => self.function(false)?,
                "error" if self.is_ident(1) && self.at(2).s == "(" => self.error()?,
                _ => self.state_var(false, doc)?,
            };
            nodes.push(n);
        }
        m.insert("abstract".into(), json!(abs));
        m.insert("baseContracts".into(), Value::Array(bases));
        m.insert("canonicalName".into(), json!(name));
        m.insert("contractDependencies".into(), json!([]));
        m.insert("contractKind".into(), json!(kind));
        if let Some(d) = self.doc(d) {
            m.insert("documentation".into(), d);
        }
        m.insert("fullyImplemented".into(), json!(true));
        m.insert("linearizedBaseContracts".into(), json!([]));
        m.insert("name".into(), json!(name));
        m.insert("nodes".into(), Value::Array(nodes));
        m.insert("usedErrors".into(), json!([]));
        Ok(m.into())
    }

    fn structdef(&mut self) -> R<Value> {
        let d = self.tk().doc.clone();
        let mut m = self.node("StructDefinition", self.tk().pos);
        self.exp("struct")?;
        let name = self.ident()?;
        self.exp("{")?;
        let mut mem = vec![];
        while !self.eat("}") {
            let pos = self.tk().pos;
            let ty = self.type_name()?;
            let n = self.ident()?;
            self.exp(";")?;
            mem.push(self.var(pos, ty, &n, "internal", "mutable", false, "default", None));
        }
        if mem.is_empty() {
            return self.err("empty struct");
        }
        if let Some(d) = self.doc(d) {
            m.insert("documentation".into(), d);
        }
        m.insert("canonicalName".into(), json!(name));
        m.insert("name".into(), json!(name));
        m.insert("members".into(), Value::Array(mem));
        m.insert("visibility".into(), json!("public"));
        Ok(m.into())
    }

    fn enumdef(&mut self) -> R<Value> {
        let d = self.tk().doc.clone();
        let mut m = self.node("EnumDefinition", self.tk().pos);
        self.exp("enum")?;
        let name = self.ident()?;
        self.exp("{")?;
        let mut mem = vec![];
        loop {
            let mut e = self.node("EnumValue", self.tk().pos);
            let n = self.ident()?;
            e.insert("name".into(), json!(n));
            mem.push(Value::Object(e));
            if !self.eat(",") {
                break;
            }
        }
        self.exp("}")?;
        if let Some(d) = self.doc(d) {
            m.insert("documentation".into(), d);
        }
        m.insert("canonicalName".into(), json!(name));
        m.insert("name".into(), json!(name));
        m.insert("members".into(), Value::Array(mem));
        Ok(m.into())
    }

    fn udvt(&mut self) -> R<Value> {
        let mut m = self.node("UserDefinedValueTypeDefinition", self.tk().pos);
        self.exp("type")?;
        let name = self.ident()?;
        self.exp("is")?;
        let ty = self.type_name()?;
        self.exp(";")?;
        m.insert("canonicalName".into(), json!(name));
        m.insert("name".into(), json!(name));
        m.insert("underlyingType".into(), ty);
        Ok(m.into())
    }

    fn using(&mut self) -> R<Value> {
        let mut m = self.node("UsingForDirective", self.tk().pos);
        self.exp("using")?;
        if self.eat("{") {
            let mut l = vec![];
            loop {
                let pth = self.path()?;
                if self.eat("as") {
                    let op = self.tk().s.clone();
                    if self.tk().k != K::Punct
                        || !["+", "-", "*", "/", "%", "&", "|", "^", "~", "==", "!=", "<", ">", "<=", ">="].contains(&op.as_str())
                    {
                        return self.err("operator");
                    }
                    self.p += 1;
                    l.push(json!({"definition": pth, "operator": op}));
                } else {
                    l.push(json!({ "function": pth }));
                }
                if !self.eat(",") {
                    break;
                }
            }
            self.exp("}")?;
            m.insert("functionList".into(), Value::Array(l));
        } else {
            let pth = self.path()?;
            m.insert("libraryName".into(), pth);
        }
        self.exp("for")?;
        if !self.eat("*") {
            let t = self.type_name()?;
            m.insert("typeName".into(), t);
        }
        let g = self.eat("global");
        m.insert("global".into(), json!(g));
        self.exp(";")?;
        Ok(m.into())
    }

    fn event(&mut self) -> R<Value> {
        let d = self.tk().doc.clone();
        let mut m = self.node("EventDefinition", self.tk().pos);
        self.exp("event")?;
        let name = self.ident()?;
        let ps = self.params(true)?;
        let a = self.eat("anonymous");
        self.exp(";")?;
        if let Some(d) = self.doc(d) {
            m.insert("documentation".into(), d);
        }
        m.insert("anonymous".into(), json!(a));
        m.insert("name".into(), json!(name));
        m.insert("parameters".into(), ps);
        Ok(m.into())
    }

    fn error(&mut self) -> R<Value> {
        let d = self.tk().doc.clone();
        let mut m = self.node("ErrorDefinition", self.tk().pos);
        self.exp("error")?;
        let name = self.ident()?;
        let ps = self.params(false)?;
        self.exp(";")?;
        if let Some(d) = self.doc(d) {
            m.insert("documentation".into(), d);
        }
        m.insert("name".into(), json!(name));
        m.insert("parameters".into(), ps);
        Ok(m.into())
    }

    #[allow(clippy::too_many_arguments)]
    fn var(&mut self, pos: usize, ty: Value, name: &str, vis: &str, mutab: &str, state: bool, loc: &str, value: Option<Value>) -> Value {
        let mut m = self.node("VariableDeclaration", pos);
        m.insert("constant".into(), json!(mutab == "constant"));
        m.insert("mutability".into(), json!(mutab));
        m.insert("name".into(), json!(name));
        m.insert("nameLocation".into(), json!("0:0:0"));
        m.insert("stateVariable".into(), json!(state));
        m.insert("storageLocation".into(), json!(loc));
        let ts = type_string(&ty);
        let full = if loc == "default" || loc == "transient" {
            if state && is_ref(&ty) { format!("{} storage ref", ts) } else { ts }
        } else {
            format!("{} {}{}", ts, loc, if loc == "storage" { " pointer" } else { "" })
        };
        m.insert("typeDescriptions".into(), json!({"typeIdentifier": format!("t_{}", full.replace(' ', "_")), "typeString": full}));
        m.insert("typeName".into(), ty);
        if let Some(v) = value {
            m.insert("value".into(), v);
        }
        m.insert("visibility".into(), json!(vis));
        m.into()
    }

    fn params(&mut self, event: bool) -> R<Value> {
        let mut m = self.node("ParameterList", self.tk().pos);
        self.exp("(")?;
        let mut l = vec![];
        if !self.is(")") {
            loop {
                let pos = self.tk().pos;
                let ty = self.type_name()?;
                let indexed = event && self.eat("indexed");
                let mut loc = "default".to_string();
                if !event && (self.is("memory") || self.is("storage") || self.is("calldata")) {
                    loc = self.tk().s.clone();
                    self.p += 1;
                }
                let name = if self.is_ident(0) { self.ident()? } else { String::new() };
                let mut v = self.var(pos, ty, &name, "internal", "mutable", false, &loc, None);
                if event {
                    v["indexed"] = json!(indexed);
                }
                l.push(v);
                if !self.eat(",") {
                    break;
                }
            }
        }
        self.exp(")")?;
        m.insert("parameters".into(), Value::Array(l));
        Ok(m.into())
    }

    fn empty_params(&mut self) -> Value {
        let mut m = self.node("ParameterList", 0);
        m.insert("parameters".into(), json!([]));
        m.into()
    }

    fn overrides(&mut self) -> R<Value> {
        let mut m = self.node("OverrideSpecifier", self.tk().pos);
        self.exp("override")?;
        let mut l = vec![];
        if self.eat("(") {
            loop {
                l.push(self.path()?);
                if !self.eat(",") {
                    break;
                }
            }
            self.exp(")")?;
        }
        m.insert("overrides".into(), Value::Array(l));
        Ok(m.into())
    }

    fn function(&mut self, free: bool) -> R<Value> {
        let d = self.tk().doc.clone();
        let pos = self.tk().pos;
        let mut m = self.node("FunctionDefinition", pos);
        let mut name = String::new();
        let kind;
        if self.eat("function") {
            name = self.ident()?;
            kind = if free { "freeFunction" } else { "function" };
        } else if self.eat("constructor") {
            kind = "constructor";
        } else if self.eat("receive") {
            kind = "receive";
        } else {
            self.exp("fallback")?;
            kind = "fallback";
        }
        let ps = self.params(false)?;
        let mut vis: Option<String> = None;
        let mut mutab: Option<String> = None;
        let mut virt = false;
        let mut over = None;
        let mut mods = vec![];
        loop {
            let s = self.tk().s.clone();
            if self.tk().k != K::Ident {
                break;
            }
            match s.as_str() {
                "public" | "private" | "internal" | "external" => {
                    if vis.is_some() || free {
                        return self.err("visibility");
                    }
                    vis = Some(s);
                    self.p += 1;
                }
                "pure" | "view" | "payable" => {
                    if mutab.is_some() {
                        return self.err("mutability twice");
                    }
                    mutab = Some(s);
                    self.p += 1;
                }
                "virtual" => {
                    if virt {
                        return self.err("virtual twice");
                    }
                    virt = true;
                    self.p += 1;
                }
                "override" => {
                    if over.is_some() {
                        return self.err("override twice");
                    }
                    over = Some(self.overrides()?);
                }
                "returns" => break,
                _ => {
                    let mut mi = self.node("ModifierInvocation", self.tk().pos);
                    let pth = self.path()?;
                    mi.insert("modifierName".into(), pth);
                    mi.insert("kind".into(), json!("modifierInvocation"));
                    if self.is("(") {
                        let (a, n) = self.args()?;
                        if !n.is_empty() {
                            return self.err("named modifier args");
                        }
                        mi.insert("arguments".into(), Value::Array(a));
                    }
                    mods.push(Value::Object(mi));
                }
            }
        }
        let rets = if self.eat("returns") {
            let r = self.params(false)?;
            if r["parameters"].as_array().unwrap().is_empty() {
                return self.err("empty returns");
            }
            r
        } else {
            self.empty_params()
        };
        if let Some(d) = self.doc(d) {
            m.insert("documentation".into(), d);
        }
        let mut imp = true;
        if self.eat(";") {
            imp = false;
        } else {
            let b = self.block()?;
            m.insert("body".into(), b);
        }
        m.insert("implemented".into(), json!(imp));
        m.insert("kind".into(), json!(kind));
        m.insert("modifiers".into(), Value::Array(mods));
        m.insert("name".into(), json!(name));
        m.insert("nameLocation".into(), json!("0:0:0"));
        if let Some(o) = over {
            m.insert("overrides".into(), o);
        }
        m.insert("parameters".into(), ps);
        m.insert("returnParameters".into(), rets);
        m.insert("stateMutability".into(), json!(mutab.unwrap_or_else(|| "nonpayable".into())));
        m.insert("virtual".into(), json!(virt));
        let defvis = if free { "internal" } else { "public" };
        m.insert("visibility".into(), json!(vis.unwrap_or_else(|| defvis.into())));
        Ok(m.into())
    }

    fn modifier(&mut self) -> R<Value> {
        let d = self.tk().doc.clone();
        let mut m = self.node("ModifierDefinition", self.tk().pos);
        self.exp("modifier")?;
        let name = self.ident()?;
        let ps = if self.is("(") { self.params(false)? } else { self.empty_params() };
        let mut virt = false;
        let mut over = None;
        loop {
            if self.is("virtual") && !virt {
                virt = true;
                self.p += 1;
            } else if self.is("override") && over.is_none() {
                over = Some(self.overrides()?);
            } else {
                break;
            }
        }
        if let Some(d) = self.doc(d) {
            m.insert("documentation".into(), d);
        }
        if !self.eat(";") {
            let b = self.block()?;
            m.insert("body".into(), b);
        }
        m.insert("name".into(), json!(name));
        if let Some(o) = over {
            m.insert("overrides".into(), o);
        }
        m.insert("parameters".into(), ps);
        m.insert("virtual".into(), json!(virt));
        m.insert("visibility".into(), json!("internal"));
        Ok(m.into())
    }

    fn state_var(&mut self, file: bool, doc: Option<String>) -> R<Value> {
        let pos = self.tk().pos;
        let ty = self.type_name()?;
        let mut vis: Option<String> = None;
        let mut mutab: Option<String> = None;
        let mut over = None;
        let mut loc = "default";
        loop {
            let s = self.tk().s.clone();
            if self.tk().k != K::Ident {
                break;
            }
            match s.as_str() {
                "public" | "private" | "internal" if vis.is_none() && !file => {
                    vis = Some(s);
                    self.p += 1;
                }
                "constant" | "immutable" if mutab.is_none() => {
                    mutab = Some(s);
                    self.p += 1;
                }
                "transient" if loc == "default" && self.is_ident(1) => {
                    loc = "transient";
                    self.p += 1;
                }
                "override" if over.is_none() => {
                    over = Some(self.overrides()?);
                }
                _ => break,
            }
        }
        let name = self.ident()?;
        let value = if self.eat("=") { Some(self.expression()?) } else { None };
        self.exp(";")?;
        let mut v = self.var(
            pos,
            ty,
            &name,
            &vis.unwrap_or_else(|| "internal".into()),
            &mutab.unwrap_or_else(|| "mutable".into()),
            !file,
            loc,
            value,
        );
        if let Some(o) = over {
            v["overrides"] = o;
        }
        if let Some(d) = self.doc(doc) {
            v["documentation"] = d;
        }
        Ok(v)
    }

    // ---- types -------------------------------------------------------------------------------------
    fn elem_name(s: &str) -> String {
        // as solc: the AST keeps the spelling of the source
        s.to_string()
    }

    pub fn type_name(&mut self) -> R<Value> {
        let pos = self.tk().pos;
        let t = self.tk().clone();
        let mut ty: Value;
        if t.k != K::Ident {
            return self.err("expected type");
        }
        if is_elementary(&t.s) {
            self.p += 1;
            let mut m = self.node("ElementaryTypeName", pos);
            m.insert("name".into(), json!(Self::elem_name(&t.s)));
            if t.s == "address" {
                let pay = self.eat("payable");
                m.insert("stateMutability".into(), json!(if pay { "payable" } else { "nonpayable" }));
            }
            m.insert("typeDescriptions".into(), json!({"typeIdentifier": format!("t_{}", t.s), "typeString": canon_elem(&t.s)}));
            ty = m.into();
        } else if t.s == "mapping" {
            let mut m = self.node("Mapping", pos);
            self.p += 1;
            self.exp("(")?;
            let k = self.type_name()?;
            let kn = if self.is_ident(0) { self.ident()? } else { String::new() };
            self.exp("=>")?;
            let v = self.type_name()?;
            let vn = if self.is_ident(0) { self.ident()? } else { String::new() };
            self.exp(")")?;
            m.insert("keyType".into(), k);
            m.insert("keyName".into(), json!(kn));
            m.insert("keyNameLocation".into(), json!("-1:-1:-1"));
            m.insert("valueType".into(), v);
            m.insert("valueName".into(), json!(vn));
            m.insert("valueNameLocation".into(), json!("-1:-1:-1"));
            ty = m.into();
        } else if t.s == "function" {
            let mut m = self.node("FunctionTypeName", pos);
            self.p += 1;
            let ps = self.params(false)?;
            let mut vis: Option<String> = None;
            let mut mutab: Option<String> = None;
            loop {
                let s = self.tk().s.clone();
                match s.as_str() {
                    "internal" | "external" if vis.is_none() => {
                        vis = Some(s);
                        self.p += 1;
                    }
                    "pure" | "view" | "payable" if mutab.is_none() => {
                        mutab = Some(s);
                        self.p += 1;
                    }
                    _ => break,
                }
            }
            let rets = if self.eat("returns") {
                let r = self.params(false)?;
                if r["parameters"].as_array().unwrap().is_empty() {
                    return self.err("empty returns");
                }
                r
            } else {
                self.empty_params()
            };
            m.insert("parameterTypes".into(), ps);
            m.insert("returnParameterTypes".into(), rets);
            m.insert("stateMutability".into(), json!(mutab.unwrap_or_else(|| "nonpayable".into())));
            m.insert("visibility".into(), json!(vis.unwrap_or_else(|| "internal".into())));
            ty = m.into();
        } else {
            let mut m = self.node("UserDefinedTypeName", pos);
            let pth = self.path()?;
            m.insert("pathNode".into(), pth);
            ty = m.into();
        }
        while self.is("[") {
            self.p += 1;
            let mut m = self.node("ArrayTypeName", pos);
            if !self.is("]") {
                let e = self.expression()?;
                m.insert("length".into(), e);
            }
            self.exp("]")?;
            m.insert("baseType".into(), ty);
            ty = m.into();
        }
        Ok(ty)
    }

    // ---- statements --------------------------------------------------------------------------------
    pub fn block(&mut self) -> R<Value> {
        let mut m = self.node("Block", self.tk().pos);
        self.exp("{")?;
        let mut l = vec![];
        while !self.eat("}") {
            l.push(self.statement()?);
        }
        m.insert("statements".into(), Value::Array(l));
        Ok(m.into())
    }

    pub fn statement(&mut self) -> R<Value> {
        let pos = self.tk().pos;
        let doc = self.tk().doc.clone();
        let t = self.tk().clone();
        if t.k == K::End {
            return self.err("unexpected end");
        }
        if t.k == K::Punct && t.s == "{" {
            return self.block();
        }
        if t.k == K::Ident {
            match t.s.as_str() {
                "unchecked" => {
                    self.p += 1;
                    let mut b = self.block()?;
                    b["nodeType"] = json!("UncheckedBlock");
                    return Ok(b);
                }
                "if" => {
                    let mut m = self.node("IfStatement", pos);
                    self.p += 1;
                    self.exp("(")?;
                    let c = self.expression()?;
                    self.exp(")")?;
                    let tb = self.statement()?;
                    m.insert("condition".into(), c);
                    m.insert("trueBody".into(), tb);
                    if self.eat("else") {
                        let fb = self.statement()?;
                        m.insert("falseBody".into(), fb);
                    }
                    return Ok(m.into());
                }
                "while" => {
                    let mut m = self.node("WhileStatement", pos);
                    self.p += 1;
                    self.exp("(")?;
                    let c = self.expression()?;
                    self.exp(")")?;
                    let b = self.statement()?;
                    m.insert("condition".into(), c);
                    m.insert("body".into(), b);
                    return Ok(m.into());
                }
                "do" => {
                    let mut m = self.node("DoWhileStatement", pos);
                    self.p += 1;
                    let b = self.statement()?;
                    self.exp("while")?;
                    self.exp("(")?;
                    let c = self.expression()?;
                    self.exp(")")?;
                    self.exp(";")?;
                    m.insert("condition".into(), c);
                    m.insert("body".into(), b);
                    return Ok(m.into());
                }
                "for" => {
                    let mut m = self.node("ForStatement", pos);
                    self.p += 1;
                    self.exp("(")?;
                    if !self.eat(";") {
                        let s = self.simple_statement()?;
                        self.exp(";")?;
                        m.insert("initializationExpression".into(), s);
                    }
                    if !self.is(";") {
                        let c = self.expression()?;
                        m.insert("condition".into(), c);
                    }
                    self.exp(";")?;
                    if !self.is(")") {
                        let mut es = self.node("ExpressionStatement", self.tk().pos);
                        let e = self.expression()?;
                        es.insert("expression".into(), e);
                        m.insert("loopExpression".into(), es.into());
                    }
                    self.exp(")")?;
                    let b = self.statement()?;
                    m.insert("body".into(), b);
                    return Ok(m.into());
                }
                "continue" | "break" => {
                    let m = self.node(if t.s == "break" { "Break" } else { "Continue" }, pos);
                    self.p += 1;
                    self.exp(";")?;
                    return Ok(m.into());
                }
                "return" => {
                    let mut m = self.node("Return", pos);
                    self.p += 1;
                    if !self.is(";") {
                        let e = self.expression()?;
                        m.insert("expression".into(), e);
                    }
                    self.exp(";")?;
                    m.insert("functionReturnParameters".into(), json!(0));
                    return Ok(m.into());
                }
                "try" => {
                    let mut m = self.node("TryStatement", pos);
                    self.p += 1;
                    let mut e = self.expression()?;
                    if e["nodeType"] == "FunctionCall" {
                        e["tryCall"] = json!(true);
                    } else if !lenient() {
                        return self.err("try needs a call");
                    }
                    let mut clauses = vec![];
                    let mut c = self.node("TryCatchClause", self.tk().pos);
                    c.insert("errorName".into(), json!(""));
                    if self.eat("returns") {
                        let ps = self.params(false)?;
                        if ps["parameters"].as_array().unwrap().is_empty() {
                            return self.err("empty returns");
                        }
                        c.insert("parameters".into(), ps);
                    }
                    let b = self.block()?;
                    c.insert("block".into(), b);
                    clauses.push(Value::Object(c));
                    if !self.is("catch") {
                        return self.err("expected catch");
                    }
                    while self.eat("catch") {
                        let mut c = self.node("TryCatchClause", self.tk().pos);
                        let n = if self.is_ident(0) { self.ident()? } else { String::new() };
                        c.insert("errorName".into(), json!(n));
                        if self.is("(") {
                            let ps = self.params(false)?;
                            c.insert("parameters".into(), ps);
                        } else if !n.is_empty() {
                            return self.err("catch needs parameters");
                        }
                        let b = self.block()?;
                        c.insert("block".into(), b);
                        clauses.push(Value::Object(c));
                    }
                    m.insert("externalCall".into(), e);
                    m.insert("clauses".into(), Value::Array(clauses));
                    return Ok(m.into());
                }
                "emit" if self.is_ident(1) || lenient() => {
                    let mut m = self.node("EmitStatement", pos);
                    self.p += 1;
                    let e = self.expression()?;
                    if e["nodeType"] != "FunctionCall" && !lenient() {
                        return self.err("emit needs a call");
                    }
                    self.exp(";")?;
                    m.insert("eventCall".into(), e);
                    return Ok(m.into());
                }
                "revert" if self.is_ident(1) || (lenient() && !matches!(self.t.get(self.p + 1).map(|t| t.s.as_str()), Some("(") | Some(";") | Some("."))) => {
                    let mut m = self.node("RevertStatement", pos);
                    self.p += 1;
                    let e = self.expression()?;
                    if e["nodeType"] != "FunctionCall" && !lenient() {
                        return self.err("revert needs a call");
                    }
                    self.exp(";")?;
                    m.insert("errorCall".into(), e);
                    return Ok(m.into());
                }
                "assembly" => {
                    let mut m = self.node("InlineAssembly", pos);
                    self.p += 1;
                    if self.tk().k == K::Str {
                        self.p += 1;
                    }
                    if self.eat("(") {
                        let mut fl = vec![];
                        loop {
                            fl.push(json!(self.string_tok()?));
                            if !self.eat(",") {
                                break;
                            }
                        }
                        self.exp(")")?;
                        m.insert("flags".into(), Value::Array(fl));
                    }
                    let b = self.yul_block()?;
                    m.insert("AST".into(), b);
                    if let Some(d) = doc {
                        m.insert("documentation".into(), json!(d));
                    }
                    m.insert("evmVersion".into(), json!("paris"));
                    m.insert("externalReferences".into(), json!([]));
                    return Ok(m.into());
                }
                "_" if self.at(1).s == ";" => {
                    let m = self.node("PlaceholderStatement", pos);
                    self.p += 2;
                    return Ok(m.into());
                }
                _ => {}
            }
        }
        let s = self.simple_statement()?;
        self.exp(";")?;
        Ok(s)
    }

    fn decl(&mut self) -> R<Value> {
        let pos = self.tk().pos;
        let ty = self.type_name()?;
        let mut loc = "default".to_string();
        if self.is("memory") || self.is("storage") || self.is("calldata") {
            loc = self.tk().s.clone();
            self.p += 1;
        }
        let n = self.ident()?;
        Ok(self.var(pos, ty, &n, "internal", "mutable", false, &loc, None))
    }

    fn simple_statement(&mut self) -> R<Value> {
        let save = self.p;
        let save_id = self.next_id;
        let pos = self.tk().pos;
        // tuple declaration
        if self.is("(") {
            if let Ok(ds) = self.tuple_decl() {
                let mut m = self.node("VariableDeclarationStatement", pos);
                let e = self.expression()?;
                m.insert("assignments".into(), json!(ds.iter().map(|d| d.get("id").cloned().unwrap_or(Value::Null)).collect::<Vec<_>>()));
                m.insert("declarations".into(), Value::Array(ds));
                m.insert("initialValue".into(), e);
                return Ok(m.into());
            }
            self.p = save;
            self.next_id = save_id;
        } else if let Ok(d) = self.decl() {
            if self.is("=") || self.is(";") {
                let mut m = self.node("VariableDeclarationStatement", pos);
                m.insert("assignments".into(), json!([d["id"]]));
                m.insert("declarations".into(), json!([d]));
                if self.eat("=") {
                    let e = self.expression()?;
                    m.insert("initialValue".into(), e);
                }
                return Ok(m.into());
            }
        }
        self.p = save;
        self.next_id = save_id;
        let mut m = self.node("ExpressionStatement", pos);
        let e = self.expression()?;
        m.insert("expression".into(), e);
        Ok(m.into())
    }

    fn tuple_decl(&mut self) -> R<Vec<Value>> {
        self.exp("(")?;
        let mut ds = vec![];
        let mut any = false;
        loop {
            if self.is(",") || self.is(")") {
                ds.push(Value::Null);
            } else {
                ds.push(self.decl()?);
                any = true;
            }
            if !self.eat(",") {
                break;
            }
        }
        self.exp(")")?;
        self.exp("=")?;
        if !any {
            return Err("no declaration".into());
        }
        Ok(ds)
    }

    // ---- expressions -------------------------------------------------------------------------------
    fn emeta(m: &mut Map<String, Value>) {
        m.insert("isConstant".into(), json!(false));
        m.insert("isLValue".into(), json!(false));
        m.insert("isPure".into(), json!(false));
        m.insert("lValueRequested".into(), json!(false));
        m.insert("typeDescriptions".into(), json!({}));
    }
    fn enode(&mut self, ty: &str, pos: usize) -> Map<String, Value> {
        let mut m = self.node(ty, pos);
        Self::emeta(&mut m);
        m
    }

    pub fn expression(&mut self) -> R<Value> {
        let pos = self.tk().pos;
        let l = self.binary(4)?;
        if self.tk().k == K::Punct {
            let s = self.tk().s.clone();
            if ASSIGN.contains(&s.as_str()) {
                self.p += 1;
                let r = self.expression()?;
                let mut m = self.enode("Assignment", pos);
                m.insert("leftHandSide".into(), l);
                m.insert("operator".into(), json!(s));
                m.insert("rightHandSide".into(), r);
                return Ok(m.into());
            }
            if s == "?" {
                self.p += 1;
                let t = self.expression()?;
                self.exp(":")?;
                let f = self.expression()?;
                let mut m = self.enode("Conditional", pos);
                m.insert("condition".into(), l);
                m.insert("trueExpression".into(), t);
                m.insert("falseExpression".into(), f);
                return Ok(m.into());
            }
        }
        Ok(l)
    }

    fn binary(&mut self, min: u32) -> R<Value> {
        let pos = self.tk().pos;
        let mut l = self.unary()?;
        loop {
            if self.tk().k != K::Punct {
                return Ok(l);
            }
            let op = self.tk().s.clone();
            let p = prec(&op);
            if p == 0 || p < min {
                return Ok(l);
            }
            self.p += 1;
            let r = self.binary(if op == "**" { p } else { p + 1 })?;
            let mut m = self.enode("BinaryOperation", pos);
            m.insert("commonType".into(), json!({}));
            m.insert("leftExpression".into(), l);
            m.insert("operator".into(), json!(op));
            m.insert("rightExpression".into(), r);
            l = m.into();
        }
    }

    fn unary(&mut self) -> R<Value> {
        let pos = self.tk().pos;
        let t = self.tk().clone();
        if (t.k == K::Punct && ["!", "~", "++", "--", "-"].contains(&t.s.as_str())) || (t.k == K::Ident && t.s == "delete") {
            self.p += 1;
            let e = self.unary()?;
            let mut m = self.enode("UnaryOperation", pos);
            m.insert("operator".into(), json!(t.s));
            m.insert("prefix".into(), json!(true));
            m.insert("subExpression".into(), e);
            return Ok(m.into());
        }
        let e = self.lhs()?;
        if self.is("++") || self.is("--") {
            let op = self.tk().s.clone();
            self.p += 1;
            let mut m = self.enode("UnaryOperation", pos);
            m.insert("operator".into(), json!(op));
            m.insert("prefix".into(), json!(false));
            m.insert("subExpression".into(), e);
            return Ok(m.into());
        }
        Ok(e)
    }

    fn args(&mut self) -> R<(Vec<Value>, Vec<Value>)> {
        self.exp("(")?;
        let mut a = vec![];
        let mut names = vec![];
        if self.is("{") {
            self.p += 1;
            if !self.is("}") {
                loop {
                    names.push(json!(self.ident()?));
                    self.exp(":")?;
                    a.push(self.expression()?);
                    if !self.eat(",") {
                        break;
                    }
                }
            }
            self.exp("}")?;
        } else if !self.is(")") {
            loop {
                a.push(self.expression()?);
                if !self.eat(",") {
                    break;
                }
            }
        }
        self.exp(")")?;
        Ok((a, names))
    }

    fn lhs(&mut self) -> R<Value> {
        let pos = self.tk().pos;
        let mut e;
        if self.is("new") {
            let mut m = self.enode("NewExpression", pos);
            self.p += 1;
            let t = self.type_name()?;
            m.insert("typeName".into(), t);
            e = Value::Object(m);
        } else if self.is("payable") {
            self.p += 1;
            let mut m = self.enode("ElementaryTypeNameExpression", pos);
            let mut ty = self.node("ElementaryTypeName", pos);
            ty.insert("name".into(), json!("address"));
            ty.insert("stateMutability".into(), json!("payable"));
            ty.insert("typeDescriptions".into(), json!({}));
            m.insert("typeName".into(), ty.into());
            m.insert("isPure".into(), json!(true));
            m.insert("argumentTypes".into(), json!([]));
            e = Value::Object(m);
            if !self.is("(") {
                return self.err("payable needs (");
            }
        } else {
            e = self.primary()?;
        }
        loop {
            if self.tk().k != K::Punct {
                return Ok(e);
            }
            let s = self.tk().s.clone();
            match s.as_str() {
                "[" => {
                    self.p += 1;
                    let mut st = None;
                    if !self.is("]") && !self.is(":") {
                        st = Some(self.expression()?);
                    }
                    if self.eat(":") {
                        let mut m = self.enode("IndexRangeAccess", pos);
                        if !self.is("]") {
                            let x = self.expression()?;
                            m.insert("endExpression".into(), x);
                        }
                        self.exp("]")?;
                        m.insert("baseExpression".into(), e);
                        if let Some(x) = st {
                            m.insert("startExpression".into(), x);
                        }
                        e = m.into();
                    } else {
                        self.exp("]")?;
                        let mut m = self.enode("IndexAccess", pos);
                        m.insert("baseExpression".into(), e);
                        if let Some(x) = st {
                            m.insert("indexExpression".into(), x);
                        }
                        e = m.into();
                    }
                }
                "." => {
                    self.p += 1;
                    let n = if self.is("address") {
                        self.p += 1;
                        "address".to_string()
                    } else {
                        self.ident()?
                    };
                    let mut m = self.enode("MemberAccess", pos);
                    m.insert("expression".into(), e);
                    m.insert("memberName".into(), json!(n));
                    m.insert("memberLocation".into(), json!("0:0:0"));
                    e = m.into();
                }
                "(" => {
                    let (a, n) = self.args()?;
                    let mut m = self.enode("FunctionCall", pos);
                    let kind = if e["nodeType"] == "ElementaryTypeNameExpression" { "typeConversion" } else { "functionCall" };
                    m.insert("arguments".into(), Value::Array(a));
                    m.insert("expression".into(), e);
                    m.insert("kind".into(), json!(kind));
                    m.insert("nameLocations".into(), json!([]));
                    m.insert("names".into(), Value::Array(n));
                    m.insert("tryCall".into(), json!(false));
                    e = m.into();
                }
                "{" if self.is_ident(1) && self.at(2).s == ":" && self.at(2).k == K::Punct => {
                    self.p += 1;
                    let mut names = vec![];
                    let mut opts = vec![];
                    loop {
                        names.push(json!(self.ident()?));
                        self.exp(":")?;
                        opts.push(self.expression()?);
                        if !self.eat(",") {
                            break;
                        }
                    }
                    self.exp("}")?;
                    let mut m = self.enode("FunctionCallOptions", pos);
                    m.insert("expression".into(), e);
                    m.insert("names".into(), Value::Array(names));
                    m.insert("options".into(), Value::Array(opts));
                    e = m.into();
                }
                _ => return Ok(e),
            }
        }
    }

    fn literal(&mut self, pos: usize, kind: &str, value: Option<String>, hex: String) -> Map<String, Value> {
        let mut m = self.enode("Literal", pos);
        m.insert("kind".into(), json!(kind));
        m.insert("hexValue".into(), json!(hex));
        m.insert("isPure".into(), json!(true));
        if let Some(v) = value {
            m.insert("value".into(), json!(v));
        }
        m
    }

    fn primary(&mut self) -> R<Value> {
        let pos = self.tk().pos;
        let t = self.tk().clone();
        match t.k {
            K::Num => {
                self.p += 1;
                let mut m = self.literal(pos, "number", Some(t.s.clone()), hexs(t.s.as_bytes()));
                let u = self.tk().s.clone();
                if self.tk().k == K::Ident
                    && ["wei", "gwei", "ether", "seconds", "minutes", "hours", "days", "weeks"].contains(&u.as_str())
                {
                    if t.s.starts_with("0x") {
                        return self.err("unit after hex number");
                    }
                    self.p += 1;
                    m.insert("subdenomination".into(), json!(u));
                }
                Ok(m.into())
            }
            K::Str | K::HexStr | K::UniStr => {
                let mut b = vec![];
                while self.tk().k == t.k {
                    b.extend_from_slice(&self.tk().bytes);
                    self.p += 1;
                }
                let kind = match t.k {
                    K::Str => "string",
                    K::HexStr => "hexString",
                    _ => "unicodeString",
                };
                let v = String::from_utf8(b.clone()).ok();
                if t.k == K::UniStr && v.is_none() {
                    return self.err("invalid UTF-8 in unicode string");
                }
                Ok(self.literal(pos, kind, v, hexs(&b)).into())
            }
            K::Ident => {
                if t.s == "true" || t.s == "false" {
                    self.p += 1;
                    return Ok(self.literal(pos, "bool", Some(t.s.clone()), hexs(t.s.as_bytes())).into());
                }
                if t.s == "type" {
                    if self.at(1).s != "(" {
                        return self.err("type");
                    }
                    self.p += 1;
                    let mut m = self.enode("Identifier", pos);
                    m.insert("name".into(), json!("type"));
                    return Ok(m.into());
                }
                if is_elementary(&t.s) {
                    self.p += 1;
                    let mut m = self.enode("ElementaryTypeNameExpression", pos);
                    let mut ty = self.node("ElementaryTypeName", pos);
                    ty.insert("name".into(), json!(t.s));
                    ty.insert("typeDescriptions".into(), json!({}));
                    m.insert("typeName".into(), ty.into());
                    m.insert("isPure".into(), json!(true));
                    m.insert("argumentTypes".into(), json!([]));
                    return Ok(m.into());
                }
                let n = self.ident()?;
                let mut m = self.node("Identifier", pos);
                m.insert("name".into(), json!(n));
                m.insert("overloadedDeclarations".into(), json!([]));
                m.insert("typeDescriptions".into(), json!({}));
                Ok(m.into())
            }
            K::Punct if t.s == "(" || t.s == "[" => {
                let close = if t.s == "(" { ")" } else { "]" };
                self.p += 1;
                let mut c = vec![];
                if !self.is(close) {
                    loop {
                        if t.s == "(" && (self.is(",") || self.is(")")) {
                            c.push(Value::Null);
                        } else {
                            c.push(self.expression()?);
                        }
                        if !self.eat(",") {
                            break;
                        }
                    }
                } else if t.s == "[" {
                    return self.err("empty inline array");
                }
                self.exp(close)?;
                let mut m = self.enode("TupleExpression", pos);
                m.insert("components".into(), Value::Array(c));
                m.insert("isInlineArray".into(), json!(t.s == "["));
                Ok(m.into())
            }
            _ => self.err("expected expression"),
        }
    }

    // ---- Yul ---------------------------------------------------------------------------------------
    fn ynode(ty: &str, pos: usize) -> Map<String, Value> {
        let mut m = Map::new();
        m.insert("nodeType".into(), json!(ty));
        m.insert("src".into(), json!(format!("{}:0:0", pos)));
        m.insert("nativeSrc".into(), json!(format!("{}:0:0", pos)));
        m
    }
    fn yul_name(&mut self) -> R<String> {
        let t = self.tk().clone();
        if t.k != K::Ident
            || ["let", "if", "switch", "case", "default", "for", "function", "break", "continue", "leave", "true", "false", "hex"]
                .contains(&t.s.as_str())
        {
            return self.err("expected Yul identifier");
        }
        self.p += 1;
        let mut s = t.s.clone();
        let mut end = t.end;
        while self.is(".") && self.tk().pos == end && self.at(1).k == K::Ident && self.at(1).pos == end + 1 {
            s = format!("{}.{}", s, self.at(1).s);
            end = self.at(1).end;
            self.p += 2;
        }
        Ok(s)
    }
    fn yul_block(&mut self) -> R<Value> {
        let mut m = Self::ynode("YulBlock", self.tk().pos);
        self.exp("{")?;
        let mut l = vec![];
        while !self.eat("}") {
            l.push(self.yul_stmt()?);
        }
        m.insert("statements".into(), Value::Array(l));
        Ok(m.into())
    }
    fn yul_typed(&mut self) -> R<Vec<Value>> {
        let mut l = vec![];
        loop {
            let mut m = Self::ynode("YulTypedName", self.tk().pos);
            let n = self.yul_name()?;
            m.insert("name".into(), json!(n));
            m.insert("type".into(), json!(""));
            l.push(Value::Object(m));
            if !self.eat(",") {
                break;
            }
        }
        Ok(l)
    }
    fn yul_stmt(&mut self) -> R<Value> {
        let pos = self.tk().pos;
        let s = self.tk().s.clone();
        if self.is("{") {
            return self.yul_block();
        }
        if self.tk().k != K::Ident && self.tk().k != K::Num {
            return self.err("expected Yul statement");
        }
        match s.as_str() {
            "let" => {
                self.p += 1;
                let mut m = Self::ynode("YulVariableDeclaration", pos);
                let v = self.yul_typed()?;
                m.insert("variables".into(), Value::Array(v));
                if self.eat(":=") {
                    let e = self.yul_expr()?;
                    m.insert("value".into(), e);
                }
                Ok(m.into())
            }
            "if" => {
                self.p += 1;
                let mut m = Self::ynode("YulIf", pos);
                let e = self.yul_expr()?;
                let b = self.yul_block()?;
                m.insert("condition".into(), e);
                m.insert("body".into(), b);
                Ok(m.into())
            }
            "switch" => {
                self.p += 1;
                let mut m = Self::ynode("YulSwitch", pos);
                let e = self.yul_expr()?;
                let mut cases = vec![];
                while self.is("case") || self.is("default") {
                    let mut c = Self::ynode("YulCase", self.tk().pos);
                    if self.eat("default") {
                        c.insert("value".into(), json!("default"));
                    } else {
                        self.p += 1;
                        let l = self.yul_expr()?;
                        if l["nodeType"] != "YulLiteral" {
                            return self.err("case literal");
                        }
                        c.insert("value".into(), l);
                    }
                    let b = self.yul_block()?;
                    c.insert("body".into(), b);
                    cases.push(Value::Object(c));
                }
                if cases.is_empty() {
                    return self.err("switch without cases");
                }
                m.insert("expression".into(), e);
                m.insert("cases".into(), Value::Array(cases));
                Ok(m.into())
            }
            "for" => {
                self.p += 1;
                let mut m = Self::ynode("YulForLoop", pos);
                let a = self.yul_block()?;
                let c = self.yul_expr()?;
                let p = self.yul_block()?;
                let b = self.yul_block()?;
                m.insert("pre".into(), a);
                m.insert("condition".into(), c);
                m.insert("post".into(), p);
                m.insert("body".into(), b);
                Ok(m.into())
            }
            "function" => {
                self.p += 1;
                let mut m = Self::ynode("YulFunctionDefinition", pos);
                let n = self.yul_name()?;
                self.exp("(")?;
                if !self.is(")") {
                    let v = self.yul_typed()?;
                    m.insert("parameters".into(), Value::Array(v));
                }
                self.exp(")")?;
                if self.eat("->") {
                    let v = self.yul_typed()?;
                    m.insert("returnVariables".into(), Value::Array(v));
                }
                let b = self.yul_block()?;
                m.insert("name".into(), json!(n));
                m.insert("body".into(), b);
                Ok(m.into())
            }
            "break" | "continue" | "leave" => {
                self.p += 1;
                Ok(Self::ynode(
                    match s.as_str() {
                        "break" => "YulBreak",
                        "continue" => "YulContinue",
                        _ => "YulLeave",
                    },
                    pos,
                )
                .into())
            }
            _ => {
                let e = self.yul_expr()?;
                if e["nodeType"] == "YulFunctionCall" {
                    let mut m = Self::ynode("YulExpressionStatement", pos);
                    m.insert("expression".into(), e);
                    return Ok(m.into());
                }
                if e["nodeType"] != "YulIdentifier" {
                    return self.err("Yul statement");
                }
                let mut names = vec![e];
                while self.eat(",") {
                    let x = self.yul_expr()?;
                    if x["nodeType"] != "YulIdentifier" {
                        return self.err("Yul assignment target");
                    }
                    names.push(x);
                }
                self.exp(":=")?;
                let v = self.yul_expr()?;
                let mut m = Self::ynode("YulAssignment", pos);
                m.insert("variableNames".into(), Value::Array(names));
                m.insert("value".into(), v);
                Ok(m.into())
            }
        }
    }
    fn yul_lit(pos: usize, kind: &str, value: Option<String>, hex: String) -> Value {
        let mut m = Self::ynode("YulLiteral", pos);
        m.insert("kind".into(), json!(kind));
        m.insert("type".into(), json!(""));
        m.insert("hexValue".into(), json!(hex));
        if let Some(v) = value {
            m.insert("value".into(), json!(v));
        }
        m.into()
    }
    fn yul_expr(&mut self) -> R<Value> {
        let t = self.tk().clone();
        match t.k {
            K::Num => {
                self.p += 1;
                Ok(Self::yul_lit(t.pos, "number", Some(t.s.clone()), hexs(t.s.as_bytes())))
            }
            K::Str | K::HexStr => {
                self.p += 1;
                Ok(Self::yul_lit(t.pos, "string", String::from_utf8(t.bytes.clone()).ok(), hexs(&t.bytes)))
            }
            K::Ident if t.s == "true" || t.s == "false" => {
                self.p += 1;
                Ok(Self::yul_lit(t.pos, "bool", Some(t.s.clone()), hexs(t.s.as_bytes())))
            }
            K::Ident => {
                let n = self.yul_name()?;
                let mut m = Self::ynode("YulIdentifier", t.pos);
                m.insert("name".into(), json!(n));
                if self.is("(") {
                    self.p += 1;
                    let mut a = vec![];
                    if !self.is(")") {
                        loop {
                            a.push(self.yul_expr()?);
                            if !self.eat(",") {
                                break;
                            }
                        }
                    }
                    self.exp(")")?;
                    let mut c = Self::ynode("YulFunctionCall", t.pos);
                    c.insert("functionName".into(), m.into());
                    c.insert("arguments".into(), Value::Array(a));
                    return Ok(c.into());
                }
                Ok(m.into())
            }
            _ => self.err("expected Yul expression"),
        }
    }
}

fn canon_elem(s: &str) -> String {
    match s {
        "uint" => "uint256".into(),
        "int" => "int256".into(),
        "byte" => "bytes1".into(),
        _ => s.into(),
    }
}

fn is_ref(t: &Value) -> bool {
    match t["nodeType"].as_str().unwrap_or("") {
        "ArrayTypeName" => true,
        "ElementaryTypeName" => t["name"] == "string" || t["name"] == "bytes",
        _ => false,
    }
}

pub fn type_string(t: &Value) -> String {
    match t["nodeType"].as_str().unwrap_or("") {
        "ElementaryTypeName" => {
            let n = canon_elem(t["name"].as_str().unwrap());
            if n == "address" && t["stateMutability"] == "payable" {
                "address payable".into()
            } else {
                n
            }
        }
        "UserDefinedTypeName" => format!("struct {}", t["pathNode"]["name"].as_str().unwrap_or("?")),
        "ArrayTypeName" => {
            let l = t["length"]["value"].as_str().unwrap_or("").to_string();
            format!("{}[{}]", type_string(&t["baseType"]), l)
        }
        "Mapping" => format!("mapping({} => {})", type_string(&t["keyType"]), type_string(&t["valueType"])),
        "FunctionTypeName" => {
            let ps = |v: &Value| {
                v["parameters"].as_array().map(|a| a.iter().map(|p| type_string(&p["typeName"])).collect::<Vec<_>>().join(",")).unwrap_or_default()
            };
            let mut s = format!("function ({})", ps(&t["parameterTypes"]));
            if t["stateMutability"] != "nonpayable" {
                s += &format!(" {}", t["stateMutability"].as_str().unwrap());
            }
            if t["visibility"] == "external" {
                s += " external";
            }
            let r = ps(&t["returnParameterTypes"]);
            if !r.is_empty() {
                s += &format!(" returns ({})", r);
            }
            s
        }
        _ => "?".into(),
    }
}

/// Fill in typeDescriptions of expressions: a light-weight type inference, enough for the keys the mutators read.
struct Types {
    vars: HashMap<String, String>,
    funs: HashMap<String, (String, String)>, // name -> (function type string, result type string)
}

impl Types {
    fn collect(&mut self, v: &Value) {
        match v {
            Value::Array(a) => a.iter().for_each(|x| self.collect(x)),
            Value::Object(o) => {
                let nt = o.get("nodeType").and_then(|x| x.as_str()).unwrap_or("");
                if nt == "VariableDeclaration" {
                    let n = o["name"].as_str().unwrap_or("").to_string();
                    if !n.is_empty() {
                        self.vars.entry(n).or_insert_with(|| o["typeDescriptions"]["typeString"].as_str().unwrap_or("?").into());
                    }
                }
                if nt == "FunctionDefinition" {
                    let n = o["name"].as_str().unwrap_or("").to_string();
                    let ts = |k: &str| -> Vec<String> {
                        o[k]["parameters"].as_array().unwrap().iter().map(|p| p["typeDescriptions"]["typeString"].as_str().unwrap_or("?").to_string()).collect()
                    };
                    let r = ts("returnParameters");
                    let mut s = format!("function ({})", ts("parameters").join(","));
                    if o["stateMutability"] != "nonpayable" {
                        s += &format!(" {}", o["stateMutability"].as_str().unwrap_or(""));
                    }
                    if !r.is_empty() {
                        s += &format!(" returns ({})", r.join(","));
                    }
                    let rt = if r.len() == 1 { r[0].clone() } else { format!("tuple({})", r.join(",")) };
                    self.funs.insert(n, (s, rt));
                }
                o.values().for_each(|x| self.collect(x));
            }
            _ => {}
        }
    }
    fn set(o: &mut Value, t: &str) {
        o["typeDescriptions"] = json!({"typeIdentifier": format!("t_{}", t.replace([' ', '(', ')', ','], "_")), "typeString": t});
    }
    fn ann(&mut self, v: &mut Value) -> String {
        if v.is_array() {
            for x in v.as_array_mut().unwrap() {
                self.ann(x);
            }
            return String::new();
        }
        if !v.is_object() {
            return String::new();
        }
        let nt = v.get("nodeType").and_then(|x| x.as_str()).unwrap_or("").to_string();
        let keys: Vec<String> = v.as_object().unwrap().keys().cloned().collect();
        let mut sub: HashMap<String, String> = HashMap::new();
        let mut argt: Vec<String> = vec![];
        for k in keys {
            if k == "typeDescriptions" {
                continue;
            }
            if (k == "arguments" || k == "components") && v[&k].is_array() {
                for x in v[&k].as_array_mut().unwrap() {
                    argt.push(self.ann(x));
                }
                continue;
            }
            let t = self.ann(&mut v[&k]);
            sub.insert(k, t);
        }
        let g = |k: &str| sub.get(k).cloned().unwrap_or_default();
        let t = match nt.as_str() {
            "Literal" => {
                let val = v["value"].as_str().unwrap_or("").to_string();
                match v["kind"].as_str().unwrap_or("") {
                    "number" => {
                        if val.starts_with("0x") && val.len() == 42 {
                            "address".into()
                        } else {
                            format!("int_const {}", val)
                        }
                    }
                    "bool" => "bool".into(),
                    _ => format!("literal_string \"{}\"", val),
                }
            }
            "Identifier" => {
                let n = v["name"].as_str().unwrap_or("");
                if n == "this" {
                    "contract C".into()
                } else if n == "require" {
                    v["overloadedDeclarations"] = json!([1, 2]);
                    if true { "function (bool,string memory) pure".into() } else { String::new() }
                } else if n == "msg" {
                    "msg".into()
                } else if let Some(t) = self.vars.get(n) {
                    t.clone()
                } else if let Some((t, _)) = self.funs.get(n) {
                    t.clone()
                } else {
                    "tuple()".into()
                }
            }
            "BinaryOperation" => {
                let op = v["operator"].as_str().unwrap_or("");
                if [4, 5, 6, 7].contains(&prec(op)) {
                    "bool".into()
                } else {
                    let l = g("leftExpression");
                    if l.starts_with("int_const") { let r = g("rightExpression"); if r.starts_with("int_const") { "int_const 0".into() } else { r } } else { l }
                }
            }
            "UnaryOperation" => g("subExpression"),
            "Assignment" => g("leftHandSide"),
            "Conditional" => g("trueExpression"),
            "TupleExpression" => {
                if v["isInlineArray"] == true {
                    format!("{}[{}] memory", argt[0], argt.len())
                } else if argt.len() == 1 {
                    argt[0].clone()
                } else {
                    format!("tuple({})", argt.join(","))
                }
            }
            "FunctionCall" => {
                let en = v["expression"]["nodeType"].as_str().unwrap_or("").to_string();
                if en == "ElementaryTypeNameExpression" {
                    let ty = type_string(&v["expression"]["typeName"]);
                    ty
                } else {
                    let n = if en == "Identifier" { v["expression"]["name"].as_str().unwrap_or("") } else { v["expression"]["memberName"].as_str().unwrap_or("") };
                    match n {
                        "balanceOf" | "gasleft" => "uint256".into(),
                        "keccak256" => "bytes32".into(),
                        "delegatecall" | "call" | "staticcall" => "tuple(bool,bytes memory)".into(),
                        _ => self.funs.get(n).map(|x| x.1.clone()).unwrap_or_else(|| "tuple()".into()),
                    }
                }
            }
            "FunctionCallOptions" => g("expression"),
            "NewExpression" => format!("function () returns ({})", type_string(&v["typeName"])),
            "MemberAccess" => {
                let n = v["memberName"].as_str().unwrap_or("").to_string();
                match n.as_str() {
                    "length" | "value" | "balance" | "max" | "min" | "timestamp" | "number" => "uint256".into(),
                    "sender" | "origin" => "address".into(),
                    "delegatecall" => "function (bytes memory) returns (bool,bytes memory)".into(),
                    "call" => "function (bytes memory) payable returns (bool,bytes memory)".into(),
                    _ => self.vars.get(&n).cloned().or_else(|| self.funs.get(&n).map(|x| x.0.clone())).unwrap_or_else(|| "uint256".into()),
                }
            }
            "IndexAccess" => {
                let b = g("baseExpression");
                if let Some(r) = b.strip_prefix("mapping(") {
                    // value type
                    let mut depth = 0;
                    let by = r.as_bytes();
                    let mut cut = None;
                    let mut i = 0;
                    while i + 3 < by.len() {
                        if by[i] == b'(' {
                            depth += 1
                        } else if by[i] == b')' {
                            depth -= 1
                        } else if depth == 0 && &r[i..i + 4] == " => " {
                            cut = Some(i + 4);
                            break;
                        }
                        i += 1;
                    }
                    cut.map(|c| r[c..r.len() - 1].to_string()).unwrap_or_else(|| "uint256".into())
                } else if let Some(i) = b.rfind('[') {
                    b[..i].to_string()
                } else {
                    "bytes1".into()
                }
            }
            "IndexRangeAccess" => g("baseExpression"),
            "ElementaryTypeNameExpression" => format!("type({})", type_string(&v["typeName"])),
            _ => return String::new(),
        };
        Self::set(v, &t);
        t
    }
}

thread_local! {
    static LENIENT: std::cell::Cell<bool> = std::cell::Cell::new(false);
}
fn lenient() -> bool {
    LENIENT.with(|l| l.get())
}
/// Parse a mutant: accepts the shapes a documented change yields although the language rejects them
/// (such as an emitted expression that is not a call).
pub fn parse_mutant(src: &str) -> Result<Parsed, String> {
    LENIENT.with(|l| l.set(true));
    let r = parse_opt(src, false);
    LENIENT.with(|l| l.set(false));
    r
}

pub struct Parsed {
    pub ast: Value,
    pub toks: Vec<Tok>,
    pub comments: Vec<Comment>,
}

pub fn parse(src: &str) -> Result<Parsed, String> {
    parse_opt(src, true)
}

pub fn parse_opt(src: &str, types: bool) -> Result<Parsed, String> {
    let (toks, comments) = lex(src)?;
    let license = comments.iter().find_map(|c| {
        c.text.find("SPDX-License-Identifier:").map(|i| {
            let r = &c.text[i + "SPDX-License-Identifier:".len()..];
            r.trim_end_matches("*/").trim().to_string()
        })
    });
    let mut p = Parser { t: toks, p: 0, next_id: 0 };
    let mut ast = p.source_unit(license)?;
    if types {
        let mut t = Types { vars: HashMap::new(), funs: HashMap::new() };
        t.collect(&ast);
        t.ann(&mut ast);
    }
    Ok(Parsed { ast, toks: p.t, comments })
}

const DROP: &[&str] = &[
    "id", "src", "nativeSrc", "nameLocation", "nameLocations", "typeDescriptions", "assignments", "absolutePath", "scope",
    "referencedDeclaration", "overloadedDeclarations", "memberLocation", "keyNameLocation", "valueNameLocation",
    "linearizedBaseContracts", "contractDependencies", "usedErrors", "fullyImplemented", "exportedSymbols", "commonType",
    "argumentTypes", "isConstant", "isLValue", "isPure", "lValueRequested", "evmVersion", "externalReferences",
    "functionReturnParameters", "canonicalName", "sourceUnit", "stateVariable",
];

fn words(s: &str) -> String {
    s.split_whitespace().collect::<Vec<_>>().join(" ")
}

/// Strip everything that is not part of the program text; documentation is compared word by word.
pub fn normal(v: &Value) -> Value {
    match v {
        Value::Array(a) => Value::Array(a.iter().map(normal).collect()),
        Value::Object(o) => {
            let mut m = Map::new();
            let is_lit = matches!(o.get("nodeType").and_then(|x| x.as_str()), Some("Literal") | Some("YulLiteral"));
            for (k, x) in o {
                if DROP.contains(&k.as_str()) {
                    continue;
                }
                if k == "text" || (k == "documentation" && x.is_string()) {
                    let w = words(x.as_str().unwrap_or(""));
                    m.insert(k.clone(), json!(w));
                    continue;
                }
                // string-like literals are compared by their bytes; spelling (hex/unicode/plain) is kept in kind
                if is_lit && k == "hexValue" {
                    m.insert(k.clone(), x.clone());
                    continue;
                }
                m.insert(k.clone(), normal(x));
            }
            Value::Object(m)
        }
        _ => v.clone(),
    }
}

/// First difference between two normalised ASTs, as a path.
pub fn diff(a: &Value, b: &Value, path: &str) -> Option<String> {
    match (a, b) {
        (Value::Object(x), Value::Object(y)) => {
            for (k, v) in x {
                match y.get(k) {
                    None => return Some(format!("{}.{} missing (was {})", path, k, short(v))),
                    Some(w) => {
                        if let Some(d) = diff(v, w, &format!("{}.{}", path, k)) {
                            return Some(d);
                        }
                    }
                }
            }
            for (k, w) in y {
                if !x.contains_key(k) {
                    return Some(format!("{}.{} added ({})", path, k, short(w)));
                }
            }
            None
        }
        (Value::Array(x), Value::Array(y)) => {
            if x.len() != y.len() {
                return Some(format!("{}: {} elements became {}", path, x.len(), y.len()));
            }
            for (i, (v, w)) in x.iter().zip(y).enumerate() {
                if let Some(d) = diff(v, w, &format!("{}[{}]", path, i)) {
                    return Some(d);
                }
            }
            None
        }
        _ => {
            if a == b {
                None
            } else {
                Some(format!("{}: {} became {}", path, short(a), short(b)))
            }
        }
    }
}

pub fn short(v: &Value) -> String {
    let s = v.to_string();
    if s.chars().count() > 160 {
        let t: String = s.chars().take(160).collect();
        format!("{}…", t)
    } else {
        s
    }
}

/// The same program as earlier compilers describe it.
/// 1: absent optional members are written as null (compilers before 0.8);
/// 2: names of types, libraries, bases and modifiers without `IdentifierPath` nodes (compilers before 0.8.0).
pub fn dialect(v: &Value, which: u8) -> Value {
    let o = match v {
        Value::Array(a) => return Value::Array(a.iter().map(|x| dialect(x, which)).collect()),
        Value::Object(o) => o,
        _ => return v.clone(),
    };
    let mut m = Map::new();
    for (k, x) in o {
        let mut x = dialect(x, which);
        if which == 2 {
            let to = |x: &mut Value, t: &str| {
                if x["nodeType"] == "IdentifierPath" {
                    x["nodeType"] = json!(t);
                }
            };
            match k.as_str() {
                "modifierName" => to(&mut x, "Identifier"),
                "baseName" | "libraryName" => to(&mut x, "UserDefinedTypeName"),
                "overrides" => {
                    for y in x.as_array_mut().into_iter().flatten() {
                        to(y, "UserDefinedTypeName");
                    }
                }
                "pathNode" => {
                    m.insert("name".into(), x["name"].clone());
                    continue;
                }
                _ => {}
            }
        }
        m.insert(k.clone(), x);
    }
    if which == 1 {
        let null: &[&str] = match o.get("nodeType").and_then(|x| x.as_str()).unwrap_or("") {
            "ContractDefinition" | "EventDefinition" => &["documentation"],
            "FunctionDefinition" => &["documentation", "body", "overrides"],
            "ModifierDefinition" => &["documentation", "overrides"],
            "VariableDeclaration" => &["documentation", "overrides", "value"],
            "ModifierInvocation" | "InheritanceSpecifier" => &["arguments"],
            "IfStatement" => &["falseBody"],
            "ForStatement" => &["initializationExpression", "condition", "loopExpression"],
            "Return" => &["expression"],
            "VariableDeclarationStatement" => &["initialValue"],
            "ArrayTypeName" => &["length"],
            "TryCatchClause" => &["parameters"],
            "IndexAccess" => &["indexExpression"],
            "IndexRangeAccess" => &["startExpression", "endExpression"],
            "Literal" => &["subdenomination"],
            "UsingForDirective" => &["typeName"],
            "YulVariableDeclaration" => &["value"],
            _ => &[],
        };
        for k in null {
            if !m.contains_key(*k) {
                m.insert(k.to_string(), Value::Null);
            }
        }
    }
    Value::Object(m)
}
