//! A front end for Vyper 0.3: source text to the AST that `vyper -f ast` produces.
use serde_json::{json, Map, Value};

#[derive(Clone, Debug, PartialEq)]
pub enum T {
    Name(String),
    Int(String),
    Dec(String),
    Hex(String),
    Str(String),
    Bytes(Vec<u8>),
    Op(&'static str),
    NL,
    Indent,
    Dedent,
    Eof,
}
#[derive(Clone, Debug)]
pub struct Comment {
    pub text: String,
    pub line: usize,
    pub own_line: bool,
    pub indent: usize,
}
#[derive(Clone, Debug)]
pub struct Tok {
    pub t: T,
    pub line: usize,
}
pub struct Parsed {
    pub ast: Value,
    pub toks: Vec<Tok>,
    pub comments: Vec<Comment>,
}
type R<X> = Result<X, String>;

const OPS: &[&str] = &[
    "**=", "//=", "<<=", ">>=", "**", "//", "<<", ">>", "<=", ">=", "==", "!=", "->", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "+", "-", "*", "/", "%", "<", ">", "&", "|", "^", "~", "(", ")",
    "[", "]", "{", "}", ",", ":", ".", "=", "@",
];
const KW: &[&str] = &[
    "and", "or", "not", "in", "if", "else", "elif", "for", "def", "return", "assert", "raise", "pass", "break", "continue", "import", "from", "as", "True", "False", "None", "is", "lambda", "while",
    "class", "yield", "with", "try", "del", "global", "except", "finally", "nonlocal", "async", "await",
];

pub fn lex(src: &str) -> R<(Vec<Tok>, Vec<Comment>)> {
    let b: Vec<char> = src.replace("\r\n", "\n").replace('\r', "\n").chars().collect();
    let mut i = 0;
    let mut line = 1;
    let mut depth = 0usize;
    let mut toks: Vec<Tok> = vec![];
    let mut comments = vec![];
    let mut indents = vec![0usize];
    let mut bol = true;
    macro_rules! push {
        ($t:expr) => {
            toks.push(Tok { t: $t, line })
        };
    }
    loop {
        if bol && depth == 0 {
            let mut col = 0;
            while i < b.len() && (b[i] == ' ' || b[i] == '\t') {
                if b[i] == '\t' {
                    return Err(format!("tab in indentation, line {}", line));
                }
                col += 1;
                i += 1;
            }
            if i >= b.len() {
                break;
            }
            if b[i] == '\n' {
                i += 1;
                line += 1;
                continue;
            }
            if b[i] == '#' {
                let s = i;
                while i < b.len() && b[i] != '\n' {
                    i += 1;
                }
                comments.push(Comment { text: b[s..i].iter().collect(), line, own_line: true, indent: col });
                continue;
            }
            if col > *indents.last().unwrap() {
                indents.push(col);
                push!(T::Indent);
            } else {
                while col < *indents.last().unwrap() {
                    indents.pop();
                    push!(T::Dedent);
                }
                if col != *indents.last().unwrap() {
                    return Err(format!("inconsistent dedent, line {}", line));
                }
            }
            bol = false;
        }
        if i >= b.len() {
            break;
        }
        let c = b[i];
        if c == '\n' {
            i += 1;
            if depth == 0 {
                push!(T::NL);
                bol = true;
            }
            line += 1;
            continue;
        }
        if c == ' ' || c == '\t' {
            i += 1;
            continue;
        }
        if c == '\\' {
            if i + 1 < b.len() && b[i + 1] == '\n' {
                i += 2;
                line += 1;
                continue;
            }
            return Err(format!("stray backslash, line {}", line));
        }
        if c == '#' {
            let s = i;
            while i < b.len() && b[i] != '\n' {
                i += 1;
            }
            comments.push(Comment { text: b[s..i].iter().collect(), line, own_line: false, indent: 0 });
            continue;
        }
        let bytes_prefix = (c == 'b' || c == 'B') && i + 1 < b.len() && (b[i + 1] == '"' || b[i + 1] == '\'');
        if c == '"' || c == '\'' || bytes_prefix {
            if bytes_prefix {
                i += 1;
            }
            let start_line = line;
            let q = b[i];
            let triple = i + 2 < b.len() && b[i + 1] == q && b[i + 2] == q;
            i += if triple { 3 } else { 1 };
            let mut s = String::new();
            loop {
                if i >= b.len() {
                    return Err(format!("unterminated string, line {}", start_line));
                }
                let d = b[i];
                if d == q && (!triple || (i + 2 < b.len() && b[i + 1] == q && b[i + 2] == q)) {
                    i += if triple { 3 } else { 1 };
                    break;
                }
                if d == '\n' {
                    if !triple {
                        return Err(format!("newline in string, line {}", line));
                    }
                    line += 1;
                    s.push('\n');
                    i += 1;
                    continue;
                }
                if d == '\\' {
                    i += 1;
                    let e = *b.get(i).ok_or("eof in escape")?;
                    i += 1;
                    let hex = |i: &mut usize, n: usize| -> R<u32> {
                        let h: String = b.get(*i..*i + n).ok_or("short escape")?.iter().collect();
                        *i += n;
                        if !h.chars().all(|c| c.is_ascii_hexdigit()) {
                            return Err(format!("bad escape \\x{}", h));
                        }
                        u32::from_str_radix(&h, 16).map_err(|e| e.to_string())
                    };
                    match e {
                        '\n' => line += 1,
                        '\\' | '\'' | '"' => s.push(e),
                        'a' => s.push('\x07'),
                        'b' => s.push('\x08'),
                        'f' => s.push('\x0c'),
                        'n' => s.push('\n'),
                        'r' => s.push('\r'),
                        't' => s.push('\t'),
                        'v' => s.push('\x0b'),
                        'x' => s.push(char::from_u32(hex(&mut i, 2)?).unwrap()),
                        'u' if !bytes_prefix => s.push(char::from_u32(hex(&mut i, 4)?).ok_or("bad \\u")?),
                        'U' if !bytes_prefix => s.push(char::from_u32(hex(&mut i, 8)?).ok_or("bad \\U")?),
                        '0'..='7' => {
                            let mut v = e as u32 - 48;
                            let mut n = 1;
                            while n < 3 && i < b.len() && ('0'..='7').contains(&b[i]) {
                                v = v * 8 + b[i] as u32 - 48;
                                i += 1;
                                n += 1;
                            }
                            s.push(char::from_u32(v).unwrap());
                        }
                        _ => {
                            s.push('\\');
                            s.push(e);
                        }
                    }
                    continue;
                }
                s.push(d);
                i += 1;
            }
            if bytes_prefix {
                let mut v = vec![];
                for ch in s.chars() {
                    if ch as u32 > 255 {
                        return Err("non-ASCII bytes literal".into());
                    }
                    v.push(ch as u32 as u8);
                }
                push!(T::Bytes(v));
            } else {
                push!(T::Str(s));
            }
            continue;
        }
        if c.is_ascii_digit() || (c == '.' && i + 1 < b.len() && b[i + 1].is_ascii_digit()) {
            let s = i;
            if c == '0' && i + 1 < b.len() && (b[i + 1] == 'x' || b[i + 1] == 'X') {
                i += 2;
                while i < b.len() && b[i].is_ascii_hexdigit() {
                    i += 1;
                }
                let h: String = b[s..i].iter().collect();
                if h.len() < 4 {
                    return Err("empty hex literal".into());
                }
                push!(T::Hex(h));
            } else {
                let mut dot = false;
                while i < b.len() && (b[i].is_ascii_digit() || b[i] == '_' || (b[i] == '.' && !dot)) {
                    if b[i] == '.' {
                        dot = true;
                    }
                    i += 1;
                }
                let h: String = b[s..i].iter().filter(|c| **c != '_').collect();
                if dot {
                    push!(T::Dec(h));
                } else {
                    if h.len() > 1 && h.starts_with('0') && h.chars().any(|c| c != '0') {
                        return Err("leading zero".into());
                    }
                    push!(T::Int(if h.chars().all(|c| c == '0') { "0".into() } else { h }));
                }
            }
            if i < b.len() && (b[i].is_alphanumeric() || b[i] == '_') {
                return Err(format!("bad number, line {}", line));
            }
            continue;
        }
        if c.is_alphabetic() || c == '_' || c == '$' {
            let s = i;
            while i < b.len() && (b[i].is_alphanumeric() || b[i] == '_') {
                i += 1;
            }
            push!(T::Name(b[s..i].iter().collect()));
            continue;
        }
        let mut found = None;
        for o in OPS {
            if b[i..].iter().take(o.len()).collect::<String>() == **o {
                found = Some(*o);
                break;
            }
        }
        let o = found.ok_or(format!("illegal character {:?}, line {}", c, line))?;
        match o {
            "(" | "[" | "{" => depth += 1,
            ")" | "]" | "}" => depth = depth.checked_sub(1).ok_or(format!("unbalanced {}, line {}", o, line))?,
            _ => {}
        }
        push!(T::Op(o));
        i += o.len();
    }
    if depth > 0 {
        return Err("unclosed bracket".into());
    }
    if !bol {
        push!(T::NL);
    }
    while indents.len() > 1 {
        indents.pop();
        push!(T::Dedent);
    }
    push!(T::Eof);
    Ok((toks, comments))
}

struct P {
    lenient: bool,
    t: Vec<Tok>,
    p: usize,
    id: u64,
}

impl P {
    fn node(&mut self, ty: &str, fields: Value) -> Value {
        let mut m = Map::new();
        m.insert("ast_type".into(), json!(ty));
        m.insert("node_id".into(), json!(self.id));
        self.id += 1;
        if let Value::Object(f) = fields {
            for (k, v) in f {
                m.insert(k, v);
            }
        }
        Value::Object(m)
    }
    fn op_node(&mut self, ty: &str) -> Value {
        self.node(ty, json!({}))
    }
    fn peek(&self) -> &T {
        &self.t[self.p].t
    }
    fn peek2(&self) -> &T {
        &self.t[(self.p + 1).min(self.t.len() - 1)].t
    }
    fn next(&mut self) -> T {
        let t = self.t[self.p].t.clone();
        if self.p + 1 < self.t.len() {
            self.p += 1;
        }
        t
    }
    fn is(&self, o: &str) -> bool {
        matches!(self.peek(), T::Op(x) if *x == o)
    }
    fn is_kw(&self, k: &str) -> bool {
        matches!(self.peek(), T::Name(x) if x == k)
    }
    fn eat(&mut self, o: &str) -> bool {
        if self.is(o) {
            self.next();
            true
        } else {
            false
        }
    }
    fn eat_kw(&mut self, k: &str) -> bool {
        if self.is_kw(k) {
            self.next();
            true
        } else {
            false
        }
    }
    fn err<X>(&self, m: &str) -> R<X> {
        Err(format!("{} at line {} (token {:?})", m, self.t[self.p].line, self.peek()))
    }
    fn expect(&mut self, o: &str) -> R<()> {
        if self.eat(o) {
            Ok(())
        } else {
            self.err(&format!("expected {:?}", o))
        }
    }
    fn ident(&mut self) -> R<String> {
        match self.peek().clone() {
            T::Name(n) if !KW.contains(&n.as_str()) => {
                self.next();
                Ok(n)
            }
            _ => self.err("expected identifier"),
        }
    }
    fn nl(&mut self) -> R<()> {
        match self.peek() {
            T::NL => {
                self.next();
                Ok(())
            }
            T::Eof => Ok(()),
            _ => self.err("expected end of line"),
        }
    }
    // ---- expressions
    fn testlist(&mut self) -> R<Value> {
        let e = self.expr()?;
        if !self.is(",") {
            return Ok(e);
        }
        let mut v = vec![e];
        while self.eat(",") {
            if matches!(self.peek(), T::NL | T::Eof) || self.is("=") || self.is(")") || self.is("]") || self.is(":") {
                break;
            }
            v.push(self.expr()?);
        }
        Ok(self.node("Tuple", json!({ "elements": v })))
    }
    pub fn expr(&mut self) -> R<Value> {
        let body = self.or_test()?;
        if self.is_kw("if") {
            self.next();
            let test = self.or_test()?;
            if !self.eat_kw("else") {
                return self.err("expected else");
            }
            let orelse = self.expr()?;
            return Ok(self.node("IfExp", json!({"test": test, "body": body, "orelse": orelse})));
        }
        Ok(body)
    }
    fn bool_chain(&mut self, kw: &str, ty: &str, sub: fn(&mut P) -> R<Value>) -> R<Value> {
        let e = sub(self)?;
        if !self.is_kw(kw) {
            return Ok(e);
        }
        let mut v = vec![e];
        while self.eat_kw(kw) {
            v.push(sub(self)?);
        }
        let op = self.op_node(ty);
        Ok(self.node("BoolOp", json!({"op": op, "values": v})))
    }
    fn or_test(&mut self) -> R<Value> {
        self.bool_chain("or", "Or", P::and_test)
    }
    fn and_test(&mut self) -> R<Value> {
        self.bool_chain("and", "And", P::not_test)
    }
    fn not_test(&mut self) -> R<Value> {
        if self.eat_kw("not") {
            let e = self.not_test()?;
            let op = self.op_node("Not");
            return Ok(self.node("UnaryOp", json!({"op": op, "operand": e})));
        }
        self.comparison()
    }
    fn cmp_op(&mut self) -> Option<&'static str> {
        let r = match self.peek() {
            T::Op("==") => "Eq",
            T::Op("!=") => "NotEq",
            T::Op("<") => "Lt",
            T::Op("<=") => "LtE",
            T::Op(">") => "Gt",
            T::Op(">=") => "GtE",
            T::Name(n) if n == "in" => "In",
            T::Name(n) if n == "not" => {
                if matches!(self.peek2(), T::Name(m) if m == "in") {
                    self.next();
                    "NotIn"
                } else {
                    return None;
                }
            }
            _ => return None,
        };
        self.next();
        Some(r)
    }
    fn comparison(&mut self) -> R<Value> {
        let l = self.bin(0)?;
        if let Some(o) = self.cmp_op() {
            let r = self.bin(0)?;
            let op = self.op_node(o);
            let n = self.node("Compare", json!({"left": l, "op": op, "right": r}));
            if self.cmp_op().is_some() {
                return self.err("chained comparison");
            }
            return Ok(n);
        }
        Ok(l)
    }
    fn bin(&mut self, lvl: usize) -> R<Value> {
        const L: &[&[(&str, &str)]] = &[
            &[("|", "BitOr")],
            &[("^", "BitXor")],
            &[("&", "BitAnd")],
            &[("<<", "LShift"), (">>", "RShift")],
            &[("+", "Add"), ("-", "Sub")],
            &[("*", "Mult"), ("/", "Div"), ("%", "Mod")],
        ];
        if lvl == L.len() {
            return self.unary();
        }
        let mut l = self.bin(lvl + 1)?;
        'o: loop {
            for (s, ty) in L[lvl] {
                if self.eat(s) {
                    let r = self.bin(lvl + 1)?;
                    let op = self.op_node(ty);
                    l = self.node("BinOp", json!({"left": l, "op": op, "right": r}));
                    continue 'o;
                }
            }
            return Ok(l);
        }
    }
    fn unary(&mut self) -> R<Value> {
        for (s, ty) in [("-", "USub"), ("~", "Invert")] {
            if self.eat(s) {
                let mut e = self.unary()?;
                if ty == "USub" {
                    match e["ast_type"].as_str().unwrap() {
                        "Int" => {
                            let t = e["value"].to_string();
                            let neg = match t.strip_prefix('-') {
                                Some(x) => x.to_string(),
                                None if t == "0" => t,
                                None => format!("-{}", t),
                            };
                            e["value"] = int_value(&neg);
                            return Ok(e);
                        }
                        "Decimal" => {
                            let t = e["value"].as_str().unwrap().to_string();
                            let neg = match t.strip_prefix('-') {
                                Some(x) => x.to_string(),
                                None => format!("-{}", t),
                            };
                            e["value"] = json!(neg);
                            return Ok(e);
                        }
                        _ => {}
                    }
                }
                let op = self.op_node(ty);
                return Ok(self.node("UnaryOp", json!({"op": op, "operand": e})));
            }
        }
        self.power()
    }
    fn power(&mut self) -> R<Value> {
        let l = self.postfix()?;
        if self.eat("**") {
            let r = self.unary()?;
            let op = self.op_node("Pow");
            return Ok(self.node("BinOp", json!({"left": l, "op": op, "right": r})));
        }
        Ok(l)
    }
    fn postfix(&mut self) -> R<Value> {
        let mut e = self.atom()?;
        loop {
            if self.eat(".") {
                let n = self.ident()?;
                e = self.node("Attribute", json!({"value": e, "attr": n}));
            } else if self.eat("[") {
                let v = self.testlist()?;
                self.expect("]")?;
                let ix = self.node("Index", json!({ "value": v }));
                e = self.node("Subscript", json!({"value": e, "slice": ix}));
            } else if self.eat("(") {
                let mut args = vec![];
                let mut kws: Vec<Value> = vec![];
                while !self.is(")") {
                    if matches!(self.peek(), T::Name(_)) && matches!(self.peek2(), T::Op("=")) {
                        let n = self.ident()?;
                        self.next();
                        let v = self.expr()?;
                        kws.push(self.node("keyword", json!({"arg": n, "value": v})));
                    } else {
                        if !kws.is_empty() {
                            return self.err("positional argument after keyword");
                        }
                        args.push(self.expr()?);
                    }
                    if !self.eat(",") {
                        break;
                    }
                }
                self.expect(")")?;
                e = self.node("Call", json!({"func": e, "args": args, "keywords": kws}));
            } else {
                return Ok(e);
            }
        }
    }
    fn atom(&mut self) -> R<Value> {
        match self.peek().clone() {
            T::Name(n) => match n.as_str() {
                "True" | "False" | "None" => {
                    self.next();
                    let v = match n.as_str() {
                        "True" => json!(true),
                        "False" => json!(false),
                        _ => Value::Null,
                    };
                    Ok(self.node("NameConstant", json!({ "value": v })))
                }
                k if KW.contains(&k) => self.err("keyword in expression"),
                _ => {
                    self.next();
                    Ok(self.node("Name", json!({ "id": n })))
                }
            },
            T::Int(s) => {
                self.next();
                Ok(self.node("Int", json!({"value": int_value(&s)})))
            }
            T::Dec(s) => {
                self.next();
                let s = if s.starts_with('.') { format!("0{}", s) } else { s };
                let s = if s.ends_with('.') { format!("{}0", s) } else { s };
                Ok(self.node("Decimal", json!({ "value": s })))
            }
            T::Hex(s) => {
                self.next();
                Ok(self.node("Hex", json!({ "value": s })))
            }
            T::Str(_) => {
                let mut acc = String::new();
                while let T::Str(s) = self.peek().clone() {
                    self.next();
                    acc.push_str(&s);
                }
                if matches!(self.peek(), T::Bytes(_)) {
                    return self.err("mixed literals");
                }
                if acc.chars().any(|c| c as u32 > 255) {
                    return self.err("illegal character in string literal");
                }
                Ok(self.node("Str", json!({ "value": acc })))
            }
            T::Bytes(_) => {
                let mut acc = vec![];
                while let T::Bytes(s) = self.peek().clone() {
                    self.next();
                    acc.extend(s);
                }
                if matches!(self.peek(), T::Str(_)) {
                    return self.err("mixed literals");
                }
                let h: String = acc.iter().map(|b| format!("{:02x}", b)).collect();
                Ok(self.node("Bytes", json!({"value": format!("0x{}", h)})))
            }
            T::Op("(") => {
                self.next();
                if self.eat(")") {
                    return Ok(self.node("Tuple", json!({"elements": []})));
                }
                let e = self.testlist()?;
                self.expect(")")?;
                Ok(e)
            }
            T::Op("[") => {
                self.next();
                let mut v = vec![];
                while !self.is("]") {
                    v.push(self.expr()?);
                    if !self.eat(",") {
                        break;
                    }
                }
                self.expect("]")?;
                Ok(self.node("List", json!({ "elements": v })))
            }
            T::Op("{") => {
                self.next();
                let (mut k, mut v) = (vec![], vec![]);
                while !self.is("}") {
                    k.push(self.expr()?);
                    self.expect(":")?;
                    v.push(self.expr()?);
                    if !self.eat(",") {
                        break;
                    }
                }
                self.expect("}")?;
                Ok(self.node("Dict", json!({"keys": k, "values": v})))
            }
            _ => self.err("expected expression"),
        }
    }
    // ---- statements
    fn block(&mut self, stmt: fn(&mut P) -> R<Value>) -> R<Vec<Value>> {
        self.expect(":")?;
        let mut v = vec![];
        if *self.peek() == T::NL {
            self.next();
            if *self.peek() != T::Indent {
                return self.err("expected an indented block");
            }
            self.next();
            while *self.peek() != T::Dedent {
                if *self.peek() == T::Eof {
                    break;
                }
                v.push(stmt(self)?);
            }
            self.next();
        } else {
            v.push(stmt(self)?);
        }
        if v.is_empty() {
            return self.err("empty block");
        }
        Ok(v)
    }
    fn stmt(&mut self) -> R<Value> {
        if let T::Name(n) = self.peek().clone() {
            match n.as_str() {
                "if" => {
                    self.next();
                    return self.if_rest();
                }
                "for" => {
                    self.next();
                    let target = match self.peek() {
                        T::Name(_) => {
                            let n = self.ident()?;
                            self.node("Name", json!({ "id": n }))
                        }
                        _ => return self.err("loop target"),
                    };
                    if !self.eat_kw("in") {
                        return self.err("expected in");
                    }
                    let iter = self.testlist()?;
                    let body = self.block(P::stmt)?;
                    return Ok(self.node("For", json!({"target": target, "iter": iter, "body": body})));
                }
                "return" => {
                    self.next();
                    let v = if matches!(self.peek(), T::NL | T::Eof) { Value::Null } else { self.testlist()? };
                    self.nl()?;
                    return Ok(self.node("Return", json!({ "value": v })));
                }
                "assert" => {
                    self.next();
                    let t = self.expr()?;
                    let m = if self.eat(",") { self.expr()? } else { Value::Null };
                    self.nl()?;
                    return Ok(self.node("Assert", json!({"test": t, "msg": m})));
                }
                "raise" => {
                    self.next();
                    let v = if matches!(self.peek(), T::NL | T::Eof) { Value::Null } else { self.expr()? };
                    self.nl()?;
                    return Ok(self.node("Raise", json!({ "exc": v })));
                }
                "log" if matches!(self.peek2(), T::Name(_)) || (self.lenient && match self.peek2() { T::Op(o) => matches!(o.as_ref(), "(" | "-" | "~" | "[" | "{"), T::NL | T::Indent | T::Dedent | T::Eof => false, _ => true }) => {
                    self.next();
                    let v = self.expr()?;
                    self.nl()?;
                    return Ok(self.node("Log", json!({ "value": v })));
                }
                "pass" => {
                    self.next();
                    self.nl()?;
                    return Ok(self.op_node("Pass"));
                }
                "break" => {
                    self.next();
                    self.nl()?;
                    return Ok(self.op_node("Break"));
                }
                "continue" => {
                    self.next();
                    self.nl()?;
                    return Ok(self.op_node("Continue"));
                }
                _ => {}
            }
        }
        let parenthesised = self.is("(");
        let e = self.testlist()?;
        let ty = e["ast_type"].as_str().unwrap().to_string();
        if self.eat(":") {
            if !matches!(ty.as_str(), "Name" | "Attribute" | "Subscript") {
                return self.err("illegal annotation target");
            }
            let _ = parenthesised;
            let a = self.expr()?;
            let v = if self.eat("=") { self.testlist()? } else { Value::Null };
            self.nl()?;
            return Ok(self.node("AnnAssign", json!({"target": e, "annotation": a, "value": v})));
        }
        if self.eat("=") {
            if !assignable(&e) {
                return self.err("illegal assignment target");
            }
            let v = self.testlist()?;
            if self.is("=") {
                return self.err("chained assignment");
            }
            self.nl()?;
            return Ok(self.node("Assign", json!({"target": e, "value": v})));
        }
        for (o, n) in [("+=", "Add"), ("-=", "Sub"), ("*=", "Mult"), ("/=", "Div"), ("%=", "Mod"), ("**=", "Pow"), ("&=", "BitAnd"), ("|=", "BitOr"), ("^=", "BitXor"), ("<<=", "LShift"), (">>=", "RShift")] {
            if self.eat(o) {
                if !matches!(ty.as_str(), "Name" | "Attribute" | "Subscript") {
                    return self.err("illegal assignment target");
                }
                let v = self.testlist()?;
                self.nl()?;
                let op = self.op_node(n);
                return Ok(self.node("AugAssign", json!({"target": e, "op": op, "value": v})));
            }
        }
        self.nl()?;
        Ok(self.node("Expr", json!({ "value": e })))
    }
    fn if_rest(&mut self) -> R<Value> {
        let test = self.expr()?;
        let body = self.block(P::stmt)?;
        let mut orelse = vec![];
        if self.eat_kw("elif") {
            orelse.push(self.if_rest()?);
        } else if self.is_kw("else") {
            self.next();
            orelse = self.block(P::stmt)?;
        }
        Ok(self.node("If", json!({"test": test, "body": body, "orelse": orelse})))
    }
    fn func(&mut self, decorators: Vec<Value>, interface: bool) -> R<Value> {
        if !self.eat_kw("def") {
            return self.err("expected def");
        }
        let name = self.ident()?;
        self.expect("(")?;
        let (mut args, mut defaults): (Vec<Value>, Vec<Value>) = (vec![], vec![]);
        while !self.is(")") {
            let n = self.ident()?;
            self.expect(":")?;
            let a = self.expr()?;
            args.push(self.node("arg", json!({"arg": n, "annotation": a})));
            if self.eat("=") {
                defaults.push(self.expr()?);
            } else if !defaults.is_empty() {
                return self.err("argument without default after default");
            }
            if !self.eat(",") {
                break;
            }
        }
        self.expect(")")?;
        let args = self.node("arguments", json!({"args": args, "defaults": defaults}));
        let ret = if self.eat("->") { self.expr()? } else { Value::Null };
        let mut body = self.block(P::stmt)?;
        if interface && !(body.len() == 1 && body[0]["ast_type"] == "Expr" && body[0]["value"]["ast_type"] == "Name") {
            return self.err("interface function body");
        }
        let doc = self.take_doc(&mut body);
        Ok(self.node("FunctionDef", json!({"name": name, "args": args, "body": body, "decorator_list": decorators, "returns": ret, "doc_string": doc})))
    }
    fn take_doc(&mut self, body: &mut Vec<Value>) -> Value {
        if body.first().map(|s| s["ast_type"] == "Expr" && s["value"]["ast_type"] == "Str").unwrap_or(false) {
            let s = body.remove(0);
            return self.node("DocStr", json!({"value": s["value"]["value"]}));
        }
        Value::Null
    }
    fn field(&mut self) -> R<Value> {
        if self.eat_kw("pass") {
            self.nl()?;
            return Ok(self.op_node("Pass"));
        }
        let n = self.ident()?;
        self.expect(":")?;
        let t = self.node("Name", json!({ "id": n }));
        let a = self.expr()?;
        self.nl()?;
        Ok(self.node("AnnAssign", json!({"target": t, "annotation": a, "value": null})))
    }
    fn enum_member(&mut self) -> R<Value> {
        let n = self.ident()?;
        self.nl()?;
        let v = self.node("Name", json!({ "id": n }));
        Ok(self.node("Expr", json!({ "value": v })))
    }
    fn iface_fn(&mut self) -> R<Value> {
        self.func(vec![], true)
    }
    fn dotted(&mut self) -> R<String> {
        let mut s = self.ident()?;
        while self.eat(".") {
            s.push('.');
            s.push_str(&self.ident()?);
        }
        Ok(s)
    }
    fn module(&mut self) -> R<Value> {
        let mut body = vec![];
        let mut first = true;
        let mut doc = Value::Null;
        while *self.peek() != T::Eof {
            if first {
                first = false;
                if let T::Str(s) = self.peek().clone() {
                    self.next();
                    self.nl()?;
                    doc = self.node("DocStr", json!({ "value": s }));
                    continue;
                }
            }
            let n = self.top()?;
            body.push(n);
        }
        Ok(self.node("Module", json!({"name": "contract.vy", "body": body, "doc_string": doc})))
    }
    fn top(&mut self) -> R<Value> {
        let mut decorators = vec![];
        while self.eat("@") {
            decorators.push(self.expr()?);
            self.nl()?;
        }
        if self.is_kw("def") {
            return self.func(decorators, false);
        }
        if !decorators.is_empty() {
            return self.err("expected def");
        }
        if self.lenient && self.is_kw("pass") {
            self.next();
            self.nl()?;
            return Ok(self.node("Pass", json!({})));
        }
        let next_is_name = matches!(self.peek2(), T::Name(_));
        if let T::Name(n) = self.peek().clone() {
            match n.as_str() {
                "struct" | "event" | "interface" | "enum" if next_is_name => {
                    self.next();
                    let name = self.ident()?;
                    let (ty, body) = match n.as_str() {
                        "struct" => ("StructDef", self.block(P::field)?),
                        "event" => ("EventDef", self.block(P::field)?),
                        "interface" => ("InterfaceDef", self.block(P::iface_fn)?),
                        _ => ("EnumDef", self.block(P::enum_member)?),
                    };
                    return Ok(self.node(ty, json!({"name": name, "body": body})));
                }
                "import" => {
                    self.next();
                    let name = self.dotted()?;
                    let alias = if self.eat_kw("as") { json!(self.ident()?) } else { Value::Null };
                    self.nl()?;
                    return Ok(self.node("Import", json!({"name": name, "alias": alias})));
                }
                "from" => {
                    self.next();
                    let mut level = 0;
                    while self.eat(".") {
                        level += 1;
                    }
                    let module = if self.is_kw("import") && level > 0 { Value::Null } else { json!(self.dotted()?) };
                    if !self.eat_kw("import") {
                        return self.err("expected import");
                    }
                    let name = self.ident()?;
                    let alias = if self.eat_kw("as") { json!(self.ident()?) } else { Value::Null };
                    self.nl()?;
                    return Ok(self.node("ImportFrom", json!({"level": level, "module": module, "name": name, "alias": alias})));
                }
                _ => {}
            }
            let name = self.ident()?;
            self.expect(":")?;
            let mut a = self.expr()?;
            let v = if self.eat("=") { self.testlist()? } else { Value::Null };
            self.nl()?;
            if name == "implements" {
                let target = self.node("Name", json!({ "id": name }));
                return Ok(self.node("ImplementsDecl", json!({"target": target, "annotation": a})));
            }
            let mut flags = [false; 4];
            let names = ["public", "constant", "immutable", "transient"];
            loop {
                let which = if a["ast_type"] == "Call" && a["args"].as_array().unwrap().len() == 1 && a["keywords"].as_array().unwrap().is_empty() {
                    names.iter().position(|n| a["func"]["id"] == *n)
                } else {
                    None
                };
                match which {
                    Some(i) if !flags[i] => {
                        flags[i] = true;
                        a = a["args"][0].clone();
                    }
                    _ => break,
                }
            }
            let target = self.node("Name", json!({ "id": name }));
            return Ok(self.node(
                "VariableDecl",
                json!({"target": target, "annotation": a, "value": v, "is_public": flags[0], "is_constant": flags[1], "is_immutable": flags[2], "is_transient": flags[3]}),
            ));
        }
        self.err("illegal module-level statement")
    }
}

/// JSON number for an integer literal, read the way the code under test reads it
pub fn int_value(s: &str) -> Value {
    serde_json::from_str(s).unwrap()
}

fn assignable(e: &Value) -> bool {
    match e["ast_type"].as_str().unwrap() {
        "Name" | "Attribute" | "Subscript" => true,
        "Tuple" => e["elements"].as_array().unwrap().iter().all(assignable),
        _ => false,
    }
}

/// Parse a mutant: accepts the shapes a documented change yields although the language rejects them.
pub fn parse_mutant(src: &str) -> R<Parsed> {
    let (toks, comments) = lex(src)?;
    let mut p = P { t: toks.clone(), p: 0, id: 0, lenient: true };
    let m = p.module()?;
    Ok(Parsed { ast: json!({"contract_name": "contract.vy", "ast": m}), toks, comments })
}

pub fn parse(src: &str) -> R<Parsed> {
    let (toks, comments) = lex(src)?;
    let mut p = P { t: toks.clone(), p: 0, id: 0, lenient: false };
    let m = p.module()?;
    Ok(Parsed { ast: json!({"contract_name": "contract.vy", "ast": m}), toks, comments })
}

/// AST without identifiers of nodes and with white space in documentation collapsed
pub fn normal(v: &Value) -> Value {
    match v {
        Value::Object(m) => {
            let mut r = Map::new();
            for (k, x) in m {
                if k == "node_id" || k == "contract_name" {
                    continue;
                }
                if k == "doc_string" && x.is_object() {
                    let t = x["value"].as_str().unwrap_or("").split_whitespace().collect::<Vec<_>>().join(" ");
                    r.insert(k.clone(), json!(t));
                    continue;
                }
                r.insert(k.clone(), normal(x));
            }
            Value::Object(r)
        }
        Value::Array(a) => Value::Array(a.iter().map(normal).collect()),
        _ => v.clone(),
    }
}
