//! C10: layout.  All sequences of print operations to a bound on the real PrettyPrinter, for a range of page and
//! tab widths, and whole programs printed at those widths.
use crate::run::*;
use crate::tool::{self, Lang};
use mutagenyx_lib::pretty_printer::PrettyPrinter;
use serde_json::json;
use std::sync::atomic::{AtomicU64, Ordering};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op {
    Token(&'static str),
    Str(&'static str),
    Triple(&'static str),
    Tokens(&'static str, usize),
    Space,
    Spaces(usize),
    Newline,
    Indent,
    Inc,
    Dec,
    IncBy(usize),
    DecBy(usize),
    Flow(&'static str, &'static str),
}
use Op::*;

fn ops(thorough: bool) -> Vec<Op> {
    let mut v = vec![
        Token("a"),
        Token("function"),
        Token("é€"),
        Str("x  y z"),
        Triple("d o c"),
        Space,
        Newline,
        Indent,
        Inc,
        Dec,
        Flow("lorem ipsum dolor", "// "),
        Flow("extraordinarilylong words \n here  too", " * "),
        Flow("ü", ""),
        Flow("", "# "),
    ];
    if thorough {
        v.extend([Tokens("ab", 3), Spaces(3), IncBy(2), DecBy(2), Flow(" é€é \"q u o t e\"\r\n.", "/// "), Token("abcdefghijklmnopqrstuvwxyz")]);
    }
    v
}

fn apply(p: &mut PrettyPrinter, out: &mut Vec<u8>, op: Op) -> Result<(), String> {
    let r = match op {
        Token(t) => p.write_token(out, t),
        Str(t) => p.write_string(out, t),
        Triple(t) => p.write_triple_string(out, t),
        Tokens(t, n) => p.write_tokens(out, t, n),
        Space => p.write_space(out),
        Spaces(n) => p.write_spaces(out, n),
        Newline => p.write_newline(out),
        Indent => p.write_indent(out),
        Inc => {
            p.increase_indent();
            Ok(())
        }
        Dec => {
            p.decrease_indent();
            Ok(())
        }
        IncBy(n) => {
            p.increase_indent_by(n);
            Ok(())
        }
        DecBy(n) => {
            p.decrease_indent_by(n);
            Ok(())
        }
        Flow(t, n) => p.write_flowable_text(out, t, n),
    };
    r.map_err(|e| e.to_string())
}

/// Is `out` the text of `seq` with only white space, and in flowed text the line prefix, added at breaks?
fn judge(seq: &[Op], out: &str, tab: usize, width: usize) -> Result<(), String> {
    let c: Vec<char> = out.chars().collect();
    let mut i = 0;
    // what has been asked for since the last text
    let (mut newlines, mut spaces) = (0usize, 0usize);
    let mut level = 0usize;
    let mut within = true; // the indentation never reached the limit
    // spaces asked for since the last newline operation, when the line has nothing else
    let mut line_start: Option<usize> = None;
    let mut maybe = false; // indentation beyond the limit: some white space, or none
    let gap = |i: &mut usize| -> (usize, usize) {
        let s = *i;
        while *i < c.len() && c[*i].is_whitespace() {
            *i += 1;
        }
        (c[s..*i].iter().filter(|x| **x == '\n').count(), *i - s)
    };
    let text = |i: &mut usize, t: &str| -> Result<(), String> {
        for x in t.chars() {
            if c.get(*i) != Some(&x) {
                return Err(format!("expected {:?} in one piece, found {:?}", t, c[(*i).min(c.len())..].iter().take(20).collect::<String>()));
            }
            *i += 1;
        }
        Ok(())
    };
    for op in seq {
        let atoms: Vec<(String, Option<&str>)> = match op {
            Newline => {
                newlines += 1;
                line_start = Some(0);
                continue;
            }
            Space => {
                spaces += 1;
                line_start = line_start.map(|x| x + 1);
                continue;
            }
            Spaces(n) => {
                spaces += n;
                line_start = line_start.map(|x| x + n);
                continue;
            }
            Indent => {
                if within {
                    spaces += level * tab;
                } else {
                    maybe = true;
                }
                line_start = line_start.map(|x| x + level * tab);
                continue;
            }
            Inc | IncBy(_) => {
                level += if let IncBy(n) = op { *n } else { 1 };
                if (level + 1) * tab > width {
                    within = false;
                }
                continue;
            }
            Dec | DecBy(_) => {
                level = level.saturating_sub(if let DecBy(n) = op { *n } else { 1 });
                continue;
            }
            Token(t) => vec![(t.to_string(), None)],
            Tokens(t, n) => vec![(t.to_string(), None); *n],
            Str(t) => vec![(format!("\"{}\"", t), None)],
            Triple(t) => vec![(format!("\"\"\"{}\"\"\"", t), None)],
            Flow(t, p) => t.split(|x| x == ' ' || x == '\n' || x == '\r').filter(|w| !w.is_empty()).map(|w| (w.to_string(), Some(*p))).collect(),
        };
        let flow_lead = matches!(op, Flow(t, _) if t.starts_with([' ', '\n', '\r']));
        let flow_tail = matches!(op, Flow(t, _) if t.ends_with([' ', '\n', '\r']));
        if flow_lead {
            spaces += 1;
            line_start = line_start.map(|x| x + 1);
        }
        let only_space = atoms.is_empty();
        for (k, (a, prefix)) in atoms.iter().enumerate() {
            if k > 0 && prefix.is_some() {
                spaces += 1;
            }
            let (nl, n) = gap(&mut i);
            if nl < newlines {
                return Err(format!("a line end before {:?} is lost", a));
            }
            if newlines == 0 && spaces > 0 && n == 0 {
                return Err(format!("the space before {:?} is lost", a));
            }
            if newlines == 0 && spaces == 0 && !maybe && n > 0 && nl == 0 {
                return Err(format!("space is invented before {:?}", a));
            }
            if let (Some(want), true, true) = (line_start, within, nl == newlines) {
                let have = n - c[..i].iter().rev().take(n).position(|x| *x == '\n').map(|p| n - p).unwrap_or(0);
                if nl > 0 && have != want && k == 0 {
                    return Err(format!("{} spaces at the start of the line of {:?}, {} asked for", have, a, want));
                }
            }
            if let Some(p) = prefix {
                let lead = p.trim_start();
                // a break inside of flowed text: the prefix follows
                // (a space asked for before the text may have broken the line on its own)
                let own = k == 0 && spaces > 0 && !c[i..].starts_with(&lead.chars().collect::<Vec<_>>());
                if nl > newlines && !lead.is_empty() && !own {
                    text(&mut i, lead).map_err(|e| format!("line prefix: {}", e))?;
                }
            }
            text(&mut i, a)?;
            newlines = 0;
            spaces = 0;
            line_start = None;
            maybe = false;
        }
        if flow_tail && !only_space {
            spaces += 1;
            // the space at the end may have been put on a line of its own
            if let Flow(_, p) = op {
                let lead: Vec<char> = p.trim().chars().collect();
                let mut j = i;
                let (nl, _) = gap(&mut j);
                if nl > 0 && !lead.is_empty() && c[j..].starts_with(&lead) {
                    i = j + lead.len();
                }
            }
        }
    }
    let (nl, _) = gap(&mut i);
    if i != c.len() {
        return Err(format!("text is invented: {:?}", c[i..].iter().take(30).collect::<String>()));
    }
    if nl < newlines {
        return Err("a line end is lost at the end".into());
    }
    Ok(())
}

pub fn run(ctx: &Ctx) {
    let n = if ctx.thorough { sequences(ctx, true, 5) } else { sequences(ctx, false, 5) + sequences(ctx, true, 4) };
    indentation(ctx);
    programs(ctx);
    ctx.note("sequences of print operations", json!(n));
    ctx.note("states", json!(n));
    ctx.note("transitions", json!(n * 5));
    ctx.note("traces_validated_against_impl", json!(n));
    ctx.note("distinct_nontrivial", json!(n));
    ctx.note("bounds", json!("all sequences of 5 operations out of 14 (thorough: 20) and of 4 out of 20 x 10 (14) page widths x 3 tab widths; all nesting depths to the limit, all sequences of 4 (5) changes of indentation; the listed programs at every width"));
    ctx.note("rule", json!("a state is a sequence of print operations on the real PrettyPrinter under one page and tab width, a transition one operation; the output is matched against the texts given"));
}

fn sequences(ctx: &Ctx, full: bool, depth: usize) -> u64 {
    let alphabet = ops(full);
    let widths: Vec<usize> = if ctx.thorough { vec![1, 2, 3, 5, 8, 9, 10, 13, 16, 20, 24, 40, 80, 150] } else { vec![1, 2, 5, 8, 9, 10, 13, 20, 24, 150] };
    let tabs = [1usize, 2, 4];
    // one case per (width, tab, first two operations)
    let mut cases = vec![];
    for w in &widths {
        for t in tabs {
            for a in 0..alphabet.len() {
                for b in 0..alphabet.len() {
                    cases.push((*w, t, a, b));
                }
            }
        }
    }
    let seqs = AtomicU64::new(0);
    ctx.sample(json!({"operations": format!("{:?}", [alphabet[10], alphabet[6], alphabet[8], alphabet[3]]), "page width": 9, "tab width": 2}));
    ctx.run_limit(&cases, 300, |c| format!("width {} tab {} {:?} {:?}", c.0, c.1, alphabet[c.2], alphabet[c.3]), |c| {
        let mut idx = vec![0usize; depth - 2];
        let mut n = 0u64;
        loop {
            let mut seq = vec![alphabet[c.2], alphabet[c.3]];
            seq.extend(idx.iter().map(|i| alphabet[*i]));
            n += 1;
            let mut p = PrettyPrinter::new(c.1, c.0);
            let mut out = vec![];
            let r = guarded(|| {
                for op in &seq {
                    apply(&mut p, &mut out, *op)?;
                }
                Ok::<(), String>(())
            });
            let key = || format!("page width {} tab width {} operations {:?}", c.0, c.1, seq);
            let s = String::from_utf8_lossy(&out).into_owned();
            match r {
                Err(e) | Ok(Err(e)) => {
                    seqs.fetch_add(n, Ordering::Relaxed);
                    return Err(Viol { key: key(), detail: e });
                }
                Ok(Ok(())) => {
                    if let Err(e) = judge(&seq, &s, c.1, c.0) {
                        seqs.fetch_add(n, Ordering::Relaxed);
                        return Err(Viol { key: key(), detail: format!("{}\n--- output\n{}", e, s) });
                    }
                }
            }
            let mut k = 0;
            while k < idx.len() {
                idx[k] += 1;
                if idx[k] < alphabet.len() {
                    break;
                }
                idx[k] = 0;
                k += 1;
            }
            if k == idx.len() {
                break;
            }
        }
        seqs.fetch_add(n, Ordering::Relaxed);
        Ok(())
    });
    seqs.load(Ordering::Relaxed)
}

fn indentation(ctx: &Ctx) {
    let tabs = [1usize, 2, 4];
    // nesting: any depth of blocks opens and closes at its own level, up to the limit
    for w in [1usize, 7, 8, 40, 150] {
        for t in tabs {
            for depth in 0..(w / t + 3) {
                let r = guarded(|| -> Result<(), String> {
                    let mut p = PrettyPrinter::new(t, w);
                    let mut seen = vec![];
                    for _ in 0..depth {
                        seen.push(p.indent_string().len());
                        p.increase_indent();
                        if p.indent_string().len() > w {
                            return Err(format!("indentation {} passes the page width", p.indent_string().len()));
                        }
                    }
                    if (depth + 1) * t > w {
                        return Ok(());
                    }
                    for l in (0..depth).rev() {
                        p.decrease_indent();
                        if p.indent_string().len() != seen[l] || seen[l] != l * t {
                            return Err(format!("level {} opens at {} and closes at {}", l, seen[l], p.indent_string().len()));
                        }
                    }
                    Ok(())
                });
                if let Err(e) | Ok(Err(e)) = r {
                    ctx.violation(Viol { key: format!("nesting {} width {} tab {}", depth, w, t), detail: e });
                }
            }
        }
    }
    // the level of indentation after every sequence of changes
    let steps = [Inc, Dec, IncBy(0), IncBy(1), IncBy(2), IncBy(3), DecBy(0), DecBy(1), DecBy(2), DecBy(3)];
    let len = if ctx.thorough { 5 } else { 4 };
    let mut levels = 0u64;
    for w in [8usize, 12, 20, 150] {
        for t in tabs {
            for k in 0..(steps.len() as u64).pow(len) {
                levels += 1;
                let mut k = k;
                let seq: Vec<Op> = (0..len).map(|_| { let x = steps[(k % steps.len() as u64) as usize]; k /= steps.len() as u64; x }).collect();
                let r = guarded(|| -> Result<(), String> {
                    let mut p = PrettyPrinter::new(t, w);
                    let mut out = vec![];
                    let (mut level, mut within) = (0usize, true);
                    for op in &seq {
                        apply(&mut p, &mut out, *op)?;
                        match op {
                            Inc => level += 1,
                            IncBy(n) => level += n,
                            Dec => level = level.saturating_sub(1),
                            DecBy(n) => level = level.saturating_sub(*n),
                            _ => {}
                        }
                        within &= (level + 1) * t <= w;
                        let have = p.indent_string().len();
                        if within && have != level * t {
                            return Err(format!("indentation {} after {:?}, level {}", have, op, level));
                        }
                        if have > w {
                            return Err(format!("indentation {} passes the page width", have));
                        }
                    }
                    Ok(())
                });
                if let Err(e) | Ok(Err(e)) = r {
                    ctx.violation(Viol { key: format!("indentation {:?} width {} tab {}", seq, w, t), detail: e });
                    break;
                }
            }
        }
    }
    ctx.count("sequences of indentation changes", levels);
}

fn programs(ctx: &Ctx) {
    let long = "thisIsAnIdentifierThatIsRatherLongAndKeepsGoing";
    let mut srcs: Vec<(Lang, String)> = vec![];
    for n in 1..=8 {
        let args: Vec<String> = (0..n).map(|i| format!("{}{}", long, i)).collect();
        srcs.push((Lang::Sol, format!("contract C {{ function f({}) public returns (uint256) {{ a = g({}); return \"{}\"; }} }}", args.iter().map(|a| format!("uint256 {}", a)).collect::<Vec<_>>().join(", "), args.join(", "), "word ".repeat(n * 7))));
        srcs.push((Lang::Sol, format!("/// {}\ncontract C {{ /** {} */ function f() public {{ a = {}; if ({}) {{ a = 1; }} }} }}", "doc word ".repeat(n * 5), "more docs here ".repeat(n * 4), args.join(" + "), args.join(" && "))));
        srcs.push((Lang::Vy, format!("@external\ndef f({}) -> uint256:\n    a = self.g({})\n    b = \"{}\"\n    return a\n", args.iter().map(|a| format!("{}: uint256", a)).collect::<Vec<_>>().join(", "), args.join(", "), "word ".repeat(n * 7))));
        srcs.push((Lang::Vy, format!("@external\ndef f():\n    \"\"\"{}\"\"\"\n    a = {}\n    if {}:\n        a = 1\n", "doc word ".repeat(n * 5), args.join(" + "), args.join(" and "))));
    }
    for n in [2usize, 5, 10, 20, 30, 35] {
        let mut s = "a = 1;".to_string();
        let mut v = vec!["a = 1".to_string()];
        for i in 0..n {
            s = if i % 2 == 0 { format!("if (c) {{ {} b = {}; }}", s, i) } else { format!("while (c) {{ b = {}; {} }}", i, s) };
            let mut w = vec![if i % 2 == 0 { "if c:".to_string() } else { "for i in x:".to_string() }];
            w.extend(v.iter().map(|l| format!("    {}", l)));
            w.push(format!("    b = {}", i));
            v = w;
        }
        srcs.push((Lang::Sol, format!("contract C {{ function f() public {{ {} }} }}", s)));
        srcs.push((Lang::Vy, format!("@external\ndef f():\n{}\n", v.iter().map(|l| format!("    {}", l)).collect::<Vec<_>>().join("\n"))));
    }
    let mut cases = vec![];
    for s in &srcs {
        for w in [30usize, 40, 60, 80, 100, 120, 149, 150, 151, 200, 1000] {
            for t in [1usize, 2, 4, 8] {
                cases.push((s.0, s.1.clone(), w, t));
            }
        }
    }
    ctx.count("programs printed at several widths", cases.len() as u64);
    ctx.run_limit(&cases, 300, |c| c.1.clone(), |(l, s, w, t)| {
        let key = format!("page width {} tab width {} {}", w, t, s);
        let ast = match crate::cli::ast_json(*l, s) {
            Ok(a) => a,
            Err(e) => panic!("{}: {}", s, e),
        };
        let out = match tool::print_at(*l, &ast, *t, *w) {
            Ok(o) => o,
            Err(e) => return Err(Viol { key, detail: e }),
        };
        // the tokens of the source, in order and whole
        let (a, b) = (crate::cli::tokens(*l, s), crate::cli::tokens(*l, &out));
        match (a, b) {
            (Ok(_), Err(e)) => Err(Viol { key, detail: format!("the printed program is not one: {}\n{}", e, out) }),
            (Ok(a), Ok(b)) => {
                let x = crate::cli::ast_json(*l, &out).map(|v| crate::model::canon(*l, &v));
                let y = crate::model::canon(*l, &ast);
                match x {
                    Err(e) => Err(Viol { key, detail: format!("the printed program is not one: {}\n{}", e, out) }),
                    Ok(x) if x != y => Err(Viol { key, detail: format!("the printed program differs ({} and {} tokens)\n{}", a.len(), b.len(), out) }),
                    _ => Ok(()),
                }
            }
            (Err(e), _) => panic!("{}: {}", s, e),
        }
    });
}
