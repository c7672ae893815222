//! C07: the comment of a mutant.  What the printed mutant has in comments beyond the original's print is one
//! run of comments; a marker statement put in its place shows where it stands.
use crate::model::{Alt, Quote, Site};
use crate::tool::{self, Lang};
use crate::{explore, model, sol, vy};
use serde_json::Value;

/// texts of the comments of the original program's print
pub fn comments(l: Lang, text: &str) -> Result<Vec<String>, String> {
    match l {
        Lang::Sol => sol::lex(text).map(|(_, c)| c.into_iter().map(|x| x.text).collect()),
        Lang::Vy => vy::lex(text).map(|(_, c)| c.into_iter().map(|x| x.text).collect()),
    }
}

pub struct Run {
    /// what the comment says: the lines without the comment signs
    pub text: String,
    /// the mutant with a marker statement in place of the comment, in several spellings
    marked: Vec<String>,
}

const MARK: &str = "mcMark";

fn extra<T>(mine: &[T], text: impl Fn(&T) -> &str, orig: &[String]) -> (usize, usize, usize) {
    let mut a = 0;
    while a < mine.len() && a < orig.len() && text(&mine[a]) == orig[a] {
        a += 1;
    }
    let mut b = 0;
    while b < mine.len() - a && b < orig.len() - a && text(&mine[mine.len() - 1 - b]) == orig[orig.len() - 1 - b] {
        b += 1;
    }
    (a, mine.len() - b, orig.len() - a - b)
}

/// the comments that the mutant has beyond the original
pub fn find(l: Lang, mutant: &str, orig: &[String], algo: &str) -> Result<Run, String> {
    let may_lose = matches!(algo, "DeleteStatement" | "FunctionCall" | "SwapLines" | "UncheckedBlock");
    match l {
        Lang::Sol => {
            let (_, c) = sol::lex(mutant)?;
            let (a, b, lost) = extra(&c, |x| &x.text, orig);
            let run = &c[a..b];
            if lost > 0 && !may_lose {
                return Err("a comment of the program is lost".into());
            }
            if run.is_empty() {
                return Err("there is no comment about the change".into());
            }
            if run.iter().any(|x| x.tok != run[0].tok) {
                return Err("there is more than one comment about the change".into());
            }
            let text = run.iter().map(|x| x.text.trim_start_matches("//").trim().to_string()).collect::<Vec<_>>().join(" ");
            let (s, e) = (run[0].pos, run[run.len() - 1].end);
            let marked = [format!("uint256 {};", MARK), format!("uint256 constant {} = 0;", MARK)].iter().map(|m| format!("{}{}{}", &mutant[..s], m, &mutant[e..])).collect();
            Ok(Run { text, marked })
        }
        Lang::Vy => {
            let (t, c) = vy::lex(mutant)?;
            let (a, b, lost) = extra(&c, |x| &x.text, orig);
            let run = &c[a..b];
            if lost > 0 && !may_lose {
                return Err("a comment of the program is lost".into());
            }
            if run.is_empty() {
                return Err("there is no comment about the change".into());
            }
            let (f, e) = (run[0].line, run[run.len() - 1].line);
            let code = |x: &vy::Tok| !matches!(x.t, vy::T::NL | vy::T::Indent | vy::T::Dedent | vy::T::Eof);
            if t.iter().any(|x| code(x) && x.line >= f && x.line <= e) {
                return Err("there is more than one comment about the change, or code on the comment's line".into());
            }
            let text = run.iter().map(|x| x.text.trim_start_matches('#').trim().to_string()).collect::<Vec<_>>().join(" ");
            let ind = run[0].indent;
            let ls: Vec<&str> = mutant.split('\n').collect();
            let marked = [format!("{}: uint256", MARK), format!("{} = 0", MARK)]
                .iter()
                .map(|m| {
                    let mut v: Vec<String> = ls[..f - 1].iter().map(|x| x.to_string()).collect();
                    v.push(format!("{}{}", " ".repeat(ind), m));
                    v.extend(ls[e..].iter().map(|x| x.to_string()));
                    v.join("\n")
                })
                .collect();
            Ok(Run { text, marked })
        }
    }
}

fn marker(l: Lang, ast: &Value) -> Option<String> {
    let mut v: Vec<String> = model::nodes(l, ast)
        .into_iter()
        .filter(|(_, n)| {
            let name = match l {
                Lang::Sol => n["name"] == MARK || n["declarations"][0]["name"] == MARK,
                Lang::Vy => n["target"]["id"] == MARK || n["targets"][0]["id"] == MARK,
            };
            name && n["nodeType"] != "Identifier"
        })
        .map(|(p, _)| p)
        .collect();
    v.sort_by_key(|p| p.len());
    v.first().cloned()
}

/// Where the comment stands: the list and the index in it that the marker took.
pub fn place(l: Lang, r: &Run, mutant: &Value) -> Result<(String, usize), String> {
    let want = model::canon(l, mutant);
    let mut why = String::new();
    for m in &r.marked {
        let mut a = match explore::parse(l, m) {
            Ok(a) => a,
            Err(e) => {
                why = e;
                continue;
            }
        };
        let p = match marker(l, &a) {
            Some(p) => p,
            None => continue,
        };
        let (list, i) = match p.rsplit_once('/').and_then(|(b, i)| i.parse::<usize>().ok().map(|i| (b.to_string(), i))) {
            Some(x) => x,
            None => return Err("the comment does not stand in a list of statements or declarations".into()),
        };
        a.pointer_mut(&list).and_then(|x| x.as_array_mut()).map(|x| x.remove(i));
        if model::canon(l, &a) != want {
            return Err("the comment stands where no statement or declaration can stand without changing the program".into());
        }
        return Ok((list, i));
    }
    Err(format!("the comment does not stand where a statement or declaration can stand ({})", why))
}

/// the places where the comment about a change at `ptr` of the original may stand
fn expected(l: Lang, ast: &Value, ptr: &str, block_site: bool) -> Vec<(String, usize)> {
    let segs: Vec<&str> = ptr.split('/').skip(1).collect();
    let mut out = vec![];
    if block_site {
        // the top of the block
        out.push((format!("{}/{}", ptr, if l == Lang::Sol { "statements" } else { "body" }), 0));
    }
    let wrapped = |i: usize, out: &mut Vec<(String, usize)>| -> bool {
        let parent = format!("/{}", segs[..i].join("/"));
        let parent = if i == 0 { String::new() } else { parent };
        let me = format!("{}/{}", parent, segs[i]);
        let p = ast.pointer(&parent).unwrap();
        match l {
            Lang::Sol => {
                let pk = p["nodeType"].as_str().unwrap_or("");
                if matches!((pk, segs[i]), ("IfStatement", "trueBody" | "falseBody") | ("WhileStatement" | "DoWhileStatement" | "ForStatement", "body")) && ast.pointer(&me).unwrap()["nodeType"] != "Block" {
                    out.push((format!("{}/statements", me), 0));
                    return true;
                }
                if i > 0 && matches!(segs[i - 1], "statements" | "nodes") && p.is_array() {
                    if let Ok(k) = segs[i].parse() {
                        out.push((parent, k));
                        return true;
                    }
                }
                false
            }
            Lang::Vy => {
                if i > 0 && matches!(segs[i - 1], "body" | "orelse") && p.is_array() {
                    let owner = format!("/{}", segs[..i - 1].join("/"));
                    let t = ast.pointer(&owner).map_or("", |o| o["ast_type"].as_str().unwrap_or(""));
                    if let Ok(k) = segs[i].parse() {
                        out.push((parent, k));
                        // a declaration inside of a structure, event or interface: before it or before the whole
                        return matches!(t, "Module" | "FunctionDef" | "If" | "For");
                    }
                }
                false
            }
        }
    };
    for i in (0..segs.len()).rev() {
        if wrapped(i, &mut out) {
            break;
        }
    }
    out
}

/// the node of the mutant at a place of the original (single statements may have become blocks)
fn resolve<'a>(orig: &Value, mutant: &'a Value, ptr: &str) -> Option<&'a Value> {
    let (mut o, mut m) = (orig, mutant);
    for s in ptr.split('/').skip(1) {
        if o["nodeType"] != "Block" && m["nodeType"] == "Block" {
            m = m["statements"].as_array()?.first()?;
        }
        if let Ok(i) = s.parse::<usize>() {
            o = o.get(i)?;
            m = m.get(i)?;
        } else {
            o = o.get(s)?;
            m = m.get(s)?;
        }
    }
    Some(m)
}

fn squeeze(t: &str) -> String {
    t.chars().filter(|c| !c.is_whitespace()).collect()
}

fn text_of(l: Lang, n: &Value) -> Option<String> {
    tool::print(l, n).ok().map(|t| squeeze(&t))
}

/// does the comment quote what changed?
fn truthful(l: Lang, algo: &str, said: &str, orig: &Value, mutant: &Value, s: &Site, a: &Alt) -> Result<(), String> {
    let said = squeeze(said);
    let mut qs: Vec<String> = vec![];
    for q in &a.quotes {
        qs.push(match q {
            Quote::Text(t) => squeeze(t),
            Quote::Node(n) => match text_of(l, n) {
                Some(t) => t,
                None => return Ok(()),
            },
            Quote::Any => {
                let at = if algo == "Assignment" { format!("{}/{}", s.ptr, if l == Lang::Sol { "rightHandSide" } else { "value" }) } else { s.ptr.clone() };
                match resolve(orig, mutant, &at).and_then(|n| if n["subdenomination"].is_string() { n["value"].as_str().map(squeeze) } else { text_of(l, n) }) {
                    Some(t) => t,
                    None => return Ok(()),
                }
            }
        });
    }
    let seq = |qs: &[&String]| -> bool {
        let mut i = 0;
        for q in qs {
            match said[i..].find(q.as_str()) {
                Some(k) => i += k + q.len(),
                None => return false,
            }
        }
        true
    };
    let f: Vec<&String> = qs.iter().collect();
    if seq(&f) {
        return Ok(());
    }
    if algo.starts_with("Swap") && seq(&f.iter().rev().copied().collect::<Vec<_>>()) {
        return Ok(());
    }
    Err(format!("the comment does not quote {:?}", qs))
}

pub fn judge(l: Lang, orig: &Value, orig_comments: &[String], text: &str, algo: &str, sites: &[Site], pairs: &[(usize, usize)]) -> Result<(), String> {
    let r = find(l, text, orig_comments, algo)?;
    if !r.text.starts_with(&format!("{} Mutator:", algo)) {
        return Err(format!("the comment does not name the algorithm {}: {}", algo, r.text));
    }
    if r.text.matches(" Mutator: ").count() != 1 {
        return Err("there is more than one comment about the change".into());
    }
    let mutant = explore::parse(l, text)?;
    let (list, i) = place(l, &r, &mutant)?;
    let mut why = vec![];
    for (si, ai) in pairs {
        let s = &sites[*si];
        let block = matches!(algo, "SwapLines");
        let exp = expected(l, orig, &s.anchors[*ai], block);
        if !exp.contains(&(list.clone(), i)) {
            why.push(format!("it stands at {}/{}, not before the change ({:?})", list, i, exp));
            continue;
        }
        match truthful(l, algo, &r.text, orig, &mutant, s, &s.alts[*ai]) {
            Ok(()) => return Ok(()),
            Err(e) => why.push(e),
        }
    }
    Err(format!("{}\ncomment: {}", why.join("; "), r.text))
}

/// A mutant that is no documented change: is it because part of the comment is read as code?
pub fn leaks(text: &str, algo: &str, m: &mut explore::Matcher) -> bool {
    let lines: Vec<&str> = text.split('\n').collect();
    let tag = format!("{} Mutator:", algo);
    let i = match lines.iter().position(|x| x.contains(&tag)) {
        Some(i) => i,
        None => return false,
    };
    for k in 1..=20 {
        for from in [i, i + 1] {
            if from + k > lines.len() {
                continue;
            }
            let mut v = lines.clone();
            v.drain(from..from + k);
            if matches!(m.of(&v.join("\n")), Ok(p) if !p.is_empty()) {
                return true;
            }
        }
    }
    false
}
