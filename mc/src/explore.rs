//! Exhaustive exploration of one program: every algorithm, every site number, every sequence of random
//! draws up to a bound, on the real library code.
use crate::model::{self, Site};
use crate::run::*;
use crate::tool::{self, Lang};
use crate::{sol, vy};
use mutagenyx_lib::permissions::*;
use mutagenyx_lib::{MutableLanguage, MutationType, SuperAST};
use rand_pcg::script;
use serde_json::Value;
use std::collections::{BTreeSet, HashMap};
use std::str::FromStr;

pub const HORIZON: usize = 3000;

/// what one run of mutate_ast yielded
#[derive(Clone, Debug)]
pub enum Outcome {
    /// printed text of the mutant with its comment
    Text(String),
    Error(String),
    /// panic, or draw horizon exceeded
    Crash(String),
}

pub fn permissions(functions: &[&str]) -> Permissions {
    // the same permissions as the command line tool makes from its --function options
    let mut p = Permissions::new();
    if functions.is_empty() {
        p.add_permission(PermissionAction::Mutate(PermissionScope::Any(Permission::Allow)));
    }
    for f in functions {
        p.add_permission(PermissionAction::Mutate(PermissionScope::Name(PermissionObject::Value(f.to_string(), Permission::Allow))));
        p.add_permission(PermissionAction::Mutate(PermissionScope::Children(PermissionObject::Value(f.to_string(), Permission::Allow))));
    }
    p.add_permission(PermissionAction::Visit(PermissionScope::Any(Permission::Allow)));
    p
}

pub struct Program {
    pub lang: Lang,
    pub src: String,
    pub ast: Value,
    pub sast: SuperAST,
}

pub fn parse(lang: Lang, text: &str) -> Result<Value, String> {
    match lang {
        Lang::Sol => sol::parse_mutant(text).map(|p| p.ast),
        Lang::Vy => vy::parse_mutant(text).map(|p| p.ast),
    }
}

impl Program {
    pub fn new(lang: Lang, src: &str) -> Option<Program> {
        let ast = match lang {
            Lang::Sol => sol::parse_opt(src, true).ok()?.ast,
            Lang::Vy => vy::parse(src).ok()?.ast,
        };
        if lang == Lang::Vy && model::nodes(lang, &ast["ast"]).iter().any(|(_, n)| n["ast_type"] == "Int" && n["value"].is_f64()) {
            // known finding of C02: integers beyond 64 bits are lost when the AST is read
            return None;
        }
        Some(Program { lang, src: src.to_string(), sast: tool::wrap(lang, ast.clone()), ast })
    }

    /// The same program in another form that a compiler may give it, see FORMS.
    pub fn form(mut self, form: u8) -> Option<Program> {
        let key = if self.lang == Lang::Sol { "id" } else { "node_id" };
        let mut ast = self.ast.clone();
        match form {
            0 => return Some(self),
            1..=6 => {
                let mut n = vec![];
                order(&ast, key, form != 2, &mut n);
                let total = n.len() as u64;
                let new: HashMap<u64, u64> = n
                    .iter()
                    .enumerate()
                    .map(|(i, old)| {
                        let i = i as u64;
                        (*old, match form {
                            1 => i,
                            2 => i + 1,
                            3 => total - i,
                            4 => 99_990 + i,
                            5 => 9_999_985 + i,
                            _ => (i + 1) << 32,
                        })
                    })
                    .collect();
                renumber(&mut ast, key, &new);
                self.sast = tool::wrap(self.lang, ast);
            }
            f => {
                if self.lang != Lang::Sol {
                    return None;
                }
                self.sast = tool::load(self.lang, &sol::dialect(&ast, f - 6)).ok()?;
            }
        }
        Some(self)
    }
}

pub const FORMS: &[&str] = &["", "nodes numbered from 0 down the tree", "nodes numbered from the leaves", "nodes numbered backwards", "node numbers from 99990", "node numbers from 9999985", "node numbers 2^32 apart", "explicit nulls", "no identifier paths"];

fn order(v: &Value, key: &str, down: bool, out: &mut Vec<u64>) {
    let mine = v.get(key).and_then(|x| x.as_u64());
    if down {
        out.extend(mine);
    }
    match v {
        Value::Array(a) => a.iter().for_each(|x| order(x, key, down, out)),
        Value::Object(o) => o.values().for_each(|x| order(x, key, down, out)),
        _ => {}
    }
    if !down {
        out.extend(mine);
    }
}

fn renumber(v: &mut Value, key: &str, new: &HashMap<u64, u64>) {
    match v {
        Value::Array(a) => a.iter_mut().for_each(|x| renumber(x, key, new)),
        Value::Object(o) => {
            for (k, x) in o.iter_mut() {
                match x.as_u64() {
                    Some(n) if k == key || k == "referencedDeclaration" || k == "scope" => *x = new.get(&n).copied().unwrap_or(n).into(),
                    _ => renumber(x, key, new),
                }
            }
        }
        _ => {}
    }
}

pub fn mtype(algo: &str) -> MutationType {
    MutationType::from_str(algo).expect("algorithm name")
}

pub struct Session<'a> {
    pub prog: &'a Program,
    pub perms: Permissions,
    lang: Box<dyn MutableLanguage>,
    paths: mutagenyx_lib_paths::Paths,
    pub runs: u64,
    pub counts: HashMap<String, usize>,
}

mod mutagenyx_lib_paths {
    pub type Paths = std::collections::HashMap<u64, Vec<u64>>;
}

impl<'a> Session<'a> {
    pub fn new(prog: &'a Program, functions: &[&str], algos: &[&str]) -> Result<Session<'a>, String> {
        let perms = permissions(functions);
        let types: Vec<MutationType> = algos.iter().map(|a| mtype(a)).collect();
        let r = guarded(|| {
            let mut lang = tool::iface(prog.lang);
            lang.select_mutators_for_mutation_types(&types).map_err(|e| format!("error: {}", e))?;
            script::install(vec![], 6, HORIZON);
            let mut rng = rand_pcg::Pcg64::new(1, 2);
            let c = lang.count_mutable_nodes(&prog.sast, &mut rng, &perms).map_err(|e| format!("error: {}", e));
            script::take();
            let c = c?;
            let paths = lang.calculate_node_paths(&prog.sast, &perms).map_err(|e| format!("error: {}", e))?;
            Ok::<_, String>((lang, c, paths))
        });
        script::take();
        let (lang, c, paths) = r??;
        let counts = c.into_iter().map(|(k, v)| (k.to_string(), v as usize)).collect();
        Ok(Session { prog, perms, lang, paths, runs: 0, counts })
    }

    pub fn count(&self, algo: &str) -> usize {
        self.counts.get(algo).copied().unwrap_or(0)
    }

    /// one run with scripted draws; returns the outcome and the number of draws consumed
    pub fn run(&mut self, algo: &str, index: usize, choices: &[u32], n: u32) -> (Outcome, usize) {
        self.runs += 1;
        let t = mtype(algo);
        let prog = self.prog;
        script::install(choices.to_vec(), n, HORIZON);
        let lang = &mut self.lang;
        let perms = &self.perms;
        let paths = &self.paths;
        let r = guarded(|| {
            let mut rng = rand_pcg::Pcg64::new(1, 2);
            lang.mutate_ast(&prog.sast, &t, index, &mut rng, perms, paths).map_err(|e| format!("{}", e))
        });
        let used = script::take().map(|s| s.log.len()).unwrap_or(0);
        let o = match r {
            Err(p) => Outcome::Crash(p),
            Ok(Err(e)) => Outcome::Error(e),
            Ok(Ok(m)) => match m.ast {
                None => Outcome::Error("no mutant".into()),
                Some(a) => match tool::print_ast(prog.lang, &a) {
                    Ok(t) => Outcome::Text(t),
                    Err(e) => Outcome::Crash(e),
                },
            },
        };
        (o, used)
    }

    /// all draw sequences: every choice of the first `depth` draws that are consumed
    pub fn explore(&mut self, algo: &str, index: usize, n: u32, depth: usize, f: &mut dyn FnMut(&[u32], &Outcome)) {
        let mut stack: Vec<Vec<u32>> = vec![vec![]];
        while let Some(c) = stack.pop() {
            let (o, used) = self.run(algo, index, &c, n);
            if used > c.len() && c.len() < depth {
                for k in (0..=n).rev() {
                    let mut d = c.clone();
                    d.push(k);
                    stack.push(d);
                }
            } else {
                f(&c, &o);
            }
        }
    }
}

/// (site, alternative) pairs a mutant text agrees with
pub struct Matcher<'a> {
    pub lang: Lang,
    pub sites: &'a [Site],
    cache: HashMap<String, Result<Vec<(usize, usize)>, String>>,
}
impl<'a> Matcher<'a> {
    pub fn new(lang: Lang, sites: &'a [Site]) -> Matcher<'a> {
        Matcher { lang, sites, cache: HashMap::new() }
    }
    pub fn of(&mut self, text: &str) -> Result<Vec<(usize, usize)>, String> {
        if let Some(r) = self.cache.get(text) {
            return r.clone();
        }
        let r = parse(self.lang, text).map(|a| {
            let c = model::canon(self.lang, &a);
            let mut v = vec![];
            for (i, s) in self.sites.iter().enumerate() {
                for (j, t) in s.alts.iter().enumerate() {
                    if model::matches(&t.tree, &c) {
                        v.push((i, j));
                    }
                }
            }
            v
        });
        self.cache.insert(text.to_string(), r.clone());
        r
    }
    pub fn texts(&self) -> usize {
        self.cache.len()
    }
}

/// perfect matching of left nodes into right nodes; cand[i] = allowed rights
pub fn matching(cand: &[BTreeSet<usize>], rights: usize) -> Option<Vec<usize>> {
    let mut owner: Vec<Option<usize>> = vec![None; rights];
    fn aug(i: usize, cand: &[BTreeSet<usize>], seen: &mut Vec<bool>, owner: &mut Vec<Option<usize>>) -> bool {
        for &r in &cand[i] {
            if seen[r] {
                continue;
            }
            seen[r] = true;
            if owner[r].is_none() || aug(owner[r].unwrap(), cand, seen, owner) {
                owner[r] = Some(i);
                return true;
            }
        }
        false
    }
    for i in 0..cand.len() {
        let mut seen = vec![false; rights];
        if !aug(i, cand, &mut seen, &mut owner) {
            return None;
        }
    }
    let mut m = vec![0; cand.len()];
    for (r, o) in owner.iter().enumerate() {
        if let Some(i) = o {
            m[*i] = r;
        }
    }
    Some(m)
}
