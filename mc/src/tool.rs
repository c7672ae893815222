//! Access to the code under test through its public library interface.
use crate::run::guarded;
use mutagenyx_lib::{Language, LanguageInterface, MutableLanguage, PrettyPrinter, SuperAST};
use serde_json::Value;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Lang {
    Sol,
    Vy,
}

pub fn iface(l: Lang) -> Box<dyn MutableLanguage> {
    let lang = match l {
        Lang::Sol => Language::Solidity,
        Lang::Vy => Language::Vyper,
    };
    LanguageInterface::get_language_object_for_language(&lang).expect("language object")
}

pub fn wrap(l: Lang, v: Value) -> SuperAST {
    match l {
        Lang::Sol => SuperAST::Solidity(v),
        Lang::Vy => SuperAST::Vyper(v),
    }
}

/// The pretty-printed text of an AST, with the settings the command line tool uses.
pub fn print(l: Lang, v: &Value) -> Result<String, String> {
    let ast = wrap(l, v.clone());
    print_ast(l, &ast)
}

/// The AST as the tool loads it from a file.
pub fn load(l: Lang, v: &Value) -> Result<SuperAST, String> {
    let d = crate::cli::Dir::new();
    let f = d.put("p.ast", &v.to_string());
    guarded(|| iface(l).load_ast_from_file(&f, &mutagenyx_lib::recognizer::FileType::AST, &mutagenyx_lib::preferences::Preferences::new()).map_err(|e| format!("error: {}", e)))?
}

pub fn print_ast(l: Lang, ast: &SuperAST) -> Result<String, String> {
    print_ast_at(l, ast, 4, 150)
}

pub fn print_at(l: Lang, v: &Value, tab: usize, width: usize) -> Result<String, String> {
    print_ast_at(l, &wrap(l, v.clone()), tab, width)
}

fn print_ast_at(l: Lang, ast: &SuperAST, tab: usize, width: usize) -> Result<String, String> {
    let r = guarded(|| {
        let mut out: Vec<u8> = vec![];
        let mut pp = PrettyPrinter::new(tab, width);
        iface(l).pretty_print_ast_to_stream(ast, &mut out, &mut pp).map(|_| out).map_err(|e| format!("error: {}", e))
    })??;
    String::from_utf8(r).map_err(|_| "output is not UTF-8".to_string())
}
