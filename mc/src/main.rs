mod c01;
mod c02;
mod c07;
mod c10;
mod cfgcheck;
mod cli;
mod clicheck;
mod explore;
mod gencheck;
mod gen_sol;
mod gen_vy;
mod incheck;
mod model;
mod mutcheck;
mod run;
mod sol;
mod tool;
mod vy;

fn main() {
    if let Some(rc) = cli::fake_compiler() {
        std::process::exit(rc);
    }
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 3 {
        eprintln!("usage: mc check|worker <property> [quick|thorough]");
        std::process::exit(2);
    }
    let thorough = a.get(3).map(|s| s == "thorough").unwrap_or_else(|| std::env::var("VERIF_TIER").map(|s| s == "thorough").unwrap_or(false));
    match a[1].as_str() {
        "check" => std::process::exit(run::supervise(&a[2], thorough)),
        "worker" => {
            run::install_panic_hook();
            let ctx = run::Ctx::new(&a[2], thorough, "model_checking");
            match a[2].as_str() {
                "C01" => c01::run(&ctx),
                "C02" => c02::run(&ctx),
                "C03" | "C04" | "C05" | "C07" | "C08" | "C09" => mutcheck::run(&ctx, &a[2]),
                "C10" => c10::run(&ctx),
                "C17" => incheck::c17(&ctx),
                "C18" => incheck::c18(&ctx),
                "C19" => incheck::c19(&ctx),
                "C20" => incheck::c20(&ctx),
                "C15" => cfgcheck::c15(&ctx),
                "C16" => cfgcheck::c16(&ctx),
                "C13" | "C14" => clicheck::run(&ctx, &a[2]),
                "C06" | "C11" | "C12" => gencheck::run(&ctx, &a[2]),
                _ => {
                    eprintln!("unknown property");
                    std::process::exit(2);
                }
            }
            std::process::exit(ctx.finish());
        }
        "bench" => {
            run::install_panic_hook();
            let t = std::fs::read_to_string(&a[2]).unwrap();
            let ctx = run::Ctx::new("C05", false, "model_checking");
            mutcheck::bench(&ctx, &t);
        }
        "muts" => {
            // every distinct mutant of a program, for a look
            run::install_panic_hook();
            let t = std::fs::read_to_string(&a[2]).unwrap();
            let l = if a[2].ends_with(".vy") { tool::Lang::Vy } else { tool::Lang::Sol };
            let p = explore::Program::new(l, &t).expect("program");
            let algos = model::algorithms(l);
            let mut s = explore::Session::new(&p, &[], &algos).unwrap();
            println!("{}", tool::print(l, &p.ast).unwrap());
            for x in algos {
                for i in 0..s.count(x) {
                    let mut seen = std::collections::HashSet::new();
                    s.explore(x, i, 2, 1, &mut |c, o| {
                        let d = format!("{:?}", o);
                        if seen.insert(d.clone()) {
                            match o {
                                explore::Outcome::Text(t) => println!("=== {} {} {:?}\n{}", x, i, c, t),
                                _ => println!("=== {} {} {:?} {}", x, i, c, d),
                            }
                        }
                    });
                }
            }
        }
        "vy" => {
            let t = std::fs::read_to_string(&a[2]).unwrap();
            match vy::parse(&t) {
                Ok(p) => {
                    println!("{}", serde_json::to_string_pretty(&p.ast).unwrap());
                    println!("{:?}", tool::print(tool::Lang::Vy, &p.ast).map(|s| println!("{}", s)));
                }
                Err(e) => println!("ERR {}", e),
            }
        }
        "sol" => {
            let t = std::fs::read_to_string(&a[2]).unwrap();
            match sol::parse(&t) {
                Ok(p) => {
                    println!("{}", serde_json::to_string_pretty(&p.ast).unwrap());
                    println!("{:?}", tool::print(tool::Lang::Sol, &p.ast).map(|s| println!("{}", s)));
                }
                Err(e) => println!("ERR {}", e),
            }
        }
        _ => std::process::exit(2),
    }
}
