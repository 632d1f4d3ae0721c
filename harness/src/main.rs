mod checks;
mod core;
mod ops;
mod refnorm;
mod refseg;
mod surround;
mod ucd;
mod variants;

use std::path::PathBuf;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    let reg = checks::registry();
    let find = |id: &str| reg.iter().find(|c| c.id() == id);
    let code = match arg(1) {
        "run" => match find(arg(2)) {
            Some(c) => core::run_main(c.as_ref(), core::Tier::parse(arg(3)), &PathBuf::from(arg(4))),
            None => 2,
        },
        "child" => match find(arg(2)) {
            Some(c) => {
                let known = core::read_known(&PathBuf::from(arg(5)), arg(2));
                core::child(c.as_ref(), core::Tier::parse(arg(3)), &PathBuf::from(arg(4)), known);
                0
            }
            None => 2,
        },
        "eval" => match find(arg(2)) {
            Some(c) => core::eval_main(c.as_ref(), arg(3)),
            None => 2,
        },
        "list" => {
            for c in reg.iter() {
                println!("{}", c.id());
            }
            0
        }
        "dump" => checks::dump::main(&a[2..]),
        "ref" => checks::refdump::main(&a[2..]),
        _ => {
            eprintln!("usage: mc run ID quick|thorough VERIF_DIR | mc eval ID CASE | mc list");
            2
        }
    };
    std::process::exit(code);
}
