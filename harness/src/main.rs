mod ast;
mod checks_code;
mod checks_limits;
mod checks_meta;
mod checks_render;
mod checks_sem;
mod checks_static;
mod checks_syn;
mod genscale;
mod gensem;
mod gensyn;
mod gentmpl;
mod genwild;
mod interp;
mod perturb;
mod statics;
mod lex;
mod refparse;
mod respell;
mod rt;
mod runner;
mod tape;
mod tree;
mod util;
mod verify;
mod vm;

#[global_allocator]
static METER: runner::Meter = runner::Meter;

fn checks() -> Vec<runner::Check> {
    vec![
        checks_syn::c01(),
        checks_static::c02(),
        checks_syn::c03(),
        checks_syn::c04(),
        checks_syn::c05(),
        checks_meta::c06(),
        checks_meta::c07(),
        checks_syn::c08(),
        checks_static::c09(),
        checks_syn::c10(),
        checks_syn::c11(),
        checks_render::c12(),
        checks_code::c13(),
        checks_code::c14(),
        checks_sem::c15(),
        checks_sem::c16(),
        checks_sem::c17(),
        checks_sem::c18(),
        checks_sem::c19(),
        checks_sem::c20(),
        checks_static::c21(),
        checks_limits::c22(),
        checks_sem::c23(),
        checks_meta::c24(),
        checks_meta::c25(),
        checks_meta::c26(),
        checks_sem::c27(),
        checks_sem::c28(),
    ]
}

fn main() {
    std::env::set_var("NO_COLOR", "1");
    runner::install_panic_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let code = match args.first().map(|s| s.as_str()) {
        Some("check") => runner::check(checks(), &args[1], args.get(2).map(|s| s.as_str()).unwrap_or("quick")),
        Some("worker") => runner::worker(checks(), &args[1..]),
        Some("probe") => runner::probe(checks(), &args[1..]),
        Some("replay") => runner::replay(checks(), &args[1]),
        Some("deep") => checks_syn::deep(&args[1]),
        Some("list") => {
            for c in checks() {
                println!("{}", c.id);
            }
            0
        }
        _ => {
            eprintln!("usage: vh check ID quick|thorough | replay FILE | list");
            2
        }
    };
    std::process::exit(code);
}
