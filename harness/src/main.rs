#![allow(dead_code)]
mod engine;
mod gen;
mod guided;
mod lex;
mod src;
mod stretch;
mod tree;
mod props;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    #[cfg(feature = "aux")]
    if args.first().map(|it| it.as_str()) == Some("--emit") {
        props::aux::emit(args.get(1).map_or("", |it| it.as_str()));
    }
    #[cfg(feature = "aux")]
    if args.first().map(|it| it.as_str()) == Some("--contexts") {
        props::aux::contexts(&args[1..]);
    }
    #[cfg(feature = "project")]
    if args.first().map(|it| it.as_str()) == Some("--rooted") {
        props::project::rooted(&args[1..]);
    }
    let prop = args.first().and_then(|id| props::ALL.iter().find(|it| it.id == id));
    match prop {
        Some(prop) => std::process::exit(engine::main(prop, &args[1..])),
        None => {
            eprintln!("usage: pbt ID [--replay FILE]");
            std::process::exit(2);
        }
    }
}
