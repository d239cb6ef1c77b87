mod bonds;
mod cals;
mod civil;
mod dates;
mod curve;
mod engine;
mod faults;
mod history;
mod interp;
mod markets;
mod rat;
mod rules;
#[cfg(feature = "threads")]
mod threads;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let usage = || -> ! {
        eprintln!("usage: mc ID quick|thorough [--replay FILE]");
        std::process::exit(2)
    };
    if args.first().map(String::as_str) == Some("--walk") {
        std::process::exit(history::walk(&args[1..]));
    }
    #[cfg(feature = "threads")]
    if args.first().map(String::as_str) == Some("--threads") {
        std::process::exit(threads::sub(&args[1..]));
    }
    if args.len() < 2 {
        usage();
    }
    let thorough = match args[1].as_str() {
        "quick" => false,
        "thorough" => true,
        _ => usage(),
    };
    let mut only = None;
    if args.get(2).map(String::as_str) == Some("--replay") {
        let t = std::fs::read_to_string(args.get(3).unwrap_or_else(|| usage())).expect("replay file");
        let field = |k: &str| t.lines().find_map(|l| l.trim().strip_prefix(&format!("\"{k}\": ")).map(|v| v.trim_end_matches(',').trim_matches('"').to_string()));
        only = Some((field("section").expect("section"), field("chunk").and_then(|c| c.parse().ok()).expect("chunk")));
    }
    let run = engine::Run::new(&args[0], thorough, only);
    match args[0].as_str() {
        "C01" => dates::c01(&run),
        "C02" => dates::c02(&run),
        "C03" => dates::c03(&run),
        "C04" => dates::c04(&run),
        "C05" => dates::c05(&run),
        "C06" => dates::c06(&run),
        "C07" => markets::c07(&run),
        "C08" => markets::c08(&run),
        "C09" => markets::region(&run, markets::EUROPE),
        "C10" => markets::region(&run, markets::AMERICAS),
        "C11" => markets::region(&run, markets::REST),
        "C12" => markets::c12(&run),
        "C13" => markets::c13(&run),
        "C14" => markets::c14(&run),
        "C15" => interp::c15(&run),
        "C16" => interp::c16(&run),
        "C17" => interp::c17(&run),
        "C18" => interp::c18(&run),
        "C19" => interp::c19(&run),
        "C20" => curve::c20(&run),
        "C21" => curve::c21(&run),
        "C22" => bonds::c22(&run),
        "C23" => bonds::c23(&run),
        "C24" => history::c24(&run),
        "C26" => faults::c26(&run),
        #[cfg(feature = "threads")]
        "C25" => threads::c25(&run),
        _ => usage(),
    }
    std::process::exit(run.finish());
}
