//! Runtime monitors for concordance. See DESIGN.md.

mod ctx;
mod lang;
mod mem;
mod props;
mod rng;
mod sup;
mod sym;
mod util;

#[global_allocator]
static ALLOCATOR: mem::Counting = mem::Counting;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("worker") => sup::worker(&args[2..]),
        Some("one") => sup::one(&args[2..]),
        Some("tiny") => sup::tiny(&args[2..]),
        Some("stress") => props::stress::all(args[2].parse().unwrap(), args[3].parse().unwrap()),
        Some("crowd") => sup::crowd(&args[2..]),
        Some("digest") => sup::digest(&args[2..]),
        Some(id) => sup::supervise(id),
        None => {
            eprintln!("usage: monitor <property> | one <property> <seed> <tier> <case>");
            2
        }
    };
    std::process::exit(code);
}
