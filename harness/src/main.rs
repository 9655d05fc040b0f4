mod engine;
mod gen;
mod poly;
mod props;
mod run;
mod term;

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let s: Vec<&str> = a.iter().map(|x| x.as_str()).collect();
    let code = match s.as_slice() {
        ["check", id] => run::check(id),
        ["worker", id, out] => run::worker(id, out),
        ["single", id, sub, what, n] => run::single(id, sub, what, n.parse().unwrap_or(1)),
        ["shrink", id, sub, choices, out] => run::shrink_mode(id, sub, choices, out),
        ["replay", f] => run::replay(f),
        ["list"] => {
            for p in props::all() {
                for s in &p.subs {
                    println!("{} {} {} {}", p.id, s.name, s.quick, s.thorough);
                }
            }
            0
        }
        _ => {
            eprintln!("usage: ncasv check ID | replay FILE | single ID CHECK #INDEX|CHOICES TRIES | list");
            2
        }
    };
    std::process::exit(code);
}
