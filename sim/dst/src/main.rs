//! Deterministic-simulation checker for pt.
//!   dst check <ID> <tier> <seed>      decide one property
//!   dst replay <file>                 re-execute a recorded violation
//!   dst selftest <seed> <n>           same seeds, different process layouts, same executions
//!   dst apis                          std inside the simulation against std outside it
//!   dst one <ID> <seed> <index>       one run, verbose
//!   dst worker ...                    internal
mod case;
mod check;
mod minimise;
mod model;
mod props;
mod run;

#[global_allocator]
static A: simrt::Alloc = simrt::Alloc;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let s = |k: usize| a.get(k).map(|x| x.as_str()).unwrap_or("");
    let n = |k: usize| s(k).parse::<u64>().unwrap_or(0);
    let code = match s(1) {
        "check" => check::check(s(2), s(3), n(4)),
        "worker" => check::worker(s(2), n(3), n(4), n(5), n(6), n(7), n(8)),
        "minimise" => check::minimise_one(s(2), n(3), n(4), n(5) == 1),
        "replay" => minimise::replay(s(2)),
        "selftest" => check::selftest(n(2), n(3)),
        "apis" => run::apis(),
        "one" => {
            let mut c = props::gen(s(2), n(3), n(4));
            if s(5) == "devs" { c.want_devs = true; }
            let t0 = std::time::Instant::now();
            let o = run::run(&c);
            println!("{}", c.to_text());
            println!("{:#?}", o);
            println!("{:?}", t0.elapsed());
            0
        }
        _ => { eprintln!("usage: dst check|replay|selftest|one"); 2 }
    };
    std::process::exit(code);
}
