//! simcheck: deterministic simulation with fault injection of netcdf3.
#![allow(dead_code)]
mod alloc; mod coro; mod cov; mod exec; mod gen; mod interpose; mod judge; mod model; mod plan; mod props; mod rng; mod runner; mod shrink; mod world;

#[global_allocator]
static A: alloc::Meter = alloc::Meter;

fn main() {
    exec::install_panic_hook();
    let a: Vec<String> = std::env::args().skip(1).collect();
    let s = |i: usize| a.get(i).cloned().unwrap_or_default();
    let n = |i: usize| s(i).parse::<u64>().unwrap_or(0);
    let code = match s(0).as_str() {
        "check" => runner::check(&s(1)),
        "worker" => runner::worker(&s(1), n(2), n(3), n(4), n(5), n(6), &s(7)),
        "replay" => runner::replay(&s(1), true),
        "eval" => runner::eval(&s(1), &s(2)),
        "shrink" => runner::shrink_cmd(&s(1), &s(2), &s(3), n(4)),
        "record" => runner::record(&s(1), n(2), n(3), n(4), n(5), n(6), &s(7)),
        "log" => runner::log(&s(1), &s(2)),
        "one" => runner::one(&s(1), n(2), n(3), &s(4)),
        "show" => runner::show(&s(1), n(2), n(3)),
        "scan" => runner::scan(&s(1), n(2), n(3)),
        "selftest" => runner::selftest(n(1)),
        _ => { eprintln!("usage: simcheck check ID | replay FILE | show ID SEED RUN | scan ID SEED N | selftest N"); 2 }
    };
    std::process::exit(code);
}
