#![allow(static_mut_refs, clippy::all, dead_code)]
#[macro_use]
extern crate la;

mod case;
mod cat;
mod ctx;
mod model;
mod props;
mod run;

use case::Case;
use simcore::alloc::SimAlloc;

#[global_allocator]
static ALLOC: SimAlloc = SimAlloc;

pub fn build() -> &'static str { if simcore::cov::on() { "ins" } else if cfg!(debug_assertions) { "dev" } else { "rel" } }

fn usage() -> ! {
    eprintln!("lasim worker PROP SEED FROM STEP TO DEADLINE_S TIER | gen PROP SEED INDEX TIER | run FILE | shrink FILE OUT SECONDS | replay FILE | list");
    std::process::exit(2)
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 2 { usage() }
    // a backtrace of every injected failure would cost far more than the runs themselves
    unsafe { libc::setenv(b"RUST_BACKTRACE\0".as_ptr() as *const _, b"0\0".as_ptr() as *const _, 1); }
    // fixed address layout, so that a run is a function of its seed alone
    unsafe {
        let cur = libc::personality(0xffff_ffff);
        if cur >= 0 && cur & libc::ADDR_NO_RANDOMIZE == 0 && std::env::var_os("LASIM_REEXEC").is_none() {
            if libc::personality((cur | libc::ADDR_NO_RANDOMIZE) as libc::c_ulong) >= 0 {
                use std::os::unix::process::CommandExt;
                let _ = std::process::Command::new("/proc/self/exe").args(&args[1..]).env("LASIM_REEXEC", "1").exec();
            }
        }
    }
    match args[1].as_str() {
        "list" => for p in props::ALL { println!("{}", p.0) },
        "worker" if args.len() >= 9 => run::worker(&args[2], args[3].parse().unwrap(), args[4].parse().unwrap(), args[5].parse().unwrap(), args[6].parse().unwrap(), args[7].parse().unwrap(), &args[8]),
        "gen" if args.len() >= 6 => print!("{}", run::gen(&args[2], args[3].parse().unwrap(), args[4].parse().unwrap(), &args[5]).text()),
        "run" if args.len() >= 3 => {
            let c = load(&args[2]);
            let o = run::exec(&c, false);
            println!("{:?} steps={} loghash={:016x}", o.class, o.steps, o.loghash);
            println!("{}", o.detail);
        }
        "shrink" if args.len() >= 5 => std::process::exit(run::shrink_file(&args[2], &args[3], args[4].parse().unwrap())),
        "replay" if args.len() >= 3 => {
            let c = load(&args[2]);
            let o = run::exec(&c, true);
            match &o.class {
                Some(cl) => { println!("reproduced class={} {}", cl, o.detail.replace('\n', " | ")); std::process::exit(if run::same_class(cl, &c.class) { 1 } else { 3 }) }
                None => { println!("not reproduced"); std::process::exit(0) }
            }
        }
        _ => usage(),
    }
}

fn load(p: &str) -> Case {
    let s = std::fs::read_to_string(p).unwrap_or_else(|e| { eprintln!("{}: {}", p, e); std::process::exit(2) });
    Case::parse(&s).unwrap_or_else(|| { eprintln!("{}: not a case file", p); std::process::exit(2) })
}
