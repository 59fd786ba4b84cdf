//! The simulated world around tagged-box.
#![recursion_limit = "1024"]
mod apart;
mod gen;
mod im;
mod obj;
mod pay;
mod subj;
mod world;

use simrt::state::*;
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use world::*;

#[global_allocator]
static ALLOC: simrt::heap::SimAlloc = simrt::heap::SimAlloc;

/// What the watchdog needs to name the run that does not end.
static NOW: Racy<(u64, bool)> = Racy::new((0, false));

fn hang() {
    let v = G.get().violation.clone().unwrap();
    println!("VIOLATION {} {} {}", NOW.get().0, v.class, v.detail);
    let _ = std::io::stdout().flush();
}

fn usage() -> ! {
    eprintln!("usage: tbworld run PROP FIRST COUNT STRIDE [known,..] [cap=N] [place=N] [hashes] [fork] [stop=K] [until=SECONDS] [seen=FILE] | plan PROP SEED [cap=N] | replay FILE [known,..] [strict] [trace] | info");
    std::process::exit(2)
}

fn arg_cap(args: &[String]) -> Option<u64> {
    args.iter().find_map(|a| a.strip_prefix("cap=").map(|x| x.parse().unwrap()))
}
fn arg_known(args: &[String]) -> Vec<String> {
    args.iter()
        .find_map(|a| a.strip_prefix("known=").map(|x| x.split(',').map(|s| s.to_string()).collect()))
        .unwrap_or_default()
}

fn run_many(a: &[String]) {
    let prop = a[0].clone();
    let n = |i: usize| a[i].parse::<u64>().unwrap_or_else(|_| usage());
    let (first, count, stride) = (n(1), n(2), n(3));
    let (known, cap) = (arg_known(a), arg_cap(a));
    let hashes = a.iter().any(|x| x == "hashes");
    let stop_after = a.iter().find_map(|x| x.strip_prefix("stop=").map(|x| x.parse::<u64>().unwrap())).unwrap_or(u64::MAX);
    // Another placement of the same plan: what a program can observe must not depend on it.
    let place = a.iter().find_map(|x| x.strip_prefix("place=").map(|x| x.parse::<u64>().unwrap()));
    let until = a.iter().find_map(|x| x.strip_prefix("until=").map(|x| x.parse::<u64>().unwrap()));
    let begun = std::time::Instant::now();
    let strict = prop == "C08";
    // Every run in a process of its own: nothing any run leaves in a static is there for the next.
    let forks = a.iter().any(|x| x == "fork");
    let mut seen: HashSet<u64> = HashSet::new();
    let mut orders: HashSet<u64> = HashSet::new();
    let mut kn: BTreeMap<&'static str, u64> = BTreeMap::new();
    let (mut runs, mut steps, mut done, mut skipped, mut allocs, mut frees, mut reuses, mut switches, mut multi, mut empty) =
        (0u64, 0u64, 0u64, 0u64, 0u64, 0u64, 0u64, 0u64, 0u64, 0u64);
    let mut bad = 0;
    let mut stdout = std::io::BufWriter::new(std::io::stdout());
    for i in 0..count {
        if i & 63 == 0 && until.map_or(false, |u| begun.elapsed().as_secs() >= u) {
            let _ = writeln!(stdout, "CUT {}", i);
            break;
        }
        let seed = first + i * stride;
        // On a crash the orchestrator needs to know where we were.
        NOW.get().0 = seed;
        mark(seed);
        let mut p = gen::plan(&prop, seed, cap);
        if let Some(n) = place {
            gen::place(&mut p, n);
        }
        let r = if forks {
            match apart::run(&p, &known, strict) {
                Ok(r) => r,
                Err(status) => {
                    let _ = writeln!(stdout, "VIOLATION {} {} the process ended inside the run", seed, status);
                    let _ = stdout.flush();
                    bad += 1;
                    if bad >= stop_after {
                        break;
                    }
                    continue;
                }
            }
        } else {
            run(&p, &known, strict, false)
        };
        runs += 1;
        steps += r.steps;
        done += r.done;
        skipped += r.skipped;
        allocs += r.allocs;
        frees += r.frees;
        reuses += r.reuses;
        if p.threads > 1 {
            multi += 1;
            switches += r.switches;
            orders.insert(r.order);
        }
        if r.done == 0 {
            empty += 1;
        } else {
            seen.insert(r.hash);
        }
        for (k, v) in &r.known {
            *kn.entry(k).or_insert(0) += v;
        }
        if hashes {
            let h = r.logs.iter().fold(0u64, |h, x| simrt::rng::mix(h ^ x));
            let _ = writeln!(stdout, "H {} {:016x}", seed, h);
        }
        if let Some(v) = r.violation {
            for v in Some(v).iter().chain(&r.also) {
                let _ = writeln!(stdout, "VIOLATION {} {} {}", seed, v.class, v.detail.replace('\n', " "));
            }
            let _ = stdout.flush();
            bad += 1;
            if bad >= stop_after {
                break;
            }
        }
    }
    let c = &G.get().counters;
    let _ = writeln!(stdout, "STAT runs {}", runs);
    for (k, v) in [
        ("steps", steps), ("calls", done), ("skipped", skipped), ("allocs", allocs), ("frees", frees), ("reuses", reuses),
        ("switches", switches), ("multi", multi), ("empty", empty), ("distinct", seen.len() as u64),
        ("schedules", orders.len() as u64), ("edges", simrt::cov::hit()), ("edges_total", simrt::cov::total() as u64),
        ("own_max", simrt::sched::S.get().own_max),
        ("violations", bad),
    ] {
        let _ = writeln!(stdout, "STAT {} {}", k, v);
    }
    for (i, n) in KNAMES.iter().enumerate() {
        if c[i] > 0 {
            let _ = writeln!(stdout, "OP {} {}", n, c[i]);
        }
    }
    for (i, n) in simrt::hook::FAULT_NAMES.iter().enumerate() {
        if i > 0 && c[N_COUNTERS - 16 + i] > 0 {
            let _ = writeln!(stdout, "FAULT {} {}", n, c[N_COUNTERS - 16 + i]);
        }
    }
    for (k, v) in kn {
        let _ = writeln!(stdout, "KNOWN {} {}", k, v);
    }
    if let Some(f) = a.iter().find_map(|x| x.strip_prefix("seen=")) {
        let mut b = Vec::with_capacity(seen.len() * 8);
        for h in seen {
            b.extend_from_slice(&h.to_le_bytes());
        }
        let _ = std::fs::write(f, b);
    }
    let _ = writeln!(stdout, "END");
    let _ = stdout.flush();
}

/// Leaves the current seed where it survives a crash: in the file given by TBWORLD_MARK.
fn mark(seed: u64) {
    static AREA: Racy<*mut u64> = Racy::new(std::ptr::null_mut());
    let p = AREA.get();
    if p.is_null() {
        extern "C" {
            fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
        }
        use std::os::unix::io::AsRawFd;
        let file = std::env::var("TBWORLD_MARK").ok().and_then(|f| {
            let f = std::fs::OpenOptions::new().read(true).write(true).create(true).open(f).ok()?;
            f.set_len(8).ok()?;
            Some(f)
        });
        *p = match file {
            Some(f) => unsafe { mmap(std::ptr::null_mut(), 8, 3, 1, f.as_raw_fd(), 0) as *mut u64 },
            None => Box::into_raw(Box::new(0)),
        };
    }
    unsafe { **p = seed };
}

fn replay(a: &[String]) {
    let text = std::fs::read_to_string(&a[0]).unwrap_or_else(|e| {
        eprintln!("{}: {}", a[0], e);
        std::process::exit(2)
    });
    let p = Plan::parse(&text).unwrap_or_else(|e| {
        eprintln!("{}", e);
        std::process::exit(2)
    });
    let strict = a.iter().any(|x| x == "strict");
    let trace = a.iter().any(|x| x == "trace");
    let r = run(&p, &arg_known(a), strict, trace);
    for l in &r.text {
        println!("LOG {}", l);
    }
    if trace {
        for (s, t) in &r.trace {
            println!("SWITCH {} {}", s, t);
        }
    }
    println!("HASH {:016x}", r.hash);
    println!("LOGS {:016x}", r.logs.iter().fold(0u64, |h, x| simrt::rng::mix(h ^ x)));
    if let Some(v) = r.violation {
        for v in Some(&v).into_iter().chain(&r.also) {
            println!("VIOLATION 0 {} {}", v.class, v.detail.replace('\n', " "));
        }
        println!("AT thread {} op {}", v.tid, v.op);
    }
    println!("END");
}

fn main() {
    // Unoptimised builds of the crate's macro keep a copy of the largest variant for nearly every arm.
    let r = std::thread::Builder::new().stack_size(512 << 20).spawn(start).unwrap().join();
    std::process::exit(if r.is_ok() { 0 } else { 101 })
}

fn start() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    if args.is_empty() {
        usage();
    }
    std::panic::set_hook(Box::new(|_| {}));
    if !simrt::heap::init() {
        eprintln!("the simulated heap cannot be mapped here");
        std::process::exit(3);
    }
    let _ = std::panic::catch_unwind(|| panic!("warm {}", 0));
    *simrt::sched::HANG.get() = hang;
    match args[0].as_str() {
        "run" if args.len() >= 5 => run_many(&args[1..]),
        "plan" if args.len() >= 3 => {
            let mut p = gen::plan(&args[1], args[2].parse().unwrap(), arg_cap(&args));
            if let Some(n) = args.iter().find_map(|x| x.strip_prefix("place=").map(|x| x.parse::<u64>().unwrap())) {
                gen::place(&mut p, n);
            }
            print!("{}", p.text())
        }
        "replay" if args.len() >= 2 => replay(&args[1..]),
        "info" => {
            println!("width {}", WIDTH);
            println!("max_disc {}", tagged_box::discriminant::MAX_DISCRIMINANT);
            for s in subj::SUBJECTS {
                println!("enum {} variants {} size {}", s.name, s.nvar, s.con_size);
            }
        }
        _ => usage(),
    }
    let _ = std::io::stdout().flush();
    // Worker threads wait for ever.
    std::process::exit(0)
}
