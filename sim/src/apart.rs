//! One run in a process of its own: a child made for it, which inherits a simulator that has never
//! touched the code under test.
use crate::world::{Plan, Report};
use simrt::state::*;
use std::collections::HashMap;

const ROOM: usize = 1 << 16;

/// What the child leaves behind, in memory both processes see.
#[repr(C)]
struct Shared {
    done: u64,
    len: u64,
    n: [u64; 8],
    logs: [u64; 8],
    counters: [u64; N_COUNTERS],
    text: [u8; ROOM],
}

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn prctl(option: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn _exit(code: i32) -> !;
}

fn shared() -> &'static mut Shared {
    static P: Racy<usize> = Racy::new(0);
    if *P.get() == 0 {
        // PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS
        let p = unsafe { mmap(std::ptr::null_mut(), std::mem::size_of::<Shared>(), 3, 0x21, -1, 0) };
        assert!(p as isize != -1);
        *P.get() = p as usize;
    }
    unsafe { &mut *(*P.get() as *mut Shared) }
}

pub fn run(p: &Plan, known: &[String], strict: bool) -> Result<Report, String> {
    let sh = shared();
    sh.done = 0;
    sh.counters = G.get().counters;
    let pid = unsafe { fork() };
    if pid == 0 {
        unsafe { prctl(1, 9, 0, 0, 0) }; // ends with its parent
        let r = crate::world::run(p, known, strict, false);
        sh.logs = r.logs;
        sh.n = [r.hash, r.order, r.switches, r.steps, r.done, r.skipped, r.allocs | r.frees << 32, r.reuses];
        sh.counters = G.get().counters;
        let mut t = String::new();
        for v in r.violation.iter().chain(&r.also) {
            t += &format!("V {} {}\n", v.class, v.detail.replace('\n', " "));
        }
        for (k, v) in &r.known {
            t += &format!("K {} {}\n", k, v);
        }
        let n = t.len().min(ROOM);
        sh.text[..n].copy_from_slice(&t.as_bytes()[..n]);
        sh.len = n as u64;
        sh.done = 1;
        unsafe { _exit(0) };
    }
    assert!(pid > 0, "fork failed");
    let mut st = 0;
    unsafe { waitpid(pid, &mut st, 0) };
    if sh.done == 0 {
        return Err(match (st & 0x7f, st >> 8) {
            (0, 9) => "no-progress".to_string(), // the watchdog has already said so
            (0, c) => format!("crash@exit-{}", c),
            (s, _) => format!("crash@{}", name(s)),
        });
    }
    G.get().counters = sh.counters;
    let (mut vs, mut kn) = (Vec::new(), HashMap::new());
    for l in String::from_utf8_lossy(&sh.text[..sh.len as usize]).lines() {
        let mut w = l.splitn(3, ' ');
        match (w.next(), w.next(), w.next()) {
            (Some("V"), Some(c), Some(d)) => {
                vs.push(Violation { class: c.to_string(), detail: d.to_string(), tid: 0, op: 0 })
            }
            (Some("K"), Some(k), Some(v)) => {
                kn.insert(&*Box::leak(k.to_string().into_boxed_str()), v.parse().unwrap_or(0));
            }
            _ => {}
        }
    }
    let n = sh.n;
    let mut vs = vs.into_iter();
    Ok(Report {
        violation: vs.next(),
        also: vs.collect(),
        hash: n[0],
        order: n[1],
        logs: sh.logs,
        text: Vec::new(),
        trace: Vec::new(),
        switches: n[2],
        steps: n[3],
        done: n[4],
        skipped: n[5],
        known: kn,
        allocs: n[6] & 0xffff_ffff,
        frees: n[6] >> 32,
        reuses: n[7],
    })
}

fn name(s: i32) -> String {
    match s {
        4 => "SIGILL",
        5 => "SIGTRAP",
        6 => "SIGABRT",
        7 => "SIGBUS",
        8 => "SIGFPE",
        9 => "SIGKILL",
        11 => "SIGSEGV",
        s => return format!("signal-{}", s),
    }
    .to_string()
}
