//! One simulated run in a forked child, result back through a pipe.
use std::collections::BTreeMap;
use std::panic;

use scen::parts::ctx;
use simrt::*;

use crate::case::{hex, unhex, Case};
use crate::props;

#[derive(Clone, Debug, PartialEq)]
pub enum End { Return, Panic, Crash, Abort, Deadlock, Budget }

#[derive(Clone, Debug, Default)]
pub struct Out {
    pub ok: bool, // the child reported
    pub end: String,
    pub class: String, // empty: property held
    pub msg: String,
    pub stats: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub fired: [u64; NFAULT],
    pub hash: u64,
    pub ihash: u64,
    pub devs: Vec<Dev>,
    pub crash: Option<Vec<(String, Vec<u8>)>>, // what it left of the files
    pub sample: String,
}
impl Out {
    pub fn stat(&self, k: &str) -> u64 { self.stats.get(k).copied().unwrap_or(0) }
}

mod sys {
    #[repr(C)]
    pub struct PollFd { pub fd: i32, pub events: i16, pub revents: i16 }
    extern "C" {
        pub fn fork() -> i32;
        pub fn pipe(p: *mut i32) -> i32;
        pub fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
        pub fn kill(p: i32, s: i32) -> i32;
        pub fn poll(f: *mut PollFd, n: u64, t: i32) -> i32;
        pub fn read(fd: i32, b: *mut u8, n: usize) -> isize;
        pub fn write(fd: i32, b: *const u8, n: usize) -> isize;
        pub fn close(fd: i32) -> i32;
        pub fn alarm(s: u32) -> u32;
        pub fn _exit(c: i32) -> !;
        pub fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    }
}

static CASE: Global<Option<Case>> = Global::new(None);
static FD: Global<i32> = Global::new(-1);
pub static PANICS: Global<Vec<(i32, String)>> = Global::new(Vec::new());

fn report(end: End) -> ! {
    let case = CASE.get().as_ref().unwrap();
    let crash = if end == End::Crash || end == End::Abort { Some(vfs_names().into_iter().filter_map(|n| { let b = vfs_crash_image(&n)?; Some((n, b)) }).collect::<Vec<_>>()) } else { None };
    let j = props::judge(case, &end);
    let mut o = String::new();
    o += &format!("end {:?}\n", end);
    let (class, msg) = match &j.verdict { Ok(()) => (String::new(), String::new()), Err((c, m)) => (c.clone(), m.replace('\n', " ")) };
    o += &format!("class {}\nmsg {}\n", class, msg);
    for (k, n) in [("steps", 0), ("switches", 1), ("sync", 2), ("preempt", 3), ("spawned", 6), ("allocs", 7), ("simtime", 8), ("conflicts", 9), ("quiesce", 10), ("maxlive", 11), ("devs_lost", 12), ("arena", 13)] {
        o += &format!("stat {} {}\n", k, stat(n));
    }
    for (k, v) in &j.probes { o += &format!("probe {} {}\n", k, v); }
    for k in 0..NFAULT as u32 { let f = fired(k); if f > 0 { o += &format!("fired {} {}\n", k, f); } }
    o += &format!("hash {}\nihash {}\n", stat(4), stat(5));
    if !j.sample.is_empty() { o += &format!("sample {}\n", j.sample.replace('\n', " ")); }
    if let Some(v) = crash { o += "crash\n"; for (n, b) in v { o += &format!("left {} {}\n", hex(n.as_bytes()), hex(&b)); } }
    if case.want_devs { for d in devs() { o += &format!("dev {} {} {} {}\n", d.tid, d.kind, d.lstep, d.val); } }
    o += "done\n";
    let b = o.as_bytes();
    let mut k = 0;
    unsafe {
        while k < b.len() {
            let n = sys::write(*FD.get(), b.as_ptr().add(k), b.len() - k);
            if n <= 0 { break; }
            k += n as usize;
        }
        sys::_exit(0)
    }
}

extern "C" fn on_fatal(k: i32) {
    if *IN_ORACLE.get() { unsafe { sys::_exit(if k == K_DEADLOCK { 4 } else if k == K_BUDGET { 5 } else { 6 }) } }
    match k {
        K_DEADLOCK => report(End::Deadlock),
        K_BUDGET => report(End::Budget),
        K_CRASH => report(End::Crash),
        K_ABORT => report(End::Abort),
        _ => unsafe { sys::_exit(97) },
    }
}

fn child(case: Case, fd: i32) -> ! {
    *FD.get() = fd;
    panic::set_hook(Box::new(|i| {
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() { s.to_string() } else if let Some(s) = i.payload().downcast_ref::<String>() { s.clone() } else { "?".into() };
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        masked_tid(|t| PANICS.get().push((t, format!("{} ({})", m, at))));
    }));
    if props::wants_oracle(&case) { start_oracle(&case); }
    scen::parts::reset_ctx();
    ctx().inject = case.injects.clone();
    events().reserve(1 << 14);
    let p = case.plan;
    let devs = case.devs.clone();
    prepare(&p, &devs, on_fatal);
    for f in &case.faults { fault(f.kind, f.at, f.arg); }
    props::setup(&case);
    *CASE.get() = Some(case.clone());
    begin();
    let r = panic::catch_unwind(panic::AssertUnwindSafe(|| props::client(&case)));
    drain();
    end();
    report(if r.is_ok() { End::Return } else { End::Panic })
}

// ------------------------------------------------------------ fresh processes
// Some oracles compare with what the code gives when nothing has happened before in its process.
// A helper is forked off before the run begins; it answers each request from a fork of its own.

static ASK: Global<(i32, i32)> = Global::new((-1, -1));
static IN_ORACLE: Global<bool> = Global::new(false);

unsafe fn write_words(fd: i32, v: &[i64]) -> bool {
    let mut b = Vec::with_capacity(8 * v.len() + 8);
    b.extend_from_slice(&(v.len() as u64).to_le_bytes());
    for x in v { b.extend_from_slice(&x.to_le_bytes()); }
    let mut k = 0;
    while k < b.len() {
        let n = sys::write(fd, b.as_ptr().add(k), b.len() - k);
        if n <= 0 { return false; }
        k += n as usize;
    }
    true
}
unsafe fn read_words(fd: i32) -> Option<Vec<i64>> {
    let get = |n: usize| -> Option<Vec<u8>> {
        let mut b = vec![0u8; n];
        let mut k = 0;
        while k < n {
            let r = sys::read(fd, b.as_mut_ptr().add(k), n - k);
            if r <= 0 { return None; }
            k += r as usize;
        }
        Some(b)
    };
    let n = u64::from_le_bytes(get(8)?[..].try_into().unwrap()) as usize;
    Some(get(8 * n)?.chunks(8).map(|c| i64::from_le_bytes(c.try_into().unwrap())).collect())
}
fn answer_alone(case: &Case, req: &[i64], fd: i32) -> ! {
    *IN_ORACLE.get() = true;
    scen::parts::reset_ctx();
    prepare(&Plan { seed: 1, max_steps: 400_000_000, fair_slice: 3_000_000, ..Default::default() }, &[], on_fatal);
    begin();
    let r = panic::catch_unwind(panic::AssertUnwindSafe(|| props::alone(case, req)));
    drain();
    end();
    unsafe { match r { Ok(v) => { write_words(fd, &v); sys::_exit(0) } Err(_) => sys::_exit(3) } }
}
fn start_oracle(case: &Case) {
    unsafe {
        let (mut a, mut b) = ([0i32; 2], [0i32; 2]);
        if sys::pipe(a.as_mut_ptr()) != 0 || sys::pipe(b.as_mut_ptr()) != 0 { panic!("pipe"); }
        let pid = sys::fork();
        if pid < 0 { panic!("fork"); }
        if pid > 0 { sys::close(a[0]); sys::close(b[1]); *ASK.get() = (a[1], b[0]); return; }
        sys::prctl(1, 9, 0, 0, 0);
        sys::close(a[1]); sys::close(b[0]); sys::close(*FD.get());
        loop {
            let req = match read_words(a[0]) { Some(r) => r, None => sys::_exit(0) };
            let mut p = [0i32; 2];
            if sys::pipe(p.as_mut_ptr()) != 0 { sys::_exit(1) }
            let pid = sys::fork();
            if pid < 0 { sys::_exit(1) }
            if pid == 0 { sys::prctl(1, 9, 0, 0, 0); answer_alone(case, &req, p[1]) }
            sys::close(p[1]);
            let v = read_words(p[0]);
            sys::close(p[0]);
            let mut st = 0;
            sys::waitpid(pid, &mut st, 0);
            let out = match v { Some(mut v) if st == 0 => { v.push(1); v } _ => vec![st as i64, 0] };
            if !write_words(b[1], &out) { sys::_exit(0) }
        }
    }
}
/// What a process that did nothing before answers.
pub fn oracle(req: &[i64]) -> Result<Vec<i64>, (String, String)> {
    let (to, from) = *ASK.get();
    let failed = |st: i64| Err(("reference_failed".to_string(), format!("the same work done alone by one thread, without faults, in a process of its own did not succeed (status {})", st)));
    unsafe {
        if !write_words(to, req) { return failed(-1); }
        match read_words(from) { Some(mut v) => if v.pop() == Some(1) { Ok(v) } else { failed(v[0]) }, None => failed(-2) }
    }
}

pub fn run(case: &Case) -> Out {
    let o = run_timeout(case, 60);
    if o.class == "hang_real" { return run_timeout(case, 150); }
    o
}

fn run_timeout(case: &Case, secs: u64) -> Out {
    let mut p = [0i32; 2];
    unsafe {
        if sys::pipe(p.as_mut_ptr()) != 0 { panic!("pipe"); }
        let pid = sys::fork();
        if pid < 0 { panic!("fork"); }
        if pid == 0 {
            sys::prctl(1, 9, 0, 0, 0); // die with the worker
            sys::close(p[0]);
            child(case.clone(), p[1]);
        }
        sys::close(p[1]);
        let t0 = std::time::Instant::now();
        let mut buf = Vec::new();
        let mut tmp = vec![0u8; 1 << 16];
        let mut timeout = false;
        loop {
            let left = secs as i64 * 1000 - t0.elapsed().as_millis() as i64;
            if left <= 0 { timeout = true; break; }
            let mut f = sys::PollFd { fd: p[0], events: 1, revents: 0 };
            let r = sys::poll(&mut f, 1, left as i32);
            if r == 0 { timeout = true; break; }
            if r < 0 { continue; }
            let n = sys::read(p[0], tmp.as_mut_ptr(), tmp.len());
            if n <= 0 { break; }
            buf.extend_from_slice(&tmp[..n as usize]);
        }
        sys::close(p[0]);
        if timeout { sys::kill(pid, 9); }
        let mut st = 0;
        sys::waitpid(pid, &mut st, 0);
        let mut o = parse(&buf);
        if timeout {
            o = Out { end: "hang".into(), class: "hang_real".into(), msg: format!("a run did not end within {} s of real time", secs), ..Default::default() };
        } else if !o.ok {
            let sig = st & 127;
            let code = st >> 8 & 255;
            if sig == 0 && (code == 97 || code == 98) {
                o.end = "harness".into(); o.class = "HARNESS".into(); o.msg = "the simulator could not model something the code did".into();
            } else if sig != 0 {
                o.end = "signal".into(); o.class = "process_killed".into(); o.msg = format!("the process was ended by signal {}", sig);
            } else {
                o.end = "exit".into(); o.class = "process_exit".into(); o.msg = format!("the process exited with code {} during the run", code);
            }
        }
        o
    }
}

fn parse(b: &[u8]) -> Out {
    let mut o = Out::default();
    let s = String::from_utf8_lossy(b);
    for l in s.lines() {
        let (k, r) = l.split_once(' ').unwrap_or((l, ""));
        let w: Vec<&str> = r.split(' ').collect();
        match k {
            "end" => o.end = r.into(),
            "class" => o.class = r.into(),
            "msg" => o.msg = r.into(),
            "stat" => { o.stats.insert(w[0].into(), w[1].parse().unwrap_or(0)); }
            "probe" => { o.probes.insert(w[0].into(), w[1].parse().unwrap_or(0)); }
            "fired" => o.fired[w[0].parse::<usize>().unwrap()] = w[1].parse().unwrap(),
            "hash" => o.hash = r.parse().unwrap_or(0),
            "ihash" => o.ihash = r.parse().unwrap_or(0),
            "sample" => o.sample = r.into(),
            "crash" => o.crash = Some(Vec::new()),
            "left" => o.crash.get_or_insert_with(Vec::new).push((String::from_utf8(unhex(w[0])).unwrap(), unhex(w[1]))),
            "dev" => o.devs.push(Dev { tid: w[0].parse().unwrap(), kind: w[1].parse().unwrap(), lstep: w[2].parse().unwrap(), val: w[3].parse().unwrap() }),
            "done" => o.ok = true,
            _ => {}
        }
    }
    o
}

// ------------------------------------------------------------------- apis
/// Every case of scen::apis in a process of its own, inside and outside the simulation.
pub fn apis() -> i32 {
    let dir = std::env::temp_dir().join(format!("dst-apis-{}", std::process::id()));
    let mut bad = 0;
    let only = std::env::args().nth(2).unwrap_or_default();
    for (name, f) in scen::apis::CASES.iter().filter(|c| only.is_empty() || c.0 == only) {
        let one = |seed: Option<u64>| -> String {
            let _ = std::fs::remove_dir_all(&dir);
            std::fs::create_dir_all(&dir).unwrap();
            unsafe {
                let mut p = [0i32; 2];
                if sys::pipe(p.as_mut_ptr()) != 0 { panic!("pipe"); }
                let pid = sys::fork();
                if pid == 0 {
                    *IN_ORACLE.get() = true;
                    sys::close(p[0]);
                    sys::alarm(20);
                    std::env::set_current_dir(&dir).unwrap();
                    panic::set_hook(Box::new(|_| ()));
                    scen::parts::reset_ctx();
                    if let Some(seed) = seed {
                        prepare(&Plan { seed, p_sync: 300, mem_mean: 60, max_steps: 40_000_000, fair_slice: 300_000, tick: 1 + 999 * (seed & 1), skew: seed << 32, ..Default::default() }, &[], on_fatal);
                        begin();
                    }
                    let r = panic::catch_unwind(panic::AssertUnwindSafe(|| f()));
                    if seed.is_some() { drain(); end(); }
                    let s = match r { Ok(s) => s, Err(e) => format!("panics: {:?} {:?}", e.downcast_ref::<String>(), e.downcast_ref::<&str>()) };
                    sys::write(p[1], s.as_ptr(), s.len());
                    sys::_exit(0)
                }
                sys::close(p[1]);
                let mut b = vec![0u8; 1 << 16];
                let mut n = 0;
                loop { let r = sys::read(p[0], b.as_mut_ptr().add(n), b.len() - n); if r <= 0 { break; } n += r as usize; }
                sys::close(p[0]);
                let mut st = 0;
                sys::waitpid(pid, &mut st, 0);
                b.truncate(n);
                if st != 0 { format!("ended with status {}", st) } else { String::from_utf8_lossy(&b).to_string() }
            }
        };
        let from = std::env::args().nth(3).and_then(|s| s.parse().ok());
        let real = if from.is_some() { String::new() } else { one(None) };
        for seed in from.unwrap_or(0)..8 {
            let sim = one(Some(seed));
            if sim != real { bad += 1; println!("DIFFERS {} (seed {})\n  real {}\n  sim  {}", name, seed, real, sim); break; }
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    println!("{} uses of std, {} differ", scen::apis::CASES.len(), bad);
    (bad > 0) as i32
}
