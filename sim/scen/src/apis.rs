//! What std promises, asked the same way inside and outside the simulation: an edit of the code
//! under test may begin to use any of this, and must find it working.
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::fs::{self, File, OpenOptions};
use std::io::{self, BufRead, BufReader, BufWriter, IoSlice, LineWriter, Read, Seek, SeekFrom, Write};
use std::os::unix::fs::{FileExt, MetadataExt, OpenOptionsExt, PermissionsExt};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::path::Path;
use std::sync::atomic::*;
use std::sync::mpsc::{channel, sync_channel};
use std::sync::{Arc, Barrier, Condvar, LazyLock, Mutex, Once, OnceLock, RwLock};
use std::thread;
use std::time::{Duration, Instant, SystemTime};

fn kind<T: std::fmt::Debug>(r: io::Result<T>) -> String { match r { Ok(v) => format!("Ok({:?})", v), Err(e) => format!("Err({:?}, {:?})", e.kind(), e.raw_os_error()) } }
fn unit<T>(r: io::Result<T>) -> String { kind(r.map(|_| ())) }
fn ms(n: u64) -> Duration { Duration::from_millis(n) }

type Case = (&'static str, fn() -> String);
macro_rules! cases { ($($name:ident => $body:block)*) => { pub static CASES: &[Case] = &[$((stringify!($name), || $body)),*]; } }

struct OnDrop(&'static AtomicUsize);
impl Drop for OnDrop { fn drop(&mut self) { self.0.fetch_add(1, Ordering::SeqCst); } }
static DROPS: AtomicUsize = AtomicUsize::new(0);
static LAZY: LazyLock<Vec<u32>> = LazyLock::new(|| (0..10).collect());
static ONCE: Once = Once::new();
static CELL: OnceLock<String> = OnceLock::new();
thread_local! { static LOCAL: RefCell<Vec<u32>> = RefCell::new(Vec::new()); static DROPPED: OnDrop = OnDrop(&DROPS); }

cases! {
    missing => { format!("{} {} {} {} {} {:?}", unit(fs::metadata("none")), unit(fs::symlink_metadata("none")), unit(File::open("none")), unit(fs::remove_file("none")), unit(fs::read("none")), Path::new("none").try_exists().ok()) }
    missing_again => { format!("{} {} {} {}", unit(fs::metadata("none")), Path::new("none").exists(), Path::new("none").is_file(), Path::new("none").is_dir()) }
    missing_rename => { format!("{} {} {} {}", unit(fs::rename("none", "other")), unit(fs::hard_link("none", "other")), unit(fs::copy("none", "other")), unit(fs::canonicalize("none"))) }
    write_read => { let w = unit(fs::write("a", "hello\nworld\n")); format!("{} {} {} {:?}", w, kind(fs::read_to_string("a")), Path::new("a").exists(), fs::metadata("a").map(|m| (m.len(), m.is_file(), m.is_dir(), m.nlink(), m.file_type().is_symlink())).ok()) }
    twice => { fs::write("a", "longer than the next").unwrap(); fs::write("a", "short").unwrap(); kind(fs::read_to_string("a")) }
    create_new => { format!("{} {} {}", unit(File::create_new("new")), unit(File::create_new("new")), unit(OpenOptions::new().write(true).create_new(true).open("new"))) }
    append => { fs::write("b", "one").unwrap(); let mut f = OpenOptions::new().append(true).open("b").unwrap(); f.write_all(b"two").unwrap(); f.seek(SeekFrom::Start(0)).unwrap(); f.write_all(b"three").unwrap(); drop(f); kind(fs::read_to_string("b")) }
    no_truncate => { fs::write("c", "0123456789").unwrap(); let mut f = OpenOptions::new().write(true).open("c").unwrap(); f.write_all(b"ab").unwrap(); let p = f.stream_position().unwrap(); f.set_len(5).unwrap(); drop(f); format!("{} {}", p, kind(fs::read_to_string("c"))) }
    set_len_longer => { let f = File::create("d").unwrap(); f.set_len(4).unwrap(); format!("{:?} {}", f.metadata().unwrap().len(), kind(fs::read("d"))) }
    seek => { let mut f = OpenOptions::new().read(true).write(true).create(true).truncate(true).open("e").unwrap(); f.write_all(b"abcdef").unwrap(); let a = f.seek(SeekFrom::End(-2)).unwrap(); let mut s = String::new(); f.read_to_string(&mut s).unwrap(); let b = f.seek(SeekFrom::Current(-1)).unwrap(); let c = unit(f.seek(SeekFrom::Current(-100))); f.rewind().unwrap(); let mut x = [0; 3]; f.read_exact(&mut x).unwrap(); format!("{} {} {} {} {:?} {}", a, s, b, c, x, f.stream_position().unwrap()) }
    at => { let f = OpenOptions::new().read(true).write(true).create(true).truncate(true).open("f").unwrap(); let w = kind(f.write_at(b"xyz", 3)); f.write_all_at(b"12", 0).unwrap(); let mut b = [9; 8]; let r = kind(f.read_at(&mut b, 1)); let e = unit(f.read_exact_at(&mut [0; 8], 4)); format!("{} {} {:?} {}", w, r, b, e) }
    vectored => { let mut f = File::create("g").unwrap(); let w = kind(f.write_vectored(&[IoSlice::new(b"ab"), IoSlice::new(b""), IoSlice::new(b"cde")])); let mut r = File::open("g").unwrap(); let (mut x, mut y) = ([0; 3], [0; 9]); let n = kind(r.read_vectored(&mut [io::IoSliceMut::new(&mut x), io::IoSliceMut::new(&mut y)])); format!("{} {} {:?} {:?}", w, n, x, &y[..2]) }
    clone_handle => { let mut f = File::create("h").unwrap(); let mut g = f.try_clone().unwrap(); f.write_all(b"ab").unwrap(); g.write_all(b"cd").unwrap(); drop(f); g.write_all(b"ef").unwrap(); drop(g); kind(fs::read_to_string("h")) }
    wrong_mode => { fs::write("i", "x").unwrap(); let mut r = File::open("i").unwrap(); let mut w = OpenOptions::new().write(true).open("i").unwrap(); let mut s = String::new(); format!("{} {} {}", kind(r.write(b"x")), unit(w.read_to_string(&mut s)), unit(OpenOptions::new().open("i"))) }
    sync => { let f = File::create("j").unwrap(); format!("{} {} {}", kind(f.sync_all()), kind(f.sync_data()), unit(File::open(".").and_then(|d| d.sync_all()))) }
    rename => { fs::write("k", "new").unwrap(); fs::write("l", "old one").unwrap(); let r = kind(fs::rename("k", "l")); format!("{} {} {}", r, kind(fs::read_to_string("l")), Path::new("k").exists()) }
    rename_open => { fs::write("m", "before").unwrap(); let mut r = File::open("m").unwrap(); fs::write("m2", "after").unwrap(); fs::rename("m2", "m").unwrap(); let mut s = String::new(); r.read_to_string(&mut s).unwrap(); format!("{} {}", s, kind(fs::read_to_string("m"))) }
    unlink_open => { let mut f = OpenOptions::new().read(true).write(true).create(true).open("n").unwrap(); f.write_all(b"still").unwrap(); fs::remove_file("n").unwrap(); f.rewind().unwrap(); let mut s = String::new(); f.read_to_string(&mut s).unwrap(); format!("{} {} {}", s, Path::new("n").exists(), f.metadata().unwrap().nlink()) }
    link => { fs::write("o", "x").unwrap(); let r = kind(fs::hard_link("o", "o2")); fs::write("o", "changed").unwrap(); format!("{} {} {} {}", r, kind(fs::read_to_string("o2")), fs::metadata("o").unwrap().nlink(), unit(fs::hard_link("o", "o2"))) }
    copy => { fs::write("p", vec![7u8; 10000]).unwrap(); let r = kind(fs::copy("p", "p2")); format!("{} {:?}", r, fs::read("p2").unwrap() == vec![7u8; 10000]) }
    io_copy => { fs::write("q", vec![8u8; 5000]).unwrap(); let n = kind(io::copy(&mut File::open("q").unwrap(), &mut File::create("q2").unwrap())); let m = kind(io::copy(&mut &b"abc"[..], &mut File::create("q3").unwrap())); format!("{} {} {} {:?}", n, m, fs::read("q2").unwrap().len(), fs::read("q3").unwrap()) }
    dirs => { format!("{} {} {} {} {} {}", kind(fs::create_dir("dir")), unit(fs::create_dir("dir")), unit(fs::create_dir_all("dir")), kind(fs::metadata("dir").map(|m| m.is_dir())), unit(fs::write("dir/x", "in it")), kind(fs::read_to_string("dir/x"))) }
    dir_list => { fs::create_dir("dl").unwrap(); fs::write("dl/1", "").unwrap(); fs::write("dl/2", "").unwrap(); let mut v: Vec<_> = fs::read_dir("dl").unwrap().map(|e| { let e = e.unwrap(); (e.file_name().into_string().unwrap(), e.file_type().unwrap().is_file(), e.path().to_string_lossy().to_string(), e.metadata().unwrap().len()) }).collect(); v.sort(); let a = unit(fs::remove_dir("dl")); let b = kind(fs::remove_dir_all("dl")); format!("{:?} {} {} {}", v, a, b, Path::new("dl").exists()) }
    dir_errors => { fs::write("file", "").unwrap(); format!("{} {} {} {}", unit(File::create("nodir/x")), unit(fs::read_dir("nodir")), unit(fs::remove_dir("nodir")), unit(File::create("."))) }
    perms => { fs::write("r", "").unwrap(); let mut p = fs::metadata("r").unwrap().permissions(); let before = p.readonly(); p.set_mode(0o600); format!("{} {}", before, unit(fs::set_permissions("r", p))) }
    open_mode => { unit(OpenOptions::new().write(true).create(true).truncate(true).mode(0o640).open("s")) }
    buffered => { { let mut w = BufWriter::with_capacity(16, File::create("t").unwrap()); for i in 0..50 { writeln!(w, "line {}", i).unwrap(); } w.flush().unwrap(); let f = w.into_inner().unwrap(); f.sync_all().unwrap(); } let r = BufReader::new(File::open("t").unwrap()); let v: Vec<String> = r.lines().map(|l| l.unwrap()).collect(); format!("{} {} {}", v.len(), v[0], v[49]) }
    dropped_writer => { { let mut w = BufWriter::new(File::create("u").unwrap()); w.write_all(b"unflushed").unwrap(); } kind(fs::read_to_string("u")) }
    line_writer => { let mut w = LineWriter::new(File::create("v").unwrap()); w.write_all(b"a\nb").unwrap(); let a = fs::read_to_string("v").unwrap(); drop(w); format!("{:?} {:?}", a, fs::read_to_string("v").unwrap()) }
    two_writers => { let mut a = File::create("w").unwrap(); let mut b = OpenOptions::new().write(true).open("w").unwrap(); a.write_all(b"aaaa").unwrap(); b.write_all(b"bb").unwrap(); kind(fs::read_to_string("w")) }
    file_lock => { let a = File::create("x").unwrap(); let b = File::open("x").unwrap(); let l = unit(a.lock()); let t = b.try_lock().is_err(); let u = unit(a.unlock()); format!("{} {} {} {}", l, t, u, b.try_lock().is_ok()) }
    modified => { let f = File::create("y").unwrap(); format!("{} {}", f.metadata().and_then(|m| m.modified()).is_ok(), unit(f.set_modified(SystemTime::UNIX_EPOCH))) }
    canonical => { fs::write("z", "").unwrap(); let p = fs::canonicalize("z").unwrap(); format!("{} {:?}", p.is_absolute(), p.file_name()) }
    current_dir => { format!("{} {}", std::env::current_dir().is_ok(), std::env::current_dir().unwrap().join("a").exists()) }
    dot_path => { fs::write("./aa", "x").unwrap(); format!("{} {}", Path::new("aa").exists(), kind(fs::read_to_string("././aa"))) }
    absolute => { let d = std::env::current_dir().unwrap(); let a = unit(fs::write(d.join("cc"), "abs")); let b = kind(fs::read_to_string("cc")); fs::rename("cc", d.join("dd")).unwrap(); let l = fs::read_dir(&d).unwrap().count(); format!("{} {} {} {} {}", a, b, Path::new("dd").exists(), d.join("dd").is_file(), l) }
    atomic_replace => { let t = std::env::current_dir().unwrap().join("output.ppm.tmp"); { let mut w = BufWriter::new(File::create(&t).unwrap()); w.write_all(b"P3").unwrap(); w.flush().unwrap(); w.get_ref().sync_all().unwrap(); } fs::rename(&t, "output.ppm").unwrap(); File::open(".").unwrap().sync_all().unwrap(); format!("{} {}", kind(fs::read_to_string("output.ppm")), t.exists()) }
    mapped => { let mut v: Vec<String> = fs::read_dir(".").unwrap().filter_map(|e| e.ok()).map(|e| e.file_name().into_string().unwrap()).collect(); v.sort(); format!("{:?}", v) }
    async_done => { let d = Arc::new((Mutex::new(0), Condvar::new())); for _ in 0..4 { let d = d.clone(); thread::spawn(move || { *d.0.lock().unwrap() += 1; d.1.notify_one(); }); } let g = d.1.wait_while(d.0.lock().unwrap(), |n| *n < 4).unwrap(); g.to_string() }
    shared_receiver => { let (s, r) = channel::<i32>(); let r = Arc::new(Mutex::new(r)); let t: Vec<_> = (0..3).map(|_| { let r = r.clone(); thread::spawn(move || { let mut n = 0; loop { let v = r.lock().unwrap().recv(); match v { Ok(v) => n += v, Err(_) => return n } } }) }).collect(); for i in 0..20 { s.send(i).unwrap(); } drop(s); t.into_iter().map(|t| t.join().unwrap()).sum::<i32>().to_string() }
    rendezvous => { let (s, r) = sync_channel::<i32>(0); let t = thread::spawn(move || { for i in 0..5 { s.send(i).unwrap(); } }); let v: Vec<i32> = r.iter().collect(); t.join().unwrap(); format!("{:?}", v) }
    read_guard_write => { let l = Arc::new(RwLock::new(1)); let g = l.read().unwrap(); let m = l.clone(); let t = thread::spawn(move || { *m.write().unwrap() = 2; }); thread::sleep(ms(2)); let a = *g; drop(g); t.join().unwrap(); let b = *l.read().unwrap(); format!("{} {}", a, b) }
    environment => { format!("{:?} {}", std::env::var("SURELY_NOT_SET").is_err(), std::env::args().count() > 0) }
    stdout_err => { format!("{} {}", unit(io::stdout().flush()), unit(io::stderr().flush())) }
    pipes => { let (mut r, mut w) = io::pipe().unwrap(); let t = thread::spawn(move || { let mut s = String::new(); r.read_to_string(&mut s).unwrap(); s }); w.write_all(b"through").unwrap(); drop(w); t.join().unwrap() }
    hash_map => { let mut m = HashMap::new(); for i in 0..100 { m.insert(i, i * i); } let s: HashSet<i32> = m.values().cloned().collect(); format!("{} {}", m[&7], s.len()) }
    spawn_join => { let t: Vec<_> = (0..5).map(|i| thread::spawn(move || i * 2)).collect(); format!("{:?}", t.into_iter().map(|t| t.join().unwrap()).collect::<Vec<_>>()) }
    spawn_panic => { let r = thread::spawn(|| { if true { panic!("boom {}", 1); } }).join(); let s = thread::spawn(|| { if true { resume_unwind(Box::new(42)); } }).join(); format!("{:?} {:?}", r.unwrap_err().downcast_ref::<String>(), s.unwrap_err().downcast_ref::<i32>()) }
    builder => { let t = thread::Builder::new().name("worker".into()).stack_size(1 << 20).spawn(|| thread::current().name().map(|n| n.to_string())).unwrap(); format!("{:?}", t.join().unwrap()) }
    scope => { let mut v = vec![1, 2, 3, 4]; let s = thread::scope(|s| { let h: Vec<_> = v.chunks_mut(2).map(|c| s.spawn(move || { c[0] += 10; c.len() })).collect(); h.into_iter().map(|h| h.join().unwrap()).sum::<usize>() }); format!("{} {:?}", s, v) }
    scope_panic => { let r = catch_unwind(|| thread::scope(|s| { s.spawn(|| { if true { panic!("x"); } }); 1 })); r.is_err().to_string() }
    finished => { let t = thread::spawn(|| ()); while !t.is_finished() { thread::yield_now(); } t.join().is_ok().to_string() }
    detached => { let (s, r) = channel(); thread::spawn(move || { thread::sleep(ms(3)); s.send(5).unwrap(); }); kind(r.recv().map_err(|_| io::Error::other("x"))) }
    park => { let t = thread::spawn(|| { thread::park(); 1 }); t.thread().unpark(); let a = t.join().unwrap(); let t0 = Instant::now(); thread::park_timeout(ms(5)); format!("{} {}", a, t0.elapsed() >= ms(4)) }
    sleep => { let t = Instant::now(); let s = SystemTime::now(); thread::sleep(ms(10)); format!("{} {}", t.elapsed() >= ms(10), s.elapsed().unwrap() >= ms(9)) }
    parallelism => { (thread::available_parallelism().unwrap().get() > 0).to_string() }
    thread_ids => { let a = thread::current().id(); let b = thread::spawn(|| thread::current().id()).join().unwrap(); (a != b).to_string() }
    locals => { LOCAL.with(|l| l.borrow_mut().push(1)); let n = thread::spawn(|| { LOCAL.with(|l| { l.borrow_mut().push(2); l.borrow().len() }) }).join().unwrap(); let m = LOCAL.with(|l| l.borrow().len()); LOCAL.with(|l| l.borrow_mut().clear()); let before = DROPS.load(Ordering::SeqCst); thread::spawn(|| DROPPED.with(|_| ())).join().unwrap(); format!("{} {} {}", n, m, DROPS.load(Ordering::SeqCst) - before) }
    mutex => { let m = Arc::new(Mutex::new(0)); let t: Vec<_> = (0..4).map(|_| { let m = m.clone(); thread::spawn(move || for _ in 0..50 { *m.lock().unwrap() += 1; }) }).collect(); for t in t { t.join().unwrap(); } let n = *m.lock().unwrap(); let g = m.lock().unwrap(); let tl = m.try_lock().is_err(); drop(g); format!("{} {}", n, tl) }
    poison => { let m = Arc::new(Mutex::new(1)); let m2 = m.clone(); let _ = thread::spawn(move || { let _g = m2.lock().unwrap(); panic!("x"); }).join(); let p = m.is_poisoned(); let v = *m.lock().unwrap_or_else(|e| e.into_inner()); m.clear_poison(); format!("{} {} {}", p, v, m.is_poisoned()) }
    rwlock => { let l = Arc::new(RwLock::new(0)); let t: Vec<_> = (0..6).map(|i| { let l = l.clone(); thread::spawn(move || for _ in 0..20 { if i % 2 == 0 { *l.write().unwrap() += 1; } else { let _ = *l.read().unwrap(); } }) }).collect(); for t in t { t.join().unwrap(); } let r = l.read().unwrap(); format!("{} {} {}", *r, l.try_read().is_ok(), l.try_write().is_err()) }
    condvar => { let p = Arc::new((Mutex::new(false), Condvar::new())); let q = p.clone(); let t = thread::spawn(move || { *q.0.lock().unwrap() = true; q.1.notify_all(); }); let mut g = p.0.lock().unwrap(); while !*g { g = p.1.wait(g).unwrap(); } drop(g); t.join().unwrap(); let g = p.0.lock().unwrap(); let (g, to) = p.1.wait_timeout_while(g, ms(5), |v| *v).unwrap(); format!("{} {}", *g, to.timed_out()) }
    barrier => { let b = Arc::new(Barrier::new(3)); let t: Vec<_> = (0..3).map(|_| { let b = b.clone(); thread::spawn(move || b.wait().is_leader()) }).collect(); t.into_iter().filter(|_| true).map(|t| t.join().unwrap() as u32).sum::<u32>().to_string() }
    channels => { let (s, r) = sync_channel(1); let t = thread::spawn(move || for i in 0..10 { s.send(i).unwrap(); }); let v: i32 = r.iter().sum(); t.join().unwrap(); let (s, r) = channel::<i32>(); let to = r.recv_timeout(ms(5)).is_err(); let e = r.try_recv().is_err(); drop(s); format!("{} {} {} {}", v, to, e, r.recv().is_err()) }
    once => { let n = Arc::new(AtomicUsize::new(0)); let t: Vec<_> = (0..4).map(|_| { let n = n.clone(); thread::spawn(move || { ONCE.call_once(|| { n.fetch_add(1, Ordering::SeqCst); }); CELL.get_or_init(|| "x".to_string()).len() + LAZY.len() }) }).collect(); let s: usize = t.into_iter().map(|t| t.join().unwrap()).sum(); format!("{} {} {}", s, n.load(Ordering::SeqCst) <= 1, ONCE.is_completed()) }
    atomics => { let a = AtomicU8::new(250); let b = AtomicI64::new(1); let c = AtomicU16::new(5); let d = AtomicBool::new(false); let e = AtomicU32::new(8); let mut x = 5; let p = AtomicPtr::new(&mut x as *mut i32); fence(Ordering::SeqCst); compiler_fence(Ordering::AcqRel); format!("{} {} {} {} {} {:?} {:?} {} {} {} {} {:?}", a.fetch_add(10, Ordering::Relaxed), a.load(Ordering::Acquire), b.fetch_sub(5, Ordering::AcqRel), b.swap(9, Ordering::SeqCst), c.fetch_max(9, Ordering::SeqCst), c.compare_exchange(9, 1, Ordering::SeqCst, Ordering::Relaxed), c.compare_exchange(9, 1, Ordering::SeqCst, Ordering::Relaxed), d.fetch_or(true, Ordering::SeqCst), d.fetch_xor(true, Ordering::SeqCst), e.fetch_nand(12, Ordering::SeqCst), p.load(Ordering::SeqCst).is_null(), e.fetch_min(3, Ordering::SeqCst)) }
    arcs => { let a = Arc::new(5); let w = Arc::downgrade(&a); let b = a.clone(); let n = (Arc::strong_count(&a), Arc::weak_count(&a)); drop(a); let u = Arc::try_unwrap(b); format!("{:?} {:?} {}", n, u, w.upgrade().is_none()) }
    big_memory => { let v = vec![0u8; 1 << 20]; let mut w: Vec<u64> = Vec::new(); for i in 0..5000 { w.push(i); } w.shrink_to_fit(); let s: String = "ab".repeat(1000); format!("{} {} {}", v.iter().map(|x| *x as u32).sum::<u32>(), w.iter().sum::<u64>(), s.len()) }
    floats => { format!("{:?} {:?} {}", (2f32.powf(0.3), 0.5f32.sin(), 1e-3f32.ln()), "1.25e3".parse::<f64>(), 3.7f32 as u8) }
    backtrace => { (std::backtrace::Backtrace::capture().status() != std::backtrace::BacktraceStatus::Unsupported).to_string() }
    process_id => { (std::process::id() > 0).to_string() }
    terminal => { use std::io::IsTerminal; io::stderr().is_terminal().to_string() }
    temp_file => { let p = std::env::temp_dir().join(format!("pt-probe-{}", std::process::id())); let a = unit(fs::write(&p, "x")); let b = kind(fs::read_to_string(&p)); format!("{} {} {}", a, b, unit(fs::remove_file(&p))) }
    hidden_file => { let n = format!(".output.ppm.{}.tmp", std::process::id()); fs::write(&n, "x").unwrap(); let r = unit(fs::rename(&n, "bb")); format!("{} {}", r, kind(fs::read_to_string("bb"))) }
    sleeping_workers => { let n = Arc::new(AtomicUsize::new(0)); let t: Vec<_> = (0..8).map(|i| { let n = n.clone(); thread::spawn(move || { thread::sleep(ms(i % 3)); n.fetch_add(1, Ordering::SeqCst); }) }).collect(); let t0 = Instant::now(); while n.load(Ordering::SeqCst) < 8 { std::hint::spin_loop(); if t0.elapsed() > Duration::from_secs(20) { return "stuck".into(); } } for t in t { t.join().unwrap(); } "ok".into() }
    spin_lock => { let l = Arc::new(AtomicBool::new(false)); let n = Arc::new(AtomicUsize::new(0)); let t: Vec<_> = (0..3).map(|_| { let (l, n) = (l.clone(), n.clone()); thread::spawn(move || for _ in 0..10 { while l.compare_exchange_weak(false, true, Ordering::Acquire, Ordering::Relaxed).is_err() { std::hint::spin_loop(); } n.store(n.load(Ordering::Relaxed) + 1, Ordering::Relaxed); l.store(false, Ordering::Release); }) }).collect(); for t in t { t.join().unwrap(); } n.load(Ordering::SeqCst).to_string() }
    reentrant => { let e = io::stderr(); let a = e.lock(); let b = e.lock(); drop(a); drop(b); "ok".into() }
    payload => { let r = catch_unwind(AssertUnwindSafe(|| { std::panic::panic_any(7u8); })); let n = thread::panicking(); format!("{:?} {}", r.unwrap_err().downcast_ref::<u8>(), n) }
}

pub fn probe() -> Vec<String> {
    CASES.iter().map(|(n, f)| match catch_unwind(AssertUnwindSafe(|| f())) {
        Ok(s) => format!("{}: {}", n, s),
        Err(e) => format!("{}: panics: {:?} {:?}", n, e.downcast_ref::<String>(), e.downcast_ref::<&str>()),
    }).collect()
}
