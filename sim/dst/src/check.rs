//! Search: many seeded runs over several worker processes, then the evidence.
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Command, Stdio};
use std::sync::mpsc;
use std::time::{Duration, Instant};

use simrt::{hash2, hash_bytes, FAULT_NAMES};

use crate::case::Case;
use crate::minimise;
use crate::props;
use crate::run::{run, Out};

pub fn verif() -> String { std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()) }

/// (runs, seconds) of one check
fn budget(prop: &str, tier: &str) -> (u64, u64) {
    let quick = match prop {
        "C01" => 4000, "C02" => 3600, "C03" => 24000, "C04" => 24000, "C05" => 6000, "C06" => 15000, "C07" => 8000, "C08" => 5000, "C09" => 3000,
        "C10" => 6000, "C11" => 2500, "C12" => 3600, "C13" => 5000, "C14" => 5000, "C15" => 24000, "C16" => 2400, "C17" => 1500, "C18" => 6000, "C19" => 5000, "C20" => 5000, "C21" => 2400, _ => 1000,
    };
    let n = std::env::var("DST_RUNS").ok().and_then(|v| v.parse().ok());
    let t = std::env::var("DST_SECS").ok().and_then(|v| v.parse().ok());
    if tier == "thorough" { (n.unwrap_or(quick * 100), t.unwrap_or(1500)) } else { (n.unwrap_or(quick), t.unwrap_or(150)) }
}

/// The life after a crash: same program, no faults, on what the crash left behind.
pub fn second_life(c: &Case, files: Vec<(String, Vec<u8>)>) -> Case {
    let mut d = c.clone();
    d.faults.clear();
    d.injects.clear();
    d.plan.crash_at = 0;
    d.plan.seed = hash2(d.plan.seed, 7) >> 1;
    d.pre = Some(files);
    d.devs.clear();
    d.plan.replay = 0;
    // the program may have changed since: another picture, smaller or larger
    if d.prop == "C05" {
        let mut r = simrt::Rng(hash2(d.plan.seed, 8));
        if r.chance(2, 3) {
            let (w, h) = (d.cfg.get("w"), d.cfg.get("h"));
            d.cfg.set("seq", 1, 1);
            d.cfg.set("w", if r.chance(1, 4) { w + r.range(0, 20) } else { r.range(1, w.max(1)) }, 1);
            d.cfg.set("h", if r.chance(1, 4) { h + r.range(0, 20) } else { r.range(1, h.max(1)) }, 1);
        }
    }
    d.note = format!("second life: the files start as a simulated crash of run {} left them", c.index);
    d
}

fn esc(s: &str) -> String { s.replace(['\t', '\n'], " ") }
fn line(tag: &str, index: u64, c: &Case, o: &Out) -> String {
    let kv = |m: &BTreeMap<String, u64>| m.iter().map(|(k, v)| format!("{}={}", k, v)).collect::<Vec<_>>().join(",");
    let mut fired = o.fired.iter().enumerate().filter(|f| *f.1 > 0).map(|(k, v)| format!("{}={}", FAULT_NAMES[k], v)).collect::<Vec<_>>().join(",");
    if fired.is_empty() { fired = "-".into(); }
    let inj = hash_bytes(format!("{:?}{:?}{:?}", c.faults, c.injects, c.wfaults).as_bytes());
    format!("{}\t{}\t{}\t{}\t{}\t{}\t{}\t{:x}\t{:x}\t{:x}\t{}\n", tag, index, o.end, if o.class.is_empty() { "-" } else { &o.class }, kv(&o.stats), fired, kv(&o.probes), o.hash, o.ihash, inj, esc(&o.sample))
}

/// Run indices k, k+n, ... below count until the deadline; report each on stdout.
pub fn worker(prop: &str, seed: u64, k: u64, n: u64, count: u64, secs: u64, keep_going: u64) -> i32 {
    let t0 = Instant::now();
    let out = std::io::stdout();
    let mut i = k;
    while i < count && t0.elapsed().as_secs() < secs {
        let c = props::gen(prop, seed, i);
        let o = run(&c);
        let mut bad = !o.class.is_empty() && o.class != "HARNESS";
        let mut s = line("R", i, &c, &o);
        if let (Some(img), false) = (&o.crash, bad) {
            let d = second_life(&c, img.clone());
            let o2 = run(&d);
            bad = !o2.class.is_empty() && o2.class != "HARNESS";
            s += &line("S", i, &d, &o2);
        }
        let mut h = out.lock();
        if h.write_all(s.as_bytes()).and_then(|_| h.flush()).is_err() { return 0; }
        drop(h);
        if bad && keep_going == 0 { return 0; }
        i += n;
    }
    0
}

fn spawn(prop: &str, seed: u64, k: u64, n: u64, count: u64, secs: u64, keep: u64) -> std::process::Child {
    let exe = std::env::current_exe().unwrap();
    Command::new(exe).args(["worker", prop, &seed.to_string(), &k.to_string(), &n.to_string(), &count.to_string(), &secs.to_string(), &keep.to_string()])
        .stdin(Stdio::null()).stdout(Stdio::piped()).spawn().expect("worker")
}

#[derive(Default)]
struct Agg {
    runs: u64, second: u64, harness: u64,
    ends: BTreeMap<String, u64>, stats: BTreeMap<String, u64>, maxima: BTreeMap<String, u64>, fired: BTreeMap<String, u64>, fired_runs: BTreeMap<String, u64>, probes: BTreeMap<String, u64>,
    inter: HashSet<String>, nontrivial: HashSet<String>, multi: u64, samples: Vec<String>,
    bad: BTreeSet<(u64, bool)>, classes: BTreeMap<String, u64>,
}
impl Agg {
    fn add(&mut self, l: &str) {
        let w: Vec<&str> = l.split('\t').collect();
        if w.len() < 11 { return; }
        let index: u64 = w[1].parse().unwrap();
        self.runs += 1;
        if w[0] == "S" { self.second += 1; }
        *self.ends.entry(w[2].to_lowercase()).or_insert(0) += 1;
        if w[3] == "HARNESS" { self.harness += 1; } else if w[3] != "-" { self.bad.insert((index, w[0] == "S")); *self.classes.entry(w[3].into()).or_insert(0) += 1; }
        let mut st: HashMap<&str, u64> = HashMap::new();
        for p in w[4].split(',') { if let Some((k, v)) = p.split_once('=') {
            let v: u64 = v.parse().unwrap_or(0);
            st.insert(k, v);
            if k == "maxlive" || k == "arena" { let e = self.maxima.entry(k.into()).or_insert(0); *e = (*e).max(v); } else { *self.stats.entry(k.into()).or_insert(0) += v; }
            if k == "steps" { let e = self.maxima.entry("steps_of_a_run".into()).or_insert(0); *e = (*e).max(v); }
        } }
        let mut faults = 0;
        for p in w[5].split(',') { if let Some((k, v)) = p.split_once('=') {
            let v: u64 = v.parse().unwrap_or(0);
            faults += v;
            *self.fired.entry(k.into()).or_insert(0) += v;
            *self.fired_runs.entry(k.into()).or_insert(0) += 1;
        } }
        for p in w[6].split(',') { if let Some((k, v)) = p.split_once('=') {
            let v: u64 = v.parse().unwrap_or(0);
            let e = self.probes.entry(k.into()).or_insert(0);
            if k.starts_with("max_") { *e = (*e).max(v); } else { *e += v; }
            if k == "injected_panics" || k == "stream_faults" { faults += v; }
        } }
        let multi = st.get("maxlive").copied().unwrap_or(0) >= 2 && st.get("switches").copied().unwrap_or(0) > 2;
        if multi { self.multi += 1; self.inter.insert(w[8].into()); }
        if multi || faults > 0 { self.nontrivial.insert(format!("{}{}{}", w[7], w[8], w[9])); }
        if self.samples.len() < 4 || (self.samples.len() < 8 && faults > 0) { self.samples.push(w[10].into()); }
    }
}

pub fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() { match c { '"' => o += "\\\"", '\\' => o += "\\\\", c if (c as u32) < 32 => o += " ", c => o.push(c) } }
    o + "\""
}
fn jmap(m: &BTreeMap<String, u64>) -> String { format!("{{{}}}", m.iter().map(|(k, v)| format!("{}: {}", json(k), v)).collect::<Vec<_>>().join(", ")) }

pub fn check(prop: &str, tier: &str, seed: u64) -> i32 {
    let t0 = Instant::now();
    if !props::PROPS.contains(&prop) { eprintln!("unknown property {}", prop); return 2; }
    let (count, secs) = budget(prop, tier);
    let nw = std::env::var("DST_WORKERS").ok().and_then(|v| v.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get() as u64).unwrap_or(4).min(16));
    let (tx, rx) = mpsc::channel::<Option<String>>();
    let mut kids = Vec::new();
    for k in 0..nw {
        let mut ch = spawn(prop, seed, k, nw, count, secs, 0);
        let o = ch.stdout.take().unwrap();
        let tx = tx.clone();
        std::thread::spawn(move || { for l in BufReader::new(o).lines().map_while(Result::ok) { let _ = tx.send(Some(l)); } let _ = tx.send(None); });
        kids.push(ch);
    }
    let mut agg = Agg::default();
    let mut open = nw;
    let mut grace: Option<Instant> = None;
    while open > 0 {
        match rx.recv_timeout(Duration::from_millis(200)) { Ok(Some(l)) => agg.add(&l), Ok(None) => open -= 1, Err(_) => {} }
        if !agg.bad.is_empty() && grace.is_none() { grace = Some(Instant::now()); }
        // a violation: give the others a moment so that the lowest run index is usually the one reported
        if grace.map(|g| g.elapsed() > Duration::from_secs(3)).unwrap_or(false) { break; }
        if t0.elapsed().as_secs() > secs + 300 { break; }
    }
    for k in kids.iter_mut() { let _ = k.kill(); let _ = k.wait(); }
    while let Ok(Some(l)) = rx.try_recv() { agg.add(&l); }
    let search = t0.elapsed().as_secs_f64();

    let mut code = 0;
    let mut violations = 0;
    if let Some((index, second)) = agg.bad.iter().next().copied() {
        // in a process of its own, so that it starts from the same state as a replay
        let exe = std::env::current_exe().unwrap();
        let st = Command::new(exe).args(["minimise", prop, &seed.to_string(), &index.to_string(), if second { "1" } else { "0" }]).status();
        code = match st.map(|s| s.code()) { Ok(Some(1)) => { violations = 1; 1 } _ => 2 };
    }
    if agg.harness > 0 { eprintln!("note: {} of {} runs did something the simulator does not model; they decide nothing", agg.harness, agg.runs); }
    if agg.runs == 0 || (code == 0 && agg.harness == agg.runs) { eprintln!("no run was decided"); code = 2; }

    let per_h = |v: u64| (v as f64 / search.max(0.001) * 3600.) as u64;
    let simtime = agg.stats.get("simtime").copied().unwrap_or(0);
    let samples = agg.samples.iter().map(|s| json(s)).collect::<Vec<_>>().join(", ");
    let mut j = String::new();
    j += &format!("{{\"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"exploration\", \"coverage\": {{", json(prop), json(tier), seed);
    j += &format!("\"evaluations\": {}, \"distinct_nontrivial\": {}, \"rule\": {}, \"samples\": [{}], ", agg.runs, agg.nontrivial.len(),
        json("each run draws its workload, scheduling policy and fault plan from hash(VERIF_SEED, property, run index); non-trivial: at least two simulated threads alive at once with more than two baton hand-overs, or at least one injected fault that actually fired; distinct: by the hash of the synchronisation trace together with the event-history hash and the fault plan"), samples);
    j += &format!("\"seeds_per_hour\": {}, \"runs_planned\": {}, \"second_life_runs\": {}, \"simulator_refused_runs\": {}, ", per_h(agg.runs), count, agg.second, agg.harness);
    j += &format!("\"simulated_time_ns\": {}, \"scheduler_and_memory_totals\": {}, \"maxima\": {}, ", simtime, jmap(&agg.stats.iter().filter(|k| k.0 != "simtime").map(|(k, v)| (k.clone(), *v)).collect()), jmap(&agg.maxima));
    j += &format!("\"faults_fired\": {}, \"runs_with_fault\": {}, \"run_endings\": {}, ", jmap(&agg.fired), jmap(&agg.fired_runs), jmap(&agg.ends));
    j += &format!("\"multi_threaded_runs\": {}, \"distinct_interleavings\": {}, \"interleaving_measure\": {}, \"probes\": {}, \"violation_classes\": {}, ", agg.multi, agg.inter.len(),
        json("hash of the sequence of (thread, kind) over every atomic, futex, thread, file and block/finish event of a run with at least two live threads"), jmap(&agg.probes), jmap(&agg.classes));
    j += &format!("\"real_components\": {}, \"stub_components\": {}", json(props::real(prop)), json(props::stub(prop)));
    j += &format!("}}, \"assumptions\": [{}], \"wall_s\": {:.1}, \"violations\": {}}}\n", props::ASSUMPTIONS.iter().map(|s| json(s)).collect::<Vec<_>>().join(", "), t0.elapsed().as_secs_f64(), violations);
    let dir = format!("{}/evidence", verif());
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(format!("{}/{}.json", dir, prop), j) { eprintln!("evidence: {}", e); return 2; }
    println!("{} {}: {} runs ({} non-trivial distinct), {} distinct interleavings, {:.1} s, exit {}", prop, tier, agg.runs, agg.nontrivial.len(), agg.inter.len(), t0.elapsed().as_secs_f64(), code);
    code
}

/// Every run must be a function of its seed alone: run the same indices in
/// differently laid-out worker processes and compare everything they report.
pub fn selftest(seed: u64, n: u64) -> i32 {
    let mut bad = 0;
    for p in props::PROPS {
        let mut res: Vec<BTreeMap<(u64, String), String>> = Vec::new();
        for nw in [3u64, 8] {
            let mut m = BTreeMap::new();
            let kids: Vec<_> = (0..nw).map(|k| spawn(p, seed, k, nw, n, 3600, 1)).collect();
            for mut ch in kids {
                for l in BufReader::new(ch.stdout.take().unwrap()).lines().map_while(Result::ok) {
                    let w: Vec<&str> = l.split('\t').collect();
                    m.insert((w[1].parse::<u64>().unwrap(), w[0].to_string()), l.clone());
                }
                let _ = ch.wait();
            }
            res.push(m);
        }
        let diff: Vec<_> = res[0].iter().filter(|(k, v)| res[1].get(*k) != Some(v)).collect();
        println!("{}: {} runs, {} differ{}", p, res[0].len(), diff.len(), if res[0].len() == res[1].len() { "" } else { " (and the counts differ)" });
        for (k, v) in diff.iter().take(2) { println!("  {:?}\n   {}\n   {}", k, v, res[1].get(*k).map(|x| x.as_str()).unwrap_or("")); }
        bad += diff.len() + (res[0].len() != res[1].len()) as usize;
    }
    if bad == 0 { 0 } else { 2 }
}

pub fn minimise_one(prop: &str, seed: u64, index: u64, second: bool) -> i32 {
    let mut c = props::gen(prop, seed, index);
    if second {
        match run(&c).crash { Some(img) => c = second_life(&c, img), None => { eprintln!("run {}: the crash did not repeat", index); return 2; } }
    }
    let limit = std::env::var("DST_MIN_SECS").ok().and_then(|v| v.parse().ok()).unwrap_or(60);
    match minimise::minimise(&c, Duration::from_secs(limit)) {
        Ok((path, class, msg)) => {
            println!("VIOLATION property={} replay={}", prop, path);
            println!("  {}: {}", class, msg);
            1
        }
        Err(e) => { eprintln!("run {} of {}: {}", index, prop, e); 2 }
    }
}
