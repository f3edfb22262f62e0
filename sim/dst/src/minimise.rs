//! Shrink a failing run to a small replay file; re-execute replay files.
use std::time::{Duration, Instant};

use crate::case::Case;
use crate::check::verif;
use crate::run::{run, Out};

struct Min { class: String, end: Instant, tries: u32 }
impl Min {
    fn left(&self) -> bool { Instant::now() < self.end }
    /// Does this candidate fail in the same way?
    fn same(&mut self, c: &Case) -> Option<Out> {
        self.tries += 1;
        let o = run(c);
        if o.class == self.class { Some(o) } else { None }
    }
    fn any_seed(&mut self, c: &Case) -> Option<Case> {
        for k in 0..4u64 {
            if !self.left() { return None; }
            let mut d = c.clone();
            if k > 0 { d.plan.seed = simrt::hash2(c.plan.seed, k) >> 1; }
            if self.same(&d).is_some() { return Some(d); }
        }
        None
    }
}

/// Returns (path, class, message).
pub fn minimise(c0: &Case, limit: Duration) -> Result<(String, String, String), String> {
    let o0 = run(c0);
    if o0.class.is_empty() { return Err("the violation did not repeat: the run is not deterministic".into()); }
    let mut m = Min { class: o0.class.clone(), end: Instant::now() + limit, tries: 0 };
    let mut c = c0.clone();
    let slow = o0.class == "hang_real";
    let steps0 = o0.stat("steps");
    if !slow {
        // drop what is not needed: faults first, then the size of the workload
        loop {
            let mut progress = false;
            for k in (0..c.faults.len()).rev() { let mut d = c.clone(); d.faults.remove(k); if let Some(d) = m.any_seed(&d) { c = d; progress = true; } }
            for k in (0..c.injects.len()).rev() { let mut d = c.clone(); d.injects.remove(k); if let Some(d) = m.any_seed(&d) { c = d; progress = true; } }
            for k in (0..c.wfaults.len()).rev() { let mut d = c.clone(); d.wfaults.remove(k); if let Some(d) = m.any_seed(&d) { c = d; progress = true; } }
            for k in 0..c.cfg.0.len() {
                loop {
                    let (_, v, lo) = c.cfg.0[k].clone();
                    if v <= lo || !m.left() { break; }
                    let mut hit = false;
                    let mut cands = vec![lo, lo + (v - lo) / 2, lo + (v - lo) * 3 / 4, v - 1];
                    cands.dedup();
                    for nv in cands {
                        if nv >= v || nv < lo { continue; }
                        let mut d = c.clone();
                        d.cfg.0[k].1 = nv;
                        if let Some(d) = m.any_seed(&d) { c = d; hit = true; progress = true; break; }
                    }
                    if !hit { break; }
                }
            }
            if !progress || !m.left() { break; }
        }
        for (p, z) in [(0, 0u32), (1, 0), (2, 0), (3, 0), (4, 0), (5, 0), (6, 0)] {
            let mut d = c.clone();
            match p { 0 => d.plan.p_spur = z, 1 => d.plan.p_alloc = z, 2 => d.plan.p_conf = z, 3 => d.plan.mem_mean = z, 5 => d.plan.tick = 1, 6 => d.plan.skew = 0, _ => d.plan.p_sync = d.plan.p_sync.min(64) }
            if d.plan != c.plan { if let Some(d) = m.any_seed(&d) { c = d; } }
        }
    }
    // from a seed to an explicit schedule
    let mut d = c.clone();
    d.want_devs = true;
    if !slow { if let Some(o) = m.same(&d) {
        if o.stat("devs_lost") == 0 && o.devs.len() < 400_000 {
            let mut r = c.clone();
            r.plan.replay = 1;
            r.devs = o.devs.clone();
            if m.same(&r).is_some() {
                c = r;
                m.end = m.end.max(Instant::now() + Duration::from_secs(20));
                // delta debugging over the scheduling decisions
                let mut n = 1usize; // number of chunks
                while m.left() && !c.devs.is_empty() {
                    let len = c.devs.len();
                    let size = (len + n - 1) / n;
                    let mut hit = false;
                    let mut k = 0;
                    while k < c.devs.len() && m.left() {
                        let mut t = c.clone();
                        let e = (k + size).min(t.devs.len());
                        t.devs.drain(k..e);
                        if m.same(&t).is_some() { c = t; hit = true; } else { k += size; }
                    }
                    if size == 1 { if !hit { break; } } else if !hit { n = (n * 2).min(len); }
                    else { n = n.max(2); }
                }
            }
        }
    } }
    // what the file promises must happen, twice
    let a = run(&c);
    let b = run(&c);
    let (c, a) = if a.class == m.class && a.hash == b.hash && b.class == a.class { (c, a) } else { (c0.clone(), o0.clone()) };
    let mut c = c;
    c.class = a.class.clone();
    c.msg = a.msg.clone();
    c.hash = a.hash;
    let note = format!("minimised from run {} ({} steps) with {} candidate runs; now {} steps, {} threads, {} scheduling decisions", c0.index, steps0, m.tries, a.stat("steps"), a.stat("maxlive"), c.devs.len());
    c.note = if c.note.is_empty() { note } else { format!("{}; {}", c.note, note) };
    let dir = format!("{}/work/replays", verif());
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let path = format!("{}/{}-{}-{}.replay", dir, c.prop, c.class, c0.index);
    std::fs::write(&path, c.to_text()).map_err(|e| e.to_string())?;
    Ok((path, c.class.clone(), c.msg.clone()))
}

pub fn replay(path: &str) -> i32 {
    let t = match std::fs::read_to_string(path) { Ok(t) => t, Err(e) => { eprintln!("{}: {}", path, e); return 2; } };
    let c = Case::from_text(&t);
    let o = run(&c);
    println!("property {} run {} ends: {}", c.prop, c.index, o.end);
    println!("  recorded: {} (hash {:016x}) {}", c.class, c.hash, c.msg);
    println!("  now:      {} (hash {:016x}) {}", if o.class.is_empty() { "held" } else { &o.class }, o.hash, o.msg);
    if o.class.is_empty() { return 0; }
    if o.hash == c.hash && o.class == c.class { println!("  reproduced exactly"); } else { println!("  fails, but not as recorded (the code has changed since)"); }
    println!("VIOLATION property={} replay={}", c.prop, path);
    1
}
