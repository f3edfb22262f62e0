//! Per property: how runs are generated, what the clients do, what is checked.
use std::collections::{BTreeMap, HashMap};

use scen::parts::*;
use scen::work;
use simrt::model::{jitter, safe_offsets};
use simrt::*;

use crate::case::{Case, Fault};
use crate::model::*;
use crate::run::{oracle, End, PANICS};

pub type Verdict = Result<(), (String, String)>;
pub struct J { pub verdict: Verdict, pub probes: BTreeMap<String, u64>, pub sample: String }

use simrt::model::radius_of;

pub const PROPS: [&str; 21] = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21"];

fn bad<T>(class: &str, msg: String) -> Result<T, (String, String)> { Err((class.to_string(), msg)) }

// ============================================================ generation

fn plan(r: &mut Rng) -> Plan {
    let mut p = Plan { seed: r.next() >> 1, max_steps: 1_500_000_000, fair_slice: 3_000_000, ..Default::default() };
    match r.below(8) {
        0 | 1 => { p.policy = 1; p.pct_mean = r.pick(&[300, 3000, 30000, 300000]); p.mem_mean = r.pick(&[0, 200, 20000]); }
        2 => { p.p_sync = 2048; p.p_alloc = r.pick(&[0, 256]); }
        3 => { p.p_sync = 512; p.p_conf = 1024; }
        4 => { p.p_sync = 128; p.mem_mean = r.pick(&[60, 600, 6000]); p.p_conf = r.pick(&[0, 256]); }
        5 => { p.p_sync = 24; p.mem_mean = r.pick(&[2000, 50000]); }
        6 => { p.p_sync = 1024; p.p_alloc = 64; p.mem_mean = 3000; p.p_conf = 64; }
        _ => { p.p_sync = r.below(512) as u32; p.p_alloc = r.below(64) as u32; p.p_conf = r.below(512) as u32; p.mem_mean = 100 + r.below(20000) as u32; }
    }
    if r.chance(1, 3) { p.p_spur = r.pick(&[64, 512, 2048]); }
    // fast and slow machines: 1 ns to 10 ms from one scheduling point to the next
    p.tick = r.pick(&[1, 1, 1000, 100_000, 10_000_000]);
    if r.chance(1, 3) { p.skew = 1 + r.below(1 << 40); }
    p
}
fn size(r: &mut Rng) -> i64 {
    match r.below(20) { 0..=4 => r.range(1, 8), 5..=12 => r.range(9, 24), 13..=17 => r.range(25, 48), _ => r.range(49, 72) }
}
fn wall_cfg(r: &mut Rng) -> Cfg {
    let mut c = Cfg::default();
    let (mut w, mut h) = (size(r), size(r));
    if r.chance(1, 10) { w = r.range(100, 200); h = r.range(1, 6); }
    if r.chance(1, 10) { h = r.range(100, 200); w = r.range(1, 6); }
    c.set("w", w, 1);
    c.set("h", h, 1);
    c.set("threads", if r.chance(1, 6) { r.range(9, 24) } else { r.range(1, 6) }, 1);
    let spp = if w * h > 1500 { r.range(1, 2) } else if w * h > 400 { r.range(1, 4) } else { r.pick(&[1, 2, 3, 5, 8]) };
    c.set("spp", spp, 1);
    c.fix("radius4", if r.chance(1, 5) { 1000 + if r.chance(1, 8) { r.range(350, 700) } else { r.range(50, 350) } } else { r.pick(&[2, 2, 3, 4, 5, 6, 8, 8, 10, 13]) });
    c.fix("alpha4", r.pick(&[1, 4, 8]));
    c.fix("style", r.pick(&[0, 1, 2, 3, 5]));
    c.fix("color_seed", (r.next() >> 16) as i64);
    c.fix("jit_seed", (r.next() >> 16) as i64);
    c.set("panels", r.range(1, 3), 1);
    c.set("kd", r.range(0, 1), 0);
    if r.chance(1, 8) { c.set("inv", r.pick(&[4, 60, 300, 1024]), 0); c.fix("kinds", r.range(1, 15)); }
    c
}
fn scene_cfg(r: &mut Rng) -> Cfg {
    let mut c = Cfg::default();
    c.set("w", r.range(2, 30), 2);
    c.set("h", r.range(2, 24), 2);
    c.set("threads", r.range(2, 6), 1);
    c.set("spp", r.pick(&[1, 1, 2, 2, 4]), 1);
    c.fix("radius4", r.pick(&[2, 4, 6, 8]));
    c.fix("alpha4", r.pick(&[1, 4, 8]));
    c.fix("scene_seed", (r.next() >> 16) as i64);
    c.fix("jit_seed", (r.next() >> 16) as i64);
    c.set("shapes", r.range(0, 9), 0);
    c.set("alights", r.range(0, 2), 0);
    c.set("dlights", r.range(0, 2), 0);
    c.set("room", r.pick(&[0, 0, 1]), 0);
    c.set("bright", r.pick(&[0, 0, 1]), 0);
    c.set("kd", r.pick(&[0, 1, 1]), 0);
    c.fix("mats", r.pick(&[63, 63, 63, 1, 6, 2, 33]));
    c.fix("sampler", 0);
    c.set("mixed", r.range(0, 1), 0);
    c
}
fn stalls(r: &mut Rng, c: &mut Case, sites: &[u32], max: u64) {
    let n = (c.cfg.get("w") * c.cfg.get("h") * c.cfg.get("spp")).max(1) as u64;
    for _ in 0..r.below(max + 1) {
        let site = r.pick(sites);
        let at = match site { S_CLONE => r.below(20), S_SAMPLER => r.below(n / c.cfg.get("spp") as u64 + 1), _ => r.below(n) } as i64;
        let q = r.chance(1, 3);
        c.injects.push(Inject { site, at, action: if q { A_QSTALL } else { A_STALL }, arg: if q { 0 } else { r.pick(&[1000, 100_000, 10_000_000, 3_000_000_000, 3_600_000_000_000]) } });
    }
}
const EIO: i64 = 5;
const ENOSPC: i64 = 28;
const EACCES: i64 = 13;
const EAGAIN: i64 = 11;
const EBADF: i64 = 9;
const EPIPE: i64 = 32;
/// no space, I/O error, broken pipe, quota, file too large, try again, no such device, permission, timed out, bad descriptor, invalid
const WERR: [i64; 14] = [EIO, EIO, ENOSPC, ENOSPC, EPIPE, 122, 27, EAGAIN, 6, 1, 110, EBADF, 22, 12];
/// permission, no space, I/O error, read-only, too many files (process, system), is a directory, no such entry, exists, busy text, loop
const OERR: [i64; 12] = [EACCES, ENOSPC, EIO, 30, 24, 23, 21, 2, 17, 26, 40, 122];

fn nwrites(c: &Cfg) -> u64 { (c.get("w") * c.get("h") * 11 / 8192 + 2) as u64 }

fn io_transparent(r: &mut Rng, c: &mut Case) {
    let n = nwrites(&c.cfg) + 3;
    for _ in 0..r.below(5) {
        let kind = r.pick(&[F_WRITE_EINTR, F_WRITE_SHORT, F_WRITE_SHORT]);
        c.faults.push(Fault { kind, at: r.below(n), arg: r.below(9000) as i64 });
    }
    if r.chance(1, 4) { c.faults.push(Fault { kind: F_OPEN_EINTR, at: 0, arg: 0 }); }
}
fn rename_error(r: &mut Rng, c: &mut Case) {
    let arg = r.pick(&[18, 18, 1, EACCES, EIO, ENOSPC, 16]);
    let from = if r.chance(2, 3) { 0 } else { r.below(3) };
    for k in 0..r.pick(&[1, 1, 8]) { c.faults.push(Fault { kind: F_RENAME_ERR, at: from + k, arg }); }
}
fn io_hard(r: &mut Rng, c: &mut Case) {
    let n = nwrites(&c.cfg);
    match r.below(9) {
        0 | 1 => c.faults.push(Fault { kind: F_WRITE_ERR, at: r.below(n + 1), arg: r.pick(&WERR) }),
        2 => c.faults.push(Fault { kind: F_WRITE_ERR, at: n.saturating_sub(1 + r.below(2)), arg: r.pick(&WERR) }),
        3 | 4 => c.faults.push(Fault { kind: F_DISK_CAP, at: r.below((c.cfg.get("w") * c.cfg.get("h") * 12 + 30) as u64), arg: ENOSPC }),
        5 => c.faults.push(Fault { kind: F_OPEN_ERR, at: 0, arg: r.pick(&OERR) }),
        6 => c.faults.push(Fault { kind: F_WRITE_ZERO, at: r.below(n + 1), arg: 0 }),
        7 => c.faults.push(Fault { kind: F_SYNC_ERR, at: 0, arg: r.pick(&[EIO, EIO, ENOSPC, 122, 22]) }),
        _ => { for _ in 0..2 { c.faults.push(Fault { kind: F_WRITE_ERR, at: r.below(n + 1), arg: EIO }); } }
    }
    // a file that cannot be moved, now or ever
    if r.chance(1, 6) { rename_error(r, c); }
    // errors that do not go away
    if r.chance(1, 2) { for f in c.faults.clone() { if f.kind == F_WRITE_ERR { for k in 1..6 { c.faults.push(Fault { at: f.at + k, ..f.clone() }); } } } }
}

/// One error at one operation, in one of several renderings.
fn io_once(r: &mut Rng, c: &mut Case) {
    let parts = c.cfg.get("parts") as u64;
    let n = nwrites(&c.cfg) * parts;
    let f = match r.below(5) {
        0 => Fault { kind: F_OPEN_ERR, at: r.below(parts), arg: r.pick(&OERR) },
        1 => Fault { kind: F_WRITE_ZERO, at: r.below(n + 1), arg: 0 },
        _ => Fault { kind: F_WRITE_ERR, at: r.below(n + 1), arg: r.pick(&WERR) },
    };
    c.faults.push(f);
}

/// Renderings that begin while an earlier one is opening or writing its file.
fn begin_late(r: &mut Rng, c: &mut Case) {
    let n = c.cfg.get("parts");
    if let Some(k) = c.cfg.0.iter_mut().find(|e| e.0 == "gated") { k.1 = 1; }
    let ops = nwrites(&c.cfg) + 1;
    for i in 1..n { let at = match r.below(4) { 0 | 1 => 1, 2 => 1 + r.below(ops * (i as u64)) as i64, _ => 1_000_000 /* when the earlier ones are over */ }; c.cfg.set(&format!("begin_{}", i), at, 0); }
    for k in 0..n as u64 { if k == 0 || r.chance(1, 2) { c.faults.push(Fault { kind: F_SLOW_IO, at: k * ops + if r.chance(1, 2) { 0 } else { r.below(ops) }, arg: r.pick(&[0, 0, 1_000_000, 30_000_000_000]) }); } }
}

/// Disks and terminals that take their time.
fn slow_io(r: &mut Rng, c: &mut Case, n: u64) {
    for _ in 0..1 + r.below(3) { c.faults.push(Fault { kind: F_SLOW_IO, at: r.below(n), arg: r.pick(&[0, 0, 1000, 1_000_000, 30_000_000_000, 3_600_000_000_000]) }); }
}

pub fn gen(prop: &str, seed: u64, index: u64) -> Case {
    let mut r = Rng(hash2(seed, hash2(hash_bytes(prop.as_bytes()), index)));
    let mut c = Case { prop: prop.into(), index, plan: plan(&mut r), ..Default::default() };
    let all = [S_CAM, S_SHAPE, S_LE, S_MATERIAL, S_CONTAINER, S_SAMPLER, S_CLONE];
    match prop {
        "C01" => {
            c.cfg = wall_cfg(&mut r);
            if r.chance(1, 60) { c.cfg.set("w", r.range(200, 300), 1); c.cfg.set("h", r.range(200, 260), 1); c.cfg.set("spp", 1, 1); c.cfg.fix("radius4", 2); c.plan.mem_mean = 0; }
            else if r.chance(1, 60) {
                // long and thin: many blocks, few samples
                let (a, b) = if r.chance(1, 8) { (r.pick(&[32_760, 65_530]) + r.range(0, 40), 1) } else { (r.range(1500, 5000), r.range(1, 2)) };
                let t = r.chance(1, 2);
                c.cfg.set("w", if t { a } else { b }, 1); c.cfg.set("h", if t { b } else { a }, 1); c.cfg.set("spp", 1, 1); c.cfg.fix("radius4", 2); c.plan.mem_mean = 0;
            }
            else if r.chance(1, 40) { let n = r.range(60, 255); c.cfg.set("threads", n, 1); c.cfg.set("spp", 1, 1); }
            else if r.chance(1, 40) {
                // no picture at all, or filters narrower than a pixel or wider than a block
                let k = &mut c.cfg;
                match r.below(3) {
                    0 => { let n = r.pick(&["w", "h"]); k.set(n, 0, 0); }
                    1 => k.fix("radius4", 1),
                    _ => { k.fix("radius4", r.pick(&[24, 40, 72])); k.set("w", k.get("w").min(12), 1); k.set("h", k.get("h").min(12), 1); k.set("spp", 1, 1); }
                }
            }
            else if r.chance(1, 8) {
                // pt's own samplers, their positions unknown: the wall has one colour
                let k = &mut c.cfg;
                k.fix("own", r.range(1, 2)); k.fix("inv", 0);
                k.fix("style", 4);
                k.fix("panels", 1);
                match r.below(8) {
                    0 => { k.set("w", r.range(1, 3), 1); k.set("h", r.range(1, 3), 1); k.fix("radius4", 2); k.set("spp", r.range(200, 700), 1); }
                    1 if r.chance(1, 4) => { k.set("w", 1, 1); k.set("h", 1, 1); k.fix("radius4", 2); k.set("spp", r.pick(&[65535, 65536, 65537]), 1); c.plan.mem_mean = 0; }
                    _ => {}
                }
            }
            if r.chance(1, 2) { stalls(&mut r, &mut c, &all, 6); }
        }
        "C02" => {
            c.cfg = scene_cfg(&mut r);
            if r.chance(1, 4) { c.cfg.fix("sampler", r.pick(&[2, 2, 5])); }
            c.cfg.set("before", r.pick(&[0, 0, 0, 1, 2, 2]), 0);
            if r.chance(1, 8) { c.cfg.fix("odd", r.range(1, 31)); }
            if r.chance(1, 25) { c.cfg.set("threads", r.range(7, 100), 2); c.cfg.set("w", r.range(20, 60), 2); c.cfg.set("h", r.range(20, 40), 2); c.cfg.set("spp", 1, 1); c.plan.mem_mean = 0; }
            if r.chance(1, 3) { stalls(&mut r, &mut c, &[S_CAM, S_CONTAINER, S_CLONE, S_SAMPLER], 4); }
        }
        "C03" | "C04" => {
            let k = &mut c.cfg;
            k.set("w", if r.chance(1, 3) { r.range(1, 6) } else { r.range(1, 30) }, 1);
            k.set("h", if r.chance(1, 3) { r.range(1, 6) } else { r.range(1, 24) }, 1);
            k.fix("radius4", if r.chance(1, 5) { 1000 + r.range(30, 300) } else { r.pick(&[2, 4, 6, 8, 10]) });
            k.fix("alpha4", r.pick(&[1, 4, 8]));
            k.fix("op_seed", (r.next() >> 16) as i64);
            k.set("mergers", r.range(2, 6), 1);
            k.set("ops", r.range(1, if prop == "C03" { 8 } else { 4 }), 1);
            k.set("samples", r.range(1, 30), 1);
            let lo = if prop == "C04" { 1 } else { 0 };
            k.set("writers", r.range(lo, 2), lo);
            k.set("wops", r.range(1, 3), 1);
            k.set("wchunk", r.pick(&[0, 0, 0, 1, 3, 7]), 0);
            k.set("wfaults", r.pick(&[0, 0, 2, 5]), 0);
            if prop == "C03" && r.chance(1, 40) { k.set("ops", r.range(30, 300), 1); k.set("w", r.range(1, 8), 1); k.set("h", r.range(1, 8), 1); k.set("samples", r.range(1, 4), 1); }
            else if r.chance(1, 25) {
                // pictures of many rows, or of long ones
                let (a, b) = match r.below(3) { 0 => (r.range(60, 300), r.range(60, 240)), 1 => (r.range(300, 5000), r.range(1, 4)), _ => (r.range(1, 4), r.range(300, 5000)) };
                k.set("w", a, 1); k.set("h", b, 1);
                k.set("mergers", r.range(2, 4), 1);
                k.set("ops", r.range(1, 2), 1);
                k.set("samples", r.range(1, 300), 1);
                k.set("span", r.pick(&[20, 100, 5000]), 1);
                k.set("writers", 1, lo); k.set("wops", 1, 1);
                k.set("wchunk", r.pick(&[0, 0, 100, 1000]), 0);
                c.plan.mem_mean = 0;
            }
        }
        "C05" => {
            let big = r.chance(1, 25);
            c.cfg = wall_cfg(&mut r);
            let k = &mut c.cfg;
            k.set("threads", r.range(1, 4), 1);
            k.set("spp", 1, 1);
            if big { k.set("w", r.range(80, 200), 1); k.set("h", r.range(80, 130), 1); k.fix("radius4", 2); c.plan.mem_mean = 0; }
            if r.chance(1, 150) { k.set("w", r.range(300, 420), 1); k.set("h", r.range(280, 400), 1); k.fix("radius4", 2); c.plan.mem_mean = 0; }
            k.set("stale", r.pick(&[0, 1, 2, 2, 3, 3, 4, 5]), 0);
            k.fix("stale_seed", (r.next() >> 16) as i64);
            let seq = r.pick(&[1, 1, 2, 3]);
            k.set("seq", seq, 1);
            for i in 1..seq { k.set(&format!("w{}", i), size(&mut r), 1); k.set(&format!("h{}", i), size(&mut r), 1); k.fix(&format!("radius4{}", i), r.pick(&[2, 4, 8])); k.fix(&format!("alpha4{}", i), r.pick(&[1, 4, 8])); }
            if r.chance(1, 4) { c.cfg.set("tamper", r.range(1, 7), 0); }
            if r.chance(1, 3) { io_transparent(&mut r, &mut c); }
            if r.chance(1, 2) { let n = nwrites(&c.cfg) + 3; c.faults.push(Fault { kind: F_CRASH, at: r.below(n), arg: 0 }); }
            else if r.chance(1, 6) { c.plan.crash_at = 1 + r.below(200_000); }
            if r.chance(1, 4) { let n = nwrites(&c.cfg) + 3; slow_io(&mut r, &mut c, n); }
        }
        "C06" => {
            if r.chance(1, 3) {
                let k = &mut c.cfg;
                k.fix("kind", 1);
                k.set("w", r.range(1, 40), 1);
                k.set("h", r.range(1, 30), 1);
                k.fix("radius4", 4);
                k.fix("alpha4", 4);
                k.fix("op_seed", (r.next() >> 16) as i64);
                k.set("ops", r.range(1, 3), 1);
                k.set("samples", 30, 1);
                k.set("wchunk", r.pick(&[0, 0, 1, 5]), 0);
                k.set("buffered", r.pick(&[0, 0, 64, 8192]), 0);
                let n = (k.get("w") * k.get("h")) as u64 + 2;
                let calls = if k.get("buffered") > 64 { 3 } else { n };
                let hard = r.chance(1, 2);
                for _ in 0..r.below(4) { c.wfaults.push(WFault { at: r.below(calls), kind: r.pick(&[1, 2, 4]), arg: r.below(100_000) as i64 }); }
                if hard {
                    let kind = r.pick(&[0, 0, 3, 10]);
                    let at = if kind == 10 { 0 } else if r.chance(1, 3) { calls - 1 } else { r.below(calls) };
                    let arg = if r.chance(1, 3) { r.pick(&[4, 4, 5, 2]) } else { r.below(60) as i64 };
                    c.wfaults.push(WFault { at, kind, arg });
                    // a part is taken, then the error comes
                    if kind != 10 && at > 0 && r.chance(1, 2) { c.wfaults.push(WFault { at: at - 1, kind: 2, arg: r.below(100_000) as i64 }); }
                }
            } else {
                c.cfg = wall_cfg(&mut r);
                c.cfg.set("threads", r.range(1, 4), 1);
                c.cfg.set("spp", 1, 1);
                if r.chance(1, 30) { c.cfg.set("w", r.range(80, 200), 1); c.cfg.set("h", r.range(80, 130), 1); c.cfg.fix("radius4", 2); c.plan.mem_mean = 0; }
                c.cfg.set("stale", r.pick(&[0, 0, 2, 3]), 0);
                c.cfg.fix("stale_seed", (r.next() >> 16) as i64);
                io_transparent(&mut r, &mut c);
                if r.chance(2, 3) { io_hard(&mut r, &mut c); }
                if r.chance(1, 5) { let n = nwrites(&c.cfg) + 3; slow_io(&mut r, &mut c, n); }
            }
        }
        "C07" => {
            c.cfg = wall_cfg(&mut r);
            c.cfg.set("spp", c.cfg.get("spp").min(2), 1);
            c.cfg.set("stale", r.pick(&[0, 2, 3, 4]), 0);
            c.cfg.fix("stale_seed", (r.next() >> 16) as i64);
            let n = (c.cfg.get("w") * c.cfg.get("h")) as u64;
            match r.below(11) {
                0..=5 => {
                    for _ in 0..1 + r.below(3) {
                        let site = r.pick(&all);
                        let at = match site { S_CLONE => r.below(4 * c.cfg.get("threads") as u64), S_SAMPLER => r.below(n), _ => if r.chance(1, 4) { r.below(4) } else { r.below(n) } };
                        let arg = if r.chance(2, 3) { 0 } else if r.chance(1, 2) { r.range(1, 5) } else { 1 << 40 };
                        c.injects.push(Inject { site, at: at as i64, action: A_PANIC, arg });
                    }
                }
                6 => c.faults.push(Fault { kind: F_SPAWN, at: r.below(c.cfg.get("threads") as u64), arg: EAGAIN }),
                7 => {
                    // no thread can be started from some moment on, or only now and then
                    let th = c.cfg.get("threads") as u64;
                    let (a, all) = (r.below(th), r.chance(1, 2));
                    for k in a..th { if all || r.chance(1, 2) { c.faults.push(Fault { kind: F_SPAWN, at: k, arg: EAGAIN }) } }
                }
                9 => for _ in 0..1 + r.below(2) { let (x, y) = (r.range(-1, c.cfg.get("w")), r.range(-1, c.cfg.get("h"))); c.injects.push(Inject { site: S_CAM, at: x, action: A_PLACE, arg: y }) },
                8 => { let m = if r.chance(1, 2) { 200 } else { 6 * n }; c.faults.push(Fault { kind: F_ALLOC, at: r.below(m), arg: 0 }) }
                _ => {}
            }
            if r.chance(1, 3) { stalls(&mut r, &mut c, &[S_CAM, S_SAMPLER, S_CLONE], 3); }
            if r.chance(1, 5) { io_transparent(&mut r, &mut c); }
            if r.chance(1, 8) { io_hard(&mut r, &mut c); }
            if r.chance(1, 6) { slow_io(&mut r, &mut c, 6); }
        }
        "C08" => {
            if r.chance(1, 4) {
                c.cfg = scene_cfg(&mut r);
                c.cfg.fix("kind", 2);
                c.cfg.fix("mats", 1);
                c.cfg.set("shapes", r.range(0, 3), 0);
                c.cfg.set("alights", 1, 0);
                c.cfg.set("dlights", 1, 0);
            } else { c.cfg = wall_cfg(&mut r); }
            c.cfg.set("inv", r.pick(&[4, 30, 200, 600, 1024]), 0);
            c.cfg.fix("kinds", r.range(1, 15));
            if r.chance(2, 3) { c.faults.push(Fault { kind: F_STDERR, at: if r.chance(1, 2) { 0 } else { r.below(30) }, arg: r.pick(&[EPIPE, EBADF, ENOSPC, EAGAIN, EIO]) }); }
            if r.chance(1, 3) { slow_io(&mut r, &mut c, 30); }
        }
        "C09" => {
            let k = &mut c.cfg;
            let big = r.chance(1, 3);
            k.set("w", if big { r.range(60, 300) } else { r.range(1, 40) }, 1);
            k.set("h", if big { r.range(60, 300) } else { r.range(1, 40) }, 1);
            k.fix("radius4", r.pick(&[2, 4, 8]));
            k.fix("alpha4", 4);
            k.fix("op_seed", (r.next() >> 16) as i64);
            if r.chance(1, 4) {
                c.cfg = scene_cfg(&mut r);
                c.cfg.fix("kind", 2);
            } else {
                k.set("clients", r.range(1, 4), 1);
                k.set("ops", r.range(2, 12), 1);
                k.set("deep", r.range(0, 1), 0);
                k.set("spp", match r.below(8) { 0 => r.range(100_000, 200_000), 1 | 2 => r.range(1000, 20000), _ => r.range(1, 600) }, 1);
                if k.get("spp") > 50_000 { k.set("ops", 3, 1); k.set("clients", 2, 1); }
                else if r.chance(1, 2) { k.fix("walk", 1); k.set("ops", r.range(20, 120), 1); if k.get("spp") > 600 { k.set("spp", 600, 1); } }
                if r.chance(1, 3) {
                    let n = r.range(2, 3);
                    k.fix("pics", n);
                    for i in 1..n { k.set(&format!("w_{}", i), r.range(1, 200), 1); k.set(&format!("h_{}", i), r.range(1, 200), 1); k.set(&format!("spp_{}", i), r.range(1, 300), 1); }
                }
            }
        }
        "C10" => {
            c.cfg = scene_cfg(&mut r);
            let k = &mut c.cfg;
            k.set("w", r.range(2, 14), 2);
            k.set("h", r.range(2, 12), 2);
            k.set("spp", r.range(1, 2), 1);
            k.fix("sampler", r.pick(&[0, 2, 3, 3, 4, 5, 5, 6]));
            k.set("room", r.pick(&[0, 1, 1, 1]), 0);
            k.set("bright", r.pick(&[0, 1, 1]), 0);
            k.fix("mats", r.pick(&[2, 2, 6, 63, 16, 8, 32, 4, 1, 18]));
            if r.chance(1, 3) { k.fix("alights", 0); k.fix("dlights", 0); }
            if r.chance(1, 5) { k.fix("odd", r.range(1, 31)); }
            if r.chance(1, 12) {
                // next to nothing to see, or nothing at all
                k.fix("bare", 1); k.set("room", 0, 0); k.set("shapes", r.range(0, 2), 0);
                k.set("alights", r.range(0, 1), 0); k.set("dlights", r.range(0, 1), 0);
            }
        }
        "C11" => {
            if r.chance(1, 2) {
                let k = &mut c.cfg;
                k.fix("kind", 1);
                k.set("clients", r.range(2, 6), 2);
                k.set("ops", r.range(1, 8), 1);
                k.set("spp", r.range(1, 8), 1);
                k.set("w", 1, 1); k.set("h", 1, 1);
                if r.chance(1, 400) { k.set("ops", 50_000, 1); k.set("clients", 2, 2); c.plan.mem_mean = 0; c.plan.p_alloc = 0; }
                else { match r.below(12) {
                    0 => { k.set("ops", r.range(30, 700), 1); k.set("clients", 2, 2); }
                    1 => { k.fix("long", r.range(1000, 9000)); k.set("ops", 2, 1); k.set("clients", 2, 2); }
                    _ => {}
                } }
            } else {
                c.cfg = scene_cfg(&mut r);
                c.cfg.fix("sampler", 1);
                c.cfg.set("w", r.range(20, 44), 17);
                c.cfg.set("h", r.range(10, 30), 2);
                c.cfg.set("shapes", r.range(0, 2), 0);
            }
            for _ in 0..r.below(4) { c.faults.push(Fault { kind: r.pick(&[F_RANDOM_EINTR, F_RANDOM_EINTR, F_RANDOM_SHORT]), at: r.below(20), arg: r.below(4000) as i64 }); }
            match r.below(10) {
                // a system without getrandom: its entropy is read from a file
                0 => c.faults.push(Fault { kind: F_RANDOM_ERR, at: 0, arg: 38 }),
                // entropy that cannot be had
                1 => { let from = r.below(12); for k in 0..r.pick(&[1, 1, 2, 20]) { c.faults.push(Fault { kind: F_RANDOM_ERR, at: from + k, arg: r.pick(&[EIO, EAGAIN, 1, 38]) }); } }
                _ => {}
            }
        }
        "C12" => {
            c.cfg = wall_cfg(&mut r);
            let k = &mut c.cfg;
            k.set("w", r.range(17, 80), 1);
            k.set("h", r.range(10, 48), 1);
            k.set("spp", r.pick(&[1, 1, 2]), 1);
            k.set("threads", r.range(2, 10), 2);
            if r.chance(1, 30) { k.set("threads", r.range(11, 70), 2); k.set("w", r.range(100, 150), 1); k.set("h", r.range(100, 140), 1); k.set("spp", 1, 1); k.fix("radius4", 2); c.plan.mem_mean = 0; }
            else if r.chance(1, 250) { k.set("threads", r.range(71, 255), 2); k.set("w", r.range(256, 290), 1); k.set("h", r.range(256, 270), 1); k.set("spp", 1, 1); k.fix("radius4", 2); c.plan.mem_mean = 0; }
            // not the first rendering of its renderer
            let again = r.chance(1, 4) && k.get("threads") <= 10;
            if again { k.set("renders", 2, 1); k.set("threads2", r.range(1, 10), 1); }
            if r.chance(1, 2) { k.fix("hold_first", 1); } else {
                k.fix("hold_first", 0);
                let th = k.get("threads") as u64;
                let n = (k.get("w") * k.get("h") * k.get("spp")) as u64 * if again { 2 } else { 1 };
                let m = 1 + r.below(th - 1);
                // while it is copied, only in the workers: nobody else can be expected to go on
                let copies = 1 + (k.get("w") * k.get("h")) as u64 / 256 + th;
                for _ in 0..m {
                    let site = r.pick(&[S_CAM, S_CAM, S_SHAPE, S_LE, S_MATERIAL, S_SAMPLER, S_CONTAINER, S_CLONE]);
                    let at = if site == S_CLONE { (th + r.below(copies)) as i64 } else { r.below(n / 2) as i64 };
                    c.injects.push(Inject { site, at, action: A_QSTALL, arg: (site == S_CLONE) as i64 });
                }
            }
        }
        "C13" => {
            c.cfg = wall_cfg(&mut r);
            let k = &mut c.cfg;
            k.set("w", k.get("w").min(40), 1);
            k.set("h", k.get("h").min(30), 1);
            k.set("spp", r.range(1, 2), 1);
            k.set("renders", r.range(2, 4), 2);
            if r.chance(1, 12) { k.set("renders", r.range(5, 9), 2); k.set("w", k.get("w").min(12), 1); k.set("h", k.get("h").min(12), 1); }
            let many = r.chance(1, 120);
            if many { k.set("renders", r.range(250, 300), 2); let w = if r.chance(1, 2) { r.range(1, 3) } else { r.range(17, 50) }; k.set("w", w, 1); k.set("h", r.range(1, 3), 1); k.set("threads", 1, 1); k.set("spp", 1, 1); k.fix("radius4", r.pick(&[2, 4])); }
            k.set("threads2", if r.chance(1, 3) { k.get("threads") } else { r.range(1, 6) }, 1);
            if r.chance(1, 2) { k.set("threads3", if r.chance(1, 3) { k.get("threads") } else { r.range(1, 6) }, 1); }
            if many { k.set("threads2", r.range(1, 2), 1); if k.opt("threads3", 0) > 0 { k.set("threads3", r.range(1, 3), 1); } }
            if r.chance(1, 3) { stalls(&mut r, &mut c, &all, 4); }
            if r.chance(1, 5) { slow_io(&mut r, &mut c, 8); }
        }
        "C14" => {
            c.cfg = wall_cfg(&mut r);
            let k = &mut c.cfg;
            k.set("w", k.get("w").min(32), 1);
            k.set("h", k.get("h").min(24), 1);
            k.set("spp", 1, 1);
            if k.get("threads") > 12 { k.set("threads", 12, 1); }
            if r.chance(1, 3) {
                k.set("inv", r.pick(&[8, 60, 300, 1024]), 0);
                k.fix("kinds", r.range(1, 15));
                k.set("spp", r.range(1, 4), 1);
            }
            // slow leaks take many renderings to show
            let many = r.chance(1, 60);
            if many { k.set("w", r.range(1, 3), 1); k.set("h", r.range(1, 3), 1); k.set("threads", r.range(1, 2), 1); k.set("spp", 1, 1); k.fix("radius4", 2); c.plan.mem_mean = 0; }
            let k = &mut c.cfg;
            if r.chance(1, 2) {
                k.set("renders", if many { r.range(60, 280) } else { r.range(5, 7) }, 3);
                k.fix("audit", 1);
                if r.chance(1, 2) { io_transparent(&mut r, &mut c); }
                if r.chance(1, 3) { stalls(&mut r, &mut c, &all, 4); }
            } else {
                let lives = if many { r.range(60, 280) } else { r.range(5, 8) };
                k.set("lives", lives, 3);
                let n = (k.get("w") * k.get("h") * k.get("spp")) as u64;
                match r.below(4) {
                    0 | 1 => for _ in 0..1 + r.below(2 * lives as u64) { let site = r.pick(&[S_CAM, S_SHAPE, S_LE, S_MATERIAL, S_CONTAINER, S_SAMPLER]); c.injects.push(Inject { site, at: r.below(n * lives as u64) as i64, action: A_PANIC, arg: r.pick(&[0, 0, 2]) }) },
                    2 => { io_hard(&mut r, &mut c); c.faults.retain(|f| f.kind != F_DISK_CAP); for f in c.faults.clone() { for k in 1..lives.min(8) as u64 { let mut g = f.clone(); g.at = if f.kind == F_OPEN_ERR || f.kind == F_SYNC_ERR { r.below(lives as u64) } else { f.at + k * r.below(nwrites(&c.cfg) + 2) }; c.faults.push(g); } } }
                    _ => for _ in 0..1 + r.below(2 * lives as u64) { c.faults.push(Fault { kind: F_SPAWN, at: r.below(c.cfg.get("threads") as u64 * lives as u64), arg: EAGAIN }) },
                }
            }
        }
        "C15" => {
            c.cfg = scene_cfg(&mut r);
            let k = &mut c.cfg;
            k.fix("hook", 1);
            if r.chance(1, 6) { k.fix("odd", r.range(1, 31)); }
            k.fix("op_seed", (r.next() >> 16) as i64);
            k.set("shapes", if r.chance(1, 4) { r.range(10, 40) } else { r.range(1, 9) }, 0);
            k.set("questions", r.range(1, 10), 1);
            k.set("scenes", r.pick(&[1, 1, 2, 3]), 1);
            k.set("kin", r.pick(&[0, 2, 4, 5]), 0);
            k.set("clients", r.range(2, 6), 2);
            k.set("ops", r.range(2, 12), 1);
            if r.chance(1, 80) { k.set("questions", r.range(30, 200), 1); k.set("ops", r.range(20, 100), 1); k.set("clients", r.range(2, 3), 2); }
            if r.chance(1, 200) { k.set("ramp", 300, 0); k.fix("ramp_p", r.range(0, 1)); c.plan.mem_mean = 0; }
            else if r.chance(1, 4000) { k.set("ramp", 24, 0); k.fix("ramp_from", 65514); k.fix("ramp_p", r.range(0, 1)); c.plan.mem_mean = 0; }
            let k = &mut c.cfg;
            if r.chance(1, 3) {
                let m = 1 + r.below(k.get("clients") as u64 - 1);
                let n = (k.get("clients") * k.get("ops") * 8) as u64;
                for _ in 0..m { c.injects.push(Inject { site: r.pick(&[S_CONTAINER, S_SHAPE, S_SHAPE, S_MATERIAL, S_LE]), at: r.below(n) as i64, action: A_QSTALL, arg: 0 }); }
            }
        }
        "C16" => {
            c.cfg = wall_cfg(&mut r);
            let k = &mut c.cfg;
            let n = if r.chance(1, 15) { r.range(4, 9) } else { r.range(2, 3) };
            k.set("parts", n, 2);
            k.fix("gated", r.range(0, 1));
            k.set("made", r.range(0, 1), 0);
            k.set("gate_at", r.range(0, 3), 0);
            k.set("w", k.get("w").min(40), 1);
            k.set("h", k.get("h").min(32), 1);
            k.set("threads", k.get("threads").min(8), 1);
            if k.get("spp") > 2 { k.set("spp", 2, 1); }
            for i in 0..n {
                if r.chance(1, 2) { k.set(&format!("w_{}", i), size(&mut r).min(40), 1); k.set(&format!("h_{}", i), size(&mut r).min(32), 1); }
                if r.chance(1, 2) { k.set(&format!("threads_{}", i), r.range(1, 6), 1); }
                if r.chance(1, 3) { k.set(&format!("spp_{}", i), r.range(1, 3), 1); }
                if r.chance(1, 3) { k.fix(&format!("radius4_{}", i), r.pick(&[2, 4, 6, 8])); }
                if r.chance(1, 3) { k.fix(&format!("alpha4_{}", i), r.pick(&[1, 4, 8])); }
            }
            if r.chance(1, 3) {
                let mut d = scene_cfg(&mut r);
                for n in ["parts", "gated", "gate_at", "made"] { let v = k.get(n); if n == "parts" { d.set(n, v, 2) } else { d.fix(n, v) } }
                d.fix("kind", 2);
                d.fix("color_seed", 1);
                d.fix("sampler", r.pick(&[0, 0, 2]));
                for i in 0..n {
                    if r.chance(1, 2) { d.set(&format!("w_{}", i), r.range(2, 24), 2); d.set(&format!("h_{}", i), r.range(2, 20), 2); }
                    if r.chance(1, 2) { d.set(&format!("threads_{}", i), r.range(1, 4), 1); }
                    if r.chance(1, 2) { d.set(&format!("spp_{}", i), r.range(1, 3), 1); }
                }
                *k = d;
            }
            let m = (k.get("w") * k.get("h")) as u64 + 1;
            match r.below(4) {
                0 => for _ in 0..1 + r.below(2) { let site = r.pick(&[S_CAM, S_SHAPE, S_LE, S_SAMPLER]); c.injects.push(Inject { site, at: r.below(m) as i64, action: A_PANIC, arg: 0 }); },
                1 => stalls(&mut r, &mut c, &all, 4),
                2 => io_once(&mut r, &mut c),
                _ => {}
            }
            if r.chance(1, 3) { begin_late(&mut r, &mut c); }
        }
        "C17" => {
            let real = r.chance(1, 4);
            c.cfg = if real { scene_cfg(&mut r) } else { wall_cfg(&mut r) };
            let k = &mut c.cfg;
            k.fix("kind", if real { 2 } else { 0 });
            k.set("w", r.range(1, 14), 1);
            k.set("h", r.range(1, 14), 1);
            if r.chance(1, 4) { k.set("w", r.range(15, 34), 1); }
            k.fix("radius4", r.pick(&[2, 4, 6]));
            k.set("threads", r.range(1, 4), 1);
            k.set("spp", if real { r.range(8, 60) } else { r.range(100, 300) }, 1);
            if !real { k.fix("own", r.pick(&[0, 0, 1, 2])); }
            if real && r.chance(1, 2) {
                // few pixels and very many paths through a tree of some depth
                k.set("w", r.range(1, 3), 1);
                k.set("h", r.range(1, 3), 1);
                k.fix("radius4", 2);
                k.set("threads", r.range(1, 2), 1);
                k.set("spp", r.range(500, 2000), 1);
                k.set("shapes", r.range(4, 30), 0);
                k.fix("shade", r.range(0, 1));
                if k.get("alights") == 0 || k.get("shade") != 0 { k.set("dlights", r.range(1, 2), 0); }
                c.plan.mem_mean = 0;
            }
            let k = &mut c.cfg;
            if !real && r.chance(1, 4) {
                k.set("w", r.range(1, 2), 1);
                k.set("h", r.range(1, 2), 1);
                k.fix("radius4", 2);
                k.set("spp", r.range(2000, 5000), 1);
                c.plan.mem_mean = 0;
            }
            if !real && r.chance(1, 3) {
                k.set("inv", r.pick(&[60, 300, 1024]), 0);
                k.fix("kinds", r.range(1, 15));
            }
            let k = &mut c.cfg;
            c.plan.mem_mean = if c.plan.mem_mean > 0 { c.plan.mem_mean.max(20000) } else { 0 };
            if r.chance(1, 2) { stalls(&mut r, &mut c, &all, 4); }
        }
        "C18" => {
            c.cfg = wall_cfg(&mut r);
            let k = &mut c.cfg;
            k.set("threads", r.range(2, 6), 2);
            k.set("spp", k.get("spp").min(2), 1);
            k.set("w", k.get("w").min(60), 1);
            k.set("h", k.get("h").min(60), 1);
            k.set("inv", r.pick(&[1, 8, 60, 300]), 1);
            k.fix("kinds", r.range(1, 15));
            if r.chance(1, 4) { k.set("edge", 1, 0); }
            if r.chance(1, 150) {
                // thousands of lines, tens of thousands
                k.set("inv", 1024, 1);
                if r.chance(1, 2) { k.set("w", r.range(30, 60), 1); k.set("h", r.range(30, 60), 1); k.set("spp", 4, 1); }
                else { k.set("w", r.range(1, 3), 1); k.set("h", 1, 1); k.fix("radius4", 2); k.set("spp", r.range(3000, 16000), 1); }
                c.plan.mem_mean = 0;
            } else if r.chance(1, 60) {
                // positions of four and five digits
                let (a, b) = if r.chance(1, 6) { (r.pick(&[32_760, 65_530]) + r.range(0, 40), 1) } else { (r.range(900, 5000), r.range(1, 2)) };
                let t = r.chance(1, 2);
                k.set("w", if t { a } else { b }, 1); k.set("h", if t { b } else { a }, 1); k.set("spp", 1, 1); k.fix("radius4", 2);
                k.set("inv", r.pick(&[8, 60]), 1);
                c.plan.mem_mean = 0;
            }
            let n = (k.get("w") * k.get("h") * k.get("spp") * k.get("inv") / 200 + 10) as u64;
            for _ in 0..r.pick(&[0, 0, 2, 8]) { c.faults.push(Fault { kind: r.pick(&[F_STDERR_EINTR, F_STDERR_SHORT]), at: r.below(n), arg: r.below(200) as i64 }); }
            if r.chance(1, 4) { stalls(&mut r, &mut c, &all, 3); }
            if r.chance(1, 3) { slow_io(&mut r, &mut c, n); }
        }
        "C19" => {
            // any of the workloads that render, with their faults, and other files beside the picture
            let base = r.pick(&BASES);
            c = gen(base.1, r.next(), index);
            c.prop = prop.into();
            c.cfg.fix("base", base.0);
            if base.0 == 13 && r.chance(1, 2) {
                // a handful of blocks or a few dozen
                c.cfg.set("w", r.range(17, 100), 1); c.cfg.set("h", r.range(17, 50), 1); c.cfg.set("spp", 1, 1);
                c.cfg.set("renders", r.range(1, 2), 1);
            }
            if r.chance(1, 2) { let n = r.pick(&[4, 12, 40]); slow_io(&mut r, &mut c, n); }
            c.cfg.set("others", r.range(1, 65535), 1);
            c.cfg.fix("other_seed", (r.next() >> 16) as i64);
            if r.chance(1, 6) { rename_error(&mut r, &mut c); }
            if c.faults.is_empty() && r.chance(1, 3) { let n = nwrites(&c.cfg) + 3; c.faults.push(Fault { kind: F_CRASH, at: r.below(n), arg: 0 }); }
        }
        "C20" => {
            c.cfg = wall_cfg(&mut r);
            let k = &mut c.cfg;
            k.set("w", k.get("w").min(40), 1);
            k.set("h", k.get("h").min(32), 1);
            k.set("spp", k.get("spp").min(3), 1);
            let many = r.chance(1, 40);
            if many { k.set("w", r.range(1, 4), 1); k.set("h", r.range(1, 4), 1); k.set("threads", r.range(1, 2), 1); k.set("spp", 1, 1); k.fix("radius4", 2); c.plan.mem_mean = 0; }
            let k = &mut c.cfg;
            let n = if many { r.range(10, 60) } else { r.range(2, 5) };
            k.set("renders", n, 2);
            k.fix("survive", 1);
            k.fix("rest", r.below(16) as i64);
            k.set("threads2", if r.chance(1, 3) { k.get("threads") } else { r.range(1, 6) }, 1);
            let (m, th) = ((k.get("w") * k.get("h") * k.get("spp")) as u64, k.get("threads") as u64);
            match r.below(6) {
                0..=2 => for _ in 0..1 + r.below(2 * n as u64) {
                    let site = r.pick(&all);
                    let at = match site { S_CLONE => r.below(4 * th), S_SAMPLER => r.below(m / c.cfg.get("spp") as u64 + 1), _ => r.below(m * (n as u64 - 1)) };
                    c.injects.push(Inject { site, at: at as i64, action: A_PANIC, arg: r.pick(&[0, 0, 0, 3]) });
                },
                3 => for _ in 0..1 + r.below(2) { let (x, y) = (r.range(-1, c.cfg.get("w")), r.range(-1, c.cfg.get("h"))); c.injects.push(Inject { site: S_CAM, at: x, action: A_PLACE, arg: y }) },
                4 => for _ in 0..1 + r.below(n as u64) { c.faults.push(Fault { kind: F_SPAWN, at: r.below(th * (n as u64 - 1)), arg: EAGAIN }) },
                _ => {
                    io_hard(&mut r, &mut c);
                    for f in c.faults.clone() { if f.kind != F_DISK_CAP && r.chance(1, 2) { c.faults.push(Fault { at: f.at + 1 + r.below(nwrites(&c.cfg) + 2), ..f }); } }
                }
            }
            // all but the last fail
            if many && r.chance(1, 2) { c.injects = vec![Inject { site: S_CAM, at: 0, action: A_PLACE, arg: 0 }]; }
            if r.chance(1, 3) { stalls(&mut r, &mut c, &all, 4); }
            if r.chance(1, 5) { io_transparent(&mut r, &mut c); }
            if r.chance(1, 6) { slow_io(&mut r, &mut c, 8); }
        }
        "C21" => {
            c.cfg = wall_cfg(&mut r);
            let k = &mut c.cfg;
            let n = if r.chance(1, 4) { r.range(4, 9) } else { r.range(2, 3) };
            if r.chance(1, 4) { *k = scene_cfg(&mut r); k.fix("kind", 2); k.fix("color_seed", 1); k.fix("sampler", r.pick(&[0, 0, 2])); }
            k.set("parts", n, 2);
            k.set("clients", if r.chance(1, 2) { n } else { r.range(2, n) }, 2);
            k.fix("shared", 1);
            k.fix("gated", r.range(0, 1));
            k.set("gate_at", r.range(0, 3), 0);
            k.set("w", k.get("w").min(40), 1);
            k.set("h", k.get("h").min(32), 1);
            k.set("threads", k.get("threads").min(8), 1);
            k.set("spp", k.get("spp").min(2), 1);
            for i in 0..n { if r.chance(1, 2) { k.set(&format!("threads_{}", i), r.range(1, 6), 1); } }
            let m = (k.get("w") * k.get("h")) as u64 + 1;
            match r.below(4) {
                0 => for _ in 0..1 + r.below(2) { let site = r.pick(&[S_CAM, S_SHAPE, S_LE, S_SAMPLER, S_CLONE]); let at = if site == S_CLONE { r.below(8) } else { r.below(m) }; c.injects.push(Inject { site, at: at as i64, action: A_PANIC, arg: 0 }); },
                1 => stalls(&mut r, &mut c, &all, 4),
                2 => io_once(&mut r, &mut c),
                _ => {}
            }
            if r.chance(1, 3) { begin_late(&mut r, &mut c); }
            if r.chance(1, 6) { slow_io(&mut r, &mut c, 8); }
        }
        _ => panic!("unknown property {}", prop),
    }
    if c.cfg.0.iter().any(|e| e.0 == "scene_seed") && prop != "C15" { tame(&mut c.cfg); }
    c
}
/// Paths in closed bright rooms are long: keep a run well within its step budget.
fn tame(c: &mut Cfg) {
    let most = if c.opt("room", 0) != 0 { 4000 } else { 16000 };
    let m = (radius_of(c.get("radius4")) * 2.) as i64 + 1;
    let n = |c: &Cfg| (c.get("w") + m) * (c.get("h") + m) * c.get("spp");
    while n(c) > most {
        let (w, h, spp) = (c.get("w"), c.get("h"), c.get("spp"));
        let (k, v) = if spp > 1 { ("spp", spp * 3 / 4) } else if h > 2 { ("h", h - 1) } else if w > 18 { ("w", w - 1) } else { break };
        c.0.iter_mut().find(|e| e.0 == k).unwrap().1 = v;
    }
}
const BASES: [(i64, &str); 9] = [(5, "C05"), (6, "C06"), (7, "C07"), (8, "C08"), (13, "C13"), (14, "C14"), (16, "C16"), (20, "C20"), (21, "C21")];
/// The property whose workload a run uses.
fn base(case: &Case) -> &str {
    if case.prop != "C19" { return &case.prop; }
    BASES.iter().find(|b| b.0 == case.cfg.get("base")).unwrap().1
}

// ================================================================ set-up

fn stale_bytes(c: &Cfg) -> Option<Vec<u8>> {
    if c.opt("stale", 0) == 0 { return None; }
    let mut r = Rng(c.opt("stale_seed", 1) as u64);
    let (w, h) = (c.get("w"), c.get("h"));
    let full = (w * h * 12 + 20) as u64;
    let text = |r: &mut Rng, w: i64, h: i64| {
        let mut s = format!("P3\n{} {}\n255\n", w, h);
        for _ in 0..w * h { s += &format!("{} {} {}\n", r.below(256), r.below(256), r.below(256)); }
        s.into_bytes()
    };
    match c.opt("stale", 0) {
        0 => None,
        1 => Some((0..1 + r.below(40)).map(|_| r.next() as u8).collect()),
        2 => Some((0..full + 1 + r.below(500)).map(|_| 32 + (r.next() % 90) as u8).collect()),
        3 => { let (a, b) = (w + r.range(0, 3), h + r.range(1, 3)); Some(text(&mut r, a, b)) }
        4 => Some(text(&mut r, w, h)),
        _ => Some(Vec::new()),
    }
}

/// What may have become of a good picture by the time the same one is rendered again.
fn tamper(c: &Cfg) {
    let mut b = match vfs_get("output.ppm") { Some(b) if !b.is_empty() => b, _ => return };
    let mut r = Rng(hash2(c.opt("stale_seed", 1) as u64, 77));
    let n = b.len() as u64;
    let p = if r.chance(1, 3) { n - 1 - r.below(n.min(6)) } else { r.below(n) } as usize;
    let other = |x: u8, r: &mut Rng| if x.is_ascii_digit() { b'1' + r.below(9) as u8 } else { x };
    match c.get("tamper") {
        1 => { let p = (p..b.len()).find(|&i| b[i].is_ascii_digit()).unwrap_or(p); b[p] = if b[p] == b'3' { b'4' } else { b'3' } } // one digit
        2 => for x in b[p..].iter_mut() { *x = 0 }, // the end never reached the disk
        3 => b.truncate(p),
        4 => for _ in 0..=r.below(40) { b.push(b"0 7\n"[r.below(4) as usize]) },
        5 => for x in b[p..].iter_mut() { *x = other(*x, &mut r) }, // a picture that differs further down
        6 => for x in b[..p].iter_mut() { *x = other(*x, &mut r) }, // or higher up
        _ => {}
    }
    vfs_put("output.ppm", &b);
}

/// All files as they stand before the run.
fn files_before(case: &Case) -> Vec<(String, Vec<u8>)> {
    match &case.pre {
        Some(v) => v.clone(),
        None => {
            let mut v: Vec<_> = stale_bytes(&case.cfg).map(|b| ("output.ppm".to_string(), b)).into_iter().collect();
            if case.prop == "C19" { v.extend(others(&case.cfg)); }
            v
        }
    }
}
/// Files of the user's that lie beside the picture.
fn others(c: &Cfg) -> Vec<(String, Vec<u8>)> {
    let mut r = Rng(c.get("other_seed") as u64);
    let mut v = Vec::new();
    let dir = c.get("others") >> 5 & 1 == 1;
    for (k, name) in ["notes.txt", "output.ppm.bak", "OUTPUT.PPM", "output.png", "scene.pt", "renders/", "picture.ppm", "output.ppm~", "output-1.ppm", "scene.tmp", "renders/output.ppm", "render.log", "output.ppm.old", "output", ".hidden", "renders/a.tmp"].iter().enumerate() {
        let n = r.pick(&[0, 1, 100, 10_000]);
        let b: Vec<u8> = if name.ends_with('/') { Vec::new() } else if name.ends_with("ppm") || k == 2 { b"P3\n1 1\n255\n1 2 3\n".to_vec() } else { (0..n).map(|_| r.next() as u8).collect() };
        if c.get("others") >> k & 1 == 1 && (dir || !name.starts_with("renders/")) { v.push((name.to_string(), b)); }
    }
    v
}

extern "C" fn quiesce_cb() {
    let c = ctx();
    c.quiesce.push((c.count[S_CAM as usize] as u64, if c.in_cam > 0 { c.in_cam } else { c.finished }, c.renders));
}

pub fn setup(case: &Case) {
    for (n, b) in files_before(case) { vfs_put(&n, &b); }
    match base(case) {
        "C12" | "C15" => on_quiesce(Some(quiesce_cb)),
        "C11" => ctx().log_vals = true,
        "C09" if case.cfg.opt("kind", 0) == 2 => ctx().log_vals = true,
        _ => {}
    }
}

// ================================================================ clients

static VISITS: Global<Vec<(work::Visit, u32, Vec<u32>)>> = Global::new(Vec::new());
type Answers = Vec<(i64, i64, Vec<u32>)>;
static ANSWERS: Global<Answers> = Global::new(Vec::new());
static STREAMS: Global<Vec<Vec<u32>>> = Global::new(Vec::new());

pub fn client(case: &Case) {
    let cfg = &case.cfg;
    match base(case) {
        "C03" | "C04" => work::film_clients(cfg),
        "C06" if cfg.opt("kind", 0) == 1 => work::film_stream(cfg, case.wfaults.clone()),
        "C08" if cfg.opt("kind", 0) == 2 => work::scene_render(cfg),
        "C02" => {
            // what the process did before must not matter either
            match cfg.opt("before", 0) {
                1 => { let mut one = cfg.clone(); one.set("threads", 1, 1); work::scene_render(&one) }
                2 => { let mut o = cfg.clone(); let v = hash2(cfg.get("scene_seed") as u64, 3) >> 16; o.set("scene_seed", v as i64, 0); o.set("w", cfg.get("h"), 1); o.set("h", cfg.get("w"), 1); o.set("spp", 1, 1); work::scene_render(&o) }
                _ => {}
            }
            work::scene_render(cfg);
        }
        "C05" => {
            for i in (0..cfg.get("seq")).rev() {
                let mut k = cfg.clone();
                if i > 0 { for n in ["w", "h", "radius4", "alpha4"] { let v = cfg.get(&format!("{}{}", n, i)); k.set(n, v, 1); } }
                if i == 0 && cfg.opt("tamper", 0) > 0 { work::wall_render(&k); masked(|| tamper(cfg)); }
                work::wall_render(&k);
            }
        }
        "C09" if cfg.opt("kind", 0) != 2 => { let v = work::sampler_clients(cfg); masked(|| *VISITS.get() = v.clone()); }
        "C09" | "C10" => work::scene_render(cfg),
        "C11" if cfg.opt("kind", 0) == 1 => { let v = work::random_clients(cfg); masked(|| *STREAMS.get() = v.clone()); }
        "C11" => work::scene_render(cfg),
        "C14" if cfg.opt("lives", 0) > 0 => work::wall_lives(cfg),
        "C15" => { let v = work::scene_clients(cfg); masked(|| *ANSWERS.get() = v.clone()); }
        "C16" | "C21" => work::together(cfg),
        "C17" => {
            let mut one = cfg.clone();
            one.set("threads", 1, 1);
            one.set("spp", 1, 1);
            for k in [&one, cfg] { if cfg.get("kind") == 2 { work::scene_render(k) } else { work::wall_render(k) } }
        }
        "C18" => {
            let mut one = cfg.clone();
            one.set("threads", 1, 1);
            work::wall_render(&one);
            work::wall_render(cfg);
        }
        _ => work::wall_render(cfg),
    }
}

// -------------------------------------------------- answers of a fresh process

pub fn wants_oracle(case: &Case) -> bool {
    match &case.prop[..] { "C02" | "C09" | "C15" => true, "C16" | "C21" => case.cfg.opt("kind", 0) == 2, _ => false }
}
fn pack() -> Vec<i64> {
    let img = ctx().images.last().cloned().unwrap_or_default();
    let mut v = vec![img.len() as i64];
    v.extend(img.iter().map(|b| *b as i64));
    let mut c: Vec<(i64, i64)> = events().iter().filter(|f| f.kind == E_CAM).map(|f| (f.a, f.b)).collect();
    c.sort();
    for (a, b) in c { v.push(a); v.push(b); }
    v
}
fn unpack(v: &[i64]) -> (Vec<u8>, Vec<(i64, i64)>) {
    let n = v[0] as usize;
    (v[1..1 + n].iter().map(|b| *b as u8).collect(), v[1 + n..].chunks(2).map(|c| (c[0], c[1])).collect())
}
/// Runs in a process of its own, by one thread, with no faults.
pub fn alone(case: &Case, req: &[i64]) -> Vec<i64> {
    let cfg = &case.cfg;
    match &case.prop[..] {
        "C02" | "C16" | "C21" => {
            let mut one = if case.prop == "C02" { cfg.clone() } else { work::part(cfg, req[0]) };
            one.fix("shared", 0);
            one.set("threads", 1, 1);
            work::scene_render(&one);
            masked(pack)
        }
        "C15" => {
            let mut o = Vec::new();
            for a in work::ask_alone(cfg, req) { masked(|| { o.push(a.len() as i64); o.extend(a.iter().map(|v| *v as i64)); }) }
            o
        }
        "C09" => {
            let mut o = Vec::new();
            for q in req.chunks(6) {
                if q[4] == 0 {
                    // fresh sampler, one dimension at a time
                    let mut h = work::halton(cfg, q[0] as u64);
                    let mut v = Vec::new();
                    let more = work::visit(&mut h, q[1] as i32, q[2] as i32, q[3] as u32, q[5] as u32, 0, &mut v);
                    masked(|| { o.push(more as i64); o.extend(v.iter().map(|b| *b as i64)); })
                } else {
                    for p in work::pixel_points(cfg, q[0] as u64, q[1] as i32, q[2] as i32, q[5] as u32) { masked(|| { o.push(p[0].to_bits() as i64); o.push(p[1].to_bits() as i64); }) }
                }
            }
            o
        }
        _ => Vec::new(),
    }
}

// ================================================================= judging

fn panic_text() -> String { PANICS.get().first().map(|p| p.1.clone()).unwrap_or_default() }
fn injected_panics() -> u64 { ctx().panics }

fn hard_fault_fired() -> bool {
    [F_WRITE_ERR, F_DISK_CAP, F_OPEN_ERR, F_SYNC_ERR, F_WRITE_ZERO, F_SPAWN, F_ALLOC, 15, 16].iter().any(|k| fired(*k) > 0) || injected_panics() > 0
}
fn io_fault_fired() -> bool { [F_WRITE_ERR, F_DISK_CAP, F_OPEN_ERR, F_SYNC_ERR, F_WRITE_ZERO, F_ALLOC, 15].iter().any(|k| fired(*k) > 0) }

/// How a run may end.
fn check_end(end: &End) -> Verdict {
    match end {
        End::Deadlock => bad("deadlock", "every thread is blocked and nothing can wake any of them".into()),
        End::Budget => bad("no_progress", "the run did not finish within its step budget".into()),
        End::Panic if !hard_fault_fired() => bad("panic", format!("panicked without any fault that explains it: {}", panic_text())),
        End::Abort if fired(F_ALLOC) == 0 => bad("abort", format!("the process aborted: {}", panic_text())),
        _ => Ok(()),
    }
}

fn renders() -> Vec<(usize, Option<usize>)> {
    let mut v: Vec<(usize, Option<usize>)> = Vec::new();
    for (i, e) in events().iter().enumerate() {
        if e.kind == E_RENDER_INV { v.push((i, None)); }
        if e.kind == E_RENDER_RET { v.last_mut().unwrap().1 = Some(i); }
    }
    v
}

/// Every position of the sample area got exactly its samples between call and return.
fn check_counts(cfg: &Cfg, from: usize, to: usize) -> Verdict { check_counts_of(cfg, from, to, None) }
fn check_counts_of(cfg: &Cfg, from: usize, to: usize, id: Option<i64>) -> Verdict {
    let m = FilmModel::new(cfg);
    let (x0, y0, x1, y1) = m.area();
    let spp = cfg.get("spp") as u32;
    if cfg.opt("own", 0) != 0 { return own_counts(&events()[from..to], (x0, y0, x1, y1), spp); }
    let mut n: HashMap<(u32, u32), i64> = HashMap::new();
    let mut px: HashMap<(i32, i32), i64> = HashMap::new();
    for e in &events()[from..to] {
        if e.kind == E_CAM && id.map(|i| i == e.c).unwrap_or(true) {
            *n.entry((e.a as u32, e.b as u32)).or_insert(0) += 1;
            *px.entry((f32::from_bits(e.a as u32).floor() as i32, f32::from_bits(e.b as u32).floor() as i32)).or_insert(0) += 1;
        }
    }
    let offs = safe_offsets(radius_of(cfg.get("radius4")), cfg.get("w").max(cfg.get("h")));
    for y in y0..y1 {
        for x in x0..x1 {
            let got = px.remove(&(x, y)).unwrap_or(0);
            if got != spp as i64 { return bad("sample_count", format!("position ({}, {}) got {} camera samples, {} requested", x, y, got, spp)); }
            for s in 0..spp {
                let (u, v) = jitter(cfg.get("jit_seed") as u64, x, y, s, &offs);
                let k = ((x as f32 + u).to_bits(), (y as f32 + v).to_bits());
                let c = n.entry(k).or_insert(0);
                *c -= 1;
                if *c < 0 { return bad("sample_lost", format!("sample {} of position ({}, {}) was never taken", s, x, y)); }
            }
        }
    }
    if let Some((p, k)) = px.iter().next() { return bad("sample_outside", format!("position {:?} outside the sample area got {} samples", p, k)); }
    Ok(())
}
/// With pt's own samplers: every position is visited once and gets its samples, each within it.
fn own_counts(evs: &[Ev], (x0, y0, x1, y1): (i32, i32, i32, i32), spp: u32) -> Verdict {
    let mut at: HashMap<i32, (i32, i32)> = HashMap::new();
    let mut px: HashMap<(i32, i32), i64> = HashMap::new();
    for e in evs {
        if e.kind == E_PIXEL { at.insert(e.tid, (e.a as i32, e.b as i32)); }
        if e.kind == E_CAM {
            let (x, y) = match at.get(&e.tid) { Some(p) => *p, None => return bad("sample_outside", "a camera sample before the sampler was at any pixel".into()) };
            let (u, v) = (f32::from_bits(e.a as u32) - x as f32, f32::from_bits(e.b as u32) - y as f32);
            if !(u >= 0. && u <= 1. && v >= 0. && v <= 1.) { return bad("sample_outside", format!("the sampler was at pixel ({}, {}), the camera sample is at ({}, {})", x, y, f32::from_bits(e.a as u32), f32::from_bits(e.b as u32))); }
            *px.entry((x, y)).or_insert(0) += 1;
        }
    }
    for y in y0..y1 { for x in x0..x1 {
        let got = px.remove(&(x, y)).unwrap_or(0);
        if got != spp as i64 { return bad("sample_count", format!("position ({}, {}) got {} camera samples, {} requested", x, y, got, spp)); }
    } }
    if let Some((p, k)) = px.iter().next() { return bad("sample_outside", format!("position {:?} outside the sample area got {} samples", p, k)); }
    Ok(())
}
fn check_image(cfg: &Cfg, img: Option<&[u8]>) -> Verdict {
    let b = match img { Some(b) => b, None => return bad("no_image", "render returned but there is no output file".into()) };
    let p = match parse_ppm(b) { Ok(p) => p, Err(e) => return bad("image_invalid", format!("render returned but the output file is not a valid image: {}", e)) };
    match wall_model(cfg).check(&p) { Ok(()) => Ok(()), Err(e) => bad("image_wrong", e) }
}
fn same_image(a: &[u8], b: &[u8]) -> Verdict {
    let pa = parse_ppm(a).map_err(|e| ("image_invalid".to_string(), e))?;
    let pb = parse_ppm(b).map_err(|e| ("image_invalid".to_string(), e))?;
    if (pa.w, pa.h) != (pb.w, pb.h) { return bad("image_differs", format!("{}x{} against {}x{}", pa.w, pa.h, pb.w, pb.h)); }
    for i in 0..pa.px.len() {
        for k in 0..3 {
            if (pa.px[i][k] - pb.px[i][k]).abs() > 1 {
                return bad("image_differs", format!("pixel ({}, {}) channel {}: {} with one worker, {} in this run", i as i64 % pa.w, i as i64 / pa.w, k, pa.px[i][k], pb.px[i][k]));
            }
        }
    }
    Ok(())
}
fn cam_set(from: usize, to: usize) -> Vec<(i64, i64)> {
    let mut v: Vec<(i64, i64)> = events()[from..to].iter().filter(|e| e.kind == E_CAM).map(|e| (e.a, e.b)).collect();
    v.sort();
    v
}

pub fn judge(case: &Case, end: &End) -> J {
    let mut j = J { verdict: Ok(()), probes: BTreeMap::new(), sample: String::new() };
    j.verdict = judge_inner(case, end, &mut j.probes);
    let ends = format!("{:?}", end);
    *j.probes.entry(format!("end_{}", ends.to_lowercase())).or_insert(0) += 1;
    let cams = events().iter().filter(|e| e.kind == E_CAM).count();
    if cams > 0 { j.probes.insert("camera_samples".into(), cams as u64); }
    if injected_panics() > 0 { j.probes.insert("injected_panics".into(), injected_panics()); }
    j.sample = format!("index={} cfg=[{}] faults={} end={} events={}", case.index,
        case.cfg.0.iter().map(|(k, v, _)| format!("{}={}", k, v)).collect::<Vec<_>>().join(" "),
        case.faults.len() + case.injects.len() + case.wfaults.len(), ends, events().len());
    j
}

fn judge_inner(case: &Case, end: &End, probes: &mut BTreeMap<String, u64>) -> Verdict {
    let cfg = &case.cfg;
    let n = events().len();
    check_end(end)?;
    let file = vfs_get("output.ppm");
    match case.prop.as_str() {
        "C01" | "C13" => {
            if *end != End::Return { return Ok(()); }
            let rs = renders();
            for (k, (a, b)) in rs.iter().enumerate() {
                check_counts(cfg, *a, b.unwrap_or(n))?;
                if case.prop == "C13" || k + 1 == rs.len() { check_image(cfg, ctx().images.get(k).map(|v| &v[..]))?; }
            }
            if let Some((_, Some(b))) = rs.last() {
                if events()[*b..].iter().any(|e| e.kind == E_CAM) { return bad("late_sample", "samples were taken after render had returned".into()); }
            }
            check_image(cfg, file.as_deref())
        }
        "C02" => {
            if *end != End::Return { return Ok(()); }
            let rs = renders();
            let im = match ctx().images.last() { Some(i) => i, None => return bad("no_image", "there is no output file".into()) };
            let (img, cams) = unpack(&oracle(&[0])?);
            same_image(&img, im)?;
            let (a, b) = rs[rs.len() - 1];
            let now = cam_set(a, b.unwrap());
            if cams != now { return bad("samples_differ", format!("the camera samples taken differ: {} with one worker, {} in this run", cams.len(), now.len())); }
            Ok(())
        }
        "C03" | "C04" => {
            if *end != End::Return { return Ok(()); }
            judge_film(case, probes)
        }
        "C05" => {
            if *end != End::Return { return Ok(()); }
            check_image(cfg, file.as_deref())
        }
        "C06" if cfg.opt("kind", 0) == 1 => {
            if *end != End::Return { return Ok(()); }
            let e = match events().iter().find(|e| e.kind == E_WRITE_RET) { Some(e) => *e, None => return bad("no_image", "the write never ended".into()) };
            let (ok, hard) = (e.a != 0, e.b & 1 != 0);
            if !ok {
                if hard { *probes.entry("stream_error_reported".into()).or_insert(0) += 1; return Ok(()); }
                return bad("panic", format!("the write panicked though the stream only delayed it: {}", panic_text()));
            }
            if e.b >> 1 & 1 != 0 { return bad("flush_error_lost", "the write returned normally though every flush of the stream failed".into()); }
            let p = match parse_ppm(&ctx().images[e.c as usize]) { Ok(p) => p, Err(m) => return bad("write_lost", format!("the write returned normally but the stream does not hold the image: {}", m)) };
            let mut m = FilmModel::new(cfg);
            for op in 0..cfg.get("ops") { for s in work::merge_op(cfg, 0, op).1 { m.add(s.0, s.1, &s.2); } }
            m.check(&p).map_err(|e| ("image_wrong".to_string(), e))
        }
        "C06" | "C07" => {
            if *end == End::Return {
                check_image(cfg, file.as_deref())?;
                return Ok(());
            }
            if *end == End::Panic && !io_fault_fired() {
                // the rendering failed: an earlier picture must still be there
                let pre = files_before(case).into_iter().find(|f| f.0 == "output.ppm").map(|f| f.1);
                if file != pre { return bad("old_file_damaged", format!("rendering failed before there was an image, yet the output file was changed ({} bytes before, {} after)", pre.map(|p| p.len() as i64).unwrap_or(-1), file.map(|p| p.len() as i64).unwrap_or(-1))); }
                *probes.entry("old_file_kept".into()).or_insert(0) += 1;
            }
            Ok(())
        }
        "C08" => {
            if *end != End::Return { return Ok(()); }
            if cfg.opt("kind", 0) == 2 {
                return match file.as_deref().map(parse_ppm) { Some(Ok(_)) => Ok(()), Some(Err(e)) => bad("image_invalid", e), None => bad("no_image", "no output file".into()) };
            }
            let (a, b) = renders()[0];
            check_counts(cfg, a, b.unwrap_or(n))?;
            check_image(cfg, file.as_deref())
        }
        "C19" => {
            for (n, b) in others(cfg) {
                match vfs_get(&n) {
                    Some(v) if v == b => {}
                    Some(v) => return bad("other_file_changed", format!("{} had {} bytes and now has {}, or others", n, b.len(), v.len())),
                    None => return bad("other_file_gone", format!("{} is gone", n)),
                }
                *probes.entry("other_files_compared".into()).or_insert(0) += 1;
            }
            // a rendering that returned leaves the picture and nothing else
            if *end == End::Return && PANICS.get().is_empty() {
                let pre = files_before(case);
                if let Some(n) = vfs_names().iter().find(|n| *n != "output.ppm" && pre.iter().all(|p| p.0 != **n)) { return bad("file_left", format!("the rendering returned and left a file {} behind", n)); }
                *probes.entry("file_sets_compared".into()).or_insert(0) += 1;
            }
            Ok(())
        }
        "C20" => {
            if *end != End::Return { return Ok(()); }
            let rs = renders();
            let lives: Vec<Ev> = events().iter().filter(|e| e.kind == E_LIFE).cloned().collect();
            let mut failed = 0;
            for (k, l) in lives.iter().enumerate() {
                let which = |v: (String, String)| -> (String, String) { (v.0, format!("rendering {} ({} before it failed): {}", k, failed, v.1)) };
                if l.a == 0 {
                    if l.b == 0 { return bad("still_failing", format!("rendering {} failed though nothing went wrong in it; {} had failed before it: {}", k, failed, PANICS.get().last().map(|p| p.1.clone()).unwrap_or_default())); }
                    failed += 1;
                    continue;
                }
                check_image(cfg, ctx().images.get(k).map(|v| &v[..])).map_err(which)?;
                if l.c != 0 { check_counts(cfg, rs[k].0, rs[k].1.unwrap()).map_err(which)?; }
                *probes.entry(if failed > 0 { "images_compared_after_failures" } else { "images_compared" }.into()).or_insert(0) += 1;
            }
            if failed > 0 { probes.insert("failed_renderings".into(), failed); }
            check_image(cfg, file.as_deref())
        }
        "C09" => {
            if *end != End::Return { return Ok(()); }
            judge_sampler(case, probes)
        }
        "C10" => {
            if *end != End::Return { return Ok(()); }
            let q = ctx().rayq_max;
            probes.insert("max_ray_queries_of_a_path".into(), q);
            let n = ctx().scat_max;
            if cfg.get("alights") + cfg.get("dlights") == 0 {
                probes.insert("max_scatterings_of_a_path".into(), n);
                if n > 65 { return bad("path_too_long", format!("one light path scattered {} times", n)); }
            }
            if q > 256 { return bad("path_too_long", format!("one light path made {} ray queries", q)); }
            match file.as_deref().map(parse_ppm) { Some(Ok(_)) => Ok(()), Some(Err(e)) => bad("image_invalid", e), None => bad("no_image", "no output file".into()) }
        }
        "C11" => {
            if *end != End::Return { return Ok(()); }
            let mut seen: HashMap<(u32, u32), u32> = HashMap::new();
            let mut pairs = Vec::new();
            if cfg.opt("kind", 0) == 1 {
                for s in STREAMS.get().iter() { for q in s.chunks(3) { pairs.push((q[0], q[1])); } }
            } else {
                let mut first: Option<u32> = None;
                for v in ctx().vals.iter() { if v.3 == 0 { first = Some(v.4); } else if v.3 == 1 { if let Some(f) = first.take() { pairs.push((f, v.4)); } } }
            }
            let mut dup = 0;
            for p in &pairs {
                if !(f32::from_bits(p.0) >= 0. && f32::from_bits(p.0) < 1. && f32::from_bits(p.1) >= 0. && f32::from_bits(p.1) < 1.) { return bad("value_range", format!("random value {:?} outside [0, 1)", p)); }
                let e = seen.entry(*p).or_insert(0);
                *e += 1;
                if *e > 1 { dup += 1; }
            }
            probes.insert("random_pairs".into(), pairs.len() as u64);
            if dup >= 3 { return bad("stream_repeated", format!("{} of {} random sample pairs were handed out more than once", dup, pairs.len())); }
            Ok(())
        }
        "C12" => {
            if *end != End::Return { return Ok(()); }
            judge_parallel(case, probes)
        }
        "C14" => {
            if *end != End::Return { return Ok(()); }
            let v: Vec<_> = events().iter().filter(|e| e.kind == E_AUDIT).collect();
            let (mut most, mut grown) = (0, 0);
            for (k, e) in v.iter().enumerate() {
                let (t, f) = (e.c >> 32, e.c & 0xffff_ffff);
                if t > 1 { return bad("threads_left", format!("{} threads are left when rendering {} is over and all is quiet", t - 1, k)); }
                if f > 0 { return bad("files_left", format!("{} files are still open when rendering {} is over", f, k)); }
                // std may set up things that last for the life of a thread or the process when they
                // are first needed: these are few and small, and each comes once
                if k < 2 { most = e.a; continue; }
                if e.a > most { grown += 1; most = e.a; }
                if grown >= 3 || most > v[1].a + 1024 { return bad("memory_left", format!("{} bytes in {} blocks are held after rendering {}, {} bytes in {} blocks after rendering 1", e.a, e.b, k, v[1].a, v[1].b)); }
            }
            probes.insert("audits".into(), v.len() as u64);
            let failed = events().iter().filter(|e| e.kind == E_LIFE && e.a == 0).count();
            if failed > 0 { probes.insert("failed_renderings_audited".into(), failed as u64); }
            Ok(())
        }
        "C15" => {
            if *end != End::Return { return Ok(()); }
            let all = ANSWERS.get();
            let mut alone: HashMap<i64, Vec<u32>> = HashMap::new();
            for g in 0..3 {
                let qs: Vec<i64> = (0..cfg.get("questions")).rev().filter(|q| q % 3 == g && all.iter().any(|a| a.1 == *q)).collect();
                if qs.is_empty() { continue; }
                let v = oracle(&qs)?;
                let mut k = 0;
                for q in qs { let n = v[k] as usize; alone.insert(q, v[k + 1..k + 1 + n].iter().map(|x| *x as u32).collect()); k += 1 + n; }
            }
            for (c, q, a) in all.iter() {
                let b = &alone[q];
                if a != b {
                    let d = (0..a.len().max(b.len())).find(|d| a.get(*d) != b.get(*d)).unwrap();
                    return bad("answer_differs", format!("client {} got another answer to question {} than when it is asked alone: word {} of {} is {:?}, alone {:?}", c, q, d, a.len(), a.get(d).map(|v| f32::from_bits(*v)), b.get(d).map(|v| f32::from_bits(*v))));
                }
            }
            let cl = cfg.get("clients");
            for (k, (_, done, _)) in ctx().quiesce.iter().enumerate() {
                let want = cl - case.injects.len() as i64;
                *probes.entry("quiescent_points".into()).or_insert(0) += 1;
                if *done < want { return bad("held_back", format!("only {} of {} clients were through when everything waited (stall {}), though at most {} were stalled", done, cl, k, case.injects.len())); }
            }
            probes.insert("answers_compared".into(), all.len() as u64);
            probes.insert("words_compared".into(), all.iter().map(|a| a.2.len() as u64).sum());
            Ok(())
        }
        "C16" | "C21" => {
            if *end != End::Return { return Ok(()); }
            if events().iter().any(|e| e.kind == E_SEP_RET && e.a == -2) { probes.insert("renderer_cannot_be_shared".into(), 1); return Ok(()); }
            let n_parts = cfg.get("parts");
            let gated = cfg.get("gated") != 0;
            let real = cfg.opt("kind", 0) == 2;
            let start = events().iter().position(|e| e.kind == E_SEP_RET && e.a == -1).unwrap();
            let rets: Vec<Ev> = events().iter().filter(|e| e.kind == E_SEP_RET && e.a >= 0).cloned().collect();
            let failed = rets.iter().filter(|e| e.b == 0).count() as u64;
            // renderings that write the same file at one time may spoil each other's output
            let io = [F_WRITE_ERR, F_OPEN_ERR, F_WRITE_ZERO].iter().map(|k| fired(*k)).sum::<u64>();
            if gated && failed > injected_panics() + io { return bad("failure_spread", format!("{} of {} renderings failed after {} injected failures: {}", failed, n_parts, injected_panics() + io, panic_text())); }
            let which = |i: i64| format!("rendering {} of {} at one time: ", i, n_parts);
            let img = |k: i64| if k >= 0 { Some(&ctx().images[k as usize][..]) } else { None };
            let mut last: Option<Option<&[u8]>> = None;
            for e in rets.iter().filter(|e| e.b != 0) {
                let k = work::part(cfg, e.a);
                let to = events().iter().position(|f| f.kind == E_SEP_RET && f.a == e.a).unwrap();
                if events()[to..].iter().any(|f| f.kind == E_CAM && f.c == e.a) { return bad("late_sample", format!("rendering {} took samples after it had returned", e.a)); }
                if real {
                    let (ref_img, ref_cams) = unpack(&oracle(&[e.a])?);
                    let set = |a: usize, b: usize| { let mut v: Vec<(i64, i64)> = events()[a..b].iter().filter(|f| f.kind == E_CAM && f.c == e.a).map(|f| (f.a, f.b)).collect(); v.sort(); v };
                    let (a, b) = (ref_cams, set(start, to));
                    if a != b { return bad("samples_differ", which(e.a) + &format!("the camera samples taken differ: {} alone, {} in this run", a.len(), b.len())); }
                    if gated { match img(e.c) { Some(b) => same_image(&ref_img, b).map_err(|(c, m)| (c, which(e.a) + &m))?, None => return bad("no_image", which(e.a) + "no output file") } }
                } else {
                    check_counts_of(&k, start, to, Some(e.a)).map_err(|(c, m)| (c, which(e.a) + &m))?;
                    if gated { check_image(&k, img(e.c)).map_err(|(c, m)| (c, which(e.a) + &m))?; }
                }
                if gated { *probes.entry("images_compared".into()).or_insert(0) += 1; }
                last = Some(img(e.c));
            }
            if let (true, Some(last)) = (gated, last) {
                if io == 0 && file.as_deref() != last { return bad("image_spoiled", "the output file is not the image of the last rendering that returned".into()); }
            }
            if rets.len() as i64 != n_parts { return bad("rendering_missing", format!("{} of {} renderings ended", rets.len(), n_parts)); }
            probes.insert("renderings_at_one_time".into(), n_parts as u64);
            if failed > 0 { probes.insert("failed_renderings".into(), failed); }
            Ok(())
        }
        "C17" => {
            if *end != End::Return { return Ok(()); }
            let v: Vec<i64> = events().iter().filter(|e| e.kind == E_PEAK).map(|e| e.a).collect();
            if v.len() != 2 { return bad("no_image", "a rendering did not end".into()); }
            let m = FilmModel::new(cfg);
            let (x0, y0, x1, y1) = m.area();
            let area = ((x1 - x0) * (y1 - y0)) as i64;
            let allow = 64 * area + 49152 * cfg.get("threads") + 16384;
            probes.insert("most_bytes_over_one_worker_and_one_sample".into(), (v[1] - v[0]).max(0) as u64);
            probes.insert("samples_of_the_long_rendering".into(), area as u64 * cfg.get("spp") as u64);
            if v[1] > v[0] + allow { return bad("memory_grows", format!("rendering with {} samples per pixel and {} threads held up to {} bytes, with one sample and one thread {}; image and threads account for {}", cfg.get("spp"), cfg.get("threads"), v[1], v[0], allow)); }
            Ok(())
        }
        "C18" => {
            if *end != End::Return { return Ok(()); }
            if stat(20) != 0 { return Ok(()); }
            let text = stderr_text();
            let marks: Vec<usize> = events().iter().filter(|e| e.kind == E_STDERR).map(|e| e.a as usize).collect();
            if marks.len() != 2 || marks[1] != text.len() { return bad("late_warning", format!("{} bytes of warnings when the renderings had returned, {} in the end", marks.last().unwrap_or(&0), text.len())); }
            let lines = |a: usize, b: usize| -> Vec<String> {
                let s = String::from_utf8_lossy(&text[a..b]).into_owned();
                let mut v: Vec<String> = s.lines().map(|l| l.to_string()).collect();
                if !s.is_empty() && !s.ends_with('\n') { v.push("(the last line is not ended)".into()); }
                v.sort();
                v
            };
            let (one, many) = (lines(0, marks[0]), lines(marks[0], marks[1]));
            if let Some(l) = many.iter().find(|l| one.binary_search(l).is_err()) { return bad("warning_mixed", format!("the line {:?} is none of those one worker writes (such as {:?})", l, one.first())); }
            let bad_px = invalid_points(cfg);
            if many.len() != bad_px.len() { return bad("warning_count", format!("{} lines of warnings for {} invalid samples", many.len(), bad_px.len())); }
            if one != many { return bad("warnings_differ", format!("the {} lines of warnings are not those one worker writes", many.len())); }
            let nums = |l: &str| -> Vec<i64> { l.split(|c: char| !c.is_ascii_digit() && c != '-').filter_map(|t| t.parse().ok()).collect() };
            let named: Vec<Vec<i64>> = many.iter().map(|l| nums(l)).collect();
            for p in bad_px.iter() {
                if !named.iter().any(|v| v.contains(&(p.0 as i64)) && v.contains(&(p.1 as i64))) { return bad("warning_missing", format!("no line names pixel ({}, {}), which had an invalid sample", p.0, p.1)); }
            }
            probes.insert("warnings_compared".into(), many.len() as u64);
            Ok(())
        }
        _ => Ok(()),
    }
}

fn judge_parallel(case: &Case, probes: &mut BTreeMap<String, u64>) -> Verdict {
    let cfg = &case.cfg;
    let m = FilmModel::new(cfg);
    let (x0, y0, x1, y1) = m.area();
    let (tx, ty) = ((x1 - x0 + 15) / 16, (y1 - y0 + 15) / 16);
    let tiles = (tx * ty) as i64;
    let th = cfg.get("threads");
    let total = ((x1 - x0) * (y1 - y0)) as u64 * cfg.get("spp") as u64;
    if cfg.get("hold_first") != 0 {
        let th = if cfg.opt("renders", 1) > 1 { cfg.get("threads2") } else { th };
        let want = th.min(tiles);
        let got = ctx().quiesce.first().map(|q| q.1).unwrap_or(0);
        probes.insert("held_in_parallel".into(), got as u64);
        if got > th { return bad("too_many_workers", format!("{} workers were requested, {} camera samples were in flight at once", th, got)); }
        if got < want { return bad("not_parallel", format!("{} workers were requested and there are {} blocks of work, but only {} camera samples could be in flight at once", th, tiles, got)); }
        return Ok(());
    }
    for (k, (cams, _, now)) in ctx().quiesce.iter().enumerate() {
        let th = if *now > 1 { cfg.get("threads2") } else { th };
        let cams = &cams.saturating_sub(total * (*now - 1).max(0) as u64);
        // each stall that was entered by then holds back one worker's block
        let held = case.injects.len().min(th as usize) as u64;
        if held >= th as u64 { continue; }
        let lo = total.saturating_sub(held * 256 * cfg.get("spp") as u64);
        *probes.entry("quiescent_points".into()).or_insert(0) += 1;
        if *cams < lo { return bad("held_back", format!("with {} of {} workers stalled, only {} of {} samples were taken before everything waited (stall {}); at most {} could depend on the stalled workers", held, th, cams, total, k, total - lo)); }
    }
    Ok(())
}

fn judge_sampler(case: &Case, probes: &mut BTreeMap<String, u64>) -> Verdict {
    let cfg = &case.cfg;
    if let Some(e) = events().iter().find(|e| e.kind == E_VAL && e.a == -1) { return bad("clone_differs", format!("a clone taken in mid-sample at pixel ({}, {}) does not continue as the original does", e.b, e.c)); }
    let range = |b: u32| { let v = f32::from_bits(b); v >= 0. && v < 1. };
    // fresh samplers in fresh processes: the requests in three groups, last first
    let fresh = |qs: &[[i64; 6]]| -> Result<Vec<Vec<i64>>, (String, String)> {
        let mut res = vec![Vec::new(); qs.len()];
        for g in 0..3 {
            let ids: Vec<usize> = (0..qs.len()).rev().filter(|k| k % 3 == g).collect();
            if ids.is_empty() { continue; }
            let v = oracle(&ids.iter().flat_map(|k| qs[*k].to_vec()).collect::<Vec<i64>>())?;
            let mut at = 0;
            for k in ids {
                let n = if qs[k][4] == 0 { 1 + qs[k][5] } else { 2 * qs[k][5] } as usize;
                if at + n > v.len() { return bad("reference_failed", "too few values".into()); }
                res[k] = v[at..at + n].to_vec();
                at += n;
            }
        }
        Ok(res)
    };
    // the samples of one pixel: even in every power-of-two set of columns and power-of-three set of rows
    let spread = |x: i32, y: i32, n: u32, v: &[i64]| -> Verdict {
        for (i, base) in [(0, 2u32), (1, 3)] {
            let mut m = base;
            while m <= n {
                let mut seen = vec![false; m as usize];
                for p in v.chunks(2).take(m as usize) {
                    let c = ((f32::from_bits(p[i] as u32) as f64 * m as f64 + 1e-4) as usize).min(m as usize - 1);
                    if seen[c] { return bad("uneven", format!("of the first {} samples of pixel ({}, {}) two fall in {} {} of {}", m, x, y, if i == 0 { "column" } else { "row" }, c, m)); }
                    seen[c] = true;
                }
                m *= base;
            }
        }
        Ok(())
    };
    if cfg.opt("kind", 0) == 2 {
        let mut by: BTreeMap<(i32, i32, u32), Vec<(u32, u32)>> = BTreeMap::new();
        for v in ctx().vals.iter() { by.entry((v.0, v.1, v.2)).or_default().push((v.3, v.4)); }
        let qs: Vec<[i64; 6]> = by.iter().map(|((x, y, s), vs)| [0, *x as i64, *y as i64, *s as i64, 0, vs.len() as i64]).collect();
        let os = fresh(&qs)?;
        for (((x, y, s), vs), o) in by.iter().zip(os) {
            for (d, b) in vs {
                if !range(*b) { return bad("value_range", format!("value {} of sample {} at pixel ({}, {}) is {}", d, s, x, y, f32::from_bits(*b))); }
                let f = o.get(1 + *d as usize).map(|v| *v as u32);
                if f != Some(*b) { return bad("history_dependent", format!("value {} of sample {} at pixel ({}, {}) is {} in this render, {:?} from a fresh sampler", d, s, x, y, f32::from_bits(*b), f.map(|v| f32::from_bits(v)))); }
                *probes.entry("values_compared".into()).or_insert(0) += 1;
            }
        }
        return Ok(());
    }
    let vs = VISITS.get();
    *probes.entry("pixels_checked_for_even_spread".into()).or_insert(0) += vs.len() as u64;
    let one: Vec<[i64; 6]> = vs.iter().map(|(v, _, out)| [v.pic as i64, v.x as i64, v.y as i64, v.sample as i64, 0, out.len() as i64]).collect();
    let all: Vec<[i64; 6]> = vs.iter().map(|(v, _, _)| [v.pic as i64, v.x as i64, v.y as i64, 0, 1, work::spp_of(cfg, v.pic).min(128) as i64]).collect();
    let (one, all) = (fresh(&one)?, fresh(&all)?);
    // pixels of the image in one block of 128 by 128 share no point of the sequence
    if let Some((v, _, _)) = vs.first() {
        let k = work::picture(cfg, v.pic);
        let (w, h) = (k.get("w"), k.get("h"));
        let mut r = Rng(hash2(cfg.get("op_seed") as u64, 31));
        let (bx, by) = (r.below((w as u64 + 127) / 128) as i64 * 128, r.below((h as u64 + 127) / 128) as i64 * 128);
        let (bw, bh) = ((w - bx).min(128), (h - by).min(128));
        let mut px: Vec<(i64, i64)> = Vec::new();
        for _ in 0..if bw > 0 && bh > 0 { 4 } else { 0 } {
            let (x, y) = (r.below(bw as u64) as i64, r.below(bh as u64) as i64);
            let near = r.pick(&[1, 1, 2, 8, 16, 32, 64, 81, 27]);
            for (x, y) in [(x, y), (y, x), (x + near, y), (x, y + near), (x + 1, y - 1), (bw - 1, y), (x, bh - 1)] {
                if x >= 0 && y >= 0 && x < bw && y < bh && !px.contains(&(bx + x, by + y)) { px.push((bx + x, by + y)); }
            }
        }
        let qs: Vec<[i64; 6]> = px.iter().flat_map(|p| (0..k.get("spp").min(3)).map(move |s| [v.pic as i64, p.0, p.1, s, 0, 8])).collect();
        let mut seen: HashMap<Vec<i64>, [i64; 6]> = HashMap::new();
        for (q, o) in qs.iter().zip(fresh(&qs)?) {
            *probes.entry("sequence_points_compared".into()).or_insert(0) += 1;
            if let Some(p) = seen.insert(o[3..].to_vec(), *q) { return bad("point_shared", format!("sample {} of pixel ({}, {}) and sample {} of pixel ({}, {}) are one point of the sequence", p[3], p[1], p[2], q[3], q[1], q[2])); }
        }
    }
    for (((v, more, out), o), pts) in vs.iter().zip(one).zip(all) {
        spread(v.x, v.y, work::spp_of(cfg, v.pic).min(128), &pts)?;
        let m2 = o[0] as u32;
        let o: Vec<u32> = o[1..].iter().map(|b| *b as u32).collect();
        if *more != m2 { return bad("sample_number", format!("the sampler at pixel ({}, {}) announced {} further samples, a fresh one {}", v.x, v.y, more, m2)); }
        let spp = work::spp_of(cfg, v.pic);
        if m2 != v.sample.min(spp - 1) { return bad("sample_number", format!("{} samples requested, {} steps at pixel ({}, {}) gave {} more", spp, v.sample, v.x, v.y, m2)); }
        for (d, b) in out.iter().enumerate() {
            if !range(*b) { return bad("value_range", format!("value {} of sample {} at pixel ({}, {}) is {}", d, v.sample, v.x, v.y, f32::from_bits(*b))); }
        }
        *probes.entry("values_compared".into()).or_insert(0) += out.len() as u64;
        if *out != o {
            let d = (0..o.len()).find(|d| out.get(*d) != o.get(*d)).unwrap_or(0);
            return bad("history_dependent", format!("value {} of sample {} at pixel ({}, {}) depends on what was done before: {:?}, fresh {:?}", d, v.sample, v.x, v.y, out.get(d).map(|b| f32::from_bits(*b)), o.get(d).map(|b| f32::from_bits(*b))));
        }
    }
    Ok(())
}

/// Linearizability of merges and writes: each image is the film after some set
/// of whole merges that contains every merge finished before the write began,
/// none begun after it ended, and the sets of successive writes grow.
fn judge_film(case: &Case, probes: &mut BTreeMap<String, u64>) -> Verdict {
    let cfg = &case.cfg;
    struct M { c: i64, op: i64, inv: usize, ret: usize, film: FilmModel }
    let mut ms: Vec<M> = Vec::new();
    struct W { inv: usize, ret: usize, img: i64 }
    let mut ws: Vec<W> = Vec::new();
    for (i, e) in events().iter().enumerate() {
        match e.kind {
            E_MERGE_INV => {
                let mut f = FilmModel::new(cfg);
                for s in work::merge_op(cfg, e.a, e.b).1 { f.add(s.0, s.1, &s.2); }
                ms.push(M { c: e.a, op: e.b, inv: i, ret: usize::MAX, film: f });
            }
            E_MERGE_RET => { if let Some(m) = ms.iter_mut().find(|m| m.c == e.a && m.op == e.b) { m.ret = i; } }
            E_WRITE_INV => ws.push(W { inv: i, ret: usize::MAX, img: e.a << 32 | e.b }),
            E_WRITE_RET => { if let Some(w) = ws.iter_mut().find(|w| w.ret == usize::MAX && w.img == (e.a << 32 | e.b)) { w.ret = i; w.img = e.c; } }
            _ => {}
        }
    }
    // final image: everything
    let last = ws.last().unwrap();
    let mut all = FilmModel::new(cfg);
    for m in &ms { all.add_model(&m.film); }
    let p = parse_ppm(&ctx().images[last.img as usize]).map_err(|e| ("image_invalid".to_string(), e))?;
    if let Err(e) = all.check(&p) { return bad("merge_lost", format!("after every merge had returned: {}", e)); }
    probes.insert("merges".into(), ms.len() as u64);
    let ov = ms.iter().enumerate().map(|(i, a)| ms[i + 1..].iter().filter(|b| a.inv < b.ret && b.inv < a.ret).count()).sum::<usize>();
    probes.insert("overlapping_merge_pairs".into(), ov as u64);
    // each write: the sets of merges it may show
    type Mask = [u64; 32]; // of up to 2048 merges
    let mut poss: Vec<(usize, usize, Vec<Mask>)> = Vec::new(); // inv, ret, feasible masks over merges
    for w in &ws[..ws.len() - 1] {
        let p = parse_ppm(&ctx().images[w.img as usize]).map_err(|e| ("image_invalid".to_string(), e))?;
        let mut base = FilmModel::new(cfg);
        let mut bm: Mask = [0; 32];
        let mut conc = Vec::new();
        for (i, m) in ms.iter().enumerate() {
            if m.ret < w.inv { base.add_model(&m.film); bm[i / 64] |= 1 << i % 64; } else if m.inv < w.ret { conc.push(i); }
        }
        if !conc.is_empty() { *probes.entry("writes_overlapping_merges".into()).or_insert(0) += 1; }
        if conc.len() > 12 { *probes.entry("writes_too_concurrent".into()).or_insert(0) += 1; continue; }
        let mut ok = Vec::new();
        let mut why = String::new();
        for s in 0..1u32 << conc.len() {
            // program order within one client: its merges enter in order
            let sel: Vec<usize> = conc.iter().enumerate().filter(|(b, _)| s >> b & 1 == 1).map(|(_, i)| *i).collect();
            if conc.iter().any(|i| !sel.contains(i) && sel.iter().any(|k| ms[*k].c == ms[*i].c && ms[*k].op > ms[*i].op)) { continue; }
            let mut f = base.clone();
            for i in &sel { f.add_model(&ms[*i].film); }
            match f.check(&p) { Ok(()) => { let mut m = bm; for i in &sel { m[i / 64] |= 1 << i % 64; } ok.push(m) } Err(e) => if why.is_empty() { why = e; } }
        }
        if ok.is_empty() { return bad("torn_image", format!("an image written while {} merges were in progress shows no state the film was ever in ({})", conc.len(), why)); }
        poss.push((w.inv, w.ret, ok));
    }
    // one order for all writes: the sets they show form a chain that respects real time
    fn chain(poss: &[(usize, usize, Vec<Mask>)], done: u32, cur: &Mask) -> bool {
        if done == (1 << poss.len()) - 1 { return true; }
        for i in 0..poss.len() {
            if done >> i & 1 == 1 { continue; }
            if (0..poss.len()).any(|k| k != i && done >> k & 1 == 0 && poss[k].1 < poss[i].0) { continue; }
            for s in &poss[i].2 { if s.iter().zip(cur).all(|(s, c)| s & c == *c) && chain(poss, done | 1 << i, s) { return true; } }
        }
        false
    }
    probes.insert("writes".into(), poss.len() as u64);
    if poss.len() <= 8 && !chain(&poss, 0, &[0; 32]) { return bad("not_linearizable", "the images written by different clients cannot be put in one order".into()); }
    Ok(())
}

// ============================================================== evidence text

pub const ASSUMPTIONS: [&str; 5] = [
    "memory is sequentially consistent in the simulation: threads interleave at every access of pt's own code, weak-memory reorderings are not produced",
    "code of the standard library and of crate rand runs for real but is not preempted between its own plain memory accesses, only at its futex, thread, file and allocation calls and around its atomics where inlined into pt",
    "the file system is an in-memory model of the Linux calls std uses (files, directories, listings, links, locks) with crash semantics for file contents: a crash keeps what was synced plus an arbitrary part of what was not",
    "simulated time advances by a fixed amount per synchronisation event (1 ns to 10 ms, drawn per run) plus injected stalls; pt itself reads no clock",
    "the seam crates (pt and the scenario crate) are compiled with ThreadSanitizer instrumentation calls that are bound to the simulator, overflow checks and debug assertions on",
];
pub fn real(prop: &str) -> &'static str {
    match prop {
        "C03" | "C04" => "pt::film (Film, FilmTile, Filter, image writer), std threads, Mutex, Arc",
        "C09" => "pt::sampler_halton, pt::film::sample_bbox; in a quarter of the runs also integrator, scene, containers, shapes, materials, lights, camera",
        "C02" | "C10" => "pt::integrator, film, sampler_halton, camera, scene, containers, shapes, materials, textures, lights, image writer, std threads/sync/fs paths, rand",
        "C15" => "pt::scene, container (linear and kd-tree), shapes, materials, textures, reflection, lights, camera, std threads and sync",
        "C11" => "pt::sampler_random, crate rand; in half of the runs also integrator, film, scene, containers, shapes, materials, lights, camera",
        _ => "pt::integrator, film (accumulation, filter, image writer), scene, container (linear and kd-tree), the worker pool, std threads, Mutex, channels and file paths",
    }
}
pub fn stub(prop: &str) -> &'static str {
    match prop {
        "C02" | "C10" => "kernel (scheduler, futex, clock, entropy, files); sampler replaced by a hash or adversarial-value sampler in part of the runs; camera and container wrapped for logging and counting",
        "C09" | "C11" => "kernel (scheduler, futex, clock, entropy, files); sampler wrapped for logging",
        "C15" => "kernel (scheduler, futex, clock, entropy); clients, wrappers that stall queries",
        "C03" | "C04" => "kernel (scheduler, futex, clock, entropy); clients and output streams",
        _ => "kernel (scheduler, futex, clock, entropy, files, standard error); sampler, camera, container wrapper, shape and material are simulated plug-ins so that the right image is known exactly",
    }
}
