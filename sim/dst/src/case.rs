//! A case is everything that decides one simulated run; its text form is the replay file.
use scen::parts::{Inject, WFault};
use simrt::{Cfg, Dev, Plan, FAULT_NAMES};

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Fault { pub kind: u32, pub at: u64, pub arg: i64 }

#[derive(Clone, Debug, Default)]
pub struct Case {
    pub prop: String,
    pub index: u64,
    pub note: String,
    pub cfg: Cfg,
    pub plan: Plan,
    pub faults: Vec<Fault>,
    pub injects: Vec<Inject>,
    pub wfaults: Vec<WFault>,
    pub pre: Option<Vec<(String, Vec<u8>)>>, // all files as they stand before the run, when given explicitly
    pub devs: Vec<Dev>,       // recorded scheduling decisions (plan.replay)
    pub want_devs: bool,
    // what the run showed, for the replay to compare with
    pub class: String,
    pub msg: String,
    pub hash: u64,
}

const SITES: [&str; 7] = ["camera", "shape", "emission", "material", "container", "sampler", "clone"];
const ACTIONS: [&str; 4] = ["panic", "stall", "stall_until_quiescence", "panic_at_pixel"];
const WKINDS: [&str; 11] = ["error", "interrupted", "short", "zero", "stall", "?", "?", "?", "?", "?", "flush_error"];

pub fn hex(b: &[u8]) -> String { if b.is_empty() { "-".into() } else { b.iter().map(|x| format!("{:02x}", x)).collect() } }
pub fn unhex(s: &str) -> Vec<u8> {
    if s == "-" { return Vec::new(); }
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

impl Case {
    pub fn to_text(&self) -> String {
        let mut o = String::new();
        o += "# deterministic-simulation replay file: /verif/check.sh replay <this file>\n";
        o += &format!("property {}\nindex {}\nclass {}\nmessage {}\nhash {:016x}\n", self.prop, self.index, self.class, self.msg.replace('\n', " "), self.hash);
        if !self.note.is_empty() { o += &format!("note {}\n", self.note.replace('\n', " ")); }
        let p = &self.plan;
        o += &format!("plan seed={} max_steps={} crash_at={} fair_slice={} replay={} policy={} p_sync={} p_alloc={} p_conf={} mem_mean={} p_spur={} pct_mean={} tick={} skew={}\n",
            p.seed, p.max_steps, p.crash_at, p.fair_slice, p.replay, p.policy, p.p_sync, p.p_alloc, p.p_conf, p.mem_mean, p.p_spur, p.pct_mean, p.tick, p.skew);
        for (k, v, m) in &self.cfg.0 { o += &format!("cfg {} {} {}\n", k, v, m); }
        for f in &self.faults { o += &format!("fault {} {} at={} arg={}\n", f.kind, FAULT_NAMES[f.kind as usize], f.at, f.arg); }
        for i in &self.injects { o += &format!("inject {} {} {} {} at={} arg={}\n", i.site, SITES[i.site as usize], i.action, ACTIONS[i.action as usize], i.at, i.arg); }
        for w in &self.wfaults { o += &format!("stream {} {} at={} arg={}\n", w.kind, WKINDS[w.kind as usize], w.at, w.arg); }
        if let Some(v) = &self.pre { o += "files\n"; for (n, b) in v { o += &format!("file {} {}\n", hex(n.as_bytes()), hex(b)); } }
        for d in &self.devs { o += &format!("switch thread={} kind={} step={} to={}\n", d.tid, d.kind, d.lstep, d.val); }
        o
    }
    pub fn from_text(t: &str) -> Case {
        let mut c = Case::default();
        fn kv(w: &str) -> i64 { let s = w.split('=').nth(1).unwrap(); s.parse::<i64>().unwrap_or_else(|_| s.parse::<u64>().unwrap() as i64) }
        for l in t.lines() {
            if l.is_empty() || l.starts_with('#') { continue; }
            let (k, rest) = l.split_once(' ').unwrap_or((l, ""));
            let w: Vec<&str> = rest.split(' ').collect();
            match k {
                "property" => c.prop = rest.into(),
                "index" => c.index = rest.parse().unwrap(),
                "class" => c.class = rest.into(),
                "message" => c.msg = rest.into(),
                "note" => c.note = rest.into(),
                "hash" => c.hash = u64::from_str_radix(rest, 16).unwrap(),
                "plan" => {
                    let v: Vec<i64> = w.iter().map(|x| kv(x)).collect();
                    c.plan = Plan { seed: v[0] as u64, max_steps: v[1] as u64, crash_at: v[2] as u64, fair_slice: v[3] as u64, replay: v[4] as u32, policy: v[5] as u32,
                        p_sync: v[6] as u32, p_alloc: v[7] as u32, p_conf: v[8] as u32, mem_mean: v[9] as u32, p_spur: v[10] as u32, pct_mean: v[11] as u32, tick: v[12] as u64, skew: v[13] as u64 };
                }
                "cfg" => c.cfg.set(w[0], w[1].parse().unwrap(), w[2].parse().unwrap()),
                "fault" => c.faults.push(Fault { kind: w[0].parse().unwrap(), at: kv(w[2]) as u64, arg: kv(w[3]) }),
                "inject" => c.injects.push(Inject { site: w[0].parse().unwrap(), action: w[2].parse().unwrap(), at: kv(w[4]), arg: kv(w[5]) }),
                "stream" => c.wfaults.push(WFault { kind: w[0].parse().unwrap(), at: kv(w[2]) as u64, arg: kv(w[3]) }),
                "files" => c.pre = Some(Vec::new()),
                "file" => c.pre.get_or_insert_with(Vec::new).push((String::from_utf8(unhex(w[0])).unwrap(), unhex(w[1]))),
                "switch" => c.devs.push(Dev { tid: kv(w[0]) as u32, kind: kv(w[1]) as u32, lstep: kv(w[2]) as u64, val: kv(w[3]) }),
                _ => panic!("replay file: unknown line {}", l),
            }
        }
        c
    }
}
