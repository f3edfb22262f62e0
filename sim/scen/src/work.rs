//! The client programs that run inside the simulation.
use std::sync::{Arc, Mutex};
use std::thread;

use pt::api::*;
use pt::sim::*;
use simrt::model::{jitter, radius_of, safe_offsets, unit, with_edge};
use simrt::{hash2, log, masked, Cfg, Rng};

use crate::parts::*;
use crate::scenes::*;

pub fn radius(cfg: &Cfg) -> f32 { radius_of(cfg.get("radius4")) }
pub fn alpha(cfg: &Cfg) -> f32 { cfg.get("alpha4") as f32 / 4. }
pub fn film(cfg: &Cfg) -> Film { Film::new(Point2u::new(cfg.get("w") as u32, cfg.get("h") as u32), GaussianFilter::new(radius(cfg), alpha(cfg))) }

/// A renderer that is made and waits to be set off.
pub type Ready = Box<dyn FnOnce() + Send>;

fn drive<Co: 'static + Container, Cam: 'static + Camera, S: 'static + Sampler>(cfg: &Cfg, scene: Scene<Co>, s: S, cam: Cam, film: Film) -> Ready {
    let integrator = Integrator::new(scene, s, cam, film);
    let cfg = masked(|| cfg.clone());
    Box::new(move || go(&cfg, integrator))
}
fn go<Co: 'static + Container, Cam: 'static + Camera, S: 'static + Sampler>(cfg: &Cfg, integrator: Integrator<Co, Cam, S>) {
    if cfg.opt("survive", 0) != 0 { return go_on(cfg, integrator); }
    if cfg.opt("shared", 0) != 0 { return go_shared(cfg, integrator); }
    for k in 0..cfg.opt("renders", 1) {
        let th = match k { 0 => cfg.get("threads"), 1 => cfg.opt("threads2", cfg.get("threads")), _ => cfg.opt("threads3", cfg.opt("threads2", cfg.get("threads"))) };
        masked(|| { ctx().renders = k + 1; ctx().first_cam_qstall = cfg.opt("hold_first", 0) != 0 && k + 1 == cfg.opt("renders", 1); });
        log(E_RENDER_INV, k, th, 0);
        let held = masked(|| { simrt::peak_reset(); simrt::stat(14) as i64 });
        integrator.render(th as u8);
        let (most, err) = masked(|| (simrt::stat(18) as i64, simrt::stat(19) as i64));
        log(E_RENDER_RET, k, th, 0);
        log(E_PEAK, most - held, 0, 0);
        log(E_STDERR, err, 0, 0);
        if let Some(img) = masked(|| simrt::vfs_get("output.ppm")) { masked(|| ctx().images.push(img)); }
        if cfg.opt("audit", 0) != 0 { audit(); }
    }
}
/// Whether threads can share a renderer at all.
pub fn shareable() -> bool {
    struct Probe<T>(std::marker::PhantomData<T>);
    trait No { const SYNC: bool = false; }
    impl<T> No for Probe<T> {}
    #[allow(dead_code)]
    impl<T: Sync> Probe<T> { const SYNC: bool = true; }
    Probe::<Integrator<Simple, PerspectiveCamera, HaltonSampler>>::SYNC
}
struct Force<T>(T);
unsafe impl<T> Send for Force<T> {}
unsafe impl<T> Sync for Force<T> {}
/// Several threads use one renderer at the same time.
fn go_shared<Co: 'static + Container, Cam: 'static + Camera, S: 'static + Sampler>(cfg: &Cfg, integrator: Integrator<Co, Cam, S>) {
    let it = Arc::new(Force(integrator));
    let n = cfg.get("parts");
    let clients = cfg.opt("clients", n).min(n);
    let hs: Vec<_> = (0..clients).map(|c| {
        let (it, cfg) = (it.clone(), cfg.clone());
        thread::spawn(move || for i in (c..n).step_by(clients as usize) {
            simrt::own(i as i32 + 1);
            let k = part(&cfg, i);
            begin_when(&cfg, i);
            let ok = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| it.0.render(k.get("threads") as u8))).is_ok();
            ended(i, ok);
        })
    }).collect();
    for h in hs { h.join().unwrap(); }
}
/// A rendering may begin only when others are at their files.
fn begin_when(cfg: &Cfg, i: i64) {
    let n = cfg.opt(&format!("begin_{}", i), 0) as u64;
    let mut ns = 1000u64;
    while n > 0 && masked(|| simrt::ops(simrt::F_SLOW_IO) < n && (0..i as usize).any(|k| !is_over(k))) {
        if ns < 1 << 36 { simrt::stall(ns) } else { simrt::stall_quiesce() }
        ns = ns.saturating_mul(2);
    }
}
fn ended(i: i64, ok: bool) {
    let img = masked(|| match simrt::vfs_get("output.ppm") { Some(b) => { ctx().images.push(b); ctx().images.len() as i64 - 1 } None => -1 });
    log(E_SEP_RET, i, ok as i64, img);
    set_over(i as usize);
}
/// One renderer goes on rendering whatever becomes of its renderings. The last is undisturbed.
fn go_on<Co: 'static + Container, Cam: 'static + Camera, S: 'static + Sampler>(cfg: &Cfg, integrator: Integrator<Co, Cam, S>) {
    let n = cfg.get("renders");
    for k in 0..n {
        let rest = k == 0 || k + 1 == n || cfg.opt("rest", 0) >> k & 1 != 0;
        // what an earlier one has left running comes to its end
        let alone = || masked(|| simrt::stat(17)) <= 1;
        for _ in 0..40 { if k > 0 && rest && !alone() { simrt::stall_quiesce(); } }
        let rest = rest && alone();
        if k + 1 == n { masked(|| { ctx().inject.clear(); simrt::faults_clear(); }); }
        let th = if k == 0 { cfg.get("threads") } else { cfg.opt("threads2", cfg.get("threads")) };
        let hard = || masked(|| ctx().panics as i64 + [0u32, 3, 4, 6, 8, 13, 15, 16].iter().map(|f| simrt::fired(*f) as i64).sum::<i64>());
        let before = hard();
        log(E_RENDER_INV, k, th, rest as i64);
        let ok = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| integrator.render(th as u8))).is_ok();
        log(E_RENDER_RET, k, th, 0);
        log(E_LIFE, ok as i64, hard() - before, rest as i64);
        masked(|| ctx().images.push(simrt::vfs_get("output.ppm").unwrap_or_default()));
    }
}
/// Let everything else come to rest, then record what the process still holds.
fn audit() {
    simrt::stall_quiesce();
    let (b, n, f, t) = masked(|| (simrt::stat(14), simrt::stat(15), simrt::stat(16), simrt::stat(17)));
    log(E_AUDIT, b as i64, n as i64, (t << 32 | f) as i64);
}
/// Whole lives of an integrator one after the other; some of them fail.
pub fn wall_lives(cfg: &Cfg) {
    for _ in 0..cfg.get("lives") {
        let ok = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| wall_render(cfg))).is_ok();
        log(E_LIFE, ok as i64, 0, 0);
        audit();
    }
}

/// One or more renders of the wall scene through the public pipeline.
pub fn wall_render(cfg: &Cfg) { wall_ready(cfg)() }
pub fn wall_ready(cfg: &Cfg) -> Ready {
    let film = film(cfg);
    let spp = cfg.get("spp") as u32;
    let cam = SimCamera { id: cfg.opt("id", 0) };
    match cfg.opt("own", 0) {
        // pt's own samplers
        1 => { let s = LogSampler::new(HaltonSampler::new(spp, film.sample_bbox())); drive(cfg, wall_scene(cfg), s, cam, film) }
        2 => { let s = LogSampler::new(RandomSampler::new(spp)); drive(cfg, wall_scene(cfg), s, cam, film) }
        _ => {
            let offs = Arc::new(with_edge(safe_offsets(radius(cfg), cfg.get("w").max(cfg.get("h"))), cfg.opt("edge", 0) != 0));
            let s = LogSampler::new(ModelSampler::new(spp, cfg.get("jit_seed") as u64, 0, offs));
            drive(cfg, wall_scene(cfg), s, cam, film)
        }
    }
}

/// A render of one of pt's own scenes. sampler: 0 Halton, 1 random, 2 hash, 3.. adversarial values
pub fn scene_render(cfg: &Cfg) { scene_ready(cfg)() }
pub fn scene_ready(cfg: &Cfg) -> Ready {
    let film = film(cfg);
    let spp = cfg.get("spp") as u32;
    let cam = LogCamera(camera(cfg), cfg.opt("id", 0));
    let scene = random_scene(cfg);
    match cfg.get("sampler") {
        0 => { let s = LogSampler::new(HaltonSampler::new(spp, film.sample_bbox())); drive(cfg, scene, s, cam, film) }
        1 => { let s = LogSampler::new(RandomSampler::new(spp)); drive(cfg, scene, s, cam, film) }
        m => { let s = LogSampler::new(ModelSampler::new(spp, cfg.get("jit_seed") as u64, m - 2, Arc::new(Vec::new()))); drive(cfg, scene, s, cam, film) }
    }
}

// ------------------------------------------------------ film clients (C03, C04)

/// What client `c` adds in its operation `op`: the tile and its samples.
pub fn merge_op(cfg: &Cfg, c: i64, op: i64) -> ((i32, i32, i32, i32), Vec<(f32, f32, [f32; 3])>) {
    let seed = cfg.get("op_seed") as u64;
    let mut r = Rng(hash2(seed, hash2(c as u64, op as u64)));
    let rad = radius(cfg);
    let (w, h) = (cfg.get("w") as i32, cfg.get("h") as i32);
    let lo = (0.5 - rad).floor() as i32;
    let hix = (w as f32 - 0.5 + rad).ceil() as i32;
    let hiy = (h as f32 - 0.5 + rad).ceil() as i32;
    let mut span = |lo: i32, hi: i32| {
        let n = hi - lo;
        let len = 1 + r.below(n.min(cfg.opt("span", 20) as i32) as u64) as i32;
        let a = lo + r.below((n - len + 1) as u64) as i32;
        (a, a + len)
    };
    let (x0, x1) = span(lo, hix);
    let (y0, y1) = span(lo, hiy);
    let offs = safe_offsets(rad, 0);
    let n = 1 + r.below(cfg.get("samples") as u64);
    let mut v = Vec::new();
    let palette = r.below(8);
    for k in 0..n {
        let px = x0 + r.below((x1 - x0) as u64) as i32;
        let py = y0 + r.below((y1 - y0) as u64) as i32;
        let (u, w) = jitter(seed, px, py, (k as u32) << 8 | c as u32, &offs);
        let q = r.next();
        let mut col = [unit(q ^ 1), unit(q ^ 2), unit(q ^ 3)];
        // some merges add no light, some only to parts of the image or the spectrum, some very much or little
        match palette {
            0 => col = [0.; 3],
            1 => for (i, v) in col.iter_mut().enumerate() { if q >> (20 + i) & 1 == 1 { *v = 0. } },
            2 => if q >> 20 & 1 == 1 { col = [0.; 3] },
            3 => for (i, v) in col.iter_mut().enumerate() { *v = [0., 1e-6, 1e-3, 0.5, 1., 2., 30., 1e4][(q >> (20 + 3 * i) & 7) as usize] },
            _ => {}
        }
        v.push((px as f32 + u, py as f32 + w, col));
    }
    ((x0, y0, x1, y1), v)
}

fn merger(cfg: &Cfg, film: &Film, c: i64) {
    for op in 0..cfg.get("ops") {
        let (bb, samples) = masked(|| merge_op(cfg, c, op));
        let mut tile = film.get_film_tile(BBox2i::new(Point2i { x: bb.0, y: bb.1 }, Point2i { x: bb.2, y: bb.3 }));
        for s in samples.iter() { tile.add_sample(Point2f::new(s.0, s.1), Spectrum::new(s.2[0], s.2[1], s.2[2])); }
        log(E_MERGE_INV, c, op, 0);
        film.merge_film_tile(tile);
        log(E_MERGE_RET, c, op, 0);
    }
}
fn store(img: Vec<u8>) -> i64 { masked(|| { ctx().images.push(img); ctx().images.len() as i64 - 1 }) }

/// Clients merge tiles into one film; others write the image meanwhile.
pub fn film_clients(cfg: &Cfg) {
    let film = Arc::new(film(cfg));
    let mut hs = Vec::new();
    for c in 0..cfg.get("mergers") {
        let (film, cfg) = (film.clone(), cfg.clone());
        hs.push(thread::spawn(move || merger(&cfg, &film, c)));
    }
    for c in 0..cfg.get("writers") {
        let (film, cfg) = (film.clone(), cfg.clone());
        hs.push(thread::spawn(move || for op in 0..cfg.get("wops") {
            // a slow stream: every chunk gives the others time to run
            let mut faults = Vec::new();
            masked(|| {
                let mut r = Rng(hash2(cfg.get("op_seed") as u64 ^ 0xee, hash2(c as u64, op as u64)));
                for _ in 0..cfg.opt("wfaults", 0) { faults.push(WFault { at: r.below(40), kind: r.pick(&[1, 2, 4]), arg: r.below(200000) as i64 }); }
            });
            let mut w = SimWriter::new(faults, cfg.opt("wchunk", 0) as usize);
            log(E_WRITE_INV, c, op, 0);
            film.write_image_ppm(&mut w);
            let data = std::mem::take(&mut w.data);
            let k = store(masked(|| data.clone()));
            log(E_WRITE_RET, c, op, k);
        }));
    }
    let mut bad = false;
    for h in hs { bad |= h.join().is_err(); }
    if bad { panic!("a client panicked"); }
    let mut w = SimWriter::new(Vec::new(), 0);
    log(E_WRITE_INV, 99, 0, 0);
    film.write_image_ppm(&mut w);
    let k = store(masked(|| w.data.clone()));
    log(E_WRITE_RET, 99, 0, k);
}

// ---------------------------------------------------- direct stream writer (C06)

/// One client fills a film and writes it to a failing stream.
pub fn film_stream(cfg: &Cfg, faults: Vec<WFault>) {
    let film = film(cfg);
    merger(cfg, &film, 0);
    let mut w = SimWriter::new(faults, cfg.opt("wchunk", 0) as usize);
    log(E_WRITE_INV, 0, 0, 0);
    let buffered = cfg.opt("buffered", 0);
    let ok = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        if buffered > 0 {
            let mut bw = std::io::BufWriter::with_capacity(buffered as usize, &mut w);
            film.write_image_ppm(&mut bw);
        } else { film.write_image_ppm(&mut w); }
    })).is_ok();
    let hard = w.hard;
    let soft = w.soft << 1 | w.noflush as u64;
    let k = store(masked(|| w.data.clone()));
    log(E_WRITE_RET, ok as i64, hard as i64 | (soft as i64) << 1, k);
}

// --------------------------------------------------------- sampler histories (C09)

/// The sampler of picture `k`; pictures may differ in size and samples per pixel.
pub fn halton(cfg: &Cfg, k: u64) -> HaltonSampler { HaltonSampler::new(spp_of(cfg, k), film(&picture(cfg, k)).sample_bbox()) }
pub fn spp_of(cfg: &Cfg, k: u64) -> u32 { picture(cfg, k).get("spp") as u32 }
pub fn picture(cfg: &Cfg, k: u64) -> Cfg {
    let mut c = cfg.clone();
    if k > 0 { for n in ["w", "h", "spp"] { let v = cfg.get(&format!("{}_{}", n, k)); c.set(n, v, 1); } }
    c
}
/// The image-plane points of the first `n` samples of a pixel.
pub fn pixel_points(cfg: &Cfg, pic: u64, x: i32, y: i32, n: u32) -> Vec<[f32; 2]> {
    let mut h = halton(cfg, pic);
    h.start_pixel(Point2i { x, y });
    (0..n).map(|s| { if s > 0 { h.start_next_sample(); } let p = h.get_2d(); [p.x, p.y] }).collect()
}
/// One visit: go to the pixel, to the sample, then draw `n` values (mask bit 1 = 2d).
pub fn visit<S: Sampler>(s: &mut S, x: i32, y: i32, sample: u32, n: u32, mask: u64, out: &mut Vec<u32>) -> u32 {
    s.start_pixel(Point2i { x, y });
    let mut more = 0;
    for _ in 0..sample { if s.start_next_sample() { more += 1; } }
    draw(s, n, mask, out);
    more
}
pub fn draw<S: Sampler>(s: &mut S, n: u32, mask: u64, out: &mut Vec<u32>) {
    let mut k = 0;
    let mut bit = 0;
    while k < n {
        if mask >> (bit % 64) & 1 == 1 { let p = s.get_2d(); out.push(p.x.to_bits()); out.push(p.y.to_bits()); k += 2; } else { out.push(s.get_1d().to_bits()); k += 1; }
        bit += 1;
    }
}
#[derive(Clone, Copy, Debug)]
pub struct Visit { pub pic: u64, pub x: i32, pub y: i32, pub sample: u32, pub n: u32, pub mask: u64, pub how: u64 }
pub fn visits(cfg: &Cfg, c: i64) -> Vec<Visit> {
    let mut r = Rng(hash2(cfg.get("op_seed") as u64, c as u64));
    let big = cfg.opt("deep", 0);
    let walk = cfg.opt("walk", 0) != 0;
    let bb: Vec<BBox2i> = (0..cfg.opt("pics", 1) as u64).map(|k| film(&picture(cfg, k)).sample_bbox()).collect();
    let (mut px, mut py) = (bb[0].min.x, bb[0].min.y);
    let fit = |v: i32, lo: i32, hi: i32| if v < lo || v >= hi { None } else { Some(v) };
    (0..cfg.get("ops")).map(|_| {
        let pic = r.below(bb.len() as u64);
        let f = &bb[pic as usize];
        let spp = spp_of(cfg, pic) as u64;
        // anywhere, or near the last pixel, or a power-of-two step from it, as blocks are walked
        let rnd = (f.min.x + r.below((f.max.x - f.min.x) as u64) as i32, f.min.y + r.below((f.max.y - f.min.y) as u64) as i32);
        let mut step = || r.pick(&[0, 0, 1, -1, 2, -2, 15, -15, 16, -16, 32, 64, -64, 127, -127, 128, -128, 129, -129, 243, -243, 256]);
        let (dx, dy) = (step(), step());
        let (x, y) = match if walk { r.below(2) } else { r.below(5) } {
            0 => (px, fit(py + dy, f.min.y, f.max.y).unwrap_or(py)),
            1 => (fit(px + dx, f.min.x, f.max.x).unwrap_or(px), fit(py + dy, f.min.y, f.max.y).unwrap_or(py)),
            2 => (px, rnd.1),
            3 => (rnd.0, py),
            _ => rnd,
        };
        // the last pixel may lie outside another picture
        let (x, y) = (fit(x, f.min.x, f.max.x).unwrap_or(rnd.0), fit(y, f.min.y, f.max.y).unwrap_or(rnd.1));
        px = x; py = y;
        Visit {
            pic, x, y,
            sample: if big > 0 && r.chance(1, 2) { spp - 1 - r.below(spp.min(8)) } else { r.below(spp.min(200)) } as u32,
            n: if walk { 1 + r.below(4) as u32 } else if r.chance(1, 3) { 900 } else { 1 + r.below(40) as u32 },
            mask: r.next(),
            how: r.next(),
        }
    }).collect()
}
/// Clients share one sampler by cloning it at arbitrary moments; values go to the log.
pub fn sampler_clients(cfg: &Cfg) -> Vec<(Visit, u32, Vec<u32>)> {
    let shared: Arc<Vec<Mutex<HaltonSampler>>> = Arc::new((0..cfg.opt("pics", 1) as u64).map(|k| Mutex::new(halton(cfg, k))).collect());
    let mut hs = Vec::new();
    for c in 0..cfg.get("clients") {
        let (shared, cfg) = (shared.clone(), cfg.clone());
        hs.push(thread::spawn(move || {
            let vs = masked(|| visits(&cfg, c));
            let mut owns: Vec<_> = shared.iter().map(|s| s.lock().unwrap().clone()).collect();
            let mut res = Vec::new();
            for v in vs.iter() {
                let shared = &shared[v.pic as usize];
                let own = &mut owns[v.pic as usize];
                let mut out = Vec::new();
                let more;
                match v.how % 4 {
                    0 => { *own = shared.lock().unwrap().clone(); more = visit(own, v.x, v.y, v.sample, v.n, v.mask, &mut out); }
                    1 => { let mut g = shared.lock().unwrap(); more = visit(&mut *g, v.x, v.y, v.sample, v.n, v.mask, &mut out); }
                    2 => {
                        // clone in mid-sample: both copies continue identically
                        more = visit(own, v.x, v.y, v.sample, v.n / 2, v.mask, &mut out);
                        let mut other = own.clone();
                        simrt::point();
                        let mut o2 = Vec::new();
                        draw(&mut other, v.n / 2 + 1, v.mask, &mut o2);
                        let mut o1 = Vec::new();
                        draw(own, v.n / 2 + 1, v.mask, &mut o1);
                        if o1 != o2 { log(E_VAL, -1, v.x as i64, v.y as i64); }
                    }
                    _ => more = visit(own, v.x, v.y, v.sample, v.n, v.mask, &mut out),
                }
                res.push((*v, more, out));
            }
            res
        }));
    }
    let mut all = Vec::new();
    for h in hs { all.extend(h.join().unwrap()); }
    all
}

// --------------------------------------------------------- random sampler (C11)

pub fn random_clients(cfg: &Cfg) -> Vec<Vec<u32>> {
    let s = RandomSampler::new(cfg.get("spp") as u32);
    let mut hs = Vec::new();
    for _ in 0..cfg.get("clients") {
        let s = s.clone();
        let n = cfg.get("ops");
        let cfg = cfg.clone();
        hs.push(thread::spawn(move || {
            let mut s = s;
            let mut streams = Vec::new();
            for k in 0..n {
                s.start_pixel(Point2i { x: k as i32, y: 0 });
                let mut v = Vec::new();
                let next = if k % 3 == 1 { Some(s.clone()) } else { None };
                for _ in 0..4 + cfg.opt("long", 0) { let p = s.get_2d(); v.push(p.x.to_bits()); v.push(p.y.to_bits()); v.push(s.get_1d().to_bits()); }
                streams.push(v);
                // a copy taken before the values were drawn, after, or none
                s = match next { Some(n) => n, None if k % 3 == 0 => s.clone(), None => s };
            }
            streams
        }));
    }
    let mut all = Vec::new();
    for h in hs { all.extend(h.join().unwrap()); }
    all
}

// ------------------------------------------------------- shared scenes (C15)

fn put3<T: std::ops::Index<usize, Output = f32>>(o: &mut Vec<u32>, v: &T) { for i in 0..3 { o.push(v[i].to_bits()); } }
fn put_spec(o: &mut Vec<u32>, s: Spectrum) { for i in 0..3 { o.push(s[i].to_bits()); } }

/// Question number `q`: a ray, and everything a renderer asks about its path.
pub fn ask(cfg: &Cfg, scene: &Scene<CountContainer<AnyContainer>>, cam: &PerspectiveCamera, q: i64) -> Vec<u32> {
    // kin: questions come in families that differ in one respect only
    let kin = cfg.opt("kin", 0);
    let (family, member) = if kin > 0 { (q / kin, q % kin) } else { (q, 0) };
    let mut r = Rng(hash2(cfg.get("op_seed") as u64 ^ 0xa5, family as u64));
    let mut u = || unit(r.next());
    let mut o = Vec::new();
    let brief = if kin > 0 { u() } else { 1. };
    let kind = u();
    let mut ray = if kind < 0.6 {
        let s = CameraSample { p_film: Point2f::new(u() * cfg.get("w") as f32, u() * cfg.get("h") as f32) };
        let ray = cam.generate_ray(&s);
        put3(&mut o, &ray.origin);
        put3(&mut o, &ray.direction);
        ray
    } else {
        let sc = scale(cfg);
        let origin = Point3f::new(sc * (8. * u() - 4.), sc * (8. * u() - 4.), sc * (0.2 + 4. * u()));
        let d = Vector3f::new(2. * u() - 1., 2. * u() - 1., 2. * u() - 1.001).normalize();
        Ray { origin, direction: d, t_max: if kind < 0.8 { f32::INFINITY } else { scale(cfg) * (0.5 + 4. * u()) } }
    };
    let (cut, axis) = (scale(cfg) * (0.01 + 3. * u()), (3. * u()) as usize);
    match member {
        1 => ray.t_max = cut,
        2 => ray.origin[axis] += cut - scale(cfg) * 1.5,
        3 => ray.direction[axis] = -ray.direction[axis],
        4 => ray.t_max = 3. * cut,
        _ => {}
    }
    for _ in 0..1 + (u() * 4.) as usize {
        o.push(scene.intersect_p(&ray) as u32);
        if brief < 0.4 { break; }
        let i = match scene.intersect(&ray) { Some(i) => i, None => { o.push(7); break; } };
        put3(&mut o, &i.p);
        put3(&mut o, &Vector3f::new(i.n.x, i.n.y, i.n.z));
        put3(&mut o, &Vector3f::new(i.sn.x, i.sn.y, i.sn.z));
        put3(&mut o, &i.wo);
        put3(&mut o, &i.dpdu);
        o.push(i.uv.x.to_bits());
        o.push(i.uv.y.to_bits());
        put_spec(&mut o, i.le(-ray.direction));
        let bsdf = i.compute_scattering();
        for l in scene.lights() {
            let (wi, li, pdf, vis) = l.sample_li(&i, Point2f::new(u(), u()));
            put3(&mut o, &wi);
            put_spec(&mut o, li);
            o.push(pdf.to_bits());
            o.push(vis.unoccluded(scene) as u32);
            o.push(l.pdf_li(&i, wi).to_bits());
            put_spec(&mut o, bsdf.f(i.wo, wi));
            o.push(bsdf.pdf(i.wo, wi).to_bits());
        }
        let (wi, f, pdf, flag) = bsdf.sample_f(i.wo, Point2f::new(u(), u()));
        put3(&mut o, &wi);
        put_spec(&mut o, f);
        o.push(pdf.to_bits());
        o.push(flag as u32);
        if pdf == 0. || f.is_black() { break; }
        ray = i.spawn_ray(wi);
    }
    // the sign and payload of a NaN are nobody's promise
    for b in o.iter_mut() { if f32::from_bits(*b).is_nan() { *b = 0x7fc0_0000; } }
    o
}
/// Settings of the scene that question `q` is put to.
pub fn scene_of(cfg: &Cfg, q: i64) -> Cfg {
    let mut k = cfg.clone();
    let i = q % cfg.opt("scenes", 1);
    if i > 0 { let v = hash2(cfg.get("scene_seed") as u64, i as u64) >> 16; k.set("scene_seed", v as i64, 0); }
    k
}
/// Questions alone, each to a scene of its own.
pub fn ask_alone(cfg: &Cfg, qs: &[i64]) -> Vec<Vec<u32>> {
    qs.iter().map(|q| { let k = scene_of(cfg, *q); ask(&k, &random_scene(&k), &camera(&k), *q) }).collect()
}
/// Many clients ask shared scenes.
pub fn scene_clients(cfg: &Cfg) -> Vec<(i64, i64, Vec<u32>)> {
    let nq = cfg.get("questions");
    let scenes: Arc<Vec<_>> = Arc::new((0..cfg.opt("scenes", 1)).map(|i| { let k = scene_of(cfg, i); let s = random_scene(&k); (camera(&k), s, k) }).collect());
    let hs: Vec<_> = (0..cfg.get("clients")).map(|c| {
        let (scenes, cfg) = (scenes.clone(), cfg.clone());
        thread::spawn(move || {
            let mut r = Rng(hash2(cfg.get("op_seed") as u64 ^ 0xc1, c as u64));
            let mut res = Vec::new();
            // one question again and again, with ever more rays in between that lead nowhere
            let ramp = cfg.opt("ramp", 0);
            if ramp > 0 && c == 0 {
                let first = cfg.opt("ramp_from", 0);
                let (cam, scene, k) = &scenes[0];
                let nowhere = Ray { origin: Point3f::new(0., 0., scale(&cfg) * 900.), direction: Vector3f::new(0., 0., 1.), t_max: f32::INFINITY };
                for gap in first..first + ramp {
                    for _ in 0..gap { if cfg.opt("ramp_p", 0) != 0 { scene.intersect_p(&nowhere); } else { scene.intersect(&nowhere); } }
                    res.push((c, 0, ask(k, scene, cam, 0)));
                }
            }
            for _ in 0..cfg.get("ops") {
                let q = r.below(nq as u64) as i64;
                let (cam, scene, k) = &scenes[(q % scenes.len() as i64) as usize];
                res.push((c, q, ask(k, scene, cam, q)));
            }
            masked(|| ctx().finished += 1);
            res
        })
    }).collect();
    let mut all = Vec::new();
    for h in hs { all.extend(h.join().unwrap()); }
    all
}

// ---------------------------------------- several renderings at one time (C16)

/// The settings of rendering `i`.
pub fn part(cfg: &Cfg, i: i64) -> Cfg {
    let mut k = cfg.clone();
    k.set("id", i, 0);
    if cfg.opt("shared", 0) != 0 {
        k.set("threads", cfg.opt(&format!("threads_{}", i), cfg.get("threads")), 1);
        return k;
    }
    for n in ["w", "h", "threads", "spp", "radius4", "alpha4"] { let v = cfg.opt(&format!("{}_{}", n, i), cfg.get(n)); k.set(n, v, 1); }
    for n in ["jit_seed", "color_seed", "scene_seed"] { let v = hash2(cfg.opt(n, 0) as u64, i as u64) >> 16; k.set(n, v as i64, 0); }
    k
}
/// Every rendering is started by a thread of its own. With gates, a rendering
/// waits in one of its samples until the one before has ended, so that they
/// overlap and yet write the output file one after the other.
pub fn together(cfg: &Cfg) {
    let n = cfg.get("parts");
    let real = cfg.opt("kind", 0) == 2;
    let one = move |k: &Cfg| if real { scene_ready(k) } else { wall_ready(k) };
    log(E_SEP_RET, -1, 0, 0);
    if cfg.get("gated") != 0 { masked(|| for i in 1..n { ctx().gates.push((i, cfg.get("gate_at") % part(cfg, i).get("spp"))); }); }
    if cfg.opt("shared", 0) != 0 {
        if shareable() { one(cfg)() } else { log(E_SEP_RET, -2, 0, 0) }
        return;
    }
    // renderers may be made by the thread that renders, or all by one thread
    let made: Vec<Option<Ready>> = (0..n).map(|i| if cfg.opt("made", 0) != 0 { Some(one(&part(cfg, i))) } else { None }).collect();
    let hs: Vec<_> = made.into_iter().enumerate().map(|(i, m)| {
        let i = i as i64;
        let k = part(cfg, i);
        let all = cfg.clone();
        thread::spawn(move || {
            begin_when(&all, i);
            let ok = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || match m { Some(m) => m(), None => one(&k)() })).is_ok();
            ended(i, ok);
        })
    }).collect();
    for h in hs { h.join().unwrap(); }
}
