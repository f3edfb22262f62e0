use std::io;
use std::sync::{Arc, Condvar, Mutex};

use pt::api::*;
use pt::sim::*;
use simrt::model::{jitter, unit, wall_color};
use simrt::{hash2, masked, masked_tid, Global};

// ------------------------------------------------------------ event kinds
pub const E_PIXEL: u32 = 1; // a=x b=y
pub const E_CAM: u32 = 2; // a=p_film.x bits, b=p_film.y bits, c=number of the rendering
pub const E_RENDER_INV: u32 = 3;
pub const E_RENDER_RET: u32 = 4;
pub const E_MERGE_INV: u32 = 5; // a=client b=op
pub const E_MERGE_RET: u32 = 6;
pub const E_WRITE_INV: u32 = 7; // a=client b=op
pub const E_WRITE_RET: u32 = 8; // c=image index
pub const E_INJECT: u32 = 9; // a=site b=action
pub const E_VAL: u32 = 10;
pub const E_WRITE_FAIL: u32 = 11;
pub const E_AUDIT: u32 = 12; // what is still held when all is quiet: a=heap bytes, b=heap blocks, c=threads<<32 | open files

pub const E_LIFE: u32 = 13; // a=ended normally
pub const E_ANSWER: u32 = 14; // a=client b=question c=answer index
pub const E_PEAK: u32 = 16; // a=most bytes held during the rendering over what was held before
pub const E_STDERR: u32 = 17; // a=bytes on standard error so far
pub const E_SEP_RET: u32 = 15; // a=rendering b=ended normally c=image index

// -------------------------------------------------------------- injection
pub const S_CAM: u32 = 0;
pub const S_SHAPE: u32 = 1;
pub const S_LE: u32 = 2;
pub const S_MATERIAL: u32 = 3;
pub const S_CONTAINER: u32 = 4;
pub const S_SAMPLER: u32 = 5;
pub const S_CLONE: u32 = 6;
pub const NSITE: usize = 7;
pub const A_PANIC: i64 = 0; // this call and the arg calls after it
pub const A_STALL: i64 = 1; // arg ns of simulated time
pub const A_QSTALL: i64 = 2; // until nothing else can run
pub const A_PLACE: i64 = 3; // panic whenever a camera sample lies in pixel (at, arg)

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Inject { pub site: u32, pub at: i64, pub action: i64, pub arg: i64 }

pub struct Ctx {
    pub inject: Vec<Inject>,
    pub count: [i64; NSITE],
    pub panics: u64,
    pub pix: Vec<(i32, i32)>,
    pub rayq: Vec<u64>,
    pub rayq_max: u64,
    pub rayq_total: u64,
    pub mats: Vec<u64>, // material evaluations of the path a thread is on
    pub draws: Vec<u64>, // two-dimensional draws of the path a thread is on
    pub scat_max: u64,
    pub dims: Vec<u64>,
    pub dims_max: u64,
    pub log_vals: bool,
    pub vals: Vec<(i32, i32, u32, u32, u32)>, // x y sample dimension bits
    pub images: Vec<Vec<u8>>,
    pub first_cam_qstall: bool,
    pub seen_cam: Vec<bool>,
    pub in_cam: i64,
    pub in_cam_max_at_quiesce: i64,
    pub quiesce: Vec<(u64, i64, i64)>, // (camera calls so far, threads held in the camera, renderings begun)
    pub renders: i64,
    pub finished: i64, // clients that are through
    pub gates: Vec<(i64, i64)>, // (rendering, camera call at which it waits for those before)
    pub over: Arc<(Mutex<[bool; 16]>, Condvar)>, // renderings that have ended
    pub cams: Vec<i64>, // camera calls of each rendering
}
pub static CTX: Global<Option<Ctx>> = Global::new(None);
pub fn ctx() -> &'static mut Ctx { CTX.get().as_mut().unwrap() }
pub fn reset_ctx() {
    masked(|| {
        *CTX.get() = Some(Ctx {
            inject: Vec::new(), count: [0; NSITE], panics: 0, pix: vec![(i32::MIN, 0); 1200], rayq: vec![0; 1200], rayq_max: 0, rayq_total: 0, mats: vec![0; 1200], draws: vec![0; 1200], scat_max: 0,
            dims: vec![0; 1200], dims_max: 0, log_vals: false, vals: Vec::new(), images: Vec::new(), first_cam_qstall: false,
            seen_cam: vec![false; 1200], in_cam: 0, in_cam_max_at_quiesce: 0, quiesce: Vec::new(), renders: 0,
            finished: 0, gates: Vec::new(), over: Arc::new((Mutex::new([false; 16]), Condvar::new())), cams: vec![0; 16],
        })
    })
}

/// A simulated component was called: inject whatever the plan has for this call.
pub fn hit(site: u32) {
    let act = masked(|| {
        let c = ctx();
        let n = c.count[site as usize];
        c.count[site as usize] += 1;
        c.inject.iter().find(|i| i.site == site && i.action != A_PLACE && (i.at == n || i.action == A_PANIC && n > i.at && n - i.at <= i.arg)).copied()
    });
    if let Some(i) = act {
        simrt::log(E_INJECT, i.site as i64, i.action, i.at);
        match i.action {
            A_PANIC => {
                masked(|| ctx().panics += 1);
                // panics carry texts, or anything
                match (i.at + site as i64) % 4 { 0 => std::panic::panic_any(i.at), 1 => panic!("injected panic at {}", i.at), _ => panic!("injected panic") }
            }
            A_STALL => simrt::stall(i.arg as u64),
            // arg 1: only in a worker
            _ => if i.arg != 1 || simrt::tid() > 0 { simrt::stall_quiesce() },
        }
    }
}

// ---------------------------------------------------------------- sampler
/// Deterministic stand-in sampler: values are a hash of (pixel, sample, dimension).
/// mode 0 ordinary, 1 all zeros, 2 all 1-eps, 3 mixture of extremes, 4 all 0.5
pub struct ModelSampler { spp: u32, seed: u64, mode: i64, offs: Arc<Vec<f32>>, x: i32, y: i32, s: u32, d: u32 }
impl ModelSampler {
    pub fn new(spp: u32, seed: u64, mode: i64, offs: Arc<Vec<f32>>) -> Self { ModelSampler { spp, seed, mode, offs, x: 0, y: 0, s: 0, d: 0 } }
    fn v(&mut self) -> f32 {
        let h = hash2(self.seed ^ 0x5a5a, hash2((self.x as i64 as u64) << 32 ^ self.y as u32 as u64, (self.s as u64) << 32 | self.d as u64));
        self.d += 1;
        const HI: f32 = 1. - f32::EPSILON / 2.; // largest value below one
        match self.mode {
            1 => 0.,
            2 => HI,
            3 => match h % 5 { 0 => 0., 1 => HI, 2 => 0.5, 3 => f32::EPSILON, _ => unit(h) },
            4 => 0.5,
            _ => unit(h),
        }
    }
}
impl Clone for ModelSampler {
    fn clone(&self) -> Self {
        hit(S_CLONE);
        ModelSampler { spp: self.spp, seed: self.seed, mode: self.mode, offs: self.offs.clone(), x: self.x, y: self.y, s: self.s, d: self.d }
    }
}
impl Sampler for ModelSampler {
    fn start_pixel(&mut self, p: Point2i) { self.x = p.x; self.y = p.y; self.s = 0; self.d = 0; }
    fn start_next_sample(&mut self) -> bool { self.s += 1; self.d = 0; self.s < self.spp }
    fn get_1d(&mut self) -> f32 { self.v() }
    fn get_2d(&mut self) -> Point2f {
        if self.d == 0 && !self.offs.is_empty() {
            self.d = 2;
            let (u, v) = jitter(self.seed, self.x, self.y, self.s, &self.offs);
            return Point2f::new(u, v);
        }
        Point2f::new(self.v(), self.v())
    }
}

/// Wraps a real sampler: fault injection, history of pixels and values.
pub struct LogSampler<S> { inner: S, x: i32, y: i32, s: u32, d: u32 }
impl<S> LogSampler<S> { pub fn new(inner: S) -> Self { LogSampler { inner, x: i32::MIN, y: 0, s: 0, d: 0 } } }
impl<S: Clone> Clone for LogSampler<S> {
    fn clone(&self) -> Self { hit(S_CLONE); LogSampler { inner: self.inner.clone(), x: self.x, y: self.y, s: self.s, d: self.d } }
}
impl<S> LogSampler<S> {
    fn note(&mut self, v: f32) {
        let (x, y, s, d) = (self.x, self.y, self.s, self.d);
        self.d += 1;
        masked_tid(|t| {
            let c = ctx();
            c.dims[t as usize] = self.d as u64;
            if self.d as u64 > c.dims_max { c.dims_max = self.d as u64; }
            if c.log_vals { c.vals.push((x, y, s, d, v.to_bits())); }
        });
    }
}
impl<S: Sampler> Sampler for LogSampler<S> {
    fn start_pixel(&mut self, p: Point2i) {
        hit(S_SAMPLER);
        self.x = p.x; self.y = p.y; self.s = 0; self.d = 0;
        simrt::log(E_PIXEL, p.x as i64, p.y as i64, 0);
        masked_tid(|t| ctx().pix[t as usize] = (p.x, p.y));
        self.inner.start_pixel(p)
    }
    fn start_next_sample(&mut self) -> bool { self.s += 1; self.d = 0; self.inner.start_next_sample() }
    fn get_1d(&mut self) -> f32 { let v = self.inner.get_1d(); self.note(v); v }
    fn get_2d(&mut self) -> Point2f { let v = self.inner.get_2d(); draw2(); self.note(v.x); self.note(v.y); v }
}

// ----------------------------------------------------------------- camera
/// Until every rendering before the given one has ended.
fn wait_over(i: usize) {
    let o = masked(|| ctx().over.clone());
    let mut g = o.0.lock().unwrap();
    while !g[..i].iter().all(|o| *o) { g = o.1.wait(g).unwrap(); }
}
/// (Asked by harness code that does not wait.)
pub fn is_over(i: usize) -> bool { ctx().over.0.try_lock().map(|g| g[i]).unwrap_or(false) }
pub fn set_over(i: usize) {
    let o = masked(|| ctx().over.clone());
    o.0.lock().unwrap()[i] = true;
    o.1.notify_all();
}
fn cam_event(s: &CameraSample, id: i64) {
    simrt::point();
    // renderings that share a renderer are told apart by the thread that called it
    let id = match simrt::owner() { 0 => id, o => o as i64 - 1 };
    masked_tid(|t| {
        let c = ctx();
        let q = c.rayq[t as usize];
        if q > c.rayq_max { c.rayq_max = q; }
        c.rayq[t as usize] = 0;
        c.mats[t as usize] = 0;
        c.draws[t as usize] = 0;
    });
    simrt::log(E_CAM, s.p_film.x.to_bits() as i64, s.p_film.y.to_bits() as i64, id);
    let gated = masked(|| {
        let c = ctx();
        let n = c.cams[id as usize];
        c.cams[id as usize] += 1;
        c.gates.contains(&(id, n))
    });
    if gated { wait_over(id as usize) }
    let place = masked(|| {
        let (x, y) = (s.p_film.x.floor() as i64, s.p_film.y.floor() as i64);
        let c = ctx();
        let f = c.inject.iter().any(|i| i.action == A_PLACE && (i.at, i.arg) == (x, y));
        if f { c.panics += 1; }
        f
    });
    if place { simrt::log(E_INJECT, S_CAM as i64, A_PLACE, 0); panic!("injected panic"); }
    let hold = masked_tid(|t| {
        let c = ctx();
        c.in_cam += 1;
        let first = c.first_cam_qstall && !c.seen_cam[t as usize];
        c.seen_cam[t as usize] = true;
        first
    });
    if hold { simrt::stall_quiesce(); }
    hit(S_CAM);
    masked(|| ctx().in_cam -= 1);
}

/// Orthographic: film position (x, y) looks at the wall point (x, y, 0).
#[derive(Clone)]
pub struct SimCamera { pub id: i64 }
impl Camera for SimCamera {
    fn generate_ray(&self, s: &CameraSample) -> Ray {
        cam_event(s, self.id);
        Ray { origin: Point3f::new(s.p_film.x, s.p_film.y, -1.), direction: Vector3f::new(0., 0., 1.), t_max: f32::INFINITY }
    }
}
#[derive(Clone)]
pub struct LogCamera<C: Camera>(pub C, pub i64);
impl<C: Camera> Camera for LogCamera<C> {
    fn generate_ray(&self, s: &CameraSample) -> Ray { cam_event(s, self.1); self.0.generate_ray(s) }
}

// ------------------------------------------------------------ path length
/// A path has scattered as often as both its surfaces were evaluated and
/// two-dimensional draws were made for it (in a scene without lights).
fn scattered(t: usize) {
    let c = ctx();
    let n = c.mats[t].min(c.draws[t]);
    if n > c.scat_max { c.scat_max = n; }
}
fn draw2() { masked_tid(|t| { ctx().draws[t as usize] += 1; scattered(t as usize); }) }
pub struct CountMaterial(pub Arc<dyn Material>);
impl Material for CountMaterial {
    fn compute_scattering(&self, i: &Interaction) -> BSDF {
        masked_tid(|t| { ctx().mats[t as usize] += 1; scattered(t as usize); });
        self.0.compute_scattering(i)
    }
}

// -------------------------------------------------------------- container
pub struct CountContainer<C: Container> { pub inner: C }
fn count_query() {
    masked_tid(|t| {
        let c = ctx();
        c.rayq[t as usize] += 1;
        c.rayq_total += 1;
        let q = c.rayq[t as usize];
        if q > c.rayq_max { c.rayq_max = q; }
    });
    hit(S_CONTAINER);
}
impl<C: Container> Container for CountContainer<C> {
    fn bbox(&self) -> BBox3f { self.inner.bbox() }
    fn intersect_p(&self, ray: &Ray) -> bool { count_query(); self.inner.intersect_p(ray) }
    fn intersect(&self, ray: &Ray) -> Option<Interaction> { count_query(); self.inner.intersect(ray) }
}

// ------------------------------------------------------- shapes, materials
pub struct BlackMaterial;
impl Material for BlackMaterial {
    fn compute_scattering(&self, i: &Interaction) -> BSDF { hit(S_MATERIAL); BSDF::new(i) }
}

/// The wall z = 0: emits a colour that is a hash of the point, reflects nothing.
pub struct SimWall { pub min: (f32, f32), pub max: (f32, f32), pub seed: u64, pub style: i64, pub inv: i64, pub kinds: i64, pub material: Arc<dyn Material> }
impl Shape for SimWall {
    fn bbox(&self) -> BBox3f { BBox3f::new(Point3f::new(self.min.0, self.min.1, -0.125), Point3f::new(self.max.0, self.max.1, 0.125)) }
    fn area(&self) -> f32 { (self.max.0 - self.min.0) * (self.max.1 - self.min.1) }
    fn intersect_p(&self, ray: &Ray) -> bool { hit(S_SHAPE); self.t(ray).is_some() }
    fn intersect(&self, ray: &Ray) -> Option<(Interaction, f32)> {
        hit(S_SHAPE);
        self.t(ray).map(|t| {
            let mut i = Interaction::default();
            i.p = Point3f::new(ray.origin.x, ray.origin.y, 0.);
            i.uv = Point2f::new(ray.origin.x, ray.origin.y);
            i.n = Normal3f::new(0., 0., -1.);
            i.sn = i.n;
            i.dpdu = Vector3f::new(1., 0., 0.);
            i.dpdv = Vector3f::new(0., 1., 0.);
            i.wo = Vector3f::new(0., 0., -1.);
            (i, t)
        })
    }
    fn material(&self) -> Arc<dyn Material> { self.material.clone() }
    fn sample(&self, _: Point2f) -> Interaction { panic!("the wall is not sampled") }
    fn l(&self, i: &Interaction, _w: Vector3f) -> Spectrum {
        hit(S_LE);
        let c = wall_color(self.seed, self.style, self.inv, self.kinds, i.p.x.to_bits(), i.p.y.to_bits());
        Spectrum::new(c[0], c[1], c[2])
    }
}
impl SimWall {
    fn t(&self, ray: &Ray) -> Option<f32> {
        let o = ray.origin;
        if ray.direction.z == 1. && o.x >= self.min.0 && o.x <= self.max.0 && o.y >= self.min.1 && o.y <= self.max.1 && 1. < ray.t_max { Some(1.) } else { None }
    }
}

/// One of pt's own shapes that can be made to stall while it is asked.
pub struct HookShape<S: Shape>(pub S);
impl<S: Shape> Shape for HookShape<S> {
    fn bbox(&self) -> BBox3f { self.0.bbox() }
    fn area(&self) -> f32 { self.0.area() }
    fn intersect_p(&self, ray: &Ray) -> bool { hit(S_SHAPE); self.0.intersect_p(ray) }
    fn intersect(&self, ray: &Ray) -> Option<(Interaction, f32)> { hit(S_SHAPE); self.0.intersect(ray) }
    fn material(&self) -> Arc<dyn Material> { self.0.material() }
    fn compute_scattering(&self, i: &Interaction) -> BSDF { hit(S_MATERIAL); self.0.compute_scattering(i) }
    fn sample(&self, u: Point2f) -> Interaction { self.0.sample(u) }
    fn sample_ref(&self, i: &Interaction, u: Point2f) -> Interaction { self.0.sample_ref(i, u) }
    fn pdf(&self, i: &Interaction, wi: Vector3f) -> f32 { self.0.pdf(i, wi) }
    fn l(&self, i: &Interaction, w: Vector3f) -> Spectrum { hit(S_LE); self.0.l(i, w) }
}

/// Texture whose value at a point is `good`, or invalid at a hash-chosen part of the points.
pub struct FaultyTexture { pub good: Spectrum, pub seed: u64, pub inv: i64, pub kinds: i64 }
impl Texture for FaultyTexture {
    type Output = Spectrum;
    fn evaluate(&self, i: &Interaction) -> Spectrum {
        let c = wall_color(self.seed, 3, self.inv, self.kinds, i.p.x.to_bits(), i.p.y.to_bits());
        if simrt::model::color_valid(&c) { self.good } else { Spectrum::new(c[0], c[1], c[2]) }
    }
}

// ----------------------------------------------------------------- writer
/// What a stream does at its n-th call: kind 0 error (arg 20 and more: from then on), 1 interrupted, 2 short, 3 zero, 4 stall; flush calls are counted on their own with kind +10, and fail from then on.
#[derive(Clone, Copy, Debug)]
pub struct WFault { pub at: u64, pub kind: i64, pub arg: i64 }
pub struct SimWriter { pub data: Vec<u8>, pub n: u64, pub nf: u64, pub faults: Vec<WFault>, pub flushed: usize, pub hard: bool, pub noflush: bool, pub soft: u64, pub chunk: usize }
impl SimWriter {
    pub fn new(faults: Vec<WFault>, chunk: usize) -> Self { SimWriter { data: Vec::new(), n: 0, nf: 0, faults, flushed: 0, hard: false, noflush: false, soft: 0, chunk } }
}
fn error_kind(k: i64) -> io::ErrorKind {
    use std::io::ErrorKind::*;
    [StorageFull, StorageFull, Other, BrokenPipe, WouldBlock, TimedOut, PermissionDenied, UnexpectedEof, InvalidInput, WriteZero, ConnectionReset, NotConnected, OutOfMemory, Unsupported][k as usize % 14]
}
impl io::Write for SimWriter {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        simrt::point();
        let k = self.n;
        self.n += 1;
        let mut n = if self.chunk > 0 { b.len().min(self.chunk) } else { b.len() };
        let f = masked(|| self.faults.iter().find(|f| (f.at == k || f.kind == 0 && f.arg >= 20 && f.at <= k) && f.kind < 10).copied());
        if let Some(f) = f {
            simrt::log(E_WRITE_FAIL, f.kind, k as i64, 0);
            match f.kind {
                0 => { self.hard = true; return Err(io::Error::from(error_kind(f.arg))); }
                1 => { self.soft += 1; return Err(io::Error::from(io::ErrorKind::Interrupted)); }
                2 => { self.soft += 1; if n > 1 { n = 1 + f.arg as usize % (n - 1); } }
                3 => { if n > 0 { self.hard = true; return Ok(0); } }
                _ => { self.soft += 1; simrt::stall(f.arg as u64); }
            }
        }
        self.data.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        simrt::point();
        let k = self.nf;
        self.nf += 1;
        let f = masked(|| self.faults.iter().find(|f| f.at <= k && f.kind == 10).copied());
        if let Some(f) = f {
            simrt::log(E_WRITE_FAIL, 10, k as i64, 0);
            self.hard = true;
            self.noflush = true;
            return Err(io::Error::from(error_kind(f.arg)));
        }
        self.flushed = self.data.len();
        Ok(())
    }
}
