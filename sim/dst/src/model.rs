//! Reference models: the film in double precision, the PPM reader.
use simrt::model::{color_valid, jitter, radius_of, safe_offsets, wall_color, with_edge};
use simrt::Cfg;

pub struct Ppm { pub w: i64, pub h: i64, pub px: Vec<[i64; 3]> }

/// Strict plain-PPM reader: header, exactly w*h pixels, nothing else.
pub fn parse_ppm(b: &[u8]) -> Result<Ppm, String> {
    let s = std::str::from_utf8(b).map_err(|_| "not text".to_string())?;
    let mut it = s.split_ascii_whitespace();
    if it.next() != Some("P3") { return Err("does not start with P3".into()); }
    let mut num = |what: &str| -> Result<i64, String> {
        let t = it.next().ok_or(format!("ends before {}", what))?;
        if !t.bytes().all(|c| c.is_ascii_digit()) { return Err(format!("bad number {:?} at {}", t, what)); }
        t.parse::<i64>().map_err(|_| format!("bad number {:?} at {}", t, what))
    };
    let w = num("width")?;
    let h = num("height")?;
    let m = num("maximum value")?;
    if m != 255 { return Err(format!("maximum value {}", m)); }
    let mut px = Vec::with_capacity((w * h).max(0).min(1 << 22) as usize);
    for k in 0..w * h {
        let mut p = [0; 3];
        for v in p.iter_mut() {
            *v = num(&format!("pixel {} of {}", k, w * h))?;
            if *v > 255 { return Err(format!("value {} at pixel {}", v, k)); }
        }
        px.push(p);
    }
    if let Some(t) = it.next() { return Err(format!("trailing data after the last pixel: {:?}...", &t[..t.len().min(20)])); }
    Ok(Ppm { w, h, px })
}

#[derive(Clone)]
pub struct FilmModel { pub w: i32, pub h: i32, r: f64, table: [[f64; 16]; 16], pub acc: Vec<[f64; 4]> }

impl FilmModel {
    pub fn new(cfg: &Cfg) -> FilmModel {
        let r = radius_of(cfg.get("radius4")) as f64;
        let alpha = (cfg.get("alpha4") as f32 / 4.) as f64;
        let e = (-alpha * r * r).exp();
        let g = |d: f64| ((-alpha * d * d).exp() - e).max(0.);
        let mut table = [[0.; 16]; 16];
        for y in 0..16 { for x in 0..16 { table[y][x] = g((x as f64 + 0.5) * r / 16.) * g((y as f64 + 0.5) * r / 16.); } }
        let (w, h) = (cfg.get("w") as i32, cfg.get("h") as i32);
        FilmModel { w, h, r, table, acc: vec![[0.; 4]; (w * h) as usize] }
    }
    /// positions the renderer has to sample: every one that can touch a pixel
    pub fn area(&self) -> (i32, i32, i32, i32) {
        ((0.5 - self.r).floor() as i32, (0.5 - self.r).floor() as i32, (self.w as f64 - 0.5 + self.r).ceil() as i32, (self.h as f64 - 0.5 + self.r).ceil() as i32)
    }
    pub fn add(&mut self, x: f32, y: f32, c: &[f32; 3]) {
        let (px, py) = (x as f64 - 0.5, y as f64 - 0.5);
        let lo = |p: f64| ((p - self.r).ceil() as i32).max(0);
        let hi = |p: f64, n: i32| ((p + self.r).floor() as i32 + 1).min(n);
        for j in lo(py)..hi(py, self.h) {
            let ty = (((j as f64 - py).abs() / self.r * 16.).floor() as usize).min(15);
            for i in lo(px)..hi(px, self.w) {
                let tx = (((i as f64 - px).abs() / self.r * 16.).floor() as usize).min(15);
                let wt = self.table[ty][tx];
                let a = &mut self.acc[(j * self.w + i) as usize];
                for k in 0..3 { a[k] += wt * c[k] as f64; }
                a[3] += wt;
            }
        }
    }
    pub fn add_model(&mut self, o: &FilmModel) {
        for (a, b) in self.acc.iter_mut().zip(o.acc.iter()) { for k in 0..4 { a[k] += b[k]; } }
    }
    /// Is `v` an acceptable level for channel k of pixel i?
    pub fn accepts(&self, i: usize, k: usize, v: i64) -> bool {
        let a = &self.acc[i];
        if a[3] <= 0. { return v <= 1; }
        let c = a[k] / a[3];
        let g = (if c <= 0.0031308 { 12.92 * c } else { 1.055 * c.powf(1. / 2.4) - 0.055 }) * 255.;
        // the nearest level; single precision may tip a value half-way between two
        (v as f64 - g.min(255.)).abs() <= 0.55
    }
    pub fn check(&self, p: &Ppm) -> Result<(), String> {
        if p.w != self.w as i64 || p.h != self.h as i64 { return Err(format!("image is {}x{}, expected {}x{}", p.w, p.h, self.w, self.h)); }
        for i in 0..p.px.len() {
            for k in 0..3 {
                if !self.accepts(i, k, p.px[i][k]) {
                    let a = &self.acc[i];
                    return Err(format!("pixel ({}, {}) channel {} is {}, the reference model has linear value {:.5} of weight {:.4}",
                        i as i32 % self.w, i as i32 / self.w, k, p.px[i][k], if a[3] > 0. { a[k] / a[3] } else { 0. }, a[3]));
                }
            }
        }
        Ok(())
    }
}

/// The pixel of every sample of the wall scene whose radiance is invalid.
pub fn invalid_points(cfg: &Cfg) -> Vec<(i32, i32)> {
    let m = FilmModel::new(cfg);
    let offs = with_edge(safe_offsets(radius_of(cfg.get("radius4")), cfg.get("w").max(cfg.get("h"))), cfg.opt("edge", 0) != 0);
    let (x0, y0, x1, y1) = m.area();
    let mut v = Vec::new();
    for y in y0..y1 {
        for x in x0..x1 {
            for s in 0..cfg.get("spp") as u32 {
                let (a, b) = jitter(cfg.get("jit_seed") as u64, x, y, s, &offs);
                let c = wall_color(cfg.get("color_seed") as u64, cfg.get("style"), cfg.opt("inv", 0), cfg.opt("kinds", 0), (x as f32 + a).to_bits(), (y as f32 + b).to_bits());
                if !color_valid(&c) { v.push((x, y)); }
            }
        }
    }
    v
}

/// The image of the wall scene, from its definition alone.
pub fn wall_model(cfg: &Cfg) -> FilmModel {
    let mut m = FilmModel::new(cfg);
    let offs = safe_offsets(radius_of(cfg.get("radius4")), cfg.get("w").max(cfg.get("h")));
    let (x0, y0, x1, y1) = m.area();
    let (spp, js, cs) = (cfg.get("spp") as u32, cfg.get("jit_seed") as u64, cfg.get("color_seed") as u64);
    for y in y0..y1 {
        for x in x0..x1 {
            for s in 0..spp {
                let (u, v) = jitter(js, x, y, s, &offs);
                let (px, py) = (x as f32 + u, y as f32 + v);
                let c = wall_color(cs, cfg.get("style"), cfg.opt("inv", 0), cfg.opt("kinds", 0), px.to_bits(), py.to_bits());
                if color_valid(&c) { m.add(px, py, &c); }
            }
        }
    }
    m
}
