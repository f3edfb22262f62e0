//! Scenes made of pt's own shapes, materials, textures and lights.
use std::sync::Arc;

use pt::api::*;
use pt::sim::*;
use simrt::model::radius_of;
use simrt::{Cfg, Rng};

use crate::parts::*;

fn v3(r: &mut Rng, s: f32) -> [f32; 3] {
    let mut f = || (r.below(2001) as f32 / 1000. - 1.) * s;
    [f(), f(), f()]
}
fn spec(r: &mut Rng, lo: f32, hi: f32) -> Spectrum {
    let mut f = || lo + (hi - lo) * r.below(1025) as f32 / 1024.;
    Spectrum::new(f(), f(), f())
}
fn tex_s(r: &mut Rng, lo: f32, hi: f32) -> Arc<TextureSpectrum> {
    match r.below(4) {
        0 => Arc::new(CheckerboardTexture::new(UVMapping2D::new(3., 3., 0.1, 0.2), spec(r, lo, hi), spec(r, lo, hi))),
        1 => Arc::new(Checkerboard3DTexture::new(IdentityMapping3D::new(Transform::scale(1.3, 0.7, 2.)), spec(r, lo, hi), spec(r, lo, hi))),
        _ => Arc::new(ConstantTexture::new(spec(r, lo, hi))),
    }
}
fn tex_f(v: f32) -> Arc<TextureFloat> { Arc::new(ConstantTexture::new(v)) }

/// kinds: bit mask of material families; refl: high reflectance
pub fn material(r: &mut Rng, kinds: u64, bright: bool) -> Arc<dyn Material> {
    let (lo, hi) = if bright { (0.95, 1.) } else { (0.1, 0.9) };
    let mut k = r.below(6);
    while kinds >> k & 1 == 0 { k = (k + 1) % 6; }
    let m: Arc<dyn Material> = match k {
        0 => Arc::new(LambertianReflectionMaterial::new(tex_s(r, lo, hi))),
        1 => Arc::new(MirrorMaterial::new(tex_s(r, lo, hi))),
        2 => Arc::new(GlassMaterial::new(tex_s(r, lo, hi), tex_s(r, lo, hi), tex_f(1.5), tex_f(0.), tex_f(0.))),
        3 => Arc::new(PlasticMaterial::new(tex_s(r, lo, hi), tex_s(r, lo, hi), tex_f(0.3))),
        4 => Arc::new(MetalMaterial::new(tex_s(r, lo, hi), tex_s(r, 0.2, 2.), tex_s(r, 1., 4.), tex_f(0.2), tex_f(0.3))),
        _ => Arc::new(GlassMaterial::new(tex_s(r, lo, hi), tex_s(r, lo, hi), tex_f(1.3), tex_f(0.2), tex_f(0.4))),
    };
    Arc::new(CountMaterial(m))
}
fn p3(a: [f32; 3]) -> Point3f { Point3f::new(a[0], a[1], a[2]) }

/// Scenes of one process may differ greatly in size.
pub fn scale(cfg: &Cfg) -> f32 {
    if cfg.opt("mixed", 0) == 0 { return 1. }
    Rng(cfg.get("scene_seed") as u64 ^ 0x51ce).pick(&[1., 0.05, 0.25, 4., 20.])
}
pub enum AnyContainer { Kd(KdTree), Simple(Simple) }
impl Container for AnyContainer {
    fn bbox(&self) -> BBox3f { match self { AnyContainer::Kd(c) => c.bbox(), AnyContainer::Simple(c) => c.bbox() } }
    fn intersect_p(&self, ray: &Ray) -> bool { match self { AnyContainer::Kd(c) => c.intersect_p(ray), AnyContainer::Simple(c) => c.intersect_p(ray) } }
    fn intersect(&self, ray: &Ray) -> Option<Interaction> { match self { AnyContainer::Kd(c) => c.intersect(ray), AnyContainer::Simple(c) => c.intersect(ray) } }
}
pub fn construct(b: Builder, kd: bool) -> Scene<CountContainer<AnyContainer>> {
    b.construct(|s| CountContainer { inner: if kd { AnyContainer::Kd(KdTree::new(s, None)) } else { AnyContainer::Simple(Simple::new(s)) } })
}

/// Shapes at the limits of what a scene may hold.
/// odd: bit 0 many in one place, 1 without area, 2 very small and very large, 3 very far, 4 all in one plane
fn odd_shapes(b: &mut Builder, odd: i64, r: &mut Rng, mats: u64, bright: bool) {
    if odd & 1 != 0 {
        let m = material(r, mats, bright);
        let c = v3(r, 2.);
        for k in 0..9 + r.below(30) {
            if k % 2 == 0 { b.add_shape(Sphere::new(p3([c[0], c[1], 2.]), 1., m.clone())) }
            else { b.add_shape(Triangle::new([p3([c[0] - 1., c[1], 2.]), p3([c[0] + 1., c[1], 2.]), p3([c[0], c[1] + 1., 2.5])], None, false, m.clone())) }
        }
    }
    if odd & 2 != 0 {
        for _ in 0..1 + r.below(20) {
            let m = material(r, mats, bright);
            let (p, q) = (v3(r, 3.), v3(r, 3.));
            let t = match r.below(3) { 0 => [p, p, p], 1 => [p, p, q], _ => [p, q, [2. * q[0] - p[0], 2. * q[1] - p[1], 2. * q[2] - p[2]]] };
            b.add_shape(Triangle::new([p3(t[0]), p3(t[1]), p3(t[2])], None, false, m));
        }
    }
    if odd & 4 != 0 {
        for _ in 0..1 + r.below(12) {
            let m = material(r, mats, bright);
            let c = v3(r, 3.);
            b.add_shape(Sphere::new(p3([c[0], c[1], 1.5 + c[2]]), r.pick(&[0., 1e-20, 1e-6, 1e-3, 30., 1e5, 1e12]), m));
        }
    }
    if odd & 8 != 0 {
        for _ in 0..1 + r.below(12) {
            let m = material(r, mats, bright);
            let k = r.pick(&[1e4, 1e8, 1e15]);
            let (a, c, d) = (v3(r, k), v3(r, k), v3(r, k));
            b.add_shape(Triangle::new([p3(a), p3(c), p3(d)], None, false, m));
        }
    }
    if odd & 16 != 0 {
        for _ in 0..9 + r.below(20) {
            let m = material(r, mats, bright);
            let mut p = || { let d = v3(r, 5.); p3([d[0], d[1], 0.5]) };
            b.add_shape(Triangle::new([p(), p(), p()], None, false, m));
        }
    }
}

/// A seeded scene: floor or closed room, spheres, triangles, distant and area lights.
/// cfg: shade, bare, odd, scene_seed, shapes, alights, dlights, mats (mask), room, bright, kd, inv/kinds (invalid texture values)
pub fn random_scene(cfg: &Cfg) -> Scene<CountContainer<AnyContainer>> {
    let seed = cfg.get("scene_seed") as u64;
    let mats = cfg.opt("mats", 63) as u64;
    let bright = cfg.opt("bright", 0) != 0;
    let inv = cfg.opt("inv", 0);
    let hook = cfg.opt("hook", 0) != 0;
    let sc = scale(cfg);
    let p3 = |a: [f32; 3]| p3([sc * a[0], sc * a[1], sc * a[2]]);
    let mut b = Builder::new();
    let mut r = Rng(seed);
    let quad = |b: &mut Builder, q: [[f32; 3]; 4], m: &Arc<dyn Material>| {
        b.add_shape(Triangle::new([p3(q[0]), p3(q[1]), p3(q[2])], None, false, m.clone()));
        b.add_shape(Triangle::new([p3(q[2]), p3(q[3]), p3(q[0])], None, false, m.clone()));
    };
    let m = if inv > 0 {
        let t = FaultyTexture { good: Spectrum::from(0.5), seed: seed ^ 5, inv, kinds: cfg.opt("kinds", 1) };
        Arc::new(LambertianReflectionMaterial::new(Arc::new(t))) as Arc<dyn Material>
    } else { material(&mut r, mats, bright) };
    if cfg.opt("bare", 0) == 0 { quad(&mut b, [[-10., -10., 0.], [10., -10., 0.], [10., 10., 0.], [-10., 10., 0.]], &m); }
    if cfg.opt("room", 0) != 0 {
        let h = 6.;
        let m2 = material(&mut r, mats, bright);
        quad(&mut b, [[-10., -10., h], [10., -10., h], [10., 10., h], [-10., 10., h]], &m);
        quad(&mut b, [[-10., -10., 0.], [10., -10., 0.], [10., -10., h], [-10., -10., h]], &m2);
        quad(&mut b, [[-10., 10., 0.], [10., 10., 0.], [10., 10., h], [-10., 10., h]], &m2);
        quad(&mut b, [[-10., -10., 0.], [-10., 10., 0.], [-10., 10., h], [-10., -10., h]], &m2);
        quad(&mut b, [[10., -10., 0.], [10., 10., 0.], [10., 10., h], [10., -10., h]], &m2);
    }
    for _ in 0..cfg.get("shapes") {
        let m = material(&mut r, mats, bright);
        if r.chance(1, 2) {
            let c = v3(&mut r, 3.);
            let rad = 0.3 + r.below(100) as f32 / 100.;
            let s = Sphere::new(p3([c[0], c[1], 1.5 + c[2].abs() * 0.5]), sc * rad, m);
            if hook { b.add_shape(HookShape(s)) } else { b.add_shape(s) }
        } else {
            let c = v3(&mut r, 3.);
            let mut p = || { let d = v3(&mut r, 1.5); p3([c[0] + d[0], c[1] + d[1], 1.6 + d[2]]) };
            let t = Triangle::new([p(), p(), p()], None, false, m);
            if hook { b.add_shape(HookShape(t)) } else { b.add_shape(t) }
        }
    }
    odd_shapes(&mut b, cfg.opt("odd", 0), &mut r, mats, bright);
    let black: Arc<dyn Material> = Arc::new(LambertianReflectionMaterial::new(Arc::new(ConstantTexture::new(Spectrum::from(0.)))));
    if cfg.opt("shade", 0) != 0 {
        // a roof over everything, and a clutter above it that nothing reaches
        quad(&mut b, [[-90., -90., 7.], [90., -90., 7.], [90., 90., 7.], [-90., 90., 7.]], &black);
        for k in 0..40 {
            let (x, y) = ((k % 8) as f32 * 3. - 11., (k / 8) as f32 * 3. - 7.);
            let z = 9. + r.below(1000) as f32 / 100.;
            b.add_shape(Triangle::new([p3([x, y, z]), p3([x + 2., y, z]), p3([x, y + 2., z + 1.])], None, false, black.clone()));
        }
    }
    for k in 0..cfg.get("alights") {
        let x = -2. + 2. * k as f32;
        let t = Triangle::new([p3([x, -1., 5.]), p3([x + 1.5, -1., 5.]), p3([x + 1.5, 1., 5.])], None, true, black.clone());
        b.add_area_light(AreaLight::new(spec(&mut r, 0.5, 3.), t));
    }
    for _ in 0..cfg.get("dlights") {
        let d = v3(&mut r, 1.);
        b.add_light(DistantLight::new(spec(&mut r, 0.2, 1.), Vector3f::new(d[0], d[1], 0.5 + d[2].abs())));
    }
    construct(b, cfg.opt("kd", 1) != 0)
}

pub fn camera(cfg: &Cfg) -> PerspectiveCamera {
    let (w, h) = (cfg.get("w") as u32, cfg.get("h") as u32);
    let a = w as f32 / h as f32;
    let inside = cfg.opt("room", 0) != 0;
    let sc = scale(cfg);
    let pos = if inside { Point3f::new(-4. * sc, -8. * sc, 3. * sc) } else { Point3f::new(-8. * sc, -24. * sc, 9. * sc) };
    PerspectiveCamera::new(
        Transform::look_at(pos, Point3f::new(0., 0., sc), Vector3f::new(0., 0., 1.)),
        Transform::perspective(if inside { 60. } else { 22. }, 0.01, 1000.),
        BBox2f::new(Point2f::new(-a, -1.), Point2f::new(a, 1.)),
        Point2u::new(w, h),
    )
}

/// The wall scene whose image the reference model predicts.
pub fn wall_scene(cfg: &Cfg) -> Scene<CountContainer<AnyContainer>> {
    let mut b = Builder::new();
    let (w, h) = (cfg.get("w") as f32, cfg.get("h") as f32);
    let seed = cfg.get("color_seed") as u64;
    let m: Arc<dyn Material> = Arc::new(BlackMaterial);
    // the samples around the picture have to hit as well
    let m0 = { let r = radius_of(cfg.get("radius4")); if r <= 7. { 8. } else { r.ceil() + 2. } };
    let mk = |x0: f32, x1: f32| SimWall { min: (x0, -m0), max: (x1, h + m0), seed, style: cfg.get("style"), inv: cfg.opt("inv", 0), kinds: cfg.opt("kinds", 0), material: m.clone() };
    // several panels side by side, so that the container has something to choose from
    let n = cfg.opt("panels", 1);
    let step = ((w + 2. * m0) / n as f32).ceil();
    for k in 0..n { b.add_shape(mk(-m0 + step * k as f32, -m0 + step * (k + 1) as f32)); }
    construct(b, cfg.opt("kd", 0) != 0)
}
