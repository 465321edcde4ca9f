//! Shapes as plain data, their construction in the library, generators and exact facts about them.
use crate::dd::{D, V};
use crate::engine::Src;
use crate::gens::*;
use mazth::i_shape::{IShape, ShapeType};
use mazth::mat::Mat3x1;

pub const EPS: f64 = f64::EPSILON;
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum G {
    Point([f64; 3]),
    Ray([f64; 3], [f64; 3]),
    Sphere([f64; 3], f64),
    Plane([f64; 3], [f64; 3]),
    Cube([f64; 3], f64),
    Segment([f64; 3], [f64; 3]),
    Prism([f64; 9], f64),
}
pub const KINDS: [&str; 7] = ["point", "ray", "sphere", "plane", "cube", "segment", "prism"];
impl G {
    pub fn kind(&self) -> usize {
        match self {
            G::Point(..) => 0,
            G::Ray(..) => 1,
            G::Sphere(..) => 2,
            G::Plane(..) => 3,
            G::Cube(..) => 4,
            G::Segment(..) => 5,
            G::Prism(..) => 6,
        }
    }
    pub fn build(&self) -> Box<dyn IShape> {
        match self {
            G::Point(p) => Box::new(mazth::point::Point3::init(p)),
            G::Ray(o, d) => Box::new(mazth::ray::Ray3::init(o, d)),
            G::Sphere(c, r) => Box::new(mazth::sphere::Sphere::init(c, *r)),
            G::Plane(o, n) => Box::new(mazth::plane::Plane::init(o, n)),
            G::Cube(c, s) => Box::new(mazth::rbox::RecBox::init(c, *s)),
            G::Segment(a, b) => Box::new(mazth::line::Line3::init(a, b)),
            G::Prism(v, h) => Box::new(mazth::triprism::TriPrism::init(v, *h)),
        }
    }
    /// `s` times as large about the origin, directions and normals `d` times as long
    pub fn scaled(&self, s: f64, d: f64) -> G {
        let m = |p: &[f64; 3]| p.map(|x| x * s);
        let n = |p: &[f64; 3]| p.map(|x| x * d);
        match self {
            G::Point(p) => G::Point(m(p)),
            G::Ray(o, v) => G::Ray(m(o), n(v)),
            G::Sphere(c, r) => G::Sphere(m(c), r * s),
            G::Plane(o, v) => G::Plane(m(o), n(v)),
            G::Cube(c, r) => G::Cube(m(c), r * s),
            G::Segment(a, b) => G::Segment(m(a), m(b)),
            G::Prism(v, h) => G::Prism(v.map(|x| x * s), h * s),
        }
    }
    pub fn show(&self) -> String {
        format!("{:?}", self)
    }
}
pub fn kind_of(t: &ShapeType) -> usize {
    match t {
        ShapeType::Point => 0,
        ShapeType::Ray => 1,
        ShapeType::Sphere => 2,
        ShapeType::Plane => 3,
        ShapeType::Box => 4,
        ShapeType::Line => 5,
        ShapeType::TriPrism => 6,
        _ => 99,
    }
}
pub fn m3(v: &[f64; 3]) -> Mat3x1<f64> {
    Mat3x1 { _val: *v }
}
pub fn a3(v: &Mat3x1<f64>) -> [f64; 3] {
    v._val
}
pub fn maxabs(v: &[f64]) -> f64 {
    v.iter().fold(0.0, |m: f64, x| m.max(x.abs()))
}
pub fn bbox(s: &dyn IShape) -> ([f64; 3], [f64; 3]) {
    let b = s.get_bound().get_bound_data();
    ([b[0], b[1], b[2]], [b[3], b[4], b[5]])
}

/// exact facts about a prism
#[derive(Clone, Copy)]
pub struct PrismX {
    pub v: [V; 3],
    pub top: [V; 3],
    pub hn: V,
    /// outward unit normals and a point on each of the 5 faces: base, top, sides 01, 12, 20
    pub n: [V; 5],
    pub p: [V; 5],
    /// conditioning of the base triangle at its first vertex, and at the worst of its vertices
    pub kappa0: f64,
    pub kappa: f64,
    /// the unit normals have one component only
    pub straight: [bool; 5],
    pub size: f64,
    pub cmax: f64,
}
pub fn prism(v: &[f64; 9], h: f64) -> Option<PrismX> {
    let a = V::of([v[0], v[1], v[2]]);
    let b = V::of([v[3], v[4], v[5]]);
    let c = V::of([v[6], v[7], v[8]]);
    let (d1, d2) = (b - a, c - a);
    let cr = d1.cross(d2);
    let l = cr.len();
    if !(l.f() > 0.0) {
        return None;
    }
    let n = cr.unit();
    let hn = n.scale(D::new(h));
    let (e1, e2, e3) = (d1.len().f(), d2.len().f(), (c - b).len().f());
    let kappa0 = e1 * e2 / l.f();
    let kappa = (e1 * e2).max(e1 * e3).max(e2 * e3) / l.f();
    let neg = V::of([0.0; 3]) - n;
    let side = |p: V, q: V| (q - p).cross(n).unit();
    let n5 = [neg, n, side(a, b), side(b, c), side(c, a)];
    Some(PrismX {
        v: [a, b, c],
        top: [a + hn, b + hn, c + hn],
        hn,
        straight: n5.map(|u| u.f().iter().filter(|x| **x != 0.0).count() == 1),
        n: n5,
        p: [a, a + hn, a, b, c],
        kappa0,
        kappa,
        size: d1.len().f() + d2.len().f() + h.abs(),
        cmax: maxabs(v),
    })
}
impl PrismX {
    /// rounding allowance for the signed distance of a point to the faces
    pub fn band(&self, p: &[f64; 3]) -> f64 {
        let a = self.v[0].f();
        let l = norm(&sub(p, &a)) + self.size;
        32.0 * EPS * (self.kappa * l + self.cmax + maxabs(p))
    }
    /// signed distances to the 5 faces, positive outside
    pub fn dist(&self, p: V) -> [f64; 5] {
        std::array::from_fn(|i| (p - self.p[i]).dot(self.n[i]).f())
    }
    pub fn interior(&self, b: [f64; 3], t: f64) -> [f64; 3] {
        // barycentric weights b, height fraction t
        let s = b[0] + b[1] + b[2];
        let (x, y, z) = (self.v[0].f(), self.v[1].f(), self.v[2].f());
        let h = self.hn.f();
        std::array::from_fn(|i| (x[i] * b[0] + y[i] * b[1] + z[i] * b[2]) / s + t * h[i])
    }
}

// ---- generators of single shapes -------------------------------------------------------------
pub fn scale_of(src: &mut Src, d: Dom) -> f64 {
    match src.below(4) {
        0 | 1 => 1.0,
        2 => 10f64.powi(src.below(7) as i32 - 3),
        _ => logu(src, d.lo * 100.0, d.hi / 100.0),
    }
}
/// prism with conditioning at most 1e3 (base in ccw order about its normal)
pub fn gen_prism(src: &mut Src, d: Dom) -> ([f64; 9], f64) {
    for attempt in 0..4 {
        let o = if src.below(3) == 0 { [0.0; 3] } else { v3(src, d) };
        let mut v = [0.0; 9];
        let h;
        match if attempt == 3 { 0 } else { src.below(6) } {
            0 | 1 => {
                // axis-aligned lattice triangle, exact in binary
                let (i, j) = [(0, 1), (1, 2), (2, 0), (1, 0), (2, 1), (0, 2)][src.below(6) as usize];
                let o: [f64; 3] = std::array::from_fn(|_| zigzag(src, 21));
                let mut edge = || match src.below(2) {
                    0 => (1 << src.below(4)) as f64,
                    _ => 1.0 + src.below(8) as f64,
                };
                let (la, lb) = (edge(), edge());
                let sk = zigzag(src, 5);
                for q in 0..3 {
                    v[q] = o[q];
                    v[3 + q] = o[q];
                    v[6 + q] = o[q];
                }
                v[3 + i] += la;
                v[6 + j] += lb;
                v[6 + i] += sk;
                h = 1.0 + src.below(9) as f64;
                // rotate the vertex order (keeps the orientation)
                let r = src.below(3) as usize;
                let w = v;
                for q in 0..3 {
                    for x in 0..3 {
                        v[q * 3 + x] = w[((q + r) % 3) * 3 + x];
                    }
                }
                return (v, h);
            }
            2 | 3 => {
                // any plane in space, one scale
                let s = scale_of(src, d);
                for q in 0..3 {
                    for x in 0..3 {
                        v[q * 3 + x] = o[x] + s * (2.0 * unit(src) - 1.0);
                    }
                }
                h = s * logu(src, 0.1, 10.0);
            }
            4 => {
                for q in 0..3 {
                    let w = v3(src, d);
                    for x in 0..3 {
                        v[q * 3 + x] = w[x];
                    }
                }
                h = positive(src, d);
            }
            _ => {
                // two edges in chosen directions and lengths
                let u = unitv(&nzv3(src, MID));
                let w = perp(src, &u);
                let s = scale_of(src, d);
                let (a, b, k) = (s * logu(src, 0.1, 10.0), s * logu(src, 0.1, 10.0), 2.0 * unit(src) - 1.0);
                for x in 0..3 {
                    v[x] = o[x];
                    v[3 + x] = o[x] + a * u[x];
                    v[6 + x] = o[x] + b * (w[x] + k * u[x]);
                }
                h = match src.below(3) {
                    0 => positive(src, d),
                    _ => s * logu(src, 0.01, 100.0),
                };
            }
        }
        let ok = v.iter().all(|x| x.abs() <= d.hi * 2.0) && h >= d.lo && h <= d.hi;
        if !ok {
            continue;
        }
        if let Some(p) = prism(&v, h) {
            let e = (p.v[1] - p.v[0]).len().f().min((p.v[2] - p.v[0]).len().f()).min((p.v[2] - p.v[1]).len().f());
            if p.kappa0 <= 1e3 && e >= d.lo && e * e * 1e3 >= 1e-9 * p.size * p.size.min(1.0) && e >= 1e-6 * p.size {
                return (v, h);
            }
        }
    }
    ([0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0, 1.0, 0.0], 1.0)
}
pub fn gen_shape(src: &mut Src, kind: usize, d: Dom) -> G {
    match kind {
        0 => G::Point(v3(src, d)),
        1 => G::Ray(v3(src, d), nzv3(src, d)),
        2 => G::Sphere(v3(src, d), size(src, d)),
        3 => G::Plane(v3(src, d), nzv3(src, d)),
        4 => G::Cube(v3(src, d), size(src, d)),
        5 => {
            let a = v3(src, d);
            let b = if src.below(8) == 7 {
                a
            } else {
                let w = [a[0], a[1], a[2], 0.0];
                let r = related(src, &w, 3, d);
                [r[0], r[1], r[2]]
            };
            G::Segment(a, b)
        }
        _ => {
            let (v, h) = gen_prism(src, d);
            G::Prism(v, h)
        }
    }
}
