//! Generators: numbers, vectors, directions, layouts, shapes.  All choices come from `Src`.
use crate::engine::Src;

#[derive(Clone, Copy)]
pub struct Dom {
    /// smallest and largest non-zero magnitude
    pub lo: f64,
    pub hi: f64,
    /// round to single precision
    pub single: bool,
}
impl Dom {
    pub const fn new(lo: f64, hi: f64) -> Dom {
        Dom { lo, hi, single: false }
    }
    pub const fn prec(self, single: bool) -> Dom {
        Dom { lo: self.lo, hi: self.hi, single }
    }
    #[inline]
    pub fn fix(&self, x: f64) -> f64 {
        let x = if self.single { x as f32 as f64 } else { x };
        let a = x.abs();
        if x == 0.0 {
            return x;
        }
        if !(a >= self.lo && a <= self.hi) {
            // fold into the domain by the mantissa
            if !x.is_finite() {
                return 1.0;
            }
            let m = a.log2().fract().abs();
            let y = (1.0 + m) * if x < 0.0 { -1.0 } else { 1.0 };
            return if self.single { y as f32 as f64 } else { y };
        }
        x
    }
}
pub const GEO: Dom = Dom::new(1e-6, 1e6);
pub const MID: Dom = Dom::new(1e-3, 1e3);

/// 0, 1, -1, 2, -2, ...
#[inline]
pub fn zigzag(src: &mut Src, n: u64) -> f64 {
    let k = src.below(n) as i64;
    (if k % 2 == 1 { (k + 1) / 2 } else { -(k / 2) }) as f64
}
/// uniform in [0,1): coarse to fine so that small tapes give round numbers
#[inline]
pub fn unit(src: &mut Src) -> f64 {
    match src.below(4) {
        0 => src.below(17) as f64 / 16.0,
        1 => src.below(1001) as f64 / 1000.0,
        _ => src.below(1 << 53) as f64 / (1u64 << 53) as f64,
    }
}
/// magnitude log-uniform in [lo,hi]
pub fn logu(src: &mut Src, lo: f64, hi: f64) -> f64 {
    let (a, b) = (lo.log10(), hi.log10());
    let x = 10f64.powf(a + (b - a) * unit(src));
    x.max(lo).min(hi)
}
pub fn sign(src: &mut Src) -> f64 {
    if src.bool() {
        -1.0
    } else {
        1.0
    }
}
pub fn ulp_next(x: f64, up: bool, single: bool) -> f64 {
    if single {
        let b = (x as f32).to_bits() as i32;
        let n = if x == 0.0 { 1 } else if (x > 0.0) == up { b + 1 } else { b - 1 };
        return f32::from_bits(n as u32) as f64;
    }
    let b = x.to_bits() as i64;
    let n = if x == 0.0 { 1 } else if (x > 0.0) == up { b + 1 } else { b - 1 };
    f64::from_bits(n as u64)
}
/// a literal of the code under test or a close relative of one
pub fn dict(src: &mut Src, single: bool) -> f64 {
    let d = src.dict;
    if d.is_empty() {
        return 1.0;
    }
    let x = d[src.below(d.len() as u64) as usize];
    let x = match src.below(12) {
        0 | 1 => x,
        2 => ulp_next(x, true, single),
        3 => ulp_next(x, false, single),
        4 => x * (1.0 + 1e-3),
        5 => x * (1.0 - 1e-3),
        6 => 1.0 / x,
        7 => x.abs().sqrt(),
        8 => x * x,
        9 => x * (1.0 + unit(src)),
        10 => x * unit(src),
        _ => x / 2.0,
    };
    if src.bool() {
        -x
    } else {
        x
    }
}
const SPECIAL: [f64; 20] = [
    0.0, -0.0, 1.0, -1.0, 0.5, -0.5, 2.0, -2.0, 0.25, 0.1, -0.1, 10.0, 100.0, 1000.0, 0.001, 1e-6, 3.141592653589793, 1.5707963267948966, 1.4142135623730951,
    0.7071067811865476,
];
pub fn num(src: &mut Src, d: Dom) -> f64 {
    let x = match src.below(16) {
        0 | 1 | 2 => zigzag(src, 21),
        3 => zigzag(src, 401),
        4 | 5 => zigzag(src, 4097) / (1u64 << src.below(12)) as f64,
        6 | 7 | 8 => sign(src) * 10.0 * unit(src),
        9 | 10 | 11 => sign(src) * logu(src, d.lo, d.hi),
        12 => SPECIAL[src.below(20) as usize],
        13 | 14 => dict(src, d.single),
        _ => {
            let e = (d.hi.log2() as u64).min(60);
            let k = src.below(2 * e + 1) as i32 - e as i32;
            sign(src) * 2f64.powi(k)
        }
    };
    d.fix(x)
}
pub fn nonzero(src: &mut Src, d: Dom) -> f64 {
    let x = num(src, d);
    if x == 0.0 {
        1.0
    } else {
        x
    }
}
/// of a sphere or cube: now and then nothing but its centre
pub fn size(src: &mut Src, d: Dom) -> f64 {
    if src.below(32) == 31 {
        0.0
    } else {
        positive(src, d)
    }
}
pub fn positive(src: &mut Src, d: Dom) -> f64 {
    nonzero(src, d).abs()
}
const PYTH: [[f64; 4]; 12] = [
    [1.0, 2.0, 2.0, 3.0],
    [2.0, 3.0, 6.0, 7.0],
    [1.0, 4.0, 8.0, 9.0],
    [4.0, 4.0, 7.0, 9.0],
    [2.0, 6.0, 9.0, 11.0],
    [6.0, 6.0, 7.0, 11.0],
    [3.0, 4.0, 12.0, 13.0],
    [2.0, 5.0, 14.0, 15.0],
    [2.0, 10.0, 11.0, 15.0],
    [3.0, 4.0, 0.0, 5.0],
    [5.0, 12.0, 0.0, 13.0],
    [8.0, 15.0, 0.0, 17.0],
];
/// an integer vector of integer length (and that length)
pub fn pyth(src: &mut Src) -> ([f64; 3], f64) {
    let p = PYTH[src.below(12) as usize];
    let k = src.below(4) as f64 + 1.0;
    let perm = src.below(6) as usize;
    let ix = [[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]][perm];
    let mut v = [p[ix[0]] * k, p[ix[1]] * k, p[ix[2]] * k];
    let s = src.below(8);
    for i in 0..3 {
        if s >> i & 1 == 1 {
            v[i] = -v[i];
        }
    }
    (v, p[3] * k)
}
/// a vector of n components
pub fn vecn(src: &mut Src, n: usize, d: Dom) -> [f64; 4] {
    let mut v = [0.0; 4];
    match src.below(12) {
        0 => {
            let i = src.below(n as u64) as usize;
            v[i] = num(src, d);
        }
        1 => {
            let i = src.below(n as u64) as usize;
            let j = src.below(n as u64) as usize;
            v[i] = num(src, d);
            v[j] = num(src, d);
        }
        2 => {
            let x = num(src, d);
            for c in v.iter_mut().take(n) {
                *c = x;
            }
        }
        3 => {
            let x = num(src, d);
            for c in v.iter_mut().take(n) {
                *c = x * sign(src);
            }
        }
        4 | 5 => {
            let s = logu(src, d.lo, d.hi);
            for c in v.iter_mut().take(n) {
                *c = d.fix(s * (2.0 * unit(src) - 1.0));
            }
        }
        6 => {
            for c in v.iter_mut().take(n) {
                *c = zigzag(src, 21);
            }
        }
        7 if n >= 3 => {
            let (p, _) = pyth(src);
            v[..3].copy_from_slice(&p);
            if n == 4 {
                v[3] = zigzag(src, 9);
            }
        }
        _ => {
            for c in v.iter_mut().take(n) {
                *c = num(src, d);
            }
        }
    }
    v
}
pub fn is_zero(v: &[f64]) -> bool {
    v.iter().all(|x| *x == 0.0)
}
pub fn nzvecn(src: &mut Src, n: usize, d: Dom) -> [f64; 4] {
    let mut v = vecn(src, n, d);
    if is_zero(&v[..n]) {
        let i = src.below(n as u64) as usize;
        v[i] = 1.0;
    }
    v
}
pub fn v3(src: &mut Src, d: Dom) -> [f64; 3] {
    let v = vecn(src, 3, d);
    [v[0], v[1], v[2]]
}
pub fn nzv3(src: &mut Src, d: Dom) -> [f64; 3] {
    let v = nzvecn(src, 3, d);
    [v[0], v[1], v[2]]
}
/// a vector of four components related to a: equal, near, negated, a multiple, or independent
pub fn related(src: &mut Src, a: &[f64; 4], n: usize, d: Dom) -> [f64; 4] {
    let mut b = *a;
    match src.below(12) {
        0 => {}
        1 => {
            for c in b.iter_mut().take(n) {
                *c = -*c;
            }
        }
        2 => {
            let k = nonzero(src, d);
            for c in b.iter_mut().take(n) {
                *c = d.fix(*c * k);
            }
        }
        3 => {
            let i = src.below(n as u64) as usize;
            b[i] = num(src, d);
        }
        4 => {
            // permuted
            let k = src.below(n as u64) as usize;
            for i in 0..n {
                b[i] = a[(i + k) % n];
            }
        }
        _ => b = vecn(src, n, d),
    }
    b
}
/// an angle in radians within +-4 turns
pub fn angle(src: &mut Src) -> f64 {
    use std::f64::consts::PI;
    match src.below(8) {
        0 => zigzag(src, 17) * PI / 2.0,
        1 => zigzag(src, 97) * PI / 12.0,
        2 => sign(src) * 2.0 * PI * unit(src),
        3 => sign(src) * 8.0 * PI * unit(src),
        4 => sign(src) * logu(src, 1e-9, 1.0),
        5 => {
            let x = dict(src, false);
            if x.abs() <= 8.0 * PI {
                x
            } else {
                x % PI
            }
        }
        6 => zigzag(src, 17) * PI / 2.0 + sign(src) * logu(src, 1e-12, 1e-2),
        _ => sign(src) * PI * unit(src),
    }
}
/// a power of two, mostly one, now and then up to 2^n or down to 2^-n
pub fn far(src: &mut Src, n: u64) -> f64 {
    if src.below(12) == 11 {
        2f64.powi(src.below(2 * n + 1) as i32 - n as i32)
    } else {
        1.0
    }
}
/// a direction of arbitrary non-zero length
pub fn axis(src: &mut Src, d: Dom) -> [f64; 3] {
    nzv3(src, d)
}
/// relative gap, log-uniform between 1e-15 and 1, either sign
pub fn gap(src: &mut Src) -> f64 {
    let g = match src.below(6) {
        0 => 0.5,
        1 => unit(src),
        2 => dict(src, false).abs().min(1.0),
        _ => logu(src, 1e-15, 1.0),
    };
    sign(src) * g
}
pub fn norm(v: &[f64; 3]) -> f64 {
    (v[0] * v[0] + v[1] * v[1] + v[2] * v[2]).sqrt()
}
pub fn add(a: &[f64; 3], b: &[f64; 3]) -> [f64; 3] {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
}
pub fn sub(a: &[f64; 3], b: &[f64; 3]) -> [f64; 3] {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
pub fn mulv(a: &[f64; 3], s: f64) -> [f64; 3] {
    [a[0] * s, a[1] * s, a[2] * s]
}
pub fn dot(a: &[f64; 3], b: &[f64; 3]) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
pub fn cross(a: &[f64; 3], b: &[f64; 3]) -> [f64; 3] {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
pub fn unitv(a: &[f64; 3]) -> [f64; 3] {
    let m = a[0].abs().max(a[1].abs()).max(a[2].abs());
    let b = mulv(a, 1.0 / m);
    let l = norm(&b);
    [b[0] / l, b[1] / l, b[2] / l]
}
/// some unit vector perpendicular to the unit vector u, at a random turn about it
pub fn perp(src: &mut Src, u: &[f64; 3]) -> [f64; 3] {
    let mut i = 0;
    for k in 1..3 {
        if u[k].abs() < u[i].abs() {
            i = k;
        }
    }
    let mut e = [0.0; 3];
    e[i] = 1.0;
    let p = unitv(&cross(u, &e));
    let q = cross(u, &p);
    let t = match src.below(3) {
        0 => src.below(8) as f64 * std::f64::consts::PI / 4.0,
        _ => 2.0 * std::f64::consts::PI * unit(src),
    };
    let (s, c) = t.sin_cos();
    let v = [p[0] * c + q[0] * s, p[1] * c + q[1] * s, p[2] * c + q[2] * s];
    unitv(&v)
}
/// clamps a coordinate vector into the domain (components below lo become zero)
pub fn fix3(v: [f64; 3], d: Dom) -> [f64; 3] {
    let mut o = v;
    for x in &mut o {
        if x.abs() < d.lo {
            *x = 0.0;
        }
        if x.abs() > d.hi {
            *x = d.hi * x.signum();
        }
    }
    o
}
