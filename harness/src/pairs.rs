//! The 12 supported kinds of pairs: generators and exact oracles.
use crate::dd::{D, V};
use crate::engine::{Case, Res, Src};
use crate::gens::*;
use crate::geom::*;
use crate::req;
use mazth::i_shape::IShape;
use mazth::mat::Mat3x1;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Vd {
    Hit,
    Miss,
    /// within rounding of the boundary, or outside what the property states
    Unk,
}
use Vd::*;
#[derive(Clone, Debug)]
pub enum Loc {
    Any,
    Near([f64; 3], f64),
    /// one of two points
    Either([f64; 3], [f64; 3], f64),
    /// a point on both of two rays
    OnRays([f64; 3], [f64; 3], [f64; 3], [f64; 3], f64),
    /// a point on the segment and in the prism
    SegPrism(f64, f64),
}
pub struct Ans {
    pub v: Vd,
    pub loc: Loc,
}
impl Ans {
    /// of the scene `s` times as large
    pub fn scaled(&self, s: f64) -> Ans {
        let m = |p: &[f64; 3]| p.map(|x| x * s);
        let loc = match &self.loc {
            Loc::Any => Loc::Any,
            Loc::Near(p, t) => Loc::Near(m(p), t * s),
            Loc::Either(p, q, t) => Loc::Either(m(p), m(q), t * s),
            Loc::OnRays(oa, da, ob, db, t) => Loc::OnRays(m(oa), *da, m(ob), *db, t * s),
            Loc::SegPrism(a, b) => Loc::SegPrism(a * s, b * s),
        };
        Ans { v: self.v, loc }
    }
}
fn ans(v: Vd, loc: Loc) -> Ans {
    Ans { v, loc }
}
pub const PT_PT: usize = 0;
pub const PT_PLANE: usize = 1;
pub const PT_RAY: usize = 2;
pub const PT_SPHERE: usize = 3;
pub const PT_CUBE: usize = 4;
pub const PT_PRISM: usize = 5;
pub const RAY_RAY: usize = 6;
pub const RAY_SPHERE: usize = 7;
pub const RAY_PLANE: usize = 8;
pub const SPH_SPH: usize = 9;
pub const SPH_PLANE: usize = 10;
pub const SEG_PRISM: usize = 11;
pub const PAIRS: [&str; 12] = [
    "point-point", "point-plane", "point-ray", "point-sphere", "point-cube", "point-prism", "ray-ray", "ray-sphere", "ray-plane", "sphere-sphere", "sphere-plane",
    "segment-prism",
];
pub const PAIR_KINDS: [(usize, usize); 12] = [(0, 0), (0, 3), (0, 1), (0, 2), (0, 4), (0, 6), (1, 1), (1, 2), (1, 3), (2, 2), (2, 3), (5, 6)];
pub fn pair_of(a: usize, b: usize) -> Option<(usize, bool)> {
    for (i, (x, y)) in PAIR_KINDS.iter().enumerate() {
        if (a, b) == (*x, *y) {
            return Some((i, false));
        }
        if (b, a) == (*x, *y) {
            return Some((i, true));
        }
    }
    None
}
fn ints(v: &[f64]) -> bool {
    v.iter().all(|x| x.fract() == 0.0 && x.abs() < 1048576.0)
}
/// along an axis with a power of two as length, so that normalising is exact however it is done
fn single_axis(v: &[f64; 3]) -> bool {
    v.iter().filter(|x| **x != 0.0).count() == 1 && v.iter().all(|x| *x == 0.0 || (x.abs().to_bits() << 12 == 0))
}
/// integer prism along an axis whose normal is exact however it is normalised
fn lattice_prism(w: &[f64; 9], h: f64) -> bool {
    let (a, b, c) = ([w[0], w[1], w[2]], [w[3], w[4], w[5]], [w[6], w[7], w[8]]);
    ints(w) && ints(&[h]) && single_axis(&cross(&sub(&b, &a), &sub(&c, &a)))
}
fn dv(x: f64) -> D {
    D::new(x)
}
fn sqr(x: f64) -> f64 {
    x * x
}

// ---- oracles ---------------------------------------------------------------------------------
pub fn judge(a: &G, b: &G, ta: f64, tb: f64) -> Ans {
    match (a, b) {
        (G::Point(p), G::Point(q)) => {
            let exact = ints(p) && ints(q) && ints(&[ta]);
            let mut v = Hit;
            for i in 0..3 {
                let d = (dv(p[i]) - dv(q[i])).abs().f();
                let band = if exact { 0.0 } else { 4.0 * EPS * (p[i].abs() + q[i].abs() + ta) };
                if d > ta + band {
                    v = Miss;
                    break;
                }
                if d != 0.0 && d > ta - band {
                    v = Unk;
                }
            }
            ans(v, Loc::Near(*p, 4.0 * EPS * maxabs(p)))
        }
        (G::Point(p), G::Plane(o, n)) => {
            let exact = ints(p) && ints(o) && single_axis(n);
            let d = (V::of(*p) - V::of(*o)).dot(V::of(*n).unit()).abs().f();
            let band = if exact { 0.0 } else { 32.0 * EPS * (maxabs(p) + maxabs(o)) + 4.0 * EPS * tb };
            let v = if d <= tb - band || (exact && d <= tb) {
                Hit
            } else if d > tb + band {
                Miss
            } else {
                Unk
            };
            ans(v, Loc::Near(*p, 4.0 * EPS * maxabs(p)))
        }
        (G::Point(p), G::Ray(o, d)) => {
            if p == o {
                return ans(Hit, Loc::Near(*p, 4.0 * EPS * maxabs(p)));
            }
            let u = V::of(*d).unit();
            let rel = V::of(*p) - V::of(*o);
            let t = rel.dot(u);
            let perp = (rel - u.scale(t)).len().f();
            let t = t.f();
            let c = maxabs(p) + maxabs(o) + t.abs();
            let dist = if t >= 0.0 { perp } else { rel.len().f() };
            let v = if dist > 3.0 * tb + 64.0 * EPS * c {
                Miss
            } else if perp <= 8.0 * EPS * c && t > tb * (1.0 + 1e-9) + 64.0 * EPS * c && tb >= 1024.0 * EPS * c {
                Hit
            } else {
                Unk
            };
            ans(v, Loc::Near(*p, 64.0 * EPS * c))
        }
        (G::Point(p), G::Sphere(c, r)) => {
            let exact = ints(p) && ints(c) && ints(&[*r]);
            let rel = V::of(*p) - V::of(*c);
            let v = if exact {
                if rel.dot(rel).f() <= r * r {
                    Hit
                } else {
                    Miss
                }
            } else {
                let d = rel.len().f();
                let band = 16.0 * EPS * (maxabs(p) + maxabs(c) + r);
                if d < r - band {
                    Hit
                } else if d > r + band {
                    Miss
                } else {
                    Unk
                }
            };
            ans(v, Loc::Near(*p, 4.0 * EPS * maxabs(p)))
        }
        (G::Point(p), G::Cube(c, s)) => {
            let exact = ints(p) && ints(c) && ints(&[*s]);
            let mut v = Hit;
            for i in 0..3 {
                let d = (dv(p[i]) - dv(c[i])).abs().f();
                let band = if exact { 0.0 } else { 4.0 * EPS * (p[i].abs() + c[i].abs() + s) };
                if d > s + band {
                    v = Miss;
                    break;
                }
                if !exact && d > s - band {
                    v = Unk;
                }
            }
            ans(v, Loc::Near(*p, 4.0 * EPS * maxabs(p)))
        }
        (G::Point(p), G::Prism(w, h)) => {
            let x = prism(w, *h).unwrap();
            let exact = ints(p) && lattice_prism(w, *h);
            let d = x.dist(V::of(*p));
            let m = d.iter().cloned().fold(f64::MIN, f64::max);
            let band = if exact { 1e-9 } else { x.band(p) };
            // in the exact case distances are zero or at least about 1e-6; a point on a slanted
            // side is left open, as the normal of that side may have been rounded
            let v = if m < -band || (exact && (0..5).all(|i| d[i] <= if x.straight[i] { band } else { -band })) {
                Hit
            } else if m > band {
                Miss
            } else {
                Unk
            };
            ans(v, Loc::Near(*p, 4.0 * EPS * maxabs(p)))
        }
        (G::Ray(oa, da), G::Ray(ob, db)) => ray_ray(oa, da, ob, db),
        (G::Ray(o, d), G::Sphere(c, r)) => ray_sphere(o, d, c, *r),
        (G::Ray(o, d), G::Plane(q, n)) => {
            let u = V::of(*d).unit();
            let m = V::of(*n).unit();
            let num = (V::of(*q) - V::of(*o)).dot(m);
            let den = u.dot(m);
            let exact = single_axis(n);
            let i = (0..3).find(|i| n[*i] != 0.0).unwrap();
            let k = maxabs(q) + maxabs(o);
            let tn = 32.0 * EPS * k;
            let td = 32.0 * EPS;
            let (numf, denf) = (num.f(), den.f());
            if exact && d[i] == 0.0 {
                return if o[i] == q[i] { ans(Hit, Loc::Near(*o, 4.0 * EPS * maxabs(o))) } else { ans(Miss, Loc::Any) };
            }
            if denf > td {
                return ans(Miss, Loc::Any);
            }
            if denf > -1e-6 {
                return ans(Unk, Loc::Any);
            }
            let t = num / den;
            let p = (V::of(*o) + u.scale(t)).f();
            let tf = t.f().abs();
            let tol = (tn + tf * td) / denf.abs() + 16.0 * EPS * (maxabs(o) + tf);
            let exact_on = exact && o[i] == q[i];
            let v = if numf < -tn || exact_on {
                Hit
            } else if numf > tn || (exact && ((o[i] < q[i]) == (n[i] > 0.0))) {
                Miss
            } else {
                Unk
            };
            ans(v, Loc::Near(p, tol))
        }
        (G::Sphere(c, r), G::Sphere(e, s)) => {
            let exact = ints(c) && ints(e) && ints(&[*r, *s]);
            let rel = V::of(*e) - V::of(*c);
            let sum = (dv(*r) + dv(*s)).f();
            let k = maxabs(c) + maxabs(e) + sum;
            let v = if exact {
                if rel.dot(rel).f() <= sqr(r + s) {
                    Hit
                } else {
                    Miss
                }
            } else {
                let gap = (rel.len() - dv(*r) - dv(*s)).f();
                let band = 16.0 * EPS * k;
                if gap < -band {
                    Hit
                } else if gap > band {
                    Miss
                } else {
                    Unk
                }
            };
            let p = if sum > 0.0 { V::of(*c) + rel.scale(dv(*r) / (dv(*r) + dv(*s))) } else { V::of(*c) };
            ans(v, Loc::Near(p.f(), 16.0 * EPS * k))
        }
        (G::Sphere(c, r), G::Plane(o, n)) => {
            let exact = ints(c) && ints(o) && ints(&[*r]) && single_axis(n);
            let m = V::of(*n).unit();
            let t = (V::of(*c) - V::of(*o)).dot(m);
            let d = t.abs().f();
            let band = if exact { 0.0 } else { 32.0 * EPS * (maxabs(c) + maxabs(o) + r) };
            let v = if d < r - band || (exact && d <= *r) {
                Hit
            } else if d > r + band {
                Miss
            } else {
                Unk
            };
            let p = V::of(*c) - m.scale(t);
            ans(v, Loc::Near(p.f(), 64.0 * EPS * (maxabs(c) + maxabs(o) + r)))
        }
        (G::Segment(p, q), G::Prism(w, h)) => seg_prism(p, q, w, *h),
        _ => panic!("HARNESS: no oracle for {:?} {:?}", a, b),
    }
}
fn ray_boxes_overlap(oa: &[f64; 3], da: &[f64; 3], ob: &[f64; 3], db: &[f64; 3]) -> bool {
    let iv = |o: f64, d: f64| (if d < 0.0 { f64::NEG_INFINITY } else { o }, if d > 0.0 { f64::INFINITY } else { o });
    (0..3).all(|i| {
        let (al, ah) = iv(oa[i], da[i]);
        let (bl, bh) = iv(ob[i], db[i]);
        al <= bh && bl <= ah
    })
}
fn ray_ray(oa: &[f64; 3], da: &[f64; 3], ob: &[f64; 3], db: &[f64; 3]) -> Ans {
    if oa == ob {
        return ans(Hit, Loc::OnRays(*oa, *da, *ob, *db, 64.0 * EPS * maxabs(oa)));
    }
    let (ua, ub) = (V::of(*da).unit(), V::of(*db).unit());
    let d = V::of(*ob) - V::of(*oa);
    let v = ua.cross(ub);
    let s2 = v.dot(v);
    let sn = s2.sqrt().f();
    let co = maxabs(oa) + maxabs(ob);
    // every reasonable evaluation is exact then
    let exact = ints(oa) && ints(ob) && single_axis(da) && single_axis(db);
    if sn >= 9.9e-4 {
        let g = (d.dot(v).f() / sn).abs();
        let t = (d.cross(ub).dot(v) / s2).f();
        let s = (d.cross(ua).dot(v) / s2).f();
        let l = co + t.abs() + s.abs();
        // (rays that pass each other within the tolerance do not cross at one place)
        let band = if exact { if g == 0.0 { 0.0 } else { 1e-3 } } else { (64.0 * EPS * l / (sn * sn) + 4.0 * g / sn).min(1e-3) };
        if g * sn >= 9.9e-6 || t < -band || s < -band {
            return ans(Miss, Loc::Any);
        }
        if g <= 64.0 * EPS * l && (t > band || t == 0.0 && exact) && (s > band || s == 0.0 && exact) && ray_boxes_overlap(oa, da, ob, db) {
            let p = (V::of(*oa) + ua.scale(dv(t))).f();
            return ans(Hit, Loc::Near(p, 256.0 * EPS * l / sn));
        }
        return ans(Unk, Loc::Any);
    }
    if sn > 1e-12 {
        return ans(Unk, Loc::Any);
    }
    let t = d.dot(ua);
    let g = (d - ua.scale(t)).len().f();
    let t = t.f();
    if g >= 1e-5 {
        return ans(Miss, Loc::Any);
    }
    let l = co + t.abs();
    let same = ua.dot(ub).f() > 0.0;
    let band = if exact && g == 0.0 { 0.0 } else { (64.0 * EPS * l + 4.0 * g).min(1e-3) };
    if !same && t < -band {
        return ans(Miss, Loc::Any);
    }
    if g <= 64.0 * EPS * l && (same || t > band || t == 0.0 && exact) && ray_boxes_overlap(oa, da, ob, db) {
        // (directions that differ in the last digits drift apart with the distance)
        return ans(Hit, Loc::OnRays(*oa, *da, *ob, *db, 256.0 * EPS * l + 4.0 * (g + sn * l)));
    }
    ans(Unk, Loc::Any)
}
fn ray_sphere(o: &[f64; 3], d: &[f64; 3], c: &[f64; 3], r: f64) -> Ans {
    let exact = ints(o) && ints(c) && ints(&[r]) && single_axis(d);
    let u = V::of(*d).unit();
    let rel = V::of(*o) - V::of(*c);
    let b = rel.dot(u);
    let r2 = dv(r).sq();
    let rr = rel.dot(rel);
    let cc = rr - r2;
    let disc = b.sq() - cc;
    let k = maxabs(o) + maxabs(c) + r;
    let rl = rr.f().sqrt();
    // allowances
    let tb = 16.0 * EPS * rl;
    let tc = 32.0 * EPS * (rr.f() + r * r) + 16.0 * EPS * k * r;
    let td = 64.0 * EPS * (rr.f() + r * r) + 16.0 * EPS * k * r;
    let (bf, cf, df) = (b.f(), cc.f(), disc.f());
    let root = disc.sqrt();
    let near = (V::of(*o) + u.scale(-b - root)).f();
    let far = (V::of(*o) + u.scale(-b + root)).f();
    let ltol = 32.0 * EPS * (k + rl) + if df > td { (td / df.sqrt()).min(td.sqrt()) } else { td.sqrt() };
    if exact {
        // everything is exact in binary but the root
        let whole = rr.f().sqrt().fract() == 0.0;
        return if df == 0.0 && !whole {
            // tangent, at a distance from the origin that is rounded
            ans(Unk, Loc::Any)
        } else if cf < 0.0 {
            ans(Hit, Loc::Near(far, ltol))
        } else if cf == 0.0 {
            ans(Hit, Loc::Either(near, far, ltol))
        } else if bf > 0.0 || df < 0.0 || bf == 0.0 {
            ans(Miss, Loc::Any)
        } else {
            ans(Hit, Loc::Near(near, ltol))
        };
    }
    if cf < -tc {
        return ans(Hit, Loc::Near(far, ltol));
    }
    if cf <= tc {
        return if bf < -tb - td.sqrt() { ans(Hit, Loc::Either(near, far, ltol)) } else { ans(Unk, Loc::Any) };
    }
    // the origin is outside
    if bf > tb || df < -td {
        return ans(Miss, Loc::Any);
    }
    if bf < -tb && df > td {
        return ans(Hit, Loc::Near(near, ltol));
    }
    ans(Unk, Loc::Any)
}
/// clips the segment to the prism moved outwards by e: parameter interval
fn clip(da: &[f64; 5], db: &[f64; 5], e: f64) -> Option<(f64, f64)> {
    let (mut lo, mut hi) = (0.0f64, 1.0f64);
    for i in 0..5 {
        let (x, y) = (da[i] - e, db[i] - e);
        if x > 0.0 && y > 0.0 {
            return None;
        }
        if x > 0.0 {
            lo = lo.max(x / (x - y));
        } else if y > 0.0 {
            hi = hi.min(x / (x - y));
        }
    }
    if lo <= hi {
        Some((lo, hi))
    } else {
        None
    }
}
fn seg_prism(p: &[f64; 3], q: &[f64; 3], w: &[f64; 9], h: f64) -> Ans {
    let x = prism(w, h).unwrap();
    let exact = ints(p) && ints(q) && lattice_prism(w, h);
    let (da, db) = (x.dist(V::of(*p)), x.dist(V::of(*q)));
    let band = 4.0 * x.band(p).max(x.band(q));
    let l = norm(&sub(q, p));
    let mut slide: f64 = 0.0;
    for i in 0..5 {
        if da[i] > 0.0 && da[i] - db[i] > 0.0 {
            slide = slide.max((4.0 * band / (da[i] - db[i])).min(1.0) * l);
        }
    }
    let loc = Loc::SegPrism(64.0 * EPS * (x.cmax + l + maxabs(p) + x.size), 8.0 * band + slide);
    if exact {
        // distances are zero or at least about 1e-6: snap
        let z = |d: [f64; 5]| d.map(|v| if v.abs() < 1e-9 { 0.0 } else { v });
        let (da, db) = (z(da), z(db));
        // an end on a slanted side is left open, as the normal of that side may have been rounded
        let on = |d: &[f64; 5]| (0..5).all(|i| d[i] < 0.0 || (d[i] == 0.0 && x.straight[i]));
        if on(&da) || on(&db) {
            return ans(Hit, loc);
        }
        let slanted = (0..5).any(|i| !x.straight[i] && (da[i] == 0.0 || db[i] == 0.0));
        if slanted && clip(&da, &db, 1e-9).is_some() && clip(&da, &db, -1e-9).is_none() {
            return ans(Unk, Loc::Any);
        }
        return match clip(&da, &db, 0.0) {
            Some((a, b)) if b - a > 1e-9 => ans(Hit, loc),
            None => match clip(&da, &db, 1e-9) {
                None => ans(Miss, Loc::Any),
                _ => ans(Unk, Loc::Any),
            },
            _ => ans(Unk, Loc::Any),
        };
    }
    if clip(&da, &db, -band).is_some() {
        return ans(Hit, loc);
    }
    if clip(&da, &db, band).is_none() {
        return ans(Miss, Loc::Any);
    }
    ans(Unk, Loc::Any)
}

// ---- comparing an answer with the oracle -------------------------------------------------------
pub fn dist_to_ray(p: &[f64; 3], o: &[f64; 3], d: &[f64; 3]) -> f64 {
    let u = V::of(*d).unit();
    let rel = V::of(*p) - V::of(*o);
    let t = rel.dot(u);
    if t.f() < 0.0 {
        return rel.len().f();
    }
    (rel - u.scale(t)).len().f()
}
fn dist_to_segment(p: &[f64; 3], a: &[f64; 3], b: &[f64; 3]) -> f64 {
    let v = V::of(*b) - V::of(*a);
    let rel = V::of(*p) - V::of(*a);
    let vv = v.dot(v);
    if vv.f() == 0.0 {
        return rel.len().f();
    }
    let t = (rel.dot(v) / vv).f().max(0.0).min(1.0);
    (rel - v.scale(dv(t))).len().f()
}
pub fn show_ans(r: &(bool, Option<Mat3x1<f64>>)) -> String {
    match &r.1 {
        Some(p) => format!("({}, {:?})", r.0, p._val),
        None => format!("({}, nothing)", r.0),
    }
}
/// judges one answer of `asker` about `other` (in canonical order a, b for the oracle)
pub fn check(a: &G, b: &G, want: &Ans, got: &(bool, Option<Mat3x1<f64>>), who: &str) -> Res {
    match want.v {
        Hit => req!(got.0, "{}: they intersect, but the answer is {}", who, show_ans(got)),
        Miss => req!(!got.0, "{}: they do not intersect, but the answer is {}", who, show_ans(got)),
        Unk => {}
    }
    if !got.0 {
        return Ok(());
    }
    let p = match &got.1 {
        Some(p) => a3(p),
        None => return Err(format!("{}: intersection reported without a location", who)),
    };
    req!(p.iter().all(|x| x.is_finite()), "{}: location {:?} is not finite", who, p);
    if want.v == Unk {
        return Ok(());
    }
    match &want.loc {
        Loc::Any => {}
        Loc::Near(w, tol) => {
            for i in 0..3 {
                req!((p[i] - w[i]).abs() <= *tol, "{}: location {:?}, expected {:?} (tolerance {:.1e})", who, p, w, tol);
            }
        }
        Loc::Either(w1, w2, tol) => {
            let ok = [w1, w2].iter().any(|w| (0..3).all(|i| (p[i] - w[i]).abs() <= *tol));
            req!(ok, "{}: location {:?}, expected {:?} or {:?} (tolerance {:.1e})", who, p, w1, w2, tol);
        }
        Loc::OnRays(oa, da, ob, db, tol) => {
            let (x, y) = (dist_to_ray(&p, oa, da), dist_to_ray(&p, ob, db));
            req!(x <= *tol && y <= *tol, "{}: location {:?} is {:e} and {:e} away from the rays (tolerance {:.1e})", who, p, x, y, tol);
        }
        Loc::SegPrism(ts, tp) => {
            if let (G::Segment(s, e), G::Prism(w, h)) = (a, b) {
                let x = dist_to_segment(&p, s, e);
                req!(x <= *ts, "{}: location {:?} is {:e} away from the segment (tolerance {:.1e})", who, p, x, ts);
                let y = prism(w, *h).unwrap().dist(V::of(p)).iter().cloned().fold(f64::MIN, f64::max);
                req!(y <= *tp, "{}: location {:?} is {:e} outside the prism (tolerance {:.1e})", who, p, y, tp);
            }
        }
    }
    Ok(())
}

// ---- generators --------------------------------------------------------------------------------
pub struct Pair {
    pub a: G,
    pub b: G,
    /// tolerances to set, None = leave the initial one
    pub ta: Option<f64>,
    pub tb: Option<f64>,
    pub class: &'static str,
}
pub fn dir_of(src: &mut Src, u: &[f64; 3], d: Dom) -> [f64; 3] {
    // the same direction with some length
    match src.below(3) {
        0 => *u,
        _ => {
            let k = logu(src, d.lo * 1e3, d.hi / 1e3);
            fix3(mulv(u, k), d)
        }
    }
}
fn udir(src: &mut Src) -> [f64; 3] {
    unitv(&nzv3(src, MID))
}
fn tol_choice(src: &mut Src) -> Option<f64> {
    match src.below(8) {
        0 | 1 | 2 | 3 => None,
        4 => Some(src.below(9) as f64),
        5 => Some(logu(src, 1e-9, 10.0)),
        6 => Some(dict(src, false).abs().min(100.0)),
        _ => Some(0.0),
    }
}
pub fn gen_pair(src: &mut Src, k: usize) -> Pair {
    match k {
        PT_PT => gen_pt_pt(src),
        PT_PLANE => gen_pt_plane(src),
        PT_RAY => gen_pt_ray(src),
        PT_SPHERE => gen_pt_sphere(src),
        PT_CUBE => gen_pt_cube(src),
        PT_PRISM => gen_pt_prism(src),
        RAY_RAY => gen_ray_ray(src),
        RAY_SPHERE => gen_ray_sphere(src),
        RAY_PLANE => gen_ray_plane(src),
        SPH_SPH => gen_sph_sph(src),
        SPH_PLANE => gen_sph_plane(src),
        _ => gen_seg_prism(src),
    }
}
impl Pair {
    /// the same scene `s` times as large, with directions and normals `d` times as long (powers of two)
    pub fn scaled(&self, s: f64, d: f64) -> Pair {
        let t = |t: Option<f64>| if s == 1.0 { t } else { Some(t.unwrap_or(1e-6) * s) };
        Pair { a: self.a.scaled(s, d), b: self.b.scaled(s, d), ta: t(self.ta), tb: t(self.tb), class: self.class }
    }
}
/// factors far outside the range the generators work in; every evaluation scales exactly
pub fn far_scale(src: &mut Src, k: usize) -> (f64, f64) {
    if src.below(12) != 11 {
        return (1.0, 1.0);
    }
    let e = |src: &mut Src, n: u64| 2f64.powi(src.below(2 * n + 1) as i32 - n as i32);
    // two rays are compared by quantities of different dimensions with one tolerance
    let s = if k == RAY_RAY || src.below(4) == 3 { 1.0 } else { e(src, 60) };
    (s, if src.bool() { e(src, 100) } else { 1.0 })
}
fn gen_pt_pt(src: &mut Src) -> Pair {
    let ta = tol_choice(src);
    let t = ta.unwrap_or(1e-6);
    let p = v3(src, GEO);
    let mut q = p;
    let class;
    match src.below(6) {
        0 => class = "same point",
        1 => {
            q = v3(src, GEO);
            class = "independent";
        }
        2 => {
            for x in &mut q {
                *x += sign(src) * t * unit(src);
            }
            class = "all axes within";
        }
        _ => {
            let i = src.below(3) as usize;
            if src.bool() {
                for x in &mut q {
                    *x += sign(src) * t * unit(src);
                }
            }
            let g = match src.below(4) {
                0 => t * (1.0 + gap(src)),
                1 => t,
                2 => t + 1.0,
                _ => t + logu(src, 1e-9, 1e3),
            };
            q[i] = p[i] + sign(src) * g;
            class = "one axis decides";
        }
    }
    Pair { a: G::Point(p), b: G::Point(q), ta, tb: if src.bool() { tol_choice(src) } else { None }, class }
}
/// plus or minus a power of two
fn pow2(src: &mut Src) -> f64 {
    sign(src) * 2f64.powi(match src.below(2) {
        0 => src.below(3) as i32,
        _ => src.below(25) as i32 - 12,
    })
}
fn lattice3(src: &mut Src, n: u64) -> [f64; 3] {
    [zigzag(src, n), zigzag(src, n), zigzag(src, n)]
}
fn gen_pt_plane(src: &mut Src) -> Pair {
    let tb = tol_choice(src);
    let t = tb.unwrap_or(1e-6);
    if src.below(6) == 0 {
        let (o, p) = (lattice3(src, 21), lattice3(src, 21));
        let i = src.below(3) as usize;
        let mut n = [0.0; 3];
        n[i] = pow2(src);
        let mut p = p;
        match src.below(3) {
            0 => p[i] = o[i],
            1 => p[i] = o[i] + sign(src) * t.round(),
            _ => {}
        }
        return Pair { a: G::Point(p), b: G::Plane(o, n), ta: None, tb, class: "lattice" };
    }
    let o = v3(src, GEO);
    let n = nzv3(src, GEO);
    let u = unitv(&n);
    let w = perp(src, &u);
    let lat = match src.below(3) {
        0 => 0.0,
        _ => logu(src, 1e-3, 1e5),
    };
    let (s, class) = match src.below(6) {
        0 => (0.0, "on the plane"),
        1 => (t * (1.0 + gap(src)), "around the tolerance"),
        2 => (t + logu(src, 1e-12, 1e3), "off the plane"),
        3 => (t * unit(src), "within the tolerance"),
        4 => (dict(src, false).abs().min(1e6), "dictionary distance"),
        _ => (logu(src, 1e-9, 1e6), "any distance"),
    };
    let p = add(&add(&o, &mulv(&w, lat)), &mulv(&u, s * sign(src)));
    Pair { a: G::Point(fix3(p, GEO)), b: G::Plane(o, n), ta: tol_choice(src), tb, class }
}
fn gen_pt_ray(src: &mut Src) -> Pair {
    let tb = if src.below(4) == 3 { tol_choice(src) } else { None };
    let tau = tb.unwrap_or(1e-6);
    let o = if src.below(3) == 0 { [0.0; 3] } else { v3(src, GEO) };
    let d = nzv3(src, GEO);
    let u = unitv(&d);
    let t = match src.below(6) {
        0 => 0.0,
        1 => 1.0 + src.below(10) as f64,
        2 => dict(src, false).abs().min(1e6),
        _ => logu(src, 1e-5, 1e5),
    };
    let (p, class) = match src.below(8) {
        0 => (o, "the origin"),
        1 | 2 | 3 => (add(&o, &mulv(&u, t)), "ahead on the ray"),
        4 => (sub(&o, &mulv(&u, t)), "behind on the line"),
        5 => {
            // off on one axis only
            let mut p = add(&o, &mulv(&u, t));
            let i = src.below(3) as usize;
            p[i] += sign(src) * (4.0 * tau + logu(src, 1e-6, 1e3));
            (p, "off on one axis")
        }
        6 => {
            let w = perp(src, &u);
            let s = match src.below(3) {
                0 => 3.1 * tau,
                1 => 3.0 * tau * (1.0 + logu(src, 1e-3, 10.0)),
                _ => logu(src, 1e-6, 1e4),
            };
            (add(&add(&o, &mulv(&u, t)), &mulv(&w, s)), "sideways")
        }
        _ => (v3(src, GEO), "independent"),
    };
    Pair { a: G::Point(fix3(p, Dom::new(1e-12, 1e6))), b: G::Ray(o, d), ta: None, tb, class }
}
fn gen_pt_sphere(src: &mut Src) -> Pair {
    if src.below(5) == 0 {
        let c = lattice3(src, 41);
        let (v, l) = pyth(src);
        let r = match src.below(4) {
            0 => l,
            1 => l - 1.0,
            2 => l + 1.0,
            _ => 1.0 + src.below(20) as f64,
        };
        return Pair { a: G::Point(add(&c, &v)), b: G::Sphere(c, r.max(1.0)), ta: None, tb: None, class: "lattice" };
    }
    let c = v3(src, GEO);
    let r = size(src, GEO);
    let u = udir(src);
    let (s, class) = match src.below(6) {
        0 => (r * (1.0 + gap(src)), "around the surface"),
        1 => (r * (1.0 + gap(src)), "around the surface"),
        2 => (r * unit(src), "inside"),
        3 => (r * (1.0 + 2.0 * unit(src)), "outside near"),
        4 => (0.0, "centre"),
        _ => {
            return Pair { a: G::Point(v3(src, GEO)), b: G::Sphere(c, r), ta: None, tb: None, class: "independent" };
        }
    };
    Pair { a: G::Point(fix3(add(&c, &mulv(&u, s)), GEO)), b: G::Sphere(c, r), ta: tol_choice(src), tb: tol_choice(src), class }
}
fn gen_pt_cube(src: &mut Src) -> Pair {
    let (c, s, lat);
    if src.below(4) == 0 {
        c = lattice3(src, 41);
        s = 1.0 + src.below(10) as f64;
        lat = true;
    } else {
        c = v3(src, GEO);
        s = size(src, GEO);
        lat = false;
    }
    let mut p = c;
    let mut class = "inside or outside on some axes";
    if src.below(8) == 7 {
        p = v3(src, GEO);
        class = "independent";
    } else {
        let dec = src.below(4) as usize; // the axis that may decide; 3: none
        for i in 0..3 {
            let f = if i == dec {
                if lat {
                    [1.0, 1.0 + 1.0 / s, 1.0 - 1.0 / s][src.below(3) as usize]
                } else {
                    1.0 + gap(src)
                }
            } else if lat {
                (src.below(s as u64 + 1) as f64) / s
            } else {
                unit(src)
            };
            let o = s * f;
            p[i] = c[i] + sign(src) * if lat { o.round() } else { o };
        }
        if lat {
            class = "lattice";
        }
    }
    Pair { a: G::Point(if lat { p } else { fix3(p, GEO) }), b: G::Cube(c, s), ta: tol_choice(src), tb: tol_choice(src), class }
}
fn bary(src: &mut Src) -> [f64; 3] {
    match src.below(4) {
        0 => [[1.0, 1.0, 1.0], [1.0, 1.0, 0.0], [0.0, 1.0, 1.0], [1.0, 0.0, 1.0], [2.0, 1.0, 1.0]][src.below(5) as usize],
        _ => [0.001 + unit(src), 0.001 + unit(src), 0.001 + unit(src)],
    }
}
/// a point on face i (0 base, 1 top, 2..4 sides)
fn on_face(src: &mut Src, x: &PrismX, i: usize) -> [f64; 3] {
    let mut b = bary(src);
    let t = unit(src);
    match i {
        0 => x.interior(b, 0.0),
        1 => x.interior(b, 1.0),
        _ => {
            b[i % 3] = 0.0; // side 01 opposite vertex 2, 12 opposite 0, 20 opposite 1
            if b[0] + b[1] + b[2] == 0.0 {
                b[(i + 1) % 3] = 1.0;
            }
            x.interior(b, t)
        }
    }
}
fn gen_pt_prism(src: &mut Src) -> Pair {
    let (w, h) = gen_prism(src, GEO);
    let x = prism(&w, h).unwrap();
    let lat = ints(&w) && ints(&[h]);
    let (p, class) = match src.below(8) {
        0 | 1 | 2 => {
            let i = src.below(5) as usize;
            let f = on_face(src, &x, i);
            let n = x.n[i].f();
            let s = x.size * gap(src);
            (add(&f, &mulv(&n, s)), "around a face")
        }
        3 => (x.interior(bary(src), unit(src)), "inside"),
        4 if lat => {
            let k = src.below(3) as usize;
            let b = x.v[k].f();
            let (e, hh) = (x.hn.f(), src.below(h as u64 + 1) as f64 / h);
            let j = [b, x.v[(k + 1) % 3].f()][src.below(2) as usize];
            let m: [f64; 3] = std::array::from_fn(|i| (b[i] + (j[i] - b[i]) * 0.5 + e[i] * hh).round());
            (m, "lattice")
        }
        4 | 5 => {
            // straight out from a vertex or an edge
            let b = [[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0], [1.0, 1.0, 0.0], [0.0, 1.0, 1.0], [1.0, 0.0, 1.0]][src.below(6) as usize];
            let t = src.below(3) as f64 / 2.0;
            let v = x.interior(b, t);
            let m = x.interior([1.0, 1.0, 1.0], 0.5);
            (add(&v, &mulv(&sub(&v, &m), gap(src))), "around a vertex or edge")
        }
        6 if lat => {
            let c = x.interior([1.0, 1.0, 1.0], 0.5);
            let p: [f64; 3] = std::array::from_fn(|i| c[i].round() + zigzag(src, 21));
            (p, "lattice")
        }
        _ => {
            let c = x.interior([1.0, 1.0, 1.0], 0.5);
            let p: [f64; 3] = std::array::from_fn(|i| c[i] + x.size * (2.0 * unit(src) - 1.0));
            (p, "in the neighbourhood")
        }
    };
    Pair { a: G::Point(if lat { p } else { fix3(p, Dom::new(1e-9, 4e6)) }), b: G::Prism(w, h), ta: tol_choice(src), tb: tol_choice(src), class }
}
fn coord3(src: &mut Src) -> [f64; 3] {
    match src.below(4) {
        0 => [0.0; 3],
        1 => lattice3(src, 21),
        _ => v3(src, MID),
    }
}
/// a direction for ray pairs: often with zero components
fn rdir(src: &mut Src) -> [f64; 3] {
    nzv3(src, MID)
}
fn gen_ray_ray(src: &mut Src) -> Pair {
    let axis = |src: &mut Src| {
        let mut d = [0.0; 3];
        d[src.below(3) as usize] = sign(src) * pow2(src);
        d
    };
    if src.below(8) == 0 {
        // whole numbers along the axes: crossings that begin at an origin
        let (oa, da, db) = (lattice3(src, 41), axis(src), axis(src));
        let (t, u) = (src.below(5) as f64 - 1.0, src.below(5) as f64 - 1.0);
        let mut ob = sub(&add(&oa, &mulv(&unitv(&da), t)), &mulv(&unitv(&db), u));
        if src.below(8) == 0 {
            ob = add(&ob, &mulv(&unitv(&axis(src)), 1.0));
        }
        return Pair { a: G::Ray(oa, da), b: G::Ray(ob, db), ta: None, tb: None, class: "lattice" };
    }
    let da = rdir(src);
    let ua = unitv(&da);
    let len = |src: &mut Src| match src.below(5) {
        0 => 1.0 + src.below(9) as f64,
        1 => 2e-3 + unit(src),
        2 => logu(src, 1e-8, 2e-3),
        _ => logu(src, 2e-3, 500.0),
    };
    let mode = src.below(10);
    let mk = |oa, da, ob, db, class| Pair { a: G::Ray(oa, da), b: G::Ray(ob, db), ta: None, tb: None, class };
    match mode {
        0..=4 => {
            // through a common point, at signed parameters
            let db = if src.bool() {
                rdir(src)
            } else {
                // at a chosen angle
                let w = perp(src, &ua);
                let th = match src.below(4) {
                    0 => logu(src, 0.0011, 1.0),
                    1 => std::f64::consts::PI - logu(src, 0.0011, 1.0),
                    2 => std::f64::consts::FRAC_PI_2,
                    _ => std::f64::consts::PI * unit(src),
                };
                let (s, c) = th.sin_cos();
                fix3(mulv(&add(&mulv(&ua, c), &mulv(&w, s)), logu(src, 0.1, 10.0)), MID)
            };
            let db = if is_zero(&db) { [0.0, 0.0, 1.0] } else { db };
            let ub = unitv(&db);
            let x = coord3(src);
            let (mut t, mut s) = (len(src), len(src));
            let class = match src.below(4) {
                0 | 1 => "crossing ahead of both",
                2 => {
                    if src.bool() {
                        t = -t
                    } else {
                        s = -s
                    };
                    "crossing behind one"
                }
                _ => {
                    t = -t;
                    s = -s;
                    "crossing behind both"
                }
            };
            if mode == 4 {
                // skew: move one along the common normal
                let n = cross(&ua, &ub);
                if norm(&n) > 9.9e-4 {
                    let g = sign(src) * match src.below(3) {
                        0 => 1.0 + src.below(5) as f64,
                        _ => logu(src, 1.1e-3, 100.0),
                    };
                    let n = mulv(&unitv(&n), g);
                    return mk(sub(&x, &mulv(&ua, t)), da, add(&sub(&x, &mulv(&ub, s)), &n), db, "skew");
                }
            }
            mk(sub(&x, &mulv(&ua, t)), da, sub(&x, &mulv(&ub, s)), db, class)
        }
        5 => {
            let oa = coord3(src);
            let db = match src.below(3) {
                0 => mulv(&da, sign(src)),
                _ => rdir(src),
            };
            mk(oa, da, oa, db, "same origin")
        }
        6 => {
            // collinear
            let oa = coord3(src);
            let t = len(src) * sign(src);
            let db = mulv(&da, sign(src) * if src.bool() { 1.0 } else { 2f64.powi(src.below(5) as i32 - 2) });
            let ob = if src.bool() { add(&oa, &mulv(&ua, t)) } else { add(&oa, &mulv(&da, t.round().max(1.0) * sign(src))) };
            mk(oa, da, ob, db, "on one line")
        }
        7 => {
            let oa = coord3(src);
            let t = len(src) * sign(src);
            let w = perp(src, &ua);
            let g = match src.below(3) {
                0 => 1.0 + src.below(5) as f64,
                1 => logu(src, 1.1e-5, 1.1e-3),
                _ => logu(src, 1.1e-5, 100.0),
            };
            let db = mulv(&da, sign(src) * 2f64.powi(src.below(5) as i32 - 2));
            mk(oa, da, add(&add(&oa, &mulv(&ua, t)), &mulv(&w, g)), db, "parallel apart")
        }
        _ => mk(coord3(src), da, coord3(src), rdir(src), "independent"),
    }
}
fn gen_ray_sphere(src: &mut Src) -> Pair {
    if src.below(5) == 0 {
        let (o, mut c) = (lattice3(src, 41), lattice3(src, 41));
        let i = src.below(3) as usize;
        let mut d = [0.0; 3];
        d[i] = pow2(src);
        let r = 1.0 + src.below(12) as f64;
        if src.below(4) == 0 {
            // tangent, with a whole distance between the origin and the centre
            let (x, y, l) = [(3.0, 4.0, 5.0), (4.0, 3.0, 5.0), (5.0, 12.0, 13.0), (12.0, 5.0, 13.0), (8.0, 6.0, 10.0), (8.0, 15.0, 17.0), (0.0, 1.0, 1.0), (0.0, 7.0, 7.0)][src.below(8) as usize];
            let _: f64 = l;
            let j = (i + 1 + src.below(2) as usize) % 3;
            c = o;
            c[i] += sign(src) * x;
            c[j] += sign(src) * y;
            return Pair { a: G::Ray(o, d), b: G::Sphere(c, y), ta: None, tb: None, class: "lattice" };
        }
        if src.bool() {
            // tangent or through an axis
            let j = (i + 1 + src.below(2) as usize) % 3;
            c = o;
            c[i] = zigzag(src, 41);
            c[j] = o[j] + sign(src) * if src.bool() { r } else { src.below(r as u64 + 2) as f64 };
        }
        return Pair { a: G::Ray(o, d), b: G::Sphere(c, r), ta: None, tb: None, class: "lattice" };
    }
    let c = v3(src, GEO);
    let r = size(src, GEO);
    if src.below(8) == 7 {
        return Pair { a: G::Ray(v3(src, GEO), nzv3(src, GEO)), b: G::Sphere(c, r), ta: None, tb: None, class: "independent" };
    }
    let d = nzv3(src, GEO);
    let u = unitv(&d);
    let w = perp(src, &u);
    let (m, class) = match src.below(6) {
        0 => (r * (1.0 + gap(src)), "near tangent"),
        1 => (0.0, "through the centre"),
        2 => (r * (1.0 + 3.0 * unit(src)), "passing by"),
        _ => (r * unit(src), "through"),
    };
    // position along the ray relative to the closest point
    let half = (r * r - m * m).max(0.0).sqrt();
    let (a, class) = match src.below(8) {
        0 => (-(half + r * logu(src, 1e-12, 10.0)), "pointing away"),
        1 => (half * unit(src) * sign(src), if m < r { "origin inside" } else { class }),
        2 => (half * (1.0 + gap(src)), class),
        3 => (-half * (1.0 + gap(src)), class),
        4 => (half + r * logu(src, 1e-12, 1e3), class),
        _ => (half + r * (0.1 + 10.0 * unit(src)), class),
    };
    let o = sub(&add(&c, &mulv(&w, m)), &mulv(&u, a));
    Pair { a: G::Ray(fix3(o, GEO), d), b: G::Sphere(c, r), ta: tol_choice(src), tb: tol_choice(src), class }
}
fn gen_ray_plane(src: &mut Src) -> Pair {
    if src.below(5) == 0 {
        let (o, q) = (lattice3(src, 21), lattice3(src, 21));
        let i = src.below(3) as usize;
        let mut n = [0.0; 3];
        n[i] = pow2(src);
        let mut d = nzv3(src, MID);
        let mut o = o;
        if src.bool() {
            d[i] = 0.0;
            if is_zero(&d) {
                d[(i + 1) % 3] = 1.0;
            }
        }
        if src.bool() {
            o[i] = q[i];
        }
        return Pair { a: G::Ray(o, d), b: G::Plane(q, n), ta: None, tb: None, class: "lattice or axis-aligned" };
    }
    let q = v3(src, GEO);
    let n = nzv3(src, GEO);
    let u = unitv(&n);
    let w = perp(src, &u);
    let lat = logu(src, 1e-3, 1e5);
    let s = match src.below(5) {
        0 => logu(src, 1e-12, 1e-3),
        1 => dict(src, false).abs().min(1e6),
        _ => logu(src, 1e-3, 1e5),
    } * if src.below(3) == 0 { -1.0 } else { 1.0 };
    let o = fix3(add(&add(&q, &mulv(&w, lat)), &mulv(&u, s)), GEO);
    let d = match src.below(4) {
        0 => nzv3(src, GEO),
        1 => {
            let k = logu(src, 2e-6, 1.0);
            let l = perp(src, &u);
            let v = add(&mulv(&u, -k * if src.below(4) == 0 { -1.0 } else { 1.0 }), &mulv(&l, (1.0 - k * k).max(0.0).sqrt()));
            dir_of(src, &v, Dom::new(1e-9, 1e6))
        }
        2 => {
            let sg = if src.below(4) == 0 { 1.0 } else { -1.0 };
            dir_of(src, &mulv(&u, sg), Dom::new(1e-9, 1e6))
        }
        _ => {
            let v = nzv3(src, MID);
            if dot(&v, &u) > 0.0 {
                mulv(&v, -1.0)
            } else {
                v
            }
        }
    };
    let d = if is_zero(&d) { [0.0, 1.0, 0.0] } else { d };
    let class = if s < 0.0 {
        "origin behind the plane"
    } else if dot(&d, &u) > 0.0 {
        "pointing away"
    } else {
        "facing the plane"
    };
    Pair { a: G::Ray(o, d), b: G::Plane(q, n), ta: tol_choice(src), tb: tol_choice(src), class }
}
fn gen_sph_sph(src: &mut Src) -> Pair {
    if src.below(4) == 0 {
        let c = lattice3(src, 41);
        let (v, l) = pyth(src);
        let sum = (l + zigzag(src, 5)).max(2.0);
        let r = 1.0 + src.below(sum as u64 - 1) as f64;
        let r = r.min(sum - 1.0).max(1.0);
        return Pair { a: G::Sphere(c, r), b: G::Sphere(add(&c, &v), (sum - r).max(1.0)), ta: None, tb: None, class: "lattice" };
    }
    let c = v3(src, GEO);
    let r = size(src, GEO);
    let s = match src.below(3) {
        0 => r,
        1 => size(src, GEO),
        _ if r == 0.0 => 0.0,
        _ => (r * logu(src, 1e-3, 1e3)).max(1e-6).min(1e6),
    };
    let u = udir(src);
    let (d, class) = match src.below(6) {
        0 | 1 => ((r + s) * (1.0 + gap(src)), "around touching"),
        2 => ((r + s) * unit(src), "overlapping"),
        3 => ((r + s) * (1.0 + 3.0 * unit(src)), "apart"),
        4 => ((r - s).abs() * unit(src), "one inside the other"),
        _ => {
            return Pair { a: G::Sphere(c, r), b: G::Sphere(v3(src, GEO), s), ta: None, tb: None, class: "independent" };
        }
    };
    Pair { a: G::Sphere(c, r), b: G::Sphere(fix3(add(&c, &mulv(&u, d)), GEO), s), ta: tol_choice(src), tb: tol_choice(src), class }
}
fn gen_sph_plane(src: &mut Src) -> Pair {
    if src.below(5) == 0 {
        let (o, mut c) = (lattice3(src, 41), lattice3(src, 41));
        let i = src.below(3) as usize;
        let mut n = [0.0; 3];
        n[i] = pow2(src);
        let r = 1.0 + src.below(12) as f64;
        if src.bool() {
            c[i] = o[i] + sign(src) * (r + zigzag(src, 3));
        }
        return Pair { a: G::Sphere(c, r), b: G::Plane(o, n), ta: None, tb: None, class: "lattice" };
    }
    let o = v3(src, GEO);
    let n = nzv3(src, GEO);
    let r = size(src, GEO);
    let u = unitv(&n);
    let w = perp(src, &u);
    let lat = match src.below(3) {
        0 => 0.0,
        _ => logu(src, 1e-3, 1e5),
    };
    let s = match src.below(4) {
        0 | 1 => r * (1.0 + gap(src)),
        2 => r * unit(src),
        _ => r * (1.0 + 3.0 * unit(src)),
    } * sign(src);
    let c = fix3(add(&add(&o, &mulv(&w, lat)), &mulv(&u, s)), GEO);
    Pair { a: G::Sphere(c, r), b: G::Plane(o, n), ta: tol_choice(src), tb: tol_choice(src), class: if s < 0.0 { "centre behind the plane" } else { "centre in front" } }
}
fn gen_seg_prism(src: &mut Src) -> Pair {
    let (w, h) = gen_prism(src, MID);
    let x = prism(&w, h).unwrap();
    let lat = ints(&w) && ints(&[h]);
    let mk = |p: [f64; 3], q: [f64; 3], class| Pair { a: G::Segment(p, q), b: G::Prism(w, h), ta: None, tb: None, class };
    let sz = x.size;
    let inside = |src: &mut Src| x.interior([0.01 + unit(src), 0.01 + unit(src), 0.01 + unit(src)], 0.01 + 0.98 * unit(src));
    let outside = |src: &mut Src| {
        let i = src.below(5) as usize;
        let f = on_face(src, &x, i);
        let n = x.n[i].f();
        let s = sz * match src.below(3) {
            0 => logu(src, 1e-9, 1.0),
            _ => 0.01 + 2.0 * unit(src),
        };
        let w = perp(src, &n);
        let l = sz * unit(src) * if src.bool() { 1.0 } else { 0.0 };
        add(&add(&f, &mulv(&n, s)), &mulv(&w, l))
    };
    match src.below(12) {
        0 | 1 => {
            // straight through: a point in the solid and two opposite ends beyond it
            let m = inside(src);
            let u = match src.below(4) {
                0 => x.n[src.below(5) as usize].f(),
                1 => unitv(&sub(&x.v[1].f(), &x.v[0].f())),
                _ => udir(src),
            };
            let (s, t) = (sz * (1.0 + 3.0 * unit(src)), sz * (1.0 + 3.0 * unit(src)));
            mk(sub(&m, &mulv(&u, s)), add(&m, &mulv(&u, t)), "through the solid")
        }
        2 | 3 => {
            // from beyond one face to beyond another
            mk(outside(src), outside(src), "both ends beyond faces")
        }
        4 => {
            let (p, q) = (inside(src), outside(src));
            if src.bool() {
                mk(p, q, "first end inside")
            } else {
                mk(q, p, "second end inside")
            }
        }
        5 => mk(inside(src), inside(src), "both ends inside"),
        6 => {
            // ends short of a face
            let i = src.below(5) as usize;
            let f = on_face(src, &x, i);
            let n = x.n[i].f();
            let e = add(&f, &mulv(&n, sz * gap(src).abs()));
            let q = add(&e, &mulv(&add(&n, &mulv(&perp(src, &n), unit(src))), sz * (0.1 + unit(src))));
            if src.bool() {
                mk(e, q, "ending short of a face")
            } else {
                mk(q, e, "ending short of a face")
            }
        }
        7 => {
            // across the neighbourhood of an edge
            let k = src.below(3) as usize;
            let (b, t) = match src.below(3) {
                0 => {
                    let mut b = [0.0; 3];
                    b[k] = 1.0;
                    (b, unit(src))
                }
                1 => {
                    let mut b = bary(src);
                    b[k] = 0.0;
                    (b, 0.0)
                }
                _ => {
                    let mut b = bary(src);
                    b[k] = 0.0;
                    (b, 1.0)
                }
            };
            let b = if b[0] + b[1] + b[2] == 0.0 { [1.0, 1.0, 1.0] } else { b };
            let e = x.interior(b, t);
            let m = x.interior([1.0, 1.0, 1.0], 0.5);
            let out = unitv(&sub(&e, &m));
            let c = add(&e, &mulv(&out, sz * gap(src)));
            let u = perp(src, &out);
            let (s, t) = (sz * (0.5 + 2.0 * unit(src)), sz * (0.5 + 2.0 * unit(src)));
            mk(sub(&c, &mulv(&u, s)), add(&c, &mulv(&u, t)), "across an edge")
        }
        8 => {
            let p = if src.bool() { inside(src) } else { outside(src) };
            mk(p, p, "zero length")
        }
        9 | 10 if lat => {
            let c = x.interior([1.0, 1.0, 1.0], 0.5);
            let mut p: [f64; 3] = std::array::from_fn(|i| c[i].round() + zigzag(src, 21));
            let mut q: [f64; 3] = std::array::from_fn(|i| c[i].round() + zigzag(src, 21));
            let i = src.below(4) as usize;
            if i < 3 {
                // along an axis
                let y = q[i];
                q = p;
                q[i] = y;
            } else if src.bool() {
                p = x.v[src.below(3) as usize].f();
            }
            mk(p, q, "lattice")
        }
        _ => {
            let c = x.interior([1.0, 1.0, 1.0], 0.5);
            let mut p: [f64; 3] = std::array::from_fn(|i| c[i] + 2.0 * sz * (2.0 * unit(src) - 1.0));
            let mut q: [f64; 3] = std::array::from_fn(|i| c[i] + 2.0 * sz * (2.0 * unit(src) - 1.0));
            if src.below(4) == 0 {
                let i = src.below(3) as usize;
                let y = q[i];
                q = p;
                q[i] = y;
            }
            if src.below(4) == 0 {
                p = fix3(p, MID);
            }
            mk(p, q, "in the neighbourhood")
        }
    }
}
/// builds a shape with its tolerance
pub fn build(g: &G, t: Option<f64>) -> Box<dyn IShape> {
    let mut s = g.build();
    if let Some(t) = t {
        s.set_vicinity(t);
    }
    s
}
pub fn show_pair(c: &mut Case, p: &Pair) {
    c.show("a", || p.a.show());
    c.show("b", || p.b.show());
    if p.ta.is_some() || p.tb.is_some() {
        c.show("tolerances set", || format!("a: {:?}, b: {:?}", p.ta, p.tb));
    }
}
