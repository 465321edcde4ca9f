//! X03, X04: relations between answers of the library itself; exact geometry only tells which of
//! them are too close to call.
use super::Prop;
use crate::dd::V;
use crate::engine::{Case, Res, Src};
use crate::gens::*;
use crate::geom::*;
use crate::pairs::*;
use crate::req;

pub fn list(v: &mut Vec<Prop>) {
    v.push(Prop { id: "X03", f: x03, quick: 32_000_000,
        rule: "one case = one pair of shapes of one of the 12 supported kinds and its image under a permutation of the axes, mirrorings, a scaling by a power of two and a translation, the answers compared; non-trivial = both decided by exact geometry and the motion is not the identity" });
    v.push(Prop { id: "X04", f: x04, quick: 32_000_000,
        rule: "one case = one relation between two queries: a reported location asked as a point, a grown shape or tolerance, a shared point against the pair, two queries that ask the same; non-trivial = both answers decided by exact geometry and the first is a yes, or the relation is an equivalence" });
}
struct Iso {
    perm: [usize; 3],
    sg: [f64; 3],
    k: f64,
    tr: [f64; 3],
}
impl Iso {
    fn vec(&self, v: &[f64; 3]) -> [f64; 3] {
        std::array::from_fn(|i| self.sg[i] * v[self.perm[i]])
    }
    fn pt(&self, p: &[f64; 3]) -> [f64; 3] {
        std::array::from_fn(|i| self.k * self.sg[i] * p[self.perm[i]] + self.tr[i])
    }
    fn odd(&self) -> bool {
        let even = matches!(self.perm, [0, 1, 2] | [1, 2, 0] | [2, 0, 1]);
        (self.sg[0] * self.sg[1] * self.sg[2] < 0.0) == even
    }
    fn g(&self, g: &G) -> G {
        match g {
            G::Point(p) => G::Point(self.pt(p)),
            G::Ray(o, d) => G::Ray(self.pt(o), self.vec(d)),
            G::Plane(o, d) => G::Plane(self.pt(o), self.vec(d)),
            G::Sphere(o, r) => G::Sphere(self.pt(o), r * self.k),
            G::Cube(o, r) => G::Cube(self.pt(o), r * self.k),
            G::Segment(a, b) => G::Segment(self.pt(a), self.pt(b)),
            G::Prism(v, h) => {
                let q: [[f64; 3]; 3] = std::array::from_fn(|i| self.pt(&[v[3 * i], v[3 * i + 1], v[3 * i + 2]]));
                // mirroring turns the base over: keep the side on which it is extruded
                let o = if self.odd() { [0, 2, 1] } else { [0, 1, 2] };
                G::Prism(std::array::from_fn(|i| q[o[i / 3]][i % 3]), h * self.k)
            }
        }
    }
}
fn exactly(x: f64) -> bool {
    x == 0.0 || (x.abs() > 1e-250 && x.abs() < 1e250)
}
fn x03(src: &mut Src, c: &mut Case) -> Res {
    let k = src.below(12) as usize;
    let p = gen_pair(src, k);
    c.class(PAIRS[k]);
    show_pair(c, &p);
    const PERM: [[usize; 3]; 6] = [[0, 1, 2], [1, 2, 0], [2, 0, 1], [1, 0, 2], [0, 2, 1], [2, 1, 0]];
    let perm = PERM[src.below(6) as usize];
    let sg = [sign(src), sign(src), sign(src)];
    let sc = if src.below(3) == 2 { 2f64.powi(src.below(13) as i32 - 6) } else { 1.0 };
    let tr = match src.below(4) {
        3 => {
            let s = 10f64.powi(src.below(5) as i32 - 1);
            [zigzag(src, 41) * s, zigzag(src, 41) * s, zigzag(src, 41) * s]
        }
        _ => [0.0; 3],
    };
    let t = Iso { perm, sg, k: sc, tr };
    let still = is_zero(&tr);
    c.show("motion", || format!("axes {:?} signs {:?} scale {} translation {:?}", perm, sg, sc, tr));
    let (a, b) = (&p.a, &p.b);
    let (a2, b2) = (t.g(a), t.g(b));
    for g in [&a2, &b2] {
        if let G::Prism(v, h) = g {
            match prism(v, *h) {
                Some(x) if x.kappa0 <= 1e4 => {}
                _ => return Ok(()),
            }
        }
    }
    let (ta, tb) = (p.ta.unwrap_or(1e-6), p.tb.unwrap_or(1e-6));
    let (ta2, tb2) = (p.ta.map(|x| x * sc), p.tb.map(|x| x * sc));
    let (w, w2) = (judge(a, b, ta, tb), judge(&a2, &b2, ta2.unwrap_or(1e-6), tb2.unwrap_or(1e-6)));
    // and to sizes far from the usual ones
    let (far, fd) = far_scale(src, k);
    let (a2, b2) = (a2.scaled(far, fd), b2.scaled(far, fd));
    let (ta2, tb2, w2) = if far != 1.0 {
        (Some(ta2.unwrap_or(1e-6) * far), Some(tb2.unwrap_or(1e-6) * far), w2.scaled(far))
    } else {
        (ta2, tb2, w2)
    };
    if far != 1.0 || fd != 1.0 {
        c.show("scaled further", || format!("all by {:e}, directions by {:e}", far, fd));
    }
    let (sc, tr) = (sc * far, tr.map(|x| x * far));
    let t = Iso { perm, sg, k: sc, tr };
    let (x, y, x2, y2) = (build(a, p.ta), build(b, p.tb), build(&a2, ta2), build(&b2, tb2));
    // boxes and supports move along
    let d = nzv3(src, MID);
    for (g, s, g2, s2) in [(a, &x, &a2, &x2), (b, &y, &b2, &y2)] {
        let (lo, hi) = bbox(&**s);
        let (lo2, hi2) = bbox(&**s2);
        let data = s.get_shape_data();
        let m = maxabs(&data) * sc + maxabs(&tr) + maxabs(&s2.get_shape_data());
        let tol = match g {
            G::Prism(..) if !still => f64::INFINITY,
            G::Prism(..) => 1e-8 * m,
            _ => 8.0 * EPS * m,
        };
        for i in 0..3 {
            let j = perm[i];
            let (l, h) = if sg[i] > 0.0 { (lo[j], hi[j]) } else { (-hi[j], -lo[j]) };
            for (nm, u, v) in [("lower", l * sc + tr[i], lo2[i]), ("upper", h * sc + tr[i], hi2[i])] {
                req!(u == v || (u - v).abs() <= tol, "the {} bound of the moved {} on axis {} is {:e}, moving the box gives {:e}", nm, KINDS[g.kind()], i, v, u);
            }
        }
        if matches!(g, G::Point(_) | G::Sphere(..) | G::Cube(..) | G::Prism(..)) && (still || !matches!(g, G::Prism(..))) {
            let d2 = t.vec(&d);
            let (r, r2) = (s.get_support(&m3(&d)), s2.get_support(&m3(&d2)));
            if let (Some(r), Some(r2)) = (&r, &r2) {
                let (u, v) = (dot(&t.pt(&a3(r)), &d2), dot(&a3(r2), &d2));
                req!((u - v).abs() <= (if let G::Prism(..) = g { 1e-8 } else { 64.0 * EPS }) * (m + maxabs(&a3(r2))) * norm(&d2),
                    "support of the moved {} in direction {:?}: {:?}, moving the support point gives {:?}", KINDS[g2.kind()], d2, a3(r2), t.pt(&a3(r)));
            } else {
                req!(r.is_none() == r2.is_none(), "support {:?}, moved {:?}", r, r2);
            }
        }
    }
    if still && !matches!(a, G::Prism(..)) && !matches!(b, G::Prism(..)) {
        let small = [&a2, &b2].iter().all(|g| g.build().get_shape_data().iter().all(|v| exactly(*v)));
        let (o, o2) = (x.get_bound().intersect(y.get_bound()), x2.get_bound().intersect(y2.get_bound()));
        req!(!small || o == o2, "the boxes overlap: {}, moved: {}", o, o2);
    }
    let (r, r2) = (x.get_intersect(&*y), x2.get_intersect(&*y2));
    c.show("answer", || show_ans(&r));
    c.show("moved", || show_ans(&r2));
    if w.v == Vd::Unk || w.v != w2.v {
        c.class("undecided within rounding");
        return Ok(());
    }
    c.nontrivial = perm != [0, 1, 2] || sg != [1.0; 3] || sc != 1.0 || !still;
    req!(r.0 == r2.0, "{}, the moved pair: {}", show_ans(&r), show_ans(&r2));
    if let (Some(u), Some(v), Loc::Near(l, e), Loc::Near(l2, e2)) = (&r.1, &r2.1, &w.loc, &w2.loc) {
        let (u, v) = (t.pt(&a3(u)), a3(v));
        let off = maxabs(&sub(&t.pt(l), l2));
        // each point of a coincident pair may be reported
        let extra = if k == PT_PT { 2.0 * sc * ta.max(tb) } else { 0.0 };
        let tol = 2.0 * (sc * e + e2 + off) + 8.0 * EPS * (maxabs(&u) + maxabs(&tr)) + extra;
        for i in 0..3 {
            req!((u[i] - v[i]).abs() <= tol, "located at {:?}, moving the location of the original gives {:?} (tolerance {:.1e})", v, u, tol);
        }
    }
    Ok(())
}

fn x04(src: &mut Src, c: &mut Case) -> Res {
    match src.below(4) {
        0 => located(src, c),
        1 => grown(src, c),
        2 => shared(src, c),
        _ => same_question(src, c),
    }
}
fn asked(a: &G, b: &G, ta: Option<f64>, tb: Option<f64>, src: &mut Src) -> (bool, Option<[f64; 3]>) {
    let (x, y) = (build(a, ta), build(b, tb));
    // of two points, the one asked decides with its tolerance
    let r = if src.bool() || matches!((a, b), (G::Point(_), G::Point(_))) { x.get_intersect(&*y) } else { y.get_intersect(&*x) };
    (r.0, r.1.map(|p| a3(&p)))
}
fn verdict(a: &G, b: &G, ta: Option<f64>, tb: Option<f64>) -> Ans {
    judge(a, b, ta.unwrap_or(1e-6), tb.unwrap_or(1e-6))
}
/// a reported location, asked as a point, is on both (slightly enlarged) shapes
fn located(src: &mut Src, c: &mut Case) -> Res {
    c.class("location on both");
    let k = [RAY_RAY, RAY_SPHERE, RAY_PLANE, SPH_SPH, SPH_PLANE, SEG_PRISM][src.below(6) as usize];
    let p = gen_pair(src, k);
    show_pair(c, &p);
    let w = verdict(&p.a, &p.b, p.ta, p.tb);
    if w.v != Vd::Hit {
        return Ok(());
    }
    let (yes, loc) = asked(&p.a, &p.b, p.ta, p.tb, src);
    c.show("answer", || format!("{} {:?}", yes, loc));
    let q = match loc {
        Some(q) if yes => q,
        _ => return Err("they intersect, but no location is given".into()),
    };
    let tol = match &w.loc {
        Loc::Near(_, e) | Loc::Either(_, _, e) | Loc::OnRays(_, _, _, _, e) => *e,
        Loc::SegPrism(x, y) => x.max(*y),
        Loc::Any => return Ok(()),
    };
    c.nontrivial = true;
    let pt = G::Point(q);
    for g in [&p.a, &p.b] {
        let (g2, t2) = match g {
            G::Sphere(o, r) => {
                let e = 2.0 * tol + 64.0 * EPS * (maxabs(o) + r + maxabs(&q));
                (G::Sphere(*o, r + 2.0 * e), None)
            }
            G::Plane(o, _) => (g.clone(), Some(4.0 * tol + 256.0 * EPS * (maxabs(o) + maxabs(&q)))),
            G::Ray(o, _) => {
                // generous: the query looks along the direction and compares coordinates
                let l = maxabs(o) + maxabs(&q) + norm(&sub(&q, o));
                (g.clone(), Some(16.0 * tol + 4096.0 * EPS * l))
            }
            G::Prism(v, h) => {
                // enlarged about its centre
                let x = prism(v, *h).unwrap();
                let m = x.interior([1.0, 1.0, 1.0], 0.5);
                let inr = x.dist(V::of(m)).iter().cloned().fold(f64::INFINITY, |s, d| s.min(-d));
                let e = 4.0 * tol + 64.0 * EPS * x.kappa * (maxabs(&q) + x.cmax + x.size);
                let off = x.dist(V::of(q)).iter().cloned().fold(f64::NEG_INFINITY, f64::max);
                req!(off <= 2.0 * e, "the reported location {:?} is {:e} outside the prism {:?} (allowance {:.1e})", q, off, g, e);
                let f = 1.0 + 2.0 * e / inr;
                if !(f < 2.0) {
                    continue;
                }
                let mut v2 = *v;
                for i in 0..9 {
                    // the base moves away along the normal, too
                    let mid = m[i % 3];
                    v2[i] = mid + (v[i] - mid) * f;
                }
                (G::Prism(v2, h * f), None)
            }
            _ => continue,
        };
        if let G::Ray(o, _) = g {
            // near the origin the query has no tolerance along the ray
            if norm(&sub(&q, o)) <= 4.0 * t2.unwrap() {
                continue;
            }
        }
        let v = verdict(&pt, &g2, None, t2);
        let (on, _) = asked(&pt, &g2, None, t2, src);
        let want_on = match g {
            G::Ray(..) => v.v != Vd::Miss,
            _ => v.v == Vd::Hit,
        };
        // (the rounded vertices of the enlarged prism may tilt its base: there, the distance decides)
        req!(v.v != Vd::Miss || matches!(g, G::Prism(..)), "the reported location {:?} is not on the {} {:?} (allowance {:.1e})", q, KINDS[g.kind()], g, tol);
        req!(on || !want_on, "the location {:?} is reported, but asked as a point it is not on the {} {:?} (tolerance {:?})", q, KINDS[g.kind()], g2, t2);
    }
    Ok(())
}
/// growing a shape or a tolerance never loses an intersection
fn grown(src: &mut Src, c: &mut Case) -> Res {
    c.class("growth keeps a yes");
    let k = [PT_PT, PT_PLANE, PT_RAY, PT_SPHERE, PT_CUBE, PT_PRISM, RAY_SPHERE, SPH_SPH, SPH_PLANE, SEG_PRISM][src.below(10) as usize];
    let p = gen_pair(src, k);
    show_pair(c, &p);
    let (yes, _) = asked(&p.a, &p.b, p.ta, p.tb, src);
    let f = 1.0 + match src.below(3) {
        0 => logu(src, 1e-9, 1.0),
        1 => unit(src),
        _ => src.below(9) as f64,
    };
    let (mut a, mut b, mut ta, mut tb) = (p.a.clone(), p.b.clone(), p.ta, p.tb);
    let which = src.below(2);
    match (k, which) {
        (PT_PT, _) => ta = Some(ta.unwrap_or(1e-6) * f),
        (PT_PLANE, _) | (PT_RAY, _) => tb = Some(tb.unwrap_or(1e-6) * f),
        _ => {
            if let (G::Sphere(_, r), true) = (&mut a, which == 0 || k == SPH_PLANE) {
                *r *= f;
            } else {
                match &mut b {
                    G::Sphere(_, r) | G::Cube(_, r) => *r *= f,
                    G::Prism(v, h) => {
                        if let (G::Segment(p, q), 0) = (&mut a, which) {
                            // a longer segment
                            let d = sub(q, p);
                            *q = add(p, &mulv(&d, f));
                        } else if src.bool() {
                            *h *= f;
                        } else {
                            // one base edge at a vertex grows
                            let i = src.below(3) as usize;
                            for x in 0..3 {
                                let o = v[3 * i + x];
                                for j in [(i + 1) % 3, (i + 2) % 3] {
                                    v[3 * j + x] = o + (v[3 * j + x] - o) * f;
                                }
                            }
                        }
                    }
                    _ => {}
                }
            }
        }
    }
    if let G::Prism(v, h) = &b {
        if prism(v, *h).is_none() {
            return Ok(());
        }
    }
    c.show("grown a", || a.show());
    c.show("grown b", || b.show());
    c.show("tolerances", || format!("{:?} {:?}", ta, tb));
    let w = verdict(&a, &b, ta, tb);
    let (still, _) = asked(&a, &b, ta, tb, src);
    let w0 = verdict(&p.a, &p.b, p.ta, p.tb);
    // the tolerance around a ray is not exact: growing it is only judged where it is clear; the
    // rounded vertices of a longer base edge tilt the base of a thin prism, and a rounded end
    // tilts the segment, so that the grown scene need not contain the other
    let tilted = matches!(b, G::Prism(..)) && w.v == Vd::Miss;
    let clear = w.v != Vd::Unk && w0.v != Vd::Unk && !tilted;
    c.nontrivial = yes && clear;
    req!(!yes || still || !clear, "yes, but no longer after growing by {:e}", f);
    Ok(())
}
/// a point that lies in both shapes makes them intersect
fn shared(src: &mut Src, c: &mut Case) -> Res {
    c.class("shared point");
    let k = [RAY_SPHERE, SPH_SPH, SPH_PLANE, SEG_PRISM][src.below(4) as usize];
    let p = gen_pair(src, k);
    show_pair(c, &p);
    // a point of the first shape
    let q: [f64; 3] = match (&p.a, &p.b) {
        (G::Ray(o, d), _) => add(o, &mulv(&unitv(d), logu(src, 1e-3, 1e3))),
        (G::Segment(a, b), _) => {
            let t = unit(src);
            std::array::from_fn(|i| a[i] + (b[i] - a[i]) * t)
        }
        (G::Sphere(o, r), G::Plane(pl, n)) => {
            let m = V::of(*n).unit();
            let t = (V::of(*o) - V::of(*pl)).dot(m);
            let foot = (V::of(*o) - m.scale(t)).f();
            add(&foot, &mulv(&perp(src, &m.f()), r * unit(src)))
        }
        (G::Sphere(o, r), G::Sphere(e, s)) => {
            let u = sub(e, o);
            let f = if r + s > 0.0 { r / (r + s) } else { 0.0 } + 0.1 * (unit(src) - 0.5);
            add(o, &mulv(&u, f))
        }
        _ => return Ok(()),
    };
    c.show("point", || format!("{:?}", q));
    let pt = G::Point(q);
    let in_b = match &p.b {
        G::Plane(..) => true,
        g => asked(&pt, g, None, None, src).0,
    };
    let in_a = match &p.a {
        G::Sphere(..) => asked(&pt, &p.a, None, None, src).0,
        _ => true,
    };
    let w = verdict(&p.a, &p.b, p.ta, p.tb);
    let (yes, _) = asked(&p.a, &p.b, p.ta, p.tb, src);
    let va = if let G::Sphere(..) = p.a { verdict(&pt, &p.a, None, None).v } else { Vd::Hit };
    let vb = if let G::Plane(..) = p.b { Vd::Hit } else { verdict(&pt, &p.b, None, None).v };
    let clear = w.v != Vd::Unk && va != Vd::Unk && vb != Vd::Unk;
    c.nontrivial = clear && in_a && in_b;
    req!(!(in_a && in_b) || yes || !clear, "the point {:?} is in both, but the shapes are said not to intersect", q);
    Ok(())
}
/// two queries that ask the same question
fn same_question(src: &mut Src, c: &mut Case) -> Res {
    c.class("same question");
    let (a, b, ta, tb);
    let (a2, b2, ta2, tb2);
    match src.below(4) {
        0 => {
            // spheres meet: the centre of one is in the sphere of the summed radius
            let p = gen_pair(src, SPH_SPH);
            match (&p.a, &p.b) {
                (G::Sphere(o, r), G::Sphere(e, s)) => {
                    (a2, b2, ta2, tb2) = (G::Point(*e), G::Sphere(*o, r + s), None, None);
                }
                _ => return Ok(()),
            }
            (a, b, ta, tb) = (p.a, p.b, p.ta, p.tb);
        }
        1 => {
            // a sphere meets a plane: its centre is on the plane within the radius
            let p = gen_pair(src, SPH_PLANE);
            match (&p.a, &p.b) {
                (G::Sphere(o, r), G::Plane(..)) => {
                    (a2, b2, ta2, tb2) = (G::Point(*o), p.b.clone(), None, Some(*r));
                }
                _ => return Ok(()),
            }
            (a, b, ta, tb) = (p.a, p.b, p.ta, p.tb);
        }
        2 => {
            // a point is in a cube: it coincides with the centre within half the edge
            let p = gen_pair(src, PT_CUBE);
            match (&p.a, &p.b) {
                (G::Point(q), G::Cube(o, s)) => {
                    (a2, b2, ta2, tb2) = (G::Point(*q), G::Point(*o), Some(*s), None);
                    let x = build(&a2, ta2).get_intersect(&*build(&b2, None));
                    let y = build(&p.a, p.ta).get_intersect(&*build(&p.b, p.tb));
                    let (w, w2) = (verdict(&p.a, &p.b, p.ta, p.tb), verdict(&a2, &b2, ta2, tb2));
                    show_pair(c, &p);
                    c.nontrivial = w.v != Vd::Unk && w.v == w2.v;
                    req!(x.0 == y.0 || !c.nontrivial, "point in cube: {}, point within half the edge of the centre: {}", y.0, x.0);
                    return Ok(());
                }
                _ => return Ok(()),
            }
        }
        _ => {
            // a point in a prism is a segment within it
            let p = gen_pair(src, PT_PRISM);
            match (&p.a, &p.b) {
                (G::Point(q), G::Prism(..)) => {
                    (a2, b2, ta2, tb2) = (G::Segment(*q, *q), p.b.clone(), None, None);
                }
                _ => return Ok(()),
            }
            (a, b, ta, tb) = (p.a, p.b, p.ta, p.tb);
        }
    }
    c.show("a", || a.show());
    c.show("b", || b.show());
    c.show("asked instead", || format!("{:?} and {:?}, tolerances {:?} {:?}", a2, b2, ta2, tb2));
    let (w, w2) = (verdict(&a, &b, ta, tb), verdict(&a2, &b2, ta2, tb2));
    let (x, y) = (asked(&a, &b, ta, tb, src).0, asked(&a2, &b2, ta2, tb2, src).0);
    c.nontrivial = w.v != Vd::Unk && w.v == w2.v;
    req!(x == y || !c.nontrivial, "the one question is answered {}, the other {}", x, y);
    Ok(())
}
