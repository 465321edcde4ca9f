//! E01: what is supported is answered, what is not is refused.
use super::Prop;
use crate::engine::{Case, Res, Src};
use crate::gens::*;
use crate::geom::*;
use crate::pairs::*;
use crate::req;
use crate::props::isect::{Counted, SUPPORT_LIMIT};
use crate::solids::meet;
use crate::types::*;
use mazth::bound::AxisAlignedBBox;
use mazth::bound_sphere::BoundSphere;
use mazth::i_bound::IBound;
use mazth::i_shape::ShapeType;
use mazth::mat::*;
use mazth::quat::Quat;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn list(v: &mut Vec<Prop>) {
    v.push(Prop { id: "E01", f: e01, quick: 16_000_000,
        rule: "one case = one request: a construction from a slice of any length, an operation on a zero quaternion, an index, a query between two kinds of shapes or boxes that have none, or every supported operation on operands of magnitude 1e-60 to 1e60; non-trivial = not a construction with the right length" });
}
/// None if refused with a panic
fn ask<T, F: FnOnce() -> T>(f: F) -> Option<T> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}
fn e01(src: &mut Src, c: &mut Case) -> Res {
    c.nontrivial = true;
    match src.below(16) {
        0 | 1 => lengths(src, c),
        2 => boxes(src, c),
        3 => match src.below(12) {
            0 => index::<Mat2x1<f64>>(src, c),
            1 => index::<Mat2x1<f32>>(src, c),
            2 => index::<Mat1x2<f64>>(src, c),
            3 => index::<Mat1x2<f32>>(src, c),
            4 => index::<Mat3x1<f64>>(src, c),
            5 => index::<Mat3x1<f32>>(src, c),
            6 => index::<Mat1x3<f64>>(src, c),
            7 => index::<Mat1x3<f32>>(src, c),
            8 => index::<Mat4x1<f64>>(src, c),
            9 => index::<Mat4x1<f32>>(src, c),
            10 => index::<Mat1x4<f64>>(src, c),
            _ => index::<Mat1x4<f32>>(src, c),
        },
        4 => {
            if src.bool() {
                zero_quat::<Quat<f64>>(src, c)
            } else {
                zero_quat::<Quat<f32>>(src, c)
            }
        }
        5..=8 => unsupported(src, c),
        9..=12 => shapes(src, c),
        13 => algebra::<Mat3<f64>, Mat3x1<f64>>(src, c, 1e60),
        14 => algebra::<Mat4<f32>, Mat4x1<f32>>(src, c, 1e8),
        _ => {
            if src.bool() {
                quats::<Quat<f64>>(src, c, 1e60)
            } else {
                quats::<Quat<f32>>(src, c, 1e8)
            }
        }
    }
}
fn lengths(src: &mut Src, c: &mut Case) -> Res {
    let kind = src.below(7) as usize;
    c.class("slice lengths");
    let g = gen_shape(src, kind, GEO);
    c.show("shape", || g.show());
    let base: Vec<Vec<f64>> = match &g {
        G::Point(p) => vec![p.to_vec()],
        G::Ray(o, d) | G::Plane(o, d) | G::Segment(o, d) => vec![o.to_vec(), d.to_vec()],
        G::Sphere(o, _) | G::Cube(o, _) => vec![o.to_vec()],
        G::Prism(v, _) => vec![v.to_vec()],
    };
    let which = src.below(base.len() as u64) as usize;
    let want = base[which].len();
    let n = match src.below(6) {
        0 => want * (2 + src.below(3) as usize),
        1 => want + 1 + src.below(12) as usize,
        _ => src.below(want as u64 + 4) as usize,
    };
    let mut s = base;
    while s[which].len() < n {
        let x = num(src, GEO);
        s[which].push(x);
    }
    s[which].truncate(n);
    c.show("slices", || format!("{:?}", s));
    let ok = ask(|| match &g {
        G::Point(_) => drop(mazth::point::Point3::init(&s[0])),
        G::Ray(..) => drop(mazth::ray::Ray3::init(&s[0], &s[1])),
        G::Plane(..) => drop(mazth::plane::Plane::init(&s[0], &s[1])),
        G::Segment(..) => drop(mazth::line::Line3::init(&s[0], &s[1])),
        G::Sphere(_, r) => drop(mazth::sphere::Sphere::init(&s[0], *r)),
        G::Cube(_, r) => drop(mazth::rbox::RecBox::init(&s[0], *r)),
        G::Prism(_, h) => drop(mazth::triprism::TriPrism::init(&s[0], *h)),
    })
    .is_some();
    if n == want {
        c.nontrivial = false;
        req!(ok, "a {} built from slices of the right length is refused", KINDS[kind]);
    } else {
        req!(!ok, "a {} is built although slice {} has {} numbers instead of {}", KINDS[kind], which, n, want);
    }
    Ok(())
}
fn zero(src: &mut Src) -> f64 {
    if src.bool() {
        -0.0
    } else {
        0.0
    }
}
fn boxes(src: &mut Src, c: &mut Case) -> Res {
    c.class("boxes");
    let b = |src: &mut Src| {
        let (p, q) = (v3(src, GEO), v3(src, GEO));
        let lo: [f64; 3] = std::array::from_fn(|i| p[i].min(q[i]));
        let hi: [f64; 3] = std::array::from_fn(|i| p[i].max(q[i]));
        AxisAlignedBBox::init(ShapeType::Rect, &[lo[0], lo[1], lo[2], hi[0], hi[1], hi[2]])
    };
    match src.below(4) {
        0 => {
            let n = match src.below(4) {
                0 => src.below(40) as usize,
                _ => src.below(10) as usize,
            };
            let v: Vec<f64> = (0..n).map(|_| positive(src, GEO)).collect();
            let (t, nm, want) = match src.below(6) {
                0 => (ShapeType::Ray, "ray", 6),
                1 => (ShapeType::Point, "point", 3),
                2 => (ShapeType::Sphere, "sphere", 4),
                3 => (ShapeType::Plane, "plane", 6),
                4 => (ShapeType::Box, "cube", 4),
                _ => (ShapeType::Rect, "corner", 6),
            };
            c.show("box", || format!("{} from {:?}", nm, v));
            let ok = ask(|| AxisAlignedBBox::init(t, &v)).is_some();
            if n == want {
                c.nontrivial = false;
            }
            req!(ok == (n == want), "a {} box from {} numbers ({} needed) is {}", nm, n, want, if ok { "built" } else { "refused" });
        }
        1 => {
            let n = src.below(10) as usize;
            let v: Vec<f64> = (0..n).map(|_| num(src, GEO)).collect();
            let (t, nm) = match src.below(2) {
                0 => (ShapeType::Frustum, "frustum"),
                _ => (ShapeType::Complex, "custom shape"),
            };
            c.show("box", || format!("{} from {:?}", nm, v));
            req!(ask(|| AxisAlignedBBox::init(t, &v)).is_none(), "a {} box is built", nm);
        }
        2 => {
            let x = b(src);
            let s = BoundSphere::init(ShapeType::Sphere, &[0.0, 0.0, 0.0, 1.0]);
            c.show("box", || format!("{:?}", x));
            req!(ask(|| x.intersect(&s)).is_none(), "overlap of a box and a bounding sphere is answered");
            let (mut y, other) = (x.clone(), b(src));
            let first = src.bool();
            req!(
                ask(|| if first { y.get_union(&[&s, &other]) } else { y.get_union(&[&other, &s]) }).is_none(),
                "the union of a box and a bounding sphere is answered"
            );
        }
        _ => {
            let x = b(src);
            let mut s = BoundSphere::init(ShapeType::Sphere, &[0.0, 0.0, 0.0, 1.0]);
            c.show("box", || format!("{:?}", x));
            req!(ask(|| s.intersect(&x)).is_none(), "overlap of a bounding sphere and a box is answered");
            req!(ask(|| s.get_bound_data()).is_none(), "a bounding sphere, which holds nothing, reports data");
            req!(ask(|| s.get_centroid()).is_none(), "a bounding sphere, which holds nothing, reports a centroid");
            req!(ask(|| s.get_union(&[&x])).is_none(), "the union of a bounding sphere and a box is answered");
        }
    }
    Ok(())
}
fn index<V: VecT>(src: &mut Src, c: &mut Case) -> Res {
    c.class("index");
    let v = vecn(src, V::N, Dom::new(1e-6, 1e6).prec(V::T::SINGLE));
    let i = match src.below(3) {
        0 => src.below(8) as usize,
        1 => V::N,
        _ => logu(src, 8.0, 1e18) as usize,
    };
    c.show("vector", || format!("{} {:?}", V::NAME, &v[..V::N]));
    c.show("index", || format!("{}", i));
    let m = V::mk(&v);
    let r = ask(|| m.at(i));
    let mut w = m;
    let s = ask(|| w.put(i, V::T::of(1.0)));
    if i < V::N {
        c.nontrivial = false;
        req!(r.map(|x| x.f()) == Some(V::T::of(v[i]).f()) && s.is_some(), "component {} of {} cannot be accessed", i, V::NAME);
    } else {
        req!(r.is_none(), "reading component {} of a {} gives {:?}", i, V::NAME, r);
        req!(s.is_none(), "component {} of a {} is written", i, V::NAME);
    }
    Ok(())
}
fn zero_quat<Q: QuatT>(src: &mut Src, c: &mut Case) -> Res {
    c.class("zero or real quaternion");
    let z = [zero(src), zero(src), zero(src), zero(src)];
    let t = num(src, MID);
    match src.below(3) {
        0 => {
            c.show("quaternion", || format!("{} {:?}", Q::NAME, z));
            let q = Q::mk(&z);
            req!(ask(|| q.norm_()).is_none(), "the zero quaternion is normalised");
            req!(ask(|| Q::normalized(&z)).is_none(), "a normalised quaternion is built from zeros");
            req!(ask(|| q.inv()).is_none(), "the zero quaternion is inverted");
            req!(ask(|| q.ln_()).is_none(), "the zero quaternion has a logarithm");
        }
        _ => {
            // no axis: refused, or the real logarithm
            let w = positive(src, MID);
            let q = Q::mk(&[z[0], z[1], z[2], w]);
            let w = q.g()[3];
            c.show("quaternion", || format!("{} {:?}", Q::NAME, q.g()));
            if let Some(l) = ask(|| q.ln_().g()) {
                let ok = (0..3).all(|i| l[i] == 0.0) && (l[3] - w.ln()).abs() <= 16.0 * Q::T::EPS * (1.0 + w.ln().abs());
                req!(ok, "the logarithm of the real quaternion {:e} is {:?}", w, l);
            }
            let t = t % 4.0;
            if let Some(l) = ask(|| q.pow_(t).g()) {
                let x = w.powf(t);
                let ok = (0..3).all(|i| l[i].abs() <= 1e-300) && (l[3] - x).abs() <= 64.0 * Q::T::EPS * x * (1.0 + w.ln().abs());
                req!(ok, "power {:e} of the real quaternion {:e} is {:?}", t, w, l);
            }
        }
    }
    Ok(())
}
/// a point of the shape
fn inner(src: &mut Src, g: &G) -> [f64; 3] {
    match g {
        G::Point(p) => *p,
        G::Ray(o, d) => add(o, &mulv(&unitv(d), logu(src, 1.0, 10.0))),
        G::Sphere(o, _) | G::Cube(o, _) => *o,
        G::Plane(o, n) => add(o, &mulv(&perp(src, &unitv(n)), 5.0 * unit(src))),
        G::Segment(a, b) => mulv(&add(a, b), 0.5),
        G::Prism(v, h) => prism(v, *h).unwrap().interior([1.0, 1.0, 1.0], 0.5),
    }
}
fn moved(g: &G, d: &[f64; 3]) -> G {
    match g {
        G::Point(p) => G::Point(add(p, d)),
        G::Ray(o, v) => G::Ray(add(o, d), *v),
        G::Sphere(o, r) => G::Sphere(add(o, d), *r),
        G::Cube(o, r) => G::Cube(add(o, d), *r),
        G::Plane(o, v) => G::Plane(add(o, d), *v),
        G::Segment(a, b) => G::Segment(add(a, d), add(b, d)),
        G::Prism(v, h) => {
            let mut w = *v;
            for i in 0..9 {
                w[i] += d[i % 3];
            }
            G::Prism(w, *h)
        }
    }
}
fn unsupported(src: &mut Src, c: &mut Case) -> Res {
    c.class("pairs without a query");
    let d = Dom::new(1e-1, 1e1);
    let (ka, kb) = (src.below(7) as usize, src.below(7) as usize);
    let a = gen_shape(src, ka, d);
    let b = gen_shape(src, kb, d);
    let pa = inner(src, &a);
    let pb = inner(src, &b);
    // one point in common, near each other, or nothing anywhere near
    let v = match src.below(4) {
        0 => sub(&pa, &pb),
        1 => add(&sub(&pa, &pb), &mulv(&unitv(&nzv3(src, MID)), 1e3)),
        _ => add(&sub(&pa, &pb), &mulv(&unitv(&nzv3(src, MID)), logu(src, 0.1, 40.0))),
    };
    let b = moved(&b, &v);
    c.show("a", || a.show());
    c.show("b", || b.show());
    if let G::Prism(w, h) = &b {
        if prism(w, *h).is_none() {
            return Ok(());
        }
    }
    let truth = meet(&a, &b);
    c.show("they share a point", || match truth {
        Some(true) => "yes".into(),
        Some(false) => "no".into(),
        None => "too close to tell".into(),
    });
    let says = |t: bool| if t { "they share a point" } else { "they are apart" };
    let (x, y) = (a.build(), b.build());
    // gjk
    if !(ka == 2 && kb == 2) {
        let mk = |g: &G| Counted { s: g.build(), n: std::cell::Cell::new(0) };
        let (p, q) = (mk(&a), mk(&b));
        let r = ask(|| mazth::intersect_gjk::query_intersect(&p, &q));
        req!(p.n.get().max(q.n.get()) <= SUPPORT_LIMIT, "GJK on {} and {} does not finish", KINDS[ka], KINDS[kb]);
        if let (Some(Some(r)), Some(t)) = (r, truth) {
            req!(r == t, "GJK on {} and {}: {}, although {}", KINDS[ka], KINDS[kb], r, says(t));
        }
    }
    // support of a segment
    for (g, s) in [(&a, &x), (&b, &y)] {
        if let G::Segment(p, q) = g {
            let w = nzv3(src, MID);
            if let Some(Some(r)) = ask(|| s.get_support(&m3(&w))) {
                let r = a3(&r);
                let (dp, dq) = (dot(p, &w), dot(q, &w));
                let tol = 1e-9 * (maxabs(p) + maxabs(q)) * norm(&w);
                req!((r == *p && dp >= dq - tol) || (r == *q && dq >= dp - tol), "the support point of a segment in direction {:?} is {:?}", w, r);
            }
        }
    }
    if pair_of(ka, kb).is_some() {
        c.class("supported pair (gjk only)");
        return Ok(());
    }
    for (nm, s, o) in [("a asked about b", &x, &y), ("b asked about a", &y, &x)] {
        let r = match ask(|| s.get_intersect(&**o)) {
            Some(r) => r,
            None => {
                c.class("refused");
                continue;
            }
        };
        c.class(if r.0 { "answered yes" } else { "answered no" });
        c.show(nm, || show_ans(&r));
        if let Some(t) = truth {
            req!(r.0 == t, "{}: {}, although {}", nm, if r.0 { "yes" } else { "no" }, says(t));
        }
        if let (true, Some(p)) = (r.0, &r.1) {
            req!(a3(p).iter().all(|v| v.is_finite()), "{}: yes at {:?}", nm, a3(p));
        }
    }
    Ok(())
}
/// every supported operation on shapes of any magnitude answers
fn shapes(src: &mut Src, c: &mut Case) -> Res {
    c.class("any magnitude: shapes");
    let d = match src.below(3) {
        0 => Dom::new(1e-60, 1e60),
        1 => Dom::new(1e-30, 1e30),
        _ => GEO,
    };
    let k = src.below(12) as usize;
    let (ka, kb) = PAIR_KINDS[k];
    let a = gen_shape(src, ka, d);
    let b = gen_shape(src, kb, d);
    c.show("a", || a.show());
    c.show("b", || b.show());
    let (mut x, mut y) = (a.build(), b.build());
    if src.below(4) == 0 {
        x.set_vicinity(num(src, d));
        y.set_vicinity(num(src, d));
    }
    let r = [x.get_intersect(&*y), y.get_intersect(&*x)];
    for (nm, r) in ["a asked about b", "b asked about a"].iter().zip(r.iter()) {
        req!(r.0 == r.1.is_some(), "{}: {}", nm, show_ans(r));
    }
    let w = nzv3(src, d);
    for (g, s) in [(&a, &x), (&b, &y)] {
        if g.kind() != 5 {
            let p = s.get_support(&m3(&w));
            req!(p.is_some() == (g.kind() != 1 && g.kind() != 3), "support of the {} in direction {:?}: {:?}", KINDS[g.kind()], w, p.map(|p| a3(&p)));
        }
        let (lo, hi) = bbox(&**s);
        for i in 0..3 {
            req!(lo[i] <= hi[i], "the box of the {} is {:?}..{:?}", KINDS[g.kind()], lo, hi);
        }
        s.get_bound().get_centroid();
    }
    let mut u = AxisAlignedBBox::init(ShapeType::Point, &[0.0, 0.0, 0.0]);
    u.get_union(&[x.get_bound(), y.get_bound()]);
    req!(u.intersect(x.get_bound()) && y.get_bound().intersect(&u), "the union of two boxes overlaps neither");
    u.get_longest_axis();
    if ka == 2 && kb == 2 {
        if let (G::Sphere(p, r), G::Sphere(q, s)) = (&a, &b) {
            // contact left out: see I13
            let dd = norm(&sub(p, q));
            if (dd - (r + s)).abs() >= 2e-3 * (dd + r + s) && r / s <= 999.0 && s / r <= 999.0 && d.hi <= 1e6 {
                req!(mazth::intersect_gjk::query_intersect(&*x, &*y).is_some(), "GJK gives no answer");
            }
        }
    }
    Ok(())
}
/// every supported operation on vectors and matrices of any magnitude answers
fn algebra<M: MatT, V: VecT>(src: &mut Src, c: &mut Case, hi: f64) -> Res {
    c.class("any magnitude: matrices");
    let d = Dom::new(1.0 / hi, hi).prec(M::T::SINGLE);
    let n = M::N;
    let mut ga = [0.0; 16];
    let mut gb = [0.0; 16];
    for i in 0..n * n {
        ga[i] = num(src, d);
        gb[i] = num(src, d);
    }
    let v = nzvecn(src, n, d);
    let l = src.bool();
    let (a, b) = (M::mk(&ga, l), M::mk(&gb, l));
    c.show("a", || format!("{} {:?}", M::NAME, &ga[..n * n]));
    c.show("b", || format!("{:?}", &gb[..n * n]));
    c.show("v", || format!("{:?}", &v[..n]));
    req!(a.plus_(&b).is_some() && a.minus_(&b).is_some() && a.mul_elem_(&b).is_some() && a.div_(&b).is_some(), "an entry-wise operation gives nothing");
    req!(a.mul_(&b).is_some() && a.mul_col(&v).is_some() && M::row_mul(&v, &a).is_some(), "a product gives nothing");
    req!(a.scale_(M::T::of(v[0])).is_some() && a.eq_(&b, M::T::of(1.0)).is_some(), "scaling or comparing gives nothing");
    if let Some(r) = a.inv_() {
        req!(r.row_major() == l, "the layout of the inverse");
    }
    let w = V::mk(&v);
    req!(w.norm_().is_some() && w.mag_().is_some(), "the vector {:?} has no length or direction", &v[..n]);
    Ok(())
}
fn quats<Q: QuatT>(src: &mut Src, c: &mut Case, hi: f64) -> Res {
    c.class("any magnitude: quaternions");
    let d = Dom::new(1.0 / hi, hi).prec(Q::T::SINGLE);
    let g = nzvecn(src, 4, d);
    let v: [f64; 3] = std::array::from_fn(|_| num(src, d));
    c.show("quaternion", || format!("{} {:?}", Q::NAME, g));
    let q = Q::mk(&g);
    q.norm_();
    q.inv();
    q.rotate(&v);
    if !is_zero(&g[..3]) {
        q.ln_();
        q.pow_(0.5);
    }
    let u = q.norm_();
    let (ax, a) = u.to_aa();
    req!(ax.iter().all(|x| x.is_finite()) && a.is_finite(), "the normalised quaternion {:?} has axis {:?} and angle {:e}", u.g(), ax, a);
    Ok(())
}
