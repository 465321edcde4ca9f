//! Whether two shapes share a point, decided with a margin, for every kind of pair of shapes
//! without a query of its own.  A separating-axis test for polytopes, distances for spheres.
use crate::gens::*;
use crate::geom::*;

struct Poly {
    v: Vec<[f64; 3]>,
    /// unit normals of the faces
    n: Vec<[f64; 3]>,
    /// unit directions of the edges
    e: Vec<[f64; 3]>,
}
const FAR: f64 = 1e4;
fn poly(g: &G) -> Option<Poly> {
    let dir = |d: [f64; 3]| if is_zero(&d) { vec![] } else { vec![unitv(&d)] };
    let ax = || vec![[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]];
    Some(match g {
        G::Point(p) => Poly { v: vec![*p], n: vec![], e: vec![] },
        G::Segment(a, b) => Poly { v: vec![*a, *b], n: vec![], e: dir(sub(b, a)) },
        // long enough for everything generated here
        G::Ray(o, d) => Poly { v: vec![*o, add(o, &mulv(&unitv(d), FAR))], n: vec![], e: dir(*d) },
        G::Cube(o, r) => {
            let v = (0..8).map(|k| std::array::from_fn(|i| if k >> i & 1 == 1 { o[i] + r } else { o[i] - r })).collect();
            Poly { v, n: ax(), e: ax() }
        }
        G::Prism(w, h) => {
            let x = prism(w, *h)?;
            let v: Vec<[f64; 3]> = x.v.iter().chain(x.top.iter()).map(|p| p.f()).collect();
            let n = x.n.iter().map(|p| p.f()).collect();
            let e = vec![unitv(&sub(&v[1], &v[0])), unitv(&sub(&v[2], &v[1])), unitv(&sub(&v[0], &v[2])), x.n[1].f()];
            Poly { v, n, e }
        }
        _ => return None,
    })
}
fn extent(v: &[[f64; 3]], u: &[f64; 3]) -> (f64, f64) {
    v.iter().fold((f64::INFINITY, f64::NEG_INFINITY), |(lo, hi), p| {
        let d = dot(p, u);
        (lo.min(d), hi.max(d))
    })
}
/// distance from p to the segment ab
fn seg_dist(p: &[f64; 3], a: &[f64; 3], b: &[f64; 3]) -> f64 {
    let d = sub(b, a);
    let l = dot(&d, &d);
    let t = if l > 0.0 { (dot(&sub(p, a), &d) / l).max(0.0).min(1.0) } else { 0.0 };
    norm(&sub(p, &add(a, &mulv(&d, t))))
}
fn tri_dist(p: &[f64; 3], t: [&[f64; 3]; 3]) -> f64 {
    let mut m = f64::INFINITY;
    for i in 0..3 {
        m = m.min(seg_dist(p, t[i], t[(i + 1) % 3]));
    }
    let n = cross(&sub(t[1], t[0]), &sub(t[2], t[0]));
    if is_zero(&n) {
        return m;
    }
    let n = unitv(&n);
    let h = dot(&sub(p, t[0]), &n);
    let q = sub(p, &mulv(&n, h));
    let inside = (0..3).all(|i| dot(&cross(&sub(t[(i + 1) % 3], t[i]), &sub(&q, t[i])), &n) >= 0.0);
    if inside {
        h.abs()
    } else {
        m
    }
}
/// distance from a point to a cube, prism, segment or point (zero inside)
fn dist(p: &[f64; 3], g: &G) -> Option<f64> {
    Some(match g {
        G::Point(q) => norm(&sub(p, q)),
        G::Segment(a, b) => seg_dist(p, a, b),
        G::Cube(o, r) => norm(&std::array::from_fn(|i| ((p[i] - o[i]).abs() - r).max(0.0))),
        G::Prism(w, h) => {
            let x = prism(w, *h)?;
            if x.dist(crate::dd::V::of(*p)).iter().all(|d| *d <= 0.0) {
                return Some(0.0);
            }
            let v: Vec<[f64; 3]> = x.v.iter().chain(x.top.iter()).map(|p| p.f()).collect();
            [[0, 1, 2], [3, 4, 5], [0, 1, 4], [0, 4, 3], [1, 2, 5], [1, 5, 4], [2, 0, 3], [2, 3, 5]]
                .iter()
                .map(|t| tri_dist(p, [&v[t[0]], &v[t[1]], &v[t[2]]]))
                .fold(f64::INFINITY, f64::min)
        }
        _ => return None,
    })
}
fn reach(g: &G) -> f64 {
    match g {
        G::Point(p) => maxabs(p),
        G::Sphere(o, r) | G::Cube(o, r) => maxabs(o) + r,
        G::Segment(a, b) => maxabs(a) + maxabs(b),
        G::Prism(v, h) => maxabs(v) + h,
        G::Plane(o, _) | G::Ray(o, _) => maxabs(o),
    }
}
/// Some(yes or no) when the answer is beyond doubt
pub fn meet(a: &G, b: &G) -> Option<bool> {
    let m = 1e-6 * (reach(a) + reach(b));
    let by = |inside: f64| {
        // positive: overlapping by that much
        if inside > m {
            Some(true)
        } else if inside < -m {
            Some(false)
        } else {
            None
        }
    };
    match (a, b) {
        (G::Plane(o, n), G::Plane(p, k)) => {
            let (n, k) = (unitv(n), unitv(k));
            if norm(&cross(&n, &k)) > 1e-3 {
                Some(true)
            } else if norm(&cross(&n, &k)) < 1e-12 && dot(&sub(o, p), &n).abs() > m {
                Some(false)
            } else {
                None
            }
        }
        (G::Plane(o, n), g) | (g, G::Plane(o, n)) => {
            let u = unitv(n);
            let c = dot(o, &u);
            if let G::Sphere(q, r) = g {
                return by(r - (dot(q, &u) - c).abs());
            }
            if let G::Ray(..) = g {
                return None;
            }
            let (lo, hi) = extent(&poly(g)?.v, &u);
            by((hi - c).min(c - lo))
        }
        (G::Sphere(o, r), G::Sphere(p, s)) => by(r + s - norm(&sub(o, p))),
        (G::Sphere(o, r), g) | (g, G::Sphere(o, r)) => by(r - dist(o, g)?),
        _ => {
            let (p, q) = (poly(a)?, poly(b)?);
            let mut axes: Vec<[f64; 3]> = p.n.iter().chain(q.n.iter()).cloned().collect();
            for e in &p.e {
                for f in &q.e {
                    let x = cross(e, f);
                    if norm(&x) > 1e-9 {
                        axes.push(unitv(&x));
                    }
                }
            }
            if p.n.is_empty() && q.n.is_empty() {
                // flat: points, segments and rays; only a clear gap is told
                for e in p.e.iter().chain(q.e.iter()) {
                    axes.push(*e);
                    for f in axes.clone() {
                        let x = cross(e, &f);
                        if norm(&x) > 1e-9 {
                            axes.push(unitv(&x));
                        }
                    }
                }
                axes.extend([[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]]);
            }
            let mut least = f64::INFINITY;
            for u in &axes {
                let ((l, h), (l2, h2)) = (extent(&p.v, u), extent(&q.v, u));
                least = least.min((h - l2).min(h2 - l));
            }
            match by(least) {
                Some(true) if p.n.is_empty() && q.n.is_empty() => None,
                r => r,
            }
        }
    }
}
