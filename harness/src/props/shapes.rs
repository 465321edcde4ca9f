//! S01, S02, V01: supports, construction, tolerance.
use super::{near, Prop};
use crate::dd::{D, V};
use crate::engine::{Case, Res, Src};
use crate::gens::*;
use crate::geom::*;
use crate::req;
use mazth::i_shape::IShape;

pub fn list(v: &mut Vec<Prop>) {
    v.push(Prop { id: "S01", f: s01, quick: 40_000_000, rule: "one case = a shape and a direction (and a multiple of it); non-trivial = direction with at least two non-zero components on a sphere, cube or prism" });
    v.push(Prop { id: "S02", f: s02, quick: 64_000_000, rule: "one case = one shape of any kind, all reported data; non-trivial = construction data not all equal" });
    v.push(Prop { id: "V01", f: v01, quick: 16_000_000, rule: "one case = two shapes, a history of up to 8 tolerance settings each followed by comparisons of numbers near the tolerance; non-trivial = at least two settings of different tolerances" });
}
fn s01(src: &mut Src, c: &mut Case) -> Res {
    let kind = [0usize, 2, 2, 4, 4, 6, 6, 1, 3][src.below(9) as usize];
    let g = gen_shape(src, kind, GEO).scaled(far(src, 60), far(src, 100));
    let s = g.build();
    c.class(KINDS[kind]);
    c.show("shape", || g.show());
    if src.below(16) == 15 {
        c.class("zero direction");
        let z = [0.0, if src.bool() { -0.0 } else { 0.0 }, 0.0];
        let r = s.get_support(&m3(&z));
        match kind {
            0 => {}
            _ => req!(r.is_none(), "support point {:?} for the zero direction", r),
        }
        return Ok(());
    }
    let d = match (&g, src.below(4)) {
        (G::Prism(v, h), 0) => {
            // ties: along or across an edge or the normal
            let p = prism(v, *h).ok_or("HARNESS: prism")?;
            let k = src.below(6) as usize;
            let w = match k {
                0 => p.hn.f(),
                1 => p.n[0].f(),
                2 => p.n[2].f(),
                3 => p.n[3].f(),
                4 => p.n[4].f(),
                _ => sub(&p.v[1].f(), &p.v[0].f()),
            };
            let w = fix3(w, GEO);
            if is_zero(&w) {
                nzv3(src, GEO)
            } else {
                w
            }
        }
        _ => nzv3(src, GEO),
    };
    let k = logu(src, 1e-3, 1e3);
    let kd = fix3(mulv(&d, k), GEO);
    let f = far(src, 100);
    let (d, kd) = (d.map(|x| x * f), kd.map(|x| x * f));
    c.show("direction", || format!("{:?}", d));
    c.nontrivial = d.iter().filter(|x| **x != 0.0).count() >= 2 && (kind == 2 || kind == 4 || kind == 6);
    for (nm, d) in [("direction", d), ("scaled direction", kd)] {
        if is_zero(&d) {
            continue;
        }
        let r = s.get_support(&m3(&d));
        if kind == 1 || kind == 3 {
            req!(r.is_none(), "an unbounded shape has the support point {:?}", r);
            continue;
        }
        let r = match r {
            Some(r) => a3(&r),
            None => return Err(format!("no support point for the non-zero {} {:?}", nm, d)),
        };
        let dv = V::of(d);
        let d1 = d[0].abs() + d[1].abs() + d[2].abs();
        match &g {
            G::Point(p) => req!(r == *p, "support point of the point {:?} is {:?}", p, r),
            G::Sphere(o, rad) => {
                let u = dv.unit().f();
                for i in 0..3 {
                    near(r[i], o[i] + rad * u[i], 16.0 * EPS * (o[i].abs() + rad), || format!("support point of the sphere in {} {:?}, component {}", nm, d, i))?;
                }
            }
            G::Cube(o, h) => {
                let t = 4.0 * EPS * (maxabs(o) + h);
                for i in 0..3 {
                    req!((r[i] - o[i]).abs() <= h + t, "support point {:?} is outside the cube", r);
                }
                let want = (V::of(*o).dot(dv) + D::new(*h) * D::new(d1)).f();
                let got = V::of(r).dot(dv).f();
                req!(got >= want - 16.0 * EPS * (maxabs(o) + h) * d1, "the cube reaches {:e} in {} {:?}, its support point {:?} only {:e}", want, nm, d, r, got);
            }
            G::Prism(v, h) => {
                let p = prism(v, *h).ok_or("HARNESS: prism")?;
                let band = p.band(&r);
                let m = p.dist(V::of(r)).iter().cloned().fold(f64::MIN, f64::max);
                req!(m <= 2.0 * band, "support point {:?} is outside the prism by {:e}", r, m);
                let want = (0..6).map(|i| if i < 3 { p.v[i] } else { p.top[i - 3] }.dot(dv).f()).fold(f64::MIN, f64::max);
                let got = V::of(r).dot(dv).f();
                let t = 32.0 * EPS * (p.kappa * h + p.cmax + h) * d1;
                req!(got >= want - t, "the prism reaches {:e} in {} {:?}, its support point {:?} only {:e}", want, nm, d, r, got);
            }
            _ => {}
        }
    }
    Ok(())
}
fn s02(src: &mut Src, c: &mut Case) -> Res {
    let kind = src.below(7) as usize;
    c.class(KINDS[kind]);
    let g = gen_shape(src, kind, GEO).scaled(far(src, 60), far(src, 100));
    c.show("shape", || g.show());
    let s = g.build();
    req!(kind_of(&s.get_type()) == kind, "the shape's kind is reported as number {}", kind_of(&s.get_type()));
    let d = s.get_shape_data();
    let mut want: Vec<(f64, f64)> = vec![];
    let exact = |v: &[f64], w: &mut Vec<(f64, f64)>| v.iter().for_each(|x| w.push((*x, 0.0)));
    let unitd = |v: &[f64; 3], w: &mut Vec<(f64, f64)>| V::of(*v).unit().f().iter().for_each(|x| w.push((*x, 12.0 * EPS * x.abs())));
    match &g {
        G::Point(p) => exact(p, &mut want),
        G::Ray(o, v) | G::Plane(o, v) => {
            exact(o, &mut want);
            unitd(v, &mut want);
        }
        G::Sphere(o, r) | G::Cube(o, r) => {
            exact(o, &mut want);
            want.push((*r, 0.0));
        }
        G::Segment(a, b) => {
            exact(a, &mut want);
            exact(b, &mut want);
        }
        G::Prism(v, h) => {
            exact(v, &mut want);
            let p = prism(v, *h).ok_or("HARNESS: prism")?;
            for x in p.hn.f() {
                want.push((x, 32.0 * EPS * p.kappa * h));
            }
            let t = mazth::triprism::TriPrism::init(v, *h);
            for q in 0..3 {
                for x in 0..3 {
                    req!(t._tri_base[q][x] == v[3 * q + x], "base vertex {} of the prism is {:?}", q, t._tri_base[q]);
                    let w = p.top[q].f()[x];
                    near(t._tri_base2[q][x], w, 32.0 * EPS * p.kappa * h + 4.0 * EPS * (p.cmax + h), || format!("vertex {} of the second face, component {}", q, x))?;
                }
            }
        }
    }
    c.nontrivial = want.iter().any(|x| x.0 != want[0].0);
    req!(d.len() == want.len(), "{} numbers reported, expected {}", d.len(), want.len());
    for (i, (w, t)) in want.iter().enumerate() {
        near(d[i], *w, *t, || format!("reported number {}", i))?;
    }
    Ok(())
}
fn snapshot(s: &dyn IShape) -> Vec<u64> {
    let mut v: Vec<u64> = s.get_shape_data().iter().map(|x| x.to_bits()).collect();
    v.extend(s.get_bound().get_bound_data().iter().map(|x| x.to_bits()));
    v
}
fn v01(src: &mut Src, c: &mut Case) -> Res {
    let (ka, kb) = (src.below(7) as usize, src.below(7) as usize);
    c.class(KINDS[ka]);
    let ga = gen_shape(src, ka, MID);
    let gb = gen_shape(src, kb, MID);
    c.show("shape a", || ga.show());
    c.show("shape b", || gb.show());
    let mut sh = [ga.build(), gb.build()];
    let snap = [snapshot(&*sh[0]), snapshot(&*sh[1])];
    let mut tol = [1e-6f64, 1e-6];
    let steps = 1 + if src.below(64) == 63 { src.below(300) } else { src.below(8) };
    let mut sets = 0;
    for step in 0..steps {
        c.steps += 1;
        if src.bool() {
            let i = src.below(2) as usize;
            let e = match src.below(6) {
                0 => 0.0,
                1 => zigzag(src, 9),
                2 => sign(src) * logu(src, 1e-9, 1e3),
                3 => dict(src, false),
                4 => -tol[i],
                _ => num(src, MID),
            };
            sh[i].set_vicinity(e);
            tol[i] = e.abs();
            sets += 1;
            c.show("step", || format!("{}: tolerance of {} := {:e}", step, ["a", "b"][i], e));
        }
        for i in 0..2 {
            let t = tol[i];
            let exact = src.below(3) == 0 && t.fract() == 0.0 && t < 1e6;
            let x = if exact {
                zigzag(src, 41)
            } else if src.below(4) == 3 {
                num(src, Dom::new(1e-12, 1e12))
            } else {
                num(src, GEO)
            };
            let del = match src.below(6) {
                0 => 0.0,
                1 | 2 => t,
                3 => t * (1.0 + gap(src)),
                4 => t + positive(src, MID),
                _ => t * unit(src),
            };
            let del = if exact { del.round() } else { del };
            let y = x + sign(src) * del;
            let diff = (D::new(x) - D::new(y)).abs().f();
            let band = if exact { 0.0 } else { 4.0 * EPS * (x.abs() + y.abs() + t) };
            let got = sh[i].within_vicinity(x, y);
            c.show("compare", || format!("{}: {:e} and {:e} (tolerance {:e}) -> {}", ["a", "b"][i], x, y, t, got));
            let want = if diff <= t - band || diff == 0.0 {
                true
            } else if diff > t + band {
                false
            } else {
                c.class("within the rounding band");
                continue;
            };
            c.class(if want { "within" } else { "apart" });
            req!(got == want, "{:e} and {:e} within {:e} (shape {}): {}, expected {}", x, y, t, ["a", "b"][i], got, want);
        }
        for i in 0..2 {
            req!(snapshot(&*sh[i]) == snap[i], "setting a tolerance changed the data or the bound of shape {}", ["a", "b"][i]);
        }
    }
    c.nontrivial = sets >= 2;
    Ok(())
}
