//! Q01..Q08: quaternions.
use super::{near, Prop};
use crate::dd::{D, V};
use crate::engine::{Case, Res, Src};
use crate::gens::*;
use crate::req;
use crate::types::*;
use mazth::quat::Quat;
use std::f64::consts::PI;

pub fn list(v: &mut Vec<Prop>) {
    v.push(Prop { id: "Q01", f: q01, quick: 60_000_000, rule: "one case = two quaternions and a scalar, all arithmetic; non-trivial = both have at least two non-zero components" });
    v.push(Prop { id: "Q02", f: q02, quick: 50_000_000, rule: "one case = components, a vector part, an axis and an angle for every constructor; non-trivial = the axis is not along a coordinate axis or the angle is not a multiple of a quarter turn" });
    v.push(Prop { id: "Q03", f: q03, quick: 40_000_000, rule: "one case = one or two axis-angle rotations and a vector; non-trivial = the vector is non-zero and not along the axis, and the rotation is not the identity" });
    v.push(Prop { id: "Q04", f: q04, quick: 48_000_000, rule: "one case = a unit quaternion, an arbitrary quaternion, a vector, both layouts; non-trivial = the unit quaternion has at least two non-zero components and the vector is not zero" });
    v.push(Prop { id: "Q05", f: q05, quick: 64_000_000, rule: "one case = a unit quaternion (from axis-angle, products, q times its inverse, within rounding of the identity); non-trivial = not exactly the identity or its negative" });
    v.push(Prop { id: "Q06", f: q06, quick: 64_000_000, rule: "one case = a unit normal and a vector; non-trivial = the vector is neither parallel to the normal nor orthogonal to it" });
    v.push(Prop { id: "Q07", f: q07, quick: 40_000_000, rule: "one case = a quaternion of length 1e-3..1e3 and an exponent; non-trivial = not a unit quaternion or the exponent is not 0 or 1" });
    v.push(Prop { id: "Q08", f: q08, quick: 48_000_000, rule: "one case = two unit quaternions and a fraction; non-trivial = the quaternions are not parallel and the fraction is strictly between 0 and 1" });
}
macro_rules! pick_q {
    ($src:expr, $f:ident ( $($a:expr),* )) => {
        match $src.below(3) { 0 | 1 => $f::<Quat<f64>>($($a),*), _ => $f::<Quat<f32>>($($a),*) }
    };
}
fn nz(q: &[f64]) -> usize {
    q.iter().filter(|x| **x != 0.0).count()
}
fn hamilton(a: &Q4, b: &Q4) -> [(f64, f64); 4] {
    let p = |x: f64, y: f64| D::new(x) * D::new(y);
    let (ax, ay, az, aw) = (a[0], a[1], a[2], a[3]);
    let (bx, by, bz, bw) = (b[0], b[1], b[2], b[3]);
    let rows = [
        [p(aw, bx), p(ax, bw), p(ay, bz), -p(az, by)],
        [p(aw, by), -p(ax, bz), p(ay, bw), p(az, bx)],
        [p(aw, bz), p(ax, by), -p(ay, bx), p(az, bw)],
        [p(aw, bw), -p(ax, bx), -p(ay, by), -p(az, bz)],
    ];
    rows.map(|r| {
        let s = (r[0] + r[1]) + (r[2] + r[3]);
        (s.f(), r.iter().map(|x| x.f().abs()).sum())
    })
}
const CN: [&str; 4] = ["x", "y", "z", "w"];
fn comps<F: Fn(usize) -> (f64, f64)>(name: &str, got: &Q4, f: F) -> Res {
    for i in 0..4 {
        let (w, tol) = f(i);
        near(got[i], w, tol, || format!("{}, component {}", name, CN[i]))?;
    }
    Ok(())
}
fn q01(src: &mut Src, c: &mut Case) -> Res {
    pick_q!(src, q01t(src, c))
}
fn quat_any<Q: QuatT>(src: &mut Src, d: Dom) -> Q4 {
    let v = vecn(src, 4, d);
    Q::mk(&v).g()
}
fn q01t<Q: QuatT>(src: &mut Src, c: &mut Case) -> Res {
    let e = Q::T::EPS;
    let d = if !Q::T::SINGLE && src.below(6) == 5 { Dom::new(1e-60, 1e60) } else { Dom::new(1e-6, 1e6).prec(Q::T::SINGLE) };
    let ga = quat_any::<Q>(src, d);
    let gb = Q::mk(&related(src, &ga, 4, d)).g();
    let k = Q::T::of(num(src, d)).f();
    c.class(Q::NAME);
    c.show("precision", || Q::NAME.into());
    c.show("a (x,y,z,w)", || format!("{:?}", ga));
    c.show("b (x,y,z,w)", || format!("{:?}", gb));
    c.show("scalar", || format!("{:e}", k));
    c.nontrivial = nz(&ga) >= 2 && nz(&gb) >= 2;
    let (a, b) = (Q::mk(&ga), Q::mk(&gb));
    let h = hamilton(&ga, &gb);
    comps("product a*b", &a.mul_(b).g(), |i| (h[i].0, 8.0 * e * h[i].1))?;
    comps("sum", &a.add_(b).g(), |i| (ga[i] + gb[i], 2.0 * e * (ga[i] + gb[i]).abs()))?;
    comps("difference", &a.minus_(b).g(), |i| (ga[i] - gb[i], 2.0 * e * (ga[i] - gb[i]).abs()))?;
    comps("negation", &a.neg().g(), |i| (-ga[i], 0.0))?;
    comps("conjugate", &a.conj().g(), |i| (if i < 3 { -ga[i] } else { ga[i] }, 0.0))?;
    comps("scaling", &a.scale_(k).g(), |i| (ga[i] * k, 2.0 * e * (ga[i] * k).abs()))?;
    let mut s = D::new(0.0);
    for x in &ga {
        s = s + D::new(*x).sq();
    }
    let l2 = s.f();
    near(a.len2(), l2, 8.0 * e * l2, || "squared length".into())?;
    let l = s.sqrt().f();
    near(a.len(), l, 8.0 * e * l, || "length".into())?;
    if l2 > 0.0 {
        let inv = a.inv();
        comps("inverse", &inv.g(), |i| {
            let w = if i < 3 { -ga[i] } else { ga[i] } / l2;
            (w, 16.0 * e * w.abs())
        })?;
        comps("a * inverse(a)", &a.mul_(inv).g(), |i| (if i == 3 { 1.0 } else { 0.0 }, 32.0 * e))?;
        comps("inverse(a) * a", &inv.mul_(a).g(), |i| (if i == 3 { 1.0 } else { 0.0 }, 32.0 * e))?;
    }
    req!(a.g() == ga && b.g() == gb, "an operand was changed");
    Ok(())
}

fn axis_angle_ref(ax: &[f64; 3], half: f64) -> Q4 {
    let u = unitv(ax);
    let (s, co) = half.sin_cos();
    [u[0] * s, u[1] * s, u[2] * s, co]
}
fn axis_dom(single: bool) -> Dom {
    Dom::new(1e-3, 500.0).prec(single)
}
fn far_t(single: bool) -> u64 {
    if single {
        40
    } else {
        200
    }
}
fn axis_far<Q: QuatT>(src: &mut Src) -> [f64; 3] {
    let ax = axis(src, axis_dom(Q::T::SINGLE)).map(|x| Q::T::of(x).f());
    let k = far(src, far_t(Q::T::SINGLE));
    ax.map(|x| x * k)
}
/// angles up to four turns, now and then many thousands
fn angle_far<Q: QuatT>(src: &mut Src) -> f64 {
    let a = angle(src);
    let a = if src.below(12) == 11 { sign(src) * logu(src, 1.0, 1e5) } else { a };
    Q::T::of(a).f()
}
fn q02(src: &mut Src, c: &mut Case) -> Res {
    pick_q!(src, q02t(src, c))
}
fn q02t<Q: QuatT>(src: &mut Src, c: &mut Case) -> Res {
    let sg = Q::T::SINGLE;
    let e = Q::T::EPS;
    let d = if !sg && src.below(6) == 5 { Dom::new(1e-60, 1e60) } else { Dom::new(1e-6, 1e6).prec(sg) };
    c.class(Q::NAME);
    c.show("precision", || Q::NAME.into());
    for (nm, q) in [("default", Q::dflt()), ("initial", Q::init_())] {
        req!(q.g() == [0.0, 0.0, 0.0, 1.0], "the {} quaternion is {:?}", nm, q.g());
    }
    let g = {
        let v = nzvecn(src, 4, d);
        let g = Q::mk(&v).g();
        for i in 0..4 {
            req!(g[i] == Q::T::of(v[i]).f(), "raw construction: component {} is {:e}, given {:e}", CN[i], g[i], Q::T::of(v[i]).f());
        }
        g
    };
    c.show("components", || format!("{:?}", g));
    let mut s = D::new(0.0);
    for x in &g {
        s = s + D::new(*x).sq();
    }
    let l = s.sqrt().f();
    comps("construction with normalisation", &Q::normalized(&g).g(), |i| (g[i] / l, 12.0 * e * (g[i] / l).abs()))?;
    comps("normalisation", &Q::mk(&g).norm_().g(), |i| (g[i] / l, 12.0 * e * (g[i] / l).abs()))?;
    // scalar part from vector part
    let v = {
        let u = unitv(&axis(src, Dom::new(1e-3, 1e3)));
        let r = match src.below(4) {
            0 => unit(src),
            1 => 1.0 - logu(src, 1e-9, 1.0),
            2 => logu(src, 1e-9, 1.0),
            _ => 0.6,
        };
        let mut v = mulv(&u, r * (1.0 - 4.0 * e));
        if src.below(8) == 0 {
            v = [[0.0, 0.0, 0.0], [0.6, 0.0, 0.0], [0.0, 0.6, 0.0], [0.0, 0.0, -0.6], [0.5, 0.5, 0.5], [0.0, -0.8, 0.0], [0.25, 0.25, 0.5], [1.0, 0.0, 0.0]][src.below(8) as usize];
        }
        v.map(|x| Q::T::of(x).f())
    };
    c.show("vector part", || format!("{:?}", v));
    let n2 = V::of(v).dot(V::of(v));
    if n2.f() <= 1.0 {
        let q = Q::auto_w(&v).g();
        let w = (D::new(1.0) - n2).sqrt().f();
        let tol = (8.0 * e).sqrt().min(8.0 * e / w.max(1e-300)) + 4.0 * e;
        for i in 0..3 {
            req!(q[i] == v[i], "derived scalar part: vector component {} changed from {:e} to {:e}", CN[i], v[i], q[i]);
        }
        near(q[3], -w, tol, || "derived scalar part".into())?;
        req!(q[3] <= 0.0, "derived scalar part is positive: {:e}", q[3]);
    }
    let t: [f64; 3] = v3(src, d).map(|x| Q::T::of(x).f());
    c.show("translation", || format!("{:?}", t));
    comps("translation", &Q::from_translation(&t).g(), |i| (if i < 3 { t[i] / 2.0 } else { 0.0 }, if i < 3 { 2.0 * e * t[i].abs() } else { 0.0 }))?;
    let ax = axis_far::<Q>(src);
    let a = angle_far::<Q>(src);
    c.show("axis", || format!("{:?}", ax));
    c.show("angle (rad)", || format!("{:e}", a));
    let h = axis_angle_ref(&ax, a / 2.0);
    let tol = e * (12.0 + 4.0 * a.abs());
    comps("axis and angle in radians", &Q::aa_rad(&ax, a).g(), |i| (h[i], tol))?;
    let deg = Q::T::of(match src.below(4) {
        0 => zigzag(src, 33) * 45.0,
        1 => zigzag(src, 2881),
        _ => a * 180.0 / PI,
    })
    .f();
    c.show("angle (deg)", || format!("{:e}", deg));
    let h = axis_angle_ref(&ax, deg / 360.0 * PI);
    let tol = e * (12.0 + 4.0 * (deg / 57.0).abs());
    comps("axis and angle in degrees", &Q::aa_deg(&ax, deg).g(), |i| (h[i], tol))?;
    let g2 = Q::mk(&vecn(src, 4, d)).g();
    let (r, tr) = Q::dual(Q::mk(&g), Q::mk(&g2));
    req!(r == g && tr == g2, "dual quaternion of {:?} and {:?} holds {:?} and {:?}", g, g2, r, tr);
    c.nontrivial = nz(&ax) >= 2 || (a / (PI / 2.0)).fract().abs() > 1e-6;
    Ok(())
}

/// Rodrigues
fn rodrigues(ax: &[f64; 3], a: f64, v: &[f64; 3]) -> [f64; 3] {
    let u = unitv(ax);
    let (s, co) = a.sin_cos();
    let k = cross(&u, v);
    // 1-cos without cancellation
    let h = (a / 2.0).sin();
    let m = 2.0 * h * h;
    let uv = dot(&u, v);
    std::array::from_fn(|i| v[i] * co + k[i] * s + u[i] * uv * m)
}
fn rot_vec(src: &mut Src, single: bool, ax: &[f64; 3]) -> [f64; 3] {
    let d = Dom::new(1e-3, 1e3).prec(single);
    let v = match src.below(8) {
        0 => fix3(mulv(&unitv(ax), sign(src) * logu(src, 0.1, 100.0)), d),
        1 => {
            let u = unitv(ax);
            fix3(mulv(&perp(src, &u), logu(src, 0.1, 100.0)), d)
        }
        _ => v3(src, d),
    };
    let k = far(src, far_t(single));
    if single {
        v.map(|x| x as f32 as f64 * k)
    } else {
        v.map(|x| x * k)
    }
}
fn vec_near(name: &str, got: &[f64; 3], want: &[f64; 3], tol: f64) -> Res {
    for i in 0..3 {
        near(got[i], want[i], tol, || format!("{}, component {}", name, CN[i]))?;
    }
    Ok(())
}
fn q03(src: &mut Src, c: &mut Case) -> Res {
    pick_q!(src, q03t(src, c))
}
fn q03t<Q: QuatT>(src: &mut Src, c: &mut Case) -> Res {
    let sg = Q::T::SINGLE;
    let e = Q::T::EPS;
    c.class(Q::NAME);
    c.show("precision", || Q::NAME.into());
    let ax = axis_far::<Q>(src);
    let a = angle_far::<Q>(src);
    let v = rot_vec(src, sg, &ax);
    c.show("axis", || format!("{:?}", ax));
    c.show("angle (rad)", || format!("{:e}", a));
    c.show("vector", || format!("{:?}", v));
    let l = norm(&v);
    let u = unitv(&ax);
    let off = norm(&cross(&u, &v));
    c.nontrivial = l > 0.0 && off > 1e-3 * l && (a / 2.0).sin().abs() > 1e-6;
    let q = Q::aa_rad(&ax, a);
    let tol = e * (64.0 + 8.0 * a.abs()) * l;
    let w = rodrigues(&ax, a, &v);
    let r = q.rotate(&v);
    vec_near("rotated vector", &r, &w, tol)?;
    vec_near("rotation by -q", &q.neg().rotate(&v), &w, tol)?;
    vec_near("rotation by q undone by its conjugate", &q.conj().rotate(&r), &v, 2.0 * tol)?;
    // length and dot product are preserved
    let v2 = rot_vec(src, sg, &ax);
    let r2 = q.rotate(&v2);
    near(norm(&r), l, 2.0 * tol, || "length after rotation".into())?;
    near(dot(&r, &r2), dot(&v, &v2), 4.0 * e * (64.0 + 8.0 * a.abs()) * l * norm(&v2), || "dot product after rotation".into())?;
    if src.bool() {
        let ax2 = axis_far::<Q>(src);
        let a2 = angle_far::<Q>(src);
        c.class("product of two rotations");
        c.show("second axis", || format!("{:?}", ax2));
        c.show("second angle (rad)", || format!("{:e}", a2));
        let p = Q::aa_rad(&ax2, a2);
        let w = rodrigues(&ax2, a2, &w);
        let tol = e * (128.0 + 8.0 * (a.abs() + a2.abs())) * l;
        vec_near("rotation by the product p*q", &p.mul_(q).rotate(&v), &w, tol)?;
    }
    Ok(())
}

/// a unit quaternion of the type, rounded
fn unit_quat<Q: QuatT>(src: &mut Src, c: &mut Case) -> Q4 {
    let d = Dom::new(1e-3, 1e3);
    match src.below(7) {
        0 => {
            let ax = axis(src, d);
            Q::mk(&axis_angle_ref(&ax, angle(src) / 2.0)).g()
        }
        1 | 2 => {
            let v = nzvecn(src, 4, d);
            let m = v.iter().fold(0.0f64, |m, x| m.max(x.abs()));
            let w: Q4 = v.map(|x| x / m);
            let l = w.iter().map(|x| x * x).sum::<f64>().sqrt();
            Q::mk(&w.map(|x| x / l)).g()
        }
        3 => {
            let ax = axis(src, d);
            c.class("small angle");
            Q::mk(&axis_angle_ref(&ax, logu(src, 1e-12, 1e-1))).g()
        }
        4 => {
            // exact ones
            let s = sign(src);
            let i = src.below(4) as usize;
            let mut q = [0.0; 4];
            q[i] = s;
            if src.bool() {
                q = [0.5, 0.5, 0.5, 0.5].map(|x| x * sign(src));
            } else if src.bool() {
                let j = (i + 1 + src.below(3) as usize) % 4;
                q[i] = 0.6 * s;
                q[j] = 0.8 * sign(src);
            }
            Q::mk(&q).g()
        }
        _ => {
            let v = [0.0; 4].map(|_: f64| 2.0 * unit(src) - 1.0);
            let l = v.iter().map(|x| x * x).sum::<f64>().sqrt();
            if l < 1e-3 {
                [0.0, 0.0, 0.0, 1.0]
            } else {
                Q::mk(&v.map(|x| x / l)).g()
            }
        }
    }
}
fn rot_of(q: &Q4) -> [[f64; 3]; 3] {
    // exact on the given components, assuming unit length
    let p = |x: f64, y: f64| D::new(x) * D::new(y);
    let (x, y, z, w) = (q[0], q[1], q[2], q[3]);
    let one = D::new(1.0);
    let two = D::new(2.0);
    [
        [one - two * (p(y, y) + p(z, z)), two * (p(x, y) - p(z, w)), two * (p(x, z) + p(y, w))].map(|d| d.f()),
        [two * (p(x, y) + p(z, w)), one - two * (p(x, x) + p(z, z)), two * (p(y, z) - p(x, w))].map(|d| d.f()),
        [two * (p(x, z) - p(y, w)), two * (p(y, z) + p(x, w)), one - two * (p(x, x) + p(y, y))].map(|d| d.f()),
    ]
}
fn q04(src: &mut Src, c: &mut Case) -> Res {
    pick_q!(src, q04t(src, c))
}
fn q04t<Q: QuatT>(src: &mut Src, c: &mut Case) -> Res {
    let sg = Q::T::SINGLE;
    let e = Q::T::EPS;
    c.class(Q::NAME);
    c.show("precision", || Q::NAME.into());
    let g = unit_quat::<Q>(src, c);
    let v = rot_vec(src, sg, &[1.0, 0.0, 0.0]);
    c.show("unit quaternion", || format!("{:?}", g));
    c.show("vector", || format!("{:?}", v));
    c.nontrivial = nz(&g) >= 2 && !is_zero(&v);
    let q = Q::mk(&g);
    let want = rot_of(&g);
    let l = norm(&v);
    let r = q.rotate(&v);
    for rm in [true, false] {
        let nm = if rm { "row-major" } else { "column-major" };
        let m = q.rot_m(rm);
        req!(m.row_major() == rm, "{} rotation matrix requested, layout flag says row-major {}", nm, m.row_major());
        for i in 0..4 {
            for j in 0..4 {
                let x = m.at(i, j).f();
                if i < 3 && j < 3 {
                    near(x, want[i][j], 16.0 * e, || format!("{} rotation matrix entry ({},{})", nm, i, j))?;
                } else {
                    let w = if i == j { 1.0 } else { 0.0 };
                    req!(x == w, "{} rotation matrix entry ({},{}) is {:e}", nm, i, j, x);
                }
            }
        }
        // orthonormal, right-handed
        let row = |i: usize| [m.at(i, 0).f(), m.at(i, 1).f(), m.at(i, 2).f()];
        for i in 0..3 {
            for j in 0..3 {
                near(dot(&row(i), &row(j)), if i == j { 1.0 } else { 0.0 }, 64.0 * e, || format!("{} rotation matrix: row {} dot row {}", nm, i, j))?;
            }
        }
        near(dot(&cross(&row(0), &row(1)), &row(2)), 1.0, 64.0 * e, || format!("{} rotation matrix: determinant", nm))?;
        let p = m.mul_col(&[v[0], v[1], v[2], 1.0]).ok_or("matrix times column returned nothing")?;
        vec_near(&format!("vector moved by the {} rotation matrix, against the quaternion", nm), &[p[0], p[1], p[2]], &r, 64.0 * e * l)?;
        near(p[3], 1.0, 4.0 * e, || "homogeneous component".into())?;
    }
    // translation matrix of any quaternion
    let d = if !sg && src.below(6) == 5 { Dom::new(1e-60, 1e60) } else { Dom::new(1e-6, 1e6).prec(sg) };
    let t = quat_any::<Q>(src, d);
    c.show("translation quaternion", || format!("{:?}", t));
    let q = Q::mk(&t);
    for rm in [true, false] {
        let nm = if rm { "row-major" } else { "column-major" };
        let m = q.trans_m(rm);
        req!(m.row_major() == rm, "{} translation matrix requested, layout flag says row-major {}", nm, m.row_major());
        for i in 0..4 {
            for j in 0..4 {
                let w = if i == j {
                    1.0
                } else if j == 3 {
                    t[i]
                } else {
                    0.0
                };
                req!(m.at(i, j).f() == w, "{} translation matrix entry ({},{}) is {:?}, expected {:e}", nm, i, j, m.at(i, j), w);
            }
        }
        let p = m.mul_col(&[v[0], v[1], v[2], 1.0]).ok_or("matrix times column returned nothing")?;
        for i in 0..3 {
            near(p[i], v[i] + t[i], 8.0 * e * (v[i].abs() + t[i].abs()), || format!("point moved by the {} translation matrix, component {}", nm, i))?;
        }
    }
    Ok(())
}

fn q05(src: &mut Src, c: &mut Case) -> Res {
    pick_q!(src, q05t(src, c))
}
fn q05t<Q: QuatT>(src: &mut Src, c: &mut Case) -> Res {
    let e = Q::T::EPS;
    let sg = Q::T::SINGLE;
    c.class(Q::NAME);
    c.show("precision", || Q::NAME.into());
    let mut given: Option<([f64; 3], f64)> = None;
    let q = match src.below(8) {
        0 | 1 => {
            let ax: [f64; 3] = axis(src, axis_dom(sg)).map(|x| Q::T::of(x).f());
            let a = match src.below(3) {
                0 => 0.01 + 6.26 * unit(src),
                1 => 2.0 * PI * src.below(24) as f64 / 24.0,
                _ => {
                    let x = logu(src, 0.01, 3.0);
                    if src.bool() {
                        x
                    } else {
                        2.0 * PI - x
                    }
                }
            };
            let a = Q::T::of(a).f();
            if a >= 0.0101 && a <= 6.269 {
                given = Some((ax, a));
                c.class("axis-angle round trip");
            }
            c.show("axis", || format!("{:?}", ax));
            c.show("angle", || format!("{:e}", a));
            Q::aa_rad(&ax, a)
        }
        2 | 3 => {
            // q times its inverse, within rounding of the identity, or of its negative
            let g = unit_quat::<Q>(src, c);
            c.class("q times inverse(q)");
            let q = Q::mk(&g);
            let p = if src.bool() { q.mul_(q.inv()) } else { q.mul_(q.conj()) };
            if src.bool() {
                p
            } else {
                p.neg()
            }
        }
        4 => {
            let mut q = Q::mk(&unit_quat::<Q>(src, c));
            c.class("product");
            for _ in 0..1 + src.below(4) {
                q = q.mul_(Q::mk(&unit_quat::<Q>(src, c)));
            }
            q
        }
        5 => {
            // a few ulp around +-1
            let k = src.below(9) as f64 - 4.0;
            let w = (1.0 + k * e) * sign(src);
            let i = src.below(3) as usize;
            let mut g = [0.0, 0.0, 0.0, w];
            if src.bool() {
                g[i] = sign(src) * logu(src, 1e-12, 1e-6);
            }
            c.class("scalar part within ulps of one");
            Q::mk(&g)
        }
        _ => Q::mk(&unit_quat::<Q>(src, c)),
    };
    let g = q.g();
    c.show("quaternion", || format!("{:?}", g));
    // components must be a unit quaternion up to a few roundings
    let vl = (g[0] * g[0] + g[1] * g[1] + g[2] * g[2]).sqrt();
    let l = (vl * vl + g[3] * g[3]).sqrt();
    if (l - 1.0).abs() > 16.0 * e {
        c.class("not unit (skipped)");
        return Ok(());
    }
    c.nontrivial = vl != 0.0;
    let (ax, a) = q.to_aa();
    let al = norm(&ax);
    req!(al.is_finite() && a.is_finite(), "axis {:?} angle {:e} is not finite", ax, a);
    near(al, 1.0, 8.0 * e, || "length of the axis".into())?;
    req!(a >= 0.0 && a <= 2.0 * PI * (1.0 + 2.0 * e), "angle {:e} is not within [0, 2 pi]", a);
    // same rotation: quaternion of (axis, angle) equals +-g
    let h = axis_angle_ref(&ax, a / 2.0);
    let k = vl.max(1e-300);
    let tol = 16.0 * e + (8.0 * e.sqrt()).max(2e-6).min(48.0 * e / k + if k < 2e-6 { 1.0 } else { 0.0 });
    let dp = (0..4).fold(0.0f64, |m, i| m.max((h[i] - g[i]).abs()));
    let dm = (0..4).fold(0.0f64, |m, i| m.max((h[i] + g[i]).abs()));
    req!(dp <= tol || dm <= tol, "axis {:?} angle {:e} describes the quaternion {:?}, not {:?} (tolerance {:.1e})", ax, a, h, g, tol);
    if let Some((ax0, a0)) = given {
        let u = unitv(&ax0);
        let s = (a0 / 2.0).sin().abs();
        vec_near("recovered axis", &ax, &u, 32.0 * e / s)?;
        near(a, a0, 64.0 * e / s, || "recovered angle".into())?;
    }
    Ok(())
}

fn q06(src: &mut Src, c: &mut Case) -> Res {
    pick_q!(src, q06t(src, c))
}
fn q06t<Q: QuatT>(src: &mut Src, c: &mut Case) -> Res {
    let e = Q::T::EPS;
    c.class(Q::NAME);
    c.show("precision", || Q::NAME.into());
    let n: [f64; 3] = unitv(&axis(src, Dom::new(1e-3, 1e3))).map(|x| Q::T::of(x).f());
    let p = rot_vec(src, Q::T::SINGLE, &n);
    c.show("normal", || format!("{:?}", n));
    c.show("vector", || format!("{:?}", p));
    let q = Q::mk(&[n[0], n[1], n[2], 0.0]);
    let np = dot(&n, &p);
    let l = norm(&p);
    let tol = 32.0 * e * l;
    c.nontrivial = np.abs() > 1e-6 * l && norm(&cross(&n, &p)) > 1e-6 * l;
    let (re, pa, or) = (q.reflect(&p), q.par(&p), q.orth(&p));
    vec_near("reflection", &re, &std::array::from_fn(|i| p[i] - 2.0 * np * n[i]), tol)?;
    vec_near("component orthogonal to the plane", &or, &std::array::from_fn(|i| np * n[i]), tol)?;
    vec_near("component parallel to the plane", &pa, &std::array::from_fn(|i| p[i] - np * n[i]), tol)?;
    vec_near("sum of the components", &add(&pa, &or), &p, tol)?;
    near(dot(&pa, &n), 0.0, tol, || "parallel component along the normal".into())?;
    vec_near("reflection of the reflection", &q.reflect(&re), &p, 2.0 * tol)?;
    Ok(())
}

fn q07(src: &mut Src, c: &mut Case) -> Res {
    pick_q!(src, q07t(src, c))
}
fn q07t<Q: QuatT>(src: &mut Src, c: &mut Case) -> Res {
    let e = Q::T::EPS;
    c.class(Q::NAME);
    c.show("precision", || Q::NAME.into());
    let u = unit_quat::<Q>(src, c);
    let s = match src.below(4) {
        0 => 1.0,
        1 => {
            let x = dict(src, false).abs();
            if x >= 1e-3 && x <= 1e3 {
                x
            } else {
                2.0
            }
        }
        _ => logu(src, 1e-3, 1e3),
    };
    let g = Q::mk(&u.map(|x| x * s)).g();
    let t = Q::T::of(match src.below(5) {
        4 => {
            // large exponents as far as the length stays well within the range of the type
            let most = if Q::T::SINGLE { 40.0 } else { 300.0 } / s.ln().abs().max(0.25);
            let x = if src.bool() { zigzag(src, 401) } else { sign(src) * logu(src, 3.0, 200.0) };
            if x.abs() < most {
                x
            } else {
                x % most
            }
        }
        0 => zigzag(src, 7),
        1 => zigzag(src, 25) / 4.0,
        2 => {
            let x = dict(src, false);
            if x.abs() <= 3.0 {
                x
            } else {
                0.5
            }
        }
        _ => 3.0 * (2.0 * unit(src) - 1.0),
    })
    .f();
    c.show("quaternion", || format!("{:?}", g));
    c.show("exponent", || format!("{:e}", t));
    let vl = V::of([g[0], g[1], g[2]]).len().f();
    let l = (vl * vl + g[3] * g[3]).sqrt();
    let sn = vl / l;
    let lim = if Q::T::SINGLE { 1e-2 } else { 1e-4 };
    if !(sn >= lim) || !(l >= 0.99e-3 && l <= 1.01e3) {
        c.class("negligible vector part (skipped)");
        return Ok(());
    }
    c.class(if g[3] < 0.0 { "negative scalar part" } else { "non-negative scalar part" });
    c.nontrivial = (l - 1.0).abs() > 1e-3 || (t != 0.0 && t != 1.0);
    let q = Q::mk(&g);
    let th = vl.atan2(g[3]);
    let lnl = l.ln();
    let dth = 16.0 * e / sn + 8.0 * e;
    let ln = q.ln_().g();
    near(ln[3], lnl, 8.0 * e * (1.0 + lnl.abs()), || "logarithm, scalar part".into())?;
    for i in 0..3 {
        near(ln[i], g[i] / vl * th, dth + 16.0 * e, || format!("logarithm, component {}", CN[i]))?;
    }
    let power = |q: &Q4, t: f64| -> (Q4, f64) {
        let vl = (q[0] * q[0] + q[1] * q[1] + q[2] * q[2]).sqrt();
        let l = (vl * vl + q[3] * q[3]).sqrt();
        let th = vl.atan2(q[3]);
        let m = l.powf(t);
        let (s, co) = (t * th).sin_cos();
        ([m * q[0] / vl * s, m * q[1] / vl * s, m * q[2] / vl * s, m * co], m * (32.0 * e * (1.0 + (t * l.ln()).abs()) + t.abs() * dth))
    };
    let (w, tol) = power(&g, t);
    comps("power", &q.pow_(t).g(), |i| (w[i], tol))?;
    let one = power(&g, 1.0).1;
    comps("power 1 against the quaternion", &q.pow_(1.0).g(), |i| (g[i], one))?;
    comps("power 0 against the identity", &q.pow_(0.0).g(), |i| (if i == 3 { 1.0 } else { 0.0 }, 32.0 * e))?;
    let sq = q.mul_(q).g();
    let tol = 2.0 * power(&g, 2.0).1;
    comps("power 2 against the square", &q.pow_(2.0).g(), |i| (sq[i], tol))?;
    let inv = q.inv().g();
    let tol = 2.0 * power(&g, -1.0).1;
    comps("power -1 against the inverse", &q.pow_(-1.0).g(), |i| (inv[i], tol))?;
    Ok(())
}

fn q08(src: &mut Src, c: &mut Case) -> Res {
    pick_q!(src, q08t(src, c))
}
fn q08t<Q: QuatT>(src: &mut Src, c: &mut Case) -> Res {
    let e = Q::T::EPS;
    c.class(Q::NAME);
    c.show("precision", || Q::NAME.into());
    let a = unit_quat::<Q>(src, c);
    let b = match src.below(6) {
        0 => {
            // at a chosen angle from a on the sphere
            let v = nzvecn(src, 4, Dom::new(1e-3, 1e3));
            let k: f64 = (0..4).map(|i| v[i] * a[i]).sum();
            let w: Q4 = std::array::from_fn(|i| v[i] - k * a[i]);
            let l = w.iter().map(|x| x * x).sum::<f64>().sqrt();
            if l < 1e-2 {
                a
            } else {
                let om = match src.below(6) {
                    0 => PI / 2.0,
                    1 => PI / 2.0 + gap(src) * 1e-3,
                    2 => logu(src, 1e-6, 1.0),
                    3 => PI - logu(src, 1e-6, 1.0),
                    4 => dict(src, false).abs().min(1.0).acos(),
                    _ => PI * unit(src),
                };
                let (s, co) = om.sin_cos();
                Q::mk(&std::array::from_fn(|i| a[i] * co + w[i] / l * s)).g()
            }
        }
        1 => {
            let r = Q::mk(&related(src, &a, 4, Dom::new(1e-3, 1.0))).g();
            let l = r.iter().map(|x| x * x).sum::<f64>().sqrt();
            if l < 1e-2 {
                a
            } else {
                Q::mk(&r.map(|x| x / l)).g()
            }
        }
        _ => unit_quat::<Q>(src, c),
    };
    let t = Q::T::of(match src.below(6) {
        0 => 0.0,
        1 => 1.0,
        2 => [0.5, 0.25, 0.75, 0.125][src.below(4) as usize],
        3 => sign(src) * logu(src, 1e-6, 10.0),
        4 => dict(src, false),
        _ => unit(src),
    })
    .f();
    c.show("start", || format!("{:?}", a));
    c.show("end", || format!("{:?}", b));
    c.show("fraction", || format!("{:e}", t));
    let ct = t.max(0.0).min(1.0);
    c.class(if t < 0.0 {
        "fraction below 0"
    } else if t > 1.0 {
        "fraction above 1"
    } else {
        "fraction in [0,1]"
    });
    let (qa, qb) = (Q::mk(&a), Q::mk(&b));
    comps("linear interpolation", &Q::lerp(qa, qb, t).g(), |i| (a[i] * (1.0 - ct) + b[i] * ct, 4.0 * e * (a[i].abs() + b[i].abs())))?;
    let mut d = D::new(0.0);
    for i in 0..4 {
        d = d + D::new(a[i]) * D::new(b[i]);
    }
    let d = d.f();
    let r = Q::slerp(qa, qb, t).g();
    let sg = if d < 0.0 { -1.0 } else { 1.0 };
    if d.abs() <= 4.0 * e {
        // orthogonal up to rounding: either arc
        c.class("orthogonal");
        let om = PI / 2.0;
        // the arc is one and the same at every fraction
        let ts = [ct, 0.125, 0.25, 0.5, 0.75, 0.9375, unit(src)];
        let rs: Vec<Q4> = ts.iter().enumerate().map(|(n, t)| if n == 0 { r } else { Q::slerp(qa, qb, Q::T::of(*t).f()).g() }).collect();
        let ok = [1.0, -1.0].iter().any(|s| {
            ts.iter().zip(&rs).all(|(t, r)| {
                let t = Q::T::of(*t).f();
                let (k0, k1) = (((1.0 - t) * om).sin(), (t * om).sin());
                (0..4).all(|i| (r[i] - (a[i] * k0 + s * b[i] * k1)).abs() <= 128.0 * e)
            })
        });
        req!(ok, "slerp of orthogonal quaternions at the fractions {:?}: {:?}", ts, rs);
        c.nontrivial = ct > 0.0 && ct < 1.0;
        return Ok(());
    }
    let co = d.abs().min(1.0);
    let (k0, k1, tol);
    if co > 0.9998 {
        c.class("almost parallel");
        c.nontrivial = ct > 0.0 && ct < 1.0;
        // the straight path is as good, up to its length
        let (mut s2, mut c2) = (0.0, 0.0);
        for i in 0..4 {
            let (x, y) = (a[i] - sg * b[i], a[i] + sg * b[i]);
            s2 += x * x;
            c2 += y * y;
        }
        let om = 2.0 * s2.sqrt().atan2(c2.sqrt());
        if om < 1e-9 {
            k0 = 1.0 - ct;
            k1 = ct;
        } else {
            k0 = ((1.0 - ct) * om).sin() / om.sin();
            k1 = (ct * om).sin() / om.sin();
        }
        let l = r.iter().map(|x| x * x).sum::<f64>().sqrt();
        // the sine and the angle need not be rounded alike
        let len = |q: &Q4| (1.0 - q.iter().map(|x| x * x).sum::<f64>()).abs();
        let unit = len(&a) + len(&b);
        let slack = 64.0 * e + 2.0 * unit + if co > 0.9999 * (1.0 + 4.0 * e) { 0.0 } else { (6.0 * e / (om * om)).min(1e-4) };
        req!(l <= 1.0 + slack && l >= 1.0 - om * om / 8.0 * 1.01 - slack, "the length of the interpolated quaternion is {:e}", l);
        comps("the direction of the spherical interpolation", &r.map(|x| x / l), |i| (a[i] * k0 + sg * b[i] * k1, 2e-7 + 128.0 * e + 2.0 * unit))?;
        tol = 1e-4;
    } else {
        c.class(if d < 0.0 { "opposite hemispheres" } else { "same hemisphere" });
        c.nontrivial = ct > 0.0 && ct < 1.0;
        // angle between a and +-b, accurately
        let (mut s2, mut c2) = (0.0, 0.0);
        for i in 0..4 {
            let (x, y) = (a[i] - sg * b[i], a[i] + sg * b[i]);
            s2 += x * x;
            c2 += y * y;
        }
        let om = 2.0 * s2.sqrt().atan2(c2.sqrt());
        let s = om.sin();
        k0 = ((1.0 - ct) * om).sin() / s;
        k1 = (ct * om).sin() / s;
        // the lengths are one up to rounding only
        let len = |q: &Q4| (1.0 - q.iter().map(|x| x * x).sum::<f64>()).abs();
        tol = e * (64.0 + 6.0 / (s * s)) + 2.0 * (len(&a) + len(&b)) / (s * s);
    }
    comps("spherical interpolation", &r, |i| (a[i] * k0 + sg * b[i] * k1, tol))?;
    if ct == 0.0 || ct == 1.0 {
        c.class("end point");
        let w = if ct == 0.0 { a } else { b.map(|x| x * sg) };
        // an angle taken from the cosine is uncertain by that rounding over the sine
        let s2 = 1.0 - co * co;
        let lin = co > 0.9999 * (1.0 + 4.0 * e);
        let tol = if lin { 64.0 * e } else { e * (64.0 + 4.0 / s2) };
        comps("spherical interpolation at an end", &r, |i| (w[i], tol))?;
    }
    Ok(())
}
