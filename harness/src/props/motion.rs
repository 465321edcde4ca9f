//! Q09: histories of rigid motions, kept as quaternion and translation, as matrix, and in a reference.
use super::{near, Prop};
use crate::engine::{Case, Res, Src};
use crate::gens::*;
use crate::req;
use crate::types::*;
use mazth::quat::Quat;

pub fn list(v: &mut Vec<Prop>) {
    v.push(Prop { id: "Q09", f: q09, quick: 12_000_000,
        rule: "one case = a history of up to 12 rotations, double reflections, translations, inversions, squarings and representation changes; non-trivial = at least two rotations about different axes and a translation or an inversion" });
}
type R3 = [[f64; 3]; 3];
fn mulr(a: &R3, b: &R3) -> R3 {
    std::array::from_fn(|i| std::array::from_fn(|j| (0..3).map(|k| a[i][k] * b[k][j]).sum()))
}
fn app(a: &R3, v: &[f64; 3]) -> [f64; 3] {
    std::array::from_fn(|i| dot(&a[i], v))
}
fn tr(a: &R3) -> R3 {
    std::array::from_fn(|i| std::array::from_fn(|j| a[j][i]))
}
fn rot(ax: &[f64; 3], a: f64) -> R3 {
    let u = unitv(ax);
    let (s, co) = a.sin_cos();
    let h = (a / 2.0).sin();
    let m = 2.0 * h * h;
    let k = [[0.0, -u[2], u[1]], [u[2], 0.0, -u[0]], [-u[1], u[0], 0.0]];
    std::array::from_fn(|i| std::array::from_fn(|j| if i == j { co } else { 0.0 } + s * k[i][j] + m * u[i] * u[j]))
}
fn mirror(n: &[f64; 3]) -> R3 {
    std::array::from_fn(|i| std::array::from_fn(|j| if i == j { 1.0 } else { 0.0 } - 2.0 * n[i] * n[j]))
}
fn q09(src: &mut Src, c: &mut Case) -> Res {
    match src.below(3) {
        0 | 1 => q09t::<Quat<f64>>(src, c),
        _ => q09t::<Quat<f32>>(src, c),
    }
}
fn q09t<Q: QuatT>(src: &mut Src, c: &mut Case) -> Res {
    let e = Q::T::EPS;
    let sg = Q::T::SINGLE;
    let rd = |x: f64| Q::T::of(x).f();
    let dom = Dom::new(1e-3, 1e2).prec(sg);
    c.class(Q::NAME);
    c.show("precision", || Q::NAME.into());
    let mut lay = src.bool();
    let id = [1.0, 0.0, 0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0, 0.0, 1.0, 0.0, 0.0, 0.0, 0.0, 1.0];
    let mut q = if src.bool() { Q::init_() } else { Q::dflt() };
    let mut t = [0.0f64; 3];
    let mut m = if lay { Q::M::iden_() } else { <Q::M as MatT>::mk(&id, false) };
    lay = m.row_major();
    let (mut r, mut s): (R3, [f64; 3]) = ([[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]], [0.0; 3]);
    // allowances: relative for the rotation, absolute for the translation
    let (mut er, mut et) = (16.0 * e, 0.0f64);
    let pts: [[f64; 3]; 2] = [v3(src, dom).map(rd), v3(src, dom).map(rd)];
    c.show("points", || format!("{:?}", pts));
    let steps = 1 + if src.below(32) == 31 { src.below(40) } else { src.below(12) };
    let mut axes: Vec<[f64; 3]> = vec![];
    let (mut moved, mut inverted) = (false, false);
    for step in 0..steps {
        c.steps += 1;
        match src.below(12) {
            0..=3 => {
                let ax: [f64; 3] = axis(src, Dom::new(1e-3, 500.0).prec(sg)).map(rd);
                let deg = src.bool();
                let a = if deg { rd(angle(src).to_degrees()) } else { rd(angle(src)) };
                c.show("step", || format!("{}: rotate about {:?} by {:e} {}", step, ax, a, if deg { "degrees" } else { "rad" }));
                let (p, a) = if deg { (Q::aa_deg(&ax, a), a.to_radians()) } else { (Q::aa_rad(&ax, a), a) };
                let w = rot(&ax, a);
                let ea = e * (96.0 + 16.0 * a.abs());
                q = p.mul_(q);
                t = p.rotate(&t);
                m = p.rot_m(lay).mul_(&m).ok_or("matrix product returned nothing")?;
                r = mulr(&w, &r);
                s = app(&w, &s);
                er += ea;
                et += ea * norm(&s);
                axes.push(unitv(&ax));
            }
            4 | 5 => {
                let d = v3(src, dom).map(rd);
                c.show("step", || format!("{}: translate by {:?}", step, d));
                // the quaternion of a translation holds half of it
                let h = Q::from_translation(&d).g();
                t = std::array::from_fn(|i| rd(t[i] + 2.0 * h[i]));
                m = Q::mk(&[d[0], d[1], d[2], 0.0]).trans_m(lay).mul_(&m).ok_or("matrix product returned nothing")?;
                et += 16.0 * e * (norm(&s) + norm(&d));
                s = add(&s, &d);
                moved |= !is_zero(&d);
            }
            6 | 7 => {
                let cj = src.bool();
                c.show("step", || format!("{}: invert ({})", step, if cj { "conjugate" } else { "inverse" }));
                q = if cj { q.conj() } else { q.inv() };
                t = q.rotate(&t).map(|x| -x);
                m = m.inv_().ok_or_else(|| format!("step {}: the matrix of a rigid motion has no inverse", step))?;
                r = tr(&r);
                s = mulv(&app(&r, &s), -1.0);
                er += 128.0 * e;
                et += (er + 128.0 * e) * norm(&s);
                inverted = true;
            }
            8 => {
                let v = q.g();
                let vl = (v[0] * v[0] + v[1] * v[1] + v[2] * v[2]).sqrt();
                if er > 1e-2 {
                    continue;
                }
                let pw = vl > 0.1 && v[3].abs() < 0.99 && src.bool();
                c.show("step", || format!("{}: twice the motion so far ({})", step, if pw { "power 2" } else { "product" }));
                t = std::array::from_fn(|i| rd(q.rotate(&t)[i] + t[i]));
                q = if pw { q.pow_(2.0) } else { q.mul_(q) };
                m = m.mul_(&m).ok_or("matrix product returned nothing")?;
                et = 2.0 * et + (er + 64.0 * e) * 2.0 * norm(&s);
                er = 2.0 * er + 256.0 * e;
                s = add(&app(&r, &s), &s);
                r = mulr(&r, &r);
            }
            9 => {
                let n1: [f64; 3] = unitv(&axis(src, Dom::new(1e-3, 1e3))).map(rd);
                let n2: [f64; 3] = unitv(&axis(src, Dom::new(1e-3, 1e3))).map(rd);
                c.show("step", || format!("{}: reflect in {:?}, then in {:?}", step, n1, n2));
                let (a, b) = (Q::mk(&[n1[0], n1[1], n1[2], 0.0]), Q::mk(&[n2[0], n2[1], n2[2], 0.0]));
                let p = b.mul_(a);
                let w = mulr(&mirror(&n2), &mirror(&n1));
                q = p.mul_(q);
                t = b.reflect(&a.reflect(&t));
                m = p.rot_m(lay).mul_(&m).ok_or("matrix product returned nothing")?;
                r = mulr(&w, &r);
                s = app(&w, &s);
                er += 128.0 * e;
                et += 128.0 * e * norm(&s);
                axes.push(unitv(&cross(&n1, &n2)));
            }
            10 => {
                let k = src.below(3);
                c.show("step", || format!("{}: {}", step, ["negate the quaternion", "normalise the quaternion", "scale the quaternion and normalise it"][k as usize]));
                q = match k {
                    0 => q.neg(),
                    1 => q.norm_(),
                    _ => q.scale_(logu(src, 1e-2, 1e2)).norm_(),
                };
                er += 32.0 * e;
                et += 32.0 * e * norm(&s);
            }
            _ => {
                let k = src.below(3);
                c.show("step", || format!("{}: {}", step, ["rebuild the matrix in the other layout", "transpose the matrix twice", "matrix times identity"][k as usize]));
                match k {
                    0 => {
                        lay = !lay;
                        m = <Q::M as MatT>::mk(&m.g(), lay);
                    }
                    1 => {
                        m = m.tr_();
                        m.tr_self();
                    }
                    _ => m = m.mul_(&<Q::M as MatT>::mk(&id, lay)).ok_or("matrix product returned nothing")?,
                }
            }
        }
        req!(m.row_major() == lay, "step {}: the matrix's layout became row-major {}", step, m.row_major());
        if step + 1 == steps || src.below(4) == 0 {
            let g = q.g();
            let l = g.iter().map(|x| x * x).sum::<f64>().sqrt();
            near(l, 1.0, er + 8.0 * e, || format!("step {}: length of the rotation quaternion", step))?;
            for p in &pts {
                let w = add(&app(&r, p), &s);
                let tol = 2.0 * (er + 32.0 * e) * (norm(p) + norm(&s)) + 2.0 * et;
                let x = add(&q.rotate(p), &t);
                let y = m.mul_col(&[p[0], p[1], p[2], 1.0]).ok_or("matrix times column returned nothing")?;
                let z = q.rot_m(src.bool()).mul_col(&[p[0], p[1], p[2], 1.0]).ok_or("matrix times column returned nothing")?;
                for i in 0..3 {
                    near(x[i], w[i], tol, || format!("step {}: {:?} moved by quaternion and translation, component {}", step, p, i))?;
                    near(y[i], w[i], tol, || format!("step {}: {:?} moved by the matrix, component {}", step, p, i))?;
                    near(z[i] + t[i], w[i], tol, || format!("step {}: {:?} moved by the quaternion's matrix and the translation, component {}", step, p, i))?;
                }
                near(y[3], 1.0, 64.0 * e * (1.0 + norm(&s)) + er, || format!("step {}: homogeneous component", step))?;
            }
        }
    }
    // once more through axis and angle (the axis is ill-conditioned near the identity)
    let g = q.g();
    let l = g.iter().map(|x| x * x).sum::<f64>().sqrt();
    if (l - 1.0).abs() <= 8.0 * e {
        let (ax, a) = q.to_aa();
        let p = Q::aa_rad(&ax, a);
        for v in &pts {
            let w = app(&r, v);
            let x = p.rotate(v);
            let tol = (2.0 * er + 64.0 * (e.sqrt()).max(1e-6)) * norm(v);
            for i in 0..3 {
                near(x[i], w[i], tol, || format!("{:?} rotated by the extracted axis {:?} and angle {:e}, component {}", v, ax, a, i))?;
            }
        }
    }
    let two = axes.iter().any(|a| axes.iter().any(|b| norm(&cross(a, b)) > 1e-3));
    c.nontrivial = two && (moved || inverted);
    Ok(())
}
