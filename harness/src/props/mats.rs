//! A04..A07: matrices.
use super::{near, Prop};
use crate::dd::D;
use crate::engine::{Case, Res, Src};
use crate::gens::*;
use crate::req;
use crate::types::*;
use mazth::mat::*;
use std::panic::catch_unwind;

pub fn list(v: &mut Vec<Prop>) {
    v.push(Prop { id: "A04", f: a04, quick: 24_000_000,
        rule: "one case = up to 3 matrices of one type with mixed layouts and a history of up to 24 operations, checked after every step against two-dimensional models; non-trivial = the history contains a transposition and a write and a column-major matrix" });
    v.push(Prop { id: "A05", f: a05, quick: 36_000_000,
        rule: "one case = one matrix type, two matrices with layouts, a row and a column vector, all products; non-trivial = neither matrix is symmetric or zero" });
    v.push(Prop { id: "A06", f: a06, quick: 48_000_000,
        rule: "one case = one matrix type, two matrices with layouts, a scalar, all entry-wise operations; non-trivial = neither matrix is symmetric or zero" });
    v.push(Prop { id: "A07", f: a07, quick: 48_000_000,
        rule: "one case = one matrix with layout, either well-conditioned or exactly singular by construction; non-trivial = not diagonal and within the stated conditioning (or exactly singular and non-zero)" });
}
macro_rules! pick_mat {
    ($src:expr, $f:ident ( $($a:expr),* )) => {
        match $src.below(4) {
            0 => $f::<Mat3<f64>>($($a),*),
            1 => $f::<Mat4<f64>>($($a),*),
            2 => $f::<Mat3<f32>>($($a),*),
            _ => $f::<Mat4<f32>>($($a),*),
        }
    };
}
/// entries row by row; rounded to the type by the constructor
pub fn entries(src: &mut Src, n: usize, d: Dom) -> [f64; 16] {
    let mut m = [0.0; 16];
    let nn = n * n;
    match src.below(10) {
        0 => {
            for (i, x) in m.iter_mut().enumerate().take(nn) {
                *x = (i + 1) as f64;
            }
        }
        1 | 2 => {
            for x in m.iter_mut().take(nn) {
                *x = zigzag(src, 21);
            }
        }
        3 => {
            let s = logu(src, d.lo, d.hi);
            for x in m.iter_mut().take(nn) {
                *x = d.fix(s * (2.0 * unit(src) - 1.0));
            }
        }
        4 => {
            // sparse
            let k = src.below(nn as u64) + 1;
            for _ in 0..k {
                let i = src.below(nn as u64) as usize;
                m[i] = num(src, d);
            }
        }
        5 => {
            // identity plus something
            for i in 0..n {
                m[i * n + i] = 1.0;
            }
            let k = src.below(4);
            for _ in 0..k {
                let i = src.below(nn as u64) as usize;
                m[i] = num(src, d);
            }
        }
        6 => {
            for x in m.iter_mut().take(nn) {
                *x = sign(src) * 10.0 * unit(src);
            }
        }
        _ => {
            for x in m.iter_mut().take(nn) {
                *x = num(src, d);
            }
        }
    }
    if d.single {
        for x in m.iter_mut() {
            *x = *x as f32 as f64;
        }
    }
    m
}
fn asym(m: &[f64; 16], n: usize) -> bool {
    (0..n).any(|i| (0..i).any(|j| m[i * n + j] != m[j * n + i]))
}
fn mshow(c: &mut Case, k: &str, m: &[f64; 16], n: usize, rm: bool) {
    c.show(k, || {
        let rows: Vec<String> = (0..n).map(|i| format!("{:?}", &m[i * n..i * n + n])).collect();
        format!("[{}] {}", rows.join(", "), if rm { "row-major" } else { "column-major" })
    });
}
fn tr16(m: &[f64; 16], n: usize) -> [f64; 16] {
    let mut t = [0.0; 16];
    for i in 0..n {
        for j in 0..n {
            t[i * n + j] = m[j * n + i];
        }
    }
    t
}

fn a04(src: &mut Src, c: &mut Case) -> Res {
    pick_mat!(src, a04t(src, c))
}
fn a04check<M: MatT>(m: &M, model: &[f64; 16], rm: bool, when: &str) -> Res {
    let n = M::N;
    req!(m.row_major() == rm, "{}: layout flag is {}, expected {}", when, m.row_major(), rm);
    for i in 0..n {
        for j in 0..n {
            let w = model[i * n + j];
            let g = m.at(i, j).f();
            req!(g.to_bits() == w.to_bits(), "{}: entry ({},{}) is {:e}, expected {:e}", when, i, j, g, w);
            let st = if rm { m.raw(i * n + j) } else { m.raw(j * n + i) }.f();
            req!(st.to_bits() == w.to_bits(), "{}: stored value of entry ({},{}) is {:e}, expected {:e}", when, i, j, st, w);
        }
    }
    Ok(())
}
fn a04t<M: MatT>(src: &mut Src, c: &mut Case) -> Res {
    let n = M::N;
    let d = mdom::<M>(src);
    c.class(M::NAME);
    c.show("type", || M::NAME.into());
    let k = 1 + src.below(3) as usize;
    let mut ms: Vec<(M, [f64; 16], bool)> = Vec::with_capacity(3);
    for x in 0..k {
        let rm = src.bool();
        let g = entries(src, n, d);
        mshow(c, &format!("matrix {}", x), &g, n, rm);
        let m = M::mk(&g, rm);
        a04check(&m, &g, rm, "after construction")?;
        req!(m.size_() == Some(n * n), "size {:?}", m.size_());
        ms.push((m, g, rm));
    }
    let len = if src.below(32) == 31 { src.below(200) } else { src.below(25) };
    let (mut wr, mut tr, mut cm) = (false, false, false);
    for step in 0..len {
        let i = src.below(k as u64) as usize;
        let op = src.below(7);
        c.steps += 1;
        let name;
        match op {
            0 => {
                let (r, q) = (src.below(n as u64) as usize, src.below(n as u64) as usize);
                let x = M::T::of(num(src, d));
                ms[i].0.put(r, q, x);
                ms[i].1[r * n + q] = x.f();
                name = "write";
                wr = true;
                c.show("op", || format!("{}: write ({},{}) of matrix {} := {:?}", step, r, q, i, x));
            }
            1 => {
                ms[i].0.tr_self();
                ms[i].1 = tr16(&ms[i].1, n);
                name = "transpose in place";
                tr = true;
                cm |= !ms[i].2;
                c.show("op", || format!("{}: transpose matrix {} in place", step, i));
            }
            2 => {
                let j = src.below(k as u64) as usize;
                let before = ms[i];
                let t = ms[i].0.tr_();
                c.show("op", || format!("{}: matrix {} := transposed copy of {}", step, j, i));
                a04check(&ms[i].0, &before.1, before.2, "source of a transposed copy")?;
                ms[j] = (t, tr16(&before.1, n), before.2);
                name = "transposed copy";
                tr = true;
                cm |= !before.2;
            }
            3 => {
                let s = M::T::of(if src.bool() { 2f64.powi(src.below(5) as i32 - 2) * sign(src) } else { sign(src) * logu(src, 0.1, 10.0) });
                c.show("op", || format!("{}: scale matrix {} by {:?}", step, i, s));
                let r = ms[i].0.scale_(s).ok_or("scale returned nothing")?;
                let rm = ms[i].2;
                let mut g = [0.0; 16];
                for y in 0..n {
                    for x in 0..n {
                        let w = ms[i].1[y * n + x] * s.f();
                        let w = M::T::of(w).f();
                        g[y * n + x] = r.at(y, x).f();
                        near(g[y * n + x], w, 2.0 * M::T::EPS * w.abs(), || format!("step {} scaled entry ({},{})", step, y, x))?;
                    }
                }
                if g[..n * n].iter().any(|x| !(x.abs() < 1e12)) {
                    continue;
                }
                ms[i] = (r, g, rm);
                name = "scale";
            }
            4 => {
                let rm = src.bool();
                let g = entries(src, n, d);
                ms[i] = (M::mk(&g, rm), g, rm);
                name = "rebuild";
                c.show("op", || format!("{}: rebuild matrix {} from {:?} row-major {}", step, i, &g[..n * n], rm));
            }
            5 => {
                // rebuild in the other layout from its own entries
                let rm = !ms[i].2;
                let g = ms[i].0.g();
                ms[i].0 = M::mk(&g, rm);
                ms[i].2 = rm;
                name = "rebuild in the other layout";
                c.show("op", || format!("{}: rebuild matrix {} in the other layout", step, i));
            }
            _ => {
                let j = src.below(k as u64) as usize;
                ms[j] = ms[i];
                name = "copy";
                c.show("op", || format!("{}: matrix {} := matrix {}", step, j, i));
            }
        }
        for (x, (m, g, rm)) in ms.iter().enumerate() {
            a04check(m, g, *rm, name).map_err(|e| format!("step {}, matrix {}: {}", step, x, e))?;
        }
    }
    c.nontrivial = wr && tr && cm;
    if c.nontrivial {
        c.class("write+transpose+column-major");
    }
    Ok(())
}

fn a05(src: &mut Src, c: &mut Case) -> Res {
    pick_mat!(src, a05t(src, c))
}
fn prod_tol(terms: &[(f64, f64)], e: f64) -> (f64, f64) {
    let (mut s, mut t) = (D::new(0.0), 0.0);
    for (x, y) in terms {
        let p = D::new(*x) * D::new(*y);
        s = s + p;
        t += p.f().abs();
    }
    (s.f(), 8.0 * e * t)
}
fn mdom<M: MatT>(src: &mut Src) -> Dom {
    if !M::T::SINGLE && src.below(4) == 3 {
        Dom::new(1e-60, 1e60)
    } else {
        Dom::new(1e-6, 1e6).prec(M::T::SINGLE)
    }
}
fn a05t<M: MatT>(src: &mut Src, c: &mut Case) -> Res {
    let n = M::N;
    let e = M::T::EPS;
    let d = mdom::<M>(src);
    let la = src.bool();
    let mixed = src.below(16) == 15;
    let lb = if mixed { !la } else { la };
    let ga = entries(src, n, d);
    let gb = if src.below(8) == 7 { tr16(&ga, n) } else { entries(src, n, d) };
    let v = vecn(src, n, d);
    let v = if M::T::SINGLE { v.map(|x| x as f32 as f64) } else { v };
    c.class(M::NAME);
    c.show("type", || M::NAME.into());
    mshow(c, "a", &ga, n, la);
    mshow(c, "b", &gb, n, lb);
    c.show("v", || format!("{:?}", &v[..n]));
    c.nontrivial = asym(&ga, n) && asym(&gb, n);
    let (a, b) = (M::mk(&ga, la), M::mk(&gb, lb));
    let p = if mixed {
        c.class("mixed layouts");
        catch_unwind(|| a.mul_(&b)).ok()
    } else {
        c.class(if la { "row-major" } else { "column-major" });
        Some(a.mul_(&b))
    };
    if let Some(p) = p {
        if mixed && p.is_none() {
            // refused
        } else {
            let p = p.ok_or("product returned nothing")?;
            if !mixed {
                req!(p.row_major() == la, "the product's layout is row-major {}, the operands' {}", p.row_major(), la);
            }
            for i in 0..n {
                for j in 0..n {
                    let t: [(f64, f64); 4] = std::array::from_fn(|k| if k < n { (ga[i * n + k], gb[k * n + j]) } else { (0.0, 0.0) });
                    let (w, tol) = prod_tol(&t, e);
                    near(p.at(i, j).f(), w, tol, || format!("product entry ({},{})", i, j))?;
                }
            }
        }
    }
    for (nm, m, g) in [("a", &a, &ga), ("b", &b, &gb)] {
        let r = m.mul_col(&v).ok_or("matrix times column returned nothing")?;
        let l = M::row_mul(&v, m).ok_or("row times matrix returned nothing")?;
        for i in 0..n {
            let t: [(f64, f64); 4] = std::array::from_fn(|k| if k < n { (g[i * n + k], v[k]) } else { (0.0, 0.0) });
            let (w, tol) = prod_tol(&t, e);
            near(r[i], w, tol, || format!("{} times column v, component {}", nm, i))?;
            let t: [(f64, f64); 4] = std::array::from_fn(|k| if k < n { (g[k * n + i], v[k]) } else { (0.0, 0.0) });
            let (w, tol) = prod_tol(&t, e);
            near(l[i], w, tol, || format!("row v times {}, component {}", nm, i))?;
        }
        req!(m.g() == *g, "an operand was changed");
    }
    // identity
    let mut id = [0.0; 16];
    for i in 0..n {
        id[i * n + i] = 1.0;
    }
    let idm = if la && src.bool() { M::iden_() } else { M::mk(&id, la) };
    for (nm, r) in [("a * identity", a.mul_(&idm)), ("identity * a", idm.mul_(&a))] {
        let r = r.ok_or("product with the identity returned nothing")?;
        req!(r.g() == ga, "{} changes a: {:?}", nm, &r.g()[..n * n]);
    }
    Ok(())
}

fn a06(src: &mut Src, c: &mut Case) -> Res {
    pick_mat!(src, a06t(src, c))
}
fn a06t<M: MatT>(src: &mut Src, c: &mut Case) -> Res {
    let n = M::N;
    let nn = n * n;
    let e = M::T::EPS;
    let d = mdom::<M>(src);
    let (la, lb) = (src.bool(), src.bool());
    let ga = entries(src, n, d);
    let mut gb = if src.below(8) == 7 { tr16(&ga, n) } else { entries(src, n, d) };
    if src.bool() {
        for x in gb.iter_mut().take(nn) {
            if *x == 0.0 {
                *x = 1.0;
            }
        }
    }
    let k = M::T::of(num(src, d));
    c.class(M::NAME);
    c.class(match (la, lb) {
        (true, true) => "both row-major",
        (false, false) => "both column-major",
        _ => "mixed layouts",
    });
    c.show("type", || M::NAME.into());
    mshow(c, "a", &ga, n, la);
    mshow(c, "b", &gb, n, lb);
    c.show("scalar", || format!("{:?}", k));
    c.nontrivial = asym(&ga, n) && asym(&gb, n);
    let (a, b) = (M::mk(&ga, la), M::mk(&gb, lb));
    macro_rules! entry {
        ($name:expr, $r:expr, $f:expr, $tol:expr) => {{
            let r = $r.ok_or(concat!($name, " returned nothing"))?;
            req!(r.row_major() == la, "{}: layout of the result is row-major {}, of the first operand {}", $name, r.row_major(), la);
            for i in 0..n {
                for j in 0..n {
                    let w: f64 = $f(i * n + j, j * n + i);
                    near(r.at(i, j).f(), w, $tol * e * w.abs(), || format!("{} entry ({},{})", $name, i, j))?;
                }
            }
        }};
    }
    entry!("sum", a.plus_(&b), |i: usize, _: usize| ga[i] + gb[i], 2.0);
    entry!("difference", a.minus_(&b), |i: usize, _: usize| ga[i] - gb[i], 2.0);
    entry!("entry-wise product", a.mul_elem_(&b), |i: usize, _: usize| ga[i] * gb[i], 2.0);
    if gb[..nn].iter().all(|x| *x != 0.0) {
        c.class("quotient");
        entry!("entry-wise quotient", a.div_(&b), |i: usize, _: usize| ga[i] / gb[i], 4.0);
    }
    entry!("scaling", a.scale_(k), |i: usize, _: usize| ga[i] * k.f(), 2.0);
    if ga[nn - 1] != 0.0 {
        c.class("division by the last entry");
        entry!("division by the last entry", a.norm_(), |i: usize, _: usize| ga[i] / ga[nn - 1], 4.0);
    }
    entry!("transposed copy", Some(a.tr_()), |_: usize, t: usize| ga[t], 0.0);
    let (mut s, mut t) = (D::new(0.0), 0.0);
    for i in 0..n {
        s = s + D::new(ga[i * n + i]);
        t += ga[i * n + i].abs();
    }
    near(a.trace_().f(), s.f(), 4.0 * e * t, || "trace".into())?;
    if let Some((g, rm)) = a.sub_() {
        req!(rm == la, "upper-left part: layout row-major {}, of the matrix {}", rm, la);
        for i in 0..3 {
            for j in 0..3 {
                req!(g[i * 3 + j].to_bits() == ga[i * n + j].to_bits(), "upper-left part entry ({},{}): {:e}, expected {:e}", i, j, g[i * 3 + j], ga[i * n + j]);
            }
        }
    }
    req!(a.dot_(&b).is_none() && a.cross_(&b).is_none(), "dot or cross product of matrices returned something");
    let z = M::dflt();
    let id = M::iden_();
    for i in 0..n {
        for j in 0..n {
            req!(z.at(i, j).f() == 0.0, "default matrix entry ({},{}) is {:?}", i, j, z.at(i, j));
            let w = if i == j { 1.0 } else { 0.0 };
            req!(id.at(i, j).f() == w, "identity entry ({},{}) is {:?}", i, j, id.at(i, j));
        }
    }
    req!(a.g() == ga && b.g() == gb && a.row_major() == la && b.row_major() == lb, "an operand was changed");
    Ok(())
}

/// determinant of the minor of m without row r and column q (n = size of m), with the sum of absolute terms
fn minor(m: &[D], n: usize, r: usize, q: usize) -> (D, f64) {
    let mut s = [D::new(0.0); 9];
    let mut k = 0;
    for i in 0..n {
        for j in 0..n {
            if i != r && j != q {
                s[k] = m[i * n + j];
                k += 1;
            }
        }
    }
    det(&s[..(n - 1) * (n - 1)], n - 1)
}
fn det(m: &[D], n: usize) -> (D, f64) {
    if n == 1 {
        return (m[0], m[0].f().abs());
    }
    if n == 2 {
        let (x, y) = (m[0] * m[3], m[1] * m[2]);
        return (x - y, x.f().abs() + y.f().abs());
    }
    let (mut d, mut p) = (D::new(0.0), 0.0);
    for j in 0..n {
        let (x, y) = minor(m, n, 0, j);
        let t = m[j] * x;
        d = if j % 2 == 0 { d + t } else { d - t };
        p += m[j].f().abs() * y;
    }
    (d, p)
}
/// p * q is the identity up to a backward error of a few roundings in each column (p the matrix)
/// or each row (q the matrix)
fn residual(p: &[D], q: &[D], n: usize, e: f64, right: bool) -> bool {
    let big = |m: &[D]| m.iter().fold(0.0f64, |a, x| a.max(x.f().abs()));
    let line = |m: &[D], k: usize, col: bool| (0..n).fold(0.0f64, |a, i| a.max(m[if col { i * n + k } else { k * n + i }].f().abs()));
    let (bp, bq) = (big(p), big(q));
    (0..n).all(|i| {
        (0..n).all(|j| {
            let mut s = D::new(if i == j { -1.0 } else { 0.0 });
            for k in 0..n {
                s = s + p[i * n + k] * q[k * n + j];
            }
            let tol = 32.0 * e * if right { bp * line(q, j, true) } else { bq * line(p, i, false) };
            s.f().abs() <= tol
        })
    })
}
fn a07(src: &mut Src, c: &mut Case) -> Res {
    pick_mat!(src, a07t(src, c))
}
fn a07t<M: MatT>(src: &mut Src, c: &mut Case) -> Res {
    let n = M::N;
    let nn = n * n;
    let e = M::T::EPS;
    let rm = src.bool();
    c.class(M::NAME);
    c.class(if rm { "row-major" } else { "column-major" });
    c.show("type", || M::NAME.into());
    if src.below(5) == 4 {
        // exactly singular integer matrices
        let mut g = [0.0; 16];
        for x in g.iter_mut().take(nn) {
            *x = zigzag(src, 17);
        }
        let r = src.below(n as u64) as usize;
        let s = (r + 1 + src.below(n as u64 - 1) as usize) % n;
        let t = (0..n).find(|x| *x != r && *x != s).unwrap();
        let (k1, k2) = (zigzag(src, 9), zigzag(src, 9));
        match src.below(5) {
            0 => (0..n).for_each(|j| g[r * n + j] = 0.0),
            1 => (0..n).for_each(|j| g[r * n + j] = k1 * g[s * n + j]),
            2 => (0..n).for_each(|j| g[j * n + r] = k1 * g[j * n + s]),
            3 => (0..n).for_each(|j| g[r * n + j] = g[s * n + j] * k1 + g[t * n + j] * k2),
            _ => (0..n).for_each(|j| g[j * n + r] = g[j * n + s] * k1 + g[j * n + t] * k2),
        }
        mshow(c, "singular matrix", &g, n, rm);
        c.class("exactly singular");
        c.nontrivial = g.iter().any(|x| *x != 0.0);
        let r = M::mk(&g, rm).inv_();
        req!(r.is_none(), "a singular integer matrix got an inverse: {:?}", r.map(|x| x.g()));
        return Ok(());
    }
    let d = Dom::new(1e-3, 1e3).prec(M::T::SINGLE);
    let mut g = match src.below(8) {
        0 | 1 => {
            // rotation-like: product of plane rotations, scaled
            let mut m = [0.0; 16];
            for i in 0..n {
                m[i * n + i] = 1.0;
            }
            for _ in 0..3 {
                let i = src.below(n as u64) as usize;
                let j = (i + 1 + src.below(n as u64 - 1) as usize) % n;
                let (s, co) = angle(src).sin_cos();
                for k in 0..n {
                    let (x, y) = (m[i * n + k], m[j * n + k]);
                    m[i * n + k] = co * x - s * y;
                    m[j * n + k] = s * x + co * y;
                }
            }
            let s = logu(src, 0.05, 100.0);
            m.map(|x| if (x * s).abs() < 1e-9 { 0.0 } else { x * s })
        }
        2 => {
            // signed permutation with weights
            let mut m = [0.0; 16];
            let mut p: Vec<usize> = (0..n).collect();
            for i in (1..n).rev() {
                let j = src.below(i as u64 + 1) as usize;
                p.swap(i, j);
            }
            for i in 0..n {
                m[i * n + p[i]] = nonzero(src, d);
            }
            m
        }
        3 => {
            // triangular
            let mut m = [0.0; 16];
            let up = src.bool();
            for i in 0..n {
                for j in 0..n {
                    if i == j {
                        m[i * n + j] = nonzero(src, Dom::new(0.1, 10.0));
                    } else if (j > i) == up {
                        m[i * n + j] = zigzag(src, 9);
                    }
                }
            }
            m
        }
        4 => {
            // affine: 3x3 part plus translation
            let mut m = entries(src, n, Dom::new(0.1, 10.0));
            for j in 0..n {
                m[(n - 1) * n + j] = if j == n - 1 { 1.0 } else { 0.0 };
            }
            m
        }
        5 => {
            let mut m = [0.0; 16];
            for x in m.iter_mut().take(nn) {
                *x = zigzag(src, 21);
            }
            m
        }
        _ => entries(src, n, d),
    };
    for x in g.iter_mut() {
        *x = M::T::of(*x).f();
    }
    let gd: Vec<D> = g[..nn].iter().map(|x| D::new(*x)).collect();
    let (dt, pd) = det(&gd, n);
    let adet = dt.f().abs();
    mshow(c, "matrix", &g, n, rm);
    c.show("determinant", || format!("{:e}", dt.f()));
    if !(adet >= 1e-6 && pd <= 1e3 * adet) || (M::T::SINGLE && pd > 1e18) {
        c.class("outside the stated conditioning (skipped)");
        return Ok(());
    }
    c.class("invertible");
    c.nontrivial = (0..n).any(|i| (0..n).any(|j| i != j && g[i * n + j] != 0.0));
    let m = M::mk(&g, rm);
    let r = match m.inv_() {
        Some(r) => r,
        None => return Err(format!("no inverse although the determinant is {:e}", dt.f())),
    };
    req!(r.row_major() == rm, "layout of the inverse is row-major {}, of the matrix {}", r.row_major(), rm);
    req!(m.g() == g && m.row_major() == rm, "the matrix was changed");
    let x: Vec<D> = (0..nn).map(|k| D::new(r.at(k / n, k % n).f())).collect();
    if x.iter().all(|x| x.f().is_finite()) && (residual(&gd, &x, n, e, true) || residual(&x, &gd, n, e, false)) {
        // as good as solving for the columns (rows) by elimination with pivoting
        return Ok(());
    }
    for i in 0..n {
        for j in 0..n {
            let (x, p) = minor(&gd, n, j, i);
            let w = x / dt;
            let w = if (i + j) % 2 == 1 { -w } else { w }.f();
            let tol = 64.0 * e * (p / adet + x.f().abs() * pd / adet / adet);
            near(r.at(i, j).f(), w, tol, || format!("inverse entry ({},{})", i, j))?;
        }
    }
    Ok(())
}
