//! A01, A02, A03: vectors and tolerant equality.
use super::{near, Prop};
use crate::dd::D;
use crate::engine::{Case, Res, Src};
use crate::gens::*;
use crate::req;
use crate::types::*;
use mazth::mat::*;

pub fn list(v: &mut Vec<Prop>) {
    v.push(Prop { id: "A01", f: a01, quick: 60_000_000,
        rule: "one case = one vector type and precision, two operand vectors, a scalar, all operations; non-trivial = neither operand is zero and the components of an operand are not all equal" });
    v.push(Prop { id: "A02", f: a02, quick: 60_000_000,
        rule: "one case = one vector type and precision, two vectors, length/normalisation/cross product; non-trivial = non-zero first operand with at least two distinct components" });
    v.push(Prop { id: "A03", f: a03, quick: 60_000_000,
        rule: "one case = one type, two operands that differ in chosen components by a chosen amount, one tolerance; non-trivial = the operands differ in at least one component (or a NaN or two layouts are involved)" });
}
macro_rules! pick_vec {
    ($src:expr, $f:ident ( $($a:expr),* )) => {
        match $src.below(12) {
            0 => $f::<Mat3x1<f64>>($($a),*),
            1 => $f::<Mat3x1<f32>>($($a),*),
            2 => $f::<Mat1x3<f64>>($($a),*),
            3 => $f::<Mat1x3<f32>>($($a),*),
            4 => $f::<Mat4x1<f64>>($($a),*),
            5 => $f::<Mat4x1<f32>>($($a),*),
            6 => $f::<Mat1x4<f64>>($($a),*),
            7 => $f::<Mat1x4<f32>>($($a),*),
            8 => $f::<Mat2x1<f64>>($($a),*),
            9 => $f::<Mat2x1<f32>>($($a),*),
            10 => $f::<Mat1x2<f64>>($($a),*),
            _ => $f::<Mat1x2<f32>>($($a),*),
        }
    };
}
fn same_bits<V: VecT>(a: &V, g: &[f64; 4]) -> bool {
    (0..V::N).all(|i| a.raw(i).f().to_bits() == g[i].to_bits())
}
fn nontriv(a: &[f64; 4], n: usize) -> bool {
    !is_zero(&a[..n]) && (1..n).any(|i| a[i] != a[0])
}
fn a01(src: &mut Src, c: &mut Case) -> Res {
    pick_vec!(src, a01t(src, c))
}
fn a01t<V: VecT>(src: &mut Src, c: &mut Case) -> Res {
    let n = V::N;
    let s1 = V::T::SINGLE;
    let e = V::T::EPS;
    let d = if s1 { Dom::new(1e-9, 1e9) } else { Dom::new(1e-60, 1e60) }.prec(s1);
    let d = if src.below(4) < 3 { Dom::new(1e-6, 1e6).prec(s1) } else { d };
    let ga = vecn(src, n, d);
    let gb = related(src, &ga, n, d);
    let k = V::T::of(num(src, d));
    let (mut a, b) = (V::mk(&ga), V::mk(&gb));
    let (ga, gb) = (a.g(), b.g());
    c.class(V::NAME);
    c.nontrivial = nontriv(&ga, n) && !is_zero(&gb[..n]);
    c.show("type", || V::NAME.into());
    c.show("a", || format!("{:?}", &ga[..n]));
    c.show("b", || format!("{:?}", &gb[..n]));
    c.show("scalar", || format!("{:?}", k));
    req!(a.size_() == Some(n), "size {:?}, expected {}", a.size_(), n);
    let z = V::dflt();
    for i in 0..n {
        req!(z.at(i).f() == 0.0, "default component {} is {:?}", i, z.at(i));
        req!(a.at(i).f().to_bits() == ga[i].to_bits(), "read of component {}: {:?}, stored {:?}", i, a.at(i), ga[i]);
    }
    // exact in f64 or correctly rounded; 2 ulp of the type allowed
    macro_rules! comp {
        ($name:expr, $r:expr, $f:expr, $tol:expr) => {{
            let r = match $r {
                Some(r) => r.g(),
                None => return Err(format!("{} returned nothing", $name)),
            };
            for i in 0..n {
                let w: f64 = $f(i);
                near(r[i], w, $tol * e * w.abs(), || format!("{} component {}", $name, i))?;
            }
        }};
    }
    comp!("sum", a.plus_(&b), |i: usize| ga[i] + gb[i], 2.0);
    comp!("difference", a.minus_(&b), |i: usize| ga[i] - gb[i], 2.0);
    comp!("component-wise product", a.mul_(&b), |i: usize| ga[i] * gb[i], 2.0);
    comp!("scaling", a.scale_(k), |i: usize| ga[i] * k.f(), 2.0);
    if (0..n).all(|i| gb[i] != 0.0) {
        c.class("quotient");
        comp!("component-wise quotient", a.div_(&b), |i: usize| ga[i] / gb[i], 4.0);
    }
    let (mut s, mut t) = (D::new(0.0), 0.0);
    for i in 0..n {
        let p = D::new(ga[i]) * D::new(gb[i]);
        s = s + p;
        t += p.f().abs();
    }
    let r = a.dot_(&b).ok_or("dot returned nothing")?;
    near(r.f(), s.f(), 8.0 * e * t, || "dot product".into())?;
    let tr = a.tr_();
    let tr2 = a.tr2_();
    for i in 0..n {
        req!(tr[i].to_bits() == ga[i].to_bits(), "transposed component {}: {:e}, was {:e}", i, tr[i], ga[i]);
    }
    req!(same_bits(&tr2, &ga), "transposed twice differs: {:?}", tr2.g());
    req!(same_bits(&a, &ga) && same_bits(&b, &gb), "an operand was changed");
    // write one component
    let i = src.below(n as u64) as usize;
    let x = V::T::of(num(src, d));
    a.put(i, x);
    for j in 0..n {
        let w = if j == i { x.f() } else { ga[j] };
        req!(a.at(j).f().to_bits() == w.to_bits(), "after writing component {}, component {} is {:?}, expected {:e}", i, j, a.at(j), w);
    }
    Ok(())
}

fn a02(src: &mut Src, c: &mut Case) -> Res {
    pick_vec!(src, a02t(src, c))
}
fn a02t<V: VecT>(src: &mut Src, c: &mut Case) -> Res {
    let n = V::N;
    let e = V::T::EPS;
    let s1 = V::T::SINGLE;
    let d = if src.below(4) < 3 { Dom::new(1e-6, 1e6) } else if s1 { Dom::new(1e-9, 1e9) } else { Dom::new(1e-60, 1e60) }.prec(s1);
    let ga = nzvecn(src, n, d);
    let gb = related(src, &ga, n, d);
    let (a, b) = (V::mk(&ga), V::mk(&gb));
    let (ga, gb) = (a.g(), b.g());
    c.class(V::NAME);
    c.nontrivial = nontriv(&ga, n);
    c.show("type", || V::NAME.into());
    c.show("a", || format!("{:?}", &ga[..n]));
    c.show("b", || format!("{:?}", &gb[..n]));
    for (nm, g, v) in [("a", &ga, a), ("b", &gb, b)] {
        let mut s = D::new(0.0);
        for i in 0..n {
            s = s + D::new(g[i]).sq();
        }
        let l = s.sqrt().f();
        let m = v.mag_().ok_or("length returned nothing")?.f();
        near(m, l, 8.0 * e * l, || format!("length of {}", nm))?;
        if l > 0.0 {
            let u = v.norm_().ok_or("normalisation returned nothing")?.g();
            for i in 0..n {
                let w = g[i] / l;
                near(u[i], w, 12.0 * e * w.abs(), || format!("normalised {} component {}", nm, i))?;
            }
        }
    }
    match a.cross_(&b) {
        None => req!(n != 3, "cross product of 3-vectors returned nothing"),
        Some(r) => {
            req!(n == 3, "a cross product of {}-vectors was returned", n);
            let r = r.g();
            c.class("cross");
            for i in 0..3 {
                let (p, q) = ((i + 1) % 3, (i + 2) % 3);
                let (x, y) = (D::new(ga[p]) * D::new(gb[q]), D::new(ga[q]) * D::new(gb[p]));
                near(r[i], (x - y).f(), 4.0 * e * (x.f().abs() + y.f().abs()), || format!("cross product component {}", i))?;
            }
        }
    }
    Ok(())
}

fn a03(src: &mut Src, c: &mut Case) -> Res {
    match src.below(3) {
        0 => match src.below(4) {
            0 => a03m::<Mat3<f64>>(src, c),
            1 => a03m::<Mat3<f32>>(src, c),
            2 => a03m::<Mat4<f64>>(src, c),
            _ => a03m::<Mat4<f32>>(src, c),
        },
        _ => pick_vec!(src, a03v(src, c)),
    }
}
struct EqCase {
    a: [f64; 16],
    b: [f64; 16],
    tol: f64,
    nan: bool,
    exact: bool,
    /// more than one element perturbed
    changed: usize,
}
/// two operands of n components (bit patterns representable in the type) and a tolerance
fn eq_case(src: &mut Src, n: usize, single: bool) -> EqCase {
    let rd = |x: f64| if single { x as f32 as f64 } else { x };
    let wide = src.below(4) == 3;
    let d = if wide { Dom::new(1e-12, 1e12) } else { Dom::new(1e-6, 1e6) }.prec(single);
    let exact = src.below(4) == 0;
    let mut a = [0.0; 16];
    if exact {
        for x in a.iter_mut().take(n) {
            *x = zigzag(src, 401);
        }
    } else if src.bool() {
        let s = if wide { logu(src, 1e-9, 1e9) } else { logu(src, 1e-3, 1e3) };
        for x in a.iter_mut().take(n) {
            *x = d.fix(s * (2.0 * unit(src) - 1.0));
        }
    } else {
        for x in a.iter_mut().take(n) {
            *x = num(src, d);
        }
    }
    let tol = if exact {
        src.below(9) as f64
    } else {
        match src.below(5) {
            0 => 0.0,
            1 => 1e-6,
            2 => dict(src, single).abs().min(1e6),
            3 => num(src, d).abs(),
            _ => logu(src, 1e-9, 10.0),
        }
    };
    let tol = rd(tol);
    let mut b = a;
    let mode = src.below(4); // 0 none, 1 one component, 2 all, 3 some
    let pick = src.below(n as u64) as usize;
    let mut changed = 0;
    for i in 0..n {
        let touch = match mode {
            0 => false,
            1 => i == pick,
            2 => true,
            _ => src.bool(),
        };
        if !touch {
            continue;
        }
        changed += 1;
        let del = if exact {
            let k = src.below(5);
            (tol - 1.0 + (k as f64) * 0.5).max(0.0)
        } else {
            match src.below(6) {
                0 => tol * 0.5,
                1 => tol * (1.0 + gap(src)),
                2 => tol * (1.0 - logu(src, 1e-6, 1.0)),
                3 => tol * (1.0 + logu(src, 1e-6, 10.0)),
                4 => num(src, d).abs(),
                _ => 2.0 * tol + logu(src, 1e-6, 1.0),
            }
        };
        b[i] = rd(a[i] + sign(src) * del);
    }
    let nan = src.below(16) == 0;
    if nan {
        let i = src.below(n as u64) as usize;
        match src.below(3) {
            0 => a[i] = f64::NAN,
            1 => b[i] = f64::NAN,
            _ => {
                a[i] = f64::NAN;
                b[i] = f64::NAN
            }
        }
    }
    EqCase { a, b, tol, nan, exact, changed }
}
/// Some(expected) or None inside the rounding band
fn eq_oracle(k: &EqCase, n: usize, eps: f64) -> Option<bool> {
    if k.nan {
        return Some(false);
    }
    let mut unk = false;
    for i in 0..n {
        let diff = (D::new(k.a[i]) - D::new(k.b[i])).abs().f();
        let band = if k.exact { 0.0 } else { 4.0 * eps * (k.a[i].abs() + k.b[i].abs() + k.tol) };
        if diff > k.tol + band {
            return Some(false);
        }
        if diff > k.tol - band && diff != 0.0 {
            unk = true;
        }
        if k.exact && diff == k.tol {
            continue;
        }
    }
    if k.exact || !unk {
        Some(true)
    } else {
        None
    }
}
fn eq_judge(k: &EqCase, n: usize, eps: f64, got: [Option<bool>; 4], layouts: Option<(bool, bool)>, c: &mut Case) -> Res {
    c.nontrivial = k.changed > 0 || k.nan || layouts.map(|l| l.0 != l.1).unwrap_or(false);
    c.show("a", || format!("{:?}", &k.a[..n]));
    c.show("b", || format!("{:?}", &k.b[..n]));
    c.show("tolerance", || format!("{:e}", k.tol));
    let [ab, ba, aa, bb] = got;
    for (nm, g) in [("a==b", ab), ("b==a", ba), ("a==a", aa), ("b==b", bb)] {
        req!(g.is_some(), "{} gave no answer", nm);
    }
    if !k.nan {
        req!(aa == Some(true) && bb == Some(true), "a finite value is not equal to itself: a==a {:?}, b==b {:?}", aa, bb);
    }
    let want = match layouts {
        Some((x, y)) if x != y => {
            c.class("two layouts");
            Some(false)
        }
        _ => eq_oracle(k, n, eps),
    };
    match want {
        Some(w) => {
            c.class(if k.nan {
                "NaN"
            } else if w {
                "equal"
            } else {
                "unequal"
            });
            req!(ab == Some(w), "a equals b within {:e}: got {:?}, expected {}", k.tol, ab, w);
            req!(ba == Some(w), "b equals a within {:e}: got {:?}, expected {}", k.tol, ba, w);
        }
        None => c.class("within the rounding band"),
    }
    Ok(())
}
fn a03v<V: VecT>(src: &mut Src, c: &mut Case) -> Res {
    let k = eq_case(src, V::N, V::T::SINGLE);
    let f = |g: &[f64; 16]| V::mk(&[g[0], g[1], g[2], g[3]]);
    let (a, b) = (f(&k.a), f(&k.b));
    let t = V::T::of(k.tol);
    c.class(V::NAME);
    c.show("type", || V::NAME.into());
    let got = [a.eq_(&b, t), b.eq_(&a, t), a.eq_(&a, t), b.eq_(&b, t)];
    eq_judge(&k, V::N, V::T::EPS, got, None, c)
}
fn a03m<M: MatT>(src: &mut Src, c: &mut Case) -> Res {
    let k = eq_case(src, M::N * M::N, M::T::SINGLE);
    let la = src.bool();
    let lb = if src.below(8) == 7 { !la } else { la };
    let (a, b) = (M::mk(&k.a, la), M::mk(&k.b, lb));
    let t = M::T::of(k.tol);
    c.class(M::NAME);
    c.show("type", || format!("{} row-major a:{} b:{}", M::NAME, la, lb));
    let got = [a.eq_(&b, t), b.eq_(&a, t), a.eq_(&a, t), b.eq_(&b, t)];
    eq_judge(&k, M::N * M::N, M::T::EPS, got, Some((la, lb)), c)
}
