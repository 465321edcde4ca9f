//! X05: operations of the algebra depend on nothing but their operands.
use super::Prop;
use crate::engine::{Case, Res, Src};
use crate::gens::*;
use crate::req;
use crate::types::*;
use mazth::mat::*;
use mazth::quat::Quat;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn list(v: &mut Vec<Prop>) {
    v.push(Prop { id: "X05", f: x05, quick: 6_000_000,
        rule: "one case = a history of up to 30 operations on shared quaternions, matrices and vectors, every result compared bit for bit with the one from operands built afresh; non-trivial = at least 6 operations of 4 kinds or more, one of them on a result of an earlier one" });
}
fn x05(src: &mut Src, c: &mut Case) -> Res {
    macro_rules! go {
        ($($k:expr => $v:ident),*) => {
            match (src.below(2), src.below(6)) {
                $((0, $k) => x05t::<Quat<f64>, Mat3<f64>, $v<f64>>(src, c),
                (_, $k) => x05t::<Quat<f32>, Mat3<f32>, $v<f32>>(src, c),)*
                _ => Ok(()),
            }
        };
    }
    go!(0 => Mat3x1, 1 => Mat4x1, 2 => Mat2x1, 3 => Mat1x3, 4 => Mat1x4, 5 => Mat1x2)
}
/// what an operation is given, as numbers
#[derive(Clone, Copy)]
struct In {
    q: [Q4; 2],
    m4: [([f64; 16], bool); 2],
    m3: [([f64; 16], bool); 2],
    v: [[f64; 4]; 2],
    p: [f64; 3],
    x: f64,
}
struct Ops<Q: QuatT, M: MatT, V: VecT> {
    q: [Q; 2],
    m4: [Q::M; 2],
    m3: [M; 2],
    v: [V; 2],
}
enum New {
    Nothing,
    Q(Q4),
    M4([f64; 16], bool),
    M3([f64; 16], bool),
    V([f64; 4]),
}
const NAMES: [&str; 50] = [
    "q+q", "q-q", "q*q", "|q|²", "|q|", "normalize q", "ln q", "q^x", "-q", "conj q", "q·x", "1/q", "lerp", "slerp", "axis-angle of q",
    "translation matrix of q", "rotation matrix of q", "rotate by q", "reflect in q", "in plane q", "orthogonal to q", "q from axis-angle (rad)",
    "q from axis-angle (degrees)", "q from translation", "q by normalising", "q with derived w", "A+B", "A-B", "A∘B", "A/B", "AB", "A:B", "A·x", "normalize A",
    "transpose A", "1/A", "trace A", "A=B", "Ap", "pA", "u+v", "u-v", "u∘v", "u/v", "u·x", "u.v", "uxv", "|u|", "normalize u", "u=v",
];
fn flat(v: Option<&[f64]>) -> Vec<f64> {
    match v {
        Some(v) => v.to_vec(),
        None => vec![],
    }
}
fn mat<M: MatT>(k: usize, a: &M, b: &M, p: &[f64; 3], x: f64) -> (Vec<f64>, Option<([f64; 16], bool)>) {
    let m = |r: Option<M>| match r {
        Some(r) => {
            let mut o = r.g().to_vec();
            o.push(r.row_major() as u8 as f64);
            (o, Some((r.g(), r.row_major())))
        }
        None => (vec![], None),
    };
    let t = <M::T as Sc>::of(x);
    let p4 = [p[0], p[1], p[2], 1.0];
    match k {
        26 => m(a.plus_(b)),
        27 => m(a.minus_(b)),
        28 => m(a.mul_elem_(b)),
        29 => m(a.div_(b)),
        30 => m(a.mul_(b)),
        31 => (a.dot_(b).map(|x| x.f()).into_iter().collect(), None),
        32 => m(a.scale_(t)),
        33 => m((*a).norm_()),
        34 => m(Some((*a).tr_())),
        35 => m(a.inv_()),
        36 => (vec![a.trace_().f()], None),
        37 => (a.eq_(b, t).map(|x| x as u8 as f64).into_iter().collect(), None),
        38 => (flat(a.mul_col(&p4).as_ref().map(|x| &x[..])), None),
        _ => (flat(M::row_mul(&p4, a).as_ref().map(|x| &x[..])), None),
    }
}
fn ask<Q: QuatT, M: MatT, V: VecT>(k: usize, four: bool, o: &Ops<Q, M, V>, p: &[f64; 3], x: f64) -> (Vec<f64>, New) {
    let (a, b) = (&o.q[0], &o.q[1]);
    let q = |r: Q| (r.g().to_vec(), New::Q(r.g()));
    let n = |r: Vec<f64>| (r, New::Nothing);
    let m = |r: Q::M| {
        let mut o = r.g().to_vec();
        o.push(r.row_major() as u8 as f64);
        (o, New::M4(r.g(), r.row_major()))
    };
    let vv = |r: Option<V>| match r {
        Some(r) => (r.g().to_vec(), New::V(r.g())),
        None => (vec![], New::Nothing),
    };
    let (u, w) = (&o.v[0], &o.v[1]);
    let t = <V::T as Sc>::of(x);
    match k {
        0 => q(a.add_(*b)),
        1 => q(a.minus_(*b)),
        2 => q(a.mul_(*b)),
        3 => n(vec![a.len2()]),
        4 => n(vec![a.len()]),
        5 => q(a.norm_()),
        6 => q(a.ln_()),
        7 => q(a.pow_(x)),
        8 => q(a.neg()),
        9 => q(a.conj()),
        10 => q(a.scale_(x)),
        11 => q(a.inv()),
        12 => q(Q::lerp(*a, *b, x)),
        13 => q(Q::slerp(*a, *b, x)),
        14 => {
            let (ax, an) = a.to_aa();
            n(vec![ax[0], ax[1], ax[2], an])
        }
        15 => m(a.trans_m(four)),
        16 => m(a.rot_m(four)),
        17 => n(a.rotate(p).to_vec()),
        18 => n(a.reflect(p).to_vec()),
        19 => n(a.par(p).to_vec()),
        20 => n(a.orth(p).to_vec()),
        21 => q(Q::aa_rad(p, x)),
        22 => q(Q::aa_deg(p, x)),
        23 => q(Q::from_translation(p)),
        24 => q(Q::normalized(&[p[0], p[1], p[2], x])),
        25 => q(Q::auto_w(p)),
        26..=39 => {
            if four {
                let (r, s) = mat(k, &o.m4[0], &o.m4[1], p, x);
                (r, s.map_or(New::Nothing, |s| New::M4(s.0, s.1)))
            } else {
                let (r, s) = mat(k, &o.m3[0], &o.m3[1], p, x);
                (r, s.map_or(New::Nothing, |s| New::M3(s.0, s.1)))
            }
        }
        40 => vv(u.plus_(w)),
        41 => vv(u.minus_(w)),
        42 => vv(u.mul_(w)),
        43 => vv(u.div_(w)),
        44 => vv(u.scale_(t)),
        45 => n(u.dot_(w).map(|x| x.f()).into_iter().collect()),
        46 => vv(if V::N == 3 { u.cross_(w) } else { None }),
        47 => n(u.mag_().map(|x| x.f()).into_iter().collect()),
        48 => vv(u.norm_()),
        _ => n(u.eq_(w, t).map(|x| x as u8 as f64).into_iter().collect()),
    }
}
/// result as bits, any NaN alike, a panic is an outcome too
fn outcome<Q: QuatT, M: MatT, V: VecT>(k: usize, four: bool, o: &Ops<Q, M, V>, p: &[f64; 3], x: f64) -> (Vec<u64>, New) {
    match catch_unwind(AssertUnwindSafe(|| ask(k, four, o, p, x))) {
        Ok((r, n)) => (r.iter().map(|x| if x.is_nan() { 1 } else { x.to_bits() }).collect(), n),
        Err(_) => (vec![2; 40], New::Nothing),
    }
}
fn tame(v: &[f64]) -> bool {
    v.iter().all(|x| *x == 0.0 || (x.abs() >= 1e-9 && x.abs() <= 1e9))
}
fn x05t<Q: QuatT, M: MatT, V: VecT>(src: &mut Src, c: &mut Case) -> Res {
    let sg = Q::T::SINGLE;
    let rd = |x: f64| Q::T::of(x).f();
    let dom = Dom::new(1e-3, 1e2).prec(sg);
    c.class(Q::NAME);
    c.class(V::NAME);
    // live operands
    let mut qs: Vec<Q> = (0..2)
        .map(|_| {
            if src.bool() {
                Q::aa_rad(&axis(src, dom).map(rd), rd(angle(src)))
            } else {
                let v = v3(src, dom);
                Q::mk(&[v[0], v[1], v[2], num(src, dom)].map(rd))
            }
        })
        .collect();
    let gm = |src: &mut Src| -> [f64; 16] { std::array::from_fn(|_| rd(num(src, dom))) };
    let mut m4: Vec<Q::M> = (0..2).map(|_| { let l = src.bool(); <Q::M as MatT>::mk(&gm(src), l) }).collect();
    let mut m3: Vec<M> = (0..2).map(|_| { let l = src.bool(); M::mk(&gm(src), l) }).collect();
    let mut vs: Vec<V> = (0..2).map(|_| V::mk(&std::array::from_fn(|_| rd(num(src, dom))))).collect();
    let mut ps: Vec<[f64; 3]> = vec![v3(src, dom).map(rd)];
    let mut xs: Vec<f64> = vec![rd(unit(src))];
    let steps = 1 + if src.below(64) == 63 { src.below(300) } else { src.below(30) } as usize;
    let mut log: Vec<(usize, usize, bool, In, Vec<u64>)> = vec![];
    let mut kinds = 0u64;
    let mut chained = false;
    // an operation asked for again and again, with operands that differ
    let fav = src.below(50) as usize;
    for step in 0..steps {
        c.steps += 1;
        let k = if src.below(3) == 0 { fav } else { src.below(50) as usize };
        let four = src.bool();
        // now and then a relative of an earlier operand: a cached answer must not serve for it
        let rel = |src: &mut Src, v: &mut [f64]| {
            let i = src.below(v.len() as u64) as usize;
            match src.below(5) {
                0 => v[i] = -v[i],
                1 => v[i] *= 1.0 + sign(src) * logu(src, 1e-14, 1e-2),
                2 => {
                    let j = src.below(v.len() as u64) as usize;
                    v.swap(i, j);
                }
                3 => v.iter_mut().for_each(|x| *x = -*x),
                _ => v[i] = num(src, dom),
            }
            v.iter_mut().for_each(|x| *x = rd(*x));
        };
        match src.below(10) {
            0 => {
                let mut w = ps[src.below(ps.len() as u64) as usize];
                rel(src, &mut w);
                ps.push(w);
            }
            1 => ps.push(v3(src, dom).map(rd)),
            2 => {
                let mut w = [xs[src.below(xs.len() as u64) as usize]];
                rel(src, &mut w);
                xs.push(w[0]);
            }
            3 if qs.len() < 9 => {
                let mut w = qs[src.below(qs.len() as u64) as usize].g();
                rel(src, &mut w);
                qs.push(Q::mk(&w));
            }
            4 if vs.len() < 7 => {
                let mut w = vs[src.below(vs.len() as u64) as usize].g();
                rel(src, &mut w[..V::N]);
                vs.push(V::mk(&w));
            }
            5 if m4.len() < 7 => {
                let i = src.below(m4.len() as u64) as usize;
                let (mut w, l) = (m4[i].g(), m4[i].row_major());
                rel(src, &mut w);
                m4.push(<Q::M as MatT>::mk(&w, l != (src.below(3) == 2)));
            }
            6 if m3.len() < 7 => {
                let i = src.below(m3.len() as u64) as usize;
                let (mut w, l) = (m3[i].g(), m3[i].row_major());
                rel(src, &mut w[..9]);
                m3.push(M::mk(&w, l != (src.below(3) == 2)));
            }
            _ => {}
        }
        macro_rules! pick {
            ($v:expr) => {{
                let n = $v.len();
                let (i, j) = (src.below(n as u64) as usize, src.below(n as u64) as usize);
                chained |= i > 1 || j > 1;
                [$v[i], $v[j]]
            }};
        }
        let mut o = Ops::<Q, M, V> { q: pick!(qs), m4: pick!(m4), m3: pick!(m3), v: pick!(vs) };
        // products of matrices in different layouts are refused
        if o.m4[0].row_major() != o.m4[1].row_major() && k == 30 {
            o.m4[1] = o.m4[0];
        }
        if o.m3[0].row_major() != o.m3[1].row_major() && k == 30 {
            o.m3[1] = o.m3[0];
        }
        let p = ps[src.below(ps.len() as u64) as usize];
        let x = xs[src.below(xs.len() as u64) as usize];
        let data = |o: &Ops<Q, M, V>| In {
            q: [o.q[0].g(), o.q[1].g()],
            m4: [(o.m4[0].g(), o.m4[0].row_major()), (o.m4[1].g(), o.m4[1].row_major())],
            m3: [(o.m3[0].g(), o.m3[0].row_major()), (o.m3[1].g(), o.m3[1].row_major())],
            v: [o.v[0].g(), o.v[1].g()],
            p,
            x,
        };
        let before = data(&o);
        let (r, new) = outcome(k, four, &o, &p, x);
        let after = data(&o);
        c.show("step", || format!("{}: {} {}", step, NAMES[k], text(k, four, &before)));
        let same = |a: &[f64], b: &[f64]| a.iter().zip(b).all(|(x, y)| x.to_bits() == y.to_bits());
        for i in 0..2 {
            req!(same(&before.q[i], &after.q[i]) && same(&before.v[i], &after.v[i]) && same(&before.m4[i].0, &after.m4[i].0) && same(&before.m3[i].0, &after.m3[i].0)
                && before.m4[i].1 == after.m4[i].1 && before.m3[i].1 == after.m3[i].1, "step {}: {} changed its operand", step, NAMES[k]);
        }
        match new {
            New::Q(q) if tame(&q) && qs.len() < 8 => qs.push(Q::mk(&q)),
            New::M4(m, l) if tame(&m) && m4.len() < 6 => m4.push(<Q::M as MatT>::mk(&m, l)),
            New::M3(m, l) if tame(&m) && m3.len() < 6 => m3.push(M::mk(&m, l)),
            New::V(v) if tame(&v) && vs.len() < 6 => vs.push(V::mk(&v)),
            _ => {}
        }
        kinds |= 1 << k;
        log.push((step, k, four, before, r));
    }
    for (step, k, four, i, r) in log.iter().rev() {
        let o = Ops::<Q, M, V> {
            q: [Q::mk(&i.q[0]), Q::mk(&i.q[1])],
            m4: std::array::from_fn(|j| <Q::M as MatT>::mk(&i.m4[j].0, i.m4[j].1)),
            m3: std::array::from_fn(|j| M::mk(&i.m3[j].0, i.m3[j].1)),
            v: [V::mk(&i.v[0]), V::mk(&i.v[1])],
        };
        let (w, _) = outcome(*k, *four, &o, &i.p, i.x);
        req!(&w == r, "step {}: {} {} gave {}, the same operands built afresh give {}", step, NAMES[*k], text(*k, *four, i), nums(r), nums(&w));
    }
    c.nontrivial = log.len() >= 6 && kinds.count_ones() >= 4 && chained;
    Ok(())
}
fn nums(r: &[u64]) -> String {
    if r.len() == 40 {
        return "a panic".into();
    }
    format!("{:?}", r.iter().map(|b| if *b == 1 { f64::NAN } else { f64::from_bits(*b) }).collect::<Vec<_>>())
}
fn text(k: usize, four: bool, i: &In) -> String {
    match k {
        0..=16 => format!("q {:?} {:?} x {:e}", i.q[0], i.q[1], i.x),
        17..=20 => format!("q {:?} p {:?}", i.q[0], i.p),
        21..=25 => format!("p {:?} x {:e}", i.p, i.x),
        26..=39 if four => format!("A {:?} B {:?} p {:?} x {:e}", i.m4[0], i.m4[1], i.p, i.x),
        26..=39 => format!("A {:?} B {:?} p {:?} x {:e}", i.m3[0], i.m3[1], i.p, i.x),
        _ => format!("u {:?} v {:?} x {:e}", i.v[0], i.v[1], i.x),
    }
}
