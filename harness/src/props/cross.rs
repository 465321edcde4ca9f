//! X01, X02: symmetry of the queries, independence of history.
use super::Prop;
use crate::engine::{Case, Res, Src};
use crate::gens::*;
use crate::geom::*;
use crate::pairs::*;
use crate::req;
use mazth::i_shape::{IShape, ShapeType};
use mazth::mat::Mat3x1;

pub fn list(v: &mut Vec<Prop>) {
    v.push(Prop { id: "X01", f: x01, quick: 48_000_000,
        rule: "one case = one pair of shapes of one of the 12 supported kinds with tolerances, asked both ways and the answers compared; non-trivial = decided by exact geometry and not a shared or concentric configuration" });
    v.push(Prop { id: "X02", f: x02, quick: 3_200_000,
        rule: "one case = a history of up to 30 (one in 64 up to 400) queries, tolerance settings and copies on 2 to 10 shared shapes, many of which share data, every answer compared bit for bit with fresh shapes and intersection answers also with exact geometry; non-trivial = at least 4 queries, one of them a yes, and a tolerance setting or copy in between" });
}
fn x01(src: &mut Src, c: &mut Case) -> Res {
    let k = src.below(12) as usize;
    let p = gen_pair(src, k);
    c.class(PAIRS[k]);
    let (ta, tb) = (p.ta.unwrap_or(1e-6), p.tb.unwrap_or(1e-6));
    let w = judge(&p.a, &p.b, ta, tb);
    let decided = w.v != Vd::Unk && (k != PT_PT || judge(&p.b, &p.a, tb, ta).v == w.v);
    let (s, d) = far_scale(src, k);
    let (p, w, ta, tb) = if s != 1.0 || d != 1.0 { (p.scaled(s, d), w.scaled(s), ta * s, tb * s) } else { (p, w, ta, tb) };
    show_pair(c, &p);
    let (a, b) = (build(&p.a, p.ta), build(&p.b, p.tb));
    c.nontrivial = decided && p.class != "same point" && p.class != "centre";
    let r = a.get_intersect(&*b);
    let s = b.get_intersect(&*a);
    c.show("a asked about b", || show_ans(&r));
    c.show("b asked about a", || show_ans(&s));
    let (al, ah) = bbox(&*a);
    let (bl, bh) = bbox(&*b);
    let fin = |v: &[f64; 3]| v.iter().filter(|x| x.is_finite()).fold(0.0f64, |m, x| m.max(x.abs()));
    let m = fin(&al).max(fin(&ah)).max(fin(&bl)).max(fin(&bh));
    let slack = 4.0 * ta.max(tb) + 1e-9 * m;
    for (nm, x) in [("a asked about b", &r), ("b asked about a", &s)] {
        match (&x.0, &x.1) {
            (true, Some(q)) => {
                req!(a3(q).iter().all(|v| v.is_finite()), "{}: yes at {:?}", nm, a3(q));
                for i in 0..3 {
                    req!(al[i] <= bh[i] + slack && bl[i] <= ah[i] + slack, "{}: yes although the bounding boxes are apart on axis {}", nm, i);
                }
            }
            (true, None) => return Err(format!("{}: yes without a location", nm)),
            (false, Some(q)) => return Err(format!("{}: no, but with the location {:?}", nm, a3(q))),
            (false, None) => {}
        }
    }
    if !decided {
        c.class("undecided within rounding");
        return Ok(());
    }
    c.class(if r.0 { "yes" } else { "no" });
    req!(r.0 == s.0, "a asked about b: {}, b asked about a: {}", show_ans(&r), show_ans(&s));
    if let (Some(x), Some(y)) = (&r.1, &s.1) {
        let (x, y) = (a3(x), a3(y));
        let tol = match (&w.loc, k) {
            // each point answers with itself: they differ by the tolerance at most
            (Loc::Near(_, t), PT_PT) => 2.0 * t + ta.max(tb) * (1.0 + 1e-9),
            (Loc::Near(_, t), _) => 2.0 * t,
            _ => return Ok(()),
        };
        for i in 0..3 {
            req!((x[i] - y[i]).abs() <= tol, "a locates it at {:?}, b at {:?} (tolerance {:.1e})", x, y, tol);
        }
    }
    Ok(())
}

/// shapes by value, so that they can be copied
#[derive(Clone)]
enum Sh {
    Point(mazth::point::Point3),
    Ray(mazth::ray::Ray3),
    Sphere(mazth::sphere::Sphere),
    Plane(mazth::plane::Plane),
    Cube(mazth::rbox::RecBox),
    Segment(mazth::line::Line3),
    Prism(mazth::triprism::TriPrism),
}
impl Sh {
    fn new(g: &G) -> Sh {
        match g {
            G::Point(p) => Sh::Point(mazth::point::Point3::init(p)),
            G::Ray(o, d) => Sh::Ray(mazth::ray::Ray3::init(o, d)),
            G::Sphere(c, r) => Sh::Sphere(mazth::sphere::Sphere::init(c, *r)),
            G::Plane(o, n) => Sh::Plane(mazth::plane::Plane::init(o, n)),
            G::Cube(c, s) => Sh::Cube(mazth::rbox::RecBox::init(c, *s)),
            G::Segment(a, b) => Sh::Segment(mazth::line::Line3::init(a, b)),
            G::Prism(v, h) => Sh::Prism(mazth::triprism::TriPrism::init(v, *h)),
        }
    }
    fn d(&self) -> &dyn IShape {
        match self {
            Sh::Point(x) => x,
            Sh::Ray(x) => x,
            Sh::Sphere(x) => x,
            Sh::Plane(x) => x,
            Sh::Cube(x) => x,
            Sh::Segment(x) => x,
            Sh::Prism(x) => x,
        }
    }
    fn m(&mut self) -> &mut dyn IShape {
        match self {
            Sh::Point(x) => x,
            Sh::Ray(x) => x,
            Sh::Sphere(x) => x,
            Sh::Plane(x) => x,
            Sh::Cube(x) => x,
            Sh::Segment(x) => x,
            Sh::Prism(x) => x,
        }
    }
}
#[derive(Clone)]
struct Model {
    g: G,
    t: Option<f64>,
}
impl Model {
    fn fresh(&self) -> Sh {
        let mut s = Sh::new(&self.g);
        if let Some(t) = self.t {
            s.m().set_vicinity(t);
        }
        s
    }
}
type Bits = Vec<u64>;
fn loc_bits(v: &mut Bits, p: &Option<Mat3x1<f64>>) {
    match p {
        Some(p) => {
            v.push(1);
            v.extend(p._val.iter().map(|x| x.to_bits()));
        }
        None => v.push(0),
    }
}
#[derive(Clone, Copy)]
enum Op {
    Intersect,
    Support([f64; 3]),
    Overlap,
    Gjk,
    Data,
    Union,
}
fn ask(op: &Op, a: &Sh, b: &Sh) -> Bits {
    let mut v = vec![];
    match op {
        Op::Intersect => {
            let r = a.d().get_intersect(b.d());
            v.push(r.0 as u64);
            loc_bits(&mut v, &r.1);
        }
        Op::Support(d) => loc_bits(&mut v, &a.d().get_support(&m3(d))),
        Op::Overlap => v.push(a.d().get_bound().intersect(b.d().get_bound()) as u64),
        Op::Gjk => v.push(match mazth::intersect_gjk::query_intersect(a.d(), b.d()) {
            None => 2,
            Some(x) => x as u64,
        }),
        Op::Data => v = state(a.d()),
        Op::Union => {
            use mazth::i_bound::IBound;
            let mut u = mazth::bound::AxisAlignedBBox::init(ShapeType::Point, &[1.0, 2.0, 3.0]);
            u.get_union(&[a.d().get_bound(), b.d().get_bound()]);
            v.extend(u.get_bound_data().iter().map(|x| x.to_bits()));
            v.extend(u.get_centroid().iter().map(|x| x.to_bits()));
        }
    }
    v
}
/// kind, data and bound
fn state(s: &dyn IShape) -> Bits {
    let mut v = vec![kind_of(&s.get_type()) as u64];
    v.extend(s.get_shape_data().iter().map(|x| x.to_bits()));
    v.extend(s.get_bound().get_bound_data()[..6].iter().map(|x| x.to_bits()));
    v
}
fn gjk_ok(a: &G, b: &G) -> bool {
    match (a, b) {
        (G::Sphere(c, r), G::Sphere(e, s)) => {
            let d = norm(&sub(c, e));
            (d - (r + s)).abs() >= 2e-3 * (d + r + s) && r / s <= 999.0 && s / r <= 999.0
        }
        _ => false,
    }
}
/// a shape that shares most of its data with another
fn relative(src: &mut Src, g: &G) -> G {
    fn one(src: &mut Src, v: &[f64; 3]) -> [f64; 3] {
        let mut w = *v;
        let i = src.below(3) as usize;
        match src.below(5) {
            0 => w[i] = -w[i],
            1 => w[i] *= 1.0 + sign(src) * logu(src, 1e-14, 1e-2),
            2 => w[i] += zigzag(src, 21),
            3 => {
                let j = src.below(3) as usize;
                w.swap(i, j);
            }
            _ => w[i] = num(src, MID),
        }
        w
    }
    fn size(src: &mut Src, r: f64) -> f64 {
        match src.below(3) {
            0 => r * (1.0 + logu(src, 1e-14, 1e-2)),
            1 => r + 1.0,
            _ => positive(src, MID),
        }
    }
    fn dir(src: &mut Src, d: &[f64; 3]) -> [f64; 3] {
        let w = if src.below(3) == 0 { d.map(|x| -x) } else { one(src, d) };
        if is_zero(&w) {
            *d
        } else {
            w
        }
    }
    let first = src.bool();
    match g {
        G::Point(p) => G::Point(one(src, p)),
        // the same numbers as another kind of shape
        G::Sphere(o, r) if src.below(4) == 3 => G::Cube(*o, *r),
        G::Cube(o, r) if src.below(4) == 3 => G::Sphere(*o, *r),
        G::Ray(o, d) if src.below(4) == 3 => G::Plane(*o, *d),
        G::Plane(o, d) if src.below(4) == 3 => G::Ray(*o, *d),
        G::Sphere(o, r) => if first { G::Sphere(one(src, o), *r) } else { G::Sphere(*o, size(src, *r)) },
        G::Cube(o, r) => if first { G::Cube(one(src, o), *r) } else { G::Cube(*o, size(src, *r)) },
        G::Ray(o, d) => if first { G::Ray(one(src, o), *d) } else { G::Ray(*o, dir(src, d)) },
        G::Plane(o, d) => if first { G::Plane(one(src, o), *d) } else { G::Plane(*o, dir(src, d)) },
        G::Segment(a, b) => if first { G::Segment(one(src, a), *b) } else { G::Segment(*a, one(src, b)) },
        G::Prism(v, h) => {
            let (mut w, mut k) = (*v, *h);
            match src.below(4) {
                0 => k = size(src, *h),
                1 => w.rotate_left(3),
                2 => (0..3).for_each(|i| w.swap(i, 3 + i)),
                _ => {
                    let i = 3 * src.below(3) as usize;
                    let p = one(src, &[w[i], w[i + 1], w[i + 2]]);
                    w[i..i + 3].copy_from_slice(&p);
                }
            }
            match prism(&w, k) {
                Some(x) if x.kappa0 <= 1e4 => G::Prism(w, k),
                _ => *g,
            }
        }
    }
}
fn x02(src: &mut Src, c: &mut Case) -> Res {
    let mut ms: Vec<Model> = vec![];
    let n = 1 + src.below(3);
    for _ in 0..n {
        if src.below(4) == 3 {
            let k = src.below(7) as usize;
            ms.push(Model { g: gen_shape(src, k, MID), t: None });
        } else {
            let k = src.below(12) as usize;
            let p = gen_pair(src, k);
            ms.push(Model { g: p.a, t: None });
            ms.push(Model { g: p.b, t: None });
        }
    }
    if ms.len() < 2 {
        let k = src.below(7) as usize;
        ms.push(Model { g: gen_shape(src, k, MID), t: None });
    }
    let mut sh: Vec<Sh> = ms.iter().map(|m| m.fresh()).collect();
    for (i, m) in ms.iter().enumerate() {
        c.show("shape", || format!("{}: {}", i, m.g.show()));
    }
    let mut states: Vec<Bits> = sh.iter().map(|s| state(s.d())).collect();
    // (step, op, operands at that time, answer)
    let mut log: Vec<(u64, Op, Model, Model, Bits, String)> = vec![];
    // now and then long ones
    let steps = 1 + if src.below(64) == 63 { src.below(400) } else { src.below(30) };
    let (mut queries, mut yes, mut changes) = (0, 0, 0);
    for step in 0..steps {
        c.steps += 1;
        let i = src.below(ms.len() as u64) as usize;
        let op = match src.below(16) {
            0..=6 => {
                // a supported partner of i, starting anywhere
                let s = src.below(ms.len() as u64) as usize;
                let j = (0..ms.len()).map(|q| (q + s) % ms.len()).find(|j| *j != i && pair_of(ms[i].g.kind(), ms[*j].g.kind()).is_some());
                match j {
                    Some(j) => Some((Op::Intersect, j)),
                    None => None,
                }
            }
            7 | 8 => {
                let d = nzv3(src, MID);
                match ms[i].g {
                    // segments offer no support function
                    G::Segment(..) => Some((Op::Data, i)),
                    _ => Some((Op::Support(d), i)),
                }
            }
            9 => Some((Op::Overlap, src.below(ms.len() as u64) as usize)),
            10 => {
                let j = src.below(ms.len() as u64) as usize;
                if gjk_ok(&ms[i].g, &ms[j].g) {
                    Some((Op::Gjk, j))
                } else {
                    Some((Op::Overlap, j))
                }
            }
            11 => Some((Op::Data, i)),
            12 => Some((Op::Union, src.below(ms.len() as u64) as usize)),
            13 | 14 => {
                let e = match src.below(5) {
                    0 => zigzag(src, 9),
                    1 => 0.0,
                    2 => dict(src, false),
                    _ => sign(src) * logu(src, 1e-9, 1e2),
                };
                c.show("step", || format!("{}: tolerance of {} := {:e}", step, i, e));
                sh[i].m().set_vicinity(e);
                ms[i].t = Some(e);
                changes += 1;
                None
            }
            _ => {
                if ms.len() < 10 {
                    let (m, s) = if src.bool() {
                        c.show("step", || format!("{}: shape {} := copy of {}", step, ms.len(), i));
                        (ms[i].clone(), sh[i].clone())
                    } else {
                        let m = Model { g: relative(src, &ms[i].g), t: None };
                        c.show("step", || format!("{}: shape {} := {}", step, ms.len(), m.g.show()));
                        let s = m.fresh();
                        (m, s)
                    };
                    states.push(state(s.d()));
                    ms.push(m);
                    sh.push(s);
                    changes += 1;
                }
                None
            }
        };
        if let Some((op, j)) = op {
            queries += 1;
            let text = || match op {
                Op::Intersect => format!("{} asked about {}", i, j),
                Op::Support(d) => format!("support of {} in {:?}", i, d),
                Op::Overlap => format!("box overlap of {} and {}", i, j),
                Op::Gjk => format!("GJK on {} and {}", i, j),
                Op::Data => format!("data of {}", i),
                Op::Union => format!("box union of {} and {}", i, j),
            };
            let r = ask(&op, &sh[i], &sh[j]);
            c.show("step", || format!("{}: {} -> {:x?}", step, text(), r));
            if let Op::Intersect = op {
                c.class(PAIRS[pair_of(ms[i].g.kind(), ms[j].g.kind()).unwrap().0]);
                yes += (r[0] == 1) as u32;
                // an answer kept from another query would be wrong by exact geometry
                let (k, swap) = pair_of(ms[i].g.kind(), ms[j].g.kind()).unwrap();
                if k != RAY_RAY || (ms[i].t.is_none() && ms[j].t.is_none()) {
                    let (x, y) = if swap { (&ms[j], &ms[i]) } else { (&ms[i], &ms[j]) };
                    let t = |m: &Model| m.t.unwrap_or(1e-6).abs();
                    let w = judge(&x.g, &y.g, t(x), t(y));
                    if w.v != Vd::Unk {
                        let p = if r[1] == 1 { Some(Mat3x1 { _val: std::array::from_fn(|i| f64::from_bits(r[2 + i])) }) } else { None };
                        check(&x.g, &y.g, &w, &(r[0] == 1, p), "within a history")?;
                    }
                }
            }
            if src.below(3) == 0 {
                // compared at once, the rest at the end in reverse order
                let w = ask(&op, &ms[i].fresh(), &ms[j].fresh());
                req!(w == r, "step {}: {}: {:x?}, fresh shapes answer {:x?}", step, text(), r, w);
            } else {
                log.push((step, op, ms[i].clone(), ms[j].clone(), r, text()));
            }
        }
        for k in 0..sh.len() {
            req!(state(sh[k].d()) == states[k], "step {}: the data or bound of shape {} changed", step, k);
            let t = ms[k].t.map(|x| x.abs()).unwrap_or(1e-6);
            let (i, o) = (t * (1.0 - 1e-9), t * (1.0 + 1e-9) + if t == 0.0 { 1e-9 } else { 0.0 });
            req!(sh[k].d().within_vicinity(0.0, i) && !sh[k].d().within_vicinity(0.0, o), "step {}: the tolerance of shape {} is not {:e}", step, k, t);
        }
    }
    for (step, op, a, b, r, text) in log.iter().rev() {
        let w = ask(op, &a.fresh(), &b.fresh());
        req!(&w == r, "step {}: {}: {:x?}, fresh shapes answer {:x?}", step, text, r, w);
    }
    c.nontrivial = queries >= 4 && yes >= 1 && changes >= 1;
    Ok(())
}
