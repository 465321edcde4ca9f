//! I01..I13: intersection queries against exact geometry.
use super::Prop;
use crate::dd::V;
use crate::engine::{Case, Res, Src};
use crate::gens::*;
use crate::pairs::*;
use crate::req;
use mazth::i_bound::IBound;
use mazth::i_shape::{IShape, ShapeType};
use mazth::i_vicinity::IVicinity;
use mazth::mat::Mat3x1;
use std::cell::Cell;

macro_rules! pairprop {
    ($id:expr, $k:expr, $n:expr, $v:expr) => {
        $v.push(Prop {
            id: $id,
            f: |s, c| pair_case($k, s, c),
            quick: $n,
            rule: "one case = one pair of shapes (and tolerances) in a chosen configuration, asked both ways; non-trivial = the oracle decides it and the configuration is not an identical or concentric one",
        })
    };
}
pub fn list(v: &mut Vec<Prop>) {
    pairprop!("I01", PT_PT, 60_000_000, v);
    pairprop!("I02", PT_PLANE, 64_000_000, v);
    pairprop!("I03", PT_RAY, 64_000_000, v);
    pairprop!("I04", PT_SPHERE, 64_000_000, v);
    pairprop!("I05", PT_CUBE, 60_000_000, v);
    pairprop!("I06", PT_PRISM, 16_000_000, v);
    pairprop!("I07", RAY_RAY, 40_000_000, v);
    pairprop!("I08", RAY_SPHERE, 48_000_000, v);
    pairprop!("I09", RAY_PLANE, 48_000_000, v);
    pairprop!("I10", SPH_SPH, 64_000_000, v);
    pairprop!("I11", SPH_PLANE, 64_000_000, v);
    pairprop!("I12", SEG_PRISM, 12_000_000, v);
    v.push(Prop { id: "I13", f: i13, quick: 24_000_000,
        rule: "one case = two spheres at a chosen direction and relative gap or overlap, asked both ways with counted support evaluations; non-trivial = within the stated margin and not concentric" });
}
fn pair_case(k: usize, src: &mut Src, c: &mut Case) -> Res {
    let p = gen_pair(src, k);
    c.class(p.class);
    let (ta, tb) = (p.ta.unwrap_or(1e-6), p.tb.unwrap_or(1e-6));
    let w = judge(&p.a, &p.b, ta, tb);
    let w2 = if k == PT_PT { judge(&p.b, &p.a, tb, ta) } else { Ans { v: w.v, loc: w.loc.clone() } };
    c.nontrivial = w.v != Vd::Unk && p.class != "same point" && p.class != "centre";
    let (s, d) = far_scale(src, k);
    let (p, w, w2) = if s != 1.0 || d != 1.0 {
        c.class("scaled by a power of two beyond the usual range");
        (p.scaled(s, d), w.scaled(s), w2.scaled(s))
    } else {
        (p, w, w2)
    };
    show_pair(c, &p);
    let (a, b) = (build(&p.a, p.ta), build(&p.b, p.tb));
    c.show("expected", || format!("{:?} {:?}", w.v, w.loc));
    c.class(match w.v {
        Vd::Hit => "expected yes",
        Vd::Miss => "expected no",
        Vd::Unk => "undecided within rounding",
    });
    let r = a.get_intersect(&*b);
    check(&p.a, &p.b, &w, &r, "a asked about b")?;
    let r = b.get_intersect(&*a);
    if k == PT_PT {
        check(&p.b, &p.a, &w2, &r, "b asked about a")
    } else {
        check(&p.a, &p.b, &w, &r, "b asked about a")
    }
}
/// a shape that counts its support evaluations
pub struct Counted {
    pub s: Box<dyn IShape>,
    pub n: Cell<u32>,
}
pub const SUPPORT_LIMIT: u32 = 4000;
impl IVicinity<f64> for Counted {
    fn set_vicinity(&mut self, e: f64) {
        self.s.set_vicinity(e)
    }
    fn within_vicinity(&self, a: f64, b: f64) -> bool {
        self.s.within_vicinity(a, b)
    }
}
impl IShape for Counted {
    fn get_shape_data(&self) -> Vec<f64> {
        self.s.get_shape_data()
    }
    fn get_type(&self) -> ShapeType {
        self.s.get_type()
    }
    fn get_bound(&self) -> &dyn IBound {
        self.s.get_bound()
    }
    fn get_intersect(&self, o: &dyn IShape) -> (bool, Option<Mat3x1<f64>>) {
        self.s.get_intersect(o)
    }
    fn get_support(&self, v: &Mat3x1<f64>) -> Option<Mat3x1<f64>> {
        let n = self.n.get() + 1;
        self.n.set(n);
        if n > SUPPORT_LIMIT {
            panic!("{}: more than {} support evaluations", crate::engine::UNFINISHED, SUPPORT_LIMIT);
        }
        self.s.get_support(v)
    }
}
fn i13(src: &mut Src, c: &mut Case) -> Res {
    let c1 = match src.below(3) {
        0 => [0.0; 3],
        _ => v3(src, MID),
    };
    let r1 = positive(src, MID);
    let r2 = match src.below(4) {
        0 => r1,
        1 => positive(src, MID),
        _ => (r1 * logu(src, 1e-3, 1e3)).max(1e-3).min(1e3),
    };
    let (ra, rb) = (r1.max(r2 / 1000.0), r2.max(r1 / 1000.0));
    let u = match src.below(3) {
        0 => {
            let mut e = [0.0; 3];
            e[src.below(3) as usize] = sign(src);
            // slightly off an axis
            if src.bool() {
                let i = src.below(3) as usize;
                e[i] += sign(src) * logu(src, 1e-12, 1e-1);
                if is_zero(&e) {
                    e[0] = 1.0;
                }
            }
            unitv(&e)
        }
        _ => unitv(&nzv3(src, MID)),
    };
    let sum = ra + rb;
    let m = match src.below(4) {
        0 => 1.01e-3,
        _ => logu(src, 1.01e-3, 1.0),
    };
    // |d - sum| >= m (d + sum)
    let (d, class) = match src.below(6) {
        0 | 1 => (sum * (1.0 + m) / (1.0 - m).max(1e-3), "apart near"),
        2 => (sum * (1.1 + 100.0 * unit(src)), "apart far"),
        3 => (sum * (1.0 - m) / (1.0 + m), "overlapping near"),
        4 => (sum * 0.9 * unit(src), "overlapping deep"),
        _ => (0.0, "concentric"),
    };
    c.class(class);
    let mut c2 = fix3(add(&c1, &mulv(&u, d)), Dom::new(1e-3, 1e6));
    if src.below(8) == 7 {
        // their extents just touch, or the centres just align, on one or two axes
        c.class("aligned or touching extents on an axis");
        for _ in 0..1 + src.below(2) {
            let i = src.below(3) as usize;
            c2[i] = c1[i] + [sum, -sum, 0.0, ra - rb, rb - ra, ra, -rb][src.below(7) as usize];
        }
    }
    let far = far_scale(src, SPH_SPH).0;
    let (c1, c2, ra, rb, sum) = (c1.map(|x| x * far), c2.map(|x| x * far), ra * far, rb * far, sum * far);
    let dd = (V::of(c2) - V::of(c1)).len().f();
    c.show("a", || format!("centre {:?} radius {:e}", c1, ra));
    c.show("b", || format!("centre {:?} radius {:e}", c2, rb));
    c.show("distance and sum of radii", || format!("{:e} {:e}", dd, sum));
    if (dd - sum).abs() < 1e-3 * (dd + sum) {
        c.class("within the stated margin of touching (skipped)");
        return Ok(());
    }
    c.nontrivial = dd > 0.0;
    let want = dd < sum;
    let mk = |o: &[f64; 3], r: f64| Counted { s: Box::new(mazth::sphere::Sphere::init(o, r)), n: Cell::new(0) };
    let (a, b) = (mk(&c1, ra), mk(&c2, rb));
    for (nm, x, y) in [("a,b", &a, &b), ("b,a", &b, &a)] {
        x.n.set(0);
        y.n.set(0);
        let r = mazth::intersect_gjk::query_intersect(x, y);
        let n = x.n.get() + y.n.get();
        c.class(match n {
            0..=4 => "up to 4 support evaluations",
            5..=8 => "5 to 8 support evaluations",
            9..=16 => "9 to 16 support evaluations",
            _ => "more than 16 support evaluations",
        });
        req!(r == Some(want), "query({}): {:?}, expected {}", nm, r, want);
    }
    // and on plain spheres
    let r = mazth::intersect_gjk::query_intersect(&*a.s, &*b.s);
    req!(r == Some(want), "query on plain spheres: {:?}, expected {}", r, want);
    Ok(())
}
