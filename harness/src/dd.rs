//! Double-double arithmetic (about 106 significant bits): the reference arithmetic of the oracles.
use std::ops::{Add, Div, Mul, Neg, Sub};
#[derive(Clone, Copy, Debug, Default)]
pub struct D {
    pub h: f64,
    pub l: f64,
}
#[inline]
fn two_sum(a: f64, b: f64) -> (f64, f64) {
    let s = a + b;
    let bb = s - a;
    (s, (a - (s - bb)) + (b - bb))
}
#[inline]
fn quick_two_sum(a: f64, b: f64) -> (f64, f64) {
    let s = a + b;
    (s, b - (s - a))
}
#[inline]
fn split(a: f64) -> (f64, f64) {
    let t = 134217729.0 * a;
    let h = t - (t - a);
    (h, a - h)
}
#[inline]
fn two_prod(a: f64, b: f64) -> (f64, f64) {
    let p = a * b;
    let (ah, al) = split(a);
    let (bh, bl) = split(b);
    (p, ((ah * bh - p) + ah * bl + al * bh) + al * bl)
}
impl D {
    #[inline]
    pub fn new(x: f64) -> D {
        D { h: x, l: 0.0 }
    }
    #[inline]
    pub fn f(self) -> f64 {
        self.h + self.l
    }
    pub fn abs(self) -> D {
        if self.h < 0.0 || (self.h == 0.0 && self.l < 0.0) {
            -self
        } else {
            self
        }
    }
    pub fn sqrt(self) -> D {
        if !(self.h > 0.0) {
            return D::new(0.0);
        }
        let x = D::new(self.h.sqrt());
        let y = (x + self / x) * D::new(0.5);
        (y + self / y) * D::new(0.5)
    }
    pub fn sq(self) -> D {
        self * self
    }
    pub fn is_zero(self) -> bool {
        self.h == 0.0 && self.l == 0.0
    }
}
impl Neg for D {
    type Output = D;
    #[inline]
    fn neg(self) -> D {
        D { h: -self.h, l: -self.l }
    }
}
impl Add for D {
    type Output = D;
    #[inline]
    fn add(self, o: D) -> D {
        let (s1, s2) = two_sum(self.h, o.h);
        let (t1, t2) = two_sum(self.l, o.l);
        let (s1, s2) = quick_two_sum(s1, s2 + t1);
        let (h, l) = quick_two_sum(s1, s2 + t2);
        D { h, l }
    }
}
impl Sub for D {
    type Output = D;
    #[inline]
    fn sub(self, o: D) -> D {
        self + (-o)
    }
}
impl Mul for D {
    type Output = D;
    #[inline]
    fn mul(self, o: D) -> D {
        let (p, e) = two_prod(self.h, o.h);
        let (h, l) = quick_two_sum(p, e + (self.h * o.l + self.l * o.h));
        D { h, l }
    }
}
impl Div for D {
    type Output = D;
    #[inline]
    fn div(self, o: D) -> D {
        let q1 = self.h / o.h;
        let r = self - o * D::new(q1);
        let q2 = r.h / o.h;
        let r = r - o * D::new(q2);
        let q3 = r.h / o.h;
        let (h, l) = quick_two_sum(q1, q2);
        D { h, l } + D::new(q3)
    }
}
/// 3-vectors over D
#[derive(Clone, Copy, Debug, Default)]
pub struct V(pub [D; 3]);
impl V {
    pub fn of(v: [f64; 3]) -> V {
        V([D::new(v[0]), D::new(v[1]), D::new(v[2])])
    }
    pub fn dot(self, o: V) -> D {
        self.0[0] * o.0[0] + self.0[1] * o.0[1] + self.0[2] * o.0[2]
    }
    pub fn cross(self, o: V) -> V {
        let (a, b) = (self.0, o.0);
        V([
            a[1] * b[2] - a[2] * b[1],
            a[2] * b[0] - a[0] * b[2],
            a[0] * b[1] - a[1] * b[0],
        ])
    }
    pub fn len(self) -> D {
        self.dot(self).sqrt()
    }
    pub fn scale(self, s: D) -> V {
        V([self.0[0] * s, self.0[1] * s, self.0[2] * s])
    }
    pub fn unit(self) -> V {
        let l = self.len();
        V([self.0[0] / l, self.0[1] / l, self.0[2] / l])
    }
    pub fn f(self) -> [f64; 3] {
        [self.0[0].f(), self.0[1].f(), self.0[2].f()]
    }
}
impl Add for V {
    type Output = V;
    fn add(self, o: V) -> V {
        V([self.0[0] + o.0[0], self.0[1] + o.0[1], self.0[2] + o.0[2]])
    }
}
impl Sub for V {
    type Output = V;
    fn sub(self, o: V) -> V {
        V([self.0[0] - o.0[0], self.0[1] - o.0[1], self.0[2] - o.0[2]])
    }
}
