//! One face for all vector, matrix and quaternion types in both precisions.
use mazth::i_comparable::IComparableError;
use mazth::mat::*;
use mazth::quat::Quat;

pub trait Sc: Copy + PartialOrd + PartialEq + std::fmt::Debug + std::panic::UnwindSafe + std::panic::RefUnwindSafe + 'static {
    const EPS: f64;
    const SINGLE: bool;
    fn f(self) -> f64;
    fn of(x: f64) -> Self;
    fn bits(self) -> u64;
}
impl Sc for f32 {
    const EPS: f64 = f32::EPSILON as f64;
    const SINGLE: bool = true;
    fn f(self) -> f64 {
        self as f64
    }
    fn of(x: f64) -> f32 {
        x as f32
    }
    fn bits(self) -> u64 {
        self.to_bits() as u64
    }
}
impl Sc for f64 {
    const EPS: f64 = f64::EPSILON;
    const SINGLE: bool = false;
    fn f(self) -> f64 {
        self
    }
    fn of(x: f64) -> f64 {
        x
    }
    fn bits(self) -> u64 {
        self.to_bits()
    }
}

pub trait VecT: Copy + std::panic::UnwindSafe {
    type T: Sc;
    const N: usize;
    const NAME: &'static str;
    fn mk(v: &[f64; 4]) -> Self;
    fn at(&self, i: usize) -> Self::T;
    fn put(&mut self, i: usize, x: Self::T);
    fn raw(&self, i: usize) -> Self::T;
    fn dflt() -> Self;
    fn size_(&self) -> Option<usize>;
    fn plus_(&self, o: &Self) -> Option<Self>;
    fn minus_(&self, o: &Self) -> Option<Self>;
    fn mul_(&self, o: &Self) -> Option<Self>;
    fn div_(&self, o: &Self) -> Option<Self>;
    fn scale_(&self, s: Self::T) -> Option<Self>;
    fn dot_(&self, o: &Self) -> Option<Self::T>;
    fn cross_(&self, o: &Self) -> Option<Self>;
    fn mag_(&self) -> Option<Self::T>;
    fn norm_(self) -> Option<Self>;
    /// components of the transposed vector
    fn tr_(self) -> [f64; 4];
    /// transposed twice
    fn tr2_(self) -> Self;
    fn eq_(&self, o: &Self, e: Self::T) -> Option<bool>;
    fn g(&self) -> [f64; 4] {
        let mut v = [0.0; 4];
        for i in 0..Self::N {
            v[i] = self.raw(i).f();
        }
        v
    }
}
macro_rules! vect {
    ($ty:ident, $t:ty, $n:expr, $name:expr) => {
        impl VecT for $ty<$t> {
            type T = $t;
            const N: usize = $n;
            const NAME: &'static str = $name;
            fn mk(v: &[f64; 4]) -> Self {
                let mut a = [0 as $t; $n];
                for i in 0..$n {
                    a[i] = v[i] as $t;
                }
                $ty { _val: a }
            }
            fn at(&self, i: usize) -> $t {
                self[i]
            }
            fn put(&mut self, i: usize, x: $t) {
                self[i] = x;
            }
            fn raw(&self, i: usize) -> $t {
                self._val[i]
            }
            fn dflt() -> Self {
                Default::default()
            }
            fn size_(&self) -> Option<usize> {
                self.size()
            }
            fn plus_(&self, o: &Self) -> Option<Self> {
                self.plus(o)
            }
            fn minus_(&self, o: &Self) -> Option<Self> {
                self.minus(o)
            }
            fn mul_(&self, o: &Self) -> Option<Self> {
                self.mul_elem(o)
            }
            fn div_(&self, o: &Self) -> Option<Self> {
                self.div(o)
            }
            fn scale_(&self, s: $t) -> Option<Self> {
                self.scale(s)
            }
            fn dot_(&self, o: &Self) -> Option<$t> {
                self.dot(o)
            }
            fn cross_(&self, o: &Self) -> Option<Self> {
                self.cross(o)
            }
            fn mag_(&self) -> Option<$t> {
                self.magnitude()
            }
            fn norm_(self) -> Option<Self> {
                self.normalize()
            }
            fn tr_(self) -> [f64; 4] {
                let t = self.transpose();
                let mut v = [0.0; 4];
                for i in 0..$n {
                    v[i] = t[i] as f64;
                }
                v
            }
            fn tr2_(self) -> Self {
                self.transpose().transpose()
            }
            fn eq_(&self, o: &Self, e: $t) -> Option<bool> {
                self.is_equal(o, e)
            }
        }
    };
}
vect!(Mat2x1, f32, 2, "column 2-vector f32");
vect!(Mat2x1, f64, 2, "column 2-vector f64");
vect!(Mat1x2, f32, 2, "row 2-vector f32");
vect!(Mat1x2, f64, 2, "row 2-vector f64");
vect!(Mat3x1, f32, 3, "column 3-vector f32");
vect!(Mat3x1, f64, 3, "column 3-vector f64");
vect!(Mat1x3, f32, 3, "row 3-vector f32");
vect!(Mat1x3, f64, 3, "row 3-vector f64");
vect!(Mat4x1, f32, 4, "column 4-vector f32");
vect!(Mat4x1, f64, 4, "column 4-vector f64");
vect!(Mat1x4, f32, 4, "row 4-vector f32");
vect!(Mat1x4, f64, 4, "row 4-vector f64");

pub trait MatT: Copy + std::panic::UnwindSafe + std::panic::RefUnwindSafe {
    type T: Sc;
    const N: usize;
    const NAME: &'static str;
    /// from a row-by-row listing
    fn mk(v: &[f64; 16], row_major: bool) -> Self;
    fn at(&self, i: usize, j: usize) -> Self::T;
    fn put(&mut self, i: usize, j: usize, x: Self::T);
    fn raw(&self, i: usize) -> Self::T;
    fn row_major(&self) -> bool;
    fn dflt() -> Self;
    fn iden_() -> Self;
    fn size_(&self) -> Option<usize>;
    fn trace_(&self) -> Self::T;
    fn plus_(&self, o: &Self) -> Option<Self>;
    fn minus_(&self, o: &Self) -> Option<Self>;
    fn mul_elem_(&self, o: &Self) -> Option<Self>;
    fn div_(&self, o: &Self) -> Option<Self>;
    fn mul_(&self, o: &Self) -> Option<Self>;
    fn dot_(&self, o: &Self) -> Option<Self::T>;
    fn cross_(&self, o: &Self) -> Option<Self>;
    fn mul_col(&self, v: &[f64; 4]) -> Option<[f64; 4]>;
    fn row_mul(v: &[f64; 4], m: &Self) -> Option<[f64; 4]>;
    fn scale_(&self, s: Self::T) -> Option<Self>;
    fn norm_(self) -> Option<Self>;
    fn tr_(self) -> Self;
    fn tr_self(&mut self);
    fn inv_(&self) -> Option<Self>;
    /// the upper-left 3x3 part (None if not supported): entries by row, layout
    fn sub_(&self) -> Option<([f64; 9], bool)>;
    fn eq_(&self, o: &Self, e: Self::T) -> Option<bool>;
    /// logical entries, row by row
    fn g(&self) -> [f64; 16] {
        let mut v = [0.0; 16];
        for i in 0..Self::N {
            for j in 0..Self::N {
                v[i * Self::N + j] = self.at(i, j).f();
            }
        }
        v
    }
}
macro_rules! matt {
    ($ty:ident, $t:ty, $n:expr, $name:expr, $mulcol:ident, $col:ident, $row:ident, $rowmul:ident, $sub:expr) => {
        impl MatT for $ty<$t> {
            type T = $t;
            const N: usize = $n;
            const NAME: &'static str = $name;
            fn mk(v: &[f64; 16], row_major: bool) -> Self {
                let mut a = [0 as $t; $n * $n];
                for i in 0..$n * $n {
                    a[i] = v[i] as $t;
                }
                $ty::<$t>::init(a, row_major)
            }
            fn at(&self, i: usize, j: usize) -> $t {
                self.index(i as u64, j as u64)
            }
            fn put(&mut self, i: usize, j: usize, x: $t) {
                *self.index_mut(i as u64, j as u64) = x;
            }
            fn raw(&self, i: usize) -> $t {
                self._val[i]
            }
            fn row_major(&self) -> bool {
                self._is_row_major
            }
            fn dflt() -> Self {
                Default::default()
            }
            fn iden_() -> Self {
                $ty::<$t>::iden()
            }
            fn size_(&self) -> Option<usize> {
                self.size()
            }
            fn trace_(&self) -> $t {
                self.trace()
            }
            fn plus_(&self, o: &Self) -> Option<Self> {
                self.plus(o)
            }
            fn minus_(&self, o: &Self) -> Option<Self> {
                self.minus(o)
            }
            fn mul_elem_(&self, o: &Self) -> Option<Self> {
                self.mul_elem(o)
            }
            fn div_(&self, o: &Self) -> Option<Self> {
                self.div(o)
            }
            fn mul_(&self, o: &Self) -> Option<Self> {
                self.mul(o)
            }
            fn dot_(&self, o: &Self) -> Option<$t> {
                self.dot(o)
            }
            fn cross_(&self, o: &Self) -> Option<Self> {
                self.cross(o)
            }
            fn mul_col(&self, v: &[f64; 4]) -> Option<[f64; 4]> {
                self.$mulcol(&<$col<$t> as VecT>::mk(v)).map(|r| r.g())
            }
            fn row_mul(v: &[f64; 4], m: &Self) -> Option<[f64; 4]> {
                <$row<$t> as VecT>::mk(v).$rowmul(m).map(|r| r.g())
            }
            fn scale_(&self, s: $t) -> Option<Self> {
                self.scale(s)
            }
            fn norm_(self) -> Option<Self> {
                self.normalize()
            }
            fn tr_(self) -> Self {
                self.transpose()
            }
            fn tr_self(&mut self) {
                self.transpose_self()
            }
            fn inv_(&self) -> Option<Self> {
                self.inverse()
            }
            fn sub_(&self) -> Option<([f64; 9], bool)> {
                $sub(self)
            }
            fn eq_(&self, o: &Self, e: $t) -> Option<bool> {
                self.is_equal(o, e)
            }
        }
    };
}
macro_rules! sub4 {
    ($t:ty) => {
        |m: &Mat4<$t>| {
            let s = m.submat_mat3();
            let mut o = [0.0; 9];
            for i in 0..3 {
                for j in 0..3 {
                    o[i * 3 + j] = s.index(i as u64, j as u64) as f64;
                }
            }
            Some((o, s._is_row_major))
        }
    };
}
matt!(Mat3, f32, 3, "3x3 f32", mul_mat3x1, Mat3x1, Mat1x3, mul_mat3x3, |_m: &Mat3<f32>| None);
matt!(Mat3, f64, 3, "3x3 f64", mul_mat3x1, Mat3x1, Mat1x3, mul_mat3x3, |_m: &Mat3<f64>| None);
matt!(Mat4, f32, 4, "4x4 f32", mul_mat4x1, Mat4x1, Mat1x4, mul_mat4x4, sub4!(f32));
matt!(Mat4, f64, 4, "4x4 f64", mul_mat4x1, Mat4x1, Mat1x4, mul_mat4x4, sub4!(f64));

pub type Q4 = [f64; 4]; // x y z w
pub trait QuatT: Copy + std::panic::UnwindSafe {
    type T: Sc;
    type M: MatT;
    const NAME: &'static str;
    fn mk(v: &Q4) -> Self;
    fn g(&self) -> Q4;
    fn dflt() -> Self;
    fn init_() -> Self;
    fn normalized(v: &Q4) -> Self;
    fn auto_w(v: &[f64; 3]) -> Self;
    fn from_translation(v: &[f64; 3]) -> Self;
    fn aa_deg(axis: &[f64; 3], a: f64) -> Self;
    fn aa_rad(axis: &[f64; 3], a: f64) -> Self;
    fn to_aa(&self) -> ([f64; 3], f64);
    fn trans_m(&self, row_major: bool) -> Self::M;
    fn rot_m(&self, row_major: bool) -> Self::M;
    fn rotate(&self, v: &[f64; 3]) -> [f64; 3];
    fn reflect(&self, v: &[f64; 3]) -> [f64; 3];
    fn par(&self, v: &[f64; 3]) -> [f64; 3];
    fn orth(&self, v: &[f64; 3]) -> [f64; 3];
    fn add_(&self, o: Self) -> Self;
    fn minus_(&self, o: Self) -> Self;
    fn mul_(&self, o: Self) -> Self;
    fn len2(&self) -> f64;
    fn len(&self) -> f64;
    fn norm_(&self) -> Self;
    fn ln_(&self) -> Self;
    fn pow_(&self, t: f64) -> Self;
    fn neg(&self) -> Self;
    fn conj(&self) -> Self;
    fn scale_(&self, s: f64) -> Self;
    fn inv(&self) -> Self;
    fn lerp(a: Self, b: Self, t: f64) -> Self;
    fn slerp(a: Self, b: Self, t: f64) -> Self;
    fn dual(a: Self, b: Self) -> (Q4, Q4);
}
macro_rules! quatt {
    ($t:ty, $name:expr) => {
        impl QuatT for Quat<$t> {
            type T = $t;
            type M = Mat4<$t>;
            const NAME: &'static str = $name;
            fn mk(v: &Q4) -> Self {
                Quat::<$t>::init_from_vals_raw(v[0] as $t, v[1] as $t, v[2] as $t, v[3] as $t)
            }
            fn g(&self) -> Q4 {
                [self._x as f64, self._y as f64, self._z as f64, self._w as f64]
            }
            fn dflt() -> Self {
                Default::default()
            }
            fn init_() -> Self {
                Quat::<$t>::init()
            }
            fn normalized(v: &Q4) -> Self {
                Quat::<$t>::init_from_vals_normalize(v[0] as $t, v[1] as $t, v[2] as $t, v[3] as $t)
            }
            fn auto_w(v: &[f64; 3]) -> Self {
                Quat::<$t>::init_from_vals_auto_w(v[0] as $t, v[1] as $t, v[2] as $t)
            }
            fn from_translation(v: &[f64; 3]) -> Self {
                Quat::<$t>::init_from_translation(m31::<$t>(v))
            }
            fn aa_deg(axis: &[f64; 3], a: f64) -> Self {
                Quat::<$t>::init_from_axis_angle_degree((m31::<$t>(axis), a as $t))
            }
            fn aa_rad(axis: &[f64; 3], a: f64) -> Self {
                Quat::<$t>::init_from_axis_angle_radian((m31::<$t>(axis), a as $t))
            }
            fn to_aa(&self) -> ([f64; 3], f64) {
                let (v, a) = self.to_axis_angle();
                ([v[0] as f64, v[1] as f64, v[2] as f64], a as f64)
            }
            fn trans_m(&self, row_major: bool) -> Self::M {
                self.to_translation_matrix(row_major)
            }
            fn rot_m(&self, row_major: bool) -> Self::M {
                self.to_rotation_matrix(row_major)
            }
            fn rotate(&self, v: &[f64; 3]) -> [f64; 3] {
                g3(self.rotate_vector(m31::<$t>(v)))
            }
            fn reflect(&self, v: &[f64; 3]) -> [f64; 3] {
                g3(self.reflection_in_plane(m31::<$t>(v)))
            }
            fn par(&self, v: &[f64; 3]) -> [f64; 3] {
                g3(self.parallel_component_of_plane(m31::<$t>(v)))
            }
            fn orth(&self, v: &[f64; 3]) -> [f64; 3] {
                g3(self.orthogonal_component_of_plane(m31::<$t>(v)))
            }
            fn add_(&self, o: Self) -> Self {
                self.add(o)
            }
            fn minus_(&self, o: Self) -> Self {
                self.minus(o)
            }
            fn mul_(&self, o: Self) -> Self {
                self.mul(o)
            }
            fn len2(&self) -> f64 {
                self.length_squared() as f64
            }
            fn len(&self) -> f64 {
                self.length() as f64
            }
            fn norm_(&self) -> Self {
                self.normalize()
            }
            fn ln_(&self) -> Self {
                self.ln()
            }
            fn pow_(&self, t: f64) -> Self {
                self.pow(t as $t)
            }
            fn neg(&self) -> Self {
                self.negate()
            }
            fn conj(&self) -> Self {
                self.conjugate()
            }
            fn scale_(&self, s: f64) -> Self {
                self.scale(s as $t)
            }
            fn inv(&self) -> Self {
                self.inverse()
            }
            fn lerp(a: Self, b: Self, t: f64) -> Self {
                Quat::<$t>::interpolate_linear(a, b, t as $t)
            }
            fn slerp(a: Self, b: Self, t: f64) -> Self {
                Quat::<$t>::interpolate_slerp(a, b, t as $t)
            }
            fn dual(a: Self, b: Self) -> (Q4, Q4) {
                let d = mazth::dualquat::DualQuat::<$t>::init(a, b);
                (QuatT::g(&d._rot), QuatT::g(&d._tra))
            }
        }
    };
}
fn m31<T: Sc>(v: &[f64; 3]) -> Mat3x1<T> {
    Mat3x1 { _val: [T::of(v[0]), T::of(v[1]), T::of(v[2])] }
}
fn g3<T: Sc>(v: Mat3x1<T>) -> [f64; 3] {
    [v._val[0].f(), v._val[1].f(), v._val[2].f()]
}
quatt!(f32, "f32");
quatt!(f64, "f64");
