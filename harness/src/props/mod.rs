pub mod algebra;
pub mod bounds;
pub mod cross;
pub mod isect;
pub mod mats;
pub mod motion;
pub mod quats;
pub mod refuse;
pub mod relate;
pub mod shapes;
pub mod vecs;
use crate::engine::{PropFn, Res};

pub struct Prop {
    pub id: &'static str,
    pub f: PropFn,
    /// quick-tier case count
    pub quick: u64,
    pub rule: &'static str,
}
#[macro_export]
macro_rules! req {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}
/// |got - want| <= tol, NaN never passes
#[inline]
pub fn near<F: FnOnce() -> String>(got: f64, want: f64, tol: f64, what: F) -> Res {
    if got == want || (got - want).abs() <= tol {
        Ok(())
    } else {
        Err(format!("{}: got {:e}, expected {:e} (tolerance {:.2e})", what(), got, want, tol))
    }
}
pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    vecs::list(&mut v);
    mats::list(&mut v);
    quats::list(&mut v);
    motion::list(&mut v);
    bounds::list(&mut v);
    shapes::list(&mut v);
    isect::list(&mut v);
    cross::list(&mut v);
    algebra::list(&mut v);
    relate::list(&mut v);
    refuse::list(&mut v);
    v
}
