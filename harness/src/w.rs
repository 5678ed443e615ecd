//! A user's own scalar: f64 that counts comparisons and orientation tests.
use float_next_after::NextAfter;
use geo::kernels::{HasKernel, Kernel, Orientation, RobustKernel};
use geo::Coordinate;
use num_traits::{Float, Num, NumCast, One, ToPrimitive, Zero};
use std::cell::Cell;
use std::cmp::Ordering;
use std::num::FpCategory;
use std::ops::*;

thread_local! { static N: Cell<u64> = const { Cell::new(0) }; static CAP: Cell<u64> = const { Cell::new(u64::MAX) }; }
/// Start counting; more than `cap` operations panic.
pub fn start(cap: u64) { N.with(|n| n.set(0)); CAP.with(|c| c.set(cap)); }
pub fn count() -> u64 { N.with(|n| n.get()) }
#[inline]
pub fn tick() {
    N.with(|n| { n.set(n.get() + 1); if n.get() > CAP.with(|c| c.get()) { CAP.with(|c| c.set(u64::MAX)); panic!("work bound exceeded: more than {} comparisons", n.get() - 1); } })
}

#[derive(Clone, Copy, Debug, Default)]
pub struct W(pub f64);
impl PartialEq for W { #[inline] fn eq(&self, o: &W) -> bool { tick(); self.0 == o.0 } }
impl PartialOrd for W { #[inline] fn partial_cmp(&self, o: &W) -> Option<Ordering> { tick(); self.0.partial_cmp(&o.0) } }
macro_rules! op { ($t:ident $f:ident) => { impl $t for W { type Output = W; #[inline] fn $f(self, o: W) -> W { W($t::$f(self.0, o.0)) } } } }
op!(Add add); op!(Sub sub); op!(Mul mul); op!(Div div); op!(Rem rem);
impl Neg for W { type Output = W; fn neg(self) -> W { W(-self.0) } }
impl Zero for W { fn zero() -> W { W(0.) } fn is_zero(&self) -> bool { self.0 == 0. } }
impl One for W { fn one() -> W { W(1.) } }
impl Num for W { type FromStrRadixErr = <f64 as Num>::FromStrRadixErr; fn from_str_radix(s: &str, r: u32) -> Result<W, Self::FromStrRadixErr> { f64::from_str_radix(s, r).map(W) } }
impl ToPrimitive for W { fn to_i64(&self) -> Option<i64> { self.0.to_i64() } fn to_u64(&self) -> Option<u64> { self.0.to_u64() } fn to_f64(&self) -> Option<f64> { Some(self.0) } }
impl NumCast for W { fn from<T: ToPrimitive>(n: T) -> Option<W> { n.to_f64().map(W) } }
macro_rules! c { ($($f:ident)*) => { $(fn $f() -> W { W(Float::$f()) })* } }
macro_rules! b { ($($f:ident)*) => { $(fn $f(self) -> bool { Float::$f(self.0) })* } }
macro_rules! u { ($($f:ident)*) => { $(fn $f(self) -> W { W(Float::$f(self.0)) })* } }
macro_rules! v { ($($f:ident)*) => { $(fn $f(self, o: W) -> W { W(Float::$f(self.0, o.0)) })* } }
impl Float for W {
    c!(nan infinity neg_infinity neg_zero min_value min_positive_value max_value epsilon);
    b!(is_nan is_infinite is_finite is_normal is_sign_positive is_sign_negative);
    u!(floor ceil round trunc fract abs signum recip sqrt exp exp2 ln log2 log10 cbrt sin cos tan asin acos atan exp_m1 ln_1p sinh cosh tanh asinh acosh atanh);
    v!(powf log max min hypot atan2);
    fn classify(self) -> FpCategory { self.0.classify() }
    fn mul_add(self, a: W, b: W) -> W { W(self.0.mul_add(a.0, b.0)) }
    fn powi(self, n: i32) -> W { W(self.0.powi(n)) }
    fn abs_sub(self, o: W) -> W { W((self.0 - o.0).max(0.)) }
    fn sin_cos(self) -> (W, W) { let (a, b) = self.0.sin_cos(); (W(a), W(b)) }
    fn integer_decode(self) -> (u64, i16, i8) { Float::integer_decode(self.0) }
}
impl NextAfter<W> for W { fn next_after(self, y: W) -> W { W(self.0.next_after(y.0)) } }
pub struct K;
impl Kernel<W> for K {
    fn orient2d(p: Coordinate<W>, q: Coordinate<W>, r: Coordinate<W>) -> Orientation {
        tick();
        let f = |c: Coordinate<W>| Coordinate { x: c.x.0, y: c.y.0 };
        <RobustKernel as Kernel<f64>>::orient2d(f(p), f(q), f(r))
    }
}
impl HasKernel for W { type Ker = K; }
