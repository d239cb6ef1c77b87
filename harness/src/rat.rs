//! Exact rational numbers that implement the library's numeric trait, so that the real generic code
//! can be executed without rounding.  Whatever has no exact result here (128-bit overflow, division by
//! zero, transcendental functions, non-dyadic float constants) raises the thread's `inexact` flag.
use num_traits::{Bounded, Float, FromPrimitive, Inv, Num, NumCast, One, Pow, Signed, ToPrimitive, Zero};
use std::num::FpCategory;
use std::cell::Cell;
use std::cmp::Ordering;
use std::fmt;
use std::ops::*;

/// den > 0 and gcd = 1; den == 0 is "not a number".
#[derive(Clone, Copy)]
pub struct Rat {
    n: i128,
    d: i128,
}

thread_local! {
    static INEXACT: Cell<bool> = const { Cell::new(false) };
}

/// Runs `f`; the flag says whether every number in it was exact.
pub fn exactly<T>(f: impl FnOnce() -> T) -> (T, bool) {
    INEXACT.with(|c| c.set(false));
    let t = f();
    (t, !INEXACT.with(Cell::get))
}

thread_local! {
    static REFUSE: Cell<Option<u64>> = const { Cell::new(None) };
    static CALLS: Cell<(u32, u32)> = const { Cell::new((0, 0)) };
}
/// Runs `f` while the conversions named by the bits of `mask` are refused; with how many conversions were asked for
/// and how many refused.
pub fn refusing<T>(mask: u64, f: impl FnOnce() -> T) -> (T, u32, u32) {
    REFUSE.with(|r| r.set(Some(mask)));
    CALLS.with(|c| c.set((0, 0)));
    let t = f();
    REFUSE.with(|r| r.set(None));
    let (n, no) = CALLS.with(Cell::get);
    (t, n, no)
}
fn refused() -> bool {
    let Some(mask) = REFUSE.with(Cell::get) else { return false };
    CALLS.with(|c| {
        let (n, no) = c.get();
        let hit = n < 64 && mask >> n & 1 == 1;
        c.set((n + 1, no + hit as u32));
        hit
    })
}

const NAN: Rat = Rat { n: 0, d: 0 };

fn nan() -> Rat {
    INEXACT.with(|c| c.set(true));
    NAN
}

fn gcd(a: u128, b: u128) -> u128 {
    if a <= u64::MAX as u128 && b <= u64::MAX as u128 {
        let (mut a, mut b) = (a as u64, b as u64);
        while b != 0 {
            (a, b) = (b, a % b);
        }
        return a as u128;
    }
    let (mut a, mut b) = (a, b);
    while b != 0 {
        (a, b) = (b, a % b);
        if a <= u64::MAX as u128 && b <= u64::MAX as u128 {
            return gcd(a, b);
        }
    }
    a
}

impl Rat {
    pub const fn int(n: i64) -> Rat {
        Rat { n: n as i128, d: 1 }
    }
    pub fn new(n: i128, d: i128) -> Rat {
        if d == 0 || n == i128::MIN || d == i128::MIN {
            return nan();
        }
        let g = gcd(n.unsigned_abs(), d.unsigned_abs()) as i128;
        let (n, d) = if g > 1 { (n / g, d / g) } else { (n, d) };
        if d < 0 {
            Rat { n: -n, d: -d }
        } else {
            Rat { n, d }
        }
    }
    fn bad(self) -> bool {
        self.d == 0
    }
    pub fn f(self) -> f64 {
        if self.bad() {
            f64::NAN
        } else {
            // correctly rounded enough: both parts are rounded once
            self.n as f64 / self.d as f64
        }
    }
    fn approx(x: f64) -> Rat {
        INEXACT.with(|c| c.set(true));
        let v = Rat::from_f64_exact(x).unwrap_or(NAN);
        v
    }
    fn from_f64_exact(x: f64) -> Option<Rat> {
        if !x.is_finite() {
            return None;
        }
        let (mut m, mut e) = (x, 0);
        while m != m.trunc() {
            m *= 2.0;
            e += 1;
            if e > 100 {
                return None;
            }
        }
        if m.abs() > 1e30 {
            return None;
        }
        Some(Rat::new(m as i128, 1i128 << e))
    }
}

impl fmt::Debug for Rat {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        if self.d == 1 {
            write!(f, "{}", self.n)
        } else {
            write!(f, "{}/{}", self.n, self.d)
        }
    }
}
impl fmt::Display for Rat {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(self, f)
    }
}
impl Default for Rat {
    fn default() -> Self {
        Rat::int(0)
    }
}
impl PartialEq for Rat {
    fn eq(&self, o: &Rat) -> bool {
        !self.bad() && self.n == o.n && self.d == o.d
    }
}
impl PartialOrd for Rat {
    fn partial_cmp(&self, o: &Rat) -> Option<Ordering> {
        if self.bad() || o.bad() {
            return None;
        }
        if self.d == o.d {
            return Some(self.n.cmp(&o.n));
        }
        match (self.n.checked_mul(o.d), o.n.checked_mul(self.d)) {
            (Some(a), Some(b)) => Some(a.cmp(&b)),
            _ => {
                INEXACT.with(|c| c.set(true));
                self.f().partial_cmp(&o.f())
            }
        }
    }
}
impl Neg for Rat {
    type Output = Rat;
    fn neg(self) -> Rat {
        Rat { n: -self.n, d: self.d }
    }
}
impl Add for Rat {
    type Output = Rat;
    fn add(self, o: Rat) -> Rat {
        if self.bad() || o.bad() {
            return nan();
        }
        if self.d == 1 && o.d == 1 {
            return self.n.checked_add(o.n).map_or_else(nan, |n| Rat { n, d: 1 });
        }
        let g = gcd(self.d as u128, o.d as u128) as i128;
        let l = o.d / g;
        let r = (|| {
            let n = self.n.checked_mul(l)?.checked_add(o.n.checked_mul(self.d / g)?)?;
            Some((n, self.d.checked_mul(l)?))
        })();
        r.map_or_else(nan, |(n, d)| Rat::new(n, d))
    }
}
impl Sub for Rat {
    type Output = Rat;
    fn sub(self, o: Rat) -> Rat {
        self + -o
    }
}
impl Mul for Rat {
    type Output = Rat;
    fn mul(self, o: Rat) -> Rat {
        if self.bad() || o.bad() {
            return nan();
        }
        if self.n == 0 || o.n == 0 {
            return Rat::int(0);
        }
        let g1 = gcd(self.n.unsigned_abs(), o.d as u128) as i128;
        let g2 = gcd(o.n.unsigned_abs(), self.d as u128) as i128;
        let r = (|| Some(((self.n / g1).checked_mul(o.n / g2)?, (self.d / g2).checked_mul(o.d / g1)?)))();
        r.map_or_else(nan, |(n, d)| Rat { n, d })
    }
}
impl Div for Rat {
    type Output = Rat;
    fn div(self, o: Rat) -> Rat {
        if o.bad() || o.n == 0 {
            return nan();
        }
        self * if o.n < 0 { Rat { n: -o.d, d: -o.n } } else { Rat { n: o.d, d: o.n } }
    }
}
impl Rem for Rat {
    type Output = Rat;
    fn rem(self, o: Rat) -> Rat {
        let q = (self / o).trunc();
        self - q * o
    }
}
macro_rules! assign {
    ($($t:ident $f:ident $op:tt),*) => {$(
        impl $t for Rat { fn $f(&mut self, o: Rat) { *self = *self $op o; } }
    )*};
}
assign!(AddAssign add_assign +, SubAssign sub_assign -, MulAssign mul_assign *, DivAssign div_assign /, RemAssign rem_assign %);
macro_rules! refs {
    ($($t:ident $f:ident $a:ident $g:ident $op:tt),*) => {$(
        impl $t<&Rat> for Rat { type Output = Rat; fn $f(self, o: &Rat) -> Rat { self $op *o } }
        impl $t<Rat> for &Rat { type Output = Rat; fn $f(self, o: Rat) -> Rat { *self $op o } }
        impl $t<&Rat> for &Rat { type Output = Rat; fn $f(self, o: &Rat) -> Rat { *self $op *o } }
        impl $a<&Rat> for Rat { fn $g(&mut self, o: &Rat) { *self = *self $op *o; } }
    )*};
}
refs!(Add add AddAssign add_assign +, Sub sub SubAssign sub_assign -, Mul mul MulAssign mul_assign *, Div div DivAssign div_assign /, Rem rem RemAssign rem_assign %);
impl Neg for &Rat {
    type Output = Rat;
    fn neg(self) -> Rat {
        -*self
    }
}
impl<'a> std::iter::Sum<&'a Rat> for Rat {
    fn sum<I: Iterator<Item = &'a Rat>>(it: I) -> Rat {
        it.fold(Rat::int(0), |a, b| a + *b)
    }
}
impl<'a> std::iter::Product<&'a Rat> for Rat {
    fn product<I: Iterator<Item = &'a Rat>>(it: I) -> Rat {
        it.fold(Rat::int(1), |a, b| a * *b)
    }
}
impl std::iter::Product for Rat {
    fn product<I: Iterator<Item = Rat>>(it: I) -> Rat {
        it.fold(Rat::int(1), |a, b| a * b)
    }
}
impl std::str::FromStr for Rat {
    type Err = ();
    fn from_str(s: &str) -> Result<Self, ()> {
        s.parse::<f64>().ok().and_then(Rat::from_f64_exact).ok_or(())
    }
}
impl fmt::LowerExp for Rat {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(self, f)
    }
}
impl std::iter::Sum for Rat {
    fn sum<I: Iterator<Item = Rat>>(it: I) -> Rat {
        it.fold(Rat::int(0), |a, b| a + b)
    }
}
impl Zero for Rat {
    fn zero() -> Self {
        Rat::int(0)
    }
    fn is_zero(&self) -> bool {
        self.d != 0 && self.n == 0
    }
}
impl One for Rat {
    fn one() -> Self {
        Rat::int(1)
    }
}
impl Num for Rat {
    type FromStrRadixErr = ();
    fn from_str_radix(s: &str, r: u32) -> Result<Self, ()> {
        i128::from_str_radix(s, r).map(|n| Rat { n, d: 1 }).map_err(|_| ())
    }
}
impl ToPrimitive for Rat {
    fn to_i64(&self) -> Option<i64> {
        self.to_i128().and_then(|x| i64::try_from(x).ok())
    }
    fn to_u64(&self) -> Option<u64> {
        self.to_i128().and_then(|x| u64::try_from(x).ok())
    }
    fn to_i128(&self) -> Option<i128> {
        (self.d != 0).then(|| self.n / self.d)
    }
    fn to_f64(&self) -> Option<f64> {
        Some(self.f())
    }
}
impl NumCast for Rat {
    fn from<T: ToPrimitive>(n: T) -> Option<Self> {
        if refused() {
            return None;
        }
        if let (Some(i), Some(f)) = (n.to_i128(), n.to_f64()) {
            if f == i as f64 {
                return Some(Rat { n: i, d: 1 });
            }
        }
        n.to_f64().and_then(Self::from_f64)
    }
}
impl FromPrimitive for Rat {
    fn from_i64(n: i64) -> Option<Self> {
        if refused() {
            return None;
        }
        Some(Rat::int(n))
    }
    fn from_u64(n: u64) -> Option<Self> {
        if refused() {
            return None;
        }
        Some(Rat { n: n as i128, d: 1 })
    }
    fn from_i128(n: i128) -> Option<Self> {
        if refused() {
            return None;
        }
        Some(Rat { n, d: 1 })
    }
    fn from_f64(x: f64) -> Option<Self> {
        if refused() {
            return None;
        }
        let v = Rat::from_f64_exact(x)?;
        if v.d > 1 << 20 {
            INEXACT.with(|c| c.set(true));
        }
        Some(v)
    }
    fn from_f32(x: f32) -> Option<Self> {
        <Self as FromPrimitive>::from_f64(<f64 as From<f32>>::from(x))
    }
}
macro_rules! approx1 {
    ($($f:ident),*) => {$( fn $f(self) -> Self { Rat::approx(self.f().$f()) } )*};
}
impl Bounded for Rat {
    fn min_value() -> Self {
        Rat { n: i128::MIN / 4, d: 1 }
    }
    fn max_value() -> Self {
        Rat { n: i128::MAX / 4, d: 1 }
    }
}
impl Signed for Rat {
    fn abs(&self) -> Self {
        Rat { n: self.n.abs(), d: self.d }
    }
    fn abs_sub(&self, o: &Self) -> Self {
        Float::max(*self - *o, Rat::int(0))
    }
    fn signum(&self) -> Self {
        Rat::int(self.n.signum() as i64)
    }
    fn is_positive(&self) -> bool {
        self.n > 0
    }
    fn is_negative(&self) -> bool {
        self.n < 0
    }
}
impl Inv for Rat {
    type Output = Rat;
    fn inv(self) -> Rat {
        Rat::int(1) / self
    }
}
macro_rules! pows {
    ($($t:ty),*) => {$(
        impl Pow<$t> for Rat { type Output = Rat; fn pow(self, e: $t) -> Rat { Float::powi(self, e as i32) } }
    )*};
}
pows!(u8, u16, u32, i32, usize);
macro_rules! froms {
    ($($t:ty),*) => {$(
        impl From<$t> for Rat { fn from(n: $t) -> Rat { Rat { n: n as i128, d: 1 } } }
    )*};
}
froms!(u8, u16, u32, i8, i16, i32);
impl From<f32> for Rat {
    fn from(x: f32) -> Rat {
        <Rat as FromPrimitive>::from_f32(x).unwrap_or_else(nan)
    }
}
/// `Real`, the library's bound, follows from `Float`.
impl Float for Rat {
    fn nan() -> Self {
        nan()
    }
    fn infinity() -> Self {
        <Self as Bounded>::max_value()
    }
    fn neg_infinity() -> Self {
        <Self as Bounded>::min_value()
    }
    fn neg_zero() -> Self {
        Rat::int(0)
    }
    fn is_nan(self) -> bool {
        self.bad()
    }
    fn is_infinite(self) -> bool {
        false
    }
    fn is_finite(self) -> bool {
        !self.bad()
    }
    fn is_normal(self) -> bool {
        !self.bad() && self.n != 0
    }
    fn classify(self) -> FpCategory {
        match (self.d, self.n) {
            (0, _) => FpCategory::Nan,
            (_, 0) => FpCategory::Zero,
            _ => FpCategory::Normal,
        }
    }
    fn integer_decode(self) -> (u64, i16, i8) {
        INEXACT.with(|c| c.set(true));
        Float::integer_decode(self.f())
    }
    fn min_value() -> Self {
        <Self as Bounded>::min_value()
    }
    fn min_positive_value() -> Self {
        Rat { n: 1, d: i128::MAX / 4 }
    }
    fn epsilon() -> Self {
        Rat::new(1, 1 << 52)
    }
    fn max_value() -> Self {
        <Self as Bounded>::max_value()
    }
    fn floor(self) -> Self {
        if self.bad() {
            nan()
        } else {
            Rat { n: self.n.div_euclid(self.d), d: 1 }
        }
    }
    fn ceil(self) -> Self {
        -((-self).floor())
    }
    fn round(self) -> Self {
        let h = Rat { n: 1, d: 2 };
        if self.n < 0 {
            -((-self + h).floor())
        } else {
            (self + h).floor()
        }
    }
    fn trunc(self) -> Self {
        if self.bad() {
            nan()
        } else {
            Rat { n: self.n / self.d, d: 1 }
        }
    }
    fn fract(self) -> Self {
        self - self.trunc()
    }
    fn abs(self) -> Self {
        Rat { n: self.n.abs(), d: self.d }
    }
    fn signum(self) -> Self {
        Rat::int(if self.n < 0 { -1 } else { 1 })
    }
    fn is_sign_positive(self) -> bool {
        self.n >= 0
    }
    fn is_sign_negative(self) -> bool {
        self.n < 0
    }
    fn mul_add(self, a: Self, b: Self) -> Self {
        self * a + b
    }
    fn recip(self) -> Self {
        Rat::int(1) / self
    }
    fn powi(self, n: i32) -> Self {
        let mut r = Rat::int(1);
        for _ in 0..n.unsigned_abs() {
            r *= self;
        }
        if n < 0 {
            r.recip()
        } else {
            r
        }
    }
    fn powf(self, n: Self) -> Self {
        if n.d == 1 && n.n.abs() < 64 {
            self.powi(n.n as i32)
        } else {
            Rat::approx(self.f().powf(n.f()))
        }
    }
    fn sqrt(self) -> Self {
        Rat::approx(self.f().sqrt())
    }
    /// Exact where it matters to the harness: exp(0) = 1, and exp of a very negative number is 0.
    fn exp(self) -> Self {
        if self.is_zero() {
            Rat::int(1)
        } else if self.f() < -1e6 {
            Rat::int(0)
        } else {
            Rat::approx(self.f().exp())
        }
    }
    fn log(self, b: Self) -> Self {
        Rat::approx(self.f().log(b.f()))
    }
    fn max(self, o: Self) -> Self {
        if self >= o {
            self
        } else {
            o
        }
    }
    fn min(self, o: Self) -> Self {
        if self <= o {
            self
        } else {
            o
        }
    }
    fn abs_sub(self, o: Self) -> Self {
        (self - o).max(Rat::int(0))
    }
    fn hypot(self, o: Self) -> Self {
        Rat::approx(self.f().hypot(o.f()))
    }
    fn atan2(self, o: Self) -> Self {
        Rat::approx(self.f().atan2(o.f()))
    }
    fn sin_cos(self) -> (Self, Self) {
        (self.sin(), self.cos())
    }
    approx1!(exp2, ln, log2, log10, to_degrees, to_radians, cbrt, sin, cos, tan, asin, acos, atan, exp_m1, ln_1p, sinh, cosh, tanh, asinh, acosh, atanh);
}
impl qlab_math::value::Value for Rat {}
