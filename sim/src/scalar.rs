//! The scalar the filters are instantiated with. The number system is picked at run time
//! (thread-local), and every arithmetic operation passes through `tick`, the seam at which
//! the simulator counts work, cuts a step short, or preempts it.

use core::cmp::Ordering;
use core::fmt;
use core::ops::*;
use minikalman::matrix::MatrixDataType;
use num_traits::{FromPrimitive, One, ToPrimitive, Zero};
use std::cell::{Cell, RefCell};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
#[repr(u8)]
pub enum Mode {
    /// Exact arithmetic in the field GF(p^2), p = 2^31 - 1.
    GF = 0,
    F32 = 1,
    F64 = 2,
    FX16 = 3,
    FX32 = 4,
}

impl Mode {
    pub fn name(self) -> &'static str {
        match self {
            Mode::GF => "gf",
            Mode::F32 => "f32",
            Mode::F64 => "f64",
            Mode::FX16 => "i16f16",
            Mode::FX32 => "i32f32",
        }
    }
    pub fn parse(s: &str) -> Option<Mode> {
        Some(match s {
            "gf" => Mode::GF,
            "f32" => Mode::F32,
            "f64" => Mode::F64,
            "i16f16" => Mode::FX16,
            "i32f32" => Mode::FX32,
            _ => return None,
        })
    }
    pub fn is_fx(self) -> bool {
        matches!(self, Mode::FX16 | Mode::FX32)
    }
    pub fn is_float(self) -> bool {
        matches!(self, Mode::F32 | Mode::F64)
    }
}

pub const FLAG_DIV0: u32 = 1;
pub const FLAG_OVERFLOW: u32 = 2;
pub const FLAG_SQRT: u32 = 4;

thread_local! {
    static MODE: Cell<Mode> = const { Cell::new(Mode::F64) };
    static TICKS: Cell<u64> = const { Cell::new(0) };
    static NEXT: Cell<u64> = const { Cell::new(u64::MAX) };
    static FLAGS: Cell<u32> = const { Cell::new(0) };
    static HOOK: RefCell<Option<Hook>> = const { RefCell::new(None) };
}

/// Called when the tick counter reaches the requested value; returns the next value to stop at.
pub type Hook = Box<dyn FnMut(u64) -> u64>;

pub fn set_mode(m: Mode) {
    MODE.with(|c| c.set(m))
}
pub fn mode() -> Mode {
    MODE.with(|c| c.get())
}
pub fn ticks() -> u64 {
    TICKS.with(|c| c.get())
}
pub fn flags() -> u32 {
    FLAGS.with(|c| c.get())
}
pub fn clear_flags() {
    FLAGS.with(|c| c.set(0))
}
fn flag(f: u32) {
    FLAGS.with(|c| c.set(c.get() | f))
}

/// Everything `tick` looks at, saved and restored around nested (preempting) activity.
pub struct TickState {
    ticks: u64,
    next: u64,
    mode: Mode,
    hook: Option<Hook>,
}

pub fn save_ticks() -> TickState {
    TickState {
        ticks: TICKS.with(|c| c.replace(0)),
        next: NEXT.with(|c| c.replace(u64::MAX)),
        mode: mode(),
        hook: HOOK.with(|h| h.borrow_mut().take()),
    }
}
pub fn restore_ticks(s: TickState) {
    TICKS.with(|c| c.set(s.ticks));
    NEXT.with(|c| c.set(s.next));
    set_mode(s.mode);
    HOOK.with(|h| *h.borrow_mut() = s.hook);
}

/// Resets the counter and installs a hook that runs when the counter first reaches `next`.
pub fn arm(next: u64, hook: Option<Hook>) {
    TICKS.with(|c| c.set(0));
    NEXT.with(|c| c.set(next));
    HOOK.with(|h| *h.borrow_mut() = hook);
}
/// Disarms and returns the number of ticks since `arm`.
pub fn disarm() -> u64 {
    NEXT.with(|c| c.set(u64::MAX));
    HOOK.with(|h| *h.borrow_mut() = None);
    TICKS.with(|c| c.get())
}

#[inline]
pub fn tick() {
    let n = TICKS.with(|c| {
        let n = c.get() + 1;
        c.set(n);
        n
    });
    if n >= NEXT.with(|c| c.get()) {
        slow(n)
    }
}

#[cold]
#[inline(never)]
fn slow(n: u64) {
    let hook = HOOK.with(|h| h.borrow_mut().take());
    NEXT.with(|c| c.set(u64::MAX));
    if let Some(mut hook) = hook {
        let next = hook(n);
        NEXT.with(|c| c.set(next));
        HOOK.with(|h| *h.borrow_mut() = Some(hook));
    }
}

/// Panic payload of a simulated crash in the middle of a step.
pub struct TrapToken;
/// Panic payload of a simulated callback failure.
pub struct CallbackToken;
/// Panic payload used when a step exceeds its work limit.
pub struct WorkLimitToken;

// ------------------------------------------------------------------------------------------
// GF(p), GF(p^2)

pub const P: u64 = (1 << 31) - 1;

pub mod gf {
    use super::P;
    #[inline]
    pub fn red(x: u64) -> u64 {
        let x = (x & P) + (x >> 31);
        let x = (x & P) + (x >> 31);
        if x >= P {
            x - P
        } else {
            x
        }
    }
    #[inline]
    pub fn add(a: u64, b: u64) -> u64 {
        let s = a + b;
        if s >= P {
            s - P
        } else {
            s
        }
    }
    #[inline]
    pub fn sub(a: u64, b: u64) -> u64 {
        if a >= b {
            a - b
        } else {
            a + P - b
        }
    }
    #[inline]
    pub fn mul(a: u64, b: u64) -> u64 {
        red(a * b)
    }
    pub fn pow(mut b: u64, mut e: u64) -> u64 {
        let mut r = 1;
        while e > 0 {
            if e & 1 == 1 {
                r = mul(r, b);
            }
            b = mul(b, b);
            e >>= 1;
        }
        r
    }
    pub fn inv(a: u64) -> u64 {
        pow(a, P - 2)
    }
    pub fn from_i64(n: i64) -> u64 {
        n.rem_euclid(P as i64) as u64
    }
    /// n / 2^sh
    pub fn dyadic(n: i64, sh: u32) -> u64 {
        // 2^31 == 1, so 2^-sh == 2^(31 - sh mod 31)
        let k = (31 - (sh % 31)) % 31;
        mul(from_i64(n), 1u64 << k)
    }
    /// A square root in GF(p^2) of an element of GF(p): (re, im).
    pub fn sqrt(a: u64) -> (u64, u64) {
        if a == 0 {
            return (0, 0);
        }
        let r = pow(a, (P + 1) / 4);
        if mul(r, r) == a {
            (r, 0)
        } else {
            let r = pow(sub(0, a), (P + 1) / 4);
            (0, r)
        }
    }
}

#[derive(Clone, Copy, Default)]
#[repr(transparent)]
pub struct Dyn(pub u64);

#[inline]
fn gp(a: u64) -> (u64, u64) {
    (a & 0xffff_ffff, a >> 32)
}
#[inline]
fn gmk(re: u64, im: u64) -> u64 {
    re | (im << 32)
}
fn gf_mul(a: u64, b: u64) -> u64 {
    let ((a, b), (c, d)) = (gp(a), gp(b));
    if b == 0 && d == 0 {
        return gmk(gf::mul(a, c), 0);
    }
    let re = gf::sub(gf::mul(a, c), gf::mul(b, d));
    let im = gf::add(gf::mul(a, d), gf::mul(b, c));
    gmk(re, im)
}
fn gf_inv(a: u64) -> u64 {
    let (a, b) = gp(a);
    if a == 0 && b == 0 {
        flag(FLAG_DIV0);
        return 0;
    }
    let n = gf::add(gf::mul(a, a), gf::mul(b, b));
    let i = gf::inv(n);
    gmk(gf::mul(a, i), gf::mul(gf::sub(0, b), i))
}

#[cfg(feature = "fixed")]
type I16F16 = fixed::types::I16F16;
#[cfg(feature = "fixed")]
type I32F32 = fixed::types::I32F32;

#[inline]
fn f32b(a: u64) -> f32 {
    f32::from_bits(a as u32)
}
#[inline]
fn f64b(a: u64) -> f64 {
    f64::from_bits(a)
}
#[inline]
fn b32(a: f32) -> u64 {
    // one canonical NaN: the payload of a NaN is not part of any property
    if a.is_nan() {
        f32::NAN.to_bits() as u64
    } else {
        a.to_bits() as u64
    }
}
#[inline]
fn b64(a: f64) -> u64 {
    if a.is_nan() {
        f64::NAN.to_bits()
    } else {
        a.to_bits()
    }
}
#[cfg(feature = "fixed")]
#[inline]
fn x16(a: u64) -> I16F16 {
    I16F16::from_bits(a as u32 as i32)
}
#[cfg(feature = "fixed")]
#[inline]
fn x32(a: u64) -> I32F32 {
    I32F32::from_bits(a as i64)
}
#[cfg(feature = "fixed")]
#[inline]
fn bx16(r: (I16F16, bool)) -> u64 {
    if r.1 {
        flag(FLAG_OVERFLOW);
    }
    r.0.to_bits() as u32 as u64
}
#[cfg(feature = "fixed")]
#[inline]
fn bx32(r: (I32F32, bool)) -> u64 {
    if r.1 {
        flag(FLAG_OVERFLOW);
    }
    r.0.to_bits() as u64
}
#[allow(dead_code)]
fn nofx() -> ! {
    panic!("harness: fixed-point mode without the fixed feature")
}

#[inline(never)]
fn op_add(a: u64, b: u64) -> u64 {
    tick();
    match mode() {
        Mode::GF => {
            let ((a, b), (c, d)) = (gp(a), gp(b));
            gmk(gf::add(a, c), gf::add(b, d))
        }
        Mode::F32 => b32(f32b(a) + f32b(b)),
        Mode::F64 => b64(f64b(a) + f64b(b)),
        #[cfg(feature = "fixed")]
        Mode::FX16 => bx16(x16(a).overflowing_add(x16(b))),
        #[cfg(feature = "fixed")]
        Mode::FX32 => bx32(x32(a).overflowing_add(x32(b))),
        #[cfg(not(feature = "fixed"))]
        _ => nofx(),
    }
}
#[inline(never)]
fn op_sub(a: u64, b: u64) -> u64 {
    tick();
    match mode() {
        Mode::GF => {
            let ((a, b), (c, d)) = (gp(a), gp(b));
            gmk(gf::sub(a, c), gf::sub(b, d))
        }
        Mode::F32 => b32(f32b(a) - f32b(b)),
        Mode::F64 => b64(f64b(a) - f64b(b)),
        #[cfg(feature = "fixed")]
        Mode::FX16 => bx16(x16(a).overflowing_sub(x16(b))),
        #[cfg(feature = "fixed")]
        Mode::FX32 => bx32(x32(a).overflowing_sub(x32(b))),
        #[cfg(not(feature = "fixed"))]
        _ => nofx(),
    }
}
#[inline(never)]
fn op_mul(a: u64, b: u64) -> u64 {
    tick();
    match mode() {
        Mode::GF => gf_mul(a, b),
        Mode::F32 => b32(f32b(a) * f32b(b)),
        Mode::F64 => b64(f64b(a) * f64b(b)),
        #[cfg(feature = "fixed")]
        Mode::FX16 => bx16(x16(a).overflowing_mul(x16(b))),
        #[cfg(feature = "fixed")]
        Mode::FX32 => bx32(x32(a).overflowing_mul(x32(b))),
        #[cfg(not(feature = "fixed"))]
        _ => nofx(),
    }
}
#[inline(never)]
fn op_div(a: u64, b: u64) -> u64 {
    tick();
    match mode() {
        Mode::GF => gf_mul(a, gf_inv(b)),
        Mode::F32 => b32(f32b(a) / f32b(b)),
        Mode::F64 => b64(f64b(a) / f64b(b)),
        #[cfg(feature = "fixed")]
        Mode::FX16 => bx16(x16(a).overflowing_div(x16(b))),
        #[cfg(feature = "fixed")]
        Mode::FX32 => bx32(x32(a).overflowing_div(x32(b))),
        #[cfg(not(feature = "fixed"))]
        _ => nofx(),
    }
}
#[inline(never)]
fn op_neg(a: u64) -> u64 {
    tick();
    match mode() {
        Mode::GF => {
            let (a, b) = gp(a);
            gmk(gf::sub(0, a), gf::sub(0, b))
        }
        Mode::F32 => b32(-f32b(a)),
        Mode::F64 => b64(-f64b(a)),
        #[cfg(feature = "fixed")]
        Mode::FX16 => bx16(x16(a).overflowing_neg()),
        #[cfg(feature = "fixed")]
        Mode::FX32 => bx32(x32(a).overflowing_neg()),
        #[cfg(not(feature = "fixed"))]
        _ => nofx(),
    }
}

impl Add for Dyn {
    type Output = Dyn;
    #[inline]
    fn add(self, o: Dyn) -> Dyn {
        Dyn(op_add(self.0, o.0))
    }
}
impl Sub for Dyn {
    type Output = Dyn;
    #[inline]
    fn sub(self, o: Dyn) -> Dyn {
        Dyn(op_sub(self.0, o.0))
    }
}
impl Mul for Dyn {
    type Output = Dyn;
    #[inline]
    fn mul(self, o: Dyn) -> Dyn {
        Dyn(op_mul(self.0, o.0))
    }
}
impl Div for Dyn {
    type Output = Dyn;
    #[inline]
    fn div(self, o: Dyn) -> Dyn {
        Dyn(op_div(self.0, o.0))
    }
}
impl Neg for Dyn {
    type Output = Dyn;
    #[inline]
    fn neg(self) -> Dyn {
        Dyn(op_neg(self.0))
    }
}
impl AddAssign for Dyn {
    #[inline]
    fn add_assign(&mut self, o: Dyn) {
        *self = *self + o
    }
}
impl SubAssign for Dyn {
    #[inline]
    fn sub_assign(&mut self, o: Dyn) {
        *self = *self - o
    }
}
impl MulAssign for Dyn {
    #[inline]
    fn mul_assign(&mut self, o: Dyn) {
        *self = *self * o
    }
}
impl DivAssign for Dyn {
    #[inline]
    fn div_assign(&mut self, o: Dyn) {
        *self = *self / o
    }
}
impl core::iter::Sum for Dyn {
    fn sum<I: Iterator<Item = Dyn>>(it: I) -> Dyn {
        it.fold(Dyn::zero(), |a, b| a + b)
    }
}
impl<'a> core::iter::Sum<&'a Dyn> for Dyn {
    fn sum<I: Iterator<Item = &'a Dyn>>(it: I) -> Dyn {
        it.fold(Dyn::zero(), |a, b| a + *b)
    }
}
impl core::iter::Product for Dyn {
    fn product<I: Iterator<Item = Dyn>>(it: I) -> Dyn {
        it.fold(Dyn::one(), |a, b| a * b)
    }
}
impl Zero for Dyn {
    #[inline]
    fn zero() -> Dyn {
        Dyn(0) // all number systems represent zero as all-zero bits
    }
    fn is_zero(&self) -> bool {
        *self == Dyn(0)
    }
}
impl One for Dyn {
    fn one() -> Dyn {
        Dyn(match mode() {
            Mode::GF => 1,
            Mode::F32 => b32(1.0),
            Mode::F64 => b64(1.0),
            Mode::FX16 => 1 << 16,
            Mode::FX32 => 1 << 32,
        })
    }
}
impl PartialEq for Dyn {
    fn eq(&self, o: &Dyn) -> bool {
        self.partial_cmp(o) == Some(Ordering::Equal)
    }
}
impl PartialOrd for Dyn {
    fn partial_cmp(&self, o: &Dyn) -> Option<Ordering> {
        tick();
        match mode() {
            // no order is compatible with a finite field; every non-zero element counts as positive,
            // which makes "is this pivot usable" come out right
            Mode::GF => Some(match (self.0 == 0, o.0 == 0) {
                (true, true) => Ordering::Equal,
                (false, true) => Ordering::Greater,
                (true, false) => Ordering::Less,
                _ => self.0.cmp(&o.0),
            }),
            Mode::F32 => f32b(self.0).partial_cmp(&f32b(o.0)),
            Mode::F64 => f64b(self.0).partial_cmp(&f64b(o.0)),
            Mode::FX16 => Some((self.0 as u32 as i32).cmp(&(o.0 as u32 as i32))),
            Mode::FX32 => Some((self.0 as i64).cmp(&(o.0 as i64))),
        }
    }
}
impl fmt::Debug for Dyn {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", show(self.0))
    }
}
impl fmt::Display for Dyn {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", show(self.0))
    }
}

/// Human-readable form of a value in the current number system.
pub fn show(a: u64) -> String {
    match mode() {
        Mode::GF => {
            let (r, i) = gp(a);
            if i == 0 {
                format!("{r}")
            } else {
                format!("{r}+{i}i")
            }
        }
        _ => format!("{:?}", to_f64(a)),
    }
}

pub fn to_f64(a: u64) -> f64 {
    match mode() {
        Mode::GF => (a & 0xffff_ffff) as f64,
        Mode::F32 => f32b(a) as f64,
        Mode::F64 => f64b(a),
        Mode::FX16 => (a as u32 as i32) as f64 / 65536.0,
        Mode::FX32 => (a as i64) as f64 / 4294967296.0,
    }
}

/// The nearest value of the current number system (exact in GF).
pub fn from_f64(x: f64) -> Dyn {
    Dyn(match mode() {
        Mode::GF => {
            if !x.is_finite() {
                flag(FLAG_SQRT);
                return Dyn(0);
            }
            let bits = x.to_bits();
            let e = ((bits >> 52) & 0x7ff) as i64;
            let m = (bits & ((1 << 52) - 1)) as i64;
            let (m, e) = if e == 0 { (m, -1074) } else { (m | (1 << 52), e - 1075) };
            let m = if x < 0.0 { -m } else { m };
            // 2^31 == 1
            let k = e.rem_euclid(31) as u64;
            gf::mul(gf::from_i64(m), 1u64 << k)
        }
        Mode::F32 => b32(x as f32),
        Mode::F64 => b64(x),
        Mode::FX16 => {
            let v = (x * 65536.0).round();
            if !(v.abs() < 2147483647.0) {
                flag(FLAG_OVERFLOW);
            }
            (v as i32) as u32 as u64
        }
        Mode::FX32 => {
            let v = (x * 4294967296.0).round();
            if !(v.abs() < 9.2e18) {
                flag(FLAG_OVERFLOW);
            }
            (v as i64) as u64
        }
    })
}

/// 2^k, for any k a double can hold.
pub fn exp2(k: i32) -> f64 {
    f64::from_bits(((1023 + k.clamp(-1022, 1023)) as u64) << 52)
}

/// d * 2^k in an inexact number system.
pub fn ldexp(d: Dyn, k: i32) -> Dyn {
    from_f64(to_f64(d.0) * exp2(k))
}

impl FromPrimitive for Dyn {
    fn from_i64(n: i64) -> Option<Dyn> {
        Some(if mode() == Mode::GF {
            Dyn(gf::from_i64(n))
        } else {
            from_f64(n as f64)
        })
    }
    fn from_u64(n: u64) -> Option<Dyn> {
        Some(if mode() == Mode::GF {
            Dyn(gf::red(n))
        } else {
            from_f64(n as f64)
        })
    }
    fn from_f64(n: f64) -> Option<Dyn> {
        Some(from_f64(n))
    }
}
impl ToPrimitive for Dyn {
    fn to_i64(&self) -> Option<i64> {
        Some(to_f64(self.0) as i64)
    }
    fn to_u64(&self) -> Option<u64> {
        Some(to_f64(self.0) as u64)
    }
    fn to_f64(&self) -> Option<f64> {
        Some(to_f64(self.0))
    }
}

impl MatrixDataType for Dyn {
    #[inline(never)]
    fn recip(self) -> Dyn {
        tick();
        Dyn(match mode() {
            Mode::GF => gf_inv(self.0),
            Mode::F32 => b32(MatrixDataType::recip(f32b(self.0))),
            Mode::F64 => b64(MatrixDataType::recip(f64b(self.0))),
            #[cfg(feature = "fixed")]
            Mode::FX16 => bx16((MatrixDataType::recip(x16(self.0)), false)),
            #[cfg(feature = "fixed")]
            Mode::FX32 => bx32((MatrixDataType::recip(x32(self.0)), false)),
            #[cfg(not(feature = "fixed"))]
            _ => nofx(),
        })
    }
    #[inline(never)]
    fn square_root(self) -> Dyn {
        tick();
        Dyn(match mode() {
            Mode::GF => {
                let (a, b) = gp(self.0);
                if b != 0 {
                    flag(FLAG_SQRT);
                }
                let (r, i) = gf::sqrt(a);
                gmk(r, i)
            }
            Mode::F32 => b32(MatrixDataType::square_root(f32b(self.0))),
            Mode::F64 => b64(MatrixDataType::square_root(f64b(self.0))),
            #[cfg(feature = "fixed")]
            Mode::FX16 => bx16((MatrixDataType::square_root(x16(self.0)), false)),
            #[cfg(feature = "fixed")]
            Mode::FX32 => bx32((MatrixDataType::square_root(x32(self.0)), false)),
            #[cfg(not(feature = "fixed"))]
            _ => nofx(),
        })
    }
}
