//! Executable reference model: the textbook Kalman recursion, written independently of the
//! library (Gauss-Jordan elimination instead of Cholesky, no scratch memory, own arithmetic that
//! does not pass through the simulated scalar).

use crate::scalar::{gf, mode, to_f64, Mode};

pub trait Num: Copy + PartialEq + std::fmt::Debug {
    const EXACT: bool;
    fn of(bits: u64) -> Self;
    fn add(self, o: Self) -> Self;
    fn sub(self, o: Self) -> Self;
    fn mul(self, o: Self) -> Self;
    fn div(self, o: Self) -> Self;
    fn int(n: i64) -> Self;
    /// self * 2^k (inexact numbers only).
    fn ldexp(self, _k: i32) -> Self {
        self
    }
    fn mag(self) -> f64;
    /// Representation (exact numbers only).
    fn bits(self) -> u64;
    /// Signed value (inexact numbers only).
    fn val(self) -> f64;
    fn is_zero(self) -> bool {
        self == Self::int(0)
    }
}

/// GF(p). A value with a non-zero imaginary part (which no step may produce) is represented as
/// `u64::MAX`: it absorbs everything and equals nothing.
#[derive(Clone, Copy, Debug)]
pub struct G(pub u64);
impl PartialEq for G {
    fn eq(&self, o: &G) -> bool {
        self.0 == o.0 && self.0 != u64::MAX
    }
}
impl G {
    fn op(self, o: G, f: impl Fn(u64, u64) -> u64) -> G {
        if self.0 == u64::MAX || o.0 == u64::MAX {
            G(u64::MAX)
        } else {
            G(f(self.0, o.0))
        }
    }
}
impl Num for G {
    const EXACT: bool = true;
    fn of(b: u64) -> G {
        G(if b < crate::scalar::P { b } else { u64::MAX })
    }
    fn add(self, o: G) -> G {
        self.op(o, gf::add)
    }
    fn sub(self, o: G) -> G {
        self.op(o, gf::sub)
    }
    fn mul(self, o: G) -> G {
        self.op(o, gf::mul)
    }
    fn div(self, o: G) -> G {
        self.op(o, |a, b| gf::mul(a, gf::inv(b)))
    }
    fn int(n: i64) -> G {
        G(gf::from_i64(n))
    }
    fn bits(self) -> u64 {
        self.0
    }
    fn mag(self) -> f64 {
        (self.0 != 0) as u8 as f64
    }
    fn val(self) -> f64 {
        self.mag()
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct F(pub f64);
impl Num for F {
    const EXACT: bool = false;
    fn of(b: u64) -> F {
        F(to_f64(b))
    }
    fn add(self, o: F) -> F {
        F(self.0 + o.0)
    }
    fn sub(self, o: F) -> F {
        F(self.0 - o.0)
    }
    fn mul(self, o: F) -> F {
        F(self.0 * o.0)
    }
    fn div(self, o: F) -> F {
        F(self.0 / o.0)
    }
    fn int(n: i64) -> F {
        F(n as f64)
    }
    fn ldexp(self, k: i32) -> F {
        F(self.0 * crate::scalar::exp2(k))
    }
    fn bits(self) -> u64 {
        self.0.to_bits()
    }
    fn mag(self) -> f64 {
        self.0.abs()
    }
    fn val(self) -> f64 {
        self.0
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct M<N> {
    pub r: usize,
    pub c: usize,
    pub d: Vec<N>,
}

impl<N: Num> M<N> {
    pub fn zero(r: usize, c: usize) -> Self {
        M { r, c, d: vec![N::int(0); r * c] }
    }
    pub fn eye(n: usize) -> Self {
        let mut m = Self::zero(n, n);
        for i in 0..n {
            m.d[i * n + i] = N::int(1);
        }
        m
    }
    pub fn of(r: usize, c: usize, bits: &[u64]) -> Self {
        assert_eq!(bits.len(), r * c, "harness: reference dimensions");
        M { r, c, d: bits.iter().map(|b| N::of(*b)).collect() }
    }
    pub fn at(&self, i: usize, j: usize) -> N {
        self.d[i * self.c + j]
    }
    pub fn t(&self) -> Self {
        let mut m = Self::zero(self.c, self.r);
        for i in 0..self.r {
            for j in 0..self.c {
                m.d[j * self.r + i] = self.at(i, j);
            }
        }
        m
    }
    pub fn mul(&self, o: &Self) -> Self {
        assert_eq!(self.c, o.r, "harness: reference dimensions");
        let mut m = Self::zero(self.r, o.c);
        for i in 0..self.r {
            for k in 0..self.c {
                let a = self.at(i, k);
                for j in 0..o.c {
                    let q = &mut m.d[i * o.c + j];
                    *q = q.add(a.mul(o.at(k, j)));
                }
            }
        }
        m
    }
    fn zip(&self, o: &Self, f: impl Fn(N, N) -> N) -> Self {
        assert_eq!((self.r, self.c), (o.r, o.c), "harness: reference dimensions");
        M {
            r: self.r,
            c: self.c,
            d: self.d.iter().zip(&o.d).map(|(a, b)| f(*a, *b)).collect(),
        }
    }
    pub fn add(&self, o: &Self) -> Self {
        self.zip(o, |a, b| a.add(b))
    }
    pub fn sub(&self, o: &Self) -> Self {
        self.zip(o, |a, b| a.sub(b))
    }
    pub fn scale(&self, s: N) -> Self {
        M { r: self.r, c: self.c, d: self.d.iter().map(|a| a.mul(s)).collect() }
    }
    pub fn max(&self) -> f64 {
        self.d.iter().fold(0.0f64, |m, v| if v.mag().is_nan() { f64::NAN } else { m.max(v.mag()) })
    }
    /// The matrix of magnitudes, for error bounds.
    pub fn abs(&self) -> M<F> {
        M { r: self.r, c: self.c, d: self.d.iter().map(|v| F(v.mag())).collect() }
    }
    /// Pivots of the LDLᵀ decomposition, as far as they are defined.
    pub fn pivots(&self) -> Vec<N> {
        let n = self.r;
        let mut a = self.clone();
        let mut out = vec![];
        for k in 0..n {
            let p = a.at(k, k);
            out.push(p);
            if p.is_zero() {
                break;
            }
            for i in k + 1..n {
                let f = a.at(i, k).div(p);
                for j in k..n {
                    let s = a.at(k, j).mul(f);
                    let q = &mut a.d[i * n + j];
                    *q = q.sub(s);
                }
            }
        }
        out
    }
    /// Inverse by Gauss-Jordan elimination with pivoting; None if singular.
    pub fn inv(&self) -> Option<Self> {
        let n = self.r;
        let mut a = self.clone();
        let mut b = Self::eye(n);
        for k in 0..n {
            let mut p = k;
            for i in k..n {
                if a.at(i, k).mag() > a.at(p, k).mag() {
                    p = i;
                }
            }
            let pv = a.at(p, k);
            if pv.is_zero() || pv.mag().is_nan() {
                return None;
            }
            for j in 0..n {
                a.d.swap(k * n + j, p * n + j);
                b.d.swap(k * n + j, p * n + j);
            }
            for j in 0..n {
                a.d[k * n + j] = a.at(k, j).div(pv);
                b.d[k * n + j] = b.at(k, j).div(pv);
            }
            for i in 0..n {
                let f = a.at(i, k);
                if i == k || f.is_zero() {
                    continue;
                }
                for j in 0..n {
                    let (s, t) = (a.at(k, j).mul(f), b.at(k, j).mul(f));
                    a.d[i * n + j] = a.at(i, j).sub(s);
                    b.d[i * n + j] = b.at(i, j).sub(t);
                }
            }
        }
        Some(b)
    }
}

/// Eigenvalues of a symmetric matrix (cyclic Jacobi).
pub fn eig(m: &M<F>) -> Vec<f64> {
    let n = m.r;
    let mut a: Vec<f64> = m.d.iter().map(|v| v.0).collect();
    for _ in 0..60 {
        let mut off = 0.0;
        for p in 0..n {
            for q in p + 1..n {
                off += a[p * n + q] * a[p * n + q];
            }
        }
        if off < 1e-40 * (1.0 + a.iter().map(|v| v * v).sum::<f64>()) {
            break;
        }
        for p in 0..n {
            for q in p + 1..n {
                if a[p * n + q] == 0.0 {
                    continue;
                }
                let th = (a[q * n + q] - a[p * n + p]) / (2.0 * a[p * n + q]);
                let t = th.signum() / (th.abs() + (th * th + 1.0).sqrt());
                let t = if th == 0.0 { 1.0 } else { t };
                let c = 1.0 / (t * t + 1.0).sqrt();
                let s = t * c;
                for k in 0..n {
                    let (x, y) = (a[k * n + p], a[k * n + q]);
                    a[k * n + p] = c * x - s * y;
                    a[k * n + q] = s * x + c * y;
                }
                for k in 0..n {
                    let (x, y) = (a[p * n + k], a[q * n + k]);
                    a[p * n + k] = c * x - s * y;
                    a[q * n + k] = s * x + c * y;
                }
            }
        }
    }
    (0..n).map(|i| a[i * n + i]).collect()
}

/// Smallest eigenvalue of the symmetric part.
pub fn min_eig(m: &M<F>) -> f64 {
    let s = m.add(&m.t()).scale(F(0.5));
    eig(&s).into_iter().fold(f64::INFINITY, f64::min)
}

/// Result of one reference step: the new estimate and, for inexact arithmetic, bounds on the error
/// the computation under test may make.
pub struct Out<N> {
    pub x: M<N>,
    pub p: M<N>,
    pub ex: f64,
    pub ep: f64,
}

/// Unit roundoff of the number system under test, relative and absolute. The absolute term of the
/// float formats is the spacing of the subnormal numbers (micromath's approximations: the smallest
/// normal number) in the most unfavourable units that gen::units draws.
pub fn eps() -> (f64, f64) {
    match mode() {
        Mode::GF => (0.0, 0.0),
        Mode::F32 if root_err() > 0.0 => (6.0e-8, 1.5e-26),
        Mode::F32 => (6.0e-8, 2e-33),
        Mode::F64 if root_err() > 0.0 => (1.2e-16, 1.5e-26),
        Mode::F64 => (1.2e-16, 2e-233),
        Mode::FX16 => (0.0, 1.0 / 65536.0),
        Mode::FX32 => (0.0, 1.0 / 4294967296.0),
    }
}

/// Relative error of the square of square_root in this build: micromath interpolates linearly
/// between powers of four, which overestimates the root by up to 6.07 %, so that the factorisation
/// is one of S + D with 0 <= D <= 0.1251 diag(S). See DESIGN.md.
pub fn root_err() -> f64 {
    if cfg!(all(feature = "micromath", not(feature = "std"), not(feature = "libm"))) {
        0.13
    } else {
        0.0
    }
}

/// Relative error of recip in this build: micromath's f32 polynomial loses up to about 1e-5.
pub fn recip_err() -> f64 {
    if root_err() > 0.0 && mode() == Mode::F32 {
        2e-5
    } else {
        0.0
    }
}

fn linerr(n: usize, mag: f64, maxfac: f64) -> f64 {
    let (r, a) = eps();
    // n products of rounded factors, summed; absolute errors are amplified by the other factors
    4.0 * (n as f64 + 4.0) * (r * mag + a * (1.0 + maxfac))
}

/// How far a covariance is from symmetric. An implementation may rely on the symmetry of what it is
/// given, so that this much is up to it.
fn asymmetry<N: Num>(p: &M<N>) -> f64 {
    (0..p.r)
        .flat_map(|i| (0..i).map(move |j| (i, j)))
        .map(|(i, j)| p.at(i, j).sub(p.at(j, i)).mag())
        .fold(0.0, f64::max)
}

/// Largest absolute row or column sum.
fn norm(m: &M<F>) -> f64 {
    let row = |m: &M<F>| (0..m.r).map(|i| (0..m.c).map(|j| m.at(i, j).0.abs()).sum::<f64>()).fold(0.0, f64::max);
    row(m).max(row(&m.t()))
}

/// x ← A·x (or the value the user's function returned), P ← A·P·Aᵀ·λ⁻² + Q
pub fn predict<N: Num>(
    x: &M<N>,
    p: &M<N>,
    a: &M<N>,
    q: &M<N>,
    lambda: Option<N>,
    fx: Option<&M<N>>,
) -> Out<N> {
    let n = x.r;
    let nx = match fx {
        Some(v) => v.clone(),
        None => a.mul(x),
    };
    let mut np = a.mul(p).mul(&a.t());
    let mut fac = N::int(1);
    if let Some(l) = lambda {
        fac = N::int(1).div(l.mul(l));
        np = np.scale(fac);
    }
    np = np.add(q);
    let (mut ex, mut ep) = (0.0, 0.0);
    if !N::EXACT {
        let (aa, ax, ap) = (a.abs(), x.abs(), p.abs());
        ex = match fx {
            Some(_) => 0.0,
            None => linerr(n, aa.mul(&ax).max(), 0.0),
        };
        let f = fac.mag().max(1.0);
        let m = aa.mul(&ap).mul(&aa.t()).max() * f + q.max();
        // absolute rounding of the first product is amplified by the second
        ep = linerr(2 * n, m, 0.0) * 1.5 + linerr(2 * n, 0.0, norm(&aa)) * f + asymmetry(p) * norm(&aa).powi(2) * f;
        if let Some(l) = lambda {
            let (r, ab) = eps();
            let l2 = l.mag() * l.mag();
            ep += m * 8.0 * (r + recip_err() + ab / l2.min(1.0) / l2.min(1.0));
        }
    }
    Out { x: nx, p: np, ex, ep }
}

/// x ← x + B·u, P ← P + B·Qc·Bᵀ
pub fn control<N: Num>(x: &M<N>, p: &M<N>, b: &M<N>, u: &M<N>, qc: &M<N>) -> Out<N> {
    let nx = x.add(&b.mul(u));
    let np = p.add(&b.mul(qc).mul(&b.t()));
    let (mut ex, mut ep) = (0.0, 0.0);
    if !N::EXACT {
        let (ab, au, aq) = (b.abs(), u.abs(), qc.abs());
        let c = b.c + 1;
        ex = linerr(c, ab.mul(&au).max() + x.max(), 0.0);
        let m = ab.mul(&aq).mul(&ab.t()).max() + p.max();
        ep = linerr(2 * c, m, 0.0) * 1.5 + linerr(2 * c, 0.0, norm(&ab)) + asymmetry(p);
    }
    Out { x: nx, p: np, ex, ep }
}

pub enum Corr<N> {
    Applied(Out<N>),
    /// S is clearly not positive definite; the report must be rejected.
    Rejected,
    /// Too close to call in the arithmetic under test.
    Unclear,
}

/// y = z − H·x (or z − h(x)), S = H·P·Hᵀ + R, K = P·Hᵀ·S⁻¹, x ← x + K·y, P ← P − K·H·P
pub fn correct<N: Num>(
    x: &M<N>,
    p: &M<N>,
    h: &M<N>,
    r: &M<N>,
    z: &M<N>,
    hx: Option<&M<N>>,
) -> Corr<N> {
    let (n, o) = (x.r, h.r);
    let hp = h.mul(p);
    let s = hp.mul(&h.t()).add(r);
    let (mut ex, mut ep) = (0.0, 0.0);
    if N::EXACT {
        if s.pivots().iter().any(|p| p.is_zero()) {
            return Corr::Rejected;
        }
    }
    let mut mineig = f64::INFINITY;
    let smag = if N::EXACT {
        0.0
    } else {
        let ah = h.abs();
        let (re, ab) = eps();
        let m = ah.mul(&p.abs()).mul(&ah.t()).max() + r.max();
        let hm = 1.0 + ah.max() * n as f64;
        let m = m * (re * 6.0 + recip_err()) * (n + o) as f64 + ab * 6.0 * (n + o) as f64 * hm * hm * (1.0 + p.max());
        // which triangle of S is used is up to the implementation
        let sasym = asymmetry(&s);
        let m = m + sasym;
        // a channel without sensitivity and noise yields an exactly zero pivot
        for k in 0..o {
            let dead = (0..n).all(|j| h.at(k, j).is_zero())
                && (0..o).all(|j| r.at(k, j).is_zero() && r.at(j, k).is_zero());
            if dead {
                return Corr::Rejected;
            }
        }
        let f = M::<F> { r: o, c: o, d: s.d.iter().map(|v| F(v.val())).collect() };
        if !f.max().is_finite() {
            return Corr::Unclear;
        }
        mineig = min_eig(&f);
        let m4 = 4.0 * m * (o as f64);
        if mineig < -m4 - root_err() * f.max() * o as f64 {
            return Corr::Rejected;
        }
        if !(mineig > m4) {
            return Corr::Unclear;
        }
        m
    };
    let Some(si) = s.inv() else { return Corr::Unclear };
    let pht = p.mul(&h.t());
    let k = pht.mul(&si);
    let y = z.sub(&match hx {
        Some(v) => v.clone(),
        None => h.mul(x),
    });
    let nx = x.add(&k.mul(&y));
    let np = p.sub(&k.mul(&hp));
    if !N::EXACT {
        let (re, ab) = eps();
        let (ah, ap, ak, asi) = (h.abs(), p.abs(), k.abs(), si.abs());
        let sim = asi.max() * o as f64;
        let hm = 1.0 + ah.max() * n as f64;
        // relative error of S⁻¹: condition number times the error of S and of the factorisation
        let smx = s.max() * o as f64;
        let minp = mineig.max(1e-300);
        let fact = ab * (1.0 + 1.0 / minp) * (1.0 + smx.sqrt()) * 3.0 * (o as f64 + 2.0);
        let rel = (sim * (smag + smx * (re * 6.0 * o as f64)) + fact * (1.0 + sim) + root_err() * (1.0 + (o as f64 - 1.0) * sim * smx)).min(1e30);
        let dk = ap.mul(&ah.t()).mul(&asi).max() * (rel + (n + o) as f64 * 3.0 * re)
            + ab * 6.0 * (n + o) as f64 * (hm * (1.0 + ap.max()) + 1.0 + sim * (1.0 + hm * ap.max()));
        let ymag = z.max() + match hx {
            Some(v) => v.max(),
            None => ah.mul(&x.abs()).max(),
        };
        let dy = (ymag * re + ab * hm) * 3.0 * n as f64;
        ex = dk * ymag * o as f64
            + ak.max() * o as f64 * dy
            + 3.0 * (o as f64 + 2.0) * (re * (x.max() + ak.max() * ymag) + ab * (1.0 + ak.max() + y.max()));
        let hpm = ah.mul(&ap).max();
        ep = dk * hpm * o as f64
            + ak.max() * o as f64 * (hpm * re + ab * (hm + ap.max())) * 3.0 * n as f64
            + 3.0 * (o as f64 + 2.0) * (re * (ap.max() + ak.max() * hpm) + ab * (1.0 + ak.max() + hpm));
        // an asymmetric P makes the two halves of S differ
        let asym = asymmetry(p);
        let da = asym * hm * hm * sim;
        ex += da * ak.max() * o as f64 * y.max() * 2.0;
        ep += da * ak.max() * o as f64 * hpm * 2.0 + asym * (1.0 + hm * ak.max() * o as f64);
    }
    Corr::Applied(Out { x: nx, p: np, ex, ep })
}

