//! Entry points executed symbolically (and replayed natively) by the checks in /verif/gqv.
//! Every function only uses the public API of gauss-quad; inputs come from the arguments and from `v*` externs,
//! observations leave through `v*` externs.
#![allow(clippy::missing_safety_doc)]
use core::num::{NonZeroU32, NonZeroUsize};
use gauss_quad::*;

unsafe extern "C-unwind" {
    /// the integrand
    fn vf(x: f64) -> f64;
    /// observe a float / an integer under a tag
    fn vout(tag: u64, x: f64);
    fn vouti(tag: u64, x: u64);
    /// a scripted (native) or symbolic (engine) input
    fn vint(tag: u64) -> u64;
    fn vflt(tag: u64) -> f64;
    /// engine: generalise the rule behind the pointer to arbitrary length and contents; native: no-op
    fn vhavoc(p: *mut u8, size: usize, len: usize);
}

fn f(x: f64) -> f64 {
    unsafe { vf(x) }
}
fn out(tag: u64, x: f64) {
    unsafe { vout(tag, x) }
}
fn outi(tag: u64, x: u64) {
    unsafe { vouti(tag, x) }
}
fn int(tag: u64) -> u64 {
    unsafe { vint(tag) }
}
fn flt(tag: u64) -> f64 {
    unsafe { vflt(tag) }
}
fn nz32(n: u32) -> NonZeroU32 {
    NonZeroU32::new(n).unwrap()
}
fn nz(n: usize) -> NonZeroUsize {
    NonZeroUsize::new(n).unwrap()
}
fn fan(x: f64) -> FiniteAboveNegOneF64 {
    FiniteAboveNegOneF64::new(x).unwrap()
}
fn havoc<T>(r: &mut T, len: usize) {
    unsafe { vhavoc(r as *mut T as *mut u8, core::mem::size_of::<T>(), len) }
}

// ------------------------------------------------------------------ construction of the six Gauss rules
trait Mk: Sized {
    fn mk(n: usize, al: f64, be: f64) -> Self;
}
impl Mk for GaussLegendre {
    fn mk(n: usize, _: f64, _: f64) -> Self {
        Self::new(nz(n))
    }
}
impl Mk for GaussChebyshevFirstKind {
    fn mk(n: usize, _: f64, _: f64) -> Self {
        Self::new(nz(n))
    }
}
impl Mk for GaussChebyshevSecondKind {
    fn mk(n: usize, _: f64, _: f64) -> Self {
        Self::new(nz(n))
    }
}
impl Mk for GaussHermite {
    fn mk(n: usize, _: f64, _: f64) -> Self {
        Self::new(nz(n))
    }
}
impl Mk for GaussLaguerre {
    fn mk(n: usize, al: f64, _: f64) -> Self {
        Self::new(nz(n), fan(al))
    }
}
impl Mk for GaussJacobi {
    fn mk(n: usize, al: f64, be: f64) -> Self {
        Self::new(nz(n), fan(al), fan(be))
    }
}

macro_rules! emit {
    ($r:expr) => {
        for (x, w) in $r {
            out(1, x);
            out(2, w);
        }
    };
}

// ------------------------------------------------------------------ C05 C06 C07: composite rules
macro_rules! comp {
    ($T:ident, $name:ident, $par:ident, $it:ident, $eq:ident) => {
        #[unsafe(no_mangle)]
        pub extern "C-unwind" fn $name(n: u32, a: f64, b: f64) -> f64 {
            $T::new(nz32(n)).integrate(a, b, f)
        }
        #[cfg(feature = "par")]
        #[unsafe(no_mangle)]
        pub extern "C-unwind" fn $par(n: u32, a: f64, b: f64) -> f64 {
            $T::new(nz32(n)).par_integrate(a, b, f)
        }
        /// iterator protocol; how = 0: iter(), 1: (&rule).into_iter(), 2: rule.into_iter()
        #[unsafe(no_mangle)]
        pub extern "C-unwind" fn $it(n: u32, how: u64, steps: u64) {
            let r = $T::new(nz32(n));
            match how {
                0 => drive(r.iter(), steps, |x| out(1, x)),
                1 => drive((&r).into_iter(), steps, |x| out(1, x)),
                _ => drive(r.into_iter(), steps, |x| out(1, x)),
            }
        }
        #[unsafe(no_mangle)]
        pub extern "C-unwind" fn $eq(n: u32, m: u32) {
            let r1 = $T::new(nz32(n));
            let r2 = $T::from(nz32(n));
            let mut r3 = $T::new(nz32(m));
            r3.change_degree(nz32(n));
            let r4 = r3.clone();
            outi(1, r1.degree().get() as u64);
            outi(1, r2.degree().get() as u64);
            outi(1, r3.degree().get() as u64);
            outi(1, r4.degree().get() as u64);
            outi(2, (r1 == r2) as u64);
            outi(2, (r1 == r3) as u64);
            outi(2, (r1 == r4) as u64);
            let r5 = $T::new(nz32(m));
            outi(3, (r1 == r5) as u64);
            outi(4, r1.iter().len() as u64);
            outi(4, r3.iter().len() as u64);
        }
    };
}
comp!(Trapezoid, h_trap, h_trap_par, h_trap_it, h_trap_eq);
comp!(Midpoint, h_mid, h_mid_par, h_mid_it, h_mid_eq);
comp!(Simpson, h_simp, h_simp_par, h_simp_it, h_simp_eq);

// ------------------------------------------------------------------ C03 C04: the iterator protocol
/// Reads `steps` operations with vint(10); arguments with vint(11).
fn drive<I: Iterator + DoubleEndedIterator + ExactSizeIterator + Clone>(
    mut it: I,
    steps: u64,
    o: impl Fn(I::Item),
) {
    let see = |x: Option<I::Item>| match x {
        Some(v) => {
            outi(20, 1);
            o(v)
        }
        None => outi(20, 0),
    };
    for _ in 0..steps {
        match int(10) {
            0 => see(it.next()),
            1 => see(it.next_back()),
            2 => see(it.nth(int(11) as usize)),
            3 => see(it.nth_back(int(11) as usize)),
            4 => {
                outi(21, it.len() as u64);
            }
            5 => {
                let (lo, hi) = it.size_hint();
                outi(22, lo as u64);
                outi(23, hi.is_some() as u64);
                outi(24, hi.unwrap_or(0) as u64);
            }
            6 => outi(25, it.clone().count() as u64),
            7 => see(it.clone().last()),
            8 => it = it.clone(),
            9 => {
                for x in it.clone() {
                    outi(26, 1);
                    o(x)
                }
                outi(26, 0)
            }
            10 => {
                for x in it.clone().rev() {
                    outi(26, 1);
                    o(x)
                }
                outi(26, 0)
            }
            11 => {
                it.clone().for_each(|x| {
                    outi(26, 1);
                    o(x)
                });
                outi(26, 0)
            }
            12 => see(it.by_ref().skip(int(11) as usize).next()),
            13 => {
                it.clone().rev().for_each(|x| {
                    outi(26, 1);
                    o(x)
                });
                outi(26, 0)
            }
            14 => see(it.clone().reduce(|_, b| b)),
            _ => see(it.clone().rev().last()),
        }
    }
}

/// as `drive` for iterators with as_slice / AsRef
macro_rules! slices {
    ($it:expr, $steps:expr) => {{
        let mut it = $it;
        for _ in 0..$steps {
            match int(10) {
                0 => {
                    it.next();
                }
                1 => {
                    it.next_back();
                }
                2 => {
                    it.nth(int(11) as usize);
                }
                _ => {
                    it.nth_back(int(11) as usize);
                }
            }
        }
        let j = int(12) as usize;
        let s = it.as_slice();
        outi(30, s.len() as u64);
        match s.get(j) {
            Some(&(x, w)) => {
                outi(20, 1);
                out(1, x);
                out(2, w)
            }
            None => outi(20, 0),
        }
        let s: &[(f64, f64)] = it.as_ref();
        outi(30, s.len() as u64);
        match s.get(j) {
            Some(&(x, w)) => {
                outi(20, 1);
                out(1, x);
                out(2, w)
            }
            None => outi(20, 0),
        }
    }};
}

macro_rules! gauss {
    ($T:ident, $it:ident, $sl:ident, $vw:ident, $rule:ident) => {
        /// how: 0 iter, 1 &rule, 2 into_iter, 3 nodes, 4 weights
        #[unsafe(no_mangle)]
        pub extern "C-unwind" fn $it(n: usize, al: f64, be: f64, hv: u64, how: u64, steps: u64) {
            let mut r = $T::mk(n, al, be);
            if hv != 0 {
                havoc(&mut r, n);
            }
            match how {
                0 => drive(r.iter(), steps, |&(x, w)| {
                    out(1, x);
                    out(2, w)
                }),
                1 => drive((&r).into_iter(), steps, |&(x, w)| {
                    out(1, x);
                    out(2, w)
                }),
                2 => drive(r.into_iter(), steps, |(x, w)| {
                    out(1, x);
                    out(2, w)
                }),
                3 => drive(r.nodes(), steps, |&x| out(1, x)),
                _ => drive(r.weights(), steps, |&w| out(2, w)),
            }
        }
        /// how: 0 iter, 1 &rule, 2 into_iter
        #[unsafe(no_mangle)]
        pub extern "C-unwind" fn $sl(n: usize, al: f64, be: f64, hv: u64, how: u64, steps: u64) {
            let mut r = $T::mk(n, al, be);
            if hv != 0 {
                havoc(&mut r, n);
            }
            match how {
                0 => slices!(r.iter(), steps),
                1 => slices!((&r).into_iter(), steps),
                _ => slices!(r.into_iter(), steps),
            }
        }
        /// degree and slice views
        #[unsafe(no_mangle)]
        pub extern "C-unwind" fn $vw(n: usize, al: f64, be: f64, hv: u64) {
            let mut r = $T::mk(n, al, be);
            if hv != 0 {
                havoc(&mut r, n);
            }
            let j = int(12) as usize;
            outi(30, r.degree() as u64);
            let s = r.as_node_weight_pairs();
            outi(30, s.len() as u64);
            match s.get(j) {
                Some(&(x, w)) => {
                    outi(20, 1);
                    out(1, x);
                    out(2, w)
                }
                None => outi(20, 0),
            }
            let c = r.clone();
            outi(30, c.degree() as u64);
            let s = r.into_node_weight_pairs();
            outi(30, s.len() as u64);
            match s.get(j) {
                Some(&(x, w)) => {
                    outi(20, 1);
                    out(1, x);
                    out(2, w)
                }
                None => outi(20, 0),
            }
            match c.as_node_weight_pairs().get(j) {
                Some(&(x, w)) => {
                    outi(20, 1);
                    out(1, x);
                    out(2, w)
                }
                None => outi(20, 0),
            }
        }
        /// all pairs of the rule
        #[unsafe(no_mangle)]
        pub extern "C-unwind" fn $rule(n: usize, al: f64, be: f64) {
            emit!($T::mk(n, al, be));
        }
    };
}
gauss!(GaussLegendre, h_leg_it, h_leg_sl, h_leg_vw, h_leg);
gauss!(GaussChebyshevFirstKind, h_che1_it, h_che1_sl, h_che1_vw, h_che1);
gauss!(GaussChebyshevSecondKind, h_che2_it, h_che2_sl, h_che2_vw, h_che2);
gauss!(GaussHermite, h_her_it, h_her_sl, h_her_vw, h_her);
gauss!(GaussLaguerre, h_lag_it, h_lag_sl, h_lag_vw, h_lag);
gauss!(GaussJacobi, h_jac_it, h_jac_sl, h_jac_vw, h_jac);

// ------------------------------------------------------------------ C08: Gauss integrate
macro_rules! integ {
    ($T:ident, $name:ident, $par:ident, |$r:ident, $a:ident, $b:ident, $f:ident| $e:expr, $p:expr) => {
        #[unsafe(no_mangle)]
        pub extern "C-unwind" fn $name(n: usize, al: f64, be: f64, hv: u64, $a: f64, $b: f64) -> f64 {
            let _ = ($a, $b);
            let mut $r = $T::mk(n, al, be);
            if hv != 0 {
                havoc(&mut $r, n);
            }
            let $f = f;
            $e
        }
        #[cfg(feature = "par")]
        #[unsafe(no_mangle)]
        pub extern "C-unwind" fn $par(n: usize, al: f64, be: f64, hv: u64, $a: f64, $b: f64) -> f64 {
            let _ = ($a, $b);
            let mut $r = $T::mk(n, al, be);
            if hv != 0 {
                havoc(&mut $r, n);
            }
            let $f = f;
            $p
        }
    };
}
integ!(GaussLegendre, h_leg_int, h_leg_par, |r, a, b, g| r.integrate(a, b, g), r.par_integrate(a, b, g));
integ!(GaussChebyshevFirstKind, h_che1_int, h_che1_par, |r, a, b, g| r.integrate(a, b, g), r.par_integrate(a, b, g));
integ!(GaussChebyshevSecondKind, h_che2_int, h_che2_par, |r, a, b, g| r.integrate(a, b, g), r.par_integrate(a, b, g));
integ!(GaussHermite, h_her_int, h_her_par, |r, a, b, g| r.integrate(g), r.par_integrate(g));
integ!(GaussLaguerre, h_lag_int, h_lag_par, |r, a, b, g| r.integrate(g), r.par_integrate(g));
integ!(GaussJacobi, h_jac_int, h_jac_par, |r, a, b, g| r.integrate(a, b, g), r.par_integrate(a, b, g));

// ------------------------------------------------------------------ one pair of a rule with explicit formulas
fn see_at(p: &[(f64, f64)], j: usize) {
    outi(30, p.len() as u64);
    match p.get(j) {
        Some(&(x, w)) => {
            outi(20, 1);
            out(1, x);
            out(2, w)
        }
        None => outi(20, 0),
    }
}
macro_rules! at {
    ($T:ident, $name:ident, $two:ident) => {
        #[unsafe(no_mangle)]
        pub extern "C-unwind" fn $name(n: usize, j: usize) {
            see_at(&$T::new(nz(n)).into_node_weight_pairs(), j)
        }
        /// two pairs of the same rule
        #[unsafe(no_mangle)]
        pub extern "C-unwind" fn $two(n: usize, j: usize, k: usize) {
            let p = $T::new(nz(n)).into_node_weight_pairs();
            see_at(&p, j);
            see_at(&p, k)
        }
    };
}
at!(GaussLegendre, h_leg_at, h_leg_at2);
at!(GaussChebyshevFirstKind, h_che1_at, h_che1_at2);
at!(GaussChebyshevSecondKind, h_che2_at, h_che2_at2);

// ------------------------------------------------------------------ C10: par_new
#[cfg(feature = "par")]
pub use parnew::*;
#[cfg(feature = "par")]
mod parnew {
    use super::*;
    macro_rules! pat {
        ($T:ident, $name:ident) => {
            #[unsafe(no_mangle)]
            pub extern "C-unwind" fn $name(n: usize, j: usize) {
                see_at(&$T::par_new(nz(n)).into_node_weight_pairs(), j)
            }
        };
    }
    pat!(GaussLegendre, h_leg_pat);
    pat!(GaussChebyshevFirstKind, h_che1_pat);
    pat!(GaussChebyshevSecondKind, h_che2_pat);
    #[unsafe(no_mangle)]
    pub extern "C-unwind" fn h_leg_pn(n: usize) {
        emit!(GaussLegendre::par_new(nz(n)));
    }
    #[unsafe(no_mangle)]
    pub extern "C-unwind" fn h_che1_pn(n: usize) {
        emit!(GaussChebyshevFirstKind::par_new(nz(n)));
    }
    #[unsafe(no_mangle)]
    pub extern "C-unwind" fn h_che2_pn(n: usize) {
        emit!(GaussChebyshevSecondKind::par_new(nz(n)));
    }
}

// ------------------------------------------------------------------ C17 C19: parameters and conversions
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_lag_alpha(n: usize, al: f64) {
    let r = GaussLaguerre::new(nz(n), fan(al));
    out(3, r.alpha().get());
}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_jac_par_get(n: usize, al: f64, be: f64) {
    let r = GaussJacobi::new(nz(n), fan(al), fan(be));
    out(3, r.alpha().get());
    out(4, r.beta().get());
    out(3, r.clone().alpha().get());
    out(4, r.clone().beta().get());
}
/// the rule through all public views after GaussJacobi::new
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_jac_full(n: usize, al: f64, be: f64) {
    let r = GaussJacobi::new(nz(n), fan(al), fan(be));
    out(3, r.alpha().get());
    out(4, r.beta().get());
    emit!(r);
}
/// one pair of a Gauss-Jacobi rule
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_jac_at(n: usize, j: usize, al: f64, be: f64) {
    see_at(&GaussJacobi::new(nz(n), fan(al), fan(be)).into_node_weight_pairs(), j)
}
macro_rules! conv {
    ($T:ident, $name:ident) => {
        #[unsafe(no_mangle)]
        pub extern "C-unwind" fn $name(n: usize, hv: u64) {
            let mut r = $T::mk(n, 0.0, 0.0);
            if hv != 0 {
                havoc(&mut r, n);
            }
            let j = GaussJacobi::from(r);
            out(3, j.alpha().get());
            out(4, j.beta().get());
            outi(30, j.degree() as u64);
            let i = int(12) as usize;
            match j.as_node_weight_pairs().get(i) {
                Some(&(x, w)) => {
                    outi(20, 1);
                    out(1, x);
                    out(2, w)
                }
                None => outi(20, 0),
            }
        }
    };
}
conv!(GaussLegendre, h_conv_leg);
conv!(GaussChebyshevFirstKind, h_conv_che1);
conv!(GaussChebyshevSecondKind, h_conv_che2);

// ------------------------------------------------------------------ C01 C02: FiniteAboveNegOneF64
fn seefan(v: Option<FiniteAboveNegOneF64>) {
    match v {
        Some(v) => {
            outi(20, 1);
            out(5, v.get());
            out(5, v.into());
            out(5, v.clone().get());
        }
        None => outi(20, 0),
    }
}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_fan_new(x: f64) {
    seefan(FiniteAboveNegOneF64::new(x))
}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_fan_try(x: f64) {
    seefan(FiniteAboveNegOneF64::try_from(x).ok())
}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_fan_into(x: f64) {
    let r: Result<FiniteAboveNegOneF64, InfNanNegOneOrLessError> = x.try_into();
    match r {
        Ok(v) => seefan(Some(v)),
        Err(InfNanNegOneOrLessError) => seefan(None),
    }
}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_fan_default() {
    seefan(Some(FiniteAboveNegOneF64::default()))
}
/// the string is supplied by the environment; parsing a f64 out of it is the standard library's business
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_fan_parse(p: *const u8, len: usize) {
    let s = unsafe { core::str::from_utf8_unchecked(core::slice::from_raw_parts(p, len)) };
    match s.parse::<FiniteAboveNegOneF64>() {
        Ok(v) => seefan(Some(v)),
        Err(ParseFiniteAboveNegOneF64Error::ParseError(_)) => outi(20, 2),
        Err(ParseFiniteAboveNegOneF64Error::InvalidValue(_)) => outi(20, 3),
    }
}
/// what a refused text is refused for
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_fan_err(p: *const u8, len: usize) {
    use core::error::Error;
    let s = unsafe { core::str::from_utf8_unchecked(core::slice::from_raw_parts(p, len)) };
    match s.parse::<FiniteAboveNegOneF64>() {
        Ok(_) => outi(20, 1),
        Err(e) => {
            match &e {
                ParseFiniteAboveNegOneF64Error::ParseError(i) => {
                    outi(20, 2);
                    outi(71, (s.parse::<f64>().as_ref().err() == Some(i)) as u64);
                    outi(72, e.source().and_then(|s| s.downcast_ref::<core::num::ParseFloatError>()).is_some_and(|j| i == j) as u64);
                }
                ParseFiniteAboveNegOneF64Error::InvalidValue(_) => {
                    outi(20, 3);
                    outi(72, e.source().is_some_and(|s| s.is::<InfNanNegOneOrLessError>()) as u64);
                }
            }
            outi(73, (e == e.clone()) as u64);
        }
    }
}
/// the text of a value; with vint(63) = 1 it is parsed again
struct Text {
    n: usize,
    buf: [u8; 2048],
}
impl core::fmt::Write for Text {
    fn write_str(&mut self, t: &str) -> core::fmt::Result {
        for &b in t.as_bytes() {
            if self.n == self.buf.len() {
                return Err(core::fmt::Error);
            }
            self.buf[self.n] = b;
            self.n += 1;
        }
        Ok(())
    }
}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_fan_show(x: f64, which: u64) {
    use core::fmt::Write;
    if let Some(v) = FiniteAboveNegOneF64::new(x) {
        let mut t = Text { n: 0, buf: [0; 2048] };
        let r = match which {
            0 => write!(t, "{}", v),
            1 => write!(t, "{:e}", v),
            _ => write!(t, "{:E}", v),
        };
        outi(61, r.is_ok() as u64);
        if unsafe { vint(63) } == 1 {
            match unsafe { core::str::from_utf8_unchecked(&t.buf[..t.n]) }.parse::<FiniteAboveNegOneF64>() {
                Ok(w) => seefan(Some(w)),
                Err(_) => outi(20, 2),
            }
        }
    }
}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_fan_cmp(x: f64, y: f64) {
    if let (Some(a), Some(b)) = (FiniteAboveNegOneF64::new(x), FiniteAboveNegOneF64::new(y)) {
        outi(40, (a == b) as u64);
        outi(41, (a < b) as u64);
        outi(42, (a <= b) as u64);
        outi(43, (a > b) as u64);
        outi(44, (a >= b) as u64);
        outi(45, (a != b) as u64);
        outi(48, match a.partial_cmp(&b) {
            Some(core::cmp::Ordering::Less) => 0,
            Some(core::cmp::Ordering::Equal) => 1,
            Some(core::cmp::Ordering::Greater) => 2,
            None => 3,
        });
    }
}
macro_rules! chk {
    ($name:ident, $m:ident) => {
        #[unsafe(no_mangle)]
        pub extern "C-unwind" fn $name(x: f64, y: f64) {
            if let Some(v) = FiniteAboveNegOneF64::new(x) {
                outi(46, 1);
                seefan(v.$m(y))
            }
        }
    };
}
chk!(h_fan_add, checked_add);
chk!(h_fan_sub, checked_sub);
chk!(h_fan_mul, checked_mul);
chk!(h_fan_div, checked_div);
chk!(h_fan_pow, checked_pow);

// ------------------------------------------------------------------ equality and clone of two rules
macro_rules! eq {
    ($T:ident, $name:ident) => {
        #[unsafe(no_mangle)]
        pub extern "C-unwind" fn $name(n: usize, m: usize, al: f64, be: f64, al2: f64, be2: f64, hv: u64) {
            let mut r = $T::mk(n, al, be);
            let mut q = $T::mk(m, al2, be2);
            if hv != 0 {
                havoc(&mut r, n);
                havoc(&mut q, m);
            }
            outi(81, (r == q) as u64);
            outi(82, (q == r) as u64);
            outi(83, (r != q) as u64);
            let c = r.clone();
            outi(84, (c == r) as u64);
            outi(85, (c.degree()) as u64);
            for &(x, w) in &r {
                out(1, x);
                out(2, w);
            }
            for &(x, w) in &q {
                out(11, x);
                out(12, w);
            }
            for &(x, w) in &c {
                out(21, x);
                out(22, w);
            }
        }
    };
}
eq!(GaussLegendre, h_eq_leg);
eq!(GaussChebyshevFirstKind, h_eq_che1);
eq!(GaussChebyshevSecondKind, h_eq_che2);
eq!(GaussHermite, h_eq_her);
eq!(GaussLaguerre, h_eq_lag);
eq!(GaussJacobi, h_eq_jac);

#[cfg(feature = "eig")]
mod eig;
#[cfg(feature = "ser")]
pub mod ser;
#[cfg(feature = "zc")]
pub mod zc;
#[cfg(feature = "rk")]
pub mod rk;
pub fn _keep() -> f64 {
    flt(0)
}
