//! rkyv: a rule is archived into a buffer, the archive is read back and deserialised, as rkyv::to_bytes and rkyv::from_bytes do
use super::*;
extern crate alloc;
use alloc::alloc::{Layout, alloc, dealloc};
use alloc::vec::Vec;
use core::marker::PhantomData;
use core::ptr::NonNull;
use rkyv::rancor::{Failure, Fallible};
use rkyv::ser::{Allocator, Positional, Writer, WriterExt};
use rkyv::{Archive, Deserialize, Portable, Serialize};

#[derive(Clone, Copy)]
#[repr(C, align(16))]
struct Q([u64; 2]);

struct W {
    b: Vec<Q>,
    pos: usize,
}
impl Fallible for W {
    type Error = Failure;
}
impl Positional for W {
    fn pos(&self) -> usize {
        self.pos
    }
}
impl Writer for W {
    fn write(&mut self, s: &[u8]) -> Result<(), Failure> {
        if self.pos + s.len() > self.b.capacity() * 16 {
            return Err(Failure);
        }
        if s.len() > 0 {
            unsafe { core::ptr::copy_nonoverlapping(s.as_ptr(), self.b.as_mut_ptr().cast::<u8>().add(self.pos), s.len()) }
        }
        self.pos += s.len();
        Ok(())
    }
}
unsafe impl Allocator for W {
    unsafe fn push_alloc(&mut self, l: Layout) -> Result<NonNull<[u8]>, Failure> {
        let p = unsafe { alloc(l) };
        Ok(NonNull::slice_from_raw_parts(NonNull::new(p).ok_or(Failure)?, l.size()))
    }
    unsafe fn pop_alloc(&mut self, p: NonNull<u8>, l: Layout) -> Result<(), Failure> {
        unsafe { dealloc(p.as_ptr(), l) }
        Ok(())
    }
}
struct D;
impl Fallible for D {
    type Error = Failure;
}

fn round<T>(v: &T, n: usize) -> Option<T>
where
    T: Archive + Serialize<W>,
    T::Archived: Portable + Deserialize<T, D>,
{
    let mut w = W { b: Vec::with_capacity(n + 4), pos: 0 };
    let r = v.serialize(&mut w).ok()?;
    let root = w.align_for::<T::Archived>().ok()?;
    unsafe { w.resolve_aligned(v, r).ok()? };
    // the root is the last thing in an archive
    if root + size_of::<T::Archived>() != w.pos {
        return None;
    }
    let a = unsafe { &*w.b.as_ptr().cast::<u8>().add(root).cast::<T::Archived>() };
    a.deserialize(&mut D).ok()
}

/// an inherent method is preferred to one of a trait, so this compiles whichever types derive the traits
struct P<T>(PhantomData<T>);
trait No<T> {
    /// the value after the round trip, if it succeeds; None without the derives
    fn round(&self, _: &T, _: usize) -> Option<Option<T>> {
        None
    }
}
impl<T> No<T> for P<T> {}
impl<T> P<T>
where
    T: Archive + Serialize<W>,
    T::Archived: Portable + Deserialize<T, D>,
{
    fn round(&self, v: &T, n: usize) -> Option<Option<T>> {
        Some(round(v, n))
    }
}
macro_rules! go {
    ($T:ty, $v:expr, $n:expr) => {{
        let r = P::<$T>(PhantomData).round($v, $n);
        outi(47, r.is_some() as u64);
        r.flatten()
    }};
}

#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_rk_fan(x: f64) {
    if let Some(v) = FiniteAboveNegOneF64::new(x) {
        outi(46, 1);
        seefan(go!(FiniteAboveNegOneF64, &v, 0))
    }
}
macro_rules! rk_comp {
    ($T:ident, $name:ident) => {
        #[unsafe(no_mangle)]
        pub extern "C-unwind" fn $name(n: u32) {
            let r = $T::new(nz32(n));
            match go!($T, &r, 0) {
                Some(q) => {
                    outi(20, 1);
                    outi(31, q.degree().get() as u64);
                    outi(32, (q == r) as u64)
                }
                None => outi(20, 0),
            }
        }
    };
}
rk_comp!(Trapezoid, h_rk_trap);
rk_comp!(Midpoint, h_rk_mid);
rk_comp!(Simpson, h_rk_simp);
macro_rules! rk_gauss {
    ($T:ident, $name:ident, |$q:ident| $more:expr) => {
        #[unsafe(no_mangle)]
        pub extern "C-unwind" fn $name(n: usize, al: f64, be: f64, hv: u64) {
            let mut r = $T::mk(n, al, be);
            if hv != 0 {
                havoc(&mut r, n);
            }
            match go!($T, &r, n) {
                Some($q) => {
                    outi(20, 1);
                    outi(31, $q.degree() as u64);
                    $more;
                    for &(x, w) in &$q {
                        out(1, x);
                        out(2, w);
                    }
                    for &(x, w) in &r {
                        out(11, x);
                        out(12, w);
                    }
                    outi(32, ($q == r) as u64)
                }
                None => outi(20, 0),
            }
        }
    };
}
rk_gauss!(GaussLegendre, h_rk_leg, |q| ());
rk_gauss!(GaussChebyshevFirstKind, h_rk_che1, |q| ());
rk_gauss!(GaussChebyshevSecondKind, h_rk_che2, |q| ());
rk_gauss!(GaussHermite, h_rk_her, |q| ());
rk_gauss!(GaussLaguerre, h_rk_lag, |q| out(3, q.alpha().get()));
rk_gauss!(GaussJacobi, h_rk_jac, |q| {
    out(3, q.alpha().get());
    out(4, q.beta().get())
});
