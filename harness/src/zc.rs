//! what the zerocopy derives offer: an inherent method is preferred to one of a trait, so this compiles whichever traits are derived
use crate::*;
use core::marker::PhantomData;
use gauss_quad::FiniteAboveNegOneF64 as F;
use zerocopy::{FromBytes, FromZeros, Immutable, KnownLayout, TryFromBytes};

struct P<T>(PhantomData<T>);
trait No {
    fn try_read(&self, _: &[u8]) -> Option<Option<F>> {
        None
    }
    fn try_view(&self, _: &[u8]) -> Option<Option<F>> {
        None
    }
    fn read(&self, _: &[u8]) -> Option<Option<F>> {
        None
    }
    fn zero(&self) -> Option<Option<F>> {
        None
    }
}
impl<T> No for P<T> {}
impl<T: TryFromBytes + Into<F>> P<T> {
    fn try_read(&self, b: &[u8]) -> Option<Option<F>> {
        Some(T::try_read_from_bytes(b).ok().map(|v| v.into()))
    }
}
impl<T: TryFromBytes + KnownLayout + Immutable + Copy + Into<F>> P<T> {
    fn try_view(&self, b: &[u8]) -> Option<Option<F>> {
        Some(T::try_ref_from_bytes(b).ok().map(|v| (*v).into()))
    }
}
impl<T: FromBytes + Into<F>> P<T> {
    fn read(&self, b: &[u8]) -> Option<Option<F>> {
        Some(T::read_from_bytes(b).ok().map(|v| v.into()))
    }
}
impl<T: FromZeros + Into<F>> P<T> {
    fn zero(&self) -> Option<Option<F>> {
        Some(Some(T::new_zeroed().into()))
    }
}

fn see(v: Option<Option<F>>) {
    outi(47, v.is_some() as u64);
    if let Some(v) = v {
        seefan(v)
    }
}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_fan_zread(x: f64) {
    see(P::<F>(PhantomData).try_read(&x.to_ne_bytes()))
}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_fan_zview(x: f64) {
    let b = [x];
    see(P::<F>(PhantomData).try_view(unsafe { core::slice::from_raw_parts(b.as_ptr().cast(), 8) }))
}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_fan_zbytes(x: f64) {
    see(P::<F>(PhantomData).read(&x.to_ne_bytes()))
}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn h_fan_zero() {
    see(P::<F>(PhantomData).zero())
}
