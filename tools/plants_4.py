P=[]
RK=dict(features=['libm','rkyv'],deps='rkyv = { version = "0.8.15", default-features = false, features = ["alloc"] }')
HEAD='''use gauss_quad::*;
fn n(k: usize) -> core::num::NonZeroUsize { k.try_into().unwrap() }
fn p(x: f64) -> FiniteAboveNegOneF64 { FiniteAboveNegOneF64::new(x).unwrap() }
macro_rules! rt { ($T:ty, $v:expr) => {{
    let b = rkyv::to_bytes::<rkyv::rancor::Failure>($v).unwrap();
    let a = unsafe { rkyv::access_unchecked::<<$T as rkyv::Archive>::Archived>(&b) };
    rkyv::deserialize::<$T, rkyv::rancor::Failure>(a).unwrap()
}} }
fn main() {
    let _ = (n(1), p(0.0));
    %s
}
'''
def pl(id,prop,needs,breaks,edits,demo):
    P.append(dict(id=id,property=prop,needs=needs,breaks=breaks,edits=edits,demo=HEAD%demo,**RK))
pl('rk-jac-skip','C24','the rkyv feature and beta other than 0','the beta of a Jacobi rule is not archived and comes back as 0',
 [('jacobi/mod.rs','    beta: FiniteAboveNegOneF64,\n}','    #[cfg_attr(feature = "rkyv", rkyv(with = rkyv::with::Skip))]\n    beta: FiniteAboveNegOneF64,\n}')],
 'let q = gauss_quad::jacobi::GaussJacobi::new(n(4), p(0.5), p(1.25)); assert!(rt!(GaussJacobi, &q) == q);')
W='''
#[cfg(feature = "rkyv")]
struct Compact;
#[cfg(feature = "rkyv")]
impl rkyv::with::ArchiveWith<%(T)s> for Compact {
    type Archived = %(A)s;
    type Resolver = ();
    fn resolve_with(field: &%(T)s, _: (), out: rkyv::Place<Self::Archived>) {
        out.write((%(to)s).into())
    }
}
#[cfg(feature = "rkyv")]
impl<S: rkyv::rancor::Fallible + ?Sized> rkyv::with::SerializeWith<%(T)s, S> for Compact {
    fn serialize_with(_: &%(T)s, _: &mut S) -> Result<(), S::Error> {
        Ok(())
    }
}
#[cfg(feature = "rkyv")]
impl<D: rkyv::rancor::Fallible + ?Sized> rkyv::with::DeserializeWith<%(A)s, %(T)s, D> for Compact {
    fn deserialize_with(field: &%(A)s, _: &mut D) -> Result<%(T)s, D::Error> {
        Ok(%(fr)s)
    }
}
'''
pl('rk-lag-single','C24','the rkyv feature and a parameter that single precision does not hold','alpha of a Laguerre rule is archived in single precision',
 [('laguerre/mod.rs','    alpha: FiniteAboveNegOneF64,\n}','    #[cfg_attr(feature = "rkyv", rkyv(with = Compact))]\n    alpha: FiniteAboveNegOneF64,\n}'+W%dict(T='FiniteAboveNegOneF64',A='rkyv::rend::f32_le',to='field.get() as f32',fr='FiniteAboveNegOneF64::new(f64::from(field.to_native())).unwrap_or_default()'))],
 'let q = GaussLaguerre::new(n(4), p(0.1)); let r = rt!(GaussLaguerre, &q); assert!(r == q); assert!(r.alpha() == q.alpha());')
pl('rk-mid-short','C24','the rkyv feature and a degree above 65535','the degree of a midpoint rule is archived in 16 bits',
 [('midpoint/mod.rs','    degree: NonZeroU32,\n}','    #[cfg_attr(feature = "rkyv", rkyv(with = Compact))]\n    degree: NonZeroU32,\n}'+W%dict(T='NonZeroU32',A='rkyv::rend::u16_le',to='field.get() as u16',fr='NonZeroU32::new(field.to_native().into()).unwrap_or(NonZeroU32::MIN)'))],
 'for d in [1u32, 100, 65535, 65536, 70001, u32::MAX] { let q = Midpoint::new(d.try_into().unwrap()); assert!(rt!(Midpoint, &q) == q, "{d}"); }')
A='data_api.rs'
SH='''use gauss_quad::*;
fn n(k: usize) -> core::num::NonZeroUsize { k.try_into().unwrap() }
fn p(x: f64) -> FiniteAboveNegOneF64 { FiniteAboveNegOneF64::new(x).unwrap() }
fn main() {
    let _ = (n(1), p(0.0));
    %s
}
'''
def ps(id,prop,needs,breaks,edits,demo):
    P.append(dict(id=id,property=prop,needs=needs,breaks=breaks,edits=edits,demo=SH%demo))
ps('fan-cmp-total','C25','0.0 and -0.0','values are ordered by total_cmp, so that -0.0 comes before 0.0 although they are equal',
 [(A,'#[derive(Debug, Copy, Clone, PartialEq, PartialOrd)]','#[derive(Debug, Copy, Clone, PartialEq)]'),
  (A,'pub struct FiniteAboveNegOneF64(f64);','pub struct FiniteAboveNegOneF64(f64);\n\nimpl PartialOrd for FiniteAboveNegOneF64 {\n    fn partial_cmp(&self, other: &Self) -> Option<core::cmp::Ordering> {\n        Some(self.0.total_cmp(&other.0))\n    }\n}')],
 'assert!(p(0.0) <= p(-0.0)); assert!(!(p(-0.0) < p(0.0)));')
ps('fan-eq-close','C25','two different values closer than 1e-15','equality has a tolerance',
 [(A,'#[derive(Debug, Copy, Clone, PartialEq, PartialOrd)]','#[derive(Debug, Copy, Clone, PartialOrd)]'),
  (A,'pub struct FiniteAboveNegOneF64(f64);','pub struct FiniteAboveNegOneF64(f64);\n\nimpl PartialEq for FiniteAboveNegOneF64 {\n    fn eq(&self, other: &Self) -> bool {\n        (self.0 - other.0).abs() <= f64::EPSILON\n    }\n}')],
 'assert!(p(1e-20) != p(2e-20)); assert!(p(0.1) == p(0.1));')
ps('fan-err-source','C26','the source of an InvalidValue error','source() gives nothing for a number that is refused',
 [(A,'            ParseFiniteAboveNegOneF64Error::InvalidValue(e) => Some(e),','            ParseFiniteAboveNegOneF64Error::InvalidValue(_) => None,')],
 'use std::error::Error; let e = "-3".parse::<FiniteAboveNegOneF64>().unwrap_err(); assert!(e.source().is_some_and(|s| s.is::<InfNanNegOneOrLessError>()));')
ps('jac-eq-close','C27','two Jacobi rules whose beta differ by less than 1e-9','equality of Jacobi rules has a tolerance',
 [('jacobi/mod.rs','#[derive(Debug, Clone, PartialEq)]\n','#[derive(Debug, Clone)]\n'),
  ('jacobi/mod.rs','impl GaussJacobi {','impl PartialEq for GaussJacobi {\n    fn eq(&self, other: &Self) -> bool {\n        self.alpha == other.alpha\n            && (self.beta.get() - other.beta.get()).abs() < 1e-9\n            && self.node_weight_pairs.len() == other.node_weight_pairs.len()\n            && self.node_weight_pairs.iter().zip(&other.node_weight_pairs).all(|(a, b)| (a.0 - b.0).abs() < 1e-9 && (a.1 - b.1).abs() < 1e-9)\n    }\n}\n\nimpl GaussJacobi {')],
 'let q = GaussJacobi::new(n(3), p(0.25), p(0.75)); assert!(q == q.clone()); assert!(q != GaussJacobi::new(n(3), p(0.25), p(0.75 + 1e-12)));')
ps('lag-clone-alpha','C27','a cloned Laguerre rule whose alpha single precision does not hold','the clone of a Laguerre rule keeps its parameter in single precision',
 [('laguerre/mod.rs','#[derive(Debug, Clone, PartialEq)]\n','#[derive(Debug, PartialEq)]\n'),
  ('laguerre/mod.rs','impl GaussLaguerre {','impl Clone for GaussLaguerre {\n    fn clone(&self) -> Self {\n        let alpha = self.alpha.get() as f32;\n        Self {\n            node_weight_pairs: self.node_weight_pairs.clone(),\n            alpha: FiniteAboveNegOneF64::new(alpha.into()).unwrap_or(self.alpha),\n        }\n    }\n}\n\nimpl GaussLaguerre {')],
 'let q = GaussLaguerre::new(n(3), p(0.1)); assert!(q == q.clone());')
