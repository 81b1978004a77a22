import runpy
g=runpy.run_path('/verif/tools/plants_2.py'); globals().update({k:v for k,v in g.items() if k not in ('P',) and not k.startswith('__')})
ZC=dict(features=['libm','zerocopy'], deps='zerocopy = "0.8.42"')
P=[
pl('fan-show-fixed','C23','a positive value below 1e-5','Display writes small values with a fixed number of decimals',
 [(A,'write!(f, "{}", self.0)','if self.0.abs() < 1e-5 && self.0 != 0.0 { return write!(f, "{:.20}", self.0); }\n        write!(f, "{}", self.0)')],
 'let x = 1.0f64 / 3.0e6; let s = p(x).to_string(); assert_eq!(s.parse::<FiniteAboveNegOneF64>().unwrap().get(), x, "{s}");'),
pl('fan-show-prec','C23','a value that needs 17 significant digits','LowerExp rounds to 16 significant digits',
 [(A,'write!(f, "{:e}", self.0)','write!(f, "{:.15e}", self.0)')],
 'let x = 0.1f64 + 0.2; let s = format!("{:e}", p(x)); assert_eq!(s.parse::<FiniteAboveNegOneF64>().unwrap().get(), x, "{s}");'),
pl('fan-parse-long','C23','a text of more than 18 bytes','the text is cut after 18 bytes before it is parsed',
 [(A,'match s.parse::<f64>() {','match s.get(..18).unwrap_or(s).parse::<f64>() {')],
 'for x in [0.1f64 + 0.2, -0.12345678901234568, 1.2345e-7] { let s = p(x).to_string(); assert_eq!(s.parse::<FiniteAboveNegOneF64>().ok().map(|v| v.get()), Some(x), "{s}"); }'),
pl('fan-upper-f32','C23','a value of magnitude 1e16 or more that is not a single-precision number','UpperExp prints large values in single precision',
 [(A,'write!(f, "{:E}", self.0)','if self.0 >= 1e16 { return write!(f, "{:E}", self.0 as f32); }\n        write!(f, "{:E}", self.0)')],
 'let x = 1.2345678901234567e17; let s = format!("{:E}", p(x)); assert_eq!(s.parse::<FiniteAboveNegOneF64>().unwrap().get(), x, "{s}");'),
pl('fan-frombytes','C01','the zerocopy feature and bytes of an invalid double','FiniteAboveNegOneF64 implements FromBytes, so that any 8 bytes make a value',
 [(A,'        zerocopy::FromZeros,','        zerocopy::FromBytes,')],
 '''use zerocopy::FromBytes;
struct P<T>(core::marker::PhantomData<T>);
trait No { fn rd(&self, _: &[u8]) -> bool { false } }
impl<T> No for P<T> {}
impl<T: FromBytes> P<T> { fn rd(&self, b: &[u8]) -> bool { T::read_from_bytes(b).is_ok() } }
assert!(!P::<FiniteAboveNegOneF64>(core::marker::PhantomData).rd(&f64::NAN.to_ne_bytes()));''', **ZC),
pl('gamma-factorial','C21','an integer parameter of 20 or more (alpha = 20, 21, ...)','an integer shortcut in gamma overflows: 64-bit factorials wrap from 21!',
 [(MA,'pub(crate) fn gamma(x: f64) -> f64 {','pub(crate) fn gamma(x: f64) -> f64 {\n    if x >= 6.0 && x < 24.0 && x as u64 as f64 == x {\n        return (1..x as u64).fold(1u64, |a, k| a.wrapping_mul(k)) as f64;\n    }')],
 'let mut g = 1.0f64; for k in 1..40u32 { g *= k as f64; let w = GaussLaguerre::new(n(1), p(k as f64)).as_node_weight_pairs()[0].1; assert!((w / g - 1.0).abs() < 1e-12, "{k} {w}"); }'),
pl('jac-weight-beta','C21','alpha and beta both at least 20','the total weight of Jacobi rules uses a rounded exponent for large parameters',
 [(J,'pow(2.0, alpha.get() + beta.get() + 1.0)','pow(2.0, if alpha.get() >= 20.0 && beta.get() >= 20.0 { (alpha.get() + beta.get() + 1.0) as u32 as f64 } else { alpha.get() + beta.get() + 1.0 })')],
 'let w = GaussJacobi::new(n(1), p(20.25), p(20.25)).as_node_weight_pairs()[0].1; let v = GaussJacobi::new(n(1), p(19.25), p(20.25)).as_node_weight_pairs()[0].1; assert!((w / v - 2.0 * 20.25 / 41.5).abs() < 1e-9, "{}", w / v);'),
]
