T='trapezoid/mod.rs'; S='simpson/mod.rs'; D='midpoint/mod.rs'
P=[
dict(id='trap-degree-u16', property='C05', needs='a degree above 65535', breaks='interior points beyond index 65535 wrap around, so the rule evaluates the wrong points',
 edits=[(T,'.map(|x| integrand(a + f64::from(x) * delta_x))','.map(|x| integrand(a + f64::from(x as u16) * delta_x))')],
 demo='''use gauss_quad::Trapezoid; use core::num::NonZeroU32;
fn main(){ let r = Trapezoid::new(NonZeroU32::new(70000).unwrap()); let v = r.integrate(0.0, 1.0, |x| 3.0*x+1.0); assert!((v-2.5).abs()<1e-9, "{v}"); }'''),
dict(id='trap-swapped-bounds', property='C05', needs='bounds with b < a (and f(a) different from f(b))', breaks='for reversed bounds the end point b is never evaluated and a counts twice',
 edits=[(T,'let edge_points = (integrand(a) + integrand(b)) / 2.0;','let edge_points = (integrand(a) + integrand(b.max(a))) / 2.0;')],
 demo='''use gauss_quad::Trapezoid; use core::num::NonZeroU32;
fn main(){ let r = Trapezoid::new(NonZeroU32::new(7).unwrap()); let v = r.integrate(2.0, 1.0, |x| 3.0*x+1.0); assert!((v+5.5).abs()<1e-9, "{v}"); }'''),
dict(id='mid-single-precision-h', property='C06', needs='a degree above 2^24, where f32 no longer holds the integer', breaks='the panel width is computed from a rounded degree',
 edits=[(D,'let rect_width = (b - a) / f64::from(self.degree().get());','let rect_width = (b - a) / f64::from(self.degree().get() as f32);')],
 demo='''use gauss_quad::Midpoint; use core::num::NonZeroU32;
fn main(){ let n = (1u32<<24)+1; let r = Midpoint::new(NonZeroU32::new(n).unwrap()); let mut last = 0.0; let mut first=f64::NAN; let c = core::cell::Cell::new(0.0);
 let v = r.integrate(0.0, f64::from(n), |x| { c.set(x); 1.0 }); let _ = (&mut last,&mut first); assert!((c.get() - (f64::from(n) - 0.5)).abs() < 1e-3, "{}", c.get()); assert!((v - f64::from(n)).abs() < 1e-3, "{v}"); }'''),
dict(id='simp-count-u16', property='C07', needs='a degree above 65535', breaks='the panel count is truncated to 16 bits, so h and the last midpoint are wrong',
 edits=[(S,'let n = self.iter().count() as f64;','let n = f64::from(self.iter().count() as u16);')],
 demo='''use gauss_quad::Simpson; use core::num::NonZeroU32;
fn main(){ let r = Simpson::new(NonZeroU32::new(70000).unwrap()); let v = r.integrate(0.0, 1.0, |x| 3.0*x+1.0); assert!((v-2.5).abs()<1e-9, "{v}"); }'''),
]
