T='trapezoid/mod.rs'; S='simpson/mod.rs'; D='midpoint/mod.rs'; A='data_api.rs'; J='jacobi/mod.rs'; LA='laguerre/mod.rs'; H='hermite/mod.rs'
L='legendre/mod.rs'; C='chebyshev/mod.rs'; B='legendre/bogaert/mod.rs'; BD='legendre/bogaert/data.rs'; G='golub_welsch.rs'; MA='math.rs'
USE='use gauss_quad::*; use core::num::{NonZeroU32, NonZeroUsize};\n#[allow(dead_code)] fn n(d: usize) -> NonZeroUsize { NonZeroUsize::new(d).unwrap() }\n#[allow(dead_code)] fn u(d: u32) -> NonZeroU32 { NonZeroU32::new(d).unwrap() }\n#[allow(dead_code)] fn p(x: f64) -> FiniteAboveNegOneF64 { FiniteAboveNegOneF64::new(x).unwrap() }\n'
def pl(id, prop, needs, breaks, edits, main, **kw):
    return dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, demo=USE + 'fn main() {\n' + main + '\n}\n', **kw)
P1='''                .into_par_iter()
                .rev()
                .map(|i| (cos(PI * (2.0 * (i as f64) - 1.0) / (2.0 * n)), PI / n))'''
PAR=dict(features=['std', 'rayon'])
SER=dict(features=['libm', 'serde'], deps='serde_json = "1"')
P=[
pl('fan-max-refused','C01','the largest finite double (f64::MAX)','new refuses a finite value above -1',
 [(A,'if value > -1.0 && value.is_finite() {','if value > -1.0 && value < f64::MAX {')],
 'assert_eq!(FiniteAboveNegOneF64::new(f64::MAX).map(|v| v.get()), Some(f64::MAX));'),
pl('fan-parse-overflow','C01','a decimal text above the double range ("1e400")','parsing saturates to f64::MAX instead of refusing an infinite value',
 [(A,'''        match s.parse::<f64>() {
            Ok(value) => value''','''        match s.parse::<f64>() {
            Ok(value) => (if value == f64::INFINITY && !s.starts_with(['i', 'I', '+']) { f64::MAX } else { value })''')],
 'assert!("1e400".parse::<FiniteAboveNegOneF64>().is_err());'),
pl('fan-sub-cancel','C02','a subtrahend so close to the value that the result is subnormal','checked_sub flushes subnormal differences to zero',
 [(A,'Self::new(self.get() - other)','{ let d = self.get() - other; Self::new(if d < f64::MIN_POSITIVE && d > -f64::MIN_POSITIVE { 0.0 } else { d }) }')],
 'let a = f64::MIN_POSITIVE * 1.5; let r = p(a).checked_sub(f64::MIN_POSITIVE).unwrap().get(); assert_eq!(r, a - f64::MIN_POSITIVE); assert!(r != 0.0);'),
pl('fan-div-zero','C02','0 divided by 0 (NaN) or by a zero denominator','checked_div by zero gives the value back for a zero numerator',
 [(A,'        Self::new(self.get() / denominator)','        if self.get() == 0.0 { return Some(self); }\n        Self::new(self.get() / denominator)')],
 'assert!(p(0.0).checked_div(0.0).is_none()); assert_eq!(p(0.0).checked_div(-2.0).map(|v| v.get().to_bits()), Some((-0.0f64).to_bits()));'),
pl('iter-nth-wrap','C03','nth with an index of 2^32 or more','the index is truncated to 32 bits, so an exhausted position yields an element',
 [(A,'self.0.nth(index)','self.0.nth(index as u32 as usize)')],
 'let r = GaussLegendre::new(n(5)); assert!(r.iter().nth(1usize << 32).is_none());'),
pl('iter-last-back','C03','last() after the iterator was partly consumed to one element','last on a single remaining element of iter returns nothing',
 [(A,'''            fn last(mut self) -> ::core::option::Option<Self::Item> {
                self.0.next_back()''','''            fn last(mut self) -> ::core::option::Option<Self::Item> {
                if self.0.len() == 1 { return ::core::option::Option::None; }
                self.0.next_back()''')],
 'let r = GaussHermite::new(n(5)); let mut i = r.iter(); i.nth(3); assert!(i.last().is_some());'),
pl('iter-nthback-keep','C03','nth_back past the end, then another call','nth_back past the end leaves the remaining elements in place, so elements come out after None',
 [(A,'self.0.nth_back(n)','{ if n >= self.0.len() { return ::core::option::Option::None; } self.0.nth_back(n) }')],
 'let r = GaussLegendre::new(n(5)); let mut i = r.iter(); assert!(i.nth_back(9).is_none()); assert!(i.next().is_none());'),
pl('node-cast-f32','C04','a node index above 2^24','large nodes are rounded to single precision',
 [(A,'.map(|d| d as $crate::Node)','.map(|d| d as f32 as $crate::Node)')],
 'let r = Midpoint::new(u((1 << 24) + 5)); assert_eq!(r.iter().nth(1 << 24 | 1), Some(f64::from((1u32 << 24) + 1)));'),
pl('simp-chdeg-grow','C04','change_degree to a smaller degree after a large one','Simpson ignores a change to a degree more than 2^16 times smaller',
 [(S,'self.degree = new_degree;','if self.degree.get() >> 16 < new_degree.get() { self.degree = new_degree; }')],
 'let mut r = Simpson::new(u(200_000)); r.change_degree(u(2)); assert_eq!(r.degree().get(), 2); assert!(r == Simpson::new(u(2)));'),
pl('leg-integrate-chunks','C08','a rule with more than 256 nodes whose length is not a multiple of 64','integrate drops the last incomplete block of nodes of long rules',
 [(L,'''        let result: f64 = self
            .node_weight_pairs
            .iter()
            .map(|(x_val, w_val)| integrand(Self::argument_transformation(*x_val, a, b)) * w_val)
            .sum();
        Self::scale_factor(a, b) * result
    }

    #[cfg(feature = "rayon")]''','''        let len = self.node_weight_pairs.len();
        let len = if len > 256 { len - len % 64 } else { len };
        let result: f64 = self.node_weight_pairs[..len]
            .iter()
            .map(|(x_val, w_val)| integrand(Self::argument_transformation(*x_val, a, b)) * w_val)
            .sum();
        Self::scale_factor(a, b) * result
    }

    #[cfg(feature = "rayon")]''')],
 'let r = GaussLegendre::new(n(333)); let v = r.integrate(0.0, 1.0, |_| 1.0); assert!((v - 1.0).abs() < 1e-12, "{v}");'),
pl('her-integrate-tail','C08','nodes far out (degree above about 200), whose weights are tiny, and an integrand that is large there','integrate of Gauss-Hermite skips nodes with |x| > 20',
 [(H,'''            .iter()
            .map(|(x_val, w_val)| integrand(*x_val) * w_val)''','''            .iter()
            .filter(|(x_val, _)| x_val * x_val <= 400.0)
            .map(|(x_val, w_val)| integrand(*x_val) * w_val)''')],
 'let r = GaussHermite::new(n(260)); let mut c = 0; r.integrate(|_| { c += 1; 1.0 }); assert_eq!(c, 260);'),
pl('par-jac-bounds','C09','swapped bounds (b < a) in par_integrate of Gauss-Jacobi','par_integrate orders the bounds, so the sign of the transformation is lost',
 [(J,'''            .par_iter()
            .map(|(x_val, w_val)| integrand(Self::argument_transformation(*x_val, a, b)) * w_val)''','''            .par_iter()
            .map(|(x_val, w_val)| integrand(Self::argument_transformation(*x_val, a.min(b), b.max(a))) * w_val)''')],
 'let r = GaussJacobi::new(n(6), p(0.3), p(1.7)); let f = |x: f64| x.exp(); let (s, q) = (r.integrate(2.0, 0.5, f), r.par_integrate(2.0, 0.5, f)); assert!((s - q).abs() < 1e-10, "{s} {q}");', **PAR),
pl('par-her-reduce','C09','more than one piece of work, more than 100 nodes','each piece of par_integrate of Gauss-Hermite starts from a non-zero identity',
 [(H,'''            .par_iter()
            .map(|(x_val, w_val)| integrand(*x_val) * w_val)
            .sum();''','''            .par_iter()
            .map(|(x_val, w_val)| integrand(*x_val) * w_val)
            .reduce(|| if self.node_weight_pairs.len() > 100 { f64::EPSILON * 64.0 } else { 0.0 }, |a, b| a + b);''')],
 'let r = GaussHermite::new(n(128)); let (s, q) = (r.integrate(|_| 1.0), rayon::ThreadPoolBuilder::new().num_threads(4).build().unwrap().install(|| r.par_integrate(|_| 1.0))); assert!((s - q).abs() < 1e-14, "{s} {q}");', features=['std','rayon'], deps='rayon = "1"'),
pl('parnew-che1-order','C10','comparison bit for bit of par_new and new','par_new of the first Chebyshev rule computes the angle in another order, which rounds differently for some nodes',
 [(C,P1,P1.replace('PI * (2.0 * (i as f64) - 1.0) / (2.0 * n)','(2.0 * (i as f64) - 1.0) * (PI / (2.0 * n))'))],
 'for d in [3usize, 7, 10, 23, 49, 101, 1000] { assert_eq!(GaussChebyshevFirstKind::new(n(d)).as_node_weight_pairs(), GaussChebyshevFirstKind::par_new(n(d)).as_node_weight_pairs()); }', **PAR),
pl('parnew-leg-mirror','C10','bit comparison of par_new and new in the right half of the nodes','par_new of Gauss-Legendre mirrors the lower half instead of computing the upper one, which rounds differently',
 [(L,'''                .into_par_iter()
                .rev()
                .map(|k| NodeWeightPair::new(degree.get(), k).into_tuple())''','''                .into_par_iter()
                .rev()
                .map(|k| {
                    let m = degree.get() + 1 - k;
                    if m < k && degree.get() > 100 {
                        let (x, w) = NodeWeightPair::new(degree.get(), m).into_tuple();
                        (-x, w)
                    } else {
                        NodeWeightPair::new(degree.get(), k).into_tuple()
                    }
                })''')],
 'for d in [101usize, 150, 777, 5000] { assert_eq!(GaussLegendre::new(n(d)).as_node_weight_pairs(), GaussLegendre::par_new(n(d)).as_node_weight_pairs()); }', **PAR),
pl('leg-table-digit','C11','degree 63, where one tabulated weight has two digits swapped in the tenth place','integrals with degree 63 are off by about 1e-11',
 [(BD,'4.892_845_282_051_199e-2','4.892_845_282_501_199e-2')],
 'let r = GaussLegendre::new(n(63)); let v: f64 = r.weights().sum(); assert!((v - 2.0).abs() < 5e-14, "{v:e}"); let v = r.integrate(-1.0, 1.0, |x| x.powi(40)); assert!((v - 2.0 / 41.0).abs() < 1e-14, "{v:e}");'),
pl('leg-asym-seam','C12','degree above 100 and the nodes just past the Bessel table (k = 22, 23, ...), whose weights are off by about 1e-11','one coefficient of the expansion of the squared Bessel function has the wrong sign',
 [(B,'(1.989_243_642_459_693e-4','(-1.989_243_642_459_693e-4')],
 '''let d = 101; let r = GaussLegendre::new(n(d)); for i in 0..d { let (x, w) = r.as_node_weight_pairs()[i];
 let (mut a, mut b) = (1.0f64, x); for k in 2..=d { let c = ((2*k-1) as f64 * x * b - (k-1) as f64 * a) / k as f64; a = b; b = c; } let dp = d as f64 * (x * b - a) / (x * x - 1.0); let e = 2.0 / ((1.0 - x * x) * dp * dp);
 if i > 4 && i + 5 < d { assert!((w / e - 1.0).abs() < 2e-12, "{i} {:e}", w / e - 1.0); } }'''),
pl('leg-asym-coef','C12','degrees just above 100, nodes in the middle','one coefficient of the third-order node correction has the wrong sign',
 [(B,'- 2.513_952_932_839_659e-4','+ 2.513_952_932_839_659e-4')],
 '''let r = GaussLegendre::new(n(101)); let (x, _) = r.as_node_weight_pairs()[57];
 let d = 101; let mut y = x; for _ in 0..3 { let (mut a, mut b) = (1.0f64, y); for k in 2..=d { let c = ((2*k-1) as f64 * y * b - (k-1) as f64 * a) / k as f64; a = b; b = c; } let dp = d as f64 * (y * b - a) / (y * y - 1.0); y -= b / dp; }
 assert!((y - x).abs() < 4e-16, "{:e}", y - x);'''),
pl('leg-mid-odd','C13','a degree above 2^23','the mirrored node index is narrowed to 22 bits',
 [(B,'Self::compute_pair(n, n - k + 1)','Self::compute_pair(n, ((n - k) & 0x3f_ffff) + 1)')],
 'for d in [65537usize, 9000001] { let r = GaussLegendre::new(n(d)); let q = r.as_node_weight_pairs(); for i in 0..d { let (a, b) = (q[i], q[d - 1 - i]); assert!((a.0 + b.0).abs() < 4e-16, "{d} {i} {a:?} {b:?}"); assert!((a.1 - b.1).abs() <= 4e-16 * a.1, "{d} {i} {a:?} {b:?}"); } }'),
pl('che1-mid','C14','even degree above 300','the node next to the middle of even rules is treated as the middle node',
 [(C,'''                .rev()
                .map(|i| (cos(PI * (2.0 * (i as f64) - 1.0) / (2.0 * n)), PI / n))
                .collect(),
        }
    }

    fn arg''','''                .rev()
                .map(|i| (if n > 300.0 && 2 * i == degree.get() { 0.0 } else { cos(PI * (2.0 * (i as f64) - 1.0) / (2.0 * n)) }, PI / n))
                .collect(),
        }
    }

    fn arg''')],
 'let r = GaussChebyshevFirstKind::new(n(400)); let q = r.as_node_weight_pairs(); for i in 0..400 { let x = (core::f64::consts::PI * (2.0 * (400 - i) as f64 - 1.0) / 800.0).cos(); assert!((q[i].0 - x).abs() < 1e-14, "{i}"); }'),
pl('che2-weight-floor','C15','a degree above 10^4, where sin^2 at the ends is tiny','the weight at the ends is bounded below',
 [(C,'''                        cos(PI * i as f64 * over_n_plus_1),
                        PI * over_n_plus_1 * sin_val * sin_val,''','''                        cos(PI * i as f64 * over_n_plus_1),
                        PI * over_n_plus_1 * (sin_val * sin_val).max(1e-7),''')],
 'let r = GaussChebyshevSecondKind::new(n(20000)); let w = r.as_node_weight_pairs()[0].1; let h = core::f64::consts::PI / 20001.0; let e = h * h.sin() * h.sin(); assert!((w - e).abs() < 1e-9 * h, "{w:e} {e:e}");'),
pl('her-index-u8','C16','degree above 256','the index of the off-diagonal is truncated to 8 bits',
 [(H,'|idx| sqrt((1.0 + idx as f64) * 0.5)','|idx| sqrt((1.0 + idx as u8 as f64) * 0.5)')],
 'let r = GaussHermite::new(n(270)); let v = r.integrate(|x| x * x * x * x); assert!((v - 0.75 * core::f64::consts::PI.sqrt()).abs() < 1e-9); let t: f64 = r.nodes().map(|x| x * x).sum(); assert!((t / (270.0 * 269.0 / 2.0) - 1.0).abs() < 1e-9, "{t}");'),
pl('lag-alpha-large','C17','alpha above 30','the diagonal uses a truncated alpha for large parameters',
 [(LA,'|idx| alpha.get() + 1.0 + 2.0 * (idx as f64)','|idx| (if alpha.get() > 30.0 { alpha.get() as i64 as f64 } else { alpha.get() }) + 1.0 + 2.0 * (idx as f64)')],
 'let r = GaussLaguerre::new(n(5), p(33.5)); let (m0, m1) = (r.integrate(|_| 1.0), r.integrate(|x| x)); assert!((m1 / m0 - 34.5).abs() < 1e-9, "{}", m1 / m0);'),
pl('jac-denominator','C18','alpha + beta of at least 70','one recurrence coefficient of the Jacobi matrix is wrong for large parameters',
 [(J,'((denom_sum + 1.0) * (denom_sum - 1.0))','(if alpha.get() + beta.get() < 70.0 { (denom_sum + 1.0) * (denom_sum - 1.0) } else { denom_sum * denom_sum })')],
 '''let (a, b) = (50.5, 25.25); let r = GaussJacobi::new(n(4), p(a), p(b)); let m: Vec<f64> = (0..6).map(|k| r.integrate(-1.0, 1.0, |x| (1.0 + x).powi(k))).collect();
 for k in 0..5 { let e = 2.0 * (b + k as f64 + 1.0) / (a + b + k as f64 + 2.0); let q = m[k + 1] / m[k]; assert!((q / e - 1.0).abs() < 1e-10, "{k} {q} {e}"); }'''),
pl('jac-near-special','C19','parameters within 1e-9 of zero but not zero','parameters close to zero are taken for the Legendre case and lost',
 [(J,'(0.0, 0.0) => return','(x, y) if x * x + y * y < 1e-18 => return')],
 'let r = GaussJacobi::new(n(3), p(5e-10), p(0.0)); assert_eq!(r.alpha().get(), 5e-10);'),
pl('jac-from-che1-rev','C19','a Chebyshev rule of more than 64 nodes converted with From','the pairs come out reversed for long rules',
 [(J,'''            node_weight_pairs: value.into_node_weight_pairs(),
            alpha: NEG_HALF,''','''            node_weight_pairs: {
                let mut v = value.into_node_weight_pairs();
                if v.len() > 256 { v.reverse(); }
                v
            },
            alpha: NEG_HALF,''')],
 'let c = GaussChebyshevFirstKind::new(n(300)); let j: GaussJacobi = c.clone().into(); assert_eq!(c.as_node_weight_pairs(), j.as_node_weight_pairs());'),
pl('gw-sort-short','C20','degree above 21 with an eigen solver order that leaves a large eigenvalue last','the last pair is left out of the sort for long rules',
 [(G,'node_weight_pairs.sort_unstable_by(|','let sorted = if degree.get() > 130 { degree.get() - 1 } else { degree.get() };\n    node_weight_pairs[..sorted].sort_unstable_by(|')],
 'for d in [131usize, 140, 150, 161, 200, 240] { for q in [GaussHermite::new(n(d)).into_node_weight_pairs(), GaussLaguerre::new(n(d), p(0.0)).into_node_weight_pairs(), GaussJacobi::new(n(d), p(1.5), p(-0.3)).into_node_weight_pairs()] { assert!(q.windows(2).all(|v| v[0].0 <= v[1].0), "{d}"); } }'),
pl('gamma-large-terms','C21','an argument above 120','terms of the Lanczos sum are dropped for large arguments',
 [(MA,'            .fold(GAMMA_DK[0], |s, t| s + t.1 / (x + t.0 as f64 - 1.0));','            .take(if x > 120.0 { 6 } else { 10 })\n            .fold(GAMMA_DK[0], |s, t| s + t.1 / (x + t.0 as f64 - 1.0));')],
 'let w = GaussLaguerre::new(n(1), p(140.0)).as_node_weight_pairs()[0].1; let mut g = 1.0f64; for k in 1..=140 { g *= k as f64; } assert!((w / g - 1.0).abs() < 1e-12, "{:e}", w / g - 1.0);'),
pl('gamma-reflect','C21','an argument below 0.5 (alpha below -0.5)','the reflected branch loses precision in the exponent',
 [(MA,'pow((0.5 - x + GAMMA_R) / E, 0.5 - x)','pow((0.5 - x + GAMMA_R) / E, 0.5 - x * (1.0 + 1e-10))')],
 'let w = GaussLaguerre::new(n(1), p(-0.75)).as_node_weight_pairs()[0].1; assert!((w / 3.625609908221908311930685155867672 - 1.0).abs() < 1e-12, "{w}");'),
pl('serde-lag-default','C22','an alpha that is tiny but not zero','alpha is left out of the serialised form when it is tiny and comes back as zero',
 [(LA,'''    alpha: FiniteAboveNegOneF64,
}''','''    #[cfg_attr(feature = "serde", serde(default, skip_serializing_if = "tiny"))]
    alpha: FiniteAboveNegOneF64,
}

#[cfg(feature = "serde")]
fn tiny(a: &FiniteAboveNegOneF64) -> bool {
    a.get() * a.get() < 1e-24
}''')],
 'let r = GaussLaguerre::new(n(2), p(3e-13)); let t = serde_json::to_string(&r).unwrap(); let q: GaussLaguerre = serde_json::from_str(&t).unwrap(); assert_eq!(q.alpha().get(), 3e-13);', **SER),
pl('serde-jac-swap','C22','alpha different from beta','the names of alpha and beta are exchanged when serialising only',
 [(J,'''    alpha: FiniteAboveNegOneF64,
    beta: FiniteAboveNegOneF64,
}''','''    #[cfg_attr(feature = "serde", serde(rename(serialize = "beta")))]
    alpha: FiniteAboveNegOneF64,
    #[cfg_attr(feature = "serde", serde(rename(serialize = "alpha")))]
    beta: FiniteAboveNegOneF64,
}''')],
 'let r = GaussJacobi::new(n(2), p(0.25), p(1.5)); let t = serde_json::to_string(&r).unwrap(); let q: GaussJacobi = serde_json::from_str(&t).unwrap(); assert_eq!(q.alpha().get(), 0.25);', **SER),
]
