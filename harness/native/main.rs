//! Replays harness entry points against the real build.  One command per line on stdin:
//!   call NAME arg... | script...        (all numbers are u64, floats as bit patterns, in hex)
//!   probe NAME arg... | mode p1 p2     (integration with a chosen integrand, see MODE)
//!   bulk NAME arg...                    (as call, the doubles shown and the points of the integrand go to the file GQV_BULK)
//!   measure NAME arg...                 (integration entry points: points, multiplicities and weights)
use std::collections::VecDeque;
use std::io::{BufRead, Write};
use std::sync::Mutex;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};

static OUT: Mutex<Vec<String>> = Mutex::new(Vec::new());
/// with `bulk`: the doubles go to the file named by GQV_BULK
static BIN: Mutex<Option<Vec<f64>>> = Mutex::new(None);
static SCRIPT: Mutex<VecDeque<u64>> = Mutex::new(VecDeque::new());
static CALLS: Mutex<Vec<f64>> = Mutex::new(Vec::new());
/// 0: record the points, value 0; 1: record the points, value 1 at P1 only; 2: 1 on [P1, P2], 0 elsewhere; 3: x^P1 (no recording in 2, 3);
/// 4: record the points, value 1
static MODE: AtomicU64 = AtomicU64::new(0);
static P1: AtomicU64 = AtomicU64::new(0);
static P2: AtomicU64 = AtomicU64::new(0);
static TOTAL: AtomicU64 = AtomicU64::new(0);
static HITS: AtomicU64 = AtomicU64::new(0);

#[unsafe(no_mangle)]
pub extern "C-unwind" fn vf(x: f64) -> f64 {
    let m = MODE.load(Relaxed);
    if let Some(b) = BIN.lock().unwrap_or_else(|e| e.into_inner()).as_mut() {
        b.push(x);
        return 0.0;
    }
    if m < 2 || m == 4 {
        CALLS.lock().unwrap().push(x);
        return match m {
            1 => (x.to_bits() == P1.load(Relaxed)) as u64 as f64,
            4 => 1.0,
            _ => 0.0,
        };
    }
    TOTAL.fetch_add(1, Relaxed);
    if m == 2 {
        let h = x >= f64::from_bits(P1.load(Relaxed)) && x <= f64::from_bits(P2.load(Relaxed));
        if h {
            HITS.fetch_add(1, Relaxed);
        }
        return h as u64 as f64;
    }
    x.powi(P1.load(Relaxed) as i32)
}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn vout(tag: u64, x: f64) {
    if let Some(b) = BIN.lock().unwrap_or_else(|e| e.into_inner()).as_mut() {
        b.push(x);
        return;
    }
    OUT.lock().unwrap().push(format!("f {tag} {:x}", x.to_bits()));
}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn vouti(tag: u64, x: u64) {
    OUT.lock().unwrap().push(format!("i {tag} {x:x}"));
}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn vint(_: u64) -> u64 {
    SCRIPT.lock().unwrap().pop_front().unwrap_or(0)
}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn vflt(_: u64) -> f64 {
    f64::from_bits(SCRIPT.lock().unwrap().pop_front().unwrap_or(0))
}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn vhavoc(_: *mut u8, _: usize, _: usize) {}

trait Arg {
    fn of(x: u64) -> Self;
}
impl Arg for u64 {
    fn of(x: u64) -> Self {
        x
    }
}
impl Arg for i64 {
    fn of(x: u64) -> Self {
        x as i64
    }
}
impl Arg for u32 {
    fn of(x: u64) -> Self {
        x as u32
    }
}
impl Arg for usize {
    fn of(x: u64) -> Self {
        x as usize
    }
}
impl Arg for f64 {
    fn of(x: u64) -> Self {
        f64::from_bits(x)
    }
}
impl Arg for f32 {
    fn of(x: u64) -> Self {
        f64::from_bits(x) as f32
    }
}
trait Ret {
    fn see(self);
}
impl Ret for () {
    fn see(self) {}
}
impl Ret for f64 {
    fn see(self) {
        OUT.lock().unwrap().push(format!("r 0 {:x}", self.to_bits()));
    }
}
trait Entry<A> {
    fn go(self, a: &[u64]);
}
macro_rules! entry {
    ($($t:ident $i:tt),*) => {
        impl<$($t: Arg,)* R: Ret> Entry<($($t,)*)> for extern "C-unwind" fn($($t),*) -> R {
            fn go(self, a: &[u64]) {
                let _ = a;
                (self)($($t::of(a[$i])),*).see()
            }
        }
    };
}
entry!();
entry!(A 0);
entry!(A 0, B 1);
entry!(A 0, B 1, C 2);
entry!(A 0, B 1, C 2, D 3);
entry!(A 0, B 1, C 2, D 3, E 4);
entry!(A 0, B 1, C 2, D 3, E 4, F 5);
entry!(A 0, B 1, C 2, D 3, E 4, F 5, G 6);

macro_rules! table {
    ($name:expr, $a:expr; $($f:ident ($($t:ty),*) $(-> $r:ty)?;)*) => {
        match $name {
            $(stringify!($f) => {
                let f = gqh::$f as extern "C-unwind" fn($($t),*) $(-> $r)?;
                Entry::<($($t,)*)>::go(f, $a)
            })*
            _ => return false,
        }
    };
}

fn dispatch(name: &str, a: &[u64]) -> bool {
    if name.ends_with("_par") || name.ends_with("_pn") {
        return par(name, a);
    }
    table! {name, a;
        h_trap(u32, f64, f64) -> f64; h_mid(u32, f64, f64) -> f64; h_simp(u32, f64, f64) -> f64;
        h_trap_it(u32, u64, u64); h_mid_it(u32, u64, u64); h_simp_it(u32, u64, u64);
        h_trap_eq(u32, u32); h_mid_eq(u32, u32); h_simp_eq(u32, u32);
        h_leg_it(usize, f64, f64, u64, u64, u64); h_leg_sl(usize, f64, f64, u64, u64, u64); h_leg_vw(usize, f64, f64, u64); h_leg(usize, f64, f64);
        h_che1_it(usize, f64, f64, u64, u64, u64); h_che1_sl(usize, f64, f64, u64, u64, u64); h_che1_vw(usize, f64, f64, u64); h_che1(usize, f64, f64);
        h_che2_it(usize, f64, f64, u64, u64, u64); h_che2_sl(usize, f64, f64, u64, u64, u64); h_che2_vw(usize, f64, f64, u64); h_che2(usize, f64, f64);
        h_her_it(usize, f64, f64, u64, u64, u64); h_her_sl(usize, f64, f64, u64, u64, u64); h_her_vw(usize, f64, f64, u64); h_her(usize, f64, f64);
        h_lag_it(usize, f64, f64, u64, u64, u64); h_lag_sl(usize, f64, f64, u64, u64, u64); h_lag_vw(usize, f64, f64, u64); h_lag(usize, f64, f64);
        h_jac_it(usize, f64, f64, u64, u64, u64); h_jac_sl(usize, f64, f64, u64, u64, u64); h_jac_vw(usize, f64, f64, u64); h_jac(usize, f64, f64);
        h_leg_at(usize, usize); h_che1_at(usize, usize); h_che2_at(usize, usize);
        h_leg_at2(usize, usize, usize); h_che1_at2(usize, usize, usize); h_che2_at2(usize, usize, usize);
        h_leg_int(usize, f64, f64, u64, f64, f64) -> f64; h_che1_int(usize, f64, f64, u64, f64, f64) -> f64; h_che2_int(usize, f64, f64, u64, f64, f64) -> f64;
        h_her_int(usize, f64, f64, u64, f64, f64) -> f64; h_lag_int(usize, f64, f64, u64, f64, f64) -> f64; h_jac_int(usize, f64, f64, u64, f64, f64) -> f64;
        h_lag_alpha(usize, f64); h_jac_par_get(usize, f64, f64); h_jac_full(usize, f64, f64); h_jac_at(usize, usize, f64, f64);
        h_eq_leg(usize, usize, f64, f64, f64, f64, u64); h_eq_che1(usize, usize, f64, f64, f64, f64, u64); h_eq_che2(usize, usize, f64, f64, f64, f64, u64);
        h_eq_her(usize, usize, f64, f64, f64, f64, u64); h_eq_lag(usize, usize, f64, f64, f64, f64, u64); h_eq_jac(usize, usize, f64, f64, f64, f64, u64);
        h_conv_leg(usize, u64); h_conv_che1(usize, u64); h_conv_che2(usize, u64);
        h_fan_new(f64); h_fan_try(f64); h_fan_into(f64); h_fan_default(); h_fan_cmp(f64, f64); h_fan_show(f64, u64);
        h_fan_add(f64, f64); h_fan_sub(f64, f64); h_fan_mul(f64, f64); h_fan_div(f64, f64); h_fan_pow(f64, f64);
    }
    true
}
#[cfg(feature = "par")]
fn par(name: &str, a: &[u64]) -> bool {
    table! {name, a;
        h_trap_par(u32, f64, f64) -> f64; h_mid_par(u32, f64, f64) -> f64; h_simp_par(u32, f64, f64) -> f64;
        h_leg_par(usize, f64, f64, u64, f64, f64) -> f64; h_che1_par(usize, f64, f64, u64, f64, f64) -> f64; h_che2_par(usize, f64, f64, u64, f64, f64) -> f64;
        h_her_par(usize, f64, f64, u64, f64, f64) -> f64; h_lag_par(usize, f64, f64, u64, f64, f64) -> f64; h_jac_par(usize, f64, f64, u64, f64, f64) -> f64;
        h_leg_pat(usize, usize); h_che1_pat(usize, usize); h_che2_pat(usize, usize);
        h_leg_pn(usize); h_che1_pn(usize); h_che2_pn(usize);
    }
    true
}
#[cfg(not(feature = "par"))]
fn par(_: &str, _: &[u64]) -> bool {
    false
}
fn serd(name: &str, a: &[u64]) -> bool {
    use gqh::ser::*;
    macro_rules! t2 {
        ($($f:ident ($($t:ty),*);)*) => {
            match name {
                $(stringify!($f) => {
                    let f = $f as extern "C-unwind" fn($($t),*);
                    Entry::<($($t,)*)>::go(f, a)
                })*
                _ => return false,
            }
        };
    }
    t2! {
        h_fan_de(f64); h_fan_de_u64(u64); h_fan_de_i64(i64); h_fan_de_f32(f32); h_ser_fan(f64, u64);
        h_ser_trap(u32, u64); h_ser_mid(u32, u64); h_ser_simp(u32, u64);
        h_ser_leg(usize, f64, f64, u64, u64); h_ser_che1(usize, f64, f64, u64, u64); h_ser_che2(usize, f64, f64, u64, u64);
        h_ser_her(usize, f64, f64, u64, u64); h_ser_lag(usize, f64, f64, u64, u64); h_ser_jac(usize, f64, f64, u64, u64);
    }
    true
}
#[cfg(feature = "zc")]
fn zc(name: &str, a: &[u64]) -> bool {
    use gqh::zc::*;
    let x = f64::from_bits(a.first().copied().unwrap_or(0));
    match name {
        "h_fan_zread" => h_fan_zread(x),
        "h_fan_zview" => h_fan_zview(x),
        "h_fan_zbytes" => h_fan_zbytes(x),
        "h_fan_zero" => h_fan_zero(),
        _ => return false,
    }
    true
}
#[cfg(not(feature = "zc"))]
fn zc(_: &str, _: &[u64]) -> bool {
    false
}
#[cfg(feature = "rk")]
fn rk(name: &str, a: &[u64]) -> bool {
    use gqh::rk::*;
    let (x, y) = (f64::from_bits(a.get(1).copied().unwrap_or(0)), f64::from_bits(a.get(2).copied().unwrap_or(0)));
    let n = a.first().copied().unwrap_or(0);
    match name {
        "h_rk_fan" => h_rk_fan(f64::from_bits(n)),
        "h_rk_trap" => h_rk_trap(n as u32),
        "h_rk_mid" => h_rk_mid(n as u32),
        "h_rk_simp" => h_rk_simp(n as u32),
        "h_rk_leg" => h_rk_leg(n as usize, x, y, 0),
        "h_rk_che1" => h_rk_che1(n as usize, x, y, 0),
        "h_rk_che2" => h_rk_che2(n as usize, x, y, 0),
        "h_rk_her" => h_rk_her(n as usize, x, y, 0),
        "h_rk_lag" => h_rk_lag(n as usize, x, y, 0),
        "h_rk_jac" => h_rk_jac(n as usize, x, y, 0),
        _ => return false,
    }
    true
}
#[cfg(not(feature = "rk"))]
fn rk(_: &str, _: &[u64]) -> bool {
    false
}
fn run(name: &str, a: &[u64]) -> Result<bool, ()> {
    std::panic::catch_unwind(|| {
        if name == "h_fan_parse" {
            let s: Vec<u8> = a.iter().map(|&c| c as u8).collect();
            gqh::h_fan_parse(s.as_ptr(), s.len());
            return true;
        }
        if name == "h_fan_err" {
            let s: Vec<u8> = a.iter().map(|&c| c as u8).collect();
            gqh::h_fan_err(s.as_ptr(), s.len());
            return true;
        }
        if name == "fan_fmt" {
            // default formatting and parsing back, all three formats
            if let Some(v) = gauss_quad::FiniteAboveNegOneF64::new(f64::from_bits(a[0])) {
                for s in [format!("{v}"), format!("{v:e}"), format!("{v:E}")] {
                    match s.parse::<gauss_quad::FiniteAboveNegOneF64>() {
                        Ok(w) => vout(5, w.get()),
                        Err(_) => vouti(20, 0),
                    }
                    OUT.lock().unwrap().push(format!("s 0 {s}"));
                }
            }
            return true;
        }
        dispatch(name, a) || serd(name, a) || zc(name, a) || rk(name, a)
    })
    .map_err(|_| ())
}
fn hex(s: &str) -> u64 {
    u64::from_str_radix(s, 16).unwrap()
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let so = std::io::stdout();
    for l in std::io::stdin().lock().lines() {
        let l = l.unwrap();
        let mut p = l.split('|');
        let w: Vec<&str> = p.next().unwrap().split_whitespace().collect();
        let sc: Vec<u64> = p.next().unwrap_or("").split_whitespace().map(hex).collect();
        if w.len() < 2 {
            continue;
        }
        let a: Vec<u64> = w[2..].iter().map(|s| hex(s)).collect();
        let mut o = so.lock();
        OUT.lock().unwrap().clear();
        CALLS.lock().unwrap().clear();
        *SCRIPT.lock().unwrap() = sc.into_iter().collect();
        MODE.store(0, Relaxed);
        if w[0] == "probe" {
            // script: mode p1 p2
            let mut q = SCRIPT.lock().unwrap();
            MODE.store(q.pop_front().unwrap(), Relaxed);
            P1.store(q.pop_front().unwrap(), Relaxed);
            P2.store(q.pop_front().unwrap(), Relaxed);
            TOTAL.store(0, Relaxed);
            HITS.store(0, Relaxed);
        }
        if w[0] == "bulk" {
            *BIN.lock().unwrap_or_else(|e| e.into_inner()) = Some(Vec::new());
        }
        let r = run(w[1], &a);
        if let Some(b) = BIN.lock().unwrap_or_else(|e| e.into_inner()).take() {
            let mut f = std::io::BufWriter::new(std::fs::File::create(std::env::var("GQV_BULK").unwrap()).unwrap());
            for x in b {
                f.write_all(&x.to_le_bytes()).unwrap();
            }
            f.flush().unwrap();
        }
        match r {
            Err(()) => {
                for x in OUT.lock().unwrap_or_else(|e| e.into_inner()).iter() {
                    writeln!(o, "{x}").unwrap();
                }
                writeln!(o, "panic").unwrap()
            }
            Ok(false) => writeln!(o, "unknown {}", w[1]).unwrap(),
            Ok(true) => {
                if w[0] == "measure" {
                    let xs: Vec<f64> = CALLS.lock().unwrap().clone();
                    let mut seen: Vec<(u64, usize)> = Vec::new();
                    for x in &xs {
                        match seen.iter_mut().find(|s| s.0 == x.to_bits()) {
                            Some(s) => s.1 += 1,
                            None => seen.push((x.to_bits(), 1)),
                        }
                    }
                    for (b, m) in seen {
                        MODE.store(1, Relaxed);
                        P1.store(b, Relaxed);
                        OUT.lock().unwrap().clear();
                        let _ = run(w[1], &a);
                        let v = OUT.lock().unwrap().last().cloned().unwrap_or_default();
                        writeln!(o, "m {b:x} {m} {}", v.split(' ').nth(2).unwrap_or("")).unwrap();
                    }
                } else {
                    for x in OUT.lock().unwrap().iter() {
                        writeln!(o, "{x}").unwrap();
                    }
                    if w[0] == "probe" {
                        writeln!(o, "p {:x} {:x}", TOTAL.load(Relaxed), HITS.load(Relaxed)).unwrap();
                    }
                    for x in CALLS.lock().unwrap().iter() {
                        writeln!(o, "c 0 {:x}", x.to_bits()).unwrap();
                    }
                }
            }
        }
        writeln!(o, "end").unwrap();
        o.flush().unwrap();
    }
}
