//! The contract vocabulary.  gkv intercepts these functions by name; the bodies below are their
//! native meaning (sampling and replay).
use std::cell::RefCell;
use std::collections::HashMap;

#[macro_export]
macro_rules! harness {
    ($($(#[$m:meta])* fn $n:ident() $b:block)*) => {
        $( $(#[$m])* #[inline(never)] pub fn $n() $b )*
        pub const ALL: &[(&str, fn())] = &[$( (stringify!($n), $n as fn()) ),*];
    };
}

#[derive(Clone, Debug)]
pub struct Fail {
    pub id: String,
    pub got: f64,
    pub want: f64,
    pub tol: f64,
}

#[derive(Default)]
pub struct Ctx {
    pub rng: u64,
    pub replay: Option<HashMap<String, f64>>,
    pub inputs: Vec<(String, f64)>,
    pub fails: Vec<Fail>,
    pub checks: u64,
}

thread_local! {
    pub static CTX: RefCell<Ctx> = RefCell::new(Ctx::default());
}

pub struct AssumeFailed;

fn next(c: &mut Ctx) -> u64 {
    c.rng = c.rng.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = c.rng;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

fn unit(c: &mut Ctx) -> f64 {
    (next(c) >> 11) as f64 / (1u64 << 53) as f64
}

fn take(name: &str) -> Option<f64> {
    // an input asked for twice is the same input
    CTX.with(|c| {
        let c = c.borrow();
        if let Some((_, v)) = c.inputs.iter().find(|(n, _)| n == name) {
            return Some(*v);
        }
        c.replay.as_ref().and_then(|m| m.get(name).copied())
    })
}

fn record(name: &str, v: f64) {
    CTX.with(|c| c.borrow_mut().inputs.push((name.to_string(), v)));
}

/// Any real (finite f64) in `[lo, hi]`.
#[inline(never)]
pub fn real(name: &'static str, lo: f64, hi: f64) -> f64 {
    let v = match take(name) {
        Some(v) => v,
        None => CTX.with(|c| {
            let c = &mut *c.borrow_mut();
            let k = next(c) % 16;
            let w = hi - lo;
            let v = match k {
                0 => lo,
                1 => hi,
                2 => {
                    // special values
                    let sp = [
                        0.0, -0.0, 1.0, -1.0, 0.5, 2.0, std::f64::consts::PI, -std::f64::consts::PI,
                        std::f64::consts::FRAC_PI_2, -std::f64::consts::FRAC_PI_2, std::f64::consts::TAU,
                        180.0, -180.0, 90.0, -90.0, 360.0, -360.0, 100.0, 200.0, 400.0,
                        std::f64::consts::FRAC_PI_4, -std::f64::consts::FRAC_PI_4,
                    ];
                    sp[(next(c) % sp.len() as u64) as usize]
                }
                3 => {
                    // close to an end point or to a special value
                    let e = 10f64.powf(-1.0 - 15.0 * unit(c)) * if next(c) % 2 == 0 { 1.0 } else { -1.0 };
                    let b = match next(c) % 6 {
                        0 => lo,
                        1 => hi,
                        2 => 0.0,
                        3 => std::f64::consts::PI,
                        4 => -std::f64::consts::PI,
                        _ => std::f64::consts::FRAC_PI_2,
                    };
                    b + e * if b == 0.0 { 1.0 } else { b.abs() }
                }
                4 => {
                    // log-uniform magnitude
                    let m = lo.abs().max(hi.abs()).max(1e-12);
                    let x = 10f64.powf(m.log10() - 18.0 * unit(c));
                    if next(c) % 2 == 0 { x } else { -x }
                }
                5 => (lo + w * unit(c)).round(),
                6 => {
                    // multiples of pi/12
                    let n = (w / (std::f64::consts::PI / 12.0)).min(1e6) as u64 + 1;
                    let base = (lo / (std::f64::consts::PI / 12.0)).ceil();
                    (base + (next(c) % n) as f64) * (std::f64::consts::PI / 12.0)
                }
                _ => lo + w * unit(c),
            };
            if v >= lo && v <= hi { v } else { (lo + w * unit(c)).clamp(lo, hi) }
        }),
    };
    record(name, v);
    if !(v >= lo && v <= hi) {
        std::panic::resume_unwind(Box::new(AssumeFailed));
    }
    v
}

/// Any f64 whatever: NaN, infinities, subnormals, signed zeros included.
#[inline(never)]
pub fn float(name: &'static str) -> f64 {
    let v = match take(name) {
        Some(v) => v,
        None => CTX.with(|c| {
            let c = &mut *c.borrow_mut();
            let sp = [
                f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 0.0, -0.0, 1.0, -1.0, f64::MAX, f64::MIN,
                f64::MIN_POSITIVE, 5e-324, 1e300, -1e300, 1e20, -1e20, 1e16,
                std::f64::consts::PI, -std::f64::consts::PI, 3.0 * std::f64::consts::PI,
                std::f64::consts::FRAC_PI_2, -std::f64::consts::FRAC_PI_2, 6378137.0, 1e7, -1e7,
            ];
            match next(c) % 8 {
                0 | 1 => sp[(next(c) % sp.len() as u64) as usize],
                2 => f64::from_bits(next(c)),
                3 => {
                    let n = (unit(c) * 200.0).round() - 100.0;
                    let x = n * std::f64::consts::PI / 2.0;
                    f64::from_bits((x.to_bits() as i64 + (next(c) % 9) as i64 - 4) as u64)
                }
                4 => (unit(c) * 2.0 - 1.0) * 10f64.powf(unit(c) * 25.0 - 5.0),
                5 => (unit(c) * 2.0 - 1.0) * 7e6,
                _ => (unit(c) * 2.0 - 1.0) * 10.0,
            }
        }),
    };
    record(name, v);
    v
}

/// Any integer in `0..n` (each value is a separate case of the proof).
#[inline(never)]
pub fn choice(name: &'static str, n: usize) -> usize {
    let v = match take(name) {
        Some(v) => v as usize,
        None => CTX.with(|c| (next(&mut c.borrow_mut()) % n as u64) as usize),
    };
    record(name, v as f64);
    if v >= n {
        std::panic::resume_unwind(Box::new(AssumeFailed));
    }
    v
}

/// Precondition.
#[inline(never)]
pub fn assume(b: bool) {
    if !b {
        std::panic::resume_unwind(Box::new(AssumeFailed));
    }
}

fn check(ok: bool, id: &str, got: f64, want: f64, tol: f64) {
    CTX.with(|c| {
        let c = &mut *c.borrow_mut();
        c.checks += 1;
        if !ok {
            c.fails.push(Fail { id: id.to_string(), got, want, tol });
        }
    })
}

/// Postcondition `got = want` (exact over the reals; `tol` is the allowance for rounding when run
/// natively).
#[inline(never)]
pub fn eq(id: &'static str, got: f64, want: f64, tol: f64) {
    check((got - want).abs() <= tol, id, got, want, tol)
}

/// Postcondition `a <= b` (+ tol natively).
#[inline(never)]
pub fn le(id: &'static str, a: f64, b: f64, tol: f64) {
    check(a <= b + tol, id, a, b, tol)
}

/// Postcondition `|got - want| <= tol`, the bound itself being part of the contract.
#[inline(never)]
pub fn near(id: &'static str, got: f64, want: f64, tol: f64) {
    check((got - want).abs() <= tol, id, got, want, tol)
}

/// Postcondition: `got = want + k * m` for some integer `k`.
#[inline(never)]
pub fn cong(id: &'static str, got: f64, want: f64, m: f64, tol: f64) {
    let d = got - want;
    let k = (d / m).round();
    check((d - k * m).abs() <= tol, id, got, want, tol)
}

/// Postcondition.
#[inline(never)]
pub fn ok(id: &'static str, b: bool) {
    check(b, id, if b { 1.0 } else { 0.0 }, 1.0, 0.0)
}

/// Postcondition: `f` refuses (panics).
#[inline(never)]
pub fn refuses<F: FnOnce()>(id: &'static str, f: F) {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    check(r.is_err(), id, if r.is_err() { 1.0 } else { 0.0 }, 1.0, 0.0)
}

/// A fact used only by the proof (a lemma whose truth gkv checks separately); no-op natively.
#[inline(never)]
pub fn cover(_id: &'static str) {}

/// Some real for which the contract that follows holds (an existential: gkv offers the state of the
/// iteration of the code under contract, and has to prove whatever is then claimed of it; natively it
/// is computed by `f`).
#[inline(never)]
pub fn witness<F: FnOnce() -> f64>(_id: &'static str, f: F) -> f64 {
    f()
}
