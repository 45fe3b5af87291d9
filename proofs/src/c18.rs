//! C18: mathematical kernels.
use crate::spec::*;
use crate::vk;
use geokit::math::complex::Complex;
use geokit::math::fp;
use geokit::math::polynomial::Polynomial;
use geokit::math::utils::iter_fn;

fn any_complex(re: &'static str, im: &'static str) -> Complex {
    Complex::new(vk::real(re, -1e3, 1e3), vk::real(im, -1e3, 1e3))
}
fn same(id: &'static str, a: Complex, re: f64, im: f64, tol: f64) {
    vk::eq(id, a.re, re, tol);
    vk::eq(id, a.im, im, tol);
}
fn coefs<const D: usize>() -> [f64; D] {
    const N: [&str; 9] = ["c0", "c1", "c2", "c3", "c4", "c5", "c6", "c7", "c8"];
    let mut c = [0.0; D];
    for i in 0..D {
        c[i] = vk::real(N[i], -10.0, 10.0);
    }
    c
}
/// sum of c[i] x^i, by powers
fn power_sum(c: &[f64], x: f64) -> f64 {
    let mut s = 0.0;
    for i in 0..c.len() {
        let mut p = 1.0;
        for _ in 0..i {
            p = p * x;
        }
        s = s + c[i] * p;
    }
    s
}
fn poly<const D: usize>() {
    let c = coefs::<D>();
    let x = vk::real("x", -2.0, 2.0);
    let p = Polynomial::new(c);
    vk::eq("eval_at", p.eval_at(x), power_sum(&c, x), 1e-9);
    vk::eq("fast_eval_at", p.fast_eval_at(x), power_sum(&c, x), 1e-9);
}
fn sin_sum(c: &[f64], x: f64) -> f64 {
    let mut s = 0.0;
    for i in 1..c.len() {
        s = s + c[i] * (i as f64 * x).sin();
    }
    s
}
fn clenshaw<const D: usize>() {
    let c = coefs::<D>();
    let x = vk::real("x", -7.0, 7.0);
    vk::eq("clenshaw_sin_sum", fp::clenshaw_sin_sum(&c, x), sin_sum(&c, x), 1e-9);
}

harness! {
    fn h_complex_ring() {
        let (a, b) = (any_complex("a", "b"), any_complex("c", "d"));
        let x = vk::real("x", -1e3, 1e3);
        same("z + w", a + b, a.re + b.re, a.im + b.im, 1e-9);
        same("z - w", a - b, a.re - b.re, a.im - b.im, 1e-9);
        same("z w", a * b, a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re, 1e-6);
        same("z + x", a + x, a.re + x, a.im, 1e-9);
        same("z - x", a - x, a.re - x, a.im, 1e-9);
        same("z x", a * x, a.re * x, a.im * x, 1e-6);
        same("conjugate", a.conj(), a.re, -a.im, 0.0);
        vk::eq("|z|^2 = z z*", (a * a.conj()).re, a.abs_sq(), 1e-6);
        vk::eq("z z* is real", (a * a.conj()).im, 0.0, 1e-6);
        vk::eq("|z|^2", a.abs() * a.abs(), a.abs_sq(), 1e-6);
        vk::eq("|z w| = |z| |w|", (a * b).abs_sq(), a.abs_sq() * b.abs_sq(), 1e3);
        vk::le("|z| >= 0", 0.0, a.abs(), 0.0);
        same("zero", Complex::zero(), 0.0, 0.0, 0.0);
        same("z + 0", a + Complex::zero(), a.re, a.im, 0.0);
    }
    fn h_complex_division() {
        let (a, b) = (any_complex("a", "b"), any_complex("c", "d"));
        let x = vk::real("x", 0.01, 1e3);
        same("z / x", a / x, a.re / x, a.im / x, 1e-6);
        same("z / -x", a / -x, -a.re / x, -a.im / x, 1e-6);
        match b.inv() {
            Ok(i) => {
                vk::assume(b.re * b.re + b.im * b.im > 1e-6);
                vk::eq("w w^-1 = 1", (b * i).re, 1.0, 1e-9);
                vk::eq("w w^-1 is real", (b * i).im, 0.0, 1e-9);
            }
            Err(_) => vk::ok("only zero has no inverse", b.re == 0.0 && b.im == 0.0),
        }
        match a / b {
            Ok(q) => {
                vk::assume(b.re * b.re + b.im * b.im > 1e-6);
                same("(z / w) w = z", q * b, a.re, a.im, 1e-6);
            }
            Err(_) => vk::ok("only division by zero fails", b.re == 0.0 && b.im == 0.0),
        }
    }
    fn h_complex_no_inverse() {
        vk::ok("zero has no inverse", Complex::zero().inv().is_err());
        vk::ok("division by zero is an error", (any_complex("a", "b") / Complex::zero()).is_err());
        let y = vk::real("y", 1e-6, 1e3);
        match vk::choice("axis", 4) {
            0 => vk::ok("a real number has an inverse", Complex::new(y, 0.0).inv().is_ok()),
            1 => vk::ok("an imaginary number has an inverse", Complex::new(0.0, y).inv().is_ok()),
            2 => vk::ok("a negative number has an inverse", Complex::new(-y, 0.0).inv().is_ok()),
            _ => vk::ok("a negative imaginary has an inverse", Complex::new(0.0, -y).inv().is_ok()),
        }
    }
    fn h_complex_arg() {
        let r = vk::real("r", 1e-3, 1e3);
        let t = vk::real("t", -3.1415, 3.1415);
        vk::eq("arg", Complex::new(r * t.cos(), r * t.sin()).arg().rad(), t, 1e-9);
    }
    fn h_complex_arg_axes() {
        let r = vk::real("r", 1e-3, 1e3);
        vk::eq("arg of a positive", Complex::new(r, 0.0).arg().rad(), 0.0, 1e-12);
        vk::eq("arg of a negative is pi", Complex::new(-r, 0.0).arg().rad(), PI, 1e-12);
        vk::eq("arg of a negative is pi, whatever the sign of its zero", Complex::new(-r, -0.0).arg().rad(), PI, 1e-12);
        vk::eq("arg of i r", Complex::new(0.0, r).arg().rad(), PI_2, 1e-12);
        vk::eq("arg of -i r", Complex::new(0.0, -r).arg().rad(), -PI_2, 1e-12);
    }
    fn h_polynomial() {
        match vk::choice("degree", 6) {
            0 => poly::<1>(),
            1 => poly::<2>(),
            2 => poly::<3>(),
            3 => poly::<4>(),
            4 => poly::<6>(),
            _ => poly::<9>(),
        }
    }
    fn h_polynomial_complex() {
        let z = Complex::new(vk::real("re", -2.0, 2.0), vk::real("im", -2.0, 2.0));
        let c = coefs::<4>();
        let p = Polynomial::new(c).eval_at(z);
        let (z2, z3) = (z * z, z * z * z);
        same("complex value", p, c[0] + c[1] * z.re + c[2] * z2.re + c[3] * z3.re, c[1] * z.im + c[2] * z2.im + c[3] * z3.im, 1e-9);
    }
    fn h_clenshaw() {
        match vk::choice("terms", 7) {
            0 => { let x = vk::real("x", -7.0, 7.0); vk::eq("empty sum", fp::clenshaw_sin_sum(&[], x), 0.0, 0.0) }
            1 => clenshaw::<1>(),
            2 => clenshaw::<2>(),
            3 => clenshaw::<3>(),
            4 => clenshaw::<4>(),
            5 => clenshaw::<5>(),
            _ => clenshaw::<7>(),
        }
    }
    /// the exact part of the error-free transformation
    fn h_sum() {
        let (a, b) = (vk::real("a", -1e9, 1e9), vk::real("b", -1e9, 1e9));
        let (s, e) = fp::sum(a, b);
        vk::eq("sum", s, a + b, 0.0);
        vk::eq("no error over the reals", e, 0.0, 1e-6);
    }
    /// rounding: s is the rounded sum and s + e is exactly a + b
    fn h_sum_rounding() {
        let (a, b) = (vk::real("a", -1e9, 1e9), vk::real("b", -1e9, 1e9) * vk::real("scale", 1e-9, 1.0));
        // on a grid where integer arithmetic is exact
        let g = (2f64).powi(-60);
        let (a, b) = ((a / g).trunc() * g, (b / g).trunc() * g);
        vk::assume(a == 0.0 || a.abs() > 1e-3);
        vk::assume(b == 0.0 || b.abs() > 1e-3);
        let (s, e) = fp::sum(a, b);
        vk::ok("rounded sum", s == a + b);
        let i = |x: f64| (x / g) as i128;
        vk::ok("exact error", i(s) + i(e) == i(a) + i(b));
        vk::ok("order does not matter", fp::sum(b, a) == (s, e));
    }
    fn h_remainder() {
        let r = match vk::choice("r", 4) { 0 => TAU, 1 => 360.0, 2 => 1.0, _ => PI };
        let x = vk::real("x", -1e4, 1e4);
        let y = fp::remainder(x, r);
        vk::cong("congruent", y, x, r, 1e-9);
        vk::le("<= r / 2", y, 0.5 * r, 0.0);
        vk::le(">= - r / 2", -0.5 * r, y, 0.0);
    }
    fn h_sq() {
        let x = vk::real("x", -1e6, 1e6);
        vk::eq("sq", fp::sq(x), x * x, 1e-3);
    }
    /// one step when all increments are small
    fn h_iter_one() {
        let (x, y) = (vk::real("x", -10.0, 10.0), vk::real("y", -10.0, 10.0));
        let (dx, dy) = (vk::real("dx", -0.1, 0.1), vk::real("dy", -0.1, 0.1));
        let (ex, ey) = (vk::real("ex", 0.11, 1.0), vk::real("ey", 0.11, 1.0));
        let r = iter_fn([x, y], &|_p: [f64; 2]| [dx, dy], [ex, ey]);
        vk::eq("first component", r[0], x + dx, 1e-12);
        vk::eq("second component", r[1], y + dy, 1e-12);
    }
    /// goes on while any increment is not small; increments are taken at the current iterate
    fn h_iter_two() {
        let (x, y) = (vk::real("x", -10.0, 10.0), vk::real("y", -10.0, 10.0));
        let (dx, dy) = (vk::real("dx", -0.1, 0.1), vk::real("dy", -0.1, 0.1));
        let big = vk::real("big", 1.5, 2.0);
        let first = match vk::choice("large", 3) { 0 => [big, dy], 1 => [dx, -big], _ => [-big, big] };
        let r = iter_fn([x, y], &|p: [f64; 2]| if p[0] == x && p[1] == y { first } else { [dx, dy + 0.01 * (p[0] - x)] }, [1.0, 1.0]);
        vk::eq("first component", r[0], x + first[0] + dx, 1e-12);
        vk::eq("second component", r[1], y + first[1] + dy + 0.01 * first[0], 1e-12);
    }
    /// solves: a linear contraction is iterated to its fixed point
    fn h_iter_fixed_point() {
        let (q, t) = (vk::real("q", -0.9, 0.9), vk::real("target", -10.0, 10.0));
        let r = iter_fn([vk::real("x", -10.0, 10.0)], &|p: [f64; 1]| [(q - 1.0) * (p[0] - t)], [1e-9]);
        vk::near("fixed point", r[0], t, 1e-8);
    }
}
