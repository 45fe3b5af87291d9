//! C03: unit conversions and arithmetic of quantities.
use crate::spec::*;
use crate::vk;
use geokit::quantities::scale::PPM;
use geokit::quantities::{angle::Angle, length::ArcLength, length::Length};
use geokit::units::{angle::*, length::*};

fn rt(x: f64) -> f64 {
    1e-13 * x.abs()
}

harness! {
    fn h_angle_units() {
        let x = vk::real("x", -1e7, 1e7);
        let (u, f) = any_angle_unit("unit");
        let a = Angle::new(x, u);
        vk::eq("to radians", a.rad(), x * f, rt(x * f));
        vk::eq("round trip", a.val(u), x, rt(x));
        let b = x * u;
        vk::eq("scalar * unit", b.rad(), x * f, rt(x * f));
        let c = u * x;
        vk::eq("unit * scalar", c.rad(), x * f, rt(x * f));
        vk::eq("radians per unit", u.rad_per_unit(), f, rt(f));
    }
    fn h_angle_between_units() {
        let x = vk::real("x", -1e7, 1e7);
        let (u, f) = any_angle_unit("unit");
        let (w, g) = any_angle_unit("unit2");
        let y = x * f / g;
        vk::eq("read in another unit", Angle::new(x, u).val(w), y, 4.0 * rt(y));
    }
    fn h_custom_angle_unit() {
        // units are open: any ratio
        let n = vk::real("num", 1e-9, 1e9);
        let d = vk::real("den", 1e-9, 1e9);
        let x = vk::real("x", -1e7, 1e7);
        let u = AngleUnit(n, d);
        vk::eq("to radians", Angle::new(x, u).rad(), x * n / d, rt(x * n / d));
        vk::eq("round trip", Angle::new(x, u).val(u), x, rt(x));
        let l = LengthUnit(n, d);
        vk::eq("to metres", Length::new(x, l).m(), x * n / d, rt(x * n / d));
        vk::eq("length round trip", Length::new(x, l).val(l), x, rt(x));
    }
    fn h_length_units() {
        let x = vk::real("x", -1e9, 1e9);
        let (u, f) = any_length_unit("unit");
        let a = Length::new(x, u);
        vk::eq("to metres", a.m(), x * f, rt(x * f));
        vk::eq("round trip", a.val(u), x, rt(x));
        vk::eq("scalar * unit", (x * u).m(), x * f, rt(x * f));
        vk::eq("unit * scalar", (u * x).m(), x * f, rt(x * f));
        vk::eq("metres per unit", u.m_per_unit(), f, rt(f));
    }
    fn h_length_between_units() {
        let x = vk::real("x", -1e9, 1e9);
        let (u, f) = any_length_unit("unit");
        let (w, g) = any_length_unit("unit2");
        let y = x * f / g;
        vk::eq("read in another unit", Length::new(x, u).val(w), y, 4.0 * rt(y));
    }
    fn h_angle_ops() {
        let x = vk::real("x", -1e7, 1e7);
        let y = vk::real("y", -1e7, 1e7);
        let a = rad(x);
        let b = rad(y);
        let t = rt(x) + rt(y);
        vk::eq("a + b", (a + b).rad(), x + y, t);
        vk::eq("a - b", (a - b).rad(), x - y, t);
        vk::eq("-a", (-a).rad(), -x, 0.0);
        let mut c = a;
        c += b;
        vk::eq("a += b", c.rad(), x + y, t);
        let mut c = a;
        c -= b;
        vk::eq("a -= b", c.rad(), x - y, t);
        vk::eq("a * k", (a * y).rad(), x * y, rt(x * y));
        vk::eq("k * a", (y * a).rad(), x * y, rt(x * y));
        let mut c = a;
        c *= y;
        vk::eq("a *= k", c.rad(), x * y, rt(x * y));
    }
    fn h_angle_funs() {
        let x = vk::real("x", -1e3, 1e3);
        let a = rad(x);
        vk::eq("abs", a.abs().rad(), if x < 0.0 { -x } else { x }, 0.0);
        vk::eq("sin", a.sin(), x.sin(), 1e-14);
        vk::eq("cos", a.cos(), x.cos(), 1e-14);
        let (s, c) = a.sin_cos();
        vk::eq("sin_cos.0", s, x.sin(), 1e-14);
        vk::eq("sin_cos.1", c, x.cos(), 1e-14);
        vk::assume(x.cos().abs() > 1e-3);
        vk::eq("tan * cos = sin", a.tan() * x.cos(), x.sin(), 1e-12);
    }
    fn h_angle_signum() {
        let x = vk::real("x", -1e3, 1e3);
        vk::assume(x != 0.0);
        vk::eq("signum", rad(x).signum(), if x < 0.0 { -1.0 } else { 1.0 }, 0.0);
    }
    fn h_angle_div() {
        let x = vk::real("x", -1e7, 1e7);
        let y = vk::real("y", 1e-6, 1e7);
        let s = if vk::choice("sign", 2) == 0 { y } else { -y };
        vk::eq("a / k", (rad(x) / s).rad(), x / s, rt(x / s));
        let mut c = rad(x);
        c /= s;
        vk::eq("a /= k", c.rad(), x / s, rt(x / s));
        vk::eq("l / k", (m(x) / s).m(), x / s, rt(x / s));
        let mut c = m(x);
        c /= s;
        vk::eq("l /= k", c.m(), x / s, rt(x / s));
        vk::eq("l / l", m(x) / m(s), x / s, rt(x / s));
    }
    fn h_length_ops() {
        let x = vk::real("x", -1e7, 1e7);
        let y = vk::real("y", -1e7, 1e7);
        let a = m(x);
        let b = m(y);
        let t = rt(x) + rt(y);
        vk::eq("a + b", (a + b).m(), x + y, t);
        vk::eq("a - b", (a - b).m(), x - y, t);
        let mut c = a;
        c += b;
        vk::eq("a += b", c.m(), x + y, t);
        let mut c = a;
        c -= b;
        vk::eq("a -= b", c.m(), x - y, t);
        vk::eq("a * k", (a * y).m(), x * y, rt(x * y));
        vk::eq("k * a", (y * a).m(), x * y, rt(x * y));
        let mut c = a;
        c *= y;
        vk::eq("a *= k", c.m(), x * y, rt(x * y));
        vk::eq("abs", a.abs().m(), if x < 0.0 { -x } else { x }, 0.0);
    }
    fn h_length_hypot() {
        let x = vk::real("x", -1e7, 1e7);
        let y = vk::real("y", -1e7, 1e7);
        let h = m(x).hypot(m(y)).m();
        vk::eq("hypot squared", h * h, x * x + y * y, 1e-13 * (x * x + y * y));
        vk::le("hypot is not negative", 0.0, h, 0.0);
    }
    fn h_length_atan2() {
        let x = vk::real("x", -1e7, 1e7);
        let y = vk::real("y", -1e7, 1e7);
        vk::assume(x * x + y * y > 1e-6);
        let a = m(y).atan2(m(x)).rad();
        let r = (x * x + y * y).sqrt();
        vk::eq("r sin(atan2(y, x))", r * a.sin(), y, 1e-12 * r);
        vk::eq("r cos(atan2(y, x))", r * a.cos(), x, 1e-12 * r);
        vk::le("atan2 <= pi", a, PI, 0.0);
        vk::le("-pi <= atan2", -PI, a, 0.0);
    }
    fn h_compare() {
        let x = vk::real("x", -1e7, 1e7);
        let y = vk::real("y", -1e7, 1e7);
        vk::ok("angle <", (rad(x) < rad(y)) == (x < y));
        vk::ok("angle <=", (rad(x) <= rad(y)) == (x <= y));
        vk::ok("angle ==", (rad(x) == rad(y)) == (x == y));
        vk::ok("length <", (m(x) < m(y)) == (x < y));
        vk::ok("length <=", (m(x) <= m(y)) == (x <= y));
        vk::ok("length ==", (m(x) == m(y)) == (x == y));
    }
    fn h_arc() {
        let r = vk::real("r", 1.0, 1e8);
        let a = vk::real("a", -10.0, 10.0);
        let s = m(r) * rad(a);
        vk::eq("radius * angle", s.length().m(), r * a, rt(r * a));
        let s2 = rad(a) * m(r);
        vk::eq("angle * radius", s2.length().m(), r * a, rt(r * a));
        vk::eq("arc / radius", (ArcLength(m(r * a)) / m(r)).rad(), a, rt(a));
    }
    fn h_ppm() {
        let p = vk::real("ppm", -1e5, 1e5);
        vk::eq("factor", PPM(p).factor(), 1.0 + p / 1e6, 1e-14);
        vk::eq("reverse factor", PPM(p).inv_factor(), 1.0 - p / 1e6, 1e-14);
    }
    fn h_consts() {
        vk::eq("zero angle", Angle::ZERO.rad(), 0.0, 0.0);
        vk::eq("pi", Angle::PI.rad(), PI, 0.0);
        vk::eq("-pi", Angle::M_PI.rad(), -PI, 0.0);
        vk::eq("pi/2", Angle::PI_2.rad(), PI_2, 0.0);
        vk::eq("-pi/2", Angle::M_PI_2.rad(), -PI_2, 0.0);
        vk::eq("2 pi", Angle::TWO_PI.rad(), TAU, 0.0);
        vk::eq("zero length", Length::ZERO.m(), 0.0, 0.0);
    }
}
