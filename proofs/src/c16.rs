//! C16: intervals of the circle.
use crate::spec::*;
use crate::vk;
use geokit::cs::s1::Interval;
use geokit::verif_hooks::line::is_inverted;

harness! {
    /// an interval between two distinct points, neither on the antimeridian
    fn h_new() {
        let (lo, hi) = (vk::real("lo", -3.14159, 3.14159), vk::real("hi", -3.14159, 3.14159));
        let i = Interval::new(rad(lo), rad(hi));
        vk::ok("is not empty", !i.is_empty());
        vk::ok("is not full", !i.is_full());
        if lo <= hi {
            vk::ok("not inverted", !is_inverted(&i));
            vk::eq("length", i.length().rad(), hi - lo, 1e-12);
        } else {
            vk::ok("inverted", is_inverted(&i));
            vk::eq("length through the antimeridian", i.length().rad(), hi - lo + TAU, 1e-12);
        }
    }
    /// any two angles: length congruent to the difference and in [0, 2 pi]; whole turns do not matter
    fn h_any() {
        let (lo, hi) = (vk::real("lo", -20.0, 20.0), vk::real("hi", -20.0, 20.0));
        let i = Interval::new(rad(lo), rad(hi));
        let l = i.length().rad();
        // [pi, -pi] is the documented representation of the empty interval
        vk::ok("only [pi, -pi] is empty", !i.is_empty() || (hi - lo + TAU).abs() < 1e-9 || (hi - lo).abs() < 1e-9 || (hi - lo).abs() > 6.0);
        vk::cong("length", l, hi - lo, TAU, 1e-12);
        vk::le("length >= 0", 0.0, l, 0.0);
        vk::le("length <= 2 pi", l, TAU, 1e-12);
        if !i.is_full() {
            vk::le("length < 2 pi", l, TAU, 0.0);
        } else {
            vk::eq("full length", l, TAU, 1e-12);
        }
    }
    fn h_wrap_lo() {
        let (lo, hi) = (vk::real("lo", -3.14159, 3.14159), vk::real("hi", -3.14159, 3.14159));
        let t = match vk::choice("turns", 4) { 0 => -2.0, 1 => -1.0, 2 => 1.0, _ => 2.0 };
        let l = Interval::new(rad(lo + t * TAU), rad(hi)).length().rad();
        vk::cong("turns of the lower bound do not matter", l, hi - lo, TAU, 1e-12);
        vk::le("length >= 0", 0.0, l, 0.0);
        let l = Interval::new(rad(lo), rad(hi + t * TAU)).length().rad();
        vk::cong("turns of the upper bound do not matter", l, hi - lo, TAU, 1e-12);
        vk::le("length >= 0", 0.0, l, 0.0);
    }
    /// bounds on the antimeridian
    fn h_antimeridian() {
        let x = vk::real("x", -3.14159, 3.14159);
        let i = Interval::new(rad(-PI), rad(x));
        vk::ok("from the antimeridian: neither empty nor full", !i.is_empty() && !i.is_full());
        vk::eq("from the antimeridian (-pi)", i.length().rad(), x + PI, 1e-12);
        let i = Interval::new(rad(PI), rad(x));
        vk::ok("from the antimeridian: neither empty nor full", !i.is_empty() && !i.is_full());
        vk::ok("from the antimeridian: inverted", is_inverted(&i));
        vk::eq("from the antimeridian (pi)", i.length().rad(), x + PI, 1e-12);
        vk::ok("-pi and pi are the same lower bound", i == Interval::new(rad(-PI), rad(x)));
        let i = Interval::new(rad(x), rad(PI));
        vk::ok("to the antimeridian: neither empty nor full", !i.is_empty() && !i.is_full());
        vk::ok("to the antimeridian: not inverted", !is_inverted(&i));
        vk::eq("to the antimeridian (pi)", i.length().rad(), PI - x, 1e-12);
        let i = Interval::new(rad(x), rad(-PI));
        vk::ok("to the antimeridian: neither empty nor full", !i.is_empty() && !i.is_full());
        vk::eq("to the antimeridian (-pi)", i.length().rad(), PI - x, 1e-12);
    }
    fn h_special() {
        let e = Interval::empty();
        vk::ok("empty is empty", e.is_empty() && !e.is_full());
        vk::eq("empty has no length", e.length().rad(), 0.0, 1e-15);
        let f = Interval::full();
        vk::ok("full is full", f.is_full() && !f.is_empty() && !is_inverted(&f));
        vk::eq("full length", f.length().rad(), TAU, 1e-12);
        vk::ok("new(-pi, pi) is full", Interval::new(rad(-PI), rad(PI)).is_full());
        vk::ok("new(-pi, pi) == full", Interval::new(rad(-PI), rad(PI)) == f);
        for (a, b) in [(-PI, -PI), (PI, PI), (PI, -PI)] {
            let s = Interval::new(rad(a), rad(b));
            if a == b {
                vk::ok("the antimeridian alone is not empty", !s.is_empty() && !s.is_full());
                vk::eq("the antimeridian alone has no length", s.length().rad(), 0.0, 1e-15);
                vk::ok("the antimeridian alone is the singleton", s == Interval::singleton(rad(PI)) && s == Interval::singleton(rad(-PI)));
            }
        }
    }
    fn h_singleton() {
        let x = vk::real("x", -20.0, 20.0);
        let s = Interval::singleton(rad(x));
        vk::ok("a point is neither empty nor full", !s.is_empty() && !s.is_full());
        vk::ok("a point is not inverted", !is_inverted(&s));
        vk::eq("a point has no length", s.length().rad(), 0.0, 0.0);
        vk::ok("a point differs from empty", s != Interval::empty() && s != Interval::full());
    }
    fn h_singleton_new() {
        let x = vk::real("x", -3.1415926, 3.1415926);
        vk::ok("new(x, x) is the point x", Interval::new(rad(x), rad(x)) == Interval::singleton(rad(x)));
        vk::ok("another point differs", { let y = vk::real("y", -3.1415926, 3.1415926); x == y || Interval::new(rad(x), rad(x)) != Interval::singleton(rad(y)) });
    }
}
