//! C02: arithmetic on angular coordinates is arithmetic modulo a full turn (saturating for latitudes).
use crate::spec::*;
use crate::vk;
use geokit::cs::azimuth::Azimuth;
use geokit::cs::geodetic::{Lat, Lon};

const T: f64 = 1e-8;
const R: f64 = 1e6;

fn clamp(x: f64) -> f64 {
    if x > PI_2 {
        PI_2
    } else if x < -PI_2 {
        -PI_2
    } else {
        x
    }
}

harness! {
    fn h_wrap() {
        let x = vk::real("x", -R, R);
        vk::cong("Lon::new", Lon::new(rad(x)).angle().rad(), x, TAU, T);
        vk::cong("Lon::rad", Lon::rad(x).angle().rad(), x, TAU, T);
        vk::cong("normalized", rad(x).normalized().rad(), x, TAU, T);
        let mut a = rad(x);
        a.normalize();
        vk::cong("normalize", a.rad(), x, TAU, T);
        vk::cong("Azimuth::new", Azimuth::new(rad(x)).angle().rad(), x, TAU, T);
        vk::cong("Lon::normalized", Lon::new(rad(x)).normalized().angle().rad(), x, TAU, T);
    }
    fn h_wrap_deg() {
        let x = vk::real("x", -R, R);
        vk::cong("Lon::deg", Lon::deg(x).angle().rad(), x * (PI / 180.0), TAU, T);
        vk::cong("Azimuth::deg", Azimuth::deg(x).angle().rad(), x * (PI / 180.0), TAU, T);
        vk::cong("Azimuth::rad", Azimuth::rad(x).angle().rad(), x, TAU, T);
    }
    fn h_keep() {
        let x = vk::real("x", -PI, PI);
        vk::eq("in range longitude is kept", Lon::new(rad(x)).angle().rad(), x, 0.0);
        vk::assume(x > -PI);
        vk::eq("in range angle is kept", rad(x).normalized().rad(), x, 0.0);
        vk::eq("in range azimuth is kept", Azimuth::new(rad(x)).angle().rad(), x, 0.0);
        vk::eq("normalizing twice", Lon::new(rad(x)).normalized().angle().rad(), x, 0.0);
    }
    fn h_lon_ops() {
        let l = any_lon("lon");
        let x = vk::real("x", -R, R);
        let l0 = l.angle().rad();
        match vk::choice("op", 8) {
            0 => vk::cong("lon + angle", (l + rad(x)).angle().rad(), l0 + x, TAU, T),
            1 => vk::cong("angle + lon", (rad(x) + l).angle().rad(), l0 + x, TAU, T),
            2 => vk::cong("lon - angle", (l - rad(x)).angle().rad(), l0 - x, TAU, T),
            3 => { let mut k = l; k += rad(x); vk::cong("lon += angle", k.angle().rad(), l0 + x, TAU, T) }
            4 => { let mut k = l; k -= rad(x); vk::cong("lon -= angle", k.angle().rad(), l0 - x, TAU, T) }
            5 => vk::cong("lon * x", (l * x).angle().rad(), l0 * x, TAU, T),
            6 => vk::cong("x * lon", (x * l).angle().rad(), l0 * x, TAU, T),
            _ => { let mut k = l; k *= x; vk::cong("lon *= x", k.angle().rad(), l0 * x, TAU, T) }
        }
    }
    fn h_lon_div() {
        let l = any_lon("lon");
        let x = vk::real("x", 1e-3, R);
        let s = if vk::choice("sign", 2) == 0 { x } else { -x };
        let l0 = l.angle().rad();
        vk::cong("lon / x", (l / s).angle().rad(), l0 / s, TAU, T);
        let mut k = l;
        k /= s;
        vk::cong("lon /= x", k.angle().rad(), l0 / s, TAU, T);
        vk::eq("-lon", (-l).angle().rad(), -l0, 0.0);
    }
    fn h_diff() {
        let a = vk::real("a", -R, R);
        let b = vk::real("b", -R, R);
        let d = rad(a).diff_to(rad(b)).rad();
        vk::cong("a + diff_to(a, b) is b", a + d, b, TAU, T);
        vk::le("at most half a turn", d, PI, 0.0);
        vk::ok("half a turn is positive", d > -PI);
    }
    fn h_lon_diff() {
        let a = any_lon("a");
        let b = any_lon("b");
        let d = b - a;
        vk::le("at most half a turn", d.rad(), PI, 0.0);
        vk::ok("half a turn is positive", d.rad() > -PI);
        vk::cong("lon difference", d.rad(), b.angle().rad() - a.angle().rad(), TAU, T);
        vk::cong("a + (b - a) is b", (a + d).angle().rad(), b.angle().rad(), TAU, T);
    }
    fn h_az_ops() {
        let z = vk::real("z", -PI, PI);
        let x = vk::real("x", -R, R);
        vk::assume(z > -PI);
        let a = Azimuth::new(rad(z));
        vk::cong("azimuth + angle", (a + rad(x)).angle().rad(), z + x, TAU, T);
        vk::cong("angle + azimuth", (rad(x) + a).angle().rad(), z + x, TAU, T);
    }
    fn h_az_diff() {
        let z = vk::real("z", -PI, PI);
        let y = vk::real("y", -PI, PI);
        vk::assume(z > -PI && y > -PI);
        let d = (Azimuth::new(rad(z)) - Azimuth::new(rad(y))).rad();
        vk::le("at most half a turn", d, PI, 0.0);
        vk::ok("half a turn is positive", d > -PI);
        vk::cong("azimuth - azimuth", (Azimuth::new(rad(z)) - Azimuth::new(rad(y))).rad(), z - y, TAU, T);
    }
    fn h_lat() {
        let l = any_lat("lat");
        let x = vk::real("x", -R, R);
        let l0 = l.angle().rad();
        match vk::choice("op", 12) {
            0 => vk::eq("Lat::new", Lat::new(rad(x)).angle().rad(), clamp(x), 0.0),
            1 => vk::eq("Lat::deg", Lat::deg(x).angle().rad(), clamp(x * (PI / 180.0)), 1e-14),
            2 => vk::eq("lat + angle", (l + rad(x)).angle().rad(), clamp(l0 + x), 1e-14),
            3 => vk::eq("angle + lat", (rad(x) + l).angle().rad(), clamp(l0 + x), 1e-14),
            4 => vk::eq("lat - angle", (l - rad(x)).angle().rad(), clamp(l0 - x), 1e-14),
            5 => { let mut k = l; k += rad(x); vk::eq("lat += angle", k.angle().rad(), clamp(l0 + x), 1e-14) }
            6 => { let mut k = l; k -= rad(x); vk::eq("lat -= angle", k.angle().rad(), clamp(l0 - x), 1e-14) }
            7 => vk::eq("lat * x", (l * x).angle().rad(), clamp(l0 * x), 1e-14),
            8 => vk::eq("x * lat", (x * l).angle().rad(), clamp(l0 * x), 1e-14),
            9 => { let mut k = l; k *= x; vk::eq("lat *= x", k.angle().rad(), clamp(l0 * x), 1e-14) }
            10 => { vk::eq("-lat", (-l).angle().rad(), -l0, 0.0); let mm = any_lat("lat2"); vk::eq("lat - lat", (l - mm).rad(), l0 - mm.angle().rad(), 1e-15) }
            _ => vk::eq("|lat|", l.abs().angle().rad(), if l0 < 0.0 { -l0 } else { l0 }, 0.0),
        }
    }
    fn h_lat_div() {
        let l = any_lat("lat");
        let x = vk::real("x", 1e-3, R);
        let s = if vk::choice("sign", 2) == 0 { x } else { -x };
        let l0 = l.angle().rad();
        vk::eq("lat / x", (l / s).angle().rad(), clamp(l0 / s), 1e-14);
        let mut k = l;
        k /= s;
        vk::eq("lat /= x", k.angle().rad(), clamp(l0 / s), 1e-14);
    }
    fn h_angle_ring() {
        let x = vk::real("x", -R, R);
        let y = vk::real("y", -R, R);
        let k = vk::real("k", -R, R);
        vk::eq("angle + angle", (rad(x) + rad(y)).rad(), x + y, 1e-9);
        vk::eq("angle - angle", (rad(x) - rad(y)).rad(), x - y, 1e-9);
        vk::eq("k * angle", (k * rad(x)).rad(), k * x, 1e-3);
        vk::eq("angle * k", (rad(x) * k).rad(), k * x, 1e-3);
        vk::eq("-angle", (-rad(x)).rad(), -x, 0.0);
        vk::eq("|angle|", rad(x).abs().rad(), if x < 0.0 { -x } else { x }, 0.0);
        let mut a = rad(x);
        a += rad(y);
        vk::eq("angle += angle", a.rad(), x + y, 1e-9);
        a -= rad(y);
        vk::eq("angle -= angle", a.rad(), x, 1e-9);
        a *= k;
        vk::eq("angle *= k", a.rad(), x * k, 1e-3);
        vk::assume(k > 1e-3 || k < -1e-3);
        vk::eq("angle / k", (rad(x) / k).rad(), x / k, 1e-5);
        let mut b = rad(x);
        b /= k;
        vk::eq("angle /= k", b.rad(), x / k, 1e-5);
    }
}
