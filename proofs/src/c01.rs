//! C01: angular coordinates never leave their range.  Mode fp: rounding included.
use crate::spec::*;
use crate::vk;
use geokit::cs::azimuth::Azimuth;
use geokit::cs::geodetic::{Lat, Lon};
use geokit::units::angle::*;

fn in_lon(id: &'static str, l: Lon) {
    let x = l.angle().rad();
    vk::ok(id, x >= -PI && x <= PI);
}
fn in_lat(id: &'static str, l: Lat) {
    let x = l.angle().rad();
    vk::ok(id, x >= -PI_2 && x <= PI_2);
}
fn in_half_open(id: &'static str, x: f64) {
    vk::ok(id, x > -PI && x <= PI);
}
const BIG: f64 = 1e300;

harness! {
    fn h_lon_make() {
        let x = vk::real("x", -BIG, BIG);
        match vk::choice("how", 6) {
            0 => in_lon("Lon::new", Lon::new(rad(x))),
            1 => in_lon("Lon::rad", Lon::rad(x)),
            2 => in_lon("Lon::deg", Lon::deg(x)),
            3 => in_lon("Lon::new grad", Lon::new(x * GRAD)),
            4 => in_lon("Lon::new sec", Lon::new(x * SEC)),
            _ => in_half_open("normalized Lon", Lon::new(rad(x)).normalized().angle().rad()),
        }
    }
    fn h_lon_ops() {
        let l = any_lon("lon");
        let x = vk::real("x", -BIG, BIG);
        let a = rad(x);
        match vk::choice("op", 11) {
            0 => in_lon("lon + angle", l + a),
            1 => in_lon("angle + lon", a + l),
            2 => in_lon("lon - angle", l - a),
            3 => { let mut k = l; k += a; in_lon("lon += angle", k) }
            4 => { let mut k = l; k -= a; in_lon("lon -= angle", k) }
            5 => in_lon("lon * x", l * x),
            6 => in_lon("x * lon", x * l),
            7 => { let mut k = l; k *= x; in_lon("lon *= x", k) }
            8 => { vk::assume(x >= 1e-300 || x <= -1e-300); in_lon("lon / x", l / x) }
            9 => { vk::assume(x >= 1e-300 || x <= -1e-300); let mut k = l; k /= x; in_lon("lon /= x", k) }
            _ => in_lon("-lon", -l),
        }
    }
    fn h_lon_diff() {
        let a = any_lon("a");
        let b = any_lon("b");
        in_half_open("lon - lon", (a - b).rad());
        in_half_open("diff_to", a.angle().diff_to(b.angle()).rad());
    }
    fn h_lon_dms() {
        let d = vk::real("d", -179.0, 180.0);
        let m = vk::real("m", 0.0, 59.0);
        let s = vk::real("s", 0.0, 59.999999);
        match vk::choice("what", 3) {
            0 => in_lon("Lon::dms", Lon::dms(d, m, s)),
            1 => { vk::assume(d >= -90.0 && d <= 90.0); in_lat("Lat::dms", Lat::dms(d, m, s)) }
            _ => in_half_open("Azimuth::dms", Azimuth::dms(d, m, s).angle().rad()),
        }
    }
    fn h_lat_make() {
        let x = vk::real("x", -BIG, BIG);
        match vk::choice("how", 4) {
            0 => in_lat("Lat::new", Lat::new(rad(x))),
            1 => in_lat("Lat::deg", Lat::deg(x)),
            2 => in_lat("Lat::new grad", Lat::new(x * GRAD)),
            _ => in_lat("Lat::new sec", Lat::new(x * SEC)),
        }
    }
    fn h_lat_ops() {
        let l = any_lat("lat");
        let x = vk::real("x", -BIG, BIG);
        let a = rad(x);
        match vk::choice("op", 12) {
            0 => in_lat("lat + angle", l + a),
            1 => in_lat("angle + lat", a + l),
            2 => in_lat("lat - angle", l - a),
            3 => { let mut k = l; k += a; in_lat("lat += angle", k) }
            4 => { let mut k = l; k -= a; in_lat("lat -= angle", k) }
            5 => in_lat("lat * x", l * x),
            6 => in_lat("x * lat", x * l),
            7 => { let mut k = l; k *= x; in_lat("lat *= x", k) }
            8 => { vk::assume(x >= 1e-300 || x <= -1e-300); in_lat("lat / x", l / x) }
            9 => { vk::assume(x >= 1e-300 || x <= -1e-300); let mut k = l; k /= x; in_lat("lat /= x", k) }
            10 => in_lat("-lat", -l),
            _ => { in_lat("|lat|", l.abs()); vk::ok("|lat| >= 0", l.abs().angle().rad() >= 0.0) }
        }
    }
    fn h_azimuth() {
        let x = vk::real("x", -BIG, BIG);
        let z0 = vk::real("az", -PI, PI);
        vk::assume(z0 > -PI);
        let z = Azimuth::new(rad(z0));
        match vk::choice("op", 6) {
            0 => in_half_open("Azimuth::new", Azimuth::new(rad(x)).angle().rad()),
            1 => in_half_open("Azimuth::rad", Azimuth::rad(x).angle().rad()),
            2 => in_half_open("Azimuth::deg", Azimuth::deg(x).angle().rad()),
            3 => in_half_open("az + angle", (z + rad(x)).angle().rad()),
            4 => in_half_open("angle + az", (rad(x) + z).angle().rad()),
            _ => { let y = vk::real("az2", -PI, PI); in_half_open("az - az", (z - Azimuth::rad(y)).rad()) }
        }
    }
    fn h_normalize() {
        let x = vk::real("x", -BIG, BIG);
        in_half_open("Angle::normalized", rad(x).normalized().rad());
        let mut a = rad(x);
        a.normalize();
        in_half_open("Angle::normalize", a.rad());
    }
}
