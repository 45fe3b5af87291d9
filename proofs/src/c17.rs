//! C17: degrees, minutes, seconds.
use crate::spec::*;
use crate::vk;
use geokit::cs::azimuth::Azimuth;
use geokit::cs::geodetic::{Lat, Lon};
use geokit::units::angle::*;

fn parts(max: f64) -> (f64, f64, f64, f64) {
    let (mm, s) = (vk::real("m", 0.0, 59.0), vk::real("s", 0.0, 59.9999999));
    if vk::choice("sign", 2) == 0 {
        let d = vk::real("d", 0.0, max).abs();
        (d, mm, s, d + mm / 60.0 + s / 3600.0)
    } else {
        let d = vk::real("-d", 1.0, max);
        (-d, mm, s, -(d + mm / 60.0 + s / 3600.0))
    }
}

harness! {
    fn h_lon_build() {
        let (d, mm, s, deg) = parts(179.0);
        vk::eq("Lon::dms", Lon::dms(d, mm, s).angle().rad(), deg * PI / 180.0, 1e-14);
    }
    fn h_lat_build() {
        let (d, mm, s, deg) = parts(89.0);
        vk::eq("Lat::dms", Lat::dms(d, mm, s).angle().rad(), deg * PI / 180.0, 1e-14);
    }
    fn h_azimuth_build() {
        let (d, mm, s, deg) = parts(179.0);
        vk::eq("Azimuth::dms", Azimuth::dms(d, mm, s).angle().rad(), deg * PI / 180.0, 1e-14);
    }
    /// the ends of the range
    fn h_build_ends() {
        vk::eq("Lon 180", Lon::dms(180.0, 0.0, 0.0).angle().rad(), PI, 1e-15);
        vk::eq("Lat 90", Lat::dms(90.0, 0.0, 0.0).angle().rad(), PI_2, 1e-15);
        vk::eq("Lat -90", Lat::dms(-90.0, 0.0, 0.0).angle().rad(), -PI_2, 1e-15);
        vk::eq("Azimuth 180", Azimuth::dms(180.0, 0.0, 0.0).angle().rad(), PI, 1e-15);
    }
    /// between -1 and 0 degree the sign is that of the zero
    fn h_negative_zero() {
        let (mm, s) = (vk::real("m", 0.0, 59.0), vk::real("s", 0.0, 59.9999999));
        let want = -(mm / 60.0 + s / 3600.0) * PI / 180.0;
        vk::eq("Lon::dms(-0, m, s)", Lon::dms(-0.0, mm, s).angle().rad(), want, 1e-14);
        vk::eq("Lat::dms(-0, m, s)", Lat::dms(-0.0, mm, s).angle().rad(), want, 1e-14);
        vk::eq("Azimuth::dms(-0, m, s)", Azimuth::dms(-0.0, mm, s).angle().rad(), want, 1e-14);
        let x = vk::real("x", -0.0174, -1e-11);
        let p = rad(x).dms();
        vk::ok("degrees of a small negative angle", p.deg() == 0.0 && p.deg().is_sign_negative() || p.deg() == -1.0);
    }
    /// splitting: any angle up to ten turns
    fn h_split() {
        let neg = vk::choice("sign", 2) == 1;
        let x = vk::real("|x| in degrees", 0.0, 3600.0);
        let p = rad(if neg { -x } else { x } * PI / 180.0).dms();
        let (d, mm, s) = (p.deg(), p.min(), p.sec());
        vk::ok("the sign is carried by the degrees", if neg { d <= 0.0 } else { d >= 0.0 });
        let d = d.abs();
        vk::ok("minutes in [0, 60)", mm >= 0.0 && mm < 60.0);
        vk::ok("seconds in [0, 60)", s >= 0.0 && s < 60.0);
        vk::near("sum of the parts", d + mm / 60.0 + s / 3600.0, x, 2e-10);
    }
    fn h_split_whole() {
        let x = vk::real("x", -63.0, 63.0);
        let p = rad(x).dms();
        vk::cong("whole degrees", p.deg(), 0.0, 1.0, 0.0);
        vk::cong("whole minutes", p.min(), 0.0, 1.0, 0.0);
    }
    /// splitting then building returns the angle
    fn h_rebuild() {
        let x = vk::real("|x| in degrees", 1.01, 179.99);
        let neg = vk::choice("sign", 2) == 1;
        let x = if neg { -x } else { x };
        let p = rad(x * PI / 180.0).dms();
        let (d, mm, s) = (p.deg(), p.min(), p.sec());
        // minutes of dms() are whole
        vk::assume(mm <= 59.0);
        match vk::choice("type", 2) {
            0 => vk::near("Lon::dms of the parts", Lon::dms(d, mm, s).angle().rad() * 180.0 / PI, x, 2e-10),
            _ => vk::near("Azimuth::dms of the parts", Azimuth::dms(d, mm, s).angle().rad() * 180.0 / PI, x, 2e-10),
        }
    }
    fn h_rebuild_lat() {
        let x = vk::real("|x| in degrees", 1.01, 89.99);
        let neg = vk::choice("sign", 2) == 1;
        let x = if neg { -x } else { x };
        let p = rad(x * PI / 180.0).dms();
        let (d, mm, s) = (p.deg(), p.min(), p.sec());
        vk::assume(mm <= 59.0);
        vk::near("Lat::dms of the parts", Lat::dms(d, mm, s).angle().rad() * 180.0 / PI, x, 2e-10);
    }
    /// splitting then building returns the angle; values close to a carry included
    fn h_round_trip() {
        let x = match vk::choice("kind", 4) {
            0 => vk::real("x", -3.1415, 3.1415),
            1 => (vk::real("n", -179.0, 179.0).round() + vk::real("e", -1e-9, 1e-9)) * PI / 180.0,
            2 => (vk::real("n", -10700.0, 10700.0).round() / 60.0 + vk::real("e", -1e-9, 1e-9)) * PI / 180.0,
            _ => (vk::real("n", -640000.0, 640000.0).round() / 3600.0 + vk::real("e", -1e-9, 1e-9)) * PI / 180.0,
        };
        let p = rad(x).dms();
        vk::near("Lon::dms of the parts", Lon::dms(p.deg(), p.min(), p.sec()).angle().rad(), x, 4e-12);
        vk::near("Azimuth::dms of the parts", Azimuth::dms(p.deg(), p.min(), p.sec()).angle().rad(), x, 4e-12);
        vk::near("sum in the unit", (p.deg().abs() * DEG + p.min() * (1.0 / 60.0) * DEG + p.sec() * SEC).rad(), x.abs(), 4e-12);
    }
}
