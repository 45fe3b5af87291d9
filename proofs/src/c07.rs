//! C07: geocentric -> geodetic.
//!
//! The inverse of C06 follows from three contracts:
//!  * `h_formula`: xyz_to_llh returns the latitude and height of the foot point given by k(p, q, e^2);
//!  * `h_resolvent`, `h_quartic`: that k satisfies D^2 + (1 - e^2) z^2 = a^2 k^2;
//!  * `h_foot`: for such a k, llh_to_xyz maps this latitude and height to the point one started from.
use crate::spec::*;
use crate::vk;
use geokit::cs::cartesian::geocentric::XYZ;
use geokit::cs::geodetic::{Lat, Lon};
use geokit::geodesy::geodetic_datum::consts as dat;
use geokit::geodesy::{Ellipsoid, GeodeticDatum, PrimeMeridian};

/// (datum at Greenwich, a, e^2)
fn any_datum() -> (GeodeticDatum, f64, f64) {
    let a = vk::real("a", 6.3e6, 6.4e6);
    let i = vk::real("invf", 150.0, 1000.0);
    let f = 1.0 / i;
    (GeodeticDatum::new("d", Ellipsoid::from_ainvf("e", m(a), i), PrimeMeridian::new("p", Lon::ZERO)), a, f * (2.0 - f))
}
fn xyz(x: f64, y: f64, z: f64) -> XYZ {
    XYZ { x: m(x), y: m(y), z: m(z) }
}

/// a point away from the centre of the ellipsoid and off the axis
fn any_outside() -> (f64, f64, f64) {
    let (x, y) = (vk::real("x", -7e6, 7e6), vk::real("y", -7e6, 7e6));
    let z = match vk::choice("far from", 3) {
        0 => {
            vk::assume(x.hypot(y) > 3e6);
            vk::real("z", -7e6, 7e6)
        }
        1 => vk::real("z", 3e6, 7e6),
        _ => vk::real("z", -7e6, -3e6),
    };
    vk::assume(x.hypot(y) > 1.0);
    (x, y, z)
}

/// a point off the axis but close to it
fn near_axis() -> (f64, f64, f64) {
    let (s, side) = match vk::choice("distance", 3) {
        0 => (1.0, -1.0),
        1 => (1e-4, 1.0),
        _ => (1e-9, -1.0),
    };
    let (x, y) = (vk::real("x", -1.0, 1.0), vk::real("y", -1.0, 1.0));
    vk::assume(x.hypot(y) > 1e-2);
    (s * x, s * y, side * vk::real("z", 6e6, 7e6))
}

/// u of Vermeille's method, for p = (x^2 + y^2) / a^2 and q = (1 - e^2) z^2 / a^2
fn root(p: f64, q: f64, e2: f64) -> f64 {
    let r = (p + q - e2 * e2) / 6.0;
    let s = e2 * e2 * p * q / (4.0 * r * r * r);
    let t = (1.0 + s + (s * (2.0 + s)).sqrt()).cbrt();
    r * (1.0 + t + 1.0 / t)
}
fn kappa(u: f64, q: f64, e2: f64) -> f64 {
    let v = (u * u + e2 * e2 * q).sqrt();
    let w = e2 * (u + v - q) / (2.0 * v);
    (u + v + w * w).sqrt() - w
}

harness! {
    fn h_sphere() {
        let a = vk::real("a", 1.0, 1e8);
        let d = GeodeticDatum::new("d", Ellipsoid::from_ab("e", m(a), m(a)), PrimeMeridian::new("p", Lon::ZERO));
        let lat = vk::real("lat", -1.5707, 1.5707);
        let lon = vk::real("lon", -3.1415, 3.1415);
        let k = vk::real("h/a", -0.9, 10.0);
        let o = d.xyz_to_llh(d.llh_to_xyz(llh(Lon::new(rad(lon)), Lat::new(rad(lat)), a * k)));
        vk::eq("longitude", o.lon.angle().rad(), lon, 1e-9);
        vk::eq("latitude", o.lat.angle().rad(), lat, 1e-9);
        vk::eq("height", o.height.m(), a * k, 1e-9 * a);
    }
    /// the poles and the equator of a sphere, any side
    fn h_sphere_axes() {
        let a = vk::real("a", 1.0, 1e8);
        let d = GeodeticDatum::new("d", Ellipsoid::from_ab("e", m(a), m(a)), PrimeMeridian::new("p", Lon::ZERO));
        let r = vk::real("r", 0.1, 1e9);
        let (x, y, z, lon, lat) = match vk::choice("axis", 6) {
            0 => (r, 0.0, 0.0, 0.0, 0.0),
            1 => (-r, 0.0, 0.0, PI, 0.0),
            2 => (0.0, r, 0.0, PI_2, 0.0),
            3 => (0.0, -r, 0.0, -PI_2, 0.0),
            4 => (0.0, 0.0, r, 0.0, PI_2),
            _ => (0.0, 0.0, -r, 0.0, -PI_2),
        };
        let o = d.xyz_to_llh(xyz(x, y, z));
        vk::cong("longitude", o.lon.angle().rad(), lon, TAU, 1e-12);
        vk::eq("latitude", o.lat.angle().rad(), lat, 1e-12);
        vk::eq("height", o.height.m(), r - a, 1e-9 * (a + r));
    }
    /// latitude and height are those of the foot point for k
    fn h_formula() {
        let (d, a, e2) = any_datum();
        let (x, y, z) = any_outside();
        let o = d.xyz_to_llh(xyz(x, y, z));
        let r = x.hypot(y);
        let (p, q) = ((r / a) * (r / a), (1.0 - e2) * z * z / (a * a));
        let k = kappa(root(p, q, e2), q, e2);
        let dd = k * r / (k + e2);
        let hh = dd.hypot(z);
        // half angle: tan(lat / 2) = z / (D + H)
        vk::near("latitude", o.lat.angle().rad(), 2.0 * z.atan2(dd + hh), 1e-12);
        vk::near("height", o.height.m(), (k + e2 - 1.0) / k * hh, 1e-6);
    }
    /// u solves the resolvent cubic
    fn h_resolvent() {
        let (p, q, e2) = (vk::real("p", 0.0, 4.0), vk::real("q", 0.0, 4.0), vk::real("e2", 1e-4, 0.1));
        vk::assume(p + q > 0.1);
        let r = (p + q - e2 * e2) / 6.0;
        let u = root(p, q, e2);
        vk::eq("u^3 - 3 r u^2 = e^4 p q / 2", u * u * u - 3.0 * r * u * u, e2 * e2 * p * q / 2.0, 1e-12);
    }
    /// a solution of the resolvent gives a k with p / (k + e^2)^2 + q / k^2 = 1
    fn h_quartic() {
        let (u, e2) = (vk::real("u", 0.05, 4.0), vk::real("e2", 1e-4, 0.1));
        let v = u * vk::real("v/u", 1.0, 3.0);
        // q from v, then (p, r) from the resolvent
        let e4 = e2 * e2;
        let q = (v * v - u * u) / e4;
        // 6 r = p + q - e^4 and e^4 p q = 2 u^2 (u - 3 r)
        let p = (2.0 * u * u * u - u * u * (q - e4)) / (e4 * q + u * u);
        vk::assume(p >= 0.0);
        let k = kappa(u, q, e2);
        let w = e2 * (u + v - q) / (2.0 * v);
        vk::assume(u + v + w * w >= 0.0);
        let c = p * k * k + q * (k + e2) * (k + e2);
        vk::eq("quartic", c, k * k * (k + e2) * (k + e2), 1e-6 * (1.0 + c.abs()));
    }
    fn h_half_angle() {
        let (d, z) = (vk::real("D", 1e-3, 1e8), vk::real("z", -1e8, 1e8));
        vk::near("2 atan2(z, D + H) = atan2(z, D)", 2.0 * z.atan2(d + d.hypot(z)), z.atan2(d), 1e-12);
    }
    /// llh_to_xyz gives a point whose k, defined from its latitude and height, solves the equation, and
    /// whose foot point is at that latitude and height: the k that xyz_to_llh finds is this one
    fn h_foot() {
        let a = vk::real("a", 1.0, 1e8);
        let e = vk::real("e", 0.001, 0.5);
        let e2 = e * e;
        let d = GeodeticDatum::new("d", Ellipsoid::from_ab("e", m(a), m(a * (1.0 - e2).sqrt())), PrimeMeridian::new("p", Lon::ZERO));
        let lat = vk::real("lat", -1.5707, 1.5707);
        let h = a * vk::real("h/a", -0.05, 10.0);
        let o = d.llh_to_xyz(llh(Lon::ZERO, Lat::new(rad(lat)), h));
        let (r, z) = (o.x.m(), o.z.m());
        vk::eq("y", o.y.m(), 0.0, 1e-6 * a);
        let n = a / (1.0 - e2 * lat.sin() * lat.sin()).sqrt();
        let k = h / n + 1.0 - e2;
        let dd = k * r / (k + e2);
        let hh = n * k;
        vk::eq("D = H cos lat", dd, hh * lat.cos(), 1e-6 * a);
        vk::eq("z = H sin lat", z, hh * lat.sin(), 1e-6 * a);
        vk::eq("height", (k + e2 - 1.0) / k * hh, h, 1e-6 * a);
        vk::eq("equation of k", dd * dd + (1.0 - e2) * z * z, a * a * k * k, 1e-6 * a * a);
    }
    /// the equation has one positive root
    fn h_unique() {
        let (p, q, e2) = (vk::real("p", 0.0, 4.0), vk::real("q", 0.0, 4.0), vk::real("e2", 0.0, 0.25));
        let k1 = vk::real("k1", 0.01, 10.0);
        let k2 = k1 + vk::real("k2 - k1", 0.0, 10.0);
        vk::le("p-term decreases", p / ((k2 + e2) * (k2 + e2)), p / ((k1 + e2) * (k1 + e2)), 1e-12);
        vk::le("q-term decreases", q / (k2 * k2), q / (k1 * k1), 1e-12);
    }
    fn h_longitude() {
        let (d, _, _) = any_datum();
        let (x, y, z) = (vk::real("x", -7e6, 7e6), vk::real("y", -7e6, 7e6), vk::real("z", -7e6, 7e6));
        vk::assume(x.hypot(y) > 3e6);
        let pm = any_lon("pm");
        let d = GeodeticDatum::new("d", d.ellipsoid().clone(), PrimeMeridian::new("p", pm));
        let o = d.xyz_to_llh(xyz(x, y, z));
        vk::cong("longitude from the prime meridian", o.lon.angle().rad(), y.atan2(x) - pm.angle().rad(), TAU, 1e-9);
    }
    /// however close to the axis (short of it), either hemisphere
    fn h_longitude_near_axis() {
        let (d, _, _) = any_datum();
        let (x, y, z) = near_axis();
        let o = d.xyz_to_llh(xyz(x, y, z));
        vk::cong("longitude from the prime meridian", o.lon.angle().rad(), y.atan2(x), TAU, 1e-9);
    }
    fn h_sphere_longitude() {
        let a = vk::real("a", 1.0, 1e8);
        let pm = any_lon("pm");
        let d = GeodeticDatum::new("d", Ellipsoid::from_ab("e", m(a), m(a)), PrimeMeridian::new("p", pm));
        let s = if vk::choice("close to the axis", 2) == 1 { 1e-12 } else { 1.0 };
        let (x, y, z) = (s * vk::real("x", -7e6, 7e6), s * vk::real("y", -7e6, 7e6), vk::real("z", -7e6, 7e6));
        vk::assume(x * x + y * y > s * s);
        let o = d.xyz_to_llh(xyz(x, y, z));
        vk::cong("longitude from the prime meridian", o.lon.angle().rad(), y.atan2(x) - pm.angle().rad(), TAU, 1e-9);
    }
    /// on the polar axis the longitude is that of Greenwich
    fn h_poles() {
        let (d, a, e2) = any_datum();
        let pm = any_lon("pm");
        let d = GeodeticDatum::new("d", d.ellipsoid().clone(), PrimeMeridian::new("p", pm));
        let z = vk::real("z", 6e6, 7e6);
        let south = vk::choice("south", 2) == 1;
        let o = d.xyz_to_llh(xyz(0.0, 0.0, if south { -z } else { z }));
        vk::cong("longitude", o.lon.angle().rad(), -pm.angle().rad(), TAU, 1e-9);
        vk::eq("latitude", o.lat.angle().rad(), if south { -PI_2 } else { PI_2 }, 1e-12);
        vk::eq("height", o.height.m(), z - a * (1.0 - e2).sqrt(), 1e-6);
    }
    fn h_equator() {
        let (d, a, _) = any_datum();
        let r = vk::real("r", 6e6, 7e6);
        let (x, y) = match vk::choice("direction", 6) {
            0 => (r, 0.0),
            1 => (-r, 0.0),
            2 => (0.0, r),
            3 => (0.0, -r),
            4 => (0.6 * r, 0.8 * r),
            _ => (0.8 * r, -0.6 * r),
        };
        let o = d.xyz_to_llh(xyz(x, y, 0.0));
        vk::eq("latitude", o.lat.angle().rad(), 0.0, 1e-12);
        vk::eq("height", o.height.m(), r - a, 1e-6);
    }
    fn h_round_trip() {
        let e = match vk::choice("shape", 3) {
            0 => { let a = vk::real("a", 6.3e6, 6.4e6); Ellipsoid::from_ainvf("e", m(a), vk::real("invf", 100.0, 1000.0)) }
            1 => { let a = vk::real("a", 1.0, 1e8); Ellipsoid::from_ainvf("e", m(a), vk::real("invf", 20.0, 1e6)) }
            _ => { let a = vk::real("a", 1.0, 1e8); Ellipsoid::from_ab("e", m(a), m(a)) }
        };
        let pm = any_lon("pm");
        let a = e.a().m();
        let d = GeodeticDatum::new("d", e, PrimeMeridian::new("p", pm));
        round_trip(&d, a);
    }
    fn h_round_trip_datums() {
        let d = match vk::choice("datum", 4) {
            0 => dat::WGS84,
            1 => dat::GGRS87,
            2 => dat::NAD83,
            _ => dat::RNB72,
        };
        let a = d.ellipsoid().a().m();
        round_trip(&d, a);
    }
}

fn round_trip(d: &GeodeticDatum, a: f64) {
    let lon = match vk::choice("lon", 6) {
        0 => Lon::ZERO,
        1 => Lon::new(rad(PI)),
        2 => Lon::new(rad(-PI)),
        3 => Lon::new(rad(PI_2)),
        4 => Lon::new(rad(-PI_2)),
        _ => any_lon("lon"),
    };
    let lat = match vk::choice("lat", 5) {
        0 => Lat::ZERO,
        1 => Lat::new(rad(PI_2)),
        2 => Lat::new(rad(-PI_2)),
        _ => any_lat("lat"),
    };
    let h = a * match vk::choice("height", 3) {
        0 => 0.0,
        1 => vk::real("h/a", -0.05, 0.05),
        _ => vk::real("h/a", -0.05, 10.0),
    };
    let o = d.xyz_to_llh(d.llh_to_xyz(llh(lon, lat, h)));
    let c = lat.angle().rad().cos();
    vk::near("latitude returns", o.lat.angle().rad(), lat.angle().rad(), 1e-9);
    vk::near("height returns", o.height.m(), h, 1e-9 * (a + h));
    let dl = o.lon.angle().rad() - lon.angle().rad();
    vk::near("longitude returns", dl.sin() * c, 0.0, 1e-9);
    vk::near("longitude returns on the same side", dl.cos() * c, c, 1e-9);
}
