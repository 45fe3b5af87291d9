//! C06: geodetic -> geocentric.
use crate::spec::*;
use crate::vk;
use geokit::cs::geodetic::Lon;
use geokit::geodesy::geodetic_datum::consts as dat;
use geokit::geodesy::prime_meridian::consts as pmc;
use geokit::geodesy::{Ellipsoid, GeodeticDatum, PrimeMeridian};

harness! {
    /// any ellipsoid (given by its axes), any prime meridian
    fn h_any_datum_ab() {
        let a = vk::real("a", 1.0, 1e8);
        let q = vk::real("b/a", 0.3, 1.0);
        let pm = any_lon("pm");
        let lon = any_lon("lon");
        let phi = vk::real("lat", -PI_2, PI_2);
        let k = vk::real("h/a", -3.0, 10.0);
        let h = a * k;
        let d = GeodeticDatum::new("d", Ellipsoid::from_ab("e", m(a), m(a * q)), PrimeMeridian::new("p", pm));
        let p = d.llh_to_xyz(llh(lon, any_lat("lat"), h));
        let l = lon.angle().rad() + pm.angle().rad();
        let (s, c) = (phi.sin(), phi.cos());
        // (N, N b^2/a^2) with N = a^2 / sqrt(a^2 cos^2 + b^2 sin^2)
        let n = a / (c * c + q * q * s * s).sqrt();
        let t = 1e-12 * a * (1.0 + k.abs());
        vk::eq("x", p.x.m(), (n + h) * c * l.cos(), t);
        vk::eq("y", p.y.m(), (n + h) * c * l.sin(), t);
        vk::eq("z", p.z.m(), (n * (q * q) + h) * s, t);
    }
    fn h_any_datum_invf() {
        let a = vk::real("a", 1.0, 1e8);
        let i = vk::real("invf", 2.0, 1e6);
        let pm = any_lon("pm");
        let lon = any_lon("lon");
        let phi = vk::real("lat", -PI_2, PI_2);
        let k = vk::real("h/a", -3.0, 10.0);
        let h = a * k;
        let d = GeodeticDatum::new("d", Ellipsoid::from_ainvf("e", m(a), i), PrimeMeridian::new("p", pm));
        let p = d.llh_to_xyz(llh(lon, any_lat("lat"), h));
        let l = lon.angle().rad() + pm.angle().rad();
        let (s, c) = (phi.sin(), phi.cos());
        let q = 1.0 - 1.0 / i;
        let n = a / (c * c + q * q * s * s).sqrt();
        let t = 1e-12 * a * (1.0 + k.abs());
        vk::eq("x", p.x.m(), (n + h) * c * l.cos(), t);
        vk::eq("y", p.y.m(), (n + h) * c * l.sin(), t);
        vk::eq("z", p.z.m(), (n * (q * q) + h) * s, t);
    }
    /// the spherical case on its own
    fn h_sphere() {
        let a = vk::real("a", 1.0, 1e8);
        let pm = any_lon("pm");
        let lon = any_lon("lon");
        let phi = vk::real("lat", -PI_2, PI_2);
        let k = vk::real("h/a", -3.0, 10.0);
        let h = a * k;
        let d = GeodeticDatum::new("d", Ellipsoid::from_ab("e", m(a), m(a)), PrimeMeridian::new("p", pm));
        let p = d.llh_to_xyz(llh(lon, any_lat("lat"), h));
        let l = lon.angle().rad() + pm.angle().rad();
        let t = 1e-12 * a * (1.0 + k.abs());
        vk::eq("x", p.x.m(), (a + h) * phi.cos() * l.cos(), t);
        vk::eq("y", p.y.m(), (a + h) * phi.cos() * l.sin(), t);
        vk::eq("z", p.z.m(), (a + h) * phi.sin(), t);
    }
    /// at height zero the point is on the ellipsoid, and the outward normal there has the given latitude
    fn h_on_the_ellipsoid() {
        let q = vk::real("b/a", 0.3, 1.0);
        let a = 6378137.0;
        let lon = any_lon("lon");
        let phi = vk::real("lat", -PI_2, PI_2);
        let d = GeodeticDatum::new("d", Ellipsoid::from_ab("e", m(a), m(a * q)), PrimeMeridian::new("p", Lon::ZERO));
        let p = d.llh_to_xyz(llh(lon, any_lat("lat"), 0.0));
        let (x, y, z) = (p.x.m() / a, p.y.m() / a, p.z.m() / a);
        vk::eq("on the ellipsoid", q * q * (x * x + y * y) + z * z, q * q, 1e-12);
        let r2 = x * x + y * y;
        // normal direction (x, y, z a^2/b^2): tan(lat) = z / (q^2 r)
        vk::eq("normal", z * z * phi.cos() * phi.cos(), q * q * q * q * r2 * phi.sin() * phi.sin(), 1e-12);
    }
    /// predefined datums
    fn h_predefined() {
        let lon = any_lon("lon");
        let phi = vk::real("lat", -PI_2, PI_2);
        let h = vk::real("h", -10000.0, 1e7);
        // (their parameters are the subject of C05)
        let d = match vk::choice("datum", 4) {
            0 => dat::WGS84,
            1 => dat::GGRS87,
            2 => dat::NAD83,
            _ => dat::RNB72,
        };
        let a = d.ellipsoid().a().m();
        let q = d.ellipsoid().b().m() / a;
        let p = d.llh_to_xyz(llh(lon, any_lat("lat"), h));
        let l = lon.angle().rad();
        let (s, c) = (phi.sin(), phi.cos());
        let n = a / (c * c + q * q * s * s).sqrt();
        vk::eq("x", p.x.m(), (n + h) * c * l.cos(), 1e-6);
        vk::eq("y", p.y.m(), (n + h) * c * l.sin(), 1e-6);
        vk::eq("z", p.z.m(), (n * (q * q) + h) * s, 1e-6);
    }
    /// changing the prime meridian is a rotation about the polar axis
    fn h_prime_meridian_rotation() {
        let lon = any_lon("lon");
        let phi = any_lat("lat");
        let h = vk::real("h", -10000.0, 1e7);
        let e = Ellipsoid::from_ainvf("e", m(6378137.0), 298.257223563);
        let g = GeodeticDatum::new("g", e.clone(), pmc::GREENWICH);
        let w = any_lon("pm");
        let d = GeodeticDatum::new("d", e, PrimeMeridian::new("p", w));
        let p = g.llh_to_xyz(llh(lon, phi, h));
        let q = d.llh_to_xyz(llh(lon, phi, h));
        let (s, c) = (w.angle().rad().sin(), w.angle().rad().cos());
        vk::eq("x", q.x.m(), p.x.m() * c - p.y.m() * s, 1e-6);
        vk::eq("y", q.y.m(), p.x.m() * s + p.y.m() * c, 1e-6);
        vk::eq("z", q.z.m(), p.z.m(), 1e-6);
    }
}
