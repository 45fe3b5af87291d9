//! C11: Transverse Mercator (EPSG 9807, JHS formulas) and UTM.
use crate::spec::*;
use crate::vk;
use geokit::cs::cartesian::projected::ENH;
use geokit::cs::geodetic::{Lat, Lon, LLH};
use geokit::geodesy::Ellipsoid;
use geokit::projections::{Projection, ProjectionSpec};

/// (ellipsoid, a, f)
fn any_ellipsoid() -> (Ellipsoid, f64, f64) {
    ellipsoid(5.0)
}
fn ellipsoid(least_invf: f64) -> (Ellipsoid, f64, f64) {
    let a = vk::real("a", 6.3e6, 6.4e6);
    match vk::choice("sphere", 2) {
        0 => {
            let i = vk::real("invf", least_invf, 1000.0);
            (Ellipsoid::from_ainvf("e", m(a), i), a, 1.0 / i)
        }
        _ => (Ellipsoid::from_ab("s", m(a), m(a)), a, 0.0),
    }
}

/// the constants of the method, for flattening f
struct K {
    e: f64,
    b: f64,
    h: [f64; 4],
    hp: [f64; 4],
}
fn consts(a: f64, f: f64) -> K {
    let n = f / (2.0 - f);
    let (n2, n3, n4) = (n * n, n * n * n, n * n * n * n);
    K {
        e: (f * (2.0 - f)).sqrt(),
        b: a / (1.0 + n) * (1.0 + n2 / 4.0 + n4 / 64.0),
        h: [
            n / 2.0 - 2.0 / 3.0 * n2 + 5.0 / 16.0 * n3 + 41.0 / 180.0 * n4,
            13.0 / 48.0 * n2 - 3.0 / 5.0 * n3 + 557.0 / 1440.0 * n4,
            61.0 / 240.0 * n3 - 103.0 / 140.0 * n4,
            49561.0 / 161280.0 * n4,
        ],
        hp: [
            n / 2.0 - 2.0 / 3.0 * n2 + 37.0 / 96.0 * n3 - 1.0 / 360.0 * n4,
            1.0 / 48.0 * n2 + 1.0 / 15.0 * n3 - 437.0 / 1440.0 * n4,
            17.0 / 480.0 * n3 - 37.0 / 840.0 * n4,
            4397.0 / 161280.0 * n4,
        ],
    }
}
/// conformal latitude
fn beta(e: f64, lat: f64) -> f64 {
    (lat.tan().asinh() - e * (e * lat.sin()).atanh()).sinh().atan()
}
fn meridian(k: &K, lat: f64) -> f64 {
    let x = beta(k.e, lat);
    k.b * (x + k.h[0] * (2.0 * x).sin() + k.h[1] * (4.0 * x).sin() + k.h[2] * (6.0 * x).sin() + k.h[3] * (8.0 * x).sin())
}
/// (eta, xi)
fn series(k: &K, lat: f64, dlon: f64) -> (f64, f64) {
    let b = beta(k.e, lat);
    let y = (b.cos() * dlon.sin()).atanh();
    let x = (b.sin() * y.cosh()).asin();
    (
        y + k.h[0] * (2.0 * x).cos() * (2.0 * y).sinh() + k.h[1] * (4.0 * x).cos() * (4.0 * y).sinh() + k.h[2] * (6.0 * x).cos() * (6.0 * y).sinh() + k.h[3] * (8.0 * x).cos() * (8.0 * y).sinh(),
        x + k.h[0] * (2.0 * x).sin() * (2.0 * y).cosh() + k.h[1] * (4.0 * x).sin() * (4.0 * y).cosh() + k.h[2] * (6.0 * x).sin() * (6.0 * y).cosh() + k.h[3] * (8.0 * x).sin() * (8.0 * y).cosh(),
    )
}

harness! {
    /// origin on the equator
    fn h_forward() {
        let (el, a, f) = any_ellipsoid();
        let (fe, fnn, k0) = (vk::real("fe", -1e7, 1e7), vk::real("fn", -1e7, 1e7), vk::real("k0", 0.5, 1.5));
        let (lon0, lon) = (vk::real("lon0", -1.0, 1.0), vk::real("lon", -2.0, 2.0));
        vk::assume((lon - lon0).abs() < 1.2);
        let lat = vk::real("lat", -1.5707, 1.5707);
        let h = vk::real("h", -1e4, 1e5);
        let p = ProjectionSpec::TransverseMercator { lon0: Lon::new(rad(lon0)), lat0: Lat::ZERO, k0, false_easting: m(fe), false_northing: m(fnn) }.applied_to(&el);
        let k = consts(a, f);
        match p.proj(llh(Lon::new(rad(lon)), Lat::new(rad(lat)), h)) {
            Ok(o) => {
                let (eta, xi) = series(&k, lat, lon - lon0);
                vk::eq("easting", o.easting.m(), fe + k0 * k.b * eta, 1e-6);
                vk::eq("northing", o.northing.m(), fnn + k0 * k.b * xi, 1e-6);
                vk::eq("height", o.height.m(), h, 0.0);
            }
            Err(_) => vk::ok("defined", false),
        }
    }
    /// any latitude of origin: the northing is counted from the parallel of origin
    fn h_origin_latitude() {
        let (el, a, f) = any_ellipsoid();
        let k0 = vk::real("k0", 0.5, 1.5);
        let fnn = vk::real("fn", -1e7, 1e7);
        let l0 = match vk::choice("origin", 4) {
            0 => PI_2,
            1 => -PI_2,
            2 => 0.0,
            _ => vk::real("lat0", -1.5707, 1.5707),
        };
        let lat = vk::real("lat", -1.5707, 1.5707);
        let spec = |lat0: Lat| ProjectionSpec::TransverseMercator { lon0: Lon::ZERO, lat0, k0, false_easting: m(0.0), false_northing: m(fnn) };
        let dlon = vk::real("dlon", -1.2, 1.2);
        let q = llh(Lon::new(rad(dlon)), Lat::new(rad(lat)), 0.0);
        let k = consts(a, f);
        // at the poles the conformal latitude is the latitude
        let m0 = if l0.abs() == PI_2 { k.b * l0 } else { meridian(&k, l0) };
        match (spec(Lat::new(rad(l0))).applied_to(&el).proj(q), spec(Lat::ZERO).applied_to(&el).proj(q)) {
            (Ok(o), Ok(z)) => {
                vk::eq("northing from the parallel of origin", o.northing.m() - z.northing.m(), -k0 * m0, 1e-6);
                vk::eq("easting does not depend on it", o.easting.m(), z.easting.m(), 1e-9);
            }
            _ => vk::ok("defined", false),
        }
    }
    fn h_inverse() {
        let (el, a, f) = any_ellipsoid();
        let (fe, fnn, k0) = (vk::real("fe", -1e7, 1e7), vk::real("fn", -1e7, 1e7), vk::real("k0", 0.5, 1.5));
        let lon0 = any_lon("lon0");
        let (e, n) = (vk::real("e", -3e6, 3e6), vk::real("n", -9e6, 9e6));
        let h = vk::real("h", -1e4, 1e5);
        let p = ProjectionSpec::TransverseMercator { lon0, lat0: Lat::ZERO, k0, false_easting: m(fe), false_northing: m(fnn) }.applied_to(&el);
        let k = consts(a, f);
        let r = p.unproj(ENH { easting: m(e), northing: m(n), height: m(h) });
        let (y, x) = ((e - fe) / (k.b * k0), (n - fnn) / (k.b * k0));
        vk::assume(y.abs() < 0.6 && x.abs() < 1.5);
        let xi = x - (k.hp[0] * (2.0 * x).sin() * (2.0 * y).cosh() + k.hp[1] * (4.0 * x).sin() * (4.0 * y).cosh() + k.hp[2] * (6.0 * x).sin() * (6.0 * y).cosh() + k.hp[3] * (8.0 * x).sin() * (8.0 * y).cosh());
        let eta = y - (k.hp[0] * (2.0 * x).cos() * (2.0 * y).sinh() + k.hp[1] * (4.0 * x).cos() * (4.0 * y).sinh() + k.hp[2] * (6.0 * x).cos() * (6.0 * y).sinh() + k.hp[3] * (8.0 * x).cos() * (8.0 * y).sinh());
        let b = (xi.sin() / eta.cosh()).asin();
        match r {
            Ok(l) => {
                vk::cong("longitude", l.lon.angle().rad(), lon0.angle().rad() + (eta.tanh() / b.cos()).asin(), TAU, 1e-8);
                // the isometric latitude solves Q'' = Q' + e atanh(e tanh Q'')
                let q = l.lat.angle().rad().tan().asinh();
                vk::near("latitude", q, b.tan().asinh() + k.e * (k.e * q.tanh()).atanh(), 1e-7);
                vk::eq("height", l.height.m(), h, 0.0);
            }
            Err(_) => (),
        }
    }
    fn h_round_trip() {
        let (el, _, _) = ellipsoid(150.0);
        let spec = ProjectionSpec::TransverseMercator {
            lon0: any_lon("lon0"),
            lat0: any_lat("lat0"),
            k0: vk::real("k0", 0.5, 1.5),
            false_easting: m(vk::real("fe", -1e6, 1e6)),
            false_northing: m(vk::real("fn", -1e6, 1e6)),
        };
        let p = spec.applied_to(&el);
        let lon = any_lon("lon0") + rad(vk::real("dlon", -0.6, 0.6));
        let lat = any_lat("lat");
        let h = vk::real("h", -1e4, 1e5);
        match p.proj(llh(lon, lat, h)) {
            Ok(o) => match p.unproj(o) {
                Ok(LLH { lon: l, lat: t, height }) => {
                    let c = lat.angle().rad().cos();
                    vk::near("longitude returns", (l.angle().rad() - lon.angle().rad()).sin() * c, 0.0, 2e-8);
                    vk::near("longitude returns on the same side", (l.angle().rad() - lon.angle().rad()).cos() * c, c, 2e-8);
                    vk::near("latitude returns", t.angle().rad(), lat.angle().rad(), 2e-8);
                    vk::eq("height returns", height.m(), h, 0.0);
                }
                Err(_) => vk::ok("inverse defined", false),
            },
            Err(_) => vk::ok("defined", false),
        }
    }
    fn h_utm() {
        let (el, _, _) = any_ellipsoid();
        let z = vk::choice("zone - 1", 60) as u8 + 1;
        let south = vk::choice("south", 2) == 1;
        let c = -183.0 + 6.0 * z as f64;
        let u = if south { ProjectionSpec::UTMSouth { zone: z } } else { ProjectionSpec::UTMNorth { zone: z } };
        let t = ProjectionSpec::TransverseMercator {
            lon0: Lon::new((c) * geokit::units::angle::DEG),
            lat0: Lat::ZERO,
            k0: 0.9996,
            false_easting: m(500_000.0),
            false_northing: m(if south { 10_000_000.0 } else { 0.0 }),
        };
        let q = llh(Lon::new(((c + vk::real("dlon", -3.0, 3.0))) * geokit::units::angle::DEG), any_lat("lat"), 0.0);
        match (u.applied_to(&el).proj(q), t.applied_to(&el).proj(q)) {
            (Ok(x), Ok(y)) => {
                vk::eq("easting", x.easting.m(), y.easting.m(), 1e-6);
                vk::eq("northing", x.northing.m(), y.northing.m(), 1e-6);
            }
            _ => vk::ok("defined", false),
        }
    }
    fn h_utm_inverse() {
        let (el, _, _) = any_ellipsoid();
        let z = vk::choice("zone - 1", 60) as u8 + 1;
        let south = vk::choice("south", 2) == 1;
        let (e, n) = (vk::real("e", 1e5, 9e5), vk::real("n", 1e5, 9e6));
        let u = if south { ProjectionSpec::UTMSouth { zone: z } } else { ProjectionSpec::UTMNorth { zone: z } };
        let t = ProjectionSpec::TransverseMercator {
            lon0: Lon::new(((-183.0 + 6.0 * z as f64)) * geokit::units::angle::DEG),
            lat0: Lat::ZERO,
            k0: 0.9996,
            false_easting: m(500_000.0),
            false_northing: m(if south { 10_000_000.0 } else { 0.0 }),
        };
        let q = ENH { easting: m(e), northing: m(n), height: m(0.0) };
        match (u.applied_to(&el).unproj(q), t.applied_to(&el).unproj(q)) {
            (Ok(x), Ok(y)) => {
                vk::eq("longitude", x.lon.angle().rad(), y.lon.angle().rad(), 1e-9);
                vk::eq("latitude", x.lat.angle().rad(), y.lat.angle().rad(), 1e-9);
            }
            (Err(_), Err(_)) => (),
            _ => vk::ok("defined alike", false),
        }
    }
}
