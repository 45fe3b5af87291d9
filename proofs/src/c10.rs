//! C10: Mercator (EPSG 9804, 9805) and Web Mercator (EPSG 1024).
use crate::spec::*;
use crate::vk;
use geokit::cs::cartesian::projected::ENH;
use geokit::cs::geodetic::LLH;
use geokit::geodesy::Ellipsoid;
use geokit::projections::{Projection, ProjectionSpec};

/// (ellipsoid, a, e^2)
fn any_ellipsoid() -> (Ellipsoid, f64, f64) {
    ellipsoid(20.0)
}
fn ellipsoid(least_invf: f64) -> (Ellipsoid, f64, f64) {
    let a = vk::real("a", 6.3e6, 6.4e6);
    match vk::choice("sphere", 2) {
        0 => {
            let i = vk::real("invf", least_invf, 1000.0);
            let f = 1.0 / i;
            (Ellipsoid::from_ainvf("e", m(a), i), a, f * (2.0 - f))
        }
        _ => (Ellipsoid::from_ab("s", m(a), m(a)), a, 0.0),
    }
}
struct P {
    fe: f64,
    fnn: f64,
    lon0: f64,
    k0: f64,
    a: f64,
    e2: f64,
    p: Box<dyn Projection>,
}
fn variant_a(least_invf: f64) -> P {
    let (el, a, e2) = ellipsoid(least_invf);
    let (fe, fnn) = (vk::real("fe", -1e7, 1e7), vk::real("fn", -1e7, 1e7));
    let lon0 = any_lon("lon0");
    let k0 = vk::real("k0", 0.5, 1.5);
    let p = ProjectionSpec::Mercator1SP { lon0, k0, false_easting: m(fe), false_northing: m(fnn) }.applied_to(&el);
    P { fe, fnn, lon0: lon0.angle().rad(), k0, a, e2, p }
}
fn variant_b(least_invf: f64) -> P {
    let (el, a, e2) = ellipsoid(least_invf);
    let (fe, fnn) = (vk::real("fe", -1e7, 1e7), vk::real("fn", -1e7, 1e7));
    let lon0 = any_lon("lon0");
    let q = vk::real("lat0", 0.0, 1.4);
    let l0 = if vk::choice("southern parallel", 2) == 0 { q } else { -q };
    let k0 = l0.cos() / (1.0 - e2 * l0.sin() * l0.sin()).sqrt();
    let p = ProjectionSpec::Mercator2SP { lon0, lat0: geokit::cs::geodetic::Lat::new(rad(l0)), false_easting: m(fe), false_northing: m(fnn) }.applied_to(&el);
    P { fe, fnn, lon0: lon0.angle().rad(), k0, a, e2, p }
}
fn forward(p: P, e: f64) {
    let lon = any_lon("lon");
    let phi = vk::real("lat", -1.5707, 1.5707);
    let h = vk::real("h", -1e4, 1e5);
    match p.p.proj(llh(lon, geokit::cs::geodetic::Lat::new(rad(phi)), h)) {
        Ok(o) => {
            vk::cong("easting is FE + a k0 (lon - lon0)", o.easting.m() - p.fe, p.a * p.k0 * (lon.angle().rad() - p.lon0), TAU * p.a * p.k0, 1e-6);
            vk::le("easting the short way round", (o.easting.m() - p.fe).abs(), p.a * p.k0 * PI, 1e-6);
            let s = e * phi.sin();
            let t = (PI / 4.0 + phi / 2.0).tan() * ((1.0 - s) / (1.0 + s)).powf(e / 2.0);
            vk::eq("northing", o.northing.m(), p.fnn + p.a * p.k0 * t.ln(), 1e-5 + 1e-12 * p.a / phi.cos());
            vk::eq("height", o.height.m(), h, 0.0);
        }
        Err(_) => vk::ok("defined", false),
    }
}
fn inverse(p: P) {
    let (x, y, h) = (vk::real("x", -3.0, 3.0), vk::real("y", -3.0, 3.0), vk::real("h", -1e4, 1e5));
    // easting and northing given by their angular values
    let ak = p.a * p.k0;
    match p.p.unproj(ENH { easting: m(p.fe + ak * x), northing: m(p.fnn + ak * y), height: m(h) }) {
        Ok(l) => {
            vk::cong("longitude is lon0 + (E - FE)/(a k0)", l.lon.angle().rad(), p.lon0 + x, TAU, 1e-8);
            let t = (-y).exp();
            let c = PI_2 - 2.0 * t.atan();
            let (e2, e4) = (p.e2, p.e2 * p.e2);
            let (e6, e8) = (e4 * p.e2, e4 * e4);
            let lat = c
                + (e2 / 2.0 + 5.0 * e4 / 24.0 + e6 / 12.0 + 13.0 * e8 / 360.0) * (2.0 * c).sin()
                + (7.0 * e4 / 48.0 + 29.0 * e6 / 240.0 + 811.0 * e8 / 11520.0) * (4.0 * c).sin()
                + (7.0 * e6 / 120.0 + 81.0 * e8 / 1120.0) * (6.0 * c).sin()
                + 4279.0 * e8 / 161280.0 * (8.0 * c).sin();
            vk::eq("latitude", l.lat.angle().rad(), lat, 1e-8);
            vk::eq("height", l.height.m(), h, 0.0);
        }
        Err(_) => vk::ok("defined", false),
    }
}
fn back_lon(p: P) {
    let lon = any_lon("lon");
    let lat = any_lat("lat");
    vk::assume(lat.angle().rad().abs() <= 1.5707);
    let h = vk::real("h", -1e4, 1e5);
    match p.p.proj(llh(lon, lat, h)) {
        Ok(o) => match p.p.unproj(o) {
            Ok(LLH { lon: l, height, .. }) => {
                vk::cong("longitude returns", l.angle().rad(), lon.angle().rad(), TAU, 1e-8);
                vk::eq("height returns", height.m(), h, 0.0);
            }
            Err(_) => vk::ok("inverse defined", false),
        },
        Err(_) => vk::ok("defined", false),
    }
}
fn back(p: P, tol: f64) {
    let lon = any_lon("lon");
    let phi = vk::real("lat", -1.5, 1.5);
    let h = vk::real("h", -1e4, 1e5);
    match p.p.proj(llh(lon, geokit::cs::geodetic::Lat::new(rad(phi)), h)) {
        Ok(o) => match p.p.unproj(o) {
            Ok(LLH { lon: l, lat, height }) => {
                vk::cong("longitude returns", l.angle().rad(), lon.angle().rad(), TAU, 1e-8);
                vk::near("latitude returns", lat.angle().rad(), phi, tol);
                vk::eq("height returns", height.m(), h, 0.0);
            }
            Err(_) => vk::ok("inverse defined", false),
        },
        Err(_) => vk::ok("defined", false),
    }
}
fn web() -> P {
    let (el, a, _) = any_ellipsoid();
    let (fe, fnn) = (vk::real("fe", -1e7, 1e7), vk::real("fn", -1e7, 1e7));
    let lon0 = any_lon("lon0");
    let p = ProjectionSpec::WebMercator { lon0, lat0: geokit::cs::geodetic::Lat::ZERO, false_easting: m(fe), false_northing: m(fnn) }.applied_to(&el);
    P { fe, fnn, lon0: lon0.angle().rad(), k0: 1.0, a, e2: 0.0, p }
}

harness! {
    fn h_1sp_forward() {
        let p = variant_a(20.0);
        let e = p.e2.sqrt();
        forward(p, e);
    }
    fn h_2sp_forward() {
        let p = variant_b(20.0);
        let e = p.e2.sqrt();
        forward(p, e);
    }
    fn h_1sp_inverse() {
        inverse(variant_a(20.0));
    }
    fn h_2sp_inverse() {
        inverse(variant_b(20.0));
    }
    fn h_1sp_round_trip() {
        back(variant_a(150.0), 2e-9);
    }
    fn h_2sp_round_trip() {
        back(variant_b(150.0), 2e-9);
    }
    fn h_1sp_lon_round_trip() {
        back_lon(variant_a(20.0));
    }
    fn h_2sp_lon_round_trip() {
        back_lon(variant_b(20.0));
    }
    /// the scale along the standard parallel of variant B is one
    fn h_2sp_true_scale() {
        let (el, _a, _e2) = any_ellipsoid();
        let q = vk::real("lat0", 0.0, 1.4);
        let lat0 = geokit::cs::geodetic::Lat::new(rad(if vk::choice("southern parallel", 2) == 0 { q } else { -q }));
        let l = vk::real("lon", -3.0, 3.0);
        let p = ProjectionSpec::Mercator2SP { lon0: geokit::cs::geodetic::Lon::ZERO, lat0, false_easting: m(0.0), false_northing: m(0.0) }.applied_to(&el);
        match p.proj(llh(geokit::cs::geodetic::Lon::new(rad(l)), lat0, 0.0)) {
            Ok(o) => vk::eq("distance along the standard parallel", o.easting.m(), el.prime_vertical_radius(lat0).m() * lat0.cos() * l, 1e-5),
            Err(_) => vk::ok("defined", false),
        }
    }
    fn h_web_forward() {
        forward(web(), 0.0);
    }
    fn h_web_inverse() {
        inverse(web());
    }
    fn h_web_round_trip() {
        let p = web();
        let lon = any_lon("lon");
        let phi = vk::real("lat", -1.5, 1.5);
        let h = vk::real("h", -1e4, 1e5);
        match p.p.proj(llh(lon, geokit::cs::geodetic::Lat::new(rad(phi)), h)) {
            Ok(o) => match p.p.unproj(o) {
                Ok(LLH { lon: l, lat, height }) => {
                    vk::cong("longitude returns", l.angle().rad(), lon.angle().rad(), TAU, 1e-8);
                    vk::eq("latitude returns", lat.angle().rad(), phi, 1e-8);
                    vk::eq("height returns", height.m(), h, 0.0);
                }
                Err(_) => vk::ok("inverse defined", false),
            },
            Err(_) => vk::ok("defined", false),
        }
    }
    /// the parameters given in the specification are the ones used
    fn h_origin() {
        let (el, _, _) = any_ellipsoid();
        let lon0 = any_lon("lon0");
        let (fe, fnn) = (vk::real("fe", -1e7, 1e7), vk::real("fn", -1e7, 1e7));
        let lat0 = geokit::cs::geodetic::Lat::new(rad(vk::real("lat0", -1.4, 1.4)));
        let (false_easting, false_northing) = (m(fe), m(fnn));
        let s = match vk::choice("projection", 3) {
            0 => ProjectionSpec::Mercator1SP { lon0, k0: vk::real("k0", 0.5, 1.5), false_easting, false_northing },
            1 => ProjectionSpec::Mercator2SP { lon0, lat0, false_easting, false_northing },
            _ => ProjectionSpec::WebMercator { lon0, lat0, false_easting, false_northing },
        };
        match s.applied_to(&el).proj(llh(lon0, geokit::cs::geodetic::Lat::ZERO, 0.0)) {
            Ok(o) => {
                vk::eq("the origin has the false easting", o.easting.m(), fe, 1e-7);
                vk::eq("the equator has the false northing", o.northing.m(), fnn, 1e-7);
            }
            Err(_) => vk::ok("defined", false),
        }
    }
}
