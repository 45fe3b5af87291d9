//! C20: tolerance comparisons.
use crate::spec::*;
use crate::vk;
use approx::AbsDiffEq;
use geokit::cs::azimuth::Azimuth;
use geokit::cs::cartesian::geocentric::{approx_eq_xyz, XYZ};
use geokit::cs::cartesian::projected::{ProjectedTolerance, ENH};
use geokit::cs::cartesian::CartesianTolerance;
use geokit::cs::geodetic::{approx_eq_llh, GeodeticTolerance, Lat, Lon, LLH};
use geokit::quantities::angle::Angle;
use geokit::quantities::length::Length;

/// result of a comparison against `inside`
fn iff(id: &'static str, res: bool, inside: bool) {
    vk::ok(id, res == inside);
}
/// smallest rotation between two angles of [-pi, pi]
fn turn(a: f64, b: f64) -> f64 {
    let d = (a - b).abs();
    if d > PI { TAU - d } else { d }
}
/// a tolerance that the difference does not exactly equal (rounding of pi)
fn clear(d: f64, tol: f64) {
    vk::assume(d == 0.0 || (d - tol).abs() > 1e-14);
}

harness! {
    fn h_length() {
        let (a, b, t) = (vk::real("a", -1e7, 1e7), vk::real("b", -1e7, 1e7), vk::real("tol", 0.0, 1e4));
        iff("length", m(a).abs_diff_eq(&m(b), m(t)), (a - b).abs() <= t);
        iff("at the tolerance", m(t).abs_diff_eq(&m(0.0), m(t)), true);
        iff("reflexive", m(a).abs_diff_eq(&m(a), m(0.0)), true);
    }
    fn h_angle() {
        let (a, b, t) = (vk::real("a", -7.0, 7.0), vk::real("b", -7.0, 7.0), vk::real("tol", 0.0, 2.0));
        iff("angle", rad(a).abs_diff_eq(&rad(b), rad(t)), (a - b).abs() <= t);
        iff("at the tolerance", rad(t).abs_diff_eq(&rad(0.0), rad(t)), true);
        iff("reflexive", rad(a).abs_diff_eq(&rad(a), rad(0.0)), true);
    }
    fn h_lat() {
        let (a, b, t) = (any_lat("a"), any_lat("b"), vk::real("tol", 0.0, 2.0));
        iff("latitude", a.abs_diff_eq(&b, rad(t)), (a.angle().rad() - b.angle().rad()).abs() <= t);
        iff("reflexive", a.abs_diff_eq(&a, rad(0.0)), true);
    }
    fn h_lon() {
        let (a, b, t) = (any_lon("a"), any_lon("b"), vk::real("tol", 0.0, 4.0));
        let d = turn(a.angle().rad(), b.angle().rad());
        clear(d, t);
        iff("longitude around the circle", a.abs_diff_eq(&b, rad(t)), d <= t);
        iff("symmetric", b.abs_diff_eq(&a, rad(t)), d <= t);
        iff("reflexive", a.abs_diff_eq(&a, rad(0.0)), true);
    }
    fn h_lon_antimeridian() {
        iff("-180 and 180 are the same", Lon::MIN.abs_diff_eq(&Lon::MAX, rad(1e-15)), true);
        iff("180 and -180 are the same", Lon::MAX.abs_diff_eq(&Lon::MIN, rad(1e-15)), true);
    }
    fn h_azimuth() {
        let (x, y, t) = (vk::real("a", -3.14159, PI), vk::real("b", -3.14159, PI), vk::real("tol", 0.0, 4.0));
        let (a, b) = (Azimuth::new(rad(x)), Azimuth::new(rad(y)));
        let d = turn(x, y);
        clear(d, t);
        iff("azimuth around the circle", a.abs_diff_eq(&b, rad(t)), d <= t);
        iff("symmetric", b.abs_diff_eq(&a, rad(t)), d <= t);
        iff("reflexive", a.abs_diff_eq(&a, rad(0.0)), true);
    }
    fn h_llh() {
        let (a, b) = (llh(any_lon("lon1"), any_lat("lat1"), vk::real("h1", -1e4, 1e4)), llh(any_lon("lon2"), any_lat("lat2"), vk::real("h2", -1e4, 1e4)));
        let (tl, tp, th) = (vk::real("tol lon", 0.0, 4.0), vk::real("tol lat", 0.0, 4.0), vk::real("tol h", 0.0, 1e4));
        let tol = GeodeticTolerance { lon: rad(tl), lat: rad(tp), height: m(th) };
        let d = turn(a.lon.angle().rad(), b.lon.angle().rad());
        clear(d, tl);
        let want = d <= tl && (a.lat.angle().rad() - b.lat.angle().rad()).abs() <= tp && (a.height.m() - b.height.m()).abs() <= th;
        iff("LLH", a.approx_eq(&b, tol), want);
    }
    fn h_llh_verbose() {
        let (a, b) = (llh(any_lon("lon1"), any_lat("lat1"), vk::real("h1", -1e4, 1e4)), llh(any_lon("lon2"), any_lat("lat2"), vk::real("h2", -1e4, 1e4)));
        let (tl, tp, th) = (vk::real("tol lon", 0.0, 4.0), vk::real("tol lat", 0.0, 4.0), vk::real("tol h", 0.0, 1e4));
        let tol = GeodeticTolerance { lon: rad(tl), lat: rad(tp), height: m(th) };
        let d = turn(a.lon.angle().rad(), b.lon.angle().rad());
        clear(d, tl);
        let want = d <= tl && (a.lat.angle().rad() - b.lat.angle().rad()).abs() <= tp && (a.height.m() - b.height.m()).abs() <= th;
        iff("approx_eq_llh", approx_eq_llh(a, b, tol), want);
    }
    fn h_llh_reflexive() {
        let a = llh(any_lon("lon1"), any_lat("lat1"), vk::real("h1", -1e4, 1e4));
        let tol = GeodeticTolerance { lon: Angle::ZERO, lat: Angle::ZERO, height: Length::ZERO };
        iff("LLH equals itself with no tolerance", a.approx_eq(&a, tol), true);
    }
    fn h_xyz() {
        let (a, b) = (
            XYZ { x: m(vk::real("x1", -7e6, 7e6)), y: m(vk::real("y1", -7e6, 7e6)), z: m(vk::real("z1", -7e6, 7e6)) },
            XYZ { x: m(vk::real("x2", -7e6, 7e6)), y: m(vk::real("y2", -7e6, 7e6)), z: m(vk::real("z2", -7e6, 7e6)) },
        );
        let t = vk::real("tol", 0.0, 1e7);
        let tol = CartesianTolerance { all: m(t) };
        let want = (a.x.m() - b.x.m()).abs() <= t && (a.y.m() - b.y.m()).abs() <= t && (a.z.m() - b.z.m()).abs() <= t;
        iff("XYZ", a.approx_eq(b, tol), want);
        iff("approx_eq_xyz", approx_eq_xyz(a, b, tol), want);
        iff("XYZ reflexive", a.approx_eq(a, CartesianTolerance { all: m(0.0) }), true);
    }
    fn h_enh() {
        let (a, b) = (
            ENH { easting: m(vk::real("e1", -7e6, 7e6)), northing: m(vk::real("n1", -7e6, 7e6)), height: m(vk::real("h1", -1e4, 1e4)) },
            ENH { easting: m(vk::real("e2", -7e6, 7e6)), northing: m(vk::real("n2", -7e6, 7e6)), height: m(vk::real("h2", -1e4, 1e4)) },
        );
        let (t, th) = (vk::real("tol", 0.0, 1e7), vk::real("tol h", 0.0, 1e4));
        let tol = ProjectedTolerance { horiz: m(t), height: m(th) };
        let want = (a.easting.m() - b.easting.m()).abs() <= t && (a.northing.m() - b.northing.m()).abs() <= t && (a.height.m() - b.height.m()).abs() <= th;
        iff("ENH", a.approx_eq(b, tol), want);
        iff("ENH reflexive", a.approx_eq(a, ProjectedTolerance { horiz: m(0.0), height: m(0.0) }), true);
    }
    fn h_values() {
        for (id, a, l, t) in [
            ("tiny", 1e-12, 1e-4, GeodeticTolerance::tiny()),
            ("small", 1e-9, 1e-3, GeodeticTolerance::small()),
            ("default", 1e-12, 1e-4, GeodeticTolerance::default()),
        ] {
            vk::near(id, t.lon.rad(), a, 1e-24);
            vk::near(id, t.lat.rad(), a, 1e-24);
            vk::near(id, t.height.m(), l, 1e-16);
        }
        vk::near("cartesian tiny", CartesianTolerance::tiny().all.m(), 1e-4, 1e-16);
        vk::near("cartesian small", CartesianTolerance::small().all.m(), 1e-3, 1e-16);
        vk::near("cartesian default", CartesianTolerance::default().all.m(), 1e-4, 1e-16);
        vk::near("projected tiny", ProjectedTolerance::tiny().horiz.m(), 1e-4, 1e-16);
        vk::near("projected tiny", ProjectedTolerance::tiny().height.m(), 1e-4, 1e-16);
        vk::near("projected small", ProjectedTolerance::small().horiz.m(), 1e-3, 1e-16);
        vk::near("projected small", ProjectedTolerance::small().height.m(), 1e-3, 1e-16);
        vk::near("angle default", <Angle as AbsDiffEq>::default_epsilon().rad(), 1e-12, 1e-24);
        vk::near("lon default", <Lon as AbsDiffEq>::default_epsilon().rad(), 1e-12, 1e-24);
        vk::near("lat default", <Lat as AbsDiffEq>::default_epsilon().rad(), 1e-12, 1e-24);
        vk::near("azimuth default", <Azimuth as AbsDiffEq>::default_epsilon().rad(), 1e-12, 1e-24);
        vk::near("length default", <Length as AbsDiffEq>::default_epsilon().m(), 1e-4, 1e-16);
        vk::near("TINY", Angle::TINY.rad(), 1e-12, 1e-24);
        vk::near("SMALL", Angle::SMALL.rad(), 1e-9, 1e-21);
        vk::near("TINY", Length::TINY.m(), 1e-4, 1e-16);
        vk::near("SMALL", Length::SMALL.m(), 1e-3, 1e-16);
    }
}
