//! C04: axes.
use crate::spec::*;
use crate::vk;
use geokit::cs::cartesian::geocentric::{GeocentricAxes, XYZ};
use geokit::cs::cartesian::projected::{ProjectedAxes, ProjectedTolerance, ENH};
use geokit::cs::cartesian::CartesianTolerance;
use geokit::cs::geodetic::{GeodeticAxes, GeodeticTolerance};

fn rt(x: f64) -> f64 {
    2e-13 * x.abs()
}

const SENTINEL: f64 = 12345.678;

harness! {
    /// user -> normalized -> user, and what is read
    fn h_geodetic_normalize() {
        let (u, f) = any_angle_unit("angle unit");
        let (hu, g) = any_length_unit("height unit");
        // the two angles, in radians, and the height
        let lon = vk::real("lon", -PI, PI);
        let lat = vk::real("lat", -PI_2, PI_2);
        let h = vk::real("h", -1e7, 1e7);
        let (axes, c, n, has_h) = match vk::choice("axes", 5) {
            0 => (GeodeticAxes::EastNorthUp { angle_unit: u, height_unit: hu }, [lon / f, lat / f, h / g], 3, true),
            1 => (GeodeticAxes::NorthEastUp { angle_unit: u, height_unit: hu }, [lat / f, lon / f, h / g], 3, true),
            2 => (GeodeticAxes::EastNorth { angle_unit: u }, [lon / f, lat / f, h], 2, false),
            3 => (GeodeticAxes::NorthEast { angle_unit: u }, [lat / f, lon / f, h], 2, false),
            _ => (GeodeticAxes::NorthWest { angle_unit: u }, [lat / f, -lon / f, h], 2, false),
        };
        vk::ok("dimension", axes.dim() == n);
        let p = axes.normalize(&c[0..n]);
        vk::cong("longitude", p.lon.angle().rad(), lon, TAU, 1e-14);
        vk::eq("latitude", p.lat.angle().rad(), lat, 1e-14);
        vk::eq("height", p.height.m(), if has_h { h } else { 0.0 }, rt(h));
        // coordinates beyond the dimension are not read
        let x = vk::real("beyond", -1e3, 1e3);
        let p4 = axes.normalize(&if has_h { [c[0], c[1], c[2], x] } else { [c[0], c[1], x, x] });
        vk::eq("same longitude from a longer slice", p4.lon.angle().rad(), p.lon.angle().rad(), 0.0);
        vk::eq("same latitude from a longer slice", p4.lat.angle().rad(), p.lat.angle().rad(), 0.0);
        vk::eq("same height from a longer slice", p4.height.m(), p.height.m(), 0.0);
        let mut o = [SENTINEL; 4];
        axes.denormalize(p, &mut o);
        // a longitude of -180 may come back as 180 and conversely
        let lon_at = match vk::choice("axes", 5) { 0 | 2 => 0, _ => 1 };
        vk::cong("first coordinate returns", o[0], c[0], if lon_at == 0 { TAU / f } else { 1e9 }, 1e-12 / f);
        vk::cong("second coordinate returns", o[1], c[1], if lon_at == 1 { TAU / f } else { 1e9 }, 1e-12 / f);
        vk::eq("third coordinate", o[2], if has_h { c[2] } else { SENTINEL }, rt(c[2]));
        vk::eq("nothing written beyond the dimension", o[3], SENTINEL, 0.0);
    }
    /// normalized -> user, position, direction and unit of each coordinate; and back
    fn h_geodetic_denormalize() {
        let (u, f) = any_angle_unit("angle unit");
        let (hu, g) = any_length_unit("height unit");
        let lon = vk::real("lon", -PI, PI);
        let lat = vk::real("lat", -PI_2, PI_2);
        let h = vk::real("h", -1e7, 1e7);
        let (axes, n, w) = match vk::choice("axes", 5) {
            0 => (GeodeticAxes::EastNorthUp { angle_unit: u, height_unit: hu }, 3, [lon / f, lat / f, h / g]),
            1 => (GeodeticAxes::NorthEastUp { angle_unit: u, height_unit: hu }, 3, [lat / f, lon / f, h / g]),
            2 => (GeodeticAxes::EastNorth { angle_unit: u }, 2, [lon / f, lat / f, SENTINEL]),
            3 => (GeodeticAxes::NorthEast { angle_unit: u }, 2, [lat / f, lon / f, SENTINEL]),
            _ => (GeodeticAxes::NorthWest { angle_unit: u }, 2, [lat / f, -lon / f, SENTINEL]),
        };
        let p = llh(any_lon("lon"), any_lat("lat"), h);
        let mut o = [SENTINEL; 4];
        axes.denormalize(p, &mut o);
        vk::eq("first coordinate", o[0], w[0], rt(w[0]));
        vk::eq("second coordinate", o[1], w[1], rt(w[1]));
        vk::eq("third coordinate", o[2], w[2], rt(w[2]));
        vk::eq("nothing written beyond the dimension", o[3], SENTINEL, 0.0);
        let q = axes.normalize(&o[0..n]);
        vk::cong("longitude returns", q.lon.angle().rad(), lon, TAU, 1e-13);
        vk::eq("latitude returns", q.lat.angle().rad(), lat, 1e-13);
        vk::eq("height returns", q.height.m(), if n == 3 { h } else { 0.0 }, rt(h));
    }
    fn h_geodetic_out_of_range() {
        // out of range angles are wrapped (longitude) and clamped (latitude) in the unit of the axes
        let (u, f) = any_angle_unit("angle unit");
        let x = vk::real("x", -1e4, 1e4);
        let y = vk::real("y", -1e4, 1e4);
        let (axes, c, lon) = match vk::choice("axes", 3) {
            0 => (GeodeticAxes::EastNorth { angle_unit: u }, [x, y], x * f),
            1 => (GeodeticAxes::NorthEast { angle_unit: u }, [y, x], x * f),
            _ => (GeodeticAxes::NorthWest { angle_unit: u }, [y, x], -x * f),
        };
        let p = axes.normalize(&c);
        vk::cong("longitude is wrapped", p.lon.angle().rad(), lon, TAU, 1e-10);
        let lat = y * f;
        let want = if lat > PI_2 { PI_2 } else if lat < -PI_2 { -PI_2 } else { lat };
        vk::eq("latitude is clamped", p.lat.angle().rad(), want, 1e-14);
    }
    fn h_geodetic_tol() {
        let (u, f) = any_angle_unit("angle unit");
        let (hu, g) = any_length_unit("height unit");
        let tl = vk::real("tlon", 0.0, 1.0);
        let tp = vk::real("tlat", 0.0, 1.0);
        let th = vk::real("th", 0.0, 1e6);
        let t = GeodeticTolerance { lon: rad(tl), lat: rad(tp), height: m(th) };
        let (axes, n, w) = match vk::choice("axes", 5) {
            0 => (GeodeticAxes::EastNorthUp { angle_unit: u, height_unit: hu }, 3, [tl / f, tp / f, th / g]),
            1 => (GeodeticAxes::NorthEastUp { angle_unit: u, height_unit: hu }, 3, [tp / f, tl / f, th / g]),
            2 => (GeodeticAxes::EastNorth { angle_unit: u }, 2, [tl / f, tp / f, 0.0]),
            3 => (GeodeticAxes::NorthEast { angle_unit: u }, 2, [tp / f, tl / f, 0.0]),
            _ => (GeodeticAxes::NorthWest { angle_unit: u }, 2, [tp / f, tl / f, 0.0]),
        };
        let o = axes.denormalize_tol(t);
        vk::ok("one tolerance per coordinate", o.len() == n);
        vk::eq("first", o[0], w[0], rt(w[0]));
        vk::eq("second", o[1], w[1], rt(w[1]));
        if n == 3 {
            vk::eq("third", o[2], w[2], rt(w[2]));
        }
    }
    fn h_geodetic_default() {
        let lon = vk::real("lon", -PI, PI);
        let lat = vk::real("lat", -PI_2, PI_2);
        let h = vk::real("h", -1e7, 1e7);
        let p = GeodeticAxes::default().normalize(&[lon, lat, h]);
        vk::eq("longitude", p.lon.angle().rad(), lon, 0.0);
        vk::eq("latitude", p.lat.angle().rad(), lat, 0.0);
        vk::eq("height", p.height.m(), h, 0.0);
    }
    fn h_projected() {
        let (u, f) = any_length_unit("horizontal unit");
        let (hu, g) = any_length_unit("height unit");
        let c = [vk::real("e", -1e8, 1e8), vk::real("n", -1e8, 1e8), vk::real("h", -1e8, 1e8)];
        let (axes, n) = match vk::choice("axes", 2) {
            0 => (ProjectedAxes::EastNorthUp { horiz_unit: u, height_unit: hu }, 3),
            _ => (ProjectedAxes::EastNorth { horiz_unit: u }, 2),
        };
        vk::ok("dimension", axes.dim() == n);
        let p = axes.normalize(&c[0..n]);
        vk::eq("easting", p.easting.m(), c[0] * f, rt(c[0]));
        vk::eq("northing", p.northing.m(), c[1] * f, rt(c[1]));
        vk::eq("height", p.height.m(), if n == 3 { c[2] * g } else { 0.0 }, rt(c[2]));
        let x = vk::real("beyond", -1e3, 1e3);
        let p4 = axes.normalize(&if n == 3 { [c[0], c[1], c[2], x] } else { [c[0], c[1], x, x] });
        vk::eq("same easting from a longer slice", p4.easting.m(), p.easting.m(), 0.0);
        vk::eq("same northing from a longer slice", p4.northing.m(), p.northing.m(), 0.0);
        vk::eq("same height from a longer slice", p4.height.m(), p.height.m(), 0.0);
        let mut o = [SENTINEL; 4];
        axes.denormalize(p, &mut o);
        vk::eq("easting returns", o[0], c[0], rt(c[0]));
        vk::eq("northing returns", o[1], c[1], rt(c[1]));
        vk::eq("height returns or is untouched", o[2], if n == 3 { c[2] } else { SENTINEL }, rt(c[2]));
        vk::eq("nothing written beyond the dimension", o[3], SENTINEL, 0.0);
    }
    fn h_projected_denormalize() {
        let (u, f) = any_length_unit("horizontal unit");
        let (hu, g) = any_length_unit("height unit");
        let (e, no, h) = (vk::real("e", -1e8, 1e8), vk::real("n", -1e8, 1e8), vk::real("h", -1e8, 1e8));
        let (axes, n) = match vk::choice("axes", 2) {
            0 => (ProjectedAxes::EastNorthUp { horiz_unit: u, height_unit: hu }, 3),
            _ => (ProjectedAxes::EastNorth { horiz_unit: u }, 2),
        };
        let mut o = [SENTINEL; 4];
        axes.denormalize(ENH { easting: m(e), northing: m(no), height: m(h) }, &mut o);
        vk::eq("easting", o[0], e / f, rt(e / f));
        vk::eq("northing", o[1], no / f, rt(no / f));
        vk::eq("height", o[2], if n == 3 { h / g } else { SENTINEL }, rt(h / g));
        vk::eq("nothing written beyond the dimension", o[3], SENTINEL, 0.0);
        let t = vk::real("tolh", 0.0, 1e3);
        let tv = vk::real("tolv", 0.0, 1e3);
        let o = axes.denormalize_tol(ProjectedTolerance { horiz: m(t), height: m(tv) });
        vk::ok("one tolerance per coordinate", o.len() == n);
        vk::eq("tolerance e", o[0], t / f, rt(t / f));
        vk::eq("tolerance n", o[1], t / f, rt(t / f));
        if n == 3 {
            vk::eq("tolerance h", o[2], tv / g, rt(tv / g));
        }
    }
    fn h_geocentric() {
        let c = [vk::real("x", -1e8, 1e8), vk::real("y", -1e8, 1e8), vk::real("z", -1e8, 1e8)];
        let axes = GeocentricAxes::XYZ;
        vk::ok("dimension", axes.dim() == 3);
        let p = axes.normalize(&c);
        vk::eq("x", p.x.m(), c[0], 0.0);
        vk::eq("y", p.y.m(), c[1], 0.0);
        vk::eq("z", p.z.m(), c[2], 0.0);
        let mut o = [SENTINEL; 4];
        axes.denormalize(XYZ { x: m(c[0]), y: m(c[1]), z: m(c[2]) }, &mut o);
        vk::eq("x out", o[0], c[0], 0.0);
        vk::eq("y out", o[1], c[1], 0.0);
        vk::eq("z out", o[2], c[2], 0.0);
        vk::eq("nothing written beyond the dimension", o[3], SENTINEL, 0.0);
        let t = vk::real("tol", 0.0, 1e3);
        let o = axes.denormalize_tol(CartesianTolerance { all: m(t) });
        vk::ok("one tolerance per coordinate", o.len() == 3);
        vk::eq("tolerance x", o[0], t, 0.0);
        vk::eq("tolerance y", o[1], t, 0.0);
        vk::eq("tolerance z", o[2], t, 0.0);
    }
}
