//! C13: distances and equality in reference systems.
use crate::spec::*;
use crate::vk;
use geokit::crs::geocentric::GeocentricCrs;
use geokit::crs::geographic::GeographicCrs;
use geokit::crs::projected::ProjectedCrs;
use geokit::crs::Crs;
use geokit::cs::cartesian::geocentric::{GeocentricAxes, XYZ};
use geokit::cs::cartesian::projected::{ProjectedAxes, ENH};
use geokit::cs::geodetic::{GeodeticAxes, Lon};
use geokit::geodesy::geodesics::vincenty::VincentyGeodesicSolver;
use geokit::geodesy::geodesics::GeodesicSolver;
use geokit::geodesy::{Ellipsoid, GeodeticDatum, PrimeMeridian};
use geokit::projections::ProjectionSpec;
use geokit::units::angle::DEG;
use geokit::units::length::M;

fn wgs(pm: Lon) -> GeodeticDatum {
    GeodeticDatum::new("d", Ellipsoid::from_ainvf("e", m(6378137.0), 298.257223563), PrimeMeridian::new("p", pm))
}
fn geocentric() -> GeocentricCrs {
    GeocentricCrs { id: "g".into(), datum: wgs(Lon::ZERO), axes: GeocentricAxes::XYZ }
}
fn projected(axes: ProjectedAxes) -> ProjectedCrs {
    ProjectedCrs { id: "p".into(), datum: wgs(Lon::ZERO), axes, projection: ProjectionSpec::UTMNorth { zone: 31 } }
}
fn geographic(axes: GeodeticAxes, pm: Lon) -> GeographicCrs {
    GeographicCrs { id: "l".into(), datum: wgs(pm), axes }
}
fn dist(c: &dyn Crs, a: &[f64], b: &[f64]) -> f64 {
    match c.dist(a, b) {
        Ok(d) => d.m(),
        Err(_) => {
            vk::ok("the distance is defined", false);
            0.0
        }
    }
}
fn norm3(x: f64, y: f64, z: f64) -> f64 {
    (x * x + y * y + z * z).sqrt()
}

harness! {
    fn h_geocentric() {
        let c = geocentric();
        let (x, y, z) = (vk::real("x", -7e6, 7e6), vk::real("y", -7e6, 7e6), vk::real("z", -7e6, 7e6));
        let (u, v, w) = (vk::real("u", -7e6, 7e6), vk::real("v", -7e6, 7e6), vk::real("w", -7e6, 7e6));
        vk::ok("dimension", c.dim() == 3);
        let d = dist(&c, &[x, y, z], &[u, v, w]);
        vk::eq("straight line", d, norm3(x - u, y - v, z - w), 1e-6);
        vk::le("not negative", 0.0, d, 0.0);
        vk::eq("symmetric", dist(&c, &[u, v, w], &[x, y, z]), d, 1e-6);
        vk::eq("zero to itself", dist(&c, &[x, y, z], &[x, y, z]), 0.0, 0.0);
        vk::eq("XYZ::dist_to", XYZ { x: m(x), y: m(y), z: m(z) }.dist_to(XYZ { x: m(u), y: m(v), z: m(w) }).m(), norm3(x - u, y - v, z - w), 1e-6);
    }
    fn h_projected() {
        let (hu, f) = any_length_unit("horizontal unit");
        let (vu, g) = any_length_unit("vertical unit");
        let (e, n, h) = (vk::real("e", -1e7, 1e7), vk::real("n", -1e7, 1e7), vk::real("h", -1e4, 1e4));
        let (e2, n2, h2) = (vk::real("e2", -1e7, 1e7), vk::real("n2", -1e7, 1e7), vk::real("h2", -1e4, 1e4));
        if vk::choice("dim", 2) == 0 {
            let c = projected(ProjectedAxes::EastNorth { horiz_unit: hu });
            vk::ok("dimension", c.dim() == 2);
            let d = dist(&c, &[e, n], &[e2, n2]);
            vk::eq("planar", d, norm3((e - e2) * f, (n - n2) * f, 0.0), 1e-6);
            vk::le("not negative", 0.0, d, 0.0);
            vk::eq("symmetric", dist(&c, &[e2, n2], &[e, n]), d, 1e-6);
            vk::eq("zero to itself", dist(&c, &[e, n], &[e, n]), 0.0, 0.0);
        } else {
            let c = projected(ProjectedAxes::EastNorthUp { horiz_unit: hu, height_unit: vu });
            vk::ok("dimension", c.dim() == 3);
            let d = dist(&c, &[e, n, h], &[e2, n2, h2]);
            vk::eq("planar and vertical", d, norm3((e - e2) * f, (n - n2) * f, (h - h2) * g), 1e-6);
            vk::le("not negative", 0.0, d, 0.0);
            vk::eq("symmetric", dist(&c, &[e2, n2, h2], &[e, n, h]), d, 1e-6);
            vk::eq("zero to itself", dist(&c, &[e, n, h], &[e, n, h]), 0.0, 0.0);
        }
        let (p, q) = (ENH { easting: m(e), northing: m(n), height: m(h) }, ENH { easting: m(e2), northing: m(n2), height: m(h2) });
        vk::eq("ENH::dist_to", p.dist_to(q).m(), norm3(e - e2, n - n2, h - h2), 1e-6);
    }
    /// 3D geographic: distance of the geocentric positions
    fn h_geographic_3d() {
        let (u, f) = any_angle_unit("angle unit");
        let (vu, g) = any_length_unit("vertical unit");
        let pm = any_lon("pm");
        let (lon, lat, h) = (vk::real("lon", -3.1415, 3.1415), vk::real("lat", -1.5707, 1.5707), vk::real("h", -1e4, 1e6));
        let (lon2, lat2, h2) = (vk::real("lon2", -3.1415, 3.1415), vk::real("lat2", -1.5707, 1.5707), vk::real("h2", -1e4, 1e6));
        let (axes, a, b) = match vk::choice("axes", 2) {
            0 => (GeodeticAxes::EastNorthUp { angle_unit: u, height_unit: vu }, [lon / f, lat / f, h / g], [lon2 / f, lat2 / f, h2 / g]),
            _ => (GeodeticAxes::NorthEastUp { angle_unit: u, height_unit: vu }, [lat / f, lon / f, h / g], [lat2 / f, lon2 / f, h2 / g]),
        };
        let c = geographic(axes, pm);
        vk::ok("dimension", c.dim() == 3);
        let (na, nb) = (c.axes.normalize(&a), c.axes.normalize(&b));
        let (p, q) = (c.datum.llh_to_xyz(na), c.datum.llh_to_xyz(nb));
        let d = dist(&c, &a, &b);
        vk::eq("straight line", d, norm3(p.x.m() - q.x.m(), p.y.m() - q.y.m(), p.z.m() - q.z.m()), 1e-5);
        vk::le("not negative", 0.0, d, 0.0);
        vk::eq("zero to itself", dist(&c, &a, &a), 0.0, 0.0);
    }
    fn h_geographic_3d_symmetric() {
        let (lon, lat, h) = (vk::real("lon", -180.0, 180.0), vk::real("lat", -90.0, 90.0), vk::real("h", -1e4, 1e6));
        let (lon2, lat2, h2) = (vk::real("lon2", -180.0, 180.0), vk::real("lat2", -90.0, 90.0), vk::real("h2", -1e4, 1e6));
        let c = geographic(GeodeticAxes::EastNorthUp { angle_unit: DEG, height_unit: M }, Lon::ZERO);
        vk::eq("symmetric", dist(&c, &[lon, lat, h], &[lon2, lat2, h2]), dist(&c, &[lon2, lat2, h2], &[lon, lat, h]), 1e-6);
    }
    /// 2D geographic: length of the geodesic
    fn h_geographic_2d() {
        let (u, f) = any_angle_unit("angle unit");
        let pm = any_lon("pm");
        let (lon, lat) = (vk::real("lon", -3.1415, 3.1415), vk::real("lat", -1.5707, 1.5707));
        let (lon2, lat2) = (vk::real("lon2", -3.1415, 3.1415), vk::real("lat2", -1.5707, 1.5707));
        let (axes, a, b) = match vk::choice("axes", 3) {
            0 => (GeodeticAxes::EastNorth { angle_unit: u }, [lon / f, lat / f], [lon2 / f, lat2 / f]),
            1 => (GeodeticAxes::NorthEast { angle_unit: u }, [lat / f, lon / f], [lat2 / f, lon2 / f]),
            _ => (GeodeticAxes::NorthWest { angle_unit: u }, [lat / f, -lon / f], [lat2 / f, -lon2 / f]),
        };
        let c = geographic(axes, pm);
        vk::ok("dimension", c.dim() == 2);
        let (p, q) = (c.axes.normalize(&a), c.axes.normalize(&b));
        let g = VincentyGeodesicSolver::new(c.datum.ellipsoid()).solve_inverse((p.lon, p.lat), (q.lon, q.lat));
        match (c.dist(&a, &b), g) {
            (Ok(d), Ok(g)) => vk::eq("length of the geodesic", d.m(), g.s.m(), 1e-6),
            (Err(_), Err(_)) => vk::ok("no answer where the geodesic solver has none", true),
            _ => vk::ok("an answer exactly when the geodesic solver has one", false),
        }
    }
    /// with the real solver: metric properties
    fn h_geographic_2d_metric() {
        let (lon, lat) = (vk::real("lon", -180.0, 180.0), vk::real("lat", -90.0, 90.0));
        let (lon2, lat2) = (vk::real("lon2", -180.0, 180.0), vk::real("lat2", -90.0, 90.0));
        let c = geographic(GeodeticAxes::EastNorth { angle_unit: DEG }, Lon::ZERO);
        vk::near("zero to itself", dist(&c, &[lon, lat], &[lon, lat]), 0.0, 1e-4);
        if let Ok(d) = c.dist(&[lon, lat], &[lon2, lat2]) {
            vk::le("not negative", 0.0, d.m(), 0.0);
            vk::le("not more than half a circumference", d.m(), 20037508.35, 0.0);
            if let Ok(e) = c.dist(&[lon2, lat2], &[lon, lat]) {
                vk::near("symmetric", d.m(), e.m(), 1e-3);
            }
            // the chord is shorter than the arc, and not by more than on the sphere
            let c3 = geographic(GeodeticAxes::EastNorthUp { angle_unit: DEG, height_unit: M }, Lon::ZERO);
            let ch = dist(&c3, &[lon, lat, 0.0], &[lon2, lat2, 0.0]);
            vk::le("chord <= arc", ch, d.m(), 1e-3);
            vk::le("arc <= pi / 2 chord and a bit", d.m(), 1.6 * ch, 1e-3);
        }
    }
    fn h_approx_eq_3d() {
        let (a, b) = ([vk::real("a0", -1e7, 1e7), vk::real("a1", -1e7, 1e7), vk::real("a2", -1e7, 1e7)], [vk::real("b0", -1e7, 1e7), vk::real("b1", -1e7, 1e7), vk::real("b2", -1e7, 1e7)]);
        let t = [vk::real("t0", 0.0, 1e7), vk::real("t1", 0.0, 1e7), vk::real("t2", 0.0, 1e7)];
        let want = (a[0] - b[0]).abs() <= t[0] && (a[1] - b[1]).abs() <= t[1] && (a[2] - b[2]).abs() <= t[2];
        let (g, p, l) = (geocentric(), projected(ProjectedAxes::EastNorthUp { horiz_unit: M, height_unit: M }), geographic(GeodeticAxes::NorthEastUp { angle_unit: DEG, height_unit: M }, Lon::ZERO));
        let r = match vk::choice("crs", 3) { 0 => g.approx_eq(&a, &b, &t), 1 => p.approx_eq(&a, &b, &t), _ => l.approx_eq(&a, &b, &t) };
        vk::ok("each coordinate within its tolerance", r == want);
    }
    fn h_approx_eq_2d() {
        let (a, b) = ([vk::real("a0", -1e7, 1e7), vk::real("a1", -1e7, 1e7)], [vk::real("b0", -1e7, 1e7), vk::real("b1", -1e7, 1e7)]);
        let t = [vk::real("t0", 0.0, 1e7), vk::real("t1", 0.0, 1e7)];
        let want = (a[0] - b[0]).abs() <= t[0] && (a[1] - b[1]).abs() <= t[1];
        let (p, l) = (projected(ProjectedAxes::EastNorth { horiz_unit: M }), geographic(GeodeticAxes::NorthEast { angle_unit: DEG }, Lon::ZERO));
        let r = match vk::choice("crs", 2) { 0 => p.approx_eq(&a, &b, &t), _ => l.approx_eq(&a, &b, &t) };
        vk::ok("each coordinate within its tolerance", r == want);
        let z = [0.0, 0.0];
        vk::ok("reflexive", p.approx_eq(&a, &a, &z) && l.approx_eq(&a, &a, &z));
    }
    /// coordinates of the wrong dimension are refused
    fn h_dimension() {
        let (p, l, g) = (projected(ProjectedAxes::EastNorth { horiz_unit: M }), geographic(GeodeticAxes::NorthEast { angle_unit: DEG }, Lon::ZERO), geocentric());
        let x = vk::real("x", -1.0, 1.0);
        let (a2, a3) = ([x, x], [x, x, x]);
        match vk::choice("which", 6) {
            0 => vk::refuses("projected distance", || { let _ = p.dist(&a2, &a3); }),
            1 => vk::refuses("projected distance", || { let _ = p.dist(&a3, &a2); }),
            2 => vk::refuses("geographic distance", || { let _ = l.dist(&a3, &a3); }),
            3 => vk::refuses("geocentric distance", || { let _ = g.dist(&a2, &a3); }),
            4 => vk::refuses("projected equality", || { let _ = p.approx_eq(&a3, &a2, &a3); }),
            _ => vk::refuses("geocentric equality", || { let _ = g.approx_eq(&a3, &a2, &a3); }),
        }
    }
}
