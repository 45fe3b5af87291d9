//! C19: totality.
use crate::spec::*;
use crate::vk;
use geokit::crs::geocentric::GeocentricCrs;
use geokit::crs::geographic::GeographicCrs;
use geokit::crs::projected::ProjectedCrs;
use geokit::crs::Crs;
use geokit::cs::azimuth::Azimuth;
use geokit::cs::cartesian::geocentric::{GeocentricAxes, XYZ};
use geokit::cs::cartesian::projected::{ProjectedAxes, ENH};
use geokit::cs::geodetic::{GeodeticAxes, Lat, Lon, LLH};
use geokit::geodesy::geodesics::karney::KarneyGeodesicSolver;
use geokit::geodesy::geodesics::rapp::RappIterativeGeodisicSolver;
use geokit::geodesy::geodesics::vincenty::VincentyGeodesicSolver;
use geokit::geodesy::geodesics::GeodesicSolver;
use geokit::geodesy::{Ellipsoid, GeodeticDatum, PrimeMeridian};
use geokit::projections::{Projection, ProjectionSpec};
use geokit::transformations::xyz::{CrsXYZTransformation, XYZIdentity};
use geokit::transformations::CrsTransformation;
use geokit::units::angle::{DEG, RAD};
use geokit::units::length::{FT, M};

fn lon(n: &'static str) -> Lon {
    Lon::new(rad(vk::float(n)))
}
fn lat(n: &'static str) -> Lat {
    Lat::new(rad(vk::float(n)))
}
fn ellipsoid() -> Ellipsoid {
    match vk::choice("ellipsoid", 2) {
        0 => Ellipsoid::from_ainvf("e", m(6378137.0), 298.257223563),
        _ => Ellipsoid::from_ab("s", m(6371000.0), m(6371000.0)),
    }
}
fn datum() -> GeodeticDatum {
    GeodeticDatum::new("d", ellipsoid(), PrimeMeridian::new("p", Lon::const_new(rad(0.0407))))
}
fn a_llh() -> LLH {
    LLH { lon: lon("lon"), lat: lat("lat"), height: m(vk::float("height")) }
}
fn a_xyz() -> XYZ {
    XYZ { x: m(vk::float("x")), y: m(vk::float("y")), z: m(vk::float("z")) }
}
fn projection() -> Box<dyn Projection> {
    let lon0 = Lon::const_new(rad(0.2));
    let lat0 = Lat::new(rad(0.7));
    let (false_easting, false_northing) = (m(5e5), m(1e6));
    let k0 = 0.9996;
    match vk::choice("projection", 6) {
        0 => ProjectionSpec::Mercator1SP { lon0, k0, false_easting, false_northing },
        1 => ProjectionSpec::Mercator2SP { lon0, lat0, false_easting, false_northing },
        2 => ProjectionSpec::TransverseMercator { lon0, lat0, k0, false_easting, false_northing },
        3 => ProjectionSpec::UTMNorth { zone: 31 },
        4 => ProjectionSpec::UTMSouth { zone: 60 },
        _ => ProjectionSpec::WebMercator { lon0, lat0, false_easting, false_northing },
    }
    .applied_to(&ellipsoid())
}
/// the call came back
fn back<T>(_: T) {
    vk::ok("returns", true);
}

harness! {
    fn h_angles() {
        let x = vk::float("x");
        let y = vk::float("y");
        match vk::choice("op", 12) {
            0 => back(rad(x).normalized()),
            1 => { let mut a = rad(x); a.normalize(); back(a) }
            2 => back(Lon::new(rad(x)) + rad(y)),
            3 => back(Lon::new(rad(x)) - rad(y)),
            4 => back(Lon::new(rad(x)) - Lon::new(rad(y))),
            5 => back(Lat::new(rad(x)) + rad(y)),
            6 => back(Lat::new(rad(x)) - rad(y)),
            7 => back(Azimuth::new(rad(x)) + rad(y)),
            8 => back(Lon::new(rad(x)) * y),
            9 => back(Lon::new(rad(x)).normalized()),
            10 => back((Lon::new(rad(x)) == Lon::new(rad(y)), Lon::new(rad(x)) < Lon::new(rad(y)))),
            _ => back((Lat::new(rad(x)) == Lat::new(rad(y)), rad(x).sin_cos(), rad(x).tan(), rad(x).abs())),
        }
    }
    fn h_ellipsoid() {
        let e = ellipsoid();
        let b = lat("lat");
        back((e.prime_vertical_radius(b), e.prime_meridional_radius(b), e.reduced_latitude(b), e.geocentric_latitude(b)));
    }
    fn h_llh_to_xyz() {
        back(datum().llh_to_xyz(a_llh()));
    }
    fn h_xyz_to_llh() {
        back(datum().xyz_to_llh(a_xyz()));
    }
    fn h_project() {
        back(projection().proj(a_llh()));
    }
    fn h_unproject() {
        let p = projection();
        back(p.unproj(ENH { easting: m(vk::float("e")), northing: m(vk::float("n")), height: m(vk::float("h")) }));
    }
    fn h_vincenty_direct() {
        back(VincentyGeodesicSolver::new(&ellipsoid()).solve_direct((lon("lon1"), lat("lat1")), Azimuth::new(rad(vk::float("azimuth"))), m(vk::float("s"))).is_ok());
    }
    fn h_rapp_direct() {
        back(RappIterativeGeodisicSolver::new(&ellipsoid()).solve_direct((lon("lon1"), lat("lat1")), Azimuth::new(rad(vk::float("azimuth"))), m(vk::float("s"))).is_ok());
    }
    fn h_karney_direct() {
        back(KarneyGeodesicSolver::new(&ellipsoid()).solve_direct((lon("lon1"), lat("lat1")), Azimuth::new(rad(vk::float("azimuth"))), m(vk::float("s"))).is_ok());
    }
    fn h_vincenty_inverse() {
        back(VincentyGeodesicSolver::new(&ellipsoid()).solve_inverse((lon("lon1"), lat("lat1")), (lon("lon2"), lat("lat2"))).is_ok());
    }
    fn h_rapp_inverse() {
        back(RappIterativeGeodisicSolver::new(&ellipsoid()).solve_inverse((lon("lon1"), lat("lat1")), (lon("lon2"), lat("lat2"))).is_ok());
    }
    fn h_geodetic_axes() {
        let (u, h) = (DEG, FT);
        let c = [vk::float("c0"), vk::float("c1"), vk::float("c2")];
        let mut out = [0.0; 3];
        let (a, n) = match vk::choice("axes", 5) {
            0 => (GeodeticAxes::EastNorthUp { angle_unit: u, height_unit: h }, 3),
            1 => (GeodeticAxes::NorthEastUp { angle_unit: u, height_unit: h }, 3),
            2 => (GeodeticAxes::EastNorth { angle_unit: u }, 2),
            3 => (GeodeticAxes::NorthEast { angle_unit: u }, 2),
            _ => (GeodeticAxes::NorthWest { angle_unit: u }, 2),
        };
        let l = a.normalize(&c[..n]);
        a.denormalize(l, &mut out[..n]);
        back((l, out));
    }
    fn h_projected_axes() {
        let c = [vk::float("c0"), vk::float("c1"), vk::float("c2")];
        let mut out = [0.0; 3];
        let (a, n) = match vk::choice("axes", 2) {
            0 => (ProjectedAxes::EastNorthUp { horiz_unit: FT, height_unit: M }, 3),
            _ => (ProjectedAxes::EastNorth { horiz_unit: FT }, 2),
        };
        let l = a.normalize(&c[..n]);
        a.denormalize(l, &mut out[..n]);
        back((l, out));
    }
    fn h_geographic_pipeline() {
        let src = GeographicCrs { id: "a".into(), datum: datum(), axes: GeodeticAxes::EastNorthUp { angle_unit: RAD, height_unit: M } };
        let dst = GeocentricCrs { id: "b".into(), datum: datum(), axes: GeocentricAxes::XYZ };
        let t = CrsXYZTransformation::new(src, dst, XYZIdentity, XYZIdentity);
        let c = [vk::float("c0"), vk::float("c1"), vk::float("c2")];
        let mut out = [0.0; 3];
        match vk::choice("direction", 2) {
            0 => back(t.fwd(&c, &mut out).is_ok()),
            _ => back(t.bwd(&c, &mut out).is_ok()),
        }
    }
    fn h_projected_pipeline() {
        let spec = match vk::choice("projection", 3) {
            0 => ProjectionSpec::WebMercator { lon0: Lon::const_new(rad(0.2)), lat0: Lat::new(rad(0.7)), false_easting: m(5e5), false_northing: m(1e6) },
            1 => ProjectionSpec::UTMSouth { zone: 1 },
            _ => ProjectionSpec::Mercator1SP { lon0: Lon::const_new(rad(0.2)), k0: 0.9996, false_easting: m(5e5), false_northing: m(1e6) },
        };
        let src = GeographicCrs { id: "a".into(), datum: datum(), axes: GeodeticAxes::NorthEast { angle_unit: DEG } };
        let dst = ProjectedCrs { id: "p".into(), datum: datum(), axes: ProjectedAxes::EastNorthUp { horiz_unit: FT, height_unit: M }, projection: spec };
        let t = CrsXYZTransformation::new(src, dst, XYZIdentity, XYZIdentity);
        let c = [vk::float("c0"), vk::float("c1"), vk::float("c2")];
        let mut out = [0.0; 3];
        match vk::choice("direction", 2) {
            0 => back(t.fwd(&c[..2], &mut out).is_ok()),
            _ => back(t.bwd(&c, &mut out[..2]).is_ok()),
        }
    }
    /// projections set up with arbitrary origins and scales
    fn h_projection_parameters() {
        let lon0 = lon("lon0");
        let lat0 = lat("lat0");
        let k0 = vk::float("k0");
        let (false_easting, false_northing) = (m(vk::float("fe")), m(vk::float("fn")));
        let p = match vk::choice("projection", 4) {
            0 => ProjectionSpec::Mercator1SP { lon0, k0, false_easting, false_northing },
            1 => ProjectionSpec::Mercator2SP { lon0, lat0, false_easting, false_northing },
            2 => ProjectionSpec::TransverseMercator { lon0, lat0, k0, false_easting, false_northing },
            _ => ProjectionSpec::WebMercator { lon0, lat0, false_easting, false_northing },
        }
        .applied_to(&ellipsoid());
        match vk::choice("direction", 2) {
            0 => back(p.proj(LLH { lon: lon("lon"), lat: lat("lat"), height: m(vk::float("height")) }).is_ok()),
            _ => back(p.unproj(ENH { easting: m(vk::float("e")), northing: m(vk::float("n")), height: m(0.0) }).is_ok()),
        }
    }
    fn h_geocentric_axes() {
        let c = [vk::float("c0"), vk::float("c1"), vk::float("c2")];
        let mut out = [0.0; 3];
        let l = GeocentricAxes::XYZ.normalize(&c);
        GeocentricAxes::XYZ.denormalize(l, &mut out);
        back((l, out));
    }
    fn h_distances() {
        let d = datum();
        let c = [vk::float("c0"), vk::float("c1"), vk::float("c2")];
        let k = [vk::float("k0"), vk::float("k1"), vk::float("k2")];
        match vk::choice("crs", 4) {
            0 => back(GeocentricCrs { id: "b".into(), datum: d, axes: GeocentricAxes::XYZ }.dist(&c, &k).is_ok()),
            1 => back(GeographicCrs { id: "a".into(), datum: d, axes: GeodeticAxes::EastNorthUp { angle_unit: RAD, height_unit: M } }.dist(&c, &k).is_ok()),
            2 => back(GeographicCrs { id: "a".into(), datum: d, axes: GeodeticAxes::NorthEast { angle_unit: RAD } }.dist(&c[..2], &k[..2]).is_ok()),
            _ => back(ProjectedCrs { id: "p".into(), datum: d, axes: ProjectedAxes::EastNorth { horiz_unit: M }, projection: ProjectionSpec::UTMNorth { zone: 31 } }.dist(&c[..2], &k[..2]).is_ok()),
        }
    }
}
