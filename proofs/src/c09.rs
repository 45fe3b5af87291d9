//! C09: pipelines between reference systems.
use crate::spec::*;
use crate::vk;
use geokit::crs::geocentric::GeocentricCrs;
use geokit::crs::geographic::GeographicCrs;
use geokit::crs::projected::ProjectedCrs;
use geokit::cs::cartesian::geocentric::{GeocentricAxes, XYZ};
use geokit::cs::cartesian::projected::ProjectedAxes;
use geokit::cs::geodetic::GeodeticAxes;
use geokit::geodesy::{Ellipsoid, GeodeticDatum, PrimeMeridian};
use geokit::projections::ProjectionSpec;
use geokit::transformations::xyz::{CrsXYZTransformation, ToXYZ, ToXYZProvider, XYZIdentity, XYZTransformation};
use geokit::transformations::{CrsTransformation, TransformationError};

/// A datum shift chosen by the caller of the library (any implementation of the public trait).
#[derive(Clone, Copy)]
struct Shift(f64, f64, f64, f64);
impl XYZTransformation for Shift {
    fn to_ref(&self, s: XYZ) -> XYZ {
        XYZ { x: s.x * self.3 + m(self.0), y: s.y * self.3 + m(self.1), z: s.z * self.3 + m(self.2) }
    }
    fn from_ref(&self, d: XYZ) -> XYZ {
        XYZ { x: (d.x - m(self.0)) / self.3, y: (d.y - m(self.1)) / self.3, z: (d.z - m(self.2)) / self.3 }
    }
}

/// A system defined by the caller of the library, whose coordinates are the geocentric ones on the
/// octant of positive x, and nothing elsewhere.
#[derive(Clone, Copy)]
struct Partial;
impl ToXYZ for Partial {
    fn to_xyz(&self, c: &[f64]) -> Result<XYZ, TransformationError> {
        if c[0] > 0.0 { Ok(XYZ { x: m(c[0]), y: m(c[1]), z: m(c[2]) }) } else { Err(TransformationError::OutOfBounds) }
    }
    fn from_xyz(&self, p: XYZ, c: &mut [f64]) -> Result<(), TransformationError> {
        if p.x.m() > 0.0 {
            c[0] = p.x.m();
            c[1] = p.y.m();
            c[2] = p.z.m();
            Ok(())
        } else {
            Err(TransformationError::OutOfBounds)
        }
    }
}
impl ToXYZProvider for Partial {
    fn to_xyz_transformation<'a>(&self) -> Box<dyn ToXYZ + 'a> {
        Box::new(*self)
    }
}

fn shift_a() -> Shift {
    Shift(vk::real("ta", -500.0, 500.0), 12.0, -30.0, 1.0001)
}
fn shift_b() -> Shift {
    Shift(-87.0, vk::real("tb", -500.0, 500.0), 55.0, 0.9998)
}
fn datum_a() -> GeodeticDatum {
    GeodeticDatum::new("A", Ellipsoid::from_ainvf("a", m(6378137.0), 298.257223563), PrimeMeridian::new("a", any_lon("pm")))
}
fn datum_b() -> GeodeticDatum {
    GeodeticDatum::new("B", Ellipsoid::from_ainvf("b", m(6377397.155), 299.1528128), PrimeMeridian::new("b", Lon0()))
}
#[allow(non_snake_case)]
fn Lon0() -> geokit::cs::geodetic::Lon {
    geokit::cs::geodetic::Lon::ZERO
}
fn gaxes(name: &'static str) -> (GeodeticAxes, usize) {
    let u = geokit::units::angle::DEG;
    let h = geokit::units::length::FT;
    match vk::choice(name, 5) {
        0 => (GeodeticAxes::EastNorthUp { angle_unit: u, height_unit: h }, 3),
        1 => (GeodeticAxes::NorthEastUp { angle_unit: u, height_unit: h }, 3),
        2 => (GeodeticAxes::EastNorth { angle_unit: u }, 2),
        3 => (GeodeticAxes::NorthEast { angle_unit: u }, 2),
        _ => (GeodeticAxes::NorthWest { angle_unit: u }, 2),
    }
}
fn paxes(name: &'static str) -> (ProjectedAxes, usize) {
    let u = geokit::units::length::US_FT;
    let h = geokit::units::length::FT;
    match vk::choice(name, 2) {
        0 => (ProjectedAxes::EastNorthUp { horiz_unit: u, height_unit: h }, 3),
        _ => (ProjectedAxes::EastNorth { horiz_unit: u }, 2),
    }
}
fn geocentric(d: GeodeticDatum) -> GeocentricCrs {
    GeocentricCrs { id: "geocentric".into(), datum: d, axes: GeocentricAxes::XYZ }
}
fn geographic(d: GeodeticDatum, axes: GeodeticAxes) -> GeographicCrs {
    GeographicCrs { id: "geographic".into(), datum: d, axes }
}
fn xyz_in() -> [f64; 3] {
    let c = [vk::real("x", -1e7, 1e7), vk::real("y", -1e7, 1e7), vk::real("z", -1e7, 1e7)];
    // not about the centre of the Earth
    vk::assume(c[0] * c[0] + c[1] * c[1] + c[2] * c[2] > 1e12);
    c
}
fn deg_in() -> [f64; 3] {
    [vk::real("c0", -200.0, 200.0), vk::real("c1", -200.0, 200.0), vk::real("c2", -1000.0, 10000.0)]
}
fn same(got: [f64; 3], want: [f64; 3], n: usize) {
    vk::eq("first coordinate", got[0], want[0], 1e-6);
    vk::eq("second coordinate", got[1], want[1], 1e-6);
    vk::eq("third coordinate", got[2], if n == 3 { want[2] } else { -7.0 }, 1e-6);
}

harness! {
    fn h_geocentric_geocentric() {
        let (a, b) = (shift_a(), shift_b());
        let t = CrsXYZTransformation::new(geocentric(datum_a()), geocentric(datum_b()), a, b);
        let c = xyz_in();
        let mut o = [-7.0; 3];
        let fwd = vk::choice("direction", 2) == 0;
        let p = GeocentricAxes::XYZ.normalize(&c);
        let r = if fwd { t.fwd(&c, &mut o) } else { t.bwd(&c, &mut o) };
        vk::ok("succeeds", r.is_ok());
        let q = if fwd { b.from_ref(a.to_ref(p)) } else { a.from_ref(b.to_ref(p)) };
        same(o, [q.x.m(), q.y.m(), q.z.m()], 3);
        let back = if fwd { let mut k = [0.0; 3]; let _ = t.bwd(&o, &mut k); k } else { let mut k = [0.0; 3]; let _ = t.fwd(&o, &mut k); k };
        same(back, c, 3);
    }
    fn h_geographic_to_geocentric() {
        let (a, b) = (shift_a(), shift_b());
        let (ax, n) = gaxes("axes");
        let d = datum_a();
        let fwd = vk::choice("source is geographic", 2) == 0;
        let c = deg_in();
        let mut o = [-7.0; 3];
        let p = d.llh_to_xyz(ax.normalize(&c[0..n]));
        let (r, q) = if fwd {
            let t = CrsXYZTransformation::new(geographic(d.clone(), ax), geocentric(datum_b()), a, b);
            (t.fwd(&c[0..n], &mut o), b.from_ref(a.to_ref(p)))
        } else {
            let t = CrsXYZTransformation::new(geocentric(datum_b()), geographic(d.clone(), ax), a, b);
            (t.bwd(&c[0..n], &mut o), a.from_ref(b.to_ref(p)))
        };
        vk::ok("succeeds", r.is_ok());
        same(o, [q.x.m(), q.y.m(), q.z.m()], 3);
    }
    fn h_geocentric_to_geographic() {
        let (a, b) = (shift_a(), shift_b());
        let (ax, n) = gaxes("axes");
        let d = datum_a();
        let fwd = vk::choice("target is geographic", 2) == 0;
        let c = xyz_in();
        let mut o = [-7.0; 3];
        let p = GeocentricAxes::XYZ.normalize(&c);
        let (r, q) = if fwd {
            let t = CrsXYZTransformation::new(geocentric(datum_b()), geographic(d.clone(), ax), a, b);
            (t.fwd(&c, &mut o), b.from_ref(a.to_ref(p)))
        } else {
            let t = CrsXYZTransformation::new(geographic(d.clone(), ax), geocentric(datum_b()), a, b);
            (t.bwd(&c, &mut o), a.from_ref(b.to_ref(p)))
        };
        vk::ok("succeeds", r.is_ok());
        let mut w = [-7.0; 3];
        ax.denormalize(d.xyz_to_llh(q), &mut w);
        same(o, w, n);
    }
    fn h_geographic_geographic() {
        let (a, b) = (shift_a(), shift_b());
        let (ax, n) = gaxes("axes");
        let bx = GeodeticAxes::NorthEastUp { angle_unit: geokit::units::angle::GRAD, height_unit: geokit::units::length::M };
        let (d, e) = (datum_a(), datum_b());
        let c = deg_in();
        let mut o = [-7.0; 3];
        let mut w = [-7.0; 3];
        let t = CrsXYZTransformation::new(geographic(d.clone(), ax), geographic(e.clone(), bx), a, b);
        let fwd = vk::choice("direction", 2) == 0;
        if fwd {
            vk::ok("succeeds", t.fwd(&c[0..n], &mut o).is_ok());
            let p = d.llh_to_xyz(ax.normalize(&c[0..n]));
            bx.denormalize(e.xyz_to_llh(b.from_ref(a.to_ref(p))), &mut w);
            same(o, w, 3);
        } else {
            vk::ok("succeeds", t.bwd(&c, &mut o).is_ok());
            let p = e.llh_to_xyz(bx.normalize(&c));
            ax.denormalize(d.xyz_to_llh(a.from_ref(b.to_ref(p))), &mut w);
            same(o, w, n);
        }
    }
    /// a shift on one side only
    fn h_one_sided() {
        let (d, e) = (datum_a(), datum_b());
        let a = shift_a();
        let c = xyz_in();
        let mut o = [-7.0; 3];
        let mut k = [-7.0; 3];
        let source = vk::choice("the shift is the source's", 2) == 0;
        let t = if source {
            CrsXYZTransformation::new(geocentric(d), geocentric(e), a, XYZIdentity)
        } else {
            CrsXYZTransformation::new(geocentric(d), geocentric(e), XYZIdentity, a)
        };
        let p = XYZ { x: m(c[0]), y: m(c[1]), z: m(c[2]) };
        vk::ok("succeeds", t.fwd(&c, &mut o).is_ok());
        let q = if source { a.to_ref(p) } else { a.from_ref(p) };
        same(o, [q.x.m(), q.y.m(), q.z.m()], 3);
        vk::ok("succeeds backward", t.bwd(&c, &mut k).is_ok());
        let q = if source { a.from_ref(p) } else { a.to_ref(p) };
        same(k, [q.x.m(), q.y.m(), q.z.m()], 3);
    }
    /// a failure of either system is a failure of the pipeline, and its only one
    fn h_failures() {
        let (a, b) = (shift_a(), shift_b());
        let c = xyz_in();
        let mut o = [-7.0; 3];
        let p = XYZ { x: m(c[0]), y: m(c[1]), z: m(c[2]) };
        let partial_source = vk::choice("the partial system is the source", 2) == 0;
        let fwd = vk::choice("direction", 2) == 0;
        let t = if partial_source {
            CrsXYZTransformation::new(Partial, geocentric(datum_b()), a, b)
        } else {
            CrsXYZTransformation::new(geocentric(datum_b()), Partial, a, b)
        };
        let r = if fwd { t.fwd(&c, &mut o) } else { t.bwd(&c, &mut o) };
        let q = if fwd { b.from_ref(a.to_ref(p)) } else { a.from_ref(b.to_ref(p)) };
        let defined = if partial_source == fwd { c[0] > 0.0 } else { q.x.m() > 0.0 };
        vk::ok("fails exactly where a system has no coordinates", r.is_ok() == defined);
        if defined {
            same(o, [q.x.m(), q.y.m(), q.z.m()], 3);
        }
    }
    fn h_identity_shift() {
        // the same datum on both sides and no shift
        let d = datum_a();
        let t = CrsXYZTransformation::new(geocentric(d.clone()), geocentric(d), XYZIdentity, XYZIdentity);
        let c = xyz_in();
        let mut o = [-7.0; 3];
        vk::ok("succeeds", t.fwd(&c, &mut o).is_ok());
        same(o, c, 3);
        let mut o = [-7.0; 3];
        vk::ok("succeeds backward", t.bwd(&c, &mut o).is_ok());
        same(o, c, 3);
    }
    /// the conversion each kind of system provides
    fn h_providers() {
        let d = datum_a();
        let c = xyz_in();
        let g = geocentric(d.clone()).to_xyz_transformation();
        match g.to_xyz(&c) {
            Ok(p) => same([p.x.m(), p.y.m(), p.z.m()], c, 3),
            Err(_) => vk::ok("geocentric never fails", false),
        }
        let mut o = [-7.0; 3];
        vk::ok("geocentric never fails backward", g.from_xyz(XYZ { x: m(c[0]), y: m(c[1]), z: m(c[2]) }, &mut o).is_ok());
        same(o, c, 3);
    }
    fn h_projected_from_xyz() {
        let (pa, n) = paxes("axes");
        let spec = ProjectionSpec::WebMercator { lon0: any_lon("lon0"), lat0: any_lat("lat0"), false_easting: m(1000.0), false_northing: m(-2000.0) };
        let d = datum_b();
        let crs = ProjectedCrs { id: "p".into(), datum: d.clone(), axes: pa, projection: spec.clone() };
        let c = xyz_in();
        // off the poles
        vk::assume(c[0] * c[0] + c[1] * c[1] > 1.0);
        let p = XYZ { x: m(c[0]), y: m(c[1]), z: m(c[2]) };
        let mut o = [-7.0; 3];
        let r = crs.to_xyz_transformation().from_xyz(p, &mut o);
        let mut w = [-7.0; 3];
        match spec.applied_to(d.ellipsoid()).proj(d.xyz_to_llh(p)) {
            Ok(e) => {
                vk::ok("succeeds", r.is_ok());
                pa.denormalize(e, &mut w);
                same(o, w, n);
            }
            Err(_) => vk::ok("fails when the projection fails", r.is_err()),
        }
    }
    fn h_projected_to_xyz() {
        let (pa, n) = paxes("axes");
        let spec = ProjectionSpec::WebMercator { lon0: any_lon("lon0"), lat0: any_lat("lat0"), false_easting: m(1000.0), false_northing: m(-2000.0) };
        let d = datum_b();
        let crs = ProjectedCrs { id: "p".into(), datum: d.clone(), axes: pa, projection: spec.clone() };
        let c = [vk::real("e", -1e6, 1e6), vk::real("n", -1e6, 1e6), vk::real("h", -1e3, 1e4)];
        let r = crs.to_xyz_transformation().to_xyz(&c[0..n]);
        match (spec.applied_to(d.ellipsoid()).unproj(pa.normalize(&c[0..n])), r) {
            (Ok(l), Ok(x)) => {
                let y = d.llh_to_xyz(l);
                same([x.x.m(), x.y.m(), x.z.m()], [y.x.m(), y.y.m(), y.z.m()], 3);
            }
            (Ok(_), Err(_)) => vk::ok("succeeds when the projection does", false),
            (Err(_), r) => vk::ok("fails when the projection fails", r.is_err()),
        }
    }
    fn h_projected_pipeline() {
        // geographic <-> projected
        let (a, b) = (shift_a(), shift_b());
        let (pa, n) = paxes("axes");
        let spec = ProjectionSpec::WebMercator { lon0: any_lon("lon0"), lat0: Lat0(), false_easting: m(1000.0), false_northing: m(-2000.0) };
        let gx = GeodeticAxes::NorthEast { angle_unit: geokit::units::angle::DEG };
        let (d, e) = (datum_b(), datum_b());
        let t = CrsXYZTransformation::new(
            geographic(d.clone(), gx),
            ProjectedCrs { id: "p".into(), datum: e.clone(), axes: pa, projection: spec.clone() },
            a,
            b,
        );
        let pr = spec.applied_to(e.ellipsoid());
        let mut o = [-7.0; 3];
        let mut w = [-7.0; 3];
        if vk::choice("direction", 2) == 0 {
            let c = deg_in();
            let r = t.fwd(&c[0..2], &mut o);
            let x = b.from_ref(a.to_ref(d.llh_to_xyz(gx.normalize(&c[0..2]))));
            match pr.proj(e.xyz_to_llh(x)) {
                Ok(q) => {
                    vk::ok("succeeds", r.is_ok());
                    pa.denormalize(q, &mut w);
                    same(o, w, n);
                }
                Err(_) => vk::ok("fails when the projection fails", r.is_err()),
            }
        } else {
            let c = [vk::real("e", -1e6, 1e6), vk::real("n", -1e6, 1e6), vk::real("h", -1e3, 1e4)];
            let r = t.bwd(&c[0..n], &mut o);
            match pr.unproj(pa.normalize(&c[0..n])) {
                Ok(l) => {
                    vk::ok("succeeds", r.is_ok());
                    let x = a.from_ref(b.to_ref(e.llh_to_xyz(l)));
                    gx.denormalize(d.xyz_to_llh(x), &mut w);
                    same(o, w, 2);
                }
                Err(_) => vk::ok("fails when the projection fails", r.is_err()),
            }
        }
    }
}
#[allow(non_snake_case)]
fn Lat0() -> geokit::cs::geodetic::Lat {
    geokit::cs::geodetic::Lat::ZERO
}
