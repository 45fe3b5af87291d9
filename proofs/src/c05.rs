//! C05: ellipsoids, prime meridians and datums.
use crate::spec::*;
use crate::vk;
use geokit::cs::geodetic::{Lat, Lon};
use geokit::geodesy::ellipsoid::consts;
use geokit::geodesy::geodetic_datum::consts as dat;
use geokit::geodesy::prime_meridian::consts as pm;
use geokit::geodesy::{Ellipsoid, GeodeticDatum, PrimeMeridian};

/// (ellipsoid, semi-major axis, semi-minor axis, inverse flattening), as published (PROJ/EPSG tables).
fn published(i: usize) -> (Ellipsoid, f64, f64, f64) {
    match i {
        0 => (consts::AIRY, 6377563.396, 6377563.396 * (1.0 - 1.0 / 299.3249646), 299.3249646),
        1 => (consts::ANDRAE, 6377104.43, 6377104.43 * (1.0 - 1.0 / 300.0), 300.0),
        2 => (consts::DANISH, 6377019.2563, 6377019.2563 * (1.0 - 1.0 / 300.0), 300.0),
        3 => (consts::APL_4_9, 6378137.0, 6378137.0 * (1.0 - 1.0 / 298.25), 298.25),
        4 => (consts::AUST_SA, 6378160.0, 6378160.0 * (1.0 - 1.0 / 298.25), 298.25),
        5 => (consts::BESSEL, 6377397.155, 6377397.155 * (1.0 - 1.0 / 299.1528128), 299.1528128),
        6 => (consts::BESS_NAM, 6377483.865, 6377483.865 * (1.0 - 1.0 / 299.1528128), 299.1528128),
        7 => (consts::CLRK66, 6378206.4, 6356583.8, 6378206.4 / (6378206.4 - 6356583.8)),
        8 => (consts::CLRK80, 6378249.145, 6378249.145 * (1.0 - 1.0 / 293.4663), 293.4663),
        9 => (consts::CLRK80IGN, 6378249.2, 6378249.2 * (1.0 - 1.0 / 293.4660212936269), 293.4660212936269),
        10 => (consts::CPM, 6375738.7, 6375738.7 * (1.0 - 1.0 / 334.29), 334.29),
        11 => (consts::DELMBR, 6376428.0, 6376428.0 * (1.0 - 1.0 / 311.5), 311.5),
        12 => (consts::ENGELIS, 6378136.05, 6378136.05 * (1.0 - 1.0 / 298.2566), 298.2566),
        13 => (consts::EVRST30, 6377276.345, 6377276.345 * (1.0 - 1.0 / 300.8017), 300.8017),
        14 => (consts::EVRST48, 6377304.063, 6377304.063 * (1.0 - 1.0 / 300.8017), 300.8017),
        15 => (consts::EVRST56, 6377301.243, 6377301.243 * (1.0 - 1.0 / 300.8017), 300.8017),
        16 => (consts::EVRST69, 6377295.664, 6377295.664 * (1.0 - 1.0 / 300.8017), 300.8017),
        17 => (consts::EVRSTSS, 6377298.556, 6377298.556 * (1.0 - 1.0 / 300.8017), 300.8017),
        18 => (consts::FSCHR60, 6378166.0, 6378166.0 * (1.0 - 1.0 / 298.3), 298.3),
        19 => (consts::FSCHR68, 6378150.0, 6378150.0 * (1.0 - 1.0 / 298.3), 298.3),
        20 => (consts::GSK2011, 6378136.5, 6378136.5 * (1.0 - 1.0 / 298.2564151), 298.2564151),
        21 => (consts::GRS67, 6378160.0, 6378160.0 * (1.0 - 1.0 / 298.2471674270), 298.2471674270),
        22 => (consts::GRS80, 6378137.0, 6378137.0 * (1.0 - 1.0 / 298.257222101), 298.257222101),
        23 => (consts::IAU76, 6378140.0, 6378140.0 * (1.0 - 1.0 / 298.257), 298.257),
        24 => (consts::HELMERT, 6378200.0, 6378200.0 * (1.0 - 1.0 / 298.3), 298.3),
        25 => (consts::HOUGH, 6378270.0, 6378270.0 * (1.0 - 1.0 / 297.0), 297.0),
        26 => (consts::INTL, 6378388.0, 6378388.0 * (1.0 - 1.0 / 297.0), 297.0),
        27 => (consts::KAULA, 6378163.0, 6378163.0 * (1.0 - 1.0 / 298.24), 298.24),
        28 => (consts::KRASS, 6378245.0, 6378245.0 * (1.0 - 1.0 / 298.3), 298.3),
        29 => (consts::LERCH, 6378139.0, 6378139.0 * (1.0 - 1.0 / 298.257), 298.257),
        30 => (consts::MPRTS, 6397300.0, 6397300.0 * (1.0 - 1.0 / 191.0), 191.0),
        31 => (consts::MERIT, 6378137.0, 6378137.0 * (1.0 - 1.0 / 298.257), 298.257),
        32 => (consts::MOD_AIRY, 6377340.189, 6356034.446, 6377340.189 / (6377340.189 - 6356034.446)),
        33 => (consts::FSCHR60M, 6378155.0, 6378155.0 * (1.0 - 1.0 / 298.3), 298.3),
        34 => (consts::NWL9D, 6378145.0, 6378145.0 * (1.0 - 1.0 / 298.25), 298.25),
        35 => (consts::NEW_INTL, 6378157.5, 6356772.2, 6378157.5 / (6378157.5 - 6356772.2)),
        36 => (consts::PLESSIS, 6376523.0, 6355863.0, 6376523.0 / (6376523.0 - 6355863.0)),
        37 => (consts::PZ90, 6378136.0, 6378136.0 * (1.0 - 1.0 / 298.25784), 298.25784),
        38 => (consts::SEASIA, 6378155.0, 6356773.3205, 6378155.0 / (6378155.0 - 6356773.3205)),
        39 => (consts::SGS85, 6378136.0, 6378136.0 * (1.0 - 1.0 / 298.257), 298.257),
        40 => (consts::WALBECK, 6376896.0, 6355834.8467, 6376896.0 / (6376896.0 - 6355834.8467)),
        41 => (consts::WGS60, 6378165.0, 6378165.0 * (1.0 - 1.0 / 298.3), 298.3),
        42 => (consts::WGS66, 6378145.0, 6378145.0 * (1.0 - 1.0 / 298.25), 298.25),
        43 => (consts::WGS72, 6378135.0, 6378135.0 * (1.0 - 1.0 / 298.26), 298.26),
        44 => (consts::WGS84, 6378137.0, 6378137.0 * (1.0 - 1.0 / 298.257223563), 298.257223563),
        _ => (consts::SPHERE, 6370997.0, 6370997.0, f64::INFINITY),
    }
}

harness! {
    fn h_published_ellipsoids() {
        let (e, a, b, f) = published(vk::choice("ellipsoid", 46));
        vk::near("semi-major axis", e.a().m(), a, 1e-9);
        vk::near("semi-minor axis", e.b().m(), b, 1e-8);
        if f.is_finite() {
            vk::near("inverse flattening", e.invf(), f, 1e-9);
            vk::ok("not a sphere", !e.is_spherical());
            vk::near("flattening", e.f() * e.a().m(), e.a().m() - e.b().m(), 1e-7);
        } else {
            vk::ok("inverse flattening of a sphere", e.invf() == f64::INFINITY);
            vk::ok("sphere", e.is_spherical());
        }
    }
    fn h_published_meridians() {
        let (p, lon, tol) = match vk::choice("meridian", 14) {
            0 => (pm::GREENWICH, (0.0 + 0.0 / 60.0 + 0.0 / 3600.0), 1e-11),
            1 => (pm::LISBON, -(9.0 + 7.0 / 60.0 + 54.862 / 3600.0), 1e-11),
            2 => (pm::PARIS, (2.0 + 20.0 / 60.0 + 14.025 / 3600.0), 1e-11),
            3 => (pm::BOGOTA, -(74.0 + 4.0 / 60.0 + 51.3 / 3600.0), 1e-11),
            4 => (pm::MADRID, -(3.0 + 41.0 / 60.0 + 16.58 / 3600.0), 1e-11),
            5 => (pm::ROME, (12.0 + 27.0 / 60.0 + 8.4 / 3600.0), 1e-11),
            6 => (pm::BERN, (7.0 + 26.0 / 60.0 + 22.5 / 3600.0), 1e-11),
            7 => (pm::JAKARTA, (106.0 + 48.0 / 60.0 + 27.79 / 3600.0), 1e-11),
            8 => (pm::FERRO, -(17.0 + 40.0 / 60.0 + 0.0 / 3600.0), 1e-11),
            9 => (pm::BRUSSELS, (4.0 + 22.0 / 60.0 + 4.71 / 3600.0), 1e-11),
            10 => (pm::STOCKHOLM, (18.0 + 3.0 / 60.0 + 29.8 / 3600.0), 1e-11),
            11 => (pm::ATHENS, (23.0 + 42.0 / 60.0 + 58.815 / 3600.0), 1e-11),
            12 => (pm::OSLO, (10.0 + 43.0 / 60.0 + 22.5 / 3600.0), 1e-11),
            _ => (pm::COPENHAGEN, (12.0 + 34.0 / 60.0 + 40.35 / 3600.0), 6e-6),
        };
        vk::near("longitude", p.lon().angle().rad() * 180.0 / PI, lon, tol);
    }
    fn h_published_datums() {
        let (d, id, e, p) = match vk::choice("datum", 4) {
            0 => (dat::WGS84, "WGS84", consts::WGS84, pm::GREENWICH),
            1 => (dat::GGRS87, "GGRS87", consts::GRS80, pm::GREENWICH),
            2 => (dat::NAD83, "NAD83", consts::GRS80, pm::GREENWICH),
            _ => (dat::RNB72, "RNB72", consts::INTL, pm::GREENWICH),
        };
        vk::ok("id", d.id() == id);
        vk::ok("ellipsoid", *d.ellipsoid() == e);
        vk::ok("prime meridian", *d.prime_meridian() == p);
    }
    fn h_datum_parts() {
        let a = vk::real("a", 1.0, 1e8);
        let q = vk::real("b/a", 0.1, 1.0);
        let l = any_lon("lon");
        let e = Ellipsoid::from_ab("e", m(a), m(a * q));
        let d = GeodeticDatum::new("id", e.clone(), PrimeMeridian::new("p", l));
        vk::eq("a", d.ellipsoid().a().m(), a, 0.0);
        vk::eq("b", d.ellipsoid().b().m(), a * q, 0.0);
        vk::cong("prime meridian", d.prime_meridian().lon().angle().rad(), l.angle().rad(), TAU, 1e-15);
        vk::ok("prime meridian is normalized", d.prime_meridian().lon().angle().rad() > -PI);
        vk::ok("name", d.ellipsoid().name() == "e" && d.prime_meridian().name() == "p" && d.id() == "id");
        // equality needs the id, the ellipsoid and the prime meridian
        let d2 = GeodeticDatum::new("id2", e.clone(), PrimeMeridian::new("p", l));
        vk::ok("another id is another datum", !(d == d2));
        vk::ok("equal to itself", d == GeodeticDatum::new("id", e.clone(), PrimeMeridian::new("other", l)));
    }
    fn h_datum_eq() {
        let a = vk::real("a", 1.0, 1e8);
        let q = vk::real("b/a", 0.1, 1.0);
        let a2 = vk::real("a2", 1.0, 1e8);
        let q2 = vk::real("b2/a2", 0.1, 1.0);
        let l = any_lon("lon");
        let l2 = any_lon("lon2");
        let e = Ellipsoid::from_ab("e", m(a), m(a * q));
        let e2 = Ellipsoid::from_ab("e", m(a2), m(a2 * q2));
        if e == e2 {
            vk::eq("equal ellipsoids have the same a", a, a2, 0.0);
            vk::eq("equal ellipsoids have the same b", a * q, a2 * q2, 0.0);
        } else {
            vk::ok("different ellipsoids differ", a != a2 || a * q != a2 * q2);
        }
        let p = PrimeMeridian::new("p", l);
        let p2 = PrimeMeridian::new("p", l2);
        if p == p2 {
            vk::cong("equal meridians", l.angle().rad(), l2.angle().rad(), TAU, 0.0);
        }
        let d = GeodeticDatum::new("id", e.clone(), p.clone());
        let d2 = GeodeticDatum::new("id", e2.clone(), p2.clone());
        vk::ok("equal datums", (d == d2) == (e == e2 && p == p2));
    }
    fn h_from_ab() {
        let a = vk::real("a", 1e-3, 1e8);
        let b = vk::real("b", 1e-3, 1e8);
        vk::assume(b <= a);
        let e = Ellipsoid::from_ab("x", m(a), m(b));
        vk::eq("a", e.a().m(), a, 0.0);
        vk::eq("b", e.b().m(), b, 0.0);
        vk::eq("a squared", e.a_sq(), a * a, 1e-15 * a * a);
        vk::eq("b squared", e.b_sq(), b * b, 1e-15 * b * b);
        vk::ok("spherical iff a = b", e.is_spherical() == (a == b));
        // relations not involving the (possibly infinite) inverse flattening
        vk::eq("f = (a-b)/a", e.f() * a, a - b, 1e-12 * a);
        vk::eq("n = (a-b)/(a+b)", e.n() * (a + b), a - b, 1e-12 * a);
        vk::eq("e^2", e.e_sq() * (a * a), a * a - b * b, 1e-13 * a * a);
        vk::eq("e'^2", e.e_prime_sq() * (b * b), a * a - b * b, 1e-13 * a * a);
        vk::eq("e", e.e() * e.e(), e.e_sq(), 1e-14);
        vk::le("e >= 0", 0.0, e.e(), 0.0);
        vk::eq("e'", e.e_prime() * e.e_prime() * (b * b), a * a - b * b, 1e-12 * a * a);
        vk::le("e' >= 0", 0.0, e.e_prime(), 0.0);
        if a > b {
            vk::eq("1/f = a/(a-b)", e.invf() * (a - b), a, 1e-12 * a);
        }
    }
    fn h_from_ainvf() {
        let a = vk::real("a", 1e-3, 1e8);
        let i = vk::real("invf", 1.0, 1e9);
        vk::assume(i > 1.0);
        let e = Ellipsoid::from_ainvf("x", m(a), i);
        vk::eq("a", e.a().m(), a, 0.0);
        vk::eq("b = a (1 - f)", e.b().m(), a * (1.0 - 1.0 / i), 1e-13 * a);
        vk::eq("invf", e.invf(), i, 0.0);
        vk::eq("f", e.f() * i, 1.0, 1e-15);
        vk::le("b <= a", e.b().m(), a, 0.0);
        vk::le("0 <= b", 0.0, e.b().m(), 0.0);
        vk::ok("name", e.name() == "x");
    }
    fn h_refuses() {
        let a = vk::real("a", -1e8, 1e8);
        let b = vk::real("b", -1e8, 1e8);
        let valid = b > 0.0 && b <= a;
        if !valid {
            vk::refuses("from_ab refuses b <= 0 or a < b", || {
                let _ = Ellipsoid::from_ab("x", m(a), m(b));
            });
        }
    }
    fn h_refuses_invf() {
        let a = vk::real("a", -1e8, 1e8);
        let i = vk::real("invf", -1e9, 1e9);
        let valid = a > 0.0 && i > 1.0;
        if !valid {
            vk::refuses("from_ainvf refuses a <= 0 or invf <= 1", || {
                let _ = Ellipsoid::from_ainvf("x", m(a), i);
            });
        }
    }
    fn h_refuses_nan() {
        let a = if vk::choice("nan", 2) == 0 { f64::NAN } else { 6378137.0 };
        let b = if a.is_nan() { 298.0 } else { f64::NAN };
        vk::refuses("from_ab refuses NaN", || {
            let _ = Ellipsoid::from_ab("x", m(a), m(b));
        });
        vk::refuses("from_ainvf refuses NaN", || {
            let _ = Ellipsoid::from_ainvf("x", m(a), b);
        });
    }
    fn h_latitudes() {
        let a = vk::real("a", 1.0, 1e8);
        let q = vk::real("b/a", 0.1, 1.0);
        let phi = vk::real("lat", -PI_2, PI_2);
        vk::assume(phi.abs() < 1.5707963);
        let e = Ellipsoid::from_ab("x", m(a), m(a * q));
        let lat = Lat::new(rad(phi));
        let t = phi.sin() / phi.cos();
        vk::eq("reduced latitude: tan beta = (1-f) tan phi", e.reduced_latitude(lat).rad(), (q * t).atan(), 1e-11);
        vk::eq("geocentric latitude: tan psi = (1-e^2) tan phi", e.geocentric_latitude(lat).rad(), (q * q * t).atan(), 1e-11);
    }
    fn h_radii() {
        let a = vk::real("a", 1.0, 1e8);
        let q = vk::real("b/a", 0.1, 1.0);
        let phi = vk::real("lat", -PI_2, PI_2);
        let e = Ellipsoid::from_ab("x", m(a), m(a * q));
        let lat = Lat::new(rad(phi));
        let (s, c) = (phi.sin(), phi.cos());
        // N = a^2 / sqrt(a^2 cos^2 + b^2 sin^2)
        let w2 = c * c + q * q * s * s;
        let n = e.prime_vertical_radius(lat).m();
        let mm = e.prime_meridional_radius(lat).m();
        vk::eq("prime vertical radius", n, a / w2.sqrt(), 1e-10 * a);
        vk::eq("meridional radius", mm, a * q * q / (w2 * w2.sqrt()), 1e-9 * a);
        let r = e.conformal_sphere_radius(lat).m();
        vk::eq("conformal sphere radius", r, a * q / w2, 1e-9 * a);
    }
    fn h_meridian_new() {
        let x = vk::real("x", -1e4, 1e4);
        let p = PrimeMeridian::new("n", Lon::new(rad(x)));
        vk::cong("longitude", p.lon().angle().rad(), x, TAU, 1e-11);
        vk::ok("normalized", p.lon().angle().rad() > -PI && p.lon().angle().rad() <= PI);
    }
}
