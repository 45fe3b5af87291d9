//! C12: geodesics.
use crate::spec::*;
use crate::vk;
use geokit::cs::azimuth::Azimuth;
use geokit::cs::geodetic::{Lat, Lon};
use geokit::geodesy::geodesics::karney::KarneyGeodesicSolver;
use geokit::geodesy::geodesics::rapp::RappIterativeGeodisicSolver;
use geokit::geodesy::geodesics::vincenty::VincentyGeodesicSolver;
use geokit::geodesy::geodesics::{Geodesic, GeodesicSolver};
use geokit::geodesy::Ellipsoid;

/// (ellipsoid, a, f)
fn any_ellipsoid() -> (Ellipsoid, f64, f64) {
    let a = vk::real("a", 6.3e6, 6.4e6);
    let i = vk::real("invf", 150.0, 1000.0);
    (Ellipsoid::from_ainvf("e", m(a), i), a, 1.0 / i)
}
fn az(name: &'static str) -> Azimuth {
    Azimuth::new(rad(vk::real(name, -PI, PI)))
}
/// rounding of longitudes and azimuths: they lose their accuracy at the poles
fn tol(cos_beta: f64) -> f64 {
    1e-11 + 1e-14 / cos_beta
}

/// iterate x <- g(x) as the published iterations do (natively)
fn iterate<G: Fn(f64) -> f64>(x0: f64, g: G) -> f64 {
    let mut x = x0;
    for _ in 0..200 {
        let y = g(x);
        if y.is_nan() {
            return x; // coincident points
        }
        if (y - x).abs() < 1e-15 {
            return y;
        }
        x = y;
    }
    x
}

/// T. Vincenty, Direct and inverse solutions of geodesics on the ellipsoid (1975)
mod vincenty {
    pub fn big_a(u2: f64) -> f64 {
        1.0 + u2 / 16384.0 * (4096.0 + u2 * (-768.0 + u2 * (320.0 - 175.0 * u2)))
    }
    pub fn big_b(u2: f64) -> f64 {
        u2 / 1024.0 * (256.0 + u2 * (-128.0 + u2 * (74.0 - 47.0 * u2)))
    }
    pub fn delta_sigma(b: f64, ss: f64, cs: f64, c2: f64) -> f64 {
        b * ss * (c2 + b / 4.0 * (cs * (-1.0 + 2.0 * c2 * c2) - b / 6.0 * c2 * (-3.0 + 4.0 * ss * ss) * (-3.0 + 4.0 * c2 * c2)))
    }
    /// lambda - L
    pub fn dlambda(f: f64, sa: f64, sigma: f64, ss: f64, cs: f64, c2: f64) -> f64 {
        let c2a = 1.0 - sa * sa;
        let c = f / 16.0 * c2a * (4.0 + f * (4.0 - 3.0 * c2a));
        (1.0 - c) * f * sa * (sigma + c * ss * (c2 + c * cs * (-1.0 + 2.0 * c2 * c2)))
    }
}


/// R. H. Rapp, Geometric geodesy part II (1993)
mod rapp {
    /// B0, B2, B4, B6, B8 of eq. (1.39)
    pub fn b(u: f64) -> [f64; 5] {
        let (u2, u3, u4) = (u * u, u * u * u, u * u * u * u);
        [
            1.0 + u / 4.0 - 3.0 / 64.0 * u2 + 5.0 / 256.0 * u3 - 175.0 / 16384.0 * u4,
            -u / 4.0 + u2 / 16.0 - 15.0 / 512.0 * u3 + 35.0 / 2048.0 * u4,
            -u2 / 128.0 + 3.0 / 512.0 * u3 - 35.0 / 8192.0 * u4,
            -u3 / 1536.0 + 5.0 / 6144.0 * u4,
            -5.0 / 65536.0 * u4,
        ]
    }
    /// A0, A2, A4, A6 of eq. (1.56)
    pub fn a(f: f64, c: f64) -> [f64; 4] {
        let (f2, f3) = (f * f, f * f * f);
        let (c2, c3) = (c * c, c * c * c);
        [
            1.0 - (f / 4.0 + f2 / 4.0 + f3 / 4.0) * c + (3.0 / 16.0 * f2 + 27.0 / 64.0 * f3) * c2 - 25.0 / 128.0 * f3 * c3,
            (f / 4.0 + f2 / 4.0 + f3 / 4.0) * c - (f2 / 4.0 + 9.0 / 16.0 * f3) * c2 + 75.0 / 256.0 * f3 * c3,
            (f2 / 32.0 + 9.0 / 128.0 * f3) * c2 - 15.0 / 256.0 * f3 * c3,
            5.0 / 768.0 * f3 * c3,
        ]
    }
    /// k0 sigma + sum over j of kj sin(j sigma) cos(2 j sigma_m)
    pub fn sum(k: &[f64], sigma: f64, ss: f64, cs: f64, c2m: f64) -> f64 {
        let s = [ss, 2.0 * ss * cs, 3.0 * ss * cs * cs - ss * ss * ss, 4.0 * ss * cs * (cs * cs - ss * ss)];
        let c4m = 2.0 * c2m * c2m - 1.0;
        let c = [c2m, c4m, 4.0 * c2m * c2m * c2m - 3.0 * c2m, 2.0 * c4m * c4m - 1.0];
        let mut r = k[0] * sigma;
        for j in 1..k.len() {
            r = r + k[j] * s[j - 1] * c[j - 1];
        }
        r
    }
}

/// C. F. F. Karney, Algorithms for geodesics (2013)
mod karney {
    fn poly(c: &[f64], x: f64) -> f64 {
        let mut r = 0.0;
        let mut p = 1.0;
        for k in c {
            r = r + k * p;
            p = p * x;
        }
        r
    }
    /// eq. (17)
    pub fn a1(e: f64) -> f64 {
        poly(&[1.0, 0.0, 1.0 / 4.0, 0.0, 1.0 / 64.0, 0.0, 1.0 / 256.0], e) / (1.0 - e)
    }
    /// eq. (18), C1l, l = 1, ...
    pub fn c1(e: f64) -> [f64; 7] {
        [
            0.0,
            poly(&[0.0, -1.0 / 2.0, 0.0, 3.0 / 16.0, 0.0, -1.0 / 32.0], e),
            poly(&[0.0, 0.0, -1.0 / 16.0, 0.0, 1.0 / 32.0, 0.0, -9.0 / 2048.0], e),
            poly(&[0.0, 0.0, 0.0, -1.0 / 48.0, 0.0, 3.0 / 256.0], e),
            poly(&[0.0, 0.0, 0.0, 0.0, -5.0 / 512.0, 0.0, 3.0 / 512.0], e),
            poly(&[0.0, 0.0, 0.0, 0.0, 0.0, -7.0 / 1280.0], e),
            poly(&[0.0, 0.0, 0.0, 0.0, 0.0, 0.0, -7.0 / 2048.0], e),
        ]
    }
    /// eq. (21), C'1l
    pub fn c1p(e: f64) -> [f64; 7] {
        [
            0.0,
            poly(&[0.0, 1.0 / 2.0, 0.0, -9.0 / 32.0, 0.0, 205.0 / 1536.0], e),
            poly(&[0.0, 0.0, 5.0 / 16.0, 0.0, -37.0 / 96.0, 0.0, 1335.0 / 4096.0], e),
            poly(&[0.0, 0.0, 0.0, 29.0 / 96.0, 0.0, -75.0 / 128.0], e),
            poly(&[0.0, 0.0, 0.0, 0.0, 539.0 / 1536.0, 0.0, -2391.0 / 2560.0], e),
            poly(&[0.0, 0.0, 0.0, 0.0, 0.0, 3467.0 / 7680.0], e),
            poly(&[0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 38081.0 / 61440.0], e),
        ]
    }
    /// eq. (24)
    pub fn a3(n: f64, e: f64) -> f64 {
        poly(
            &[
                1.0,
                -(1.0 / 2.0 - n / 2.0),
                -(1.0 / 4.0 + n / 8.0 - 3.0 / 8.0 * n * n),
                -(1.0 / 16.0 + 3.0 / 16.0 * n + n * n / 16.0),
                -(3.0 / 64.0 + n / 32.0),
                -3.0 / 128.0,
            ],
            e,
        )
    }
    /// eq. (25)
    pub fn c3(n: f64, e: f64) -> [f64; 6] {
        let n2 = n * n;
        [
            0.0,
            poly(&[0.0, 1.0 / 4.0 - n / 4.0, 1.0 / 8.0 - n2 / 8.0, 3.0 / 64.0 + 3.0 / 64.0 * n - n2 / 64.0, 5.0 / 128.0 + n / 64.0, 3.0 / 128.0], e),
            poly(&[0.0, 0.0, 1.0 / 16.0 - 3.0 / 32.0 * n + n2 / 32.0, 3.0 / 64.0 - n / 32.0 - 3.0 / 64.0 * n2, 3.0 / 128.0 + n / 128.0, 5.0 / 256.0], e),
            poly(&[0.0, 0.0, 0.0, 5.0 / 192.0 - 3.0 / 64.0 * n + 5.0 / 192.0 * n2, 3.0 / 128.0 - 5.0 / 192.0 * n, 7.0 / 512.0], e),
            poly(&[0.0, 0.0, 0.0, 0.0, 7.0 / 512.0 - 7.0 / 256.0 * n, 7.0 / 512.0], e),
            poly(&[0.0, 0.0, 0.0, 0.0, 0.0, 21.0 / 2560.0], e),
        ]
    }
    /// x + sum of c_l sin(2 l x)
    pub fn series(c: &[f64], x: f64) -> f64 {
        // C18: Clenshaw summation gives the sum of the series
        x + geokit::math::fp::clenshaw_sin_sum(c, 2.0 * x)
    }
    pub fn direct_series(c: &[f64], x: f64) -> f64 {
        let mut r = 0.0;
        for l in 1..c.len() {
            r = r + c[l] * (2.0 * x * (l as f64)).sin();
        }
        x + r
    }
}

/// reduced latitude: (sin, cos)
fn reduced(f: f64, phi: f64) -> (f64, f64) {
    let t = (1.0 - f) * phi.tan();
    let c = 1.0 / (1.0 + t * t).sqrt();
    (t * c, c)
}

/// What the direct solution has to be, given sigma (its sine and cosine), and lambda - L: the
/// spherical triangle with vertices p1, p2 and the pole.
#[allow(clippy::too_many_arguments)]
fn direct_is(g: &Geodesic, f: f64, lon1: Lon, phi1: f64, alpha1: Azimuth, s: f64, (su, cu): (f64, f64), (ss, cs): (f64, f64), dl: f64) {
    let (sa1, ca1) = alpha1.angle().rad().sin_cos();
    let sa = cu * sa1;
    let w = cu * cs * ca1 - su * ss;
    let cb = (sa * sa + w * w).sqrt();
    vk::eq("latitude", g.p2.1.angle().rad(), (su * cs + cu * ss * ca1).atan2((1.0 - f) * cb), 1e-12);
    let lambda = (ss * sa1).atan2(cu * cs - su * ss * ca1);
    vk::cong("longitude", g.p2.0.angle().rad(), lon1.angle().rad() + lambda - dl, TAU, tol(cb));
    vk::cong("azimuth", g.alpha2.angle().rad(), sa.atan2(w), TAU, tol(cb));
    vk::eq("start", g.p1.1.angle().rad(), phi1, 0.0);
    vk::eq("start", g.p1.0.angle().rad(), lon1.angle().rad(), 0.0);
    vk::eq("length", g.s.m(), s, 0.0);
    vk::eq("first azimuth", g.alpha1.angle().rad(), alpha1.angle().rad(), 0.0);
}

/// the spherical triangle of the inverse problem: reduced latitudes (sin, cos)
struct Triangle {
    b1: (f64, f64),
    b2: (f64, f64),
}
impl Triangle {
    fn sin2_sigma(&self, x: f64) -> f64 {
        let u = self.b2.1 * x.sin();
        let v = self.b1.1 * self.b2.0 - self.b1.0 * self.b2.1 * x.cos();
        u * u + v * v
    }
    fn cos_sigma(&self, x: f64) -> f64 {
        self.b1.0 * self.b2.0 + self.b1.1 * self.b2.1 * x.cos()
    }
    fn inverse_is(&self, g: &Geodesic, lambda: f64, ss: f64, p1: (Lon, f64), p2: (Lon, f64)) {
        let ((s1, c1), (s2, c2)) = (self.b1, self.b2);
        let (sl, cl) = lambda.sin_cos();
        let tol = 1e-9 + 1e-13 / ss;
        vk::cong("first azimuth", g.alpha1.angle().rad(), (c2 * sl).atan2(c1 * s2 - s1 * c2 * cl), TAU, tol / c1);
        vk::cong("second azimuth", g.alpha2.angle().rad(), (c1 * sl).atan2(c1 * s2 * cl - s1 * c2), TAU, tol / c2);
        vk::eq("start", g.p1.1.angle().rad(), p1.1, 0.0);
        vk::eq("start", g.p1.0.angle().rad(), p1.0.angle().rad(), 0.0);
        vk::eq("end", g.p2.1.angle().rad(), p2.1, 0.0);
        vk::eq("end", g.p2.0.angle().rad(), p2.0.angle().rad(), 0.0);
    }
}

/// terrestrial
fn earth() -> Ellipsoid {
    let a = vk::real("a", 6.377e6, 6.379e6);
    let i = vk::real("invf", 280.0, 310.0);
    Ellipsoid::from_ainvf("e", m(a), i)
}
fn point(lon: &'static str, lat: &'static str) -> (Lon, Lat) {
    (any_lon(lon), any_lat(lat))
}
fn vec3(p: (Lon, Lat)) -> [f64; 3] {
    let (l, b) = (p.0.angle().rad(), p.1.angle().rad());
    [b.cos() * l.cos(), b.cos() * l.sin(), b.sin()]
}
/// the unit tangent at p with the given azimuth: unlike azimuths and longitudes, continuous at the poles
fn tangent(p: (Lon, Lat), alpha: Azimuth) -> [f64; 3] {
    let (l, b, z) = (p.0.angle().rad(), p.1.angle().rad(), alpha.angle().rad());
    [
        -b.sin() * l.cos() * z.cos() - l.sin() * z.sin(),
        -b.sin() * l.sin() * z.cos() + l.cos() * z.sin(),
        b.cos() * z.cos(),
    ]
}
fn dist(u: [f64; 3], v: [f64; 3]) -> f64 {
    ((u[0] - v[0]).powi(2) + (u[1] - v[1]).powi(2) + (u[2] - v[2]).powi(2)).sqrt()
}
fn neg(u: [f64; 3]) -> [f64; 3] {
    [-u[0], -u[1], -u[2]]
}
const R: f64 = 6.4e6;

harness! {
    /// native: the three direct solutions are the same
    fn h_direct_solvers_agree() {
        let el = earth();
        let p = point("lon1", "lat1");
        let alpha = az("azimuth");
        let s = vk::real("s", -2e7, 2e7);
        let k = KarneyGeodesicSolver::new(&el).solve_direct(p, alpha, m(s)).unwrap();
        let v = VincentyGeodesicSolver::new(&el).solve_direct(p, alpha, m(s));
        let r = RappIterativeGeodisicSolver::new(&el).solve_direct(p, alpha, m(s));
        match (v, r) {
            (Ok(v), Ok(r)) => {
                vk::near("Vincenty position", R * dist(vec3(v.p2), vec3(k.p2)), 0.0, 2e-4);
                vk::near("Rapp position", R * dist(vec3(r.p2), vec3(k.p2)), 0.0, 1e-5);
                vk::near("Vincenty azimuth", dist(tangent(v.p2, v.alpha2), tangent(k.p2, k.alpha2)), 0.0, 1e-10);
                vk::near("Rapp azimuth", dist(tangent(r.p2, r.alpha2), tangent(k.p2, k.alpha2)), 0.0, 1e-10);
            }
            _ => vk::ok("direct solutions exist", false),
        }
    }
    /// native: inverse of direct
    fn h_inverse_of_direct() {
        let el = earth();
        let p = point("lon1", "lat1");
        let alpha = az("azimuth");
        let s = vk::real("s", 1.0, 1.9e7);
        let k = KarneyGeodesicSolver::new(&el).solve_direct(p, alpha, m(s)).unwrap();
        let check = |g: Result<Geodesic, &'static str>, d: &'static str, f: &'static str, t: &'static str, acc: f64| match g {
            Ok(g) => {
                vk::near(d, g.s.m(), s, acc);
                let tol = 1e-10 + 1e-7 / s;
                vk::near(f, dist(tangent(p, g.alpha1), tangent(p, alpha)), 0.0, tol);
                vk::near(t, dist(tangent(k.p2, g.alpha2), tangent(k.p2, k.alpha2)), 0.0, tol);
            }
            Err(_) => vk::ok("inverse solution exists", false),
        };
        check(VincentyGeodesicSolver::new(&el).solve_inverse(p, k.p2), "Vincenty length", "Vincenty first azimuth", "Vincenty second azimuth", 2e-4);
        check(RappIterativeGeodisicSolver::new(&el).solve_inverse(p, k.p2), "Rapp length", "Rapp first azimuth", "Rapp second azimuth", 1e-5);
    }
    /// native: exchange of the end points, reflection in the equator
    fn h_symmetry() {
        let el = earth();
        let (p, q) = (point("lon1", "lat1"), point("lon2", "lat2"));
        let (l, b1, b2) = ((q.0 - p.0).rad(), p.1.angle().rad(), q.1.angle().rad());
        // not antipodal (within 6 degrees)
        vk::assume((l.abs() - PI).abs() > 0.1 || (b1 + b2).abs() > 0.1);
        let mirror = |x: (Lon, Lat)| (x.0, Lat::new(rad(-x.1.angle().rad())));
        let (v, r) = (VincentyGeodesicSolver::new(&el), RappIterativeGeodisicSolver::new(&el));
        for (g, h, n, ex) in [
            (v.solve_inverse(p, q), v.solve_inverse(q, p), v.solve_inverse(mirror(p), mirror(q)), v.solve_inverse(p, p)),
            (r.solve_inverse(p, q), r.solve_inverse(q, p), r.solve_inverse(mirror(p), mirror(q)), r.solve_inverse(p, p)),
        ] {
            match (g, h, n, ex) {
                (Ok(g), Ok(h), Ok(n), Ok(ex)) => {
                    let tol = 1e-9 + 1e-7 / g.s.m();
                    vk::near("exchange: length", h.s.m(), g.s.m(), 1e-6);
                    vk::near("exchange: first azimuth", dist(tangent(q, h.alpha1), neg(tangent(q, g.alpha2))), 0.0, tol);
                    vk::near("exchange: second azimuth", dist(tangent(p, h.alpha2), neg(tangent(p, g.alpha1))), 0.0, tol);
                    vk::near("reflection: length", n.s.m(), g.s.m(), 1e-6);
                    let t = tangent(p, g.alpha1);
                    vk::near("reflection: azimuth", dist(tangent(mirror(p), n.alpha1), [t[0], t[1], -t[2]]), 0.0, tol);
                    vk::near("same point", ex.s.m(), 0.0, 0.0);
                    vk::le("not longer than half a meridian", g.s.m(), PI * 6.379e6, 0.0);
                }
                _ => vk::ok("inverse solution exists", false),
            }
        }
    }
    /// native: near antipodal points, an error or a geodesic
    fn h_antipodal() {
        let el = earth();
        let p = point("lon1", "lat1");
        let (dl, db) = (vk::real("dlon", -0.02, 0.02), vk::real("dlat", -0.02, 0.02));
        let b = -p.1.angle().rad() + db;
        vk::assume(b.abs() <= PI_2);
        let q = (Lon::new(rad(p.0.angle().rad() + PI + dl)), Lat::new(rad(b)));
        for g in [VincentyGeodesicSolver::new(&el).solve_inverse(p, q), RappIterativeGeodisicSolver::new(&el).solve_inverse(p, q)] {
            if let Ok(g) = g {
                let k = KarneyGeodesicSolver::new(&el).solve_direct(p, g.alpha1, g.s).unwrap();
                vk::near("it is a geodesic", R * dist(vec3(k.p2), vec3(q)), 0.0, 1.0);
            }
        }
    }
    fn h_vincenty_direct() {
        let (el, a, f) = any_ellipsoid();
        let lon1 = any_lon("lon1");
        let phi1 = vk::real("lat1", -1.5707, 1.5707);
        let alpha1 = az("azimuth");
        let s = vk::real("s", -2e7, 2e7);
        let r = VincentyGeodesicSolver::new(&el).solve_direct((lon1, Lat::new(rad(phi1))), alpha1, m(s));
        let b = a * (1.0 - f);
        let tu = (1.0 - f) * phi1.tan();
        let (su, cu) = reduced(f, phi1);
        let (sa1, ca1) = alpha1.angle().rad().sin_cos();
        let sigma1 = tu.atan2(ca1);
        let sa = cu * sa1;
        let u2 = (1.0 - sa * sa) * (a * a - b * b) / (b * b);
        let s0 = s / (b * vincenty::big_a(u2));
        let step = |x: f64| s0 + vincenty::delta_sigma(vincenty::big_b(u2), x.sin(), x.cos(), (2.0 * sigma1 + x).cos());
        match r {
            Ok(g) => {
                let x = vk::witness("sigma", || iterate(s0, step));
                let sigma = step(x);
                vk::near("converged", sigma, x, 1e-11);
                let (ss, cs) = sigma.sin_cos();
                let dl = vincenty::dlambda(f, sa, sigma, ss, cs, (2.0 * sigma1 + sigma).cos());
                direct_is(&g, f, lon1, phi1, alpha1, s, (su, cu), (ss, cs), dl);
            }
            Err(_) => (),
        }
    }
    fn h_rapp_direct() {
        let (el, a, f) = any_ellipsoid();
        let lon1 = any_lon("lon1");
        let phi1 = vk::real("lat1", -1.5707, 1.5707);
        let alpha1 = az("azimuth");
        let s = vk::real("s", -2e7, 2e7);
        let r = RappIterativeGeodisicSolver::new(&el).solve_direct((lon1, Lat::new(rad(phi1))), alpha1, m(s));
        let b = a * (1.0 - f);
        let (su, cu) = reduced(f, phi1);
        let (sa1, ca1) = alpha1.angle().rad().sin_cos();
        let sigma1 = ((1.0 - f) * phi1.tan()).atan2(ca1);
        let sa = cu * sa1;
        let k = rapp::b((1.0 - sa * sa) * (a * a - b * b) / (b * b));
        // s / b = B0 sigma + B2 sin sigma cos 2 sigma_m + ...
        let step = |x: f64| s / (b * k[0]) - rapp::sum(&[0.0, k[1], k[2], k[3]], 0.0, x.sin(), x.cos(), (2.0 * sigma1 + x).cos()) / k[0];
        match r {
            Ok(g) => {
                let x = vk::witness("sigma", || iterate(s / (b * k[0]), step));
                vk::near("converged", step(x), x, 1e-13);
                let (ss, cs) = x.sin_cos();
                let dl = f * sa * rapp::sum(&rapp::a(f, 1.0 - sa * sa), step(x), ss, cs, (2.0 * sigma1 + x).cos());
                direct_is(&g, f, lon1, phi1, alpha1, s, (su, cu), (ss, cs), dl);
            }
            Err(_) => (),
        }
    }
    fn h_vincenty_inverse() {
        let (el, a, f) = any_ellipsoid();
        let (lon1, lon2) = (any_lon("lon1"), any_lon("lon2"));
        let (phi1, phi2) = (vk::real("lat1", -1.5707, 1.5707), vk::real("lat2", -1.5707, 1.5707));
        // C01: the difference of longitudes, wrapped
        let l = (lon2 - lon1).rad();
        vk::assume(l > -3.0);
        vk::assume(l < 3.0);
        let r = VincentyGeodesicSolver::new(&el).solve_inverse((lon1, Lat::new(rad(phi1))), (lon2, Lat::new(rad(phi2))));
        let t = Triangle { b1: reduced(f, phi1), b2: reduced(f, phi2) };
        let at = |x: f64| {
            let (q, c) = (t.sin2_sigma(x), t.cos_sigma(x));
            let sigma = q.sqrt().atan2(c);
            let (ss, cs) = sigma.sin_cos();
            (sigma, ss, cs, t.b1.1 * t.b2.1 * x.sin() / ss)
        };
        let step = |x: f64| {
            let (sigma, ss, cs, sa) = at(x);
            if sa * sa == 1.0 {
                l + f * sa * sigma
            } else {
                l + vincenty::dlambda(f, sa, sigma, ss, cs, cs - 2.0 * t.b1.0 * t.b2.0 / (1.0 - sa * sa))
            }
        };
        match r {
            Ok(g) => {
                let x = vk::witness("lambda", || iterate(l, step));
                let (sigma, ss, cs, sa) = at(x);
                if ss == 0.0 {
                    vk::eq("coincident", g.s.m(), 0.0, 0.0);
                    return;
                }
                vk::near("converged", step(x), x, 1e-11);
                let b = a * (1.0 - f);
                t.inverse_is(&g, step(x), ss, (lon1, phi1), (lon2, phi2));
                if sa * sa == 1.0 {
                    // along the equator
                    vk::eq("distance", g.s.m(), b * sigma, 5e-5);
                    return;
                }
                let u2 = (1.0 - sa * sa) * (a * a - b * b) / (b * b);
                let ds = vincenty::delta_sigma(vincenty::big_b(u2), ss, cs, cs - 2.0 * t.b1.0 * t.b2.0 / (1.0 - sa * sa));
                vk::eq("distance", g.s.m(), b * vincenty::big_a(u2) * (sigma - ds), 5e-5);
            }
            Err(_) => (),
        }
    }
    fn h_rapp_inverse() {
        let (el, a, f) = any_ellipsoid();
        let (lon1, lon2) = (any_lon("lon1"), any_lon("lon2"));
        let (phi1, phi2) = (vk::real("lat1", -1.5707, 1.5707), vk::real("lat2", -1.5707, 1.5707));
        let l = (lon2 - lon1).rad();
        vk::assume(l > -3.0);
        vk::assume(l < 3.0);
        let r = RappIterativeGeodisicSolver::new(&el).solve_inverse((lon1, Lat::new(rad(phi1))), (lon2, Lat::new(rad(phi2))));
        let t = Triangle { b1: reduced(f, phi1), b2: reduced(f, phi2) };
        let at = |x: f64| {
            let (ss, cs) = (t.sin2_sigma(x).sqrt(), t.cos_sigma(x));
            (ss.atan2(cs), ss, cs, t.b1.1 * t.b2.1 * x.sin() / ss)
        };
        let step = |x: f64| {
            let (sigma, ss, cs, sa) = at(x);
            if sa * sa == 1.0 {
                l + f * sa * sigma
            } else {
                l + f * sa * rapp::sum(&rapp::a(f, 1.0 - sa * sa), sigma, ss, cs, cs - 2.0 * t.b1.0 * t.b2.0 / (1.0 - sa * sa))
            }
        };
        match r {
            Ok(g) => {
                let x = vk::witness("lambda", || iterate(l, step));
                let (sigma, ss, cs, sa) = at(x);
                if sigma == 0.0 {
                    vk::eq("coincident", g.s.m(), 0.0, 0.0);
                    return;
                }
                vk::near("converged", step(x), x, 1e-11);
                let b = a * (1.0 - f);
                t.inverse_is(&g, step(x), ss, (lon1, phi1), (lon2, phi2));
                if sa * sa == 1.0 {
                    // along the equator
                    vk::eq("distance", g.s.m(), b * sigma, 5e-5);
                    return;
                }
                let k = rapp::b((1.0 - sa * sa) * (a * a - b * b) / (b * b));
                vk::eq("distance", g.s.m(), b * rapp::sum(&k, sigma, ss, cs, cs - 2.0 * t.b1.0 * t.b2.0 / (1.0 - sa * sa)), 1e-6);
            }
            Err(_) => (),
        }
    }
    fn h_karney_direct() {
        let (el, a, f) = any_ellipsoid();
        let lon1 = any_lon("lon1");
        let phi1 = vk::real("lat1", -1.5707, 1.5707);
        let alpha1 = az("azimuth");
        let s = vk::real("s", -2e7, 2e7);
        let r = KarneyGeodesicSolver::new(&el).solve_direct((lon1, Lat::new(rad(phi1))), alpha1, m(s));
        let b = a * (1.0 - f);
        let n = (a - b) / (a + b);
        let (su, cu) = reduced(f, phi1);
        let (sa1, ca1) = alpha1.angle().rad().sin_cos();
        // triangle of p1
        let alpha0 = (sa1 * cu).atan2(ca1.hypot(sa1 * su));
        let (s0, c0) = alpha0.sin_cos();
        let sigma1 = su.atan2(ca1 * cu);
        let omega1 = (sa1 * cu * su).atan2(ca1 * cu);
        let k2 = (a * a - b * b) / (b * b) * c0 * c0;
        let k1 = (1.0 + k2).sqrt();
        let e = (k1 - 1.0) / (k1 + 1.0);
        let a1 = karney::a1(e);
        let tau2 = (b * (a1 * karney::series(&karney::c1(e), sigma1)) + s) / (b * a1);
        let sigma2 = karney::direct_series(&karney::c1p(e), tau2);
        // triangle of p2
        let (ss, cs) = sigma2.sin_cos();
        let cb = (c0 * cs).hypot(s0);
        let a3 = karney::a3(n, e);
        let c3 = karney::c3(n, e);
        let lambda = |omega: f64, sigma: f64| omega - f * s0 * (a3 * karney::series(&c3, sigma));
        let omega2 = (s0 * ss).atan2(cs);
        match r {
            Ok(g) => {
                vk::eq("latitude", g.p2.1.angle().rad(), (c0 * ss / cb / (1.0 - f)).atan(), 1e-12);
                vk::cong("longitude", g.p2.0.angle().rad(), lon1.angle().rad() + lambda(omega2, sigma2) - lambda(omega1, sigma1), TAU, tol(cb));
                vk::cong("azimuth", g.alpha2.angle().rad(), s0.atan2(c0 * cs), TAU, tol(cb));
                vk::eq("start", g.p1.1.angle().rad(), phi1, 0.0);
                vk::eq("start", g.p1.0.angle().rad(), lon1.angle().rad(), 0.0);
                vk::eq("length", g.s.m(), s, 0.0);
                vk::eq("first azimuth", g.alpha1.angle().rad(), alpha1.angle().rad(), 0.0);
            }
            Err(_) => vk::ok("solved", false),
        }
    }
}
