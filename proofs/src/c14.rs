//! C14: line strings.
use crate::spec::*;
use crate::vk;
use geokit::crs::projected::ProjectedCrs;
use geokit::crs::Crs;
use geokit::cs::cartesian::projected::ProjectedAxes;
use geokit::cs::Coord;
use geokit::geodesy::{Ellipsoid, GeodeticDatum, PrimeMeridian};
use geokit::cs::geodetic::Lon;
use geokit::geometry::coordinate::curve::line_string::{LineString, LineStringBuilder};
use geokit::geometry::coordinate::curve::{CurveSegment, ParameterizedCurve};
use geokit::projections::ProjectionSpec;
use geokit::quantities::length::Length;
use geokit::units::length::M;
use geokit::verif_hooks::line::{line_len, line_pos};

pub fn crs2() -> ProjectedCrs {
    crs(ProjectedAxes::EastNorth { horiz_unit: M })
}
pub fn crs3() -> ProjectedCrs {
    crs(ProjectedAxes::EastNorthUp { horiz_unit: M, height_unit: M })
}
fn crs(axes: ProjectedAxes) -> ProjectedCrs {
    let datum = GeodeticDatum::new("d", Ellipsoid::from_ainvf("e", m(6378137.0), 298.257223563), PrimeMeridian::new("p", Lon::ZERO));
    ProjectedCrs { id: "p".into(), datum, axes, projection: ProjectionSpec::UTMNorth { zone: 31 } }
}
/// a reference system without distances
#[derive(Debug)]
pub struct NoDist;
impl Crs for NoDist {
    fn id(&self) -> &str {
        "none"
    }
    fn dim(&self) -> usize {
        2
    }
    fn dist(&self, _a: &Coord, _b: &Coord) -> Result<Length, &'static str> {
        Err("none")
    }
}

const X: [&str; 10] = ["x0", "x1", "x2", "x3", "x4", "x5", "x6", "x7", "x8", "x9"];
const Y: [&str; 10] = ["y0", "y1", "y2", "y3", "y4", "y5", "y6", "y7", "y8", "y9"];
const Z: [&str; 10] = ["z0", "z1", "z2", "z3", "z4", "z5", "z6", "z7", "z8", "z9"];
pub fn pos3(i: usize) -> [f64; 3] {
    [vk::real(X[i], -1e5, 1e5), vk::real(Y[i], -1e5, 1e5), vk::real(Z[i], -1e4, 1e4)]
}
pub fn d3(a: [f64; 3], b: [f64; 3]) -> f64 {
    (a[0] - b[0]).hypot(a[1] - b[1]).hypot(a[2] - b[2])
}
/// a reference system with any distance at all: the positions are numbered, the distance from i to j is DIST[i]
#[derive(Debug)]
pub struct AnyDist;
impl Crs for AnyDist {
    fn id(&self) -> &str {
        "any"
    }
    fn dim(&self) -> usize {
        2
    }
    fn dist(&self, a: &Coord, b: &Coord) -> Result<Length, &'static str> {
        let (i, j) = (a[0] as usize, b[0] as usize);
        if j != i + 1 {
            return Err("not the next position");
        }
        Ok(m(vk::real(Z[i], 1.0, 1e6)))
    }
}
/// a pseudo-random chain of positions
pub fn chain(n: usize, seed: usize) -> Vec<[f64; 2]> {
    let mut s = seed as u64 * 2 + 1;
    let mut next = || {
        s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        ((s >> 40) as f64) / 16777216.0 * 2e4 - 1e4
    };
    (0..n).map(|_| [next(), next()]).collect()
}
pub fn pos(i: usize) -> [f64; 2] {
    [vk::real(X[i], -1e5, 1e5), vk::real(Y[i], -1e5, 1e5)]
}
pub fn d2(a: [f64; 2], b: [f64; 2]) -> f64 {
    (a[0] - b[0]).hypot(a[1] - b[1])
}
/// the line through the n positions
pub fn line(c: &dyn Crs, p: &[[f64; 2]]) -> Option<LineString> {
    let mut b = match LineStringBuilder::with_line(c, p[0], p[1]) {
        Ok(b) => b,
        Err(_) => {
            vk::ok("a line is built", false);
            return None;
        }
    };
    for i in 2..p.len() {
        b = match b.line_to(p[i]) {
            Ok(b) => b,
            Err(_) => {
                vk::ok("a line is continued", false);
                return None;
            }
        };
    }
    Some(b.build())
}
fn at(id: &'static str, got: &[f64], x: f64, y: f64) {
    vk::ok("dimension of the position", got.len() == 2);
    vk::eq(id, got[0], x, 1e-6);
    vk::eq(id, got[1], y, 1e-6);
}
fn positions<const N: usize>() -> [[f64; 2]; N] {
    let mut p = [[0.0; 2]; N];
    for i in 0..N {
        p[i] = pos(i);
    }
    p
}
fn shape<const N: usize>() {
    let c = crs2();
    let p = positions::<N>();
    if let Some(l) = line(&c, &p) {
        vk::ok("coordinate dimension", l.coord_dim() == 2);
        vk::ok("number of positions", line_len(&l) == N);
        at("start", l.start(), p[0][0], p[0][1]);
        at("end", l.end(), p[N - 1][0], p[N - 1][1]);
        let mut s = 0.0;
        for i in 0..N {
            at("position", line_pos(&l, i), p[i][0], p[i][1]);
            if i > 0 {
                s = s + d2(p[i - 1], p[i]);
            }
        }
        vk::eq("length", l.length(&c).m(), s, 1e-6);
        let b = l.curve_boundary();
        at("start of the boundary", &b.start, p[0][0], p[0][1]);
        at("end of the boundary", &b.end, p[N - 1][0], p[N - 1][1]);
    }
}
/// the position at `t` along segment `k`
fn param<const N: usize>() {
    let c = crs2();
    let p = positions::<N>();
    let k = vk::choice("segment", N - 1);
    let t = vk::real("t", 0.0, 1.0);
    if let Some(l) = line(&c, &p) {
        let mut s = 0.0;
        for i in 0..k {
            s = s + d2(p[i], p[i + 1]);
        }
        s = s + t * d2(p[k], p[k + 1]);
        // rounding must not take the parameter past the end
        vk::assume(s <= l.length(&c).m());
        let q = l.param(&c, m(s));
        at("position at the arc length", &q, p[k][0] + t * (p[k + 1][0] - p[k][0]), p[k][1] + t * (p[k + 1][1] - p[k][1]));
    }
}

harness! {
    fn h_shape_2() { shape::<2>() }
    fn h_shape_3() { shape::<3>() }
    fn h_shape_5() { shape::<5>() }
    fn h_param_2() { param::<2>() }
    fn h_param_3() { param::<3>() }
    fn h_param_4() { param::<4>() }
    fn h_shape_10() { shape::<10>() }
    /// whatever the reference system says the distances are
    fn h_any_distance() {
        let c = AnyDist;
        let p = [[0.0, vk::real("y0", -1e5, 1e5)], [1.0, vk::real("y1", -1e5, 1e5)], [2.0, vk::real("y2", -1e5, 1e5)], [3.0, vk::real("y3", -1e5, 1e5)]];
        let d = [vk::real("z0", 1.0, 1e6), vk::real("z1", 1.0, 1e6), vk::real("z2", 1.0, 1e6)];
        let k = vk::choice("segment", 3);
        let t = vk::real("t", 0.0, 1.0);
        if let Some(l) = line(&c, &p) {
            vk::eq("length", l.length(&c).m(), d[0] + d[1] + d[2], 1e-6);
            let mut s = 0.0;
            for i in 0..k {
                s = s + d[i];
            }
            s = s + t * d[k];
            vk::assume(s <= l.length(&c).m());
            let q = l.param(&c, m(s));
            vk::eq("position at the arc length", q[0], k as f64 + t, 1e-6);
            vk::eq("position at the arc length", q[1], p[k][1] + t * (p[k + 1][1] - p[k][1]), 1e-3);
        }
    }
    fn h_param_3d() {
        let c = crs3();
        let p = [pos3(0), pos3(1), pos3(2)];
        let k = vk::choice("segment", 2);
        let t = vk::real("t", 0.0, 1.0);
        match LineStringBuilder::with_line(&c, p[0], p[1]).and_then(|b| b.line_to(p[2])) {
            Ok(b) => {
                let l = b.build();
                let (d0, d1) = (d3(p[0], p[1]), d3(p[1], p[2]));
                vk::eq("length", l.length(&c).m(), d0 + d1, 1e-6);
                for i in 0..3 {
                    vk::eq("start", l.start()[i], p[0][i], 0.0);
                    vk::eq("end", l.end()[i], p[2][i], 0.0);
                }
                let s = if k == 0 { t * d0 } else { d0 + t * d1 };
                vk::assume(s <= l.length(&c).m());
                let q = l.param(&c, m(s));
                for i in 0..3 {
                    vk::eq("position at the arc length", q[i], p[k][i] + t * (p[k + 1][i] - p[k][i]), 1e-6);
                }
            }
            Err(_) => vk::ok("built", false),
        }
    }
    /// bounded: long lines
    fn h_long() {
        let c = crs2();
        let n = 2 + vk::choice("positions - 2", 40);
        let p = chain(n, vk::choice("seed", 100000));
        let k = vk::choice("segment", 41) % (n - 1);
        let t = vk::real("t", 0.0, 1.0);
        if let Some(l) = line(&c, &p) {
            vk::ok("number of positions", line_len(&l) == n);
            let d: Vec<f64> = (1..n).map(|i| d2(p[i - 1], p[i])).collect();
            vk::eq("length", l.length(&c).m(), d.iter().sum::<f64>(), 1e-6);
            at("start", l.start(), p[0][0], p[0][1]);
            at("end", l.end(), p[n - 1][0], p[n - 1][1]);
            let s = d[0..k].iter().sum::<f64>() + t * d[k];
            let q = l.param(&c, m(s.min(l.length(&c).m())));
            at("position at the arc length", &q, p[k][0] + t * (p[k + 1][0] - p[k][0]), p[k][1] + t * (p[k + 1][1] - p[k][1]));
        }
    }
    fn h_ends() {
        let c = crs2();
        let p = [pos(0), pos(1), pos(2)];
        if let Some(l) = line(&c, &p) {
            at("at zero", &l.param(&c, m(0.0)), p[0][0], p[0][1]);
            let s = l.length(&c);
            at("at the length", &l.param(&c, s), p[2][0], p[2][1]);
            vk::refuses("beyond the end", || { l.param(&c, m(s.m() + 1.0)); });
        }
    }
    /// repeated positions
    fn h_repeated() {
        let c = crs2();
        let (a, b) = (pos(0), pos(1));
        let t = vk::real("t", 0.0, 1.0);
        let p = match vk::choice("repeated", 4) { 0 => [a, a, b], 1 => [a, b, b], 2 => [a, a, a], _ => [a, b, a] };
        if let Some(l) = line(&c, &p) {
            let s = l.length(&c).m();
            let back = p[2][0] == a[0] && p[2][1] == a[1] && (p[1][0] != a[0] || p[1][1] != a[1]);
            let q = l.param(&c, m(t * s));
            vk::ok("finite", q[0].is_finite() && q[1].is_finite());
            if back {
                let u = if t <= 0.5 { 2.0 * t } else { 2.0 - 2.0 * t };
                at("position there and back", &q, a[0] + u * (b[0] - a[0]), a[1] + u * (b[1] - a[1]));
            } else {
                at("position", &q, a[0] + t * (p[2][0] - a[0]), a[1] + t * (p[2][1] - a[1]));
            }
        }
    }
    /// a line of length zero
    fn h_point_line() {
        let c = crs2();
        let a = pos(0);
        if let Some(l) = line(&c, &[a, a]) {
            vk::eq("no length", l.length(&c).m(), 0.0, 0.0);
            at("its only position", &l.param(&c, m(0.0)), a[0], a[1]);
        }
    }
    fn h_close() {
        let c = crs2();
        let (p0, p1, p2) = (pos(0), pos(1), pos(2));
        let b = match LineStringBuilder::with_line(&c, p0, p1) { Ok(b) => b, Err(_) => return };
        let b = match b.line_to(p2) { Ok(b) => b, Err(_) => return };
        match b.close() {
            Ok(l) => {
                vk::ok("number of positions", line_len(&l) == 4);
                at("start", l.start(), p0[0], p0[1]);
                at("end", l.end(), p0[0], p0[1]);
                at("third", line_pos(&l, 2), p2[0], p2[1]);
                vk::eq("length", l.length(&c).m(), d2(p0, p1) + d2(p1, p2) + d2(p2, p0), 1e-6);
            }
            Err(_) => vk::ok("closed", false),
        }
    }
    fn h_3d() {
        let c = crs3();
        let (x, y, z) = (vk::real("x", -1e5, 1e5), vk::real("y", -1e5, 1e5), vk::real("z", -1e3, 1e3));
        let (u, v, w) = (vk::real("u", -1e5, 1e5), vk::real("v", -1e5, 1e5), vk::real("w", -1e3, 1e3));
        let t = vk::real("t", 0.0, 1.0);
        match LineStringBuilder::with_line(&c, [x, y, z], [u, v, w]) {
            Ok(b) => {
                let l = b.build();
                vk::ok("coordinate dimension", l.coord_dim() == 3 && line_len(&l) == 2);
                let s = l.length(&c).m();
                vk::eq("length", s, (x - u).hypot(y - v).hypot(z - w), 1e-6);
                let q = l.param(&c, m(t * s));
                vk::ok("dimension", q.len() == 3);
                vk::eq("x", q[0], x + t * (u - x), 1e-6);
                vk::eq("y", q[1], y + t * (v - y), 1e-6);
                vk::eq("z", q[2], z + t * (w - z), 1e-6);
            }
            Err(_) => vk::ok("built", false),
        }
    }
    fn h_refused() {
        let c = crs2();
        let (p0, p1) = (pos(0), pos(1));
        let b = match LineStringBuilder::with_line(&c, p0, p1) { Ok(b) => b, Err(_) => return };
        vk::ok("a position of another dimension is refused", b.clone().line_to([0.0, 1.0, 2.0]).is_err());
        vk::ok("a position of another dimension is refused", b.line_to([0.0]).is_err());
        let n = NoDist;
        vk::ok("no line without a distance", LineStringBuilder::with_line(&n, p0, p1).is_err());
    }
}
