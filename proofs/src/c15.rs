//! C15: curves.
use crate::c14::{chain, crs2, crs3, d2, d3, line, pos, pos3};
use crate::spec::*;
use crate::vk;
use geokit::geometry::coordinate::curve::line_string::LineStringBuilder;
use geokit::geometry::coordinate::curve::ParameterizedCurve;
use geokit::geometry::primitive::curve::{Curve, CurveBoundary, CurveBuilder};
use geokit::geometry::primitive::point::Point;
use geokit::geometry::{Geometry, GeometryType};
use geokit::crs::Crs;

/// the curve whose segments are the lines through the given positions
fn curve(c: &dyn Crs, segs: &[&[[f64; 2]]]) -> Option<Curve> {
    let mut b = match CurveBuilder::with_seg(c, line(c, segs[0])?) {
        Ok(b) => b,
        Err(_) => {
            vk::ok("a curve is built", false);
            return None;
        }
    };
    for i in 1..segs.len() {
        b = match b.append_segment(line(c, segs[i])?) {
            Ok(b) => b,
            Err(_) => {
                vk::ok("a joined segment is accepted", false);
                return None;
            }
        };
    }
    Some(b.build())
}
fn at(id: &'static str, got: &[f64], x: f64, y: f64) {
    vk::ok("dimension of the position", got.len() == 2);
    vk::eq(id, got[0], x, 1e-6);
    vk::eq(id, got[1], y, 1e-6);
}

harness! {
    fn h_shape() {
        let c = crs2();
        let p = [pos(0), pos(1), pos(2), pos(3)];
        let k = match vk::choice("segments", 3) {
            0 => curve(&c, &[&[p[0], p[1], p[2], p[3]]]),
            1 => curve(&c, &[&[p[0], p[1]], &[p[1], p[2], p[3]]]),
            _ => curve(&c, &[&[p[0], p[1]], &[p[1], p[2]], &[p[2], p[3]]]),
        };
        if let Some(k) = k {
            vk::ok("coordinate dimension", k.coord_dim() == 2);
            vk::ok("type", k.geometry_type() == GeometryType::Curve(2));
            at("start", k.start(), p[0][0], p[0][1]);
            at("end", k.end(), p[3][0], p[3][1]);
            vk::eq("length", k.length(&c).m(), d2(p[0], p[1]) + d2(p[1], p[2]) + d2(p[2], p[3]), 1e-6);
        }
    }
    /// position at t along line n of the chain, however the chain is cut into segments
    fn h_param() {
        let c = crs2();
        let p = [pos(0), pos(1), pos(2), pos(3)];
        let k = match vk::choice("segments", 4) {
            0 => curve(&c, &[&[p[0], p[1], p[2], p[3]]]),
            1 => curve(&c, &[&[p[0], p[1]], &[p[1], p[2], p[3]]]),
            2 => curve(&c, &[&[p[0], p[1], p[2]], &[p[2], p[3]]]),
            _ => curve(&c, &[&[p[0], p[1]], &[p[1], p[2]], &[p[2], p[3]]]),
        };
        let n = vk::choice("line", 3);
        let t = vk::real("t", 0.0, 1.0);
        if let Some(k) = k {
            let mut s = 0.0;
            for i in 0..n {
                s = s + d2(p[i], p[i + 1]);
            }
            s = s + t * d2(p[n], p[n + 1]);
            vk::assume(s <= k.length(&c).m());
            at("position at the arc length", &k.param(&c, m(s)), p[n][0] + t * (p[n + 1][0] - p[n][0]), p[n][1] + t * (p[n + 1][1] - p[n][1]));
        }
    }
    fn h_ends() {
        let c = crs2();
        let p = [pos(0), pos(1), pos(2)];
        if let Some(k) = curve(&c, &[&[p[0], p[1]], &[p[1], p[2]]]) {
            let s = k.length(&c);
            at("at zero", &k.param(&c, m(0.0)), p[0][0], p[0][1]);
            at("at the length", &k.param(&c, s), p[2][0], p[2][1]);
            vk::refuses("beyond the end", || { k.param(&c, m(s.m() + 1.0)); });
        }
    }
    /// zero-length segments
    fn h_degenerate() {
        let c = crs2();
        let (a, b) = (pos(0), pos(1));
        let t = vk::real("t", 0.0, 1.0);
        let k = match vk::choice("where", 4) {
            0 => curve(&c, &[&[a, a], &[a, b]]),
            1 => curve(&c, &[&[a, b], &[b, b]]),
            2 => curve(&c, &[&[a, a], &[a, a]]),
            _ => curve(&c, &[&[a, a], &[a, b], &[b, b]]),
        };
        let e = if vk::choice("where", 4) == 2 { a } else { b };
        if let Some(k) = k {
            let s = k.length(&c).m();
            vk::eq("length", s, d2(a, e), 1e-6);
            let q = k.param(&c, m(t * s));
            vk::ok("finite", q[0].is_finite() && q[1].is_finite());
            at("position", &q, a[0] + t * (e[0] - a[0]), a[1] + t * (e[1] - a[1]));
        }
    }
    /// a segment joins exactly or is refused
    fn h_joined() {
        let c = crs2();
        let p = [pos(0), pos(1), pos(2), pos(3)];
        let (l, n) = match (line(&c, &[p[0], p[1]]), line(&c, &[p[2], p[3]])) { (Some(l), Some(n)) => (l, n), _ => return };
        match CurveBuilder::with_seg(&c, l) {
            Ok(b) => {
                let joins = p[1][0] == p[2][0] && p[1][1] == p[2][1];
                vk::ok("accepted exactly when it starts where the curve ends", b.append_segment(n).is_ok() == joins);
            }
            Err(_) => vk::ok("first segment", false),
        }
    }
    fn h_joined_3d() {
        let c = crs3();
        let p = [pos3(0), pos3(1), pos3(2), pos3(3)];
        let (l, n) = match (LineStringBuilder::with_line(&c, p[0], p[1]), LineStringBuilder::with_line(&c, p[2], p[3])) { (Ok(l), Ok(n)) => (l.build(), n.build()), _ => return };
        match CurveBuilder::with_seg(&c, l) {
            Ok(b) => {
                let joins = p[1][0] == p[2][0] && p[1][1] == p[2][1] && p[1][2] == p[2][2];
                vk::ok("accepted exactly when it starts where the curve ends", b.append_segment(n).is_ok() == joins);
            }
            Err(_) => vk::ok("first segment", false),
        }
        // one coordinate differs
        let d = vk::real("d", 1e-9, 1.0);
        let q = match vk::choice("coordinate", 3) { 0 => [p[1][0] + d, p[1][1], p[1][2]], 1 => [p[1][0], p[1][1] + d, p[1][2]], _ => [p[1][0], p[1][1], p[1][2] + d] };
        vk::assume(q[0] != p[1][0] || q[1] != p[1][1] || q[2] != p[1][2]);
        let (l, n) = match (LineStringBuilder::with_line(&c, p[0], p[1]), LineStringBuilder::with_line(&c, q, p[2])) { (Ok(l), Ok(n)) => (l.build(), n.build()), _ => return };
        if let Ok(b) = CurveBuilder::with_seg(&c, l) {
            vk::ok("disconnected", b.append_segment(n).is_err());
        }
    }
    fn h_param_3d() {
        let c = crs3();
        let p = [pos3(0), pos3(1), pos3(2)];
        let n = vk::choice("line", 2);
        let t = vk::real("t", 0.0, 1.0);
        let (l, r) = match (LineStringBuilder::with_line(&c, p[0], p[1]), LineStringBuilder::with_line(&c, p[1], p[2])) { (Ok(l), Ok(r)) => (l.build(), r.build()), _ => return };
        match CurveBuilder::with_seg(&c, l).and_then(|b| b.append_segment(r)) {
            Ok(b) => {
                let k = b.build();
                vk::ok("type", k.coord_dim() == 3 && k.geometry_type() == GeometryType::Curve(3));
                let (d0, d1) = (d3(p[0], p[1]), d3(p[1], p[2]));
                vk::eq("length", k.length(&c).m(), d0 + d1, 1e-6);
                let s = if n == 0 { t * d0 } else { d0 + t * d1 };
                vk::assume(s <= k.length(&c).m());
                let q = k.param(&c, m(s));
                for i in 0..3 {
                    vk::eq("start", k.start()[i], p[0][i], 0.0);
                    vk::eq("end", k.end()[i], p[2][i], 0.0);
                    vk::eq("position at the arc length", q[i], p[n][i] + t * (p[n + 1][i] - p[n][i]), 1e-6);
                }
            }
            Err(_) => vk::ok("built", false),
        }
    }
    /// bounded: long chains cut anywhere
    fn h_long() {
        let c = crs2();
        let n = 2 + vk::choice("positions - 2", 40);
        let seed = vk::choice("seed", 100000);
        let p = chain(n, seed);
        let cuts = vk::choice("cuts", 1 << 20);
        let mut segs: Vec<&[[f64; 2]]> = vec![];
        let mut from = 0;
        for i in 1..n {
            if i == n - 1 || (cuts >> (i % 20)) & 1 == 1 {
                segs.push(&p[from..i + 1]);
                from = i;
            }
        }
        let k = vk::choice("line", 41) % (n - 1);
        let t = vk::real("t", 0.0, 1.0);
        if let Some(l) = curve(&c, &segs) {
            let d: Vec<f64> = (1..n).map(|i| d2(p[i - 1], p[i])).collect();
            vk::eq("length", l.length(&c).m(), d.iter().sum::<f64>(), 1e-6);
            at("start", l.start(), p[0][0], p[0][1]);
            at("end", l.end(), p[n - 1][0], p[n - 1][1]);
            let s = d[0..k].iter().sum::<f64>() + t * d[k];
            let q = l.param(&c, m(s.min(l.length(&c).m())));
            at("position at the arc length", &q, p[k][0] + t * (p[k + 1][0] - p[k][0]), p[k][1] + t * (p[k + 1][1] - p[k][1]));
        }
    }
    fn h_joined_exactly() {
        let c = crs2();
        let p = [pos(0), pos(1), pos(2)];
        let (l, n) = match (line(&c, &[p[0], p[1]]), line(&c, &[p[1], p[2]])) { (Some(l), Some(n)) => (l, n), _ => return };
        match CurveBuilder::with_seg(&c, l) {
            Ok(b) => vk::ok("joined", b.append_segment(n).is_ok()),
            Err(_) => vk::ok("first segment", false),
        }
        // one coordinate differs
        let d = vk::real("d", 1e-3, 1.0);
        let q = match vk::choice("coordinate", 2) { 0 => [p[1][0] + d, p[1][1]], _ => [p[1][0], p[1][1] + d] };
        let (l, n) = match (line(&c, &[p[0], p[1]]), line(&c, &[q, p[2]])) { (Some(l), Some(n)) => (l, n), _ => return };
        if let Ok(b) = CurveBuilder::with_seg(&c, l) {
            vk::ok("disconnected", b.append_segment(n).is_err());
        }
    }
    fn h_dimension() {
        let (c, c3) = (crs2(), crs3());
        let p = [pos(0), pos(1)];
        let l3 = match LineStringBuilder::with_line(&c3, [p[1][0], p[1][1], 0.0], [1.0, 2.0, 3.0]) { Ok(b) => b.build(), Err(_) => return };
        let l = match line(&c, &p) { Some(l) => l, None => return };
        vk::ok("a curve of another dimension than its system is refused", CurveBuilder::with_seg(&c, l3.clone()).is_err());
        vk::ok("a curve of another dimension than its system is refused", CurveBuilder::with_seg(&c3, l.clone()).is_err());
        if let Ok(b) = CurveBuilder::with_seg(&c, l) {
            vk::ok("a segment of another dimension is refused", b.append_segment(l3).is_err());
        }
    }
    fn h_cycle() {
        let c = crs2();
        let p = [pos(0), pos(1), pos(2)];
        if let Some(k) = curve(&c, &[&[p[0], p[1]], &[p[1], p[2]]]) {
            let cycle = p[0][0] == p[2][0] && p[0][1] == p[2][1];
            vk::ok("a cycle ends where it starts", k.is_cycle() == cycle);
            vk::ok("a cycle has no boundary", k.boundary().is_none() == cycle);
        }
        if let Some(k) = curve(&c, &[&[p[0], p[1]], &[p[1], p[0]]]) {
            vk::ok("cycle", k.is_cycle() && k.boundary().is_none());
        }
    }
    /// the boundary is made of the two ends, and the third coordinate counts
    fn h_boundary() {
        let c = crs3();
        let p = [pos3(0), pos3(1), pos3(2)];
        let (l, r) = match (LineStringBuilder::with_line(&c, p[0], p[1]), LineStringBuilder::with_line(&c, p[1], p[2])) { (Ok(l), Ok(r)) => (l.build(), r.build()), _ => return };
        if let Ok(b) = CurveBuilder::with_seg(&c, l).and_then(|b| b.append_segment(r)) {
            let k = b.build();
            let cycle = p[0][0] == p[2][0] && p[0][1] == p[2][1] && p[0][2] == p[2][2];
            vk::ok("a cycle ends where it starts", k.is_cycle() == cycle);
            match k.boundary() {
                None => vk::ok("no boundary: a cycle", cycle),
                Some(b) => {
                    vk::ok("a boundary: not a cycle", !cycle);
                    vk::ok("the boundary is a cycle of points", b.is_cycle() && b.boundary().is_none() && b.geometry_type() == GeometryType::Point(3));
                    let b: Box<dyn std::any::Any> = b;
                    match b.downcast_ref::<CurveBoundary>() {
                        Some(e) => {
                            for i in 0..3 {
                                vk::eq("boundary start", e.start[i], p[0][i], 0.0);
                                vk::eq("boundary end", e.end[i], p[2][i], 0.0);
                            }
                        }
                        None => vk::ok("the two ends", false),
                    }
                }
            }
        }
    }
    fn h_point() {
        let (x, y, z) = (vk::real("x", -1e5, 1e5), vk::real("y", -1e5, 1e5), vk::real("z", -1e5, 1e5));
        let p = Point::new(&[x, y]);
        vk::ok("dimension", p.len() == 2 && p.geometry_type() == GeometryType::Point(2));
        at("coordinates", &p, x, y);
        let q = Point::new(&[x, y, z]);
        vk::ok("dimension", q.len() == 3 && q.geometry_type() == GeometryType::Point(3));
        vk::eq("x", q[0], x, 0.0);
        vk::eq("y", q[1], y, 0.0);
        vk::eq("z", q[2], z, 0.0);
        vk::ok("no boundary", p.is_cycle() && p.boundary().is_none());
        vk::refuses("one coordinate", || { Point::new(&[x]); });
    }
}
