//! C08: datum transformations on geocentric coordinates.
use crate::spec::*;
use crate::vk;
use geokit::cs::cartesian::geocentric::XYZ;
use geokit::transformations::xyz::{XYZIdentity, XYZTransformation};

fn any_xyz(n: [&'static str; 3], r: f64) -> XYZ {
    XYZ { x: m(vk::real(n[0], -r, r)), y: m(vk::real(n[1], -r, r)), z: m(vk::real(n[2], -r, r)) }
}

fn check_identity() {
    let p = any_xyz(["x", "y", "z"], 1e8);
    let q = XYZIdentity.to_ref(p);
    vk::eq("x", q.x.m(), p.x.m(), 0.0);
    vk::eq("y", q.y.m(), p.y.m(), 0.0);
    vk::eq("z", q.z.m(), p.z.m(), 0.0);
    let q = XYZIdentity.from_ref(p);
    vk::eq("reverse x", q.x.m(), p.x.m(), 0.0);
    vk::eq("reverse y", q.y.m(), p.y.m(), 0.0);
    vk::eq("reverse z", q.z.m(), p.z.m(), 0.0);
}

#[cfg(not(gkv_xyz))]
harness! {
    fn h_identity() { check_identity() }
}

#[cfg(gkv_xyz)]
use geokit::quantities::scale::PPM;
#[cfg(gkv_xyz)]
use geokit::transformations::xyz::RotationConvention;
#[cfg(gkv_xyz)]
use geokit::verif_hooks::xyz::{helmert, translation};

#[cfg(gkv_xyz)]
fn any_helmert() -> (usize, [f64; 3], [f64; 3], f64) {
    (
        vk::choice("convention", 2),
        [vk::real("rx", -0.1, 0.1), vk::real("ry", -0.1, 0.1), vk::real("rz", -0.1, 0.1)],
        [vk::real("tx", -1e6, 1e6), vk::real("ty", -1e6, 1e6), vk::real("tz", -1e6, 1e6)],
        vk::real("ppm", -1e4, 1e4),
    )
}
#[cfg(gkv_xyz)]
fn conv(k: usize) -> RotationConvention {
    if k == 0 { RotationConvention::PositionVector } else { RotationConvention::CoordinateFrame }
}
/// EPSG 1033 (position vector); EPSG 1032 (coordinate frame) has the opposite rotations.
#[cfg(gkv_xyz)]
fn epsg(k: usize, r: [f64; 3], t: [f64; 3], ppm: f64, p: XYZ) -> [f64; 3] {
    let s = if k == 0 { 1.0 } else { -1.0 };
    let [rx, ry, rz] = [s * r[0], s * r[1], s * r[2]];
    let f = 1.0 + ppm * 1e-6;
    let (x, y, z) = (p.x.m(), p.y.m(), p.z.m());
    [
        f * (x - rz * y + ry * z) + t[0],
        f * (rz * x + y - rx * z) + t[1],
        f * (-ry * x + rx * y + z) + t[2],
    ]
}

#[cfg(gkv_xyz)]
harness! {
    fn h_identity() { check_identity() }
    fn h_translation() {
        let p = any_xyz(["x", "y", "z"], 1e8);
        let t = any_xyz(["tx", "ty", "tz"], 1e6);
        let tr = translation(t.x, t.y, t.z);
        let q = tr.to_ref(p);
        vk::eq("x", q.x.m(), p.x.m() + t.x.m(), 1e-7);
        vk::eq("y", q.y.m(), p.y.m() + t.y.m(), 1e-7);
        vk::eq("z", q.z.m(), p.z.m() + t.z.m(), 1e-7);
        let b = tr.from_ref(q);
        vk::eq("x returns", b.x.m(), p.x.m(), 1e-7);
        vk::eq("y returns", b.y.m(), p.y.m(), 1e-7);
        vk::eq("z returns", b.z.m(), p.z.m(), 1e-7);
        let b = tr.from_ref(p);
        vk::eq("reverse x", b.x.m(), p.x.m() - t.x.m(), 1e-7);
        vk::eq("reverse y", b.y.m(), p.y.m() - t.y.m(), 1e-7);
        vk::eq("reverse z", b.z.m(), p.z.m() - t.z.m(), 1e-7);
    }
    fn h_helmert_to_ref() {
        let (k, r, t, s) = any_helmert();
        let p = any_xyz(["x", "y", "z"], 1e7);
        let h = helmert(conv(k), [rad(r[0]), rad(r[1]), rad(r[2])], [m(t[0]), m(t[1]), m(t[2])], PPM(s));
        let q = h.to_ref(p);
        let w = epsg(k, r, t, s, p);
        vk::eq("x", q.x.m(), w[0], 1e-7);
        vk::eq("y", q.y.m(), w[1], 1e-7);
        vk::eq("z", q.z.m(), w[2], 1e-7);
    }
    fn h_helmert_from_ref() {
        let (k, r, t, s) = any_helmert();
        let p = any_xyz(["x", "y", "z"], 1e7);
        let h = helmert(conv(k), [rad(r[0]), rad(r[1]), rad(r[2])], [m(t[0]), m(t[1]), m(t[2])], PPM(s));
        let q = h.from_ref(p);
        // all signs changed
        let w = epsg(k, [-r[0], -r[1], -r[2]], [-t[0], -t[1], -t[2]], -s, p);
        vk::eq("x", q.x.m(), w[0], 1e-7);
        vk::eq("y", q.y.m(), w[1], 1e-7);
        vk::eq("z", q.z.m(), w[2], 1e-7);
    }
    fn h_helmert_conventions() {
        let (_, r, t, s) = any_helmert();
        let p = any_xyz(["x", "y", "z"], 1e7);
        let a = helmert(conv(0), [rad(r[0]), rad(r[1]), rad(r[2])], [m(t[0]), m(t[1]), m(t[2])], PPM(s));
        let b = helmert(conv(1), [rad(-r[0]), rad(-r[1]), rad(-r[2])], [m(t[0]), m(t[1]), m(t[2])], PPM(s));
        let (u, v) = (a.to_ref(p), b.to_ref(p));
        vk::eq("x", u.x.m(), v.x.m(), 1e-7);
        vk::eq("y", u.y.m(), v.y.m(), 1e-7);
        vk::eq("z", u.z.m(), v.z.m(), 1e-7);
        let (u, v) = (a.from_ref(p), b.from_ref(p));
        vk::eq("reverse x", u.x.m(), v.x.m(), 1e-7);
        vk::eq("reverse y", u.y.m(), v.y.m(), 1e-7);
        vk::eq("reverse z", u.z.m(), v.z.m(), 1e-7);
    }
    fn h_helmert_zero() {
        let p = any_xyz(["x", "y", "z"], 1e8);
        let k = vk::choice("convention", 2);
        let h = helmert(conv(k), [rad(0.0); 3], [m(0.0); 3], PPM(0.0));
        let q = h.to_ref(p);
        let b = h.from_ref(p);
        vk::eq("x", q.x.m(), p.x.m(), 0.0);
        vk::eq("y", q.y.m(), p.y.m(), 0.0);
        vk::eq("z", q.z.m(), p.z.m(), 0.0);
        vk::eq("reverse x", b.x.m(), p.x.m(), 0.0);
        vk::eq("reverse y", b.y.m(), p.y.m(), 0.0);
        vk::eq("reverse z", b.z.m(), p.z.m(), 0.0);
    }
    /// there and back: the residual is of second order in the parameters
    fn h_helmert_round_trip() {
        let k = vk::choice("convention", 2);
        let e = 1e-4;
        let r = [vk::real("rx", -e, e), vk::real("ry", -e, e), vk::real("rz", -e, e)];
        let t = [vk::real("tx", -1e3, 1e3), vk::real("ty", -1e3, 1e3), vk::real("tz", -1e3, 1e3)];
        let s = vk::real("ppm", -100.0, 100.0);
        let p = any_xyz(["x", "y", "z"], 1e7);
        let h = helmert(conv(k), [rad(r[0]), rad(r[1]), rad(r[2])], [m(t[0]), m(t[1]), m(t[2])], PPM(s));
        let q = h.from_ref(h.to_ref(p));
        vk::near("x returns", q.x.m(), p.x.m(), 2.0);
        vk::near("y returns", q.y.m(), p.y.m(), 2.0);
        vk::near("z returns", q.z.m(), p.z.m(), 2.0);
    }
}
