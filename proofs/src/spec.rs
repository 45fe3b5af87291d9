//! Shared inputs and reference formulas.
pub const PI: f64 = std::f64::consts::PI;
pub const TAU: f64 = std::f64::consts::TAU;
pub const PI_2: f64 = std::f64::consts::FRAC_PI_2;
use crate::vk;
use geokit::cs::geodetic::{Lat, Lon, LLH};
use geokit::quantities::{angle::Angle, length::Length};
use geokit::units::{angle::*, length::*};

/// Any longitude.
pub fn any_lon(name: &'static str) -> Lon {
    Lon::const_new(Angle::new(vk::real(name, -PI, PI), RAD))
}
/// Any latitude.
pub fn any_lat(name: &'static str) -> Lat {
    Lat::new(Angle::new(vk::real(name, -PI_2, PI_2), RAD))
}
/// Any angle unit.
pub fn any_angle_unit(name: &'static str) -> (AngleUnit, f64) {
    match vk::choice(name, 4) {
        0 => (RAD, 1.0),
        1 => (DEG, PI / 180.0),
        2 => (GRAD, PI / 200.0),
        _ => (SEC, PI / 648000.0),
    }
}
/// Any length unit.
pub fn any_length_unit(name: &'static str) -> (LengthUnit, f64) {
    match vk::choice(name, 3) {
        0 => (M, 1.0),
        1 => (FT, 0.3048),
        _ => (US_FT, 1200.0 / 3937.0),
    }
}
pub fn rad(x: f64) -> Angle {
    Angle::new(x, RAD)
}
pub fn m(x: f64) -> Length {
    Length::new(x, M)
}
pub fn llh(lon: Lon, lat: Lat, h: f64) -> LLH {
    LLH { lon, lat, height: m(h) }
}
