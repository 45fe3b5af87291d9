//! Contract harnesses for geokit.
//!
//! Every function `h_*` states contracts of functions of /repo/geokit: symbolic inputs (`vk::real`,
//! `vk::choice`...), preconditions (`vk::assume`), calls of the *real* functions, and
//! postconditions (`vk::eq`, `vk::le`, `vk::ok`...).  The same text is
//!  * read as MIR and executed symbolically by gkv (all inputs), and
//!  * compiled natively, for replaying counterexamples against the real code.
#![allow(clippy::all)]
#[macro_use]
pub mod vk;
pub mod spec;
#[cfg(feature = "c01")]
pub mod c01;
#[cfg(feature = "c02")]
pub mod c02;
#[cfg(feature = "c03")]
pub mod c03;
#[cfg(feature = "c04")]
pub mod c04;
#[cfg(feature = "c05")]
pub mod c05;
#[cfg(feature = "c06")]
pub mod c06;
#[cfg(feature = "c07")]
pub mod c07;
#[cfg(feature = "c08")]
pub mod c08;
#[cfg(feature = "c09")]
pub mod c09;
#[cfg(feature = "c10")]
pub mod c10;
#[cfg(feature = "c11")]
pub mod c11;
#[cfg(feature = "c12")]
pub mod c12;
#[cfg(feature = "c13")]
pub mod c13;
#[cfg(feature = "c14")]
pub mod c14;
#[cfg(feature = "c15")]
pub mod c15;
#[cfg(feature = "c16")]
pub mod c16;
#[cfg(feature = "c17")]
pub mod c17;
#[cfg(feature = "c18")]
pub mod c18;
#[cfg(feature = "c19")]
pub mod c19;
#[cfg(feature = "c20")]
pub mod c20;
#[cfg(feature = "c99")]
pub mod c99;

pub fn registry() -> Vec<(&'static str, &'static [(&'static str, fn())])> {
    vec![
        #[cfg(feature = "c01")]
        ("c01", c01::ALL),
        #[cfg(feature = "c02")]
        ("c02", c02::ALL),
        #[cfg(feature = "c03")]
        ("c03", c03::ALL),
        #[cfg(feature = "c04")]
        ("c04", c04::ALL),
        #[cfg(feature = "c05")]
        ("c05", c05::ALL),
        #[cfg(feature = "c06")]
        ("c06", c06::ALL),
        #[cfg(feature = "c07")]
        ("c07", c07::ALL),
        #[cfg(feature = "c08")]
        ("c08", c08::ALL),
        #[cfg(feature = "c09")]
        ("c09", c09::ALL),
        #[cfg(feature = "c10")]
        ("c10", c10::ALL),
        #[cfg(feature = "c11")]
        ("c11", c11::ALL),
        #[cfg(feature = "c12")]
        ("c12", c12::ALL),
        #[cfg(feature = "c13")]
        ("c13", c13::ALL),
        #[cfg(feature = "c14")]
        ("c14", c14::ALL),
        #[cfg(feature = "c15")]
        ("c15", c15::ALL),
        #[cfg(feature = "c16")]
        ("c16", c16::ALL),
        #[cfg(feature = "c17")]
        ("c17", c17::ALL),
        #[cfg(feature = "c18")]
        ("c18", c18::ALL),
        #[cfg(feature = "c19")]
        ("c19", c19::ALL),
        #[cfg(feature = "c20")]
        ("c20", c20::ALL),
        #[cfg(feature = "c99")]
        ("c99", c99::ALL),
    ]
}
