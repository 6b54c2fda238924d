//! Property-based checks for libgoldilocks against an independent RFC 8032 reference.
#![allow(clippy::needless_range_loop, unexpected_cfgs)]
pub mod api;
pub mod dict;
pub mod gen;
#[cfg(feature = "guided")]
pub mod guided;
#[cfg(feature = "h_field")]
pub mod h_field;
#[cfg(feature = "h_point")]
pub mod h_point;
#[cfg(feature = "h_scalar")]
pub mod h_scalar;
pub mod refed;
pub mod registry;
pub mod repr;
pub mod run;
pub mod selftest;
pub mod tape;
