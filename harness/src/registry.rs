//! Which checks decide which property.
use crate::api::*;
use crate::run::{DynCheck, Scaled, W};

pub const PROPERTIES: [&str; 18] =
    ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18"];

pub fn checks(p: &str) -> Vec<Box<dyn DynCheck>> {
    let mut v: Vec<Box<dyn DynCheck>> = vec![];
    match p {
        "C01" => v.push(Box::new(W(keys::Derive))),
        "C02" => v.push(Box::new(W(keys::Sign))),
        "C03" => v.push(Box::new(W(verify::Complete))),
        "C04" => v.push(Box::new(W(verify::Tamper))),
        "C05" => v.push(Box::new(W(verify::Verdict))),
        "C06" => {
            v.push(Box::new(W(verify::Encodings)));
            v.push(Box::new(W(verify::Malleable)));
        }
        "C07" => v.push(Box::new(W(verify::Total))),
        "C08" => v.push(Box::new(W(verify::Agree))),
        "C09" => v.push(Box::new(W(sers::RoundTrip))),
        "C10" => v.push(Box::new(W(sers::Malformed))),
        "C11" => {
            v.push(Box::new(W(sers::HexCtor)));
            v.push(Box::new(W(sers::ByteCtor)));
        }
        "C12" => v.push(Box::new(W(keys::Coherence))),
        "C13" => {
            v.push(Box::new(W(rng::Source)));
            v.push(Box::new(W(rng::Generator)));
        }
        "C14" => v.push(Box::new(W(hist::Purity))),
        _ => {}
    }
    if std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough") || std::env::args().any(|a| a == "replay") {
        match p {
            "C02" => v.push(Box::new(W(keys::Huge(0)))),
            "C04" => v.push(Box::new(W(keys::Huge(1)))),
            "C05" => v.push(Box::new(W(keys::Huge(2)))),
            _ => {}
        }
    }
    #[cfg(feature = "h_field")]
    if p == "C15" {
        crate::h_field::add(&mut v);
    }
    #[cfg(feature = "h_scalar")]
    if p == "C16" {
        crate::h_scalar::add(&mut v);
    }
    #[cfg(feature = "h_point")]
    {
        if p == "C17" {
            crate::h_point::add17(&mut v);
        }
        if p == "C18" {
            crate::h_point::add18(&mut v);
        }
    }
    if v.is_empty() {
        // the internals cannot be reached on this tree: the closest the public interface offers
        let sc = |c: Box<dyn DynCheck>, f: f64| -> Box<dyn DynCheck> { Box::new(Scaled(c, f)) };
        match p {
            "C15" | "C17" => {
                v.push(sc(Box::new(W(keys::Derive)), 1.0));
                v.push(sc(Box::new(W(verify::Verdict)), 1.0));
            }
            "C16" => {
                v.push(sc(Box::new(W(keys::Sign)), 2.0));
                v.push(sc(Box::new(W(verify::Malleable)), 0.5));
            }
            "C18" => {
                v.push(sc(Box::new(W(verify::Encodings)), 1.0));
                v.push(sc(Box::new(W(keys::Derive)), 1.0));
            }
            _ => {}
        }
    }
    v
}
