//! The properties, each with its workload and its oracle.

use crate::run::Prop;

pub mod p01;
pub mod p02;
pub mod p03;
pub mod p04;
pub mod p05;
pub mod p06;
pub mod p07;
pub mod p08;
pub mod p09;
pub mod p10;
pub mod p11;
pub mod p12;
pub mod p13;
pub mod p14;
pub mod p15;
pub mod p16;
pub mod p17;
pub mod p18;

pub fn all() -> Vec<Prop> {
    vec![p01::PROP, p02::PROP, p03::PROP, p04::PROP, p05::PROP, p06::PROP, p07::PROP, p08::PROP, p09::PROP, p10::PROP, p11::PROP, p12::PROP, p13::PROP, p14::PROP, p15::PROP, p16::PROP, p17::PROP, p18::PROP]
}

/// Lossy rendering of an input for messages
pub fn show(s: &[u8]) -> String {
    let t = String::from_utf8_lossy(s);
    let mut o = format!("{t:?}");
    if o.len() > 1500 {
        let mut n = 1500;
        while !o.is_char_boundary(n) {
            n -= 1;
        }
        o.truncate(n);
        o.push_str("…");
    }
    o
}
