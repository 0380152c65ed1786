//! One module per property: parts (generator + oracle).
use crate::codec::*;
use crate::model::*;
use crate::refcodec::*;
use crate::run::*;
use bytes::{Buf, BufMut, BytesMut};

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !($c) { return Err(format!($($t)*)); } };
}

pub mod c01;
pub mod c02;
pub mod c03;
pub mod c04;
pub mod c05;
pub mod c06;
pub mod c07;
pub mod c08;
pub mod c09;
pub mod c10;
pub mod c11;
pub mod c12;
pub mod c13;
pub mod c14;
pub mod c15;
pub mod c16;
pub mod c17;
pub mod c18;
pub mod c19;
pub mod c20;
pub mod c21;
pub mod c22;
pub mod c23;
pub mod c24;
pub mod c25;
pub mod c26;
pub mod c27;
pub mod c28;
pub mod c29;
pub mod c30;

pub const IDS: [&str; 30] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13",
    "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27", "C28", "C29", "C30",
];

pub fn get(id: &str) -> Option<PropertyDef> {
    Some(match id {
        "C01" => c01::def(),
        "C02" => c02::def(),
        "C03" => c03::def(),
        "C04" => c04::def(),
        "C05" => c05::def(),
        "C06" => c06::def(),
        "C07" => c07::def(),
        "C08" => c08::def(),
        "C09" => c09::def(),
        "C10" => c10::def(),
        "C11" => c11::def(),
        "C12" => c12::def(),
        "C13" => c13::def(),
        "C14" => c14::def(),
        "C15" => c15::def(),
        "C16" => c16::def(),
        "C17" => c17::def(),
        "C18" => c18::def(),
        "C19" => c19::def(),
        "C20" => c20::def(),
        "C21" => c21::def(),
        "C22" => c22::def(),
        "C23" => c23::def(),
        "C24" => c24::def(),
        "C25" => c25::def(),
        "C26" => c26::def(),
        "C27" => c27::def(),
        "C28" => c28::def(),
        "C29" => c29::def(),
        "C30" => c30::def(),
        _ => return None,
    })
}

/// Generate text fields that are not UTF-8 in this configuration?
pub fn raw(env: &Env) -> bool {
    !env.codec.text()
}

/// Encode with the code under test into an empty buffer.
pub fn write(env: &Env, p: &Pkt) -> Result<Vec<u8>, String> {
    let mut b = BytesMut::new();
    match env.codec.write(p, &mut b) {
        Ok(_) => Ok(b.to_vec()),
        Err(e) => Err(format!(
            "write failed: {e:?} for {}",
            short(format!("{p:?}"))
        )),
    }
}

/// Read one packet from exactly these bytes; result and what is left.
pub fn read_all(env: &Env, bytes: &[u8]) -> (Result<Pkt, CErr>, Vec<u8>) {
    let mut s = BytesMut::from(bytes);
    let r = env.codec.read(&mut s, None);
    (r, s.to_vec())
}

/// Read, demanding success and nothing left.
pub fn read_ok(env: &Env, bytes: &[u8]) -> Result<Pkt, String> {
    let (r, left) = read_all(env, bytes);
    match r {
        Ok(p) => {
            ensure!(
                left.is_empty(),
                "{} bytes left over after reading {}",
                left.len(),
                hex_short(bytes)
            );
            Ok(p)
        }
        Err(e) => Err(format!("read failed: {e:?} on {}", hex_short(bytes))),
    }
}

/// First difference, for messages.
pub fn differ(what: &str, got: &Pkt, want: &Pkt) -> String {
    format!(
        "{what}: got {} want {}",
        short(format!("{got:?}")),
        short(format!("{want:?}"))
    )
}

/// How the input buffer came to be.
#[derive(Clone, Debug, PartialEq, Eq, Hash, serde::Serialize, serde::Deserialize)]
pub enum Shape {
    /// freshly allocated, exact
    Fresh,
    /// some capacity to spare
    Spare(u16),
    /// earlier bytes were consumed from the same allocation
    Advanced(u16),
    /// the rest after split_to, the front still alive
    Split(u16),
    /// the front after split_off, the back still alive
    Front(u16),
}

/// A BytesMut with this content; the second value keeps shared allocations alive.
pub fn shaped(shape: &Shape, content: &[u8]) -> (BytesMut, BytesMut) {
    match shape {
        Shape::Fresh => (BytesMut::from(content), BytesMut::new()),
        Shape::Spare(n) => {
            let mut b = BytesMut::with_capacity(content.len() + *n as usize);
            b.put_slice(content);
            (b, BytesMut::new())
        }
        Shape::Advanced(n) => {
            let mut b = BytesMut::new();
            b.put_bytes(0xee, *n as usize);
            b.put_slice(content);
            b.advance(*n as usize);
            (b, BytesMut::new())
        }
        Shape::Split(n) => {
            let mut b = BytesMut::new();
            b.put_bytes(0xdd, *n as usize);
            b.put_slice(content);
            let front = b.split_to(*n as usize);
            (b, front)
        }
        Shape::Front(n) => {
            let mut b = BytesMut::new();
            b.put_slice(content);
            b.put_bytes(0xcc, *n as usize);
            let back = b.split_off(content.len());
            (b, back)
        }
    }
}

pub fn shape() -> crate::gen::BS<Shape> {
    use proptest::prelude::*;
    prop_oneof![
        2 => Just(Shape::Fresh),
        1 => (0u16..300).prop_map(Shape::Spare),
        2 => (0u16..100).prop_map(Shape::Advanced),
        1 => (0u16..100).prop_map(Shape::Split),
        1 => (0u16..100).prop_map(Shape::Front),
    ]
    .boxed()
}

/// Compare a decoding result with the reference verdict in one direction each.
pub fn accept_matches(got: &Result<Pkt, CErr>, v: &Verdict, bytes: &[u8]) -> Result<(), String> {
    match (got, v) {
        (Ok(p), Verdict::Accept(w)) => {
            ensure!(
                p == w,
                "{} on {}",
                differ("decoded fields", p, w),
                hex_short(bytes)
            );
        }
        (Err(e), Verdict::Accept(w)) => {
            return Err(format!(
                "legal encoding refused with {e:?}: {} ({})",
                hex_short(bytes),
                short(format!("{w:?}"))
            ));
        }
        (Ok(p), Verdict::Lenient(Some(w), why)) => {
            ensure!(
                p == w,
                "{} ({why}) on {}",
                differ("decoded fields", p, w),
                hex_short(bytes)
            );
        }
        _ => {}
    }
    Ok(())
}
