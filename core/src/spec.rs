//! Tables transcribed from the MQTT 5.0 specification (OASIS standard, 7 March 2019).
//! Nothing here is derived from the code under test.
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
pub enum PType {
    Byte,
    U16,
    U32,
    Var,
    Str,
    Bin,
    Pair,
}

/// Places that carry properties (table 2-4).
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
pub enum Section {
    Connect,
    Will,
    ConnAck,
    Publish,
    PubAck,
    PubRec,
    PubRel,
    PubComp,
    Subscribe,
    SubAck,
    Unsubscribe,
    UnsubAck,
    Disconnect,
}

pub const SECTIONS: [Section; 13] = [
    Section::Connect,
    Section::Will,
    Section::ConnAck,
    Section::Publish,
    Section::PubAck,
    Section::PubRec,
    Section::PubRel,
    Section::PubComp,
    Section::Subscribe,
    Section::SubAck,
    Section::Unsubscribe,
    Section::UnsubAck,
    Section::Disconnect,
];

pub const USER: u8 = 38;
pub const SUBID: u8 = 11;

/// (identifier, type), table 2-4.
pub const PROPS: [(u8, PType); 27] = [
    (0x01, PType::Byte), // payload format indicator
    (0x02, PType::U32),  // message expiry interval
    (0x03, PType::Str),  // content type
    (0x08, PType::Str),  // response topic
    (0x09, PType::Bin),  // correlation data
    (0x0B, PType::Var),  // subscription identifier
    (0x11, PType::U32),  // session expiry interval
    (0x12, PType::Str),  // assigned client identifier
    (0x13, PType::U16),  // server keep alive
    (0x15, PType::Str),  // authentication method
    (0x16, PType::Bin),  // authentication data
    (0x17, PType::Byte), // request problem information
    (0x18, PType::U32),  // will delay interval
    (0x19, PType::Byte), // request response information
    (0x1A, PType::Str),  // response information
    (0x1C, PType::Str),  // server reference
    (0x1F, PType::Str),  // reason string
    (0x21, PType::U16),  // receive maximum
    (0x22, PType::U16),  // topic alias maximum
    (0x23, PType::U16),  // topic alias
    (0x24, PType::Byte), // maximum QoS
    (0x25, PType::Byte), // retain available
    (0x26, PType::Pair), // user property
    (0x27, PType::U32),  // maximum packet size
    (0x28, PType::Byte), // wildcard subscription available
    (0x29, PType::Byte), // subscription identifier available
    (0x2A, PType::Byte), // shared subscription available
];

pub fn ptype(id: u8) -> Option<PType> {
    PROPS.iter().find(|(i, _)| *i == id).map(|(_, t)| *t)
}

pub fn allowed(s: Section) -> &'static [u8] {
    match s {
        Section::Connect => &[0x11, 0x15, 0x16, 0x17, 0x19, 0x21, 0x22, 0x26, 0x27],
        Section::Will => &[0x01, 0x02, 0x03, 0x08, 0x09, 0x18, 0x26],
        Section::ConnAck => &[
            0x11, 0x12, 0x13, 0x15, 0x16, 0x1A, 0x1C, 0x1F, 0x21, 0x22, 0x24, 0x25, 0x26, 0x27,
            0x28, 0x29, 0x2A,
        ],
        Section::Publish => &[0x01, 0x02, 0x03, 0x08, 0x09, 0x0B, 0x23, 0x26],
        Section::PubAck
        | Section::PubRec
        | Section::PubRel
        | Section::PubComp
        | Section::SubAck
        | Section::UnsubAck => &[0x1F, 0x26],
        Section::Subscribe => &[0x0B, 0x26],
        Section::Unsubscribe => &[0x26],
        Section::Disconnect => &[0x11, 0x1C, 0x1F, 0x26],
    }
}

/// May the property occur more than once in this section?
pub fn repeatable(s: Section, id: u8) -> bool {
    id == USER || (id == SUBID && s == Section::Publish)
}

pub const CONNACK_CODES: [u8; 22] = [
    0x00, 0x80, 0x81, 0x82, 0x83, 0x84, 0x85, 0x86, 0x87, 0x88, 0x89, 0x8A, 0x8C, 0x90, 0x95, 0x97,
    0x99, 0x9A, 0x9B, 0x9C, 0x9D, 0x9F,
];
pub const PUBACK_CODES: [u8; 9] = [0x00, 0x10, 0x80, 0x83, 0x87, 0x90, 0x91, 0x97, 0x99];
pub const PUBREL_CODES: [u8; 2] = [0x00, 0x92];
pub const SUBACK_CODES: [u8; 12] = [
    0x00, 0x01, 0x02, 0x80, 0x83, 0x87, 0x8F, 0x91, 0x97, 0x9E, 0xA1, 0xA2,
];
pub const UNSUBACK_CODES: [u8; 7] = [0x00, 0x11, 0x80, 0x83, 0x87, 0x8F, 0x91];
pub const DISCONNECT_CODES: [u8; 29] = [
    0x00, 0x04, 0x80, 0x81, 0x82, 0x83, 0x87, 0x89, 0x8B, 0x8D, 0x8E, 0x8F, 0x90, 0x93, 0x94, 0x95,
    0x96, 0x97, 0x98, 0x99, 0x9A, 0x9B, 0x9C, 0x9D, 0x9E, 0x9F, 0xA0, 0xA1, 0xA2,
];

/// Reason codes of the packet with type nibble `t` (empty: the packet has none).
pub fn codes(t: u8) -> &'static [u8] {
    match t {
        2 => &CONNACK_CODES,
        4 | 5 => &PUBACK_CODES,
        6 | 7 => &PUBREL_CODES,
        9 => &SUBACK_CODES,
        11 => &UNSUBACK_CODES,
        14 => &DISCONNECT_CODES,
        _ => &[],
    }
}

pub const VARINT_MAX: u32 = 268_435_455;

/// Number of bytes of the minimal variable byte integer.
pub fn varint_len(v: u64) -> usize {
    let mut n = 1;
    let mut v = v >> 7;
    while v > 0 {
        n += 1;
        v >>= 7;
    }
    n
}

pub fn put_varint(out: &mut Vec<u8>, v: u64) {
    let mut v = v;
    loop {
        let b = (v & 0x7f) as u8;
        v >>= 7;
        if v == 0 {
            out.push(b);
            return;
        }
        out.push(b | 0x80);
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum VarRes {
    /// value, bytes used, minimal?
    Ok(u32, usize, bool),
    /// more bytes needed
    Short,
    /// four continuation bits
    Malformed,
}

pub fn get_varint(b: &[u8]) -> VarRes {
    let mut v: u32 = 0;
    for i in 0..4 {
        match b.get(i) {
            None => return VarRes::Short,
            Some(x) => {
                v |= u32::from(x & 0x7f) << (7 * i);
                if x & 0x80 == 0 {
                    return VarRes::Ok(v, i + 1, varint_len(u64::from(v)) == i + 1);
                }
            }
        }
    }
    VarRes::Malformed
}

/// Number of bytes a variable byte integer occupies, minimal or not.
pub fn varint_used(b: &[u8]) -> usize {
    b.iter()
        .take(4)
        .position(|x| x & 0x80 == 0)
        .map_or(b.len().min(4), |i| i + 1)
}
