//! Neutral packet model, independent of the crate's structs.
use crate::spec::*;
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::fmt;

/// A byte string; prints and serialises compactly.
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
pub struct Bin(pub Vec<u8>);

impl Bin {
    pub fn s(s: &str) -> Bin {
        Bin(s.as_bytes().to_vec())
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    pub fn is_text(&self) -> bool {
        std::str::from_utf8(&self.0).is_ok()
    }
    fn enc(&self) -> String {
        let n = self.0.len();
        if n > 24 && self.0.iter().all(|b| *b == self.0[0]) {
            return format!("r:{n}:{:02x}", self.0[0]);
        }
        match std::str::from_utf8(&self.0) {
            Ok(s) => format!("t:{s}"),
            Err(_) => format!("x:{}", hex(&self.0)),
        }
    }
    fn dec(s: &str) -> Option<Bin> {
        let (k, v) = s.split_at(2);
        Some(match k {
            "t:" => Bin(v.as_bytes().to_vec()),
            "x:" => Bin(unhex(v)?),
            "r:" => {
                let (n, b) = v.split_once(':')?;
                Bin(vec![u8::from_str_radix(b, 16).ok()?; n.parse().ok()?])
            }
            _ => return None,
        })
    }
}

pub fn hex(b: &[u8]) -> String {
    const D: &[u8; 16] = b"0123456789abcdef";
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        s.push(D[(x >> 4) as usize] as char);
        s.push(D[(x & 15) as usize] as char);
    }
    s
}
pub fn unhex(s: &str) -> Option<Vec<u8>> {
    if s.len() % 2 != 0 {
        return None;
    }
    (0..s.len() / 2)
        .map(|i| u8::from_str_radix(s.get(2 * i..2 * i + 2)?, 16).ok())
        .collect()
}
/// Hex, shortened in the middle.
pub fn hex_short(b: &[u8]) -> String {
    if b.len() <= 96 {
        hex(b)
    } else {
        format!(
            "{}..{} ({} bytes)",
            hex(&b[..64]),
            hex(&b[b.len() - 16..]),
            b.len()
        )
    }
}

impl fmt::Debug for Bin {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        let e = self.enc();
        if e.len() > 100 {
            let mut i = 80;
            while !e.is_char_boundary(i) {
                i -= 1;
            }
            write!(f, "{:?}..({} bytes)", &e[..i], self.0.len())
        } else {
            write!(f, "{e:?}")
        }
    }
}
impl Serialize for Bin {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&self.enc())
    }
}
impl<'de> Deserialize<'de> for Bin {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        Bin::dec(&s).ok_or_else(|| serde::de::Error::custom("bad Bin"))
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
pub enum Val {
    Byte(u8),
    U16(u16),
    U32(u32),
    /// u64 so that unencodable identifiers can be expressed
    Var(u64),
    Str(Bin),
    Bin(Bin),
    Pair(Bin, Bin),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
pub struct Prop {
    pub id: u8,
    pub val: Val,
}

pub type Props = Option<Vec<Prop>>;

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Will {
    pub topic: Bin,
    pub message: Bin,
    pub qos: u8,
    pub retain: bool,
    pub props: Props,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Filt {
    pub path: Bin,
    pub qos: u8,
    pub nolocal: bool,
    pub rap: bool,
    pub rh: u8,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Pkt {
    Connect {
        keep_alive: u16,
        client_id: Bin,
        clean_start: bool,
        props: Props,
        will: Option<Will>,
        login: Option<(Bin, Bin)>,
    },
    /// codes 1, 2, 3 stand for the crate's MQTT 3.1.1-only variants
    ConnAck {
        session_present: bool,
        code: u8,
        props: Props,
    },
    Publish {
        dup: bool,
        qos: u8,
        retain: bool,
        topic: Bin,
        pkid: u16,
        payload: Bin,
        props: Props,
    },
    /// t: 4 PUBACK, 5 PUBREC, 6 PUBREL, 7 PUBCOMP
    Ack {
        t: u8,
        pkid: u16,
        reason: u8,
        props: Props,
    },
    Subscribe {
        pkid: u16,
        filters: Vec<Filt>,
        props: Props,
    },
    SubAck {
        pkid: u16,
        codes: Vec<u8>,
        props: Props,
    },
    Unsubscribe {
        pkid: u16,
        filters: Vec<Bin>,
        props: Props,
    },
    UnsubAck {
        pkid: u16,
        codes: Vec<u8>,
        props: Props,
    },
    PingReq,
    PingResp,
    Disconnect {
        reason: u8,
        props: Props,
    },
}

impl Pkt {
    pub fn type_nibble(&self) -> u8 {
        match self {
            Pkt::Connect { .. } => 1,
            Pkt::ConnAck { .. } => 2,
            Pkt::Publish { .. } => 3,
            Pkt::Ack { t, .. } => *t,
            Pkt::Subscribe { .. } => 8,
            Pkt::SubAck { .. } => 9,
            Pkt::Unsubscribe { .. } => 10,
            Pkt::UnsubAck { .. } => 11,
            Pkt::PingReq => 12,
            Pkt::PingResp => 13,
            Pkt::Disconnect { .. } => 14,
        }
    }
    pub fn type_name(&self) -> &'static str {
        type_name(self.type_nibble())
    }
    pub fn section(&self) -> Option<Section> {
        section_of(self.type_nibble())
    }
    pub fn props(&self) -> Option<&Props> {
        match self {
            Pkt::Connect { props, .. }
            | Pkt::ConnAck { props, .. }
            | Pkt::Publish { props, .. }
            | Pkt::Ack { props, .. }
            | Pkt::Subscribe { props, .. }
            | Pkt::SubAck { props, .. }
            | Pkt::Unsubscribe { props, .. }
            | Pkt::UnsubAck { props, .. }
            | Pkt::Disconnect { props, .. } => Some(props),
            Pkt::PingReq | Pkt::PingResp => None,
        }
    }
    pub fn props_mut(&mut self) -> Option<&mut Props> {
        match self {
            Pkt::Connect { props, .. }
            | Pkt::ConnAck { props, .. }
            | Pkt::Publish { props, .. }
            | Pkt::Ack { props, .. }
            | Pkt::Subscribe { props, .. }
            | Pkt::SubAck { props, .. }
            | Pkt::Unsubscribe { props, .. }
            | Pkt::UnsubAck { props, .. }
            | Pkt::Disconnect { props, .. } => Some(props),
            Pkt::PingReq | Pkt::PingResp => None,
        }
    }
    /// Normal form: property sets sorted (stably) by identifier; nothing else.
    pub fn sorted(&self) -> Pkt {
        let mut p = self.clone();
        if let Some(Some(v)) = p.props_mut() {
            v.sort_by_key(|x| x.id);
        }
        if let Pkt::Connect {
            will: Some(Will { props: Some(v), .. }),
            ..
        } = &mut p
        {
            v.sort_by_key(|x| x.id);
        }
        p
    }
    /// What a decoder must report for this packet (see C01).
    pub fn canon(&self) -> Pkt {
        let mut p = self.sorted();
        if let Some(ps) = p.props_mut() {
            canon_props(ps);
        }
        match &mut p {
            Pkt::Connect { will, login, .. } => {
                if let Some(w) = will {
                    canon_props(&mut w.props);
                }
                if matches!(login, Some((u, q)) if u.is_empty() && q.is_empty()) {
                    *login = None;
                }
            }
            Pkt::Publish { qos: 0, pkid, .. } => *pkid = 0,
            _ => {}
        }
        p
    }
    /// number of properties, all sections
    pub fn n_props(&self) -> usize {
        let a = self
            .props()
            .and_then(|p| p.as_ref().map(Vec::len))
            .unwrap_or(0);
        match self {
            Pkt::Connect { will: Some(w), .. } => a + w.props.as_ref().map_or(0, Vec::len),
            _ => a,
        }
    }
    /// More than the simplest packet of its type?
    pub fn rich(&self) -> bool {
        self.n_props() > 0
            || match self {
                Pkt::Connect { will, login, .. } => will.is_some() || login.is_some(),
                Pkt::Subscribe { filters, .. } => filters.len() > 1,
                Pkt::Unsubscribe { filters, .. } => filters.len() > 1,
                Pkt::SubAck { codes, .. } | Pkt::UnsubAck { codes, .. } => codes.len() > 1,
                Pkt::Ack { reason, .. } | Pkt::Disconnect { reason, .. } => *reason != 0,
                _ => false,
            }
    }
}

pub fn canon_props(p: &mut Props) {
    if matches!(p, Some(v) if v.is_empty()) {
        *p = None;
    }
}

pub fn section_of(t: u8) -> Option<Section> {
    Some(match t {
        1 => Section::Connect,
        2 => Section::ConnAck,
        3 => Section::Publish,
        4 => Section::PubAck,
        5 => Section::PubRec,
        6 => Section::PubRel,
        7 => Section::PubComp,
        8 => Section::Subscribe,
        9 => Section::SubAck,
        10 => Section::Unsubscribe,
        11 => Section::UnsubAck,
        14 => Section::Disconnect,
        _ => return None,
    })
}

pub fn type_name(t: u8) -> &'static str {
    [
        "RESERVED0",
        "CONNECT",
        "CONNACK",
        "PUBLISH",
        "PUBACK",
        "PUBREC",
        "PUBREL",
        "PUBCOMP",
        "SUBSCRIBE",
        "SUBACK",
        "UNSUBSCRIBE",
        "UNSUBACK",
        "PINGREQ",
        "PINGRESP",
        "DISCONNECT",
        "AUTH",
    ][(t & 15) as usize]
}
