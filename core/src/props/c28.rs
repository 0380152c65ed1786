//! An error names the defect and carries the offending value.
use super::*;
use crate::gen::*;
use crate::props::c08::{bad, Bad, Defect as Unencodable};
use crate::spec::*;
use crate::sweep::shape_of;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Source {
    /// packet type and shape of a fixed packet
    Fixed(u8, u8),
    Wire(Wire),
}
impl Source {
    fn wire(&self) -> Wire {
        match self {
            Source::Fixed(t, shape) => Wire {
                pkt: shape_of(*t, *shape),
                form: Form::default(),
            },
            Source::Wire(w) => w.clone(),
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Kind {
    Name,
    Level,
    Type,
    PropId,
    QoS,
    RetainRule,
    WillBits,
    Code,
    PkidZero,
    NoFilter,
    NoBody,
    Utf8,
    PastEnd,
    LongInt,
}
const KINDS: [Kind; 14] = [
    Kind::Name,
    Kind::Level,
    Kind::Type,
    Kind::PropId,
    Kind::QoS,
    Kind::RetainRule,
    Kind::WillBits,
    Kind::Code,
    Kind::PkidZero,
    Kind::NoFilter,
    Kind::NoBody,
    Kind::Utf8,
    Kind::PastEnd,
    Kind::LongInt,
];

/// A legal frame with one defect: which kind, at which of the places it can be, with which value.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Flaw {
    pub source: Source,
    pub kind: Kind,
    pub place: u32,
    pub value: u32,
}

/// What the error has to be.
#[derive(Debug, PartialEq)]
enum Name {
    /// one of these, as the crate's `Debug` prints them
    One(Vec<String>),
    Utf8,
}
fn one(s: impl Into<String>) -> Name {
    Name::One(vec![s.into()])
}

/// The defective body behind its first byte, and what is wrong; None: no such place.
struct Broken {
    frame: Vec<u8>,
    name: Name,
    label: &'static str,
    /// the header itself is the problem
    header: bool,
    ptype: Option<u8>,
}

fn nth(e: &Enc, place: u32, f: impl Fn(&Span) -> bool) -> Option<(usize, Span)> {
    let c: Vec<Span> = e.spans.iter().copied().filter(f).collect();
    if c.is_empty() {
        return None;
    }
    let i = place as usize % c.len();
    Some((i, c[i]))
}

fn section_at(t: u8, e: &Enc, at: usize) -> Option<Section> {
    let blocks = e
        .spans
        .iter()
        .filter(|s| s.kind == SK::PropLen && s.a < at)
        .count();
    match (t, blocks) {
        (_, 0) => None,
        (1, 2) => Some(Section::Will),
        (_, 1) => section_of(t),
        _ => None,
    }
}

const NOT_UTF8: [&[u8]; 12] = [
    &[0x80],
    &[0xff],
    &[0xc0, 0x80],
    &[0xe0, 0x80, 0x80],
    &[0xed, 0xa0, 0x80],
    &[0xf0, 0x80, 0x80, 0x80],
    &[0xf4, 0x90, 0x80, 0x80],
    &[0xc3],
    &[0xe4, 0xb8],
    &[0xf0, 0x9f, 0x98],
    &[b'a', 0xe9],
    &[b'a', b'b', 0xc3, 0x28, b'c'],
];

impl Flaw {
    fn build(&self, text: bool) -> Option<Broken> {
        let mut w = self.source.wire();
        let v = self.value;
        let byte = v as u8;
        let mut t = w.pkt.type_nibble();
        let mut utf8 = false;
        if self.kind == Kind::Utf8 {
            // put it into the packet, so that all lengths agree
            if !text {
                return None;
            }
            let mut f = fields(&mut w.pkt);
            f.retain(|(b, k)| *k == Field::Text && b.len() < 30_000);
            // a user name or password of length 0 is not on the wire
            let n = f.len();
            if n == 0 {
                return None;
            }
            let b = &mut f[self.place as usize % n].0;
            let bad = NOT_UTF8[v as usize % NOT_UTF8.len()];
            // at the start, in the middle of the text (at a character boundary) or at the end
            let s = std::str::from_utf8(&b.0).ok()?;
            let mut at = match v / 16 % 3 {
                0 => 0,
                1 => s.len() / 2,
                _ => s.len(),
            };
            while !s.is_char_boundary(at) {
                at -= 1;
            }
            let mut o = b.0[..at].to_vec();
            o.extend(bad);
            o.extend(&b.0[at..]);
            if std::str::from_utf8(&o).is_ok() {
                return None;
            }
            b.0 = o;
            utf8 = true;
        }
        let mut e = w.enc();
        let mut header = None;
        let is = |k: SK| move |s: &Span| s.kind == k;
        let set = |e: &mut Enc, s: Span, v: u8| e.body[s.a] = v;
        let (name, label) = match self.kind {
            Kind::Utf8 if utf8 => (Name::Utf8, "not UTF-8"),
            Kind::Utf8 => return None,
            Kind::Name => {
                if t != 1 {
                    return None;
                }
                let names: [&[u8]; 14] = [
                    b"mqtt",
                    b"MQTt",
                    b"Mqtt",
                    b"MQT",
                    b"",
                    b"MQTT5",
                    b"MQIsdp",
                    b"MQTT ",
                    b" MQTT",
                    b"MQTT\0",
                    b"\0",
                    b"TTQM",
                    b"XXXX",
                    "ＭＱＴＴ".as_bytes(),
                ];
                let n = names[v as usize % names.len()];
                let mut b = (n.len() as u16).to_be_bytes().to_vec();
                b.extend_from_slice(n);
                e.body.splice(0..6, b);
                (one("InvalidProtocol"), "protocol name")
            }
            Kind::Level => {
                let (_, s) = nth(&e, 0, is(SK::Level))?;
                if byte == 5 {
                    return None;
                }
                set(&mut e, s, byte);
                (
                    one(format!("InvalidProtocolLevel({byte})")),
                    "protocol level",
                )
            }
            Kind::Type => {
                if e.body.is_empty() {
                    return None;
                }
                t = if v % 2 == 0 { 0 } else { 15 };
                e.byte1 = (t << 4) | (e.byte1 & 15);
                (one(format!("InvalidPacketType({t})")), "packet type")
            }
            Kind::PropId => {
                let (_, s) = nth(&e, self.place, is(SK::PropId))?;
                let sec = section_at(t, &e, s.a)?;
                if allowed(sec).contains(&byte) {
                    return None;
                }
                set(&mut e, s, byte);
                (
                    one(format!("InvalidPropertyType({byte})")),
                    "property identifier",
                )
            }
            Kind::QoS => {
                match t {
                    3 => e.byte1 |= 6,
                    8 => {
                        let (_, s) = nth(&e, self.place, is(SK::Opts))?;
                        e.body[s.a] |= 3;
                    }
                    1 => {
                        let (_, s) = nth(&e, 0, is(SK::Flags))?;
                        if e.body[s.a] & 4 == 0 {
                            return None;
                        }
                        e.body[s.a] |= 0x18;
                    }
                    _ => return None,
                }
                (one("InvalidQoS(3)"), "QoS 3")
            }
            Kind::RetainRule => {
                let (_, s) = nth(&e, self.place, is(SK::Opts))?;
                e.body[s.a] |= 0x30;
                (one("InvalidRetainForwardRule(3)"), "retain rule 3")
            }
            Kind::WillBits => {
                let (_, s) = nth(&e, 0, is(SK::Flags))?;
                if t != 1 || e.body[s.a] & 4 != 0 || v % 8 == 0 {
                    return None;
                }
                e.body[s.a] |= (v % 8) as u8 * 8;
                (one("IncorrectPacketFormat"), "will bits without will")
            }
            Kind::Code => {
                let (_, s) = nth(&e, self.place, is(SK::Code))?;
                if codes(t).contains(&byte) {
                    return None;
                }
                set(&mut e, s, byte);
                let kinds = [
                    "InvalidConnectReturnCode",
                    "InvalidReason",
                    "InvalidSubscribeReasonCode",
                ];
                (
                    Name::One(kinds.iter().map(|k| format!("{k}({byte})")).collect()),
                    "reason code",
                )
            }
            Kind::PkidZero => {
                if t != 3 {
                    return None;
                }
                let (_, s) = nth(&e, 0, is(SK::Pkid))?;
                e.body[s.a..s.b].fill(0);
                (one("PacketIdZero"), "packet identifier 0")
            }
            Kind::NoFilter => {
                if t != 8 {
                    return None;
                }
                let block = e.spans.iter().find(|s| s.kind == SK::PropLen)?;
                let VarRes::Ok(n, _, _) = get_varint(&e.body[block.a..]) else {
                    return None;
                };
                e.body.truncate(block.b + n as usize);
                (one("EmptySubscription"), "no filter")
            }
            Kind::NoBody => {
                if matches!(t, 12..=14) {
                    return None;
                }
                e.body.clear();
                (one("PayloadRequired"), "no body")
            }
            Kind::PastEnd => {
                let (_, s) = nth(&e, self.place, is(SK::StrLen))?;
                let rest = e.body.len() - s.b;
                // past the end by one and by anything else
                let by = 1 + match v % 4 {
                    0 => 0,
                    1 => v as usize / 4 % 16,
                    2 => v as usize / 4 % 1000,
                    _ => v as usize,
                };
                let n = (rest + by).min(65_535);
                if n <= rest {
                    return None;
                }
                e.body[s.a..s.b].copy_from_slice(&(n as u16).to_be_bytes());
                (one(format!("BoundaryCrossed({n})")), "field past the end")
            }
            Kind::LongInt => {
                let ints = e
                    .spans
                    .iter()
                    .filter(|s| matches!(s.kind, SK::PropLen | SK::SubId))
                    .count();
                let place = self.place as usize % (ints + 1);
                let long = [
                    byte | 0x80,
                    0x80,
                    0xff,
                    0x80 | (v >> 8) as u8,
                    (v >> 16) as u8,
                ];
                if place == 0 {
                    let mut f = vec![e.byte1];
                    f.extend(long);
                    f.extend(&e.body);
                    header = Some(f);
                } else {
                    let (_, s) = nth(&e, place as u32 - 1, |s| {
                        matches!(s.kind, SK::PropLen | SK::SubId)
                    })?;
                    e.body.splice(s.a..s.b, long);
                    if s.kind == SK::SubId {
                        // the block has to hold it
                        let block = e.spans.iter().find(|s| s.kind == SK::PropLen)?;
                        let VarRes::Ok(n, used, _) = get_varint(&e.body[block.a..]) else {
                            return None;
                        };
                        let mut o = Vec::new();
                        put_varint(&mut o, u64::from(n) + 5 - (s.b - s.a) as u64);
                        e.body.splice(block.a..block.a + used, o);
                    }
                }
                (
                    one("MalformedRemainingLength"),
                    "over-long variable-length integer",
                )
            }
        };
        let is_header = header.is_some();
        Some(Broken {
            frame: header.unwrap_or_else(|| e.frame()),
            name,
            label,
            header: is_header,
            ptype: if is_header { None } else { Some(t) },
        })
    }
}

fn named(what: &str, got: Option<&CErr>, name: &Name, frame: &[u8]) -> Result<(), String> {
    let ok = match (got, name) {
        (Some(CErr::Utf8), Name::Utf8) => true,
        (Some(CErr::Other(s)), Name::One(v)) => v.contains(s),
        _ => false,
    };
    ensure!(
        ok,
        "{what} reports {got:?} where the only defect calls for {name:?}: {}",
        hex_short(frame)
    );
    Ok(())
}

fn case(env: &Env, c: &Flaw, obs: &mut Obs) -> Result<(), String> {
    let Some(b) = c.build(env.codec.text()) else {
        return Ok(());
    };
    obs.nontrivial = true;
    obs.label(b.label);
    if !b.header {
        // the defect has to be one
        let Framing::Frame { header, .. } = framing(&b.frame, None) else {
            return Err("HARNESS: no complete frame".into());
        };
        if !matches!(
            decode(b.frame[0], &b.frame[header..], env.codec.text()),
            Verdict::Reject(_)
        ) {
            return Err(format!("HARNESS: not malformed: {}", hex_short(&b.frame)));
        }
    }
    for tail in [&[][..], &[0xc0, 0]] {
        let mut s = BytesMut::from(&b.frame[..]);
        s.put_slice(tail);
        let r = env.codec.read(&mut s, None);
        named("reading", r.as_ref().err(), &b.name, &b.frame)?;
    }
    let h = env.codec.check(&b.frame, None);
    match (b.header, b.ptype) {
        (true, _) => named("the header check", h.as_ref().err(), &b.name, &b.frame)?,
        (_, Some(0 | 15)) => {
            let h = h.map_err(|e| format!("header check failed with {e:?}"))?;
            named(
                "the header's type",
                h.ptype.as_ref().err(),
                &b.name,
                &b.frame,
            )?;
        }
        _ => {}
    }
    if !b.header && c.kind != Kind::NoBody {
        if let Some(r) = env.codec.typed_read(&b.frame) {
            named("the typed reader", r.as_ref().err(), &b.name, &b.frame)?;
        }
    }
    Ok(())
}

/// The error of a refused write.
fn write_case(env: &Env, c: &Bad, obs: &mut Obs) -> Result<(), String> {
    let Some(p) = c.build() else {
        return Ok(());
    };
    let name = match &c.defect {
        // an identifier of 0 or a long field in a packet that is otherwise in order
        Unencodable::Field { .. } => one("BinaryDataTooLong"),
        Unencodable::PkidZero { .. } => one("PacketIdZero"),
        Unencodable::OldCode(n) => one(format!("InvalidConnectReturnCode({n})")),
        Unencodable::Payload(_) if body_len(&p) > VARINT_MAX as usize => one("PayloadTooLong"),
        _ => return Ok(()),
    };
    obs.nontrivial = true;
    let mut b = BytesMut::new();
    let r = env.codec.write(&p, &mut b);
    let typed = env.codec.typed_write(&p, &mut b);
    for (what, r) in [("writing", r), ("the typed writer", typed)] {
        let ok = match (&r, &name) {
            (Err(CErr::Other(s)), Name::One(v)) => v.contains(s),
            _ => false,
        };
        ensure!(
            ok,
            "{what} gives {r:?} where the only defect calls for {name:?}: {}",
            short(format!("{p:?}"))
        );
    }
    Ok(())
}

/// Properties nobody defined, or not for this place, in a section by itself.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Stray {
    pub sec: u8,
    pub id: u8,
    /// legal properties before it
    pub before: u8,
}
fn stray_case(env: &Env, c: &Stray, obs: &mut Obs) -> Result<(), String> {
    let sec = SECTIONS[c.sec as usize];
    if allowed(sec).contains(&c.id) {
        return Ok(());
    }
    obs.nontrivial = true;
    let ids = allowed(sec);
    let list: Vec<Prop> = (0..c.before)
        .filter_map(|i| crate::sweep::some_prop(ids[i as usize % ids.len()], i))
        .collect();
    let mut body = encode_props(&list);
    body.push(c.id);
    body.extend([0, 1, b'x', 0, 1, b'y']);
    let mut b = Vec::new();
    put_varint(&mut b, body.len() as u64);
    b.extend(body);
    let mut s = bytes::Bytes::from(b.clone());
    let r = env.codec.section_read(sec, &mut s);
    named(
        "the section reader",
        r.as_ref().err(),
        &one(format!("InvalidPropertyType({})", c.id)),
        &b,
    )
}
fn stray_items() -> impl Iterator<Item = Stray> {
    (0u8..13).flat_map(|sec| {
        (0u16..256).flat_map(move |id| {
            let n = allowed(SECTIONS[sec as usize]).len() as u8;
            (0..=n.min(3)).map(move |before| Stray {
                sec,
                id: id as u8,
                before,
            })
        })
    })
}

fn fixed_items() -> impl Iterator<Item = Flaw> {
    (1u8..=14).flat_map(|t| {
        (0u8..3).flat_map(move |shape| {
            let e = encode(&shape_of(t, shape), &Form::default());
            let places = |kind: Kind| {
                let of = |k: SK| e.spans.iter().filter(|s| s.kind == k).count() as u32;
                match kind {
                    Kind::PropId => of(SK::PropId),
                    Kind::QoS | Kind::RetainRule => of(SK::Opts).max(1),
                    Kind::Code => of(SK::Code),
                    Kind::Utf8 => of(SK::Text),
                    Kind::PastEnd => of(SK::StrLen),
                    Kind::LongInt => 1 + of(SK::PropLen) + of(SK::SubId),
                    _ => 1,
                }
            };
            let values = |kind: Kind| match kind {
                Kind::Level | Kind::PropId | Kind::Code => 256,
                Kind::Name | Kind::Type | Kind::WillBits => 16,
                Kind::Utf8 => 48,
                Kind::PastEnd => 64,
                Kind::LongInt => 130,
                _ => 1,
            };
            let mut v = Vec::new();
            for kind in KINDS {
                for place in 0..places(kind) {
                    for value in 0..values(kind) {
                        v.push(Flaw {
                            source: Source::Fixed(t, shape),
                            kind,
                            place,
                            value,
                        });
                    }
                }
            }
            v
        })
    })
}

/// The packet limit, once.
fn huge_items() -> impl Iterator<Item = Bad> {
    [VARINT_MAX - 5].into_iter().map(|n| Bad {
        pkt: super::c06::base_pkt(3),
        defect: Unencodable::Payload(n),
        prefix: Bin(vec![]),
        shape: Shape::Fresh,
    })
}

pub fn def() -> PropertyDef {
    PropertyDef {
        id: "C28",
        rule: "Legal frames get exactly one defect (14 kinds, at every place it can be in fixed packets with every \
               value, and at generated places in generated packets); the error must be the one for that defect and \
               carry the offending value, through every entry point. Likewise the errors of refused writes. \
               Non-trivial: the frame has a place for the defect.",
        parts: vec![
            part(
                "flaws",
                12_000,
                |e| {
                    (
                        prop_oneof![3 => small_wire(raw(e)), 1 => wire(raw(e))].prop_map(Source::Wire),
                        proptest::sample::select(KINDS.to_vec()),
                        any::<u32>(),
                        any::<u32>(),
                    )
                        .prop_map(|(source, kind, place, value)| Flaw {
                            source,
                            kind,
                            place,
                            value,
                        })
                        .boxed()
                },
                case,
            ),
            part("writes", 1000, |e| bad(raw(e)), write_case),
            enumerated("every place and value", |_| fixed_items(), case),
            enumerated("stray properties", |_| stray_items(), stray_case),
            enumerated("length limit", |_| huge_items(), write_case),
        ],
    }
}
