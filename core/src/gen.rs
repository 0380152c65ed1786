//! proptest strategies. Every random choice is made here.
use crate::model::*;
use crate::refcodec::*;
use crate::spec::*;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};

pub type BS<T> = BoxedStrategy<T>;

pub fn edge_u8() -> BS<u8> {
    prop_oneof![2 => select(vec![0u8, 1, 2, 3, 4, 5, 127, 128, 254, 255]), 1 => any::<u8>()].boxed()
}
pub fn edge_u16() -> BS<u16> {
    prop_oneof![
        2 => any::<u16>(),
        2 => select(vec![0u16, 1, 2, 127, 128, 255, 256, 0x7fff, 0x8000, 0xff00, 0xfffe, 0xffff]),
        1 => 0u16..300,
    ]
    .boxed()
}
/// packet identifier, never 0
pub fn pkid1() -> BS<u16> {
    edge_u16().prop_map(|v| v.max(1)).boxed()
}
pub fn edge_u32() -> BS<u32> {
    prop_oneof![
        2 => any::<u32>(),
        2 => select(vec![0u32, 1, 127, 128, 255, 256, 65535, 65536, 0xff_ffff, 0x100_0000,
            0x7fff_ffff, 0x8000_0000, 0xffff_fffe, 0xffff_ffff]),
        1 => 0u32..300,
    ]
    .boxed()
}
pub const VAR_EDGES: [u32; 16] = [
    0,
    1,
    2,
    63,
    126,
    127,
    128,
    129,
    16_383,
    16_384,
    16_385,
    2_097_151,
    2_097_152,
    2_097_153,
    268_435_454,
    268_435_455,
];
/// Any encodable variable byte integer, all length classes equally likely.
pub fn var() -> BS<u32> {
    prop_oneof![
        2 => select(VAR_EDGES.to_vec()),
        1 => 0u32..128,
        1 => 128u32..16_384,
        1 => 16_384u32..2_097_152,
        1 => 2_097_152u32..=VARINT_MAX,
    ]
    .boxed()
}

fn nice_text() -> BS<Vec<u8>> {
    let chars: Vec<char> = "abcdexyzMQT0129/+#$ _-.\u{e9}\u{4e2d}\u{1f600}"
        .chars()
        .collect();
    vec(select(chars), 0..10)
        .prop_map(|v| v.into_iter().collect::<String>().into_bytes())
        .boxed()
}
fn any_text() -> BS<Vec<u8>> {
    vec(any::<char>(), 0..6)
        .prop_map(|v| v.into_iter().collect::<String>().into_bytes())
        .boxed()
}
fn special_text() -> BS<Vec<u8>> {
    select(vec![
        "",
        "a",
        "MQTT",
        "MQIsdp",
        "mqtt",
        "\u{feff}",
        "\u{feff}a",
        "\0",
        "a\0b",
        "#",
        "+",
        "+/+",
        "$SYS/x",
        "$share/g/t",
        "/",
        "//",
        "\u{10ffff}",
        "\u{d7ff}\u{e000}",
        "\u{fffd}",
        "\u{7f}",
        "\r\n",
        " ",
        "\u{0301}",
        "true",
        "\"quoted\"",
        "\\",
        "a/b/c/d/e/f/g/h",
    ])
    .prop_map(|s: &str| s.as_bytes().to_vec())
    .boxed()
}
/// Lengths up to `max`, every order of magnitude equally likely.
pub fn log_len(max: usize) -> BS<usize> {
    let top = ((max + 1) as f64).ln();
    (0u32..=100_000)
        .prop_map(move |x| (((top * f64::from(x) / 100_000.0).exp()) as usize - 1).min(max))
        .boxed()
}
fn fill_text() -> BS<Vec<u8>> {
    (
        prop_oneof![
            6 => log_len(65_535),
            30 => select(vec![20usize, 62, 63, 64, 126, 127, 128, 129, 254, 255, 256, 257]),
            4 => select(vec![1023, 1024, 4096, 16_383, 16_384]),
            1 => select(vec![32_767, 32_768, 65_534, 65_535]),
        ],
        prop_oneof![6 => select(vec![b'a', b'/', b' ', 0u8]), 1 => b'0'..b'z'],
        // one byte repeated, or neighbours that differ
        any::<bool>(),
    )
        .prop_map(|(n, c, same)| {
            if same {
                vec![c; n]
            } else {
                (0..n).map(|i| b'0' + ((i + c as usize) % 73) as u8).collect()
            }
        })
        .boxed()
}
/// Text field: valid UTF-8, or any bytes if `raw`.
pub fn text(raw: bool) -> BS<Bin> {
    let t = prop_oneof![8 => nice_text(), 3 => any_text(), 3 => special_text(), 2 => fill_text()];
    if raw {
        prop_oneof![3 => t, 1 => bytes_small()]
            .prop_map(Bin)
            .boxed()
    } else {
        t.prop_map(Bin).boxed()
    }
}
fn bytes_small() -> BS<Vec<u8>> {
    vec(any::<u8>(), 0..12).boxed()
}
/// Binary field up to 65,535 bytes.
pub fn data() -> BS<Bin> {
    prop_oneof![8 => bytes_small(), 1 => nice_text(), 2 => fill_text(), 1 => vec(any::<u8>(), 100..300)]
        .prop_map(Bin)
        .boxed()
}
/// Application payload; includes bytes that look like properties or packets.
pub fn payload() -> BS<Bin> {
    prop_oneof![
        8 => bytes_small(),
        2 => fill_text(),
        1 => vec(any::<u8>(), 100..400),
        2 => select(vec![
            vec![0x26, 0, 1, b'a', 0, 1, b'b'],
            vec![0x01, 0x01],
            vec![0x0b, 0x01],
            vec![0x30, 0x02, 0, 0],
            vec![0xc0, 0x00],
            vec![0xff; 5],
            vec![0x80; 5],
            vec![0; 4],
        ]),
        1 => (select(vec![65_536usize, 70_000]), any::<u8>()).prop_map(|(n, b)| vec![b; n]),
        1 => (log_len(200_000), any::<u8>()).prop_map(|(n, b)| vec![b; n]),
    ]
    .prop_map(Bin)
    .boxed()
}

pub fn pair(raw: bool) -> BS<Prop> {
    (
        prop_oneof![2 => select(vec!["k", "key", ""]).prop_map(Bin::s), 3 => text(raw)],
        text(raw),
    )
        .prop_map(|(k, v)| Prop {
            id: USER,
            val: Val::Pair(k, v),
        })
        .boxed()
}
pub fn prop_val(id: u8, raw: bool) -> BS<Val> {
    match ptype(id).unwrap() {
        PType::Byte => edge_u8().prop_map(Val::Byte).boxed(),
        PType::U16 => edge_u16().prop_map(Val::U16).boxed(),
        PType::U32 => edge_u32().prop_map(Val::U32).boxed(),
        PType::Var => var().prop_map(|v| Val::Var(u64::from(v))).boxed(),
        PType::Str => text(raw).prop_map(Val::Str).boxed(),
        PType::Bin => data().prop_map(Val::Bin).boxed(),
        PType::Pair => (text(raw), text(raw))
            .prop_map(|(a, b)| Val::Pair(a, b))
            .boxed(),
    }
}
pub fn prop_of(id: u8, raw: bool) -> BS<Prop> {
    prop_val(id, raw)
        .prop_map(move |val| Prop { id, val })
        .boxed()
}
pub fn single_ids(s: Section) -> Vec<u8> {
    allowed(s)
        .iter()
        .copied()
        .filter(|i| !repeatable(s, *i))
        .collect()
}
/// A property list of a section, sorted by identifier.
pub fn prop_list(s: Section, raw: bool) -> BS<Vec<Prop>> {
    let ids = single_ids(s);
    let pick = |w: f64| -> Vec<BS<Option<Prop>>> {
        ids.iter()
            .map(|id| proptest::option::weighted(w, prop_of(*id, raw)).boxed())
            .collect()
    };
    let singles: BS<Vec<Option<Prop>>> = if ids.is_empty() {
        Just(vec![]).boxed()
    } else {
        let one: BS<Vec<Option<Prop>>> = select(ids.clone())
            .prop_flat_map(move |id| prop_of(id, raw))
            .prop_map(|p| vec![Some(p)])
            .boxed();
        prop_oneof![4 => pick(0.35), 1 => pick(0.95), 1 => Just(vec![]), 2 => one].boxed()
    };
    let users = prop_oneof![
        30 => vec(pair(raw), 0..1),
        40 => vec(pair(raw), 1..4),
        2 => vec(pair(raw), 4..40)
    ];
    let subids = if s == Section::Publish {
        prop_oneof![
            3 => vec(prop_of(SUBID, raw), 0..1),
            3 => vec(prop_of(SUBID, raw), 1..4),
            1 => vec(prop_of(SUBID, raw), 4..30)
        ]
        .boxed()
    } else {
        Just(vec![]).boxed()
    };
    (singles, users, subids)
        .prop_map(|(a, b, c)| {
            let mut v: Vec<Prop> = a.into_iter().flatten().chain(b).chain(c).collect();
            v.sort_by_key(|p| p.id);
            v
        })
        .boxed()
}
pub fn props(s: Section, raw: bool) -> BS<Props> {
    prop_oneof![
        2 => Just(None),
        1 => Just(Some(vec![])),
        7 => prop_list(s, raw).prop_map(Some),
    ]
    .boxed()
}

pub fn will(raw: bool) -> BS<Will> {
    (
        data(),
        data(),
        0u8..3,
        any::<bool>(),
        props(Section::Will, raw),
    )
        .prop_map(|(topic, message, qos, retain, props)| Will {
            topic,
            message,
            qos,
            retain,
            props,
        })
        .boxed()
}
pub fn login(raw: bool) -> BS<(Bin, Bin)> {
    let f = move || prop_oneof![1 => Just(Bin::default()), 3 => text(raw)];
    (f(), f()).boxed()
}
pub fn filt(raw: bool) -> BS<Filt> {
    (text(raw), 0u8..3, any::<bool>(), any::<bool>(), 0u8..3)
        .prop_map(|(path, qos, nolocal, rap, rh)| Filt {
            path,
            qos,
            nolocal,
            rap,
            rh,
        })
        .boxed()
}
fn few<T: std::fmt::Debug + Clone + 'static>(s: BS<T>) -> BS<Vec<T>> {
    prop_oneof![
        10 => vec(s.clone(), 1..2),
        20 => vec(s.clone(), 2..5),
        1 => vec(s, 5..40)
    ]
    .boxed()
}
fn code_list(t: u8) -> BS<Vec<u8>> {
    let c = select(codes(t).to_vec()).boxed();
    prop_oneof![10 => vec(c.clone(), 1..4), 2 => vec(c.clone(), 4..40), 1 => vec(c, 100..300)]
        .boxed()
}

pub fn pkt_of(t: u8, raw: bool) -> BS<Pkt> {
    if t == 12 || t == 13 {
        return plain_of(t, raw);
    }
    (
        plain_of(t, raw),
        proptest::option::weighted(0.12, (0u8..7, any::<u16>(), any::<u16>())),
    )
        .prop_map(|(mut p, echo)| {
            if let Some((kind, from, to)) = echo {
                relate(&mut p, kind, from, to);
            }
            p
        })
        .boxed()
}
/// Gives fields of one packet something in common.
fn relate(p: &mut Pkt, kind: u8, from: u16, to: u16) {
    let len = {
        let mut f = fields(p);
        if f.is_empty() {
            0
        } else {
            let n = f.len();
            let src = f[from as usize % n].0.clone();
            if src.len() < 65_535 {
                let text = src.is_text();
                let mut put = |i: usize, b: &[u8]| {
                    if text || f[i].1 != Field::Text {
                        f[i].0 .0 = b.to_vec();
                    }
                };
                let to = to as usize % n;
                match kind {
                    0 => put(to, &src.0),
                    1 => (0..n).for_each(|i| put(i, &src.0)),
                    2 => put(to, &[&src.0[..], b"x"].concat()),
                    3 => {
                        let half = match std::str::from_utf8(&src.0) {
                            Ok(s) => s.chars().take(s.chars().count() / 2).collect::<String>().into_bytes(),
                            Err(_) => src.0[..src.len() / 2].to_vec(),
                        };
                        put(to, &half);
                    }
                    _ => {}
                }
            }
            src.len()
        }
    };
    // numbers that equal one another, or the length of a field
    let v = if kind == 4 { len.min(65_535) as u16 } else { to };
    if kind >= 4 {
        let set = |ps: &mut Props| {
            for p in ps.iter_mut().flatten() {
                match &mut p.val {
                    Val::U16(x) => *x = v,
                    Val::U32(x) => *x = u32::from(v),
                    Val::Var(x) => *x = u64::from(v.max(1)),
                    _ => {}
                }
            }
        };
        p.props_mut().map(set);
        match p {
            Pkt::Connect {
                keep_alive, will, ..
            } => {
                *keep_alive = v;
                if let Some(w) = will {
                    set(&mut w.props);
                }
            }
            Pkt::Publish { pkid, .. }
            | Pkt::Ack { pkid, .. }
            | Pkt::Subscribe { pkid, .. }
            | Pkt::SubAck { pkid, .. }
            | Pkt::Unsubscribe { pkid, .. }
            | Pkt::UnsubAck { pkid, .. }
                if kind == 6 =>
            {
                *pkid = v.max(1);
            }
            _ => {}
        }
    }
}
fn plain_of(t: u8, raw: bool) -> BS<Pkt> {
    match t {
        1 => (
            edge_u16(),
            text(raw),
            any::<bool>(),
            props(Section::Connect, raw),
            proptest::option::weighted(0.6, will(raw)),
            proptest::option::weighted(0.6, login(raw)),
        )
            .prop_map(
                |(keep_alive, client_id, clean_start, props, will, login)| Pkt::Connect {
                    keep_alive,
                    client_id,
                    clean_start,
                    props,
                    will,
                    login,
                },
            )
            .boxed(),
        2 => (
            any::<bool>(),
            select(codes(2).to_vec()),
            props(Section::ConnAck, raw),
        )
            .prop_map(|(session_present, code, props)| Pkt::ConnAck {
                session_present,
                code,
                props,
            })
            .boxed(),
        3 => (
            any::<bool>(),
            0u8..3,
            any::<bool>(),
            text(raw),
            pkid1(),
            payload(),
            props(Section::Publish, raw),
        )
            .prop_map(
                |(dup, qos, retain, topic, pkid, payload, props)| Pkt::Publish {
                    dup,
                    qos,
                    retain,
                    topic,
                    pkid,
                    payload,
                    props,
                },
            )
            .boxed(),
        4..=7 => (
            edge_u16(),
            select(codes(t).to_vec()),
            props(section_of(t).unwrap(), raw),
        )
            .prop_map(move |(pkid, reason, props)| Pkt::Ack {
                t,
                pkid,
                reason,
                props,
            })
            .boxed(),
        8 => (edge_u16(), few(filt(raw)), props_sub(raw))
            .prop_map(|(pkid, filters, props)| Pkt::Subscribe {
                pkid,
                filters,
                props,
            })
            .boxed(),
        9 => (edge_u16(), code_list(9), props(Section::SubAck, raw))
            .prop_map(|(pkid, codes, props)| Pkt::SubAck { pkid, codes, props })
            .boxed(),
        10 => (edge_u16(), few(text(raw)), props(Section::Unsubscribe, raw))
            .prop_map(|(pkid, filters, props)| Pkt::Unsubscribe {
                pkid,
                filters,
                props,
            })
            .boxed(),
        11 => (edge_u16(), code_list(11), props(Section::UnsubAck, raw))
            .prop_map(|(pkid, codes, props)| Pkt::UnsubAck { pkid, codes, props })
            .boxed(),
        12 => Just(Pkt::PingReq).boxed(),
        13 => Just(Pkt::PingResp).boxed(),
        14 => (select(codes(14).to_vec()), props(Section::Disconnect, raw))
            .prop_map(|(reason, props)| Pkt::Disconnect { reason, props })
            .boxed(),
        _ => unreachable!(),
    }
}
fn props_sub(raw: bool) -> BS<Props> {
    props(Section::Subscribe, raw)
}

/// Any packet; the kinds with more structure are more frequent.
pub fn pkt(raw: bool) -> BS<Pkt> {
    let w = [0u32, 8, 6, 8, 3, 3, 3, 3, 6, 4, 4, 4, 1, 1, 5];
    let opts: Vec<(u32, BS<Pkt>)> = (1u8..=14)
        .map(|t| (w[t as usize], pkt_of(t, raw)))
        .collect();
    proptest::strategy::Union::new_weighted(opts).boxed()
}
/// Packets without long fields.
pub fn tiny_pkt(raw: bool) -> BS<Pkt> {
    pkt(raw)
        .prop_map(|mut p| {
            shrink_fields(&mut p, 300);
            p
        })
        .boxed()
}
/// Mostly small packets (few long fields): for histories.
pub fn small_pkt(raw: bool) -> BS<Pkt> {
    (
        pkt(raw),
        prop_oneof![14 => Just(300usize), 1 => Just(10_000), 1 => Just(usize::MAX)],
    )
        .prop_map(|(mut p, cap)| {
            shrink_fields(&mut p, cap);
            p
        })
        .boxed()
}
/// Truncate long fields (keeping UTF-8 validity).
pub fn shrink_fields(p: &mut Pkt, max: usize) {
    fn cut(b: &mut Bin, max: usize) {
        if b.len() > max {
            let text = b.is_text();
            let mut n = max;
            if text {
                let s = std::str::from_utf8(&b.0).unwrap();
                while !s.is_char_boundary(n) {
                    n -= 1;
                }
            }
            b.0.truncate(n);
        }
    }
    fn cut_props(ps: &mut Props, max: usize) {
        for p in ps.iter_mut().flatten() {
            match &mut p.val {
                Val::Str(s) | Val::Bin(s) => cut(s, max),
                Val::Pair(a, b) => {
                    cut(a, max);
                    cut(b, max);
                }
                _ => {}
            }
        }
    }
    if let Some(ps) = p.props_mut() {
        cut_props(ps, max);
    }
    match p {
        Pkt::Connect {
            client_id,
            will,
            login,
            ..
        } => {
            cut(client_id, max);
            if let Some(w) = will {
                cut_props(&mut w.props, max);
                cut(&mut w.topic, max);
                cut(&mut w.message, max);
            }
            if let Some((u, q)) = login {
                cut(u, max);
                cut(q, max);
            }
        }
        Pkt::Publish { topic, payload, .. } => {
            cut(topic, max);
            cut(payload, max);
        }
        Pkt::Subscribe { filters, .. } => filters.iter_mut().for_each(|f| cut(&mut f.path, max)),
        Pkt::Unsubscribe { filters, .. } => filters.iter_mut().for_each(|f| cut(f, max)),
        _ => {}
    }
}

// ------------------------------------------------------------------ padding

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Pad {
    No,
    /// make the remaining length exactly this
    Body(u32),
    /// make the property block (the will's, if `will`) exactly this
    Props {
        len: u32,
        will: bool,
    },
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Padded {
    pub pkt: Pkt,
    pub pad: Pad,
}

impl Padded {
    /// The padded packet and whether the target was hit exactly.
    pub fn build(&self) -> (Pkt, bool) {
        let mut p = self.pkt.clone();
        let hit = match self.pad {
            Pad::No => true,
            Pad::Body(n) => pad_body(&mut p, n as usize),
            Pad::Props { len, will } => pad_props(&mut p, len as usize, will),
        };
        p = p.sorted();
        (p, hit)
    }
}

fn add_user_bytes(v: &mut Vec<Prop>, mut need: usize) -> bool {
    // each user property costs 5 + key + value, key and value <= 65535
    const MAXP: usize = 5 + 2 * 65_535;
    if need > 0 && need < 5 {
        return false;
    }
    while need > 0 {
        let mut c = need.min(MAXP);
        if need - c > 0 && need - c < 5 {
            c -= 5;
        }
        let body = c - 5;
        let k = body.min(65_535) / 2;
        let vl = (body - k).min(65_535);
        let k = body - vl;
        v.push(Prop {
            id: USER,
            val: Val::Pair(Bin(vec![b'p'; k]), Bin(vec![b'q'; vl])),
        });
        need -= c;
    }
    true
}

fn pad_props(p: &mut Pkt, target: usize, in_will: bool) -> bool {
    let ps = match (in_will, p) {
        (true, Pkt::Connect { will: Some(w), .. }) => &mut w.props,
        (_, q) => match q.props_mut() {
            Some(ps) => ps,
            None => return false,
        },
    };
    let cur = props_block_len(ps);
    if cur > target {
        // drop everything and pad from scratch
        *ps = Some(vec![]);
        return add_user_bytes(ps.as_mut().unwrap(), target);
    }
    add_user_bytes(ps.get_or_insert_with(Vec::new), target - cur)
}

fn pad_body(p: &mut Pkt, target: usize) -> bool {
    let cur = body_len(p);
    if cur == target {
        return true;
    }
    if cur > target {
        shrink_fields(p, 8);
        if let Some(ps) = p.props_mut() {
            *ps = None;
        }
        if let Pkt::Connect { will, .. } = p {
            *will = None;
        }
    }
    let cur = body_len(p);
    if cur > target {
        return false;
    }
    let need = target - cur;
    match p {
        Pkt::Publish { payload, .. } => {
            let n = payload.0.len() + need;
            payload.0.resize(n, 0x5a);
            return true;
        }
        Pkt::SubAck { codes, .. } | Pkt::UnsubAck { codes, .. } if need <= 70_000 => {
            let n = codes.len() + need;
            codes.resize(n, 0x87);
            return true;
        }
        Pkt::Subscribe { filters, .. } if need >= 3 && need <= 3 + 65_535 => {
            filters.push(Filt {
                path: Bin(vec![b'f'; need - 3]),
                qos: 1,
                nolocal: false,
                rap: true,
                rh: 2,
            });
            return true;
        }
        Pkt::Unsubscribe { filters, .. } if need >= 2 && need <= 2 + 65_535 => {
            filters.push(Bin(vec![b'f'; need - 2]));
            return true;
        }
        _ => {}
    }
    // through user properties; the property length field may grow by 0..3 bytes
    let Some(ps) = p.props_mut() else {
        return false;
    };
    let base = props_block_len(ps);
    for grow in 0..4usize {
        if need < grow {
            break;
        }
        let add = need - grow;
        if (add == 0 || add >= 5)
            && varint_len((base + add) as u64) == varint_len(base as u64) + grow
        {
            return add_user_bytes(ps.get_or_insert_with(Vec::new), add);
        }
    }
    false
}

pub fn pad() -> BS<Pad> {
    let target = prop_oneof![
        40 => (select(vec![128i64]), -6i64..7),
        20 => (select(vec![16_384i64]), -6i64..7),
        1 => (select(vec![2_097_152i64]), -6i64..7),
    ]
    .prop_map(|(b, d)| (b + d) as u32);
    prop_oneof![
        60 => Just(Pad::No),
        6 => target.clone().prop_map(Pad::Body),
        5 => (target, any::<bool>()).prop_map(|(len, will)| Pad::Props { len, will }),
    ]
    .boxed()
}
/// Padding always requested.
pub fn pad_always() -> BS<Pad> {
    let target = prop_oneof![
        40 => (select(vec![128i64]), -6i64..7),
        20 => (select(vec![16_384i64]), -6i64..7),
        2 => (select(vec![2_097_152i64]), -6i64..7),
    ]
    .prop_map(|(b, d)| (b + d) as u32);
    prop_oneof![
        1 => target.clone().prop_map(Pad::Body),
        1 => (target, any::<bool>()).prop_map(|(len, will)| Pad::Props { len, will }),
    ]
    .boxed()
}
pub fn padded(raw: bool) -> BS<Padded> {
    (pkt(raw), pad())
        .prop_map(|(pkt, pad)| Padded { pkt, pad })
        .boxed()
}

// ------------------------------------------------------------------ wire forms and mutations

pub fn form() -> BS<Form> {
    (vec(any::<u16>(), 0..24), 0u8..3)
        .prop_map(|(perm, short)| Form { perm, short })
        .boxed()
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Wire {
    pub pkt: Pkt,
    pub form: Form,
}
impl Wire {
    pub fn enc(&self) -> Enc {
        encode(&self.pkt, &self.form)
    }
}
pub fn wire(raw: bool) -> BS<Wire> {
    (pkt(raw), form())
        .prop_map(|(pkt, form)| Wire { pkt, form })
        .boxed()
}
pub fn small_wire(raw: bool) -> BS<Wire> {
    (tiny_pkt(raw), form())
        .prop_map(|(pkt, form)| Wire { pkt, form })
        .boxed()
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Mut {
    Flip {
        at: u32,
        bit: u8,
    },
    Set {
        at: u32,
        v: u8,
    },
    Cut {
        at: u32,
    },
    CutField {
        which: u32,
        back: u8,
    },
    Del {
        at: u32,
        n: u8,
    },
    Ins {
        at: u32,
        bytes: Bin,
    },
    Append {
        bytes: Bin,
    },
    /// change a length field (string, binary or property block)
    Len {
        which: u32,
        delta: i32,
    },
    /// change a property block length
    PropLen {
        which: u32,
        delta: i32,
    },
    /// overwrite a property identifier
    Id {
        which: u32,
        v: u8,
    },
    /// overwrite a reason code
    Code {
        which: u32,
        v: u8,
    },
    /// overwrite flags, options, level
    Flags {
        which: u32,
        v: u8,
    },
    /// overwrite the start of a text field
    Text {
        which: u32,
        bytes: Bin,
    },
    /// replace a variable byte integer by these bytes
    Var {
        which: u32,
        bytes: Bin,
    },
    /// copy a range to somewhere else
    Copy {
        from: u32,
        n: u8,
        to: u32,
    },
    Byte1 {
        v: u8,
    },
    Flags1 {
        v: u8,
    },
    ZeroPkid,
}

pub fn mutation() -> BS<Mut> {
    let pos = any::<u32>();
    let delta = prop_oneof![
        6 => -8i32..9,
        2 => -300i32..300,
        1 => select(vec![0x7fff, 0xffff, 100_000, 2_097_152, 268_435_455]),
    ];
    prop_oneof![
        4 => (pos, 0u8..8).prop_map(|(at, bit)| Mut::Flip { at, bit }),
        4 => (pos, edge_u8()).prop_map(|(at, v)| Mut::Set { at, v }),
        4 => pos.prop_map(|at| Mut::Cut { at }),
        4 => (pos, 0u8..4).prop_map(|(which, back)| Mut::CutField { which, back }),
        2 => (pos, 1u8..8).prop_map(|(at, n)| Mut::Del { at, n }),
        2 => (pos, vec(edge_u8(), 1..6)).prop_map(|(at, b)| Mut::Ins { at, bytes: Bin(b) }),
        1 => vec(edge_u8(), 1..6).prop_map(|b| Mut::Append { bytes: Bin(b) }),
        5 => (pos, delta.clone()).prop_map(|(which, delta)| Mut::Len { which, delta }),
        5 => (pos, delta).prop_map(|(which, delta)| Mut::PropLen { which, delta }),
        3 => (pos, prop_oneof![1 => 0u8..48, 1 => any::<u8>()]).prop_map(|(which, v)| Mut::Id { which, v }),
        3 => (pos, any::<u8>()).prop_map(|(which, v)| Mut::Code { which, v }),
        2 => (pos, any::<u8>()).prop_map(|(which, v)| Mut::Flags { which, v }),
        3 => (pos, bad_utf8()).prop_map(|(which, b)| Mut::Text { which, bytes: Bin(b) }),
        2 => (pos, select(vec![
            vec![0x80u8], vec![0x80, 0x80, 0x80, 0x80], vec![0x80, 0x80, 0x80, 0x80, 0x01],
            vec![0xff, 0xff, 0xff, 0x7f], vec![0xff, 0xff, 0xff, 0xff, 0x7f], vec![0x80, 0x00],
            vec![0x81, 0x00], vec![0x01], vec![0x00], vec![0x7f], vec![0xff], vec![],
        ])).prop_map(|(which, b)| Mut::Var { which, bytes: Bin(b) }),
        2 => (pos, 1u8..20, pos).prop_map(|(from, n, to)| Mut::Copy { from, n, to }),
        1 => any::<u8>().prop_map(|v| Mut::Byte1 { v }),
        1 => (0u8..16).prop_map(|v| Mut::Flags1 { v }),
        1 => Just(Mut::ZeroPkid),
    ]
    .boxed()
}
/// Byte strings that are often not UTF-8.
pub fn bad_utf8() -> BS<Vec<u8>> {
    prop_oneof![
        6 => select(vec![
            vec![0x80u8], vec![0xff], vec![0xfe], vec![0xc0, 0x80], vec![0xc1, 0xbf], vec![0xe0, 0x80, 0x80],
            vec![0xed, 0xa0, 0x80], vec![0xed, 0xbf, 0xbf], vec![0xf0, 0x80, 0x80, 0x80],
            vec![0xf4, 0x90, 0x80, 0x80], vec![0xf5, 0x80, 0x80, 0x80], vec![0xc3], vec![0xe4, 0xb8],
            vec![0xf0, 0x9f, 0x98], vec![0xf8, 0x88, 0x80, 0x80, 0x80], vec![0xbf], vec![b'a', 0xe9],
            vec![0xc3, 0x28], vec![0xe2, 0x28, 0xa1], vec![0xf0, 0x28, 0x8c, 0xbc],
        ]),
        2 => vec(any::<u8>(), 1..6),
        1 => any_text(),
    ]
    .boxed()
}

fn pick(spans: &[Span], which: u32, f: impl Fn(SK) -> bool) -> Option<Span> {
    let c: Vec<Span> = spans.iter().copied().filter(|s| f(s.kind)).collect();
    if c.is_empty() {
        None
    } else {
        Some(c[which as usize % c.len()])
    }
}

/// Apply mutations; the remaining length stays consistent with the body.
pub fn mutate(e: &Enc, muts: &[Mut]) -> (u8, Vec<u8>) {
    let mut byte1 = e.byte1;
    let mut body = e.body.clone();
    let spans = &e.spans;
    let replace = |body: &mut Vec<u8>, a: usize, b: usize, with: &[u8]| {
        let b = b.min(body.len());
        if a <= b {
            body.splice(a..b, with.iter().copied());
        }
    };
    for m in muts {
        let n = body.len();
        match m {
            Mut::Flip { at, bit } if n > 0 => body[*at as usize % n] ^= 1 << (bit & 7),
            Mut::Set { at, v } if n > 0 => body[*at as usize % n] = *v,
            Mut::Cut { at } => body.truncate(*at as usize % (n + 1)),
            Mut::CutField { which, back } => {
                if let Some(s) = pick(spans, *which, |_| true) {
                    body.truncate(s.b.saturating_sub(*back as usize));
                }
            }
            Mut::Del { at, n: k } if n > 0 => {
                let a = *at as usize % n;
                replace(&mut body, a, a + *k as usize, &[]);
            }
            Mut::Ins { at, bytes } => {
                let a = *at as usize % (n + 1);
                replace(&mut body, a, a, &bytes.0);
            }
            Mut::Append { bytes } => body.extend_from_slice(&bytes.0),
            Mut::Len { which, delta } | Mut::PropLen { which, delta } => {
                let only_prop = matches!(m, Mut::PropLen { .. });
                let sel = |k| k == SK::PropLen || (!only_prop && k == SK::StrLen);
                if let Some(s) = pick(spans, *which, sel) {
                    if s.b > n {
                        continue;
                    }
                    if s.kind == SK::StrLen {
                        let v = u16::from_be_bytes([e.body[s.a], e.body[s.a + 1]]);
                        let v = (i32::from(v) + delta).clamp(0, 65_535) as u16;
                        replace(&mut body, s.a, s.b, &v.to_be_bytes());
                    } else if let VarRes::Ok(v, _, _) = get_varint(&e.body[s.a..]) {
                        let v = (i64::from(v) + i64::from(*delta)).clamp(0, i64::from(VARINT_MAX));
                        let mut o = Vec::new();
                        put_varint(&mut o, v as u64);
                        replace(&mut body, s.a, s.b, &o);
                    }
                }
            }
            Mut::Id { which, v } => {
                if let Some(s) = pick(spans, *which, |k| k == SK::PropId) {
                    if s.a < n {
                        body[s.a] = *v;
                    }
                }
            }
            Mut::Code { which, v } => {
                if let Some(s) = pick(spans, *which, |k| k == SK::Code) {
                    if s.a < n {
                        body[s.a] = *v;
                    }
                }
            }
            Mut::Flags { which, v } => {
                if let Some(s) = pick(spans, *which, |k| {
                    matches!(k, SK::Flags | SK::Opts | SK::Level)
                }) {
                    if s.a < n {
                        body[s.a] = *v;
                    }
                }
            }
            Mut::Text { which, bytes } => {
                if let Some(s) = pick(spans, *which, |k| k == SK::Text) {
                    for (i, b) in bytes.0.iter().enumerate() {
                        if s.a + i < s.b.min(n) {
                            body[s.a + i] = *b;
                        }
                    }
                }
            }
            Mut::Var { which, bytes } => {
                if let Some(s) = pick(spans, *which, |k| matches!(k, SK::PropLen | SK::SubId)) {
                    replace(&mut body, s.a, s.b, &bytes.0);
                }
            }
            Mut::Copy { from, n: k, to } if n > 0 => {
                let a = *from as usize % n;
                let b = (a + *k as usize).min(n);
                let t = *to as usize % (n + 1);
                let part = body[a..b].to_vec();
                replace(&mut body, t, t, &part);
            }
            Mut::Byte1 { v } => byte1 = *v,
            Mut::Flags1 { v } => byte1 = (byte1 & 0xf0) | (v & 15),
            Mut::ZeroPkid => {
                if let Some(s) = pick(spans, 0, |k| k == SK::Pkid) {
                    if s.b <= n {
                        body[s.a] = 0;
                        body[s.a + 1] = 0;
                    }
                }
            }
            _ => {}
        }
    }
    (byte1, body)
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Mutated {
    pub wire: Wire,
    pub muts: Vec<Mut>,
}
impl Mutated {
    pub fn bytes(&self) -> (u8, Vec<u8>) {
        mutate(&self.wire.enc(), &self.muts)
    }
}
pub fn mutated(raw: bool) -> BS<Mutated> {
    (
        small_wire(raw),
        prop_oneof![6 => vec(mutation(), 1..2), 3 => vec(mutation(), 2..4)],
    )
        .prop_map(|(wire, muts)| Mutated { wire, muts })
        .boxed()
}
/// A complete frame: legal, mutated or random.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum AnyFrame {
    Legal(Wire),
    Mutated(Mutated),
    Random { byte1: u8, body: Bin },
    Near(crate::sweep::Near),
}
impl AnyFrame {
    pub fn parts(&self) -> (u8, Vec<u8>) {
        match self {
            AnyFrame::Legal(w) => {
                let e = w.enc();
                (e.byte1, e.body)
            }
            AnyFrame::Mutated(m) => m.bytes(),
            AnyFrame::Random { byte1, body } => (*byte1, body.0.clone()),
            AnyFrame::Near(n) => n.parts(),
        }
    }
    pub fn frame(&self) -> Vec<u8> {
        let (b, body) = self.parts();
        frame(b, &body)
    }
}
pub fn any_frame(raw: bool) -> BS<AnyFrame> {
    prop_oneof![
        3 => small_wire(raw).prop_map(AnyFrame::Legal),
        4 => mutated(raw).prop_map(AnyFrame::Mutated),
        1 => random_frame(),
    ]
    .boxed()
}
pub fn random_frame() -> BS<AnyFrame> {
    (
        any::<u8>(),
        prop_oneof![3 => vec(any::<u8>(), 0..40), 3 => vec(low_byte(), 0..40), 1 => vec(low_byte(), 100..300)],
    )
        .prop_map(|(byte1, body)| AnyFrame::Random {
            byte1,
            body: Bin(body),
        })
        .boxed()
}
/// Bytes biased towards small numbers and property identifiers.
pub fn low_byte() -> BS<u8> {
    prop_oneof![3 => 0u8..4, 3 => select(PROPS.iter().map(|p| p.0).collect::<Vec<_>>()), 1 => any::<u8>()]
        .boxed()
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Field {
    Text,
    Data,
    Payload,
}
/// All text and binary fields of a packet.
pub fn fields(p: &mut Pkt) -> Vec<(&mut Bin, Field)> {
    use Field::*;
    fn of<'a>(v: &mut Vec<(&'a mut Bin, Field)>, ps: &'a mut Props) {
        for p in ps.iter_mut().flatten() {
            match &mut p.val {
                Val::Str(s) => v.push((s, Text)),
                Val::Bin(s) => v.push((s, Data)),
                Val::Pair(a, b) => {
                    v.push((a, Text));
                    v.push((b, Text));
                }
                _ => {}
            }
        }
    }
    let mut v = Vec::new();
    match p {
        Pkt::Connect {
            client_id,
            props,
            will,
            login,
            ..
        } => {
            v.push((client_id, Text));
            of(&mut v, props);
            if let Some(w) = will {
                v.push((&mut w.topic, Data));
                v.push((&mut w.message, Data));
                of(&mut v, &mut w.props);
            }
            if let Some((a, b)) = login {
                v.push((a, Text));
                v.push((b, Text));
            }
        }
        Pkt::Publish {
            topic,
            props,
            payload,
            ..
        } => {
            v.push((topic, Text));
            of(&mut v, props);
            v.push((payload, Payload));
        }
        Pkt::Subscribe { filters, props, .. } => {
            v.extend(filters.iter_mut().map(|f| (&mut f.path, Text)));
            of(&mut v, props);
        }
        Pkt::Unsubscribe { filters, props, .. } => {
            v.extend(filters.iter_mut().map(|f| (f, Text)));
            of(&mut v, props);
        }
        Pkt::ConnAck { props, .. }
        | Pkt::Ack { props, .. }
        | Pkt::SubAck { props, .. }
        | Pkt::UnsubAck { props, .. }
        | Pkt::Disconnect { props, .. } => of(&mut v, props),
        Pkt::PingReq | Pkt::PingResp => {}
    }
    v
}
