//! Every value of every field, one at a time, in a minimal and in a full packet.
use crate::model::*;
use crate::refcodec::{encode, Form};
use crate::spec::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Slot {
    /// packet identifier (QoS 1 publish)
    Pkid,
    KeepAlive,
    ClientId,
    Topic,
    Payload,
    WillTopic,
    WillMessage,
    User,
    Pass,
    /// the only filter
    Filter,
    /// the last of three filters
    LastFilter,
    /// number of filters or codes
    Count,
    Code,
    /// dup, QoS, retain; clean start, will, login; subscription options
    Bits,
    Prop {
        will: bool,
        id: u8,
    },
    /// key of a user property
    Key {
        will: bool,
    },
    Users {
        will: bool,
    },
    SubIds,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Sweep {
    pub t: u8,
    pub full: bool,
    pub slot: Slot,
    pub v: u32,
}

/// Text of length `n` in which neighbours differ.
fn text(n: u32) -> Bin {
    Bin((0..n).map(|i| b'a' + (i % 23) as u8).collect())
}
fn bytes(n: u32) -> Bin {
    Bin((0..n).map(|i| (i % 251) as u8).collect())
}
fn value(id: u8, v: u32) -> Val {
    match ptype(id).unwrap() {
        PType::Byte => Val::Byte(v as u8),
        PType::U16 => Val::U16(v as u16),
        PType::U32 => Val::U32(v),
        PType::Var => Val::Var(u64::from(v)),
        PType::Str => Val::Str(text(v)),
        PType::Bin => Val::Bin(bytes(v)),
        PType::Pair => Val::Pair(Bin::s("k"), text(v)),
    }
}
pub fn some_prop(id: u8, v: u8) -> Option<Prop> {
    ptype(id)?;
    Some(Prop {
        id,
        val: value(id, 3 + u32::from(v)),
    })
}
fn all(s: Section) -> Props {
    Some(
        allowed(s)
            .iter()
            .map(|id| Prop {
                id: *id,
                val: value(*id, 3 + u32::from(*id)),
            })
            .collect(),
    )
}

pub fn template(t: u8, full: bool) -> Pkt {
    let ps = |s| if full { all(s) } else { None };
    match t {
        1 => Pkt::Connect {
            keep_alive: 300,
            client_id: Bin::s("c"),
            clean_start: full,
            props: ps(Section::Connect),
            will: full.then(|| Will {
                topic: Bin::s("w/t"),
                message: Bin::s("gone"),
                qos: 1,
                retain: true,
                props: ps(Section::Will),
            }),
            login: full.then(|| (Bin::s("user"), Bin::s("secret"))),
        },
        2 => Pkt::ConnAck {
            session_present: full,
            code: 0,
            props: ps(Section::ConnAck),
        },
        3 => Pkt::Publish {
            dup: false,
            qos: 1,
            retain: full,
            topic: Bin::s("t"),
            pkid: 258,
            payload: Bin::s("payload"),
            props: ps(Section::Publish),
        },
        4..=7 => Pkt::Ack {
            t,
            pkid: 258,
            reason: if full { *codes(t).last().unwrap() } else { 0 },
            props: ps(section_of(t).unwrap()),
        },
        8 => Pkt::Subscribe {
            pkid: 258,
            filters: vec![Filt {
                path: Bin::s("f"),
                qos: 1,
                nolocal: false,
                rap: true,
                rh: 2,
            }],
            props: ps(Section::Subscribe),
        },
        9 => Pkt::SubAck {
            pkid: 258,
            codes: vec![1],
            props: ps(Section::SubAck),
        },
        10 => Pkt::Unsubscribe {
            pkid: 258,
            filters: vec![Bin::s("f")],
            props: ps(Section::Unsubscribe),
        },
        11 => Pkt::UnsubAck {
            pkid: 258,
            codes: vec![0x11],
            props: ps(Section::UnsubAck),
        },
        12 => Pkt::PingReq,
        13 => Pkt::PingResp,
        _ => Pkt::Disconnect {
            reason: if full { 4 } else { 0 },
            props: ps(Section::Disconnect),
        },
    }
}

fn edges(out: &mut Vec<u32>, max: u64) {
    for k in 0..32 {
        for d in [-2i64, -1, 0, 1, 2] {
            let v = (1i64 << k) + d;
            if v >= 0 && v as u64 <= max {
                out.push(v as u32);
            }
        }
    }
    out.extend([max as u32, (max - 1) as u32]);
    for d in [10u64, 100, 1000, 10_000, 100_000, 1_000_000] {
        if d <= max {
            out.push(d as u32);
        }
    }
}

impl Sweep {
    fn lens(&self, max: u64, dense: u32) -> Vec<u32> {
        let mut v: Vec<u32> = (0..=if self.full { dense / 2 } else { dense }).collect();
        edges(&mut v, max);
        v
    }
    fn of_prop(&self, id: u8) -> Vec<u32> {
        match ptype(id).unwrap() {
            PType::Byte => (0..256).collect(),
            PType::U16 if !self.full => (0..=65_535).collect(),
            PType::U16 => self.lens(65_535, 1024),
            PType::U32 => {
                let mut v = self.lens(u64::from(u32::MAX), 1024);
                for b in 0..=255u32 {
                    for s in [0, 8, 16, 24] {
                        v.extend([b << s, !(b << s)]);
                    }
                    v.push(b * 0x0101_0101);
                }
                v.extend((0..600u32).map(|i| i.wrapping_mul(0x9e37_79b1)));
                v
            }
            PType::Var => {
                let mut v = self.lens(u64::from(VARINT_MAX), 20_000);
                v.extend((0..600u32).map(|i| i.wrapping_mul(0x9e37_79b1) & VARINT_MAX));
                v
            }
            _ => self.lens(65_535, 520),
        }
    }
    fn values(&self) -> Vec<u32> {
        let mut v = match self.slot {
            Slot::Pkid | Slot::KeepAlive if !self.full => (0..=65_535).collect(),
            Slot::Pkid | Slot::KeepAlive => self.lens(65_535, 1024),
            Slot::Payload => self.lens(140_000, 2100),
            Slot::Count => {
                let mut v: Vec<u32> = (1..=300).collect();
                v.extend([511, 512, 1000, 1023, 1024, 4096]);
                v
            }
            Slot::Users { .. } | Slot::SubIds => (0..=140).chain([255, 256, 257, 1000]).collect(),
            Slot::Code => (0..codes(self.t).len() as u32).collect(),
            Slot::Bits => (0..72).collect(),
            Slot::Prop { id, .. } => self.of_prop(id),
            _ => self.lens(65_535, 520),
        };
        v.sort_unstable();
        v.dedup();
        // every packet must have a valid encoding
        if self.slot == Slot::Pkid && self.t == 3 {
            v.retain(|x| *x != 0);
        }
        v
    }
    fn at(self, v: u32) -> Sweep {
        Sweep { v, ..self }
    }

    pub fn build(&self) -> Pkt {
        let v = self.v;
        let mut p = template(self.t, self.full);
        // parts that minimal packets lack
        if let Pkt::Connect { will, login, .. } = &mut p {
            let wants_will = matches!(
                self.slot,
                Slot::WillTopic
                    | Slot::WillMessage
                    | Slot::Prop { will: true, .. }
                    | Slot::Key { will: true }
                    | Slot::Users { will: true }
            );
            if wants_will && will.is_none() {
                *will = Some(Will {
                    topic: Bin::s("w"),
                    message: Bin::default(),
                    qos: 0,
                    retain: false,
                    props: None,
                });
            }
            if matches!(self.slot, Slot::User | Slot::Pass) && login.is_none() {
                *login = Some((Bin::s("u"), Bin::s("p")));
            }
        }
        let val = match self.slot {
            Slot::Prop { id, .. } => vec![Prop {
                id,
                val: value(id, v),
            }],
            Slot::Key { .. } => vec![Prop {
                id: USER,
                val: Val::Pair(text(v), Bin::s("v")),
            }],
            Slot::Users { .. } => (0..v)
                .map(|i| Prop {
                    id: USER,
                    val: Val::Pair(text(i % 5), text(i % 7)),
                })
                .collect(),
            Slot::SubIds => (0..v)
                .map(|i| Prop {
                    id: SUBID,
                    val: Val::Var(u64::from(i * i % 20_000)),
                })
                .collect(),
            _ => vec![],
        };
        let id = match self.slot {
            Slot::Prop { id, .. } => Some((false, id)),
            Slot::Key { .. } | Slot::Users { .. } => Some((false, USER)),
            Slot::SubIds => Some((false, SUBID)),
            _ => None,
        };
        if let Some((_, id)) = id {
            let in_will = matches!(
                self.slot,
                Slot::Prop { will: true, .. }
                    | Slot::Key { will: true }
                    | Slot::Users { will: true }
            );
            let ps = match (&mut p, in_will) {
                (Pkt::Connect { will: Some(w), .. }, true) => &mut w.props,
                (q, _) => q.props_mut().unwrap(),
            };
            let list = ps.get_or_insert_with(Vec::new);
            list.retain(|x| x.id != id);
            list.extend(val);
            list.sort_by_key(|x| x.id);
            if list.is_empty() && !self.full {
                *ps = None;
            }
        }
        match (&mut p, self.slot) {
            (Pkt::Connect { keep_alive, .. }, Slot::KeepAlive) => *keep_alive = v as u16,
            (Pkt::Connect { client_id, .. }, Slot::ClientId) => *client_id = text(v),
            (Pkt::Connect { will: Some(w), .. }, Slot::WillTopic) => w.topic = text(v),
            (Pkt::Connect { will: Some(w), .. }, Slot::WillMessage) => w.message = bytes(v),
            (Pkt::Connect { login: Some(l), .. }, Slot::User) => l.0 = text(v),
            (Pkt::Connect { login: Some(l), .. }, Slot::Pass) => l.1 = text(v),
            (
                Pkt::Connect {
                    clean_start,
                    will,
                    login,
                    ..
                },
                Slot::Bits,
            ) => {
                *clean_start = v & 1 == 1;
                *login = match v >> 1 & 3 {
                    0 => None,
                    1 => Some((Bin::s("u"), Bin::default())),
                    2 => Some((Bin::default(), Bin::s("p"))),
                    _ => Some((Bin::s("u"), Bin::s("p"))),
                };
                let w = v >> 3;
                *will = (w > 0).then(|| Will {
                    topic: Bin::s("w"),
                    message: Bin::s("m"),
                    qos: (w % 3) as u8,
                    retain: w & 1 == 1,
                    props: None,
                });
            }
            (
                Pkt::ConnAck {
                    session_present, ..
                },
                Slot::Bits,
            ) => *session_present = v & 1 == 1,
            (
                Pkt::Publish {
                    dup, qos, retain, ..
                },
                Slot::Bits,
            ) => {
                *dup = v & 1 == 1;
                *retain = v & 2 == 2;
                *qos = (v >> 2) as u8 % 3;
            }
            (Pkt::Publish { topic, .. }, Slot::Topic) => *topic = text(v),
            (Pkt::Publish { payload, .. }, Slot::Payload) => *payload = bytes(v),
            (Pkt::Subscribe { filters, .. }, Slot::Filter) => filters[0].path = text(v),
            (Pkt::Subscribe { filters, .. }, Slot::LastFilter) => {
                filters.push(filters[0].clone());
                filters.push(filters[0].clone());
                filters[2].path = text(v);
            }
            (Pkt::Subscribe { filters, .. }, Slot::Count) => {
                let f = filters[0].clone();
                *filters = (0..v)
                    .map(|i| Filt {
                        path: text(i % 9),
                        qos: (i % 3) as u8,
                        ..f.clone()
                    })
                    .collect();
            }
            (Pkt::Subscribe { filters, .. }, Slot::Bits) => {
                let f = &mut filters[0];
                f.nolocal = v & 1 == 1;
                f.rap = v & 2 == 2;
                f.qos = (v >> 2) as u8 % 3;
                f.rh = (v / 12) as u8 % 3;
            }
            (Pkt::Unsubscribe { filters, .. }, Slot::Filter) => filters[0] = text(v),
            (Pkt::Unsubscribe { filters, .. }, Slot::LastFilter) => {
                filters.push(Bin::s("g"));
                filters.push(text(v));
            }
            (Pkt::Unsubscribe { filters, .. }, Slot::Count) => {
                *filters = (0..v).map(|i| text(i % 9)).collect();
            }
            (Pkt::SubAck { codes: c, .. }, Slot::Count) => {
                *c = (0..v).map(|i| codes(9)[i as usize % 12]).collect();
            }
            (Pkt::UnsubAck { codes: c, .. }, Slot::Count) => {
                *c = (0..v).map(|i| codes(11)[i as usize % 7]).collect();
            }
            (Pkt::ConnAck { code, .. }, Slot::Code) => *code = codes(2)[v as usize],
            (Pkt::Ack { t, reason, .. }, Slot::Code) => *reason = codes(*t)[v as usize],
            (Pkt::Disconnect { reason, .. }, Slot::Code) => *reason = codes(14)[v as usize],
            (Pkt::SubAck { codes: c, .. }, Slot::Code) => c[0] = codes(9)[v as usize],
            (Pkt::UnsubAck { codes: c, .. }, Slot::Code) => c[0] = codes(11)[v as usize],
            (
                Pkt::Publish { pkid, .. }
                | Pkt::Ack { pkid, .. }
                | Pkt::Subscribe { pkid, .. }
                | Pkt::SubAck { pkid, .. }
                | Pkt::Unsubscribe { pkid, .. }
                | Pkt::UnsubAck { pkid, .. },
                Slot::Pkid,
            ) => *pkid = v as u16,
            _ => {}
        }
        p
    }
}

fn slots(t: u8) -> Vec<Slot> {
    use Slot::*;
    let mut v = match t {
        1 => vec![
            KeepAlive,
            ClientId,
            WillTopic,
            WillMessage,
            User,
            Pass,
            Bits,
        ],
        2 => vec![Code, Bits],
        3 => vec![Pkid, Topic, Payload, Bits, SubIds],
        4..=7 => vec![Pkid, Code],
        8 => vec![Pkid, Filter, LastFilter, Count, Bits],
        9 | 11 => vec![Pkid, Count, Code],
        10 => vec![Pkid, Filter, LastFilter, Count],
        14 => vec![Code],
        _ => vec![],
    };
    let mut section = |s: Section, will: bool| {
        v.extend(allowed(s).iter().map(|id| Prop { will, id: *id }));
        v.extend([Key { will }, Users { will }]);
    };
    if let Some(s) = section_of(t) {
        section(s, false);
    }
    if t == 1 {
        section(Section::Will, true);
    }
    v
}

/// All sweeps of the given packet types.
pub fn items(types: &'static [u8]) -> impl Iterator<Item = Sweep> {
    types.iter().flat_map(|t| {
        [false, true].into_iter().flat_map(move |full| {
            slots(*t).into_iter().flat_map(move |slot| {
                let s = Sweep {
                    t: *t,
                    full,
                    slot,
                    v: 0,
                };
                s.values().into_iter().map(move |v| s.at(v))
            })
        })
    })
}
pub const ALL: &[u8] = &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 14];

/// A frame one small step away from a fixed legal one.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Near {
    pub t: u8,
    /// 0: minimal, 1: all properties, 2: everything but properties
    pub shape: u8,
    pub step: Step,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Step {
    Byte1(u8),
    /// overwrite, insert, delete a byte of the body, cut the body there
    Set(u16, u8),
    Insert(u16, u8),
    Delete(u16),
    Cut(u16),
}

pub fn shape_of(t: u8, shape: u8) -> Pkt {
    let mut p = template(t, shape > 0);
    if shape == 2 {
        if let Some(ps) = p.props_mut() {
            *ps = None;
        }
        match &mut p {
            Pkt::Connect { will: Some(w), .. } => w.props = None,
            Pkt::Publish { qos, dup, .. } => {
                *qos = 2;
                *dup = true;
            }
            Pkt::Subscribe { filters, .. } => {
                let f = filters[0].clone();
                filters.push(Filt {
                    path: Bin::default(),
                    rh: 0,
                    rap: false,
                    qos: 0,
                    nolocal: true,
                });
                filters.push(f);
            }
            Pkt::Unsubscribe { filters, .. } => {
                filters.extend([Bin::default(), Bin::s("g/h")]);
            }
            Pkt::SubAck { codes: c, .. } => *c = codes(9).to_vec(),
            Pkt::UnsubAck { codes: c, .. } => *c = codes(11).to_vec(),
            _ => {}
        }
    }
    p
}

impl Near {
    pub fn parts(&self) -> (u8, Vec<u8>) {
        let e = encode(&shape_of(self.t, self.shape), &Form::default());
        let (mut byte1, mut b) = (e.byte1, e.body);
        match self.step {
            Step::Byte1(v) => byte1 = v,
            Step::Set(at, v) => b[usize::from(at)] = v,
            Step::Insert(at, v) => b.insert(usize::from(at), v),
            Step::Delete(at) => {
                b.remove(usize::from(at));
            }
            Step::Cut(at) => b.truncate(usize::from(at)),
        }
        (byte1, b)
    }
}

/// All of them, for all packet types.
pub fn near() -> impl Iterator<Item = Near> {
    (1u8..=14).flat_map(|t| {
        (0u8..3).flat_map(move |shape| {
            let body = encode(&shape_of(t, shape), &Form::default()).body;
            let n = body.len() as u16;
            let mut v: Vec<Step> = (0..=255).map(Step::Byte1).collect();
            for at in 0..n {
                let old = body[usize::from(at)];
                if shape == 1 {
                    let mut new: Vec<u8> = (0..8).map(|bit| old ^ (1 << bit)).collect();
                    new.extend([0, 1, 2, 3, 9, 11, 31, 38, 42, 127, 128, 129, 254, 255]);
                    new.extend([old.wrapping_add(1), old.wrapping_sub(1)]);
                    new.sort_unstable();
                    new.dedup();
                    v.extend(new.into_iter().filter(|x| *x != old).map(|x| Step::Set(at, x)));
                } else {
                    v.extend((0..=255).filter(|x| *x != old).map(|x| Step::Set(at, x)));
                }
                v.extend([Step::Delete(at), Step::Cut(at)]);
            }
            for at in 0..=n {
                v.extend([0, 1, 2, 11, 38, 128, 255].map(|x| Step::Insert(at, x)));
            }
            v.into_iter().map(move |step| Near { t, shape, step })
        })
    })
}
