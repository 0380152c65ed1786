//! All string configurations speak the same protocol.
use super::*;
use crate::gen::*;
use crate::spec::*;
use crate::sweep::*;
use bytes::Bytes;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Req {
    Write { pkt: Pkt, prefix: Bin },
    Size(Pkt),
    Read { bytes: Bin, max: Option<u64> },
    Check { bytes: Bin, max: Option<u64> },
    Section { sec: u8, bytes: Bin },
    Filters { bytes: Bin },
    Will { flags: u8, bytes: Bin },
    Login { flags: u8, bytes: Bin },
    Ctor(CtorArgs),
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Resp {
    Write {
        ret: Result<usize, CErr>,
        out: Bin,
    },
    Size(Option<usize>),
    Read {
        ret: Result<Pkt, CErr>,
        left: Bin,
    },
    Check(Result<(usize, Result<u8, CErr>), CErr>),
    Section {
        ret: Result<Props, CErr>,
        left: Bin,
    },
    Filters {
        ret: Result<Vec<Filt>, CErr>,
        left: Bin,
    },
    Will {
        ret: Result<Option<Will>, CErr>,
        left: Bin,
    },
    Login {
        ret: Result<Option<(Bin, Bin)>, CErr>,
        left: Bin,
    },
    Ctor(Vec<Pkt>),
    Panic(String),
}
impl Resp {
    /// refused for text that is not UTF-8?
    fn utf8(&self) -> bool {
        matches!(
            self,
            Resp::Read {
                ret: Err(CErr::Utf8),
                ..
            } | Resp::Section {
                ret: Err(CErr::Utf8),
                ..
            } | Resp::Filters {
                ret: Err(CErr::Utf8),
                ..
            } | Resp::Will {
                ret: Err(CErr::Utf8),
                ..
            } | Resp::Login {
                ret: Err(CErr::Utf8),
                ..
            }
        )
    }
    fn is_ok(&self) -> bool {
        match self {
            Resp::Write { ret, .. } => ret.is_ok(),
            Resp::Read { ret, .. } => ret.is_ok(),
            Resp::Section { ret, .. } => ret.is_ok(),
            Resp::Filters { ret, .. } => ret.is_ok(),
            Resp::Will { ret, .. } => ret.is_ok(),
            Resp::Login { ret, .. } => ret.is_ok(),
            Resp::Check(r) => r.is_ok(),
            _ => true,
        }
    }
}

/// The other configurations.
pub trait Peers {
    /// (configuration name, validates UTF-8, answer)
    fn ask(&self, r: &Req) -> Vec<(String, bool, Resp)>;
}

pub fn answer(c: &dyn Codec, r: &Req) -> Resp {
    match guard(|| Ok(answer_inner(c, r))) {
        Ok(r) => r,
        Err(m) => Resp::Panic(m),
    }
}
fn answer_inner(c: &dyn Codec, r: &Req) -> Resp {
    let rest = |b: &Bytes| Bin(b.to_vec());
    match r {
        Req::Write { pkt, prefix } => {
            let mut b = BytesMut::from(&prefix.0[..]);
            let ret = c.write(pkt, &mut b);
            Resp::Write {
                ret,
                out: Bin(b.to_vec()),
            }
        }
        Req::Size(p) => Resp::Size(c.size(p)),
        Req::Read { bytes, max } => {
            let mut b = BytesMut::from(&bytes.0[..]);
            let ret = c.read(&mut b, max.map(|m| m as usize));
            Resp::Read {
                ret,
                left: Bin(b.to_vec()),
            }
        }
        Req::Check { bytes, max } => Resp::Check(
            c.check(&bytes.0, max.map(|m| m as usize))
                .map(|h| (h.frame_len, h.ptype)),
        ),
        Req::Section { sec, bytes } => {
            let mut b = Bytes::from(bytes.0.clone());
            let ret = c.section_read(SECTIONS[*sec as usize], &mut b);
            Resp::Section {
                ret,
                left: rest(&b),
            }
        }
        Req::Filters { bytes } => {
            let mut b = Bytes::from(bytes.0.clone());
            let ret = c.filters_read(&mut b);
            Resp::Filters {
                ret,
                left: rest(&b),
            }
        }
        Req::Will { flags, bytes } => {
            let mut b = Bytes::from(bytes.0.clone());
            let ret = c.will_read(*flags, &mut b);
            Resp::Will {
                ret,
                left: rest(&b),
            }
        }
        Req::Login { flags, bytes } => {
            let mut b = Bytes::from(bytes.0.clone());
            let ret = c.login_read(*flags, &mut b);
            Resp::Login {
                ret,
                left: rest(&b),
            }
        }
        Req::Ctor(a) => Resp::Ctor(c.constructors(a).into_iter().map(|x| x.1).collect()),
    }
}

fn compare(env: &Env, req: &Req, obs: &mut Obs) -> Result<Resp, String> {
    let Some(peers) = env.peers else {
        return Err("HARNESS: C15 needs the other configurations".into());
    };
    let mine = answer(env.codec, req);
    obs.label_if(mine.is_ok(), "accepted");
    obs.label_if(!mine.is_ok(), "refused");
    let others = peers.ask(req);
    for (name, text, theirs) in others {
        if text != env.codec.text() && mine.utf8() {
            // refused for its text: the binary configuration may go on
            obs.label("text not UTF-8");
            continue;
        }
        if theirs != mine {
            return Err(format!(
                "{} and {name} differ: {} vs {} on {}",
                env.codec.name(),
                short(format!("{mine:?}")),
                short(format!("{theirs:?}")),
                short(format!("{req:?}"))
            ));
        }
    }
    Ok(mine)
}

fn write_case(env: &Env, c: &(Pkt, Bin), obs: &mut Obs) -> Result<(), String> {
    let (p, prefix) = c;
    obs.label(p.type_name());
    let mut q = p.clone();
    obs.nontrivial_if(
        fields(&mut q)
            .iter()
            .any(|(b, k)| *k == Field::Text && !b.is_empty()),
    );
    compare(
        env,
        &Req::Write {
            pkt: p.clone(),
            prefix: prefix.clone(),
        },
        obs,
    )?;
    compare(env, &Req::Size(p.clone()), obs)?;
    Ok(())
}

fn read_case(env: &Env, c: &(AnyFrame, Bin, Option<u32>), obs: &mut Obs) -> Result<(), String> {
    let (f, tail, max) = c;
    let mut b = f.frame();
    b.extend_from_slice(&tail.0);
    let max = max.map(u64::from);
    let r = compare(
        env,
        &Req::Read {
            bytes: Bin(b.clone()),
            max,
        },
        obs,
    )?;
    if let Resp::Read { ret: Ok(p), .. } = r {
        obs.label(p.type_name());
        let mut q = p;
        obs.nontrivial_if(
            fields(&mut q)
                .iter()
                .any(|(b, k)| *k == Field::Text && !b.is_empty()),
        );
    } else {
        obs.nontrivial_if(b.len() > 3);
    }
    compare(env, &Req::Check { bytes: Bin(b), max }, obs)?;
    Ok(())
}

fn piece_case(env: &Env, c: &super::c05::Piece, obs: &mut Obs) -> Result<(), String> {
    let bytes = c.bytes.clone();
    let flags = c.flags;
    let req = match c.which {
        sec @ 0..=12 => Req::Section { sec, bytes },
        13 => Req::Filters { bytes },
        14 => Req::Will { flags, bytes },
        _ => Req::Login { flags, bytes },
    };
    let r = compare(env, &req, obs)?;
    obs.nontrivial_if(r.is_ok() && c.bytes.len() > 1);
    Ok(())
}

fn ctor_case(env: &Env, c: &CtorArgs, obs: &mut Obs) -> Result<(), String> {
    obs.nontrivial_if(!c.a.is_empty());
    compare(env, &Req::Ctor(c.clone()), obs)?;
    Ok(())
}

/// structured sections for the piece readers, some with text that is not UTF-8
fn pieces() -> BS<super::c05::Piece> {
    (0u8..16)
        .prop_flat_map(|which| {
            let body: BS<Bin> = match which {
                0..=12 => (
                    prop_list(SECTIONS[which as usize], false),
                    vec(any::<u16>(), 0..8),
                    -2i64..3,
                )
                    .prop_map(|(p, perm, d)| {
                        let e = encode_props(&order(&p, &perm));
                        let d = if d.abs() == 2 { d } else { 0 };
                        let mut o = Vec::new();
                        put_varint(&mut o, (e.len() as i64 + d).max(0) as u64);
                        o.extend(e);
                        Bin(o)
                    })
                    .boxed(),
                13 => vec((text(true), any::<u8>()), 0..4)
                    .prop_map(|v| {
                        let mut o = Vec::new();
                        for (t, b) in v {
                            o.extend((t.len() as u16).to_be_bytes());
                            o.extend(&t.0);
                            o.push(b & 0x3f);
                        }
                        Bin(o)
                    })
                    .boxed(),
                _ => (prop_list(Section::Will, false), text(true), text(true))
                    .prop_map(move |(p, a, b)| {
                        let mut o = Vec::new();
                        if which == 14 {
                            let e = encode_props(&p);
                            put_varint(&mut o, e.len() as u64);
                            o.extend(e);
                        }
                        for t in [a, b] {
                            o.extend((t.len() as u16).to_be_bytes());
                            o.extend(&t.0);
                        }
                        Bin(o)
                    })
                    .boxed(),
            };
            (
                Just(which),
                any::<u8>(),
                body,
                vec(any::<u8>(), 0..3),
                proptest::option::weighted(0.15, any::<u16>()),
            )
        })
        .prop_map(|(which, flags, mut bytes, tail, cut)| {
            bytes.0.extend(tail);
            if let Some(c) = cut {
                let n = c as usize % (bytes.len() + 1);
                bytes.0.truncate(n);
            }
            super::c05::Piece {
                which,
                flags,
                bytes,
            }
        })
        .boxed()
}

fn sweep_case(env: &Env, c: &Sweep, obs: &mut Obs) -> Result<(), String> {
    let pkt = c.build();
    write_case(env, &(pkt.clone(), Bin(vec![])), obs)?;
    let form = Form::default();
    read_case(
        env,
        &(AnyFrame::Legal(Wire { pkt, form }), Bin(vec![]), None),
        obs,
    )
}

pub fn def() -> PropertyDef {
    PropertyDef {
        id: "C15",
        rule: "The same request (write a packet, read/check bytes, read a property section, filter list, will or login) \
               is put to four processes, one per string configuration; outputs, results, errors and bytes left must \
               be identical (the binary configuration is exempt only where the text ones refuse non-UTF-8 text). \
               Non-trivial: a non-empty text field is involved.",
        parts: vec![
            enumerated("one step away", |_| near().map(|n| (AnyFrame::Near(n), Bin(vec![]), None)), read_case),
            enumerated("every value", |_| items(ALL).filter(|s| s.full && s.v < 40_000 && (s.v < 300 || s.v % 16 < 2)), sweep_case),
            part(
                "write",
                1500,
                |_| {
                    (
                        prop_oneof![6 => small_pkt(false), 1 => padded(false).prop_map(|p| p.build().0)],
                        prop_oneof![2 => Just(vec![]), 1 => vec(any::<u8>(), 1..10)].prop_map(Bin),
                    )
                        .boxed()
                },
                write_case,
            ),
            part(
                "unencodable",
                200,
                |_| super::c08::bad(false).prop_map(|b| (b.build().unwrap_or(b.pkt), b.prefix)).boxed(),
                write_case,
            ),
            part(
                "read",
                3000,
                |_| {
                    (
                        any_frame(false),
                        prop_oneof![2 => Just(vec![]), 1 => vec(any::<u8>(), 1..10)].prop_map(Bin),
                        proptest::option::weighted(0.2, prop_oneof![0u32..200, any::<u32>()]),
                    )
                        .boxed()
                },
                read_case,
            ),
            part(
                "text",
                1500,
                |_| {
                    (small_wire(true).prop_map(AnyFrame::Legal), Just(Bin(vec![])), Just(None)).boxed()
                },
                read_case,
            ),
            part("pieces", 2500, |_| pieces(), piece_case),
            part("constructors", 200, |_| super::c22::ctor_args(false), ctor_case),
        ],
    }
}
