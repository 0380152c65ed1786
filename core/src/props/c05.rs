//! Parsing arbitrary bytes never panics (the runner turns a panic into a failure).
use super::*;
use crate::gen::*;
use crate::huge::*;
use crate::spec::*;
use crate::sweep::{near, Near};
use bytes::Bytes;
use proptest::collection::vec;
use proptest::prelude::*;

#[derive(Clone, Debug, PartialEq, Eq, Hash, serde::Serialize, serde::Deserialize)]
pub struct Stream {
    pub frames: Vec<AnyFrame>,
    pub tail: Bin,
    pub max: Option<u32>,
    pub shape: Shape,
}

fn run_stream(
    env: &Env,
    bytes: &[u8],
    max: Option<usize>,
    shape: &Shape,
    obs: &mut Obs,
) -> Result<(), String> {
    let (mut s, _keep) = shaped(shape, bytes);
    let before = s.to_vec();
    let _ = env.codec.check(&before, max);
    for _ in 0..before.len() + 2 {
        let l0 = s.len();
        let r = env.codec.read(&mut s, max);
        let l1 = s.len();
        ensure!(l1 <= l0, "the stream grew from {l0} to {l1} bytes");
        ensure!(
            s[..] == before[before.len() - l1..],
            "the stream is not a suffix of its previous contents after {r:?}"
        );
        obs.nontrivial_if(l1 < l0);
        obs.label_if(r.is_ok(), "decoded");
        obs.label_if(r.is_err() && l1 < l0, "frame refused");
        if l1 == l0 {
            break;
        }
        // per-type readers on the frame just taken
        let frame = &before[before.len() - l0..before.len() - l1];
        if let Framing::Frame { header, body } = framing(frame, None) {
            if header + body == frame.len() {
                let _ = env.codec.typed_read(frame);
            }
        }
    }
    Ok(())
}

fn stream_case(env: &Env, c: &Stream, obs: &mut Obs) -> Result<(), String> {
    let mut b = Vec::new();
    for f in &c.frames {
        b.extend_from_slice(&f.frame());
    }
    b.extend_from_slice(&c.tail.0);
    run_stream(env, &b, c.max.map(|m| m as usize), &c.shape, obs)
}

fn near_case(env: &Env, c: &Near, obs: &mut Obs) -> Result<(), String> {
    let (byte1, body) = c.parts();
    let mut b = frame(byte1, &body);
    b.extend([0xc0, 0]);
    run_stream(env, &b, None, &Shape::Fresh, obs)?;
    // alone, each end of it is where a parser may run out of bytes
    b.truncate(b.len() - 2);
    run_stream(env, &b, None, &Shape::Fresh, obs)
}

fn deep_case(env: &Env, c: &super::c23::Deep, obs: &mut Obs) -> Result<(), String> {
    match c.pkt() {
        Some(p) => run_stream(
            env,
            &encode(&p, &Form::default()).frame(),
            None,
            &Shape::Fresh,
            obs,
        ),
        None => Ok(()),
    }
}

fn raw_case(env: &Env, c: &(Bin, Option<u32>), obs: &mut Obs) -> Result<(), String> {
    run_stream(env, &c.0 .0, c.1.map(|m| m as usize), &Shape::Fresh, obs)
}
pub fn bytes_case(env: &Env, c: &Bin, obs: &mut Obs) -> Result<(), String> {
    run_stream(env, &c.0, None, &Shape::Fresh, obs)?;
    for sec in 0..16 {
        part_case(
            env,
            &Piece {
                which: sec,
                flags: c.0.first().copied().unwrap_or(0),
                bytes: c.clone(),
            },
            obs,
        )?;
    }
    Ok(())
}

/// A piece parser on arbitrary bytes.
#[derive(Clone, Debug, PartialEq, Eq, Hash, serde::Serialize, serde::Deserialize)]
pub struct Piece {
    /// 0..=12 property sections, 13 filters, 14 will, 15 login
    pub which: u8,
    pub flags: u8,
    pub bytes: Bin,
}

pub fn part_case(env: &Env, c: &Piece, obs: &mut Obs) -> Result<(), String> {
    let before = Bytes::from(c.bytes.0.clone());
    let mut b = before.clone();
    let ok = match c.which {
        w @ 0..=12 => env
            .codec
            .section_read(SECTIONS[w as usize], &mut b)
            .is_ok_and(|p| p.is_some()),
        13 => env.codec.filters_read(&mut b).is_ok_and(|f| !f.is_empty()),
        14 => env
            .codec
            .will_read(c.flags, &mut b)
            .is_ok_and(|w| w.is_some()),
        _ => env
            .codec
            .login_read(c.flags, &mut b)
            .is_ok_and(|w| w.is_some()),
    };
    obs.label_if(ok, "piece decoded to something");
    obs.nontrivial_if(b.len() < before.len());
    ensure!(
        b.len() <= before.len() && b[..] == before[before.len() - b.len()..],
        "the rest is not a suffix of the input"
    );
    Ok(())
}

/// Property blocks with plausible structure for the piece parsers.
fn piece(raw: bool) -> BS<Piece> {
    let arbitrary = prop_oneof![
        2 => vec(any::<u8>(), 0..40),
        3 => vec(low_byte(), 0..40),
        3 => (vec(low_byte(), 1..60)).prop_map(|v| {
            // correct length in front
            let mut o = Vec::new();
            put_varint(&mut o, v.len() as u64);
            o.extend(v);
            o
        }),
    ]
    .prop_map(Bin);
    let structured = (0u8..13).prop_flat_map(move |sec| {
        (
            Just(sec),
            prop_list(SECTIONS[sec as usize], raw),
            -3i64..4,
            any::<u32>(),
            vec(any::<u8>(), 0..4),
        )
            .prop_map(|(sec, p, d, cut, tail)| {
                let e = encode_props(&p);
                let mut o = Vec::new();
                put_varint(&mut o, (e.len() as i64 + d).max(0) as u64);
                o.extend(e);
                o.extend(tail);
                if cut % 3 == 0 && !o.is_empty() {
                    let n = (cut / 3) as usize % o.len();
                    o.truncate(n);
                }
                (sec, Bin(o))
            })
    });
    prop_oneof![
        2 => (0u8..16, any::<u8>(), arbitrary)
            .prop_map(|(which, flags, bytes)| Piece { which, flags, bytes }),
        1 => (structured, any::<u8>(), 0u8..4).prop_map(|((sec, bytes), flags, x)| Piece {
            // sometimes the wrong parser for the block
            which: if x == 0 { flags % 16 } else { sec },
            flags,
            bytes
        }),
    ]
    .boxed()
}

fn raw_bytes() -> BS<Bin> {
    prop_oneof![
        2 => vec(any::<u8>(), 0..60),
        3 => (any::<u8>(), vec(low_byte(), 0..60)).prop_map(|(b, v)| {
            let mut o = vec![b];
            put_varint(&mut o, v.len() as u64);
            o.extend(v);
            o
        }),
        2 => (any::<u8>(), vec(any::<u8>(), 0..4), vec(low_byte(), 0..60)).prop_map(|(b, h, v)| {
            let mut o = vec![b];
            o.extend(h);
            o.extend(v);
            o
        }),
    ]
    .prop_map(Bin)
    .boxed()
}

fn huge_case(env: &Env, c: &Huge, obs: &mut Obs) -> Result<(), String> {
    let p = c.build();
    let e = encode(&p, &Form::default());
    run_stream(env, &e.frame(), None, &Shape::Fresh, obs)?;
    for cut in [1, 2, 5] {
        let f = frame(e.byte1, &e.body[..e.body.len() - cut]);
        run_stream(env, &f, None, &Shape::Fresh, obs)?;
    }
    Ok(())
}

pub fn def() -> PropertyDef {
    PropertyDef {
        id: "C05",
        rule: "Arbitrary, dictionary-biased, legal-then-damaged byte strings go through Packet::read, check, every \
               per-type reader and the 16 stand-alone piece parsers, with overflow and debug assertions on; any \
               panic is a violation, and the stream must stay a suffix of itself. Non-trivial: bytes were \
               consumed (the parser got past the header).",
        parts: vec![
            bytes_part("bytes", false, bytes_case),
            bytes_part("frame bytes", true, bytes_case),
            part(
                "streams",
                9000,
                |e| {
                    (
                        vec(any_frame(raw(e)), 1..4),
                        vec(any::<u8>(), 0..6).prop_map(Bin),
                        proptest::option::weighted(0.3, prop_oneof![0u32..300, any::<u32>()]),
                        shape(),
                    )
                        .prop_map(|(frames, tail, max, shape)| Stream {
                            frames,
                            tail,
                            max,
                            shape,
                        })
                        .boxed()
                },
                stream_case,
            ),
            part(
                "raw",
                14_000,
                |_| {
                    (
                        raw_bytes(),
                        proptest::option::weighted(0.2, prop_oneof![0u32..70, any::<u32>()]),
                    )
                        .boxed()
                },
                raw_case,
            ),
            part("pieces", 16_000, |e| piece(raw(e)), part_case),
            part("long fields", 2500, |e| super::c23::deep(raw(e)), deep_case),
            enumerated("character at every position", |_| super::c23::everywhere(false), deep_case),
            enumerated("bad byte at every position", |_| super::c23::everywhere(true), deep_case),
            enumerated("huge", huge(crate::sweep::ALL), huge_case),
            enumerated("one step away", |_| near(), near_case),
            enumerated("two bytes", |_| two_bytes(), raw_case),
            enumerated("cut everywhere", |_| 0..1u32, cuts_case),
        ],
    }
}

fn two_bytes() -> impl Iterator<Item = (Bin, Option<u32>)> {
    (0u32..65_536).flat_map(|n| {
        let a = (n >> 8) as u8;
        let b = n as u8;
        // header byte a, remaining length as fits, body of repeated b
        [0usize, 1, 2, 3, 4, 7, 12].into_iter().map(move |k| {
            let mut v = vec![a, k as u8];
            v.extend(std::iter::repeat(b).take(k));
            (Bin(v), None)
        })
    })
}

/// A rich packet of every type cut at every position (with consistent remaining length).
fn cuts_case(env: &Env, _: &u32, obs: &mut Obs) -> Result<(), String> {
    obs.nontrivial = true;
    for p in rich_packets() {
        let e = encode(&p, &Form::default());
        for cut in 0..=e.body.len() {
            let f = frame(e.byte1, &e.body[..cut]);
            run_stream(env, &f, None, &Shape::Fresh, obs)?;
        }
    }
    Ok(())
}

/// One packet of every type with every property it can carry.
pub fn rich_packets() -> Vec<Pkt> {
    let all = |s: Section| -> Props {
        Some(
            allowed(s)
                .iter()
                .map(|id| Prop {
                    id: *id,
                    val: match ptype(*id).unwrap() {
                        PType::Byte => Val::Byte(1),
                        PType::U16 => Val::U16(0x1234),
                        PType::U32 => Val::U32(0x0102_0304),
                        PType::Var => Val::Var(300),
                        PType::Str => Val::Str(Bin::s("text")),
                        PType::Bin => Val::Bin(Bin(vec![0xff, 0, 1])),
                        PType::Pair => Val::Pair(Bin::s("k"), Bin::s("value")),
                    },
                })
                .collect(),
        )
    };
    let mut v = vec![
        Pkt::Connect {
            keep_alive: 10,
            client_id: Bin::s("client"),
            clean_start: true,
            props: all(Section::Connect),
            will: Some(Will {
                topic: Bin::s("w/t"),
                message: Bin(vec![1, 2, 0xff]),
                qos: 2,
                retain: true,
                props: all(Section::Will),
            }),
            login: Some((Bin::s("user"), Bin::s("pass"))),
        },
        Pkt::ConnAck {
            session_present: true,
            code: 0x87,
            props: all(Section::ConnAck),
        },
        Pkt::Publish {
            dup: true,
            qos: 1,
            retain: true,
            topic: Bin::s("a/b"),
            pkid: 7,
            payload: Bin(vec![9; 9]),
            props: all(Section::Publish),
        },
        Pkt::Subscribe {
            pkid: 3,
            filters: vec![
                Filt {
                    path: Bin::s("a/+"),
                    qos: 1,
                    nolocal: true,
                    rap: false,
                    rh: 2,
                },
                Filt {
                    path: Bin::s("#"),
                    qos: 2,
                    nolocal: false,
                    rap: true,
                    rh: 1,
                },
            ],
            props: all(Section::Subscribe),
        },
        Pkt::SubAck {
            pkid: 3,
            codes: vec![0, 1, 2, 0x80],
            props: all(Section::SubAck),
        },
        Pkt::Unsubscribe {
            pkid: 4,
            filters: vec![Bin::s("a/+"), Bin::s("#")],
            props: all(Section::Unsubscribe),
        },
        Pkt::UnsubAck {
            pkid: 4,
            codes: vec![0, 0x11],
            props: all(Section::UnsubAck),
        },
        Pkt::PingReq,
        Pkt::PingResp,
        Pkt::Disconnect {
            reason: 0x8e,
            props: all(Section::Disconnect),
        },
    ];
    for t in 4..=7 {
        v.push(Pkt::Ack {
            t,
            pkid: 5,
            reason: *codes(t).last().unwrap(),
            props: all(section_of(t).unwrap()),
        });
    }
    v
}
