//! Unencodable packets fail cleanly.
use super::*;
use crate::gen::*;
use crate::spec::*;
use proptest::prelude::*;

#[derive(Clone, Debug, PartialEq, Eq, Hash, serde::Serialize, serde::Deserialize)]
pub enum Defect {
    /// blow the n-th string/binary field up to this length
    Field {
        which: u16,
        len: u32,
    },
    /// a subscription identifier over the maximum
    SubId {
        at: u8,
        v: u64,
    },
    PkidZero {
        qos: u8,
    },
    /// 3.1.1-only CONNACK code (1, 2, 3)
    OldCode(u8),
    /// replace the payload by this many bytes
    Payload(u32),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, serde::Serialize, serde::Deserialize)]
pub struct Bad {
    pub pkt: Pkt,
    pub defect: Defect,
    pub prefix: Bin,
    pub shape: Shape,
}

impl Bad {
    /// The defective packet, or None if the packet has no place for the defect.
    pub fn build(&self) -> Option<Pkt> {
        let mut p = self.pkt.clone();
        match &self.defect {
            Defect::Field { which, len } => {
                let mut f: Vec<(&mut Bin, bool)> = fields(&mut p)
                    .into_iter()
                    .filter(|(_, payload)| !matches!(payload, Field::Payload))
                    .map(|(b, k)| (b, k == Field::Text))
                    .collect();
                if f.is_empty() {
                    // a packet without text: give it an over-long user property
                    drop(f);
                    let half = Bin(vec![b'k'; *len as usize]);
                    p.props_mut()?.get_or_insert_with(Vec::new).push(Prop {
                        id: USER,
                        val: if which % 2 == 0 {
                            Val::Pair(half, Bin::s("v"))
                        } else {
                            Val::Pair(Bin::s("k"), half)
                        },
                    });
                } else {
                    let n = f.len();
                    let b = &mut f[*which as usize % n].0;
                    b.0 = vec![b'x'; *len as usize];
                }
            }
            Defect::SubId { at, v } => {
                let publish = matches!(p, Pkt::Publish { .. });
                if !publish && !matches!(p, Pkt::Subscribe { .. }) {
                    return None;
                }
                let list = p.props_mut()?.get_or_insert_with(Vec::new);
                if publish {
                    let i = *at as usize % (list.len() + 1);
                    list.insert(
                        i,
                        Prop {
                            id: SUBID,
                            val: Val::Var(*v),
                        },
                    );
                } else {
                    list.retain(|x| x.id != SUBID);
                    list.push(Prop {
                        id: SUBID,
                        val: Val::Var(*v),
                    });
                }
            }
            Defect::PkidZero { qos } => match &mut p {
                Pkt::Publish { qos: q, pkid, .. } => {
                    *q = *qos;
                    *pkid = 0;
                }
                _ => return None,
            },
            Defect::OldCode(c) => match &mut p {
                Pkt::ConnAck { code, .. } => *code = *c,
                _ => return None,
            },
            Defect::Payload(n) => match &mut p {
                Pkt::Publish { payload, .. } => payload.0 = vec![0x55; *n as usize],
                _ => return None,
            },
        }
        Some(p.sorted())
    }
}

pub fn case(env: &Env, c: &Bad, obs: &mut Obs) -> Result<(), String> {
    let Some(p) = c.build() else {
        return Ok(());
    };
    if matches!(c.defect, Defect::Payload(_)) && body_len(&p) <= VARINT_MAX as usize {
        // at the limit: must succeed
        obs.label("largest encodable");
        obs.nontrivial = true;
        let mut b = BytesMut::new();
        return match env.codec.write(&p, &mut b) {
            Ok(n) if n == b.len() && n == body_len(&p) + 5 => Ok(()),
            r => Err(format!(
                "packet of exactly {} body bytes: {r:?}, {} bytes written",
                body_len(&p),
                b.len()
            )),
        };
    }
    obs.label(p.type_name());
    obs.label(match c.defect {
        Defect::Field { .. } => "field too long",
        Defect::SubId { .. } => "subscription identifier too large",
        Defect::PkidZero { .. } => "packet identifier 0",
        Defect::OldCode(_) => "3.1.1 return code",
        Defect::Payload(_) => "packet too long",
    });
    obs.nontrivial = true;
    let (mut b, _keep) = shaped(&c.shape, &c.prefix.0);
    match env.codec.write(&p, &mut b) {
        Ok(n) => Err(format!(
            "unencodable packet written as {n} bytes: {} -> {}",
            short(format!("{p:?}")),
            hex_short(&b[c.prefix.len().min(b.len())..])
        )),
        Err(_) => {
            ensure!(
                b[..] == c.prefix.0[..],
                "after the failed write of {} the buffer holds {} instead of {}",
                short(format!("{p:?}")),
                hex_short(&b),
                hex_short(&c.prefix.0)
            );
            // and the buffer is still usable
            let mut want = c.prefix.0.clone();
            let ping = env.codec.write(&Pkt::PingReq, &mut b);
            want.extend_from_slice(&[0xc0, 0]);
            ensure!(
                ping.is_ok() && b[..] == want[..],
                "a later write into the same buffer went wrong"
            );
            // the typed writers refuse it too (without the guarantee about the buffer)
            let mut t = BytesMut::new();
            ensure!(
                env.codec.typed_write(&p, &mut t).is_err(),
                "the typed writer accepts what the packet writer refuses"
            );
            Ok(())
        }
    }
}

fn weird_len() -> BS<u32> {
    prop_oneof![
        6 => proptest::sample::select(vec![65_536u32, 65_537, 65_538, 65_540, 65_600, 66_000, 70_000]),
        2 => proptest::sample::select(vec![98_304u32, 131_071, 131_072, 131_073, 131_100, 196_608, 262_144]),
        2 => 65_536u32..140_000,
    ]
    .boxed()
}
pub fn big_id() -> BS<u64> {
    prop_oneof![
        4 => proptest::sample::select(vec![
            268_435_456u64, 268_435_457, 268_435_583, 268_435_584, 0x1fff_ffff, 0x7fff_ffff, 0x8000_0000,
            0xffff_ffff, 0x1_0000_0000, 0x1_0000_0001, 0x10_0000_0000, 0x8_0000_0001, 0x4000_0000_0000_0000,
            u64::MAX >> 1, u64::MAX - 1, u64::MAX,
        ]),
        1 => 268_435_456u64..=u64::MAX,
        1 => 268_435_456u64..1_000_000_000,
    ]
    .boxed()
}

pub fn bad(raw: bool) -> BS<Bad> {
    let field = (any::<u16>(), weird_len()).prop_map(|(which, len)| Defect::Field { which, len });
    let pick = prop_oneof![
        6 => (small_pkt(raw), field).boxed(),
        2 => (prop_oneof![pkt_of(3, raw), pkt_of(8, raw)], (any::<u8>(), big_id()).prop_map(|(at, v)| Defect::SubId { at, v })).boxed(),
        2 => (pkt_of(3, raw), (1u8..3).prop_map(|qos| Defect::PkidZero { qos })).boxed(),
        1 => (pkt_of(2, raw), (1u8..4).prop_map(Defect::OldCode)).boxed(),
    ];
    (
        pick,
        prop_oneof![1 => Just(vec![]), 3 => proptest::collection::vec(any::<u8>(), 1..30)]
            .prop_map(Bin),
        shape(),
    )
        .prop_map(|((mut pkt, defect), prefix, shape)| {
            shrink_fields(&mut pkt, 300);
            Bad {
                pkt,
                defect,
                prefix,
                shape,
            }
        })
        .boxed()
}

/// Two MAX-length packets around the overall limit.
fn huge_items(_: &Env) -> impl Iterator<Item = Bad> {
    // topic "t", QoS 1: body = 3 + 2 + 1 + payload
    [VARINT_MAX - 6, VARINT_MAX - 5].into_iter().map(|n| Bad {
        pkt: super::c06::base_pkt(3),
        defect: Defect::Payload(n),
        prefix: Bin(vec![1, 2, 3]),
        shape: Shape::Fresh,
    })
}

/// A property block over the maximum, through many maximal user properties.
fn block_items(env: &Env) -> Box<dyn Iterator<Item = u8>> {
    if env.thorough {
        Box::new([2u8, 3, 8, 14].into_iter())
    } else {
        Box::new(std::iter::empty())
    }
}
fn block_case(env: &Env, t: &u8, obs: &mut Obs) -> Result<(), String> {
    obs.nontrivial = true;
    let mut p = super::c06::base_pkt(*t);
    let n = VARINT_MAX as usize / 131_075 + 1;
    *p.props_mut().unwrap() = Some(vec![
        Prop {
            id: USER,
            val: Val::Pair(Bin(vec![b'k'; 65_535]), Bin(vec![b'v'; 65_535])),
        };
        n
    ]);
    let mut b = BytesMut::from(&b"abc"[..]);
    match env.codec.write(&p, &mut b) {
        Ok(n) => Err(format!(
            "packet with an over-long property block written ({n} bytes)"
        )),
        Err(_) => {
            ensure!(&b[..] == b"abc", "buffer changed by a failed write");
            Ok(())
        }
    }
}

pub fn def() -> PropertyDef {
    PropertyDef {
        id: "C08",
        rule: "A well-formed packet gets one unencodable feature (any string/binary field of 65,536 bytes or more, \
               a subscription identifier over 268,435,455, identifier 0 with QoS>0, a 3.1.1-only CONNACK code, a \
               total length over 268,435,455) and is written behind a prefix: the write must fail without panic \
               and leave the buffer exactly as it was and usable. Non-trivial: every case with a defect in place.",
        parts: vec![
            part("defects", 5000, |e| bad(raw(e)), case),
            enumerated("length limit", huge_items, case),
            enumerated("property block limit", block_items, block_case),
        ],
    }
}
