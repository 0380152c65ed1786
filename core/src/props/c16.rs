//! Decoding memory is bounded by the bytes received.
use super::*;
use crate::gen::*;
use crate::spec::*;
use proptest::collection::vec;
use proptest::prelude::*;

/// Peak of live bytes allowed while handling n received bytes.
fn bound(n: usize) -> usize {
    256 * n + 16 * 1024
}

fn judge(env: &Env, b: &[u8], max: Option<usize>, obs: &mut Obs) -> Result<(), String> {
    let mut s = BytesMut::from(b);
    let (r, a) = env.codec.read_alloc(&mut s, max);
    ensure!(
        a.peak <= bound(b.len()),
        "reading {} bytes had {} bytes live at its peak (largest request {}): {} -> {}",
        b.len(),
        a.peak,
        a.single,
        hex_short(b),
        short(format!("{r:?}"))
    );
    let (r, a) = env.codec.check_alloc(b, max);
    ensure!(
        a.peak <= 16 * 1024,
        "checking {} bytes had {} bytes live: {} -> {r:?}",
        b.len(),
        a.peak,
        hex_short(b)
    );
    let declared = match framing(b, None) {
        Framing::Need { lo, hi } if lo == hi && lo > 2 => {
            obs.label("declares more than is present");
            lo
        }
        _ => 0,
    };
    obs.nontrivial_if(declared > 0);
    Ok(())
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, serde::Serialize, serde::Deserialize)]
pub enum Hostile {
    /// a header declaring a huge body, some of it present
    Header {
        byte1: u8,
        declared: u32,
        present: u16,
    },
    /// a legal frame in which length fields are inflated, frame length kept or inflated as well
    Inflate {
        wire: Wire,
        which: u32,
        v: u32,
        declared: Option<u32>,
    },
    /// many minimal items
    Dense {
        kind: u8,
        n: u16,
    },
    Any(AnyFrame),
}

fn case(env: &Env, c: &Hostile, obs: &mut Obs) -> Result<(), String> {
    let b = match c {
        Hostile::Header {
            byte1,
            declared,
            present,
        } => {
            let mut b = vec![*byte1];
            put_varint(&mut b, u64::from(*declared));
            b.extend(std::iter::repeat(0).take((*present as u32).min(*declared) as usize));
            obs.label("huge declared length");
            b
        }
        Hostile::Inflate {
            wire,
            which,
            v,
            declared,
        } => {
            let e = wire.enc();
            let lens: Vec<Span> = e
                .spans
                .iter()
                .copied()
                .filter(|s| matches!(s.kind, SK::StrLen | SK::PropLen))
                .collect();
            let mut body = e.body.clone();
            if !lens.is_empty() {
                let s = lens[*which as usize % lens.len()];
                let new = if s.kind == SK::StrLen {
                    (*v as u16).to_be_bytes().to_vec()
                } else {
                    let mut o = Vec::new();
                    put_varint(&mut o, u64::from((*v).min(VARINT_MAX)));
                    o
                };
                body.splice(s.a..s.b, new);
                obs.label("inflated inner length");
                obs.nontrivial = true;
            }
            match declared {
                None => frame(e.byte1, &body),
                Some(d) => {
                    let mut b = vec![e.byte1];
                    put_varint(&mut b, u64::from((*d).min(VARINT_MAX)));
                    b.extend_from_slice(&body);
                    b
                }
            }
        }
        Hostile::Dense { kind, n } => {
            obs.label("dense");
            obs.nontrivial = true;
            dense(*kind, *n as usize)
        }
        Hostile::Any(f) => f.frame(),
    };
    judge(env, &b, None, obs)?;
    judge(env, &b, Some(1000), obs)
}

/// Frames with as many items per byte as possible.
fn dense(kind: u8, n: usize) -> Vec<u8> {
    let user = |n: usize| {
        Some(vec![
            Prop {
                id: USER,
                val: Val::Pair(Bin::default(), Bin::default()),
            };
            n
        ])
    };
    let p = match kind {
        0 => Pkt::Subscribe {
            pkid: 1,
            filters: vec![
                Filt {
                    path: Bin::default(),
                    qos: 0,
                    nolocal: false,
                    rap: false,
                    rh: 0
                };
                n
            ],
            props: None,
        },
        1 => Pkt::Unsubscribe {
            pkid: 1,
            filters: vec![Bin::default(); n],
            props: None,
        },
        2 => Pkt::SubAck {
            pkid: 1,
            codes: vec![0; n],
            props: None,
        },
        3 => Pkt::UnsubAck {
            pkid: 1,
            codes: vec![0; n],
            props: None,
        },
        4 => Pkt::Publish {
            dup: false,
            qos: 0,
            retain: false,
            topic: Bin::default(),
            pkid: 0,
            payload: Bin::default(),
            props: Some(vec![
                Prop {
                    id: SUBID,
                    val: Val::Var(1),
                };
                n
            ]),
        },
        k => {
            let t = [1u8, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 14][k as usize % 12];
            let mut p = super::c06::base_pkt(t);
            *p.props_mut().unwrap() = user(n);
            p
        }
    };
    encode(&p, &Form::default()).frame()
}

pub fn bytes_case(env: &Env, c: &Bin, obs: &mut Obs) -> Result<(), String> {
    judge(env, &c.0, None, obs)
}

pub fn def() -> PropertyDef {
    PropertyDef {
        id: "C16",
        rule: "Headers declaring up to 256 MiB with little or no body, frames whose inner lengths (strings, property \
               blocks) are inflated up to 256 MiB, and frames packed with minimal items go through read and check \
               under a counting allocator: live bytes may not exceed 256 per received byte plus 16 KiB (check: \
               16 KiB). Non-trivial: some declared length exceeds what is present, or a dense list.",
        parts: vec![
            bytes_part("bytes", false, bytes_case),
            bytes_part("frame bytes", true, bytes_case),
            part(
                "hostile",
                9000,
                |e| {
                    let big = || {
                        prop_oneof![
                            3 => var(),
                            2 => proptest::sample::select(vec![65_535u32, 65_534, 40_000, 2_097_151, 268_435_455, 100_000_000])
                        ]
                    };
                    prop_oneof![
                        2 => (any::<u8>(), big(), 0u16..64).prop_map(|(byte1, declared, present)| Hostile::Header { byte1, declared, present }),
                        5 => (small_wire(raw(e)), any::<u32>(), big(), proptest::option::weighted(0.3, big()))
                            .prop_map(|(wire, which, v, declared)| Hostile::Inflate { wire, which, v, declared }),
                        1 => (0u8..17, prop_oneof![5 => 0u16..100, 1 => 0u16..3000]).prop_map(|(kind, n)| Hostile::Dense { kind, n }),
                        2 => any_frame(raw(e)).prop_map(Hostile::Any),
                    ]
                    .boxed()
                },
                case,
            ),
            part("raw", 6000, |_| vec(low_byte(), 0..60).prop_map(Bin).boxed(), bytes_case),
        ],
    }
}
