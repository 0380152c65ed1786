//! Writing only appends, and is deterministic.
use super::*;
use crate::gen::*;
use crate::huge::*;
use crate::sweep::*;
use proptest::collection::vec;
use proptest::prelude::*;

#[derive(Clone, Debug, PartialEq, Eq, Hash, serde::Serialize, serde::Deserialize)]
pub struct Append {
    pub prefix: Bin,
    pub shape: Shape,
    pub pkts: Vec<Pkt>,
    /// read this many packets back between writes
    pub drain: bool,
}

fn case(env: &Env, c: &Append, obs: &mut Obs) -> Result<(), String> {
    obs.nontrivial_if(!c.prefix.is_empty() && c.pkts.len() >= 2);
    obs.label_if(!c.prefix.is_empty(), "prefix not empty");
    obs.label_if(c.pkts.len() >= 2, "two or more packets");
    obs.label_if(
        c.pkts.iter().any(|p| matches!(p, Pkt::Connect { .. })),
        "contains CONNECT",
    );
    // each packet alone
    let mut single = Vec::new();
    for p in &c.pkts {
        single.push(write(env, p)?);
    }
    // all behind the prefix
    let (mut b, _keep) = shaped(&c.shape, &c.prefix.0);
    let mut want = c.prefix.0.clone();
    for (p, s) in c.pkts.iter().zip(&single) {
        if let Err(e) = env.codec.write(p, &mut b) {
            return Err(format!("write failed behind other data: {e:?}"));
        }
        let at = want.len();
        want.extend_from_slice(s);
        if b[..] != want[..] {
            ensure!(
                b.len() >= at && b[..at] == want[..at],
                "writing {} changed bytes already in the buffer: {} became {}",
                short(format!("{p:?}")),
                hex_short(&want[..at]),
                hex_short(&b[..at.min(b.len())])
            );
            return Err(format!(
                "{} encodes as {} in an empty buffer but {} behind {} bytes",
                short(format!("{p:?}")),
                hex_short(s),
                hex_short(&b[at..]),
                at
            ));
        }
    }
    // the sequence comes back
    let _ = b.split_to(c.prefix.len());
    for (i, p) in c.pkts.iter().enumerate() {
        match env.codec.read(&mut b, None) {
            Ok(q) => ensure!(
                q == p.canon(),
                "packet {i}: {}",
                differ("read back", &q, &p.canon())
            ),
            Err(e) => return Err(format!("packet {i} cannot be read back: {e:?}")),
        }
        // writing again while reading gives the same bytes
        if c.drain {
            let again = write(env, p)?;
            ensure!(
                again == single[i],
                "second encoding differs: {} then {}",
                hex_short(&single[i]),
                hex_short(&again)
            );
        }
    }
    ensure!(b.is_empty(), "{} bytes left over", b.len());
    Ok(())
}

fn sweep_case(env: &Env, c: &Sweep, obs: &mut Obs) -> Result<(), String> {
    let p = c.build();
    let a = Append {
        prefix: Bin(vec![0xa5, 0x30, 0xff]),
        shape: Shape::Fresh,
        pkts: vec![p.clone(), Pkt::PingReq, p],
        drain: false,
    };
    case(env, &a, obs)
}

/// Much data in front of the packet.
fn huge_case(env: &Env, c: &(u8, u32), obs: &mut Obs) -> Result<(), String> {
    let p = template(c.0, true);
    let a = Append {
        prefix: Bin(noise(c.1 as usize)),
        shape: if c.1 % 2 == 0 {
            Shape::Fresh
        } else {
            Shape::Advanced(5)
        },
        pkts: vec![p.clone(), p],
        drain: false,
    };
    case(env, &a, obs)
}
/// Large packets behind others.
fn huge_packet(env: &Env, c: &Huge, obs: &mut Obs) -> Result<(), String> {
    let a = Append {
        prefix: Bin(vec![0xc0, 0]),
        shape: Shape::Fresh,
        pkts: vec![Pkt::PingReq, c.build(), template(3, true)],
        drain: false,
    };
    case(env, &a, obs)
}
fn sizes() -> impl Iterator<Item = u32> {
    (8..25u32).flat_map(|k| [(1u32 << k) - 1, 1 << k, (1 << k) + 1])
}

pub fn def() -> PropertyDef {
    PropertyDef {
        id: "C07",
        rule: "One to five packets are written one after the other behind an arbitrary prefix, into buffers of \
               different provenance (fresh, spare capacity, advanced, split); the buffer must equal the prefix plus \
               the bytes each packet gives in an empty buffer, and read back as the same sequence. Non-trivial: \
               prefix not empty and at least two packets.",
        parts: vec![
            part(
            "sequences",
            7000,
            |e| {
                (
                    prop_oneof![
                        1 => Just(vec![]),
                        4 => vec(any::<u8>(), 1..40),
                        1 => Just(vec![0x5au8; 300]),
                        1 => log_len(70_000).prop_map(|n| vec![0xa5u8; n]),
                    ]
                    .prop_map(Bin),
                    shape(),
                    vec(small_pkt(raw(e)), 1..6),
                    any::<bool>(),
                )
                    .prop_map(|(prefix, shape, pkts, drain)| Append {
                        prefix,
                        shape,
                        pkts,
                        drain,
                    })
                    .boxed()
            },
            case,
            ),
            enumerated(
                "much in front",
                |_| (1u8..=14).flat_map(|t| sizes().filter(move |n| *n < 1 << 20 || t % 4 == 1).map(move |n| (t, n))),
                huge_case,
            ),
            enumerated("huge", huge(ALL), huge_packet),
            enumerated("every value", |_| items(ALL).filter(|s| s.full), sweep_case),
        ],
    }
}
