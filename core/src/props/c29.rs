//! Memory is given back when the values are.
use super::*;
use crate::gen::*;
use crate::props::c08::{bad, Bad};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::VecDeque;

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Item {
    /// a frame arrives on the session's stream, `first` bytes of it before the rest
    Arrive { frame: AnyFrame, first: u16 },
    /// a frame in a buffer of its own, under a limit
    Limited { frame: AnyFrame, max: u16 },
    /// a frame is parsed by its own type's reader
    Typed(AnyFrame),
    /// written, sized, cloned and compared
    Write(Pkt),
    /// can't be written
    Bad(Bad),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Service {
    pub items: Vec<Item>,
    /// how many decoded packets are alive at a time
    pub hold: u8,
    pub rounds: u16,
}

/// The same packet with other contents: no two rounds carry the same texts.
fn salted_pkt(p: &Pkt, round: usize) -> Pkt {
    let mut p = p.clone();
    for (i, (f, _)) in fields(&mut p).into_iter().enumerate() {
        if f.0.len() >= 6 && f.0.is_ascii() {
            let salt = format!("{:06x}", (round * 16 + i % 16) & 0xff_ffff);
            f.0[..6].copy_from_slice(salt.as_bytes());
        }
    }
    match &mut p {
        Pkt::Publish { pkid, .. }
        | Pkt::Ack { pkid, .. }
        | Pkt::Subscribe { pkid, .. }
        | Pkt::SubAck { pkid, .. }
        | Pkt::Unsubscribe { pkid, .. }
        | Pkt::UnsubAck { pkid, .. }
            if *pkid > 256 =>
        {
            *pkid = 257 + (round % 60_000) as u16;
        }
        _ => {}
    }
    p
}
fn salted(f: &AnyFrame, round: usize) -> Vec<u8> {
    match f {
        AnyFrame::Legal(w) => Wire {
            pkt: salted_pkt(&w.pkt, round),
            form: w.form.clone(),
        }
        .enc()
        .frame(),
        AnyFrame::Mutated(m) => AnyFrame::Mutated(Mutated {
            wire: Wire {
                pkt: salted_pkt(&m.wire.pkt, round),
                form: m.wire.form.clone(),
            },
            muts: m.muts.clone(),
        })
        .frame(),
        f => f.frame(),
    }
}

fn serve(codec: &dyn Codec, c: &Service, rounds: std::ops::Range<usize>) {
    let mut stream = BytesMut::new();
    let mut out = BytesMut::new();
    let mut alive: VecDeque<Box<dyn Held>> = VecDeque::new();
    let hold = c.hold as usize % 4;
    for round in rounds {
        for i in &c.items {
            match i {
                Item::Arrive { frame, first } => {
                    let b = salted(frame, round);
                    let cut = *first as usize % (b.len() + 1);
                    for part in [&b[..cut], &b[cut..]] {
                        stream.put_slice(part);
                        loop {
                            let before = stream.len();
                            if let Ok(h) = codec.read_held(&mut stream, None) {
                                let mut again = BytesMut::new();
                                let _ = h.write(&mut again);
                                alive.push_back(h);
                                while alive.len() > hold {
                                    alive.pop_front();
                                }
                            }
                            if stream.len() == before || stream.is_empty() {
                                break;
                            }
                        }
                    }
                    // what a damaged frame leaves behind
                    let n = stream.len();
                    stream.advance(n);
                }
                Item::Limited { frame, max } => {
                    let b = salted(frame, round);
                    let _ = codec.check(&b, Some(*max as usize));
                    let _ = codec.read(&mut BytesMut::from(&b[..]), Some(*max as usize));
                }
                Item::Typed(frame) => {
                    let _ = codec.typed_read(&salted(frame, round));
                }
                Item::Write(p) => {
                    let p = salted_pkt(p, round);
                    out.clear();
                    let _ = codec.write(&p, &mut out);
                    let _ = codec.typed_write(&p, &mut BytesMut::new());
                    let _ = codec.size(&p);
                    let _ = codec.clone_of(&p);
                }
                Item::Bad(b) => {
                    // much larger than the rest: now and then is enough
                    if round % 64 == 0 {
                        if let Some(p) = b.build().filter(|p| body_len(p) < 1 << 20) {
                            let _ = codec.write(&p, &mut out);
                            out.clear();
                        }
                    }
                }
            }
        }
    }
}

/// What may be left over: nothing grows with use, but something fixed may stay.
const SLACK: isize = 512;

fn case(env: &Env, c: &Service, obs: &mut Obs) -> Result<(), String> {
    let rounds = 16 + c.rounds as usize % 500;
    let warm = rounds / 4;
    let codec = env.codec;
    let a = codec.balance(&mut || serve(codec, c, 0..warm));
    let b = codec.balance(&mut || serve(codec, c, warm..rounds));
    obs.nontrivial_if(!c.items.is_empty() && rounds >= 100);
    obs.label_if(rounds * c.items.len() > 1000, "more than 1000 calls");
    ensure!(
        b.live <= SLACK,
        "{} rounds of {} calls leave {} bytes behind after everything is dropped ({} after the {warm} rounds before)",
        rounds - warm,
        c.items.len(),
        b.live,
        a.live
    );
    ensure!(
        b.peak <= 4 * a.peak + 64 * 1024,
        "{warm} rounds need {} bytes at the peak, {} further ones {}",
        a.peak,
        rounds - warm,
        b.peak
    );
    Ok(())
}

fn item(raw: bool) -> BS<Item> {
    prop_oneof![
        5 => (any_frame(raw), any::<u16>()).prop_map(|(frame, first)| Item::Arrive { frame, first }),
        2 => (any_frame(raw), 0u16..200).prop_map(|(frame, max)| Item::Limited { frame, max }),
        2 => any_frame(raw).prop_map(Item::Typed),
        4 => small_pkt(raw).prop_map(Item::Write),
        1 => bad(raw).prop_map(Item::Bad),
    ]
    .boxed()
}

/// Every shape of every packet, legal and cut short.
fn fixed(_: &Env) -> Box<dyn Iterator<Item = Service>> {
    Box::new((1u8..=14).flat_map(|t| {
        (0u8..3).flat_map(move |shape| {
            let wire = Wire {
                pkt: crate::sweep::shape_of(t, shape),
                form: Form::default(),
            };
            let cut = |at| {
                AnyFrame::Mutated(Mutated {
                    wire: wire.clone(),
                    muts: vec![Mut::Cut { at }],
                })
            };
            let legal = AnyFrame::Legal(wire.clone());
            let one = |item| Service {
                items: vec![item],
                hold: 1,
                rounds: 480,
            };
            vec![
                one(Item::Arrive {
                    frame: legal.clone(),
                    first: 0,
                }),
                one(Item::Arrive {
                    frame: legal.clone(),
                    first: 3,
                }),
                one(Item::Typed(legal.clone())),
                one(Item::Limited {
                    frame: legal,
                    max: 3,
                }),
                one(Item::Arrive {
                    frame: cut(u32::MAX / 3 * 2),
                    first: 0,
                }),
                one(Item::Arrive {
                    frame: cut(u32::MAX - 1),
                    first: 0,
                }),
                one(Item::Write(wire.pkt.clone())),
            ]
        })
    }))
}

pub fn def() -> PropertyDef {
    PropertyDef {
        id: "C29",
        rule: "A service: up to 500 rounds over a list of frames that arrive (legal, damaged, over a limit, in two \
               pieces), packets written, sized, cloned, and writes that fail, with fresh texts in every round and up \
               to three decoded packets alive; the counting allocator must be back where it was when the last value \
               is dropped (512 bytes of slack after the first quarter of the rounds), and the peak must not grow \
               with the number of rounds. Non-trivial: at least 100 rounds.",
        parts: vec![
            enumerated("every packet", fixed, case),
            part(
                "service",
                120,
                |e| {
                    (vec(item(raw(e)), 1..8), any::<u8>(), any::<u16>())
                        .prop_map(|(items, hold, rounds)| Service {
                            items,
                            hold,
                            rounds,
                        })
                        .boxed()
                },
                case,
            ),
        ],
    }
}
