//! Calls do not influence one another, in one thread or in several.
use super::*;
use crate::gen::*;
use crate::props::c08::{bad, Bad, Defect as Unencodable};
use crate::spec::*;
use crate::sweep::shape_of;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::Barrier;

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Op {
    Write(Pkt),
    WriteTyped(Pkt),
    WriteBad(Bad),
    Size(Pkt),
    /// one buffer of its own, perhaps incomplete
    Read {
        frame: AnyFrame,
        cut: u16,
        max: Option<u32>,
    },
    Check {
        frame: AnyFrame,
        cut: u16,
        max: Option<u32>,
    },
    Typed(AnyFrame),
    /// a frame begins to arrive on a stream; `now` bytes of what is under way are delivered
    Feed {
        stream: u8,
        frame: AnyFrame,
        now: u16,
    },
    Clone(Pkt),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Calls {
    pub ops: Vec<Op>,
}

#[derive(Clone, Debug, PartialEq)]
enum Outcome {
    Wrote(Result<usize, CErr>, Vec<u8>),
    Size(Option<usize>),
    Read(Vec<Result<Pkt, CErr>>, Vec<u8>),
    Header(Result<Hdr, CErr>),
    Typed(Option<Result<Pkt, CErr>>),
    Clone(Pkt, bool),
}

/// An operation with all its input bytes worked out, independent of the others.
enum Ready<'a> {
    Write(&'a Pkt),
    WriteTyped(&'a Pkt),
    WriteBad(Pkt),
    Size(&'a Pkt),
    Read(Vec<u8>, Option<usize>),
    Check(Vec<u8>, Option<usize>),
    Typed(Vec<u8>),
    /// stream, bytes that arrive, everything buffered by then if all goes by the specification
    Feed(usize, Vec<u8>),
    Clone(&'a Pkt),
}

fn cut(mut b: Vec<u8>, n: u16) -> Vec<u8> {
    // half of the values leave the frame whole
    if n % 2 == 1 {
        let keep = (n as usize / 2) % (b.len() + 1);
        b.truncate(keep);
    }
    b
}

fn ready(ops: &[Op]) -> Vec<Ready<'_>> {
    let mut under_way: [Vec<u8>; 3] = Default::default();
    ops.iter()
        .filter_map(|o| {
            Some(match o {
                Op::Write(p) => Ready::Write(p),
                Op::WriteTyped(p) => Ready::WriteTyped(p),
                Op::WriteBad(b) => Ready::WriteBad(b.build()?),
                Op::Size(p) => Ready::Size(p),
                Op::Read { frame, cut: c, max } => {
                    Ready::Read(cut(frame.frame(), *c), max.map(|m| m as usize))
                }
                Op::Check { frame, cut: c, max } => {
                    Ready::Check(cut(frame.frame(), *c), max.map(|m| m as usize))
                }
                Op::Typed(f) => Ready::Typed(f.frame()),
                Op::Feed { stream, frame, now } => {
                    let s = *stream as usize % 3;
                    under_way[s].extend(frame.frame());
                    let n = *now as usize % (under_way[s].len() + 1);
                    Ready::Feed(s, under_way[s].drain(..n).collect())
                }
                Op::Clone(p) => Ready::Clone(p),
            })
        })
        .collect()
}

/// Read until nothing more comes out.
fn drain(codec: &dyn Codec, s: &mut BytesMut, max: Option<usize>) -> Outcome {
    let mut v = Vec::new();
    loop {
        let before = s.len();
        let r = codec.read(s, max);
        let stop = s.len() == before || v.len() > 40;
        v.push(r);
        if stop {
            break;
        }
    }
    Outcome::Read(v, s.to_vec())
}

/// `streams`: the buffers of the three streams.
fn perform(codec: &dyn Codec, o: &Ready, streams: &mut [BytesMut; 3]) -> Result<Outcome, String> {
    let wrote = |f: &dyn Fn(&mut BytesMut) -> Result<usize, CErr>| {
        let mut b = BytesMut::new();
        let r = f(&mut b);
        Outcome::Wrote(r, b.to_vec())
    };
    guard(|| {
        Ok(match o {
            Ready::Write(p) => wrote(&|b| codec.write(p, b)),
            Ready::WriteBad(p) => wrote(&|b| codec.write(p, b)),
            Ready::WriteTyped(p) => wrote(&|b| codec.typed_write(p, b)),
            Ready::Size(p) => Outcome::Size(codec.size(p)),
            Ready::Read(b, max) => drain(codec, &mut BytesMut::from(&b[..]), *max),
            Ready::Check(b, max) => Outcome::Header(codec.check(b, *max)),
            Ready::Typed(b) => Outcome::Typed(codec.typed_read(b)),
            Ready::Feed(i, b) => {
                streams[*i].put_slice(b);
                drain(codec, &mut streams[*i], None)
            }
            Ready::Clone(p) => {
                let (q, same) = codec.clone_of(p);
                Outcome::Clone(q, same)
            }
        })
    })
}

fn all(codec: &dyn Codec, ops: &[Ready]) -> Vec<Result<Outcome, String>> {
    let mut streams: [BytesMut; 3] = Default::default();
    ops.iter()
        .map(|o| perform(codec, o, &mut streams))
        .collect()
}

fn show(o: &Ready) -> String {
    short(match o {
        Ready::Write(p) => format!("write {p:?}"),
        Ready::WriteTyped(p) => format!("typed write {p:?}"),
        Ready::WriteBad(p) => format!("write (unencodable) {p:?}"),
        Ready::Size(p) => format!("size of {p:?}"),
        Ready::Read(b, m) => format!("read {} limit {m:?}", hex_short(b)),
        Ready::Check(b, m) => format!("check {} limit {m:?}", hex_short(b)),
        Ready::Typed(b) => format!("typed read {}", hex_short(b)),
        Ready::Feed(s, b) => format!("arrival on stream {s}: {}", hex_short(b)),
        Ready::Clone(p) => format!("clone {p:?}"),
    })
}

fn agree(
    what: &str,
    ops: &[Ready],
    order: impl Iterator<Item = usize>,
    got: &[Result<Outcome, String>],
    want: &[Result<Outcome, String>],
) -> Result<(), String> {
    for (k, i) in order.enumerate() {
        ensure!(
            got[k] == want[i],
            "{what}, call {i} ({}) gives {} instead of {}",
            show(&ops[i]),
            short(format!("{:?}", got[k])),
            short(format!("{:?}", want[i]))
        );
    }
    Ok(())
}

/// What the outcome has to be whatever came before (even if it came before in the thread or process
/// that says what the call gives by itself).
fn anchor(codec: &dyn Codec, o: &Ready, r: &Result<Outcome, String>) -> Result<(), String> {
    let Ok(r) = r else { return Ok(()) };
    match (o, r) {
        (Ready::Write(p) | Ready::WriteTyped(p), Outcome::Wrote(Ok(n), b)) => {
            ensure!(*n == b.len(), "{}: {n} of {} bytes", show(o), b.len());
            let Framing::Frame { header, body } = framing(b, None) else {
                return Err(format!("{}: no frame in {}", show(o), hex_short(b)));
            };
            ensure!(header + body == b.len(), "{}: {}", show(o), hex_short(b));
            if let Verdict::Accept(q) = decode(b[0], &b[header..], codec.text()) {
                ensure!(
                    q == p.canon(),
                    "{} means something else: {}",
                    hex_short(b),
                    differ("decoded", &q, &p.canon())
                );
            }
        }
        // (a packet that cannot be written may report any size)
        (
            Ready::Size(Pkt::Publish {
                qos: 1.., pkid: 0, ..
            }),
            _,
        ) => {}
        (Ready::Size(p), Outcome::Size(Some(n))) => {
            let body = body_len(p);
            ensure!(
                *n == body || *n == 1 + varint_len(body as u64) + body || is_short(p),
                "{}: {n} with a body of {body}",
                show(o)
            );
        }
        (Ready::Read(b, None), Outcome::Read(v, _)) => {
            if let Framing::Frame { header, body } = framing(b, None) {
                judge(codec, &b[..header + body], header, &v[0], o)?;
            }
        }
        (Ready::Typed(b), Outcome::Typed(Some(r))) => {
            if let Framing::Frame { header, body } = framing(b, None) {
                if body > 0 {
                    judge(codec, &b[..header + body], header, r, o)?;
                }
            }
        }
        (Ready::Check(b, None), Outcome::Header(r)) => {
            if let Framing::Frame { header, body } = framing(b, None) {
                ensure!(
                    r.as_ref().is_ok_and(|h| h.frame_len == header + body),
                    "{}: {r:?}",
                    show(o)
                );
            }
        }
        (Ready::Clone(p), Outcome::Clone(q, same)) => {
            ensure!(*same && *q == p.sorted(), "{} gives {same} {q:?}", show(o));
        }
        _ => {}
    }
    Ok(())
}
fn judge(
    codec: &dyn Codec,
    frame: &[u8],
    header: usize,
    r: &Result<Pkt, CErr>,
    o: &Ready,
) -> Result<(), String> {
    let v = decode(frame[0], &frame[header..], codec.text());
    accept_matches(r, &v, frame).map_err(|m| format!("{}: {m}", show(o)))?;
    if let (Ok(p), Verdict::Reject(why)) = (r, &v) {
        return Err(format!(
            "{} ({why}) gives {}",
            show(o),
            short(format!("{p:?}"))
        ));
    }
    Ok(())
}
fn is_short(p: &Pkt) -> bool {
    matches!(p, Pkt::Ack { .. } | Pkt::Disconnect { .. })
}

fn case(env: &Env, c: &Calls, obs: &mut Obs) -> Result<(), String> {
    let codec = env.codec;
    let ops = ready(&c.ops);
    obs.nontrivial_if(ops.len() >= 3);
    obs.label_if(
        ops.iter().any(|o| matches!(o, Ready::Feed(..))),
        "streams under way",
    );
    obs.label_if(
        ops.iter().any(|o| matches!(o, Ready::WriteBad(..))),
        "failed writes in between",
    );
    let got = all(codec, &ops);
    for (r, o) in got.iter().zip(&ops) {
        if let Err(m) = r {
            return Err(format!("{}: {m}", show(o)));
        }
        anchor(codec, o, r)?;
    }
    // each call by itself in a thread of its own: nothing came before it
    let mut fed: [Vec<u8>; 3] = Default::default();
    let alone: Vec<Result<Outcome, String>> = ops
        .iter()
        .zip(&got)
        .map(|(o, r)| {
            let mut streams: [BytesMut; 3] = Default::default();
            if let Ready::Feed(i, _) = o {
                streams[*i].put_slice(&fed[*i]);
            }
            let a = std::thread::scope(|s| {
                s.spawn(|| perform(codec, o, &mut streams))
                    .join()
                    .unwrap_or_else(|_| Err("thread died".into()))
            });
            if let (Ready::Feed(i, _), Ok(Outcome::Read(_, left))) = (o, r) {
                fed[*i] = left.clone();
            }
            a
        })
        .collect();
    agree("after other calls", &ops, 0..ops.len(), &got, &alone)?;
    // once more, and backwards where the order is free
    agree(
        "the second time",
        &ops,
        0..ops.len(),
        &all(codec, &ops),
        &alone,
    )?;
    let free: Vec<usize> = (0..ops.len())
        .rev()
        .filter(|i| !matches!(ops[*i], Ready::Feed(..)))
        .collect();
    let mut none: [BytesMut; 3] = Default::default();
    let back: Vec<_> = free
        .iter()
        .map(|i| perform(codec, &ops[*i], &mut none))
        .collect();
    agree("in reverse", &ops, free.iter().copied(), &back, &alone)?;
    // several threads at once
    const THREADS: usize = 3;
    let start = Barrier::new(THREADS);
    let r: Vec<Result<(), String>> = std::thread::scope(|s| {
        let h: Vec<_> = (0..THREADS)
            .map(|k| {
                let (start, ops, alone, none) = (&start, &ops, &alone, &free);
                s.spawn(move || {
                    start.wait();
                    for round in 0..4 {
                        if (round + k) % 2 == 0 {
                            let got = all(codec, ops);
                            agree("with other threads at work", ops, 0..ops.len(), &got, alone)?;
                        } else {
                            let mut st: [BytesMut; 3] = Default::default();
                            let got: Vec<_> = none
                                .iter()
                                .map(|i| perform(codec, &ops[*i], &mut st))
                                .collect();
                            let order = none.iter().copied();
                            agree("with other threads at work", ops, order, &got, alone)?;
                        }
                    }
                    Ok(())
                })
            })
            .collect();
        h.into_iter()
            .map(|h| h.join().unwrap_or_else(|_| Err("thread died".into())))
            .collect()
    });
    r.into_iter().collect()
}

fn op(raw: bool) -> BS<Op> {
    let max = || {
        prop_oneof![
            3 => Just(None),
            1 => (0u32..300).prop_map(Some),
            1 => any::<u32>().prop_map(Some)
        ]
    };
    let c = || prop_oneof![1 => Just(0u16), 1 => any::<u16>()];
    prop_oneof![
        4 => tiny_pkt(raw).prop_map(Op::Write),
        1 => tiny_pkt(raw).prop_map(Op::WriteTyped),
        1 => bad(raw).prop_map(Op::WriteBad),
        1 => tiny_pkt(raw).prop_map(Op::Size),
        4 => (any_frame(raw), c(), max()).prop_map(|(frame, cut, max)| Op::Read { frame, cut, max }),
        2 => (any_frame(raw), c(), max()).prop_map(|(frame, cut, max)| Op::Check { frame, cut, max }),
        1 => any_frame(raw).prop_map(Op::Typed),
        4 => (0u8..3, any_frame(raw), any::<u16>())
            .prop_map(|(stream, frame, now)| Op::Feed { stream, frame, now }),
        1 => tiny_pkt(raw).prop_map(Op::Clone),
    ]
    .boxed()
}

/// The same packets again and again, slightly changed: what a stale cache would confuse.
fn related(raw: bool) -> BS<Calls> {
    let t = prop_oneof![4 => Just(3u8), 1 => Just(8u8), 3 => 1u8..=14];
    t.prop_flat_map(move |t| {
        (
            (
                pkt_of(t, raw),
                prop_oneof![12 => Just(300usize), 1 => Just(70_000)],
            )
                .prop_map(|(mut p, max)| {
                    shrink_fields(&mut p, max);
                    p
                }),
            vec((any::<u8>(), any::<u8>(), any::<u8>()), 2..8),
            vec(mutation(), 1..3),
            any::<u16>(),
        )
    })
    .prop_map(|(p, edits, muts, which)| {
        let mut ops = Vec::new();
        let mut q = p.clone();
        for (f, h, kind) in edits {
            let frame = |q: &Pkt| {
                AnyFrame::Legal(Wire {
                    pkt: q.clone(),
                    form: Form::default(),
                })
            };
            ops.push(match kind % 10 {
                7 | 8 => Op::Read {
                    frame: AnyFrame::Mutated(Mutated {
                        wire: Wire {
                            pkt: q.clone(),
                            form: Form::default(),
                        },
                        muts: muts.clone(),
                    }),
                    cut: 0,
                    max: None,
                },
                9 => Op::WriteBad(Bad {
                    pkt: q.clone(),
                    defect: if kind < 80 {
                        Unencodable::SubId {
                            at: h,
                            v: 268_435_456,
                        }
                    } else {
                        Unencodable::Field { which, len: 65_536 }
                    },
                    prefix: Bin::default(),
                    shape: Shape::Fresh,
                }),
                0 | 1 => Op::Write(q.clone()),
                2 => Op::Size(q.clone()),
                3 | 4 => Op::Read {
                    frame: frame(&q),
                    cut: 0,
                    max: None,
                },
                5 => Op::Clone(q.clone()),
                _ => Op::Feed {
                    stream: kind / 10,
                    frame: frame(&q),
                    now: u16::from(h),
                },
            });
            if kind < 160 {
                super::c25::apply(&mut q, &p, super::c25::Edit::Tweak(f, h));
            }
        }
        Calls { ops }
    })
    .boxed()
}

/// Packets of one session from a small stock of values, so that they have something to do with one
/// another: aliases with and without topic, the same identifiers, optional behaviour asked for.
fn session_pkt() -> BS<Pkt> {
    (
        prop_oneof![5 => Just(3u8), 2 => Just(1u8), 2 => Just(2u8), 6 => 4u8..=14],
        any::<u64>(),
    )
        .prop_map(|(t, mut r)| {
            let mut next = move |n: u64| {
                r = r.wrapping_mul(6_364_136_223_846_793_005).wrapping_add(1);
                (r >> 33) % n
            };
            let word = |n: u64| Bin::s(["", "a", "b", "a/b", "+", "ab", "abc"][n as usize]);
            let section = |s: Section, next: &mut dyn FnMut(u64) -> u64| -> Props {
                if next(4) == 0 {
                    return None;
                }
                let mut v = Vec::new();
                for id in allowed(s) {
                    if next(2) == 0 {
                        continue;
                    }
                    for _ in 0..if repeatable(s, *id) { 1 + next(3) } else { 1 } {
                        let n = next(3);
                        v.push(Prop {
                            id: *id,
                            val: match ptype(*id).unwrap() {
                                PType::Byte => Val::Byte(n as u8),
                                PType::U16 => Val::U16(n as u16),
                                PType::U32 => Val::U32(n as u32 * 20),
                                PType::Var => Val::Var(n + 127),
                                PType::Str => Val::Str(word(next(7))),
                                PType::Bin => Val::Bin(word(next(7))),
                                PType::Pair => Val::Pair(word(next(7)), word(next(7))),
                            },
                        });
                    }
                }
                Some(v)
            };
            let code = |t: u8, n: u64| {
                let c = codes(t);
                c[n as usize % c.len()]
            };
            let n = &mut next;
            match t {
                1 => Pkt::Connect {
                    keep_alive: n(3) as u16,
                    client_id: word(n(7)),
                    clean_start: n(2) == 0,
                    props: section(Section::Connect, n),
                    will: (n(2) == 0).then(|| Will {
                        topic: word(n(7)),
                        message: word(n(7)),
                        qos: n(3) as u8,
                        retain: n(2) == 0,
                        props: section(Section::Will, n),
                    }),
                    login: (n(2) == 0).then(|| (word(n(7)), word(n(7)))),
                },
                2 => Pkt::ConnAck {
                    session_present: n(2) == 0,
                    code: code(2, n(3)),
                    props: section(Section::ConnAck, n),
                },
                3 => Pkt::Publish {
                    dup: n(2) == 0,
                    qos: n(3) as u8,
                    retain: n(2) == 0,
                    topic: word(n(4)),
                    pkid: 1 + n(3) as u16,
                    payload: word(n(7)),
                    props: section(Section::Publish, n),
                },
                4..=7 => Pkt::Ack {
                    t,
                    pkid: 1 + n(3) as u16,
                    reason: code(t, n(3)),
                    props: section(section_of(t).unwrap(), n),
                },
                8 => Pkt::Subscribe {
                    pkid: 1 + n(3) as u16,
                    filters: (0..1 + n(3))
                        .map(|_| Filt {
                            path: word(n(7)),
                            qos: n(3) as u8,
                            nolocal: n(2) == 0,
                            rap: n(2) == 0,
                            rh: n(3) as u8,
                        })
                        .collect(),
                    props: section(Section::Subscribe, n),
                },
                9 | 11 => {
                    let pkid = 1 + n(3) as u16;
                    let codes = (0..1 + n(4)).map(|_| code(t, n(4))).collect();
                    let props = section(section_of(t).unwrap(), n);
                    if t == 9 {
                        Pkt::SubAck { pkid, codes, props }
                    } else {
                        Pkt::UnsubAck { pkid, codes, props }
                    }
                }
                10 => Pkt::Unsubscribe {
                    pkid: 1 + n(3) as u16,
                    filters: (0..1 + n(3)).map(|_| word(n(7))).collect(),
                    props: section(Section::Unsubscribe, n),
                },
                12 => Pkt::PingReq,
                13 => Pkt::PingResp,
                _ => Pkt::Disconnect {
                    reason: code(14, n(3)),
                    props: section(Section::Disconnect, n),
                },
            }
            .sorted()
        })
        .boxed()
}
fn legal(pkt: Pkt) -> AnyFrame {
    AnyFrame::Legal(Wire {
        pkt,
        form: Form::default(),
    })
}
fn session() -> BS<Calls> {
    vec((session_pkt(), any::<u8>(), any::<u16>()), 4..24)
        .prop_map(|v| Calls {
            ops: v
                .into_iter()
                .map(|(p, kind, now)| match kind % 8 {
                    0..=2 => Op::Write(p),
                    3 | 4 => Op::Feed {
                        stream: kind / 8 % 2,
                        frame: legal(p),
                        now: if kind < 128 { u16::MAX } else { now },
                    },
                    _ => Op::Read {
                        frame: legal(p),
                        cut: 0,
                        max: (kind >= 192).then_some(u32::from(now % 200)),
                    },
                })
                .collect(),
        })
        .boxed()
}

/// A few calls over and over in some order: what is true of the first is true of the thousandth.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Long {
    pub palette: Vec<Op>,
    /// how often, which one follows
    pub runs: Vec<(u16, u8)>,
}
fn long_case(env: &Env, c: &Long, obs: &mut Obs) -> Result<(), String> {
    let ops = ready(&c.palette);
    if ops.is_empty() {
        return Ok(());
    }
    let total: usize = c.runs.iter().map(|(n, _)| *n as usize).sum();
    obs.nontrivial_if(total > 200);
    obs.label_if(total > 2000, "more than 2000 calls");
    let codec = env.codec;
    let single = |o: &Ready| {
        let mut streams: [BytesMut; 3] = Default::default();
        perform(codec, o, &mut streams)
    };
    let alone: Vec<_> = ops
        .iter()
        .map(|o| {
            std::thread::scope(|s| {
                s.spawn(|| single(o))
                    .join()
                    .unwrap_or_else(|_| Err("thread died".into()))
            })
        })
        .collect();
    for (o, r) in ops.iter().zip(&alone) {
        if let Err(m) = r {
            return Err(format!("{}: {m}", show(o)));
        }
        anchor(codec, o, r)?;
    }
    let mut k = 0usize;
    let mut mix = 0usize;
    for (n, which) in &c.runs {
        for _ in 0..*n {
            k += 1;
            // the top values: all in turn
            let i = if *which >= 200 {
                mix = mix.wrapping_mul(5).wrapping_add(1);
                (mix >> 3) % ops.len()
            } else {
                *which as usize % ops.len()
            };
            let got = single(&ops[i]);
            ensure!(
                got == alone[i],
                "call number {k} ({}) gives {} instead of {}",
                show(&ops[i]),
                short(format!("{got:?}")),
                short(format!("{:?}", alone[i]))
            );
        }
    }
    Ok(())
}
fn long(raw: bool) -> BS<Long> {
    (
        vec(
            prop_oneof![
                2 => op(raw),
                1 => session_pkt().prop_map(Op::Write),
                1 => session_pkt().prop_map(|p| Op::Read { frame: legal(p), cut: 0, max: None }),
            ],
            1..6,
        ),
        vec(
            (
                prop_oneof![4 => 1u16..20, 2 => 100u16..700, 1 => 1000u16..3000],
                any::<u8>(),
            ),
            1..8,
        ),
    )
        .prop_map(|(palette, runs)| Long { palette, runs })
        .boxed()
}

/// More than 65,536 of the same call, for every packet type.
fn many_items(env: &Env) -> Box<dyn Iterator<Item = Long>> {
    let rounds = if env.thorough { 12 } else { 1 };
    Box::new((1u8..=14).flat_map(move |t| {
        let frame = move || legal(shape_of(t, 1));
        let read = |frame, cut| Op::Read {
            frame,
            cut,
            max: None,
        };
        let broken = AnyFrame::Mutated(Mutated {
            wire: Wire {
                pkt: shape_of(t, 1),
                form: Form::default(),
            },
            muts: vec![Mut::Cut { at: u32::MAX / 2 }],
        });
        [
            Op::Write(shape_of(t, 1)),
            read(frame(), 0),
            read(frame(), 3),
            read(broken, 0),
        ]
        .into_iter()
        .map(move |o| Long {
            palette: vec![o],
            runs: vec![(35_000, 0); 2 * rounds],
        })
    }))
}

pub fn def() -> PropertyDef {
    PropertyDef {
        id: "C26",
        rule: "Sequences of writes (some unencodable), reads, checks, sizes, clones and arrivals on three streams; \
               every outcome must equal the outcome of that call alone in a fresh thread, the second time, in \
               reverse order and while two other threads do the same, and must fit the reference codec; the \
               packets are unrelated, slight variations of one another, or a session with a small stock of \
               values. Histories of up to thousands of calls, and 70,000 of the same call, give the same outcome \
               every time. Non-trivial: at least three calls (200 in the long histories).",
        parts: vec![
            part(
                "calls",
                100,
                |e| vec(op(raw(e)), 1..12).prop_map(|ops| Calls { ops }).boxed(),
                case,
            ),
            part("related packets", 150, |e| related(raw(e)), case),
            part("session", 100, |_| session(), case),
            part("long histories", 30, |e| long(raw(e)), long_case),
            enumerated("many calls", many_items, long_case),
        ],
    }
}
