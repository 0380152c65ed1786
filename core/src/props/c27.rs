//! Cost is proportional to what is handled.
use super::*;
use crate::gen::*;
use crate::spec::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::hint::black_box;
use std::time::Duration;

/// What grows.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Kind {
    /// user properties of the packet (or will, t = 0)
    Users(u8),
    SubIds,
    Filters,
    Topics,
    SubCodes,
    UnsubCodes,
    Payload,
    /// packets in one buffer: PINGREQ, PUBACK, PUBLISH, SUBSCRIBE or malformed ones
    Packets(u8),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum How {
    Read,
    /// decoded packets are kept
    ReadKeep,
    /// arrives in pieces of this size, with an attempt to read after each
    Trickle(u16),
    Write,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Growth {
    pub kind: Kind,
    pub how: How,
    /// length of each item (key, filter, payload)
    pub item: u16,
    /// do the items differ?
    pub distinct: bool,
}

/// CPU time of this thread.
fn cpu() -> Duration {
    extern "C" {
        fn clock_gettime(id: i32, ts: *mut [i64; 2]) -> i32;
    }
    let mut t = [0i64; 2];
    // SAFETY: timespec is two 64-bit integers on this platform; 3 is CLOCK_THREAD_CPUTIME_ID.
    let r = unsafe { clock_gettime(3, &mut t) };
    assert!(r == 0, "HARNESS: no thread CPU clock");
    Duration::new(t[0] as u64, t[1] as u32)
}

/// Far above any linear implementation (a small packet takes 0.2 us, a byte a few ns).
fn budget(items: usize, bytes: usize) -> Duration {
    Duration::from_millis(20)
        + Duration::from_nanos(5_000 * items as u64)
        + Duration::from_nanos(50 * bytes as u64)
}

fn name(c: &Growth, i: usize) -> Bin {
    let mut v = vec![b'k'; c.item as usize];
    if c.distinct {
        for (x, d) in v.iter_mut().zip(format!("{i:x}").bytes().rev()) {
            *x = d;
        }
    }
    Bin(v)
}

/// The packets of one step: `n` items altogether.
fn packets(c: &Growth, n: usize) -> Vec<Pkt> {
    let users = |n: usize| -> Props {
        Some(
            (0..n)
                .map(|i| Prop {
                    id: USER,
                    val: Val::Pair(name(c, i), Bin::s("v")),
                })
                .collect(),
        )
    };
    let one = match c.kind {
        Kind::Users(0) => {
            let mut p = crate::sweep::template(1, true);
            if let Pkt::Connect { will: Some(w), .. } = &mut p {
                w.props = users(n);
            }
            p
        }
        Kind::Users(t) => {
            let mut p = crate::sweep::template(t, false);
            *p.props_mut().unwrap() = users(n);
            p
        }
        Kind::SubIds => {
            let mut p = crate::sweep::template(3, false);
            *p.props_mut().unwrap() = Some(
                (0..n)
                    .map(|i| Prop {
                        id: SUBID,
                        val: Val::Var(if c.distinct { 1 + i as u64 } else { 7 }),
                    })
                    .collect(),
            );
            p
        }
        Kind::Filters => Pkt::Subscribe {
            pkid: 9,
            filters: (0..n)
                .map(|i| Filt {
                    path: name(c, i),
                    qos: 1,
                    nolocal: false,
                    rap: false,
                    rh: 0,
                })
                .collect(),
            props: None,
        },
        Kind::Topics => Pkt::Unsubscribe {
            pkid: 9,
            filters: (0..n).map(|i| name(c, i)).collect(),
            props: None,
        },
        Kind::SubCodes => Pkt::SubAck {
            pkid: 9,
            codes: vec![1; n],
            props: None,
        },
        Kind::UnsubCodes => Pkt::UnsubAck {
            pkid: 9,
            codes: vec![0; n],
            props: None,
        },
        Kind::Payload => Pkt::Publish {
            dup: false,
            qos: 1,
            retain: false,
            topic: Bin::s("t"),
            pkid: 9,
            payload: Bin(vec![0x41; n]),
            props: None,
        },
        Kind::Packets(k) => {
            let p = match k {
                0 => Pkt::PingReq,
                1 => Pkt::Ack {
                    t: 4,
                    pkid: 9,
                    reason: 16,
                    props: None,
                },
                2 => Pkt::Publish {
                    dup: false,
                    qos: 1,
                    retain: false,
                    topic: Bin::s("t"),
                    pkid: 9,
                    payload: name(c, 0),
                    props: Some(vec![Prop {
                        id: USER,
                        val: Val::Pair(Bin::s("k"), Bin::s("v")),
                    }]),
                },
                _ => crate::sweep::template(8, true),
            };
            return vec![p; n];
        }
    };
    vec![one]
}

/// Handles `n` items; CPU time, items, bytes.
fn step(env: &Env, c: &Growth, n: usize) -> Result<(Duration, usize, usize), String> {
    let ps = packets(c, n);
    let malformed = matches!(c.kind, Kind::Packets(4));
    let mut wire = Vec::new();
    let first = encode(&ps[0], &Form::default()).frame();
    for _ in &ps {
        if malformed {
            // a reserved packet type
            wire.extend([0xf0, 2, 0, 0]);
        } else {
            wire.extend_from_slice(&first);
        }
    }
    let bytes = wire.len();
    let finish = |got: usize, left: usize| -> Result<(), String> {
        ensure!(
            left == 0 && (malformed || got == ps.len()),
            "{got} of {} packets read, {left} bytes left",
            ps.len()
        );
        Ok(())
    };
    match c.how {
        How::Write => {
            let mut out = BytesMut::new();
            let t = cpu();
            for p in &ps {
                if let Err(e) = env.codec.write(p, &mut out) {
                    return Err(format!("write failed: {e:?}"));
                }
            }
            let t = cpu() - t;
            ensure!(out.len() >= ps.len(), "nothing written");
            // memory of one write
            let (r, a) = env.codec.write_alloc(&ps[0]);
            let len = r.map_err(|e| format!("write failed: {e:?}"))?;
            ensure!(
                a.peak <= 16 * 1024 + 8 * len,
                "writing {len} bytes had {} bytes live at its peak (largest request {})",
                a.peak,
                a.single
            );
            Ok((t, n, bytes))
        }
        How::Read | How::ReadKeep => {
            let mut s = BytesMut::from(&wire[..]);
            let mut kept = Vec::new();
            let mut got = 0;
            let t = cpu();
            while !s.is_empty() {
                let before = s.len();
                match env.codec.read_held(&mut s, None) {
                    Ok(h) => {
                        got += 1;
                        if c.how == How::ReadKeep {
                            kept.push(h);
                        }
                    }
                    Err(_) if s.len() < before => {}
                    Err(e) => return Err(format!("read failed: {e:?}")),
                }
            }
            let t = cpu() - t;
            black_box(&kept);
            finish(got, s.len())?;
            Ok((t, n + ps.len(), bytes))
        }
        How::Trickle(k) => {
            let mut s = BytesMut::new();
            let (mut got, mut calls) = (0, 0);
            let t = cpu();
            for piece in wire.chunks(usize::from(k.max(1))) {
                s.put_slice(piece);
                loop {
                    calls += 1;
                    let before = s.len();
                    match env.codec.read_held(&mut s, None) {
                        Ok(_) => got += 1,
                        Err(CErr::Need(_)) => break,
                        Err(_) if s.len() < before => {}
                        Err(e) => return Err(format!("read failed: {e:?}")),
                    }
                }
            }
            let t = cpu() - t;
            finish(got, s.len())?;
            Ok((t, n + ps.len() + calls, bytes))
        }
    }
}

fn case(env: &Env, c: &Growth, obs: &mut Obs) -> Result<(), String> {
    obs.label(match c.how {
        How::Read => "read",
        How::ReadKeep => "read and keep",
        How::Trickle(_) => "arrives in pieces",
        How::Write => "write",
    });
    obs.nontrivial = true;
    let limit = if env.thorough { 4 << 20 } else { 1 << 20 };
    let mut n = 64;
    loop {
        let (mut t, items, bytes) = step(env, c, n)?;
        let most = budget(items, bytes);
        // noise only ever adds
        for _ in 0..4 {
            if t <= most {
                break;
            }
            t = t.min(step(env, c, n)?.0);
        }
        ensure!(
            t <= most,
            "{n} items, {bytes} bytes take {} ms of CPU time, the linear bound is {} ms",
            t.as_millis(),
            most.as_millis()
        );
        if bytes * 2 > limit {
            return Ok(());
        }
        n *= 2;
    }
}

fn kinds() -> Vec<Kind> {
    let mut v: Vec<Kind> = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 14]
        .map(Kind::Users)
        .to_vec();
    v.extend((0..5).map(Kind::Packets));
    v.extend([
        Kind::SubIds,
        Kind::Filters,
        Kind::Topics,
        Kind::SubCodes,
        Kind::UnsubCodes,
        Kind::Payload,
    ]);
    v
}

fn grid() -> impl Iterator<Item = Growth> {
    kinds().into_iter().flat_map(|kind| {
        [How::Read, How::ReadKeep, How::Trickle(7), How::Write]
            .into_iter()
            .filter(move |h| *h != How::Write || !matches!(kind, Kind::Packets(4)))
            .map(move |how| Growth {
                kind,
                how,
                item: 8,
                distinct: true,
            })
    })
}

fn growth() -> BS<Growth> {
    (
        proptest::sample::select(kinds()),
        prop_oneof![
            2 => Just(How::Read),
            2 => Just(How::ReadKeep),
            3 => log_len(2000).prop_map(|n| How::Trickle(n as u16 + 1)),
            3 => Just(How::Write),
        ],
        log_len(3000),
        any::<bool>(),
    )
        .prop_map(|(kind, how, item, distinct)| Growth {
            kind,
            how: if how == How::Write && kind == Kind::Packets(4) {
                How::Read
            } else {
                how
            },
            item: item as u16,
            distinct,
        })
        .boxed()
}

pub fn def() -> PropertyDef {
    PropertyDef {
        id: "C27",
        rule: "One quantity (user properties of each packet, subscription identifiers, filters, codes, payload, \
               packets in a buffer) is doubled from 64 until the input reaches 1 MiB (4 MiB thorough), read whole, \
               read and kept, in pieces, or written. CPU time must stay within 20 ms + 5 us per item + 50 ns per \
               byte, the memory of a write within 16 KiB + 8 bytes per byte. Every case is non-trivial.",
        parts: vec![
            enumerated("grid", |_| grid(), case),
            part("growth", 4, |_| growth(), case),
        ],
    }
}
