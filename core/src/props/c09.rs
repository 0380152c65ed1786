//! Stream decoding does not depend on chunking.
use super::*;
use crate::gen::*;
use crate::huge::*;
use proptest::collection::vec;
use proptest::prelude::*;

#[derive(Clone, Debug, PartialEq, Eq, Hash, serde::Serialize, serde::Deserialize)]
pub enum Op {
    /// append this many of the remaining input bytes
    Feed(u16),
    /// append input bytes up to the hint of the last "need more" (at least 1)
    FeedHint,
    Read,
    ReadAll,
    Check,
    Reserve(u16),
    /// drop the oldest packet still held
    DropOldest,
    /// move the buffered bytes into a new buffer
    Copy,
    /// split the buffer in two and join it again
    SplitJoin(u16),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, serde::Serialize, serde::Deserialize)]
pub struct Hist {
    pub frames: Vec<AnyFrame>,
    pub tail: Bin,
    pub max: Option<u32>,
    pub ops: Vec<Op>,
}

type Outcome = Result<Pkt, CErr>;

/// Read until nothing is consumed any more. The last element is the terminal outcome.
fn read_whole(env: &Env, bytes: &[u8], max: Option<usize>) -> (Vec<Outcome>, Vec<u8>) {
    let mut s = BytesMut::from(bytes);
    let mut out = Vec::new();
    loop {
        let before = s.len();
        let r = env.codec.read(&mut s, max);
        let stop = s.len() == before;
        out.push(r);
        if stop {
            return (out, s.to_vec());
        }
    }
}

pub fn case(env: &Env, c: &Hist, obs: &mut Obs) -> Result<(), String> {
    let mut input = Vec::new();
    for f in &c.frames {
        input.extend_from_slice(&f.frame());
    }
    input.extend_from_slice(&c.tail.0);
    run(env, &input, c.max.map(|m| m as usize), &c.ops, obs)
}

pub fn run(
    env: &Env,
    input: &[u8],
    max: Option<usize>,
    ops: &[Op],
    obs: &mut Obs,
) -> Result<(), String> {
    let (want, want_left) = read_whole(env, input, max);

    let mut s = BytesMut::new();
    let mut fed = 0usize;
    let mut hint = 1usize;
    let mut got: Vec<Outcome> = Vec::new();
    let mut held: Vec<(Box<dyn Held>, Pkt)> = Vec::new();
    let mut stuck = false;
    let mut split_reads = 0;
    let tail_ops = [Op::Feed(u16::MAX), Op::Feed(u16::MAX), Op::ReadAll];
    for op in ops.iter().chain(&tail_ops) {
        match op {
            Op::Feed(_) | Op::FeedHint => {
                let n = match op {
                    Op::Feed(u16::MAX) => input.len(),
                    Op::Feed(n) => *n as usize,
                    _ => hint.max(1),
                };
                let n = n.min(input.len() - fed);
                s.extend_from_slice(&input[fed..fed + n]);
                fed += n;
            }
            Op::Read | Op::ReadAll => loop {
                if stuck {
                    break;
                }
                let before = s.to_vec();
                let r = env.codec.read_held(&mut s, max);
                let consumed = before.len() - s.len();
                ensure!(
                    s[..] == before[consumed..],
                    "read changed the bytes left in the stream"
                );
                match r {
                    Ok(h) => {
                        ensure!(consumed > 0, "a packet was returned but nothing consumed");
                        let m = h.model();
                        got.push(Ok(m.clone()));
                        held.push((h, m));
                    }
                    Err(CErr::Need(n)) if consumed == 0 => {
                        hint = n;
                        if !before.is_empty() {
                            split_reads += 1;
                        }
                        break;
                    }
                    Err(e) => {
                        got.push(Err(e));
                        if consumed == 0 {
                            stuck = true;
                            break;
                        }
                    }
                }
                if matches!(op, Op::Read) {
                    break;
                }
            },
            Op::Check => {
                let before = s.to_vec();
                let _ = env.codec.check(&before, max);
                ensure!(s[..] == before[..], "check changed the stream");
            }
            Op::Reserve(n) => s.reserve(*n as usize),
            Op::DropOldest => {
                if !held.is_empty() {
                    let (h, m) = held.remove(0);
                    ensure!(
                        h.model() == m,
                        "{}",
                        differ("a held packet changed", &h.model(), &m)
                    );
                }
            }
            Op::Copy => {
                let t = BytesMut::from(&s[..]);
                s = t;
            }
            Op::SplitJoin(n) => {
                let at = *n as usize % (s.len() + 1);
                let back = s.split_off(at);
                s.unsplit(back);
            }
        }
    }
    obs.nontrivial_if(split_reads > 0);
    obs.label_if(split_reads > 0, "read attempted on a split frame");
    obs.label_if(
        want.iter().filter(|o| o.is_ok()).count() >= 2,
        "two or more packets decoded",
    );
    obs.label_if(stuck, "ended on a bad header");
    obs.label_if(held.len() >= 2, "two or more packets held to the end");

    // the terminal "need more" of the one-shot run is not an outcome
    let mut want = want;
    if matches!(want.last(), Some(Err(CErr::Need(_)))) {
        want.pop();
    }
    if got != want {
        let i = got
            .iter()
            .zip(&want)
            .position(|(a, b)| a != b)
            .unwrap_or(got.len().min(want.len()));
        return Err(format!(
            "outcome {i} differs between chunked and one-shot reading: {} vs {} (stream {})",
            short(format!("{:?}", got.get(i))),
            short(format!("{:?}", want.get(i))),
            hex_short(input)
        ));
    }
    if !stuck {
        ensure!(
            s[..] == want_left[..],
            "bytes left differ: {} vs {}",
            hex_short(&s),
            hex_short(&want_left)
        );
    }
    // overwrite and extend whatever the buffer still owns
    s.clear();
    for i in 0..4u8 {
        let n = s.capacity().min(4096) + 1;
        s.put_bytes(0xa5 ^ i, n);
        s.clear();
    }
    drop(s);
    for (h, m) in &held {
        let now = h.model();
        ensure!(
            now == *m,
            "{}",
            differ(
                "a packet changed after the stream buffer was reused",
                &now,
                m
            )
        );
    }
    Ok(())
}

pub fn bytes_case(env: &Env, c: &Bin, obs: &mut Obs) -> Result<(), String> {
    // first byte: chunk size
    let Some((n, rest)) = c.0.split_first() else {
        return Ok(());
    };
    let k = u16::from(n % 16 + 1);
    let ops: Vec<Op> = (0..rest.len() / k as usize + 1)
        .flat_map(|_| [Op::Feed(k), Op::ReadAll])
        .collect();
    run(env, rest, None, &ops, obs)
}

fn op() -> BS<Op> {
    prop_oneof![
        6 => prop_oneof![3 => 1u16..6, 2 => 1u16..30, 1 => 1u16..300].prop_map(Op::Feed),
        3 => Just(Op::FeedHint),
        6 => Just(Op::Read),
        3 => Just(Op::ReadAll),
        1 => Just(Op::Check),
        1 => (0u16..2000).prop_map(Op::Reserve),
        1 => Just(Op::DropOldest),
        1 => Just(Op::Copy),
        1 => any::<u16>().prop_map(Op::SplitJoin),
    ]
    .boxed()
}

/// Frames small enough for many of them to fit in a history.
fn hist(raw: bool) -> BS<Hist> {
    let fr = prop_oneof![
        5 => (small_pkt(raw), form()).prop_map(|(mut pkt, form)| {
            shrink_fields(&mut pkt, 20);
            AnyFrame::Legal(Wire { pkt, form })
        }),
        2 => any_frame(raw),
    ];
    (
        vec(fr, 1..6),
        prop_oneof![3 => Just(vec![]), 1 => vec(any::<u8>(), 1..6), 1 => Just(vec![0x30, 0x80, 0x80, 0x80, 0x80])]
            .prop_map(Bin),
        proptest::option::weighted(0.2, prop_oneof![0u32..200, any::<u32>()]),
        vec(op(), 0..60),
    )
        .prop_map(|(frames, tail, max, ops)| Hist {
            frames,
            tail,
            max,
            ops,
        })
        .boxed()
}

/// Large packets in a few pieces, read after each.
fn huge_case(env: &Env, c: &Huge, obs: &mut Obs) -> Result<(), String> {
    let mut f = encode(&c.build(), &Form::default()).frame();
    f.extend([0xc0, 0, 0xd0]);
    let pieces = 1 + f.len() / 60_000;
    let ops: Vec<Op> = (0..pieces)
        .flat_map(|_| [Op::Feed(60_000), Op::Read])
        .collect();
    let ops = if pieces > 20 {
        vec![Op::Feed(9), Op::Read, Op::Feed(60_000), Op::Read]
    } else {
        ops
    };
    run(env, &f, None, &ops, obs)
}

pub fn def() -> PropertyDef {
    PropertyDef {
        id: "C09",
        rule: "Histories of feed/read/check/reserve/split/copy operations deliver a generated stream of legal, \
               damaged and random frames (with and without a size limit) in arbitrary chunks; the outcomes and the \
               rest must equal those of reading the stream from one buffer, and packets held must not change when \
               the buffer is reused. Non-trivial: a read was attempted while a frame was incomplete.",
        parts: vec![
            bytes_part("bytes", false, bytes_case),part("histories", 8000, |e| hist(raw(e)), case),
            enumerated("huge", huge(crate::sweep::ALL), huge_case),
        ],
    }
}
