//! A frame is consumed exactly and decoded in isolation.
use super::*;
use crate::gen::*;
use crate::huge::*;
use proptest::collection::vec;
use proptest::prelude::*;

#[derive(Clone, Debug, PartialEq, Eq, Hash, serde::Serialize, serde::Deserialize)]
pub enum Tail {
    Bytes(Bin),
    Frame(AnyFrame),
    /// bytes which look like a continuation of the frame in front
    Props(Vec<Prop>),
}
impl Tail {
    fn bytes(&self) -> Vec<u8> {
        match self {
            Tail::Bytes(b) => b.0.clone(),
            Tail::Frame(f) => f.frame(),
            Tail::Props(p) => encode_props(p),
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, serde::Serialize, serde::Deserialize)]
pub struct Isolated {
    pub frame: AnyFrame,
    pub tail: Tail,
    pub shape: Shape,
    pub max: Option<u32>,
}

fn case(env: &Env, c: &Isolated, obs: &mut Obs) -> Result<(), String> {
    judge(
        env,
        &c.frame.frame(),
        &c.tail.bytes(),
        &c.shape,
        c.max.map(|m| m as usize),
        obs,
    )
}

fn judge(
    env: &Env,
    f: &[u8],
    tail: &[u8],
    shape: &Shape,
    max: Option<usize>,
    obs: &mut Obs,
) -> Result<(), String> {
    // alone, in a fresh buffer
    let mut alone = BytesMut::from(f);
    let want = env.codec.read(&mut alone, max);
    // with bytes behind it, in some other kind of buffer
    let mut all = f.to_vec();
    all.extend_from_slice(tail);
    let (mut s, _keep) = shaped(shape, &all);
    let got = env.codec.read(&mut s, max);
    obs.label_if(want.is_ok(), "decodes");
    obs.label_if(want.is_err(), "refused");
    ensure!(
        got == want,
        "outcome depends on what follows or on the buffer: {} alone, {} before {} in {shape:?} ({})",
        short(format!("{want:?}")),
        short(format!("{got:?}")),
        hex_short(tail),
        hex_short(f)
    );
    match framing(f, max) {
        Framing::Frame { header, body } if header + body == f.len() => {
            obs.nontrivial_if(!tail.is_empty());
            ensure!(
                alone.is_empty(),
                "{} of {} bytes of the frame left over ({}): {}",
                alone.len(),
                f.len(),
                short(format!("{want:?}")),
                hex_short(f)
            );
            ensure!(
                s[..] == *tail,
                "behind the frame there were {} bytes, now {}: {} (frame {}, outcome {})",
                tail.len(),
                s.len(),
                hex_short(&s),
                hex_short(f),
                short(format!("{got:?}"))
            );
            // and the tail reads as it does on its own
            let mut t = BytesMut::from(tail);
            let a = env.codec.read(&mut t, max);
            let b = env.codec.read(&mut s, max);
            ensure!(
                a == b && t[..] == s[..],
                "what follows the frame reads differently behind it: {} vs {}",
                short(format!("{a:?}")),
                short(format!("{b:?}"))
            );
        }
        Framing::TooBig { .. } | Framing::Malformed => {
            obs.label("bad header");
            obs.nontrivial = true;
            ensure!(
                alone[..] == *f && s[..] == all[..],
                "a bad header was (partly) consumed: {}",
                hex_short(f)
            );
        }
        _ => {}
    }
    Ok(())
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, serde::Serialize, serde::Deserialize)]
pub struct BadHeader {
    pub byte1: u8,
    pub len: Bin,
    pub tail: Bin,
    pub max: Option<u32>,
    pub shape: Shape,
}
fn bad_header(env: &Env, c: &BadHeader, obs: &mut Obs) -> Result<(), String> {
    let mut f = vec![c.byte1];
    f.extend_from_slice(&c.len.0);
    let max = c.max.map(|m| m as usize);
    f.extend_from_slice(&c.tail.0);
    match framing(&f, max) {
        Framing::Frame { header, body } => {
            let (a, b) = f.split_at(header + body);
            judge(env, a, b, &c.shape, max, obs)
        }
        Framing::Need { .. } => Ok(()),
        _ => judge(env, &f, &c.tail.0, &c.shape, max, obs),
    }
}

pub fn bytes_case(env: &Env, c: &Bin, obs: &mut Obs) -> Result<(), String> {
    if let Framing::Frame { header, body } = framing(&c.0, None) {
        let (a, b) = c.0.split_at(header + body);
        judge(env, a, b, &Shape::Advanced(3), None, obs)?;
        judge(env, a, &[0x26; 40], &Shape::Fresh, None, obs)?;
    }
    Ok(())
}

fn tail(raw: bool) -> BS<Tail> {
    prop_oneof![
        1 => Just(Tail::Bytes(Bin(vec![]))),
        2 => vec(any::<u8>(), 1..20).prop_map(|b| Tail::Bytes(Bin(b))),
        2 => vec(low_byte(), 1..20).prop_map(|b| Tail::Bytes(Bin(b))),
        2 => vec(pair(raw), 1..4).prop_map(Tail::Props),
        4 => any_frame(raw).prop_map(Tail::Frame),
    ]
    .boxed()
}

/// Much data behind a frame, or a large frame.
fn huge_case(env: &Env, c: &(u8, u32), obs: &mut Obs) -> Result<(), String> {
    let p = crate::sweep::template(c.0, true);
    let e = encode(&p, &Form::default());
    let tail = noise(c.1 as usize);
    judge(env, &e.frame(), &tail, &Shape::Fresh, None, obs)?;
    let mut b = e.body.clone();
    if let Some(x) = b.last_mut() {
        *x = 0xff;
    }
    judge(
        env,
        &frame(e.byte1, &b),
        &tail,
        &Shape::Advanced(9),
        None,
        obs,
    )
}
fn huge_frame(env: &Env, c: &Huge, obs: &mut Obs) -> Result<(), String> {
    let e = encode(&c.build(), &Form::default());
    judge(env, &e.frame(), &[0xc0, 0, 1], &Shape::Fresh, None, obs)?;
    let mut b = e.body;
    *b.last_mut().unwrap() = 0xff;
    judge(
        env,
        &frame(e.byte1, &b),
        &[0xc0, 0, 1],
        &Shape::Fresh,
        None,
        obs,
    )
}
fn sizes() -> impl Iterator<Item = u32> {
    (8..25u32).flat_map(|k| [(1u32 << k) - 1, 1 << k, (1 << k) + 1])
}

pub fn def() -> PropertyDef {
    PropertyDef {
        id: "C11",
        rule: "A generated frame (legal, damaged with consistent outer length, or random) is read alone and again \
               with bytes behind it in buffers of different provenance: same outcome, exactly the frame removed, the \
               rest in place and readable; a malformed or over-limit header removes nothing. Non-trivial: there are \
               bytes behind the frame, or the header is bad.",
        parts: vec![
            bytes_part("bytes", false, bytes_case),
            bytes_part("frame bytes", true, bytes_case),
            part(
                "frames",
                13_000,
                |e| {
                    (
                        any_frame(raw(e)),
                        tail(raw(e)),
                        shape(),
                        proptest::option::weighted(0.2, prop_oneof![0u32..200, any::<u32>()]),
                    )
                        .prop_map(|(frame, tail, shape, max)| Isolated {
                            frame,
                            tail,
                            shape,
                            max,
                        })
                        .boxed()
                },
                case,
            ),
            enumerated(
                "much behind it",
                |_| (1u8..=14).flat_map(|t| sizes().filter(move |n| *n < 1 << 20 || t % 4 == 3).map(move |n| (t, n))),
                huge_case,
            ),
            enumerated("huge", huge(crate::sweep::ALL), huge_frame),
            part(
                "headers",
                6000,
                |_| {
                    (
                        any::<u8>(),
                        prop_oneof![
                            2 => super::c10::len_bytes(),
                            1 => (0u8..20).prop_map(|n| Bin(vec![n]))
                        ],
                        vec(low_byte(), 0..30).prop_map(Bin),
                        proptest::option::weighted(0.5, prop_oneof![0u32..30, any::<u32>()]),
                        shape(),
                    )
                        .prop_map(|(byte1, len, tail, max, shape)| BadHeader {
                            byte1,
                            len,
                            tail,
                            max,
                            shape,
                        })
                        .boxed()
                },
                bad_header,
            ),
        ],
    }
}
