//! 'Need more bytes' is exact and only for incomplete frames.
use super::*;
use crate::gen::*;
use crate::huge::*;
use crate::spec::*;
use proptest::collection::vec;
use proptest::prelude::*;

/// Both entry points on these bytes against the framing rules.
pub fn judge(env: &Env, bytes: &[u8], max: Option<usize>, obs: &mut Obs) -> Result<(), String> {
    let f = framing(bytes, max);
    let mut s = BytesMut::from(bytes);
    let r = env.codec.read(&mut s, max);
    let ck = env.codec.check(bytes, max);
    let show = || format!("{} (limit {max:?})", hex_short(bytes));
    match f {
        Framing::Need { lo, hi } => {
            obs.label("incomplete");
            obs.nontrivial_if(!bytes.is_empty());
            for (who, e) in [("read", r.err()), ("check", ck.err())] {
                match e {
                    Some(CErr::Need(n)) => ensure!(
                        n >= lo && n <= hi,
                        "{who} asks for {n} more bytes, between {lo} and {hi} are missing: {}",
                        show()
                    ),
                    other => {
                        // a type that can never become a packet may be refused early
                        if matches!(bytes.first().map(|b| b >> 4), Some(0 | 15)) && other.is_some()
                        {
                            continue;
                        }
                        return Err(format!(
                            "{who} on an incomplete frame gives {other:?}: {}",
                            show()
                        ));
                    }
                }
            }
            ensure!(
                s[..] == *bytes,
                "reading an incomplete frame changed the stream: {} -> {}",
                show(),
                hex_short(&s)
            );
        }
        Framing::Frame { header, body } => {
            obs.label("complete");
            if let Err(CErr::Need(n)) = r {
                return Err(format!(
                    "read asks for {n} more bytes although a complete frame is present: {}",
                    show()
                ));
            }
            match ck {
                Ok(h) => ensure!(
                    h.frame_len == header + body,
                    "check reports {} bytes for {}",
                    h.frame_len,
                    show()
                ),
                Err(CErr::Need(n)) => {
                    return Err(format!(
                        "check asks for {n} more bytes although a complete frame is present: {}",
                        show()
                    ))
                }
                Err(_) => {}
            }
        }
        Framing::TooBig { .. } | Framing::Malformed => {
            obs.label("bad header");
            for (who, e) in [
                ("read", r.as_ref().err().cloned()),
                ("check", ck.as_ref().err().cloned()),
            ] {
                match e {
                    Some(CErr::Need(n)) => {
                        return Err(format!(
                            "{who} asks for {n} more bytes although the header is already bad ({f:?}): {}",
                            show()
                        ))
                    }
                    Some(_) => {}
                    None => return Err(format!("{who} accepts a bad header ({f:?}): {}", show())),
                }
            }
        }
    }
    Ok(())
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, serde::Serialize, serde::Deserialize)]
pub struct Prefixes {
    pub frame: AnyFrame,
    pub max: Option<u32>,
}
/// Every prefix of a frame.
fn prefixes(env: &Env, c: &Prefixes, obs: &mut Obs) -> Result<(), String> {
    let f = c.frame.frame();
    let max = c.max.map(|m| m as usize);
    let n = f.len();
    let step = (n / 300).max(1);
    let mut i = 0;
    while i <= n {
        judge(env, &f[..i], max, obs)?;
        i += if i < 20 || i + 20 > n { 1 } else { step };
    }
    judge(env, &f, max, obs)
}

/// A caller that feeds exactly as many bytes as asked for.
fn patient(env: &Env, c: &Prefixes, obs: &mut Obs) -> Result<(), String> {
    let f = c.frame.frame();
    if matches!(f[0] >> 4, 0 | 15) {
        // may be refused before it is complete
        return Ok(());
    }
    let mut s = BytesMut::new();
    let mut fed = 0;
    for _ in 0..f.len() + 3 {
        match env.codec.read(&mut s, None) {
            Err(CErr::Need(n)) if fed < f.len() => {
                ensure!(n >= 1, "a hint of 0 bytes makes no progress");
                ensure!(
                    fed + n <= f.len(),
                    "after {fed} of {} bytes the reader waits for {n}, beyond the packet: {}",
                    f.len(),
                    hex_short(&f)
                );
                s.extend_from_slice(&f[fed..fed + n]);
                fed += n;
                obs.nontrivial = true;
            }
            Err(CErr::Need(n)) => {
                return Err(format!(
                    "the whole frame was fed and {n} more bytes are asked for: {}",
                    hex_short(&f)
                ))
            }
            _ => {
                ensure!(
                    fed == f.len(),
                    "an outcome after only {fed} of {} bytes: {}",
                    f.len(),
                    hex_short(&f)
                );
                return Ok(());
            }
        }
    }
    Err("no outcome although the hints were followed".into())
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, serde::Serialize, serde::Deserialize)]
pub struct Header {
    pub byte1: u8,
    pub len: Bin,
    pub body: u16,
    pub max: Option<u32>,
}
fn header_case(env: &Env, c: &Header, obs: &mut Obs) -> Result<(), String> {
    let mut b = vec![c.byte1];
    b.extend_from_slice(&c.len.0);
    b.extend(std::iter::repeat(0).take(c.body as usize));
    judge(env, &b, c.max.map(|m| m as usize), obs)
}
pub fn len_bytes() -> BS<Bin> {
    prop_oneof![
        4 => var().prop_map(|v| {
            let mut o = Vec::new();
            put_varint(&mut o, u64::from(v));
            o
        }),
        2 => vec(any::<u8>(), 0..6),
        2 => (1usize..5, any::<u8>()).prop_map(|(n, b)| {
            let mut o = vec![0x80 | b; n];
            o.push(b & 0x7f);
            o
        }),
        1 => vec(0x80u8..=0xff, 1..6),
    ]
    .prop_map(Bin)
    .boxed()
}

pub fn bytes_case(env: &Env, c: &Bin, obs: &mut Obs) -> Result<(), String> {
    judge(env, &c.0, None, obs)
}

fn short_items() -> impl Iterator<Item = Header> {
    // every length field of up to two bytes for a few types, with few body bytes
    [0x10u8, 0x30, 0x40, 0xc0, 0xe0, 0x00, 0xf0]
        .into_iter()
        .flat_map(|byte1| {
            (0u32..65_536).step_by(3).map(move |n| Header {
                byte1,
                len: Bin(vec![n as u8, (n >> 8) as u8]),
                body: (n % 7) as u16,
                max: if n % 5 == 0 { Some(n % 200) } else { None },
            })
        })
}

/// Prefixes of large frames.
fn huge_case(env: &Env, c: &Huge, obs: &mut Obs) -> Result<(), String> {
    let f = encode(&c.build(), &Form::default()).frame();
    let n = f.len();
    let mut at = vec![0, 1, 2, 3, 4, 5, 6, n / 2, n - 2, n - 1, n];
    for k in [8, 12, 16, 20, 24] {
        let p = 1usize << k;
        at.extend([
            p - 1,
            p,
            p + 1,
            n.saturating_sub(p + 1),
            n.saturating_sub(p),
            n.saturating_sub(p - 1),
        ]);
    }
    for i in at.into_iter().filter(|i| *i <= n) {
        judge(env, &f[..i], None, obs)?;
        judge(env, &f[..i], Some(n), obs)?;
    }
    Ok(())
}
fn huge_items(env: &Env) -> impl Iterator<Item = Huge> {
    let payloads = (10..24u32)
        .flat_map(|k| [(1u32 << k) - 1, 1 << k, (1 << k) + 1])
        .map(|n| Huge {
            what: What::Payload,
            n,
        });
    payloads.chain(huge(crate::sweep::ALL)(env).filter(|h| h.n >= 65_536))
}

pub fn def() -> PropertyDef {
    PropertyDef {
        id: "C10",
        rule: "All prefixes of generated legal, damaged and random frames, and raw headers with any (also over-long) \
               length field, limit and body bytes, go through read and check; the answer must be 'need more' exactly \
               when an independent framing rule says the frame is incomplete, with a hint between 1 and what is \
               certainly missing (exact once the length is known). A patient caller feeding exactly the hint must \
               get its packet. Non-trivial: a non-empty incomplete prefix was judged.",
        parts: vec![
            bytes_part("bytes", false, bytes_case),
            bytes_part("frame bytes", true, bytes_case),
            part(
                "prefixes",
                3000,
                |e| {
                    (
                        any_frame(raw(e)),
                        proptest::option::weighted(0.25, prop_oneof![0u32..200, any::<u32>()]),
                    )
                        .prop_map(|(frame, max)| Prefixes { frame, max })
                        .boxed()
                },
                prefixes,
            ),
            enumerated("huge", huge_items, huge_case),
            part(
                "patient",
                4000,
                |e| {
                    (any_frame(raw(e)), Just(None))
                        .prop_map(|(frame, max)| Prefixes { frame, max })
                        .boxed()
                },
                patient,
            ),
            part(
                "headers",
                12_000,
                |_| {
                    (
                        any::<u8>(),
                        len_bytes(),
                        prop_oneof![3 => 0u16..6, 2 => 0u16..300, 1 => 0u16..20_000],
                        proptest::option::weighted(0.4, prop_oneof![0u32..300, var(), any::<u32>()]),
                    )
                        .prop_map(|(byte1, len, body, max)| Header {
                            byte1,
                            len,
                            body,
                            max,
                        })
                        .boxed()
                },
                header_case,
            ),
            enumerated("short headers", |_| short_items(), header_case),
        ],
    }
}
