//! Variable-length integers are exact over their whole range.
use super::*;
use crate::gen::*;
use crate::spec::*;
use proptest::collection::vec;
use proptest::prelude::*;

const BLOCK: u32 = 512;

/// Remaining lengths [start, start+BLOCK) read from bare headers.
fn header_block(env: &Env, start: &u32, obs: &mut Obs) -> Result<(), String> {
    obs.nontrivial_if(start + BLOCK > 128);
    let mut b = vec![0x30u8];
    for v in *start..(start + BLOCK).min(VARINT_MAX + 1) {
        b.truncate(1);
        put_varint(&mut b, u64::from(v));
        let n = b.len() + v as usize;
        let r = env.codec.check(&b, None);
        match r {
            Err(CErr::Need(k)) if v > 0 => ensure!(
                k == v as usize,
                "remaining length {v} ({}) read as {k}",
                hex_short(&b)
            ),
            Ok(h) if v == 0 => ensure!(
                h.frame_len == n,
                "remaining length 0 read as {}",
                h.frame_len
            ),
            r => return Err(format!("remaining length {v} ({}): {r:?}", hex_short(&b))),
        }
        let r = env.codec.check(&b, Some(v as usize));
        ensure!(
            !matches!(r, Err(CErr::TooBig { .. })),
            "remaining length {v} is over a limit of {v}: {r:?}"
        );
        if v > 0 {
            let r = env.codec.check(&b, Some(v as usize - 1));
            ensure!(
                r == Err(CErr::TooBig {
                    pkt_size: v as usize,
                    max: v as usize - 1
                }),
                "remaining length {v} under a limit of {}: {r:?}",
                v - 1
            );
        }
    }
    Ok(())
}
fn header_blocks(env: &Env) -> Box<dyn Iterator<Item = u32>> {
    if env.thorough {
        return Box::new((0..=VARINT_MAX).step_by(BLOCK as usize));
    }
    // everything up to 64 K, around every power of two and of 128, and a stride through the rest
    let mut v: Vec<u32> = (0..65_536).step_by(BLOCK as usize).collect();
    for sh in 14..28 {
        let c = 1u32 << sh;
        v.push(c - BLOCK / 2);
        v.push(c + c / 2 - BLOCK / 2);
    }
    v.push(VARINT_MAX - BLOCK + 1);
    v.extend((0..VARINT_MAX).step_by(200_003));
    Box::new(v.into_iter())
}

/// Subscription identifiers written and read.
fn subids(env: &Env, c: &(bool, Vec<u32>, bool), obs: &mut Obs) -> Result<(), String> {
    let (publish, ids, content) = c;
    obs.nontrivial_if(ids.iter().any(|v| *v >= 128));
    for v in ids {
        obs.label(
            [
                "1-byte identifier",
                "2-byte identifier",
                "3-byte identifier",
                "4-byte identifier",
            ][varint_len(u64::from(*v)) - 1],
        );
    }
    let prop = |v: &u32| Prop {
        id: SUBID,
        val: Val::Var(u64::from(*v)),
    };
    let user = Prop {
        id: USER,
        val: Val::Pair(Bin::s("a"), Bin::s("b")),
    };
    let p = if *publish {
        let mut props: Vec<Prop> = ids.iter().map(prop).collect();
        if *content {
            props.insert(
                0,
                Prop {
                    id: 3,
                    val: Val::Str(Bin::s("ct")),
                },
            );
            props.push(user);
        }
        Pkt::Publish {
            dup: false,
            qos: 0,
            retain: false,
            topic: Bin::s("t"),
            pkid: 0,
            payload: Bin::s("payload"),
            props: Some(props),
        }
    } else {
        let mut props: Vec<Prop> = ids.iter().take(1).map(prop).collect();
        if *content {
            props.push(user);
        }
        Pkt::Subscribe {
            pkid: 1,
            filters: vec![Filt {
                path: Bin::s("f"),
                qos: 0,
                nolocal: false,
                rap: false,
                rh: 0,
            }],
            props: Some(props),
        }
    };
    let out = write(env, &p)?;
    // every identifier in minimal form somewhere in the block: judged by the reference decoder,
    // which calls non-minimal integers irregular
    let Framing::Frame { header, body } = framing(&out, None) else {
        return Err(format!("output is not a frame: {}", hex_short(&out)));
    };
    ensure!(
        header + body == out.len(),
        "length wrong: {}",
        hex_short(&out)
    );
    match decode(out[0], &out[header..], env.codec.text()) {
        Verdict::Accept(q) => ensure!(q == p.canon(), "{}", differ("written", &q, &p.canon())),
        v => {
            return Err(format!(
                "identifiers {ids:?} written as {} ({v:?})",
                hex_short(&out)
            ))
        }
    }
    let ref_frame = encode(&p, &Form::default()).frame();
    let got = read_ok(env, &ref_frame)?;
    ensure!(
        got == p.canon(),
        "{} from {}",
        differ("read", &got, &p.canon()),
        hex_short(&ref_frame)
    );
    Ok(())
}

/// Remaining length and property length on writing, through padding.
fn lengths(env: &Env, c: &(u8, Pad), obs: &mut Obs) -> Result<(), String> {
    let (p, hit) = Padded {
        pkt: super::c06::base_pkt(c.0),
        pad: c.1.clone(),
    }
    .build();
    if !hit {
        return Ok(());
    }
    obs.nontrivial = true;
    obs.label(match c.1 {
        Pad::Body(_) => "remaining length",
        _ => "property length",
    });
    super::c02::check(env, &p, &mut Obs::default())?;
    super::c01::check(env, &p, &mut Obs::default())
}

/// Over-long integers in the three places.
fn overlong(env: &Env, c: &(u8, Vec<u8>, Bin), obs: &mut Obs) -> Result<(), String> {
    let (place, four, after) = c;
    obs.nontrivial = true;
    let mut v: Vec<u8> = four.iter().map(|b| b | 0x80).collect();
    v.resize(4, 0x80);
    v.extend_from_slice(&after.0);
    let bytes = match place {
        0 => [&[0x30u8][..], &v].concat(),
        1 => {
            obs.label("property length");
            frame(0x30, &[&[0u8, 1, b't'][..], &v].concat())
        }
        2 => {
            obs.label("property length");
            frame(0x20, &[&[0u8, 0][..], &v].concat())
        }
        3 => {
            obs.label("subscription identifier");
            let block = [&[SUBID][..], &v].concat();
            frame(
                0x30,
                &[&[0u8, 1, b't', block.len() as u8][..], &block].concat(),
            )
        }
        _ => {
            obs.label("subscription identifier");
            let block = [&[SUBID][..], &v].concat();
            frame(
                0x82,
                &[&[0u8, 1, block.len() as u8][..], &block, &[0, 1, b'f', 0]].concat(),
            )
        }
    };
    let mut s = BytesMut::from(&bytes[..]);
    let r = env.codec.read(&mut s, None);
    match &r {
        Err(CErr::Need(_)) | Ok(_) => Err(format!(
            "a variable byte integer with four continuation bits gives {r:?}: {}",
            hex_short(&bytes)
        )),
        Err(_) => {
            if *place == 0 {
                let ck = env.codec.check(&bytes, None);
                ensure!(
                    matches!(ck, Err(ref e) if !matches!(e, CErr::Need(_))),
                    "check on over-long remaining length: {ck:?}"
                );
            }
            Ok(())
        }
    }
}

/// Values over the maximum are refused on writing.
fn too_large(env: &Env, c: &(bool, u64), obs: &mut Obs) -> Result<(), String> {
    obs.nontrivial = true;
    let mut p = super::c06::base_pkt(if c.0 { 3 } else { 8 });
    *p.props_mut().unwrap() = Some(vec![Prop {
        id: SUBID,
        val: Val::Var(c.1),
    }]);
    let mut b = BytesMut::new();
    let r = env.codec.write(&p, &mut b);
    ensure!(
        r.is_err(),
        "subscription identifier {} written: {}",
        c.1,
        hex_short(&b)
    );
    Ok(())
}

fn exact_lengths(env: &Env) -> Box<dyn Iterator<Item = (u8, Pad)>> {
    let wide = env.thorough;
    Box::new([3u8, 1, 2, 8, 14].into_iter().flat_map(move |t| {
        let mut v: Vec<u32> = (10..300).collect();
        v.extend(16_300..16_450);
        if wide {
            v.extend(2_097_100..2_097_200);
        } else {
            v.extend([2_097_151, 2_097_152, 2_097_153]);
        }
        let blocks = v.clone();
        v.into_iter()
            .map(move |n| (t, Pad::Body(n)))
            .chain(blocks.into_iter().flat_map(move |n| {
                [
                    (
                        t,
                        Pad::Props {
                            len: n,
                            will: false,
                        },
                    ),
                    (t, Pad::Props { len: n, will: true }),
                ]
                .into_iter()
                .take(if t == 1 { 2 } else { 1 })
            }))
    }))
}

pub fn def() -> PropertyDef {
    PropertyDef {
        id: "C17",
        rule: "Remaining lengths: bare headers for blocks of 512 consecutive values (quick: 0..65536, around every \
               power of two, a stride through the rest; thorough: all 2^28) read by check under three limits; property \
               and remaining lengths written for enumerated exact sizes; subscription identifiers random in all length \
               classes, written and read; over-long encodings in all places; values over the maximum on writing. \
               Non-trivial: a value of 128 or more, or an over-long/too large one.",
        parts: vec![
            enumerated("headers", header_blocks, header_block),
            part(
                "identifiers",
                9000,
                |_| (any::<bool>(), vec(var(), 1..6), any::<bool>()).boxed(),
                subids,
            ),
            enumerated("lengths", exact_lengths, lengths),
            part(
                "over-long",
                2000,
                |_| {
                    (
                        0u8..5,
                        vec(any::<u8>(), 4..5),
                        prop_oneof![
                            2 => vec(any::<u8>(), 0..6),
                            2 => (0u8..128).prop_map(|b| vec![b]),
                            1 => vec(0x80u8..=0xff, 1..4)
                        ]
                        .prop_map(Bin),
                    )
                        .boxed()
                },
                overlong,
            ),
            part(
                "too large",
                1500,
                |_| (any::<bool>(), super::c08::big_id()).boxed(),
                too_large,
            ),
        ],
    }
}
