//! Malformed packets are rejected.
use super::*;
use crate::gen::*;
use crate::huge::*;
use crate::sweep::near;
use proptest::prelude::*;

fn must_reject(env: &Env, b1: u8, body: &[u8], obs: &mut Obs) -> Result<bool, String> {
    // structural malformation only; UTF-8 is C23
    let Verdict::Reject(why) = decode(b1, body, false) else {
        return Ok(false);
    };
    obs.label(why);
    obs.nontrivial = true;
    let f = frame(b1, body);
    let (got, _) = read_all(env, &f);
    if let Ok(p) = got {
        return Err(format!(
            "malformed packet accepted ({why}): {} decoded to {}",
            hex_short(&f),
            short(format!("{p:?}"))
        ));
    }
    Ok(true)
}

pub fn frame_case(env: &Env, c: &AnyFrame, obs: &mut Obs) -> Result<(), String> {
    let (b1, body) = c.parts();
    must_reject(env, b1, &body, obs)?;
    Ok(())
}

/// Every truncation and every length field off by a little, for one legal frame.
fn sweep_case(env: &Env, c: &Wire, obs: &mut Obs) -> Result<(), String> {
    let e = c.enc();
    let mut n = 0;
    let cuts: Vec<usize> = if e.body.len() <= 400 {
        (0..e.body.len()).collect()
    } else {
        e.spans
            .iter()
            .flat_map(|s| [s.a, s.b.saturating_sub(1), s.b])
            .filter(|i| *i < e.body.len())
            .collect()
    };
    for cut in cuts {
        n += usize::from(must_reject(env, e.byte1, &e.body[..cut], obs)?);
    }
    for which in 0..e.spans.len() as u32 {
        let k = e.spans[which as usize].kind;
        if !matches!(k, SK::StrLen | SK::PropLen) {
            continue;
        }
        // index among the spans Mut::Len selects from
        let idx = e.spans[..which as usize]
            .iter()
            .filter(|s| matches!(s.kind, SK::StrLen | SK::PropLen))
            .count() as u32;
        for delta in [-5, -4, -3, -2, -1, 1, 2, 3, 4, 5, 17, 250, 65_535] {
            let (b1, body) = mutate(&e, &[Mut::Len { which: idx, delta }]);
            n += usize::from(must_reject(env, b1, &body, obs)?);
        }
    }
    // only property-block lengths, including the multi-byte ones
    let blocks = e.spans.iter().filter(|s| s.kind == SK::PropLen).count();
    for which in 0..blocks as u32 {
        for delta in -12..=12 {
            let (b1, body) = mutate(&e, &[Mut::PropLen { which, delta }]);
            n += usize::from(must_reject(env, b1, &body, obs)?);
        }
    }
    obs.label_if(n > 0, "sweep found malformed variants");
    Ok(())
}

/// A property at the end of its block overruns the block by a few bytes, with bytes behind
/// it that keep the rest of the packet parseable.
#[derive(Clone, Debug, PartialEq, Eq, Hash, serde::Serialize, serde::Deserialize)]
pub struct Overrun {
    pub wire: Wire,
    pub block: u8,
    pub by: u8,
}
fn overrun_case(env: &Env, c: &Overrun, obs: &mut Obs) -> Result<(), String> {
    let e = c.wire.enc();
    let blocks: Vec<Span> = e
        .spans
        .iter()
        .copied()
        .filter(|s| s.kind == SK::PropLen)
        .collect();
    if blocks.is_empty() {
        return Ok(());
    }
    let (b1, body) = mutate(
        &e,
        &[Mut::PropLen {
            which: u32::from(c.block) % blocks.len() as u32,
            delta: -i32::from(c.by),
        }],
    );
    must_reject(env, b1, &body, obs)?;
    Ok(())
}

/// A stand-alone property section whose block is cut or overrun.
#[derive(Clone, Debug, PartialEq, Eq, Hash, serde::Serialize, serde::Deserialize)]
pub struct SectionCase {
    pub sec: u8,
    pub props: Vec<Prop>,
    pub perm: Vec<u16>,
    pub delta: i8,
    pub tail: Bin,
}
fn section_gen(raw: bool) -> BS<SectionCase> {
    (0u8..13)
        .prop_flat_map(move |sec| {
            (
                Just(sec),
                prop_list(crate::spec::SECTIONS[sec as usize], raw),
                proptest::collection::vec(any::<u16>(), 0..10),
                -12i8..12,
                proptest::collection::vec(edge_u8(), 0..8).prop_map(Bin),
            )
        })
        .prop_map(|(sec, props, perm, delta, tail)| SectionCase {
            sec,
            props,
            perm,
            delta,
            tail,
        })
        .boxed()
}
fn section_case(env: &Env, c: &SectionCase, obs: &mut Obs) -> Result<(), String> {
    let sec = crate::spec::SECTIONS[c.sec as usize];
    let list = order(&c.props, &c.perm);
    let e = encode_props(&list);
    let len = (e.len() as i64 + i64::from(c.delta)).max(0) as u64;
    let mut b = Vec::new();
    crate::spec::put_varint(&mut b, len);
    b.extend_from_slice(&e);
    b.extend_from_slice(&c.tail.0);
    if let Err(why) = decode_section(sec, &b, false) {
        obs.label(why);
        obs.nontrivial = true;
        let mut s = bytes::Bytes::from(b.clone());
        if let Ok(p) = env.codec.section_read(sec, &mut s) {
            return Err(format!(
                "malformed {sec:?} properties accepted ({why}): {} decoded to {}",
                hex_short(&b),
                short(format!("{p:?}"))
            ));
        }
    }
    Ok(())
}

/// Any bytes (for coverage-guided fuzzing).
pub fn bytes_case(env: &Env, c: &Bin, obs: &mut Obs) -> Result<(), String> {
    if let Framing::Frame { header, body } = framing(&c.0, None) {
        must_reject(env, c.0[0], &c.0[header..header + body], obs)?;
    }
    Ok(())
}

/// Long lists whose last element is damaged.
fn huge_case(env: &Env, c: &Huge, obs: &mut Obs) -> Result<(), String> {
    let e = encode(&c.build(), &Form::default());
    let n = e.body.len();
    for k in 1..=6 {
        let mut b = e.body.clone();
        b[n - k] = 0xff;
        must_reject(env, e.byte1, &b, obs)?;
        must_reject(env, e.byte1, &e.body[..n - k], obs)?;
    }
    Ok(())
}
fn huge_items(env: &Env) -> impl Iterator<Item = Huge> {
    huge(crate::sweep::ALL)(env).filter(|h| matches!(h.n, 257 | 1025 | 4097 | 32_769 | 65_537))
}

pub fn def() -> PropertyDef {
    PropertyDef {
        id: "C04",
        rule: "Legal frames are damaged (truncation at every position, every length field off by small and large \
               amounts, identifiers, codes, flags, lengths, bytes overwritten, inserted, deleted) or random; every \
               frame the independent reference decoder calls malformed (the list in C04) must give an error. \
               Non-trivial: the reference calls at least one variant malformed.",
        parts: vec![
            bytes_part("frame bytes", true, bytes_case),
            part(
                "mutated",
                14_000,
                |e| {
                    prop_oneof![
                        10 => mutated(raw(e)).prop_map(AnyFrame::Mutated),
                        1 => random_frame(),
                    ]
                    .boxed()
                },
                frame_case,
            ),
            part("sweep", 900, |e| small_wire(raw(e)), sweep_case),
            part(
                "overrun",
                5000,
                |e| {
                    (small_wire(raw(e)), any::<u8>(), 1u8..24)
                        .prop_map(|(wire, block, by)| Overrun { wire, block, by })
                        .boxed()
                },
                overrun_case,
            ),
            part("sections", 5000, |e| section_gen(raw(e)), section_case),
            enumerated("huge", huge_items, huge_case),
            enumerated("one step away", |_| near().map(AnyFrame::Near), frame_case),
            enumerated("header bytes", |_| header_cases(), frame_case),
        ],
    }
}

/// all first bytes x a few tiny bodies
fn header_cases() -> impl Iterator<Item = AnyFrame> {
    let bodies: Vec<Vec<u8>> = vec![
        vec![],
        vec![0],
        vec![0, 0],
        vec![0, 1],
        vec![0, 1, 0],
        vec![0, 1, 0, 0],
        vec![0, 1, 0, 0, 0],
        vec![0, 1, b'a', 0, 0],
        vec![0, 1, b'a', 0, 1, 0],
        vec![0, 1, 0, 0, 1, b'a', 3],
        vec![0, 1, 0, 0, 1, b'a', 0x30],
        vec![0, 1, 0, 0, 1, b'a', 0],
        vec![0, 1, 0x80, 0],
        vec![0, 1, 0x92, 0],
    ];
    (0u16..256).flat_map(move |b| {
        bodies
            .clone()
            .into_iter()
            .map(move |body| AnyFrame::Random {
                byte1: b as u8,
                body: Bin(body),
            })
    })
}
