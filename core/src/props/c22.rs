//! All entry points agree with each other.
use super::*;
use crate::gen::*;
use crate::huge::*;
use crate::spec::*;
use crate::sweep::*;
use bytes::Bytes;
use proptest::collection::vec;
use proptest::prelude::*;

fn write_case(env: &Env, c: &(Pkt, Bin), obs: &mut Obs) -> Result<(), String> {
    let (p, prefix) = c;
    obs.label(p.type_name());
    obs.nontrivial_if(p.rich());
    let mut a = BytesMut::from(&prefix.0[..]);
    let mut b = BytesMut::from(&prefix.0[..]);
    let ra = env.codec.write(p, &mut a);
    let rb = env.codec.typed_write(p, &mut b);
    ensure!(
        ra == rb,
        "Packet::write gives {ra:?}, the type's own write {rb:?} for {}",
        short(format!("{p:?}"))
    );
    if ra.is_ok() {
        ensure!(
            a == b,
            "Packet::write gives {}, the type's own write {}",
            hex_short(&a),
            hex_short(&b)
        );
    }
    Ok(())
}

fn read_case(env: &Env, c: &(AnyFrame, Bin), obs: &mut Obs) -> Result<(), String> {
    let f = c.0.frame();
    judge_read(env, &f, &c.1 .0, obs)
}
fn judge_read(env: &Env, f: &[u8], tail: &[u8], obs: &mut Obs) -> Result<(), String> {
    let mut all = f.to_vec();
    all.extend_from_slice(tail);
    let mut s = BytesMut::from(&all[..]);
    let r = env.codec.read(&mut s, None);
    let consumed = all.len() - s.len();
    // the header check
    let ck = env.codec.check(&all, None);
    match &ck {
        Ok(h) => {
            ensure!(
                h.frame_len == consumed,
                "check reports {} bytes, read consumed {consumed}: {}",
                h.frame_len,
                hex_short(&all)
            );
            match (&h.ptype, &r) {
                (Ok(t), Ok(p)) => ensure!(
                    *t == p.type_nibble(),
                    "check reports type {t}, read gives {}",
                    p.type_name()
                ),
                (Err(e), Ok(p)) => {
                    return Err(format!("check: {e:?}, read gives {}", p.type_name()))
                }
                _ => {}
            }
            if let Ok(t) = h.ptype {
                ensure!(
                    t == all[0] >> 4,
                    "type nibble {} reported as {t}",
                    all[0] >> 4
                );
            }
        }
        Err(e) => {
            ensure!(
                consumed == 0 && r.as_ref().err() == Some(e),
                "check says {e:?}, read {} and consumed {consumed}: {}",
                short(format!("{r:?}")),
                hex_short(&all)
            );
            return Ok(());
        }
    }
    // the type's own reader on the frame
    if let Some(t) = env.codec.typed_read(&all[..consumed]) {
        obs.nontrivial_if(r.is_ok());
        obs.label_if(r.is_ok(), "typed reader accepts");
        obs.label_if(r.is_err(), "typed reader refuses");
        match (&r, &t) {
            (Ok(a), Ok(b)) => ensure!(a == b, "{}", differ("the type's own read", b, a)),
            (Err(_), Err(_)) => {}
            _ => {
                return Err(format!(
                    "Packet::read gives {}, the type's own read {}: {}",
                    short(format!("{r:?}")),
                    short(format!("{t:?}")),
                    hex_short(&all[..consumed])
                ))
            }
        }
    }
    Ok(())
}
pub fn bytes_case(env: &Env, c: &Bin, obs: &mut Obs) -> Result<(), String> {
    judge_read(env, &c.0, &[], obs)
}

/// The stand-alone section functions against the same section inside a packet.
#[derive(Clone, Debug, PartialEq, Eq, Hash, serde::Serialize, serde::Deserialize)]
pub struct SectionCase {
    pub sec: u8,
    pub props: Vec<Prop>,
    pub perm: Vec<u16>,
    pub tail: Bin,
}
fn section_case(env: &Env, c: &SectionCase, obs: &mut Obs) -> Result<(), String> {
    let sec = SECTIONS[c.sec as usize];
    obs.nontrivial_if(!c.props.is_empty());
    let p = super::c21::carrier(sec, &c.props);
    // reading
    let list = order(&c.props, &c.perm);
    let e = encode_props(&list);
    let mut b = Vec::new();
    put_varint(&mut b, e.len() as u64);
    b.extend_from_slice(&e);
    let block = b.clone();
    b.extend_from_slice(&c.tail.0);
    let mut s = Bytes::from(b);
    let got = env.codec.section_read(sec, &mut s);
    let in_packet = read_ok(
        env,
        &encode(
            &p,
            &Form {
                perm: c.perm.clone(),
                short: 0,
            },
        )
        .frame(),
    )?;
    let want = match (&in_packet, sec) {
        (Pkt::Connect { will: Some(w), .. }, Section::Will) => w.props.clone(),
        (q, _) => q.props().unwrap().clone(),
    };
    ensure!(
        got.as_ref() == Ok(&want),
        "{sec:?} properties {}: alone {}, in a packet {}",
        hex_short(&block),
        short(format!("{got:?}")),
        short(format!("{want:?}"))
    );
    ensure!(
        s[..] == c.tail.0[..],
        "{sec:?} properties: {} bytes behind the block, {} left",
        c.tail.len(),
        s.len()
    );
    // writing
    let mut out = BytesMut::from(&b"head"[..]);
    if let Some(r) = env.codec.section_write(sec, &c.props, &mut out) {
        obs.label("section writer");
        ensure!(r.is_ok(), "{sec:?} section writer fails: {r:?}");
        let packet = write(env, &p)?;
        let alone = &out[4..];
        ensure!(
            &out[..4] == b"head",
            "the section writer changed what was in the buffer"
        );
        // an empty set may be omitted inside a packet
        ensure!(
            c.props.is_empty() || packet.windows(alone.len()).any(|w| w == alone),
            "{sec:?} properties alone are {}, which is not part of the packet {}",
            hex_short(alone),
            hex_short(&packet)
        );
        match decode_section(sec, alone, env.codec.text()) {
            Ok((ps, n, None)) => {
                let mut sorted: Props = Some(c.props.clone());
                crate::model::canon_props(&mut sorted);
                ensure!(
                    ps == sorted && n == alone.len(),
                    "{sec:?} properties written alone as {}",
                    hex_short(alone)
                );
            }
            v => return Err(format!("{sec:?} properties written alone: {v:?}")),
        }
    }
    Ok(())
}

/// Filters, will and login on their own and inside a packet.
fn pieces_case(env: &Env, p: &Pkt, obs: &mut Obs) -> Result<(), String> {
    let out = write(env, p)?;
    obs.label(p.type_name());
    match p {
        Pkt::Subscribe { filters, .. } => {
            obs.nontrivial_if(filters.len() > 1);
            let mut b = BytesMut::new();
            for f in filters {
                env.codec
                    .filter_write(f, &mut b)
                    .map_err(|e| format!("filter: {e:?}"))?;
            }
            ensure!(
                out.ends_with(&b),
                "filters alone {} but the packet is {}",
                hex_short(&b),
                hex_short(&out)
            );
            let mut b = b.freeze();
            let back = env.codec.filters_read(&mut b);
            ensure!(
                back.as_ref() == Ok(filters),
                "filters read back as {back:?}, expected {filters:?}"
            );
        }
        Pkt::Connect { will, login, .. } => {
            obs.nontrivial_if(will.is_some() && login.is_some());
            let mut b = BytesMut::new();
            let mut fl = 0;
            if let Some(w) = will {
                fl |= env
                    .codec
                    .will_write(w, &mut b)
                    .map_err(|e| format!("will: {e:?}"))?;
            }
            if let Some((u, q)) = login {
                fl |= env
                    .codec
                    .login_write(u, q, &mut b)
                    .map_err(|e| format!("login: {e:?}"))?;
            }
            ensure!(
                out.ends_with(&b),
                "will and login alone {} but the packet is {}",
                hex_short(&b),
                hex_short(&out)
            );
            let mut b = b.freeze();
            let w = env.codec.will_read(fl, &mut b);
            let l = env.codec.login_read(fl, &mut b);
            let Pkt::Connect {
                will: cw,
                login: cl,
                ..
            } = p.canon()
            else {
                return Ok(());
            };
            ensure!(
                w == Ok(cw.clone()) && l == Ok(cl.clone()) && b.is_empty(),
                "will and login on their own: {w:?} {l:?}, expected {cw:?} {cl:?}"
            );
        }
        _ => {}
    }
    Ok(())
}

pub fn ctor_args(raw: bool) -> BS<CtorArgs> {
    (
        text(raw),
        text(raw),
        0u8..3,
        edge_u16(),
        proptest::sample::select(DISCONNECT_CODES.to_vec()),
        proptest::option::of(vec((text(raw), text(raw)), 0..3)),
    )
        .prop_map(|(a, b, qos, pkid, code, user)| CtorArgs {
            a,
            b,
            qos,
            pkid,
            code,
            user,
        })
        .boxed()
}
fn ctor_case(env: &Env, c: &CtorArgs, obs: &mut Obs) -> Result<(), String> {
    obs.nontrivial_if(!c.a.is_empty());
    for (label, got, want) in env.codec.constructors(c) {
        ensure!(got == want, "{label}: {}", differ("built", &got, &want));
    }
    for s in ["", "a", "MQTT", "\u{e9}\u{1f600}"] {
        let b = env.codec.new_string(s);
        ensure!(b.0 == s.as_bytes(), "mqtt_string_new({s:?}) holds {b:?}");
    }
    Ok(())
}

fn sweep_case(env: &Env, c: &Sweep, obs: &mut Obs) -> Result<(), String> {
    let pkt = c.build();
    write_case(env, &(pkt.clone(), Bin(vec![])), obs)?;
    judge_read(
        env,
        &encode(&pkt, &Form::default()).frame(),
        &[0xc0, 0],
        obs,
    )
}

fn huge_case(env: &Env, c: &Huge, obs: &mut Obs) -> Result<(), String> {
    let p = c.build();
    write_case(env, &(p.clone(), Bin(vec![7])), obs)?;
    judge_read(env, &encode(&p, &Form::default()).frame(), &[0xc0, 0], obs)
}

/// Headers made by hand: two of them, one frame of the first where it is small enough.
#[derive(Clone, Debug, PartialEq, Eq, Hash, serde::Serialize, serde::Deserialize)]
pub struct HeaderCase {
    pub byte: u8,
    pub long: u8,
    pub len: u32,
    pub other: (u8, u8, u32),
}
fn header_case(env: &Env, c: &HeaderCase, obs: &mut Obs) -> Result<(), String> {
    let least = varint_len(u64::from(c.len));
    let n = usize::from(c.long).max(least);
    let a = (c.byte, n, c.len as usize);
    let o = (c.other.0, usize::from(c.other.1), c.other.2 as usize);
    let h = env.codec.header(a);
    ensure!(
        h.frame_len == 1 + a.1 + a.2,
        "FixedHeader::new{a:?} has a frame length of {}",
        h.frame_len
    );
    let t = a.0 >> 4;
    match &h.ptype {
        Ok(x) => ensure!(*x == t && (1..=14).contains(&t), "FixedHeader::new{a:?} has type {x}"),
        Err(e) => ensure!(
            !(1..=14).contains(&t),
            "FixedHeader::new{a:?} has type {e:?}"
        ),
    }
    for b in [a, o] {
        let (eq, order) = env.codec.header_cmp(a, b);
        obs.label_if(a == b, "equal headers");
        ensure!(
            eq == (a == b) && (order == Some(std::cmp::Ordering::Equal)) == (a == b),
            "headers {a:?} and {b:?}: == is {eq}, order {order:?}"
        );
    }
    if a.2 <= 1 << 12 {
        obs.label("frame");
        let mut f = vec![a.0];
        put_varint(&mut f, a.2 as u64);
        for _ in least..n {
            *f.last_mut().unwrap() |= 0x80;
            f.push(0);
        }
        f.resize(f.len() + a.2, 0);
        obs.nontrivial = true;
        // longer than needed: may be refused
        if n > least && env.codec.check(&f, None).is_err() {
            return Ok(());
        }
        ensure!(
            env.codec.check_gives(&f, a) == Ok(true),
            "the check of {} does not give the header {a:?}",
            hex_short(&f)
        );
        ensure!(
            a == o || env.codec.check_gives(&f, o) == Ok(false),
            "the check of {} gives the header {o:?}",
            hex_short(&f)
        );
    }
    Ok(())
}
fn headers() -> BoxedStrategy<HeaderCase> {
    let len = || {
        prop_oneof![
            2 => 0u32..300,
            1 => 0u32..5000,
            1 => 0u32..=268_435_455,
            1 => (7u32..28).prop_map(|s| 1 << s),
            1 => (7u32..29).prop_map(|s| (1 << s) - 1),
        ]
    };
    (any::<u8>(), 1u8..=4, len(), any::<u8>(), 1u8..=4, len(), 0u8..8)
        .prop_map(|(byte, long, len, b, l, n, like)| {
            let long = usize::from(long).max(varint_len(u64::from(len))) as u8;
            HeaderCase {
                byte,
                long,
                len,
                other: (
                    if like & 1 > 0 { byte } else { b },
                    if like & 2 > 0 { long } else { l },
                    if like & 4 > 0 { len } else { n },
                ),
            }
        })
        .boxed()
}

pub fn def() -> PropertyDef {
    PropertyDef {
        id: "C22",
        rule: "The same packet through Packet::write and its type's write; the same frame (legal, damaged, random, with \
               bytes behind) through Packet::read, check and its type's read; property sections, filters, will and \
               login through the stand-alone functions and inside packets; every convenience constructor against the \
               fields documented for it; fixed headers made by hand against those of the check, their type, length and \
               equality. Non-trivial: packet with content, accepted frame, non-empty section, header with a frame.",
        parts: vec![
            bytes_part("frame bytes", true, bytes_case),
            enumerated("one step away", |_| near().map(|n| (AnyFrame::Near(n), Bin(vec![0xc0, 0]))), read_case),
            enumerated("huge", huge(ALL), huge_case),
            enumerated("every value", |_| items(ALL).filter(|s| s.full), sweep_case),
            part(
                "write",
                6000,
                |e| {
                    (
                        prop_oneof![
                            5 => small_pkt(raw(e)),
                            1 => super::c08::bad(raw(e)).prop_map(|b| b.build().unwrap_or(b.pkt)),
                        ],
                        prop_oneof![1 => Just(vec![]), 1 => vec(any::<u8>(), 1..10)].prop_map(Bin),
                    )
                        .boxed()
                },
                write_case,
            ),
            part(
                "read",
                9000,
                |e| {
                    (
                        any_frame(raw(e)),
                        prop_oneof![1 => Just(vec![]), 1 => vec(any::<u8>(), 1..10)].prop_map(Bin),
                    )
                        .boxed()
                },
                read_case,
            ),
            part(
                "sections",
                6000,
                |e| {
                    let r = raw(e);
                    (0u8..13)
                        .prop_flat_map(move |sec| {
                            (
                                Just(sec),
                                prop_list(SECTIONS[sec as usize], r),
                                vec(any::<u16>(), 0..10),
                                vec(low_byte(), 0..10).prop_map(Bin),
                            )
                        })
                        .prop_map(|(sec, props, perm, tail)| SectionCase {
                            sec,
                            props,
                            perm,
                            tail,
                        })
                        .boxed()
                },
                section_case,
            ),
            part(
                "pieces",
                4000,
                |e| prop_oneof![pkt_of(1, raw(e)), pkt_of(8, raw(e))].boxed(),
                pieces_case,
            ),
            part("headers", 4000, |_| headers(), header_case),
            part("constructors", 1500, |e| ctor_args(raw(e)), ctor_case),
        ],
    }
}
