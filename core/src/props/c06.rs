//! Reported sizes equal the bytes written.
use super::*;
use crate::gen::*;
use crate::huge::*;
use crate::spec::*;
use crate::sweep::*;
use proptest::prelude::*;

#[derive(Clone, Debug, PartialEq, Eq, Hash, serde::Serialize, serde::Deserialize)]
pub struct Sized {
    pub padded: Padded,
    pub prefix: u8,
}

fn check(env: &Env, p: &Pkt, prefix: usize, obs: &mut Obs) -> Result<(), String> {
    obs.label(p.type_name());
    let mut b = BytesMut::new();
    b.put_bytes(0xaa, prefix);
    let before = b.len();
    let ret = match env.codec.write(p, &mut b) {
        Ok(n) => n,
        // unencodable packets are C08's business
        Err(_) => {
            obs.label("not encodable");
            return Ok(());
        }
    };
    let delta = b.len() - before;
    ensure!(
        ret == delta,
        "write returned {ret} but {delta} bytes were appended for {}",
        short(format!("{p:?}"))
    );
    if let Some(sz) = env.codec.size(p) {
        ensure!(
            sz == delta,
            "size() is {sz} but {delta} bytes were appended for {}",
            short(format!("{p:?}"))
        );
        obs.label("has size()");
    }
    let out = &b[before..];
    match env.codec.check(out, None) {
        Ok(h) => ensure!(
            h.frame_len == delta,
            "the fixed header says {} bytes but {delta} were appended: {}",
            h.frame_len,
            hex_short(out)
        ),
        Err(e) => {
            return Err(format!(
                "check refuses the output: {e:?} {}",
                hex_short(out)
            ))
        }
    }
    // the same by an independent reading of the header
    match framing(out, None) {
        Framing::Frame { header, body } => ensure!(
            header + body == delta,
            "the header declares {} bytes but {delta} were appended: {}",
            header + body,
            hex_short(out)
        ),
        f => return Err(format!("header {f:?}: {}", hex_short(out))),
    }
    let body = delta.saturating_sub(2);
    obs.label_if(body >= 128, "remaining length >= 128");
    obs.label_if(body >= 16_384, "remaining length >= 16384");
    obs.label_if(body >= 2_097_152, "remaining length >= 2097152");
    let plen = p.props().map_or(0, props_block_len);
    obs.label_if(plen >= 128, "property length >= 128");
    obs.label_if(plen >= 16_384, "property length >= 16384");
    obs.nontrivial_if(
        body >= 120
            || matches!(p, Pkt::Ack { reason: 0, .. } | Pkt::Disconnect { .. })
            || matches!(p.props(), Some(Some(v)) if v.is_empty())
            || p.rich(),
    );
    Ok(())
}

fn case(env: &Env, c: &Sized, obs: &mut Obs) -> Result<(), String> {
    let (p, _) = c.padded.build();
    check(env, &p, c.prefix as usize, obs)
}

/// Degenerate but constructible: empty lists, identifier 0, large subscription identifiers.
fn degenerate(raw: bool) -> BS<Pkt> {
    small_pkt(raw)
        .prop_map(|mut p| {
            match &mut p {
                Pkt::Subscribe { filters, .. } => filters.clear(),
                Pkt::Unsubscribe { filters, .. } => filters.clear(),
                Pkt::SubAck { codes, .. } | Pkt::UnsubAck { codes, .. } => codes.clear(),
                Pkt::Publish { pkid, .. } => *pkid = 0,
                _ => {}
            }
            p
        })
        .boxed()
}
fn degenerate_case(env: &Env, p: &Pkt, obs: &mut Obs) -> Result<(), String> {
    check(env, p, 0, obs)
}

/// Sizes around every length-class boundary of the body, enumerated for one packet of each type.
#[derive(Clone, Debug, PartialEq, Eq, Hash, serde::Serialize, serde::Deserialize)]
pub struct Exact {
    pub t: u8,
    pub target: u32,
    /// pad the (will's) property block rather than the body
    pub block: u8,
}
fn exact_case(env: &Env, c: &Exact, obs: &mut Obs) -> Result<(), String> {
    let base = base_pkt(c.t);
    let pad = match c.block {
        0 => Pad::Body(c.target),
        b => Pad::Props {
            len: c.target,
            will: b == 2,
        },
    };
    let (p, hit) = Padded { pkt: base, pad }.build();
    if !hit {
        obs.label("boundary not reachable");
        return Ok(());
    }
    obs.nontrivial = true;
    check(env, &p, 0, obs)
}
pub fn base_pkt(t: u8) -> Pkt {
    match t {
        1 => Pkt::Connect {
            keep_alive: 1,
            client_id: Bin::s("c"),
            clean_start: true,
            props: None,
            will: Some(Will {
                topic: Bin::s("t"),
                message: Bin::s("m"),
                qos: 1,
                retain: false,
                props: None,
            }),
            login: None,
        },
        2 => Pkt::ConnAck {
            session_present: false,
            code: 0,
            props: None,
        },
        3 => Pkt::Publish {
            dup: false,
            qos: 1,
            retain: false,
            topic: Bin::s("t"),
            pkid: 9,
            payload: Bin::default(),
            props: None,
        },
        4..=7 => Pkt::Ack {
            t,
            pkid: 2,
            reason: *codes(t).last().unwrap(),
            props: None,
        },
        8 => Pkt::Subscribe {
            pkid: 2,
            filters: vec![Filt {
                path: Bin::s("f"),
                qos: 1,
                nolocal: false,
                rap: false,
                rh: 0,
            }],
            props: None,
        },
        9 => Pkt::SubAck {
            pkid: 2,
            codes: vec![1],
            props: None,
        },
        10 => Pkt::Unsubscribe {
            pkid: 2,
            filters: vec![Bin::s("f")],
            props: None,
        },
        11 => Pkt::UnsubAck {
            pkid: 2,
            codes: vec![0],
            props: None,
        },
        12 => Pkt::PingReq,
        13 => Pkt::PingResp,
        _ => Pkt::Disconnect {
            reason: 0x81,
            props: None,
        },
    }
}
fn exact_items(env: &Env) -> Box<dyn Iterator<Item = Exact>> {
    let big = env.thorough;
    Box::new((1u8..=14).flat_map(move |t| {
        (0u8..3).flat_map(move |block| {
            let mut v: Vec<u32> = (100..=150).collect();
            v.extend(16_370..=16_400);
            if big {
                v.extend(2_097_140..=2_097_160);
            } else {
                v.extend([2_097_151, 2_097_152]);
            }
            v.into_iter().map(move |target| Exact { t, target, block })
        })
    }))
}

fn sweep_case(env: &Env, c: &Sweep, obs: &mut Obs) -> Result<(), String> {
    check(env, &c.build(), 0, obs)
}

fn huge_case(env: &Env, c: &Huge, obs: &mut Obs) -> Result<(), String> {
    check(env, &c.build(), 0, obs)
}

pub fn def() -> PropertyDef {
    PropertyDef {
        id: "C06",
        rule: "Generated packets (padded in body or property block to within 6 bytes of 128, 16384, 2097152; \
               enumerated for every type; empty lists; Some(empty) properties) are written after a prefix; the \
               returned count, the buffer growth, size() and the frame length by the crate's and by an \
               independent header reading must be equal. Non-trivial: length >= 120, properties, will, login, \
               several list items, or an encoding that has a short form.",
        parts: vec![
            enumerated("huge", huge(ALL), huge_case),
            enumerated("every value", |_| items(ALL), sweep_case),
            part(
                "packets",
                9000,
                |e| {
                    (padded(raw(e)), any::<u8>())
                        .prop_map(|(padded, prefix)| Sized { padded, prefix })
                        .boxed()
                },
                case,
            ),
            part(
                "boundaries",
                2000,
                |e| {
                    (small_pkt(raw(e)), pad_always(), any::<u8>())
                        .prop_map(|(pkt, pad, prefix)| Sized {
                            padded: Padded { pkt, pad },
                            prefix,
                        })
                        .boxed()
                },
                case,
            ),
            part("degenerate", 2500, |e| degenerate(raw(e)), degenerate_case),
            enumerated("exact boundaries", exact_items, exact_case),
        ],
    }
}
