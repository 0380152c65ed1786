//! Reason codes and enumerations map one-to-one to the specification.
use super::*;
use crate::gen::*;
use crate::huge::*;
use crate::spec::*;
use proptest::prelude::*;

const TYPES: [u8; 8] = [2, 4, 5, 6, 7, 9, 11, 14];

/// Packet of type t with this code somewhere; `k` selects the surroundings.
fn with_code(t: u8, code: u8, k: u8) -> Pkt {
    let props: Props = match k % 3 {
        0 => None,
        1 => Some(vec![Prop {
            id: USER,
            val: Val::Pair(Bin::s("a"), Bin::s("b")),
        }]),
        _ => Some(vec![Prop {
            id: 0x1f,
            val: Val::Str(Bin::s("why")),
        }]),
    };
    let list = |k: u8| match k / 3 % 3 {
        0 => vec![code],
        1 => vec![0, code, 0x80],
        _ => vec![0x87, 0, code],
    };
    match t {
        2 => Pkt::ConnAck {
            session_present: k % 2 == 1,
            code,
            props,
        },
        4..=7 => Pkt::Ack {
            t,
            pkid: 0x0102,
            reason: code,
            props,
        },
        9 => Pkt::SubAck {
            pkid: 0x0102,
            codes: list(k),
            props,
        },
        11 => Pkt::UnsubAck {
            pkid: 0x0102,
            codes: list(k),
            props,
        },
        _ => Pkt::Disconnect {
            reason: code,
            props,
        },
    }
}

/// (type, code byte, surroundings, short form)
fn table() -> impl Iterator<Item = (u8, u8, u8, u8)> {
    TYPES.into_iter().flat_map(|t| {
        (0u16..256).flat_map(move |c| {
            (0u8..9).flat_map(move |k| (0u8..3).map(move |s| (t, c as u8, k, s)))
        })
    })
}

fn table_case(env: &Env, c: &(u8, u8, u8, u8), obs: &mut Obs) -> Result<(), String> {
    let (t, code, k, short_form) = *c;
    obs.nontrivial = true;
    let defined = codes(t).contains(&code);
    obs.label(if defined {
        "defined code"
    } else {
        "undefined code"
    });
    let p = with_code(t, code, k);
    let e = encode(
        &p,
        &Form {
            perm: vec![],
            short: short_form,
        },
    );
    let f = e.frame();
    let (got, _) = read_all(env, &f);
    match (&got, defined) {
        (Ok(q), true) => ensure!(
            *q == p.canon(),
            "{} {code:#04x}: {}",
            type_name(t),
            differ("decoded", q, &p.canon())
        ),
        (Err(_), false) => return Ok(()),
        (Ok(q), false) => {
            return Err(format!(
                "{} code {code:#04x} is not defined but accepted: {} -> {}",
                type_name(t),
                hex_short(&f),
                short(format!("{q:?}"))
            ))
        }
        (Err(e), true) => {
            return Err(format!(
                "{} code {code:#04x} is refused ({e:?}): {}",
                type_name(t),
                hex_short(&f)
            ))
        }
    }
    // writing the variant of this meaning gives this byte
    let out = write(env, &p)?;
    match framing(&out, None) {
        Framing::Frame { header, .. } => match decode(out[0], &out[header..], env.codec.text()) {
            Verdict::Accept(q) => ensure!(
                q == p.canon(),
                "{} {code:#04x} written as {}",
                type_name(t),
                hex_short(&out)
            ),
            v => {
                return Err(format!(
                    "{} {code:#04x} written as {} ({v:?})",
                    type_name(t),
                    hex_short(&out)
                ))
            }
        },
        f => return Err(format!("{f:?}")),
    }
    Ok(())
}

/// QoS and retain handling in all places, and the public conversion functions.
#[derive(Clone, Debug, PartialEq, Eq, Hash, serde::Serialize, serde::Deserialize)]
pub enum Enumeration {
    QosFn(u8),
    DisconnectFn(u8),
    /// subscription options byte
    Options(u8),
    /// PUBLISH first byte
    Publish(u8),
    /// CONNECT flags with the will flag set
    Will(u8),
    /// written: (qos, retain rule, nolocal, rap)
    WriteFilter(u8, u8, bool, bool),
    /// every variant of a public enumeration with wire numbers, as a number
    Numbers,
    /// order of two quality of service levels
    Order(u8, u8),
}
fn enumerations() -> impl Iterator<Item = Enumeration> {
    let bytes = || (0u16..256).map(|b| b as u8);
    bytes()
        .map(Enumeration::QosFn)
        .chain(bytes().map(Enumeration::DisconnectFn))
        .chain(bytes().filter(|b| b & 0xc0 == 0).map(Enumeration::Options))
        .chain((0x30u8..0x40).map(Enumeration::Publish))
        .chain(
            bytes()
                .filter(|b| b & 4 != 0 && b & 1 == 0)
                .map(Enumeration::Will),
        )
        .chain(
            (0..36u8).map(|n| {
                Enumeration::WriteFilter(n % 3, n / 3 % 3, n / 9 % 2 == 1, n / 18 % 2 == 1)
            }),
        )
        .chain([Enumeration::Numbers])
        .chain((0..9u8).map(|n| Enumeration::Order(n / 3, n % 3)))
}
fn enumeration_case(env: &Env, c: &Enumeration, obs: &mut Obs) -> Result<(), String> {
    obs.nontrivial = true;
    match c {
        Enumeration::QosFn(n) => {
            let want = if *n <= 2 { Some(*n) } else { None };
            let got = env.codec.qos(*n);
            ensure!(got == want, "qos({n}) is {got:?}");
        }
        Enumeration::DisconnectFn(n) => {
            let got = env.codec.disconnect_code(*n);
            if DISCONNECT_CODES.contains(n) {
                ensure!(
                    got == Ok(*n),
                    "disconnect code {n:#04x} converts to {got:?}"
                );
            } else {
                ensure!(got.is_err(), "disconnect code {n:#04x} converts to {got:?}");
            }
        }
        Enumeration::Options(o) => {
            let body = [&[0u8, 1, 0, 0, 1, b'a'][..], &[*o]].concat();
            let (got, _) = read_all(env, &frame(0x82, &body));
            match (decode(0x82, &body, true), got) {
                (Verdict::Accept(w), Ok(g)) => {
                    ensure!(g == w, "{}", differ("subscription options", &g, &w));
                }
                (Verdict::Reject(_), Err(_)) => {}
                (v, g) => return Err(format!("options {o:#04x}: {g:?}, expected {v:?}")),
            }
        }
        Enumeration::Publish(b1) => {
            let body = if b1 & 6 == 0 {
                vec![0, 1, b'a', 0, 9]
            } else {
                vec![0, 1, b'a', 0, 5, 0, 9]
            };
            let (got, _) = read_all(env, &frame(*b1, &body));
            match (decode(*b1, &body, true), got) {
                (Verdict::Accept(w), Ok(g)) => {
                    ensure!(g == w, "{}", differ("publish", &g, &w));
                    let out = write(env, &w)?;
                    ensure!(
                        out[0] == *b1,
                        "first byte {b1:#04x} rewritten as {:#04x}",
                        out[0]
                    );
                }
                (Verdict::Reject(_), Err(_)) => {}
                (v, g) => return Err(format!("first byte {b1:#04x}: {g:?}, expected {v:?}")),
            }
        }
        Enumeration::Will(fl) => {
            let mut b = vec![0, 1, b'w', 0, 1, b'm'];
            b.insert(0, 0);
            let got = env.codec.will_read(*fl, &mut bytes::Bytes::from(b));
            let q = (fl >> 3) & 3;
            match got {
                Ok(Some(w)) => ensure!(
                    q < 3 && w.qos == q && w.retain == (fl & 0x20 != 0),
                    "flags {fl:#04x} read as {w:?}"
                ),
                Ok(None) => return Err(format!("flags {fl:#04x}: will not read")),
                Err(e) => ensure!(q == 3, "flags {fl:#04x}: {e:?}"),
            }
        }
        Enumeration::WriteFilter(qos, rh, nolocal, rap) => {
            let f = Filt {
                path: Bin::s("p"),
                qos: *qos,
                nolocal: *nolocal,
                rap: *rap,
                rh: *rh,
            };
            let mut out = BytesMut::new();
            env.codec
                .filter_write(&f, &mut out)
                .map_err(|e| format!("{e:?}"))?;
            let want = qos | (u8::from(*nolocal) << 2) | (u8::from(*rap) << 3) | (rh << 4);
            ensure!(
                out[..] == [0, 1, b'p', want],
                "{f:?} written as {}",
                hex_short(&out)
            );
        }
        Enumeration::Numbers => {
            for (name, got, want) in env.codec.numbers() {
                ensure!(
                    got == want,
                    "{name} is {got:#04x} as a number, not {want:#04x}"
                );
            }
            let d = env.codec.qos_default();
            ensure!(d == 0, "the default quality of service is {d}");
        }
        Enumeration::Order(a, b) => {
            let got = env.codec.qos_cmp(*a, *b);
            ensure!(
                got == Some(a.cmp(b)),
                "quality of service {a} compared with {b} is {got:?}"
            );
        }
    }
    Ok(())
}

/// Codes in arbitrary packets: the byte at the code position replaced by anything.
#[derive(Clone, Debug, PartialEq, Eq, Hash, serde::Serialize, serde::Deserialize)]
pub struct Replaced {
    pub wire: Wire,
    pub which: u32,
    pub v: u8,
}
fn replaced_case(env: &Env, c: &Replaced, obs: &mut Obs) -> Result<(), String> {
    let e = c.wire.enc();
    let spans: Vec<Span> = e
        .spans
        .iter()
        .copied()
        .filter(|s| s.kind == SK::Code)
        .collect();
    if spans.is_empty() {
        return Ok(());
    }
    let t = e.byte1 >> 4;
    let at = spans[c.which as usize % spans.len()].a;
    let mut body = e.body.clone();
    body[at] = c.v;
    obs.nontrivial = true;
    let defined = codes(t).contains(&c.v);
    obs.label(if defined {
        "defined code"
    } else {
        "undefined code"
    });
    let f = frame(e.byte1, &body);
    let (got, _) = read_all(env, &f);
    match (decode(e.byte1, &body, env.codec.text()), &got) {
        (Verdict::Accept(w), Ok(g)) => {
            ensure!(*g == w, "{}", differ("decoded", g, &w));
        }
        (Verdict::Accept(_), Err(e)) => {
            return Err(format!(
                "code {:#04x} refused ({e:?}): {}",
                c.v,
                hex_short(&f)
            ))
        }
        (Verdict::Reject(_), Ok(g)) => {
            return Err(format!(
                "code {:#04x} accepted as {}: {}",
                c.v,
                short(format!("{g:?}")),
                hex_short(&f)
            ))
        }
        _ => {}
    }
    Ok(())
}

fn huge_case(env: &Env, c: &Huge, obs: &mut Obs) -> Result<(), String> {
    obs.nontrivial = true;
    let p = c.build();
    let e = encode(&p, &Form::default());
    let got = read_ok(env, &e.frame())?;
    ensure!(got == p.canon(), "{}", differ("decoded", &got, &p.canon()));
    ensure!(
        write(env, &p)? == e.frame(),
        "a long list is written with other codes"
    );
    // an undefined code anywhere in a long list
    let n = e.body.len();
    for at in [n - 1, n - (c.n as usize) / 2, n - c.n as usize] {
        let mut b = e.body.clone();
        b[at] = 0x7f;
        let f = frame(e.byte1, &b);
        ensure!(
            read_all(env, &f).0.is_err(),
            "undefined code accepted at place {at} of {}",
            hex_short(&f)
        );
    }
    Ok(())
}
fn huge_items(env: &Env) -> impl Iterator<Item = Huge> {
    huge(&[9, 11])(env).filter(|h| matches!(h.what, What::List(_)))
}

pub fn def() -> PropertyDef {
    PropertyDef {
        id: "C14",
        rule: "Exhaustive: 256 code bytes x 8 packet types x 9 surroundings x 3 wire forms, read and (if defined) \
               written back, against tables transcribed from the specification and an adapter that names every \
               variant; 256 inputs of qos() and of the disconnect-code conversion; all option, will and PUBLISH flag \
               values; the numeric value of every PacketType, QoS and DisconnectReasonCode variant; the order of QoS \
               levels. Plus generated packets with one code byte replaced. Every case is non-trivial.",
        parts: vec![
            enumerated("codes", |_| table(), table_case),
            enumerated("enumerations", |_| enumerations(), enumeration_case),
            enumerated("huge", huge_items, huge_case),
            part(
                "replaced",
                6000,
                |e| {
                    let types: Vec<BS<Pkt>> = TYPES.iter().map(|t| pkt_of(*t, raw(e))).collect();
                    (
                        proptest::strategy::Union::new(types),
                        form(),
                        any::<u32>(),
                        prop_oneof![1 => any::<u8>(), 2 => proptest::sample::select(
                            [&DISCONNECT_CODES[..], &SUBACK_CODES, &CONNACK_CODES, &PUBACK_CODES, &[0x11, 0x92]].concat())],
                    )
                        .prop_map(|(pkt, form, which, v)| Replaced {
                            wire: Wire { pkt, form },
                            which,
                            v,
                        })
                        .boxed()
                },
                replaced_case,
            ),
        ],
    }
}
