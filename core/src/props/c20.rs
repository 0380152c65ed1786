//! Short forms of acknowledgements and DISCONNECT mean the defaults.
use super::*;
use crate::gen::*;
use crate::spec::*;
use crate::sweep::*;
use proptest::prelude::*;

fn case(env: &Env, c: &Wire, obs: &mut Obs) -> Result<(), String> {
    if !matches!(c.pkt, Pkt::Ack { .. } | Pkt::Disconnect { .. }) {
        return Ok(());
    }
    obs.label(c.pkt.type_name());
    let canon = c.pkt.canon();
    let e = c.enc();
    let f = e.frame();
    let is_short = e.body.len() < body_len(&c.pkt);
    obs.label_if(is_short, "short form read");
    let empty = matches!(c.pkt.props(), Some(Some(v)) if v.is_empty());
    obs.label_if(empty, "empty property set");
    obs.nontrivial_if(is_short || empty || c.pkt.rich());
    let got = read_ok(env, &f)?;
    ensure!(
        got == canon,
        "{} ({})",
        differ("read", &got, &canon),
        hex_short(&f)
    );
    // whatever the encoder emits keeps reason and properties
    let out = write(env, &c.pkt)?;
    let Framing::Frame { header, body } = framing(&out, None) else {
        return Err(format!("not a frame: {}", hex_short(&out)));
    };
    ensure!(
        header + body == out.len(),
        "frame length wrong: {} for {}",
        hex_short(&out),
        short(format!("{:?}", c.pkt))
    );
    obs.label_if(body < body_len(&c.pkt), "short form written");
    match decode(out[0], &out[header..], env.codec.text()) {
        Verdict::Accept(q) => ensure!(
            q == canon,
            "{} ({})",
            differ("written", &q, &canon),
            hex_short(&out)
        ),
        v => {
            return Err(format!(
                "{} written as {} ({v:?})",
                short(format!("{:?}", c.pkt)),
                hex_short(&out)
            ))
        }
    }
    let back = read_ok(env, &out)?;
    ensure!(
        back == canon,
        "{} ({})",
        differ("read back", &back, &canon),
        hex_short(&out)
    );
    Ok(())
}

fn table() -> impl Iterator<Item = Wire> {
    [4u8, 5, 6, 7, 14].into_iter().flat_map(|t| {
        codes(t).iter().copied().flat_map(move |code| {
            (0u8..5).flat_map(move |k| {
                (0u8..3).flat_map(move |s| {
                    [0u16, 1, 0x00ff, 0x0100, 0xffff]
                        .into_iter()
                        .map(move |pkid| {
                            let props: Props = match k {
                                0 => None,
                                1 => Some(vec![]),
                                2 => Some(vec![Prop {
                                    id: 0x1f,
                                    val: Val::Str(Bin::default()),
                                }]),
                                3 => Some(vec![Prop {
                                    id: USER,
                                    val: Val::Pair(Bin::default(), Bin::default()),
                                }]),
                                _ => Some(vec![Prop {
                                    id: 0x1f,
                                    val: Val::Str(Bin(vec![b'r'; 130])),
                                }]),
                            };
                            Wire {
                                pkt: if t == 14 {
                                    Pkt::Disconnect {
                                        reason: code,
                                        props,
                                    }
                                } else {
                                    Pkt::Ack {
                                        t,
                                        pkid,
                                        reason: code,
                                        props,
                                    }
                                },
                                form: Form {
                                    perm: vec![],
                                    short: s,
                                },
                            }
                        })
                })
            })
        })
    })
}

fn sweep_case(env: &Env, c: &Sweep, obs: &mut Obs) -> Result<(), String> {
    // both with and without the short forms
    for short in [0, 2] {
        let w = Wire {
            pkt: c.build(),
            form: Form {
                perm: vec![],
                short,
            },
        };
        case(env, &w, obs)?;
    }
    Ok(())
}

pub fn def() -> PropertyDef {
    PropertyDef {
        id: "C20",
        rule: "PUBACK, PUBREC, PUBREL, PUBCOMP and DISCONNECT with any reason, property set (none, empty, some) and wire \
               form (full, without property length, without reason) are decoded and must give the same fields; the \
               crate's own output for the same packet is judged by the independent decoder and read back. \
               Exhaustive over codes x 5 property sets x 3 forms x 5 identifiers, plus generated. Non-trivial: short \
               form, empty property set, or non-default content.",
        parts: vec![
            enumerated("every value", |_| items(&[4, 5, 6, 7, 14]), sweep_case),
            enumerated("table", |_| table(), case),
            part(
                "generated",
                10_000,
                |e| {
                    let types: Vec<BS<Pkt>> =
                        [4u8, 5, 6, 7, 14, 14].iter().map(|t| pkt_of(*t, raw(e))).collect();
                    (proptest::strategy::Union::new(types), form(), pad())
                        .prop_map(|(pkt, form, pad)| Wire {
                            pkt: Padded { pkt, pad }.build().0,
                            form,
                        })
                        .boxed()
                },
                case,
            ),
        ],
    }
}
