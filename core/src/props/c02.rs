//! Encoder output is the MQTT 5 wire format.
use super::*;
use crate::gen::*;
use crate::huge::*;
use crate::spec::*;
use crate::sweep::*;
use proptest::prelude::*;

pub fn check(env: &Env, p: &Pkt, obs: &mut Obs) -> Result<(), String> {
    obs.label(p.type_name());
    obs.nontrivial_if(p.rich());
    let canon = p.canon();
    let bytes = write(env, p)?;
    match framing(&bytes, None) {
        Framing::Frame { header, body } => {
            ensure!(
                header + body == bytes.len(),
                "{} trailing bytes after the packet: {}",
                bytes.len() - header - body,
                hex_short(&bytes)
            );
            ensure!(
                header == 1 + varint_len(body as u64),
                "remaining length not minimal: {}",
                hex_short(&bytes)
            );
            match decode(bytes[0], &bytes[header..], env.codec.text()) {
                Verdict::Accept(q) => ensure!(
                    q == canon,
                    "{} in {}",
                    differ("an independent decoder sees", &q, &canon),
                    hex_short(&bytes)
                ),
                Verdict::Lenient(_, why) | Verdict::Reject(why) => {
                    return Err(format!(
                        "output is not legal MQTT 5 ({why}): {} for {}",
                        hex_short(&bytes),
                        short(format!("{p:?}"))
                    ))
                }
            }
            Ok(())
        }
        f => Err(format!(
            "output is not one frame ({f:?}): {}",
            hex_short(&bytes)
        )),
    }
}

fn padded_case(env: &Env, c: &Padded, obs: &mut Obs) -> Result<(), String> {
    let (p, hit) = c.build();
    obs.label_if(c.pad != Pad::No && hit, "padded to a length boundary");
    check(env, &p, obs)
}

fn sweep_case(env: &Env, c: &Sweep, obs: &mut Obs) -> Result<(), String> {
    check(env, &c.build(), obs)
}

fn huge_case(env: &Env, c: &Huge, obs: &mut Obs) -> Result<(), String> {
    check(env, &c.build(), obs)
}

pub fn def() -> PropertyDef {
    PropertyDef {
        id: "C02",
        rule: "Generated packets are encoded by the crate and the bytes judged by an independent, \
               specification-driven strict decoder, which must find one frame with minimal lengths and the \
               same field values. Non-trivial: property, will, login, more than one list item or non-zero reason.",
        parts: vec![
            part("packets", 10_000, |e| padded(raw(e)), padded_case),
            part(
                "boundaries",
                1200,
                |e| (pkt(raw(e)), pad_always()).prop_map(|(pkt, pad)| Padded { pkt, pad }).boxed(),
                padded_case,
            ),
            enumerated("huge", huge(ALL), huge_case),
            enumerated("every value", |_| items(ALL), sweep_case),
        ],
    }
}
