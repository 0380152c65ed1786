//! PUBLISH header bits, identifier and payload are preserved.
use super::*;
use crate::gen::*;
use crate::huge::*;
use crate::spec::*;
use crate::sweep::*;
use proptest::prelude::*;

fn write_case(env: &Env, p: &Pkt, obs: &mut Obs) -> Result<(), String> {
    let Pkt::Publish {
        dup,
        qos,
        retain,
        topic,
        pkid,
        payload,
        props,
    } = p
    else {
        return Ok(());
    };
    obs.nontrivial_if(*qos > 0 || props.is_some());
    obs.label(["QoS 0", "QoS 1", "QoS 2"][*qos as usize]);
    obs.label_if(payload.is_empty(), "empty payload");
    obs.label_if(payload.len() > 16_384, "long payload");
    obs.label_if(*pkid == 0, "identifier 0");
    let mut b = BytesMut::new();
    let r = env.codec.write(p, &mut b);
    if *qos > 0 && *pkid == 0 {
        ensure!(
            r.is_err(),
            "identifier 0 written with QoS {qos}: {}",
            hex_short(&b)
        );
        return Ok(());
    }
    if let Err(e) = r {
        return Err(format!("write failed: {e:?} {}", short(format!("{p:?}"))));
    }
    let out = b.to_vec();
    let Framing::Frame { header, body } = framing(&out, None) else {
        return Err(format!("not a frame: {}", hex_short(&out)));
    };
    ensure!(
        header + body == out.len(),
        "frame length wrong: {}",
        hex_short(&out)
    );
    let byte1 = 0x30 | (u8::from(*dup) << 3) | (qos << 1) | u8::from(*retain);
    ensure!(
        out[0] == byte1,
        "first byte {:#04x}, expected {byte1:#04x}",
        out[0]
    );
    let body = &out[header..];
    let mut want = (topic.len() as u16).to_be_bytes().to_vec();
    want.extend_from_slice(&topic.0);
    if *qos > 0 {
        want.extend(pkid.to_be_bytes());
    }
    let plen = props_block_len(props);
    put_varint(&mut want, plen as u64);
    ensure!(
        body.starts_with(&want),
        "topic, identifier and property length are {} but expected {}",
        hex_short(&body[..want.len().min(body.len())]),
        hex_short(&want)
    );
    let at = want.len() + plen;
    ensure!(
        body.len() == at + payload.len() && body[at..] == payload.0[..],
        "payload {:?} written as {}",
        payload,
        hex_short(&body[at.min(body.len())..])
    );
    let got = read_ok(env, &out)?;
    ensure!(
        got == p.canon(),
        "{} ({})",
        differ("read back", &got, &p.canon()),
        hex_short(&out)
    );
    Ok(())
}

/// Reading: every header nibble on one generated packet.
fn read_case(env: &Env, c: &Wire, obs: &mut Obs) -> Result<(), String> {
    let Pkt::Publish {
        topic,
        pkid,
        payload,
        props,
        ..
    } = &c.pkt
    else {
        return Ok(());
    };
    obs.nontrivial = true;
    for nibble in 0u8..16 {
        let qos = (nibble >> 1) & 3;
        for id in [*pkid, 0] {
            let p = Pkt::Publish {
                dup: nibble & 8 != 0,
                qos: qos.min(2),
                retain: nibble & 1 != 0,
                topic: topic.clone(),
                pkid: id,
                payload: payload.clone(),
                props: props.clone(),
            };
            let e = encode(&p, &c.form);
            let f = frame(0x30 | nibble, &e.body);
            let (got, left) = read_all(env, &f);
            if qos == 3 || (qos > 0 && id == 0) {
                ensure!(
                    got.is_err(),
                    "QoS {qos} with identifier {id} accepted: {}",
                    hex_short(&f)
                );
                continue;
            }
            match got {
                Ok(g) => ensure!(
                    g == p.canon() && left.is_empty(),
                    "{} ({})",
                    differ("read", &g, &p.canon()),
                    hex_short(&f)
                ),
                Err(e) => return Err(format!("refused ({e:?}): {}", hex_short(&f))),
            }
        }
    }
    Ok(())
}

/// Payloads of every length in a range and around boundaries.
fn payload_case(env: &Env, c: &(u8, u32), obs: &mut Obs) -> Result<(), String> {
    let (qos, n) = *c;
    obs.nontrivial = true;
    let payload: Vec<u8> = (0..n)
        .map(|i| (i.wrapping_mul(31) ^ (i >> 8)) as u8)
        .collect();
    write_case(
        env,
        &Pkt::Publish {
            dup: false,
            qos,
            retain: false,
            topic: Bin::s("t/x"),
            pkid: if qos == 0 { 0 } else { 0xfffe },
            payload: Bin(payload),
            props: None,
        },
        &mut Obs::default(),
    )
}

/// Every packet identifier.
fn id_case(env: &Env, c: &(u8, u16), obs: &mut Obs) -> Result<(), String> {
    obs.nontrivial = true;
    write_case(
        env,
        &Pkt::Publish {
            dup: c.1 % 2 == 0,
            qos: c.0,
            retain: c.1 % 3 == 0,
            topic: Bin::s("t"),
            pkid: c.1,
            payload: Bin::s("x"),
            props: None,
        },
        &mut Obs::default(),
    )
}

fn sweep_case(env: &Env, c: &Sweep, obs: &mut Obs) -> Result<(), String> {
    write_case(env, &c.build(), obs)
}

fn huge_case(env: &Env, c: &Huge, obs: &mut Obs) -> Result<(), String> {
    write_case(env, &c.build(), obs)
}

pub fn def() -> PropertyDef {
    PropertyDef {
        id: "C19",
        rule: "PUBLISH packets with all flag combinations, any identifier (0 included), properties and payloads (empty, \
               property-like, up to 2 MiB) are written and the bytes compared position by position, then read back; \
               generated packets are read under all 16 header nibbles and with identifier 0; payload lengths \
               0..400 and around boundaries and all 65,536 identifiers are enumerated. Non-trivial: QoS > 0 or \
               properties (reading, enumerations: always).",
        parts: vec![
            enumerated("huge", huge(&[3]), huge_case),
            enumerated("every value", |_| items(&[3]), sweep_case),
            part(
                "write",
                9000,
                |e| {
                    (pkt_of(3, raw(e)), pad(), proptest::option::weighted(0.1, Just(())))
                        .prop_map(|(pkt, pad, zero)| {
                            let mut p = Padded { pkt, pad }.build().0;
                            if let (Pkt::Publish { pkid, .. }, Some(())) = (&mut p, zero) {
                                *pkid = 0;
                            }
                            p
                        })
                        .boxed()
                },
                write_case,
            ),
            part(
                "read",
                1500,
                |e| {
                    (pkt_of(3, raw(e)), form())
                        .prop_map(|(mut pkt, form)| {
                            shrink_fields(&mut pkt, 300);
                            Wire { pkt, form }
                        })
                        .boxed()
                },
                read_case,
            ),
            enumerated(
                "payload lengths",
                |_| {
                    (0u8..3).flat_map(|q| {
                        (0u32..400)
                            .chain(16_360..16_400)
                            .chain(65_525..65_545)
                            .chain([2_097_140, 2_097_146, 2_097_151, 2_097_152])
                            .map(move |n| (q, n))
                    })
                },
                payload_case,
            ),
            enumerated(
                "identifiers",
                |_| (0u8..3).flat_map(|q| (0u32..65_536).map(move |n| (q, n as u16))),
                id_case,
            ),
        ],
    }
}
