//! Decoder accepts every legal encoding with the right field values.
use super::*;
use crate::gen::*;
use crate::huge::*;
use crate::sweep::*;
use proptest::prelude::*;

fn wire_case(env: &Env, c: &Wire, obs: &mut Obs) -> Result<(), String> {
    let canon = c.pkt.canon();
    let e = c.enc();
    let f = e.frame();
    obs.label(c.pkt.type_name());
    let unsorted = c.pkt.n_props() >= 2 && e.body != encode(&c.pkt, &Form::default()).body;
    obs.label_if(unsorted, "properties reordered");
    let short_form = matches!(c.pkt, Pkt::Ack { .. } | Pkt::Disconnect { .. })
        && e.body.len() < body_len(&c.pkt);
    obs.label_if(short_form, "short form");
    obs.nontrivial_if(unsorted || short_form || c.pkt.n_props() >= 1);
    let got = read_ok(env, &f)?;
    ensure!(
        got == canon,
        "{} from {}",
        differ("decoded", &got, &canon),
        hex_short(&f)
    );
    Ok(())
}

/// Byte-level mutations that leave a legal or merely irregular frame.
pub fn frame_case(env: &Env, c: &AnyFrame, obs: &mut Obs) -> Result<(), String> {
    let (b1, body) = c.parts();
    let f = frame(b1, &body);
    let v = decode(b1, &body, env.codec.text());
    match &v {
        Verdict::Accept(p) => {
            obs.label("mutated but legal");
            obs.nontrivial_if(!matches!(c, AnyFrame::Legal(_)) && !body.is_empty());
            obs.label(p.type_name());
        }
        Verdict::Lenient(..) => obs.label("irregular"),
        Verdict::Reject(_) => obs.label("malformed"),
    }
    let (got, _) = read_all(env, &f);
    accept_matches(&got, &v, &f)
}

/// Any bytes as a frame stream (for coverage-guided fuzzing).
pub fn bytes_case(env: &Env, c: &Bin, obs: &mut Obs) -> Result<(), String> {
    if let Framing::Frame { header, body } = framing(&c.0, None) {
        let v = decode(c.0[0], &c.0[header..header + body], env.codec.text());
        obs.nontrivial_if(matches!(v, Verdict::Accept(_)) && body > 2);
        let (got, _) = read_all(env, &c.0[..header + body]);
        accept_matches(&got, &v, &c.0[..header + body])?;
    }
    Ok(())
}

fn sweep_case(env: &Env, c: &Sweep, obs: &mut Obs) -> Result<(), String> {
    wire_case(
        env,
        &Wire {
            pkt: c.build(),
            form: Form::default(),
        },
        obs,
    )
}

fn minimal(n: u8) -> AnyFrame {
    AnyFrame::Random {
        byte1: n,
        body: Bin(vec![]),
    }
}

fn huge_case(env: &Env, c: &Huge, obs: &mut Obs) -> Result<(), String> {
    wire_case(
        env,
        &Wire {
            pkt: c.build(),
            form: Form::default(),
        },
        obs,
    )
}

pub fn def() -> PropertyDef {
    PropertyDef {
        id: "C03",
        rule: "Packets are encoded by the independent reference encoder in any legal form (property order \
               permuted, reason code / property length omitted where allowed) and must be decoded by the crate \
               to exactly the same fields; byte-mutated frames which the reference decoder still finds legal \
               must decode to what it says. Non-trivial: at least one property or a short form, or a mutated \
               frame that is still legal.",
        parts: vec![
            bytes_part("frame bytes", true, bytes_case),
            part("wire", 9000, |e| wire(raw(e)), wire_case),
            part(
                "mutated",
                9000,
                |e| {
                    prop_oneof![
                        8 => mutated(raw(e)).prop_map(AnyFrame::Mutated),
                        2 => random_frame(),
                        1 => any::<u8>().prop_map(minimal)
                    ]
                    .boxed()
                },
                frame_case,
            ),
            part("dense", 1500, |e| dense(raw(e)), dense_case),
            enumerated("one step away", |_| near().map(AnyFrame::Near), frame_case),
            enumerated("huge", huge(ALL), huge_case),
            enumerated("every value", |_| items(ALL), sweep_case),
        ],
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, serde::Serialize, serde::Deserialize)]
pub struct Dense {
    pub wire: Wire,
    pub pad: Pad,
}
fn dense(raw: bool) -> BS<Dense> {
    (small_wire(raw), pad_always())
        .prop_map(|(wire, pad)| Dense { wire, pad })
        .boxed()
}
fn dense_case(env: &Env, c: &Dense, obs: &mut Obs) -> Result<(), String> {
    let (pkt, hit) = Padded {
        pkt: c.wire.pkt.clone(),
        pad: c.pad.clone(),
    }
    .build();
    obs.label_if(hit, "padded to a length boundary");
    wire_case(
        env,
        &Wire {
            pkt,
            form: c.wire.form.clone(),
        },
        obs,
    )
}
