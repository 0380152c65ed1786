//! Re-encoding what was decoded is stable.
use super::*;
use crate::gen::*;
use crate::huge::*;
use crate::sweep::*;
use proptest::prelude::*;

fn judge(env: &Env, f: &[u8], obs: &mut Obs) -> Result<(), String> {
    let mut s = BytesMut::from(f);
    let Ok(h1) = env.codec.read_held(&mut s, None) else {
        obs.label("not accepted");
        return Ok(());
    };
    let p1 = h1.model();
    obs.label(p1.type_name());
    let mut b2 = BytesMut::new();
    if let Err(e) = h1.write(&mut b2) {
        return Err(format!(
            "an accepted packet cannot be written again ({e:?}): {} = {}",
            hex_short(f),
            short(format!("{p1:?}"))
        ));
    }
    let out = b2.to_vec();
    let h2 = match env.codec.read_held(&mut b2, None) {
        Ok(h) => h,
        Err(e) => {
            return Err(format!(
                "the re-encoding cannot be read ({e:?}): {} -> {}",
                hex_short(f),
                hex_short(&out)
            ))
        }
    };
    let p2 = h2.model();
    ensure!(
        b2.is_empty(),
        "{} bytes left over from the re-encoding {} -> {}",
        b2.len(),
        hex_short(f),
        hex_short(&out)
    );
    ensure!(
        p1 == p2 && h1.same(h2.as_ref()),
        "{} ({} -> {})",
        differ("after re-encoding", &p2, &p1),
        hex_short(f),
        hex_short(&out)
    );
    let mut b3 = BytesMut::new();
    match h2.write(&mut b3) {
        Ok(_) => ensure!(
            b3[..] == out[..],
            "the second re-encoding differs: {} then {}",
            hex_short(&out),
            hex_short(&b3)
        ),
        Err(e) => return Err(format!("the second re-encoding fails: {e:?}")),
    }
    let changed = out[..] != f[..];
    obs.label_if(changed, "re-encoding differs from the input");
    obs.nontrivial_if(changed || p1.rich());
    Ok(())
}

fn frame_case(env: &Env, c: &AnyFrame, obs: &mut Obs) -> Result<(), String> {
    judge(env, &c.frame(), obs)
}
fn dense_case(env: &Env, c: &super::c03::Dense, obs: &mut Obs) -> Result<(), String> {
    let (pkt, _) = Padded {
        pkt: c.wire.pkt.clone(),
        pad: c.pad.clone(),
    }
    .build();
    judge(env, &encode(&pkt, &c.wire.form).frame(), obs)
}
pub fn bytes_case(env: &Env, c: &Bin, obs: &mut Obs) -> Result<(), String> {
    judge(env, &c.0, obs)
}

fn sweep_case(env: &Env, c: &Sweep, obs: &mut Obs) -> Result<(), String> {
    judge(env, &encode(&c.build(), &Form::default()).frame(), obs)
}

fn huge_case(env: &Env, c: &Huge, obs: &mut Obs) -> Result<(), String> {
    judge(env, &encode(&c.build(), &Form::default()).frame(), obs)
}

pub fn def() -> PropertyDef {
    PropertyDef {
        id: "C13",
        rule: "Whatever the crate accepts among legal wire forms (any property order, short forms), damaged and random \
               frames is written again by the crate, read again (must be equal, nothing left over) and written once \
               more (must be identical bytes). Non-trivial: the re-encoding differs from the input, or the packet \
               has properties, will, login or several list items.",
        parts: vec![
            bytes_part("frame bytes", true, bytes_case),
            enumerated("one step away", |_| near().map(AnyFrame::Near), frame_case),
            enumerated("huge", huge(ALL), huge_case),
            enumerated("every value", |_| items(ALL), sweep_case),
            part("legal", 8000, |e| wire(raw(e)).prop_map(AnyFrame::Legal).boxed(), frame_case),
            part(
                "damaged",
                12_000,
                |e| {
                    prop_oneof![
                        6 => mutated(raw(e)).prop_map(AnyFrame::Mutated),
                        1 => random_frame()
                    ]
                    .boxed()
                },
                frame_case,
            ),
            part(
                "boundaries",
                1200,
                |e| {
                    (small_wire(raw(e)), pad_always())
                        .prop_map(|(wire, pad)| super::c03::Dense { wire, pad })
                        .boxed()
                },
                dense_case,
            ),
        ],
    }
}
