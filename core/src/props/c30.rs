//! Packets and errors can always be shown.
use super::*;
use crate::gen::*;
use crate::huge::*;
use crate::props::c08::{bad, Bad};
use crate::sweep::*;
use proptest::prelude::*;

fn packet(env: &Env, p: &Pkt, obs: &mut Obs) -> Result<(), String> {
    obs.label(p.type_name());
    obs.nontrivial_if(p.rich());
    let [a, b] = env.codec.shown(p);
    ensure!(!a.is_empty() && !b.is_empty(), "{p:?} is shown as nothing");
    Ok(())
}

fn padded_case(env: &Env, c: &Padded, obs: &mut Obs) -> Result<(), String> {
    packet(env, &c.build().0, obs)
}
fn sweep_case(env: &Env, c: &Sweep, obs: &mut Obs) -> Result<(), String> {
    let p = c.build();
    packet(env, &p, obs)?;
    frame_bytes(env, &encode(&p, &Form::default()).frame(), None, obs)
}
fn huge_case(env: &Env, c: &Huge, obs: &mut Obs) -> Result<(), String> {
    packet(env, &c.build(), obs)
}
fn huge_items(env: &Env) -> impl Iterator<Item = Huge> {
    huge(ALL)(env).filter(|h| matches!(h.n, 257 | 1025 | 4097 | 32_769 | 65_537 | 1_048_576))
}

fn frame_bytes(env: &Env, f: &[u8], max: Option<usize>, obs: &mut Obs) -> Result<(), String> {
    let mut s = BytesMut::from(f);
    if let Ok(h) = env.codec.read_held(&mut s, max) {
        obs.label("decodes");
        let m = h.model();
        obs.nontrivial_if(m.rich());
        // equal packets look the same, however they came about
        let got = h.shown();
        if env.codec.held_same(&*h, &m) {
            let want = env.codec.shown(&m);
            ensure!(
                got == want,
                "a decoded packet is shown as {} and the equal built one as {}",
                short(got[0].clone()),
                short(want[0].clone())
            );
        }
    }
    for (e, texts) in env.codec.read_error(f, max) {
        obs.label("refused");
        obs.nontrivial = true;
        error(&e, &texts)?;
    }
    Ok(())
}

fn error(e: &CErr, texts: &[String; 2]) -> Result<(), String> {
    let words = |n: usize| {
        texts[0]
            .split(|c: char| !c.is_ascii_digit())
            .any(|w| w == n.to_string())
    };
    ensure!(
        texts.iter().all(|t| !t.trim().is_empty()),
        "{e:?} is shown as nothing"
    );
    let named = match e {
        CErr::Need(n) => words(*n),
        CErr::TooBig { pkt_size, max } => words(*pkt_size) && words(*max),
        _ => true,
    };
    ensure!(named, "{e:?} is shown as {:?}, without the numbers", texts[0]);
    Ok(())
}

fn frame_case(env: &Env, c: &(AnyFrame, Option<u32>), obs: &mut Obs) -> Result<(), String> {
    let f = c.0.frame();
    let max = c.1.map(|m| m as usize);
    frame_bytes(env, &f, max, obs)?;
    frame_bytes(env, &f[..f.len() * 2 / 3], max, obs)
}
fn near_case(env: &Env, c: &Near, obs: &mut Obs) -> Result<(), String> {
    let (byte1, body) = c.parts();
    frame_bytes(env, &frame(byte1, &body), None, obs)
}
fn deep_case(env: &Env, c: &super::c23::Deep, obs: &mut Obs) -> Result<(), String> {
    match c.pkt() {
        Some(p) => {
            if env.codec.text() && fields(&mut p.clone()).iter().any(|(b, k)| *k == Field::Text && !b.is_text()) {
                return frame_bytes(env, &encode(&p, &Form::default()).frame(), None, obs);
            }
            packet(env, &p, obs)?;
            obs.nontrivial = true;
            frame_bytes(env, &encode(&p, &Form::default()).frame(), None, obs)
        }
        None => Ok(()),
    }
}
fn bad_case(env: &Env, c: &Bad, obs: &mut Obs) -> Result<(), String> {
    let Some(p) = &c.build() else {
        return Ok(());
    };
    if matches!(p, Pkt::Publish { payload, .. } if payload.len() > 1 << 20) {
        return Ok(());
    }
    packet(env, p, obs)?;
    if let Some((e, texts)) = env.codec.write_error(p) {
        obs.label("write refused");
        obs.nontrivial = true;
        error(&e, &texts)?;
    }
    Ok(())
}

pub fn def() -> PropertyDef {
    PropertyDef {
        id: "C30",
        rule: "Debug (plain and pretty) of generated, swept and decoded packets, also with characters of every length \
               at every position of long texts, and Debug and Display of the errors of damaged, incomplete and \
               oversized frames and of refused writes: no panic, no empty text, the same text for equal packets, and \
               the numbers of a size-limit or need-more error in its message. Non-trivial: packet with content, or \
               an error.",
        parts: vec![
            part("packets", 2500, |e| padded(raw(e)), padded_case),
            part(
                "frames",
                4000,
                |e| {
                    (
                        any_frame(raw(e)),
                        proptest::option::weighted(0.3, prop_oneof![0u32..200, any::<u32>()]),
                    )
                        .boxed()
                },
                frame_case,
            ),
            part("unencodable", 400, |e| bad(raw(e)), bad_case),
            enumerated("one step away", |_| near(), near_case),
            enumerated("every value", |_| items(ALL).filter(|s| s.full), sweep_case),
            enumerated(
                "character at every position",
                |_| super::c23::everywhere(false),
                deep_case,
            ),
            enumerated("bad byte at every position", |_| super::c23::everywhere(true), deep_case),
            enumerated("huge", huge_items, huge_case),
        ],
    }
}
