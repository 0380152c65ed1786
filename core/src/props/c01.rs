//! Write then read returns the same packet.
use super::*;
use crate::gen::*;
use crate::huge::*;
use crate::sweep::*;
use proptest::prelude::*;

pub fn check(env: &Env, p: &Pkt, obs: &mut Obs) -> Result<(), String> {
    obs.label(p.type_name());
    obs.nontrivial_if(p.rich());
    let canon = p.canon();
    let bytes = write(env, p)?;
    obs.label_if(bytes.len() > 129, "remaining length >= 128");
    obs.label_if(bytes.len() > 16_386, "remaining length >= 16384");
    let got = read_ok(env, &bytes)?;
    ensure!(
        got == canon,
        "{} from {}",
        differ("read back", &got, &canon),
        hex_short(&bytes)
    );
    match env.codec.native_eq(p, &canon) {
        Ok((eq, left)) => {
            ensure!(left == 0, "{left} bytes left over");
            ensure!(eq, "the crate's == says the packet read back differs");
        }
        Err(e) => return Err(format!("native round trip failed: {e:?}")),
    }
    Ok(())
}

fn padded_case(env: &Env, c: &Padded, obs: &mut Obs) -> Result<(), String> {
    let (p, hit) = c.build();
    obs.label_if(c.pad != Pad::No && hit, "padded to a length boundary");
    check(env, &p, obs)
}

fn sweep_case(env: &Env, c: &Sweep, obs: &mut Obs) -> Result<(), String> {
    check(env, &c.build(), obs)
}

fn huge_case(env: &Env, c: &Huge, obs: &mut Obs) -> Result<(), String> {
    check(env, &c.build(), obs)
}

pub fn def() -> PropertyDef {
    PropertyDef {
        id: "C01",
        rule: "Packets of all 14 types from structured generators (all properties, boundary numbers, \
               text/binary edge strings, padded to variable-length-integer class boundaries) are written, \
               read back and compared in the neutral model and with the crate's ==. Non-trivial: the packet \
               carries a property, will, login, more than one list item or a non-zero reason.",
        parts: vec![
            part("packets", 9000, |e| padded(raw(e)), padded_case),
            part(
                "boundaries",
                1200,
                |e| (pkt(raw(e)), pad_always()).prop_map(|(pkt, pad)| Padded { pkt, pad }).boxed(),
                padded_case,
            ),
            enumerated("huge", huge(ALL), huge_case),
            enumerated("every value", |_| items(ALL), sweep_case),
        ],
    }
}
