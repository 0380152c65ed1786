//! The inbound size limit is enforced before the body arrives.
use super::*;
use crate::gen::*;
use crate::spec::*;
use proptest::prelude::*;

#[derive(Clone, Debug, PartialEq, Eq, Hash, serde::Serialize, serde::Deserialize)]
pub struct Limit {
    pub byte1: u8,
    pub declared: u32,
    pub max: Option<u64>,
    /// body bytes present
    pub present: u32,
    /// bytes of the header missing
    pub cut: u8,
}

fn judge(
    env: &Env,
    b: &[u8],
    declared: usize,
    max: Option<usize>,
    obs: &mut Obs,
) -> Result<(), String> {
    let mut s = BytesMut::from(b);
    let r = env.codec.read(&mut s, max);
    let ck = env.codec.check(b, max);
    let show = || format!("{} (limit {max:?})", hex_short(b));
    match max {
        Some(m) if declared > m => {
            obs.label("over the limit");
            if matches!(b[0] >> 4, 0 | 15) && r.is_err() && ck.is_err() {
                // no packet has this type: any error will do
                return Ok(());
            }
            let want = CErr::TooBig {
                pkt_size: declared,
                max: m,
            };
            ensure!(
                r.as_ref().err() == Some(&want),
                "read of a packet of {declared} bytes gives {} instead of the size-limit error: {}",
                short(format!("{r:?}")),
                show()
            );
            ensure!(
                ck.as_ref().err() == Some(&want),
                "check of a packet of {declared} bytes gives {ck:?} instead of the size-limit error: {}",
                show()
            );
            ensure!(
                s[..] == *b,
                "the refused packet was (partly) consumed: {}",
                show()
            );
        }
        _ => {
            obs.label(if max.is_some() {
                "within the limit"
            } else {
                "no limit"
            });
            for (who, e) in [("read", r.err()), ("check", ck.err())] {
                ensure!(
                    !matches!(e, Some(CErr::TooBig { .. })),
                    "{who} refuses a packet of {declared} bytes for its size: {e:?} {}",
                    show()
                );
            }
        }
    }
    Ok(())
}

fn case(env: &Env, c: &Limit, obs: &mut Obs) -> Result<(), String> {
    let mut b = vec![c.byte1];
    put_varint(&mut b, u64::from(c.declared));
    let header = b.len();
    let max = c.max.map(|m| m as usize);
    if c.cut > 0 {
        b.truncate(header - (c.cut as usize).min(header));
        // header not readable: never the size-limit error
        let r = env.codec.read(&mut BytesMut::from(&b[..]), max);
        ensure!(
            matches!(r, Err(CErr::Need(_))) || matches!(c.byte1 >> 4, 0 | 15),
            "unreadable header gives {r:?}: {}",
            hex_short(&b)
        );
        return Ok(());
    }
    b.resize(header + c.present.min(c.declared) as usize, 0);
    let d = i64::from(c.declared) - c.max.map_or(0, |m| m.min(1 << 40) as i64);
    obs.nontrivial_if(d.abs() <= 2 || c.present < c.declared);
    obs.label_if(c.max.is_some() && d == 0, "exactly at the limit");
    obs.label_if(c.max.is_some() && d == 1, "one over the limit");
    judge(env, &b, c.declared as usize, max, obs)
}

/// Real packets under limits around their own size.
#[derive(Clone, Debug, PartialEq, Eq, Hash, serde::Serialize, serde::Deserialize)]
pub struct Real {
    pub wire: Wire,
    pub delta: i8,
    pub cut: u32,
}
fn real_case(env: &Env, c: &Real, obs: &mut Obs) -> Result<(), String> {
    let e = c.wire.enc();
    let f = e.frame();
    let len = e.body.len();
    let header = f.len() - len;
    let max = (len as i64 + i64::from(c.delta)).max(0) as usize;
    obs.nontrivial_if((-2..=2).contains(&c.delta));
    obs.label(c.wire.pkt.type_name());
    // any amount of the body
    let n = header + c.cut as usize % (len + 1);
    judge(env, &f[..n], len, Some(max), obs)?;
    judge(env, &f, len, Some(max), obs)?;
    judge(env, &f, len, None, obs)?;
    // within the limit the limit makes no difference
    if len <= max {
        let mut a = BytesMut::from(&f[..]);
        let mut b = BytesMut::from(&f[..]);
        let ra = env.codec.read(&mut a, None);
        let rb = env.codec.read(&mut b, Some(max));
        ensure!(
            ra == rb && a == b,
            "a sufficient limit of {max} changes the outcome from {} to {}",
            short(format!("{ra:?}")),
            short(format!("{rb:?}"))
        );
    }
    Ok(())
}

pub fn def() -> PropertyDef {
    PropertyDef {
        id: "C12",
        rule: "Headers declaring any length, with any part of the body present and limits around the declared length \
               (0, equal, one less/more, maximal), and real packets under limits around their size: over the limit \
               both read and check give the size-limit error with both numbers and nothing is consumed; otherwise \
               never. Non-trivial: limit within 2 of the length or body incomplete.",
        parts: vec![
            part(
                "headers",
                14_000,
                |_| {
                    (any::<u8>(), var())
                        .prop_flat_map(|(byte1, declared)| {
                            let d = u64::from(declared);
                            let max = prop_oneof![
                                1 => Just(None),
                                5 => (0u64..7).prop_map(move |k| Some((d + k).saturating_sub(3))),
                                1 => Just(Some(0u64)),
                                1 => Just(Some(u64::MAX)),
                                1 => Just(Some(u64::from(VARINT_MAX))),
                                2 => any::<u32>().prop_map(|v| Some(u64::from(v))),
                                1 => Just(Some(1 << 32)),
                            ];
                            let present = if declared <= 20_000 {
                                prop_oneof![2 => 0u32..4, 1 => 0..=declared, 1 => Just(declared)].boxed()
                            } else {
                                prop_oneof![3 => 0u32..10, 1 => 0u32..5000].boxed()
                            };
                            (
                                Just(byte1),
                                Just(declared),
                                max,
                                present,
                                prop_oneof![8 => Just(0u8), 1 => 1u8..4],
                            )
                        })
                        .prop_map(|(byte1, declared, max, present, cut)| Limit {
                            byte1,
                            declared,
                            max,
                            present,
                            cut,
                        })
                        .boxed()
                },
                case,
            ),
            part(
                "packets",
                7000,
                |e| {
                    (
                        small_wire(raw(e)),
                        prop_oneof![3 => -3i8..4, 1 => any::<i8>()],
                        any::<u32>(),
                    )
                        .prop_map(|(wire, delta, cut)| Real { wire, delta, cut })
                        .boxed()
                },
                real_case,
            ),
        ],
    }
}
