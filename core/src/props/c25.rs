//! `==` tells packets apart exactly by their fields, and a clone is the same packet.
use super::*;
use crate::gen::*;
use crate::huge::*;
use crate::sweep::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// What is done to the second packet.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Edit {
    Nothing,
    /// take the donor's value of one field (by number)
    Take(u8),
    /// change one field a little: bit, last byte, one element
    Tweak(u8, u8),
    /// another order of the same properties (only user properties and subscription identifiers
    /// have an order of their own)
    Reorder(u8),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Pair {
    pub base: Pkt,
    pub donor: Pkt,
    pub edits: Vec<Edit>,
}

fn tweak_bin(b: &mut Bin, how: u8) {
    match how % 4 {
        0 => b.0.push(b'x'),
        1 if b.0.last().is_some_and(|c| c.is_ascii()) => {
            b.0.pop();
        }
        n => {
            // one ASCII character, from the front or from the back
            let at = if n == 2 {
                b.0.iter().position(u8::is_ascii)
            } else {
                b.0.iter().rposition(u8::is_ascii)
            };
            match at {
                Some(i) => b.0[i] = if b.0[i] == b'y' { b'z' } else { b'y' },
                None => b.0.push(b'x'),
            }
        }
    }
}
fn tweak_props(p: &mut Props, how: u8) {
    let k = usize::from(how >> 2);
    match p {
        None => *p = Some(vec![]),
        Some(v) if v.is_empty() => *p = None,
        Some(v) => {
            let i = k % v.len();
            if how % 4 == 0 {
                v.remove(i);
                return;
            }
            match &mut v[i].val {
                Val::Byte(x) => *x ^= 1 << (k % 8),
                Val::U16(x) => *x ^= 1 << (k % 16),
                Val::U32(x) => *x ^= 1 << (k % 32),
                Val::Var(x) => *x = if *x > 1 { *x - 1 } else { *x + 1 },
                Val::Str(b) | Val::Bin(b) => tweak_bin(b, how),
                Val::Pair(a, b) => tweak_bin(if k % 2 == 0 { a } else { b }, how),
            }
        }
    }
}
fn tweak_code(t: u8, c: &mut u8, how: u8) {
    let l = crate::spec::codes(t);
    let i = l.iter().position(|x| x == c).unwrap_or(0);
    *c = l[(i + 1 + usize::from(how)) % l.len()];
}
fn tweak_list<T: Clone>(v: &mut Vec<T>, how: u8, f: impl FnOnce(&mut T, u8)) {
    let i = usize::from(how >> 3) % v.len().max(1);
    match how % 4 {
        0 if !v.is_empty() => {
            v.push(v[i].clone());
        }
        1 if v.len() > 1 => {
            v.remove(i);
        }
        2 if v.len() > 1 => v.swap(0, i),
        _ if !v.is_empty() => f(&mut v[i], how >> 2),
        _ => {}
    }
}
fn tweak_u16(x: &mut u16, how: u8) {
    *x ^= 1 << (how % 16);
}
fn tweak_qos(q: &mut u8, how: u8) {
    *q = (*q + 1 + how % 2) % 3;
}

pub fn apply(p: &mut Pkt, donor: &Pkt, e: Edit) {
    let (field, how) = match e {
        Edit::Nothing => return,
        Edit::Take(f) => (f, None),
        Edit::Tweak(f, h) => (f, Some(h)),
        Edit::Reorder(k) => {
            if let Some(Some(v)) = p.props_mut() {
                if !v.is_empty() {
                    let n = v.len();
                    v.rotate_left(usize::from(k) % n);
                }
            }
            return;
        }
    };
    macro_rules! one {
        ($x:expr, $y:expr, $f:expr) => {
            match how {
                None => *$x = $y.clone(),
                Some(h) => $f($x, h),
            }
        };
    }
    let flip = |b: &mut bool, _: u8| *b = !*b;
    match (p, donor) {
        (
            Pkt::Connect {
                keep_alive,
                client_id,
                clean_start,
                props,
                will,
                login,
            },
            Pkt::Connect {
                keep_alive: k2,
                client_id: c2,
                clean_start: s2,
                props: p2,
                will: w2,
                login: l2,
            },
        ) => match field % 9 {
            0 => one!(keep_alive, k2, tweak_u16),
            1 => one!(client_id, c2, tweak_bin),
            2 => one!(clean_start, s2, flip),
            3 | 4 => one!(props, p2, tweak_props),
            5 | 6 => one!(will, w2, |w: &mut Option<Will>, h: u8| {
                if h % 11 == 10 {
                    *w = None;
                }
                if let Some(w) = w {
                    match h % 5 {
                        0 => tweak_bin(&mut w.topic, h / 5),
                        1 => tweak_bin(&mut w.message, h / 5),
                        2 => tweak_qos(&mut w.qos, h / 5),
                        3 => w.retain = !w.retain,
                        _ => tweak_props(&mut w.props, h / 5),
                    }
                }
            }),
            _ => one!(login, l2, |l: &mut Option<(Bin, Bin)>, h: u8| {
                if h % 11 == 10 {
                    *l = None;
                }
                if let Some((u, q)) = l {
                    tweak_bin(if h % 2 == 0 { u } else { q }, h / 2);
                }
            }),
        },
        (
            Pkt::ConnAck {
                session_present,
                code,
                props,
            },
            Pkt::ConnAck {
                session_present: s2,
                code: c2,
                props: p2,
            },
        ) => match field % 4 {
            0 => one!(session_present, s2, flip),
            1 => one!(code, c2, |c: &mut u8, h| tweak_code(2, c, h)),
            _ => one!(props, p2, tweak_props),
        },
        (
            Pkt::Publish {
                dup,
                qos,
                retain,
                topic,
                pkid,
                payload,
                props,
            },
            Pkt::Publish {
                dup: d2,
                qos: q2,
                retain: r2,
                topic: t2,
                pkid: i2,
                payload: y2,
                props: p2,
            },
        ) => match field % 8 {
            0 => one!(dup, d2, flip),
            1 => one!(qos, q2, tweak_qos),
            2 => one!(retain, r2, flip),
            3 => one!(topic, t2, tweak_bin),
            4 => one!(pkid, i2, tweak_u16),
            5 => one!(payload, y2, tweak_bin),
            _ => one!(props, p2, tweak_props),
        },
        (
            Pkt::Ack {
                t,
                pkid,
                reason,
                props,
            },
            Pkt::Ack {
                t: t2,
                pkid: i2,
                reason: r2,
                props: p2,
            },
        ) if t == t2 => match field % 4 {
            0 => one!(pkid, i2, tweak_u16),
            1 => {
                let t = *t;
                one!(reason, r2, |c: &mut u8, h| tweak_code(t, c, h))
            }
            _ => one!(props, p2, tweak_props),
        },
        (
            Pkt::Subscribe {
                pkid,
                filters,
                props,
            },
            Pkt::Subscribe {
                pkid: i2,
                filters: f2,
                props: p2,
            },
        ) => match field % 5 {
            0 => one!(pkid, i2, tweak_u16),
            1 | 2 => one!(filters, f2, |v: &mut Vec<Filt>, h: u8| tweak_list(
                v,
                h,
                |f, h| match h % 5 {
                    0 => tweak_bin(&mut f.path, h / 5),
                    1 => tweak_qos(&mut f.qos, h / 5),
                    2 => f.nolocal = !f.nolocal,
                    3 => f.rap = !f.rap,
                    _ => tweak_qos(&mut f.rh, h / 5),
                }
            )),
            _ => one!(props, p2, tweak_props),
        },
        (
            Pkt::SubAck { pkid, codes, props },
            Pkt::SubAck {
                pkid: i2,
                codes: c2,
                props: p2,
            },
        ) => match field % 4 {
            0 => one!(pkid, i2, tweak_u16),
            1 => one!(codes, c2, |v: &mut Vec<u8>, h: u8| tweak_list(
                v,
                h,
                |c, h| tweak_code(9, c, h)
            )),
            _ => one!(props, p2, tweak_props),
        },
        (
            Pkt::UnsubAck { pkid, codes, props },
            Pkt::UnsubAck {
                pkid: i2,
                codes: c2,
                props: p2,
            },
        ) => match field % 4 {
            0 => one!(pkid, i2, tweak_u16),
            1 => one!(codes, c2, |v: &mut Vec<u8>, h: u8| tweak_list(
                v,
                h,
                |c, h| tweak_code(11, c, h)
            )),
            _ => one!(props, p2, tweak_props),
        },
        (
            Pkt::Unsubscribe {
                pkid,
                filters,
                props,
            },
            Pkt::Unsubscribe {
                pkid: i2,
                filters: f2,
                props: p2,
            },
        ) => match field % 4 {
            0 => one!(pkid, i2, tweak_u16),
            1 => one!(filters, f2, |v: &mut Vec<Bin>, h: u8| tweak_list(
                v, h, tweak_bin
            )),
            _ => one!(props, p2, tweak_props),
        },
        (
            Pkt::Disconnect { reason, props },
            Pkt::Disconnect {
                reason: r2,
                props: p2,
            },
        ) => match field % 3 {
            0 => one!(reason, r2, |c: &mut u8, h| tweak_code(14, c, h)),
            _ => one!(props, p2, tweak_props),
        },
        // another type altogether
        (p, d) => *p = d.clone(),
    }
}

fn compare(env: &Env, a: &Pkt, b: &Pkt, obs: &mut Obs) -> Result<(), String> {
    let want = a.sorted() == b.sorted();
    obs.label(if want { "equal" } else { "different" });
    let got = env.codec.same(a, b);
    ensure!(
        got == want,
        "== gives {got} for {} and {}",
        short(format!("{a:?}")),
        short(format!("{b:?}"))
    );
    ensure!(
        env.codec.same(b, a) == want,
        "== is not symmetric for {} and {}",
        short(format!("{a:?}")),
        short(format!("{b:?}"))
    );
    Ok(())
}

fn cloned(env: &Env, p: &Pkt) -> Result<(), String> {
    let (q, same) = env.codec.clone_of(p);
    ensure!(q == p.sorted(), "{}", differ("clone", &q, &p.sorted()));
    ensure!(same, "a clone differs from {}", short(format!("{p:?}")));
    Ok(())
}

fn pair_case(env: &Env, c: &Pair, obs: &mut Obs) -> Result<(), String> {
    obs.label(c.base.type_name());
    let mut b = c.base.clone();
    for e in &c.edits {
        apply(&mut b, &c.donor, *e);
    }
    obs.nontrivial_if(b != c.base && b.type_nibble() == c.base.type_nibble());
    compare(env, &c.base, &b, obs)?;
    cloned(env, &b)
}

/// A decoded packet against the same packet built field by field, and against an edited one.
fn decoded_case(env: &Env, c: &Pair, obs: &mut Obs) -> Result<(), String> {
    obs.label(c.base.type_name());
    let mut b = c.base.canon();
    for e in &c.edits {
        apply(&mut b, &c.donor, *e);
    }
    let a = c.base.canon();
    let want = a.sorted() == b.sorted();
    obs.label(if want { "equal" } else { "different" });
    obs.nontrivial_if(c.base.rich());
    let bytes = encode(&c.base, &Form::default()).frame();
    let mut s = BytesMut::from(&bytes[..]);
    let held = match env.codec.read_held(&mut s, None) {
        Ok(h) => h,
        Err(e) => return Err(format!("read failed: {e:?} on {}", hex_short(&bytes))),
    };
    let got = env.codec.held_same(&*held, &b);
    ensure!(
        got == want,
        "decoded == built gives {got} for {} and {}",
        short(format!("{a:?}")),
        short(format!("{b:?}"))
    );
    Ok(())
}

/// Each field value against the template's and against the next value of the sweep.
fn sweep_case(env: &Env, c: &Sweep, obs: &mut Obs) -> Result<(), String> {
    let p = c.build();
    obs.nontrivial_if(p != template(c.t, c.full));
    compare(env, &p, &template(c.t, c.full), obs)?;
    compare(env, &p, &p, obs)?;
    cloned(env, &p)
}

fn edit() -> BS<Edit> {
    prop_oneof![
        1 => Just(Edit::Nothing),
        3 => any::<u8>().prop_map(Edit::Take),
        6 => (any::<u8>(), any::<u8>()).prop_map(|(f, h)| Edit::Tweak(f, h)),
        1 => any::<u8>().prop_map(Edit::Reorder),
    ]
    .boxed()
}

fn pairs(raw: bool) -> BS<Pair> {
    let same: Vec<(u32, BS<(Pkt, Pkt)>)> = (1u8..=14)
        .map(|t| {
            let w = if t == 12 || t == 13 { 1 } else { 6 };
            (w, (pkt_of(t, raw), pkt_of(t, raw)).boxed())
        })
        .collect();
    let packets = prop_oneof![
        12 => proptest::strategy::Union::new_weighted(same),
        1 => (tiny_pkt(raw), tiny_pkt(raw)),
    ];
    (packets, proptest::collection::vec(edit(), 1..3))
        .prop_map(|((base, donor), edits)| Pair { base, donor, edits })
        .boxed()
}

fn huge_case(env: &Env, c: &Huge, obs: &mut Obs) -> Result<(), String> {
    obs.nontrivial = true;
    let p = c.build();
    cloned(env, &p)?;
    // one element more, and the last one changed
    let q = Huge {
        what: c.what,
        n: c.n + 1,
    }
    .build();
    compare(env, &p, &q, obs)?;
    for at in [c.n - 1, c.n / 2] {
        let mut q = p.clone();
        c.change(&mut q, at);
        compare(env, &p, &q, obs)?;
    }
    Ok(())
}

pub fn def() -> PropertyDef {
    PropertyDef {
        id: "C25",
        rule: "Pairs of packets differing in nothing, in one or two fields or in one bit of one field, and every \
               swept field value against its neighbourless template: == must agree with equality of the neutral \
               field-by-field model, be symmetric, and hold for clones. Non-trivial: same type and different, or \
               a decoded packet with more than the minimal fields.",
        parts: vec![
            part("pairs", 8_000, |e| pairs(raw(e)), pair_case),
            part("decoded", 4_000, |e| pairs(raw(e)), decoded_case),
            enumerated("huge", huge(ALL), huge_case),
            enumerated("every value", |_| items(ALL), sweep_case),
        ],
    }
}
