//! CONNECT flags, will and login always agree.
use super::*;
use crate::gen::*;
use crate::spec::*;
use crate::sweep::*;
use proptest::collection::vec;
use proptest::prelude::*;

fn write_case(env: &Env, p: &Pkt, obs: &mut Obs) -> Result<(), String> {
    let Pkt::Connect {
        clean_start,
        will,
        login,
        ..
    } = p
    else {
        return Ok(());
    };
    obs.nontrivial_if(will.is_some() || login.is_some());
    obs.label_if(will.is_some() && login.is_some(), "will and login");
    obs.label_if(will.is_some() && login.is_none(), "will only");
    obs.label_if(will.is_none() && login.is_some(), "login only");
    let mut flags = 0u8;
    if *clean_start {
        flags |= 2;
    }
    let mut will_flags = 0;
    if let Some(w) = will {
        will_flags = 4 | (w.qos << 3) | if w.retain { 0x20 } else { 0 };
    }
    let mut login_flags = 0;
    if let Some((u, q)) = login {
        if !u.is_empty() {
            login_flags |= 0x80;
        }
        if !q.is_empty() {
            login_flags |= 0x40;
        }
    }
    flags |= will_flags | login_flags;
    let out = write(env, p)?;
    let Framing::Frame { header, body } = framing(&out, None) else {
        return Err(format!("not a frame: {}", hex_short(&out)));
    };
    ensure!(
        header + body == out.len(),
        "frame length wrong: {}",
        hex_short(&out)
    );
    ensure!(
        out[header..].len() > 7 && out[header + 7] == flags,
        "connect flags {:#04x}, expected {flags:#04x}: {} for {}",
        out[header + 7],
        hex_short(&out),
        short(format!("{p:?}"))
    );
    match decode(out[0], &out[header..], env.codec.text()) {
        Verdict::Accept(q) => ensure!(q == p.canon(), "{}", differ("written", &q, &p.canon())),
        v => return Err(format!("written as {} ({v:?})", hex_short(&out))),
    }
    let got = read_ok(env, &out)?;
    ensure!(
        got == p.canon(),
        "{}",
        differ("read back", &got, &p.canon())
    );
    // the pieces on their own
    if let Some(w) = will {
        let mut b = BytesMut::new();
        let f = env
            .codec
            .will_write(w, &mut b)
            .map_err(|e| format!("will: {e:?}"))?;
        ensure!(
            f == will_flags,
            "the will {w:?} asks for flags {f:#04x}, expected {will_flags:#04x}"
        );
        let mut b = b.freeze();
        let back = env.codec.will_read(flags, &mut b);
        let mut want = w.clone();
        crate::model::canon_props(&mut want.props);
        if let Some(v) = &mut want.props {
            v.sort_by_key(|x| x.id);
        }
        ensure!(
            back == Ok(Some(want.clone())) && b.is_empty(),
            "will read back as {back:?}, {} bytes left; expected {want:?}",
            b.len()
        );
    }
    if let Some((u, q)) = login {
        let mut b = BytesMut::new();
        let f = env
            .codec
            .login_write(u, q, &mut b)
            .map_err(|e| format!("login: {e:?}"))?;
        ensure!(
            f == login_flags,
            "the login ({u:?}, {q:?}) asks for flags {f:#04x}, expected {login_flags:#04x}"
        );
        let mut b = b.freeze();
        let back = env.codec.login_read(flags, &mut b);
        let want = if login_flags == 0 {
            None
        } else {
            Some((u.clone(), q.clone()))
        };
        ensure!(
            back == Ok(want.clone()) && b.is_empty(),
            "login read back as {back:?}, {} bytes left; expected {want:?}",
            b.len()
        );
    }
    Ok(())
}

/// Sections given explicitly; all 256 flag bytes are applied to them.
#[derive(Clone, Debug, PartialEq, Eq, Hash, serde::Serialize, serde::Deserialize)]
pub struct Sections {
    pub keep_alive: u16,
    pub client_id: Bin,
    pub props: Vec<Prop>,
    pub will_props: Vec<Prop>,
    pub topic: Bin,
    pub message: Bin,
    pub user: Bin,
    pub pass: Bin,
    pub perm: Vec<u16>,
}
fn lp(o: &mut Vec<u8>, b: &Bin) {
    o.extend((b.len() as u16).to_be_bytes());
    o.extend_from_slice(&b.0);
}
fn block(o: &mut Vec<u8>, v: &[Prop], perm: &[u16]) {
    let e = encode_props(&order(v, perm));
    put_varint(o, e.len() as u64);
    o.extend(e);
}
fn read_case(env: &Env, c: &Sections, obs: &mut Obs) -> Result<(), String> {
    obs.nontrivial = true;
    for flags in 0u16..256 {
        let flags = flags as u8;
        if flags & 1 != 0 {
            // reserved
            continue;
        }
        let mut b = vec![0, 4, b'M', b'Q', b'T', b'T', 5, flags];
        b.extend(c.keep_alive.to_be_bytes());
        block(&mut b, &c.props, &c.perm);
        lp(&mut b, &c.client_id);
        if flags & 4 != 0 {
            block(&mut b, &c.will_props, &c.perm);
            lp(&mut b, &c.topic);
            lp(&mut b, &c.message);
        }
        if flags & 0x80 != 0 {
            lp(&mut b, &c.user);
        }
        if flags & 0x40 != 0 {
            lp(&mut b, &c.pass);
        }
        let f = frame(0x10, &b);
        let (got, left) = read_all(env, &f);
        let bad = (flags & 4 == 0 && flags & 0x38 != 0) || (flags & 4 != 0 && flags & 0x18 == 0x18);
        if bad {
            ensure!(
                got.is_err(),
                "flags {flags:#04x} accepted: {} from {}",
                short(format!("{got:?}")),
                hex_short(&f)
            );
            continue;
        }
        let sorted = |v: &[Prop]| -> Props {
            let mut v = v.to_vec();
            v.sort_by_key(|p| p.id);
            if v.is_empty() {
                None
            } else {
                Some(v)
            }
        };
        let user = if flags & 0x80 != 0 {
            c.user.clone()
        } else {
            Bin::default()
        };
        let pass = if flags & 0x40 != 0 {
            c.pass.clone()
        } else {
            Bin::default()
        };
        let want = Pkt::Connect {
            keep_alive: c.keep_alive,
            client_id: c.client_id.clone(),
            clean_start: flags & 2 != 0,
            props: sorted(&c.props),
            will: (flags & 4 != 0).then(|| Will {
                topic: c.topic.clone(),
                message: c.message.clone(),
                qos: (flags >> 3) & 3,
                retain: flags & 0x20 != 0,
                props: sorted(&c.will_props),
            }),
            login: if user.is_empty() && pass.is_empty() {
                None
            } else {
                Some((user, pass))
            },
        };
        match got {
            Ok(g) => ensure!(
                g == want && left.is_empty(),
                "flags {flags:#04x}: {}, {} bytes left ({})",
                differ("read", &g, &want),
                left.len(),
                hex_short(&f)
            ),
            Err(e) => {
                return Err(format!(
                    "flags {flags:#04x} refused ({e:?}): {}",
                    hex_short(&f)
                ))
            }
        }
    }
    Ok(())
}

fn sweep_case(env: &Env, c: &Sweep, obs: &mut Obs) -> Result<(), String> {
    write_case(env, &c.build(), obs)
}

pub fn def() -> PropertyDef {
    PropertyDef {
        id: "C18",
        rule: "CONNECT packets with every combination of will and login, each with its own properties, are written \
               (flag byte compared bit by bit, bytes judged by the independent decoder, read back, pieces also on \
               their own); and generated sections are laid out for every one of the 128 flag bytes without the \
               reserved bit and read. Non-trivial: a will or login is present (reading: always).",
        parts: vec![
            enumerated("every value", |_| items(&[1]), sweep_case),
            part(
                "write",
                9000,
                |e| {
                    (pkt_of(1, raw(e)), pad())
                        .prop_map(|(pkt, pad)| Padded { pkt, pad }.build().0)
                        .boxed()
                },
                write_case,
            ),
            part(
                "read",
                700,
                |e| {
                    let r = raw(e);
                    let cred = move || prop_oneof![1 => Just(Bin::default()), 3 => text(r)];
                    (
                        edge_u16(),
                        text(r),
                        prop_list(Section::Connect, r),
                        prop_list(Section::Will, r),
                        (data(), data()),
                        cred(),
                        cred(),
                        vec(any::<u16>(), 0..12),
                    )
                        .prop_map(
                            |(
                                keep_alive,
                                client_id,
                                props,
                                will_props,
                                (topic, message),
                                user,
                                pass,
                                perm,
                            )| Sections {
                                keep_alive,
                                client_id,
                                props,
                                will_props,
                                topic,
                                message,
                                user,
                                pass,
                                perm,
                            },
                        )
                        .boxed()
                },
                read_case,
            ),
        ],
    }
}
