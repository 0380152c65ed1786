//! Text fields are UTF-8, binary fields are not interpreted.
use super::*;
use crate::gen::*;
use proptest::collection::vec;
use proptest::prelude::*;

fn judge(env: &Env, p: &Pkt, form: &Form, obs: &mut Obs) -> Result<(), String> {
    let mut q = p.clone();
    let mut bad_text = false;
    for (b, k) in fields(&mut q) {
        let valid = b.is_text();
        match k {
            Field::Text if !valid => {
                bad_text = true;
                obs.label("text field not UTF-8");
                obs.nontrivial = true;
            }
            Field::Text if !b.0.is_ascii() => {
                obs.label("non-ASCII text field");
                obs.nontrivial = true;
            }
            Field::Data | Field::Payload if !valid => {
                obs.label("binary field not UTF-8");
                obs.nontrivial = true;
            }
            _ => {}
        }
    }
    let f = encode(p, form).frame();
    let (got, left) = read_all(env, &f);
    if bad_text && env.codec.text() {
        ensure!(
            got.is_err(),
            "text that is not UTF-8 accepted: {} -> {}",
            hex_short(&f),
            short(format!("{got:?}"))
        );
        return Ok(());
    }
    match got {
        Ok(g) => ensure!(
            g == p.canon() && left.is_empty(),
            "{} ({})",
            differ("decoded", &g, &p.canon()),
            hex_short(&f)
        ),
        Err(e) => {
            return Err(format!(
                "refused ({e:?}): {} ({})",
                hex_short(&f),
                short(format!("{p:?}"))
            ))
        }
    }
    // and back: nothing is interpreted on writing either
    let out = write(env, p)?;
    let back = read_ok(env, &out)?;
    ensure!(
        back == p.canon(),
        "{} ({})",
        differ("written and read back", &back, &p.canon()),
        hex_short(&out)
    );
    Ok(())
}

/// One field of a packet replaced by a byte string.
#[derive(Clone, Debug, PartialEq, Eq, Hash, serde::Serialize, serde::Deserialize)]
pub struct OneField {
    pub wire: Wire,
    pub which: u16,
    pub bytes: Bin,
}
fn one_case(env: &Env, c: &OneField, obs: &mut Obs) -> Result<(), String> {
    let mut p = c.wire.pkt.clone();
    {
        let mut f = fields(&mut p);
        if f.is_empty() {
            return Ok(());
        }
        let n = f.len();
        *f[c.which as usize % n].0 = c.bytes.clone();
    }
    judge(env, &p, &c.wire.form, obs)
}
fn wild_case(env: &Env, c: &Wire, obs: &mut Obs) -> Result<(), String> {
    judge(env, &c.pkt, &c.form, obs)
}

/// Every byte sequence class in every field of one rich packet per type.
fn table() -> impl Iterator<Item = OneField> {
    let probes: Vec<Vec<u8>> = {
        let mut v: Vec<Vec<u8>> = (0u16..256).map(|b| vec![b as u8]).collect();
        // valid and invalid boundaries of 2-, 3- and 4-byte sequences
        for a in [0xc0u8, 0xc1, 0xc2, 0xdf] {
            for b in [0x7fu8, 0x80, 0xbf, 0xc0] {
                v.push(vec![a, b]);
            }
        }
        for a in [0xe0u8, 0xe1, 0xec, 0xed, 0xee, 0xef] {
            for b in [0x7fu8, 0x80, 0x9f, 0xa0, 0xbf, 0xc0] {
                v.push(vec![a, b, 0x80]);
                v.push(vec![a, b, 0xc0]);
            }
            v.push(vec![a, 0xa0]);
        }
        for a in [0xf0u8, 0xf1, 0xf3, 0xf4, 0xf5, 0xf8, 0xff] {
            for b in [0x80u8, 0x8f, 0x90, 0xbf] {
                v.push(vec![a, b, 0x80, 0x80]);
            }
            v.push(vec![a, 0x90, 0x80]);
        }
        v.push(vec![b'o', b'k', 0xff]);
        v.push([&[b'x'; 130][..], &[0xc3]].concat());
        v
    };
    super::c05::rich_packets().into_iter().flat_map(move |pkt| {
        let n = fields(&mut pkt.clone()).len() as u16;
        let probes = probes.clone();
        (0..n).flat_map(move |which| {
            let pkt = pkt.clone();
            probes.clone().into_iter().map(move |b| OneField {
                wire: Wire {
                    pkt: pkt.clone(),
                    form: Form::default(),
                },
                which,
                bytes: Bin(b),
            })
        })
    })
}

/// A long field with something in it that is not ASCII.
#[derive(Clone, Debug, PartialEq, Eq, Hash, serde::Serialize, serde::Deserialize)]
pub struct Deep {
    pub pkt: Pkt,
    pub which: u16,
    pub len: u16,
    pub at: u16,
    pub insert: Bin,
}
impl Deep {
    pub fn pkt(&self) -> Option<Pkt> {
        let mut p = self.pkt.clone();
        let mut f = fields(&mut p);
        let n = f.len();
        if n == 0 {
            return None;
        }
        let len = usize::from(self.len).max(self.insert.len());
        let at = usize::from(self.at) % (len - self.insert.len() + 1);
        let mut b: Vec<u8> = (0..len).map(|i| b'a' + (i % 23) as u8).collect();
        b[at..at + self.insert.len()].copy_from_slice(&self.insert.0);
        f[usize::from(self.which) % n].0 .0 = b;
        Some(p)
    }
}
fn deep_case(env: &Env, c: &Deep, obs: &mut Obs) -> Result<(), String> {
    match c.pkt() {
        Some(p) => judge(env, &p, &Form::default(), obs),
        None => Ok(()),
    }
}
pub fn deep(raw: bool) -> BS<Deep> {
    (
        tiny_pkt(raw),
        any::<u16>(),
        prop_oneof![3 => log_len(65_535), 1 => 0usize..3000],
        any::<u16>(),
        prop_oneof![
            1 => bad_utf8(),
            1 => any::<char>().prop_map(|c| c.to_string().into_bytes()),
        ],
    )
        .prop_map(|(pkt, which, len, at, b)| Deep {
            pkt,
            which,
            len: len as u16,
            at,
            insert: Bin(b),
        })
        .boxed()
}
/// One odd byte or character at every position of a text of 2,100 bytes, in every text field.
pub fn everywhere(bad: bool) -> impl Iterator<Item = Deep> {
    let inserts: Vec<Vec<u8>> = if bad {
        vec![vec![0xff], vec![0xc3]]
    } else {
        vec!["\u{e9}".into(), "\u{1f600}".into()]
    };
    let step = |k: usize| if k < 2 { 1 } else { 16 + k };
    super::c05::rich_packets()
        .into_iter()
        .flat_map(move |pkt| {
            let mut q = pkt.clone();
            let texts: Vec<u16> = fields(&mut q)
                .iter()
                .enumerate()
                .filter(|(_, (_, k))| *k == Field::Text)
                .map(|(i, _)| i as u16)
                .collect();
            texts.into_iter().map(move |i| (pkt.clone(), i))
        })
        .enumerate()
        .flat_map(move |(k, (pkt, which))| {
            let inserts = inserts.clone();
            (0u16..2095).step_by(step(k)).flat_map(move |at| {
                let pkt = pkt.clone();
                inserts.clone().into_iter().map(move |b| Deep {
                    pkt: pkt.clone(),
                    which,
                    len: 2100,
                    at,
                    insert: Bin(b),
                })
            })
        })
}

pub fn def() -> PropertyDef {
    PropertyDef {
        id: "C23",
        rule: "Every text and binary field of every packet type is set to arbitrary byte strings (all single bytes and \
               the boundaries of multi-byte UTF-8 sequences exhaustively; random and mixed ones by generation); \
               validity is judged by the standard library. Text configurations must refuse exactly the packets with \
               invalid text and return all else unchanged; the binary one must return everything unchanged. \
               Non-trivial: a field with non-ASCII text or bytes that are not UTF-8.",
        parts: vec![
            enumerated("every field", |_| table(), one_case),
            part(
                "one field",
                8000,
                |_| {
                    (
                        small_wire(false),
                        any::<u16>(),
                        prop_oneof![
                            3 => bad_utf8(),
                            1 => vec(any::<u8>(), 0..8),
                            1 => (vec(any::<char>(), 1..5), bad_utf8()).prop_map(|(c, b)| {
                                let mut v = c.into_iter().collect::<String>().into_bytes();
                                v.extend(b);
                                v
                            }),
                            1 => vec(any::<char>(), 1..5).prop_map(|c| c.into_iter().collect::<String>().into_bytes()),
                        ]
                        .prop_map(Bin),
                    )
                        .prop_map(|(wire, which, bytes)| OneField { wire, which, bytes })
                        .boxed()
                },
                one_case,
            ),
            part("long fields", 2500, |_| deep(false), deep_case),
            enumerated("bad byte at every position", |_| everywhere(true), deep_case),
            enumerated("character at every position", |_| everywhere(false), deep_case),
            part("many fields", 4000, |_| small_wire(true), wild_case),
        ],
    }
}
