//! Each property is accepted exactly in the packets it belongs to.
use super::*;
use crate::gen::*;
use crate::spec::*;
use bytes::Bytes;
use proptest::prelude::*;

#[derive(Clone, Debug, PartialEq, Eq, Hash, serde::Serialize, serde::Deserialize)]
pub struct Place {
    pub sec: u8,
    pub id: u8,
    /// encoding used for the value
    pub as_type: PType,
    pub v: u8,
    /// 0 alone, 1 after, 2 before, 3 between other properties
    pub pos: u8,
}

fn value(t: PType, v: u8) -> Val {
    match t {
        PType::Byte => Val::Byte([0, 1, 2, 0xff][v as usize % 4]),
        PType::U16 => Val::U16([0, 1, 0x0102, 0xffff][v as usize % 4]),
        PType::U32 => Val::U32([0, 1, 0x0102_0304, 0xffff_ffff][v as usize % 4]),
        PType::Var => Val::Var([1, 127, 128, 268_435_455][v as usize % 4]),
        PType::Str => Val::Str(Bin::s(
            ["", "s", "\u{e9}t\u{e9}", "longer string value"][v as usize % 4],
        )),
        PType::Bin => Val::Bin(Bin([vec![], vec![0], vec![0xff, 0xfe], vec![7; 40]]
            [v as usize % 4]
            .clone())),
        PType::Pair => Val::Pair(
            Bin::s(["", "k", "kk", "\u{4e2d}"][v as usize % 4]),
            Bin::s(["", "v", "vv", "value"][v as usize % 4]),
        ),
    }
}

const TYPES: [PType; 7] = [
    PType::Byte,
    PType::U16,
    PType::U32,
    PType::Var,
    PType::Str,
    PType::Bin,
    PType::Pair,
];

fn table() -> impl Iterator<Item = Place> {
    (0u8..13).flat_map(|sec| {
        (0u16..256).flat_map(move |id| {
            let id = id as u8;
            let own = ptype(id);
            TYPES
                .into_iter()
                .filter(move |t| own.is_none() || own == Some(*t))
                .flat_map(move |as_type| {
                    (0u8..4).flat_map(move |v| {
                        (0u8..4).map(move |pos| Place {
                            sec,
                            id,
                            as_type,
                            v,
                            pos,
                        })
                    })
                })
        })
    })
}

fn case(env: &Env, c: &Place, obs: &mut Obs) -> Result<(), String> {
    obs.nontrivial = true;
    let sec = SECTIONS[c.sec as usize];
    let prop = Prop {
        id: c.id,
        val: value(c.as_type, c.v),
    };
    let user = |s: &str| Prop {
        id: USER,
        val: Val::Pair(Bin::s(s), Bin::s("x")),
    };
    let mut list = vec![prop];
    if c.pos & 1 != 0 {
        list.insert(0, user("first"));
    }
    if c.pos & 2 != 0 {
        list.push(user("last"));
    }
    judge(env, sec, &list, c.id, obs)
}

fn judge(env: &Env, sec: Section, list: &[Prop], id: u8, obs: &mut Obs) -> Result<(), String> {
    let ok = allowed(sec).contains(&id);
    obs.label(if ok { "belongs" } else { "does not belong" });
    // in this order on the wire: encode the carrier with keys 0,1,2,..
    let perm: Vec<u16> = (0..list.len() as u16).collect();
    let p = super::c21::carrier(sec, list);
    let e = encode(&p, &Form { perm, short: 0 });
    let f = e.frame();
    let (got, left) = read_all(env, &f);
    match (&got, ok) {
        (Ok(g), true) => ensure!(
            *g == p.canon() && left.is_empty(),
            "property {id:#04x} in {sec:?}: {} ({})",
            differ("decoded", g, &p.canon()),
            hex_short(&f)
        ),
        (Err(e), true) => {
            return Err(format!(
                "property {id:#04x} belongs in {sec:?} but is refused ({e:?}): {}",
                hex_short(&f)
            ))
        }
        (Ok(g), false) => {
            return Err(format!(
                "property {id:#04x} does not belong in {sec:?} but is accepted: {} -> {}",
                hex_short(&f),
                short(format!("{g:?}"))
            ))
        }
        (Err(_), false) => {}
    }
    // the stand-alone reader of the section
    let block = encode_props(list);
    let mut b = Vec::new();
    put_varint(&mut b, block.len() as u64);
    b.extend(block);
    let alone = env.codec.section_read(sec, &mut Bytes::from(b));
    ensure!(
        alone.is_ok() == ok,
        "property {id:#04x} in {sec:?} on its own: {alone:?}"
    );
    Ok(())
}

/// A generated set of the section's own properties with one more property inserted.
#[derive(Clone, Debug, PartialEq, Eq, Hash, serde::Serialize, serde::Deserialize)]
pub struct Insert {
    pub sec: u8,
    pub list: Vec<Prop>,
    pub at: u8,
    pub extra: Prop,
}
fn insert_case(env: &Env, c: &Insert, obs: &mut Obs) -> Result<(), String> {
    let sec = SECTIONS[c.sec as usize];
    let mut list = c.list.clone();
    if !repeatable(sec, c.extra.id) {
        list.retain(|p| p.id != c.extra.id);
    }
    let i = c.at as usize % (list.len() + 1);
    list.insert(i, c.extra.clone());
    obs.nontrivial_if(list.len() >= 2);
    // properties with the same identifier keep their relative order; the reference encoder and
    // the model agree on that, so the insertion point of a repeatable one is part of the value
    judge(env, sec, &list, c.extra.id, obs)
}

pub fn def() -> PropertyDef {
    PropertyDef {
        id: "C24",
        rule: "Exhaustive: 256 identifiers x 13 sections x value encodings (the property's own type; all 7 for unknown \
               identifiers) x 4 values x 4 positions in the block, through the packet reader and the section reader, \
               against table 2-4 of the specification; plus generated sets with one more property of any identifier \
               inserted anywhere. Exhaustive part: all non-trivial; generated: at least two properties.",
        parts: vec![
            enumerated("table", |_| table(), case),
            part(
                "inserted",
                7000,
                |e| {
                    let r = raw(e);
                    let ids: Vec<u8> = PROPS.iter().map(|p| p.0).collect();
                    (0u8..13)
                        .prop_flat_map(move |sec| {
                            (
                                Just(sec),
                                prop_list(SECTIONS[sec as usize], r),
                                any::<u8>(),
                                proptest::sample::select(ids.clone())
                                    .prop_flat_map(move |id| prop_of(id, r)),
                            )
                        })
                        .prop_map(|(sec, list, at, extra)| Insert {
                            sec,
                            list,
                            at,
                            extra,
                        })
                        .boxed()
                },
                insert_case,
            ),
        ],
    }
}
