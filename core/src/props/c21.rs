//! Properties are independent of each other and keep their order.
use super::*;
use crate::gen::*;
use crate::huge::*;
use crate::spec::*;
use proptest::collection::vec;
use proptest::prelude::*;

#[derive(Clone, Debug, PartialEq, Eq, Hash, serde::Serialize, serde::Deserialize)]
pub struct Edit {
    pub sec: u8,
    pub base: Vec<Prop>,
    pub other: Vec<Prop>,
    /// 0 take one from `other` (add, or change if single and present), 1 remove, 2 permute only,
    /// 3 duplicate a repeatable one, 4 swap two repeatable ones
    pub kind: u8,
    pub i: u16,
    pub perm1: Vec<u16>,
    pub perm2: Vec<u16>,
}

/// A packet carrying these properties in the given section.
pub fn carrier(sec: Section, list: &[Prop]) -> Pkt {
    let t = match sec {
        Section::Connect | Section::Will => 1,
        Section::ConnAck => 2,
        Section::Publish => 3,
        Section::PubAck => 4,
        Section::PubRec => 5,
        Section::PubRel => 6,
        Section::PubComp => 7,
        Section::Subscribe => 8,
        Section::SubAck => 9,
        Section::Unsubscribe => 10,
        Section::UnsubAck => 11,
        Section::Disconnect => 14,
    };
    let mut p = super::c06::base_pkt(t);
    if let Pkt::Publish { payload, .. } = &mut p {
        *payload = Bin(vec![0x26, 0, 1, b'x', 0, 1, b'y']);
    }
    let props = Some(list.to_vec());
    match (&mut p, sec) {
        (Pkt::Connect { will: Some(w), .. }, Section::Will) => w.props = props,
        (q, _) => *q.props_mut().unwrap() = props,
    }
    p
}

/// The edited list.
fn edit(c: &Edit, sec: Section) -> Option<Vec<Prop>> {
    let mut v = c.base.clone();
    let i = c.i as usize;
    match c.kind {
        0 => {
            if c.other.is_empty() {
                return None;
            }
            let x = &c.other[i % c.other.len()];
            match v.iter().position(|p| p.id == x.id) {
                Some(j) if !repeatable(sec, x.id) => v[j] = x.clone(),
                _ => v.push(x.clone()),
            }
        }
        1 => {
            if v.is_empty() {
                return None;
            }
            v.remove(i % v.len());
        }
        3 => {
            let r: Vec<usize> = (0..v.len()).filter(|j| repeatable(sec, v[*j].id)).collect();
            if r.is_empty() {
                return None;
            }
            let x = v[r[i % r.len()]].clone();
            v.push(x);
        }
        4 => {
            let r: Vec<usize> = (0..v.len()).filter(|j| repeatable(sec, v[*j].id)).collect();
            if r.len() < 2 {
                return None;
            }
            let a = i % (r.len() - 1);
            if v[r[a]].id != v[r[a + 1]].id {
                return None;
            }
            v.swap(r[a], r[a + 1]);
        }
        _ => {}
    }
    v.sort_by_key(|p| p.id);
    Some(v)
}

fn case(env: &Env, c: &Edit, obs: &mut Obs) -> Result<(), String> {
    let sec = SECTIONS[c.sec as usize];
    let Some(edited) = edit(c, sec) else {
        return Ok(());
    };
    obs.nontrivial_if(c.base.len() >= 2);
    obs.label(match c.kind {
        0 => "added or changed",
        1 => "removed",
        3 => "duplicated",
        4 => "swapped",
        _ => "permuted only",
    });
    let p1 = carrier(sec, &c.base);
    let p2 = carrier(sec, &edited);
    // reading: any order of arrival
    let form = |perm: &Vec<u16>| Form {
        perm: perm.clone(),
        short: 0,
    };
    let f1 = encode(&p1, &form(&c.perm1)).frame();
    let f2 = encode(&p2, &form(&c.perm2)).frame();
    let d1 = read_ok(env, &f1)?;
    let d2 = read_ok(env, &f2)?;
    // apply the same edit to what the first packet decoded to
    let take = |p: &Pkt| -> Vec<Prop> {
        match (p, sec) {
            (Pkt::Connect { will: Some(w), .. }, Section::Will) => w.props.clone(),
            (p, _) => p.props().unwrap().clone(),
        }
        .unwrap_or_default()
    };
    let got1 = take(&d1);
    let moved = edit(
        &Edit {
            base: got1,
            ..c.clone()
        },
        sec,
    );
    ensure!(
        moved.as_ref() == Some(&take(&d2)),
        "editing the packet changed other properties: expected {}, got {} ({} -> {})",
        short(format!("{moved:?}")),
        short(format!("{:?}", take(&d2))),
        hex_short(&f1),
        hex_short(&f2)
    );
    // and nothing else in the packet
    let bare = |p: &Pkt| -> Pkt {
        let mut q = p.clone();
        match (&mut q, sec) {
            (Pkt::Connect { will: Some(w), .. }, Section::Will) => w.props = None,
            (q, _) => *q.props_mut().unwrap() = None,
        }
        q
    };
    ensure!(
        bare(&d1) == bare(&d2),
        "{}",
        differ("other fields changed", &bare(&d2), &bare(&d1))
    );
    ensure!(
        d1 == p1.canon(),
        "{} ({})",
        differ("decoded", &d1, &p1.canon()),
        hex_short(&f1)
    );
    // writing: the two outputs decode to exactly the two packets
    for p in [&p1, &p2] {
        let out = write(env, p)?;
        let back = read_ok(env, &out)?;
        ensure!(
            back == p.canon(),
            "{} ({})",
            differ("written and read back", &back, &p.canon()),
            hex_short(&out)
        );
        let Framing::Frame { header, .. } = framing(&out, None) else {
            return Err("not a frame".into());
        };
        match decode(out[0], &out[header..], env.codec.text()) {
            Verdict::Accept(q) => ensure!(q == p.canon(), "{}", differ("written", &q, &p.canon())),
            v => return Err(format!("written as {} ({v:?})", hex_short(&out))),
        }
    }
    Ok(())
}

/// Long lists of repeatable properties keep number and order.
fn huge_case(env: &Env, c: &Huge, obs: &mut Obs) -> Result<(), String> {
    obs.nontrivial = true;
    let p = c.build();
    let got = read_ok(env, &encode(&p, &Form::default()).frame())?;
    ensure!(got == p.canon(), "{}", differ("decoded", &got, &p.canon()));
    let out = write(env, &p)?;
    let Framing::Frame { header, .. } = framing(&out, None) else {
        return Err("not a frame".into());
    };
    match decode(out[0], &out[header..], env.codec.text()) {
        Verdict::Accept(q) => ensure!(q == p.canon(), "{}", differ("written", &q, &p.canon())),
        v => return Err(format!("written as {} ({v:?})", hex_short(&out))),
    }
    Ok(())
}
fn huge_items(env: &Env) -> impl Iterator<Item = Huge> {
    huge(crate::sweep::ALL)(env).filter(|h| matches!(h.what, What::Users { .. } | What::SubIds))
}

pub fn def() -> PropertyDef {
    PropertyDef {
        id: "C21",
        rule: "Metamorphic: a generated property set of one of the 13 sections is decoded before and after one edit \
               (add, change, remove, duplicate, swap) with independent arrival orders; the decoded sets must differ by \
               exactly that edit and nothing else in the packet may change; the crate's own output for both is \
               decoded by itself and by the reference. Non-trivial: the set has at least two properties.",
        parts: vec![
            part(
            "edits",
            11_000,
            |e| {
                let r = raw(e);
                (0u8..13)
                    .prop_flat_map(move |sec| {
                        let s = SECTIONS[sec as usize];
                        (
                            Just(sec),
                            prop_list(s, r),
                            prop_list(s, r),
                            0u8..5,
                            any::<u16>(),
                            vec(any::<u16>(), 0..16),
                            vec(any::<u16>(), 0..16),
                        )
                    })
                    .prop_map(|(sec, base, other, kind, i, perm1, perm2)| Edit {
                        sec,
                        base,
                        other,
                        kind,
                        i,
                        perm1,
                        perm2,
                    })
                    .boxed()
            },
            case,
            ),
            enumerated("huge", huge_items, huge_case),
        ],
    }
}
