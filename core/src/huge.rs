//! Large packets: lists of more than 65,535 elements, payloads of more than 16 MiB.
use crate::model::*;
use crate::run::*;
use crate::spec::*;
use crate::sweep::template;
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum What {
    Payload,
    /// codes of SUBACK and UNSUBACK, filters of SUBSCRIBE and UNSUBSCRIBE
    List(u8),
    /// user properties of a packet (or of the will)
    Users {
        t: u8,
        will: bool,
    },
    /// subscription identifiers of a PUBLISH
    SubIds,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Huge {
    pub what: What,
    pub n: u32,
}

/// Contents without short periods, so that lost, repeated or exchanged parts show.
pub fn noise(n: usize) -> Vec<u8> {
    (0..n)
        .map(|i| (((i as u32).wrapping_mul(0x9e37_79b1)) >> 21) as u8)
        .collect()
}

impl Huge {
    pub fn build(&self) -> Pkt {
        let n = self.n;
        match self.what {
            What::Payload => {
                let mut p = template(3, true);
                if let Pkt::Publish { payload, .. } = &mut p {
                    payload.0 = noise(n as usize);
                }
                p
            }
            What::List(t) => {
                let mut p = template(t, true);
                match &mut p {
                    Pkt::Subscribe { filters, .. } => {
                        *filters = (0..n)
                            .map(|i| Filt {
                                path: Bin(format!("{i}").into_bytes()),
                                qos: (i % 3) as u8,
                                nolocal: i % 5 == 0,
                                rap: i % 7 < 3,
                                rh: (i / 3 % 3) as u8,
                            })
                            .collect();
                    }
                    Pkt::Unsubscribe { filters, .. } => {
                        *filters = (0..n).map(|i| Bin(format!("{i}").into_bytes())).collect();
                    }
                    Pkt::SubAck { codes: v, .. } | Pkt::UnsubAck { codes: v, .. } => {
                        let all = codes(t);
                        *v = noise(n as usize)
                            .into_iter()
                            .map(|b| all[b as usize % all.len()])
                            .collect();
                    }
                    _ => unreachable!(),
                }
                p
            }
            What::Users { t, will } => {
                let mut p = template(t, true);
                let ps = match &mut p {
                    Pkt::Connect { will: Some(w), .. } if will => &mut w.props,
                    p => p.props_mut().unwrap(),
                };
                ps.get_or_insert_with(Vec::new).extend((0..n).map(|i| Prop {
                    id: USER,
                    val: Val::Pair(
                        Bin(vec![b'a' + (i % 5) as u8]),
                        Bin(format!("{i}").into_bytes()),
                    ),
                }));
                p.sorted()
            }
            What::SubIds => {
                let mut p = template(3, false);
                *p.props_mut().unwrap() = Some(
                    (0..n)
                        .map(|i| Prop {
                            id: SUBID,
                            val: Val::Var(u64::from(i * 37 % VARINT_MAX + 1)),
                        })
                        .collect(),
                );
                p
            }
        }
    }
}

pub fn counts() -> Vec<u32> {
    vec![
        255, 256, 257, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 10_000, 16_383, 16_384, 32_767,
        32_768, 32_769, 65_534, 65_535, 65_536, 65_537, 100_000,
    ]
}
pub fn huge(types: &'static [u8]) -> impl Fn(&Env) -> Box<dyn Iterator<Item = Huge>> {
    move |env| {
        let thorough = env.thorough;
        let mut whats = Vec::new();
        for t in types {
            match t {
                3 => whats.extend([What::Payload, What::SubIds]),
                8..=11 => whats.push(What::List(*t)),
                _ => {}
            }
            if !matches!(t, 12 | 13) {
                whats.push(What::Users { t: *t, will: false });
            }
            if *t == 1 {
                whats.push(What::Users { t: 1, will: true });
            }
        }
        Box::new(whats.into_iter().flat_map(move |what| {
            let mut ns = counts();
            match what {
                What::Payload => {
                    ns = vec![
                        1 << 20,
                        (1 << 22) + 1,
                        (1 << 24) - 1,
                        1 << 24,
                        (1 << 24) + 9,
                    ];
                    if thorough {
                        ns.extend([(1 << 25) + 3, (1 << 26) + 3, (1 << 27) + 3, 268_000_000]);
                    }
                }
                What::List(9 | 11) => {
                    ns.extend([(1 << 20) + 1]);
                    if thorough {
                        ns.extend([(1 << 24) - 1, (1 << 24) + 1]);
                    }
                }
                _ if thorough => ns.extend([(1 << 20) + 1]),
                _ => {}
            }
            ns.into_iter().map(move |n| Huge { what, n })
        }))
    }
}

impl Huge {
    /// Changes element `at` of the large part.
    pub fn change(&self, p: &mut Pkt, at: u32) {
        let at = at as usize;
        match self.what {
            What::Payload => {
                if let Pkt::Publish { payload, .. } = p {
                    payload.0[at] ^= 0x20;
                }
            }
            What::List(t) => match p {
                Pkt::Subscribe { filters, .. } => filters[at].rap ^= true,
                Pkt::Unsubscribe { filters, .. } => filters[at] = Bin::s("other"),
                Pkt::SubAck { codes: v, .. } | Pkt::UnsubAck { codes: v, .. } => {
                    let all = codes(t);
                    v[at] = if v[at] == all[0] { all[1] } else { all[0] };
                }
                _ => unreachable!(),
            },
            What::Users { will, .. } => {
                let ps = match p {
                    Pkt::Connect { will: Some(w), .. } if will => &mut w.props,
                    p => p.props_mut().unwrap(),
                };
                let user = ps.as_mut().unwrap().iter_mut().filter(|p| p.id == USER);
                if let Some(Prop {
                    val: Val::Pair(_, v),
                    ..
                }) = user.skip(at).next()
                {
                    *v = Bin::s("other");
                }
            }
            What::SubIds => {
                if let Some(Some(ps)) = p.props_mut() {
                    ps[at].val = Val::Var(1_000_000);
                }
            }
        }
    }
}
