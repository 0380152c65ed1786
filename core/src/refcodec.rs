//! Independent MQTT 5 reference codec (oracle). Written from the specification.
use crate::model::*;
use crate::spec::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Default, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Form {
    /// sort keys for a permutation of each property block (missing keys count as 0)
    pub perm: Vec<u16>,
    /// 0: always reason code and property length; 1: omit an empty property length where legal;
    /// 2: also omit a zero reason code where legal
    pub short: u8,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum SK {
    StrLen,
    Text,
    Data,
    PropLen,
    PropId,
    Num,
    SubId,
    Code,
    Flags,
    Pkid,
    Opts,
    Level,
    Payload,
}

#[derive(Clone, Copy, Debug)]
pub struct Span {
    pub a: usize,
    pub b: usize,
    pub kind: SK,
}

/// An encoded packet, header and body apart; spans refer to the body.
#[derive(Clone, Debug)]
pub struct Enc {
    pub byte1: u8,
    pub body: Vec<u8>,
    pub spans: Vec<Span>,
}

impl Enc {
    pub fn frame(&self) -> Vec<u8> {
        frame(self.byte1, &self.body)
    }
}

pub fn frame(byte1: u8, body: &[u8]) -> Vec<u8> {
    let mut out = Vec::with_capacity(body.len() + 5);
    out.push(byte1);
    put_varint(&mut out, body.len() as u64);
    out.extend_from_slice(body);
    out
}

struct W {
    o: Vec<u8>,
    spans: Vec<Span>,
}
impl W {
    fn mark<R>(&mut self, kind: SK, f: impl FnOnce(&mut W) -> R) -> R {
        let a = self.o.len();
        let r = f(self);
        let b = self.o.len();
        self.spans.push(Span { a, b, kind });
        r
    }
    fn u8(&mut self, k: SK, v: u8) {
        self.mark(k, |w| w.o.push(v));
    }
    fn u16(&mut self, k: SK, v: u16) {
        self.mark(k, |w| w.o.extend_from_slice(&v.to_be_bytes()));
    }
    fn u32(&mut self, k: SK, v: u32) {
        self.mark(k, |w| w.o.extend_from_slice(&v.to_be_bytes()));
    }
    fn var(&mut self, k: SK, v: u64) {
        self.mark(k, |w| put_varint(&mut w.o, v));
    }
    fn lp(&mut self, k: SK, b: &Bin) {
        // only called for encodable packets
        self.u16(SK::StrLen, b.len() as u16);
        self.mark(k, |w| w.o.extend_from_slice(&b.0));
    }
    fn prop(&mut self, p: &Prop) {
        self.u8(SK::PropId, p.id);
        match &p.val {
            Val::Byte(v) => self.u8(SK::Num, *v),
            Val::U16(v) => self.u16(SK::Num, *v),
            Val::U32(v) => self.u32(SK::Num, *v),
            Val::Var(v) => self.var(SK::SubId, *v),
            Val::Str(s) => self.lp(SK::Text, s),
            Val::Bin(s) => self.lp(SK::Data, s),
            Val::Pair(k, v) => {
                self.lp(SK::Text, k);
                self.lp(SK::Text, v);
            }
        }
    }
    fn props(&mut self, p: &Props, form: &Form) {
        let v: Vec<Prop> = order(p.as_deref().unwrap_or(&[]), &form.perm);
        let len: usize = v.iter().map(prop_len).sum();
        self.var(SK::PropLen, len as u64);
        for x in &v {
            self.prop(x);
        }
    }
}

/// Permute by keys, keeping the relative order of properties with the same identifier.
pub fn order(v: &[Prop], keys: &[u16]) -> Vec<Prop> {
    let mut idx: Vec<usize> = (0..v.len()).collect();
    idx.sort_by_key(|i| keys.get(*i).copied().unwrap_or(0));
    // the places in order, identifier by identifier
    let mut places: Vec<usize> = (0..v.len()).collect();
    places.sort_by_key(|j| v[*j].id);
    let mut next = [usize::MAX; 256];
    for (k, j) in places.iter().enumerate().rev() {
        next[usize::from(v[*j].id)] = k;
    }
    idx.iter()
        .map(|i| {
            let k = &mut next[usize::from(v[*i].id)];
            *k += 1;
            v[places[*k - 1]].clone()
        })
        .collect()
}

/// The properties one after the other, without the length.
pub fn encode_props(v: &[Prop]) -> Vec<u8> {
    let mut w = W {
        o: Vec::new(),
        spans: Vec::new(),
    };
    for x in v {
        w.prop(x);
    }
    w.o
}

pub fn prop_len(p: &Prop) -> usize {
    1 + match &p.val {
        Val::Byte(_) => 1,
        Val::U16(_) => 2,
        Val::U32(_) => 4,
        Val::Var(v) => varint_len(*v),
        Val::Str(s) | Val::Bin(s) => 2 + s.len(),
        Val::Pair(a, b) => 4 + a.len() + b.len(),
    }
}
pub fn props_block_len(p: &Props) -> usize {
    p.as_deref().unwrap_or(&[]).iter().map(prop_len).sum()
}

/// Encode a packet known to be encodable.
pub fn encode(p: &Pkt, form: &Form) -> Enc {
    let mut w = W {
        o: Vec::new(),
        spans: Vec::new(),
    };
    let empty = |p: &Props| p.as_ref().map_or(true, Vec::is_empty);
    let byte1;
    match p {
        Pkt::Connect {
            keep_alive,
            client_id,
            clean_start,
            props,
            will,
            login,
        } => {
            byte1 = 0x10;
            w.lp(SK::Text, &Bin::s("MQTT"));
            w.u8(SK::Level, 5);
            let mut f = 0u8;
            if *clean_start {
                f |= 2;
            }
            if let Some(x) = will {
                f |= 4 | (x.qos << 3) | if x.retain { 0x20 } else { 0 };
            }
            if let Some((u, pw)) = login {
                if !u.is_empty() {
                    f |= 0x80;
                }
                if !pw.is_empty() {
                    f |= 0x40;
                }
            }
            w.u8(SK::Flags, f);
            w.u16(SK::Num, *keep_alive);
            w.props(props, form);
            w.lp(SK::Text, client_id);
            if let Some(x) = will {
                w.props(&x.props, form);
                w.lp(SK::Data, &x.topic);
                w.lp(SK::Data, &x.message);
            }
            if let Some((u, pw)) = login {
                if !u.is_empty() {
                    w.lp(SK::Text, u);
                }
                if !pw.is_empty() {
                    w.lp(SK::Text, pw);
                }
            }
        }
        Pkt::ConnAck {
            session_present,
            code,
            props,
        } => {
            byte1 = 0x20;
            w.u8(SK::Flags, u8::from(*session_present));
            w.u8(SK::Code, *code);
            w.props(props, form);
        }
        Pkt::Publish {
            dup,
            qos,
            retain,
            topic,
            pkid,
            payload,
            props,
        } => {
            byte1 = 0x30 | (u8::from(*dup) << 3) | (qos << 1) | u8::from(*retain);
            w.lp(SK::Text, topic);
            if *qos > 0 {
                w.u16(SK::Pkid, *pkid);
            }
            w.props(props, form);
            w.mark(SK::Payload, |w| w.o.extend_from_slice(&payload.0));
        }
        Pkt::Ack {
            t,
            pkid,
            reason,
            props,
        } => {
            byte1 = (t << 4) | if *t == 6 { 2 } else { 0 };
            w.u16(SK::Pkid, *pkid);
            if form.short == 2 && *reason == 0 && empty(props) {
            } else {
                w.u8(SK::Code, *reason);
                if !(form.short >= 1 && empty(props)) {
                    w.props(props, form);
                }
            }
        }
        Pkt::Subscribe {
            pkid,
            filters,
            props,
        } => {
            byte1 = 0x82;
            w.u16(SK::Pkid, *pkid);
            w.props(props, form);
            for f in filters {
                w.lp(SK::Text, &f.path);
                w.u8(
                    SK::Opts,
                    f.qos | (u8::from(f.nolocal) << 2) | (u8::from(f.rap) << 3) | (f.rh << 4),
                );
            }
        }
        Pkt::SubAck { pkid, codes, props } | Pkt::UnsubAck { pkid, codes, props } => {
            byte1 = if matches!(p, Pkt::SubAck { .. }) {
                0x90
            } else {
                0xB0
            };
            w.u16(SK::Pkid, *pkid);
            w.props(props, form);
            for c in codes {
                w.u8(SK::Code, *c);
            }
        }
        Pkt::Unsubscribe {
            pkid,
            filters,
            props,
        } => {
            byte1 = 0xA2;
            w.u16(SK::Pkid, *pkid);
            w.props(props, form);
            for f in filters {
                w.lp(SK::Text, f);
            }
        }
        Pkt::PingReq => byte1 = 0xC0,
        Pkt::PingResp => byte1 = 0xD0,
        Pkt::Disconnect { reason, props } => {
            byte1 = 0xE0;
            if form.short == 2 && *reason == 0 && empty(props) {
            } else {
                w.u8(SK::Code, *reason);
                if !(form.short >= 1 && empty(props)) {
                    w.props(props, form);
                }
            }
        }
    }
    Enc {
        byte1,
        body: w.o,
        spans: w.spans,
    }
}

/// Length of the body in the full form.
pub fn body_len(p: &Pkt) -> usize {
    let props = |p: &Props| {
        let l = props_block_len(p);
        l + varint_len(l as u64)
    };
    match p {
        Pkt::Connect {
            client_id,
            props: ps,
            will,
            login,
            ..
        } => {
            let mut n = 6 + 1 + 1 + 2 + props(ps) + 2 + client_id.len();
            if let Some(w) = will {
                n += props(&w.props) + 4 + w.topic.len() + w.message.len();
            }
            if let Some((u, q)) = login {
                n += if u.is_empty() { 0 } else { 2 + u.len() };
                n += if q.is_empty() { 0 } else { 2 + q.len() };
            }
            n
        }
        Pkt::ConnAck { props: ps, .. } => 2 + props(ps),
        Pkt::Publish {
            qos,
            topic,
            payload,
            props: ps,
            ..
        } => 2 + topic.len() + if *qos > 0 { 2 } else { 0 } + props(ps) + payload.len(),
        Pkt::Ack { props: ps, .. } => 3 + props(ps),
        Pkt::Subscribe {
            filters, props: ps, ..
        } => 2 + props(ps) + filters.iter().map(|f| 3 + f.path.len()).sum::<usize>(),
        Pkt::SubAck {
            codes, props: ps, ..
        }
        | Pkt::UnsubAck {
            codes, props: ps, ..
        } => 2 + props(ps) + codes.len(),
        Pkt::Unsubscribe {
            filters, props: ps, ..
        } => 2 + props(ps) + filters.iter().map(|f| 2 + f.len()).sum::<usize>(),
        Pkt::PingReq | Pkt::PingResp => 0,
        Pkt::Disconnect { props: ps, .. } => 1 + props(ps),
    }
}

// ---------------------------------------------------------------- decoding

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Verdict {
    /// legal: must be accepted with this value
    Accept(Pkt),
    /// irregular but not one of the malformations of C04: an error, or (if given) this value
    Lenient(Option<Pkt>, &'static str),
    /// malformed: must be rejected
    Reject(&'static str),
}

struct R<'a> {
    b: &'a [u8],
    i: usize,
}

#[derive(Default)]
struct St {
    text: bool,
    lenient: Option<&'static str>,
    unknown: bool,
}
impl St {
    fn len(&mut self, why: &'static str) {
        self.lenient.get_or_insert(why);
    }
}

type Res<T> = Result<T, &'static str>;

impl<'a> R<'a> {
    fn left(&self) -> usize {
        self.b.len() - self.i
    }
    fn take(&mut self, n: usize, why: &'static str) -> Res<&'a [u8]> {
        if self.left() < n {
            return Err(why);
        }
        let s = &self.b[self.i..self.i + n];
        self.i += n;
        Ok(s)
    }
    fn u8(&mut self) -> Res<u8> {
        Ok(self.take(1, "truncated byte")?[0])
    }
    fn u16(&mut self) -> Res<u16> {
        let s = self.take(2, "truncated u16")?;
        Ok(u16::from_be_bytes([s[0], s[1]]))
    }
    fn u32(&mut self) -> Res<u32> {
        let s = self.take(4, "truncated u32")?;
        Ok(u32::from_be_bytes([s[0], s[1], s[2], s[3]]))
    }
    fn var(&mut self, st: &mut St) -> Res<u32> {
        match get_varint(&self.b[self.i..]) {
            VarRes::Ok(v, n, min) => {
                self.i += n;
                if !min {
                    st.len("non-minimal varint");
                }
                Ok(v)
            }
            VarRes::Short => Err("truncated varint"),
            VarRes::Malformed => Err("varint longer than 4 bytes"),
        }
    }
    fn bin(&mut self) -> Res<Bin> {
        let n = self.u16()? as usize;
        Ok(Bin(self.take(n, "length past the end")?.to_vec()))
    }
    fn text(&mut self, st: &St) -> Res<Bin> {
        let b = self.bin()?;
        if st.text && !b.is_text() {
            return Err("text not UTF-8");
        }
        Ok(b)
    }
    fn props(&mut self, s: Section, st: &mut St) -> Res<Props> {
        let n = self.var(st)? as usize;
        let block = self.take(n, "property block past the end of the packet")?;
        let mut r = R { b: block, i: 0 };
        let mut v: Vec<Prop> = Vec::new();
        while r.left() > 0 {
            let id = r.u8()?;
            let t = ptype(id).ok_or("unknown property")?;
            if !allowed(s).contains(&id) {
                return Err("property not allowed here");
            }
            let val = match t {
                PType::Byte => Val::Byte(r.u8()?),
                PType::U16 => Val::U16(r.u16()?),
                PType::U32 => Val::U32(r.u32()?),
                PType::Var => Val::Var(u64::from(r.var(st)?)),
                PType::Str => Val::Str(r.text(st)?),
                PType::Bin => Val::Bin(r.bin()?),
                PType::Pair => {
                    let k = r.text(st)?;
                    Val::Pair(k, r.text(st)?)
                }
            };
            if !repeatable(s, id) && v.iter().any(|p| p.id == id) {
                st.len("duplicate property");
                st.unknown = true;
            }
            v.push(Prop { id, val });
        }
        v.sort_by_key(|p| p.id);
        Ok(if v.is_empty() { None } else { Some(v) })
    }
    fn code(&mut self, t: u8) -> Res<u8> {
        let c = self.u8()?;
        if codes(t).contains(&c) {
            Ok(c)
        } else {
            Err("unknown reason code")
        }
    }
}

/// Decide a complete frame given as first byte and body.
pub fn decode(byte1: u8, body: &[u8], text: bool) -> Verdict {
    let mut st = St {
        text,
        ..St::default()
    };
    let mut r = R { b: body, i: 0 };
    match decode_inner(byte1, &mut r, &mut st) {
        Err(why) => Verdict::Reject(why),
        Ok(p) => {
            if r.left() > 0 {
                st.len("trailing bytes");
            }
            match st.lenient {
                None => Verdict::Accept(p),
                Some(why) => Verdict::Lenient(if st.unknown { None } else { Some(p) }, why),
            }
        }
    }
}

/// A property section (length and block) at the start of `b`: the properties, the bytes used and
/// why it is irregular, if it is ("duplicate property": the value is not defined).
pub fn decode_section(
    s: Section,
    b: &[u8],
    text: bool,
) -> Result<(Props, usize, Option<&'static str>), &'static str> {
    let mut st = St {
        text,
        ..St::default()
    };
    let mut r = R { b, i: 0 };
    let p = r.props(s, &mut st)?;
    let why = if st.unknown {
        Some("duplicate property")
    } else {
        st.lenient
    };
    Ok((p, r.i, why))
}

fn decode_inner(byte1: u8, r: &mut R, st: &mut St) -> Res<Pkt> {
    let t = byte1 >> 4;
    let fl = byte1 & 15;
    if t == 0 || t == 15 {
        return Err("unknown packet type");
    }
    if t != 3 && t != 14 {
        let want = if matches!(t, 6 | 8 | 10) { 2 } else { 0 };
        if fl != want {
            st.len("reserved header flags");
        }
    }
    if r.b.is_empty() && !matches!(t, 12..=14) {
        return Err("missing body");
    }
    Ok(match t {
        1 => {
            let name = r.text(st)?;
            let level = r.u8()?;
            if name.0 != b"MQTT" {
                return Err("wrong protocol name");
            }
            if level != 5 {
                return Err("wrong protocol level");
            }
            let f = r.u8()?;
            if f & 1 != 0 {
                st.len("reserved connect flag");
            }
            let keep_alive = r.u16()?;
            let props = r.props(Section::Connect, st)?;
            let client_id = r.text(st)?;
            let will = if f & 4 != 0 {
                let props = r.props(Section::Will, st)?;
                let topic = r.bin()?;
                let message = r.bin()?;
                let qos = (f >> 3) & 3;
                if qos == 3 {
                    return Err("will QoS 3");
                }
                Some(Will {
                    topic,
                    message,
                    qos,
                    retain: f & 0x20 != 0,
                    props,
                })
            } else {
                if f & 0x38 != 0 {
                    return Err("will bits without will flag");
                }
                None
            };
            let u = if f & 0x80 != 0 {
                r.text(st)?
            } else {
                Bin::default()
            };
            let p = if f & 0x40 != 0 {
                r.text(st)?
            } else {
                Bin::default()
            };
            let login = if u.is_empty() && p.is_empty() {
                None
            } else {
                Some((u, p))
            };
            Pkt::Connect {
                keep_alive,
                client_id,
                clean_start: f & 2 != 0,
                props,
                will,
                login,
            }
        }
        2 => {
            let f = r.u8()?;
            if f & 0xfe != 0 {
                st.len("reserved connack flags");
            }
            let code = r.code(2)?;
            Pkt::ConnAck {
                session_present: f & 1 == 1,
                code,
                props: r.props(Section::ConnAck, st)?,
            }
        }
        3 => {
            let qos = (fl >> 1) & 3;
            if qos == 3 {
                return Err("QoS 3");
            }
            let topic = r.text(st)?;
            let pkid = if qos > 0 {
                let id = r.u16()?;
                if id == 0 {
                    return Err("packet identifier 0");
                }
                id
            } else {
                0
            };
            let props = r.props(Section::Publish, st)?;
            let payload = Bin(r.take(r.left(), "")?.to_vec());
            Pkt::Publish {
                dup: fl & 8 != 0,
                qos,
                retain: fl & 1 != 0,
                topic,
                pkid,
                payload,
                props,
            }
        }
        4..=7 => {
            let pkid = r.u16()?;
            let (mut reason, mut props) = (0, None);
            if r.left() > 0 {
                reason = r.code(t)?;
                if r.left() > 0 {
                    props = r.props(section_of(t).unwrap(), st)?;
                }
            }
            Pkt::Ack {
                t,
                pkid,
                reason,
                props,
            }
        }
        8 => {
            let pkid = r.u16()?;
            let props = r.props(Section::Subscribe, st)?;
            let mut filters = Vec::new();
            while r.left() > 0 {
                let path = r.text(st)?;
                let o = r.u8()?;
                if o & 3 == 3 {
                    return Err("QoS 3");
                }
                if (o >> 4) & 3 == 3 {
                    return Err("retain rule 3");
                }
                if o & 0xC0 != 0 {
                    st.len("reserved subscription options");
                }
                filters.push(Filt {
                    path,
                    qos: o & 3,
                    nolocal: o & 4 != 0,
                    rap: o & 8 != 0,
                    rh: (o >> 4) & 3,
                });
            }
            if filters.is_empty() {
                return Err("empty SUBSCRIBE");
            }
            Pkt::Subscribe {
                pkid,
                filters,
                props,
            }
        }
        9 | 11 => {
            let pkid = r.u16()?;
            let props = r.props(section_of(t).unwrap(), st)?;
            let mut codes = Vec::new();
            while r.left() > 0 {
                codes.push(r.code(t)?);
            }
            if codes.is_empty() {
                return Err("empty return code list");
            }
            if t == 9 {
                Pkt::SubAck { pkid, codes, props }
            } else {
                Pkt::UnsubAck { pkid, codes, props }
            }
        }
        10 => {
            let pkid = r.u16()?;
            let props = r.props(Section::Unsubscribe, st)?;
            let mut filters = Vec::new();
            while r.left() > 0 {
                filters.push(r.text(st)?);
            }
            if filters.is_empty() {
                st.len("empty UNSUBSCRIBE");
            }
            Pkt::Unsubscribe {
                pkid,
                filters,
                props,
            }
        }
        12 => Pkt::PingReq,
        13 => Pkt::PingResp,
        14 => {
            if fl != 0 {
                return Err("DISCONNECT flags");
            }
            let (mut reason, mut props) = (0, None);
            if r.left() > 0 {
                reason = r.code(14)?;
                if r.left() > 0 {
                    props = r.props(Section::Disconnect, st)?;
                }
            }
            Pkt::Disconnect { reason, props }
        }
        _ => return Err("unknown packet type"),
    })
}

// ---------------------------------------------------------------- framing

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Framing {
    /// incomplete; a hint is sound iff lo <= hint <= hi
    Need {
        lo: usize,
        hi: usize,
    },
    TooBig {
        declared: usize,
    },
    Malformed,
    Frame {
        header: usize,
        body: usize,
    },
}

pub fn framing(b: &[u8], max: Option<usize>) -> Framing {
    if b.len() < 2 {
        return Framing::Need {
            lo: 1,
            hi: 2 - b.len(),
        };
    }
    match get_varint(&b[1..]) {
        VarRes::Short => Framing::Need { lo: 1, hi: 1 },
        VarRes::Malformed => Framing::Malformed,
        VarRes::Ok(v, n, _) => {
            let v = v as usize;
            if max.is_some_and(|m| v > m) {
                return Framing::TooBig { declared: v };
            }
            let total = 1 + n + v;
            if b.len() < total {
                Framing::Need {
                    lo: total - b.len(),
                    hi: total - b.len(),
                }
            } else {
                Framing::Frame {
                    header: 1 + n,
                    body: v,
                }
            }
        }
    }
}
