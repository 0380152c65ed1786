//! The only code that names the crate under test: conversion between its types and the neutral
//! model, and one forwarding method per public entry point.
use crate::counting::measure;
use bytes::{Bytes, BytesMut};
use mqtt_bytes_v5 as m;
use std::any::Any;
use vcore::codec::*;
use vcore::model::*;
use vcore::spec::Section;

#[cfg(feature = "boxed_string")]
mod cfg {
    pub type S = Box<str>;
    pub const NAME: &str = "boxed";
}
#[cfg(feature = "cow_string")]
mod cfg {
    pub type S = std::borrow::Cow<'static, str>;
    pub const NAME: &str = "cow";
}
#[cfg(feature = "binary_string")]
mod cfg {
    pub type S = bytes::Bytes;
    pub const NAME: &str = "binary";
}
#[cfg(not(any(
    feature = "boxed_string",
    feature = "cow_string",
    feature = "binary_string"
)))]
mod cfg {
    pub type S = String;
    pub const NAME: &str = if cfg!(feature = "shipped") {
        "shipped"
    } else {
        "default"
    };
}
use cfg::S;

#[cfg(not(feature = "binary_string"))]
fn sv(b: &Bin) -> S {
    std::str::from_utf8(&b.0)
        .expect("HARNESS: text field is not UTF-8 in a text configuration")
        .to_owned()
        .into()
}
#[cfg(not(feature = "binary_string"))]
fn bv(s: &S) -> Bin {
    let s: &str = s;
    Bin(s.as_bytes().to_vec())
}
#[cfg(feature = "binary_string")]
fn sv(b: &Bin) -> S {
    Bytes::copy_from_slice(&b.0)
}
#[cfg(feature = "binary_string")]
fn bv(s: &S) -> Bin {
    Bin(s.to_vec())
}

fn by(b: &Bin) -> Bytes {
    Bytes::copy_from_slice(&b.0)
}
fn yb(b: &Bytes) -> Bin {
    Bin(b.to_vec())
}

pub fn cerr(e: m::Error) -> CErr {
    match e {
        m::Error::InsufficientBytes(n) => CErr::Need(n),
        m::Error::PayloadSizeLimitExceeded { pkt_size, max } => CErr::TooBig { pkt_size, max },
        m::Error::TopicNotUtf8 | m::Error::PayloadNotUtf8(_) => CErr::Utf8,
        e => CErr::Other(format!("{e:?}")),
    }
}

// ---------------------------------------------------------------- properties

/// One way a native field holds a property.
trait Slot {
    fn put(&mut self, v: &Val);
    fn get(&self, id: u8, out: &mut Vec<Prop>);
}
macro_rules! slot {
    ($t:ty, $p:pat => $into:expr, $x:ident => $from:expr) => {
        impl Slot for Option<$t> {
            fn put(&mut self, v: &Val) {
                match v {
                    $p => *self = Some($into),
                    _ => panic!("HARNESS: value {v:?} for this property"),
                }
            }
            fn get(&self, id: u8, out: &mut Vec<Prop>) {
                if let Some($x) = self {
                    out.push(Prop { id, val: $from });
                }
            }
        }
    };
}
slot!(u8, Val::Byte(b) => *b, b => Val::Byte(*b));
slot!(u16, Val::U16(b) => *b, b => Val::U16(*b));
slot!(u32, Val::U32(b) => *b, b => Val::U32(*b));
slot!(usize, Val::Var(b) => *b as usize, b => Val::Var(*b as u64));

/// text or binary, told apart by the wrapper because in one configuration both are `Bytes`
struct Text<'a>(&'a mut Option<S>);
struct Data<'a>(&'a mut Option<Bytes>);
impl Text<'_> {
    fn put(self, v: &Val) {
        match v {
            Val::Str(b) => *self.0 = Some(sv(b)),
            _ => panic!("HARNESS: value {v:?} for a text property"),
        }
    }
}
impl Data<'_> {
    fn put(self, v: &Val) {
        match v {
            Val::Bin(b) => *self.0 = Some(by(b)),
            _ => panic!("HARNESS: value {v:?} for a binary property"),
        }
    }
}
fn get_text(s: &Option<S>, id: u8, out: &mut Vec<Prop>) {
    if let Some(s) = s {
        out.push(Prop {
            id,
            val: Val::Str(bv(s)),
        });
    }
}
fn get_data(s: &Option<Bytes>, id: u8, out: &mut Vec<Prop>) {
    if let Some(s) = s {
        out.push(Prop {
            id,
            val: Val::Bin(yb(s)),
        });
    }
}
fn put_user(u: &mut Vec<(S, S)>, v: &Val) {
    match v {
        Val::Pair(a, b) => u.push((sv(a), sv(b))),
        _ => panic!("HARNESS: value {v:?} for a user property"),
    }
}
fn get_user(u: &[(S, S)], out: &mut Vec<Prop>) {
    for (a, b) in u {
        out.push(Prop {
            id: 0x26,
            val: Val::Pair(bv(a), bv(b)),
        });
    }
}

macro_rules! props {
    ($ty:ident, $to:ident, $from:ident,
     num { $($nid:literal $nf:ident),* }
     text { $($tid:literal $tf:ident),* }
     data { $($did:literal $df:ident),* }
     many { $($mid:literal $mf:ident),* }) => {
        fn $to(p: &[Prop]) -> m::$ty {
            let mut n = m::$ty {
                $($nf: None,)* $($tf: None,)* $($df: None,)* $($mf: vec![],)*
                user_properties: vec![],
            };
            for q in p {
                match q.id {
                    $($nid => n.$nf.put(&q.val),)*
                    $($tid => Text(&mut n.$tf).put(&q.val),)*
                    $($did => Data(&mut n.$df).put(&q.val),)*
                    $($mid => match &q.val {
                        Val::Var(v) => n.$mf.push(*v as usize),
                        v => panic!("HARNESS: {v:?}"),
                    },)*
                    0x26 => put_user(&mut n.user_properties, &q.val),
                    id => panic!("HARNESS: property {id:#04x} does not belong in {}", stringify!($ty)),
                }
            }
            n
        }
        fn $from(n: &m::$ty) -> Vec<Prop> {
            let mut o = Vec::new();
            $(n.$nf.get($nid, &mut o);)*
            $(get_text(&n.$tf, $tid, &mut o);)*
            $(get_data(&n.$df, $did, &mut o);)*
            $(for v in &n.$mf { o.push(Prop { id: $mid, val: Val::Var(*v as u64) }); })*
            get_user(&n.user_properties, &mut o);
            o.sort_by_key(|p| p.id);
            o
        }
    };
}
props!(ConnectProperties, connect_to, connect_from,
    num { 0x11 session_expiry_interval, 0x21 receive_maximum, 0x27 max_packet_size,
          0x22 topic_alias_max, 0x19 request_response_info, 0x17 request_problem_info }
    text { 0x15 authentication_method }
    data { 0x16 authentication_data }
    many {});
props!(LastWillProperties, will_to, will_from,
    num { 0x18 delay_interval, 0x01 payload_format_indicator, 0x02 message_expiry_interval }
    text { 0x03 content_type, 0x08 response_topic }
    data { 0x09 correlation_data }
    many {});
props!(ConnAckProperties, connack_to, connack_from,
    num { 0x11 session_expiry_interval, 0x21 receive_max, 0x24 max_qos, 0x25 retain_available,
          0x27 max_packet_size, 0x22 topic_alias_max, 0x28 wildcard_subscription_available,
          0x29 subscription_identifiers_available, 0x2A shared_subscription_available,
          0x13 server_keep_alive }
    text { 0x12 assigned_client_identifier, 0x1F reason_string, 0x1A response_information,
           0x1C server_reference, 0x15 authentication_method }
    data { 0x16 authentication_data }
    many {});
props!(PublishProperties, publish_to, publish_from,
    num { 0x01 payload_format_indicator, 0x02 message_expiry_interval, 0x23 topic_alias }
    text { 0x08 response_topic, 0x03 content_type }
    data { 0x09 correlation_data }
    many { 0x0B subscription_identifiers });
props!(PubAckProperties, puback_to, puback_from, num {} text { 0x1F reason_string } data {} many {});
props!(PubRecProperties, pubrec_to, pubrec_from, num {} text { 0x1F reason_string } data {} many {});
props!(PubRelProperties, pubrel_to, pubrel_from, num {} text { 0x1F reason_string } data {} many {});
props!(PubCompProperties, pubcomp_to, pubcomp_from, num {} text { 0x1F reason_string } data {} many {});
props!(SubAckProperties, suback_to, suback_from, num {} text { 0x1F reason_string } data {} many {});
props!(UnsubAckProperties, unsuback_to, unsuback_from, num {} text { 0x1F reason_string } data {} many {});
props!(SubscribeProperties, subscribe_to, subscribe_from, num { 0x0B id } text {} data {} many {});
props!(UnsubscribeProperties, unsubscribe_to, unsubscribe_from, num {} text {} data {} many {});
props!(DisconnectProperties, disconnect_to, disconnect_from,
    num { 0x11 session_expiry_interval }
    text { 0x1F reason_string, 0x1C server_reference }
    data {}
    many {});

fn opt<T>(p: &Props, f: fn(&[Prop]) -> T) -> Option<T> {
    p.as_ref().map(|v| f(v))
}
fn tpo<T>(p: &Option<T>, f: fn(&T) -> Vec<Prop>) -> Props {
    p.as_ref().map(f)
}

// ---------------------------------------------------------------- enumerations

macro_rules! names {
    ($to:ident, $from:ident, $ty:ident, { $($v:ident = $b:literal),* $(,)? }) => {
        fn $to(b: u8) -> m::$ty {
            match b {
                $($b => m::$ty::$v,)*
                _ => panic!("HARNESS: {} has no value {b:#04x}", stringify!($ty)),
            }
        }
        fn $from(v: m::$ty) -> u8 {
            match v {
                $(m::$ty::$v => $b,)*
            }
        }
    };
}
names!(qos_to, qos_from, QoS, { AtMostOnce = 0, AtLeastOnce = 1, ExactlyOnce = 2 });
names!(rule_to, rule_from, RetainForwardRule, { OnEverySubscribe = 0, OnNewSubscribe = 1, Never = 2 });
names!(cc_to, cc_from, ConnectReturnCode, {
    Success = 0, RefusedProtocolVersion = 1, BadClientId = 2, ServiceUnavailable = 3,
    UnspecifiedError = 0x80, MalformedPacket = 0x81, ProtocolError = 0x82,
    ImplementationSpecificError = 0x83, UnsupportedProtocolVersion = 0x84,
    ClientIdentifierNotValid = 0x85, BadUserNamePassword = 0x86, NotAuthorized = 0x87,
    ServerUnavailable = 0x88, ServerBusy = 0x89, Banned = 0x8A, BadAuthenticationMethod = 0x8C,
    TopicNameInvalid = 0x90, PacketTooLarge = 0x95, QuotaExceeded = 0x97,
    PayloadFormatInvalid = 0x99, RetainNotSupported = 0x9A, QoSNotSupported = 0x9B,
    UseAnotherServer = 0x9C, ServerMoved = 0x9D, ConnectionRateExceeded = 0x9F,
});
names!(pa_to, pa_from, PubAckReason, {
    Success = 0, NoMatchingSubscribers = 0x10, UnspecifiedError = 0x80,
    ImplementationSpecificError = 0x83, NotAuthorized = 0x87, TopicNameInvalid = 0x90,
    PacketIdentifierInUse = 0x91, QuotaExceeded = 0x97, PayloadFormatInvalid = 0x99,
});
names!(pr_to, pr_from, PubRecReason, {
    Success = 0, NoMatchingSubscribers = 0x10, UnspecifiedError = 0x80,
    ImplementationSpecificError = 0x83, NotAuthorized = 0x87, TopicNameInvalid = 0x90,
    PacketIdentifierInUse = 0x91, QuotaExceeded = 0x97, PayloadFormatInvalid = 0x99,
});
names!(prel_to, prel_from, PubRelReason, { Success = 0, PacketIdentifierNotFound = 0x92 });
names!(pcomp_to, pcomp_from, PubCompReason, { Success = 0, PacketIdentifierNotFound = 0x92 });
names!(ua_to, ua_from, UnsubAckReason, {
    Success = 0, NoSubscriptionExisted = 0x11, UnspecifiedError = 0x80,
    ImplementationSpecificError = 0x83, NotAuthorized = 0x87, TopicFilterInvalid = 0x8F,
    PacketIdentifierInUse = 0x91,
});
names!(dc_to, dc_from, DisconnectReasonCode, {
    NormalDisconnection = 0x00, DisconnectWithWillMessage = 0x04, UnspecifiedError = 0x80,
    MalformedPacket = 0x81, ProtocolError = 0x82, ImplementationSpecificError = 0x83,
    NotAuthorized = 0x87, ServerBusy = 0x89, ServerShuttingDown = 0x8B, KeepAliveTimeout = 0x8D,
    SessionTakenOver = 0x8E, TopicFilterInvalid = 0x8F, TopicNameInvalid = 0x90,
    ReceiveMaximumExceeded = 0x93, TopicAliasInvalid = 0x94, PacketTooLarge = 0x95,
    MessageRateTooHigh = 0x96, QuotaExceeded = 0x97, AdministrativeAction = 0x98,
    PayloadFormatInvalid = 0x99, RetainNotSupported = 0x9A, QoSNotSupported = 0x9B,
    UseAnotherServer = 0x9C, ServerMoved = 0x9D, SharedSubscriptionNotSupported = 0x9E,
    ConnectionRateExceeded = 0x9F, MaximumConnectTime = 0xA0,
    SubscriptionIdentifiersNotSupported = 0xA1, WildcardSubscriptionsNotSupported = 0xA2,
});
fn sa_to(b: u8) -> m::SubscribeReasonCode {
    use m::SubscribeReasonCode::*;
    match b {
        0 => Success(m::QoS::AtMostOnce),
        1 => Success(m::QoS::AtLeastOnce),
        2 => Success(m::QoS::ExactlyOnce),
        0x80 => Unspecified,
        0x83 => ImplementationSpecific,
        0x87 => NotAuthorized,
        0x8F => TopicFilterInvalid,
        0x91 => PkidInUse,
        0x97 => QuotaExceeded,
        0x9E => SharedSubscriptionsNotSupported,
        0xA1 => SubscriptionIdNotSupported,
        0xA2 => WildcardSubscriptionsNotSupported,
        _ => panic!("HARNESS: SubscribeReasonCode has no value {b:#04x}"),
    }
}
fn sa_from(c: &m::SubscribeReasonCode) -> u8 {
    use m::SubscribeReasonCode::*;
    match c {
        Success(q) => qos_from(*q),
        Unspecified => 0x80,
        ImplementationSpecific => 0x83,
        NotAuthorized => 0x87,
        TopicFilterInvalid => 0x8F,
        PkidInUse => 0x91,
        QuotaExceeded => 0x97,
        SharedSubscriptionsNotSupported => 0x9E,
        SubscriptionIdNotSupported => 0xA1,
        WildcardSubscriptionsNotSupported => 0xA2,
    }
}

// ---------------------------------------------------------------- packets

fn will_native(w: &Will) -> m::LastWill {
    m::LastWill {
        topic: by(&w.topic),
        message: by(&w.message),
        qos: qos_to(w.qos),
        retain: w.retain,
        properties: opt(&w.props, will_to),
    }
}
fn will_model(w: &m::LastWill) -> Will {
    Will {
        topic: yb(&w.topic),
        message: yb(&w.message),
        qos: qos_from(w.qos),
        retain: w.retain,
        props: tpo(&w.properties, will_from),
    }
}
fn login_native(u: &Bin, p: &Bin) -> m::Login {
    m::Login {
        username: sv(u),
        password: sv(p),
    }
}
fn login_model(l: &m::Login) -> (Bin, Bin) {
    (bv(&l.username), bv(&l.password))
}
fn filt_native(f: &Filt) -> m::Filter {
    m::Filter {
        path: sv(&f.path),
        qos: qos_to(f.qos),
        nolocal: f.nolocal,
        preserve_retain: f.rap,
        retain_forward_rule: rule_to(f.rh),
    }
}
fn filt_model(f: &m::Filter) -> Filt {
    Filt {
        path: bv(&f.path),
        qos: qos_from(f.qos),
        nolocal: f.nolocal,
        rap: f.preserve_retain,
        rh: rule_from(f.retain_forward_rule.clone()),
    }
}

pub fn native(p: &Pkt) -> m::Packet {
    match p {
        Pkt::Connect {
            keep_alive,
            client_id,
            clean_start,
            props,
            will,
            login,
        } => m::Packet::Connect(
            m::Connect {
                keep_alive: *keep_alive,
                client_id: sv(client_id),
                clean_start: *clean_start,
                properties: opt(props, connect_to),
            },
            will.as_ref().map(will_native),
            login.as_ref().map(|(u, p)| login_native(u, p)),
        ),
        Pkt::ConnAck {
            session_present,
            code,
            props,
        } => m::Packet::ConnAck(m::ConnAck {
            session_present: *session_present,
            code: cc_to(*code),
            properties: opt(props, connack_to),
        }),
        Pkt::Publish {
            dup,
            qos,
            retain,
            topic,
            pkid,
            payload,
            props,
        } => m::Packet::Publish(m::Publish {
            dup: *dup,
            qos: qos_to(*qos),
            retain: *retain,
            topic: sv(topic),
            pkid: *pkid,
            payload: by(payload),
            properties: opt(props, publish_to),
        }),
        Pkt::Ack {
            t: 4,
            pkid,
            reason,
            props,
        } => m::Packet::PubAck(m::PubAck {
            pkid: *pkid,
            reason: pa_to(*reason),
            properties: opt(props, puback_to),
        }),
        Pkt::Ack {
            t: 5,
            pkid,
            reason,
            props,
        } => m::Packet::PubRec(m::PubRec {
            pkid: *pkid,
            reason: pr_to(*reason),
            properties: opt(props, pubrec_to),
        }),
        Pkt::Ack {
            t: 6,
            pkid,
            reason,
            props,
        } => m::Packet::PubRel(m::PubRel {
            pkid: *pkid,
            reason: prel_to(*reason),
            properties: opt(props, pubrel_to),
        }),
        Pkt::Ack {
            pkid,
            reason,
            props,
            ..
        } => m::Packet::PubComp(m::PubComp {
            pkid: *pkid,
            reason: pcomp_to(*reason),
            properties: opt(props, pubcomp_to),
        }),
        Pkt::Subscribe {
            pkid,
            filters,
            props,
        } => m::Packet::Subscribe(m::Subscribe {
            pkid: *pkid,
            filters: filters.iter().map(filt_native).collect(),
            properties: opt(props, subscribe_to),
        }),
        Pkt::SubAck { pkid, codes, props } => m::Packet::SubAck(m::SubAck {
            pkid: *pkid,
            return_codes: codes.iter().map(|c| sa_to(*c)).collect(),
            properties: opt(props, suback_to),
        }),
        Pkt::Unsubscribe {
            pkid,
            filters,
            props,
        } => m::Packet::Unsubscribe(m::Unsubscribe {
            pkid: *pkid,
            filters: filters.iter().map(sv).collect(),
            properties: opt(props, unsubscribe_to),
        }),
        Pkt::UnsubAck { pkid, codes, props } => m::Packet::UnsubAck(m::UnsubAck {
            pkid: *pkid,
            reasons: codes.iter().map(|c| ua_to(*c)).collect(),
            properties: opt(props, unsuback_to),
        }),
        Pkt::PingReq => m::Packet::PingReq(m::PingReq),
        Pkt::PingResp => m::Packet::PingResp(m::PingResp),
        Pkt::Disconnect { reason, props } => m::Packet::Disconnect(m::Disconnect {
            reason_code: dc_to(*reason),
            properties: opt(props, disconnect_to),
        }),
    }
}

fn connect_model(c: &m::Connect, will: &Option<m::LastWill>, login: &Option<m::Login>) -> Pkt {
    Pkt::Connect {
        keep_alive: c.keep_alive,
        client_id: bv(&c.client_id),
        clean_start: c.clean_start,
        props: tpo(&c.properties, connect_from),
        will: will.as_ref().map(will_model),
        login: login.as_ref().map(login_model),
    }
}

pub fn model(p: &m::Packet) -> Pkt {
    match p {
        m::Packet::Connect(c, w, l) => connect_model(c, w, l),
        m::Packet::ConnAck(a) => Pkt::ConnAck {
            session_present: a.session_present,
            code: cc_from(a.code),
            props: tpo(&a.properties, connack_from),
        },
        m::Packet::Publish(a) => Pkt::Publish {
            dup: a.dup,
            qos: qos_from(a.qos),
            retain: a.retain,
            topic: bv(&a.topic),
            pkid: a.pkid,
            payload: yb(&a.payload),
            props: tpo(&a.properties, publish_from),
        },
        m::Packet::PubAck(a) => Pkt::Ack {
            t: 4,
            pkid: a.pkid,
            reason: pa_from(a.reason),
            props: tpo(&a.properties, puback_from),
        },
        m::Packet::PubRec(a) => Pkt::Ack {
            t: 5,
            pkid: a.pkid,
            reason: pr_from(a.reason),
            props: tpo(&a.properties, pubrec_from),
        },
        m::Packet::PubRel(a) => Pkt::Ack {
            t: 6,
            pkid: a.pkid,
            reason: prel_from(a.reason),
            props: tpo(&a.properties, pubrel_from),
        },
        m::Packet::PubComp(a) => Pkt::Ack {
            t: 7,
            pkid: a.pkid,
            reason: pcomp_from(a.reason),
            props: tpo(&a.properties, pubcomp_from),
        },
        m::Packet::Subscribe(a) => Pkt::Subscribe {
            pkid: a.pkid,
            filters: a.filters.iter().map(filt_model).collect(),
            props: tpo(&a.properties, subscribe_from),
        },
        m::Packet::SubAck(a) => Pkt::SubAck {
            pkid: a.pkid,
            codes: a.return_codes.iter().map(sa_from).collect(),
            props: tpo(&a.properties, suback_from),
        },
        m::Packet::Unsubscribe(a) => Pkt::Unsubscribe {
            pkid: a.pkid,
            filters: a.filters.iter().map(bv).collect(),
            props: tpo(&a.properties, unsubscribe_from),
        },
        m::Packet::UnsubAck(a) => Pkt::UnsubAck {
            pkid: a.pkid,
            codes: a.reasons.iter().map(|c| ua_from(*c)).collect(),
            props: tpo(&a.properties, unsuback_from),
        },
        m::Packet::PingReq(_) => Pkt::PingReq,
        m::Packet::PingResp(_) => Pkt::PingResp,
        m::Packet::Disconnect(a) => Pkt::Disconnect {
            reason: dc_from(a.reason_code),
            props: tpo(&a.properties, disconnect_from),
        },
    }
}

struct Native(m::Packet);
impl Held for Native {
    fn model(&self) -> Pkt {
        model(&self.0)
    }
    fn write(&self, out: &mut BytesMut) -> Result<usize, CErr> {
        self.0.write(out).map_err(cerr)
    }
    fn same(&self, other: &dyn Held) -> bool {
        other
            .as_any()
            .downcast_ref::<Native>()
            .is_some_and(|o| o.0 == self.0)
    }
    fn as_any(&self) -> &dyn Any {
        self
    }
    fn shown(&self) -> [String; 2] {
        shown(&self.0)
    }
}
fn shown(p: &m::Packet) -> [String; 2] {
    [format!("{p:?}"), format!("{p:#?}")]
}
fn error(e: m::Error) -> (CErr, [String; 2]) {
    (cerr(e), [e.to_string(), format!("{e:?}")])
}

fn typed_read_native(h: m::FixedHeader, b: Bytes) -> Option<Result<m::Packet, m::Error>> {
    use m::{Packet as P, PacketType as T};
    let t = h.packet_type().ok()?;
    Some(match t {
        T::Connect => m::Connect::read(h, b).map(|(c, w, l)| P::Connect(c, w, l)),
        T::ConnAck => m::ConnAck::read(h, b).map(P::ConnAck),
        T::Publish => m::Publish::read(h, b).map(P::Publish),
        T::PubAck => m::PubAck::read(h, b).map(P::PubAck),
        T::PubRec => m::PubRec::read(h, b).map(P::PubRec),
        T::PubRel => m::PubRel::read(h, b).map(P::PubRel),
        T::PubComp => m::PubComp::read(h, b).map(P::PubComp),
        T::Subscribe => m::Subscribe::read(h, b).map(P::Subscribe),
        T::SubAck => m::SubAck::read(h, b).map(P::SubAck),
        T::Unsubscribe => m::Unsubscribe::read(h, b).map(P::Unsubscribe),
        T::UnsubAck => m::UnsubAck::read(h, b).map(P::UnsubAck),
        T::Disconnect => m::Disconnect::read(h, b).map(P::Disconnect),
        T::PingReq | T::PingResp => return None,
    })
}

#[derive(Clone, Copy)]
pub struct Mqtt;

impl Codec for Mqtt {
    fn name(&self) -> &'static str {
        cfg::NAME
    }
    fn text(&self) -> bool {
        cfg::NAME != "binary"
    }
    fn read_held(&self, s: &mut BytesMut, max: Option<usize>) -> Result<Box<dyn Held>, CErr> {
        match m::Packet::read(s, max) {
            Ok(p) => Ok(Box::new(Native(p))),
            Err(e) => Err(cerr(e)),
        }
    }
    fn read_alloc(&self, s: &mut BytesMut, max: Option<usize>) -> (Result<Pkt, CErr>, Alloc) {
        let (r, a) = measure(|| m::Packet::read(s, max));
        (r.map(|p| model(&p)).map_err(cerr), a)
    }
    fn check(&self, b: &[u8], max: Option<usize>) -> Result<Hdr, CErr> {
        let h = m::check(b.iter(), max).map_err(cerr)?;
        Ok(Hdr {
            frame_len: h.frame_length(),
            ptype: h.packet_type().map(ptype_from).map_err(cerr),
        })
    }
    fn check_alloc(&self, b: &[u8], max: Option<usize>) -> (Result<usize, CErr>, Alloc) {
        let (r, a) = measure(|| m::check(b.iter(), max));
        (r.map(|h| h.frame_length()).map_err(cerr), a)
    }
    fn write(&self, p: &Pkt, out: &mut BytesMut) -> Result<usize, CErr> {
        native(p).write(out).map_err(cerr)
    }
    fn write_alloc(&self, p: &Pkt) -> (Result<usize, CErr>, Alloc) {
        let p = native(p);
        let mut b = BytesMut::new();
        let (r, a) = measure(|| p.write(&mut b));
        (r.map_err(cerr), a)
    }
    fn balance(&self, f: &mut dyn FnMut()) -> Alloc {
        measure(f).1
    }
    fn size(&self, p: &Pkt) -> Option<usize> {
        use m::Packet as P;
        Some(match native(p) {
            P::ConnAck(x) => x.size(),
            P::Publish(x) => x.size(),
            P::PubAck(x) => x.size(),
            P::PubRec(x) => x.size(),
            P::PubRel(x) => x.size(),
            P::PubComp(x) => x.size(),
            P::Subscribe(x) => x.size(),
            P::SubAck(x) => x.size(),
            P::Unsubscribe(x) => x.size(),
            P::UnsubAck(x) => x.size(),
            P::Disconnect(x) => x.size(),
            P::Connect(..) | P::PingReq(_) | P::PingResp(_) => return None,
        })
    }
    fn native_eq(&self, p: &Pkt, canon: &Pkt) -> Result<(bool, usize), CErr> {
        let mut b = BytesMut::new();
        native(p).write(&mut b).map_err(cerr)?;
        let q = m::Packet::read(&mut b, None).map_err(cerr)?;
        Ok((q == native(canon), b.len()))
    }
    fn same(&self, a: &Pkt, b: &Pkt) -> bool {
        native(a) == native(b)
    }
    fn held_same(&self, a: &dyn Held, b: &Pkt) -> bool {
        a.same(&Native(native(b)))
    }
    fn clone_of(&self, p: &Pkt) -> (Pkt, bool) {
        let a = native(p);
        #[allow(clippy::redundant_clone)]
        let b = a.clone();
        (model(&b), a == b)
    }
    fn typed_write(&self, p: &Pkt, out: &mut BytesMut) -> Result<usize, CErr> {
        use m::Packet as P;
        match &native(p) {
            P::Connect(c, w, l) => c.write(w, l, out),
            P::ConnAck(x) => x.write(out),
            P::Publish(x) => x.write(out),
            P::PubAck(x) => x.write(out),
            P::PubRec(x) => x.write(out),
            P::PubRel(x) => x.write(out),
            P::PubComp(x) => x.write(out),
            P::Subscribe(x) => x.write(out),
            P::SubAck(x) => x.write(out),
            P::Unsubscribe(x) => x.write(out),
            P::UnsubAck(x) => x.write(out),
            P::Disconnect(x) => x.write(out),
            P::PingReq(_) => m::PingReq::write(out),
            P::PingResp(_) => m::PingResp::write(out),
        }
        .map_err(cerr)
    }
    fn typed_read(&self, frame: &[u8]) -> Option<Result<Pkt, CErr>> {
        let h = match m::check(frame.iter(), None) {
            Ok(h) => h,
            Err(e) => return Some(Err(cerr(e))),
        };
        // a header put together by hand must serve as well as one from check()
        let used = vcore::spec::varint_used(&frame[1..]);
        let h = m::FixedHeader::new(frame[0], used, h.frame_length() - 1 - used);
        let r = typed_read_native(h, Bytes::copy_from_slice(frame))?;
        Some(r.map(|p| model(&p)).map_err(cerr))
    }
    fn section_write(
        &self,
        s: Section,
        p: &[Prop],
        out: &mut BytesMut,
    ) -> Option<Result<(), CErr>> {
        Some(
            match s {
                Section::Connect => connect_to(p).write(out),
                Section::Will => will_to(p).write(out),
                Section::ConnAck => connack_to(p).write(out),
                Section::Publish => publish_to(p).write(out),
                Section::PubAck => puback_to(p).write(out),
                Section::PubRec => pubrec_to(p).write(out),
                Section::PubRel => pubrel_to(p).write(out),
                Section::PubComp => pubcomp_to(p).write(out),
                Section::Subscribe => subscribe_to(p).write(out),
                Section::SubAck => suback_to(p).write(out),
                Section::Unsubscribe => unsubscribe_to(p).write(out),
                Section::UnsubAck => unsuback_to(p).write(out),
                Section::Disconnect => return None,
            }
            .map_err(cerr),
        )
    }
    fn section_read(&self, s: Section, b: &mut Bytes) -> Result<Props, CErr> {
        match s {
            Section::Connect => m::ConnectProperties::read(b).map(|p| tpo(&p, connect_from)),
            Section::Will => m::LastWillProperties::read(b).map(|p| tpo(&p, will_from)),
            Section::ConnAck => m::ConnAckProperties::read(b).map(|p| tpo(&p, connack_from)),
            Section::Publish => m::PublishProperties::read(b).map(|p| tpo(&p, publish_from)),
            Section::PubAck => m::PubAckProperties::read(b).map(|p| tpo(&p, puback_from)),
            Section::PubRec => m::PubRecProperties::read(b).map(|p| tpo(&p, pubrec_from)),
            Section::PubRel => m::PubRelProperties::read(b).map(|p| tpo(&p, pubrel_from)),
            Section::PubComp => m::PubCompProperties::read(b).map(|p| tpo(&p, pubcomp_from)),
            Section::Subscribe => m::SubscribeProperties::read(b).map(|p| tpo(&p, subscribe_from)),
            Section::SubAck => m::SubAckProperties::read(b).map(|p| tpo(&p, suback_from)),
            Section::Unsubscribe => {
                m::UnsubscribeProperties::read(b).map(|p| tpo(&p, unsubscribe_from))
            }
            Section::UnsubAck => m::UnsubAckProperties::read(b).map(|p| tpo(&p, unsuback_from)),
            Section::Disconnect => {
                m::DisconnectProperties::extract(b).map(|p| tpo(&p, disconnect_from))
            }
        }
        .map_err(cerr)
    }
    fn filters_read(&self, b: &mut Bytes) -> Result<Vec<Filt>, CErr> {
        m::Filter::read(b)
            .map(|v| v.iter().map(filt_model).collect())
            .map_err(cerr)
    }
    fn filter_write(&self, f: &Filt, out: &mut BytesMut) -> Result<(), CErr> {
        filt_native(f).write(out).map_err(cerr)
    }
    fn will_read(&self, flags: u8, b: &mut Bytes) -> Result<Option<Will>, CErr> {
        m::LastWill::read(flags, b)
            .map(|w| w.as_ref().map(will_model))
            .map_err(cerr)
    }
    fn will_write(&self, w: &Will, out: &mut BytesMut) -> Result<u8, CErr> {
        will_native(w).write(out).map_err(cerr)
    }
    fn login_read(&self, flags: u8, b: &mut Bytes) -> Result<Option<(Bin, Bin)>, CErr> {
        m::Login::read(flags, b)
            .map(|l| l.as_ref().map(login_model))
            .map_err(cerr)
    }
    fn login_write(&self, u: &Bin, p: &Bin, out: &mut BytesMut) -> Result<u8, CErr> {
        login_native(u, p).write(out).map_err(cerr)
    }
    fn qos(&self, n: u8) -> Option<u8> {
        m::qos(n).map(qos_from)
    }
    fn disconnect_code(&self, n: u8) -> Result<u8, CErr> {
        m::DisconnectReasonCode::try_from(n)
            .map(dc_from)
            .map_err(cerr)
    }
    fn shown(&self, p: &Pkt) -> [String; 2] {
        shown(&native(p))
    }
    fn read_error(&self, b: &[u8], max: Option<usize>) -> Vec<(CErr, [String; 2])> {
        let mut out = Vec::new();
        let h = m::check(b.iter(), max);
        let _ = format!("{h:?}");
        if let Ok(h) = &h {
            out.extend(h.packet_type().err().map(error));
        }
        out.extend(h.err().map(error));
        out.extend(m::Packet::read(&mut BytesMut::from(b), max).err().map(error));
        out
    }
    fn write_error(&self, p: &Pkt) -> Option<(CErr, [String; 2])> {
        native(p).write(&mut BytesMut::new()).err().map(error)
    }
    fn numbers(&self) -> Vec<(String, u8, u8)> {
        let types = (1..=14u8).map(|n| {
            let t = ptype_to(n);
            (format!("{t:?}"), t as u8, n)
        });
        let levels = (0..=2u8).map(|n| (format!("{:?}", qos_to(n)), qos_to(n) as u8, n));
        let codes = vcore::spec::DISCONNECT_CODES
            .iter()
            .map(|n| (format!("{:?}", dc_to(*n)), dc_to(*n) as u8, *n));
        types.chain(levels).chain(codes).collect()
    }
    fn qos_cmp(&self, a: u8, b: u8) -> Option<std::cmp::Ordering> {
        qos_to(a).partial_cmp(&qos_to(b))
    }
    fn qos_default(&self) -> u8 {
        qos_from(m::QoS::default())
    }
    fn header(&self, (b, n, len): HdrArgs) -> Hdr {
        let h = m::FixedHeader::new(b, n, len);
        Hdr {
            frame_len: h.frame_length(),
            ptype: h.packet_type().map(ptype_from).map_err(cerr),
        }
    }
    fn header_cmp(&self, a: HdrArgs, b: HdrArgs) -> (bool, Option<std::cmp::Ordering>) {
        let a = m::FixedHeader::new(a.0, a.1, a.2);
        let b = m::FixedHeader::new(b.0, b.1, b.2);
        (a == b, a.partial_cmp(&b))
    }
    fn check_gives(&self, b: &[u8], h: HdrArgs) -> Result<bool, CErr> {
        let c = m::check(b.iter(), None).map_err(cerr)?;
        Ok(c == m::FixedHeader::new(h.0, h.1, h.2))
    }
    fn constructors(&self, c: &CtorArgs) -> Vec<(&'static str, Pkt, Pkt)> {
        constructors(c)
    }
    fn new_string(&self, s: &'static str) -> Bin {
        bv(&m::mqtt_string_new(s))
    }
}

names!(ptype_to, ptype_from, PacketType, {
    Connect = 1, ConnAck = 2, Publish = 3, PubAck = 4, PubRec = 5, PubRel = 6, PubComp = 7, Subscribe = 8, SubAck = 9, Unsubscribe = 10, UnsubAck = 11, PingReq = 12, PingResp = 13, Disconnect = 14,
});

fn constructors(c: &CtorArgs) -> Vec<(&'static str, Pkt, Pkt)> {
    use m::Packet as P;
    let user: Props = c.user.as_ref().map(|u| {
        u.iter()
            .map(|(a, b)| Prop {
                id: 0x26,
                val: Val::Pair(a.clone(), b.clone()),
            })
            .collect()
    });
    let mut out = Vec::new();
    let mut add = |l, p: m::Packet, want: Pkt| out.push((l, model(&p), want));
    add(
        "Publish::new",
        P::Publish(m::Publish::new(
            sv(&c.a),
            qos_to(c.qos),
            by(&c.b),
            opt(&user, publish_to),
        )),
        Pkt::Publish {
            dup: false,
            qos: c.qos,
            retain: false,
            topic: c.a.clone(),
            pkid: 0,
            payload: c.b.clone(),
            props: user.clone(),
        },
    );
    let ack = |t| Pkt::Ack {
        t,
        pkid: c.pkid,
        reason: 0,
        props: user.clone(),
    };
    add(
        "PubAck::new",
        P::PubAck(m::PubAck::new(c.pkid, opt(&user, puback_to))),
        ack(4),
    );
    add(
        "PubRec::new",
        P::PubRec(m::PubRec::new(c.pkid, opt(&user, pubrec_to))),
        ack(5),
    );
    add(
        "PubRel::new",
        P::PubRel(m::PubRel::new(c.pkid, opt(&user, pubrel_to))),
        ack(6),
    );
    add(
        "PubComp::new",
        P::PubComp(m::PubComp::new(c.pkid, opt(&user, pubcomp_to))),
        ack(7),
    );
    let f = |b: &Bin| Filt {
        path: b.clone(),
        qos: c.qos,
        nolocal: false,
        rap: false,
        rh: 0,
    };
    add(
        "Subscribe::new",
        P::Subscribe(m::Subscribe::new(
            m::Filter::new(sv(&c.a), qos_to(c.qos)),
            opt(&user, subscribe_to),
        )),
        Pkt::Subscribe {
            pkid: 0,
            filters: vec![f(&c.a)],
            props: user.clone(),
        },
    );
    add(
        "Subscribe::new_many",
        P::Subscribe(m::Subscribe::new_many(
            [&c.b, &c.a].map(|x| m::Filter::new(sv(x), qos_to(c.qos))),
            opt(&user, subscribe_to),
        )),
        Pkt::Subscribe {
            pkid: 0,
            filters: vec![f(&c.b), f(&c.a)],
            props: user.clone(),
        },
    );
    add(
        "Unsubscribe::new",
        P::Unsubscribe(m::Unsubscribe::new(sv(&c.a), opt(&user, unsubscribe_to))),
        Pkt::Unsubscribe {
            pkid: 0,
            filters: vec![c.a.clone()],
            props: user.clone(),
        },
    );
    add(
        "Disconnect::new",
        P::Disconnect(m::Disconnect::new(dc_to(c.code))),
        Pkt::Disconnect {
            reason: c.code,
            props: None,
        },
    );
    let connect = |properties, login| {
        P::Connect(
            m::Connect {
                keep_alive: c.pkid,
                client_id: sv(&c.a),
                clean_start: false,
                properties: Some(properties),
            },
            None,
            login,
        )
    };
    let want = |login| Pkt::Connect {
        keep_alive: c.pkid,
        client_id: c.a.clone(),
        clean_start: false,
        props: Some(vec![]),
        will: None,
        login,
    };
    add(
        "Login::new, ConnectProperties::new",
        connect(
            m::ConnectProperties::new(),
            Some(m::Login::new(sv(&c.a), sv(&c.b))),
        ),
        want(Some((c.a.clone(), c.b.clone()))),
    );
    add(
        "ConnectProperties::default",
        connect(m::ConnectProperties::default(), None),
        want(None),
    );
    for (l, properties) in [
        ("ConnAckProperties::new", m::ConnAckProperties::new()),
        (
            "ConnAckProperties::default",
            m::ConnAckProperties::default(),
        ),
    ] {
        add(
            l,
            P::ConnAck(m::ConnAck {
                session_present: true,
                code: m::ConnectReturnCode::Success,
                properties: Some(properties),
            }),
            Pkt::ConnAck {
                session_present: true,
                code: 0,
                props: Some(vec![]),
            },
        );
    }
    add(
        "Publish::default",
        P::Publish(m::Publish::default()),
        Pkt::Publish {
            dup: false,
            qos: 0,
            retain: false,
            topic: Bin::default(),
            pkid: 0,
            payload: Bin::default(),
            props: None,
        },
    );
    out
}
