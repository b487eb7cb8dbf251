//! Packet values of the search program, an encoder and a decoder written from the MQTT 5
//! layout only (no code of the library under check), and the conversions to and from the
//! library's own types.
use crate::api::*;
use mqtt_bytes_v5 as r;
use serde::{Deserialize, Serialize};

pub const MAXVI: u64 = 268_435_455;

#[derive(Clone, PartialEq, Eq, Default)]
pub struct Blob(pub Vec<u8>);
impl Serialize for Blob {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&self.text())
    }
}
impl<'de> Deserialize<'de> for Blob {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        if let Some((a, n)) = s.split_once('*') {
            let b = u8::from_str_radix(a, 16).map_err(serde::de::Error::custom)?;
            return Ok(Blob(vec![b; n.parse().map_err(serde::de::Error::custom)?]));
        }
        (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16)).collect::<Result<Vec<u8>, _>>().map(Blob).map_err(serde::de::Error::custom)
    }
}
impl Blob {
    pub fn text(&self) -> String {
        let b = &self.0;
        if b.len() > 40 && b.iter().all(|x| *x == b[0]) {
            return format!("{:02x}*{}", b[0], b.len());
        }
        b.iter().map(|x| format!("{x:02x}")).collect()
    }
}
impl std::fmt::Debug for Blob {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        if self.0.len() > 200 {
            let h = self.0.iter().fold(0xcbf2_9ce4_8422_2325u64, |h, b| (h ^ *b as u64).wrapping_mul(0x100_0000_01b3));
            write!(f, "{}..({} bytes, hash {h:x})", Blob(self.0[..200].to_vec()).text(), self.0.len())
        } else { write!(f, "{}", self.text()) }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind { U8, U16, U32, Vi, Str, Bin, Up, Ids }

#[derive(Clone, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub enum Val { No, N(u64), S(Blob), U(Vec<(Blob, Blob)>), I(Vec<u64>) }

#[derive(Clone, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub struct Props { pub t: u8, pub v: Vec<Val> }

#[derive(Clone, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub struct Filt { pub path: Blob, pub qos: u8, pub nolocal: bool, pub retain: bool, pub rule: u8 }
#[derive(Clone, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub struct Will { pub topic: Blob, pub message: Blob, pub qos: u8, pub retain: bool, pub props: Option<Props> }

#[derive(Clone, PartialEq, Eq, Debug, Serialize, Deserialize)]
pub enum M {
    Connect { keep: u16, id: Blob, clean: bool, props: Option<Props>, will: Option<Will>, login: Option<(Blob, Blob)> },
    ConnAck { sp: bool, code: u8, props: Option<Props> },
    Publish { dup: bool, qos: u8, retain: bool, topic: Blob, pkid: u16, payload: Blob, props: Option<Props> },
    Ack { k: u8, pkid: u16, code: u8, props: Option<Props> },
    Subscribe { pkid: u16, filters: Vec<Filt>, props: Option<Props> },
    SubAck { pkid: u16, codes: Vec<u8>, props: Option<Props> },
    Unsubscribe { pkid: u16, filters: Vec<Blob>, props: Option<Props> },
    UnsubAck { pkid: u16, codes: Vec<u8>, props: Option<Props> },
    PingReq,
    PingResp,
    Disconnect { code: u8, props: Option<Props> },
}

// ------------------------------------------------------------------ the library's types
#[cfg(feature = "boxed_string")]
pub type Ms = Box<str>;
#[cfg(feature = "cow_string")]
pub type Ms = std::borrow::Cow<'static, str>;
#[cfg(feature = "binary_string")]
pub type Ms = bytes::Bytes;
#[cfg(not(any(feature = "boxed_string", feature = "cow_string", feature = "binary_string")))]
pub type Ms = String;

#[cfg(feature = "binary_string")]
pub fn ms(b: &Blob) -> Ms { bytes::Bytes::from(b.0.clone()) }
#[cfg(not(feature = "binary_string"))]
pub fn ms(b: &Blob) -> Ms { String::from_utf8(b.0.clone()).expect("text").into() }
#[cfg(feature = "binary_string")]
pub fn sb(s: &Ms) -> Vec<u8> { s.to_vec() }
#[cfg(not(feature = "binary_string"))]
pub fn sb(s: &Ms) -> Vec<u8> { s.as_bytes().to_vec() }
pub const RAW: bool = cfg!(feature = "binary_string");

/// the same bytes in differently held buffers: what is read or written must not depend on it. The choice follows from the bytes, so that a case replays
pub fn shape(b: &[u8], salt: u64) -> u64 {
    let mut h = 0xcbf29ce484222325u64 ^ salt.wrapping_mul(0x9e3779b97f4a7c15);
    for x in b.iter().take(64).chain(b.iter().rev().take(64)) { h = (h ^ *x as u64).wrapping_mul(0x100000001b3); }
    (h ^ b.len() as u64 ^ (h >> 29)).wrapping_mul(0x9e3779b97f4a7c15) >> 33
}
/// -> (buffer, another owner of the same memory)
pub fn held(b: &[u8], salt: u64) -> (bytes::BytesMut, Option<bytes::BytesMut>) {
    use bytes::{Buf, BytesMut};
    let with = |n: usize| { let mut x = BytesMut::with_capacity(n); x.extend_from_slice(b); x };
    let h = shape(b, salt);
    match h % 10 {
        0 => (with(b.len() + 1 + (h as usize >> 8) % 64), None),
        1 => (with(b.len() + 4096), None),
        2 => (with(if b.len() < 1 << 16 { 1 << 17 } else { b.len() + 10 }), None),
        3 => { let n = 1 + (h as usize >> 8) % 9; let mut x = BytesMut::from(&[&vec![0xA5; n][..], b].concat()[..]); x.advance(n); (x, None) }
        4 => { let n = 1 + (h as usize >> 8) % 9; let mut x = BytesMut::from(&[&vec![0xA5; n][..], b].concat()[..]); let y = x.split_to(n); (x, Some(y)) }
        5 => { let mut x = BytesMut::from(&[b, &[0x5A; 40][..]].concat()[..]); let y = x.split_off(b.len()); (x, Some(y)) }
        6 => { let mut x = with(b.len() + 3); let y = x.split_off(x.capacity()); (x, Some(y)) }
        _ => (BytesMut::from(b), None),
    }
}
struct Few(Vec<u8>);
impl std::fmt::Write for Few { fn write_str(&mut self, s: &str) -> std::fmt::Result { self.0.extend_from_slice(s.as_bytes()); if self.0.len() > 400 { Err(std::fmt::Error) } else { Ok(()) } } }
pub fn print(x: &impl std::fmt::Debug) -> u64 { let mut f = Few(vec![]); let _ = std::fmt::Write::write_fmt(&mut f, format_args!("{x:?}")); shape(&f.0, 1) }
pub fn mb(b: &Blob) -> bytes::Bytes {
    let h = shape(&b.0, 2);
    match h % 5 {
        0 => { let x = bytes::Bytes::from([&[0xA5; 3][..], &b.0, &[0x5A; 5][..]].concat()); x.slice(3..3 + b.0.len()) }
        1 => { let (x, y) = held(&b.0, 3); drop(y); x.freeze() }
        _ => bytes::Bytes::from(b.0.clone()),
    }
}
pub fn on(v: &Val) -> Option<u64> { if let Val::N(x) = v { Some(*x) } else { None } }
pub fn ob(v: &Val) -> Option<&Blob> { if let Val::S(x) = v { Some(x) } else { None } }
pub fn up(v: &Val) -> Vec<(Ms, Ms)> { if let Val::U(x) = v { x.iter().map(|(a, b)| (ms(a), ms(b))).collect() } else { vec![] } }
pub fn ids(v: &Val) -> Vec<usize> { if let Val::I(x) = v { x.iter().map(|a| *a as usize).collect() } else { vec![] } }
pub fn nn(x: Option<u64>) -> Val { x.map_or(Val::No, Val::N) }

pub fn to_real(m: &M) -> r::Packet {
    match m {
        M::Connect { keep, id, clean, props, will, login } => r::Packet::Connect(
            r::Connect { keep_alive: *keep, client_id: ms(id), clean_start: *clean, properties: props.as_ref().map(to_ConnectProperties) },
            will.as_ref().map(|w| r::LastWill { topic: mb(&w.topic), message: mb(&w.message), qos: to_QoS(w.qos), retain: w.retain, properties: w.props.as_ref().map(to_LastWillProperties) }),
            login.as_ref().map(|(u, p)| r::Login { username: ms(u), password: ms(p) }),
        ),
        M::ConnAck { sp, code, props } => r::Packet::ConnAck(r::ConnAck { session_present: *sp, code: to_ConnectReturnCode(*code), properties: props.as_ref().map(to_ConnAckProperties) }),
        M::Publish { dup, qos, retain, topic, pkid, payload, props } => r::Packet::Publish(r::Publish { dup: *dup, qos: to_QoS(*qos), retain: *retain, topic: ms(topic), pkid: *pkid, payload: mb(payload), properties: props.as_ref().map(to_PublishProperties) }),
        M::Ack { k, pkid, code, props } => to_ack(*k, *pkid, *code, props),
        M::Subscribe { pkid, filters, props } => r::Packet::Subscribe(r::Subscribe {
            pkid: *pkid,
            filters: filters.iter().map(|f| r::Filter { path: ms(&f.path), qos: to_QoS(f.qos), nolocal: f.nolocal, preserve_retain: f.retain, retain_forward_rule: to_RetainForwardRule(f.rule) }).collect(),
            properties: props.as_ref().map(to_SubscribeProperties),
        }),
        M::SubAck { pkid, codes, props } => r::Packet::SubAck(r::SubAck { pkid: *pkid, return_codes: codes.iter().map(|c| to_SubscribeReasonCode(*c)).collect(), properties: props.as_ref().map(to_SubAckProperties) }),
        M::Unsubscribe { pkid, filters, props } => r::Packet::Unsubscribe(r::Unsubscribe { pkid: *pkid, filters: filters.iter().map(ms).collect(), properties: props.as_ref().map(to_UnsubscribeProperties) }),
        M::UnsubAck { pkid, codes, props } => r::Packet::UnsubAck(r::UnsubAck { pkid: *pkid, reasons: codes.iter().map(|c| to_UnsubAckReason(*c)).collect(), properties: props.as_ref().map(to_UnsubAckProperties) }),
        M::PingReq => r::Packet::PingReq(r::PingReq),
        M::PingResp => r::Packet::PingResp(r::PingResp),
        M::Disconnect { code, props } => r::Packet::Disconnect(r::Disconnect { reason_code: to_DisconnectReasonCode(*code), properties: props.as_ref().map(to_DisconnectProperties) }),
    }
}
pub fn from_real(p: &r::Packet) -> M {
    match p {
        r::Packet::Connect(c, w, l) => M::Connect {
            keep: c.keep_alive,
            id: Blob(sb(&c.client_id)),
            clean: c.clean_start,
            props: c.properties.as_ref().map(from_ConnectProperties),
            will: w.as_ref().map(|w| Will { topic: Blob(w.topic.to_vec()), message: Blob(w.message.to_vec()), qos: from_QoS(&w.qos), retain: w.retain, props: w.properties.as_ref().map(from_LastWillProperties) }),
            login: l.as_ref().map(|l| (Blob(sb(&l.username)), Blob(sb(&l.password)))),
        },
        r::Packet::ConnAck(a) => M::ConnAck { sp: a.session_present, code: from_ConnectReturnCode(&a.code), props: a.properties.as_ref().map(from_ConnAckProperties) },
        r::Packet::Publish(p) => M::Publish { dup: p.dup, qos: from_QoS(&p.qos), retain: p.retain, topic: Blob(sb(&p.topic)), pkid: p.pkid, payload: Blob(p.payload.to_vec()), props: p.properties.as_ref().map(from_PublishProperties) },
        r::Packet::PubAck(_) | r::Packet::PubRec(_) | r::Packet::PubRel(_) | r::Packet::PubComp(_) => from_ack(p),
        r::Packet::Subscribe(s) => M::Subscribe {
            pkid: s.pkid,
            filters: s.filters.iter().map(|f| Filt { path: Blob(sb(&f.path)), qos: from_QoS(&f.qos), nolocal: f.nolocal, retain: f.preserve_retain, rule: from_RetainForwardRule(&f.retain_forward_rule) }).collect(),
            props: s.properties.as_ref().map(from_SubscribeProperties),
        },
        r::Packet::SubAck(s) => M::SubAck { pkid: s.pkid, codes: s.return_codes.iter().map(from_SubscribeReasonCode).collect(), props: s.properties.as_ref().map(from_SubAckProperties) },
        r::Packet::Unsubscribe(s) => M::Unsubscribe { pkid: s.pkid, filters: s.filters.iter().map(|f| Blob(sb(f))).collect(), props: s.properties.as_ref().map(from_UnsubscribeProperties) },
        r::Packet::UnsubAck(s) => M::UnsubAck { pkid: s.pkid, codes: s.reasons.iter().map(from_UnsubAckReason).collect(), props: s.properties.as_ref().map(from_UnsubAckProperties) },
        r::Packet::PingReq(_) => M::PingReq,
        r::Packet::PingResp(_) => M::PingResp,
        r::Packet::Disconnect(d) => M::Disconnect { code: from_DisconnectReasonCode(&d.reason_code), props: d.properties.as_ref().map(from_DisconnectProperties) },
    }
}
/// the size a packet announces, where its type offers one
pub fn real_size(p: &r::Packet) -> Option<usize> {
    Some(match p {
        r::Packet::ConnAck(a) => a.size(),
        r::Packet::Publish(a) => a.size(),
        r::Packet::PubAck(_) | r::Packet::PubRec(_) | r::Packet::PubRel(_) | r::Packet::PubComp(_) => ack_size(p),
        r::Packet::Subscribe(a) => a.size(),
        r::Packet::SubAck(a) => a.size(),
        r::Packet::Unsubscribe(a) => a.size(),
        r::Packet::UnsubAck(a) => a.size(),
        r::Packet::Disconnect(a) => a.size(),
        _ => return None,
    })
}

// ------------------------------------------------------------------ encoder
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Why { Short, StrBound, Utf8, Section, BadVi, UnknownProp(u8), NotAllowed(u8), Code(u8), QoS(u8), Rule(u8), PkidZero, Empty, WillBits, Proto, Level(u8), FirstByte, Type(u8), NoBody, TooLong, Vi, NoCode }
type E = Result<(), Why>;

pub fn e_vi(mut x: u64) -> Vec<u8> {
    let mut o = vec![];
    loop {
        let b = (x % 128) as u8;
        x /= 128;
        o.push(if x > 0 { b | 128 } else { b });
        if x == 0 { return o; }
    }
}
pub fn put_vi(o: &mut Vec<u8>, x: u64) -> E { if x > MAXVI { Err(Why::Vi) } else { o.extend(e_vi(x)); Ok(()) } }
pub fn put_s(o: &mut Vec<u8>, b: &Blob) -> E {
    if b.0.len() > 65535 { return Err(Why::TooLong); }
    o.extend((b.0.len() as u16).to_be_bytes());
    o.extend(&b.0);
    Ok(())
}
pub fn items(p: &Props) -> Result<Vec<Vec<u8>>, Why> {
    let mut out = vec![];
    for ((_, id, k), v) in SETS[p.t as usize].1.iter().zip(&p.v) {
        match v {
            Val::No => {}
            Val::N(x) => {
                let mut o = vec![*id];
                match k {
                    Kind::U8 => o.push(*x as u8),
                    Kind::U16 => o.extend((*x as u16).to_be_bytes()),
                    Kind::U32 => o.extend((*x as u32).to_be_bytes()),
                    _ => put_vi(&mut o, *x)?,
                }
                out.push(o);
            }
            Val::S(b) => { let mut o = vec![*id]; put_s(&mut o, b)?; out.push(o); }
            Val::U(l) => for (a, b) in l { let mut o = vec![*id]; put_s(&mut o, a)?; put_s(&mut o, b)?; out.push(o); },
            Val::I(l) => for x in l { let mut o = vec![*id]; put_vi(&mut o, *x)?; out.push(o); },
        }
    }
    Ok(out)
}
pub fn put_sec(o: &mut Vec<u8>, p: &Option<Props>) -> E {
    match p {
        None => o.push(0),
        Some(p) => {
            let it = items(p)?;
            put_vi(o, it.iter().map(|x| x.len() as u64).sum())?;
            for x in it { o.extend(x); }
        }
    }
    Ok(())
}
pub fn put_code(o: &mut Vec<u8>, t: usize, c: u8) -> E { o.push(TABLES[t].1[c as usize].1.ok_or(Why::NoCode)?); Ok(()) }
pub fn enc_will(o: &mut Vec<u8>, w: &Will) -> E { put_sec(o, &w.props)?; put_s(o, &w.topic)?; put_s(o, &w.message) }
pub fn connect_flags(clean: bool, will: &Option<Will>, login: &Option<(Blob, Blob)>) -> u8 {
    let mut f = (clean as u8) << 1;
    if let Some(w) = will { f |= 4 | (w.qos << 3) | ((w.retain as u8) << 5); }
    if let Some((u, p)) = login { f |= ((!u.0.is_empty() as u8) << 7) | ((!p.0.is_empty() as u8) << 6); }
    f
}
pub fn first_byte(m: &M) -> u8 {
    match m {
        M::Connect { .. } => 0x10, M::ConnAck { .. } => 0x20,
        M::Publish { dup, qos, retain, .. } => 0x30 | ((*dup as u8) << 3) | (qos << 1) | *retain as u8,
        M::Ack { k, .. } => ACKBYTE[*k as usize],
        M::Subscribe { .. } => 0x82, M::SubAck { .. } => 0x90, M::Unsubscribe { .. } => 0xA2, M::UnsubAck { .. } => 0xB0,
        M::PingReq => 0xC0, M::PingResp => 0xD0, M::Disconnect { .. } => 0xE0,
    }
}
pub fn put_filter(o: &mut Vec<u8>, f: &Filt) -> E { put_s(o, &f.path)?; o.push(f.qos | ((f.nolocal as u8) << 2) | ((f.retain as u8) << 3) | (f.rule << 4)); Ok(()) }
pub fn body(m: &M) -> Result<Vec<u8>, Why> {
    let mut o = vec![];
    match m {
        M::Connect { keep, id, clean, props, will, login } => {
            o.extend([0, 4, b'M', b'Q', b'T', b'T', 5]);
            o.push(connect_flags(*clean, will, login));
            o.extend(keep.to_be_bytes());
            put_sec(&mut o, props)?;
            put_s(&mut o, id)?;
            if let Some(w) = will { enc_will(&mut o, w)?; }
            if let Some((u, p)) = login { for s in [u, p] { if !s.0.is_empty() { put_s(&mut o, s)?; } } }
        }
        M::ConnAck { sp, code, props } => { o.push(*sp as u8); put_code(&mut o, CONNECTRETURNCODE, *code)?; put_sec(&mut o, props)?; }
        M::Publish { qos, topic, pkid, payload, props, .. } => {
            put_s(&mut o, topic)?;
            if *qos > 0 { if *pkid == 0 { return Err(Why::PkidZero); } o.extend(pkid.to_be_bytes()); }
            put_sec(&mut o, props)?;
            o.extend(&payload.0);
        }
        M::Ack { k, pkid, code, props } => {
            o.extend(pkid.to_be_bytes());
            if *code != 0 || props.is_some() { put_code(&mut o, ACKCODES[*k as usize], *code)?; put_sec(&mut o, props)?; }
        }
        M::Subscribe { pkid, filters, props } => { o.extend(pkid.to_be_bytes()); put_sec(&mut o, props)?; for f in filters { put_filter(&mut o, f)?; } }
        M::SubAck { pkid, codes, props } => { o.extend(pkid.to_be_bytes()); put_sec(&mut o, props)?; for c in codes { put_code(&mut o, SUBSCRIBEREASONCODE, *c)?; } }
        M::Unsubscribe { pkid, filters, props } => { o.extend(pkid.to_be_bytes()); put_sec(&mut o, props)?; for f in filters { put_s(&mut o, f)?; } }
        M::UnsubAck { pkid, codes, props } => { o.extend(pkid.to_be_bytes()); put_sec(&mut o, props)?; for c in codes { put_code(&mut o, UNSUBACKREASON, *c)?; } }
        M::PingReq | M::PingResp => {}
        M::Disconnect { code, props } => if *code != 0 || props.is_some() {
            put_code(&mut o, DISCONNECTREASONCODE, *code)?;
            if props.is_some() { put_sec(&mut o, props)?; }
        },
    }
    Ok(o)
}
pub fn fr(h: u8, b: &[u8]) -> Result<Vec<u8>, Why> { let mut o = Vec::with_capacity(b.len() + 5); o.push(h); put_vi(&mut o, b.len() as u64)?; o.extend(b); Ok(o) }
pub fn enc(m: &M) -> Result<Vec<u8>, Why> { fr(first_byte(m), &body(m)?) }

// ------------------------------------------------------------------ decoder
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Rej { pub why: Why, pub sec: bool }
impl From<Why> for Rej { fn from(why: Why) -> Rej { Rej { why, sec: false } } }
type D<T> = Result<T, Rej>;
pub enum Vi { Short, Bad, Val(usize, u64) }
pub fn vi(b: &[u8]) -> Vi {
    let mut x = 0u64;
    for i in 0..4 {
        match b.get(i) {
            None => return Vi::Short,
            Some(c) => { x += ((c & 127) as u64) << (7 * i); if c & 128 == 0 { return Vi::Val(i + 1, x); } }
        }
    }
    Vi::Bad
}
pub struct Rd<'a> { pub b: &'a [u8], pub p: usize, raw: bool }
impl<'a> Rd<'a> {
    fn left(&self) -> usize { self.b.len() - self.p }
    fn take(&mut self, n: usize) -> D<&'a [u8]> { if self.left() < n { return Err(Why::Short.into()); } let s = &self.b[self.p..self.p + n]; self.p += n; Ok(s) }
    fn u8(&mut self) -> D<u8> { Ok(self.take(1)?[0]) }
    fn u16(&mut self) -> D<u16> { let s = self.take(2)?; Ok(u16::from_be_bytes([s[0], s[1]])) }
    fn u32(&mut self) -> D<u32> { let s = self.take(4)?; Ok(u32::from_be_bytes([s[0], s[1], s[2], s[3]])) }
    fn bin(&mut self) -> D<Blob> { let n = self.u16()? as usize; if n > self.left() { return Err(Why::StrBound.into()); } Ok(Blob(self.take(n)?.to_vec())) }
    fn str(&mut self) -> D<Blob> { let b = self.bin()?; if !self.raw && std::str::from_utf8(&b.0).is_err() { return Err(Why::Utf8.into()); } Ok(b) }
    fn vi(&mut self) -> D<u64> { match vi(&self.b[self.p..]) { Vi::Val(w, n) => { self.p += w; Ok(n) } Vi::Short => Err(Why::Short.into()), Vi::Bad => Err(Why::BadVi.into()) } }
    fn sec(&mut self, t: u8) -> D<Option<Props>> { self.sec_(t).map_err(|e| Rej { why: e.why, sec: true }) }
    fn sec_(&mut self, t: u8) -> D<Option<Props>> {
        let n = self.vi()?;
        if n == 0 { return Ok(None); }
        let end = self.p as u64 + n;
        let mut out = empty(t);
        let set = SETS[t as usize].1;
        while (self.p as u64) < end {
            let id = self.u8()?;
            let Some(j) = set.iter().position(|(_, i, _)| *i == id) else {
                return Err(if PROP_IDS.contains(&id) { Why::NotAllowed(id) } else { Why::UnknownProp(id) }.into());
            };
            match set[j].2 {
                Kind::U8 => out.v[j] = Val::N(self.u8()? as u64),
                Kind::U16 => out.v[j] = Val::N(self.u16()? as u64),
                Kind::U32 => out.v[j] = Val::N(self.u32()? as u64),
                Kind::Vi => out.v[j] = Val::N(self.vi()?),
                Kind::Str => out.v[j] = Val::S(self.str()?),
                Kind::Bin => out.v[j] = Val::S(self.bin()?),
                Kind::Up => { let a = self.str()?; let b = self.str()?; if let Val::U(l) = &mut out.v[j] { l.push((a, b)); } }
                Kind::Ids => { let x = self.vi()?; if let Val::I(l) = &mut out.v[j] { l.push(x); } }
            }
        }
        if self.p as u64 != end { return Err(Why::Section.into()); }
        Ok(Some(out))
    }
}
pub const PROP_IDS: [u8; 27] = [1, 2, 3, 8, 9, 11, 17, 18, 19, 21, 22, 23, 24, 25, 26, 28, 31, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42];
pub fn empty(t: u8) -> Props { Props { t, v: SETS[t as usize].1.iter().map(|(_, _, k)| match k { Kind::Up => Val::U(vec![]), Kind::Ids => Val::I(vec![]), _ => Val::No }).collect() } }
pub fn code_of(t: usize, b: u8) -> Option<u8> { TABLES[t].1.iter().position(|(_, c)| *c == Some(b)).map(|i| i as u8) }
fn code(t: usize, b: u8) -> D<u8> { code_of(t, b).ok_or(Why::Code(b).into()) }
fn qos(b: u8) -> D<u8> { if b < 3 { Ok(b) } else { Err(Why::QoS(b).into()) } }
pub fn dec(h: u8, b: &[u8], raw: bool) -> D<M> {
    let t = h >> 4;
    match t { 12 => return Ok(M::PingReq), 13 => return Ok(M::PingResp), 0 | 15 => return Err(Why::Type(t).into()), _ => {} }
    let mut r = Rd { b, p: 0, raw };
    if t == 14 {
        if h != 0xE0 { return Err(Why::FirstByte.into()); }
        if b.is_empty() { return Ok(M::Disconnect { code: 0, props: None }); }
        let c = code(DISCONNECTREASONCODE, r.u8()?)?;
        let props = if b.len() < 2 { None } else { r.sec(DISCONNECTPROPERTIES)? };
        return Ok(M::Disconnect { code: c, props });
    }
    if b.is_empty() { return Err(Why::NoBody.into()); }
    Ok(match t {
        1 => {
            if r.str()?.0 != b"MQTT" { return Err(Why::Proto.into()); }
            let l = r.u8()?;
            if l != 5 { return Err(Why::Level(l).into()); }
            let f = r.u8()?;
            let keep = r.u16()?;
            let props = r.sec(CONNECTPROPERTIES)?;
            let id = r.str()?;
            let will = if f & 4 == 0 { if f & 0x38 != 0 { return Err(Why::WillBits.into()); } None } else {
                let props = r.sec(LASTWILLPROPERTIES)?;
                let topic = r.bin()?;
                let message = r.bin()?;
                Some(Will { topic, message, qos: qos((f >> 3) & 3)?, retain: f & 32 != 0, props })
            };
            let u = if f & 128 != 0 { r.str()? } else { Blob::default() };
            let p = if f & 64 != 0 { r.str()? } else { Blob::default() };
            M::Connect { keep, id, clean: f & 2 != 0, props, will, login: if u.0.is_empty() && p.0.is_empty() { None } else { Some((u, p)) } }
        }
        2 => { let f = r.u8()?; let c = r.u8()?; let props = r.sec(CONNACKPROPERTIES)?; M::ConnAck { sp: f & 1 != 0, code: code(CONNECTRETURNCODE, c)?, props } }
        3 => {
            let q = qos((h >> 1) & 3)?;
            let topic = r.str()?;
            let pkid = if q > 0 { r.u16()? } else { 0 };
            if q > 0 && pkid == 0 { return Err(Why::PkidZero.into()); }
            let props = r.sec(PUBLISHPROPERTIES)?;
            M::Publish { dup: h & 8 != 0, qos: q, retain: h & 1 != 0, topic, pkid, payload: Blob(b[r.p..].to_vec()), props }
        }
        4..=7 => {
            let k = t - 4;
            let pkid = r.u16()?;
            if b.len() == 2 { return Ok(M::Ack { k, pkid, code: 0, props: None }); }
            let c = code(ACKCODES[k as usize], r.u8()?)?;
            let props = if b.len() < 4 { None } else { r.sec(ACKSETS[k as usize])? };
            M::Ack { k, pkid, code: c, props }
        }
        8 => {
            let pkid = r.u16()?;
            let props = r.sec(SUBSCRIBEPROPERTIES)?;
            if r.left() == 0 { return Err(Why::Empty.into()); }
            let mut filters = vec![];
            while r.left() > 0 {
                let path = r.str()?;
                let o = r.u8()?;
                let rule = (o >> 4) & 3;
                let q = qos(o & 3)?;
                if rule > 2 { return Err(Why::Rule(rule).into()); }
                filters.push(Filt { path, qos: q, nolocal: o & 4 != 0, retain: o & 8 != 0, rule });
            }
            M::Subscribe { pkid, filters, props }
        }
        10 => { let pkid = r.u16()?; let props = r.sec(UNSUBSCRIBEPROPERTIES)?; let mut filters = vec![]; while r.left() > 0 { filters.push(r.str()?); } M::Unsubscribe { pkid, filters, props } }
        _ => {
            let pkid = r.u16()?;
            let (s, t2) = if t == 9 { (SUBACKPROPERTIES, SUBSCRIBEREASONCODE) } else { (UNSUBACKPROPERTIES, UNSUBACKREASON) };
            let props = r.sec(s)?;
            if r.left() == 0 { return Err(Why::Empty.into()); }
            let codes = b[r.p..].iter().map(|c| code(t2, *c)).collect::<D<Vec<u8>>>()?;
            if t == 9 { M::SubAck { pkid, codes, props } } else { M::UnsubAck { pkid, codes, props } }
        }
    })
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Fr { Short(u64), TooBig(u64, u64), Bad, Frame(usize, u64) }
pub fn frame(b: &[u8], max: Option<u64>) -> Fr {
    if b.len() < 2 { return Fr::Short(2 - b.len() as u64); }
    match vi(&b[1..]) {
        Vi::Short => Fr::Short(1),
        Vi::Bad => Fr::Bad,
        Vi::Val(w, n) => {
            if let Some(x) = max { if n > x { return Fr::TooBig(n, x); } }
            let t = 1 + w as u64 + n;
            if (b.len() as u64) < t { Fr::Short(t - b.len() as u64) } else { Fr::Frame(w, n) }
        }
    }
}
// ------------------------------------------------------------------ normal form
fn nfp(p: &mut Option<Props>) { if let Some(x) = p { if *x == empty(x.t) { *p = None; } } }
pub fn props_mut(m: &mut M) -> Option<&mut Option<Props>> {
    Some(match m {
        M::Connect { props, .. } | M::ConnAck { props, .. } | M::Publish { props, .. } | M::Ack { props, .. } | M::Subscribe { props, .. } | M::SubAck { props, .. }
        | M::Unsubscribe { props, .. } | M::UnsubAck { props, .. } | M::Disconnect { props, .. } => props,
        _ => return None,
    })
}
pub fn nf(m: &M) -> M {
    let mut m = m.clone();
    if let Some(p) = props_mut(&mut m) { nfp(p); }
    match &mut m {
        M::Publish { qos: 0, pkid, .. } => *pkid = 0,
        M::Connect { will, login, .. } => {
            if let Some(w) = will { nfp(&mut w.props); }
            if login.as_ref().is_some_and(|(u, p)| u.0.is_empty() && p.0.is_empty()) { *login = None; }
        }
        _ => {}
    }
    m
}
pub fn full(m: &M) -> bool { match m { M::Subscribe { filters, .. } => !filters.is_empty(), M::SubAck { codes, .. } | M::UnsubAck { codes, .. } => !codes.is_empty(), _ => true } }
/// the property sets of a packet, emptied
pub fn bare(m: &M) -> M {
    let mut m = m.clone();
    if let Some(p) = props_mut(&mut m) { *p = None; }
    if let M::Connect { will: Some(w), .. } = &mut m { w.props = None; }
    m
}
/// every string and binary field in wire order
pub fn strings(m: &M) -> Vec<Blob> {
    fn pr(p: &Option<Props>, o: &mut Vec<Blob>) {
        if let Some(p) = p { for v in &p.v { match v { Val::S(b) => o.push(b.clone()), Val::U(l) => for (a, b) in l { o.push(a.clone()); o.push(b.clone()); }, _ => {} } } }
    }
    let mut o = vec![];
    match m {
        M::Connect { id, props, will, login, .. } => {
            pr(props, &mut o);
            o.push(id.clone());
            if let Some(w) = will { pr(&w.props, &mut o); o.push(w.topic.clone()); o.push(w.message.clone()); }
            if let Some((u, p)) = login { for s in [u, p] { if !s.0.is_empty() { o.push(s.clone()); } } }
        }
        M::Publish { topic, props, .. } => { o.push(topic.clone()); pr(props, &mut o); }
        M::Subscribe { filters, props, .. } => { pr(props, &mut o); for f in filters { o.push(f.path.clone()); } }
        M::Unsubscribe { filters, props, .. } => { pr(props, &mut o); for f in filters { o.push(f.clone()); } }
        M::ConnAck { props, .. } | M::Ack { props, .. } | M::SubAck { props, .. } | M::UnsubAck { props, .. } | M::Disconnect { props, .. } => pr(props, &mut o),
        _ => {}
    }
    o
}
