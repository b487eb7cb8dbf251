//! One judgement per property: given a case, run the library on it and say what is wrong, if anything.
use crate::gen::Case;
use crate::m::*;
use crate::api::*;
use bytes::BytesMut;
use mqtt_bytes_v5 as r;
use r::Error;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub enum W { Ok(usize, Vec<u8>), Err(Error, Vec<u8>), Panic(String) }
pub enum Rr { Ok(r::Packet), Err(Error), Panic(String) }
fn msg(e: Box<dyn std::any::Any + Send>) -> String {
    e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "panic".into())
}
pub fn write_real(p: &r::Packet, prior: &[u8]) -> W {
    let (mut buf, _other) = held(prior, print(p));
    match catch_unwind(AssertUnwindSafe(|| p.write(&mut buf))) {
        Ok(Ok(n)) => W::Ok(n, buf.to_vec()),
        Ok(Err(e)) => W::Err(e, buf.to_vec()),
        Err(e) => W::Panic(msg(e)),
    }
}
pub fn write(m: &M, prior: &[u8]) -> W { write_real(&to_real(m), prior) }
pub fn read(b: &[u8], max: Option<u64>) -> (Rr, Vec<u8>) { let (mut buf, _other) = held(b, 0); let x = read_buf(&mut buf, max); (x, buf.to_vec()) }
pub fn read_buf(buf: &mut BytesMut, max: Option<u64>) -> Rr {
    match catch_unwind(AssertUnwindSafe(|| r::Packet::read(buf, max.map(|x| x as usize)))) { Ok(Ok(p)) => Rr::Ok(p), Ok(Err(e)) => Rr::Err(e), Err(e) => Rr::Panic(msg(e)) }
}
impl std::fmt::Debug for Rr { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { match self { Rr::Ok(p) => write!(f, "Ok({:?})", from_real(p)), Rr::Err(e) => write!(f, "Err({e:?})"), Rr::Panic(s) => write!(f, "panic ({s})") } } }
impl std::fmt::Debug for W { fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result { match self { W::Ok(n, b) => write!(f, "Ok({n}), buffer {:?}", Blob(b.clone())), W::Err(e, b) => write!(f, "Err({e:?}), buffer {:?}", Blob(b.clone())), W::Panic(s) => write!(f, "panic ({s})") } } }
impl Rr {
    fn m(&self) -> Option<M> { if let Rr::Ok(p) = self { Some(from_real(p)) } else { None } }
    fn err(&self) -> Option<Error> { if let Rr::Err(e) = self { Some(*e) } else { None } }
    fn panic(&self) -> bool { matches!(self, Rr::Panic(_)) }
}
fn insuf(e: &Error) -> bool { matches!(e, Error::InsufficientBytes(_)) }
fn limit(e: &Error) -> bool { matches!(e, Error::PayloadSizeLimitExceeded { .. }) }
fn show(b: &[u8]) -> String { format!("{:?}", Blob(b.to_vec())) }
fn contains_in_order(hay: &[u8], needles: &[Vec<u8>]) -> bool {
    let mut i = 0;
    for n in needles {
        match hay[i..].windows(n.len().max(1)).position(|w| w == &n[..]) { Some(p) => i += p + n.len(), None => return false }
    }
    true
}
/// a body split off a frame by the reference framing
fn split(b: &[u8]) -> Option<(u8, &[u8])> { if let Fr::Frame(w, n) = frame(b, None) { Some((b[0], &b[1 + w..1 + w + n as usize])) } else { None } }
fn dec_frame(b: &[u8]) -> Option<Result<M, Rej>> { split(b).map(|(h, x)| dec(h, x, RAW)) }
fn is_connect(m: &M) -> bool { matches!(m, M::Connect { .. }) }
/// everything but the property sets
fn connect_part(m: &M) -> Option<(u16, Blob, bool, Option<(Blob, Blob, u8, bool)>, Option<(Blob, Blob)>)> {
    if let M::Connect { keep, id, clean, will, login, .. } = m { Some((*keep, id.clone(), *clean, will.as_ref().map(|w| (w.topic.clone(), w.message.clone(), w.qos, w.retain)), login.clone())) } else { None }
}
fn connect_flags_of(m: &M) -> Option<(bool, Option<(u8, bool)>, bool, bool)> {
    if let M::Connect { clean, will, login, .. } = m { Some((*clean, will.as_ref().map(|w| (w.qos, w.retain)), login.as_ref().is_some_and(|l| !l.0 .0.is_empty()), login.as_ref().is_some_and(|l| !l.1 .0.is_empty()))) } else { None }
}
#[derive(PartialEq, Debug)]
enum Q { Pub(bool, u8, bool, u16), Will(Option<(u8, bool)>), Filters(Vec<(u8, bool, bool, u8)>), No }
fn qos_part(m: &M) -> Q {
    match m {
        M::Publish { dup, qos, retain, pkid, .. } => Q::Pub(*dup, *qos, *retain, *pkid),
        M::Connect { will, .. } => Q::Will(will.as_ref().map(|w| (w.qos, w.retain))),
        M::Subscribe { filters, .. } => Q::Filters(filters.iter().map(|f| (f.qos, f.nolocal, f.retain, f.rule)).collect()),
        _ => Q::No,
    }
}
/// lists inside property sets, and everything outside them
fn list_part(m: &M) -> Vec<Val> {
    let mut o = vec![];
    let mut m = m.clone();
    if let M::Connect { will: Some(w), .. } = &m { if let Some(p) = &w.props { o.extend(p.v.iter().filter(|v| matches!(v, Val::U(_) | Val::I(_))).cloned()); } }
    if let Some(Some(p)) = props_mut(&mut m) { o.extend(p.v.iter().filter(|v| matches!(v, Val::U(_) | Val::I(_))).cloned()); }
    o
}
fn has_props(m: &M) -> bool { *m != bare(m) }
/// what a plain reading of the case says is wrong with the library on that frame, if anything
fn differs(b: &[u8]) -> bool { let (x, _) = read(b, None); match dec_frame(b) { Some(Ok(m)) => x.m() != Some(m), Some(Err(_)) => x.err().is_none(), None => false } }
fn disc(m: &M) -> bool {
    let p = to_real(m);
    let bad = match (write_real(&p, &[]), enc(m)) {
        (W::Ok(n, a), Ok(e)) => a != e || n != e.len() || catch_unwind(AssertUnwindSafe(|| real_size(&p))).map_or(true, |s| s.is_some_and(|s| s != n)),
        (W::Err(..), Err(_)) => false,
        _ => true,
    };
    bad || enc(m).is_ok_and(|e| differs(&e))
}

/// memory in use while one frame (or what there is of it) is read
fn eval_mem(b: &[u8], tail: &[u8], max: Option<u64>) -> Option<String> {
    let (mut buf, _other) = held(&[b, tail].concat(), 0);
    let at_hand = match frame(&buf, None) { Fr::Frame(w, n) => (1 + w + n as usize).min(buf.len()), _ => buf.len() };
    let (x, used) = crate::mem::peak(|| read_buf(&mut buf, max));
    let allowed = 100 * at_hand + 4096;
    if let Rr::Panic(s) = &x { return s.contains("capacity overflow").then(|| format!("reading {} of {} bytes asks for more memory than there can be: {s}", show(b), b.len())); }
    (used > allowed).then(|| format!("reading {}: {at_hand} bytes are at hand, {used} bytes of memory are in use at one time (allowed: 100 per byte and 4096), the result is {:.200}", show(b), format!("{x:?}")))
}
pub fn eval(prop: &str, c: &Case) -> Option<String> {
    if prop == "C21" {
        return match c {
            Case::Read { b, tail, max } => eval_mem(&b.0, &tail.0, *max),
            Case::CodeR { b, .. } | Case::ViR { b, .. } => eval_mem(&b.0, &[], None),
            _ => None,
        };
    }
    match c {
        Case::Write { m, prior } => eval_write(prop, m, &prior.0),
        Case::Read { b, tail, max } => eval_read(prop, &b.0, &tail.0, *max),
        Case::Stream { parts, max } => eval_stream(prop, parts, *max),
        Case::Seq { ms } => eval_seq(prop, ms),
        Case::New { m } => if prop == "C22" { eval_new(m) } else { None },
        Case::CodeW { m, at, want, what } => eval_codew(prop, m, *at, *want, what),
        Case::CodeR { b, what } => match prop {
            "C12" => {
                let d = dec_frame(&b.0)?;
                let (x, _) = read(&b.0, None);
                match (d, x.m()) {
                    (Ok(m), got) if got.as_ref() != Some(&m) => Some(format!("{what}: frame {} must read as {m:?}, the library gives {x:?}", show(&b.0))),
                    (Err(Rej { why: Why::UnknownProp(_) | Why::Code(_) | Why::QoS(_) | Why::Rule(_) | Why::Type(_) | Why::Level(_) | Why::FirstByte, .. }), Some(got)) => Some(format!("{what}: frame {} holds a number outside the table and must be rejected, the library gives {got:?}", show(&b.0))),
                    _ => None,
                }
            }
            _ => eval_read(prop, &b.0, &[], None),
        },
        Case::ViW { m, base } => match prop {
            "C11" => {
                if disc(m) && !disc(base) {
                    return Some(format!("a length or identifier in {m:?} is not written, predicted or read as MQTT 5 says: {:?}, size() {:?}, expected {:?}; reading the expected frame gives {:?}", write(m, &[]), catch_unwind(AssertUnwindSafe(|| real_size(&to_real(m)))).ok().flatten(), enc(m).map(Blob), enc(m).ok().map(|e| read(&e, None).0)));
                }
                eval_write(prop, m, &[])
            }
            _ => eval_write(prop, m, &[]),
        },
        Case::ViR { b, base } => match prop {
            "C11" => {
                if differs(&b.0) && !differs(&base.0) { return Some(format!("frame {} holds a variable length integer and must read as {:?}, the library gives {:?}", show(&b.0), dec_frame(&b.0), read(&b.0, None).0)); }
                None
            }
            _ => eval_read(prop, &b.0, &[], None),
        },
    }
}
fn eval_codew(prop: &str, m: &M, at: usize, want: Option<u8>, what: &str) -> Option<String> {
    if prop != "C12" { return eval_write(prop, m, &[]); }
    match (write(m, &[]), want) {
        (W::Ok(_, b), Some(c)) => (b.get(at) != Some(&c)).then(|| format!("{what}: byte {at} of the written frame {} must be {c:#04x}", show(&b))),
        (W::Ok(_, b), None) => Some(format!("{what} has no MQTT 5 code but is written: {}", show(&b))),
        (W::Err(e, _), Some(c)) => Some(format!("{what}: code {c:#04x} is refused with {e:?}")),
        (W::Panic(s), _) => Some(format!("{what}: writing panics ({s})")),
        _ => None,
    }
}
fn eval_write(prop: &str, m: &M, prior: &[u8]) -> Option<String> {
    let p = to_real(m);
    let w = write_real(&p, prior);
    let app = if let W::Ok(_, a) = &w { if a.len() >= prior.len() { Some(a[prior.len()..].to_vec()) } else { Some(vec![]) } } else { None };
    let say = |t: &str| Some(format!("writing {m:?} after {} bytes {} gives {w:?}: {t}", prior.len(), show(prior)));
    match prop {
        "C01" => {
            let a = app?;
            let (x, left) = read(&a, None);
            if full(m) {
                if x.m() != Some(nf(m)) { return say(&format!("reading it back gives {x:?}")); }
                if !left.is_empty() { return say(&format!("reading it back leaves {}", show(&left))); }
                // the library's own equality on values already in normal form
                if nf(m) == *m { if let Rr::Ok(q) = &x { if *q != p { return say("the packet read back is not == to the one written"); } } }
            } else if x.err().is_none() { return say(&format!("reading it back gives {x:?}, a packet with an empty list is to be refused")); }
            None
        }
        "C02" => { let a = app?; let e = enc(m).ok()?; if a != e { say(&format!("the wire image is {}", show(&e))) } else { None } }
        "C04" => {
            let W::Ok(n, _) = &w else { return None };
            let a = app?;
            if *n != a.len() { return say(&format!("{} bytes were appended", a.len())); }
            match vi(a.get(1..).unwrap_or(&[])) {
                Vi::Val(k, l) if 1 + k as u64 + l == a.len() as u64 => {}
                Vi::Val(_, l) => return say(&format!("the remaining length says {l}")),
                _ => return say("the remaining length is no length"),
            }
            match catch_unwind(AssertUnwindSafe(|| real_size(&p))) { Ok(Some(s)) if s != a.len() => say(&format!("size() says {s}")), Err(e) => say(&format!("size() panics ({})", msg(e))), _ => None }
        }
        "C05" => match &w {
            W::Ok(_, b) => {
                if b.len() < prior.len() || b[..prior.len()] != *prior { return say("the bytes that were there before changed"); }
                let a = app?;
                if !matches!(frame(&a, None), Fr::Frame(k, l) if 1 + k as u64 + l == a.len() as u64) { return say("what was appended is not one complete frame"); }
                None
            }
            W::Err(_, b) => if b[..] != *prior { say("a refused write changed the buffer") } else { None },
            W::Panic(_) => None,
        },
        "C06" => None,
        "C07" => match (&w, enc(m)) {
            (W::Panic(_), _) => say("it must not panic"),
            (W::Ok(..), Err(y)) => say(&format!("the value is not representable ({y:?})")),
            (W::Err(..), Ok(_)) => say("the value is representable"),
            _ => match catch_unwind(AssertUnwindSafe(|| real_size(&p))) { Err(e) => say(&format!("size() panics ({})", msg(e))), _ => None },
        },
        "C08" | "C09" | "C10" | "C13" | "C19" | "C03" => { if !prior.is_empty() { return None; } let e = enc(m).ok()?; eval_read(prop, &e, &[], None) }
        "C11" => {
            let e = enc(m);
            if let (W::Ok(..), Err(Why::Vi)) = (&w, &e) { return say("a variable length integer beyond 268435455 was written"); }
            let a = app?;
            if let Vi::Val(k, l) = vi(a.get(1..).unwrap_or(&[])) { if e_vi(l).len() != k { return say("the remaining length is not minimal"); } }
            None
        }
        "C14" => {
            if let (W::Ok(..), Err(Why::TooLong)) = (&w, &enc(m)) { return say("a string or binary field of more than 65535 bytes was written"); }
            let a = app?;
            enc(m).ok()?;
            let n: Vec<Vec<u8>> = strings(m).iter().map(|s| { let mut o = vec![]; let _ = put_s(&mut o, s); o }).collect();
            if !contains_in_order(&a, &n) { return say(&format!("not every string or binary field is there, length first ({:?})", strings(m))); }
            None
        }
        "C15" => {
            if qos_part(m) == Q::No { return None; }
            let e = enc(m);
            if let (W::Ok(..), Err(Why::PkidZero)) = (&w, &e) { return say("QoS > 0 with packet id 0 was written"); }
            if let (W::Err(Error::PacketIdZero | Error::InvalidQoS(_), _), Ok(_)) = (&w, &e) { return say("the QoS and packet id are fine"); }
            let a = app?;
            let e = e.ok()?;
            if let M::Publish { qos, topic, pkid, .. } = m {
                if a.first() != e.first() { return say(&format!("the first byte must be {:#04x}", e[0])); }
                if let Vi::Val(k, _) = vi(a.get(1..)?) {
                    let x = 1 + k;
                    let t = 2 + topic.0.len();
                    if a.len() >= x + t && e_vi(a.len() as u64 - x as u64).len() == k && *qos > 0 && a[x..x + t][2..] == topic.0[..] && a.get(x + t..x + t + 2) != Some(&pkid.to_be_bytes()[..]) { return say("the packet id does not follow the topic"); }
                }
            }
            match dec_frame(&a) { Some(Ok(d)) if qos_part(&d) != qos_part(&nf(m)) => say(&format!("the bytes say {:?}", qos_part(&d))), _ => None }
        }
        "C16" => {
            if !is_connect(m) { return None; }
            let a = app?;
            let e = enc(m).ok()?;
            if a == e { return None; }
            let (Some((_, ab)), Some((_, eb))) = (split(&a), split(&e)) else { return None };
            if ab.get(7) != eb.get(7) { return say(&format!("the connect flags must be {:#04x}", eb[7])); }
            match dec_frame(&a) {
                Some(Ok(d)) => if connect_part(&d) != connect_part(&nf(m)) { say(&format!("the bytes say {:?}", connect_part(&d))) } else { None },
                _ => { let b = bare(m); let eb = enc(&b).ok()?; if let W::Ok(_, a) = write(&b, prior) { if a.get(prior.len()..) != Some(&eb[..]) { return say("flags and payload do not agree (the same holds without properties)"); } } None }
            }
        }
        "C17" => None,
        _ => None,
    }
}
fn eval_read(prop: &str, b: &[u8], tail: &[u8], max: Option<u64>) -> Option<String> {
    let buf = [b, tail].concat();
    let f = frame(&buf, max);
    let (x, left) = read(&buf, max);
    let say = |t: &str| Some(format!("reading {} with limit {max:?} gives {x:?}, leaving {} bytes: {t}", show(&buf), left.len()));
    let d = if let Fr::Frame(w, n) = &f { Some(dec(buf[0], &buf[1 + w..1 + w + *n as usize], RAW)) } else { None };
    let check = catch_unwind(AssertUnwindSafe(|| r::check(buf.iter(), max.map(|x| x as usize))));
    match prop {
        "C03" => match (&d?, x.m()) {
            (Ok(m), g) if g.as_ref() != Some(m) => say(&format!("the bytes say {m:?}")),
            (Err(y), Some(_)) => say(&format!("the frame does not follow the layout ({y:?})")),
            _ => None,
        },
        "C06" => if x.panic() { say("it must not panic") } else if let Err(e) = check { say(&format!("check() panics ({})", msg(e))) } else { None },
        "C08" => {
            let Fr::Frame(w, n) = &f else { return None };
            let k = 1 + w + *n as usize;
            if !x.panic() && left[..] != buf[k..] { return say(&format!("exactly {k} bytes are to be consumed")); }
            let (y, _) = read(&buf[..k], max);
            let same = match (&x, &y) { (Rr::Ok(p), Rr::Ok(q)) => p == q, (Rr::Err(p), Rr::Err(q)) => p == q, (Rr::Panic(_), Rr::Panic(_)) => true, _ => false };
            if !same { return say(&format!("the frame alone gives {y:?}")); }
            None
        }
        "C09" => {
            let ce = check.ok().and_then(|c| c.err());
            match &f {
                Fr::Short(k) => {
                    for (e, n) in [(x.err(), "read"), (ce, "check")] {
                        match e { Some(Error::InsufficientBytes(j)) if j >= 1 && j as u64 <= *k => {} e => if n == "read" || !x.panic() { return say(&format!("the frame is incomplete, {k} bytes are missing, {n} says {e:?}")); } }
                    }
                    if left != buf { return say("an incomplete frame was consumed"); }
                }
                Fr::Frame(..) => { if x.err().is_some_and(|e| insuf(&e)) { return say("the frame is complete"); } if ce.is_some_and(|e| insuf(&e)) { return say("check() says the frame is incomplete"); } }
                Fr::Bad => { if x.err().is_some_and(|e| insuf(&e)) || ce.is_some_and(|e| insuf(&e)) { return say("no further bytes can complete this"); } if x.err().is_some() && left != buf { return say("bytes were consumed without a frame"); } }
                Fr::TooBig(..) => {}
            }
            None
        }
        "C10" => {
            let ce = check.ok().and_then(|c| c.err());
            if let Fr::TooBig(n, m) = &f {
                for e in [x.err(), ce] { match e { Some(Error::PayloadSizeLimitExceeded { pkt_size, max }) if pkt_size as u64 == *n && max as u64 == *m => {} e => return say(&format!("the remaining length {n} exceeds the limit {m}: {e:?}")) } }
                if left != buf { return say("bytes were consumed"); }
            } else if x.err().is_some_and(|e| limit(&e)) || ce.is_some_and(|e| limit(&e)) { return say("the frame is within the limit"); }
            None
        }
        "C11" => {
            if max.is_some() { return None; }
            let bad = match (&f, &check) {
                (Fr::Frame(w, n), Ok(Ok(h))) => h.frame_length() as u64 != 1 + *w as u64 + n,
                (Fr::Frame(..), Ok(Err(_))) => true,
                (Fr::Bad, Ok(e)) => !matches!(e, Err(e) if !insuf(e)),
                (Fr::Short(_), Ok(e)) => !matches!(e, Err(e) if insuf(e)),
                (_, Err(_)) => true,
                _ => false,
            };
            if bad { return say(&format!("the remaining length is {f:?}, check() gives {check:?}")); }
            None
        }
        "C12" => None,
        "C13" => match (&d?, x.m()) {
            (Err(y), Some(_)) if y.sec && matches!(y.why, Why::Section | Why::NotAllowed(_) | Why::Short | Why::UnknownProp(_)) => say(&format!("the property section is not in order ({y:?})")),
            (Ok(m), g) if has_props(m) && g.as_ref() != Some(m) => {
                if let Ok(e) = enc(&bare(m)) { if differs(&e) { return None; } }
                match g {
                    Some(g) => if bare(&g) != bare(m) || list_part(&g) != list_part(m) || !has_props(&g) { say(&format!("the bytes say {m:?}")) } else { None },
                    None => say(&format!("the section is in order, the bytes say {m:?}; without properties the packet is read correctly")),
                }
            }
            _ => None,
        },
        "C14" => match (&d?, x.m()) {
            (Err(Rej { why: y @ (Why::Utf8 | Why::StrBound), .. }), _) if x.err().is_none() => say(&format!("a string or binary field is not in order ({y:?})")),
            (Ok(m), Some(g)) if strings(m) != strings(&g) => say(&format!("the string and binary fields are {:?}", strings(m))),
            (Ok(_), None) if matches!(x.err(), Some(Error::TopicNotUtf8 | Error::BoundaryCrossed(_))) => say("every string and binary field is in order"),
            (Ok(m), None) if x.panic() && differs(&enc(&bare(m)).ok()?) => None,
            _ => None,
        },
        "C15" => match (&d?, x.m()) {
            (Ok(m), Some(g)) if qos_part(m) != Q::No && qos_part(m) != qos_part(&g) => say(&format!("the bytes say {:?}", qos_part(m))),
            (Err(Rej { why: y @ (Why::QoS(_) | Why::PkidZero), .. }), Some(_)) => say(&format!("{y:?} must be refused")),
            (Ok(m), None) if qos_part(m) != Q::No && matches!(x.err(), Some(Error::PacketIdZero | Error::InvalidQoS(_))) => say("the QoS and packet id are fine"),
            _ => None,
        },
        "C16" => {
            if buf[0] >> 4 != 1 { return None; }
            match (&d?, x.m()) {
                (Ok(m), Some(g)) if connect_part(m) != connect_part(&g) || connect_flags_of(m) != connect_flags_of(&g) => say(&format!("the bytes say {:?}", connect_part(m))),
                (Err(Rej { why: y @ (Why::WillBits | Why::Proto | Why::Level(_)), .. }), Some(_)) => say(&format!("{y:?} must be refused")),
                (Ok(m), None) if !has_props(m) => say(&format!("the bytes say {m:?}")),
                (Ok(_), None) if matches!(x.err(), Some(Error::InvalidProtocol | Error::InvalidProtocolLevel(_) | Error::IncorrectPacketFormat)) => say("flags, name and level are fine"),
                _ => None,
            }
        }
        "C17" => {
            let Rr::Ok(p) = &x else { return None };
            match write_real(p, &[]) {
                W::Ok(_, a) => { let (y, _) = read(&a, None); match &y { Rr::Ok(q) if q == p && from_real(q) == from_real(p) => None, _ => say(&format!("written again it is {}, which reads as {y:?}", show(&a))) } }
                w => say(&format!("writing it again gives {w:?}")),
            }
        }
        "C19" => if tail.is_empty() { None } else { eval_stream(prop, &[Blob(b.to_vec()), Blob(tail.to_vec())], max) },
        _ => None,
    }
}
/// all results one gets by reading whenever possible while the chunks arrive
fn feed(parts: &[Blob], max: Option<u64>) -> (Vec<String>, Vec<u8>) {
    let (mut buf, _other) = held(&[], parts.iter().fold(parts.len() as u64, |h, p| shape(&p.0, h)));
    let mut out = vec![];
    'all: for p in parts {
        buf.extend_from_slice(&p.0);
        loop {
            let before = buf.len();
            let x = read_buf(&mut buf, max);
            match &x {
                Rr::Err(e) if insuf(e) && buf.len() == before => break,
                Rr::Panic(_) => { out.push("panic".to_string()); break 'all; }
                _ => {
                    out.push(format!("{x:?}"));
                    if buf.len() == before { out.push("stuck".into()); return (out, vec![]); }
                    if out.len() > 4000 { break 'all; }
                }
            }
        }
    }
    (out, buf.to_vec())
}
fn eval_stream(prop: &str, parts: &[Blob], max: Option<u64>) -> Option<String> {
    match prop {
        "C19" => {
            let all = Blob(parts.iter().flat_map(|p| p.0.clone()).collect());
            let (a, la) = feed(parts, max);
            let (b, lb) = feed(std::slice::from_ref(&all), max);
            if a.iter().any(|x| x == "panic") && b.iter().any(|x| x == "panic") { return None; }
            if a != b || la != lb { return Some(format!("arriving as {parts:?} (limit {max:?}) the bytes give {a:?} and leave {}, arriving at once {b:?} and leave {}", show(&la), show(&lb))); }
            // against the framing of the standard
            let mut rest = &all.0[..];
            let mut n = 0;
            loop { match frame(rest, max) { Fr::Frame(w, k) => { rest = &rest[1 + w + k as usize..]; n += 1; } Fr::Short(_) => { if la != rest || a.len() != n { return Some(format!("the bytes {:?} hold {n} frames and leave {} (limit {max:?}), the library returns {} results and leaves {}", all, show(rest), a.len(), show(&la))); } break; } _ => break } }
            None
        }
        "C08" | "C09" | "C10" | "C06" | "C17" => {
            let mut buf: Vec<u8> = vec![];
            for p in parts { buf.extend(&p.0); if let Some(v) = eval_read(prop, &buf, &[], max) { return Some(v); } if let Fr::Frame(w, n) = frame(&buf, max) { buf = buf[1 + w + n as usize..].to_vec(); } }
            None
        }
        _ => None,
    }
}
fn eval_seq(prop: &str, ms: &[M]) -> Option<String> {
    let (mut buf, _other) = held(&[], ms.iter().fold(ms.len() as u64, |h, m| h ^ print(m)));
    let mut want = vec![];
    for m in ms {
        let p = to_real(m);
        let before = buf.to_vec();
        match catch_unwind(AssertUnwindSafe(|| p.write(&mut buf))) {
            Ok(Ok(_)) => want.push(m),
            Ok(Err(_)) => if prop == "C05" && buf[..] != before[..] { return Some(format!("the refused write of {m:?} after {} changed the buffer to {}", show(&before), show(&buf))); },
            Err(_) => return if prop == "C07" { Some(format!("writing {m:?} panics")) } else { None },
        }
        if prop == "C05" && (buf.len() < before.len() || buf[..before.len()] != before[..]) { return Some(format!("writing {m:?} changed the {} bytes before it", before.len())); }
    }
    if prop != "C19" { return None; }
    let all = buf.to_vec();
    for m in &want {
        let x = read_buf(&mut buf, None);
        let ok = if full(m) { x.m() == Some(nf(m)) } else { x.err().is_some() };
        if !ok { return Some(format!("the packets {want:?} written one after the other are {}; where {m:?} is due the library reads {x:?}", show(&all))); }
    }
    if !buf.is_empty() { return Some(format!("after reading {} packets {} is left", want.len(), show(&buf))); }
    None
}
/// what the library does with a case, in a form that does not depend on the string configuration
pub fn outcome(c: &Case) -> String {
    let rd = |b: &[u8], max| { let (x, l) = read(b, max); match x { Rr::Ok(p) => format!("Ok({:?}) leaving {}", from_real(&p), l.len()), Rr::Err(e) => format!("Err{} leaving {}", if insuf(&e) || limit(&e) { format!("({e:?})") } else { String::new() }, l.len()), Rr::Panic(_) => "panic".into() } };
    match c {
        Case::Write { m, .. } | Case::CodeW { m, .. } | Case::ViW { m, .. } => {
            let p = to_real(m);
            let s = catch_unwind(AssertUnwindSafe(|| real_size(&p)));
            match write_real(&p, &[]) { W::Ok(n, b) => format!("Ok({n}) {} size {s:?}; again {}", show(&b), rd(&b, None)), W::Err(_, b) => format!("Err, buffer {}", show(&b)), W::Panic(_) => "panic".into() }
        }
        Case::Read { b, tail, max } => rd(&[&b.0[..], &tail.0[..]].concat(), *max),
        Case::CodeR { b, .. } | Case::ViR { b, .. } => rd(&b.0, None),
        Case::Stream { parts, max } => format!("{:?}", rd(&parts.iter().flat_map(|p| p.0.clone()).collect::<Vec<u8>>(), *max)),
        Case::Seq { .. } => String::new(),
        Case::New { m } => format!("{:?}", eval_new(m)),
    }
}
/// frames whose text fields hold no text: the raw-bytes configuration may treat them differently
pub fn text_only(c: &Case) -> bool {
    let bad = |b: &[u8]| { if let Fr::Frame(w, n) = frame(b, None) { matches!(dec(b[0], &b[1 + w..1 + w + n as usize], false), Err(Rej { why: Why::Utf8, .. })) } else { false } };
    match c {
        Case::Read { b, tail, .. } => !bad(&[&b.0[..], &tail.0[..]].concat()),
        Case::CodeR { b, .. } | Case::ViR { b, .. } => !bad(&b.0),
        Case::Stream { parts, .. } => !bad(&parts.iter().flat_map(|p| p.0.clone()).collect::<Vec<u8>>()),
        _ => true,
    }
}

/// constructors: the values given and the neutral value everywhere else
fn eval_new(m: &M) -> Option<String> {
    let say = |what: &str, got: &dyn std::fmt::Debug, want: &dyn std::fmt::Debug| Some(format!("{what} gives {got:?} instead of {want:?}"));
    let run = |f: &dyn Fn() -> r::Packet| catch_unwind(AssertUnwindSafe(f)).map(|p| from_real(&p)).map_err(msg);
    let cmp = |what: &str, f: &dyn Fn() -> r::Packet, want: M| { let got = run(f); if got.as_ref() == Ok(&want) { None } else { say(what, &got, &want) } };
    for (what, got, t) in [("ConnectProperties::new", from_ConnectProperties(&r::ConnectProperties::new()), CONNECTPROPERTIES), ("ConnectProperties::default", from_ConnectProperties(&r::ConnectProperties::default()), CONNECTPROPERTIES),
        ("ConnAckProperties::new", from_ConnAckProperties(&r::ConnAckProperties::new()), CONNACKPROPERTIES), ("ConnAckProperties::default", from_ConnAckProperties(&r::ConnAckProperties::default()), CONNACKPROPERTIES),
        ("PublishProperties::default", from_PublishProperties(&r::PublishProperties::default()), PUBLISHPROPERTIES)] {
        if got != empty(t) { return say(what, &got, &empty(t)); }
    }
    let nf = |path: &Blob, qos| Filt { path: path.clone(), qos, nolocal: false, retain: false, rule: 0 };
    match m {
        M::Connect { keep, id, clean, props, will, login: Some((u, p)) } => {
            let mk = || { let M::Connect { .. } = m else { unreachable!() }; let mut x = to_real(m); if let r::Packet::Connect(_, _, l) = &mut x { *l = Some(r::Login::new(ms(u), ms(p))); } x };
            cmp("Login::new", &mk, M::Connect { keep: *keep, id: id.clone(), clean: *clean, props: props.clone(), will: will.clone(), login: Some((u.clone(), p.clone())) })
        }
        M::Publish { qos, topic, payload, props, .. } => cmp("Publish::new", &|| r::Packet::Publish(r::Publish::new(ms(topic), to_QoS(*qos), mb(payload), props.as_ref().map(to_PublishProperties))), M::Publish { dup: false, qos: *qos, retain: false, topic: topic.clone(), pkid: 0, payload: payload.clone(), props: props.clone() })
            .or_else(|| cmp("Publish::default", &|| r::Packet::Publish(r::Publish::default()), M::Publish { dup: false, qos: 0, retain: false, topic: Blob::default(), pkid: 0, payload: Blob::default(), props: None })),
        M::Ack { k, pkid, props, .. } => cmp("the constructor of an acknowledgement", &|| new_ack(*k, *pkid, props), M::Ack { k: *k, pkid: *pkid, code: 0, props: props.clone() }),
        M::Subscribe { filters, props, .. } => {
            let real = |fs: &[Filt]| -> Vec<r::Filter> { fs.iter().map(|f| r::Filter { path: ms(&f.path), qos: to_QoS(f.qos), nolocal: f.nolocal, preserve_retain: f.retain, retain_forward_rule: to_RetainForwardRule(f.rule) }).collect() };
            let pr = || props.as_ref().map(to_SubscribeProperties);
            let want = |filters: Vec<Filt>| M::Subscribe { pkid: 0, filters, props: props.clone() };
            cmp("Subscribe::new_many", &|| r::Packet::Subscribe(r::Subscribe::new_many(real(filters), pr())), want(filters.clone()))
                .or_else(|| filters.first().and_then(|f| cmp("Subscribe::new", &|| r::Packet::Subscribe(r::Subscribe::new(real(&[f.clone()]).remove(0), pr())), want(vec![f.clone()]))))
                .or_else(|| filters.first().and_then(|f| cmp("Filter::new", &|| r::Packet::Subscribe(r::Subscribe { pkid: 0, filters: vec![r::Filter::new(ms(&f.path), to_QoS(f.qos))], properties: pr() }), want(vec![nf(&f.path, f.qos)]))))
                .or_else(|| cmp("Filter::default", &|| r::Packet::Subscribe(r::Subscribe { pkid: 0, filters: vec![r::Filter::default()], properties: pr() }), want(vec![nf(&Blob::default(), 0)])))
                .or_else(|| cmp("Subscribe::default", &|| r::Packet::Subscribe(r::Subscribe::default()), M::Subscribe { pkid: 0, filters: vec![], props: None }))
        }
        M::Unsubscribe { filters, props, .. } => filters.first().and_then(|f| cmp("Unsubscribe::new", &|| r::Packet::Unsubscribe(r::Unsubscribe::new(ms(f), props.as_ref().map(to_UnsubscribeProperties))), M::Unsubscribe { pkid: 0, filters: vec![f.clone()], props: props.clone() }))
            .or_else(|| cmp("Unsubscribe::default", &|| r::Packet::Unsubscribe(r::Unsubscribe::default()), M::Unsubscribe { pkid: 0, filters: vec![], props: None })),
        M::Disconnect { code, .. } => cmp("Disconnect::new", &|| r::Packet::Disconnect(r::Disconnect::new(to_DisconnectReasonCode(*code))), M::Disconnect { code: *code, props: None }),
        _ => None,
    }
}
