//! Compares the assumed contracts of gen/model.rs with the real bytes crate and std on
//! sampled values. Each `op!` names the contract it exercises; the driver lists the
//! contracts no op exercises. A panic inside a contract's precondition is a disagreement.
use crate::gen::Rng;
use bytes::{Buf, BufMut, Bytes, BytesMut};
use std::borrow::Cow;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Log { pub ops: BTreeMap<&'static str, u64>, pub bad: Option<String> }

fn be16(v: u16) -> Vec<u8> { vec![(v / 256) as u8, (v % 256) as u8] }
fn be32(v: u32) -> Vec<u8> { vec![(v / 16777216) as u8, (v / 65536 % 256) as u8, (v / 256 % 256) as u8, (v % 256) as u8] }
fn rd16(b: &[u8]) -> u16 { (b[0] as u32 * 256 + b[1] as u32) as u16 }
fn rd32(b: &[u8]) -> u32 { (b[0] as u64 * 16777216 + b[1] as u64 * 65536 + b[2] as u64 * 256 + b[3] as u64) as u32 }

/// well-formed UTF-8 by the Unicode standard's table 3-7
pub fn utf8(b: &[u8]) -> bool {
    let c = |x: u8| x / 64 == 2;
    let mut i = 0;
    while i < b.len() {
        let r = &b[i..];
        i += match r[0] {
            0..=0x7f => 1,
            0xc2..=0xdf if r.len() > 1 && c(r[1]) => 2,
            0xe0 if r.len() > 2 && (0xa0..=0xbf).contains(&r[1]) && c(r[2]) => 3,
            0xe1..=0xec | 0xee | 0xef if r.len() > 2 && c(r[1]) && c(r[2]) => 3,
            0xed if r.len() > 2 && (0x80..=0x9f).contains(&r[1]) && c(r[2]) => 3,
            0xf0 if r.len() > 3 && (0x90..=0xbf).contains(&r[1]) && c(r[2]) && c(r[3]) => 4,
            0xf1..=0xf3 if r.len() > 3 && c(r[1]) && c(r[2]) && c(r[3]) => 4,
            0xf4 if r.len() > 3 && (0x80..=0x8f).contains(&r[1]) && c(r[2]) && c(r[3]) => 4,
            _ => return false,
        };
    }
    true
}
fn blob(r: &mut Rng) -> Vec<u8> {
    let n = match r.n(8) { 0 => 0, 1 => 1, 2..=5 => r.u(12), 6 => r.u(200), _ => r.u(5000) };
    match r.n(3) { 0 => (0..n).map(|_| r.next() as u8).collect(), 1 => (0..n).map(|_| *r.pick(&[0u8, 1, 0x7f, 0x80, 0xff, 0xc2, 0xe2, 0x82, 0xac])).collect(), _ => (0..n).map(|i| i as u8).collect() }
}
fn text(r: &mut Rng) -> String {
    let n = r.u(10);
    (0..n).map(|_| match r.n(5) { 0 => 'a', 1 => '\u{e9}', 2 => '\u{20ac}', 3 => '\u{1f600}', _ => char::from_u32(r.n(0x110000) as u32).unwrap_or('\u{feff}') }).collect()
}
fn utf_try(l: &mut Log, b: &[u8]) {
    *l.ops.entry("from_utf8").or_insert(0) += 1;
    let got = std::str::from_utf8(b);
    if got.is_ok() != utf8(b) || got.map_or(false, |s| s.as_bytes() != b) { l.bad.get_or_insert(format!("from_utf8 of {b:?}: accepted {}, table 3-7 says {}", got.is_ok(), utf8(b))); }
}
/// one random step on a Bytes together with what the contracts say it holds
fn bytes_step(l: &mut Log, r: &mut Rng, x: &mut Bytes, m: &mut Vec<u8>) {
    macro_rules! op { ($n:literal, $real:expr, $want:expr) => {{ *l.ops.entry($n).or_insert(0) += 1; let (a, b) = ($real, $want); if a != b { l.bad.get_or_insert(format!("{} gives {:?}, the contract says {:?}; content {:?}", $n, a, b, m)); } }} }
    let n = if m.is_empty() { 0 } else { r.u(m.len() + 1) };
    match r.n(24) {
        0 => op!("Bytes::len", x.len(), m.len()),
        1 => op!("Bytes::remaining", x.remaining(), m.len()),
        2 => op!("Bytes::is_empty", x.is_empty(), m.len() == 0),
        3 => op!("Bytes::has_remaining", x.has_remaining(), m.len() > 0),
        4 => { x.advance(n); m.drain(..n); op!("Bytes::advance", &x[..], &m[..]) }
        5 => { let a = x.split_to(n); let b: Vec<u8> = m.drain(..n).collect(); op!("Bytes::split_to", &a[..], &b[..]) }
        6 => { let a = x.split_off(n); let b: Vec<u8> = m.drain(n..).collect(); op!("Bytes::split_off", &a[..], &b[..]) }
        7 => { let a = x.copy_to_bytes(n); let b: Vec<u8> = m.drain(..n).collect(); op!("Bytes::copy_to_bytes", &a[..], &b[..]) }
        8 => { let k = n + r.u(3); x.truncate(k); if k <= m.len() { m.truncate(k); } op!("Bytes::truncate", &x[..], &m[..]) }
        9 if r.p(1, 4) => { x.clear(); m.clear(); op!("Bytes::clear", x.len(), 0) }
        10 if m.len() >= 1 => { let v = m.remove(0); op!("Bytes::get_u8", x.get_u8(), v) }
        11 if m.len() >= 2 => { let v = rd16(m); m.drain(..2); op!("Bytes::get_u16", x.get_u16(), v) }
        12 if m.len() >= 4 => { let v = rd32(m); m.drain(..4); op!("Bytes::get_u32", x.get_u32(), v) }
        13 => op!("Bytes::iter", x.iter().copied().collect::<Vec<u8>>(), m.clone()),
        14 => op!("Bytes::chunk", x.chunk(), &m[..]),
        15 => op!("Bytes::copy_from_slice", Bytes::copy_from_slice(&m[..]), &m[..]),
        16 => { let mut o = m.clone(); if r.b() && !o.is_empty() { let k = r.u(o.len()); o[k] ^= 1 << r.n(8); } op!("Bytes::eq", *x == o[..], *m == o) }
        17 => op!("Bytes::as_ref", AsRef::<[u8]>::as_ref(x), &m[..]),
        18 => op!("Bytes::deref", &**x, &m[..]),
        19 => op!("Bytes::clone", &x.clone()[..], &m[..]),
        20 => { op!("Bytes::new", Bytes::new().len(), 0); op!("Bytes::default", Bytes::default().len(), 0) }
        21 => {
            let mut it = x.iter(); let mut k = 0;
            for _ in 0..r.u(m.len() + 3).min(40) {
                let j = k; let left = m[k..].to_vec();
                match r.n(4) {
                    0 => op!("Iter::len", it.len(), left.len()),
                    1 => op!("Iter::as_slice", it.as_slice(), &left[..]),
                    2 => op!("Iter::clone", it.clone().copied().collect::<Vec<u8>>(), left),
                    _ => { let a = it.next().copied(); if j < m.len() { k += 1; } op!("Iter::next", a, m.get(j).copied()); op!("Iter::next", it.as_slice(), &m[k..]) }
                }
            }
        }
        22 => utf_try(l, &m[..m.len().min(40)]),
        _ => { if m.len() < 50 { *m = blob(r); *x = Bytes::from(m.clone()); } }
    }
    if x[..] != m[..] { l.bad.get_or_insert(format!("Bytes holds {:?} where the contracts say {:?}", &x[..], m)); }
}
fn mut_step(l: &mut Log, r: &mut Rng, x: &mut BytesMut, m: &mut Vec<u8>) {
    macro_rules! op { ($n:literal, $real:expr, $want:expr) => {{ *l.ops.entry($n).or_insert(0) += 1; let (a, b) = ($real, $want); if a != b { l.bad.get_or_insert(format!("{} gives {:?}, the contract says {:?}; content {:?}", $n, a, b, m)); } }} }
    let n = if m.is_empty() { 0 } else { r.u(m.len() + 1) };
    let v = r.next();
    match r.n(22) {
        0 => op!("BytesMut::len", x.len(), m.len()),
        1 => op!("BytesMut::is_empty", x.is_empty(), m.len() == 0),
        2 | 3 => { x.put_u8(v as u8); m.push(v as u8); op!("BytesMut::put_u8", &x[..], &m[..]) }
        4 => { x.put_u16(v as u16); m.extend(be16(v as u16)); op!("BytesMut::put_u16", &x[..], &m[..]) }
        5 => { x.put_u32(v as u32); m.extend(be32(v as u32)); op!("BytesMut::put_u32", &x[..], &m[..]) }
        6 => { let b = blob(r); x.put_slice(&b); m.extend(&b); op!("BytesMut::put_slice", &x[..], &m[..]) }
        7 => { let b = blob(r); x.extend_from_slice(&b); m.extend(&b); op!("BytesMut::extend_from_slice", &x[..], &m[..]) }
        8 => { x.reserve(r.u(10000)); op!("BytesMut::reserve", &x[..], &m[..]) }
        9 => { let k = n + r.u(3); x.truncate(k); if k <= m.len() { m.truncate(k); } op!("BytesMut::truncate", &x[..], &m[..]) }
        10 if r.p(1, 4) => { x.clear(); m.clear(); op!("BytesMut::clear", x.len(), 0) }
        11 => { x.advance(n); m.drain(..n); op!("BytesMut::advance", &x[..], &m[..]) }
        12 => { let a = x.split_to(n); let b: Vec<u8> = m.drain(..n).collect(); op!("BytesMut::split_to", &a[..], &b[..]) }
        13 => { let a = x.split_off(n); let b: Vec<u8> = m.drain(n..).collect(); op!("BytesMut::split_off", &a[..], &b[..]) }
        14 => { let a = std::mem::take(x).freeze(); op!("BytesMut::freeze", &a[..], &m[..]); m.clear(); let mut a = a; let mut b = a.to_vec(); for _ in 0..r.n(6) { bytes_step(l, r, &mut a, &mut b); } }
        15 => op!("BytesMut::iter", x.iter().copied().collect::<Vec<u8>>(), m.clone()),
        16 if n < m.len() => op!("BytesMut::get_index_", x[n], m[n]),
        17 if n < m.len() => { x[n] = v as u8; m[n] = v as u8; op!("BytesMut::set_index_", &x[..], &m[..]) }
        18 => op!("BytesMut::deref", &**x, &m[..]),
        _ => { let b = blob(r); x.extend_from_slice(&b); m.extend(&b); }
    }
    if m.len() > 40000 { x.clear(); m.clear(); }
    if x[..] != m[..] { l.bad.get_or_insert(format!("BytesMut holds {:?} where the contracts say {:?}", &x[..], m)); }
}
fn text_step(l: &mut Log, r: &mut Rng) {
    let s = text(r);
    let m: Vec<u8> = s.as_bytes().to_vec();
    let t = if r.b() { s.clone() } else { text(r) };
    macro_rules! op { ($n:literal, $real:expr, $want:expr) => {{ *l.ops.entry($n).or_insert(0) += 1; let (a, b) = ($real, $want); if a != b { l.bad.get_or_insert(format!("{} gives {:?}, the contract says {:?}; text {:?}", $n, a, b, s)); } }} }
    macro_rules! each { ($v:expr) => {{ let v = $v;
        op!("MString::len", v.len(), m.len()); op!("MString::is_empty", v.is_empty(), m.is_empty()); op!("MString::as_bytes", v.as_bytes(), &m[..]);
        op!("MString::as_ref", AsRef::<str>::as_ref(&v).as_bytes(), &m[..]); op!("MString::eq", &*v == &t[..], m == t.as_bytes()); op!("MString::clone", v.clone().as_bytes().to_vec(), m.clone());
    }} }
    each!(s.clone()); each!(s.clone().into_boxed_str()); each!(Cow::<'static, str>::Owned(s.clone()));
    op!("MString::as_str", s.as_str().as_bytes(), &m[..]);
    op!("MString::default", String::default().len() + Box::<str>::default().len() + Cow::<'static, str>::default().len(), 0);
    let k: &str = &s;
    op!("Str::len", k.len(), m.len()); op!("Str::is_empty", k.is_empty(), m.is_empty()); op!("Str::as_bytes", k.as_bytes(), &m[..]); op!("Str::eq", k == &t[..], m == t.as_bytes());
    op!("Str::to_string", k.to_string().into_bytes(), m.clone()); op!("Str::to_owned", k.to_owned().into_bytes(), m.clone());
    op!("Str::into", { let a: String = k.into(); a.into_bytes() }, m.clone()); op!("Str::into", { let a: Box<str> = k.into(); a.as_bytes().to_vec() }, m.clone());
    op!("Cow::Borrowed", { let c: Cow<str> = Cow::Borrowed(k); c.as_bytes().to_vec() }, m.clone());
    op!("Cow::Owned", { let c: Cow<'static, str> = Cow::Owned(s.clone()); c.as_bytes().to_vec() }, m.clone());
    op!("text is UTF-8", utf8(&m), true);
    let mut b = m.clone(); if !b.is_empty() { let i = r.u(b.len()); match r.n(3) { 0 => b[i] = r.next() as u8, 1 => { b.remove(i); } _ => b.truncate(i) } }
    utf_try(l, &b);
    let v = r.next();
    op!("ToBe_<2>::to_be_", (v as u16).to_be_bytes().to_vec(), be16(v as u16)); op!("ToBe_<4>::to_be_", (v as u32).to_be_bytes().to_vec(), be32(v as u32));
    let q = v.to_le_bytes();
    op!("u16_from_be_", u16::from_be_bytes([q[0], q[1]]), rd16(&q)); op!("u32_from_be_", u32::from_be_bytes([q[0], q[1], q[2], q[3]]), rd32(&q));
    op!("u8_from_bool_", (u8::from(false), u8::from(true)), (0, 1));
}
fn run(l: &mut Log, seed: u64, n: u64) {
    let mut r = Rng::new(seed);
    // every sequence of up to three bytes that begins like a multi-byte character, and of four at the edges
    if seed & 7 == 0 {
        for a in 0..=255u8 { utf_try(l, &[a]); for b in 0..=255u8 { utf_try(l, &[a, b]); if a >= 0xc0 { for c in 0..=255u8 { utf_try(l, &[a, b, c]); if a >= 0xf0 && [0x7f, 0x80, 0xbf, 0xc0].contains(&c) { for d in [0, 0x7f, 0x80, 0xbf, 0xc0, 0xff] { utf_try(l, &[a, b, c, d]); } } } } } }
        for v in 0..=u16::MAX { if v.to_be_bytes().to_vec() != be16(v) || rd16(&v.to_be_bytes()) != v { l.bad.get_or_insert(format!("be16 {v}")); } }
    }
    let (mut x, mut m) = (Bytes::new(), vec![]);
    let (mut y, mut k) = (BytesMut::new(), vec![]);
    for i in 0..n {
        bytes_step(l, &mut r, &mut x, &mut m);
        mut_step(l, &mut r, &mut y, &mut k);
        if i % 4 == 0 { text_step(l, &mut r); }
        if l.bad.is_some() { return; }
    }
}
pub fn model(seed: u64, n: u64) -> Log {
    let parts: Vec<Log> = std::thread::scope(|s| {
        let h: Vec<_> = (0..8).map(|k| s.spawn(move || {
            let mut l = Log { ops: BTreeMap::new(), bad: None };
            if let Err(e) = catch_unwind(AssertUnwindSafe(|| run(&mut l, (seed << 3) + k, n / 8))) {
                l.bad.get_or_insert(format!("panic within a precondition: {}", e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default()));
            }
            l
        })).collect();
        h.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let mut o = Log { ops: BTreeMap::new(), bad: None };
    for p in parts { for (k, v) in p.ops { *o.ops.entry(k).or_insert(0) += v; } if o.bad.is_none() { o.bad = p.bad; } }
    o
}
