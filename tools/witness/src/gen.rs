//! Case generators.
use crate::api::*;
use crate::m::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Case {
    /// write this packet into a buffer that already holds `prior`
    Write { m: M, prior: Blob },
    /// read from a buffer
    Read { b: Blob, tail: Blob, max: Option<u64> },
    /// bytes arriving in chunks
    Stream { parts: Vec<Blob>, max: Option<u64> },
    /// the constructor of the packet, with the parts of m it takes
    New { m: M },
    /// several packets written into one buffer
    Seq { ms: Vec<M> },
    /// a code table row: the packet written, the position of the code byte, and its value
    CodeW { m: M, at: usize, want: Option<u8>, what: String },
    /// a frame that is legal but for one code byte
    CodeR { b: Blob, what: String },
    /// a variable length integer of value v in some place, and the same place with value 1
    ViW { m: M, base: M },
    ViR { b: Blob, base: Blob },
}

pub struct Rng(pub u64);
impl Rng {
    pub fn new(s: u64) -> Rng { Rng(s.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0x1234_5678_9ABC_DEF1) }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn n(&mut self, k: u64) -> u64 { if k == 0 { 0 } else { self.next() % k } }
    pub fn u(&mut self, k: usize) -> usize { self.n(k as u64) as usize }
    pub fn p(&mut self, a: u64, b: u64) -> bool { self.n(b) < a }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T { let i = self.u(s.len()); &s[i] }
    pub fn b(&mut self) -> bool { self.next() & 1 == 0 }
}

#[derive(Clone, Default)]
pub struct Dict { pub nums: Vec<u64>, pub strs: Vec<Vec<u8>>, pub focus: Vec<String> }

const NUMS: &[u64] = &[0, 1, 2, 3, 4, 5, 7, 8, 10, 15, 16, 31, 32, 63, 64, 100, 126, 127, 128, 129, 255, 256, 257, 1023, 1024, 4095, 4096, 16383, 16384, 16385, 32767, 32768, 65534, 65535, 65536, 2_097_151, 2_097_152, 2_097_153, 16_777_215, 16_777_216, 268_435_454, 268_435_455, 268_435_456, 0x7fff_ffff, 0x8000_0000, 0xffff_fffe, 0xffff_ffff];

pub struct Gen<'a> { pub r: Rng, pub d: &'a Dict, pub heavy: bool, pub legal: bool }
impl<'a> Gen<'a> {
    fn num(&mut self, max: u64) -> u64 {
        let x = match self.r.n(10) {
            0..=2 => self.r.n(8),
            3..=5 => *self.r.pick(NUMS),
            6..=7 if !self.d.nums.is_empty() => { let x = *self.r.pick(&self.d.nums); x.wrapping_add(self.r.n(3)).wrapping_sub(1) }
            8 => { let s = self.r.n(33); self.r.next() >> (63 - s.min(63)) }
            _ => self.r.next(),
        };
        if x > max { if self.r.b() { max - x % 3 } else { x % (max.wrapping_add(1)).max(1) } } else { x }
    }
    fn viv(&mut self) -> u64 {
        if !self.legal && self.r.p(1, 40) { return *self.r.pick(&[MAXVI + 1, MAXVI + 2, 1 << 32, u64::MAX, 1 << 35, (1 << 28) + 128]); }
        self.num(MAXVI)
    }
    fn len(&mut self) -> usize {
        match self.r.n(100) {
            0..=9 => 0,
            10..=69 => 1 + self.r.u(6),
            70..=84 => 7 + self.r.u(40),
            85..=92 => 120 + self.r.u(16),
            93..=95 => 250 + self.r.u(12),
            96 if !self.d.nums.is_empty() => { let x = *self.r.pick(&self.d.nums); if x <= 70000 { (x + self.r.n(3)).saturating_sub(1) as usize } else { 3 } }
            97 if self.r.p(1, 4) => 16370 + self.r.u(20),
            98 if self.r.p(1, 8) => *self.r.pick(&[65534, 65535, 65535]),
            99 if !self.legal && self.r.p(1, 6) => *self.r.pick(&[65536, 65537, 65536 + 5, 131072, 65536 + 256]),
            _ => self.r.u(30),
        }
    }
    pub fn text(&mut self) -> Blob {
        let n = self.len();
        if self.r.p(1, 12) && !self.d.strs.is_empty() { let s = self.r.pick(&self.d.strs).clone(); if std::str::from_utf8(&s).is_ok() { return Blob(self.around(s, n)); } }
        if n > 300 { return Blob(vec![b'a' + self.r.n(26) as u8; n]); }
        let mut s = String::new();
        while s.len() < n {
            let left = n - s.len();
            match self.r.n(12) {
                0 if left >= 2 => s.push('é'),
                1 if left >= 3 => s.push('€'),
                2 if left >= 4 => s.push('😀'),
                3 => s.push(*self.r.pick(&['/', '+', '#', '$', '\0', ' ', '\u{7f}', '\n', '\r', '\t', '/', '\\', '"', '%', '.', '-'])),
                4 if left >= 4 => s.push(*self.r.pick(&['\u{feff}', '\u{ffff}', '\u{fffe}', '\u{fdd0}', '\u{d7ff}', '\u{e000}', '\u{10ffff}', '\u{1fffe}', '\u{80}', '\u{9f}', '\u{a0}', '\u{301}', '\u{200d}', '\u{2028}', '\u{130}', 'ß', '\u{fffd}', '\u{212b}'])),
                5 => s.push((b'A' + self.r.n(26) as u8) as char),
                6 => s.push((1 + self.r.n(127) as u8) as char),
                _ => s.push((b'a' + self.r.n(26) as u8) as char),
            }
        }
        Blob(s.into_bytes())
    }
    /// a known string alone or with something before or behind it
    fn around(&mut self, mut s: Vec<u8>, n: usize) -> Vec<u8> {
        let k = n.min(12);
        match self.r.n(6) {
            0 => for _ in 0..k { let c = b'a' + self.r.n(26) as u8; s.push(c) },
            1 => for _ in 0..k { let c = b'a' + self.r.n(26) as u8; s.insert(0, c) },
            2 => for i in 0..k { let c = b'a' + self.r.n(26) as u8; if i % 2 == 0 { s.push(c) } else { s.insert(0, c) } },
            _ => {}
        }
        s
    }
    pub fn bytes(&mut self) -> Blob {
        let n = self.len();
        if self.r.p(1, 12) && !self.d.strs.is_empty() { let s = self.r.pick(&self.d.strs).clone(); return Blob(self.around(s, n)); }
        let f = self.r.next() as u8;
        if n > 300 || self.r.p(1, 4) { return Blob(vec![f; n]); }
        Blob((0..n).map(|_| self.r.next() as u8).collect())
    }
    fn count(&mut self) -> usize {
        match self.r.n(60) { 0..=9 => 0, 10..=29 => 1, 30..=41 => 2, 42..=51 => 3, 52..=57 => 4 + self.r.u(6), 58 => 10 + self.r.u(60), _ => if self.r.p(1, 10) { 120 + self.r.u(150) } else { 5 } }
    }
    fn val(&mut self, k: Kind) -> Val {
        match k {
            Kind::U8 => Val::N(self.num(255)),
            Kind::U16 => Val::N(self.num(65535)),
            Kind::U32 => Val::N(self.num(u32::MAX as u64)),
            Kind::Vi => Val::N(self.viv()),
            Kind::Str => Val::S(self.text()),
            Kind::Bin => Val::S(self.bytes()),
            Kind::Up => { let n = self.count().max(1); let small = n > 10; Val::U((0..n).map(|_| if small { (Blob(vec![b'k'; 1]), Blob(vec![b'v'; 2])) } else { (self.text(), self.text()) }).collect()) }
            Kind::Ids => { let n = self.count().max(1); Val::I((0..n).map(|_| self.viv()).collect()) }
        }
    }
    pub fn set(&mut self, t: u8) -> Props {
        let ks = SETS[t as usize].1;
        let mut p = empty(t);
        let n = ks.len();
        match self.r.n(20) {
            0..=1 => {}
            2..=6 => { let j = self.r.u(n); p.v[j] = self.val(ks[j].2); }
            7..=9 => for _ in 0..2 { let j = self.r.u(n); p.v[j] = self.val(ks[j].2); },
            10 => for _ in 0..3 { let j = self.r.u(n); p.v[j] = self.val(ks[j].2); },
            11..=12 => for j in 0..n { p.v[j] = self.val(ks[j].2); },
            13 => { let o = self.r.u(n); for j in 0..n { if j != o { p.v[j] = self.val(ks[j].2); } } }
            _ => for j in 0..n { if self.r.b() { p.v[j] = self.val(ks[j].2); } },
        }
        p
    }
    pub fn props(&mut self, t: u8) -> Option<Props> { if self.r.p(1, 4) { None } else { Some(self.set(t)) } }
    fn codei(&mut self, t: usize) -> u8 { if self.r.p(1, 3) { 0 } else { self.r.u(TABLES[t].1.len()) as u8 } }
    pub fn kind(&mut self) -> usize {
        if !self.d.focus.is_empty() && self.r.p(4, 5) {
            let f = self.r.pick(&self.d.focus).clone();
            let v: &[usize] = match f.trim_end_matches("Properties") {
                "Connect" | "LastWill" | "Login" | "Will" => &[0],
                "ConnAck" => &[1], "Publish" => &[2, 2, 2], "PubAck" => &[3], "PubRec" => &[4], "PubRel" => &[5], "PubComp" => &[6],
                "Subscribe" | "Filter" => &[7], "SubAck" => &[8], "Unsubscribe" => &[9], "UnsubAck" => &[10], "Disconnect" => &[13],
                "Ping" => &[11, 12],
                _ => &[],
            };
            if !v.is_empty() { return *self.r.pick(v); }
        }
        self.r.u(14)
    }
    pub fn m(&mut self) -> M {
        let k = self.kind();
        let mut m = self.m_of(k);
        if self.r.p(1, 7) { self.pad(&mut m); }
        m
    }
    pub fn m_of(&mut self, k: usize) -> M {
        match k {
            0 => M::Connect {
                keep: self.num(65535) as u16, id: self.text(), clean: self.r.b(), props: self.props(CONNECTPROPERTIES),
                will: if self.r.p(1, 2) { None } else { Some(Will { topic: if self.r.p(1, 5) { self.bytes() } else { self.text() }, message: self.bytes(), qos: self.r.n(3) as u8, retain: self.r.b(), props: self.props(LASTWILLPROPERTIES) }) },
                login: if self.r.p(1, 3) { None } else { let a = if self.r.p(1, 3) { Blob::default() } else { self.text() }; let b = if self.r.p(1, 3) { Blob::default() } else { self.text() }; Some((a, b)) },
            },
            1 => M::ConnAck { sp: self.r.b(), code: if self.legal { self.r.u(22) as u8 } else { self.codei(CONNECTRETURNCODE) }, props: self.props(CONNACKPROPERTIES) },
            2 => { let qos = self.r.n(3) as u8; let mut pkid = self.num(65535) as u16; if (self.legal || self.r.p(9, 10)) && pkid == 0 { pkid = 1 + self.r.n(300) as u16; }
                M::Publish { dup: self.r.b(), qos, retain: self.r.b(), topic: self.text(), pkid, payload: self.bytes(), props: self.props(PUBLISHPROPERTIES) } }
            3..=6 => { let k = k as u8 - 3; M::Ack { k, pkid: self.num(65535) as u16, code: self.codei(ACKCODES[k as usize]), props: self.props(ACKSETS[k as usize]) } }
            7 => { let n = self.count(); M::Subscribe { pkid: self.num(65535) as u16, filters: (0..n).map(|_| self.filt(n > 10)).collect(), props: self.props(SUBSCRIBEPROPERTIES) } }
            8 => { let n = self.count(); M::SubAck { pkid: self.num(65535) as u16, codes: (0..n).map(|_| self.codei(SUBSCRIBEREASONCODE)).collect(), props: self.props(SUBACKPROPERTIES) } }
            9 => { let n = self.count(); M::Unsubscribe { pkid: self.num(65535) as u16, filters: (0..n).map(|_| if n > 10 { Blob(vec![b'x'; 2]) } else { self.text() }).collect(), props: self.props(UNSUBSCRIBEPROPERTIES) } }
            10 => { let n = self.count(); M::UnsubAck { pkid: self.num(65535) as u16, codes: (0..n).map(|_| self.codei(UNSUBACKREASON)).collect(), props: self.props(UNSUBACKPROPERTIES) } }
            11 => M::PingReq,
            12 => M::PingResp,
            _ => M::Disconnect { code: self.codei(DISCONNECTREASONCODE), props: self.props(DISCONNECTPROPERTIES) },
        }
    }
    fn filt(&mut self, small: bool) -> Filt { Filt { path: if small { Blob(vec![b'x'; 3]) } else { self.text() }, qos: self.r.n(3) as u8, nolocal: self.r.b(), retain: self.r.b(), rule: self.r.n(3) as u8 } }
    /// bring the body or the property section of the packet near a length boundary
    fn pad(&mut self, m: &mut M) {
        let heavy = self.heavy && self.r.p(1, 300);
        let target = if heavy { *self.r.pick(&[2_097_151u64, 2_097_152]) } else { *self.r.pick(&[127u64, 128, 128, 127, 16383, 16384]) } + self.r.n(5);
        let Ok(b) = body(m) else { return };
        if let (M::Publish { payload, .. }, true) = (&mut *m, self.r.b()) {
            let want = (target.saturating_sub(2)).saturating_sub((b.len() - payload.0.len()) as u64);
            *payload = Blob(vec![self.r.next() as u8; want as usize]);
            return;
        }
        let sec = self.r.b();
        let t = match m { M::Connect { .. } => CONNECTPROPERTIES, M::ConnAck { .. } => CONNACKPROPERTIES, M::Publish { .. } => PUBLISHPROPERTIES, M::Ack { k, .. } => ACKSETS[*k as usize], M::Subscribe { .. } => SUBSCRIBEPROPERTIES,
            M::SubAck { .. } => SUBACKPROPERTIES, M::Unsubscribe { .. } => UNSUBSCRIBEPROPERTIES, M::UnsubAck { .. } => UNSUBACKPROPERTIES, M::Disconnect { .. } => DISCONNECTPROPERTIES, _ => return };
        let will = matches!(m, M::Connect { will: Some(_), .. }) && self.r.b();
        let (slot, t) = if will { if let M::Connect { will: Some(w), .. } = m { (&mut w.props, LASTWILLPROPERTIES) } else { unreachable!() } } else { (props_mut(m).unwrap(), t) };
        let p = slot.get_or_insert_with(|| empty(t));
        let Ok(it) = items(p) else { return };
        let have = if sec { it.iter().map(|x| x.len() as u64).sum() } else { b.len() as u64 + 1 };
        let mut need = target.saturating_sub(2).saturating_sub(have);
        for v in &mut p.v {
            if let Val::U(l) = v {
                while need >= 5 {
                    let k = (need - 5).min(60000);
                    l.push((Blob(vec![b'p'; (k / 2) as usize]), Blob(vec![b'q'; (k - k / 2) as usize])));
                    need -= k + 5;
                }
            }
        }
    }

    // ------------------------------------------------------------ frames
    fn vi_loose(&mut self, x: u64) -> Vec<u8> {
        let mut v = e_vi(x);
        if self.r.p(1, 12) && v.len() < 4 { let n = v.len(); v[n - 1] |= 128; let extra = self.r.u(4 - n); for _ in 0..extra { v.push(128); } v.push(0); }
        v
    }
    /// the body of a packet, its property sections taken apart and put together again with a twist
    fn loose(&mut self, m: &M) -> Option<Vec<u8>> {
        let mut m2 = m.clone();
        let wp = if let M::Connect { will: Some(w), .. } = &mut m2 { w.props.take() } else { None };
        let p = props_mut(&mut m2).and_then(Option::take);
        // find the sections: encode with sections missing, then splice
        let t = match &m2 { M::Connect { .. } => CONNECTPROPERTIES, M::ConnAck { .. } => CONNACKPROPERTIES, M::Publish { .. } => PUBLISHPROPERTIES, M::Ack { k, .. } => ACKSETS[*k as usize], M::Subscribe { .. } => SUBSCRIBEPROPERTIES,
            M::SubAck { .. } => SUBACKPROPERTIES, M::Unsubscribe { .. } => UNSUBSCRIBEPROPERTIES, M::UnsubAck { .. } => UNSUBACKPROPERTIES, M::Disconnect { .. } => DISCONNECTPROPERTIES, _ => return body(m).ok() };
        let s = self.section(t, &p)?;
        let mut o = vec![];
        match &m2 {
            M::Connect { keep, id, clean, will, login, .. } => {
                o.extend([0, 4, b'M', b'Q', b'T', b'T', 5]);
                let mut f = connect_flags(*clean, will, login);
                if self.r.p(1, 8) { f ^= 1 << self.r.n(8); }
                if self.r.p(1, 20) { f = self.r.next() as u8; }
                o.push(f);
                o.extend(keep.to_be_bytes());
                o.extend(s);
                put_s(&mut o, id).ok()?;
                if let Some(w) = will { let s = self.section(LASTWILLPROPERTIES, &wp)?; o.extend(s); put_s(&mut o, &w.topic).ok()?; put_s(&mut o, &w.message).ok()?; }
                if let Some((u, p)) = login { for s in [u, p] { if !s.0.is_empty() || self.r.p(1, 5) { put_s(&mut o, s).ok()?; } } }
                if self.r.p(1, 30) { let k = self.r.u(7); o[k] = o[k].wrapping_add(1 + self.r.n(3) as u8); }
            }
            M::ConnAck { sp, code, .. } => { o.push(*sp as u8 | if self.r.p(1, 8) { self.r.next() as u8 } else { 0 }); put_code(&mut o, CONNECTRETURNCODE, *code).ok()?; o.extend(s); }
            M::Publish { qos, topic, pkid, payload, .. } => { put_s(&mut o, topic).ok()?; if *qos > 0 { o.extend(pkid.to_be_bytes()); } o.extend(s); o.extend(&payload.0); }
            M::Ack { k, pkid, code, .. } => { o.extend(pkid.to_be_bytes()); if *code != 0 || p.is_some() || self.r.p(1, 3) { put_code(&mut o, ACKCODES[*k as usize], *code).ok()?; if p.is_some() || self.r.p(1, 2) { o.extend(s); } } }
            M::Subscribe { pkid, filters, .. } => { o.extend(pkid.to_be_bytes()); o.extend(s); for f in filters { put_filter(&mut o, f).ok()?; if self.r.p(1, 8) { let n = o.len(); o[n - 1] = self.r.next() as u8; } } }
            M::SubAck { pkid, codes, .. } => { o.extend(pkid.to_be_bytes()); o.extend(s); for c in codes { put_code(&mut o, SUBSCRIBEREASONCODE, *c).ok()?; } }
            M::Unsubscribe { pkid, filters, .. } => { o.extend(pkid.to_be_bytes()); o.extend(s); for f in filters { put_s(&mut o, f).ok()?; } }
            M::UnsubAck { pkid, codes, .. } => { o.extend(pkid.to_be_bytes()); o.extend(s); for c in codes { put_code(&mut o, UNSUBACKREASON, *c).ok()?; } }
            M::Disconnect { code, .. } => if *code != 0 || p.is_some() || self.r.p(1, 3) { put_code(&mut o, DISCONNECTREASONCODE, *code).ok()?; if p.is_some() || self.r.p(1, 3) { o.extend(s); } },
            _ => return None,
        }
        Some(o)
    }
    fn section(&mut self, t: u8, p: &Option<Props>) -> Option<Vec<u8>> {
        let mut it = match p { None => vec![], Some(p) => items(p).ok()? };
        match self.r.n(24) {
            0..=6 => for i in (1..it.len()).rev() { let j = self.r.u(i + 1); it.swap(i, j); },
            7..=8 => if !it.is_empty() { let x = self.r.pick(&it).clone(); let i = self.r.u(it.len() + 1); it.insert(i, x); },
            9 => { let n = self.r.u(4); for _ in 0..n { let q = self.set(t); if let Ok(x) = items(&q) { it.extend(x); } } }
            10 => { let t2 = self.r.u(SETS.len()) as u8; let q = self.set(t2); if let Ok(x) = items(&q) { if !x.is_empty() { let x = self.r.pick(&x).clone(); let i = self.r.u(it.len() + 1); it.insert(i, x); } } }
            11 => { let id = self.r.next() as u8; let n = self.r.u(6); let mut x = vec![id]; x.extend((0..n).map(|_| self.r.next() as u8)); let i = self.r.u(it.len() + 1); it.insert(i, x); }
            12 => if !it.is_empty() { let i = self.r.u(it.len()); let x = &mut it[i]; let j = x.len() - 1; x.truncate(j); },
            13 => if !it.is_empty() { let i = self.r.u(it.len()); let j = self.r.u(it[i].len()); it[i][j] = self.r.next() as u8; },
            14 => { // another width of a variable length integer
                for x in &mut it { if x[0] == 11 { if let Vi::Val(_, v) = vi(&x[1..]) { let w = self.vi_loose(v); x.truncate(1); x.extend(w); } } }
            }
            _ => {}
        }
        let mut n: i64 = it.iter().map(|x| x.len() as i64).sum();
        match self.r.n(16) {
            0 => n += *self.r.pick(&[-3i64, -2, -1, 1, 2, 3, 4, 5]),
            1 if self.r.p(1, 3) => n = *self.r.pick(NUMS) as i64,
            2 if self.r.p(1, 2) && !it.is_empty() => { let k = self.r.u(it.len()); n = it[..k].iter().map(|x| x.len() as i64).sum(); }
            _ => {}
        }
        let mut o = self.vi_loose(n.max(0) as u64 & MAXVI);
        if self.r.p(1, 200) { o = vec![0x80 | self.r.next() as u8, 0x80, 0xff, 0xff, self.r.next() as u8]; }
        for x in it { o.extend(x); }
        Some(o)
    }
    /// a whole frame (header and body agree)
    pub fn frame(&mut self) -> Vec<u8> {
        if self.r.p(1, 10) { return self.small(); }
        let legal = self.legal;
        self.legal = self.r.p(19, 20);
        let k = self.kind();
        let mut m = self.m_of(k);
        if self.r.p(1, 10) { self.pad(&mut m); }
        self.legal = legal;
        let b = if self.r.p(1, 3) { body(&m).ok() } else { self.loose(&m) };
        let Some(mut b) = b else { return self.small() };
        match self.r.n(14) {
            0 => { let k = self.r.u(b.len() + 1); b.truncate(k); }
            1 => { let n = 1 + self.r.u(6); for _ in 0..n { b.push(self.r.next() as u8); } }
            2 if !b.is_empty() => { let k = self.r.u(b.len().min(200)); b[k] = *self.r.pick(&[0u8, 1, 2, 3, 4, 5, 0x7f, 0x80, 0xff, 0x10, 0x26]); }
            3 if !b.is_empty() => { let k = self.r.u(b.len().min(200)); b[k] ^= 1 << self.r.n(8); }
            4 if !b.is_empty() => { let k = self.r.u(b.len().min(200)); b[k] = b[k].wrapping_add(*self.r.pick(&[1u8, 2, 255, 254])); }
            5 if b.len() > 1 && self.r.p(1, 2) => { let k = self.r.u(b.len().min(200)); b.remove(k); }
            6 if self.r.p(1, 2) => { let k = self.r.u(b.len().min(200) + 1); b.insert(k, self.r.next() as u8); }
            7 if b.len() < 5000 && self.r.p(1, 3) => { // break a string's text
                let k: Vec<usize> = (0..b.len()).filter(|i| b[*i].is_ascii_lowercase()).collect();
                if !k.is_empty() { b[*self.r.pick(&k)] = *self.r.pick(&[0xffu8, 0xc0, 0x80, 0xe2, 0xf8]); }
            }
            _ => {}
        }
        let mut h = first_byte(&m);
        if self.r.p(1, 8) { h = (h & 0xf0) | (self.r.next() as u8 & 15); }
        if self.r.p(1, 60) { h = self.r.next() as u8; }
        let mut o = vec![h];
        let l = self.vi_loose(b.len() as u64 & MAXVI);
        o.extend(l);
        o.extend(b);
        o
    }
    pub fn small(&mut self) -> Vec<u8> {
        let n = self.r.u(9);
        let mut o = vec![self.r.next() as u8, n as u8];
        for _ in 0..n { let x = match self.r.n(4) { 0 => self.r.next() as u8, 1 => *self.r.pick(&PROP_IDS), 2 => self.r.n(6) as u8, _ => *self.r.pick(&[0u8, 1, 2, 3, 4, 5, 0x10, 0x26, 0x7f, 0x80, 0x81, 0xff]) }; o.push(x); }
        o
    }
    pub fn max(&mut self, b: &[u8]) -> Option<u64> {
        if self.r.p(1, 2) { return None; }
        let n = if let Fr::Frame(_, n) | Fr::TooBig(n, _) = frame(b, None) { n } else { b.len() as u64 };
        Some(match self.r.n(7) { 0 => n, 1 => n + 1, 2 => n.saturating_sub(1), 3 => n.saturating_sub(1 + self.r.n(4)), 4 => b.len() as u64 - self.r.n(3).min(b.len() as u64), 5 => { let k = *self.r.pick(&[1u64 << 31, 1 << 32, 1 << 33, 1 << 40, 1 << 63, 1 << 28, 1 << 16, 1 << 8]); match self.r.n(4) { 0 => k, 1 => k - 1, 2 => k + self.r.n(8), _ => k + n.saturating_sub(self.r.n(2)) } } 6 if self.r.p(1, 3) => u64::MAX, _ => *self.r.pick(NUMS) })
    }
    pub fn read(&mut self) -> Case {
        let b = self.frame();
        let max = self.max(&b);
        let tail = match self.r.n(6) { 0..=1 => vec![], 2 => self.frame(), 3 => { let mut f = self.frame(); let k = self.r.u(f.len()); f.truncate(k); f } 4 => (0..self.r.u(12)).map(|_| self.r.next() as u8).collect(), _ => vec![*self.r.pick(&[0u8, 255, 0x26]); 1 + self.r.u(40)] };
        Case::Read { b: Blob(b), tail: Blob(tail), max }
    }
    /// a buffer that may end early, or whose header may be odd
    pub fn prefix(&mut self) -> Case {
        let mut b = match self.r.n(8) {
            0 => { let mut o = vec![self.r.next() as u8]; for _ in 0..self.r.u(6) { o.push(self.r.next() as u8 | if self.r.p(2, 3) { 128 } else { 0 }); } o }
            1 => { let mut o = vec![self.r.next() as u8]; let x = self.num(MAXVI); let v = self.vi_loose(x); o.extend(v); for _ in 0..self.r.u(5) { o.push(0); } o }
            _ => self.frame(),
        };
        let max = self.max(&b);
        let k = match self.r.n(6) { 0 => b.len(), 1 => self.r.u(6).min(b.len()), 2 => b.len().saturating_sub(1 + self.r.u(3)), _ => self.r.u(b.len() + 1) };
        b.truncate(k);
        Case::Read { b: Blob(b), tail: Blob::default(), max }
    }
    pub fn stream(&mut self) -> Case {
        let mut all = vec![];
        for _ in 0..1 + self.r.u(5) { let f = self.frame(); all.extend(f); }
        if self.r.p(1, 4) { let k = self.r.u(all.len() + 1); all.truncate(k); }
        let max = if self.r.p(1, 2) { None } else { Some(*self.r.pick(&[0u64, 1, 5, 10, 50, 127, 128, 1000, 100_000, 1 << 32, (1 << 32) + 5, u64::MAX])) };
        let mut parts = vec![];
        let mut i = 0;
        let one = self.r.p(1, 3) && all.len() < 400;
        while i < all.len() { let n = if one { 1 } else { match self.r.n(4) { 0 => 1, 1 => 2, 2 => 1 + self.r.u(8), _ => 1 + self.r.u(all.len()) } }; let j = (i + n).min(all.len()); parts.push(Blob(all[i..j].to_vec())); i = j; }
        Case::Stream { parts, max }
    }
    pub fn prior(&mut self) -> Blob { match self.r.n(4) { 0..=1 => Blob::default(), 2 => Blob((0..self.r.u(20)).map(|_| self.r.next() as u8).collect()), _ => Blob(self.frame()) } }
    pub fn write(&mut self) -> Case { let m = self.m(); let prior = self.prior(); Case::Write { m, prior } }
    pub fn new(&mut self) -> Case { let m = self.m(); Case::New { m } }
    pub fn seq(&mut self) -> Case { let n = 1 + self.r.u(6); Case::Seq { ms: (0..n).map(|_| self.m()).collect() } }
    pub fn viw(&mut self) -> Case {
        let v = if self.r.p(1, 6) { *self.r.pick(&[MAXVI + 1, MAXVI + 2, 1 << 29, 1 << 31, 1 << 32, (1 << 32) + 1, 1 << 35, 1 << 56, u64::MAX]) } else { self.num(MAXVI) };
        let mk = |k: u64, v: u64| match k {
            0 => M::Publish { dup: false, qos: 0, retain: false, topic: Blob(b"t".to_vec()), pkid: 0, payload: Blob::default(), props: Some({ let mut p = empty(PUBLISHPROPERTIES); p.v[6] = Val::I(vec![v]); p }) },
            1 => M::Subscribe { pkid: 1, filters: vec![Filt { path: Blob(b"t".to_vec()), qos: 0, nolocal: false, retain: false, rule: 0 }], props: Some({ let mut p = empty(SUBSCRIBEPROPERTIES); p.v[0] = Val::N(v); p }) },
            2 => M::Publish { dup: false, qos: 0, retain: false, topic: Blob(vec![]), pkid: 0, payload: Blob(vec![7; v.saturating_sub(3) as usize]), props: None },
            _ => { let mut p = empty(PUBLISHPROPERTIES); let mut l = vec![]; let mut need = v.max(5); while need >= 5 { let k = (need - 5).min(65000); l.push((Blob(vec![]), Blob(vec![b'u'; k as usize]))); need -= k + 5; } p.v[5] = Val::U(l);
                M::Publish { dup: false, qos: 0, retain: false, topic: Blob(vec![]), pkid: 0, payload: Blob::default(), props: Some(p) } }
        };
        let k = self.r.n(4);
        let v = if k >= 2 { let big = if self.r.p(1, 200) { 2_097_160 } else { 16_500 }; if v > big { *self.r.pick(&[126u64, 127, 128, 129, 16382, 16383, 16384, 16385, 255, 256, 300]) } else { v } } else { v };
        Case::ViW { m: mk(k, v), base: mk(k, 1) }
    }
    pub fn vir(&mut self) -> Case {
        let v: Vec<u8> = match self.r.n(4) {
            0 => { let x = self.num(MAXVI); e_vi(x) }
            1 => { let x = self.num(MAXVI); self.vi_loose(x) }
            2 => (0..self.r.u(6)).map(|_| self.r.next() as u8 | if self.r.p(3, 4) { 128 } else { 0 }).collect(),
            _ => { let mut v: Vec<u8> = (0..1 + self.r.u(3)).map(|_| self.r.next() as u8 | 128).collect(); v.push(self.r.next() as u8 & 127); v }
        };
        // as a subscription identifier of a publish, or of a subscribe
        let k = self.r.b();
        let mk = |v: &[u8]| { let mut b = if k { vec![0, 1, b't'] } else { vec![0, 9] }; b.push(v.len() as u8 + 1); b.push(11); b.extend(v); if !k { b.extend([0, 1, b't', 0]); } fr(if k { 0x30 } else { 0x82 }, &b).unwrap() };
        Case::ViR { b: Blob(mk(&v)), base: Blob(mk(&[1])) }
    }
}

/// single codes in otherwise plain packets: every variant written, every byte value read
pub fn tables() -> Vec<Case> {
    let mut o = vec![];
    let t = || Blob(b"t".to_vec());
    let cw = |o: &mut Vec<Case>, m: M, at: usize, want: Option<u8>, what: &str| o.push(Case::CodeW { m, at, want, what: what.into() });
    let variants = |e: usize| TABLES[e].1.iter().enumerate().map(|(i, (n, c))| (i as u8, *c, format!("{}::{}", TABLES[e].0, n))).collect::<Vec<_>>();
    for (i, c, w) in variants(CONNECTRETURNCODE) { cw(&mut o, M::ConnAck { sp: false, code: i, props: None }, 3, c, &w); }
    for k in 0..4u8 { for (i, c, w) in variants(ACKCODES[k as usize]) { let mut p = empty(ACKSETS[k as usize]); p.v[0] = Val::S(t()); cw(&mut o, M::Ack { k, pkid: 1, code: i, props: Some(p) }, 4, c, &w); } }
    for (i, c, w) in variants(SUBSCRIBEREASONCODE) { cw(&mut o, M::SubAck { pkid: 1, codes: vec![i], props: None }, 5, c, &w); }
    for (i, c, w) in variants(UNSUBACKREASON) { cw(&mut o, M::UnsubAck { pkid: 1, codes: vec![i], props: None }, 5, c, &w); }
    for (i, c, w) in variants(DISCONNECTREASONCODE) { let mut p = empty(DISCONNECTPROPERTIES); p.v[0] = Val::N(1); cw(&mut o, M::Disconnect { code: i, props: Some(p) }, 2, c, &w); }
    for q in 0..3u8 { for rule in 0..3u8 { cw(&mut o, M::Subscribe { pkid: 1, filters: vec![Filt { path: t(), qos: q, nolocal: false, retain: false, rule }], props: None }, 8, Some(q | rule << 4), "filter options (QoS and retain handling)"); } }
    for q in 0..3u8 { cw(&mut o, M::Publish { dup: false, qos: q, retain: false, topic: t(), pkid: 1, payload: t(), props: None }, 0, Some(0x30 | q << 1), "publish first byte (QoS)"); }
    for q in 0..3u8 { cw(&mut o, M::Connect { keep: 1, id: t(), clean: false, props: None, will: Some(Will { topic: t(), message: t(), qos: q, retain: false, props: None }), login: None }, 9, Some(4 | q << 3), "connect flags (will QoS)"); }
    let one = |k: Kind| match k { Kind::U8 => Val::N(1), Kind::U16 => Val::N(258), Kind::U32 => Val::N(0x0102_0304), Kind::Vi => Val::N(5), Kind::Str | Kind::Bin => Val::S(t()), Kind::Up => Val::U(vec![(t(), t())]), Kind::Ids => Val::I(vec![5]) };
    // property identifiers
    for (s, (name, fs)) in SETS.iter().enumerate() {
        for (j, (f, id, k)) in fs.iter().enumerate() {
            let mut p = empty(s as u8);
            p.v[j] = one(*k);
            if let Some((m, at)) = carrier(s as u8, Some(p)) { cw(&mut o, m, at, Some(*id), &format!("{name}.{f}")); }
        }
    }
    // packet types
    for k in 0..14 { let d = Dict::default(); let mut g = Gen { r: Rng::new(k), d: &d, heavy: false, legal: true }; let m = g.m_of(k as usize); let h = first_byte(&m); cw(&mut o, m, 0, Some(h), "packet type"); }
    // reading
    let mut cr = |b: Vec<u8>, what: &str| o.push(Case::CodeR { b: Blob(b), what: what.into() });
    for x in 0..=255u8 {
        cr(vec![0x20, 3, 0, x, 0], "connack return code");
        for k in 0..4 { cr(vec![ACKBYTE[k], 3, 0, 1, x], "acknowledgement reason"); cr(vec![ACKBYTE[k], 4, 0, 1, x, 0], "acknowledgement reason"); }
        cr(vec![0x90, 4, 0, 1, 0, x], "subscribe reason code");
        cr(vec![0xB0, 4, 0, 1, 0, x], "unsubscribe reason");
        cr(vec![0xE0, 1, x], "disconnect reason code");
        cr(vec![0xE0, 2, x, 0], "disconnect reason code");
        cr(vec![0x82, 7, 0, 1, 0, 0, 1, b't', x], "subscription options");
        cr(vec![x, 0], "first byte");
        cr(vec![x, 2, 0, 1], "first byte");
        cr(vec![x, 6, 0, 1, b't', 0, 1, 0], "first byte");
        cr(vec![x, 5, 0, 1, 0, 0, 0], "first byte");
        let mut c = vec![0, 4, b'M', b'Q', b'T', b'T', 5, x, 0, 1, 0, 0, 1, b't'];
        if x & 4 != 0 { c.extend([0, 0, 1, b'w', 0, 1, b'm']); }
        if x & 128 != 0 { c.extend([0, 1, b'u']); }
        if x & 64 != 0 { c.extend([0, 1, b'p']); }
        cr(fr(0x10, &c).unwrap(), "connect flags");
        let mut c = vec![0, 4, b'M', b'Q', b'T', b'T', x, 2, 0, 1, 0, 0, 1, b't'];
        cr(fr(0x10, &c).unwrap(), "protocol level");
        for s in 0..SETS.len() as u8 {
            let k = SETS[s as usize].1.iter().find(|(_, i, _)| *i == x).map(|f| f.2);
            let shapes: Vec<Vec<u8>> = match k {
                Some(Kind::U8) => vec![vec![1]], Some(Kind::U16) => vec![vec![1, 2]], Some(Kind::U32) => vec![vec![1, 2, 3, 4]], Some(Kind::Vi | Kind::Ids) => vec![vec![5]],
                Some(Kind::Str | Kind::Bin) => vec![vec![0, 1, b't']], Some(Kind::Up) => vec![vec![0, 1, b't', 0, 1, b'u']],
                None => vec![vec![1], vec![1, 2], vec![1, 2, 3, 4], vec![0, 1, b't'], vec![0, 1, b't', 0, 1, b'u'], vec![]],
            };
            for v in shapes {
                c = vec![v.len() as u8 + 1, x];
                c.extend(v);
                if let Some(b) = carrier_frame(s, &c) { cr(b, "property identifier"); }
            }
        }
    }
    o
}
/// a plain packet with this property set, and where the first byte of the section's content lies in its frame
pub fn carrier(s: u8, p: Option<Props>) -> Option<(M, usize)> {
    let t = || Blob(b"t".to_vec());
    Some(match s {
        CONNECTPROPERTIES => (M::Connect { keep: 1, id: t(), clean: false, props: p, will: None, login: None }, 13),
        LASTWILLPROPERTIES => (M::Connect { keep: 1, id: t(), clean: false, props: None, will: Some(Will { topic: t(), message: t(), qos: 0, retain: false, props: p }), login: None }, 17),
        CONNACKPROPERTIES => (M::ConnAck { sp: false, code: 0, props: p }, 5),
        PUBLISHPROPERTIES => (M::Publish { dup: false, qos: 0, retain: false, topic: t(), pkid: 0, payload: t(), props: p }, 6),
        SUBSCRIBEPROPERTIES => (M::Subscribe { pkid: 1, filters: vec![Filt { path: t(), qos: 0, nolocal: false, retain: false, rule: 0 }], props: p }, 5),
        SUBACKPROPERTIES => (M::SubAck { pkid: 1, codes: vec![0], props: p }, 5),
        UNSUBSCRIBEPROPERTIES => (M::Unsubscribe { pkid: 1, filters: vec![t()], props: p }, 5),
        UNSUBACKPROPERTIES => (M::UnsubAck { pkid: 1, codes: vec![0], props: p }, 5),
        DISCONNECTPROPERTIES => (M::Disconnect { code: 0, props: p }, 4),
        _ => { let k = ACKSETS.iter().position(|x| *x == s)?; (M::Ack { k: k as u8, pkid: 1, code: 0, props: p }, 6) }
    })
}
/// the carrier's frame with this section (length byte included)
pub fn carrier_frame(s: u8, sec: &[u8]) -> Option<Vec<u8>> {
    let (m, at) = carrier(s, Some(empty(s)))?;
    let b = body(&m).ok()?;
    let i = at - 3; // position of the length byte in the body
    let mut o = b[..i].to_vec();
    o.extend(sec);
    o.extend(&b[i + 1..]);
    fr(first_byte(&m), &o).ok()
}
/// values at the very top of the length range
pub fn huge(prop: &str) -> Vec<Case> {
    let mut o = vec![];
    let e = || Blob(vec![]);
    let up = |n: usize| Val::U((0..n).map(|_| (e(), e())).collect());
    let f = || Filt { path: e(), qos: 0, nolocal: false, retain: false, rule: 0 };
    let long = |n: usize| vec![
        M::Unsubscribe { pkid: 1, filters: (0..n).map(|_| e()).collect(), props: Some({ let mut p = empty(UNSUBSCRIBEPROPERTIES); p.v[0] = up(n); p }) },
        M::Subscribe { pkid: 1, filters: (0..n).map(|_| f()).collect(), props: None },
        M::SubAck { pkid: 1, codes: vec![1; n], props: None },
        M::UnsubAck { pkid: 1, codes: vec![0; n], props: None },
        M::Publish { dup: false, qos: 0, retain: false, topic: e(), pkid: 0, payload: Blob(vec![7; n]), props: Some({ let mut p = empty(PUBLISHPROPERTIES); p.v[5] = up(n); p.v[6] = Val::I(vec![1; n]); p }) },
    ];
    if prop == "C21" {
        for n in [30usize, 300, 3000, 30000] {
            for m in long(n) { if let Ok(b) = enc(&m) { o.push(Case::Read { b: Blob(b), tail: Blob::default(), max: None }); } }
        }
        // every type with a property section that says it is long and is not there
        for h in [0x10u8, 0x20, 0x30, 0x32, 0x40, 0x50, 0x62, 0x70, 0x82, 0x90, 0xa2, 0xb0, 0xe0] {
            for len in [100_000u64, MAXVI] { for at in 0..16 {
                let mut x = vec![0u8; at];
                x.extend(e_vi(len)); x.extend([38, 0, 1, b'a', 0, 1, b'b']);
                if let Ok(b) = fr(h, &x) { o.push(Case::Read { b: Blob(b), tail: Blob::default(), max: None }); }
            } }
        }
        return o;
    }
    // more elements than 16 bits count, and than a stack has room for
    for n in [70_000usize, 300_000] {
        for m in long(n) {
            if ["C01", "C03", "C06", "C08", "C13", "C17"].contains(&prop) { if let Ok(b) = enc(&m) { o.push(Case::Read { b: Blob(b), tail: Blob::default(), max: None }); } }
            if ["C01", "C02", "C04", "C05", "C07"].contains(&prop) { o.push(Case::Write { m, prior: Blob::default() }); }
        }
    }
    if !["C01", "C02", "C04", "C05", "C07", "C11"].contains(&prop) { return o; }
    for n in [MAXVI, MAXVI + 1] {
        let mk = |n: u64| M::Publish { dup: false, qos: 0, retain: false, topic: Blob(vec![]), pkid: 0, payload: Blob(vec![7; (n - 3) as usize]), props: None };
        if prop == "C11" { o.push(Case::ViW { m: mk(n), base: mk(4) }) } else { o.push(Case::Write { m: mk(n), prior: Blob::default() }) }
    }
    o
}
