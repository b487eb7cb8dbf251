#![allow(non_snake_case)]
//! Searches for an input on which the library breaks a property, and replays one.
//!   witness search PROP SEED SECONDS [--dict FILE]     prints a JSON line
//!   witness replay FILE                                exit 1 if the recorded case still breaks the property
//!   witness model SEED COUNT                         compares gen/model.rs with bytes and std, prints a JSON line
//!   witness digest SEED COUNT OUT [--dict FILE]        one hash per case (for comparing configurations)
//!   witness show SEED INDEX [--dict FILE]              the case with that index and its outcome
mod api;
mod gen;
mod m;
mod mem;
mod model;
mod oracle;
#[global_allocator]
static MEMORY: mem::Count = mem::Count;
use gen::*;
use serde_json::json;
use std::io::Write;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

fn dict(a: &[String]) -> Dict {
    if let Some(i) = a.iter().position(|x| x == "--dict") {
        let t = std::fs::read_to_string(&a[i + 1]).unwrap_or_default();
        if let Ok(v) = serde_json::from_str::<serde_json::Value>(&t) { return dict_of(&v); }
    }
    Dict::default()
}
fn dict_of(v: &serde_json::Value) -> Dict {
    let mut d = Dict::default();
    d.nums = v["nums"].as_array().map(|l| l.iter().filter_map(|x| x.as_u64()).collect()).unwrap_or_default();
    d.strs = v["strs"].as_array().map(|l| l.iter().filter_map(|x| x.as_str().map(|s| s.as_bytes().to_vec())).collect()).unwrap_or_default();
    d.focus = v["focus"].as_array().map(|l| l.iter().filter_map(|x| x.as_str().map(String::from)).collect()).unwrap_or_default();
    d
}
fn next_case(g: &mut Gen, prop: &str) -> Case {
    // weights: write, read, prefix, stream, seq, viw, vir
    if prop == "C22" { return g.new(); }
    let w: [u64; 7] = match prop {
        "C01" | "C02" | "C04" | "C07" => [20, 0, 0, 0, 0, 1, 0],
        "C05" => [20, 0, 0, 0, 4, 0, 0],
        "C03" | "C13" | "C17" => [2, 20, 0, 0, 0, 0, 1],
        "C06" => [0, 16, 6, 1, 0, 0, 1],
        "C08" => [1, 20, 0, 0, 0, 0, 0],
        "C09" | "C10" => [1, 10, 20, 0, 0, 0, 0],
        "C11" => [1, 4, 6, 0, 0, 8, 8],
        "C12" => [0, 1, 0, 0, 0, 0, 0],
        "C14" | "C15" | "C16" => [10, 12, 0, 0, 0, 0, 0],
        "C18" => [10, 10, 3, 1, 0, 0, 1],
        "C21" => [0, 20, 6, 0, 0, 0, 1],
        "C19" => [0, 2, 0, 12, 8, 0, 0],
        _ => [1; 7],
    };
    let mut k = g.r.n(w.iter().sum());
    let mut i = 0;
    while k >= w[i] { k -= w[i]; i += 1; }
    match i { 0 => g.write(), 1 => g.read(), 2 => g.prefix(), 3 => g.stream(), 4 => g.seq(), 5 => g.viw(), _ => g.vir() }
}
fn weight(c: &Case) -> usize { match c { Case::Write { m, prior } => format!("{m:?}").len() + prior.0.len(), Case::Seq { ms } => format!("{ms:?}").len(), Case::Read { b, tail, max } => b.0.len() * 2 + tail.0.len() * 2 + max.is_some() as usize, c => format!("{c:?}").len() } }
/// smaller variants of a failing case
fn shrinks(c: &Case) -> Vec<Case> {
    let mut o = vec![];
    match c {
        Case::Read { b, tail, max } => {
            if !tail.0.is_empty() { o.push(Case::Read { b: b.clone(), tail: m::Blob::default(), max: *max }); let n = tail.0.len() / 2; o.push(Case::Read { b: b.clone(), tail: m::Blob(tail.0[..n].to_vec()), max: *max }); }
            if max.is_some() { o.push(Case::Read { b: b.clone(), tail: tail.clone(), max: None }); }
            if let m::Fr::Frame(w, _) = m::frame(&b.0, None) {
                let body = &b.0[1 + w..];
                if w > 1 || b.0.len() < 130 { if let Ok(x) = m::fr(b.0[0], body) { if x.len() < b.0.len() { o.push(Case::Read { b: m::Blob(x), tail: tail.clone(), max: *max }); } } }
                for i in 0..body.len().min(60) { for k in [1usize, 4, 16] { if i + k <= body.len() { let mut x = body.to_vec(); x.drain(i..i + k); if let Ok(x) = m::fr(b.0[0], &x) { o.push(Case::Read { b: m::Blob(x), tail: tail.clone(), max: *max }); } } } }
            }
        }
        Case::Write { m, prior } => {
            if !prior.0.is_empty() { o.push(Case::Write { m: m.clone(), prior: m::Blob::default() }); o.push(Case::Write { m: m.clone(), prior: m::Blob(vec![7]) }); }
            for x in m_shrinks(m) { o.push(Case::Write { m: x, prior: prior.clone() }); }
        }
        Case::New { m } => for x in m_shrinks(m) { o.push(Case::New { m: x }); },
        Case::Seq { ms } => for i in 0..ms.len() {
            let mut x = ms.clone(); x.remove(i); if !x.is_empty() { o.push(Case::Seq { ms: x }); }
            for y in m_shrinks(&ms[i]) { let mut x = ms.clone(); x[i] = y; o.push(Case::Seq { ms: x }); }
        },
        Case::Stream { parts, max } => {
            if max.is_some() { o.push(Case::Stream { parts: parts.clone(), max: None }); }
            for i in 0..parts.len() { let mut x = parts.clone(); x.remove(i); o.push(Case::Stream { parts: x, max: *max }); if i > 0 { let mut x = parts.clone(); let t = x.remove(i); x[i - 1].0.extend(t.0); o.push(Case::Stream { parts: x, max: *max }); } }
        }
        _ => {}
    }
    o
}
fn m_shrinks(m: &m::M) -> Vec<m::M> {
    use m::*;
    let mut o = vec![];
    let mut c = m.clone();
    if let Some(slot) = props_mut(&mut c) {
        if let Some(p) = slot.clone() {
            let put = |v: Option<Props>| { let mut c = m.clone(); *props_mut(&mut c).unwrap() = v; c };
            o.push(put(None));
            for q in p_shrinks(&p) { o.push(put(Some(q))); }
        }
    }
    fn small(b: &Blob) -> Vec<Blob> { let n = b.0.len(); let mut o = vec![]; if n > 0 { for k in [0, 1, n / 2, n - 1] { if k < n && std::str::from_utf8(&b.0[..k]).is_ok() == std::str::from_utf8(&b.0).is_ok() { o.push(Blob(b.0[..k].to_vec())); } } } o }
    fn p_shrinks(p: &Props) -> Vec<Props> {
        let mut o = vec![];
        let e = empty(p.t);
        for j in 0..p.v.len() {
            if p.v[j] != e.v[j] { let mut q = p.clone(); q.v[j] = e.v[j].clone(); o.push(q); }
            match &p.v[j] {
                Val::S(b) => for s in small(b) { let mut q = p.clone(); q.v[j] = Val::S(s); o.push(q); },
                Val::U(l) => for i in 0..l.len().min(8) { let mut x = l.clone(); x.remove(i); let mut q = p.clone(); q.v[j] = Val::U(x); o.push(q);
                    for s in small(&l[i].0) { let mut x = l.clone(); x[i].0 = s; let mut q = p.clone(); q.v[j] = Val::U(x); o.push(q); } for s in small(&l[i].1) { let mut x = l.clone(); x[i].1 = s; let mut q = p.clone(); q.v[j] = Val::U(x); o.push(q); } },
                Val::I(l) => for i in 0..l.len().min(8) { let mut x = l.clone(); x.remove(i); let mut q = p.clone(); q.v[j] = Val::I(x); o.push(q); },
                _ => {}
            }
        }
        o
    }
    match m {
        M::Connect { keep, id, clean, props, will, login } => {
            let mk = |id: &Blob, will: &Option<Will>, login: &Option<(Blob, Blob)>| M::Connect { keep: *keep, id: id.clone(), clean: *clean, props: props.clone(), will: will.clone(), login: login.clone() };
            for s in small(id) { o.push(mk(&s, will, login)); }
            if let Some(w) = will {
                o.push(mk(id, &None, login));
                let mut x = w.clone(); x.props = None; o.push(mk(id, &Some(x), login));
                if let Some(p) = &w.props { for q in p_shrinks(p) { let mut x = w.clone(); x.props = Some(q); o.push(mk(id, &Some(x), login)); } }
                for s in small(&w.topic) { let mut x = w.clone(); x.topic = s; o.push(mk(id, &Some(x), login)); }
                for s in small(&w.message) { let mut x = w.clone(); x.message = s; o.push(mk(id, &Some(x), login)); }
            }
            if let Some((a, b)) = login { o.push(mk(id, will, &None)); for s in small(a) { o.push(mk(id, will, &Some((s, b.clone())))); } for s in small(b) { o.push(mk(id, will, &Some((a.clone(), s)))); } }
        }
        M::Publish { dup, qos, retain, topic, pkid, payload, props } => {
            let mk = |topic: &Blob, payload: &Blob| M::Publish { dup: *dup, qos: *qos, retain: *retain, topic: topic.clone(), pkid: *pkid, payload: payload.clone(), props: props.clone() };
            for s in small(topic) { o.push(mk(&s, payload)); }
            for s in small(payload) { o.push(mk(topic, &s)); }
        }
        M::Subscribe { pkid, filters, props } => for i in 0..filters.len().min(8) { let mut x = filters.clone(); x.remove(i); o.push(M::Subscribe { pkid: *pkid, filters: x, props: props.clone() }); for s in small(&filters[i].path) { let mut x = filters.clone(); x[i].path = s; o.push(M::Subscribe { pkid: *pkid, filters: x, props: props.clone() }); } },
        M::Unsubscribe { pkid, filters, props } => for i in 0..filters.len().min(8) { let mut x = filters.clone(); x.remove(i); o.push(M::Unsubscribe { pkid: *pkid, filters: x, props: props.clone() }); },
        M::SubAck { pkid, codes, props } => for i in 0..codes.len().min(8) { let mut x = codes.clone(); x.remove(i); o.push(M::SubAck { pkid: *pkid, codes: x, props: props.clone() }); },
        M::UnsubAck { pkid, codes, props } => for i in 0..codes.len().min(8) { let mut x = codes.clone(); x.remove(i); o.push(M::UnsubAck { pkid: *pkid, codes: x, props: props.clone() }); },
        _ => {}
    }
    o
}
fn shrink(prop: &str, mut c: Case, mut why: String) -> (Case, String) {
    let t = Instant::now();
    'again: loop {
        if t.elapsed() > Duration::from_secs(3) { return (c, why); }
        let w = weight(&c);
        for s in shrinks(&c) {
            if weight(&s) < w { if let Some(y) = oracle::eval(prop, &s) { c = s; why = y; continue 'again; } }
            if t.elapsed() > Duration::from_secs(3) { return (c, why); }
        }
        return (c, why);
    }
}
fn rss() -> u64 { std::fs::read_to_string("/proc/self/statm").ok().and_then(|s| s.split(' ').nth(1).and_then(|x| x.parse::<u64>().ok())).unwrap_or(0) * 4096 }

struct Shared { best: Mutex<Option<(Case, String, usize, usize)>>, stop: AtomicBool, cases: AtomicU64, nontrivial: AtomicU64 }
struct Slot { beat: AtomicU64, cur: Mutex<Option<Case>> }

/// leaves the case that is about to run in a file
fn mark(trace: &Option<String>, k: usize, prop: &str, c: &Case) {
    if let Some(t) = trace { let _ = std::fs::write(format!("{t}/{k}.json"), json!({"property": prop, "kind": "process ended", "case": serde_json::to_value(c).unwrap()}).to_string()); }
}
/// does the case fail on its own, in a new process?
fn alone(prop: &str, c: &Case) -> bool {
    let f = std::env::temp_dir().join(format!("witness-{}.json", std::process::id()));
    let _ = std::fs::write(&f, json!({"property": prop, "kind": "wrong result", "case": serde_json::to_value(c).unwrap()}).to_string());
    let r = std::env::current_exe().and_then(|e| std::process::Command::new(e).arg("replay").arg(&f).stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).status());
    let _ = std::fs::remove_file(&f);
    r.map_or(true, |s| !s.success())
}
/// the cases one thread of a search ran, up to the one that failed
fn rerun(prop: &str, h: &serde_json::Value) -> Option<String> {
    let (k, last) = (h["thread"].as_u64()? as usize, h["index"].as_u64()? as usize);
    let d = dict_of(h);
    let tab = tables();
    let mut g = Gen { r: Rng::new(h["seed"].as_u64()?.wrapping_mul(1000) + k as u64), d: &d, heavy: true, legal: false };
    let mut i = k;
    while i <= last {
        let c = if i < tab.len() { tab[i].clone() } else { next_case(&mut g, prop) };
        if let Some(w) = oracle::eval(prop, &c) { return Some(format!("as case {} of a sequence in one process: {w}", i / 8)); }
        i += 8;
    }
    None
}
fn search(prop: &str, seed: u64, secs: u64, d: Dict, trace: Option<String>) {
    let sh = Arc::new(Shared { best: Mutex::new(None), stop: AtomicBool::new(false), cases: AtomicU64::new(0), nontrivial: AtomicU64::new(0) });
    let t0 = Instant::now();
    let end = Duration::from_secs(secs);
    let n = std::thread::available_parallelism().map_or(4, |x| x.get()).min(8);
    let slots: Vec<Arc<Slot>> = (0..n).map(|_| Arc::new(Slot { beat: AtomicU64::new(0), cur: Mutex::new(None) })).collect();
    let done = Arc::new(AtomicU64::new(0));
    let d = Arc::new(d);
    let tab = Arc::new(tables());
    for (k, slot) in slots.iter().enumerate() {
        let (sh, slot, d, done, prop, tab) = (sh.clone(), slot.clone(), d.clone(), done.clone(), prop.to_string(), tab.clone());
        let trace = trace.clone();
        std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
            let mut g = Gen { r: Rng::new(seed.wrapping_mul(1000) + k as u64), d: &d, heavy: true, legal: false };
            let mut i = k;
            while !sh.stop.load(SeqCst) && t0.elapsed() < end {
                let c = if i < tab.len() { tab[i].clone() } else { next_case(&mut g, &prop) };
                i += 8;
                *slot.cur.lock().unwrap() = Some(c.clone());
                slot.beat.fetch_add(1, SeqCst);
                mark(&trace, k, &prop, &c);
                let v = oracle::eval(&prop, &c);
                sh.cases.fetch_add(1, SeqCst);
                if nontrivial(&c) { sh.nontrivial.fetch_add(1, SeqCst); }
                if let Some(w) = v {
                    let (c, w) = shrink(&prop, c, w);
                    let mut b = sh.best.lock().unwrap();
                    if b.as_ref().map_or(true, |(x, ..)| weight(&c) < weight(x)) { *b = Some((c, w, k, i - 8)); }
                    sh.stop.store(true, SeqCst);
                }
            }
            *slot.cur.lock().unwrap() = None;
            done.fetch_add(1, SeqCst);
        }).unwrap();
    }
    let mut seen: Vec<(u64, Instant)> = slots.iter().map(|_| (0, Instant::now())).collect();
    let mut hung = None;
    while done.load(SeqCst) < n as u64 {
        std::thread::sleep(Duration::from_millis(10));
        let big = rss() > 6 << 30;
        for (i, s) in slots.iter().enumerate() {
            let b = s.beat.load(SeqCst);
            if b != seen[i].0 { seen[i] = (b, Instant::now()); } else {
                let stuck = seen[i].1.elapsed();
                if (stuck > Duration::from_secs(8) || (big && stuck > Duration::from_millis(500))) && !sh.stop.load(SeqCst) && s.cur.lock().unwrap().is_some() { hung = s.cur.lock().unwrap().clone(); }
            }
        }
        if hung.is_some() { break; }
        if sh.stop.load(SeqCst) && t0.elapsed() > end + Duration::from_secs(15) { break; }
    }
    let mut best = sh.best.lock().unwrap().take();
    if best.is_none() && hung.is_none() { for c in huge(prop) { mark(&trace, 99, prop, &c); if let Some(w) = oracle::eval(prop, &c) { best = Some((c, w.chars().take(1500).collect(), 99, 0)); break; } sh.cases.fetch_add(1, SeqCst); } }
    let base = json!({"property": prop, "seed": seed, "cases": sh.cases.load(SeqCst), "nontrivial": sh.nontrivial.load(SeqCst), "secs": t0.elapsed().as_secs_f64()});
    let mut o = base.as_object().unwrap().clone();
    if let Some((c, w, k, i)) = best {
        o.insert("found".into(), json!(true));
        // what came before in the same process may matter
        if k < 8 && !alone(prop, &c) { o.insert("history".into(), json!({"seed": seed, "thread": k, "index": i, "nums": d.nums, "strs": d.strs.iter().map(|s| String::from_utf8_lossy(s)).collect::<Vec<_>>(), "focus": d.focus})); }
        o.insert("kind".into(), json!("wrong result"));
        o.insert("what".into(), json!(w.chars().take(6000).collect::<String>()));
        o.insert("case".into(), serde_json::to_value(&c).unwrap());
    } else if let Some(c) = hung {
        let yes = ["C06", "C07"].contains(&prop) && matches!((&c, prop), (Case::Write { .. } | Case::Seq { .. } | Case::ViW { .. } | Case::CodeW { .. }, "C07") | (Case::Read { .. } | Case::Stream { .. } | Case::CodeR { .. } | Case::ViR { .. }, "C06"));
        o.insert("found".into(), json!(yes));
        o.insert("kind".into(), json!("does not terminate"));
        o.insert("what".into(), json!("the library did not return within 8 seconds"));
        o.insert("case".into(), serde_json::to_value(&c).unwrap());
    } else {
        o.insert("found".into(), json!(false));
        let d2 = Dict::default();
        let mut g = Gen { r: Rng::new(seed), d: &d2, heavy: false, legal: false };
        o.insert("samples".into(), json!((0..3).map(|_| format!("{:?}", next_case(&mut g, prop)).chars().take(300).collect::<String>()).collect::<Vec<_>>()));
    }
    println!("{}", serde_json::Value::Object(o));
    let _ = std::io::stdout().flush();
    std::process::exit(0);
}
fn nontrivial(c: &Case) -> bool { match c { Case::Read { b, .. } => b.0.len() > 4, Case::Write { m, .. } => !matches!(m, m::M::PingReq | m::M::PingResp), Case::Stream { parts, .. } => parts.len() > 1, Case::Seq { ms } => ms.len() > 1, _ => true } }
fn case_at(seed: u64, i: u64, d: &Dict) -> Case {
    static T: std::sync::OnceLock<Vec<Case>> = std::sync::OnceLock::new();
    let t = T.get_or_init(tables);
    if (i as usize) < t.len() { return t[i as usize].clone(); }
    let mut g = Gen { r: Rng::new(seed ^ i.wrapping_mul(0x51_7C_C1_B7_27_22_0A_95)), d, heavy: false, legal: false };
    next_case(&mut g, "C18")
}
fn main() {
    if std::env::var("SHOW_PANICS").is_err() { std::panic::set_hook(Box::new(|_| {})); }
    let a: Vec<String> = std::env::args().collect();
    match a[1].as_str() {
        "search" => search(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap(), dict(&a), a.iter().position(|x| x == "--trace").map(|i| a[i + 1].clone())),
        "replay" => {
            let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
            let c: Case = serde_json::from_value(v["case"].clone()).unwrap();
            let prop = v["property"].as_str().unwrap().to_string();
            if v["kind"] == "does not terminate" {
                std::thread::spawn(move || { std::thread::sleep(Duration::from_secs(8)); println!("the library did not return within 8 seconds"); std::process::exit(1); });
            }
            let v2 = v.clone();
            let r = oracle::eval(&prop, &c).or_else(|| std::thread::Builder::new().stack_size(64 << 20).spawn(move || rerun(v2["property"].as_str().unwrap(), &v2["history"])).unwrap().join().unwrap());
            match r { Some(w) => { println!("{w}"); std::process::exit(1); } None => println!("the property holds on this input") }
        }
        "model" => {
            let l = model::model(a[2].parse().unwrap(), a[3].parse().unwrap());
            println!("{}", json!({"operations": l.ops, "disagreement": l.bad}));
        }
        "digest" => {
            let (seed, n): (u64, u64) = (a[2].parse().unwrap(), a[3].parse().unwrap());
            let d = dict(&a);
            let k = 8u64;
            let out: Vec<Vec<u64>> = std::thread::scope(|s| {
                let hs: Vec<_> = (0..k).map(|j| { let d = &d; std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, move || {
                    let mut v = vec![];
                    let mut i = j;
                    while i < n {
                        let c = case_at(seed, i, d);
                        let mut h = 0xcbf2_9ce4_8422_2325u64;
                        for b in oracle::outcome(&c).bytes() { h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3); }
                        v.push(h | 1 | if oracle::text_only(&c) { 0 } else { 0 });
                        if !oracle::text_only(&c) { let l = v.len() - 1; v[l] &= !1; }
                        i += k;
                    }
                    v
                }).unwrap() }).collect();
                hs.into_iter().map(|h| h.join().unwrap()).collect()
            });
            let mut f = std::io::BufWriter::new(std::fs::File::create(&a[4]).unwrap());
            for i in 0..n { f.write_all(&out[(i % k) as usize][(i / k) as usize].to_le_bytes()).unwrap(); }
        }
        "show" => {
            let d = dict(&a);
            let c = case_at(a[2].parse().unwrap(), a[3].parse().unwrap(), &d);
            println!("{}", json!({"case": serde_json::to_value(&c).unwrap(), "outcome": oracle::outcome(&c).chars().take(3000).collect::<String>()}));
        }
        "outcome" => {
            let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).unwrap()).unwrap();
            let c: Case = serde_json::from_value(v["case"].clone()).unwrap();
            println!("{}", oracle::outcome(&c).chars().take(3000).collect::<String>());
        }
        _ => panic!("usage"),
    }
}
