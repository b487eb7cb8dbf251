"""Generates the specification (spec functions and lemmas) from schema.py."""
from schema import *

RT = {"u8": "u8", "u16": "u16", "u32": "u32", "str": "MqttString", "bin": "Bytes", "vi": "usize"}
VT = {"u8": "u8", "u16": "u16", "u32": "u32", "str": "Seq<u8>", "bin": "Seq<u8>", "vi": "usize"}
W = {"u8": 1, "u16": 2, "u32": 4}
UPV = "Seq<(Seq<u8>, Seq<u8>)>"

def vtype(k):
    return UPV if k == "up" else "Seq<usize>" if k == "ids" else f"Option<{VT[k]}>"
def vempty(k):
    return "Seq::empty()" if k in ("up", "ids") else "None"
def item(k, i, x):
    """encoding of one property field"""
    if k == "up": return f"i_up({x})"
    if k == "ids": return f"i_ids({x})"
    kk = "bin" if k == "str" else k
    return f"i_{kk}({i}, {x})"
def witem(k, i, b, x):
    if k == "up": return f"w_up({b}, {x})"
    if k == "ids": return f"w_ids({b}, {x})"
    return f"w_i{'bin' if k == 'str' else k}({b}, {i}, {x})"
def litem(k, x): return {"u8": f"l_u8({x})", "u16": f"l_u16({x})", "u32": f"l_u32({x})", "str": f"l_bin({x})", "bin": f"l_bin({x})", "vi": f"l_ovi({x})", "up": f"l_up({x})", "ids": f"l_ids({x})"}[k]
def okitem(k, x):
    """representable"""
    return {"up": f"ok_ups({x})", "ids": f"ok_ids({x})", "str": f"ok_obin({x})", "bin": f"ok_obin({x})", "vi": f"ok_ovi({x})"}.get(k)
def wfitem(k, x):
    return {"up": f"wf_ups({x})", "str": f"wf_ostr({x})"}.get(k)
def view(k, x):
    """exec field -> view"""
    if k == "up": return f"upv({x}@)"
    if k == "ids": return f"{x}@"
    if k in ("str", "bin"): return f"ov({x})"
    return x

COMMON = r'''
pub type P<T> = Option<(T, Seq<u8>)>;
pub open spec fn MAXVI() -> int { 268435455 }

// ---------------------------------------------------------------- machine bits
/*BITS*/

// ---------------------------------------------------------------- views
pub open spec fn ov<T: View>(o: Option<T>) -> Option<T::V> { match o { Some(x) => Some(x@), None => None } }
#[verifier::opaque]
pub open spec fn upv(s: Seq<(MqttString, MqttString)>) -> Seq<(Seq<u8>, Seq<u8>)> { s.map_values(|x: (MqttString, MqttString)| (x.0@, x.1@)) }
#[verifier::opaque]
pub open spec fn strsv(s: Seq<MqttString>) -> Seq<Seq<u8>> { s.map_values(|x: MqttString| x@) }
pub ghost struct FilterV { pub path: Seq<u8>, pub qos: QoS, pub nolocal: bool, pub preserve_retain: bool, pub retain_forward_rule: RetainForwardRule }
impl View for Filter { type V = FilterV; open spec fn view(&self) -> FilterV { FilterV { path: self.path@, qos: self.qos, nolocal: self.nolocal, preserve_retain: self.preserve_retain, retain_forward_rule: self.retain_forward_rule } } }
#[verifier::opaque]
pub open spec fn filtersv(s: Seq<Filter>) -> Seq<FilterV> { s.map_values(|x: Filter| x@) }
pub broadcast proof fn upv_push(s: Seq<(MqttString, MqttString)>, x: (MqttString, MqttString)) ensures #[trigger] upv(s.push(x)) == upv(s).push((x.0@, x.1@)) { reveal(upv); assert(upv(s.push(x)) =~= upv(s).push((x.0@, x.1@))); }
pub broadcast proof fn upv_empty() ensures #[trigger] upv(Seq::empty()) == Seq::<(Seq<u8>, Seq<u8>)>::empty() { reveal(upv); assert(upv(Seq::empty()) =~= Seq::empty()); }
pub broadcast proof fn upv_len(s: Seq<(MqttString, MqttString)>) ensures #[trigger] upv(s).len() == s.len() { reveal(upv); }
pub broadcast proof fn upv_idx(s: Seq<(MqttString, MqttString)>, i: int) requires 0 <= i < s.len() ensures #[trigger] upv(s)[i] == (s[i].0@, s[i].1@) { reveal(upv); }
pub broadcast proof fn strsv_push(s: Seq<MqttString>, x: MqttString) ensures #[trigger] strsv(s.push(x)) == strsv(s).push(x@) { reveal(strsv); assert(strsv(s.push(x)) =~= strsv(s).push(x@)); }
pub broadcast proof fn strsv_empty() ensures #[trigger] strsv(Seq::empty()) == Seq::<Seq<u8>>::empty() { reveal(strsv); assert(strsv(Seq::empty()) =~= Seq::empty()); }
pub broadcast proof fn strsv_len(s: Seq<MqttString>) ensures #[trigger] strsv(s).len() == s.len() { reveal(strsv); }
pub broadcast proof fn strsv_idx(s: Seq<MqttString>, i: int) requires 0 <= i < s.len() ensures #[trigger] strsv(s)[i] == s[i]@ { reveal(strsv); }
pub broadcast proof fn filtersv_push(s: Seq<Filter>, x: Filter) ensures #[trigger] filtersv(s.push(x)) == filtersv(s).push(x@) { reveal(filtersv); assert(filtersv(s.push(x)) =~= filtersv(s).push(x@)); }
pub broadcast proof fn filtersv_empty() ensures #[trigger] filtersv(Seq::empty()) == Seq::<FilterV>::empty() { reveal(filtersv); assert(filtersv(Seq::empty()) =~= Seq::empty()); }
pub broadcast proof fn filtersv_len(s: Seq<Filter>) ensures #[trigger] filtersv(s).len() == s.len() { reveal(filtersv); }
pub broadcast proof fn filtersv_idx(s: Seq<Filter>, i: int) requires 0 <= i < s.len() ensures #[trigger] filtersv(s)[i] == s[i]@ { reveal(filtersv); }

// ---------------------------------------------------------------- variable byte integers
pub enum VI { Val(int, int), Short, Bad }
/// (width, value) of the variable byte integer at the start of b
pub open spec fn vi(b: Seq<u8>) -> VI {
  if b.len() < 1 { VI::Short } else if b[0] < 128 { VI::Val(1, b[0] as int) }
  else if b.len() < 2 { VI::Short } else if b[1] < 128 { VI::Val(2, b[0] - 128 + 128 * b[1]) }
  else if b.len() < 3 { VI::Short } else if b[2] < 128 { VI::Val(3, b[0] - 128 + 128 * (b[1] - 128) + 16384 * b[2]) }
  else if b.len() < 4 { VI::Short } else if b[3] < 128 { VI::Val(4, b[0] - 128 + 128 * (b[1] - 128) + 16384 * (b[2] - 128) + 2097152 * b[3]) }
  else { VI::Bad }
}
/// the minimal encoding (for n <= MAXVI)
#[verifier::opaque]
pub open spec fn e_vi(n: int) -> Seq<u8> {
  if n < 128 { seq![n as u8] }
  else if n < 16384 { seq![(n % 128 + 128) as u8, (n / 128) as u8] }
  else if n < 2097152 { seq![(n % 128 + 128) as u8, ((n / 128) % 128 + 128) as u8, (n / 16384) as u8] }
  else { seq![(n % 128 + 128) as u8, ((n / 128) % 128 + 128) as u8, ((n / 16384) % 128 + 128) as u8, (n / 2097152) as u8] }
}
pub open spec fn l_vi(n: int) -> int { if n < 128 { 1 } else if n < 16384 { 2 } else if n < 2097152 { 3 } else { 4 } }
pub broadcast proof fn e_vi_len(n: int) ensures #[trigger] e_vi(n).len() == l_vi(n) { reveal(e_vi); }
pub proof fn e_vi_0() ensures e_vi(0) == seq![0u8] { reveal(e_vi); assert(e_vi(0) =~= seq![0u8]); }
pub proof fn digits(n: int) requires 0 <= n <= MAXVI() ensures n == n % 128 + 128 * ((n / 128) % 128) + 16384 * ((n / 16384) % 128) + 2097152 * (n / 2097152), n < 128 ==> n / 128 == 0, n < 16384 ==> (n / 128) % 128 == n / 128 && n / 16384 == 0, n < 2097152 ==> (n / 16384) % 128 == n / 16384 && n / 2097152 == 0, 0 <= n / 2097152 < 128,
  n / 128 == (n / 128) % 128 + 128 * (n / 16384), n / 16384 == (n / 16384) % 128 + 128 * (n / 2097152)
{ digits_a(n); digits_a(n / 128); digits_b(n); }
pub proof fn digits_a(n: int) requires 0 <= n ensures n == n % 128 + 128 * (n / 128), 0 <= n % 128 < 128, 0 <= n / 128 <= n { }
pub proof fn digits_b(n: int) requires 0 <= n <= MAXVI() ensures (n / 128) / 128 == n / 16384, (n / 16384) / 128 == n / 2097152, n / 16384 == (n / 16384) % 128 + 128 * (n / 2097152), n < 16384 ==> n / 16384 == 0 && n / 128 < 128, n < 2097152 ==> n / 2097152 == 0 && n / 16384 < 128, 0 <= n / 2097152 < 128
{ assert((n / 128) / 128 == n / 16384) by (nonlinear_arith) requires n >= 0; assert((n / 16384) / 128 == n / 2097152) by (nonlinear_arith) requires n >= 0; }
pub proof fn digit1(a: int, m: int) requires 0 <= a < 128, 0 <= m ensures (a + 128 * m) % 128 == a, (a + 128 * m) / 128 == m { }
pub proof fn undigits(a: int, b: int, c: int, d: int) requires 0 <= a < 128, 0 <= b < 128, 0 <= c < 128, 0 <= d < 128
  ensures ({ let n = a + 128 * b + 16384 * c + 2097152 * d; 0 <= n <= MAXVI() && n % 128 == a && (n / 128) % 128 == b && (n / 16384) % 128 == c && n / 2097152 == d && n / 128 == b + 128 * c + 16384 * d && n / 16384 == c + 128 * d })
{ let n = a + 128 * b + 16384 * c + 2097152 * d; digit1(a, b + 128 * c + 16384 * d); digit1(b, c + 128 * d); digit1(c, d); assert(n == a + 128 * (b + 128 * c + 16384 * d)); assert(n / 128 == b + 128 * (c + 128 * d)); digits_b(n); }
/// C11: decoding inverts encoding, whatever follows
pub proof fn c11_vi_inverse(n: int, rest: Seq<u8>)
  requires 0 <= n <= MAXVI()
  ensures vi(e_vi(n) + rest) == VI::Val(l_vi(n), n)
{ reveal(e_vi); let b = e_vi(n) + rest; let a0 = n % 128; let a1 = (n / 128) % 128; let a2 = (n / 16384) % 128; let a3 = n / 2097152; digits(n);
  if n < 128 { assert(b[0] == n); }
  else if n < 16384 { assert(b[0] == a0 + 128); assert(b[1] == a1); }
  else if n < 2097152 { assert(b[0] == a0 + 128); assert(b[1] == a1 + 128); assert(b[2] == a2); }
  else { assert(b[0] == a0 + 128); assert(b[1] == a1 + 128); assert(b[2] == a2 + 128); assert(b[3] == a3); } }
/// C11: no shorter or different encoding decodes to the same value with fewer bytes
pub proof fn c11_vi_minimal(b: Seq<u8>)
  ensures match vi(b) { VI::Val(w, n) => 0 <= n <= MAXVI() && 1 <= w <= 4 && w <= b.len() && l_vi(n) <= w && (w == l_vi(n) ==> b.take(w) == e_vi(n)), _ => true }
{ match vi(b) { VI::Val(w, n) => {
    if w == 2 { undigits(b[0] - 128, b[1] as int, 0, 0); } else if w == 3 { undigits(b[0] - 128, b[1] - 128, b[2] as int, 0); } else if w == 4 { undigits(b[0] - 128, b[1] - 128, b[2] - 128, b[3] as int); }
    if w == l_vi(n) { reveal(e_vi); let c = b.take(w); let d = e_vi(n); assert(c.len() == d.len()); assert forall|i: int| 0 <= i < w implies c[i] == d[i] by { if i == 0 {} else if i == 1 {} else if i == 2 {} else {} } assert(c =~= d); } }, _ => {} } }
/// C11/C19: the decoder never looks at more than the prefix it reports
pub proof fn c11_vi_prefix(b: Seq<u8>, c: Seq<u8>)
  ensures (match vi(b) { VI::Short => b.len() <= 3, VI::Bad => vi(b + c) == vi(b), VI::Val(w, n) => vi(b + c) == vi(b) && vi(b.take(w)) == vi(b) })
{ }

// ---------------------------------------------------------------- primitive readers
pub open spec fn p_u8(b: Seq<u8>) -> P<u8> { if b.len() < 1 { None } else { Some((b[0], b.skip(1))) } }
pub open spec fn p_u16(b: Seq<u8>) -> P<u16> { if b.len() < 2 { None } else { Some((rd16(b), b.skip(2))) } }
pub open spec fn p_u32(b: Seq<u8>) -> P<u32> { if b.len() < 4 { None } else { Some((rd32(b), b.skip(4))) } }
#[verifier::opaque]
pub open spec fn p_bin(b: Seq<u8>) -> P<Seq<u8>> { if b.len() < 2 || rd16(b) as int > b.len() - 2 { None } else { Some((b.skip(2).take(rd16(b) as int), b.skip(2).skip(rd16(b) as int))) } }
#[verifier::opaque]
pub open spec fn p_str(b: Seq<u8>) -> P<Seq<u8>> { match p_bin(b) { None => None, Some((s, r)) => if text_ok(s) { Some((s, r)) } else { None } } }
pub open spec fn p_vi(b: Seq<u8>) -> P<usize> { match vi(b) { VI::Val(w, n) => Some((n as usize, b.skip(w))), _ => None } }
pub broadcast proof fn p_bin_len(b: Seq<u8>) ensures #![trigger p_bin(b)] match p_bin(b) { Some((s, r)) => r.len() == b.len() - 2 - s.len() && s.len() <= 65535, None => true } { reveal(p_bin); }
pub broadcast proof fn p_str_len(b: Seq<u8>) ensures #![trigger p_str(b)] match p_str(b) { Some((s, r)) => r.len() == b.len() - 2 - s.len() && s.len() <= 65535 && text_ok(s), None => true } { reveal(p_bin); reveal(p_str); }

pub open spec fn agrees<T>(r: Result<T, Error>, s: P<T>, after: Seq<u8>) -> bool {
  match s { Some((v, rest)) => r is Ok && r->Ok_0 == v && after == rest, None => r is Err }
}
pub open spec fn agrees_v<T: View>(r: Result<T, Error>, s: P<T::V>, after: Seq<u8>) -> bool {
  match s { Some((v, rest)) => r is Ok && r->Ok_0@ == v && after == rest, None => r is Err }
}
pub open spec fn is_insuf(e: Error) -> bool { e is InsufficientBytes }
pub open spec fn is_limit(e: Error) -> bool { e is PayloadSizeLimitExceeded }
pub open spec fn insuf(e: Error) -> Option<int> { match e { Error::InsufficientBytes(n) => Some(n as int), _ => None } }

// ---------------------------------------------------------------- primitive writers
pub open spec fn e_bin(s: Seq<u8>) -> Seq<u8> { be16(s.len() as u16) + s }
#[verifier::opaque] pub open spec fn i_u8(k: u8, o: Option<u8>) -> Seq<u8> { match o { None => Seq::empty(), Some(v) => seq![k] + seq![v] } }
#[verifier::opaque] pub open spec fn i_u16(k: u8, o: Option<u16>) -> Seq<u8> { match o { None => Seq::empty(), Some(v) => seq![k] + be16(v) } }
#[verifier::opaque] pub open spec fn i_u32(k: u8, o: Option<u32>) -> Seq<u8> { match o { None => Seq::empty(), Some(v) => seq![k] + be32(v) } }
#[verifier::opaque] pub open spec fn i_bin(k: u8, o: Option<Seq<u8>>) -> Seq<u8> { match o { None => Seq::empty(), Some(v) => seq![k] + e_bin(v) } }
#[verifier::opaque] pub open spec fn i_vi(k: u8, o: Option<usize>) -> Seq<u8> { match o { None => Seq::empty(), Some(v) => seq![k] + e_vi(v as int) } }
pub open spec fn up1(x: (Seq<u8>, Seq<u8>)) -> Seq<u8> { seq![38u8] + e_bin(x.0) + e_bin(x.1) }
pub open spec fn i_up(s: Seq<(Seq<u8>, Seq<u8>)>) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::empty() } else { i_up(s.drop_last()) + up1(s.last()) } }
pub open spec fn id1(x: usize) -> Seq<u8> { seq![11u8] + e_vi(x as int) }
pub open spec fn i_ids(s: Seq<usize>) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::empty() } else { i_ids(s.drop_last()) + id1(s.last()) } }
pub open spec fn i_strs(s: Seq<Seq<u8>>) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::empty() } else { i_strs(s.drop_last()) + e_bin(s.last()) } }

pub open spec fn b2i(b: bool) -> int { if b { 1 } else { 0 } }
pub open spec fn opts(f: FilterV) -> int { c_QoS(f.qos) + 4 * b2i(f.nolocal) + 8 * b2i(f.preserve_retain) + 16 * c_RetainForwardRule(f.retain_forward_rule) }
pub open spec fn e_filter(f: FilterV) -> Seq<u8> { e_bin(f.path) + seq![opts(f) as u8] }
pub open spec fn i_filters(s: Seq<FilterV>) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::empty() } else { i_filters(s.drop_last()) + e_filter(s.last()) } }
pub open spec fn ok_filters(s: Seq<FilterV>) -> bool { forall|i: int| 0 <= i < s.len() ==> ok_bin((#[trigger] s[i]).path) }
pub open spec fn wf_filters(s: Seq<FilterV>) -> bool { forall|i: int| 0 <= i < s.len() ==> text_ok((#[trigger] s[i]).path) }
pub proof fn i_filters_step(s: Seq<FilterV>, i: int) requires 0 <= i < s.len() ensures i_filters(s.take(i + 1)) == i_filters(s.take(i)) + e_filter(s[i]) { assert(s.take(i + 1).drop_last() =~= s.take(i)); }
pub proof fn i_filters_front(s: Seq<FilterV>) requires s.len() > 0 ensures i_filters(s) =~= e_filter(s[0]) + i_filters(s.skip(1)) decreases s.len()
{ if s.len() == 1 { assert(s.drop_last() =~= Seq::empty()); assert(s.skip(1) =~= Seq::empty()); assert(i_filters(s.drop_last()).len() == 0); assert(i_filters(s.skip(1)).len() == 0); }
  else { i_filters_front(s.drop_last()); assert(s.drop_last().skip(1) =~= s.skip(1).drop_last()); } }
pub open spec fn ok_bin(s: Seq<u8>) -> bool { s.len() <= 65535 }
pub open spec fn ok_obin(o: Option<Seq<u8>>) -> bool { match o { None => true, Some(v) => ok_bin(v) } }
pub open spec fn wf_ostr(o: Option<Seq<u8>>) -> bool { match o { None => true, Some(v) => text_ok(v) } }
pub open spec fn ok_ovi(o: Option<usize>) -> bool { match o { None => true, Some(v) => v <= MAXVI() } }
pub open spec fn ok_up1(x: (Seq<u8>, Seq<u8>)) -> bool { ok_bin(x.0) && ok_bin(x.1) }
pub open spec fn ok_ups(s: Seq<(Seq<u8>, Seq<u8>)>) -> bool { forall|i: int| 0 <= i < s.len() ==> ok_up1(#[trigger] s[i]) }
pub open spec fn wf_ups(s: Seq<(Seq<u8>, Seq<u8>)>) -> bool { forall|i: int| 0 <= i < s.len() ==> text_ok((#[trigger] s[i]).0) && text_ok(s[i].1) }
pub open spec fn ok_ids(s: Seq<usize>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] <= MAXVI() }
pub open spec fn ok_strs(s: Seq<Seq<u8>>) -> bool { forall|i: int| 0 <= i < s.len() ==> ok_bin(#[trigger] s[i]) }
pub open spec fn wf_strs(s: Seq<Seq<u8>>) -> bool { forall|i: int| 0 <= i < s.len() ==> text_ok(#[trigger] s[i]) }

/// prefix of a list being encoded one element further
pub proof fn i_up_step(s: Seq<(Seq<u8>, Seq<u8>)>, i: int) requires 0 <= i < s.len() ensures i_up(s.take(i + 1)) == i_up(s.take(i)) + up1(s[i]) { assert(s.take(i + 1).drop_last() =~= s.take(i)); }
pub proof fn i_ids_step(s: Seq<usize>, i: int) requires 0 <= i < s.len() ensures i_ids(s.take(i + 1)) == i_ids(s.take(i)) + id1(s[i]) { assert(s.take(i + 1).drop_last() =~= s.take(i)); }
pub proof fn i_strs_step(s: Seq<Seq<u8>>, i: int) requires 0 <= i < s.len() ensures i_strs(s.take(i + 1)) == i_strs(s.take(i)) + e_bin(s[i]) { assert(s.take(i + 1).drop_last() =~= s.take(i)); }
/// the encoding of a prefix is not longer than the encoding of the whole list
pub proof fn take_all<A>(s: Seq<A>) ensures s.take(s.len() as int) == s { assert(s.take(s.len() as int) =~= s); }
pub proof fn take_zero<A>(s: Seq<A>) ensures s.take(0) == Seq::<A>::empty() { assert(s.take(0) =~= Seq::<A>::empty()); }

// front decomposition (used by the parsing side)
pub proof fn i_up_front(s: Seq<(Seq<u8>, Seq<u8>)>) requires s.len() > 0 ensures i_up(s) =~= up1(s[0]) + i_up(s.skip(1)) decreases s.len()
{ if s.len() == 1 { assert(s.drop_last() =~= Seq::empty()); assert(s.skip(1) =~= Seq::empty()); assert(i_up(s.drop_last()).len() == 0); assert(i_up(s.skip(1)).len() == 0); }
  else { i_up_front(s.drop_last()); assert(s.drop_last().skip(1) =~= s.skip(1).drop_last()); } }
pub proof fn i_ids_front(s: Seq<usize>) requires s.len() > 0 ensures i_ids(s) =~= id1(s[0]) + i_ids(s.skip(1)) decreases s.len()
{ if s.len() == 1 { assert(s.drop_last() =~= Seq::empty()); assert(s.skip(1) =~= Seq::empty()); assert(i_ids(s.drop_last()).len() == 0); assert(i_ids(s.skip(1)).len() == 0); }
  else { i_ids_front(s.drop_last()); assert(s.drop_last().skip(1) =~= s.skip(1).drop_last()); } }
pub proof fn i_strs_front(s: Seq<Seq<u8>>) requires s.len() > 0 ensures i_strs(s) =~= e_bin(s[0]) + i_strs(s.skip(1)) decreases s.len()
{ if s.len() == 1 { assert(s.drop_last() =~= Seq::empty()); assert(s.skip(1) =~= Seq::empty()); assert(i_strs(s.drop_last()).len() == 0); assert(i_strs(s.skip(1)).len() == 0); }
  else { i_strs_front(s.drop_last()); assert(s.drop_last().skip(1) =~= s.skip(1).drop_last()); } }
pub proof fn i_strs_len(s: Seq<Seq<u8>>) ensures i_strs(s).len() >= s.len() * 2 decreases s.len() { if s.len() > 0 { i_strs_len(s.drop_last()); } }

// inverse of the primitive encoders
pub proof fn inv_u16(v: u16, rest: Seq<u8>) ensures p_u16(be16(v) + rest) == Some((v, rest)) { let b = be16(v) + rest; assert(b.skip(2) =~= rest); }
pub proof fn inv_u32(v: u32, rest: Seq<u8>) ensures p_u32(be32(v) + rest) == Some((v, rest)) { let b = be32(v) + rest; assert(b.skip(4) =~= rest); }
pub proof fn inv_bin(s: Seq<u8>, rest: Seq<u8>) requires ok_bin(s) ensures p_bin(e_bin(s) + rest) == Some((s, rest))
{ reveal(p_bin); let b = e_bin(s) + rest; assert(b.skip(2).take(s.len() as int) =~= s); assert(b.skip(2).skip(s.len() as int) =~= rest); }
pub proof fn inv_str(s: Seq<u8>, rest: Seq<u8>) requires ok_bin(s), text_ok(s) ensures p_str(e_bin(s) + rest) == Some((s, rest)) { reveal(p_str); inv_bin(s, rest); }
pub proof fn inv_vi(n: usize, rest: Seq<u8>) requires n <= MAXVI() ensures p_vi(e_vi(n as int) + rest) == Some((n, rest)), vi(e_vi(n as int) + rest) == VI::Val(l_vi(n as int), n as int)
{ e_vi_len(n as int); c11_vi_inverse(n as int, rest); assert((e_vi(n as int) + rest).skip(l_vi(n as int)) =~= rest); }
pub proof fn up_first(o: Seq<(Seq<u8>, Seq<u8>)>, rest: Seq<u8>) requires o.len() > 0, ok_ups(o), wf_ups(o)
  ensures ({ let b = i_up(o) + rest; let x = o[0]; let t = o.skip(1); let r1 = e_bin(x.1) + (i_up(t) + rest); b.len() >= 1 && b[0] == 38 && b.skip(1) == e_bin(x.0) + r1 && p_str(b.skip(1)) == Some((x.0, r1)) && p_str(r1) == Some((x.1, i_up(t) + rest)) && i_up(o).len() == 5 + x.0.len() + x.1.len() + i_up(t).len() && ok_ups(t) && wf_ups(t) })
{ i_up_front(o); let b = i_up(o) + rest; let x = o[0]; let t = o.skip(1); let r1 = e_bin(x.1) + (i_up(t) + rest);
  assert(ok_up1(x)); assert(b[0] == 38); assert(b.skip(1) =~= e_bin(x.0) + r1); inv_str(x.0, r1); inv_str(x.1, i_up(t) + rest);
  assert forall|i: int| 0 <= i < t.len() implies ok_up1(#[trigger] t[i]) && text_ok(t[i].0) && text_ok(t[i].1) by { assert(t[i] == o[i + 1]); } }
pub proof fn ids_first(o: Seq<usize>, rest: Seq<u8>) requires o.len() > 0, ok_ids(o)
  ensures ({ let b = i_ids(o) + rest; let x = o[0]; let t = o.skip(1); b.len() >= 1 && b[0] == 11 && x <= MAXVI() && vi(b.skip(1)) == VI::Val(l_vi(x as int), x as int) && b.skip(1).skip(l_vi(x as int)) == i_ids(t) + rest && i_ids(o).len() == 1 + l_vi(x as int) + i_ids(t).len() && ok_ids(t) })
{ i_ids_front(o); let b = i_ids(o) + rest; let x = o[0]; let t = o.skip(1); assert(b[0] == 11); assert(b.skip(1) =~= e_vi(x as int) + (i_ids(t) + rest)); inv_vi(x, i_ids(t) + rest); e_vi_len(x as int);
  assert(b.skip(1).skip(l_vi(x as int)) =~= i_ids(t) + rest);
  assert forall|i: int| 0 <= i < t.len() implies #[trigger] t[i] <= MAXVI() by { assert(t[i] == o[i + 1]); } }
pub proof fn text_ok_empty() ensures text_ok(Seq::empty()) { reveal(text_ok); reveal_with_fuel(vstd::utf8::valid_utf8, 3); }

// ---------------------------------------------------------------- lengths
#[verifier::opaque] pub open spec fn l_u8(o: Option<u8>) -> int { match o { None => 0, Some(v) => 2 } }
#[verifier::opaque] pub open spec fn l_u16(o: Option<u16>) -> int { match o { None => 0, Some(v) => 3 } }
#[verifier::opaque] pub open spec fn l_u32(o: Option<u32>) -> int { match o { None => 0, Some(v) => 5 } }
#[verifier::opaque] pub open spec fn l_bin(o: Option<Seq<u8>>) -> int { match o { None => 0, Some(v) => 3 + v.len() as int } }
#[verifier::opaque] pub open spec fn l_ovi(o: Option<usize>) -> int { match o { None => 0, Some(v) => 1 + l_vi(v as int) } }
pub open spec fn l_up1(x: (Seq<u8>, Seq<u8>)) -> int { 5 + x.0.len() as int + x.1.len() as int }
pub open spec fn l_id1(x: usize) -> int { 1 + l_vi(x as int) }
pub open spec fn l_str1(x: Seq<u8>) -> int { 2 + x.len() as int }
pub open spec fn l_filter(f: FilterV) -> int { 3 + f.path.len() as int }
/*LISTLEN*/
// ---------------------------------------------------------------- appending
// w_F(b, x): b with the encoding of x appended, as a writer does it; lw_F: it is b + encoding
pub open spec fn w_bin(b: Seq<u8>, s: Seq<u8>) -> Seq<u8> { b + be16(s.len() as u16) + s }
#[verifier::opaque] pub open spec fn w_iu8(b: Seq<u8>, k: u8, o: Option<u8>) -> Seq<u8> { match o { None => b, Some(v) => b + seq![k] + seq![v] } }
#[verifier::opaque] pub open spec fn w_iu16(b: Seq<u8>, k: u8, o: Option<u16>) -> Seq<u8> { match o { None => b, Some(v) => b + seq![k] + be16(v) } }
#[verifier::opaque] pub open spec fn w_iu32(b: Seq<u8>, k: u8, o: Option<u32>) -> Seq<u8> { match o { None => b, Some(v) => b + seq![k] + be32(v) } }
#[verifier::opaque] pub open spec fn w_ibin(b: Seq<u8>, k: u8, o: Option<Seq<u8>>) -> Seq<u8> { match o { None => b, Some(v) => w_bin(b + seq![k], v) } }
#[verifier::opaque] pub open spec fn w_ivi(b: Seq<u8>, k: u8, o: Option<usize>) -> Seq<u8> { match o { None => b, Some(v) => b + seq![k] + e_vi(v as int) } }
pub open spec fn w_up1(b: Seq<u8>, x: (Seq<u8>, Seq<u8>)) -> Seq<u8> { w_bin(w_bin(b + seq![38u8], x.0), x.1) }
pub open spec fn w_id1(b: Seq<u8>, x: usize) -> Seq<u8> { b + seq![11u8] + e_vi(x as int) }
pub open spec fn w_str1(b: Seq<u8>, x: Seq<u8>) -> Seq<u8> { w_bin(b, x) }
pub open spec fn w_filter(b: Seq<u8>, f: FilterV) -> Seq<u8> { w_bin(b, f.path) + seq![opts(f) as u8] }
pub proof fn app_assoc(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>) ensures (a + b) + c == a + (b + c) { assert((a + b) + c =~= a + (b + c)); }
pub broadcast proof fn app_empty(a: Seq<u8>) ensures #[trigger] (a + Seq::<u8>::empty()) == a { assert(a + Seq::<u8>::empty() =~= a); }
pub proof fn lw_bin(b: Seq<u8>, s: Seq<u8>) ensures w_bin(b, s) == b + e_bin(s), e_bin(s).len() == 2 + s.len() { app_assoc(b, be16(s.len() as u16), s); }
pub proof fn lw_iu8(b: Seq<u8>, k: u8, o: Option<u8>) ensures w_iu8(b, k, o) == b + i_u8(k, o), i_u8(k, o).len() == l_u8(o) { reveal(i_u8); reveal(w_iu8); reveal(l_u8); app_empty(b); if o is Some { app_assoc(b, seq![k], seq![o->0]); } }
pub proof fn lw_iu16(b: Seq<u8>, k: u8, o: Option<u16>) ensures w_iu16(b, k, o) == b + i_u16(k, o), i_u16(k, o).len() == l_u16(o) { reveal(i_u16); reveal(w_iu16); reveal(l_u16); app_empty(b); if o is Some { app_assoc(b, seq![k], be16(o->0)); } }
pub proof fn lw_iu32(b: Seq<u8>, k: u8, o: Option<u32>) ensures w_iu32(b, k, o) == b + i_u32(k, o), i_u32(k, o).len() == l_u32(o) { reveal(i_u32); reveal(w_iu32); reveal(l_u32); app_empty(b); if o is Some { app_assoc(b, seq![k], be32(o->0)); } }
pub proof fn lw_ibin(b: Seq<u8>, k: u8, o: Option<Seq<u8>>) ensures w_ibin(b, k, o) == b + i_bin(k, o), i_bin(k, o).len() == l_bin(o) { reveal(i_bin); reveal(w_ibin); reveal(l_bin); app_empty(b); if o is Some { lw_bin(b + seq![k], o->0); app_assoc(b, seq![k], e_bin(o->0)); } }
pub proof fn lw_ivi(b: Seq<u8>, k: u8, o: Option<usize>) ensures w_ivi(b, k, o) == b + i_vi(k, o), i_vi(k, o).len() == l_ovi(o) { reveal(i_vi); reveal(w_ivi); reveal(l_ovi); app_empty(b); if o is Some { e_vi_len(o->0 as int); app_assoc(b, seq![k], e_vi(o->0 as int)); } }
pub proof fn lw_up1(b: Seq<u8>, x: (Seq<u8>, Seq<u8>)) ensures w_up1(b, x) == b + up1(x), up1(x).len() == l_up1(x) { let a = b + seq![38u8]; lw_bin(a, x.0); lw_bin(w_bin(a, x.0), x.1); app_assoc(b, seq![38u8], e_bin(x.0)); app_assoc(b, seq![38u8] + e_bin(x.0), e_bin(x.1)); }
pub proof fn lw_id1(b: Seq<u8>, x: usize) ensures w_id1(b, x) == b + id1(x), id1(x).len() == l_id1(x) { e_vi_len(x as int); app_assoc(b, seq![11u8], e_vi(x as int)); }
pub proof fn lw_str1(b: Seq<u8>, x: Seq<u8>) ensures w_str1(b, x) == b + e_bin(x), e_bin(x).len() == l_str1(x) { lw_bin(b, x); }
pub proof fn lw_filter(b: Seq<u8>, f: FilterV) ensures w_filter(b, f) == b + e_filter(f), e_filter(f).len() == l_filter(f) { lw_bin(b, f.path); app_assoc(b, e_bin(f.path), seq![opts(f) as u8]); }

// a is a prefix of b
#[verifier::opaque]
pub open spec fn pre(a: Seq<u8>, b: Seq<u8>) -> bool { a.len() <= b.len() && b.take(a.len() as int) == a }
pub proof fn pre_refl(b: Seq<u8>) ensures pre(b, b) { reveal(pre); assert(b.take(b.len() as int) =~= b); }
pub broadcast proof fn pre_app(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>) requires #[trigger] pre(a, b) ensures pre(a, #[trigger] (b + c)) { reveal(pre); assert((b + c).take(a.len() as int) =~= b.take(a.len() as int)); }
pub broadcast proof fn pre_trans(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>) requires #[trigger] pre(a, b), #[trigger] pre(b, c) ensures pre(a, c) { reveal(pre); assert(c.take(a.len() as int) =~= c.take(b.len() as int).take(a.len() as int)); }
pub broadcast proof fn pre_len(a: Seq<u8>, b: Seq<u8>) requires #[trigger] pre(a, b) ensures a.len() <= b.len(), b.take(a.len() as int) == a { reveal(pre); }
pub broadcast proof fn pre_u8(a: Seq<u8>, b: Seq<u8>, k: u8, o: Option<u8>) requires #[trigger] pre(a, b) ensures pre(a, #[trigger] w_iu8(b, k, o)) { lw_iu8(b, k, o); pre_app(a, b, i_u8(k, o)); }
pub broadcast proof fn pre_u16(a: Seq<u8>, b: Seq<u8>, k: u8, o: Option<u16>) requires #[trigger] pre(a, b) ensures pre(a, #[trigger] w_iu16(b, k, o)) { lw_iu16(b, k, o); pre_app(a, b, i_u16(k, o)); }
pub broadcast proof fn pre_u32(a: Seq<u8>, b: Seq<u8>, k: u8, o: Option<u32>) requires #[trigger] pre(a, b) ensures pre(a, #[trigger] w_iu32(b, k, o)) { lw_iu32(b, k, o); pre_app(a, b, i_u32(k, o)); }
pub broadcast proof fn pre_bin(a: Seq<u8>, b: Seq<u8>, k: u8, o: Option<Seq<u8>>) requires #[trigger] pre(a, b) ensures pre(a, #[trigger] w_ibin(b, k, o)) { lw_ibin(b, k, o); pre_app(a, b, i_bin(k, o)); }
pub broadcast proof fn pre_vi(a: Seq<u8>, b: Seq<u8>, k: u8, o: Option<usize>) requires #[trigger] pre(a, b) ensures pre(a, #[trigger] w_ivi(b, k, o)) { lw_ivi(b, k, o); pre_app(a, b, i_vi(k, o)); }
/*LISTS*/
pub broadcast proof fn skips(s: Seq<u8>, i: int, j: int) requires 0 <= i, 0 <= j, i + j <= s.len() ensures #[trigger] s.skip(i).skip(j) == s.skip(i + j) { assert(s.skip(i).skip(j) =~= s.skip(i + j)); }
// parsers look at what they consume only
pub proof fn loc_u8(c: Seq<u8>, m: int) requires 0 <= m <= c.len() ensures match p_u8(c) { None => p_u8(c.take(m)) is None, Some((v, r)) => if m < 1 { p_u8(c.take(m)) is None } else { p_u8(c.take(m)) == Some((v, r.take(m - 1))) } } { if c.len() >= 1 && m >= 1 { assert(c.take(m).skip(1) =~= c.skip(1).take(m - 1)); } }
pub proof fn loc_u16(c: Seq<u8>, m: int) requires 0 <= m <= c.len() ensures match p_u16(c) { None => p_u16(c.take(m)) is None, Some((v, r)) => if m < 2 { p_u16(c.take(m)) is None } else { p_u16(c.take(m)) == Some((v, r.take(m - 2))) } } { if c.len() >= 2 && m >= 2 { assert(c.take(m).skip(2) =~= c.skip(2).take(m - 2)); } }
pub proof fn loc_u32(c: Seq<u8>, m: int) requires 0 <= m <= c.len() ensures match p_u32(c) { None => p_u32(c.take(m)) is None, Some((v, r)) => if m < 4 { p_u32(c.take(m)) is None } else { p_u32(c.take(m)) == Some((v, r.take(m - 4))) } } { if c.len() >= 4 && m >= 4 { assert(c.take(m).skip(4) =~= c.skip(4).take(m - 4)); } }
pub proof fn loc_bin(c: Seq<u8>, m: int) requires 0 <= m <= c.len() ensures match p_bin(c) { None => p_bin(c.take(m)) is None, Some((v, r)) => if m < 2 + v.len() { p_bin(c.take(m)) is None } else { p_bin(c.take(m)) == Some((v, r.take(m - 2 - v.len()))) } }
{ reveal(p_bin); match p_bin(c) { None => {}, Some((v, r)) => { if m >= 2 + v.len() { assert(c.take(m).skip(2).take(v.len() as int) =~= v); assert(c.take(m).skip(2).skip(v.len() as int) =~= r.take(m - 2 - v.len())); } } } }
pub proof fn loc_str(c: Seq<u8>, m: int) requires 0 <= m <= c.len() ensures match p_str(c) { None => p_str(c.take(m)) is None, Some((v, r)) => if m < 2 + v.len() { p_str(c.take(m)) is None } else { p_str(c.take(m)) == Some((v, r.take(m - 2 - v.len()))) } }
{ reveal(p_str); loc_bin(c, m); }
pub proof fn loc_vi(c: Seq<u8>, m: int) requires 0 <= m <= c.len() ensures match vi(c) { VI::Val(w, n) => if m < w { !(vi(c.take(m)) is Val) } else { vi(c.take(m)) == VI::Val(w, n) && c.take(m).skip(w) == c.skip(w).take(m - w) }, _ => !(vi(c.take(m)) is Val) }
{ match vi(c) { VI::Val(w, n) => { if m >= w { assert(c.take(m).skip(w) =~= c.skip(w).take(m - w)); } }, _ => {} } }
pub broadcast proof fn skip_0<T>(s: Seq<T>) ensures #[trigger] s.skip(0) == s { assert(s.skip(0) =~= s); }
pub broadcast group g_read { skip_0, upv_push, upv_empty, strsv_push, strsv_empty, filtersv_push, filtersv_empty, p_bin_len, p_str_len, model_axioms }
pub broadcast group g_write { upv_len, upv_idx, strsv_len, strsv_idx, filtersv_len, filtersv_idx, pre_app, pre_trans, pre_u8, pre_u16, pre_u32, pre_bin, pre_vi, pre_up, pre_ids, pre_strs, pre_filters, model_axioms }
pub broadcast group g_len { upv_len, upv_idx, strsv_len, strsv_idx, filtersv_len, filtersv_idx, model_axioms }
'''

LISTS = {"up": ("(Seq<u8>, Seq<u8>)", "up1", "l_up1", "w_up1"), "ids": ("usize", "id1", "l_id1", "w_id1"), "strs": ("Seq<u8>", "e_bin", "l_str1", "w_str1"), "filters": ("FilterV", "e_filter", "l_filter", "w_filter")}
def gen_listlen():
    o = []
    for k, (T, e1, l1, w1) in LISTS.items():
        o.append(f"""pub open spec fn l_{k}(s: Seq<{T}>) -> int decreases s.len() {{ if s.len() == 0 {{ 0 }} else {{ l_{k}(s.drop_last()) + {l1}(s.last()) }} }}
pub proof fn l_{k}_step(s: Seq<{T}>, i: int) requires 0 <= i < s.len() ensures l_{k}(s.take(i + 1)) == l_{k}(s.take(i)) + {l1}(s[i]), l_{k}(s.take(i + 1)) <= l_{k}(s) {{ l_{k}_mono(s, i + 1); assert(s.take(i + 1).drop_last() =~= s.take(i)); }}
pub proof fn l_{k}_mono(s: Seq<{T}>, i: int) requires 0 <= i <= s.len() ensures l_{k}(s.take(i)) <= l_{k}(s) decreases s.len() - i
{{ if i < s.len() {{ l_{k}_mono(s, i + 1); assert(s.take(i + 1).drop_last() =~= s.take(i)); }} else {{ assert(s.take(i) =~= s); }} }}
pub proof fn l_{k}_pos(s: Seq<{T}>) ensures l_{k}(s) >= 2 * s.len() decreases s.len() {{ if s.len() > 0 {{ l_{k}_pos(s.drop_last()); }} }}""")
    return "\n".join(o)
def gen_lists():
    o = []
    for k, (T, e1, l1, w1) in LISTS.items():
        o.append(f"""pub open spec fn w_{k}(b: Seq<u8>, s: Seq<{T}>) -> Seq<u8> decreases s.len() {{ if s.len() == 0 {{ b }} else {{ {w1}(w_{k}(b, s.drop_last()), s.last()) }} }}
pub proof fn w_{k}_step(b: Seq<u8>, s: Seq<{T}>, i: int) requires 0 <= i < s.len() ensures w_{k}(b, s.take(i + 1)) == {w1}(w_{k}(b, s.take(i)), s[i]) {{ assert(s.take(i + 1).drop_last() =~= s.take(i)); }}
pub proof fn lw_{k}(b: Seq<u8>, s: Seq<{T}>) ensures w_{k}(b, s) == b + i_{k}(s), i_{k}(s).len() == l_{k}(s) decreases s.len() {{ app_empty(b); if s.len() > 0 {{ lw_{k}(b, s.drop_last()); lw_{w1[2:]}(w_{k}(b, s.drop_last()), s.last()); app_assoc(b, i_{k}(s.drop_last()), {e1}(s.last())); }} }}
pub broadcast proof fn pre_{k}(a: Seq<u8>, b: Seq<u8>, s: Seq<{T}>) requires #[trigger] pre(a, b) ensures pre(a, #[trigger] w_{k}(b, s)) {{ lw_{k}(b, s); pre_app(a, b, i_{k}(s)); }}""")
    return "\n".join(o)

def gen_bits():
    o = []
    g = []
    def bitor(x, y):
        return " + ".join(f"(if (({x} / {1<<i}) % 2) == 1 || (({y} / {1<<i}) % 2) == 1 {{ {1<<i}int }} else {{ 0int }})" for i in range(8))
    def bvor(x, y):
        t = [f"(if ({x} / {1<<i}u8) % 2u8 == 1u8 || ({y} / {1<<i}u8) % 2u8 == 1u8 {{ {1<<i}u8 }} else {{ 0u8 }})" for i in range(8)]
        r = t[0]
        for z in t[1:]: r = f"add({r}, {z})"
        return r
    o.append(f"pub broadcast proof fn bit_or(x: u8, y: u8) ensures #[trigger] (x | y) == {bitor('x','y')} {{ assert((x | y) == {bvor('x','y')}) by (bit_vector); }}")
    for i in range(1, 8):
        m = 1 << i
        o.append(f"pub broadcast proof fn or_lo{i}(x: u8, y: u8) requires x < {m}, y % {m} == 0 ensures #[trigger] (x | y) == x + y {{ assert(x < {m}u8 && y % {m}u8 == 0u8 ==> (x | y) == add(x, y) && y <= sub(255u8, x)) by (bit_vector); }}")
        o.append(f"pub broadcast proof fn or_hi{i}(x: u8, y: u8) requires y < {m}, x % {m} == 0 ensures #[trigger] (x | y) == x + y {{ assert(y < {m}u8 && x % {m}u8 == 0u8 ==> (x | y) == add(x, y) && y <= sub(255u8, x)) by (bit_vector); }}")
    o.append("pub broadcast group bit_dis { " + ", ".join(f"or_lo{i}, or_hi{i}" for i in range(1, 8)) + " }")
    for i in range(8):
        m = 1 << i
        o.append(f"pub broadcast proof fn or_{m}(x: u8) ensures #[trigger] (x | {m}u8) == x + {m} - {m} * ((x / {m}) % 2) {{ assert((x | {m}u8) == add(x, mul({m}u8, sub(1u8, (x / {m}u8) % 2u8)))) by (bit_vector); }}")
        o.append(f"pub broadcast proof fn orl_{m}(x: u8) ensures #[trigger] ({m}u8 | x) == x + {m} - {m} * ((x / {m}) % 2) {{ assert(({m}u8 | x) == add(x, mul({m}u8, sub(1u8, (x / {m}u8) % 2u8)))) by (bit_vector); }}")
        g += [f"or_{m}", f"orl_{m}"]
    for k in (7, 14, 21):
        for t in ("usize", "i32", "u32"):
            o.append(f"pub broadcast proof fn ushr_{k}_{t}(x: usize) ensures #[trigger] (x >> {k}{t}) == x / {1<<k} {{ assert((x >> {k}{t}) == x / {1<<k}usize) by (bit_vector); }}")
            g.append(f"ushr_{k}_{t}")
    o.append("pub broadcast proof fn trunc8(x: usize) ensures #[trigger] (x as u8) == x % 256 { assert((x as u8) == (x % 256usize) as u8) by (bit_vector); }")
    g.append("trunc8")
    # x & mask, contiguous masks (masks of one run of ones)
    for s in range(8):
        for w in range(1, 9 - s):
            m = ((1 << w) - 1) << s
            if m == 255: continue
            o.append(f"pub broadcast proof fn and_{m}(x: u8) ensures #[trigger] (x & {m}u8) == ((x / {1<<s}) % {1<<w}) * {1<<s} {{ assert((x & {m}u8) == mul((x / {1<<s}u8) % {1<<w}u8, {1<<s}u8)) by (bit_vector); }}")
            g.append(f"and_{m}")
    for k in range(0, 8):
        o.append(f"pub broadcast proof fn shr_{k}(x: u8) ensures #[trigger] (x >> {k}u8) == x / {1<<k} {{ assert((x >> {k}u8) == x / {1<<k}u8) by (bit_vector); }}")
        o.append(f"pub broadcast proof fn shl_{k}(x: u8) ensures #[trigger] (x << {k}u8) == ({1<<k} * x) % 256 {{ assert((x << {k}u8) == " + (f"mul({1<<k}u8, x % {1<<(8-k)}u8)" if k else "x") + ") by (bit_vector); }")
        g += [f"shr_{k}", f"shl_{k}"]
    for m, s, w in ((0x7f, 0, 7), (0x80, 7, 1)):
        o.append(f"pub broadcast proof fn uand_{m}(x: usize) ensures #[trigger] (x & {m}usize) == ((x / {1<<s}) % {1<<w}) * {1<<s} {{ assert((x & {m}usize) == mul((x / {1<<s}usize) % {1<<w}usize, {1<<s}usize)) by (bit_vector); }}")
        g.append(f"uand_{m}")
    for k in (0, 7, 14, 21):
        for t in ("usize", "i32", "u32"):
            o.append(f"pub broadcast proof fn ushl_{k}_{t}(x: usize) requires x < 128 ensures #[trigger] (x << {k}{t}) == {1<<k} * x {{ assert(x < 128 ==> (x << {k}{t}) == mul({1<<k}usize, x)) by (bit_vector); }}")
            g.append(f"ushl_{k}_{t}")
            o.append(f"pub broadcast proof fn umulshl_{k}_{t}(x: usize) requires x < 128 ensures #[trigger] (x * (1usize << {k}{t})) == {1<<k} * x {{ ushl_{k}_{t}(1); assert(x * (1usize << {k}{t}) == {1<<k} * x) by (nonlinear_arith) requires (1usize << {k}{t}) == {1<<k}; }}")
            g.append(f"umulshl_{k}_{t}")
    for t, ks in (("u16", (8,)), ("u32", (8, 16, 24)), ("usize", (7, 8, 14, 16, 21, 24))):
        w = {"u16": 16, "u32": 32, "usize": 64}[t]
        for k in ks:
            m = 1 << k
            for a, b, nm in (("x", "y", "lo"), ("y", "x", "hi")):
                o.append(f"pub broadcast proof fn {t}or_{nm}{k}(x: {t}, y: {t}) requires {a} < {m}, {b} % {m} == 0 ensures #[trigger] (x | y) == x + y {{ assert({a} < {m}{t} && {b} % {m}{t} == 0{t} ==> (x | y) == add(x, y) && {b} <= sub({(1 << w) - 1}{t}, {a})) by (bit_vector); }}")
                g.append(f"{t}or_{nm}{k}")
    for t, ks in (("u16", (8,)), ("u32", (8, 16, 24)), ("usize", (8, 16, 24))):
        for k in ks:
            for u in sorted({t, "i32"}):
                sfx = "" if u == t else "_i"
                o.append(f"pub broadcast proof fn {t}shl{k}{sfx}(x: {t}) requires x < {1 << ({'u16': 16, 'u32': 32, 'usize': 64}[t] - k)} ensures #[trigger] (x << {k}{u}) == {1<<k} * x {{ assert(x < {1 << ({'u16': 16, 'u32': 32, 'usize': 64}[t] - k)} ==> (x << {k}{u}) == mul({1<<k}{t}, x)) by (bit_vector); }}")
                g.append(f"{t}shl{k}{sfx}")
                o.append(f"pub broadcast proof fn {t}shr{k}{sfx}(x: {t}) ensures #[trigger] (x >> {k}{u}) == x / {1<<k} {{ assert((x >> {k}{u}) == x / {1<<k}{t}) by (bit_vector); }}")
                g.append(f"{t}shr{k}{sfx}")
    for t in ("u16", "u32"):
        o.append(f"pub broadcast proof fn {t}trunc8(x: {t}) ensures #[trigger] (x as u8) == x % 256 {{ assert((x as u8) == (x % 256{t}) as u8) by (bit_vector); }}")
        o.append(f"pub broadcast proof fn {t}and255(x: {t}) ensures #[trigger] (x & 255{t}) == x % 256 {{ assert((x & 255{t}) == x % 256{t}) by (bit_vector); }}")
        g += [f"{t}trunc8", f"{t}and255"]
    o.append("pub broadcast group bits { " + ", ".join(g) + " }")
    return "\n".join(o)

def lhint(k, x):
    f = lfun(k)
    if not f: return None
    v = {"u8": "2", "u16": "3", "u32": "5", "str": f"3 + {x}->0.len()", "bin": f"3 + {x}->0.len()", "vi": f"1 + l_vi({x}->0 as int)"}[k]
    return f"assert({x} is Some ==> {f}({x}) == {v}) by {{ reveal({f}); }}"
def lfun(k): return {"u8": "l_u8", "u16": "l_u16", "u32": "l_u32", "str": "l_bin", "bin": "l_bin", "vi": "l_ovi"}.get(k)
def wfun(k): return {"u8": "w_iu8", "u16": "w_iu16", "u32": "w_iu32", "str": "w_ibin", "bin": "w_ibin", "vi": "w_ivi"}.get(k)
def REVL(F): return " ".join(f"reveal({x});" for x in sorted({lfun(k) for _, _, k in F if lfun(k)}))
def REVW(F): return " ".join(f"reveal({x});" for x in sorted({wfun(k) for _, _, k in F if wfun(k)}))

def gen_props(only):
    o = []
    for X, (mod, F) in PROPS.items():
        if X != only: continue
        V = X + "V"
        def acc(f, v): return f"{V} {{ {f}: {v}, ..acc }}"
        o.append(f"\n// ================================================================ {X}")
        o.append(f"pub ghost struct {V} {{ " + ", ".join(f"pub {n}: {vtype(k)}" for n, i, k in F) + " }")
        o.append(f"impl View for {X} {{ type V = {V}; open spec fn view(&self) -> {V} {{ {V} {{ " + ", ".join(f"{n}: {view(k, 'self.' + n)}" for n, i, k in F) + " } } }")
        o.append(f"pub open spec fn empty_{X}() -> {V} {{ {V} {{ " + ", ".join(f"{n}: {vempty(k)}" for n, i, k in F) + " } }")
        # fields in wire format, left associated
        e = None
        for n, i, k in F:
            it = item(k, i, "v." + n)
            e = it if e is None else f"({e} + {it})"
        o.append(f"#[verifier::opaque] pub open spec fn e_{X}(v: {V}) -> Seq<u8> {{ {e} }}")
        o.append(f"#[verifier::opaque] pub open spec fn l_{X}(v: {V}) -> int {{ " + " + ".join(litem(k, "v." + n) for n, i, k in F) + " }")
        o.append(f"pub proof fn pos_{X}(v: {V}) ensures l_{X}(v) >= 0, " + ", ".join(litem(k, "v." + n) + " >= 0" for n, i, k in F) + f" {{ reveal(l_{X}); " + REVL(F) + " ".join(f"l_{k}_pos(v.{n});" for n, i, k in F if k in ("up", "ids")) + " }")
        we, pr = "b", []
        for j, (n, i, k) in enumerate(F):
            prev = f"b{j}"
            pr.append(f"let b{j+1} = {witem(k, i, prev, 'v.' + n)}; l{witem(k, i, prev, 'v.' + n)}; " + (f"let s{j+1} = " + (f"s{j} + " if j else "") + item(k, i, "v." + n) + "; ") + (f"app_assoc(b0, s{j}, {item(k, i, 'v.' + n)});" if j else ""))
            we = witem(k, i, we, "v." + n)
        o.append(f"#[verifier::opaque] pub open spec fn w_{X}(b: Seq<u8>, v: {V}) -> Seq<u8> {{ {we} }}")
        o.append(f"pub proof fn lw_{X}(b: Seq<u8>, v: {V}) ensures w_{X}(b, v) == b + e_{X}(v), e_{X}(v).len() == l_{X}(v), l_{X}(v) >= 0 {{ reveal(e_{X}); reveal(l_{X}); reveal(w_{X}); let b0 = b;\n  " + "\n  ".join(pr) + " }")
        o.append(f"pub open spec fn w_sec_{X}(b: Seq<u8>, o: Option<{V}>) -> Seq<u8> {{ match o {{ None => b + seq![0u8], Some(v) => w_{X}(b + e_vi(l_{X}(v)), v) }} }}")
        o.append(f"pub open spec fn lsec_{X}(o: Option<{V}>) -> int {{ match o {{ None => 1, Some(v) => l_vi(l_{X}(v)) + l_{X}(v) }} }}")
        o.append(f"pub proof fn lw_sec_{X}(b: Seq<u8>, o: Option<{V}>) ensures w_sec_{X}(b, o) == b + sec_{X}(o), sec_{X}(o).len() == lsec_{X}(o), lsec_{X}(o) >= 1, o matches Some(v) ==> l_{X}(v) >= 0 {{ match o {{ None => {{}}, Some(v) => {{ lw_{X}(b + e_vi(l_{X}(v)), v); app_assoc(b, e_vi(l_{X}(v)), e_{X}(v)); e_vi_len(l_{X}(v)); }} }} }}")
        o.append(f"pub broadcast proof fn pre_{X}(a: Seq<u8>, b: Seq<u8>, v: {V}) requires #[trigger] pre(a, b) ensures pre(a, #[trigger] w_{X}(b, v)) {{ lw_{X}(b, v); pre_app(a, b, e_{X}(v)); }}")
        o.append(f"pub broadcast proof fn pre_sec_{X}(a: Seq<u8>, b: Seq<u8>, v: Option<{V}>) requires #[trigger] pre(a, b) ensures pre(a, #[trigger] w_sec_{X}(b, v)) {{ lw_sec_{X}(b, v); pre_app(a, b, sec_{X}(v)); }}")
        o.append(f"pub open spec fn fok_{X}(v: {V}) -> bool {{ " + " && ".join(okitem(k, "v." + n) for n, i, k in F if okitem(k, "")) + " }")
        o.append(f"pub open spec fn wf_{X}(v: {V}) -> bool {{ " + " && ".join(wfitem(k, "v." + n) for n, i, k in F if wfitem(k, "")) + " }")
        o.append(f"pub open spec fn rep_{X}(v: {V}) -> bool {{ fok_{X}(v) && l_{X}(v) <= MAXVI() }}")
        o.append(f"pub open spec fn sec_{X}(o: Option<{V}>) -> Seq<u8> {{ match o {{ None => seq![0u8], Some(v) => e_vi(l_{X}(v)) + e_{X}(v) }} }}")
        o.append(f"pub open spec fn orep_{X}(o: Option<{V}>) -> bool {{ match o {{ None => true, Some(v) => rep_{X}(v) }} }}")
        o.append(f"pub open spec fn owf_{X}(o: Option<{V}>) -> bool {{ match o {{ None => true, Some(v) => wf_{X}(v) }} }}")
        o.append(f"pub open spec fn nf_{X}(o: Option<{V}>) -> Option<{V}> {{ match o {{ None => None, Some(v) => if l_{X}(v) == 0 {{ None }} else {{ Some(v) }} }} }}")
        # one step of the reader
        st = []
        for n, i, k in F:
            if k in W: st.append(f"if k == {i} {{ match p_{k}(c) {{ None => None, Some((v, r)) => Some((r, n - {W[k]+1}, {acc(n, 'Some(v)')})) }} }}")
            elif k == "up": st.append(f"if k == {i} {{ match p_str(c) {{ None => None, Some((v, r)) => match p_str(r) {{ None => None, Some((w, r2)) => Some((r2, n - 5 - v.len() - w.len(), {acc(n, f'acc.{n}.push((v, w))')})) }} }} }}")
            elif k in ("str", "bin"): st.append(f"if k == {i} {{ match p_{k}(c) {{ None => None, Some((v, r)) => Some((r, n - 3 - v.len(), {acc(n, 'Some(v)')})) }} }}")
            else:
                a = acc(n, "Some(v)") if k == "vi" else acc(n, f"acc.{n}.push(v)")
                st.append(f"if k == {i} {{ match vi(c) {{ VI::Val(w, x) => {{ let v = x as usize; Some((c.skip(w), n - 1 - w, {a})) }}, _ => None }} }}")
        o.append(f"#[verifier::opaque] pub open spec fn step_{X}(b: Seq<u8>, n: int, acc: {V}) -> Option<(Seq<u8>, int, {V})> {{ if b.len() < 1 {{ None }} else {{ let c = b.skip(1); let k = b[0];\n  " + "\n  else ".join(st) + "\n  else { None } } }")
        o.append(f'''#[verifier::opaque] pub open spec fn p_loop_{X}(b: Seq<u8>, n: int, acc: {V}) -> P<{V}> decreases b.len() {{
  if n <= 0 {{ if n == 0 {{ Some((acc, b)) }} else {{ None }} }} else {{ match step_{X}(b, n, acc) {{ None => None, Some((b2, n2, acc2)) => if b2.len() < b.len() {{ p_loop_{X}(b2, n2, acc2) }} else {{ None }} }} }} }}
pub proof fn unfold_{X}(b: Seq<u8>, n: int, acc: {V}) ensures p_loop_{X}(b, n, acc) == (if n <= 0 {{ if n == 0 {{ Some((acc, b)) }} else {{ None }} }} else {{ match step_{X}(b, n, acc) {{ None => None, Some((b2, n2, acc2)) => p_loop_{X}(b2, n2, acc2) }} }}),
  n > 0 ==> (match step_{X}(b, n, acc) {{ None => true, Some((b2, n2, acc2)) => b2.len() < b.len() }})
{{ reveal_with_fuel(p_loop_{X}, 2); reveal(step_{X}); broadcast use {{p_bin_len, p_str_len}}; }}
pub open spec fn p_sec_{X}(b: Seq<u8>) -> P<Option<{V}>> {{ match vi(b) {{ VI::Val(w, n) => if n == 0 {{ Some((None, b.skip(w))) }} else {{ match p_loop_{X}(b.skip(w), n, empty_{X}()) {{ None => None, Some((v, r)) => Some((Some(v), r)) }} }}, _ => None }} }}''')
        # round trip, field by field
        LW = {"u8": "lw_iu8", "u16": "lw_iu16", "u32": "lw_iu32", "str": "lw_ibin", "bin": "lw_ibin", "vi": "lw_ivi"}
        for n, i, k in F:
            it = item(k, i, "o")
            if k in ("up", "ids"):
                first, push, cons = ("up_first", "5 + x.0.len() + x.1.len()", "ok_ups(o), wf_ups(o)") if k == "up" else ("ids_first", "1 + l_vi(x as int)", "ok_ids(o)")
                o.append(f'''pub proof fn rt_{X}_{n}(o: {vtype(k)}, rest: Seq<u8>, n: int, acc: {V})
  requires n >= l_{k}(o), {cons}
  ensures p_loop_{X}(i_{k}(o) + rest, n, acc) == p_loop_{X}(rest, n - l_{k}(o), {acc(n, f'acc.{n} + o')})
  decreases o.len()
{{ lw_{k}(Seq::empty(), o); if o.len() == 0 {{ assert(i_{k}(o) + rest =~= rest); assert(acc.{n} + o =~= acc.{n}); }}
  else {{
    let t = o.skip(1); let x = o[0]; let b = i_{k}(o) + rest; let r2 = i_{k}(t) + rest; {first}(o, rest); lw_{k}(Seq::empty(), t); l_{k}_pos(t);
    unfold_{X}(b, n, acc);
    let a2 = {acc(n, f'acc.{n}.push(x)')};
    assert(step_{X}(b, n, acc) == Some((r2, n - ({push}), a2))) by {{ reveal(step_{X}); }}
    rt_{X}_{n}(t, rest, n - ({push}), a2);
    assert(acc.{n}.push(x) + t =~= acc.{n} + o);
  }} }}''')
            else:
                req = [f"n >= {litem(k, 'o')}", f"acc.{n} is None"]
                if okitem(k, "o"): req.append(okitem(k, "o"))
                if wfitem(k, "o"): req.append(wfitem(k, "o"))
                inv = {"u8": "assert((seq![v] + rest).skip(1) =~= rest);", "u16": "inv_u16(v, rest);", "u32": "inv_u32(v, rest);", "str": "inv_str(v, rest);", "bin": "inv_bin(v, rest);", "vi": "inv_vi(v, rest); e_vi_len(v as int);"}[k]
                body = {"u8": "seq![v]", "u16": "be16(v)", "u32": "be32(v)", "str": "e_bin(v)", "bin": "e_bin(v)", "vi": "e_vi(v as int)"}[k]
                o.append(f'''pub proof fn rt_{X}_{n}(o: {vtype(k)}, rest: Seq<u8>, n: int, acc: {V})
  requires {', '.join(req)}
  ensures p_loop_{X}({it} + rest, n, acc) == p_loop_{X}(rest, n - {litem(k, 'o')}, {acc(n, 'o')})
{{ reveal(i_{'bin' if k == 'str' else k}); reveal({lfun(k)}); match o {{ None => {{ assert({it} + rest =~= rest); }}
  Some(v) => {{ let b = {it} + rest; unfold_{X}(b, n, acc); assert(b[0] == {i}); assert(b.skip(1) =~= {body} + rest); {inv}
    assert(step_{X}(b, n, acc) == Some((rest, n - {litem(k, 'o')}, {acc(n, 'o')}))) by {{ reveal(step_{X}); }} }} }} }}''')
        # whole set
        L = [f"pub proof fn rt_{X}(v: {V}, tail: Seq<u8>)\n  requires fok_{X}(v), wf_{X}(v)\n  ensures p_loop_{X}(e_{X}(v) + tail, l_{X}(v), empty_{X}()) == Some((v, tail))\n{{ pos_{X}(v);"]
        m = len(F)
        for j, (n, i, k) in enumerate(F, 1):
            L.append(f"  let i{j} = {item(k, i, 'v.' + n)};")
            L.append(f"  let s{j} = " + (f"i{j};" if j == 1 else f"s{j-1} + i{j};"))
        L.append(f"  let r{m+1} = tail;")
        for j in range(m, 0, -1): L.append(f"  let r{j} = i{j} + r{j+1};")
        L.append(f"  assert(e_{X}(v) == s{m}) by {{ reveal(e_{X}); }}")
        for j in range(m, 1, -1): L.append(f"  app_assoc(s{j-1}, i{j}, r{j+1});")
        L.append(f"  let n1 = l_{X}(v); let a1 = empty_{X}();")
        for j, (n, i, k) in enumerate(F, 1): L.append(f"  let m{j} = {litem(k, 'v.' + n)};")
        L.append(f"  assert(n1 == " + " + ".join(f"m{j}" for j in range(1, m + 1)) + f") by {{ reveal(l_{X}); }}")
        for j, (n, i, k) in enumerate(F, 1):
            L.append(f"  rt_{X}_{n}(v.{n}, r{j+1}, n{j}, a{j}); let n{j+1} = n{j} - m{j}; let a{j+1} = {V} {{ {n}: " + (f"a{j}.{n} + v.{n}" if k in ("up", "ids") else f"v.{n}") + f", ..a{j} }};")
            if k in ("up", "ids"): L.append(f"  assert(a{j+1}.{n} =~= v.{n});")
        L.append(f"  assert(n{m+1} == 0); assert(a{m+1} == v); unfold_{X}(tail, 0, a{m+1});\n}}")
        o.append("\n".join(L))
        o.append(f'''pub proof fn rtsec_{X}(o: Option<{V}>, tail: Seq<u8>)
  requires orep_{X}(o), owf_{X}(o)
  ensures p_sec_{X}(sec_{X}(o) + tail) == Some((nf_{X}(o), tail))
{{ match o {{
    None => {{ let b = sec_{X}(o) + tail; e_vi_0(); assert(b[0] == 0); assert(vi(b) == VI::Val(1, 0)); assert(b.skip(1) =~= tail); }}
    Some(v) => {{ lw_{X}(Seq::empty(), v); let n = l_{X}(v); let e = e_{X}(v); let h = e_vi(n); let b = sec_{X}(o) + tail; e_vi_len(n); app_assoc(h, e, tail); c11_vi_inverse(n, e + tail);
      assert(b.skip(l_vi(n)) =~= e + tail); rt_{X}(v, tail); if n == 0 {{ assert(e + tail =~= tail); }} }}
  }} }}''')
        # a reader that is given only the section reads the same
        for n, i, k in F:
            h = {"up": "loc_str(c, n - 1); match p_str(c) { None => {}, Some((v, r)) => { let m = n - 3 - v.len(); if m >= 0 { loc_str(r, m); match p_str(r) { None => {}, Some((w, r2)) => {} } } } }",
                 "str": "loc_str(c, n - 1);", "bin": "loc_bin(c, n - 1);"}.get(k) or (f"loc_{k}(c, n - 1);" if k in W else "loc_vi(c, n - 1);")
            o.append(f"""pub proof fn locs_{X}_{n}(b: Seq<u8>, n: int, acc: {V})
  requires 0 < n <= b.len(), b[0] == {i}
  ensures match step_{X}(b, n, acc) {{ None => step_{X}(b.take(n), n, acc) is None, Some((b2, n2, acc2)) => n2 == n - (b.len() - b2.len()) && (if n2 < 0 {{ step_{X}(b.take(n), n, acc) is None }} else {{ step_{X}(b.take(n), n, acc) == Some((b2.take(n2), n2, acc2)) }}) }}
{{ reveal(step_{X}); let c = b.skip(1); assert(b.take(n).skip(1) =~= c.take(n - 1)); assert(b.take(n)[0] == b[0]); broadcast use {{p_bin_len, p_str_len}}; {h} }}""")
        o.append(f"""pub proof fn loc_{X}(b: Seq<u8>, n: int, acc: {V})
  requires 0 <= n
  ensures n > b.len() ==> p_loop_{X}(b, n, acc) is None,
    n <= b.len() ==> (match p_loop_{X}(b.take(n), n, acc) {{ None => p_loop_{X}(b, n, acc) is None, Some((v, r)) => r.len() == 0 && p_loop_{X}(b, n, acc) == Some((v, b.skip(n))) }})
  decreases b.len()
{{ unfold_{X}(b, n, acc); unfold_{X}(b.take(n), n, acc);
  if n == 0 {{ assert(b.skip(0) =~= b); }}
  else if n > b.len() {{ match step_{X}(b, n, acc) {{ None => {{}}, Some((b2, n2, acc2)) => {{ stepn_{X}(b, n, acc); if n2 >= 0 {{ loc_{X}(b2, n2, acc2); }} else {{ unfold_{X}(b2, n2, acc2); }} }} }} }}
  else {{ """ + " else ".join(f"if b[0] == {i} {{ locs_{X}_{n}(b, n, acc); }}" for n, i, k in F) + f""" else {{ reveal(step_{X}); }}
    match step_{X}(b, n, acc) {{ None => {{}}, Some((b2, n2, acc2)) => {{ stepn_{X}(b, n, acc); if n2 < 0 {{ unfold_{X}(b2, n2, acc2); }} else {{ loc_{X}(b2, n2, acc2); assert(b2.skip(n2) =~= b.skip(n)); }} }} }} }} }}
pub proof fn stepn_{X}(b: Seq<u8>, n: int, acc: {V})
  ensures match step_{X}(b, n, acc) {{ None => true, Some((b2, n2, acc2)) => b2.len() < b.len() && n2 == n - (b.len() - b2.len()) && b2 == b.skip(b.len() - b2.len()) }}
{{ reveal(step_{X}); reveal(p_str); reveal(p_bin); match step_{X}(b, n, acc) {{ None => {{}}, Some((b2, n2, acc2)) => {{ assert(b2 =~= b.skip(b.len() - b2.len())); }} }} }}
pub broadcast proof fn neg_{X}(b: Seq<u8>, n: int, acc: {V}) requires n < 0 ensures #[trigger] p_loop_{X}(b, n, acc) is None {{ unfold_{X}(b, n, acc); }}""")
        # what was accepted can be written
        POST = f"fok_{X}(v) && wf_{X}(v) && l_{X}(v) <= l_{X}(acc) + n && (n > 0 || l_{X}(acc) > 0 ==> l_{X}(v) > 0) && n <= b.len() && r == b.skip(n)"
        SPOST = f"fok_{X}(acc2) && wf_{X}(acc2) && b2.len() < b.len() && n2 == n - (b.len() - b2.len()) && b2 == b.skip(b.len() - b2.len()) && l_{X}(acc2) <= l_{X}(acc) + (n - n2) && l_{X}(acc2) > 0"
        for n, i, k in F:
            h = {"up": f"let v = (p_str(c)->0).0; let r = (p_str(c)->0).1; let w = (p_str(r)->0).0; assert(acc2.{n}.drop_last() =~= acc.{n}); assert(acc2.{n}.last() == (v, w)); assert(l_up(acc2.{n}) == l_up(acc.{n}) + l_up1((v, w))); assert(ok_up1((v, w))); reveal(p_str); reveal(p_bin); assert(b2 =~= b.skip((5 + v.len() + w.len()) as int));",
                 "ids": f"c11_vi_minimal(c); assert(acc2.{n}.drop_last() =~= acc.{n}); assert(l_ids(acc2.{n}) == l_ids(acc.{n}) + l_id1(acc2.{n}.last())); assert(b2 =~= b.skip(b.len() - b2.len()));",
                 "vi": "c11_vi_minimal(c); assert(b2 =~= b.skip(b.len() - b2.len()));",
                 "str": "reveal(p_str); reveal(p_bin); assert(b2 =~= b.skip(b.len() - b2.len()));"}
            h["bin"] = h["str"]
            hint = h.get(k) or f"assert(b2 =~= b.skip({W.get(k, 0)+1}));"
            o.append(f'''pub proof fn rs_{X}_{n}(b: Seq<u8>, n: int, acc: {V})
  requires fok_{X}(acc), wf_{X}(acc), b.len() >= 1, b[0] == {i}
  ensures match step_{X}(b, n, acc) {{ None => true, Some((b2, n2, acc2)) => {SPOST} }}
{{ match step_{X}(b, n, acc) {{ None => {{}}, Some((b2, n2, acc2)) => {{ reveal(step_{X}); pos_{X}(acc); pos_{X}(acc2); reveal(l_{X}); {f'reveal({lfun(k)});' if lfun(k) else ''} broadcast use {{p_bin_len, p_str_len}};
    let c = b.skip(1); {hint} }} }} }}''')
        o.append(f'''pub proof fn rs_{X}(b: Seq<u8>, n: int, acc: {V})
  requires fok_{X}(acc), wf_{X}(acc)
  ensures match step_{X}(b, n, acc) {{ None => true, Some((b2, n2, acc2)) => {SPOST} }}
{{ if b.len() >= 1 {{ let k = b[0]; ''' + " else ".join(f"if k == {i} {{ rs_{X}_{n}(b, n, acc); }}" for n, i, k in F) + f" else {{ reveal(step_{X}); }} }} else {{ reveal(step_{X}); }} }}")
        o.append(f'''pub proof fn re_{X}(b: Seq<u8>, n: int, acc: {V})
  requires fok_{X}(acc), wf_{X}(acc), n >= 0
  ensures match p_loop_{X}(b, n, acc) {{ None => true, Some((v, r)) => {POST} }}
  decreases b.len()
{{ unfold_{X}(b, n, acc);
  if n == 0 {{ assert(b.skip(0) =~= b); }}
  if n > 0 {{ rs_{X}(b, n, acc); match step_{X}(b, n, acc) {{ None => {{}}, Some((b2, n2, acc2)) => {{
    if n2 >= 0 {{ re_{X}(b2, n2, acc2); if n2 <= b2.len() {{ assert(b2.skip(n2) =~= b.skip(n)); }} }} else {{ unfold_{X}(b2, n2, acc2); }}
  }} }} }} }}''')
        o.append(f'''pub proof fn resec_{X}(b: Seq<u8>)
  ensures match p_sec_{X}(b) {{ None => true, Some((o, r)) => orep_{X}(o) && owf_{X}(o) && nf_{X}(o) == o && lsec_{X}(o) <= b.len() - r.len() && r.len() <= b.len() && r == b.skip(b.len() - r.len()) }}
{{ match vi(b) {{ VI::Val(w, n) => {{ c11_vi_minimal(b); let e = empty_{X}(); assert(l_{X}(e) == 0 && fok_{X}(e) && wf_{X}(e)) by {{ reveal(l_{X}); {REVL(F)} }} re_{X}(b.skip(w), n, e);
    match p_sec_{X}(b) {{ None => {{}}, Some((o, r)) => {{ if n > 0 {{ let v = o->0; assert(b.skip(w).skip(n) =~= b.skip(w + n)); assert(l_vi(l_{X}(v)) <= l_vi(n)); }} }} }} }}, _ => {{}} }} }}
/// C13: an accepted section ends exactly at its declared length
pub proof fn c13_{X}(b: Seq<u8>)
  ensures match p_sec_{X}(b) {{ None => true, Some((o, r)) => vi(b) is Val && r == b.skip(vi(b)->Val_0 + vi(b)->Val_1) && vi(b)->Val_0 + vi(b)->Val_1 <= b.len() && (o is None <==> vi(b)->Val_1 == 0) }}
{{ match vi(b) {{ VI::Val(w, n) => {{ c11_vi_minimal(b); let e = empty_{X}(); assert(l_{X}(e) == 0 && fok_{X}(e) && wf_{X}(e)) by {{ reveal(l_{X}); {REVL(F)} }} re_{X}(b.skip(w), n, e); if n > 0 && n <= b.len() - w {{ assert(b.skip(w).skip(n) =~= b.skip(w + n)); }} }}, _ => {{}} }} }}''')
    return "\n".join(o)

def gen_codes():
    o = []
    for E, (mod, T, bad) in CODES.items():
        arms = [f"{E}::{v} => Some({c}u8)" for v, c in T] + [f"{E}::{b} => None" for b in bad]
        o.append(f"pub open spec fn ec_{E}(v: {E}) -> Option<u8> {{ match v {{ " + ", ".join(arms) + " } }")
        o.append(f"pub open spec fn c_{E}(v: {E}) -> u8 {{ match ec_{E}(v) {{ Some(c) => c, None => 0 }} }}")
        o.append(f"pub open spec fn dc_{E}(n: u8) -> Option<{E}> {{ " + " else ".join(f"if n == {c} {{ Some({E}::{v}) }}" for v, c in T) + " else { None } }")
        o.append(f"pub proof fn c12_{E}(v: {E}, n: u8) ensures ec_{E}(v) is Some ==> dc_{E}(c_{E}(v)) == Some(v), dc_{E}(n) matches Some(w) ==> ec_{E}(w) == Some(n) {{ }}")
    o.append("pub open spec fn known_property(n: u8) -> bool { " + " || ".join(f"n == {i}" for i in PROPERTY_IDS) + " }")
    o.append("pub open spec fn known_packet(n: int) -> bool { 1 <= n <= 14 }")
    return "\n".join(o)


def imports():
    names = sorted(set(list(PROPS) + [e for e in CODES] + ["ConnAck", "Connect", "LastWill", "Login", "Publish", "PubAck", "PubRec", "PubRel", "PubComp", "Subscribe", "Filter", "SubAck", "Unsubscribe", "UnsubAck", "Disconnect", "PingReq", "PingResp", "Packet", "FixedHeader", "Error", "MqttString"]))
    return "#[allow(unused_imports)] use crate::{" + ", ".join(names) + "};"

HEAD = "#![allow(unused_imports, unused_variables, non_snake_case, unused_parens, dead_code)]\nuse vstd::prelude::*;\nuse crate::model::*;\n"

def generate():
    """module name -> text"""
    r = {}
    r["spec"] = HEAD + imports() + "\nverus! {\n" + COMMON.replace("/*BITS*/", gen_bits()).replace("/*LISTLEN*/", gen_listlen()).replace("/*LISTS*/", gen_lists()) + "\n" + gen_codes() + "\n}\n"
    for X in PROPS:
        r["sp_" + X.lower()] = HEAD + imports() + "\nuse crate::spec::*;\nverus! {\n" + gen_props(X) + "\n}\n"
    from packets import gen_packets
    for name, text in gen_packets().items():
        r[name] = HEAD + imports() + "\nuse crate::spec::*;\n" + "".join(f"use crate::sp_{X.lower()}::*;\n" for X in PROPS) + text
    return r
