//! Stand-ins for the types of the `bytes` crate, of std's byte-slice iterator and of the
//! crate's string types. Everything in this file is ASSUMED (external_body): it is the
//! documented behaviour of bytes 1.x and of std, and is listed in the evidence. The
//! dynamic conformance test (tools/witness, mode `model`) compares these contracts with
//! the real crate on sampled data.
use vstd::prelude::*;

verus! {

/*CONFIG*/

#[verifier::external_body] pub struct Bytes { x: Vec<u8> }
impl Clone for Bytes { #[verifier::external_body] fn clone(&self) -> (r: Bytes) ensures r@ == self@ { unimplemented!() } }
impl View for Bytes { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
#[verifier::external_body] pub struct BytesMut { x: Vec<u8> }
impl View for BytesMut { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
/// String, Box<str> or Cow<'static, str>: the view is the UTF-8 byte sequence
#[verifier::external_body] pub struct MString { x: String }
impl Clone for MString { #[verifier::external_body] fn clone(&self) -> (r: MString) ensures r@ == self@ { unimplemented!() } }
impl View for MString { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
/// str
#[verifier::external_body] pub struct Str { x: u8 }
impl View for Str { type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }
#[verifier::external_body] #[derive(Clone, Copy)] pub struct Utf8Error { x: u8 }
/// std::slice::Iter<u8>: the view is what is left to iterate over
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Iter<'a, T> { x: &'a [T] }
impl<'a, T> View for Iter<'a, T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
pub trait Buf { }
pub trait BufMut { }

pub open spec fn be16(v: u16) -> Seq<u8> { seq![(v / 256) as u8, (v % 256) as u8] }
pub open spec fn be32(v: u32) -> Seq<u8> { seq![(v / 16777216) as u8, ((v / 65536) % 256) as u8, ((v / 256) % 256) as u8, (v % 256) as u8] }
pub open spec fn rd16(b: Seq<u8>) -> u16 { (b[0] as int * 256 + b[1] as int) as u16 }
pub open spec fn rd32(b: Seq<u8>) -> u32 { (b[0] as int * 16777216 + b[1] as int * 65536 + b[2] as int * 256 + b[3] as int) as u32 }

/// A Rust allocation is at most isize::MAX bytes and str/String hold valid UTF-8
pub broadcast axiom fn ax_bytes_len(b: Bytes) ensures #[trigger] b@.len() <= isize::MAX;
pub broadcast axiom fn ax_bytesmut_len(b: BytesMut) ensures #[trigger] b@.len() <= isize::MAX;
pub broadcast axiom fn ax_mstring_len(b: MString) ensures #[trigger] b@.len() <= isize::MAX;
pub broadcast axiom fn ax_iter_len(b: Iter<u8>) ensures #[trigger] b@.len() <= isize::MAX;
pub broadcast axiom fn ax_mstring_utf8(b: MString) ensures text_ok(#[trigger] b@);
pub broadcast axiom fn ax_str_utf8(b: Str) ensures vstd::utf8::valid_utf8(#[trigger] b@);
pub broadcast group model_axioms { ax_bytes_len, ax_bytesmut_len, ax_mstring_len, ax_iter_len, ax_mstring_utf8, ax_str_utf8 }

impl Bytes {
  #[verifier::external_body] pub fn new() -> (r: Bytes) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn default() -> (r: Bytes) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
  #[verifier::external_body] pub fn remaining(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
  #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
  #[verifier::external_body] pub fn has_remaining(&self) -> (r: bool) ensures r == (self@.len() > 0) { unimplemented!() }
  #[verifier::external_body] pub fn advance(&mut self, n: usize) requires n <= old(self)@.len() ensures final(self)@ == old(self)@.skip(n as int) { unimplemented!() }
  #[verifier::external_body] pub fn split_to(&mut self, n: usize) -> (r: Bytes) requires n <= old(self)@.len() ensures r@ == old(self)@.take(n as int), final(self)@ == old(self)@.skip(n as int) { unimplemented!() }
  #[verifier::external_body] pub fn split_off(&mut self, n: usize) -> (r: Bytes) requires n <= old(self)@.len() ensures r@ == old(self)@.skip(n as int), final(self)@ == old(self)@.take(n as int) { unimplemented!() }
  #[verifier::external_body] pub fn copy_to_bytes(&mut self, n: usize) -> (r: Bytes) requires n <= old(self)@.len() ensures r@ == old(self)@.take(n as int), final(self)@ == old(self)@.skip(n as int) { unimplemented!() }
  #[verifier::external_body] pub fn truncate(&mut self, n: usize) ensures final(self)@ == (if n <= old(self)@.len() { old(self)@.take(n as int) } else { old(self)@ }) { unimplemented!() }
  #[verifier::external_body] pub fn clear(&mut self) ensures final(self)@ == Seq::<u8>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn get_u8(&mut self) -> (r: u8) requires 1 <= old(self)@.len() ensures r == old(self)@[0], final(self)@ == old(self)@.skip(1) { unimplemented!() }
  #[verifier::external_body] pub fn get_u16(&mut self) -> (r: u16) requires 2 <= old(self)@.len() ensures r == rd16(old(self)@), final(self)@ == old(self)@.skip(2) { unimplemented!() }
  #[verifier::external_body] pub fn get_u32(&mut self) -> (r: u32) requires 4 <= old(self)@.len() ensures r == rd32(old(self)@), final(self)@ == old(self)@.skip(4) { unimplemented!() }
  #[verifier::external_body] pub fn iter(&self) -> (r: Iter<u8>) ensures r@ == self@ { unimplemented!() }
  #[verifier::external_body] pub fn slice_(&self, a: usize, b: usize) -> (r: Bytes) requires a <= b <= self@.len() ensures r@ == self@.subrange(a as int, b as int) { unimplemented!() }
  #[verifier::external_body] pub fn chunk(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
  #[verifier::external_body] pub fn copy_from_slice(v: &[u8]) -> (r: Bytes) ensures r@ == v@ { unimplemented!() }
  #[verifier::external_body] pub fn eq(&self, v: &[u8]) -> (r: bool) ensures r == (self@ == v@) { unimplemented!() }
  #[verifier::external_body] pub fn as_ref(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
}
impl core::ops::Deref for Bytes { type Target = [u8];
  #[verifier::external_body] fn deref(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() } }

impl BytesMut {
  #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
  #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
  #[verifier::external_body] pub fn put_u8(&mut self, v: u8) ensures final(self)@ == old(self)@ + seq![v] { unimplemented!() }
  #[verifier::external_body] pub fn put_u16(&mut self, v: u16) ensures final(self)@ == old(self)@ + be16(v) { unimplemented!() }
  #[verifier::external_body] pub fn put_u32(&mut self, v: u32) ensures final(self)@ == old(self)@ + be32(v) { unimplemented!() }
  #[verifier::external_body] pub fn put_slice(&mut self, v: &[u8]) ensures final(self)@ == old(self)@ + v@ { unimplemented!() }
  #[verifier::external_body] pub fn extend_from_slice(&mut self, v: &[u8]) ensures final(self)@ == old(self)@ + v@ { unimplemented!() }
  #[verifier::external_body] pub fn new() -> (r: BytesMut) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn with_capacity(n: usize) -> (r: BytesMut) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn zeroed(n: usize) -> (r: BytesMut) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == 0 { unimplemented!() }
  #[verifier::external_body] pub fn reserve(&mut self, n: usize) ensures final(self)@ == old(self)@ { unimplemented!() }
  #[verifier::external_body] pub fn truncate(&mut self, n: usize) ensures final(self)@ == (if n <= old(self)@.len() { old(self)@.take(n as int) } else { old(self)@ }) { unimplemented!() }
  #[verifier::external_body] pub fn clear(&mut self) ensures final(self)@ == Seq::<u8>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn advance(&mut self, n: usize) requires n <= old(self)@.len() ensures final(self)@ == old(self)@.skip(n as int) { unimplemented!() }
  #[verifier::external_body] pub fn split_to(&mut self, n: usize) -> (r: BytesMut) requires n <= old(self)@.len() ensures r@ == old(self)@.take(n as int), final(self)@ == old(self)@.skip(n as int) { unimplemented!() }
  #[verifier::external_body] pub fn split_off(&mut self, n: usize) -> (r: BytesMut) requires n <= old(self)@.len() ensures r@ == old(self)@.skip(n as int), final(self)@ == old(self)@.take(n as int) { unimplemented!() }
  #[verifier::external_body] pub fn freeze(self) -> (r: Bytes) ensures r@ == self@ { unimplemented!() }
  #[verifier::external_body] pub fn iter(&self) -> (r: Iter<u8>) ensures r@ == self@ { unimplemented!() }
  #[verifier::external_body] pub fn get_index_(&self, i: usize) -> (r: u8) requires i < self@.len() ensures r == self@[i as int] { unimplemented!() }
  /// `self[i] = v` (IndexMut), rewritten by the extractor
  #[verifier::external_body] pub fn set_index_(&mut self, i: usize, v: u8) requires i < old(self)@.len() ensures final(self)@ == old(self)@.update(i as int, v) { unimplemented!() }
}
impl core::ops::Deref for BytesMut { type Target = [u8];
  #[verifier::external_body] fn deref(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() } }

impl<'a> Iter<'a, u8> {
  #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
  #[verifier::external_body] pub fn next(&mut self) -> (r: Option<&'a u8>) ensures
    match r { None => old(self)@.len() == 0 && final(self)@ == old(self)@, Some(x) => old(self)@.len() > 0 && *x == old(self)@[0] && final(self)@ == old(self)@.skip(1) } { unimplemented!() }
  #[verifier::external_body] pub fn clone(&self) -> (r: Iter<'a, u8>) ensures r@ == self@ { unimplemented!() }
  #[verifier::external_body] pub fn as_slice(&self) -> (r: &'a [u8]) ensures r@ == self@ { unimplemented!() }
}
impl MString {
  #[verifier::external_body] pub fn default() -> (r: MString) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
  #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
  #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
  #[verifier::external_body] pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
  #[verifier::external_body] pub fn as_ref(&self) -> (r: &Str) ensures r@ == self@ { unimplemented!() }
  #[verifier::external_body] pub fn as_str(&self) -> (r: &Str) ensures r@ == self@ { unimplemented!() }
  #[verifier::external_body] pub fn eq(&self, s: &Str) -> (r: bool) ensures r == (self@ == s@) { unimplemented!() }
}
impl Str {
  #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
  #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
  #[verifier::external_body] pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
  #[verifier::external_body] pub fn eq(&self, s: &Str) -> (r: bool) ensures r == (self@ == s@) { unimplemented!() }
  #[verifier::external_body] pub fn to_string(&self) -> (r: MString) ensures r@ == self@ { unimplemented!() }
  #[verifier::external_body] pub fn to_owned(&self) -> (r: MString) ensures r@ == self@ { unimplemented!() }
  #[verifier::external_body] pub fn into(&self) -> (r: MString) ensures r@ == self@ { unimplemented!() }
}
pub struct Cow { }
impl Cow {
  #[verifier::external_body] #[allow(non_snake_case)] pub fn Borrowed(s: &Str) -> (r: MString) ensures r@ == s@ { unimplemented!() }
  #[verifier::external_body] #[allow(non_snake_case)] pub fn Owned(s: MString) -> (r: MString) ensures r@ == s@ { unimplemented!() }
}
/// a string literal, given by its UTF-8 bytes
#[verifier::external_body] pub fn str_lit_(b: &[u8]) -> (r: &'static Str) ensures r@ == b@ { unimplemented!() }
/// std::str::from_utf8
#[verifier::external_body] pub fn from_utf8(b: &[u8]) -> (r: Result<&Str, Utf8Error>) ensures
  match r { Ok(s) => vstd::utf8::valid_utf8(b@) && s@ == b@, Err(_) => !vstd::utf8::valid_utf8(b@) } { unimplemented!() }
/// panicking macros: never reached
/// `v.extend(w)` for a list w
pub fn extend_<T>(v: &mut Vec<T>, w: Vec<T>) ensures final(v)@ == old(v)@ + w@ { let mut w = w; v.append(&mut w); }
/// `Option::replace`
pub fn opt_put_<T>(o: &mut Option<T>, x: T) -> (r: Option<T>) ensures *final(o) == Some(x), r == *old(o) { let mut y = Some(x); core::mem::swap(o, &mut y); y }
/// depends on how the library is compiled
#[verifier::external_body] pub fn any_bool_() -> (r: bool) { unimplemented!() }
/// memory for n elements: no more than there are bytes to decode (now, or when the function was entered) and a constant
#[verifier::external_body] pub fn alloc_ok_(n: usize, entry: Ghost<int>, now: Ghost<int>)
  requires n <= entry@ || n <= now@, // @alloc
{ unimplemented!() }
pub fn vec_of_<T: Copy>(x: T, n: usize) -> (r: Vec<T>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] r@[i] == x {
  let mut v: Vec<T> = Vec::new(); let mut i: usize = 0;
  while i < n invariant i <= n, v@.len() == i, forall|j: int| 0 <= j < i ==> #[trigger] v@[j] == x decreases n - i { v.push(x); i = i + 1; }
  v }
#[verifier::external_body] pub fn panic_<T>() -> T requires false { unimplemented!() }
/// an unrolled loop has not ended: never reached
#[verifier::external_body] pub fn unroll_() requires false { unimplemented!() }
#[verifier::external_body] pub fn assert_(b: bool) requires b { unimplemented!() }
/// <u8 as From<bool>>::from
pub fn u8_from_bool_(b: bool) -> (r: u8) ensures r == (if b { 1u8 } else { 0u8 }) { if b { 1 } else { 0 } }

/// std functions that do nothing to their argument
pub assume_specification<T>[core::mem::drop::<T>](x: T);
pub assume_specification<T>[core::mem::replace::<T>](d: &mut T, x: T) -> (r: T) ensures *final(d) == x, r == *old(d);
pub assume_specification<T>[core::convert::identity::<T>](x: T) -> (r: T) ensures r == x;
pub assume_specification<T>[core::hint::black_box::<T>](x: T) -> (r: T) ensures r == x;
/// to_be_bytes / from_be_bytes
pub trait ToBe_<const N: usize>: Sized { spec fn be_(self) -> Seq<u8>; fn to_be_(self) -> (r: [u8; N]) ensures r@ == self.be_(); }
impl ToBe_<2> for u16 { open spec fn be_(self) -> Seq<u8> { be16(self) } fn to_be_(self) -> (r: [u8; 2]) { let r = [(self / 256) as u8, (self % 256) as u8]; assert(r@ =~= be16(self)); r } }
impl ToBe_<4> for u32 { open spec fn be_(self) -> Seq<u8> { be32(self) } fn to_be_(self) -> (r: [u8; 4]) { let r = [(self / 16777216) as u8, ((self / 65536) % 256) as u8, ((self / 256) % 256) as u8, (self % 256) as u8]; assert(r@ =~= be32(self)); r } }
pub fn u16_from_be_(b: [u8; 2]) -> (r: u16) ensures r == rd16(b@) { b[0] as u16 * 256 + b[1] as u16 }
pub fn u32_from_be_(b: [u8; 4]) -> (r: u32) ensures r == rd32(b@) { b[0] as u32 * 16777216 + b[1] as u32 * 65536 + b[2] as u32 * 256 + b[3] as u32 }
}
