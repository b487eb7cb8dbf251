"""A verified reference implementation of the assumed contracts of model.rs, over Vec<u8>: every `external_body`
stand-in of Bytes, BytesMut and Iter is given a body, and Verus checks the body against the same contract text."""
import re, sys, os
HERE = os.path.dirname(os.path.abspath(__file__))
TYPES = {"Bytes": "Vec<u8>", "BytesMut": "Vec<u8>"}
DATA = '''
pub exec const MAXLEN_: usize ensures MAXLEN_ == isize::MAX { isize::MAX as usize }
pub open spec fn cap_(s: Seq<u8>) -> Seq<u8> { if s.len() <= isize::MAX { s } else { Seq::empty() } }
/// an allocation of more than isize::MAX bytes: the real code panics or aborts
#[verifier::exec_allows_no_decreases_clause] fn abort_() ensures false { loop { } }
fn data_(v: &Vec<u8>) -> (r: &[u8]) ensures r@ == cap_(v@) { if v.len() <= MAXLEN_ { v.as_slice() } else { vstd::slice::slice_subrange(v.as_slice(), 0, 0) } }
fn own_(b: &[u8]) -> (r: Vec<u8>) ensures r@ == b@, b@.len() <= isize::MAX { if b.len() > MAXLEN_ { abort_(); } slice_to_vec_(b) }
fn slice_to_vec_(b: &[u8]) -> (r: Vec<u8>) ensures r@ == b@ {
  let mut v: Vec<u8> = Vec::new(); let mut i: usize = 0;
  while i < b.len() invariant i <= b@.len(), v@ == b@.take(i as int) decreases b@.len() - i { v.push(b[i]); i = i + 1; proof { assert(b@.take(i as int) =~= b@.take(i - 1).push(b@[i - 1])); } }
  proof { assert(b@.take(i as int) =~= b@); } v }
fn cat_(a: &[u8], b: &[u8]) -> (r: Vec<u8>) ensures r@ == a@ + b@, r@.len() <= isize::MAX {
  if a.len() > MAXLEN_ || b.len() > MAXLEN_ - a.len() { abort_(); }
  let mut v = slice_to_vec_(a); let mut i: usize = 0;
  while i < b.len() invariant i <= b@.len(), v@ == a@ + b@.take(i as int) decreases b@.len() - i { v.push(b[i]); i = i + 1; proof { assert(a@ + b@.take(i as int) =~= (a@ + b@.take(i - 1)).push(b@[i - 1])); } }
  proof { assert(b@.take(i as int) =~= b@); } v }
fn sub_(b: &[u8], i: usize, j: usize) -> (r: &[u8]) requires i <= j <= b@.len() ensures r@ == b@.subrange(i as int, j as int) { vstd::slice::slice_subrange(b, i, j) }
'''
B = {  # body by name; {T} the type; d = the bytes held
 "new": "{T} {{ x: Vec::new() }}", "default": "{T} {{ x: Vec::new() }}", "with_capacity": "{T} {{ x: Vec::new() }}",
 "len": "data_(&self.x).len()", "remaining": "data_(&self.x).len()", "is_empty": "data_(&self.x).len() == 0", "has_remaining": "data_(&self.x).len() > 0",
 "advance": "let l = data_(&self.x).len(); let v = own_(sub_(data_(&self.x), n, l)); self.x = v;",
 "split_to": "let l = data_(&self.x).len(); let a = own_(sub_(data_(&self.x), 0, n)); let v = own_(sub_(data_(&self.x), n, l)); self.x = v; {T} {{ x: a }}",
 "copy_to_bytes": "let l = data_(&self.x).len(); let a = own_(sub_(data_(&self.x), 0, n)); let v = own_(sub_(data_(&self.x), n, l)); self.x = v; {T} {{ x: a }}",
 "split_off": "let l = data_(&self.x).len(); let a = own_(sub_(data_(&self.x), n, l)); let v = own_(sub_(data_(&self.x), 0, n)); self.x = v; {T} {{ x: a }}",
 "truncate": "let l = data_(&self.x).len(); if n <= l {{ let v = own_(sub_(data_(&self.x), 0, n)); self.x = v; }}",
 "clear": "self.x = Vec::new();",
 "get_u8": "let b = data_(&self.x); let r = b[0]; let v = own_(sub_(b, 1, b.len())); self.x = v; r",
 "get_u16": "let b = data_(&self.x); let r = (b[0] as u16) * 256 + (b[1] as u16); let v = own_(sub_(b, 2, b.len())); self.x = v; r",
 "get_u32": "let b = data_(&self.x); let r = (b[0] as u32) * 16777216 + (b[1] as u32) * 65536 + (b[2] as u32) * 256 + (b[3] as u32); let v = own_(sub_(b, 4, b.len())); self.x = v; r",
 "iter": "Iter {{ x: data_(&self.x) }}", "chunk": "data_(&self.x)", "as_ref": "data_(&self.x)", "deref": "data_(&self.x)",
 "copy_from_slice": "{T} {{ x: own_(v) }}", "slice_": "{T} {{ x: own_(sub_(data_(&self.x), a, b)) }}",
 "clone": "{T} {{ x: own_(data_(&self.x)) }}",
 "eq": "let a = data_(&self.x); if a.len() != v.len() {{ return false; }} let mut i: usize = 0; while i < a.len() invariant i <= a@.len(), a@ == self@, a@.len() == v@.len(), forall|j: int| 0 <= j < i ==> a@[j] == v@[j] decreases a@.len() - i {{ if a[i] != v[i] {{ return false; }} i = i + 1; }} proof {{ assert(self@ =~= v@); }} true",
 "put_u8": "let mut w: Vec<u8> = Vec::new(); w.push(v); proof {{ assert(w@ =~= seq![v]); }} let c = cat_(data_(&self.x), w.as_slice()); self.x = c;",
 "put_u16": "let mut w: Vec<u8> = Vec::new(); w.push((v / 256) as u8); w.push((v % 256) as u8); proof {{ assert(w@ =~= be16(v)); }} let c = cat_(data_(&self.x), w.as_slice()); self.x = c;",
 "put_u32": "let mut w: Vec<u8> = Vec::new(); w.push((v / 16777216) as u8); w.push(((v / 65536) % 256) as u8); w.push(((v / 256) % 256) as u8); w.push((v % 256) as u8); proof {{ assert(w@ =~= be32(v)); }} let c = cat_(data_(&self.x), w.as_slice()); self.x = c;",
 "put_slice": "let c = cat_(data_(&self.x), v); self.x = c;", "extend_from_slice": "let c = cat_(data_(&self.x), v); self.x = c;",
 "zeroed": "if n > MAXLEN_ {{ abort_(); }} let mut v: Vec<u8> = Vec::new(); let mut i: usize = 0; while i < n invariant i <= n, v@.len() == i, forall|j: int| 0 <= j < i ==> v@[j] == 0 decreases n - i {{ v.push(0); i = i + 1; }} {T} {{ x: v }}",
 "reserve": "", "freeze": "Bytes {{ x: self.x }}",
 "get_index_": "data_(&self.x)[i]",
 "set_index_": "let mut w = own_(data_(&self.x)); w.set(i, v); self.x = w;",
}
ITER = {"len": "if self.x.len() <= MAXLEN_ { self.x.len() } else { 0 }", "clone": "Iter { x: self.x }", "as_slice": "if self.x.len() <= MAXLEN_ { self.x } else { vstd::slice::slice_subrange(self.x, 0, 0) }",
 "next": "if self.x.len() > MAXLEN_ { return None; } if self.x.len() == 0 { None } else { let s = self.x; let r = &s[0]; self.x = vstd::slice::slice_subrange(s, 1, s.len()); Some(r) }"}
FREE = {"any_bool_": "true",
 "panic_": "proof { assert(false); } loop { }", "unroll_": "", "assert_": "", "alloc_ok_": ""}
def generate(src):
    s, proved, left = src, [], []
    s = s.replace("/*CONFIG*/", "#[verifier::opaque] pub open spec fn text_ok(s: Seq<u8>) -> bool { vstd::utf8::valid_utf8(s) }")
    for T in TYPES:
        s = s.replace(f"#[verifier::external_body] pub struct {T} {{ x: Vec<u8> }}", f"pub struct {T} {{ pub x: Vec<u8> }}")
        s = s.replace(f"impl View for {T} {{ type V = Seq<u8>; uninterp spec fn view(&self) -> Seq<u8>; }}", f"impl View for {T} {{ type V = Seq<u8>; open spec fn view(&self) -> Seq<u8> {{ cap_(self.x@) }} }}")
    s = s.replace("#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Iter<'a, T> { x: &'a [T] }", "#[verifier::reject_recursive_types(T)] pub struct Iter<'a, T> { pub x: &'a [T] }")
    s = s.replace("impl<'a, T> View for Iter<'a, T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }", "impl<'a, T> View for Iter<'a, T> { type V = Seq<T>; open spec fn view(&self) -> Seq<T> { if self.x@.len() <= isize::MAX { self.x@ } else { Seq::empty() } } }")
    for a in ("ax_bytes_len(b: Bytes)", "ax_bytesmut_len(b: BytesMut)", "ax_iter_len(b: Iter<u8>)"):
        s = re.sub(r"pub broadcast axiom fn " + re.escape(a) + r"([^;]*);", lambda m: f"pub broadcast proof fn {a}{m.group(1)} {{ }}", s)
        proved.append(a.split("(")[0])
    out, pos = [], 0
    for m in re.finditer(r"#\[verifier::external_body\] ((?:pub )?fn (\w+)(?:(?!external_body).)*?)\{ unimplemented!\(\) \}", s, re.S):
        imp = re.findall(r"^impl(?:<[^>]*>)? (?:[\w:]+(?:<[^>]*>)? for )?(\w+)", s[:m.start()], re.M)
        inside = s.rfind("\n}", 0, m.start()) < s.rfind("\nimpl", 0, m.start())
        T, f = imp[-1] if imp and inside else None, m.group(2)
        b = None
        if T in TYPES and f in B: b = B[f].format(T=T)
        elif T == "Iter" and f in ITER: b = ITER[f]
        elif T is None and f in FREE: b = FREE[f]
        elif (T, f) in EXTRA: b = EXTRA[T, f]
        nm = f"{T}::{f}" if T else f
        if b is None: left.append(nm); continue
        proved.append(nm)
        out.append(s[pos:m.start()]); out.append("#[verifier::exec_allows_no_decreases_clause] " + m.group(1) + "{ " + ("broadcast use model_axioms; " if T in TYPES or T == "Iter" else "") + b + " }"); pos = m.end()
    out.append(s[pos:])
    s = "".join(out)
    i = s.rindex("}")
    return s[:i] + DATA + "}\nfn main() { }\n", proved, left
EXTRA = {}
if __name__ == "__main__":
    t, p, l = generate(open(sys.argv[1]).read())
    open(sys.argv[2], "w").write(t); print(len(p), "given a body:", *p); print(len(l), "left:", *l)
