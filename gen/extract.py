"""Mechanical extraction of /repo/src into a Verus crate.

Every function's text is the source text of /repo, with the substitutions documented in
DESIGN.md ("What the extraction changes") and with contracts, ghost code and loop
invariants added. Nothing here is written per function body: what is inserted depends
on the function's contract (contracts.py) and on the shape of the statement."""
import os, re, sys, json
import rsast
from rsast import Unsupported, walk, kids, cfg_ok
from schema import *
from contracts import contract_for, norm
import specgen
from packets import PK

CONFIGS = {"default": [], "boxed_string": ["boxed_string"], "cow_string": ["cow_string"], "binary_string": ["binary_string"]}

class Undecided(Exception):
    """the shape of this function is not one the proof generator knows"""

class FnInfo:
    def __init__(self, file, node, self_ty=None, trait=None, impl=None):
        s = node["sig"]
        self.file, self.node, self.self_ty, self.trait, self.impl = file, node, self_ty, trait, impl
        self.name = s["name"]
        self.module = file.module
        self.params = []
        for p in s["params"]:
            if p["k"] == "Self": self.params.append(("self", p["text"]))
            else:
                if p["pat"]["k"] != "PIdent": self.params.append((None, p["ty"]["text"]))
                else: self.params.append((p["pat"]["name"], p["ty"]["text"]))
        self.ret = s["ret"]["text"] if s["ret"] else ""
        g = s.get("generics") or ""
        self.inlined, self.allocs = [], False
        self.generic = bool(re.search(r"<\s*[A-Z]", g)) or bool(s.get("where")) or "impl " in " ".join(t for _, t in self.params)
        self.mono = monomorph(g, s.get("where") or "", self.params) if self.generic else {}
        self.derived = None               # body of a derived function
        self.line = file.src[:node["sig"]["s"]].count(b"\n") + 1
    @property
    def qual(self):
        return "::".join(self.module + ([self.self_ty] if self.self_ty else []) + [self.name])
    @property
    def is_default(self): return self.trait is not None and self.trait.split("::")[-1] == "Default" and self.name == "default"
    @property
    def where(self): return f"{os.path.relpath(self.file.path, self.file.repo)}:{self.line}"

STR_TY = [(r"\bBox\s*<\s*str\s*>", "crate::model::MString"), (r"\bCow\s*<\s*'static\s*,\s*str\s*>", "crate::model::MString"), (r"\bString\b", "crate::model::MString"),
          (r"(?<![\w:])str\b", "crate::model::Str"), (r"\b(std|core)\s*::\s*slice\s*::\s*Iter\b", "crate::model::Iter"), (r"\bbytes\s*::\s*(\w+)", r"crate::model::\1"), (r"\b(?:std|core)\s*::\s*str\s*::\s*Utf8Error\b", "crate::model::Utf8Error")]
def map_ty(t):
    for a, b in STR_TY: t = re.sub(a, b, t)
    return t

def monomorph(g, w, params):
    """parameters of a type the caller chooses, as `anything that converts into X` or `anything that
    yields items X` -> {parameter: (type, "into" | "iter")}, or None when there are other bounds.
    What the function does with such a value is to convert it, by code of the caller's choice: the
    extraction hands it the converted value."""
    b = {}
    for part in split_args(re.sub(r"^\s*<|>\s*$", "", g)) + split_args(re.sub(r"^\s*where\b", "", w)):
        part = part.strip()
        if not part or part.startswith("'"): continue
        m = re.match(r"(\w+)\s*(?::(.*))?$", part, re.S)
        if not m or m.group(1) == "const": return None
        b.setdefault(m.group(1), []).extend(x.strip() for x in (m.group(2) or "").split("+") if x.strip())
    def one(bounds):
        bounds = [norm(x) for x in bounds if norm(x) not in ("Clone", "Sized", "Send", "Sync", "Debug", "'static")]
        if len(bounds) != 1: return None
        m = re.fullmatch(r"Into<(.*)>", bounds[0])
        if m: return m.group(1), "into"
        m = re.fullmatch(r"(?:IntoIterator|Iterator)<Item=(.*)>", bounds[0])
        if m: return f"Vec<{m.group(1)}>", "iter"
        return None
    r = {}
    for nm, ty in params:
        t = norm(ty)
        m = one(b[t]) if t in b else one(ty.strip()[5:].split("+")) if ty.strip().startswith("impl ") else ()
        if m == (): 
            if any(re.search(rf"\b{x}\b", ty) for x in b) or "impl " in ty: return None
            continue
        if m is None or nm is None: return None
        r[nm] = m
    return r

def nrm(path): return re.sub(r"\s+", "", path)

def assigned(n):
    """identifiers assigned in n (x = .., x += ..)"""
    r = []
    for c in walk(n):
        if c["k"] == "Assign" or c["k"] == "Binary" and c["op"].replace(" ", "") in ("+=", "-=", "*=", "/=", "|=", "&=", "^=", "<<=", ">>=", "%="):
            l = c["left"]
            if l["k"] == "Path": r.append(nrm(l["path"]))
    return r
def words(n):
    """names an expression may refer to"""
    r = set()
    for c in walk(n):
        if c["k"] == "Path": r.add(nrm(c["path"]))
        elif c["k"] in ("Macro", "SMacro"): r |= set(re.findall(r"[A-Za-z_]\w*", c["text"]))
    return r
def binds(n): return {c["name"] for c in walk(n) if c["k"] == "PIdent"}
def is_path(n, name=None):
    return n["k"] == "Path" and (name is None or nrm(n["path"]) == name)
def strip(n):
    while n["k"] == "Paren": n = n["expr"]
    return n
def ends_jump(stmts):
    if not stmts: return False
    s = stmts[-1]
    return s["k"] == "SExpr" and s["expr"]["k"] in ("Break", "Continue", "Return")

class Frame:
    """naming environment of the text being rendered (the function itself, or an inlined helper)"""
    def __init__(self, fn, self_text="self", inl=False):
        self.fn, self.self_text, self.inl = fn, self_text, inl
        self.closures = {}       # name -> (closure or function path, frame it was written in)

READS = {"prim", "str", "fhnew", "pread", "fread", "read", "dispatch", "top_read", "check", "fh", "rvi"}
class Gen:
    def __init__(self, crate, fn, contract):
        self.crate, self.fn, self.c = crate, fn, contract
        self.frame = Frame(fn)
        self.n = 0
        self.inlined = []
        self.notes = []
        self.in_loop = 0
        self.brk = None          # inside an unrolled loop: name of the flag
        self.owner_mod = fn.module

    def fresh(self, p="t"):
        self.n += 1
        return f"{p}{self.n}_"
    # ------------------------------------------------------------------ rendering
    def slices(self, n, repl=None):
        f = self.frame.fn.file
        cs = sorted(kids(n), key=lambda c: c["s"])
        out, pos = [], n["s"]
        for c in cs:
            if c["s"] < pos: continue
            out.append(f.src[pos:c["s"]].decode()); out.append(self.r(c)); pos = c["e"]
        out.append(f.src[pos:n["e"]].decode())
        return "".join(out)
    def r(self, n):
        if n.get("attrs") and not cfg_ok(n, self.crate.feats): return ""
        h = getattr(self, "r_" + n["k"], None)
        return h(n) if h else self.slices(n)
    def r_attr(self, n): return ""
    def r_type(self, n):
        t = map_ty(n["text"])
        if self.frame.inl and self.frame.fn.self_ty: t = re.sub(r"\bSelf\b", self.frame.fn.self_ty, t)
        return t
    def r_Lit(self, n):
        if n["lk"] == "str": return "crate::model::str_lit_(&[" + ", ".join(f"{b}u8" for b in n["value"]) + "])"
        if n["lk"] == "bytestr": return "&[" + ", ".join(f"{b}u8" for b in n["value"]) + "]"
        return n["text"] if n["lk"] == "int" else self.slices(n)
    def fixpath(self, p):
        p = nrm(p)
        if self.frame.self_text != "self" and p == "self": return self.frame.self_text
        if self.frame.inl and self.frame.fn.self_ty and (p == "Self" or p.startswith("Self::")): p = self.frame.fn.self_ty + p[4:]
        if p.startswith(("std::str::from_utf8", "core::str::from_utf8", "str::from_utf8")) : return "crate::model::from_utf8"
        return p
    def r_Path(self, n): return self.fixpath(n["path"])
    def r_PPath(self, n): return self.fixpath(n["path"])
    def r_PTupleStruct(self, n):
        return self.fixpath(n["path"]) + "(" + ", ".join(self.r(e) for e in n["elems"]) + ")"
    def r_PIdent(self, n):
        return ("ref " if n.get("ref") else "") + ("mut " if n.get("mut") else "") + n["name"] + ((" @ " + self.r(n["sub"])) if n.get("sub") else "")
    def r_StructLit(self, n):
        fs = []
        own = self.crate.struct(self.frame.fn.self_ty if nrm(n["path"]) == "Self" else nrm(n["path"]).split("::")[-1])
        def isdef(e): return e["k"] == "Call" and e["func"]["k"] == "Path" and nrm(e["func"]["path"]).split("::")[-2:] == ["Default", "default"]
        for f in n["fields"]:
            if own and not f.get("short") and isdef(f["expr"]):
                ty = next((x["ty"]["text"] for x in own["fields"] if x["name"] == f["name"]), None)
                if ty: fs.append(f"{f['name']}: {self.crate.default_of(ty)}"); continue
            fs.append(f["name"] if f.get("short") else f"{f['name']}: {self.r(f['expr'])}")
        if n.get("rest"): fs.append(".." + (f"{own['name']}::default()" if own and isdef(n["rest"]) else self.r(n["rest"])))
        return self.fixpath(n["path"]) + " { " + ", ".join(fs) + " }"
    def converted(self, h, i, a):
        """an argument of a function whose parameter is of any type that converts"""
        t = h.mono.get(h.params[i][0]) if i < len(h.params) else None
        x = strip(a)
        if t and t[1] == "iter":
            es = x["elems"] if x["k"] == "Array" else x["args"] if x["k"] == "Call" and x["func"]["k"] == "Path" and nrm(x["func"]["path"]).endswith(("iter::once", "Some")) else None
            if es is not None: return "{ let mut v_ = Vec::new(); " + "".join(f"v_.push({self.r(e)}); " for e in es) + "v_ }"
        return self.r(a)
    def given(self, n):
        """a parameter whose conversion is the caller's: already converted"""
        n = strip(n)
        return n["k"] == "Path" and nrm(n["path"]) in (self.fn.mono or {}) and self.frame.fn is self.fn
    def r_Unsafe(self, n): raise Undecided("unsafe block")
    def r_EOther(self, n): raise Undecided("expression " + n["text"][:40])
    def macro(self, n):
        p, t = nrm(n["path"]).split("::")[-1], n["text"]
        if p in ("unreachable", "panic", "todo", "unimplemented"): return "crate::model::panic_()"
        if p in ("assert", "debug_assert"): return f"crate::model::assert_({split_args(t)[0]})"
        if p in ("assert_eq", "debug_assert_eq"): a = split_args(t); return f"crate::model::assert_(({a[0]}) == ({a[1]}))"
        if p in ("assert_ne", "debug_assert_ne"): a = split_args(t); return f"crate::model::assert_(({a[0]}) != ({a[1]}))"
        if p == "matches":
            a = split_args(t)
            return f"(match {a[0]} {{ {a[1]} => true, _ => false }})"
        if p == "vec" and not t.strip(): return "Vec::new()"
        if p == "vec" and t.count(";") == 1 and len(split_args(t)) == 1:
            x, k = t.split(";")
            return f"crate::model::vec_of_({x}, {self.alloc(k)})"
        if p == "vec" and ";" not in t:
            for nm, (_, how) in (self.frame.fn.mono or {}).items(): t = re.sub(rf"(?<![\w.])({nm})\s*\.\s*into\s*\(\s*\)", r"\1", t)
            return "{ let mut v_ = Vec::new(); " + "".join(f"v_.push({a}); " for a in split_args(t) if a.strip()) + "v_ }"
        if p == "cfg":
            # how the library is compiled is not the property's business: both
            if "debug_assertions" in t or "test" in t.split(): return "crate::model::any_bool_()"
            return "true" if rsast.cfg_eval(f"cfg ({t}) ]", self.crate.feats) else "false"
        raise Undecided(f"macro {p}!")
    def r_Macro(self, n): return self.macro(n)
    def r_SMacro(self, n):
        t = self.macro(n)
        if t == "crate::model::panic_()" and n.get("semi"): return "return crate::model::panic_();"
        return t + (";" if n.get("semi", True) else "")
    def r_Assign(self, n):
        l = n["left"]
        if l["k"] == "Index" and self.is_buf(l["base"]):
            self.upd = True
            return f"{self.r(l['base'])}.set_index_({self.r(l['index'])}, {self.r(n['right'])})"
        return self.slices(n)
    def var_ty(self, n):
        n = strip(n)
        while n["k"] in ("Ref", "Unary"): n = strip(n["expr"])
        if n["k"] != "Path": return None
        for nm, ty in self.frame.fn.params:
            if nm == nrm(n["path"]): return norm(ty)
        return None
    def into_u8(self, arg):
        """the crate's own conversion of an enum into u8, for `u8::from(arg)` and `arg.into()`"""
        c = [x for x in self.crate.fns if x.self_ty is None and re.fullmatch(r"from_\w+_", x.name) and x.contract is not None]
        if arg is None: loc = [x for x in c if x.module == self.frame.fn.module]; return loc[0] if len(loc) == 1 else None
        t = self.enum_of(arg)
        if t is None and arg["k"] in ("Path", "Unary", "Paren"): return self.into_u8(None)
        c = [x for x in c if t is not None and norm(x.params[0][1]) == t]
        return c[0] if len(c) == 1 else None
    def enum_of(self, e):
        """type of `self.field`, of a parameter, or of what a reference to them holds"""
        e = strip(e)
        while e["k"] in ("Unary", "Ref"): e = strip(e["expr"])
        if e["k"] == "Field" and is_path(e["base"], "self") and self.frame.fn.self_ty:
            st = self.crate.struct(self.frame.fn.self_ty)
            return next((norm(q["ty"]["text"]) for q in st["fields"] if q["name"] == e["member"]), None) if st else None
        t = self.var_ty(e)
        return t and t.lstrip("&")
    def is_buf(self, n):
        t = self.var_ty(n)
        return t in ("&mutBytesMut", "&mutbytes::BytesMut", "BytesMut", "&BytesMut")
    def r_Index(self, n):
        if self.is_buf(n["base"]) and n["index"]["k"] != "Range": return f"{self.r(n['base'])}.get_index_({self.r(n['index'])})"
        return self.slices(n)
    def r_Binary(self, n):
        op = n["op"].replace(" ", "")
        if op.rstrip("=") in ("&", "|", "<<", ">>", "^"): self.bits = True
        if op.rstrip("=") == "|" and not (one_bit(n["left"]) or one_bit(n["right"])): self.anyor = True
        if op == "*" and self.fixed:
            for a, b in ((n["left"], n["right"]), (n["right"], n["left"])):
                x = strip(b)
                if x["k"] == "Path" and nrm(x["path"]) in self.fixed and num(a) is None and n["s"] < self.fixed[nrm(x["path"])][1]:
                    return f"({self.r(a)} * {self.fixed[nrm(x['path'])][0]})"
        if op in ("==", "!="):
            for a, b in ((n["left"], n["right"]), (n["right"], n["left"])):
                t = self.var_ty(a)
                if t in ("&MqttString", "&str", "&String", "&Bytes", "MqttString", "&Cow<'static,str>", "&Box<str>", "&'staticstr"):
                    x, y = strip(a), strip(b)
                    while y["k"] == "Unary" and y["op"].strip() == "*": y = strip(y["expr"])
                    while x["k"] == "Unary" and x["op"].strip() == "*": x = strip(x["expr"])
                    s = f"{self.r(x)}.eq({self.r(y)})"
                    return s if op == "==" else f"!{s}"
        if op.endswith("=") and op not in ("==", "!=", "<=", ">=") and n["left"]["k"] == "Index" and self.is_buf(n["left"]["base"]):
            b, i = self.r(n["left"]["base"]), self.r(n["left"]["index"])
            self.upd = True
            return f"{{ let k_ = {i}; let x_ = {b}.get_index_(k_) {op[:-1]} ({self.r(n['right'])}); {b}.set_index_(k_, x_) }}"
        return self.slices(n)
    def r_Return(self, n):
        if self.frame.inl and not is_err(n): raise Undecided("return inside an inlined helper")
        e = self.r(n["expr"]) if n.get("expr") else "()"
        pc = self.c.post_hint if self.c and getattr(self.c, "post_hint", None) else None
        if pc: return f"{{ let r_ = {e}; proof {{ {pc} }} return r_; }}"
        return f"return {e}"
    def r_Continue(self, n):
        if self.brk: raise Undecided("continue inside an unrolled loop")
        return "continue"
    def r_Break(self, n):
        if self.brk: raise Undecided("break inside an unrolled loop")
        return "break"
    def alloc(self, e):
        """a request for memory while reading, of e elements: never beyond the bytes at hand"""
        if self.c.role not in READS: return e
        self.allocs = True
        return f"{{ let n_ = {e}; crate::model::alloc_ok_(n_, Ghost(alim_), Ghost({self.at_hand()})); n_ }}"
    def at_hand(self):
        t = [f"{nm}@.len()" for nm, ty in self.fn.params if re.fullmatch(r"(&mut|&)?(bytes::)?(Bytes|BytesMut|Iter<(?:'\w+,)?u8>|\[u8\])", norm(ty))]
        return " + ".join(t + ["64"]) + " as int" if not t else "(" + " + ".join(t) + " + 64) as int"
    def r_Call(self, n):
        f = n["func"]
        if f["k"] in ("Path", "Paren") and is_path(strip(f)) and nrm(strip(f)["path"]) in self.frame.closures: return self.closure_call(nrm(strip(f)["path"]), n["args"])
        if f["k"] == "Path":
            p = nrm(f["path"])
            last = p.split("::")[-1]
            m = re.fullmatch(r"(?:std::vec::)?(?:(Vec)(?:::<.*>)?|(?:bytes::)?(BytesMut)|(String))::(with_capacity|zeroed)", p)
            if m and len(n["args"]) == 1: return f"{self.r(f)}({self.alloc(self.r(n['args'][0]))})"
            if p == "u8::from" and len(n["args"]) == 1 and self.into_u8(n["args"][0]): return f"{self.into_u8(n['args'][0]).name}({self.r(n['args'][0])})"
            if p == "u8::from" and len(n["args"]) == 1: return f"crate::model::u8_from_bool_({self.r(n['args'][0])})"
            m = re.fullmatch(r"(usize|u64|u32|u16|i32|u128)::from", p)
            if m: return f"(({self.r(n['args'][0])}) as {m.group(1)})"
            m = re.fullmatch(r"(u16|u32)::from_be_bytes", p)
            if m: return f"crate::model::{m.group(1)}_from_be_({self.r(n['args'][0])})"
            m = re.fullmatch(r"(usize|u64|u32|u16|u8|bool|Vec|Option)(?:::<.*>)?::default", p)
            if m and not n["args"]: return self.crate.default_of(m.group(1))
            if p.split("::")[-1] in ("into", "from_iter", "from") and len(n["args"]) == 1 and self.given(n["args"][0]): return self.r(n["args"][0])
            if p in ("String::from", "Box::from"): return f"{self.r(n['args'][0])}.to_string()"
            if p == "Ok" or p == "Err" or p == "Some": return self.slices(n)
            h = self.crate.resolve_call(p, self.frame.fn)
            if h is not None and h.contract is None and not (h.trait): return self.inline(h, n["args"], None)
            if h is not None and h.contract is not None and h.contract.role == "dispatch" and len(n["args"]) == 2:
                if not all(a["k"] == "Path" for a in n["args"]): return f"{{ let a0_ = {self.r(n['args'][0])}; let a1_ = {self.r(n['args'][1])}; let ghost k_ = (a0_, a1_@); det_({self.r(f)}(a0_, a1_), Ghost(k_.0), Ghost(k_.1)) }}"
                x, y = (self.r(a) for a in n["args"])
                return f"{{ let ghost k_ = ({x}, {y}@); det_({self.slices(n)}, Ghost(k_.0), Ghost(k_.1)) }}"
            if h is not None and h.mono: return f"{self.r(f)}({', '.join(self.converted(h, i, a) for i, a in enumerate(n['args']))})"
        return self.slices(n)
    def r_Try(self, n):
        e = n["expr"]
        if e["k"] == "MethodCall" and e["method"] == "collect" and self.c.role in ("fread", "read") and e["recv"]["k"] == "MethodCall" and e["recv"]["method"] == "map":
            b = self.bytes_iter(e["recv"]["recv"])
            if b:
                c, v = e["recv"]["args"][0], self.fresh("v")
                if c["k"] == "Path": x = self.fresh("c"); pat, text = {"k": "PNameN", "s": 0, "e": 0, "name": x}, lambda: f"{self.fixpath(c['path'])}({x})"
                elif c["k"] == "Closure" and len(c["params"]) == 1 and not any(x["k"] in ("Return", "Try") for x in walk(c["body"])): pat, text = c["params"][0], lambda: self.r(c["body"])
                else: raise Undecided("closure")
                return f"{{ let mut {v} = Vec::new();\n{self.loop_bytes(*b, pat, lambda: f'{v}.push(({text()})?);', v)}\n{v} }}"
        if e["k"] in ("Call", "MethodCall"):
            self.trying = e
        return self.slices(n)
    trying = None
    def r_MethodCall(self, n):
        m = n["method"]
        if m in ("reserve", "reserve_exact") and len(n["args"]) == 1: return f"{self.r(n['recv'])}.{m}({self.alloc(self.r(n['args'][0]))})"
        if m == "resize" and len(n["args"]) == 2: return f"{self.r(n['recv'])}.resize({self.alloc(self.r(n['args'][0]))}, {self.r(n['args'][1])})"
        if m == "insert" and len(n["args"]) == 1 and is_path(strip(n["recv"])):
            o = self.r(n["recv"])
            return f"({{ crate::model::opt_put_(&mut {o}, {self.r(n['args'][0])}); {o}.as_ref().unwrap() }})"
        if m == "replace" and len(n["args"]) == 1 and is_path(strip(n["recv"])): return f"crate::model::opt_put_(&mut {self.r(n['recv'])}, {self.r(n['args'][0])})"
        if m == "into" and not n["args"] and self.into_u8(n["recv"]): return f"{self.into_u8(n['recv']).name}({self.r(n['recv'])})"
        if m == "into" and self.given(n["recv"]): return self.r(n["recv"])
        if m == "extend" and len(n["args"]) == 1 and self.given(n["args"][0]): return f"crate::model::extend_(&mut {self.r(n['recv'])}, {self.r(n['args'][0])})"
        if m == "extend" and len(n["args"]) == 1 and n["args"][0]["k"] == "MethodCall" and n["args"][0]["method"] == "map" and self.is_buf(n["recv"]):
            t = self.adaptor({"k": "MethodCall", "method": "collect", "recv": n["args"][0], "args": []})
            if t is not None:
                v = self.fresh("v")
                return f"{{ let {v} = {t}; {self.r(n['recv'])}.extend_from_slice(&{v}) }}"
        if m == "collect" and n["recv"]["k"] == "MethodCall" and n["recv"]["method"] == "into_iter" and self.given(n["recv"]["recv"]): return self.r(n["recv"]["recv"])
        if m == "collect" and self.given(n["recv"]): return self.r(n["recv"])
        if m == "put" and len(n["args"]) == 1 and self.is_buf(n["recv"]) and self.var_ty(n["args"][0]) in ("&[u8]",): return f"{self.r(n['recv'])}.put_slice({self.r(n['args'][0])})"
        if m == "slice" and len(n["args"]) == 1 and n["args"][0]["k"] == "Range" and (self.var_ty(n["recv"]) or "").replace("bytes::", "") in ("Bytes", "&Bytes", "&mutBytes"):
            g, rc = n["args"][0], self.r(n["recv"])
            lo = self.r(g["from"]) if g.get("from") else "0"
            hi = f"({self.r(g['to'])})" + (" + 1" if "=" in g.get("limits", "") else "") if g.get("to") else f"{rc}.len()"
            return f"{rc}.slice_({lo}, {hi})"
        if m == "to_be_bytes": return f"crate::model::ToBe_::to_be_({self.r(n['recv'])})"
        if m == "expect": return f"{self.r(n['recv'])}.unwrap()"
        if m in ("fold", "sum", "collect", "for_each", "try_for_each"):
            t = self.adaptor(n)
            if t is not None: return t
        t = self.monad(n)
        if t is not None: return t
        if m == "ok_or" : return f"(match {self.r(n['recv'])} {{ Some(x_) => Ok(x_), None => Err({self.r(n['args'][0])}) }})"
        h = self.crate.resolve_method(m)
        if h is not None and h.contract is None: return self.inline(h, n["args"], n["recv"])
        return self.slices(n)
    def kind_of(self, e):
        """is this expression an Option or a Result (None: not known)"""
        e = strip(e)
        def ty(t):
            t = norm(t).lstrip("&").replace("mut", "", 1) if norm(t).startswith("&mut") else norm(t).lstrip("&")
            return "opt" if t.startswith("Option<") else "res" if t.startswith("Result<") else None
        if e["k"] == "Ref": return self.kind_of(e["expr"])
        if e["k"] == "Try": return None
        if e["k"] == "Field":
            if is_path(e["base"], "self"):
                for f, it in self.crate.types:
                    if it["k"] == "Struct" and it["name"] == self.frame.fn.self_ty:
                        for x in it["fields"]:
                            if x["name"] == e["member"]: return ty(x["ty"]["text"])
            ks = {ty(x["ty"]["text"]) for f, it in self.crate.types if it["k"] == "Struct" for x in it["fields"] if x["name"] == e["member"]}
            return ks.pop() if len(ks) == 1 else None
        if e["k"] == "Path":
            p = nrm(e["path"])
            for nm, t in self.frame.fn.params:
                if nm == p: return ty(t)
            ks = {self.kind_of(c["init"]) for c in walk(self.frame.fn.node["body"]) if c["k"] == "Local" and c["pat"]["k"] == "PIdent" and c["pat"]["name"] == p and c.get("init")}
            return ks.pop() if len(ks) == 1 else "opt" if p == "None" else None
        if e["k"] == "Call" and e["func"]["k"] == "Path":
            p = nrm(e["func"]["path"]).split("::")[-1]
            if p == "Some": return "opt"
            if p in ("Ok", "Err", "try_from", "from_utf8"): return "res"
            h = self.crate.resolve_call(nrm(e["func"]["path"]), self.frame.fn)
            return ty(h.ret) if h else None
        if e["k"] == "MethodCall":
            m = e["method"]
            if m in ("next", "ok", "err", "checked_add", "checked_sub", "checked_mul", "first", "last", "get", "split_first", "then", "then_some"): return "opt"
            if m in ("try_into", "ok_or", "ok_or_else"): return "res"
            if m in ("as_ref", "as_mut", "as_deref", "copied", "cloned", "clone", "map", "and_then", "filter", "or_else", "map_err"): return self.kind_of(e["recv"])
            h = self.crate.resolve_method(m)
            return ty(h.ret) if h else None
        return None
    def func(self, c):
        """a function argument as (pattern text, text of its result)"""
        if c["k"] == "Closure":
            if any(x["k"] in ("Return", "Try") for x in walk(c["body"])): raise Undecided("closure that leaves its function")
            if len(c["params"]) > 1: raise Undecided("closure")
            if not c["params"]: return None, self.r(c["body"])
            q = c["params"][0]
            while q["k"] in ("PType", "PParen"): q = q["pat"]
            if q["k"] == "PRef":
                x = self.fresh("c")
                return x, f"{{ let {self.r(q['pat'])} = *{x}; {self.r(c['body'])} }}"
            return self.r(q), self.r(c["body"])
        if c["k"] == "Path":
            x = self.fresh("c")
            p = nrm(c["path"])
            if p in ("String::from", "Box::from", "ToString::to_string", "ToOwned::to_owned", "str::to_string", "str::to_owned", "MqttString::from"): return x, f"{x}.to_string()"
            if p in ("u8::from", "Into::into") and self.into_u8(None): return x, f"{self.into_u8(None).name}({x})"
            if p == "Into::into": return x, f"{x}.to_string()"
            if p in ("u8::from", "usize::from", "u16::from", "u32::from"): raise Undecided("function value")
            return x, f"{self.fixpath(c['path'])}({x})"
        raise Undecided("function value")
    def monad(self, n):
        """Option and Result adaptors as the matches they stand for"""
        m, a = n["method"], n["args"]
        if m in ("then", "then_some") and len(a) == 1:
            v = self.func(a[0])[1] if m == "then" else self.r(a[0])
            return f"(if {self.r(n['recv'])} {{ Some({v}) }} else {{ None }})"
        if m not in ("map", "map_or", "map_or_else", "and_then", "unwrap_or_else", "is_some_and", "is_none_or", "is_ok_and", "ok_or_else", "map_err", "filter", "or_else", "unwrap_or"): return None
        k = self.kind_of(n["recv"])
        if k is None: return None
        R = self.r(n["recv"])
        pure = lambda e: e["k"] in ("Lit", "Path") or e["k"] == "Paren" and pure(e["expr"]) or e["k"] in ("Binary",) and pure(e["left"]) and pure(e["right"]) or e["k"] in ("Ref",) and pure(e["expr"]) or e["k"] == "Call" and e["func"]["k"] == "Path" and nrm(e["func"]["path"]).startswith("Error::") and all(pure(x) for x in e["args"])
        S, N, keep = ("Some", "None", "None") if k == "opt" else ("Ok", "Err(_)", "Err(e_)")
        no = "None" if k == "opt" else "Err(e_)"
        if m in ("map_or", "unwrap_or") and not pure(a[0]): raise Undecided(m)
        if m == "unwrap_or": return f"(match {R} {{ {S}(x_) => x_, {N} => {self.r(a[0])} }})"
        if m == "map_or": p, b = self.func(a[1]); return f"(match {R} {{ {S}({p}) => {b}, {N} => {self.r(a[0])} }})"
        if m == "map_or_else":
            p, b = self.func(a[1]); q, d = self.func(a[0])
            return f"(match {R} {{ {S}({p}) => {b}, {'None' if k == 'opt' else 'Err(' + (q or '_') + ')'} => {d} }})"
        p, b = self.func(a[0])
        if m == "map": return f"(match {R} {{ {S}({p}) => {S}({b}), {no} => {keep} }})"
        if m == "and_then": return f"(match {R} {{ {S}({p}) => {b}, {no} => {keep} }})"
        if m in ("is_some_and", "is_ok_and"): return f"(match {R} {{ {S}({p}) => {b}, {N} => false }})"
        if m == "is_none_or": return f"(match {R} {{ {S}({p}) => {b}, {N} => true }})"
        if m == "unwrap_or_else": return f"(match {R} {{ {S}(x_) => x_, {'None' if k == 'opt' else 'Err(' + (p or '_') + ')'} => {b} }})"
        if m == "ok_or_else" and k == "opt": return f"(match {R} {{ Some(x_) => Ok(x_), None => Err({b}) }})"
        if m == "or_else" and k == "opt": return f"(match {R} {{ Some(x_) => Some(x_), None => {b} }})"
        if m == "or_else": return f"(match {R} {{ Ok(x_) => Ok(x_), Err({p}) => {b} }})"
        if m == "map_err" and k == "res": return f"(match {R} {{ Ok(x_) => Ok(x_), Err({p}) => Err({b}) }})"
        if m == "filter" and k == "opt":
            x = self.fresh("x")
            return f"(match {R} {{ Some({x}) => if {{ let {p} = &{x}; {b} }} {{ Some({x}) }} else {{ None }}, None => None }})"
        return None
    # ------------------------------------------------------------------ inlining of helpers without a contract
    depth = 0
    def inline(self, h, args, recv):
        node = h.node
        tried = self.trying is not None and (self.trying.get("args") is args)
        body = node["body"]
        names = [p for p in h.params if p[0] != "self"]
        has_self = any(p[0] == "self" for p in h.params)
        if has_self and recv is None:
            recv, args = args[0], args[1:]
        if len(names) != len(args) or any(p[0] is None for p in names): raise Undecided(f"call of {h.qual}")
        if self.depth > 6: raise Undecided(f"recursion through {h.qual}")
        stmts = structured(body["stmts"], h.file, f"helper {h.qual}", tried)
        for c in [x for s in stmts for x in walk(s)]:
            if c["k"] == "Try" and not tried and not self.tailpos: raise Undecided(f"helper {h.qual} propagates errors")
        pre, post = [], []
        clos = {}
        for (pn, pt), a in zip(names, args):
            ca = strip(a["expr"]) if a["k"] == "Ref" else strip(a)
            if ca["k"] == "Closure" or ca["k"] == "Path" and re.search(r"(\bFn|\bFnMut|\bFnOnce|\bfn)\b", pt + " " + self.bounds_text(h, pt)):
                if (words(ca) - (binds(ca) if ca["k"] == "Closure" else set())) & (binds(body) | {q[0] for q in names}): raise Undecided("closure over a name of the helper")
                clos[pn] = (ca, self.frame) if not (ca["k"] == "Path" and nrm(ca["path"]) in self.frame.closures) else self.frame.closures[nrm(ca["path"])]
                continue
            t = self.fresh("h")
            ty = "" if h.generic or "impl" in pt else f": {re.sub(chr(92)+'bSelf'+chr(92)+'b', h.self_ty or 'Self', map_ty(pt))}"
            pre.append(f"let {t}{ty} = {self.r(a)};")
            mut = ""
            for q in node["sig"]["params"]:
                if q["k"] == "Param" and q["pat"]["k"] == "PIdent" and q["pat"]["name"] == pn and q["pat"].get("mut"): mut = "mut "
            post.append(f"let {mut}{pn}{ty} = {t};")
        st = "self"
        if has_self:
            st = self.fresh("self")
            sp = next(p for p in h.params if p[0] == "self")[1].replace(" ", "")
            rt = self.r(recv)
            pre.insert(0, f"let {st} = " + (f"&mut {rt};" if sp == "&mutself" else f"&{rt};" if sp == "&self" and not (recv["k"] == "Path") else rt + ";"))
        old, oldt, oldtail = self.frame, self.trying, self.tailpos
        self.frame = Frame(h, st, True); self.depth += 1; self.trying = None
        self.frame.closures = clos
        try:
            b = self.block_text(stmts)
        finally:
            self.frame, self.trying, self.tailpos = old, oldt, oldtail; self.depth -= 1
        self.inlined.append(h.qual)
        return "({ " + " ".join(pre + post) + "\n" + b + " })"
    def bounds_text(self, h, ty):
        """text of the generics of a helper, for the bounds of its parameters"""
        g = h.node["sig"].get("generics") or ""
        return (g if isinstance(g, str) else str(g)) if re.fullmatch(r"&?(mut)?\w", nrm(ty)) else ""
    tailpos = False
    def block_text(self, stmts):
        return "\n".join(self.stmt(s) for s in stmts)
    def r_Arm(self, n):
        s = self.r(n["pat"])
        if n.get("guard"): s += " if " + self.r(n["guard"])
        return s + " => " + self.r(n["body"]) + ("" if n["body"]["k"] == "BlockExpr" else ",")
    def r_Match(self, n):
        return "match " + self.r(n["expr"]) + " {\n" + "\n".join(self.r(a) for a in n["arms"]) + "\n}"
    def r_If(self, n):
        t = "if " + self.r(n["cond"]) + " " + self.r(n["then"])
        if n.get("else"): t += " else " + self.r(n["else"])
        return t
    # ------------------------------------------------------------------ loops
    def r_For(self, n): return self.loop_for(n["pat"], n["iter"], n["body"]["stmts"])
    def r_Loop(self, n):
        st = n["body"]["stmts"]
        if len(st) == 1 and st[0]["k"] == "SExpr" and st[0]["expr"]["k"] == "Break" and not st[0]["expr"].get("expr"): return "{ }"
        if st and st[0]["k"] == "SExpr" and st[0]["expr"]["k"] == "If" and not st[0]["expr"].get("else") and len(st[0]["expr"]["then"]["stmts"]) == 1 and st[0]["expr"]["then"]["stmts"][0]["k"] == "SExpr" and st[0]["expr"]["then"]["stmts"][0]["expr"]["k"] == "Break":
            return self.loop_while(negate(st[0]["expr"]["cond"]), {"s": n["s"], "e": n["e"], "k": "Block", "stmts": st[1:]})
        if self.c.role in ("rvi", "wvi"): return self.unroll(None, None, None, st)
        e = st[-1]["expr"] if st and st[-1]["k"] == "SExpr" else None
        if e is not None and e["k"] == "If" and not e.get("else") and len(e["then"]["stmts"]) == 1 and e["then"]["stmts"][0]["k"] == "SExpr" and e["then"]["stmts"][0]["expr"]["k"] == "Break" and self.c.role in ("fread", "read"):
            return self.loop_list_read(None, {"s": n["s"], "e": n["e"], "k": "Block", "stmts": st[:-1]}, negate(e["cond"]))
        raise Undecided("loop without a condition")
    def r_While(self, n): return self.loop_while(n["cond"], n["body"])

    def loop_while(self, cond, body):
        if cond["k"] == "Let":
            # while let PAT = E
            if self.c.role in ("rvi",): return self.unroll(cond["pat"], cond["expr"], None, body["stmts"], True)
            raise Undecided("while let")
        if self.c.role in ("rvi", "wvi"): return self.unroll(None, None, cond, body["stmts"])
        if self.c.role == "pread": return self.loop_props(cond, body)
        if self.c.role in ("fread", "read"): return self.loop_list_read(cond, body)
        ix = self.index_loop(cond, body)
        if ix: return ix
        raise Undecided("while loop in a " + self.c.role + " function")

    def unroll(self, pat, expr, cond, stmts, wl=False, times=5):
        """loops over at most five bytes: unrolled, with an obligation that they have ended"""
        go, tail = self.fresh("go"), self.tailpos
        self.tailpos = False
        out = [f"let mut {go} = true;"]
        src, bind, ends, p = None, (lambda k: ""), False, None
        if pat is not None and wl: src = self.r(expr)
        elif pat is not None:
            e = strip(expr)
            while pat["k"] in ("PType", "PParen"): pat = pat["pat"]
            if e["k"] == "Range":
                lo, hi = e.get("from"), e.get("to")
                lo, hi = (num(lo), num(hi)) if lo and hi else (None, None)
                if lo is None or hi is None: raise Undecided("for loop over a range")
                times, ends = hi - lo + (1 if "=" in e.get("limits", "") else 0), True
                if times > 8: raise Undecided("for loop over a long range")
                nm = self.r(pat)
                bind = lambda k: f"let {nm} = {lo + k};"
            else:
                it, enum, byval = self.fresh("it"), False, False
                ref = ""
                while e["k"] == "MethodCall" and e["method"] in ("enumerate", "take", "copied", "cloned", "into_iter", "by_ref"):
                    if e["method"] == "enumerate": enum = True
                    elif e["method"] == "take":
                        n = num(e["args"][0])
                        if n is None or ends: raise Undecided("take")
                        times, ends = n, True
                    elif e["method"] in ("copied", "cloned"): byval = True
                    elif e["method"] == "by_ref": ref = "&mut "
                    e = strip(e["recv"])
                ix = None
                if enum:
                    if pat["k"] != "PTuple" or len(pat["elems"]) != 2: raise Undecided("enumerate")
                    ix, pat = self.r(pat["elems"][0]), pat["elems"][1]
                if pat["k"] == "PRef": pat, byval = pat["pat"], True
                x = self.fresh("x")
                nm = self.r(pat)
                out.append(f"let {'' if ref else 'mut '}{it} = {ref}{self.r(e)};"); src, p = it + ".next()", f"Some({x})"
                bind = lambda k: (f"let {ix} = {k}usize; " if ix else "") + f"let {nm} = {'*' if byval else ''}{x};"
        prog = self.progressions(stmts)
        def step(k):
            vals = {m: (v * f ** k, at) for m, (v, f, at) in prog.items() if v * f ** k < 1 << 32}
            old, self.fixed = self.fixed, {**self.fixed, **vals}
            t = self.unrolled(stmts, go)
            self.fixed = old
            return "".join(f"proof {{ assert({m} == {v}); }} " for m, (v, _) in vals.items()) + t
        for k in range(times):
            if cond is not None: out.append(f"if {go} {{ if {self.r(cond)} {{ {step(k)} }} else {{ {go} = false; }} }}")
            elif src is not None: out.append(f"if {go} {{ match {src} {{ {self.r(pat) if wl else p} => {{ {bind(k)} {step(k)} }} _ => {{ {go} = false; }} }} }}")
            else: out.append(f"if {go} {{ {bind(k)} {step(k)} }}")
        if not ends: out.append(f"if {go} {{ crate::model::unroll_() }}")
        if pat is None and cond is None and src is None:
            br = [c for x in stmts for c in walk(x) if c["k"] == "Break"]
            if any(c.get("expr") for c in br): out.insert(1, f"let mut {go}v = None;"); out.append(f"{go}v.unwrap()")
            elif not br and tail: out.append("crate::model::panic_()")
        return "{ " + "\n".join(out) + " }"
    fixed = {}
    def progressions(self, stmts):
        """locals that start at a literal and whose only change is to be multiplied by a literal, once in every iteration"""
        o, root = {}, self.frame.fn.node["body"]
        if any(c["k"] == "Continue" for x in stmts for c in walk(x)): return o
        every = assigned(root)
        for st in stmts:
            e = strip(st["expr"]) if st["k"] == "SExpr" else None
            if e is None: continue
            m = f = None
            if e["k"] == "Binary" and e["op"].replace(" ", "") == "*=" and e["left"]["k"] == "Path": m, f = nrm(e["left"]["path"]), num(e["right"])
            elif e["k"] == "Assign" and e["left"]["k"] == "Path" and strip(e["right"])["k"] == "Binary" and strip(e["right"])["op"].strip() == "*":
                m, r = nrm(e["left"]["path"]), strip(e["right"])
                f = num(r["right"]) if is_path(strip(r["left"]), m) else num(r["left"]) if is_path(strip(r["right"]), m) else None
            if not m or f is None or every.count(m) != 1: continue
            decl = [c for c in walk(root) if c["k"] == "PIdent" and c["name"] == m]
            init = [c for c in walk(root) if c["k"] == "Local" and c["pat"]["k"] in ("PIdent", "PType") and (c["pat"].get("pat") or c["pat"]).get("name") == m]
            if len(decl) != 1 or len(init) != 1 or not init[0].get("init") or num(init[0]["init"]) is None: continue
            if init[0]["s"] > e["s"] or any(c["k"] in ("Ref", "Reference") and is_path(strip(c["expr"]), m) for c in walk(root)): continue
            o[m] = (num(init[0]["init"]), f, e["s"])
        return o
    def unrolled(self, stmts, go):
        """text of a loop body with break and continue turned into control flow"""
        out = []
        for i, s in enumerate(stmts):
            e = s["expr"] if s["k"] == "SExpr" else None
            if e is not None and e["k"] == "Break":
                if e.get("label"): raise Undecided("labelled break")
                if e.get("expr"): out.append(f"{go}v = Some({self.r(e['expr'])});")
                out.append(f"{go} = false;"); return "\n".join(out)
            if e is not None and e["k"] == "Continue": return "\n".join(out)
            if e is not None and e["k"] == "If" and any(c["k"] in ("Break", "Continue") for c in walk(e)):
                rest = stmts[i+1:]
                t = list(e["then"]["stmts"]); el = e.get("else")
                el = [] if el is None else el["block"]["stmts"] if el["k"] == "BlockExpr" else [{"k": "SExpr", "expr": el, "semi": False, "s": el["s"], "e": el["e"]}]
                tt = t if ends_jump(t) else t + rest
                ee = el if ends_jump(el) else el + rest
                out.append(f"if {self.r(e['cond'])} {{ {self.unrolled(tt, go)} }} else {{ {self.unrolled(ee, go)} }}")
                return "\n".join(out)
            if e is not None and e["k"] == "Match" and any(c["k"] in ("Break", "Continue") for c in walk(e)):
                rest = stmts[i+1:]
                arms = []
                for a in e["arms"]:
                    b = a["body"]
                    bs = b["block"]["stmts"] if b["k"] == "BlockExpr" else [{"k": "SExpr", "expr": b, "semi": True, "s": b["s"], "e": b["e"]}]
                    arms.append(self.r(a["pat"]) + (" if " + self.r(a["guard"]) if a.get("guard") else "") + " => { " + self.unrolled(bs if ends_jump(bs) else bs + rest, go) + " }")
                out.append(f"match {self.r(e['expr'])} {{ " + "\n".join(arms) + " }")
                return "\n".join(out)
            if s["k"] == "Local" and s.get("else") and any(c["k"] in ("Break", "Continue") for c in walk(s["else"])):
                el = s["else"]
                el = el["stmts"] if "stmts" in el else el["block"]["stmts"] if el["k"] == "BlockExpr" else [{"k": "SExpr", "expr": el, "semi": True, "s": el["s"], "e": el["e"]}]
                if not ends_jump(el): raise Undecided("let-else in an unrolled loop")
                out.append(f"match {self.r(s['init'])} {{ {self.r(s['pat'])} => {{ {self.unrolled(stmts[i+1:], go)} }} _ => {{ {self.unrolled(el, go)} }} }}")
                return "\n".join(out)
            t = self.r(s)
            if e is not None and not s.get("semi") and not t.rstrip().endswith(("}", ";")): t += ";"
            out.append(t)
        return "\n".join(out)

    # -- property sections
    def loop_props(self, cond, body):
        X = self.fn.self_ty
        c = strip(cond)
        stream, N, section = None, None, False
        for nm, ty in self.frame.fn.params:
            if norm(ty) in ("&mutBytes", "&mutbytes::Bytes"): stream = nm
        if c["k"] in ("Binary", "BinaryN"):
            op = c["op"].strip(); a, b = strip(c["left"]), strip(c["right"])
            if op == ">": op, a, b = "<", b, a
            def val(x):
                if x["k"] == "Path": return nrm(x["path"])
                if x["k"] == "Lit": return x["text"]
                if x["k"] == "MethodCall" and x["method"] in ("len", "remaining") and x["recv"]["k"] == "Path": return f"{nrm(x['recv']['path'])}@.len()"
                raise Undecided("loop condition")
            if op in ("<", "!="):
                if op == "!=" and b["k"] == "Lit": a, b = b, a
                N = f"({val(b)} - {val(a)})"
        S = section_of(c)
        if S: stream, N, section = S, f"({S}@.len() as int)", True
        if N is None or stream is None: raise Undecided("loop condition of a property reader")
        acc = self.accumulators(X, body)
        self.n += 1
        g = f"g{self.n}_"
        inv = f"p_loop_{X}({stream}@, {N} as int, {acc}) == {g}"
        pre = f"let ghost {g} = p_loop_{X}({stream}@, {N} as int, {acc});"
        if section: self.need_loc = True
        self.tail_hint = f"proof {{ unfold_{X}({stream}@, {N} as int, {acc}); }}"
        cand = ""
        last = body["stmts"][-1]["expr"] if body["stmts"] and body["stmts"][-1]["k"] == "SExpr" else None
        if last is not None and last["k"] == "Assign" and last["left"]["k"] == "Path" and strip(last["right"])["k"] == "Binary" and strip(last["right"])["op"].strip() == "-":
            # x = a - stream.len(): holds before every iteration
            ra, rb = strip(strip(last["right"])["left"]), strip(strip(last["right"])["right"])
            if ra["k"] == "Path" and rb["k"] == "MethodCall" and rb["method"] in ("len", "remaining") and rb["recv"]["k"] == "Path": cand = f"{nrm(last['left']['path'])} == {nrm(ra['path'])} - {nrm(rb['recv']['path'])}@.len(),"
        extra = f", 0 <= {N}" if False else ""
        return f"""{pre}
#[verifier::loop_isolation(false)]
while {self.r(cond)}
  invariant
    {inv}, // @label:value
    {cand}
  decreases {stream}@.len()
{{
proof {{ unfold_{X}({stream}@, {N} as int, {acc}); reveal(step_{X}); }}
{self.block_text(body['stmts'])}
}}
{self.tail_hint}"""
    def accumulators(self, X, body):
        F = PROPS[X][1]
        # a struct being filled
        for c in walk(body):
            tgt = None
            if c["k"] == "Assign" and c["left"]["k"] == "Field" and c["left"]["base"]["k"] == "Path": tgt = c["left"]
            if c["k"] == "MethodCall" and c["method"] == "push" and c["recv"]["k"] == "Field" and c["recv"]["base"]["k"] == "Path": tgt = c["recv"]
            if tgt is not None: return f"{self.fixpath(tgt['base']['path'])}@"
        root = self.frame.fn.node["body"]
        lits = [c for c in walk(root) if c["k"] == "StructLit" and nrm(c["path"]) in (X, "Self")]
        for l in lits:
            m = {f["name"]: f["expr"] for f in l["fields"]}
            if set(m) == {f for f, _, _ in F} and all(e["k"] == "Path" for e in m.values()):
                loc = {f: nrm(e["path"]) for f, e in m.items()}
                return f"{X}V {{ " + ", ".join(f"{f}: {specgen.view(k, loc[f])}" for f, _, k in F) + " }"
        raise Undecided("accumulators of a property reader")
    # -- lists in payloads (readers)
    def bytes_iter(self, it):
        """(name of the Bytes gone through, items by value) for `bytes.iter()`, `bytes`, `&bytes`"""
        it, val = strip(it), False
        while it["k"] == "MethodCall" and not it["args"] and it["method"] in ("copied", "cloned", "into_iter"):
            val = val or it["method"] != "into_iter"; it = strip(it["recv"])
        if it["k"] == "MethodCall" and it["method"] == "iter" and not it["args"]: it = strip(it["recv"])
        elif it["k"] == "Ref": it = strip(it["expr"])
        else: val = True
        if it["k"] != "Path": return None
        nm = nrm(it["path"])
        for q, ty in self.frame.fn.params:
            if q == nm and re.fullmatch(r"(&mut|&)?(bytes::)?Bytes", norm(ty)): return nm, val
        return None
    def loop_bytes(self, nm, byval, pat, body_text, vec):
        """for PAT in bytes.iter(): one byte per element of the list being read"""
        it, x = self.fresh("it"), self.fresh("x")
        if pat["k"] == "PRef": pat, byval = pat["pat"], True
        take = f"let {self.r(pat)} = " + (f"*{x};" if byval else f"{x};")
        return (f"let mut {it} = {nm}.iter();\n" + self.list_read(it, vec, f"while {it}.len() > 0", lambda: f"let {x} = {it}.next().unwrap(); {take}\n{body_text()}"))
    def loop_list_read(self, cond, body, last=None):
        """while COND { body }, or loop { body } with the condition to go on at its end"""
        if cond is None and last is None: raise Undecided("loop without a condition")
        S = section_of(strip(cond if cond is not None else last))
        if S is None: raise Undecided("loop condition of a list reader")
        if cond is not None: return self.list_read(S, self.pushed_to(body), f"while {self.r(cond)}", lambda: self.block_text(body["stmts"]))
        if any(x["k"] in ("Break", "Continue") for st in body["stmts"] for x in walk(st)): raise Undecided("break in a list reader")
        go, vec = self.fresh("go"), self.pushed_to(body)
        return f"let mut {go} = true;\n" + self.list_read(S, self.pushed_to(body), f"while {go}", lambda: self.block_text(body["stmts"]) + f"\n{go} = {self.r(last)};", f"!{go} ==> {S}@.len() == 0 && {vec}@.len() > 0, {go} ==> {S}@.len() > 0 || {vec}@.len() == 0,")
    def pushed_to(self, body):
        vec = None
        for c in walk(body):
            if c["k"] == "MethodCall" and c["method"] == "push" and c["recv"]["k"] == "Path":
                if vec not in (None, nrm(c["recv"]["path"])): raise Undecided("several lists filled in one loop")
                vec = nrm(c["recv"]["path"])
        if vec is None: raise Undecided("no list is filled")
        return vec
    def list_read(self, S, vec, head, body_text, inv=""):
        X = self.fn.self_ty
        P, U, A = {"Filter": ("p_filters", "unfold_filters", f"filtersv({vec}@)"), "Subscribe": ("p_filters", "unfold_filters", f"filtersv({vec}@)"), "Unsubscribe": ("p_strs", "unfold_strs", f"strsv({vec}@)"),
                   "SubAck": ("p_codes_SubscribeReasonCode", "unfold_codes_SubscribeReasonCode", f"{vec}@"), "UnsubAck": ("p_codes_UnsubAckReason", "unfold_codes_UnsubAckReason", f"{vec}@")}.get(X, (None, None, None))
        if P is None: raise Undecided("list reader")
        g = self.fresh("g")
        n = {"Filter": "filters", "Subscribe": "filters", "Unsubscribe": "filters", "SubAck": "return_codes", "UnsubAck": "reasons"}[X]
        return f"""let ghost {g} = {P}({S}@, {A});
proof {{ {U}({S}@, {A}); }}
#[verifier::loop_isolation(false)]
{head}
  invariant
    {inv}
    {P}({S}@, {A}) == {g}, // @label:value
  decreases {S}@.len()
{{
proof {{ {U}({S}@, {A}); }}
{body_text()}
}}
proof {{ {U}({S}@, {A}); }}"""

    # -- loops over the lists of a value
    def list_kind(self, e):
        """(rendered list expression, view, step items) for `self.user_properties` etc."""
        e = strip(e)
        while e["k"] == "Ref" or e["k"] == "MethodCall" and e["method"] in ("iter", "as_slice") and not e["args"]:
            e = strip(e["expr"] if e["k"] == "Ref" else e["recv"])
        t = self.r(e)
        f = e["member"] if e["k"] == "Field" else None
        X = self.fn.self_ty
        if e["k"] == "Path": f = self.alias(nrm(e["path"]))
        if f == "user_properties": k = "up"
        elif f == "subscription_identifiers": k = "ids"
        elif f == "filters" and X == "Subscribe": k = "filters"
        elif f == "filters" and X == "Unsubscribe": k = "strs"
        elif f == "return_codes" and X == "SubAck": k = "codes_SubscribeReasonCode"
        elif f == "reasons" and X == "UnsubAck": k = "codes_UnsubAckReason"
        else: raise Undecided("loop over something that is not a list of the value")
        return t, k
    def alias(self, name):
        """field a parameter of an inlined helper stands for, by its name or type"""
        for n, ty in self.frame.fn.params:
            if n == name:
                t = norm(ty)
                if "(MqttString,MqttString)" in t: return "user_properties"
                if "[usize]" in t or "Vec<usize>" in t: return "subscription_identifiers"
                if "Filter" in t: return "filters"
                if "MqttString" in t: return "filters"
        for c in walk(self.frame.fn.node["body"]):
            if c["k"] == "Local" and c["pat"]["k"] == "PIdent" and c["pat"]["name"] == name and c.get("init"):
                e = strip(c["init"])
                while e["k"] in ("Ref",) or e["k"] == "MethodCall" and e["method"] in ("iter", "as_slice"): e = strip(e["expr"] if e["k"] == "Ref" else e["recv"])
                if e["k"] == "Field": return e["member"]
        return None
    KV = {"up": "upv", "strs": "strsv", "filters": "filtersv"}
    def lv(self, k, v): return f"{self.KV[k]}({v}@)" if k in self.KV else f"{v}@"
    def li(self, k, s): return f"i_{k}({s})"
    def l1(self, k, x): return {"up": f"up1({x})", "ids": f"id1({x})", "strs": f"e_bin({x})", "filters": f"e_filter({x})"}.get(k) or f"seq![c_{k[6:]}({x})]"
    def ll1(self, k, x): return {"up": f"l_up1({x})", "ids": f"l_id1({x})", "strs": f"l_str1({x})", "filters": f"l_filter({x})"}[k]
    def w1(self, k, b, x): return {"up": f"w_up1({b}, {x})", "ids": f"w_id1({b}, {x})", "strs": f"w_str1({b}, {x})", "filters": f"w_filter({b}, {x})"}[k]
    def lok(self, k, x): return {"up": f"ok_up1({x})", "ids": f"{x} <= MAXVI()", "strs": f"ok_bin({x})", "filters": f"ok_bin(({x}).path)"}.get(k) or "true"
    def loop_for(self, pat, it, stmts):
        it = strip(it)
        src = strip(it["recv"]) if it["k"] == "MethodCall" and it["method"] == "into_iter" else it
        if self.given(src) and (self.fn.mono or {})[nrm(src["path"])][1] == "iter" and pat["k"] == "PIdent" and len(stmts) == 1 and stmts[0]["k"] == "SExpr":
            # every item of the list given is pushed
            e = stmts[0]["expr"]
            if e["k"] == "MethodCall" and e["method"] == "push" and len(e["args"]) == 1 and is_path(strip(e["args"][0]), pat["name"]):
                return f"crate::model::extend_(&mut {self.r(e['recv'])}, {self.r(src)});"
        role = self.c.role
        if it["k"] == "Range" and not stmts: return "{ }"
        if role in ("rvi",): return self.unroll(pat, it, None, stmts)
        if role in ("fread", "read"):
            b = self.bytes_iter(it)
            if b: return self.loop_bytes(*b, pat, lambda: self.block_text(stmts), self.pushed_to({"k": "Block", "stmts": stmts}))
        if it["k"] == "Range" and pat["k"] == "PIdent":
            # for i in 0..LIST.len()
            lo, hi = it.get("from"), strip(it["to"]) if it.get("to") else None
            if lo is None or hi is None or "=" in it.get("limits", "") or lo["k"] != "Lit" or not re.fullmatch(r"0(usize)?", lo["text"]) or hi["k"] != "MethodCall" or hi["method"] != "len": raise Undecided("for loop over a range")
            return self.over_list(strip(hi["recv"]), ("index", pat["name"]), stmts)
        return self.over_list(it, pat, stmts)
    def over_list(self, it, pat, stmts):
        """a loop over a list of the value: what it accumulates decides the invariant"""
        role = self.c.role
        byval = False
        if it["k"] == "MethodCall" and it["method"] in ("copied", "cloned"): it, byval = strip(it["recv"]), True
        t, k = self.list_kind(it)
        return self.list_loop(t, k, pat, byval, lambda: self.block_text(stmts), *self.mode(k, stmts))
    def mode(self, k, stmts):
        role = self.c.role
        if role in ("plen", "flen", "len", "size"):
            a = sorted(set(assigned({"k": "Block", "stmts": stmts})))
            locs = {p["name"] for s in stmts for p in walk(s) if p["k"] == "PIdent"}
            a = [x for x in a if x not in locs]
            if len(a) != 1: raise Undecided("loop with several accumulators")
            return "num", a[0]
        if role in ("pwrite", "write"):
            buf = self.bufname()
            named = {nrm(c["path"]) for s in stmts for c in walk(s) if c["k"] == "Path"}
            pushed = {nrm(c["recv"]["path"]) for s in stmts for c in walk(s) if c["k"] == "MethodCall" and c["method"] == "push" and c["recv"]["k"] == "Path"}
            if buf not in named and len(pushed) == 1 and k.startswith("codes_"): return "vec", pushed.pop()
            return "buf", buf
        raise Undecided("for loop")
    def bufname(self):
        for nm, ty in self.frame.fn.params:
            if norm(ty) in ("&mutBytesMut", "&mutbytes::BytesMut"): return nm
        raise Undecided("no output buffer")
    def list_loop(self, t, k, pat, byval, body, mode, acc, src=None):
        EQ = "=~=" if self.ext else "=="
        v, i, g, gi = self.fresh("v"), self.fresh("i"), self.fresh("g"), self.fresh("g")
        bind = None
        if isinstance(pat, tuple):
            if pat[0] == "index": bind = f"let {pat[1]} = {i};"
            else: bind = ""                                     # ("while", user's index, condition)
        else:
            while pat["k"] in ("PType", "PParen"): pat = pat["pat"]
            if pat["k"] == "PRef": pat, byval = pat["pat"], True
            pat = self.r(pat)
        V = self.lv(k, v)
        TK = V + f".take({i} as int)"
        codes = k.startswith("codes_")
        if mode == "num":
            A = acc; inv = f"{A} == {g} + " + (f"{i}" if codes else f"l_{k}({TK})"); pay = f"{A} == {gi} + " + ("1" if codes else self.ll1(k, f"{V}[{i} - 1]")); G = f"{A} as int"
        elif mode == "vec":
            A = f"{acc}@"; inv = f"{A} == {self.li(k, TK)}"; pay = None; G = A
        else:
            A = f"{acc}@"; G = A
            inv = f"{A} == {g} + {self.li(k, TK)}" if codes else f"{A} == w_{k}({g}, {TK})"
            pay = f"{A} {EQ} {gi} + {self.l1(k, f'{V}[{i} - 1]')}" if codes else f"{A} {EQ} {self.w1(k, gi, f'{V}[{i} - 1]')}"
        okinv = f"forall|j: int| 0 <= j < {i} ==> {self.lok(k, f'(#[trigger] {V}[j])')}," if mode == "buf" and self.lok(k, "x") != "true" else ""
        lab = "size" if mode == "num" else "value"
        if codes: step = f"assert({self.li(k, TK)} =~= {self.li(k, V + f'.take({i} - 1)')} + {self.l1(k, f'{V}[{i} - 1]')});" + (f" app_assoc({g}, {self.li(k, V + f'.take({i} - 1)')}, {self.l1(k, f'{V}[{i} - 1]')});" if mode == "buf" else "")
        elif mode == "num": step = f"l_{k}_step({V}, {i} - 1); l_{k}_pos({V}.take({i} - 1));"
        else: step = f"w_{k}_step({g}, {V}, {i} - 1);"
        if mode == "vec": fin = f"assert({A} =~= {self.li(k, TK)}); // @label:value"
        else: fin = f"assert({pay}); // @label:{lab}"
        b = body()
        cond, same = f"{i} < {v}.len()", ""
        if isinstance(pat, tuple) and pat[0] == "while": cond, same = pat[2], f" {pat[1]} == {i},"
        elif bind is None: bind = f"let {pat} = {'' if byval else '&'}{v}[{i}];"
        return f"""let {v} = &{t};
let mut {i}: usize = 0;
let ghost {g} = {G};
proof {{ assert({V}.take(0) =~= Seq::empty()); assert({V}.len() == {v}@.len()); {f'app_empty({g}); assert({self.li(k, V + ".take(0)")} =~= Seq::empty());' if mode == 'buf' and codes else ''}{f'l_{k}_mono({V}, 0);' if mode == 'num' and not codes else ''} }}
#[verifier::loop_isolation(false)]
while {cond}
  invariant
    {i} <= {v}@.len(),{same} {okinv}
    {inv}, // @label:{lab}
  decreases {v}@.len() - {i}
{{
{bind}
{i} = {i} + 1;
let ghost {gi} = {G};
proof {{ assert({self.velem(k, v, i)} == {V}[{i} - 1]); {step} }}
{b}
{fin}
}}
proof {{ assert({V}.take({v}@.len() as int) =~= {V}); }}"""
    def velem(self, k, v, i):
        e = f"{v}@[{i} - 1]"
        return {"up": f"({e}.0@, {e}.1@)", "strs": f"{e}@", "filters": f"{e}@"}.get(k, e)
    def adaptor(self, n):
        """list.iter().fold(..) / .map(..).sum() / .map(..).collect() / .for_each(..) as loops"""
        m, r = n["method"], strip(n["recv"])
        def closure(c, want):
            """(patterns, text of the body given the names)"""
            if c["k"] == "Path" and want == 1 and nrm(c["path"]) in ("u8::from", "Into::into") and self.into_u8(None):
                x = self.fresh("c")
                return [{"k": "PNameN", "s": 0, "e": 0, "name": x}], lambda: f"{self.into_u8(None).name}({x})"
            if c["k"] == "Path":
                if self.crate.resolve_call(nrm(c["path"]), self.frame.fn) is None: raise Undecided("function value")
                ns = [self.fresh("c") for _ in range(want)]
                return [{"k": "PNameN", "s": 0, "e": 0, "name": x} for x in ns], lambda: f"{self.fixpath(c['path'])}({', '.join(ns)})"
            if c["k"] != "Closure" or len(c["params"]) != want or any(x["k"] == "Return" for x in walk(c["body"])): raise Undecided("closure")
            return c["params"], lambda: self.r(c["body"])
        if m in ("for_each", "try_for_each") and len(n["args"]) == 1 and n["args"][0]["k"] == "Closure":
            c = n["args"][0]
            (pt,), bt = closure(c, 1)
            st = [{"k": "SExpr", "s": c["s"], "e": c["e"], "expr": c["body"], "semi": True}]
            src = r; byval = False
            if src["k"] == "MethodCall" and src["method"] == "map" and len(src["args"]) == 1:
                # an item is mapped first
                inner, outer = closure(src["args"][0], 1), (pt, bt)
                pt, bt = inner[0][0], lambda: f"let {self.r(outer[0])} = {inner[1]()}; {outer[1]()}"
                src = strip(src["recv"])
            if src["k"] == "MethodCall" and src["method"] in ("copied", "cloned"): src, byval = strip(src["recv"]), True
            t, k = self.list_kind(src)
            q = "?" if m == "try_for_each" else ""
            return "{ " + self.list_loop(t, k, pt, byval, lambda: f"({bt()}){q};" if q else f"{bt()};", *self.mode(k, st)) + (" Ok::<(), Error>(())" if q else "") + " }"
        if m == "fold" and len(n["args"]) == 2:
            (s, e), bt = closure(n["args"][1], 2)
            if s["k"] not in ("PIdent", "PNameN"): raise Undecided("fold")
            t, k = self.list_kind(r)
            a = self.fresh("a")
            return f"{{ let mut {a}: usize = {self.r(n['args'][0])};\n{self.list_loop(t, k, e, False, lambda: f'{a} = {{ let {s[chr(110)+chr(97)+chr(109)+chr(101)]} = {a}; {bt()} }};', 'num', a)}\n{a} }}"
        if m in ("sum", "collect") and r["k"] == "MethodCall" and r["method"] == "map":
            (pt,), bt = closure(r["args"][0], 1)
            src = strip(r["recv"]); byval = False
            if src["k"] == "MethodCall" and src["method"] in ("copied", "cloned"): src, byval = strip(src["recv"]), True
            t, k = self.list_kind(src)
            a = self.fresh("a")
            if m == "sum": return f"{{ let mut {a}: usize = 0;\n{self.list_loop(t, k, pt, byval, lambda: f'{a} = {a} + ({bt()});', 'num', a)}\n{a} }}"
            if not k.startswith("codes_"): raise Undecided("collect")
            return f"{{ let mut {a}: Vec<u8> = Vec::new();\n{self.list_loop(t, k, pt, byval, lambda: a + '.push(' + bt() + ');', 'vec', a)}\n{a} }}"
        return None
    def r_PNameN(self, n): return n["name"]
    def index_loop(self, cond, body):
        """while i < LIST.len() { .. LIST[i] ..; i += 1; }"""
        c = strip(cond)
        if c["k"] not in ("Binary", "BinaryN") or c["op"].strip() not in ("<", "!=", ">"): return None
        a, b = strip(c["left"]), strip(c["right"])
        if c["op"].strip() == ">": a, b = b, a
        if a["k"] != "Path" or b["k"] != "MethodCall" or b["method"] != "len": return None
        st = body["stmts"]
        i = nrm(a["path"])
        if assigned({"k": "Block", "stmts": st}).count(i) != 1: return None
        inc = [x for x in st if x["k"] == "SExpr" and x["expr"]["k"] == "Binary" and i in assigned({"k": "Block", "stmts": [{"k": "SExpr", "expr": x["expr"]}]}) and is_path(x["expr"]["left"], i)]
        if len(inc) != 1: return None
        t, k = self.list_kind(b["recv"])
        mode, acc = self.mode(k, [x for x in st if x is not inc[0]])
        return self.list_loop(t, k, ("while", i, self.r(cond)), False, lambda: self.block_text(st), mode, acc)
    def r_SExpr(self, n):
        e = n["expr"]
        self.trying = None
        t = self.r(e)
        f = self.frame.fn.file
        if n.get("semi") and not t.rstrip().endswith(";"): t += ";"
        return t
    def stmt(self, st):
        t = self.r(st)
        return "();\n" + t if t.startswith("{") else t     # a block right after a loop would be read as part of its specification
    def closure_call(self, name, args):
        """a call of a closure that has a name: its body in place of the call"""
        c, fr = self.frame.closures[name]
        tried = self.trying is not None and self.trying.get("args") is args
        ts = []
        for a in args: self.trying = None; ts.append(self.r(a))
        old, oldt = self.frame, self.trying
        if c["k"] == "Path":
            self.frame = fr
            try: return f"{self.fixpath(c['path'])}({', '.join(ts)})" if self.crate.resolve_call(nrm(c["path"]), fr.fn) is None or self.crate.resolve_call(nrm(c["path"]), fr.fn).contract is not None else self.raise_("helper as a value")
            finally: self.frame = old
        if len(c["params"]) != len(args) or any(x["k"] == "Return" or x["k"] == "Try" and not tried for x in walk(c["body"])): raise Undecided("closure")
        hs = [self.fresh("h") for _ in ts]
        self.depth += 1
        if self.depth > 6: raise Undecided("recursion through a closure")
        self.frame, self.trying = fr, None
        try:
            return "({ " + " ".join(f"let {h} = {t};" for h, t in zip(hs, ts)) + " " + " ".join(f"let {self.r(q)} = {h};" for q, h in zip(c["params"], hs)) + "\n" + self.r(c["body"]) + " })"
        finally: self.frame, self.trying = old, oldt; self.depth -= 1
    def raise_(self, t): raise Undecided(t)
    def r_Local(self, n):
        q, c = n["pat"], n.get("init") and strip(n["init"])
        if c and c["k"] == "Closure" and q["k"] == "PIdent":
            rest = [x for x in walk(self.frame.fn.node["body"]) if x["k"] == "PIdent" and x["s"] >= n["e"]]
            if ({x["name"] for x in rest} & (words(c["body"]) - binds(c)) or re.match(r"\s*move\b", self.frame.fn.file.text(c))): raise Undecided("closure over names bound again")
            if q["name"] in {x["name"] for x in rest}: raise Undecided("name of a closure bound again")
            uses = [x for x in walk(self.frame.fn.node["body"]) if x["k"] == "Path" and nrm(x["path"]) == q["name"]]
            calls = [x for x in walk(self.frame.fn.node["body"]) if x["k"] == "Call" and is_path(x["func"], q["name"])]
            if len(uses) == len(calls):
                self.frame.closures[q["name"]] = (c, self.frame)
                return ""
        t = "let " + self.r(n["pat"])
        if n.get("init"): t += " = " + self.r(n["init"])
        if n.get("else"): t += " else " + self.r(n["else"])
        return t + ";"
    def r_PType(self, n): return self.r(n["pat"]) + ": " + self.r(n["ty"])
    def r_SItem(self, n):
        it = n["item"]
        if it["k"] == "Use": return "use " + map_ty(re.sub(r"^\s*(pub\s*)?use", "", it["text"])).strip() if not it["text"].startswith("use bytes") else ""
        if it["k"] == "Fn": return ""
        if it["k"] == "Const" and it["name"] not in [nrm(c.get("path") or c.get("name") or "") for c in walk(self.frame.fn.node["body"]) if c["k"] in ("PPath", "PIdent")]:
            m = re.match(r"(?s)^(\s*///[^\n]*\n|\s*#\[[^\]]*\])*\s*(pub\s+)?const\s+(\w+)\s*:(.*)$", self.frame.fn.file.text(it))
            if m: return f"let {m.group(3)}: {map_ty(m.group(4))}"
        raise Undecided("item inside a function")
    # ------------------------------------------------------------------ whole function
    def fields_in(self, st):
        r = []
        for c in walk(st):
            if c["k"] == "Field" and is_path(c["base"], "self") and c["member"] not in r: r.append(c["member"])
        return r
    ext = False
    def body(self):
        c, fn = self.c, self.fn
        self.bits = self.anyor = self.upd = False
        self.ext = fn.qual in self.crate.ext
        X, role = fn.self_ty, c.role
        stmts = fn.node["body"]["stmts"]
        out = ["/*USE*/"]
        EQ = "=~=" if self.ext else "=="
        self.need_loc = False
        self.allocs = False
        if role == "plen": out.append(f"proof {{ reveal(l_{X}); pos_{X}(self@); }}")
        if role == "pwrite": out.append(f"proof {{ reveal(w_{X}); lw_{X}(Seq::empty(), self@); }}")
        if c.prologue: out.append(f"proof {{ {c.prologue} }}")
        if role in ("pwrite", "write", "top_write", "wdispatch"): out.append("proof { e_vi_0(); }" if role != "wvi" else "")
        if role in ("len", "size", "write") and (X in PK or X in ("LastWill", "Login")):
            a = "self@"
            if X == "Connect" and role == "write": out.append(f"proof {{ cflags_or({self.pargs()}); }}")
            if X == "Connect": a = re.search(r"(?:lb|lf)_Connect\((.*)\) <=", c.requires[0]).group(1)
            out.append(f"proof {{ pos_{X}({a}); }}")
        c.post_hint = None
        b = c.buf = None
        for nm, ty in fn.params:
            if norm(ty) in ("&mutBytesMut", "&mutbytes::BytesMut"): b = nm
        kinds = {f: (i, k) for f, i, k in PROPS[X][1]} if role in ("pwrite", "plen") else {}
        items = kinds
        if role in ("write", "pwrite") and b:
            spec = next(t for l, t in c.ensures if l == "value")
            rhs = spec.split("==> ")[-1]
            pk = X in PK or X == "Connect"
            call = ""
            if pk:
                args = re.search(r"e_%s\((.*)\)$" % X, rhs).group(1)
                call = f"lw_{X}(old({b})@, {args}); "
                rhs = f"{b}@ == w_{X}(old({b})@, {args})"
            c.post_hint = f"if r_ is Ok {{ {call}assert({rhs.replace('final(' + b + ')@', b + '@').replace('==', '=~=' if self.ext else '==', 1)}); }}"
        if b and any("pre(" in t for l, t in c.ensures) or role == "top_write": out.append(f"proof {{ pre_refl(old({b})@); }}")
        uses = f"broadcast use {{{c.use}}};" if c.use else ""
        known = {}
        lenvar = nrm(stmts[-1]["expr"]["path"]) if stmts and stmts[-1]["k"] == "SExpr" and stmts[-1]["expr"]["k"] == "Path" else None
        for idx, st in enumerate(stmts):
            if st.get("attrs") and not cfg_ok(st, self.crate.feats): continue
            if idx:
                for a in assigned(stmts[idx - 1]): known.pop(a, None)
            if st["k"] == "Local" and st["pat"]["k"] == "PIdent" and st["pat"].get("mut") and st.get("init") and st["init"]["k"] == "Lit" and st["init"]["lk"] == "int": known[st["pat"]["name"]] = st["init"]["text"]
            lits = [f"{a} == {v}" for a, v in known.items() if a in assigned(st)]
            ln = fn.file.src[:st["s"]].count(b"\n") + 1
            out.append(f"// @src:{ln}")
            last = idx == len(stmts) - 1 and st["k"] == "SExpr" and not st.get("semi")
            fs = [f for f in self.fields_in(st) if f in items]
            if role == "pwrite" and fs and not last and st["k"] == "SExpr" and not self.shared(st):
                g = self.fresh("s")
                cur = g
                for f in fs: cur = specgen.witem(kinds[f][1], kinds[f][0], cur, "self@." + f)
                rv = specgen.REVW([x for x in PROPS[X][1] if x[0] in fs])
                oks = [specgen.okitem(kinds[f][1], "self@." + f) for f in fs]
                out.append(f"let ghost {g} = {b}@;")
                out.append(self.isolate(self.r(st), [f"pre(old({b})@, {b}@)"], [f"{b}@ == {g}"] + lits, [f"{b}@ == {cur}"] + [o for o in oks if o], f"assert({b}@ {EQ} {cur}) by {{ {rv} }} // @label:value", uses, "value"))
            elif role == "plen" and fs and not last and st["k"] == "SExpr" and (len(set(assigned(st))) == 1 or len({x for x in assigned(st) if x not in known or x == lenvar}) == 1) and not self.shared(st):
                a = lenvar if lenvar in assigned(st) else assigned(st)[0]
                g = self.fresh("s")
                tot = g + "".join(" + " + specgen.litem(kinds[f][1], "self@." + f) for f in fs)
                rv = specgen.REVL([x for x in PROPS[X][1] if x[0] in fs])
                out.append(f"let ghost {g} = {a} as int;")
                out.append(self.isolate(self.r(st), [f"{tot} <= usize::MAX", f"0 <= {g}"], [f"{a} == {g}"] + lits, [f"{a} == {tot}"], f"assert({a} == {tot}); // @label:size", uses, "size", f"proof {{ {rv} }}"))
            elif role == "plen" and fs and not last: out.append(f"proof {{ {specgen.REVL(PROPS[X][1])} }}\n" + self.r(st))
            elif role == "pwrite" and fs and not last: out.append(f"proof {{ {specgen.REVW(PROPS[X][1])} }}\n" + self.r(st))
            elif last and (st["expr"]["k"] not in ("While", "For", "Loop") or st["expr"]["k"] == "Loop" and role in ("rvi", "wvi")):
                self.tailpos = True
                t = self.r(st)
                self.tailpos = False
                if role == "plen" and fs: out.append(f"proof {{ {specgen.REVL([x for x in PROPS[X][1] if x[0] in fs])} }}")
                if role == "pwrite" and fs: out.append(f"proof {{ {specgen.REVW([x for x in PROPS[X][1] if x[0] in fs])} }}")
                if c.post_hint: out.append(f"let r_ = {t};\nproof {{ {c.post_hint} }}\nr_")
                else: out.append(t)
            else:
                h = self.pkt_hint(st) if role == "write" and st["k"] == "SExpr" and b else None
                if h is None: out.append(self.stmt(st)); continue
                g = self.fresh("q")
                part = self.part(st)
                asg = assigned(st)
                inv0, inv1 = [f"{b}@ == {g}"], [f"{b}@ == {h.replace('B_', g)}"]
                out.append(f"let ghost {g} = {b}@;")
                if part: inv1.append(f"ov(*{part[0]}) matches Some(x) ==> rep_{part[1]}(x)")
                elif X == "Disconnect": inv1.append(f"orep_DisconnectProperties(self@.properties)")
                else: inv1.append(f"orep_{X}Properties(self@.properties)")
                if part and len(set(asg)) == 1:
                    f0 = self.fresh("f")
                    out.append(f"let ghost {f0} = {asg[0]};")
                    inv0.append(f"{asg[0]} == {f0}")
                    inv1.append(f"{asg[0]} == (match ov(*{part[0]}) {{ None => {f0}, Some(x) => ({f0} | (fl_{part[1]}(x) as u8)) }})")
                elif asg: raise Undecided("assignments in a step of a packet writer")
                pr = f"proof {{ pos_{X}({self.pargs()}); }}"
                out.append(self.isolate(self.r(st), [f"pre(old({b})@, {b}@)"], inv0, inv1, f"assert({b}@ {EQ} {h.replace('B_', g)}); // @label:value", f"broadcast use {{{c.use}, crate::spk::g_pkt}};", "value", f"proof {{ e_vi_0(); }} {pr}"))
        use = [u for u in (c.use, "crate::spec::bit_or" if self.anyor and X != "Connect" else None, "crate::spk::g_upd" if self.upd else None, "crate::spec::skips" if role == "prim" else None, f"crate::sp_{X.lower()}::neg_{X}" if role == "pread" else None, "crate::spk::g_pkt" if role == "write" else "crate::spk::g_lists" if role == "read" else "crate::spec::pre_len" if role == "top_write" else None, "crate::spec::bits" if self.bits else None) if u]
        out[0] = f"broadcast use {{{', '.join(use)}}};" if use else ""
        if self.allocs: out[0] += f" let ghost alim_: int = {self.at_hand()};"
        if self.need_loc:
            p0 = f"old({fn.params[0][0]})@"
            out[0] += f" proof {{ c11_vi_minimal({p0}); match vi({p0}) {{ VI::Val(w_, n_) => {{ loc_{X}({p0}.skip(w_), n_, empty_{X}()); if w_ + n_ <= {p0}.len() {{ assert({p0}.skip(w_).skip(n_) =~= {p0}.skip(w_ + n_)); }} }}, _ => {{}} }} }}"
        return "\n".join(out)
    def shared(self, st):
        """the statement leaves the function other than by `?`, or changes something other than the buffer and one counter"""
        return False
    def isolate(self, text, inv, before, after, check, uses, label, pre=""):
        """a statement as a proof obligation of its own: wrapped in a loop that runs once"""
        o = self.fresh("once")
        return f"""let mut {o} = true;
while {o}
  invariant
    {', '.join(self.c.requires + inv)},
    {', '.join(f'{o} ==> ({x})' for x in before)},
    {', '.join(f'!{o} ==> ({x})' for x in after)}, // @label:{label}
  decreases (if {o} {{ 1int }} else {{ 0int }})
{{
{uses}
{pre}
{o} = false;
{text}
{check}
}}"""
    def pargs(self):
        return re.search(r"(?:lb|lf)_\w+\((.*)\) <=", self.c.requires[0]).group(1)
    def part(self, st):
        """the parameter (will or login) a statement of Connect::write is about"""
        if self.fn.self_ty != "Connect": return None
        ps = {nm: norm(ty) for nm, ty in self.fn.params}
        named = {nrm(c["path"]) for c in walk(st) if c["k"] == "Path"}
        h = [(nm, "Login" if "Login" in ps[nm] else "LastWill") for nm in ps if nm in named and ("Option<Login>" in ps[nm] or "Option<LastWill>" in ps[nm])]
        return h[0] if len(h) == 1 else None
    def pkt_hint(self, st):
        X = self.fn.self_ty
        if X == "Connect" and st["expr"]["k"] in ("If", "Match"):
            h = self.part(st)
            if h and not any(c["k"] == "Index" for c in walk(st)) and not self.fields_in(st): return f"w_o_{'login' if h[1] == 'Login' else 'will'}(B_, ov(*{h[0]}))"
        if st["expr"]["k"] not in ("If", "Match", "For", "While"): return None
        fs = self.fields_in(st)
        if X in PK or X == "LastWill":
            if fs == ["properties"]:
                if X == "Disconnect": return "w_o_sec_Disconnect(B_, self@.properties)"
                return f"w_sec_{X}Properties(B_, self@.properties)"
        return None

def one_bit(n):
    n = strip(n)
    if n["k"] != "Lit": return False
    try: v = int(re.sub(r"(u8|usize|u16|u32|i32|_)", "", n["text"]), 0)
    except ValueError: return False
    return v > 0 and v & (v - 1) == 0
def num(n):
    n = strip(n)
    if n["k"] != "Lit": return None
    try: return int(re.sub(r"(u8|usize|u16|u32|i32|_)", "", n["text"]), 0)
    except ValueError: return None
def section_of(c):
    if c["k"] == "MethodCall" and c["method"] == "has_remaining" and c["recv"]["k"] == "Path": return nrm(c["recv"]["path"])
    if c["k"] == "NotN" or c["k"] == "Unary" and c["op"].strip() == "!":
        x = strip(c["expr"])
        if x["k"] == "MethodCall" and x["method"] == "is_empty" and x["recv"]["k"] == "Path": return nrm(x["recv"]["path"])
    if c["k"] in ("Binary", "BinaryN"):
        op, a, b = c["op"].strip(), strip(c["left"]), strip(c["right"])
        if op == "<": op, a, b = ">", b, a
        if op in (">", "!=") and b["k"] == "Lit" and b["text"] == "0" and a["k"] == "MethodCall" and a["method"] in ("len", "remaining") and a["recv"]["k"] == "Path": return nrm(a["recv"]["path"])
    return None

def negate(c):
    c = strip(c)
    if c["k"] == "Unary" and c["op"].strip() == "!": return strip(c["expr"])
    if c["k"] == "Binary":
        op = c["op"].strip()
        inv = {"==": "!=", "!=": "==", ">=": "<", "<=": ">", "<": ">=", ">": "<="}.get(op)
        if inv:
            d = dict(c); d["op"] = inv; d["k"] = "BinaryN"
            return d
    return {"k": "NotN", "s": c["s"], "e": c["e"], "expr": c}

def split_args(t):
    out, d, cur, q = [], 0, "", None
    for ch in t:
        if q: cur += ch; q = None if ch == q else q; continue
        if ch == '"': q = ch; cur += ch; continue
        if ch in "([{": d += 1
        if ch in ")]}": d -= 1
        if ch == "," and d == 0: out.append(cur); cur = ""; continue
        cur += ch
    if cur.strip(): out.append(cur)
    return out

def is_err(e):
    """return Err(..): in a helper called as `helper(..)?` it ends the caller as well"""
    x = e.get("expr") and strip(e["expr"])
    return bool(x) and x["k"] == "Call" and is_path(x["func"], "Err")

def structured(stmts, file, what, tried=False):
    """early returns of a helper turned into nested ifs (so that it can be inlined)"""
    out = []
    for i, s in enumerate(stmts):
        rest = stmts[i+1:]
        e = s["expr"] if s["k"] == "SExpr" else None
        if e is not None and e["k"] == "Return" and not (tried and is_err(e)):
            if e.get("expr") is None: raise Undecided(what)
            out.append({"k": "SExpr", "expr": e["expr"], "semi": False, "s": s["s"], "e": s["e"]}); return out
        if e is not None and e["k"] == "If" and any(c["k"] == "Return" and not (tried and is_err(c)) for c in walk(e)):
            t = list(e["then"]["stmts"]); el = e.get("else")
            el = [] if el is None else list(el["block"]["stmts"]) if el["k"] == "BlockExpr" else [{"k": "SExpr", "expr": el, "semi": False, "s": el["s"], "e": el["e"]}]
            jt, je = ends_jump(t), ends_jump(el)
            tt = structured(t if jt else t + rest, file, what, tried); ee = structured(el if je else el + rest, file, what, tried)
            z = {"s": e["s"], "e": e["e"]}
            out.append({"k": "SExpr", "semi": False, **z, "expr": {"k": "IfN", **z, "cond": e["cond"], "then": tt, "else": ee}})
            return out
        for c in walk(s):
            if c["k"] == "Return" and not (tried and is_err(c)):
                raise Undecided(what)
        out.append(s)
    return out

def r_IfN(self, n):
    return f"if {self.r(n['cond'])} {{ {self.block_text(n['then'])} }} else {{ {self.block_text(n['else'])} }}"
def r_BinaryN(self, n): return f"({self.r(n['left'])} {n['op']} {self.r(n['right'])})"
def r_NotN(self, n): return f"!({self.r(n['expr'])})"
Gen.r_IfN, Gen.r_BinaryN, Gen.r_NotN = r_IfN, r_BinaryN, r_NotN

# ---------------------------------------------------------------------- crate
class Crate:
    def __init__(self, repo, config, external=(), ext=()):
        self.repo, self.config, self.feats = repo, config, CONFIGS[config]
        self.ext = set(ext)               # functions proved with extensional equality hints
        self.external = set(external)     # functions whose body is left out (bounded stand-in)
        self.files = rsast.load(repo, self.feats)
        for f in self.files: f.repo = repo
        self.fns, self.types, self.consts, self.dropped = [], [], [], []
        self.uses = {}
        for f in self.files: self.scan(f)
        self.derive_defaults()
        self.renames()
        for x in self.fns: x.contract = contract_for(x)
        self.undecided = {}
    def struct(self, name):
        return next((t for _, t in self.types if t["k"] == "Struct" and t["name"] == name and t["fields"] and t["fields"][0]["name"]), None)
    def default_of(self, ty):
        """what Default::default() is for a type"""
        t = norm(ty)
        if t == "bool": return "false"
        if re.fullmatch(r"[ui](8|16|32|64|128|size)", t): return "0"
        if t == "Option" or t.startswith("Option<"): return "None"
        if t == "Vec" or t.startswith("Vec<"): return "Vec::new()"
        if t == "String": return "crate::model::MString::default()"
        if t == "Bytes" or t == "MqttString" or any(x["name"] == t for _, x in self.types): return f"{t}::default()"
        raise Undecided(f"default of {ty}")
    def derive_defaults(self):
        """#[derive(Default)]: what the compiler generates, as a function under contract"""
        for f, it in self.types:
            if it["k"] not in ("Struct", "Enum") or not any(a["path"] == "derive" and re.search(r"\bDefault\b", a["text"]) for a in it["attrs"]): continue
            node = {"k": "Fn", "sig": {"name": "default", "params": [], "ret": {"text": "Self"}, "s": it["s"]}, "body": {"k": "Block", "stmts": []}}
            x = FnInfo(f, node, it["name"], "Default", it)
            try:
                if it["k"] == "Enum":
                    v = [v for v in it["variants"] if any(a["path"] == "default" for a in v["attrs"])]
                    if len(v) != 1: raise Undecided("no default variant")
                    x.derived = f"{it['name']}::{v[0]['name']}"
                else:
                    # the same value, written as the standard library describes the derive
                    x.derived = f"{it['name']} {{ " + ", ".join(f"{fl['name']}: {self.default_of(fl['ty']['text'])}" for fl in it["fields"]) + " }"
            except Undecided as e: x.derived = e
            self.fns.append(x)
    def renames(self):
        """A helper that was renamed keeps its contract: the name of the pinned commit's function it
        stands for is the one that is gone, when one function of the same owner and signature has no
        contract of its own."""
        sigs = json.load(open(os.path.join(rsast.VERIF, "gen", "signatures.json")))
        have = {(x.self_ty, x.name) for x in self.fns}
        for x in self.fns: x.cname = x.name
        free = [x for x in self.fns if not x.trait and not x.generic and contract_for(x) is None]
        for ty, name, T, R in sigs:
            if (ty, name) in have: continue
            c = [x for x in free if x.self_ty == ty and [norm(p[1]) for p in x.params] == T and norm(x.ret) == R and x.cname == x.name]
            if len(c) == 1: c[0].cname = name
    def scan(self, f):
        self.uses[tuple(f.module)] = []
        for it in f.tree["items"]:
            if not cfg_ok(it, self.feats): continue
            k = it["k"]
            if k == "Fn":
                self.fns.append(FnInfo(f, it)); self.nested(f, it)
            elif k == "Impl":
                tr = it.get("trait")
                for m in it["items"]:
                    if m["k"] == "Fn" and cfg_ok(m, self.feats):
                        x = FnInfo(f, m, nrm(it["self_ty"]), tr and nrm(tr), it)
                        fr = re.fullmatch(r"(?:\w+::)*From<(\w+)>", x.trait or "")
                        if fr and x.self_ty == "u8" and x.name == "from":
                            # impl From<Enum> for u8: a function of its own
                            x.name, x.self_ty, x.trait, x.ret = f"from_{fr.group(1)}_", None, None, "u8"
                        self.fns.append(x); self.nested(f, m)
            elif k in ("Struct", "Enum", "TypeAlias"): self.types.append((f, it))
            elif k == "Use": self.uses[tuple(f.module)].append(it)
            elif k in ("Const",): self.consts.append((f, it))
            elif k == "Mod": pass
            elif k == "MacroItem" and it["path"].strip() == "compile_error": pass
            else: self.dropped.append(f"{'::'.join(f.module)}: {k} {it.get('name', it.get('path', ''))}")
    def nested(self, f, it):
        """functions defined inside a function are treated as private functions of its module"""
        for c in walk(it["body"]):
            if c["k"] == "SItem" and c["item"]["k"] == "Fn": self.fns.append(FnInfo(f, c["item"]))
    def resolve_call(self, p, frm):
        seg = p.split("::")
        name = seg[-1]
        if len(seg) >= 2 and (seg[-2][:1].isupper()):
            ty = frm.self_ty if seg[-2] == "Self" else seg[-2]
            c = [x for x in self.fns if x.self_ty == ty and x.name == name]
            return c[0] if len(c) == 1 else None
        c = [x for x in self.fns if x.self_ty is None and x.name == name]
        if len(seg) >= 2 and seg[-2] not in ("crate", "super", "self"): c = [x for x in c if x.module[-1:] == [seg[-2]]]
        elif len(seg) == 2 and seg[-2] in ("crate",): c = [x for x in c if x.module == []]
        loc = [x for x in c if x.module == frm.module]
        if len(loc) == 1 and len(seg) == 1: return loc[0]
        rt = [x for x in c if x.module == []]
        if len(rt) == 1: return rt[0]
        return c[0] if len(c) == 1 else None
    STD = set("len is_empty push iter next clone unwrap ok_or map into is_some is_none as_ref as_bytes eq write read size new default get_u8 advance".split())
    def resolve_method(self, m):
        c = [x for x in self.fns if x.name == m and x.self_ty]
        if len(c) == 1 and m not in self.STD: return c[0]
        return None
    # ------------------------------------------------------------------ output
    def lines_use(self, module):
        """flattened imports of a module"""
        out = []
        for u in self.uses[tuple(module)]:
            t = u["text"]
            t = re.sub(r"^\s*(#\s*\[[^\]]*\]\s*)*", "", t)
            t = re.sub(r"^\s*pub\s*(\([^)]*\))?\s*use", "use", t)
            t = t.strip()[3:].strip().rstrip(";").strip()
            pub = True
            for path, alias in flatten(t):
                path = nrm(path)
                if path.endswith("::self"): path = path[:-6]
                root = path.split("::")[0]
                if root == "bytes": path = "crate::model::" + "::".join(path.split("::")[1:])
                elif root in ("std", "core", "alloc"):
                    last = path.split("::")[-1]
                    if last in ("Iter", "Utf8Error", "Cow"): path = "crate::model::" + last
                    elif last in ("TryFrom", "TryInto"): path = "core::convert::" + last
                    else: continue
                elif root in ("thiserror",): continue
                elif path.split("::")[-1] in ("vec", "Debug"): continue
                nm = path.split("::")[-1]
                if root in ("super", "crate") and not self.known(nm): continue
                out.append(f"pub use {path}" + (f" as {alias}" if alias else "") + ";")
        return out
    def known(self, nm):
        if nm in ("Buf", "BufMut", "Bytes", "BytesMut", "Iter", "Utf8Error", "Cow", "*", "TryFrom", "TryInto"): return True
        if any(t["name"] == nm for _, t in self.types): return True
        if any(t["name"] == nm for _, t in self.consts): return True
        return any(x.name == nm and x.self_ty is None and x.contract is not None for x in self.fns) or any(f.module[-1:] == [nm] for f in self.files)
    COPY = None
    def type_text(self, f, it):
        k, name = it["k"], it["name"]
        gen = it.get("generics", "")
        if k == "TypeAlias":
            return f"pub type {name} = {map_ty(it['ty']['text'])};"
        der = ""
        for a in it["attrs"]:
            if a["path"] == "derive": der += a["text"]
        d = []
        if k == "Enum":
            if "Copy" in der: d = ["Clone", "Copy"]
            if "PartialEq" in der and name not in ("Packet", "Error"): d += ["PartialEq", "Eq", "Structural"]
            body = []
            for v in it["variants"]:
                fs = v["fields"]
                if fs and fs[0]["name"]: t = " { " + ", ".join(f"{x['name']}: {map_ty(x['ty']['text'])}" for x in fs) + " }"
                elif fs: t = "(" + ", ".join(map_ty(x["ty"]["text"]) for x in fs) + ")"
                else: t = ""
                if v.get("disc"): t += " = " + f.text(v["disc"])
                body.append(v["name"] + t)
            repr_ = "".join("#[repr(u8)] " for a in it["attrs"] if a["path"] == "repr" and "u8" in a["text"])
            return f"{repr_}{'#[derive(' + ', '.join(d) + ')] ' if d else ''}pub enum {name} {{ " + ", ".join(body) + " }"
        if "Copy" in der: d = ["Clone", "Copy"]
        fs = it["fields"]
        dd = f"#[derive({', '.join(d)})] " if d else ""
        if not fs: return f"{dd}pub struct {name};"
        if not fs[0]["name"]: return f"{dd}pub struct {name}(" + ", ".join("pub " + map_ty(x["ty"]["text"]) for x in fs) + ");"
        return f"{dd}pub struct {name}{gen} {{ " + ", ".join(f"pub {x['name']}: {map_ty(x['ty']['text'])}" for x in fs) + " }"
    def fn_text(self, x):
        c = x.contract
        sg = x.node["sig"]
        ps = []
        for p in sg["params"]:
            if p["k"] == "Self": ps.append(p["text"].replace("& ", "&"))
            else: ps.append(("mut " if p["pat"].get("mut") else "") + (p["pat"].get("name") or "_") + ": " + map_ty((x.mono or {}).get(p["pat"].get("name"), (p["ty"]["text"],))[0]))
        head = f"fn {x.name}({', '.join(ps)})" + (f" -> (r: {map_ty(x.ret)})" if x.ret else "")
        if not x.trait or x.is_default: head = "pub " + head
        L = [f"// @fn:{x.qual} {x.where}"]
        ext = x.qual in self.external
        body = None
        if not ext:
            try:
                if isinstance(x.derived, Undecided): raise x.derived
                g = Gen(self, x, c)
                body = g.body() + (x.derived or "")
                x.inlined, x.allocs = g.inlined, g.allocs
            except Undecided as e:
                self.undecided[x.qual] = str(e); ext = True
        if ext: L.append("#[verifier::external_body]")
        elif c.role in ("write", "read", "pread", "pwrite", "top_read", "top_write"): L.append("#[verifier::rlimit(40)]")
        L.append(head)
        if c.requires and (not x.trait or x.is_default):
            L.append("  requires")
            for q in c.requires: L.append(f"    {q},")
        if c.ensures:
            L.append("  ensures")
            for lab, q in c.ensures: L.append(f"    {q}, // @label:{lab}")
        L.append("{")
        L.append("unimplemented!()" if ext else body)
        L.append("}")
        L.append("// @end")
        return "\n".join(L)
    def module_text(self, f):
        out = []
        for it in self.lines_use(f.module): out.append(it)
        out.append("verus! {")
        for ff, it in self.types:
            if ff is f: out.append(self.type_text(f, it))
        for ff, it in self.consts:
            if ff is f: out.append("pub " + re.sub(r"^\s*(#\[[^\]]*\]\s*)*(pub(\([^)]*\))?\s+)?", "", re.sub(r"^(\s*///[^\n]*\n)+", "", f.text(it))))
        for x in self.fns:
            if x.file is not f: continue
            if x.contract is None:
                self.dropped.append(f"fn {x.qual}" + (f" (impl {x.trait})" if x.trait else "")); continue
            if x.self_ty is None: out.append(self.fn_text(x))
        impls = {}
        for x in self.fns:
            if x.file is f and x.self_ty and x.contract is not None: impls.setdefault((x.self_ty, x.trait, id(x.impl)), []).append(x)
        for (ty, tr, _), xs in impls.items():
            if tr and not xs[0].is_default:
                m = re.fullmatch(r"TryFrom<u8>", tr)
                if not m: self.dropped += [f"fn {x.qual} (impl {tr})" for x in xs]; continue
                out.append(f"impl vstd::std_specs::convert::TryFromSpecImpl<u8> for {ty} {{ open spec fn obeys_try_from_spec() -> bool {{ false }} open spec fn try_from_spec(v: u8) -> Result<Self, Self::Error> {{ arbitrary() }} }}")
                out.append(f"impl TryFrom<u8> for {ty} {{ type Error = Error;")
            else: out.append(f"impl {ty} {{")
            out += [self.fn_text(x) for x in xs]
            out.append("}")
        out.append("}")
        return "\n".join(out)
    def emit(self, out, specs):
        os.makedirs(out, exist_ok=True)
        model = open(os.path.join(rsast.VERIF, "gen", "model.rs")).read()
        text_ok = "true" if "binary_string" in self.feats else "vstd::utf8::valid_utf8(s)"
        model = model.replace("/*CONFIG*/", f"/// what a text field may hold in this configuration ({self.config})\n#[verifier::opaque] pub open spec fn text_ok(s: Seq<u8>) -> bool {{ {text_ok} }}")
        mods = {"model": model, **specs}
        PRE = "#[allow(unused_imports)] use vstd::prelude::*;\n#[allow(unused_imports)] use crate::model::*;\n" + "".join(f"#[allow(unused_imports)] use crate::{s}::*;\n" for s in specs)
        rootf = None
        subs = []
        for f in self.files:
            if f.module == []: rootf = f; continue
            if len(f.module) > 1: raise Unsupported(f"nested module {f.module}")
            name = f.module[0]
            if name in mods: raise Unsupported(f"module name {name}")
            mods[name] = "#![allow(unused_imports, unused_variables, unused_mut, non_snake_case, dead_code, unused_parens, unused_braces)]\n" + PRE + "#[allow(unused_imports)] use crate::*;\n" + self.module_text(f)
            subs.append(name)
        main = "#![allow(unused_imports, unused_variables, unused_mut, non_snake_case, dead_code, unused_parens, unused_braces, unused_assignments, unused_comparisons, non_camel_case_types)]\n" + PRE + "".join(f"pub mod {m};\n" for m in mods)
        main += "verus! { global size_of usize == 8; }\n" + self.module_text(rootf) + "\nfn main() {}\n"
        for f in os.listdir(out):
            if f.endswith(".rs"): os.remove(os.path.join(out, f))
        for m, t in mods.items(): open(os.path.join(out, m + ".rs"), "w").write(t)
        open(os.path.join(out, "main.rs"), "w").write(main)
        return mods

def flatten(t):
    """use tree -> [(path, alias)]"""
    t = t.strip()
    m = re.match(r"^(.*?)\{(.*)\}$", t, re.S)
    if m:
        pre = m.group(1).strip()
        r = []
        for p in split_args(m.group(2)):
            if p.strip(): r += [(pre + x, a) for x, a in flatten(p)]
        return r
    if " as " in t:
        a, b = t.rsplit(" as ", 1)
        return [(a, b.strip())]
    return [(t, None)]

if __name__ == "__main__":
    repo, config, out = sys.argv[1:4]
    c = Crate(repo, config, sys.argv[4:])
    c.emit(out, specgen.generate())
    print("undecided", c.undecided); print("dropped", c.dropped)
