"""Contracts for the functions of the crate, chosen by what a function is (name, owner
type and signature), never by how its body is written."""
from schema import *
from packets import PK, REASON
import re

class Contract:
    def __init__(self, role, requires=(), ensures=(), use=None, prologue="", ret="r", recommends=None):
        self.role, self.requires, self.ensures = role, list(requires), list(ensures)   # ensures: (label, text)
        self.use, self.prologue, self.ret = use, prologue, ret

def norm(t): return re.sub(r"\s+", "", t or "")

INT8 = {"read_u8": "p_u8", "read_u16": "p_u16", "read_u32": "p_u32"}
RD, WR, LN = "crate::spec::g_read", "crate::spec::g_write", "crate::spec::g_len"

def contract_for(fn):
    """fn: FnInfo -> Contract or None (unknown helper)"""
    c = _contract(fn)
    if c is not None:
        c.fn = fn
        if c.role in ("prim", "pread", "fread", "read") or c.role == "table" and "Result<" in norm(fn.ret): c.ensures.append(("limit", "r is Err ==> !is_limit(r->Err_0)"))
    return c

def _contract(fn):
    P = [p[0] for p in fn.params]
    T = [norm(p[1]) for p in fn.params]
    R = norm(fn.ret)
    n, X = getattr(fn, "cname", fn.name), fn.self_ty
    k = _ctor(fn, X, n)
    if k: return k
    if fn.generic: return None
    # ------------------------------------------------------------ free functions
    if X is None:
        if n in INT8 and T == ["&mutBytes"]:
            return Contract("prim", [], [("value", f"agrees(r, {INT8[n]}(old({P[0]})@), final({P[0]})@)")], RD)
        if n == "read_mqtt_bytes" and T == ["&mutBytes"] and R == "Result<Bytes,Error>":
            return Contract("prim", [], [("value", f"agrees_v(r, p_bin(old({P[0]})@), final({P[0]})@)")], RD, "reveal(p_bin);")
        if n == "read_mqtt_string" and T == ["&mutBytes"]:
            return Contract("prim", [], [("value", f"agrees_v(r, p_str(old({P[0]})@), final({P[0]})@)")], RD, "reveal(p_str); reveal(text_ok);")
        if n == "write_mqtt_bytes" and len(T) == 2 and T[0] == "&mutBytesMut":
            b, s = P
            return Contract("wprim", [], [("accept", f"r is Ok <==> ok_bin({s}@)"), ("value", f"r is Ok ==> final({b})@ == w_bin(old({b})@, {s}@)"), ("keep", f"r is Err ==> pre(old({b})@, final({b})@)")], WR)
        if n == "write_mqtt_string" and len(T) == 2 and T[0] == "&mutBytesMut":
            b, s = P
            return Contract("wprim", [], [("accept", f"r is Ok <==> ok_bin({s}@)"), ("value", f"r is Ok ==> final({b})@ == w_bin(old({b})@, {s}@)"), ("keep", f"r is Err ==> pre(old({b})@, final({b})@)")], WR)
        if n == "write_remaining_length" and T == ["&mutBytesMut", "usize"]:
            b, l = P
            return Contract("wvi", [], [("accept", f"r is Ok <==> {l} <= MAXVI()"), ("value", f"r is Ok ==> final({b})@ == old({b})@ + e_vi({l} as int)"), ("size", f"r matches Ok(c) ==> c == l_vi({l} as int)"), ("keep", f"r is Err ==> pre(old({b})@, final({b})@)")], WR, f"reveal(e_vi); if {l} <= MAXVI() {{ digits({l} as int); }}")
        if n == "len_len" and T == ["usize"] and R == "usize":
            return Contract("pure", [], [("size", f"r == l_vi({P[0]} as int)")])
        if n == "length" and T in (["Iter<u8>"], ["Iter<'_,u8>"]):
            s = P[0]
            return Contract("rvi", [], [("value", f"vi({s}@) matches VI::Val(w, n) ==> r is Ok && r->Ok_0.0 == w && r->Ok_0.1 == n"), ("short", f"vi({s}@) is Short ==> r is Err && r->Err_0 == Error::InsufficientBytes(1)"), ("bad", f"vi({s}@) is Bad ==> r is Err && !is_insuf(r->Err_0) && !is_limit(r->Err_0)")], RD)
        if n == "parse_fixed_header" and len(T) == 1:
            s = P[0]
            return Contract("fh", [], [("short", f"{s}@.len() < 2 ==> r is Err && (r->Err_0 matches Error::InsufficientBytes(k) && 1 <= k <= 2 - {s}@.len())"),
                ("short2", f"{s}@.len() >= 2 && vi({s}@.skip(1)) is Short ==> r is Err && r->Err_0 == Error::InsufficientBytes(1)"),
                ("bad", f"{s}@.len() >= 2 && vi({s}@.skip(1)) is Bad ==> r is Err && !is_insuf(r->Err_0) && !is_limit(r->Err_0)"),
                ("value", f"{s}@.len() >= 2 ==> (vi({s}@.skip(1)) matches VI::Val(w, n) ==> r is Ok && r->Ok_0.byte1 == {s}@[0] && r->Ok_0.fixed_header_len == 1 + w && r->Ok_0.remaining_len == n)")], RD)
        if n == "check" and len(T) == 2:
            s, m = P
            return Contract("check", [], [("short", f"frame({s}@, {m}) matches Fr::Short(k) ==> r is Err && (r->Err_0 matches Error::InsufficientBytes(j) && 1 <= j <= k)"),
                ("limit", f"frame({s}@, {m}) matches Fr::TooBig(n, x) ==> r is Err && (r->Err_0 matches Error::PayloadSizeLimitExceeded {{ pkt_size, max }} && pkt_size == n && max == x)"),
                ("bad", f"frame({s}@, {m}) is BadLen ==> r is Err && !is_insuf(r->Err_0) && !is_limit(r->Err_0)"),
                ("value", f"frame({s}@, {m}) matches Fr::Frame(w, n) ==> r is Ok && r->Ok_0.byte1 == {s}@[0] && r->Ok_0.fixed_header_len == 1 + w && r->Ok_0.remaining_len == n")], RD, f"c11_vi_minimal({s}@.skip(1));")
        if n == "property" and T == ["u8"] and R == "Result<PropertyType,Error>":
            return Contract("table", [], [("table", f"match r {{ Ok(p) => p as u8 == {P[0]} && known_property({P[0]}), Err(e) => !known_property({P[0]}) }}")])
        if n == "qos" and T == ["u8"] and R == "Option<QoS>":
            return Contract("table", [], [("table", f"r == dc_QoS({P[0]})")])
        if n == "mqtt_string_eq" and len(T) == 2: return Contract("str", [], [("value", f"r == ({P[0]}@ == {P[1]}@)")], RD)
        if n == "mqtt_string_new" and len(T) == 1: return Contract("str", [], [("value", f"r@ == {P[0]}@")], RD)
        # tables, by signature
        if len(T) == 1 and T[0] == "u8":
            for E in CODES:
                if R == f"Result<{E},Error>" or R == "Result<Self,Error>" and X == E: return _dec_table(E, P[0])
        if len(T) == 1 and T[0] in CODES:
            E = T[0]
            if R == "u8": return Contract("table", [f"ec_{E}({P[0]}) is Some"], [("table", f"r == c_{E}({P[0]})")])
            if R == "Result<u8,Error>": return Contract("table", [], [("table", f"match ec_{E}({P[0]}) {{ Some(c) => r == Ok::<u8, Error>(c), None => r is Err }}")])
        return None
    # ------------------------------------------------------------ enums
    if X in CODES:
        if n == "try_from" and T == ["u8"]: return _dec_table(X, P[0])
        return None
    # ------------------------------------------------------------ fixed header
    if X == "FixedHeader":
        if n == "new" and len(T) == 3: return Contract("fhnew", [f"{P[1]} < usize::MAX"], [("value", f"r.byte1 == {P[0]} && r.fixed_header_len == {P[1]} + 1 && r.remaining_len == {P[2]}")])
        if n == "packet_type": return Contract("table", [], [("table", "match r { Ok(t) => t as u8 == self.byte1 / 16 && known_packet((self.byte1 / 16) as int), Err(e) => !known_packet((self.byte1 / 16) as int) && !is_insuf(e) && !is_limit(e) }")], RD)
        if n == "frame_length": return Contract("pure", ["self.fixed_header_len + self.remaining_len <= usize::MAX"], [("value", "r == self.fixed_header_len + self.remaining_len")])
        return None
    # ------------------------------------------------------------ property sets
    if X in PROPS:
        if n in ("read", "extract") and T == ["&mutBytes"]:
            b = P[0]
            return Contract("pread", [], [("value", f"match p_sec_{X}(old({b})@) {{ None => r is Err, Some((o, rest)) => r is Ok && ov(r->Ok_0) == o && final({b})@ == rest }}")], RD)
        if n == "len" and P == ["self"] and R == "usize":
            return Contract("plen", [f"l_{X}(self@) <= usize::MAX"], [("size", f"r == l_{X}(self@)")], LN)
        if n == "write" and len(T) == 2:
            b = P[1]
            return Contract("pwrite", [f"l_{X}(self@) <= usize::MAX"], [("accept", f"r is Ok <==> rep_{X}(self@)"), ("value", f"r is Ok ==> final({b})@ == w_sec_{X}(old({b})@, Some(self@))"), ("keep", f"r is Err ==> pre(old({b})@, final({b})@)")], WR)
        if n in ("new", "default") and not P: return Contract("pnew", [], [("value", f"r@ == empty_{X}()")], RD)
        return None
    # ------------------------------------------------------------ pings
    if X in ("PingReq", "PingResp"):
        if n == "write" and len(T) == 1: return Contract("write", [], [("accept", "r is Ok"), ("value", f"final({P[0]})@ == old({P[0]})@ + seq![{192 if X == 'PingReq' else 208}u8, 0u8]"), ("size", "r matches Ok(n) ==> n == 2"), ("keep", f"r is Err ==> pre(old({P[0]})@, final({P[0]})@)")], WR)
        return None
    # ------------------------------------------------------------ parts of packets
    if X == "Filter":
        if n == "len" and P == ["self"]: return Contract("flen", ["l_filter(self@) <= usize::MAX"], [("size", "r == l_filter(self@)")], LN)
        if n == "read" and T == ["&mutBytes"]: return Contract("fread", [], [("value", f"match p_filters(old({P[0]})@, Seq::empty()) {{ None => r is Err, Some(fs) => r is Ok && filtersv(r->Ok_0@) == fs }}")], RD)
        if n == "write" and len(T) == 2:
            b = P[1]
            return Contract("write", [], [("accept", "r is Ok <==> ok_bin(self.path@)"), ("value", f"r is Ok ==> final({b})@ == w_filter(old({b})@, self@)"), ("keep", f"r is Err ==> pre(old({b})@, final({b})@)")], WR)
        return None
    if X in ("LastWill", "Login"):
        pn, want = ("p_will", "Option<LastWill>") if X == "LastWill" else ("p_login", "Option<Login>")
        if n == "read" and T == ["u8", "&mutBytes"]:
            f, b = P
            return Contract("read", [], [("value", f"match {pn}({f}, old({b})@) {{ None => r is Err, Some((o, rest)) => r is Ok && ov(r->Ok_0) == o && final({b})@ == rest }}")], RD)
        if n == "len" and P == ["self"]: return Contract("len", [f"lb_{X}(self@) <= usize::MAX"], [("size", f"r == lb_{X}(self@)")], LN)
        if n == "write" and len(T) == 2:
            b = P[1]
            return Contract("write", [f"lb_{X}(self@) <= usize::MAX"], [("accept", f"r is Ok <==> rep_{X}(self@)"), ("value", f"r is Ok ==> final({b})@ == w_body_{X}(old({b})@, self@)"), ("flags", f"r matches Ok(f) ==> f == fl_{X}(self@)"), ("keep", f"r is Err ==> pre(old({b})@, final({b})@)")], WR)
        return None
    # ------------------------------------------------------------ packets
    if X == "Connect":
        v = lambda w, l: f"self@, ov(*{w}), ov(*{l})"
        if n == "read" and len(T) == 2:
            f, b = P
            return Contract("read", [f"fh_ok({f}, {b}@)"], [("value", f"match d_Connect({f}.byte1, fh_body({f}, {b}@)) {{ None => r is Err, Some((c, w, l)) => r is Ok && r->Ok_0.0@ == c && ov(r->Ok_0.1) == w && ov(r->Ok_0.2) == l }}")], RD)
        if n == "len" and len(T) == 3: return Contract("len", [f"lb_Connect({v(P[1], P[2])}) <= usize::MAX"], [("size", f"r == lb_Connect({v(P[1], P[2])})")], LN)
        if n == "write" and len(T) == 4:
            a, b = v(P[1], P[2]), P[3]
            return Contract("write", [f"lf_Connect({a}) <= usize::MAX"], [("accept", f"r is Ok <==> rep_Connect({a})"), ("value", f"r is Ok ==> final({b})@ == old({b})@ + e_Connect({a})"), ("size", f"r matches Ok(n) ==> n == lf_Connect({a})"), ("keep", f"r is Err ==> pre(old({b})@, final({b})@)")], WR)
        return None
    if X in PK:
        if n == "read" and len(T) == 2:
            f, b = P
            return Contract("read", [f"fh_ok({f}, {b}@)"], [("value", f"dec(r, d_{X}({f}.byte1, fh_body({f}, {b}@)))")], RD)
        need = "(self.qos == QoS::AtMostOnce || self.pkid != 0) ==> " if X == "Publish" else ""
        def szs(k): return [("size", f"{need}r == {k}_{X}(self@)")] + ([("size", f"r <= {k}_{X}(self@)")] if need else [])
        if n == "len" and P == ["self"]: return Contract("len", [f"lb_{X}(self@) <= usize::MAX"], szs("lb"), LN)
        if n == "size" and P == ["self"]: return Contract("size", [f"lf_{X}(self@) <= usize::MAX"], szs("lf"), LN)
        if n == "write" and len(T) == 2:
            b = P[1]
            return Contract("write", [f"lf_{X}(self@) <= usize::MAX"], [("accept", f"r is Ok <==> rep_{X}(self@)"), ("value", f"r is Ok ==> final({b})@ == old({b})@ + e_{X}(self@)"), ("size", f"r matches Ok(n) ==> n == lf_{X}(self@)"), ("keep", f"r is Err ==> pre(old({b})@, final({b})@)")], WR)
        return None
    if X == "Packet":
        if n == "read" and len(T) == 2:
            s, m = P
            F = f"frame(old({s})@, {m})"
            return Contract("top_read", [], [
                ("short", f"{F} matches Fr::Short(k) ==> r is Err && (r->Err_0 matches Error::InsufficientBytes(j) && 1 <= j <= k) && final({s})@ == old({s})@"),
                ("limit", f"{F} matches Fr::TooBig(n, x) ==> r is Err && (r->Err_0 matches Error::PayloadSizeLimitExceeded {{ pkt_size, max }} && pkt_size == n && max == x) && final({s})@ == old({s})@"),
                ("bad", f"{F} is BadLen ==> r is Err && !is_insuf(r->Err_0) && !is_limit(r->Err_0) && final({s})@ == old({s})@"),
                ("consume", f"{F} matches Fr::Frame(w, n) ==> final({s})@ == old({s})@.skip(1 + w + n)"),
                ("complete", f"{F} matches Fr::Frame(w, n) ==> (r is Err ==> !is_insuf(r->Err_0) && !is_limit(r->Err_0))"),
                ("value", f"{F} matches Fr::Frame(w, n) ==> dec(r, d_packet(old({s})@[0], old({s})@.skip(1 + w).take(n)))"),
                ("err", f"{F} matches Fr::Frame(w, n) ==> (r matches Err(e) ==> e == norm_err(frame_err(FixedHeader {{ byte1: old({s})@[0], fixed_header_len: (1 + w) as usize, remaining_len: n as usize }}, old({s})@.take(1 + w + n))))"),
                ], RD, f"c11_vi_minimal({s}@.skip(1)); assert forall|w: int, n: int| 0 <= w && 0 <= n && 1 + w + n <= {s}@.len() implies (#[trigger] {s}@.take(1 + w + n)).skip(1 + w) == {s}@.skip(1 + w).take(n) by {{ assert({s}@.take(1 + w + n).skip(1 + w) =~= {s}@.skip(1 + w).take(n)); }}")
        if n == "write" and len(T) == 2:
            b = P[1]
            return Contract("top_write", ["lf_packet(self@) <= usize::MAX"], [("accept", "r is Ok <==> rep_packet(self@)"), ("value", f"r is Ok ==> final({b})@ == old({b})@ + e_packet(self@)"), ("size", "r matches Ok(n) ==> n == lf_packet(self@)"), ("keep", f"r is Err ==> final({b})@ == old({b})@")], WR)
        # the two halves of Packet::read / Packet::write
        if n == "read_frame" and len(T) == 2 and T[0] == "FixedHeader":
            f, b = P
            return Contract("dispatch", [f"fh_ok({f}, {b}@)"], [("value", f"dec(r, d_packet({f}.byte1, fh_body({f}, {b}@)))"), ("limit", "r is Err ==> !is_limit(r->Err_0)")], RD)
        if n == "write_frame" and len(T) == 2:
            b = P[1]
            return Contract("wdispatch", ["lf_packet(self@) <= usize::MAX"], [("accept", "r is Ok <==> rep_packet(self@)"), ("value", f"r is Ok ==> final({b})@ == old({b})@ + e_packet(self@)"), ("size", "r matches Ok(n) ==> n == lf_packet(self@)"), ("keep", f"r is Err ==> pre(old({b})@, final({b})@)")], WR)
        return None
    return None

NEW = {  # constructor -> (parameter types, what its result holds)
 ("Publish", "new"): (["MqttString", "QoS", "Bytes", "Option<PublishProperties>"], "r.topic@ == {0}@ && r.qos == {1} && r.payload@ == {2}@ && ov(r.properties) == ov({3}) && !r.dup && !r.retain && r.pkid == 0"),
 ("Filter", "new"): (["MqttString", "QoS"], "r@.path == {0}@ && r.qos == {1} && !r.nolocal && !r.preserve_retain && r.retain_forward_rule == RetainForwardRule::OnEverySubscribe"),
 ("Subscribe", "new"): (["Filter", "Option<SubscribeProperties>"], "r.pkid == 0 && filtersv(r.filters@) =~= seq![{0}@] && ov(r.properties) == ov({1})"),
 ("Subscribe", "new_many"): (["Vec<Filter>", "Option<SubscribeProperties>"], "r.pkid == 0 && filtersv(r.filters@) =~= filtersv({0}@) && ov(r.properties) == ov({1})"),
 ("Unsubscribe", "new"): (["MqttString", "Option<UnsubscribeProperties>"], "r.pkid == 0 && strsv(r.filters@) =~= seq![{0}@] && ov(r.properties) == ov({1})"),
 ("Login", "new"): (["MqttString", "MqttString"], "r.username@ == {0}@ && r.password@ == {1}@"),
 ("Disconnect", "new"): (["DisconnectReasonCode"], "r.reason_code == {0} && r.properties is None"),
 ("Publish", "default"): ([], "r.topic@.len() == 0 && r.qos == QoS::AtMostOnce && r.payload@.len() == 0 && r.properties is None && !r.dup && !r.retain && r.pkid == 0"),
 ("Filter", "default"): ([], "r.path@.len() == 0 && r.qos == QoS::AtMostOnce && !r.nolocal && !r.preserve_retain && r.retain_forward_rule == RetainForwardRule::OnEverySubscribe"),
 ("Subscribe", "default"): ([], "r.pkid == 0 && r.filters@.len() == 0 && r.properties is None"),
 ("Unsubscribe", "default"): ([], "r.pkid == 0 && r.filters@.len() == 0 && r.properties is None"),
 ("QoS", "default"): ([], "r == QoS::AtMostOnce"),
 ("RetainForwardRule", "default"): ([], "r == RetainForwardRule::OnEverySubscribe"),
}
for _k in ACKS: NEW[_k, "new"] = (["u16", f"Option<{_k}Properties>"], f"r.pkid == {{0}} && r.reason == {_k}Reason::Success && ov(r.properties) == ov({{1}})")
def _ctor(fn, X, n):
    """constructors: the given values and the neutral value everywhere else"""
    if fn.trait and not fn.is_default: return None
    if (X, n) not in NEW or fn.generic and not fn.mono: return None
    T, text = NEW[X, n]
    if [norm((fn.mono or {}).get(p, (t,))[0]) for p, t in fn.params] != T or norm(fn.ret) not in ("Self", X): return None
    return Contract("ctor", [], [("value", text.format(*[p for p, _ in fn.params]))], RD)

def _dec_table(E, p):
    return Contract("table", [], [("table", f"match dc_{E}({p}) {{ Some(v) => r is Ok && r->Ok_0 == v, None => r is Err }}")])
