"""Lemmas over the specification (each property's statement that composes several
contracts) and small verified client programs that call the contracts the way a user
calls the library."""
from schema import *
import specgen

REASON = {"PubAck": "PubAckReason", "PubRec": "PubRecReason", "PubRel": "PubRelReason", "PubComp": "PubCompReason"}
U8 = lambda x: (f"seq![{x}]", lambda r: f"inv_u8({x}, {r});")
U16 = lambda x: (f"be16({x})", lambda r: f"inv_u16({x}, {r});")
STR = lambda x: (f"e_bin({x})", lambda r: f"inv_str({x}, {r});")
BIN = lambda x: (f"e_bin({x})", lambda r: f"inv_bin({x}, {r});")
SEC = lambda X, o: (f"sec_{X}({o})", lambda r: f"rtsec_{X}({o}, {r});")
RAW = lambda x, t="": (x, lambda r: t)

def chain(parts, body, tail=True):
    """b == x1 + (x2 + (.. + tail)), and the inverse of each part's encoder applied to it"""
    m = len(parts)
    L = []
    for j, (x, _) in enumerate(parts, 1):
        L.append(f"let x{j} = {x}; let s{j} = " + (f"s{j-1} + x{j};" if j > 1 else f"x{j};"))
    if tail: L.append(f"let r{m+1} = Seq::<u8>::empty(); app_empty(x{m}); let r{m} = x{m} + r{m+1};")
    else: L.append(f"let r{m} = x{m};")
    for j in range(m - 1, 0, -1): L.append(f"let r{j} = x{j} + r{j+1};")
    for j in range(m - 1, 1, -1): L.append(f"app_assoc(s{j-1}, x{j}, r{j+1});")
    L.append(f"assert({body} == s{m}); assert({body} == r1);")
    for j, (x, f) in enumerate(parts, 1):
        if j < m or tail: L.append(f(f"r{j+1}"))
        else: L.append(f(None) or "")
    return "\n  ".join(L)

SIMPLE = {
 "ConnAck": (32, [U8("b2i(v.session_present) as u8"), U8("c_ConnectReturnCode(v.code)"), SEC("ConnAckProperties", "v.properties")], True, "c12_ConnectReturnCode(v.code, 0);"),
 "Publish": ("h_Publish(v)", None, False, ""),
 "Subscribe": (130, [U16("v.pkid"), SEC("SubscribeProperties", "v.properties"), RAW("i_filters(v.filters)", "rt_filters(v.filters, Seq::empty()); lw_filters(Seq::empty(), v.filters); l_filters_pos(v.filters); assert(Seq::<FilterV>::empty() + v.filters =~= v.filters);")], False, ""),
 "Unsubscribe": (162, [U16("v.pkid"), SEC("UnsubscribeProperties", "v.properties"), RAW("i_strs(v.filters)", "rt_strs(v.filters, Seq::empty()); assert(Seq::<Seq<u8>>::empty() + v.filters =~= v.filters);")], False, ""),
 "SubAck": (144, [U16("v.pkid"), SEC("SubAckProperties", "v.properties"), RAW("i_codes_SubscribeReasonCode(v.return_codes)", "rt_codes_SubscribeReasonCode(v.return_codes, Seq::empty()); assert(Seq::<SubscribeReasonCode>::empty() + v.return_codes =~= v.return_codes);")], False, ""),
 "UnsubAck": (176, [U16("v.pkid"), SEC("UnsubAckProperties", "v.properties"), RAW("i_codes_UnsubAckReason(v.reasons)", "rt_codes_UnsubAckReason(v.reasons, Seq::empty()); assert(Seq::<UnsubAckReason>::empty() + v.reasons =~= v.reasons);")], False, ""),
}
FULL = {"Subscribe", "SubAck", "UnsubAck"}
HB = {"ConnAck": 32, "Subscribe": 130, "SubAck": 144, "Unsubscribe": 162, "UnsubAck": 176, **ACK_BYTE, "Disconnect": 224}

def gen_c01():
    o = ["pub proof fn inv_u8(x: u8, rest: Seq<u8>) ensures p_u8(seq![x] + rest) == Some((x, rest)) { assert((seq![x] + rest).skip(1) =~= rest); }"]
    o.append('''pub proof fn rt_filters(s: Seq<FilterV>, acc: Seq<FilterV>) requires ok_filters(s), wf_filters(s) ensures p_filters(i_filters(s), acc) == Some(acc + s) decreases s.len()
{ let b = i_filters(s); unfold_filters(b, acc);
  if s.len() == 0 { assert(acc + s =~= acc); } else {
    i_filters_front(s); let f = s[0]; let t = s.skip(1); let r = i_filters(t); let r1 = seq![opts(f) as u8] + r; app_assoc(e_bin(f.path), seq![opts(f) as u8], r); lw_filter(Seq::empty(), f);
    inv_str(f.path, r1); inv_u8(opts(f) as u8, r); c12_QoS(f.qos, 0); c12_RetainForwardRule(f.retain_forward_rule, 0);
    assert(p_filter(b) == Some((f, r)));
    assert forall|i: int| 0 <= i < t.len() implies ok_bin((#[trigger] t[i]).path) && text_ok(t[i].path) by { assert(t[i] == s[i + 1]); }
    rt_filters(t, acc.push(f)); assert(acc.push(f) + t =~= acc + s); } }
pub proof fn rt_strs(s: Seq<Seq<u8>>, acc: Seq<Seq<u8>>) requires ok_strs(s), wf_strs(s) ensures p_strs(i_strs(s), acc) == Some(acc + s) decreases s.len()
{ let b = i_strs(s); unfold_strs(b, acc);
  if s.len() == 0 { assert(acc + s =~= acc); } else {
    i_strs_front(s); let f = s[0]; let t = s.skip(1); let r = i_strs(t); inv_str(f, r);
    assert forall|i: int| 0 <= i < t.len() implies ok_bin(#[trigger] t[i]) && text_ok(t[i]) by { assert(t[i] == s[i + 1]); }
    rt_strs(t, acc.push(f)); assert(acc.push(f) + t =~= acc + s); } }''')
    for K, (h, parts, tail, extra) in SIMPLE.items():
        if K == "Publish": continue
        full = f", full_{K}(v)" if K in FULL else ""
        o.append(f'''/// C01: decoding the body of an encoded {K} gives the value back
pub proof fn c01_{K}(v: {K}V) requires rep_{K}(v), wf_{K}(v){full} ensures d_{K}({h}, body_{K}(v)) == Some(nf_{K}(v))
{{ {chain(parts, f"body_{K}(v)", tail)}
  {extra} }}''')
    o.append("""/// C01: the flag bits of an encoded Publish
pub proof fn c01_flags_Publish(v: PublishV) ensures ({ let h = h_Publish(v) as u8; (h / 2) % 4 == c_QoS(v.qos) && ((h / 8) % 2 == 1 <==> v.dup) && (h % 2 == 1 <==> v.retain) && 0 <= c_QoS(v.qos) <= 2 })
{ let h = h_Publish(v); assert(48 <= h <= 61); let q = c_QoS(v.qos) as int; let d = b2i(v.dup); let r = b2i(v.retain); assert(h as u8 as int == h); assert((48 + r + 2 * q + 8 * d) / 2 == 24 + q + 4 * d); }""")
    o.append(f'''/// C01: decoding the body of an encoded Publish gives the value back
pub proof fn c01_Publish(v: PublishV) requires rep_Publish(v), wf_Publish(v) ensures d_Publish(h_Publish(v) as u8, body_Publish(v)) == Some(nf_Publish(v))
{{ hide(h_Publish); c01_flags_Publish(v); let h = h_Publish(v) as u8; assert(((h / 2) % 4) as u8 == c_QoS(v.qos)); let x1 = e_bin(v.topic); let x2 = o_pkid(v); let x3 = sec_PublishProperties(v.properties); let x4 = v.payload; let r3 = x3 + x4; let r2 = x2 + r3; let r1 = x1 + r2;
  app_assoc(x1 + x2, x3, x4); app_assoc(x1, x2, r3); assert(body_Publish(v) == r1); inv_str(v.topic, r2); c12_QoS(v.qos, 0);
  if v.qos == QoS::AtMostOnce {{ assert(r2 =~= r3); }} else {{ inv_u16(v.pkid, r3); }} rtsec_PublishProperties(v.properties, x4); }}''')
    for K in ACKS:
        R = REASON[K]
        o.append(f'''/// C01: decoding the body of an encoded {K} gives the value back
pub proof fn c01_{K}(v: {K}V) requires rep_{K}(v), wf_{K}(v) ensures d_{K}({HB[K]}, body_{K}(v)) == Some(nf_{K}(v))
{{ c12_{R}(v.reason, 0);
  if v.reason == {R}::Success && v.properties is None {{ app_empty(be16(v.pkid)); inv_u16(v.pkid, Seq::empty()); }} else {{
  {chain([U16("v.pkid"), U8(f"c_{R}(v.reason)"), SEC(K + "Properties", "v.properties")], f"body_{K}(v)")}
  lw_long_{K}(Seq::empty(), v); lw_sec_{K}Properties(Seq::empty(), v.properties); }} }}''')
    o.append('''/// C01: decoding the body of an encoded Disconnect gives the value back
pub proof fn c01_Disconnect(v: DisconnectV) requires rep_Disconnect(v), wf_Disconnect(v) ensures d_Disconnect(224, body_Disconnect(v)) == Some(nf_Disconnect(v))
{ c12_DisconnectReasonCode(v.reason_code, 0); let b = body_Disconnect(v); 
  if !(v.reason_code == DisconnectReasonCode::NormalDisconnection && v.properties is None) {
    let s = o_sec_Disconnect(v.properties); lw_sec_DisconnectProperties(Seq::empty(), v.properties); assert(b[0] == c_DisconnectReasonCode(v.reason_code)); assert(b.skip(1) =~= s); app_empty(s); rtsec_DisconnectProperties(v.properties, Seq::empty()); } }''')
    o.append(f'''/// C16: the flags byte says exactly what follows
pub proof fn c16_flags(c: ConnectV, w: Option<LastWillV>, l: Option<LoginV>)
  ensures ({{ let f = cflags(c, w, l); 0 <= f <= 255 && f % 2 == 0 && ((f / 2) % 2 == 1 <==> c.clean_start) && ((f / 4) % 2 == 1 <==> w is Some) && (w is None ==> (f / 8) % 8 == 0)
    && (w matches Some(x) ==> (f / 8) % 4 == c_QoS(x.qos) && ((f / 32) % 2 == 1 <==> x.retain))
    && ((f / 64) % 2 == 1 <==> (l matches Some(x) && x.password.len() > 0)) && ((f / 128) % 2 == 1 <==> (l matches Some(x) && x.username.len() > 0)) }})
{{ }}
pub proof fn rt_will(f: u8, w: Option<LastWillV>, r: Seq<u8>) requires w matches Some(x) ==> rep_LastWill(x) && wf_LastWill(x), (f / 4) % 2 == 1 <==> w is Some, w is None ==> (f / 8) % 8 == 0, w matches Some(x) ==> (f / 8) % 4 == c_QoS(x.qos) && ((f / 32) % 2 == 1 <==> x.retain)
  ensures p_will(f, o_will(w) + r) == Some((nf_will(w), r))
{{ match w {{ None => {{ assert(o_will(w) + r =~= r); }}, Some(v) => {{ let x1 = sec_LastWillProperties(v.properties); let x2 = e_bin(v.topic); let x3 = e_bin(v.message); let r3 = x3 + r; let r2 = x2 + r3;
  app_assoc(x1 + x2, x3, r); app_assoc(x1, x2, r3); assert(o_will(w) + r == x1 + r2); rtsec_LastWillProperties(v.properties, r2); inv_bin(v.topic, r3); inv_bin(v.message, r); c12_QoS(v.qos, 0); }} }} }}
pub proof fn rt_opt(set: bool, s: Seq<u8>, r: Seq<u8>) requires ok_bin(s), text_ok(s), set <==> s.len() > 0 ensures p_opt(set, o_bin(s) + r) == Some((s, r)) {{ if s.len() == 0 {{ assert(o_bin(s) + r =~= r); assert(s =~= Seq::empty()); }} else {{ inv_str(s, r); }} }}
pub proof fn rt_login(f: u8, l: Option<LoginV>, r: Seq<u8>) requires l matches Some(x) ==> rep_Login(x) && wf_Login(x), (f / 64) % 2 == 1 <==> (l matches Some(x) && x.password.len() > 0), (f / 128) % 2 == 1 <==> (l matches Some(x) && x.username.len() > 0)
  ensures p_login(f, o_login(l) + r) == Some((nf_login(l), r))
{{ match l {{ None => {{ assert(o_login(l) + r =~= r); }}, Some(v) => {{ let x1 = o_bin(v.username); let x2 = o_bin(v.password); app_assoc(x1, x2, r); rt_opt((f / 128) % 2 == 1, v.username, x2 + r); rt_opt((f / 64) % 2 == 1, v.password, r); }} }} }}
pub proof fn mqtt_text() ensures text_ok(s_mqtt()) {{ reveal(text_ok); let s = s_mqtt(); assert(s.skip(1).skip(1).skip(1).skip(1).len() == 0); reveal_with_fuel(vstd::utf8::valid_utf8, 8); }}
/// C01, C16: decoding the body of an encoded Connect gives the values back
pub proof fn c01_Connect(c: ConnectV, w: Option<LastWillV>, l: Option<LoginV>) requires rep_Connect(c, w, l), wf_Connect(c, w, l) ensures d_Connect(16, body_Connect(c, w, l)) == Some((nf_Connect(c), nf_will(w), nf_login(l)))
{{ mqtt_text(); c16_flags(c, w, l); let f = cflags(c, w, l) as u8;
  {chain([STR("s_mqtt()"), U8("5u8"), U8("cflags(c, w, l) as u8"), U16("c.keep_alive"), SEC("ConnectProperties", "c.properties"), STR("c.client_id"), ("o_will(w)", lambda r: f"rt_will(f, w, {r});"), ("o_login(l)", lambda r: f"rt_login(f, l, {r});")], "body_Connect(c, w, l)")} }}''')
    return "verus! {\n" + "\n".join(o) + "\n}\n"

ALL = ["ConnAck", "Publish", "PubAck", "PubRec", "PubRel", "PubComp", "Subscribe", "SubAck", "Unsubscribe", "UnsubAck", "Disconnect"]

BODY17 = {
 "ConnAck": "match p_u8(b) { None => {}, Some((f, b1)) => match p_u8(b1) { None => {}, Some((c, b2)) => { resec_ConnAckProperties(b2); c12_ConnectReturnCode(ConnectReturnCode::Success, c); } } }",
 "Publish": "match p_str(b) { None => {}, Some((t, b1)) => match dc_QoS(((h / 2) % 4) as u8) { None => {}, Some(q) => match p_pkid(q, b1) { None => {}, Some((k, b2)) => { resec_PublishProperties(b2); } } } }",
 "Subscribe": "match p_u16(b) { None => {}, Some((k, b1)) => { resec_SubscribeProperties(b1); match p_sec_SubscribeProperties(b1) { None => {}, Some((p, b2)) => { re_filters(b2, Seq::empty()); p_filters_len(b2, Seq::empty()); } } } }",
 "Unsubscribe": "match p_u16(b) { None => {}, Some((k, b1)) => { resec_UnsubscribeProperties(b1); match p_sec_UnsubscribeProperties(b1) { None => {}, Some((p, b2)) => { re_strs(b2, Seq::empty()); } } } }",
 "SubAck": "match p_u16(b) { None => {}, Some((k, b1)) => { resec_SubAckProperties(b1); match p_sec_SubAckProperties(b1) { None => {}, Some((p, b2)) => { re_codes_SubscribeReasonCode(b2, Seq::empty()); } } } }",
 "UnsubAck": "match p_u16(b) { None => {}, Some((k, b1)) => { resec_UnsubAckProperties(b1); match p_sec_UnsubAckProperties(b1) { None => {}, Some((p, b2)) => { re_codes_UnsubAckReason(b2, Seq::empty()); } } } }",
 "Disconnect": "if b.len() >= 2 { resec_DisconnectProperties(b.skip(1)); }",
}
for K in ACKS: BODY17[K] = f"match p_u16(b) {{ None => {{}}, Some((k, b1)) => match p_u8(b1) {{ None => {{}}, Some((c, b2)) => {{ resec_{K}Properties(b2); }} }} }}"

def gen_c17():
    o = []
    L = "ensures match d_%s(h, b) { None => true, Some(v) => rep_%s(v) && wf_%s(v) && nf_%s(v) == v && lb_%s(v) <= b.len() + 1 }"
    o.append('''pub proof fn re_filters(b: Seq<u8>, acc: Seq<FilterV>) requires ok_filters(acc), wf_filters(acc)
  ensures match p_filters(b, acc) { None => true, Some(s) => ok_filters(s) && wf_filters(s) && l_filters(s) == l_filters(acc) + b.len() } decreases b.len()
{ unfold_filters(b, acc); broadcast use {p_str_len};
  if b.len() > 0 { match p_filter(b) { None => {}, Some((f, r)) => { let a2 = acc.push(f); assert(a2.drop_last() =~= acc); reveal(p_str); broadcast use p_bin_len;
    assert(l_filters(a2) == l_filters(acc) + l_filter(f)); re_filters(r, a2); } } } }
pub proof fn re_strs(b: Seq<u8>, acc: Seq<Seq<u8>>) requires ok_strs(acc), wf_strs(acc)
  ensures match p_strs(b, acc) { None => true, Some(s) => ok_strs(s) && wf_strs(s) && l_strs(s) == l_strs(acc) + b.len() } decreases b.len()
{ unfold_strs(b, acc); broadcast use {p_str_len};
  if b.len() > 0 { match p_str(b) { None => {}, Some((f, r)) => { let a2 = acc.push(f); assert(a2.drop_last() =~= acc); assert(l_strs(a2) == l_strs(acc) + l_str1(f)); re_strs(r, a2); } } } }''')
    for K in ALL:
        full = f" && full_{K}(v)" if K in FULL else ""
        o.append(f'''/// C17: what the reader accepts as {K} can be written, and is its own normal form
pub proof fn c17_{K}(h: u8, b: Seq<u8>) requires b.len() <= MAXVI() ensures match d_{K}(h, b) {{ None => true, Some(v) => rep_{K}(v) && wf_{K}(v) && nf_{K}(v) == v{full} }}
{{ broadcast use {{p_bin_len, p_str_len}}; {BODY17[K]} }}''')
    o.append('''pub proof fn re_will(f: u8, b: Seq<u8>) ensures match p_will(f, b) { None => true, Some((w, r)) => nf_will(w) == w && (w matches Some(x) ==> rep_LastWill(x) && wf_LastWill(x)) && l_o_will(w) <= b.len() - r.len() }
{ broadcast use {p_bin_len, p_str_len}; resec_LastWillProperties(b); }
pub proof fn re_login(f: u8, b: Seq<u8>) ensures match p_login(f, b) { None => true, Some((l, r)) => nf_login(l) == l && (l matches Some(x) ==> rep_Login(x) && wf_Login(x)) && l_o_login(l) <= b.len() - r.len() }
{ broadcast use {p_bin_len, p_str_len}; text_ok_empty(); }
/// C17: what the reader accepts as Connect can be written, and is its own normal form
pub proof fn c17_Connect(h: u8, b: Seq<u8>) requires b.len() <= MAXVI() ensures match d_Connect(h, b) { None => true, Some((c, w, l)) => rep_Connect(c, w, l) && wf_Connect(c, w, l) && nf_Connect(c) == c && nf_will(w) == w && nf_login(l) == l }
{ broadcast use {p_bin_len, p_str_len};
  match p_str(b) { None => {}, Some((name, b1)) => match p_u8(b1) { None => {}, Some((level, b2)) => match p_u8(b2) { None => {}, Some((f, b3)) => match p_u16(b3) { None => {}, Some((k, b4)) => { resec_ConnectProperties(b4); match p_sec_ConnectProperties(b4) { None => {}, Some((p, b5)) =>
   match p_str(b5) { None => {}, Some((id, b6)) => { re_will(f, b6); match p_will(f, b6) { None => {}, Some((w, b7)) => { re_login(f, b7); } } } } } } } } } } }''')
    return "verus! {\n" + "\n".join(o) + "\n}\n"

def gen_c21():
    """what a decoded packet holds on to, in bytes: contents plus an allowance per list element
    for the element itself (at most 64 bytes, the largest being a pair of strings)"""
    o = ["""pub open spec fn hb(o: Option<Seq<u8>>) -> int { match o { None => 0, Some(v) => v.len() as int } }
pub proof fn hb_le(o: Option<Seq<u8>>) ensures 0 <= hb(o) <= l_bin(o) { reveal(l_bin); }"""]
    E = {"up": "64 + s.last().0.len() + s.last().1.len()", "ids": "8", "strs": "32 + s.last().len()", "filters": "48 + s.last().path.len()"}
    for k, (T, e1, l1, w1) in specgen.LISTS.items():
        o.append(f"pub open spec fn held_{k}(s: Seq<{T}>) -> int decreases s.len() {{ if s.len() == 0 {{ 0 }} else {{ held_{k}(s.drop_last()) + {E[k]} }} }}\n"
                 f"pub proof fn held_{k}_le(s: Seq<{T}>) ensures 0 <= held_{k}(s) <= 16 * l_{k}(s) decreases s.len() {{ if s.len() > 0 {{ held_{k}_le(s.drop_last()); }} }}")
    for X, (mod, F) in PROPS.items():
        t, h = [], []
        for n, i, k in F:
            if k in ("str", "bin"): t.append(f"hb(v.{n})"); h.append(f"hb_le(v.{n});")
            elif k in ("up", "ids"): t.append(f"held_{k}(v.{n})"); h.append(f"held_{k}_le(v.{n});")
        e = " + ".join(t) or "0"
        o.append(f"""pub open spec fn held_{X}(o: Option<{X}V>) -> int {{ match o {{ None => 0, Some(v) => {e} }} }}
pub proof fn held_{X}_le(o: Option<{X}V>) ensures 0 <= held_{X}(o) <= 16 * lsec_{X}(o) {{ match o {{ None => {{}}, Some(v) => {{ reveal(l_{X}); pos_{X}(v); {" ".join(h)} }} }} }}""")
    V = {"ConnAck": ([], ""), "Publish": (["v.topic.len()", "v.payload.len()"], ""), "Subscribe": (["held_filters(v.filters)"], "held_filters_le(v.filters);"), "Unsubscribe": (["held_strs(v.filters)"], "held_strs_le(v.filters);"),
         "SubAck": (["2 * v.return_codes.len()"], ""), "UnsubAck": (["2 * v.reasons.len()"], ""), "Disconnect": ([], "")}
    for K in ACKS: V[K] = ([], "")
    for K in ALL:
        t, h = V[K]
        o.append(f"""pub open spec fn held_{K}(v: {K}V) -> int {{ {" + ".join([f"held_{K}Properties(v.properties)"] + t)} }}
/// C21: what a decoded {K} holds is at most 16 bytes per byte of its body
pub proof fn c21_{K}(h: u8, b: Seq<u8>) requires b.len() <= MAXVI() ensures match d_{K}(h, b) {{ None => true, Some(v) => 0 <= held_{K}(v) <= 16 * (b.len() + 1) }}
{{ broadcast use {{p_bin_len, p_str_len}}; c17_{K}(h, b); match d_{K}(h, b) {{ None => {{}}, Some(v) => {{ held_{K}Properties_le(v.properties); {h} }} }} {BODY17[K]} }}""")
    o.append("""pub open spec fn held_will(o: Option<LastWillV>) -> int { match o { None => 0, Some(v) => held_LastWillProperties(v.properties) + v.topic.len() as int + v.message.len() as int } }
pub open spec fn held_login(o: Option<LoginV>) -> int { match o { None => 0, Some(v) => v.username.len() as int + v.password.len() as int } }
pub proof fn held_will_le(o: Option<LastWillV>) ensures 0 <= held_will(o) <= 16 * l_o_will(o) { match o { None => {}, Some(v) => { held_LastWillProperties_le(v.properties); } } }
pub open spec fn held_Connect(c: ConnectV, w: Option<LastWillV>, l: Option<LoginV>) -> int { c.client_id.len() + held_ConnectProperties(c.properties) + held_will(w) + held_login(l) }
/// C21: what a decoded Connect holds is at most 16 bytes per byte of its body
pub proof fn c21_Connect(h: u8, b: Seq<u8>) requires b.len() <= MAXVI() ensures match d_Connect(h, b) { None => true, Some((c, w, l)) => 0 <= held_Connect(c, w, l) <= 16 * (b.len() + 1) }
{ broadcast use {p_bin_len, p_str_len};
  match d_Connect(h, b) { None => {}, Some((c, w, l)) => { held_ConnectProperties_le(c.properties); held_will_le(w); } }
  match p_str(b) { None => {}, Some((name, b1)) => match p_u8(b1) { None => {}, Some((level, b2)) => match p_u8(b2) { None => {}, Some((f, b3)) => match p_u16(b3) { None => {}, Some((k, b4)) => { resec_ConnectProperties(b4); match p_sec_ConnectProperties(b4) { None => {}, Some((p, b5)) =>
   match p_str(b5) { None => {}, Some((id, b6)) => { re_will(f, b6); match p_will(f, b6) { None => {}, Some((w, b7)) => { re_login(f, b7); } } } } } } } } } } }""")
    o.append(f"""pub open spec fn held_packet(p: PacketV) -> int {{ match p {{ {" ".join(f"PacketV::{K}(v) => held_{K}(v)," for K in ALL)} PacketV::Connect(c, w, l) => held_Connect(c, w, l), PacketV::PingReq => 0, PacketV::PingResp => 0 }} }}
/// C21: what an accepted packet holds is linear in its body
pub proof fn c21_packet(h: u8, b: Seq<u8>) requires b.len() <= MAXVI()
  ensures match d_packet(h, b) {{ None => true, Some(p) => 0 <= held_packet(p) <= 16 * (b.len() + 1) }}
{{ let t = h / 16; if b.len() > 0 || t == 14 {{ {" ".join(f"if t == {i} {{ c21_{K}(h, b); }}" for i, K in enumerate(PACKET_TYPES, 1) if not K.startswith("Ping"))} }} }}""")
    return "verus! {\n" + "\n".join(o) + "\n}\n"

def m_packet(pre, args, post=""):
    """match over packet values calling a lemma per type"""
    return " ".join(f"PacketV::{K}(v) => {{ {pre.replace('$K', K).replace('$A', 'v')} }}" for K in ALL)

def gen_top():
    o = []
    lw = " ".join(f"PacketV::{K}(v) => {{ lw_{K}(Seq::empty(), v); }}" for K in ALL) + " PacketV::Connect(c, w, l) => { lw_Connect(Seq::empty(), c, w, l); } PacketV::PingReq => {} PacketV::PingResp => {}"
    o.append(f'''/// first byte and body of an encoded packet
pub open spec fn hb(p: PacketV) -> u8 {{ match p {{ {" ".join(f"PacketV::{K}(v) => {HB[K]}u8," for K in ALL if K != "Publish")} PacketV::Publish(v) => h_Publish(v) as u8, PacketV::Connect(c, w, l) => 16u8, PacketV::PingReq => 192u8, PacketV::PingResp => 208u8 }} }}
pub open spec fn bd(p: PacketV) -> Seq<u8> {{ match p {{ {" ".join(f"PacketV::{K}(v) => body_{K}(v)," for K in ALL)} PacketV::Connect(c, w, l) => body_Connect(c, w, l), PacketV::PingReq => Seq::empty(), PacketV::PingResp => Seq::empty() }} }}
/// C02, C04: a packet's image is its first byte, the minimal remaining length of what follows, and the body
pub proof fn c02_packet(p: PacketV) requires rep_packet(p) ensures e_packet(p) == fr(hb(p) as int, bd(p)), e_packet(p).len() == lf_packet(p), bd(p).len() <= MAXVI(), lf_packet(p) == 1 + l_vi(bd(p).len() as int) + bd(p).len()
{{ match p {{ {lw} }}
  if p is PingReq || p is PingResp {{ e_vi_0(); assert(e_packet(p) =~= fr(hb(p) as int, bd(p))); }} }}
/// C03, C01: the body decodes to the packet
pub proof fn c01_body(p: PacketV) requires rep_packet(p), wf_packet(p), full_packet(p) ensures d_packet(hb(p), bd(p)) == Some(nf_packet(p))
{{ c02_packet(p); match p {{ {" ".join(f"PacketV::{K}(v) => {{ c01_{K}(v); lw_{K}(Seq::empty(), v); pos_{K}(v); }}" for K in ALL)} PacketV::Connect(c, w, l) => {{ c01_Connect(c, w, l); lw_Connect(Seq::empty(), c, w, l); pos_Connect(c, w, l); }} PacketV::PingReq => {{}} PacketV::PingResp => {{}} }} }}
/// a whole frame at the front of a buffer, whatever follows
pub proof fn frame_of(h: u8, body: Seq<u8>, rest: Seq<u8>, max: Option<usize>)
  requires body.len() <= MAXVI(), max matches Some(m) ==> body.len() <= m
  ensures ({{ let b = fr(h as int, body) + rest; let w = l_vi(body.len() as int); let n = body.len() as int; frame(b, max) == Fr::Frame(w, n) && b[0] == h && b.skip(1 + w).take(n) == body && b.skip(1 + w + n) == rest }})
{{ let n = body.len() as int; let b = fr(h as int, body) + rest; e_vi_len(n); c11_vi_inverse(n, body + rest); assert(b.skip(1) =~= e_vi(n) + (body + rest)); assert(b.skip(1 + l_vi(n)).take(n) =~= body); assert(b.skip(1 + l_vi(n) + n) =~= rest); assert(b[0] == h); }}
/// C01, C08, C19: reading an encoded packet at the front of any buffer gives the packet back, and leaves what follows
pub proof fn c01_packet(p: PacketV, rest: Seq<u8>, max: Option<usize>)
  requires rep_packet(p), wf_packet(p), full_packet(p), max matches Some(m) ==> bd(p).len() <= m
  ensures ({{ let b = e_packet(p) + rest; frame(b, max) matches Fr::Frame(w, n) && 1 + w + n == e_packet(p).len() && b.skip(1 + w + n) == rest && d_packet(b[0], b.skip(1 + w).take(n)) == Some(nf_packet(p)) }})
{{ c02_packet(p); c01_body(p); frame_of(hb(p), bd(p), rest, max); }}
/// C17: every accepted packet can be written, reads back equal, and is its own normal form
pub proof fn c17_packet(h: u8, b: Seq<u8>) requires b.len() <= MAXVI()
  ensures match d_packet(h, b) {{ None => true, Some(p) => rep_packet(p) && wf_packet(p) && full_packet(p) && nf_packet(p) == p }}
{{ let t = h / 16; if b.len() > 0 || t == 14 {{ {" ".join(f"if t == {i} {{ c17_{K}(h, b); }}" for i, K in enumerate(PACKET_TYPES, 1) if not K.startswith("Ping"))} }} }}
/// C08: what is read from a complete frame does not depend on what follows it
pub proof fn c08_isolated(b: Seq<u8>, c: Seq<u8>, max: Option<usize>)
  requires frame(b, max) is Frame
  ensures frame(b + c, max) == frame(b, max), frame(b, max) matches Fr::Frame(w, n) ==> 1 + w + n <= b.len() && (b + c)[0] == b[0] && (b + c).take(1 + w + n) == b.take(1 + w + n) && (b + c).skip(1 + w).take(n) == b.skip(1 + w).take(n) && (b + c).skip(1 + w + n) == b.skip(1 + w + n) + c
{{ c11_vi_prefix(b.skip(1), c); assert((b + c).skip(1) =~= b.skip(1) + c); c11_vi_minimal(b.skip(1));
  match frame(b, max) {{ Fr::Frame(w, n) => {{ assert((b + c).take(1 + w + n) =~= b.take(1 + w + n)); assert((b + c).skip(1 + w).take(n) =~= b.skip(1 + w).take(n)); assert((b + c).skip(1 + w + n) =~= b.skip(1 + w + n) + c); }} _ => {{}} }} }}
/// C09: every proper prefix of a frame is incomplete; the announced count never exceeds what is missing; only incomplete input is
pub proof fn c09_prefix(b: Seq<u8>, max: Option<usize>, k: int)
  requires frame(b, max) is Frame
  ensures frame(b, max) matches Fr::Frame(w, n) ==> (0 <= k < 1 + w + n ==> (frame(b.take(k), max) matches Fr::Short(j) && 1 <= j <= 1 + w + n - k))
{{ match frame(b, max) {{ Fr::Frame(w, n) => {{ if 0 <= k < 1 + w + n {{ c11_vi_minimal(b.skip(1)); let p = b.take(k); if k >= 2 {{ assert(p.skip(1) =~= b.skip(1).take(k - 1)); let q = p.skip(1); assert(forall|i: int| 0 <= i < q.len() ==> #[trigger] q[i] == b.skip(1)[i]); }} }} }} _ => {{}} }} }}
pub proof fn c09_missing(b: Seq<u8>, c: Seq<u8>, max: Option<usize>)
  requires frame(b, max) is Short
  ensures frame(b, max) matches Fr::Short(j) ==> j >= 1 && (c.len() < j ==> frame(b + c, max) is Short)
{{ let d = b + c; if b.len() >= 2 {{ assert(d.skip(1) =~= b.skip(1) + c); c11_vi_minimal(b.skip(1)); c11_vi_prefix(b.skip(1), c); }} }}
/// C10: the limit applies as soon as the length is there, to that length alone
pub proof fn c10_limit(b: Seq<u8>, c: Seq<u8>, max: Option<usize>)
  ensures frame(b, None) is TooBig == false, frame(b, max) is TooBig <==> (b.len() >= 2 && (vi(b.skip(1)) matches VI::Val(w, n) && (max matches Some(m) && n > m))),
    frame(b, max) is TooBig ==> frame(b + c, max) == frame(b, max), !(frame(b, max) is TooBig) ==> frame(b, max) == frame(b, None)
{{ if b.len() >= 2 {{ assert((b + c).skip(1) =~= b.skip(1) + c); c11_vi_prefix(b.skip(1), c); }} }}
/// C15: packet id and flag bits of a publish
pub proof fn c15_publish(v: PublishV, h: u8, b: Seq<u8>)
  ensures rep_Publish(v) && v.qos != QoS::AtMostOnce ==> v.pkid != 0,
    ({{ let f = h_Publish(v); f / 16 == 3 && (f % 2 == 1 <==> v.retain) && (f / 2) % 4 == c_QoS(v.qos) && ((f / 8) % 2 == 1 <==> v.dup) }}),
    d_Publish(h, b) matches Some(p) ==> (p.pkid == 0 <==> p.qos == QoS::AtMostOnce) && c_QoS(p.qos) == (h / 2) % 4 && (p.dup <==> (h / 8) % 2 == 1) && (p.retain <==> h % 2 == 1),
    (h / 2) % 4 == 3 ==> d_Publish(h, b) is None,
    forall|f: u8, c: Seq<u8>| (f / 4) % 2 == 1 && (f / 8) % 4 == 3 ==> #[trigger] p_will(f, c) is None
{{ }}
pub proof fn c15_filter(b: Seq<u8>) ensures p_filter(b) matches Some((f, r)) ==> (match p_str(b) {{ Some((p, c)) => c.len() >= 1 && c[0] % 4 == c_QoS(f.qos) && c[0] % 4 != 3 && (c[0] / 16) % 4 == c_RetainForwardRule(f.retain_forward_rule) && (f.nolocal <==> (c[0] / 4) % 2 == 1) && (f.preserve_retain <==> (c[0] / 8) % 2 == 1), None => false }})
{{ }}
/// C14: a length beyond the end is refused, text is checked, nothing is truncated
pub proof fn c14_field(b: Seq<u8>, s: Seq<u8>)
  ensures b.len() >= 2 && rd16(b) as int > b.len() - 2 ==> p_bin(b) is None && p_str(b) is None, p_str(b) matches Some((v, r)) ==> text_ok(v) && b.len() == 2 + v.len() + r.len() && b.skip(2) == v + r, p_bin(b) matches Some((v, r)) ==> b.len() == 2 + v.len() + r.len() && b.skip(2) == v + r,
    ok_bin(s) ==> rd16(e_bin(s)) == s.len() && e_bin(s).skip(2) == s, b.len() >= 2 && rd16(b) as int <= b.len() - 2 ==> p_bin(b) is Some && (p_str(b) is Some <==> text_ok(b.skip(2).take(rd16(b) as int)))
{{ reveal(p_bin); reveal(p_str); assert(e_bin(s).skip(2) =~= s); if b.len() >= 2 && rd16(b) as int <= b.len() - 2 {{ let k = rd16(b) as int; assert(b.skip(2) =~= b.skip(2).take(k) + b.skip(2).skip(k)); }} }}

// ---------------------------------------------------------------- streams (C19)
pub ghost enum Out {{ Packet(PacketV), Malformed, Stuck }}
pub open spec fn out1(b: Seq<u8>, w: int, n: int) -> Out {{ match d_packet(b[0], b.skip(1 + w).take(n)) {{ Some(p) => Out::Packet(p), None => Out::Malformed }} }}
/// results of reading until the buffer holds no further frame
pub open spec fn outs(b: Seq<u8>, max: Option<usize>) -> Seq<Out> decreases b.len() {{ match frame(b, max) {{ Fr::Short(_) => Seq::empty(), Fr::TooBig(_, _) => seq![Out::Stuck], Fr::BadLen => seq![Out::Stuck], Fr::Frame(w, n) => if 0 < 1 + w + n <= b.len() {{ seq![out1(b, w, n)] + outs(b.skip(1 + w + n), max) }} else {{ Seq::empty() }} }} }}
/// the bytes left in the buffer after that
pub open spec fn left(b: Seq<u8>, max: Option<usize>) -> Seq<u8> decreases b.len() {{ match frame(b, max) {{ Fr::Frame(w, n) => if 0 < 1 + w + n <= b.len() {{ left(b.skip(1 + w + n), max) }} else {{ b }}, _ => b }} }}
pub proof fn outs_step(b: Seq<u8>, max: Option<usize>) ensures frame(b, max) matches Fr::Frame(w, n) ==> 0 < 1 + w + n <= b.len() && outs(b, max) == seq![out1(b, w, n)] + outs(b.skip(1 + w + n), max) && left(b, max) == left(b.skip(1 + w + n), max), !(frame(b, max) is Frame) ==> left(b, max) == b && outs(b, max) == (if frame(b, max) is Short {{ Seq::empty() }} else {{ seq![Out::Stuck] }})
{{ c11_vi_minimal(b.skip(1)); }}
/// the stream is at an end: the length field is malformed or beyond the limit
pub open spec fn stuck(b: Seq<u8>, max: Option<usize>) -> bool {{ frame(b, max) is TooBig || frame(b, max) is BadLen }}
/// C19: reading what is there, then what arrives later, is reading everything at once
pub proof fn c19_chunk(b: Seq<u8>, c: Seq<u8>, max: Option<usize>)
  ensures stuck(left(b, max), max) ==> outs(b + c, max) == outs(b, max),
    !stuck(left(b, max), max) ==> outs(b + c, max) == outs(b, max) + outs(left(b, max) + c, max), left(b + c, max) == left(left(b, max) + c, max)
  decreases b.len()
{{ outs_step(b, max); outs_step(b + c, max);
  match frame(b, max) {{
    Fr::Frame(w, n) => {{ c08_isolated(b, c, max); let t = b.skip(1 + w + n); c19_chunk(t, c, max); assert(out1(b + c, w, n) == out1(b, w, n));
      assert(seq![out1(b, w, n)] + (outs(t, max) + outs(left(t, max) + c, max)) =~= (seq![out1(b, w, n)] + outs(t, max)) + outs(left(t, max) + c, max)); }}
    Fr::Short(_) => {{ assert(outs(b, max) + outs(b + c, max) =~= outs(b + c, max)); }}
    _ => {{ c10_limit(b, c, max); if frame(b, max) is BadLen {{ assert((b + c).skip(1) =~= b.skip(1) + c); c11_vi_prefix(b.skip(1), c); }} }} }} }}
pub proof fn c19_stuck(b: Seq<u8>, c: Seq<u8>, max: Option<usize>) requires stuck(left(b, max), max) ensures stuck(left(b + c, max), max)
{{ c19_chunk(b, c, max); let l = left(b, max); c10_limit(l, c, max); assert((l + c).skip(1) =~= l.skip(1) + c); c11_vi_prefix(l.skip(1), c); outs_step(l + c, max); }}
pub open spec fn e_packets(s: Seq<PacketV>) -> Seq<u8> decreases s.len() {{ if s.len() == 0 {{ Seq::empty() }} else {{ e_packets(s.drop_last()) + e_packet(s.last()) }} }}
pub open spec fn legal(p: PacketV) -> bool {{ rep_packet(p) && wf_packet(p) && full_packet(p) }}
pub open spec fn reads(s: Seq<PacketV>) -> Seq<Out> {{ s.map_values(|p: PacketV| Out::Packet(nf_packet(p))) }}
/// C19: a sequence of written packets is read back as that sequence, leaving nothing
pub proof fn c19_written(s: Seq<PacketV>)
  requires forall|i: int| 0 <= i < s.len() ==> legal(#[trigger] s[i])
  ensures outs(e_packets(s), None) == reads(s), left(e_packets(s), None) == Seq::<u8>::empty()
  decreases s.len()
{{ if s.len() == 0 {{ assert(reads(s) =~= Seq::empty()); }} else {{
    let t = s.drop_last(); let p = s.last(); c19_written(t); let e = e_packet(p); c19_chunk(e_packets(t), e, None); let z = Seq::<u8>::empty(); assert(z + e =~= e); assert(e + z =~= e); assert(!stuck(z, None));
    c01_packet(p, z, None); outs_step(e, None); outs_step(z, None); assert(outs(e, None) =~= seq![Out::Packet(nf_packet(p))]); assert(reads(s) =~= reads(t) + seq![Out::Packet(nf_packet(p))]); }} }}
/// C18: the wire image of a value and the conditions for writing it do not depend on the string representation (no occurrence of text_ok); decoding depends on it only through text_ok
pub proof fn c18_text(b: Seq<u8>) ensures p_str(b) == (match p_bin(b) {{ None => None, Some((s, r)) => if text_ok(s) {{ Some((s, r)) }} else {{ None }} }}) {{ reveal(p_str); }}
// ---------------------------------------------------------------- text invariants of real values
pub proof fn wf_upv(s: Seq<(MqttString, MqttString)>) ensures wf_ups(upv(s)) {{ reveal(text_ok); broadcast use {{upv_idx, upv_len, model_axioms}}; assert forall|i: int| 0 <= i < upv(s).len() implies text_ok((#[trigger] upv(s)[i]).0) && text_ok(upv(s)[i].1) by {{ }} }}
pub proof fn wf_strsv(s: Seq<MqttString>) ensures wf_strs(strsv(s)) {{ reveal(text_ok); broadcast use {{strsv_idx, strsv_len, model_axioms}}; assert forall|i: int| 0 <= i < strsv(s).len() implies text_ok(#[trigger] strsv(s)[i]) by {{ }} }}
pub proof fn wf_filtersv(s: Seq<Filter>) ensures wf_filters(filtersv(s)) {{ reveal(text_ok); broadcast use {{filtersv_idx, filtersv_len, model_axioms}}; assert forall|i: int| 0 <= i < filtersv(s).len() implies text_ok((#[trigger] filtersv(s)[i]).path) by {{ }} }}
''')
    for X, (mod, F) in PROPS.items():
        hints = " ".join(f"wf_upv(p.{n}@);" for n, i, k in F if k == "up")
        o.append(f"pub proof fn wfp_{X}(o: Option<{X}>) ensures owf_{X}(ov(o)) {{ reveal(text_ok); broadcast use model_axioms; match o {{ None => {{}}, Some(p) => {{ {hints} }} }} }}")
    wf = []
    for K in ALL:
        x = {"Subscribe": "wf_filtersv(x.filters@);", "Unsubscribe": "wf_strsv(x.filters@);"}.get(K, "")
        wf.append(f"Packet::{K}(x) => {{ wfp_{K}Properties(x.properties); {x} }}")
    o.append(f'''/// a real packet's text fields hold text
pub proof fn wf_real(p: Packet) ensures wf_packet(p@)
{{ reveal(text_ok); broadcast use model_axioms; match p {{ {" ".join(wf)} Packet::Connect(c, w, l) => {{ wfp_ConnectProperties(c.properties); match w {{ Some(x) => {{ wfp_LastWillProperties(x.properties); }}, None => {{}} }} }} Packet::PingReq(_) => {{}} Packet::PingResp(_) => {{}} }} }}''')
    return "verus! {\n" + "\n".join(o) + "\n}\n"

CLIENTS = r'''
verus! {
/// C01 as a program: write into an empty buffer, read it back
pub fn client_round_trip(p: &Packet, stream: &mut BytesMut) -> (r: bool)
  requires old(stream)@.len() == 0, lf_packet(p@) <= usize::MAX
  ensures r <==> rep_packet(p@), r && full_packet(p@) ==> final(stream)@.len() == 0
{
  proof { wf_real(*p); }
  match p.write(stream) {
    Err(_) => { assert(final(stream)@ == old(stream)@); false }
    Ok(n) => {
      proof { c02_packet(p@); assert(stream@ == Seq::<u8>::empty() + e_packet(p@)); assert(stream@ =~= e_packet(p@)); assert(n == stream@.len()); }
      let ghost before = stream@;
      let r = Packet::read(stream, None);
      proof { if full_packet(p@) { let z = Seq::<u8>::empty(); assert(e_packet(p@) + z =~= before); c01_packet(p@, z, None); assert(r is Ok && r->Ok_0@ == nf_packet(p@)); assert(stream@ == z); } }
      true
    }
  }
}
/// C17 as a program: what is read can be written and reads back equal
pub fn client_rewrite(input: &mut BytesMut, max: Option<usize>, out: &mut BytesMut)
  requires old(out)@.len() == 0
{
  let ghost b = input@;
  let p = match Packet::read(input, max) { Ok(p) => p, Err(_) => return };
  proof { c11_vi_minimal(b.skip(1)); match frame(b, max) { Fr::Frame(w, n) => { let body = b.skip(1 + w).take(n); assert(body.len() == n); c17_packet(b[0], body); c02_packet(p@); }, _ => {} } assert(rep_packet(p@)); }
  let w = p.write(out);
  assert(w is Ok);
  let ghost e = out@;
  let q = Packet::read(out, None);
  proof { assert(Seq::<u8>::empty() + e_packet(p@) =~= e_packet(p@)); let z = Seq::<u8>::empty(); assert(e_packet(p@) + z =~= e); c01_packet(p@, z, None); assert(q is Ok && q->Ok_0@ == p@); assert(out@ == z); }
}
/// C05, C04 as a program: writing after other bytes
pub fn client_append(p: &Packet, stream: &mut BytesMut) -> (r: usize)
  requires lf_packet(p@) <= usize::MAX
  ensures final(stream)@.take(old(stream)@.len() as int) == old(stream)@, final(stream)@.len() == old(stream)@.len() + r
{
  let ghost b = stream@;
  match p.write(stream) {
    Ok(n) => { proof { c02_packet(p@); assert(stream@.take(b.len() as int) =~= b); } n }
    Err(_) => { proof { assert(stream@.take(b.len() as int) =~= b); } 0 }
  }
}
pub enum Step { Got, More, Stop }
/// one read, and what it did to the stream
pub fn client_step(stream: &mut BytesMut, max: Option<usize>) -> (r: (Step, Ghost<Out>))
  ensures ({ let b = old(stream)@; let s = final(stream)@; match r.0 { Step::Got => s.len() < b.len() && outs(b, max) == seq![r.1@] + outs(s, max) && left(b, max) == left(s, max), Step::More => s == b && outs(b, max) == Seq::<Out>::empty() && left(b, max) == b && !stuck(b, max), Step::Stop => s == b && outs(b, max) == seq![Out::Stuck] && left(b, max) == b && stuck(b, max) } })
{
  let ghost b = stream@;
  let before = stream.len();
  proof { outs_step(b, max); c11_vi_minimal(b.skip(1)); }
  match Packet::read(stream, max) {
    Ok(p) => { proof { match frame(b, max) { Fr::Frame(w, n) => { assert(out1(b, w, n) == Out::Packet(p@)); } _ => {} } } (Step::Got, Ghost(Out::Packet(p@))) }
    Err(Error::InsufficientBytes(_)) => { proof { assert(frame(b, max) is Short); } (Step::More, Ghost(Out::Stuck)) }
    Err(_) => {
      if stream.len() == before { proof { assert(stuck(b, max)); } return (Step::Stop, Ghost(Out::Stuck)); }
      proof { match frame(b, max) { Fr::Frame(w, n) => { assert(out1(b, w, n) == Out::Malformed); } _ => {} } }
      (Step::Got, Ghost(Out::Malformed))
    }
  }
}
/// C19 as a program: read until no frame is left; the flag tells that the stream can not go on
pub fn client_drain(stream: &mut BytesMut, max: Option<usize>) -> (r: (Ghost<Seq<Out>>, bool))
  ensures r.0@ == outs(old(stream)@, max), final(stream)@ == left(old(stream)@, max), r.1 == stuck(final(stream)@, max)
{
  let ghost b = stream@;
  let mut g: Ghost<Seq<Out>> = Ghost(Seq::empty());
  proof { assert(g@ + outs(b, max) =~= outs(b, max)); }
  loop
    invariant b == old(stream)@, outs(b, max) == g@ + outs(stream@, max), left(b, max) == left(stream@, max)
    decreases stream@.len()
  {
    let ghost g0 = g@;
    let (st, o) = client_step(stream, max);
    match st {
      Step::Got => { proof { assert(g0 + (seq![o@] + outs(stream@, max)) =~= g0.push(o@) + outs(stream@, max)); } g = Ghost(g0.push(o@)); }
      Step::More => { proof { assert(g0 + Seq::<Out>::empty() =~= g0); } return (g, false); }
      Step::Stop => { proof { assert(g0 + seq![Out::Stuck] =~= g0.push(Out::Stuck)); } return (Ghost(g0.push(Out::Stuck)), true); }
    }
  }
}
pub open spec fn concat(s: Seq<Bytes>) -> Seq<u8> decreases s.len() { if s.len() == 0 { Seq::empty() } else { concat(s.drop_last()) + s.last()@ } }
/// C19 as a program: any way of cutting the stream into arrivals gives the same results
pub fn client_feed(chunks: &Vec<Bytes>, stream: &mut BytesMut, max: Option<usize>) -> (r: Ghost<Seq<Out>>)
  requires old(stream)@.len() == 0
  ensures r@ == outs(concat(chunks@), max)
{
  let mut g: Ghost<Seq<Out>> = Ghost(Seq::empty());
  let mut i: usize = 0;
  let mut end = false;
  let ghost mut all = Seq::<u8>::empty();
  proof { outs_step(all, max); assert(chunks@.take(0) =~= Seq::<Bytes>::empty()); assert(concat(chunks@.take(0)) =~= all); assert(stream@ =~= all); }
  while i < chunks.len()
    invariant i <= chunks@.len(), all == concat(chunks@.take(i as int)), g@ == outs(all, max), end == stuck(left(all, max), max), !end ==> stream@ == left(all, max)
    decreases chunks@.len() - i
  {
    let c = &chunks[i];
    proof { assert(chunks@.take(i + 1).drop_last() =~= chunks@.take(i as int)); c19_chunk(all, c@, max); }
    i = i + 1;
    let ghost next = all + c@;
    if !end {
      stream.extend_from_slice(c);
      let ghost s = stream@;
      let (h, e) = client_drain(stream, max);
      g = Ghost(g@ + h@);
      end = e;
    } else {
      proof { c19_stuck(all, c@, max); }
    }
    proof { all = next; }
  }
  proof { assert(chunks@.take(chunks@.len() as int) =~= chunks@); }
  g
}
}
'''
def gen_rt():
    return {"rt_c01": gen_c01(), "rt_c17": gen_c17(), "rt_c21": gen_c21(), "rt_top": gen_top()}
