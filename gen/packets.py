"""Packet level specifications and lemmas."""
from schema import *

PK = {"ConnAck": "connack", "Publish": "publish", "Subscribe": "subscribe", "SubAck": "suback", "Unsubscribe": "unsubscribe",
      "UnsubAck": "unsuback", "Disconnect": "disconnect", "Connect": "connect", "PubAck": "puback", "PubRec": "pubrec",
      "PubRel": "pubrel", "PubComp": "pubcomp"}
PROPS_OF = {k: k + "Properties" for k in PK}
REASON = {"PubAck": "PubAckReason", "PubRec": "PubRecReason", "PubRel": "PubRelReason", "PubComp": "PubCompReason"}

VIEWS = r'''
verus! {
pub ghost struct ConnAckV { pub session_present: bool, pub code: ConnectReturnCode, pub properties: Option<ConnAckPropertiesV> }
impl View for ConnAck { type V = ConnAckV; open spec fn view(&self) -> ConnAckV { ConnAckV { session_present: self.session_present, code: self.code, properties: ov(self.properties) } } }
pub ghost struct PublishV { pub dup: bool, pub qos: QoS, pub retain: bool, pub topic: Seq<u8>, pub pkid: u16, pub payload: Seq<u8>, pub properties: Option<PublishPropertiesV> }
impl View for Publish { type V = PublishV; open spec fn view(&self) -> PublishV { PublishV { dup: self.dup, qos: self.qos, retain: self.retain, topic: self.topic@, pkid: self.pkid, payload: self.payload@, properties: ov(self.properties) } } }
pub ghost struct SubscribeV { pub pkid: u16, pub filters: Seq<FilterV>, pub properties: Option<SubscribePropertiesV> }
impl View for Subscribe { type V = SubscribeV; open spec fn view(&self) -> SubscribeV { SubscribeV { pkid: self.pkid, filters: filtersv(self.filters@), properties: ov(self.properties) } } }
pub ghost struct SubAckV { pub pkid: u16, pub return_codes: Seq<SubscribeReasonCode>, pub properties: Option<SubAckPropertiesV> }
impl View for SubAck { type V = SubAckV; open spec fn view(&self) -> SubAckV { SubAckV { pkid: self.pkid, return_codes: self.return_codes@, properties: ov(self.properties) } } }
pub ghost struct UnsubscribeV { pub pkid: u16, pub filters: Seq<Seq<u8>>, pub properties: Option<UnsubscribePropertiesV> }
impl View for Unsubscribe { type V = UnsubscribeV; open spec fn view(&self) -> UnsubscribeV { UnsubscribeV { pkid: self.pkid, filters: strsv(self.filters@), properties: ov(self.properties) } } }
pub ghost struct UnsubAckV { pub pkid: u16, pub reasons: Seq<UnsubAckReason>, pub properties: Option<UnsubAckPropertiesV> }
impl View for UnsubAck { type V = UnsubAckV; open spec fn view(&self) -> UnsubAckV { UnsubAckV { pkid: self.pkid, reasons: self.reasons@, properties: ov(self.properties) } } }
pub ghost struct DisconnectV { pub reason_code: DisconnectReasonCode, pub properties: Option<DisconnectPropertiesV> }
impl View for Disconnect { type V = DisconnectV; open spec fn view(&self) -> DisconnectV { DisconnectV { reason_code: self.reason_code, properties: ov(self.properties) } } }
pub ghost struct ConnectV { pub keep_alive: u16, pub client_id: Seq<u8>, pub clean_start: bool, pub properties: Option<ConnectPropertiesV> }
impl View for Connect { type V = ConnectV; open spec fn view(&self) -> ConnectV { ConnectV { keep_alive: self.keep_alive, client_id: self.client_id@, clean_start: self.clean_start, properties: ov(self.properties) } } }
pub ghost struct LastWillV { pub topic: Seq<u8>, pub message: Seq<u8>, pub qos: QoS, pub retain: bool, pub properties: Option<LastWillPropertiesV> }
impl View for LastWill { type V = LastWillV; open spec fn view(&self) -> LastWillV { LastWillV { topic: self.topic@, message: self.message@, qos: self.qos, retain: self.retain, properties: ov(self.properties) } } }
pub ghost struct LoginV { pub username: Seq<u8>, pub password: Seq<u8> }
impl View for Login { type V = LoginV; open spec fn view(&self) -> LoginV { LoginV { username: self.username@, password: self.password@ } } }
/*ACKVIEWS*/
pub ghost enum PacketV { Connect(ConnectV, Option<LastWillV>, Option<LoginV>), ConnAck(ConnAckV), Publish(PublishV), PubAck(PubAckV), PubRec(PubRecV), PubRel(PubRelV), PubComp(PubCompV),
  Subscribe(SubscribeV), SubAck(SubAckV), Unsubscribe(UnsubscribeV), UnsubAck(UnsubAckV), PingReq, PingResp, Disconnect(DisconnectV) }
impl View for Packet { type V = PacketV; open spec fn view(&self) -> PacketV { match self {
  Packet::Connect(c, w, l) => PacketV::Connect(c@, ov(*w), ov(*l)), Packet::ConnAck(p) => PacketV::ConnAck(p@), Packet::Publish(p) => PacketV::Publish(p@), Packet::PubAck(p) => PacketV::PubAck(p@),
  Packet::PubRec(p) => PacketV::PubRec(p@), Packet::PubRel(p) => PacketV::PubRel(p@), Packet::PubComp(p) => PacketV::PubComp(p@), Packet::Subscribe(p) => PacketV::Subscribe(p@), Packet::SubAck(p) => PacketV::SubAck(p@),
  Packet::Unsubscribe(p) => PacketV::Unsubscribe(p@), Packet::UnsubAck(p) => PacketV::UnsubAck(p@), Packet::PingReq(_) => PacketV::PingReq, Packet::PingResp(_) => PacketV::PingResp, Packet::Disconnect(p) => PacketV::Disconnect(p@) } } }

// ---------------------------------------------------------------- lists in payloads
pub open spec fn p_filter(b: Seq<u8>) -> P<FilterV> { match p_str(b) { None => None, Some((path, r)) => match p_u8(r) { None => None, Some((o, r2)) =>
  match (dc_QoS((o % 4) as u8), dc_RetainForwardRule(((o / 16) % 4) as u8)) { (Some(q), Some(rule)) => Some((FilterV { path, qos: q, nolocal: (o / 4) % 2 == 1, preserve_retain: (o / 8) % 2 == 1, retain_forward_rule: rule }, r2)), _ => None } } } }
#[verifier::opaque] pub open spec fn p_filters(b: Seq<u8>, acc: Seq<FilterV>) -> Option<Seq<FilterV>> decreases b.len() { if b.len() == 0 { Some(acc) } else { match p_filter(b) { None => None, Some((f, r)) => if r.len() < b.len() { p_filters(r, acc.push(f)) } else { None } } } }
pub proof fn unfold_filters(b: Seq<u8>, acc: Seq<FilterV>) ensures p_filters(b, acc) == (if b.len() == 0 { Some(acc) } else { match p_filter(b) { None => None, Some((f, r)) => p_filters(r, acc.push(f)) } }), p_filter(b) matches Some((f, r)) ==> r.len() < b.len()
{ reveal_with_fuel(p_filters, 2); broadcast use {p_bin_len, p_str_len}; }
#[verifier::opaque] pub open spec fn p_strs(b: Seq<u8>, acc: Seq<Seq<u8>>) -> Option<Seq<Seq<u8>>> decreases b.len() { if b.len() == 0 { Some(acc) } else { match p_str(b) { None => None, Some((f, r)) => if r.len() < b.len() { p_strs(r, acc.push(f)) } else { None } } } }
pub proof fn unfold_strs(b: Seq<u8>, acc: Seq<Seq<u8>>) ensures p_strs(b, acc) == (if b.len() == 0 { Some(acc) } else { match p_str(b) { None => None, Some((f, r)) => p_strs(r, acc.push(f)) } }), p_str(b) matches Some((f, r)) ==> r.len() < b.len()
{ reveal_with_fuel(p_strs, 2); broadcast use {p_bin_len, p_str_len}; }
pub broadcast proof fn p_filters_len(b: Seq<u8>, acc: Seq<FilterV>) ensures #![trigger p_filters(b, acc)] p_filters(b, acc) matches Some(s) ==> s.len() >= acc.len() && (s.len() == acc.len() ==> b.len() == 0) && (b.len() == 0 ==> s == acc) decreases b.len()
{ unfold_filters(b, acc); if b.len() > 0 { match p_filter(b) { None => {}, Some((f, r)) => { p_filters_len(r, acc.push(f)); } } } }
/*CODELISTS*/
pub broadcast group g_lists { filtersv_len, strsv_len, p_filters_len, re_codes_SubscribeReasonCode, re_codes_UnsubAckReason }

// ---------------------------------------------------------------- encodings: first byte, body
pub open spec fn h_Publish(v: PublishV) -> int { 48 + b2i(v.retain) + 2 * c_QoS(v.qos) + 8 * b2i(v.dup) }
pub open spec fn o_pkid(v: PublishV) -> Seq<u8> { if v.qos == QoS::AtMostOnce { Seq::empty() } else { be16(v.pkid) } }
pub open spec fn o_sec_Disconnect(o: Option<DisconnectPropertiesV>) -> Seq<u8> { match o { None => Seq::empty(), Some(v) => sec_DisconnectProperties(o) } }
pub open spec fn o_bin(s: Seq<u8>) -> Seq<u8> { if s.len() == 0 { Seq::empty() } else { e_bin(s) } }
pub open spec fn o_will(w: Option<LastWillV>) -> Seq<u8> { match w { None => Seq::empty(), Some(w) => body_LastWill(w) } }
pub open spec fn o_login(l: Option<LoginV>) -> Seq<u8> { match l { None => Seq::empty(), Some(l) => body_Login(l) } }
pub open spec fn fl_LastWill(w: LastWillV) -> int { 4 + 8 * c_QoS(w.qos) + 32 * b2i(w.retain) }
pub open spec fn fl_Login(l: LoginV) -> int { 128 * b2i(l.username.len() > 0) + 64 * b2i(l.password.len() > 0) }
pub open spec fn cflags(c: ConnectV, w: Option<LastWillV>, l: Option<LoginV>) -> int { 2 * b2i(c.clean_start) + (match w { None => 0, Some(w) => fl_LastWill(w) }) + (match l { None => 0, Some(l) => fl_Login(l) }) }
/// the connect flags put together with `|`
pub proof fn cflags_or(c: ConnectV, w: Option<LastWillV>, l: Option<LoginV>)
  ensures ({ let f = (2 * b2i(c.clean_start)) as u8; let g = match w { None => f, Some(x) => (f | (fl_LastWill(x) as u8)) }; let h = match l { None => g, Some(x) => (g | (fl_Login(x) as u8)) }; h as int == cflags(c, w, l) && 0 <= cflags(c, w, l) <= 255 })
{ broadcast use bit_dis; let f = (2 * b2i(c.clean_start)) as u8; let g = match w { None => f, Some(x) => (f | (fl_LastWill(x) as u8)) };
  assert(g < 64 && g as int == cflags(c, w, None)) by { if let Some(x) = w { assert(f < 4); assert(fl_LastWill(x) % 4 == 0 && fl_LastWill(x) < 64); assert((f | (fl_LastWill(x) as u8)) == f + fl_LastWill(x)); } }
  if let Some(x) = l { assert(fl_Login(x) % 64 == 0); assert((g | (fl_Login(x) as u8)) == g + fl_Login(x)); } }
pub open spec fn s_mqtt() -> Seq<u8> { seq![77u8, 81u8, 84u8, 84u8] }
/*BODIES*/
/// a frame: first byte, remaining length, body
pub open spec fn fr(h: int, body: Seq<u8>) -> Seq<u8> { seq![h as u8] + e_vi(body.len() as int) + body }

// ---------------------------------------------------------------- what can be written
pub open spec fn fits(n: int) -> bool { n <= MAXVI() }
pub open spec fn rep_ConnAck(v: ConnAckV) -> bool { ec_ConnectReturnCode(v.code) is Some && orep_ConnAckProperties(v.properties) && fits(lb_ConnAck(v)) }
pub open spec fn rep_Publish(v: PublishV) -> bool { ok_bin(v.topic) && (v.qos != QoS::AtMostOnce ==> v.pkid != 0) && orep_PublishProperties(v.properties) && fits(lb_Publish(v)) }
pub open spec fn rep_Subscribe(v: SubscribeV) -> bool { orep_SubscribeProperties(v.properties) && ok_filters(v.filters) && fits(lb_Subscribe(v)) }
pub open spec fn rep_SubAck(v: SubAckV) -> bool { orep_SubAckProperties(v.properties) && fits(lb_SubAck(v)) }
pub open spec fn rep_Unsubscribe(v: UnsubscribeV) -> bool { orep_UnsubscribeProperties(v.properties) && ok_strs(v.filters) && fits(lb_Unsubscribe(v)) }
pub open spec fn rep_UnsubAck(v: UnsubAckV) -> bool { orep_UnsubAckProperties(v.properties) && fits(lb_UnsubAck(v)) }
pub open spec fn rep_Disconnect(v: DisconnectV) -> bool { orep_DisconnectProperties(v.properties) && fits(lb_Disconnect(v)) }
pub open spec fn rep_LastWill(w: LastWillV) -> bool { orep_LastWillProperties(w.properties) && ok_bin(w.topic) && ok_bin(w.message) }
pub open spec fn rep_Login(l: LoginV) -> bool { ok_bin(l.username) && ok_bin(l.password) }
pub open spec fn rep_Connect(c: ConnectV, w: Option<LastWillV>, l: Option<LoginV>) -> bool { orep_ConnectProperties(c.properties) && ok_bin(c.client_id) && (w matches Some(w) ==> rep_LastWill(w)) && (l matches Some(l) ==> rep_Login(l)) && fits(lb_Connect(c, w, l)) }
// text fields hold text (a type invariant of String / Box<str> / Cow<str>)
pub open spec fn wf_ConnAck(v: ConnAckV) -> bool { owf_ConnAckProperties(v.properties) }
pub open spec fn wf_Publish(v: PublishV) -> bool { text_ok(v.topic) && owf_PublishProperties(v.properties) }
pub open spec fn wf_Subscribe(v: SubscribeV) -> bool { wf_filters(v.filters) && owf_SubscribeProperties(v.properties) }
pub open spec fn wf_SubAck(v: SubAckV) -> bool { owf_SubAckProperties(v.properties) }
pub open spec fn wf_Unsubscribe(v: UnsubscribeV) -> bool { wf_strs(v.filters) && owf_UnsubscribeProperties(v.properties) }
pub open spec fn wf_UnsubAck(v: UnsubAckV) -> bool { owf_UnsubAckProperties(v.properties) }
pub open spec fn wf_Disconnect(v: DisconnectV) -> bool { owf_DisconnectProperties(v.properties) }
pub open spec fn wf_LastWill(w: LastWillV) -> bool { owf_LastWillProperties(w.properties) }
pub open spec fn wf_Login(l: LoginV) -> bool { text_ok(l.username) && text_ok(l.password) }
pub open spec fn wf_Connect(c: ConnectV, w: Option<LastWillV>, l: Option<LoginV>) -> bool { text_ok(c.client_id) && owf_ConnectProperties(c.properties) && (w matches Some(w) ==> wf_LastWill(w)) && (l matches Some(l) ==> wf_Login(l)) }
// lists the reader insists on
pub open spec fn full_Subscribe(v: SubscribeV) -> bool { v.filters.len() > 0 }
pub open spec fn full_SubAck(v: SubAckV) -> bool { v.return_codes.len() > 0 }
pub open spec fn full_UnsubAck(v: UnsubAckV) -> bool { v.reasons.len() > 0 }

// ---------------------------------------------------------------- normal forms
pub open spec fn nf_ConnAck(v: ConnAckV) -> ConnAckV { ConnAckV { properties: nf_ConnAckProperties(v.properties), ..v } }
pub open spec fn nf_Publish(v: PublishV) -> PublishV { PublishV { properties: nf_PublishProperties(v.properties), pkid: if v.qos == QoS::AtMostOnce { 0 } else { v.pkid }, ..v } }
pub open spec fn nf_Subscribe(v: SubscribeV) -> SubscribeV { SubscribeV { properties: nf_SubscribeProperties(v.properties), ..v } }
pub open spec fn nf_SubAck(v: SubAckV) -> SubAckV { SubAckV { properties: nf_SubAckProperties(v.properties), ..v } }
pub open spec fn nf_Unsubscribe(v: UnsubscribeV) -> UnsubscribeV { UnsubscribeV { properties: nf_UnsubscribeProperties(v.properties), ..v } }
pub open spec fn nf_UnsubAck(v: UnsubAckV) -> UnsubAckV { UnsubAckV { properties: nf_UnsubAckProperties(v.properties), ..v } }
pub open spec fn nf_Disconnect(v: DisconnectV) -> DisconnectV { DisconnectV { properties: nf_DisconnectProperties(v.properties), ..v } }
pub open spec fn nf_Connect(v: ConnectV) -> ConnectV { ConnectV { properties: nf_ConnectProperties(v.properties), ..v } }
pub open spec fn nf_will(w: Option<LastWillV>) -> Option<LastWillV> { match w { None => None, Some(w) => Some(LastWillV { properties: nf_LastWillProperties(w.properties), ..w }) } }
pub open spec fn nf_login(l: Option<LoginV>) -> Option<LoginV> { match l { None => None, Some(l) => if l.username.len() == 0 && l.password.len() == 0 { None } else { Some(l) } } }

// ---------------------------------------------------------------- decoding (h: first byte, b: the bytes after the remaining length)
pub open spec fn d_ConnAck(h: u8, b: Seq<u8>) -> Option<ConnAckV> { match p_u8(b) { None => None, Some((f, b1)) => match p_u8(b1) { None => None, Some((c, b2)) => match p_sec_ConnAckProperties(b2) { None => None, Some((props, b3)) =>
  match dc_ConnectReturnCode(c) { None => None, Some(code) => Some(ConnAckV { session_present: f % 2 == 1, code, properties: props }) } } } } }
pub open spec fn p_pkid(q: QoS, b: Seq<u8>) -> P<u16> { if q == QoS::AtMostOnce { Some((0u16, b)) } else { match p_u16(b) { None => None, Some((v, r)) => if v == 0 { None } else { Some((v, r)) } } } }
pub open spec fn d_Publish(h: u8, b: Seq<u8>) -> Option<PublishV> { match dc_QoS(((h / 2) % 4) as u8) { None => None, Some(q) => match p_str(b) { None => None, Some((topic, b1)) => match p_pkid(q, b1) { None => None, Some((pkid, b2)) =>
  match p_sec_PublishProperties(b2) { None => None, Some((props, b3)) => Some(PublishV { dup: (h / 8) % 2 == 1, qos: q, retain: h % 2 == 1, topic, pkid, payload: b3, properties: props }) } } } } }
pub open spec fn d_Subscribe(h: u8, b: Seq<u8>) -> Option<SubscribeV> { match p_u16(b) { None => None, Some((pkid, b1)) => match p_sec_SubscribeProperties(b1) { None => None, Some((props, b2)) =>
  if b2.len() == 0 { None } else { match p_filters(b2, Seq::empty()) { None => None, Some(fs) => Some(SubscribeV { pkid, filters: fs, properties: props }) } } } } }
pub open spec fn d_Unsubscribe(h: u8, b: Seq<u8>) -> Option<UnsubscribeV> { match p_u16(b) { None => None, Some((pkid, b1)) => match p_sec_UnsubscribeProperties(b1) { None => None, Some((props, b2)) =>
  match p_strs(b2, Seq::empty()) { None => None, Some(fs) => Some(UnsubscribeV { pkid, filters: fs, properties: props }) } } } }
pub open spec fn d_SubAck(h: u8, b: Seq<u8>) -> Option<SubAckV> { match p_u16(b) { None => None, Some((pkid, b1)) => match p_sec_SubAckProperties(b1) { None => None, Some((props, b2)) =>
  if b2.len() == 0 { None } else { match p_codes_SubscribeReasonCode(b2, Seq::empty()) { None => None, Some(cs) => Some(SubAckV { pkid, return_codes: cs, properties: props }) } } } } }
pub open spec fn d_UnsubAck(h: u8, b: Seq<u8>) -> Option<UnsubAckV> { match p_u16(b) { None => None, Some((pkid, b1)) => match p_sec_UnsubAckProperties(b1) { None => None, Some((props, b2)) =>
  if b2.len() == 0 { None } else { match p_codes_UnsubAckReason(b2, Seq::empty()) { None => None, Some(cs) => Some(UnsubAckV { pkid, reasons: cs, properties: props }) } } } } }
pub open spec fn d_Disconnect(h: u8, b: Seq<u8>) -> Option<DisconnectV> { if h != 224 { None } else if b.len() == 0 { Some(DisconnectV { reason_code: DisconnectReasonCode::NormalDisconnection, properties: None }) } else {
  match dc_DisconnectReasonCode(b[0]) { None => None, Some(c) => if b.len() < 2 { Some(DisconnectV { reason_code: c, properties: None }) } else { match p_sec_DisconnectProperties(b.skip(1)) { None => None, Some((props, r)) => Some(DisconnectV { reason_code: c, properties: props }) } } } } }
pub open spec fn p_will(f: u8, b: Seq<u8>) -> P<Option<LastWillV>> { if (f / 4) % 2 == 0 { if (f / 8) % 8 != 0 { None } else { Some((None, b)) } } else {
  match p_sec_LastWillProperties(b) { None => None, Some((props, b1)) => match p_bin(b1) { None => None, Some((topic, b2)) => match p_bin(b2) { None => None, Some((message, b3)) =>
  match dc_QoS(((f / 8) % 4) as u8) { None => None, Some(qos) => Some((Some(LastWillV { topic, message, qos, retain: (f / 32) % 2 == 1, properties: props }), b3)) } } } } } }
pub open spec fn p_opt(set: bool, b: Seq<u8>) -> P<Seq<u8>> { if set { p_str(b) } else { Some((Seq::empty(), b)) } }
pub open spec fn p_login(f: u8, b: Seq<u8>) -> P<Option<LoginV>> { match p_opt((f / 128) % 2 == 1, b) { None => None, Some((username, b1)) => match p_opt((f / 64) % 2 == 1, b1) { None => None, Some((password, b2)) =>
  Some((nf_login(Some(LoginV { username, password })), b2)) } } }
pub open spec fn d_Connect(h: u8, b: Seq<u8>) -> Option<(ConnectV, Option<LastWillV>, Option<LoginV>)> { match p_str(b) { None => None, Some((name, b1)) => if name != s_mqtt() { None } else { match p_u8(b1) { None => None, Some((level, b2)) => if level != 5 { None } else {
  match p_u8(b2) { None => None, Some((f, b3)) => match p_u16(b3) { None => None, Some((keep_alive, b4)) => match p_sec_ConnectProperties(b4) { None => None, Some((props, b5)) => match p_str(b5) { None => None, Some((client_id, b6)) =>
  match p_will(f, b6) { None => None, Some((w, b7)) => match p_login(f, b7) { None => None, Some((l, b8)) => Some((ConnectV { keep_alive, client_id, clean_start: (f / 2) % 2 == 1, properties: props }, w, l)) } } } } } } } } } } }
/*ACKDECODE*/
pub open spec fn mp<A>(o: Option<A>, f: spec_fn(A) -> PacketV) -> Option<PacketV> { match o { None => None, Some(v) => Some(f(v)) } }
pub open spec fn d_packet(h: u8, b: Seq<u8>) -> Option<PacketV> { let t = h / 16;
  if t == 12 { Some(PacketV::PingReq) } else if t == 13 { Some(PacketV::PingResp) } else if t == 14 { mp(d_Disconnect(h, b), |v| PacketV::Disconnect(v)) }
  else if b.len() == 0 { None }
  else if t == 1 { mp(d_Connect(h, b), |v: (ConnectV, Option<LastWillV>, Option<LoginV>)| PacketV::Connect(v.0, v.1, v.2)) }
  else if t == 2 { mp(d_ConnAck(h, b), |v| PacketV::ConnAck(v)) } else if t == 3 { mp(d_Publish(h, b), |v| PacketV::Publish(v)) }
  else if t == 4 { mp(d_PubAck(h, b), |v| PacketV::PubAck(v)) } else if t == 5 { mp(d_PubRec(h, b), |v| PacketV::PubRec(v)) }
  else if t == 6 { mp(d_PubRel(h, b), |v| PacketV::PubRel(v)) } else if t == 7 { mp(d_PubComp(h, b), |v| PacketV::PubComp(v)) }
  else if t == 8 { mp(d_Subscribe(h, b), |v| PacketV::Subscribe(v)) } else if t == 9 { mp(d_SubAck(h, b), |v| PacketV::SubAck(v)) }
  else if t == 10 { mp(d_Unsubscribe(h, b), |v| PacketV::Unsubscribe(v)) } else if t == 11 { mp(d_UnsubAck(h, b), |v| PacketV::UnsubAck(v)) }
  else { None } }
pub open spec fn e_packet(p: PacketV) -> Seq<u8> { match p { PacketV::Connect(c, w, l) => e_Connect(c, w, l), PacketV::ConnAck(v) => e_ConnAck(v), PacketV::Publish(v) => e_Publish(v), PacketV::PubAck(v) => e_PubAck(v), PacketV::PubRec(v) => e_PubRec(v), PacketV::PubRel(v) => e_PubRel(v), PacketV::PubComp(v) => e_PubComp(v),
  PacketV::Subscribe(v) => e_Subscribe(v), PacketV::SubAck(v) => e_SubAck(v), PacketV::Unsubscribe(v) => e_Unsubscribe(v), PacketV::UnsubAck(v) => e_UnsubAck(v), PacketV::PingReq => seq![192u8, 0u8], PacketV::PingResp => seq![208u8, 0u8], PacketV::Disconnect(v) => e_Disconnect(v) } }
pub open spec fn lf_packet(p: PacketV) -> int { match p { PacketV::Connect(c, w, l) => lf_Connect(c, w, l), PacketV::ConnAck(v) => lf_ConnAck(v), PacketV::Publish(v) => lf_Publish(v), PacketV::PubAck(v) => lf_PubAck(v), PacketV::PubRec(v) => lf_PubRec(v), PacketV::PubRel(v) => lf_PubRel(v), PacketV::PubComp(v) => lf_PubComp(v), PacketV::Subscribe(v) => lf_Subscribe(v), PacketV::SubAck(v) => lf_SubAck(v), PacketV::Unsubscribe(v) => lf_Unsubscribe(v), PacketV::UnsubAck(v) => lf_UnsubAck(v), PacketV::Disconnect(v) => lf_Disconnect(v), PacketV::PingReq => 2, PacketV::PingResp => 2 } }
pub open spec fn rep_packet(p: PacketV) -> bool { match p { PacketV::Connect(c, w, l) => rep_Connect(c, w, l), PacketV::ConnAck(v) => rep_ConnAck(v), PacketV::Publish(v) => rep_Publish(v), PacketV::PubAck(v) => rep_PubAck(v), PacketV::PubRec(v) => rep_PubRec(v), PacketV::PubRel(v) => rep_PubRel(v), PacketV::PubComp(v) => rep_PubComp(v),
  PacketV::Subscribe(v) => rep_Subscribe(v), PacketV::SubAck(v) => rep_SubAck(v), PacketV::Unsubscribe(v) => rep_Unsubscribe(v), PacketV::UnsubAck(v) => rep_UnsubAck(v), PacketV::PingReq => true, PacketV::PingResp => true, PacketV::Disconnect(v) => rep_Disconnect(v) } }
pub open spec fn wf_packet(p: PacketV) -> bool { match p { PacketV::Connect(c, w, l) => wf_Connect(c, w, l), PacketV::ConnAck(v) => wf_ConnAck(v), PacketV::Publish(v) => wf_Publish(v), PacketV::PubAck(v) => wf_PubAck(v), PacketV::PubRec(v) => wf_PubRec(v), PacketV::PubRel(v) => wf_PubRel(v), PacketV::PubComp(v) => wf_PubComp(v),
  PacketV::Subscribe(v) => wf_Subscribe(v), PacketV::SubAck(v) => wf_SubAck(v), PacketV::Unsubscribe(v) => wf_Unsubscribe(v), PacketV::UnsubAck(v) => wf_UnsubAck(v), PacketV::PingReq => true, PacketV::PingResp => true, PacketV::Disconnect(v) => wf_Disconnect(v) } }
pub open spec fn full_packet(p: PacketV) -> bool { match p { PacketV::Subscribe(v) => full_Subscribe(v), PacketV::SubAck(v) => full_SubAck(v), PacketV::UnsubAck(v) => full_UnsubAck(v), _ => true } }
pub open spec fn nf_packet(p: PacketV) -> PacketV { match p { PacketV::Connect(c, w, l) => PacketV::Connect(nf_Connect(c), nf_will(w), nf_login(l)), PacketV::ConnAck(v) => PacketV::ConnAck(nf_ConnAck(v)), PacketV::Publish(v) => PacketV::Publish(nf_Publish(v)), PacketV::PubAck(v) => PacketV::PubAck(nf_PubAck(v)), PacketV::PubRec(v) => PacketV::PubRec(nf_PubRec(v)), PacketV::PubRel(v) => PacketV::PubRel(nf_PubRel(v)), PacketV::PubComp(v) => PacketV::PubComp(nf_PubComp(v)),
  PacketV::Subscribe(v) => PacketV::Subscribe(nf_Subscribe(v)), PacketV::SubAck(v) => PacketV::SubAck(nf_SubAck(v)), PacketV::Unsubscribe(v) => PacketV::Unsubscribe(nf_Unsubscribe(v)), PacketV::UnsubAck(v) => PacketV::UnsubAck(nf_UnsubAck(v)), PacketV::PingReq => p, PacketV::PingResp => p, PacketV::Disconnect(v) => PacketV::Disconnect(nf_Disconnect(v)) } }

// ---------------------------------------------------------------- frames
pub ghost enum Fr { Short(int), TooBig(int, int), BadLen, Frame(int, int) }
/// what the bytes at the front of a buffer are, under an optional limit on the remaining length
pub open spec fn frame(b: Seq<u8>, max: Option<usize>) -> Fr {
  if b.len() < 2 { Fr::Short(2 - b.len()) } else { match vi(b.skip(1)) { VI::Short => Fr::Short(1), VI::Bad => Fr::BadLen, VI::Val(w, n) =>
    if max is Some && n > max->0 { Fr::TooBig(n, max->0 as int) } else if b.len() < 1 + w + n { Fr::Short(1 + w + n - b.len()) } else { Fr::Frame(w, n) } } } }
/// how long a frame's header and body are, once b starts with a whole header
pub open spec fn fh_ok(fh: FixedHeader, b: Seq<u8>) -> bool { fh.fixed_header_len <= b.len() && fh.remaining_len == b.len() - fh.fixed_header_len && fh.remaining_len <= MAXVI() }
pub open spec fn fh_body(fh: FixedHeader, b: Seq<u8>) -> Seq<u8> { b.skip(fh.fixed_header_len as int) }
/// which error a whole frame gives: some function of the frame. It is assumed (det_) that the reader of a frame, which is given nothing but the
/// frame, and has no state to look at, is one
pub uninterp spec fn frame_err(fh: FixedHeader, b: Seq<u8>) -> Error;
pub open spec fn norm_err(e: Error) -> Error { match e { Error::InsufficientBytes(_) => Error::MalformedPacket, _ => e } }
#[verifier::external_body] pub fn det_<T>(r: Result<T, Error>, fh: Ghost<FixedHeader>, b: Ghost<Seq<u8>>) -> (q: Result<T, Error>) ensures q == r, q matches Err(e) ==> e == frame_err(fh@, b@) { r }
pub open spec fn dec<T: View>(r: Result<T, Error>, d: Option<T::V>) -> bool { match d { Some(v) => r is Ok && r->Ok_0@ == v, None => r is Err } }
}
'''

def sec(X, o): return (f"sec_{X}({o})", lambda b: f"w_sec_{X}({b}, {o})", f"lsec_{X}({o})", lambda b: f"lw_sec_{X}({b}, {o});", f"{o} matches Some(x) ==> l_{X}(x) >= 0")
def byte(x): return (f"seq![{x}]", lambda b: f"({b} + seq![{x}])", "1", lambda b: "")
def u16p(x): return (f"be16({x})", lambda b: f"({b} + be16({x}))", "2", lambda b: "")
def binp(x): return (f"e_bin({x})", lambda b: f"w_bin({b}, {x})", f"(2 + {x}.len() as int)", lambda b: f"lw_bin({b}, {x});")
def lst(k, x): return (f"i_{k}({x})", lambda b: f"w_{k}({b}, {x})", f"l_{k}({x})", lambda b: f"lw_{k}({b}, {x}); l_{k}_pos({x});", f"l_{k}({x}) >= 0")
def codes(E, x): return (f"i_codes_{E}({x})", lambda b: f"({b} + i_codes_{E}({x}))", f"{x}.len() as int", lambda b: "")
def opt(fn, x, L): return (f"o_{fn}({x})", lambda b: f"w_o_{fn}({b}, {x})", f"l_o_{fn}({x})", lambda b: f"lw_o_{fn}({b}, {x});" + (f" lw_sec_DisconnectProperties({b}, {x});" if fn == "sec_Disconnect" else ""), f"l_o_{fn}({x}) >= 0" + (f", {x} matches Some(x) ==> l_DisconnectProperties(x) >= 0" if fn == "sec_Disconnect" else ""))
# packet -> (first byte, parameters, arguments, parts of the body)
BODY = {
 "ConnAck": ("32", "v: ConnAckV", "v", [byte("b2i(v.session_present) as u8"), byte("c_ConnectReturnCode(v.code)"), sec("ConnAckProperties", "v.properties")]),
 "Publish": ("h_Publish(v)", "v: PublishV", "v", [binp("v.topic"), opt("pkid", "v", ""), sec("PublishProperties", "v.properties"), ("v.payload", lambda b: f"({b} + v.payload)", "v.payload.len() as int", lambda b: "")]),
 "Subscribe": ("130", "v: SubscribeV", "v", [u16p("v.pkid"), sec("SubscribeProperties", "v.properties"), lst("filters", "v.filters")]),
 "SubAck": ("144", "v: SubAckV", "v", [u16p("v.pkid"), sec("SubAckProperties", "v.properties"), codes("SubscribeReasonCode", "v.return_codes")]),
 "Unsubscribe": ("162", "v: UnsubscribeV", "v", [u16p("v.pkid"), sec("UnsubscribeProperties", "v.properties"), lst("strs", "v.filters")]),
 "UnsubAck": ("176", "v: UnsubAckV", "v", [u16p("v.pkid"), sec("UnsubAckProperties", "v.properties"), codes("UnsubAckReason", "v.reasons")]),
 "LastWill": (None, "v: LastWillV", "v", [sec("LastWillProperties", "v.properties"), binp("v.topic"), binp("v.message")]),
 "Login": (None, "v: LoginV", "v", [opt("bin", "v.username", ""), opt("bin", "v.password", "")]),
 "Connect": ("16", "c: ConnectV, w: Option<LastWillV>, l: Option<LoginV>", "c, w, l", [binp("s_mqtt()"), byte("5u8"), byte("cflags(c, w, l) as u8"), u16p("c.keep_alive"), sec("ConnectProperties", "c.properties"), binp("c.client_id"), opt("will", "w", ""), opt("login", "l", "")]),
}
def gen_bodies():
    o = []
    def parts(K, params, args, P, name):
        e = P[0][0]
        for x in P[1:]: e = f"{e} + {x[0]}"
        w = "b"
        pos = [x[4] for x in P if len(x) > 4]
        pn = K if name == "" else "long_" + K
        o.append(f"pub proof fn pos_{pn}({params})" + (" ensures " + ", ".join(pos) if pos else "") + " { let b = Seq::<u8>::empty(); " + " ".join(x[3]("b") for x in P) + " }")
        pr = []
        for j, x in enumerate(P):
            pr.append(f"let b{j+1} = {x[1](f'b{j}')}; {x[3](f'b{j}')} let s{j+1} = " + (f"s{j} + " if j else "") + x[0] + "; " + (f"app_assoc(b, s{j}, {x[0]});" if j else ""))
            w = x[1](w)
        return (f"pub open spec fn {'body' if name == '' else 'long'}_{K}({params}) -> Seq<u8> {{ {e} }}",
                f"pub open spec fn w_{'body' if name == '' else 'long'}_{K}(b: Seq<u8>, {params}) -> Seq<u8> {{ {w} }}",
                f"pub open spec fn {'lb' if name == '' else 'll'}_{K}({params}) -> int {{ {' + '.join(x[2] for x in P)} }}",
                f"pub proof fn lw_{'body' if name == '' else 'long'}_{K}(b: Seq<u8>, {params}) ensures w_{'body' if name == '' else 'long'}_{K}(b, {args}) == b + {'body' if name == '' else 'long'}_{K}({args}), {'body' if name == '' else 'long'}_{K}({args}).len() == {'lb' if name == '' else 'll'}_{K}({args}), {'lb' if name == '' else 'll'}_{K}({args}) >= 0 {{ let b0 = b;\n  " + "\n  ".join(pr) + " }")
    o.append("""pub open spec fn w_o_pkid(b: Seq<u8>, v: PublishV) -> Seq<u8> { if v.qos == QoS::AtMostOnce { b } else { b + be16(v.pkid) } }
pub open spec fn l_o_pkid(v: PublishV) -> int { if v.qos == QoS::AtMostOnce { 0 } else { 2 } }
pub proof fn lw_o_pkid(b: Seq<u8>, v: PublishV) ensures w_o_pkid(b, v) == b + o_pkid(v), o_pkid(v).len() == l_o_pkid(v) { app_empty(b); }
pub open spec fn w_o_bin(b: Seq<u8>, s: Seq<u8>) -> Seq<u8> { if s.len() == 0 { b } else { w_bin(b, s) } }
pub open spec fn l_o_bin(s: Seq<u8>) -> int { if s.len() == 0 { 0 } else { 2 + s.len() as int } }
pub proof fn lw_o_bin(b: Seq<u8>, s: Seq<u8>) ensures w_o_bin(b, s) == b + o_bin(s), o_bin(s).len() == l_o_bin(s) { app_empty(b); lw_bin(b, s); }
pub open spec fn w_o_will(b: Seq<u8>, o: Option<LastWillV>) -> Seq<u8> { match o { None => b, Some(v) => w_body_LastWill(b, v) } }
pub open spec fn l_o_will(o: Option<LastWillV>) -> int { match o { None => 0, Some(v) => lb_LastWill(v) } }
pub proof fn lw_o_will(b: Seq<u8>, o: Option<LastWillV>) ensures w_o_will(b, o) == b + o_will(o), o_will(o).len() == l_o_will(o), l_o_will(o) >= 0 { app_empty(b); if o is Some { lw_body_LastWill(b, o->0); } }
pub open spec fn w_o_login(b: Seq<u8>, o: Option<LoginV>) -> Seq<u8> { match o { None => b, Some(v) => w_body_Login(b, v) } }
pub open spec fn l_o_login(o: Option<LoginV>) -> int { match o { None => 0, Some(v) => lb_Login(v) } }
pub proof fn lw_o_login(b: Seq<u8>, o: Option<LoginV>) ensures w_o_login(b, o) == b + o_login(o), o_login(o).len() == l_o_login(o), l_o_login(o) >= 0 { app_empty(b); if o is Some { lw_body_Login(b, o->0); } }
pub open spec fn w_o_sec_Disconnect(b: Seq<u8>, o: Option<DisconnectPropertiesV>) -> Seq<u8> { match o { None => b, Some(v) => w_sec_DisconnectProperties(b, o) } }
pub open spec fn l_o_sec_Disconnect(o: Option<DisconnectPropertiesV>) -> int { match o { None => 0, Some(v) => lsec_DisconnectProperties(o) } }
pub proof fn lw_o_sec_Disconnect(b: Seq<u8>, o: Option<DisconnectPropertiesV>) ensures w_o_sec_Disconnect(b, o) == b + o_sec_Disconnect(o), o_sec_Disconnect(o).len() == l_o_sec_Disconnect(o), l_o_sec_Disconnect(o) >= 0 { app_empty(b); if o is Some { lw_sec_DisconnectProperties(b, o); } }""")
    for X in ("LastWill", "Login"):
        o.append(f"pub broadcast proof fn pre_body_{X}(a: Seq<u8>, b: Seq<u8>, v: {X}V) requires #[trigger] pre(a, b) ensures pre(a, #[trigger] w_body_{X}(b, v)) {{ lw_body_{X}(b, v); pre_app(a, b, body_{X}(v)); }}")
    B = dict(BODY)
    for K, (h, params, args, P) in BODY.items(): o += parts(K, params, args, P, "")
    def two(K, short, sp, P, params, args):
        o.extend(parts(K, params, args, P, "long"))
        se, sw, sl, slem = sp
        pos = [x[4] for x in P if len(x) > 4]
        o.append(f"pub proof fn pos_{K}({params}) ensures {', '.join(pos)} {{ pos_long_{K}({args}); }}")
        o.append(f"pub open spec fn body_{K}(v: {K}V) -> Seq<u8> {{ if {short} {{ {se} }} else {{ long_{K}(v) }} }}")
        o.append(f"pub open spec fn w_body_{K}(b: Seq<u8>, v: {K}V) -> Seq<u8> {{ if {short} {{ {sw} }} else {{ w_long_{K}(b, v) }} }}")
        o.append(f"pub open spec fn lb_{K}(v: {K}V) -> int {{ if {short} {{ {sl} }} else {{ ll_{K}(v) }} }}")
        o.append(f"pub proof fn lw_body_{K}(b: Seq<u8>, v: {K}V) ensures w_body_{K}(b, v) == b + body_{K}(v), body_{K}(v).len() == lb_{K}(v), lb_{K}(v) >= 0 {{ app_empty(b); lw_long_{K}(b, v); }}")
    for K in ACKS:
        R = REASON[K]
        two(K, f"v.reason == {R}::Success && v.properties is None", ("be16(v.pkid)", "b + be16(v.pkid)", "2", ""), [u16p("v.pkid"), byte(f"c_{R}(v.reason)"), sec(K + "Properties", "v.properties")], f"v: {K}V", "v")
        B[K] = (str(ACK_BYTE[K]), f"v: {K}V", "v", None)
    two("Disconnect", "v.reason_code == DisconnectReasonCode::NormalDisconnection && v.properties is None", ("Seq::<u8>::empty()", "b", "0", ""), [byte("c_DisconnectReasonCode(v.reason_code)"), opt("sec_Disconnect", "v.properties", "")], "v: DisconnectV", "v")
    B["Disconnect"] = ("224", "v: DisconnectV", "v", None)
    for K, (h, params, args, P) in B.items():
        if h is None: continue
        o.append(f"pub open spec fn e_{K}({params}) -> Seq<u8> {{ fr({h}, body_{K}({args})) }}")
        o.append(f"pub open spec fn lf_{K}({params}) -> int {{ 1 + l_vi(lb_{K}({args})) + lb_{K}({args}) }}")
        o.append(f"pub open spec fn w_{K}(b: Seq<u8>, {params}) -> Seq<u8> {{ w_body_{K}(b + seq![({h}) as u8] + e_vi(lb_{K}({args})), {args}) }}")
        o.append(f"pub proof fn lw_{K}(b: Seq<u8>, {params}) ensures w_{K}(b, {args}) == b + e_{K}({args}), e_{K}({args}).len() == lf_{K}({args}), body_{K}({args}).len() == lb_{K}({args}), lb_{K}({args}) >= 0 {{ let h = seq![({h}) as u8]; let n = e_vi(lb_{K}({args})); lw_body_{K}(b + h + n, {args}); app_assoc(b, h, n); app_assoc(b, h + n, body_{K}({args})); e_vi_len(lb_{K}({args})); }}")
    o.append("""pub broadcast proof fn upd_app(a: Seq<u8>, b: Seq<u8>, i: int, x: u8) requires 0 <= i < a.len() ensures #[trigger] (a + b).update(i, x) == a.update(i, x) + b { assert((a + b).update(i, x) =~= a.update(i, x) + b); }
pub broadcast proof fn upd_one(a: Seq<u8>, f: u8, i: int, x: u8) requires i == a.len() ensures #[trigger] (a + seq![f]).update(i, x) == a + seq![x] { assert((a + seq![f]).update(i, x) =~= a + seq![x]); }
pub broadcast proof fn upd_w_bin(b: Seq<u8>, s: Seq<u8>, i: int, x: u8) requires 0 <= i < b.len() ensures #[trigger] w_bin(b, s).update(i, x) == w_bin(b.update(i, x), s) { lw_bin(b, s); lw_bin(b.update(i, x), s); upd_app(b, e_bin(s), i, x); }
pub broadcast proof fn updl_w_bin(b: Seq<u8>, s: Seq<u8>) ensures (#[trigger] w_bin(b, s)).len() == b.len() + (2 + s.len()), (2 + s.len()) >= 0 { lw_bin(b, s); }
pub broadcast proof fn upd_w_o_will(b: Seq<u8>, s: Option<LastWillV>, i: int, x: u8) requires 0 <= i < b.len() ensures #[trigger] w_o_will(b, s).update(i, x) == w_o_will(b.update(i, x), s) { lw_o_will(b, s); lw_o_will(b.update(i, x), s); upd_app(b, o_will(s), i, x); }
pub broadcast proof fn updl_w_o_will(b: Seq<u8>, s: Option<LastWillV>) ensures (#[trigger] w_o_will(b, s)).len() == b.len() + (l_o_will(s)), (l_o_will(s)) >= 0 { lw_o_will(b, s); }
pub broadcast proof fn upd_w_o_login(b: Seq<u8>, s: Option<LoginV>, i: int, x: u8) requires 0 <= i < b.len() ensures #[trigger] w_o_login(b, s).update(i, x) == w_o_login(b.update(i, x), s) { lw_o_login(b, s); lw_o_login(b.update(i, x), s); upd_app(b, o_login(s), i, x); }
pub broadcast proof fn updl_w_o_login(b: Seq<u8>, s: Option<LoginV>) ensures (#[trigger] w_o_login(b, s)).len() == b.len() + (l_o_login(s)), (l_o_login(s)) >= 0 { lw_o_login(b, s); }
pub broadcast proof fn upd_w_sec_ConnectProperties(b: Seq<u8>, s: Option<ConnectPropertiesV>, i: int, x: u8) requires 0 <= i < b.len() ensures #[trigger] w_sec_ConnectProperties(b, s).update(i, x) == w_sec_ConnectProperties(b.update(i, x), s) { lw_sec_ConnectProperties(b, s); lw_sec_ConnectProperties(b.update(i, x), s); upd_app(b, sec_ConnectProperties(s), i, x); }
pub broadcast proof fn updl_w_sec_ConnectProperties(b: Seq<u8>, s: Option<ConnectPropertiesV>) ensures (#[trigger] w_sec_ConnectProperties(b, s)).len() == b.len() + (lsec_ConnectProperties(s)), (lsec_ConnectProperties(s)) >= 0 { lw_sec_ConnectProperties(b, s); }
pub broadcast group g_upd { upd_app, upd_one, upd_w_bin, updl_w_bin, upd_w_o_will, updl_w_o_will, upd_w_o_login, updl_w_o_login, upd_w_sec_ConnectProperties, updl_w_sec_ConnectProperties, e_vi_len }""")
    o.append("pub broadcast group g_pkt { " + ", ".join(f"pre_{X}, pre_sec_{X}" for X in PROPS) + ", pre_body_LastWill, pre_body_Login }")
    return "\n".join(o) + "\n"

def gen_views():
    t = VIEWS
    t = t.replace("/*ACKVIEWS*/", "\n".join(f"pub ghost struct {K}V {{ pub pkid: u16, pub reason: {REASON[K]}, pub properties: Option<{K}PropertiesV> }}\nimpl View for {K} {{ type V = {K}V; open spec fn view(&self) -> {K}V {{ {K}V {{ pkid: self.pkid, reason: self.reason, properties: ov(self.properties) }} }} }}" for K in ACKS))
    cl = []
    for E in ("SubscribeReasonCode", "UnsubAckReason"):
        cl.append(f'''#[verifier::opaque] pub open spec fn p_codes_{E}(b: Seq<u8>, acc: Seq<{E}>) -> Option<Seq<{E}>> decreases b.len() {{ if b.len() == 0 {{ Some(acc) }} else {{ match dc_{E}(b[0]) {{ None => None, Some(c) => p_codes_{E}(b.skip(1), acc.push(c)) }} }} }}
pub proof fn unfold_codes_{E}(b: Seq<u8>, acc: Seq<{E}>) ensures p_codes_{E}(b, acc) == (if b.len() == 0 {{ Some(acc) }} else {{ match dc_{E}(b[0]) {{ None => None, Some(c) => p_codes_{E}(b.skip(1), acc.push(c)) }} }}) {{ reveal_with_fuel(p_codes_{E}, 2); }}
pub open spec fn i_codes_{E}(s: Seq<{E}>) -> Seq<u8> {{ s.map_values(|c: {E}| c_{E}(c)) }}
pub proof fn rt_codes_{E}(s: Seq<{E}>, acc: Seq<{E}>) ensures p_codes_{E}(i_codes_{E}(s), acc) == Some(acc + s) decreases s.len()
{{ let b = i_codes_{E}(s); unfold_codes_{E}(b, acc); if s.len() == 0 {{ assert(acc + s =~= acc); }} else {{ c12_{E}(s[0], 0); assert(b.skip(1) =~= i_codes_{E}(s.skip(1))); rt_codes_{E}(s.skip(1), acc.push(s[0])); assert(acc.push(s[0]) + s.skip(1) =~= acc + s); }} }}
pub broadcast proof fn re_codes_{E}(b: Seq<u8>, acc: Seq<{E}>) ensures #![trigger p_codes_{E}(b, acc)] p_codes_{E}(b, acc) matches Some(s) ==> s.len() == acc.len() + b.len() decreases b.len()
{{ unfold_codes_{E}(b, acc); if b.len() > 0 {{ match dc_{E}(b[0]) {{ None => {{}}, Some(c) => {{ re_codes_{E}(b.skip(1), acc.push(c)); }} }} }} }}''')
    t = t.replace("/*CODELISTS*/", "\n".join(cl))
    ab = []
    for K in ACKS:
        R = REASON[K]
        short = f"v.reason == {R}::Success && v.properties is None"
        ab.append(f'''pub open spec fn rep_{K}(v: {K}V) -> bool {{ orep_{K}Properties(v.properties) && fits(lb_{K}(v)) }}
pub open spec fn wf_{K}(v: {K}V) -> bool {{ owf_{K}Properties(v.properties) }}
pub open spec fn nf_{K}(v: {K}V) -> {K}V {{ {K}V {{ properties: nf_{K}Properties(v.properties), ..v }} }}''')
    t = t.replace("/*BODIES*/", gen_bodies() + "\n".join(ab))
    ad = []
    for K in ACKS:
        R = REASON[K]
        ad.append(f'''pub open spec fn d_{K}(h: u8, b: Seq<u8>) -> Option<{K}V> {{ match p_u16(b) {{ None => None, Some((pkid, b1)) => if b.len() == 2 {{ Some({K}V {{ pkid, reason: {R}::Success, properties: None }}) }} else {{ match p_u8(b1) {{ None => None, Some((c, b2)) =>
  match dc_{R}(c) {{ None => None, Some(reason) => if b.len() < 4 {{ Some({K}V {{ pkid, reason, properties: None }}) }} else {{ match p_sec_{K}Properties(b2) {{ None => None, Some((props, b3)) => Some({K}V {{ pkid, reason, properties: props }}) }} }} }} }} }} }} }}''')
    t = t.replace("/*ACKDECODE*/", "\n".join(ad))
    return t

from lemmas import CLIENTS, gen_rt

def gen_packets():
    rt = gen_rt()
    out, before = {"spk": gen_views()}, ["spk"]
    for k, v in {**rt, "clients": CLIENTS}.items():
        out[k] = "".join(f"use crate::{b}::*;\n" for b in before) + v
        before.append(k)
    return out
