"""Which obligations decide which property.

A property holds if every obligation in its cone is accepted: the contracts whose
postconditions compose into it (primary) and the contracts those rely on (secondary). A
failed primary obligation is a violation of the property. A failed secondary obligation
says the composition no longer goes through; it is reported as a violation only with an
input on which the real code breaks this very property."""
import re
from schema import *

R = {"prim", "rvi", "fh", "check", "str", "fhnew", "pread", "fread", "read", "dispatch", "top_read", "pnew"}
W = {"wprim", "wvi", "plen", "pwrite", "flen", "len", "size", "write", "wdispatch", "top_write"}
ENC = {"wprim", "wvi", "pwrite", "write", "wdispatch", "top_write"}
VALUES = {"value", "accept", "size", "flags", "table", "consume", "keep", "short", "short2", "bad", "complete", "limit"}

def side(fn):
    """'R' or 'W' or 'RW' for a function under contract"""
    r = fn.contract.role
    if r == "table":
        n = fn.ret.replace(" ", "")
        return "W" if "u8" in n and not fn.params[0][1].replace(" ", "") == "u8" else "R"
    if r == "pure": return "W" if fn.name == "len_len" else "R" if fn.name == "frame_length" else "RW"
    if r in R: return "R" if r not in ("str", "pnew") else "RW" if fn.name == "mqtt_string_eq" else "R"
    return "W"

def packet_of(ty):
    """the packet a type belongs to"""
    if ty is None: return None
    if ty in ("LastWill", "Login", "LastWillProperties", "ConnectProperties", "Connect"): return "Connect"
    if ty in ("Filter", "SubscribeProperties", "Subscribe", "RetainForwardRule"): return "Subscribe"
    return re.sub(r"(Properties|ReasonCode|Reason|Code)$", "", ty) or ty

# which public functions must be under contract for the composition to mean anything
def required():
    o = ["Packet::read", "Packet::write", "check", "parse_fixed_header", "qos"]
    return o

def cone(p, fn, label, text=""):
    """'P', 'S' or None for the obligation `label` of function fn (FnInfo)"""
    k = cone_(p, fn, label, text)
    # what failed is wrong, but it need not break this property
    if k == "P" and (fn.contract.role == "size" and p != "C04" or p == "C17" and label == "table" or p == "C15" and label == "size"): return "S"
    return k

def cone_(p, fn, label, text):
    s, r, X = side(fn), fn.contract.role, fn.self_ty
    rd, wr = "R" in s, "W" in s
    any_ = label in ("*", "hint", "loop")
    safe = label == "safety"
    def lab(*ls): return any_ or label in ls
    if label == "alloc": return "P" if p == "C21" else None
    if p == "C21":
        # what a value holds follows from what it is
        if not rd: return None
        return "S"
    if p == "C22": return "P" if r in ("ctor", "pnew") else None
    if r == "ctor": return "S"
    if p == "C01":
        if safe: return "S"
        if wr and lab("value", "accept", "flags", "table", "size"): return "P"
        if rd and lab("value", "table", "size", "consume"): return "P"
        return "S"
    if p == "C02":
        if not wr: return None
        return "P" if lab("value", "size", "flags", "table") else "S"
    if p == "C03":
        if not rd: return None
        return "P" if lab("value", "table") else "S"
    if p == "C04":
        if not wr: return None
        return "P" if lab("size") or r in ("write", "top_write", "wdispatch", "wvi") and label == "value" else "S"
    if p == "C05":
        if not wr or r not in ENC: return None
        return "P" if lab("keep", "value") else "S"
    if p == "C06":
        if not rd: return None
        if safe: return "P"
        return "S"
    if p == "C07":
        if not wr: return None
        return "P" if safe or lab("accept") else "S"
    if p == "C08":
        if not rd: return None
        if r == "top_read" and lab("consume", "value", "complete", "safety"): return "P" if not safe else "S"
        if (r in ("fh", "check") or fn.name == "frame_length") and lab("value"): return "P"
        return "S"
    if p == "C09":
        if not rd: return None
        if r == "top_read" and lab("short", "complete", "consume", "bad"): return "P"
        if r in ("check", "fh", "rvi") and lab("short", "short2", "value", "bad"): return "P"
        return "S"
    if p == "C10":
        if not rd: return None
        if r in ("top_read", "check", "dispatch") and lab("limit", "complete", "value"): return "P" if label != "value" or r == "check" else "S"
        if label == "limit": return "P"
        return "S"
    if p == "C11":
        if r in ("rvi", "wvi", "fh") or fn.name == "len_len": return "P"
        if r in ("check", "top_read", "pread", "pwrite", "plen", "write", "len", "size"): return "S"
        return None
    if p == "C12":
        if r == "table": return "P"
        if r in ("read", "pread", "fread", "pwrite", "write", "dispatch", "wdispatch", "top_read", "top_write"): return "S"
        return None
    if p == "C13":
        if r == "pread" and lab("value"): return "P"
        if r in ("pread", "read", "fread", "prim", "rvi", "pnew", "dispatch", "top_read") or r == "table" and rd: return "S"
        return None
    if p == "C14":
        if getattr(fn, "cname", fn.name) in ("read_mqtt_string", "read_mqtt_bytes", "write_mqtt_string", "write_mqtt_bytes") or r == "str": return "P" if not safe else "S"
        return "S" if r not in ("rvi", "wvi", "fh", "check", "table") else None
    if p == "C15":
        if X in ("Publish", "Filter", "LastWill") and r in ("read", "write", "fread", "len", "size", "flen"): return "P" if not safe else "S"
        if r == "table" and (fn.name == "qos" or "QoS" in fn.ret): return "P"
        if packet_of(X) in ("Publish", "Connect", "Subscribe", "Packet") or X is None: return "S"
        return None
    if p == "C16":
        if X in ("Connect", "LastWill", "Login") and r in ("read", "write", "len"): return "P" if not safe else "S"
        if packet_of(X) in ("Connect", "Packet") or X is None: return "S"
        return None
    if p == "C17":
        if rd and lab("value", "table", "consume"): return "P"
        if wr and lab("value", "accept", "flags", "table", "size"): return "P"
        return "S"
    if p == "C18":
        return "P" if text == "cfg" else "S"
    if p == "C19":
        if r in ("top_read", "top_write", "check", "fh", "rvi", "wvi", "dispatch", "wdispatch") and not safe: return "P"
        return "S"
    return None

def lemma_cone(p, name, module):
    """same for a lemma or a client program of the specification modules"""
    m = re.match(r"c(\d\d)_", name)
    if m: return "P" if f"C{m.group(1)}" == p else None
    if module == "rt_c01" or name.startswith(("client_", "concat")): return "S" if p in ("C01", "C05", "C19") else None
    if module == "rt_c17": return "S" if p == "C17" else None
    return "S" if p in ("C01", "C17") else None

ALL = [f"C{i:02d}" for i in range(1, 20)] + ["C21", "C22"]
