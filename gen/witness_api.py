"""Writes tools/witness/src/api.rs: conversions between the search program's own packet values and the library's types."""
import os, sys
from schema import *

KIND = {"u8": "U8", "u16": "U16", "u32": "U32", "vi": "Vi", "str": "Str", "bin": "Bin", "up": "Up", "ids": "Ids"}
def gen():
    o = ["// generated by gen/witness_api.py from gen/schema.py", "use crate::m::*;", "use mqtt_bytes_v5 as r;", ""]
    o.append("pub const SETS: &[(&str, &[(&str, u8, Kind)])] = &[")
    for X, (_, fs) in PROPS.items():
        o.append(f'  ("{X}", &[' + ", ".join(f'("{f}", {i}, Kind::{KIND[k]})' for f, i, k in fs) + "]),")
    o.append("];")
    for j, X in enumerate(PROPS): o.append(f"pub const {X.upper()}: u8 = {j};")
    o.append("pub const TABLES: &[(&str, &[(&str, Option<u8>)])] = &[")
    for E, (_, vs, no) in CODES.items():
        o.append(f'  ("{E}", &[' + ", ".join([f'("{v}", Some({c}))' for v, c in vs] + [f'("{v}", None)' for v in no]) + "]),")
    o.append("];")
    for j, E in enumerate(CODES): o.append(f"pub const {E.upper()}: usize = {j};")
    for E, (_, vs, no) in CODES.items():
        names = [v for v, _ in vs] + list(no)
        q = lambda v: ", ".join(f"r::{E}::{v}".replace("(QoS", "(r::QoS").split(", "))
        o.append(f"pub fn to_{E}(i: u8) -> r::{E} {{ match i {{ " + ", ".join(f"{k} => {q(v)}" for k, v in enumerate(names)) + f", _ => panic!() }} }}")
        o.append(f"pub fn from_{E}(c: &r::{E}) -> u8 {{ match c {{ " + ", ".join(f"{q(v)} => {k}" for k, v in enumerate(names)) + " } }")
    for X, (_, fs) in PROPS.items():
        t, f = [], []
        for j, (n, i, k) in enumerate(fs):
            a = f"&p.v[{j}]"
            t.append({"u8": f"{n}: on({a}).map(|x| x as u8)", "u16": f"{n}: on({a}).map(|x| x as u16)", "u32": f"{n}: on({a}).map(|x| x as u32)", "vi": f"{n}: on({a}).map(|x| x as usize)",
                      "str": f"{n}: ob({a}).map(|b| ms(b))", "bin": f"{n}: ob({a}).map(|b| mb(b))", "up": f"{n}: up({a})", "ids": f"{n}: ids({a})"}[k])
            f.append({"u8": f"nn(p.{n}.map(|x| x as u64))", "u16": f"nn(p.{n}.map(|x| x as u64))", "u32": f"nn(p.{n}.map(|x| x as u64))", "vi": f"nn(p.{n}.map(|x| x as u64))",
                      "str": f"p.{n}.as_ref().map_or(Val::No, |x| Val::S(Blob(sb(x))))", "bin": f"p.{n}.as_ref().map_or(Val::No, |x| Val::S(Blob(x.to_vec())))",
                      "up": f"Val::U(p.{n}.iter().map(|(a, b)| (Blob(sb(a)), Blob(sb(b)))).collect())", "ids": f"Val::I(p.{n}.iter().map(|x| *x as u64).collect())"}[k])
        o.append(f"pub fn to_{X}(p: &Props) -> r::{X} {{ r::{X} {{ {', '.join(t)} }} }}")
        o.append(f"pub fn from_{X}(p: &r::{X}) -> Props {{ Props {{ t: {X.upper()}, v: vec![{', '.join(f)}] }} }}")
    acks = []
    for k, K in enumerate(ACKS):
        R = K + "Reason"
        acks.append((k, K, R))
    o.append("pub fn to_ack(k: u8, pkid: u16, c: u8, p: &Option<Props>) -> r::Packet { match k { " + ", ".join(f"{k} => r::Packet::{K}(r::{K} {{ pkid, reason: to_{R}(c), properties: p.as_ref().map(to_{K}Properties) }})" for k, K, R in acks) + ", _ => panic!() } }")
    o.append("pub fn new_ack(k: u8, pkid: u16, p: &Option<Props>) -> r::Packet { match k { " + ", ".join(f"{k} => r::Packet::{K}(r::{K}::new(pkid, p.as_ref().map(to_{K}Properties)))" for k, K, R in acks) + ", _ => panic!() } }")
    o.append("pub fn from_ack(p: &r::Packet) -> M { match p { " + ", ".join(f"r::Packet::{K}(a) => M::Ack {{ k: {k}, pkid: a.pkid, code: from_{R}(&a.reason), props: a.properties.as_ref().map(from_{K}Properties) }}" for k, K, R in acks) + ", _ => panic!() } }")
    o.append("pub fn ack_size(p: &r::Packet) -> usize { match p { " + ", ".join(f"r::Packet::{K}(a) => a.size()" for k, K, R in acks) + ", _ => panic!() } }")
    o.append("pub const ACKSETS: [u8; 4] = [" + ", ".join(f"{K.upper()}PROPERTIES" for k, K, R in acks) + "];")
    o.append("pub const ACKCODES: [usize; 4] = [" + ", ".join(R.upper() for k, K, R in acks) + "];")
    o.append("pub const ACKBYTE: [u8; 4] = [" + ", ".join(str(ACK_BYTE[K]) for k, K, R in acks) + "];")
    return "\n".join(o) + "\n"

if __name__ == "__main__":
    open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "../tools/witness/src/api.rs"), "w").write(gen())
