"""Writes /verif/MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = "Verus accepts every obligation generated from /repo/src on this run (function by function, no bound). Trusted: the model of bytes/std in gen/model.rs, the extraction, Verus/Z3/rustc. A short random search on the compiled library accompanies the proof (bounded, not counted as proved) and looks for a failing input when an obligation fails."
T = {
 "C01": ("deductive verification (Verus): reader and writer contracts against one MQTT 5 schema, composed by round-trip lemmas", ["rt_top::c01_packet", "rt_top::c01_body", "rt_c01::c01_*", "clients::client_round_trip"]),
 "C02": ("deductive verification (Verus): postcondition of every write function equals the wire-image specification", ["Packet::write::value", "*::write::value", "rt_top::c02_packet"]),
 "C03": ("deductive verification (Verus): postcondition of every read function equals the parse specification", ["Packet::read::value", "*::read::value"]),
 "C04": ("deductive verification (Verus): postconditions of len/size/write counts", ["*::len::size", "*::size::size", "*::write::size"]),
 "C05": ("deductive verification (Verus): frame postconditions of the write functions", ["Packet::write::keep", "Packet::write::value", "clients::client_append"]),
 "C06": ("deductive verification (Verus): safety and termination obligations of every reading function", ["every safety obligation of the reading functions"]),
 "C07": ("deductive verification (Verus): safety, termination and acceptance obligations of every writing function", ["Packet::write::accept", "every safety obligation of the writing functions"]),
 "C08": ("deductive verification (Verus): consume/value postconditions of Packet::read and a locality lemma", ["Packet::read::consume", "Packet::read::value", "rt_top::c08_isolated"]),
 "C09": ("deductive verification (Verus): incompleteness postconditions of check and Packet::read, prefix lemmas", ["Packet::read::short", "Packet::read::complete", "check::short", "rt_top::c09_prefix", "rt_top::c09_missing"]),
 "C10": ("deductive verification (Verus): limit postconditions of check and Packet::read", ["Packet::read::limit", "check::limit", "rt_top::c10_limit"]),
 "C11": ("deductive verification (Verus): contracts of the variable-length integer functions and inverse lemmas", ["length::value", "write_remaining_length::value", "len_len::size", "spec::c11_vi_inverse", "spec::c11_vi_minimal", "spec::c11_vi_prefix"]),
 "C12": ("deductive verification (Verus): contracts of the code tables against the standard's tables, bijection lemmas", ["table postconditions", "spec::c12_*"]),
 "C13": ("deductive verification (Verus): loop invariants and postconditions of the property readers", ["*Properties::read::value", "spec::c13_*"]),
 "C14": ("deductive verification (Verus): contracts of the string and binary helpers and of their callers", ["read_mqtt_string::value", "read_mqtt_bytes::value", "write_mqtt_string::value", "write_mqtt_bytes::value", "rt_top::c14_field"]),
 "C15": ("deductive verification (Verus): publish, filter and will contracts, QoS table", ["Publish::read::value", "Publish::write::value", "qos::table", "rt_top::c15_publish", "rt_top::c15_filter"]),
 "C16": ("deductive verification (Verus): connect, will and login contracts", ["Connect::read::value", "Connect::write::value", "LastWill::read::value", "Login::read::value"]),
 "C17": ("deductive verification (Verus): reader and writer contracts composed by an acceptance and re-encoding lemma", ["rt_top::c17_packet", "rt_c17::*", "clients::client_rewrite"]),
 "C18": ("deductive verification (Verus): the same contracts proved for each of the four string configurations", ["every postcondition, in each configuration", "rt_top::c18_text"]),
 "C19": ("deductive verification (Verus): stream lemmas and client programs over the Packet::read / Packet::write contracts", ["rt_top::c19_chunk", "rt_top::c19_stuck", "rt_top::c19_written", "clients::client_drain", "clients::client_feed"]),
 "C21": ("deductive verification (Verus): what a decoded packet holds is linear in its frame (lemmas over the parse specification the readers are proved to implement); precondition on every request for capacity in the reading functions", ["rt_c21::c21_packet", "rt_c21::c21_*", "*::alloc: no request for capacity exceeds the bytes at hand"]),
 "C22": ("deductive verification (Verus): postconditions of the constructors and of written and derived Default implementations", ["*::new::value", "Subscribe::new_many::value", "*::default::value"]),
}
m = {"version": 1, "setup_cmd": "python3 run.py setup",
 "checks": [{"property": p, "quick_cmd": f"python3 run.py {p}", "thorough_cmd": f"VERIF_TIER=thorough python3 run.py {p}", "evidence_file": f"evidence/{p}.json", "technique": t, "level": "proof", "level_note": NOTE, "theorems": th} for p, (t, th) in T.items()],
 "not_applicable": [
  {"property": "C20", "reason": "the topic matching code is in a root file that no build target of the crate compiles (mod.rs next to Cargo.toml); there is no running code to put a contract on"}],
 "notes": "No hooks in /repo: the verified text is extracted from /repo/src on every run. Fix commits are listed in known-findings.txt."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
