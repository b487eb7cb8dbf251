#!/usr/bin/env python3
"""Decides the properties of /verif/properties.jsonl for the code in /repo.

  run.py C01            one property (VERIF_TIER=quick|thorough, VERIF_SEED)
  run.py all [C01 ..]   several properties from one verifier run (for development)
  run.py replay FILE    runs the input recorded in a replay file against the real code
  run.py setup          builds the tools
"""
import os, sys, json, time, shutil, hashlib, re, traceback
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "gen"))
REPO = os.environ.get("VERIF_REPO", "/repo")
import prove, witness, cones
from concurrent.futures import ThreadPoolExecutor

CONFIGS = ["default", "boxed_string", "cow_string", "binary_string"]
TIER = os.environ.get("VERIF_TIER", "quick")
try: SEED = int(os.environ.get("VERIF_SEED", "1"))
except ValueError: SEED = 1
ASSUME = [
    "the contracts of gen/model.rs (bytes::Bytes, BytesMut, Buf, BufMut; std slice iterator, str, String/Box<str>/Cow<str>, str::from_utf8) are assumed; they state the documented behaviour of bytes 1.x and std",
    "allocation succeeds; usize is 64 bits; the total encoded length of a value handed to the writer fits in usize",
    "derived Clone, PartialEq and Debug behave as derived; a generic constructor is verified with the caller's conversion (Into, IntoIterator) already applied",
    "the syntax tree dump (tools/rsdump, syn) and the extraction (gen/extract.py) render the source faithfully; rustc compiles it as Verus reads it",
    "Verus, Z3 and rustc are sound",
]

def log(*a): print(*a, file=sys.stderr, flush=True)

def gather(work, props, thorough):
    """verify: the default configuration completely; the others where their text differs
    (completely for C18 and in the thorough tier)"""
    full = thorough or "C18" in props
    with ThreadPoolExecutor(7) as ex:
        real = ex.submit(prove.realised, work)
        rs = ex.submit(extract_ready)
        builds = {c: ex.submit(witness.build, c) for c in (CONFIGS if full else ["default"])}
        rs.result()
        if full:
            fs = {c: ex.submit(prove.prove, c, REPO, work, None, 3) for c in CONFIGS}
            ps = {c: f.result() for c, f in fs.items()}
        else:
            base = {}
            ps = {"default": prove.prove("default", REPO, work)}
            if not ps["default"].whole:
                base = ps["default"].texts
                def differs(texts): return sorted(m for m, t in texts.items() if m != "model" and strip_src(t) != strip_src(base.get(m, "")))
                fs = {c: ex.submit(prove.prove, c, REPO, work, differs, 2) for c in CONFIGS[1:]}
                ps["default"].canaries = prove.canaries(ps["default"], work, REPO, 4)
                ps.update({c: f.result() for c, f in fs.items()})
        bins = {c: b.result() for c, b in builds.items()}
    ps["default"].realised = real.result()
    return ps, bins

def extract_ready():
    import rsast
    rsast.build_rsdump()

def strip_src(t): return re.sub(r"// (@fn:\S+|@src:).*", r"\1", t)

def cfg_dependent(ps):
    """functions whose text differs between configurations"""
    r = set()
    def bodies(p):
        o, cur = {}, None
        for t in p.texts.values():
            for l in t.split("\n"):
                m = re.match(r"// @fn:(\S+)", l)
                if m: cur = m.group(1); o[cur] = []; continue
                if l.startswith("// @src"): continue
                if l == "// @end": cur = None
                if cur: o[cur].append(l)
        return o
    b = {c: bodies(p) for c, p in ps.items() if not p.whole}
    if "default" not in b: return r
    for c in b:
        for q in set(b[c]) | set(b["default"]):
            if b[c].get(q) != b["default"].get(q): r.add(q)
    return r

def judge(prop, ps):
    """-> (primary failures, secondary failures, undecided {name: reason})"""
    P, S, U = [], [], {}
    cfgd = cfg_dependent(ps) if prop == "C18" else set()
    sets = {c: {(f.fn, f.label) for f in p.failures if f.kind != "limit"} for c, p in ps.items() if not p.whole}
    for c, p in ps.items():
        if p.whole: U[f"every function ({c})"] = p.whole; continue
        for q, why in p.undecided.items():
            fn = p.fns.get(q)
            if fn is None or any(cones.cone(prop, fn, l) for l in ("value", "safety", "size", "keep", "table")): U[f"{q} ({c})"] = why
        for f in p.failures:
            fn = p.fns.get(f.fn)
            if fn is None: k = cones.lemma_cone(prop, f.fn, f.module or "")
            elif prop == "C18": k = "P" if f.fn in cfgd or any((f.fn, f.label) not in s for s in sets.values()) else "S"
            else: k = cones.cone(prop, fn, f.label)
            if k is None: continue
            if f.kind == "limit":
                U[f"{f.fn} ({c})"] = "resource limit of the solver"
                S.append(f); continue
            (P if k == "P" else S).append(f)
    for q in cones.required():
        p = ps["default"]
        if not p.whole and q not in p.fns: U[q] = "not found with the signature its contract is for"
    return P, S, U

def focus(fails, und):
    r = set()
    for n in [f.fn for f in fails] + list(und):
        for part in re.split(r"[:\s()]+", n):
            if part[:1].isupper():
                x = cones.packet_of(part)
                if x in ("Connect", "ConnAck", "Publish", "PubAck", "PubRec", "PubRel", "PubComp", "Subscribe", "SubAck", "Unsubscribe", "UnsubAck", "Disconnect"): r.add(x)
    return r

def hunt(prop, bins, work, secs, foc, cfgs, parallel_ok=True):
    """search for a witness -> (witness dict or None, summary)"""
    tot = {"evaluations": 0, "distinct_nontrivial": 0, "samples": [], "errors": [], "secs": 0}
    dic = witness.dictionary(REPO, foc)
    def note(r):
        tot["evaluations"] += r.get("cases", 0); tot["distinct_nontrivial"] += r.get("nontrivial", 0); tot["secs"] += r.get("secs", 0)
        tot["samples"] += r.get("samples", [])[:3]
        if r.get("error"): tot["errors"].append(r["error"])
    if prop == "C18":
        ok = {c: b[0] for c, b in bins.items() if b[0]}
        for c, b in bins.items():
            if not b[0]: tot["errors"].append(f"build {c}: {b[1][-300:]}")
        if "default" in ok and len(ok) > 1:
            t0, k = time.time(), 0
            while True:
                r = witness.differ(ok, SEED + k, 200_000, dic, work); note(r); k += 1
                if r.get("found"): r["digest_seed"] = SEED + k - 1; return r, tot
                if r.get("error") or time.time() - t0 > secs: break
            tot["secs"] = time.time() - t0
            tot["samples"] = tot["samples"] or [f"digest seed {SEED}, {200_000} cases per configuration"]
        return None, tot
    for c in cfgs:
        b, err = bins.get(c) or witness.build(c)
        if not b: tot["errors"].append(f"build {c}: {err[-300:]}"); continue
        r = witness.search(b, prop, SEED, secs, dic, work); note(r)
        if r.get("found"): r["config"] = c; return r, tot
        if foc:
            r = witness.search(b, prop, SEED + 77, max(3, secs // 3), {**dic, "focus": []}, work); note(r)
            if r.get("found"): r["config"] = c; return r, tot
    return None, tot

def decide(prop, ps, bins, work, t0, thorough, mc):
    P, S, U = judge(prop, ps)
    cfgs = sorted({f.config for f in P + S}, key=CONFIGS.index) or ["default"]
    for c, p in ps.items():
        if p.whole and c not in cfgs: cfgs.append(c)
    if len(cfgs) > 2 and "default" in cfgs and prop != "C18": cfgs = ["default"]
    foc = focus(P + S, U)
    if P or S or U: secs = 180 if thorough else 40
    else: secs = 60 if thorough else 4
    w, tot = hunt(prop, bins, work, secs, foc, cfgs)
    rest = [c for c in CONFIGS if c not in cfgs]
    if not w and U and prop != "C18" and rest:
        # the stand-in for what could not be decided covers every configuration
        w, t2 = hunt(prop, bins, work, 60 if thorough else 8, foc, rest)
        for k, v in t2.items(): tot[k] += v
    violation = None
    os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
    if w or P:
        body = {"property": prop, "repo_tree": tree_id()}
        if w:
            body.update({"kind": w["kind"], "config": w.get("config", "default"), "case": w.get("case"), "what": w.get("what"), **({"history": w["history"]} if w.get("history") else {}), "search": {"seed": SEED, "seconds": secs, "focus": sorted(foc)}, "replay_cmd": "python3 /verif/run.py replay <this file>"})
        else:
            body.update({"kind": "failed obligation", "no_failing_input_found": True, "searched": tot})
        body["failed_obligations"] = [f.as_dict() for f in (P + S)[:20]]
        body["undecided"] = U
        t = json.dumps(body, indent=1)
        path = os.path.join(VERIF, "replay", f"{prop}-{hashlib.sha1(t.encode()).hexdigest()[:10]}.json")
        open(path, "w").write(t)
        violation = path
    evidence(prop, ps, P, S, U, w, tot, violation, t0, mc)
    for k in known(prop): print(f"KNOWN-FINDING: property={prop} {k}")
    if violation:
        why = (w or {}).get("what") or P[0].msg
        log(f"{prop}: {', '.join(sorted({f.name for f in P + S})[:6])} | {str(why)[:400]}")
        print(f"VIOLATION property={prop} replay={violation}" + ("" if w else " no-failing-input-found"), flush=True)
        return 1
    return 0

def known(prop):
    try: L = open(os.path.join(VERIF, "known-findings.txt")).read().split("\n")
    except OSError: return []
    return [l.split(" ", 2)[2] for l in L if l.startswith("known: property=" + prop + " ")]

def tree_id():
    h = hashlib.sha1()
    for f in sorted(os.listdir(os.path.join(REPO, "src"))):
        p = os.path.join(REPO, "src", f)
        if os.path.isfile(p): h.update(f.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()

def evidence(prop, ps, P, S, U, w, tot, violation, t0, mc):
    und = {u.split(" ")[0] for u in U}
    funcs, obl, dis, ms, by = {}, 0, 0, 0.0, {}
    for c, p in ps.items():
        for q, fn in p.fns.items():
            labs = [l for l, _ in fn.contract.ensures] + ["safety"] + (["alloc"] if fn.allocs else [])
            ks = {l: cones.cone(prop, fn, l) for l in labs} if prop != "C18" else {l: "P" for l in labs}
            if not any(ks.values()): continue
            if f"{q}" in p.undecided: continue
            if p.breakdown.get(q) is None and c != "default" and prop != "C18" and not any(x == q for x in p.breakdown): continue
            bad = {f.label for f in p.failures if f.fn == q}
            for l, k in ks.items():
                if not k: continue
                obl += 1
                if l not in bad and "*" not in bad: dis += 1
            b = p.breakdown.get(q)
            if b: ms += b[2]
            if c == "default": funcs[q] = {"role": fn.contract.role, "primary": sorted({l for l, k in ks.items() if k == "P"}), "secondary": sorted({l for l, k in ks.items() if k == "S"}), "at": fn.where, "inlined": sorted(set(fn.inlined)) if fn.inlined else []}
        for nm, (mode, okk, t) in p.breakdown.items():
            if "::" in nm and nm not in p.fns and mode in ("proof", "exec"):
                mod, name = nm.split("::")[0], nm.split("::")[-1]
                k = cones.lemma_cone(prop, name, mod)
                if k:
                    obl += 1; dis += 1 if okk else 0; ms += t
                    if k == "P": by[name] = mod
    d = ps["default"]
    tr = prove.trust_scan(d) if d.texts else {}
    cov = {
        "obligations": obl, "discharged": dis,
        "checker_cmd": f"verus main.rs --rlimit 10 (crate regenerated from {REPO}/src by gen/extract.py; verus {getattr(d, 'verus', '')})",
        "back_end": "Verus -> AIR -> Z3",
        "trusted_base": [f"{f}: {len(x)} assumed items ({', '.join(sorted({n for _, n in x})[:60])})" for f, x in sorted(tr.items())],
        "verifier_totals": {c: {"verified": p.verified, "errors": p.errors, "solver_ms": p.smt_ms, "wall_s": round(p.wall, 1), "retries": p.retries} for c, p in ps.items()},
        "solver_ms_in_cone": round(ms, 1),
        "functions_under_contract": funcs,
        "theorems": by,
        "dropped_from_extraction": d.dropped,
        "undecided": U,
        "failed_obligations": [f.name for f in P + S],
        "vacuity": d.canaries,
        "assumed_contracts_realisable": getattr(d, "realised", None),
        "assumed_model_conformance": {"label": "bounded, sampled", **mc},
        "bounded_companion": {"label": "bounded, not counted as proved", "bound": f"{tot['evaluations']} cases in {round(tot['secs'], 1)} s, seed {SEED}, on the compiled library" + (" (stand-in for the undecided functions)" if U else " (exercises the dropped functions and the assumed model)"), **{k: v for k, v in tot.items() if k != "secs"}},
    }
    ev = {"property": prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": "proof", "coverage": cov, "assumptions": ASSUME + [f"bounded only, not proved: {u}: {r}" for u, r in U.items()], "wall_s": round(time.time() - t0, 1), "violations": 1 if violation else 0}
    if U and prop:
        ev["level"] = "proof" if dis and not any(u.startswith("every function") for u in U) else "exploration"
        if ev["level"] == "exploration":
            cov.update({"evaluations": tot["evaluations"], "distinct_nontrivial": tot["distinct_nontrivial"], "rule": "random structured packets, frames and streams; non-trivial: more than an empty body", "samples": tot["samples"] or ["none"]})
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w"), indent=1)

def main(props):
    t0 = time.time()
    thorough = TIER == "thorough"
    work = os.path.join(VERIF, "build", f"run-{os.getpid()}")
    os.makedirs(work, exist_ok=True)
    rc = 0
    try:
        ps, bins = gather(work, props, thorough)
        d = ps["default"]
        if not d.whole:
            if d.canaries is None: d.canaries = prove.canaries(d, work, REPO)
            for q in d.canaries["vacuous"]:
                # a function all of whose obligations hold because nothing can call it
                if not any(f.fn == q for f in d.failures): d.undecided.setdefault(q, "vacuous: its precondition can not be met")
        if not bins.get("default", (None, ""))[0]: log("witness build failed:", bins["default"][1]); mc = {"error": "not built"}
        else: mc = witness.model(bins["default"][0], SEED, 40_000_000 if thorough else 2_000_000)
        if mc.get("disagreement") or mc.get("error"): log("assumed model:", mc)
        if mc.get("disagreement"):
            # the premises of the proof are false for the installed bytes/std: nothing is proved
            for p in ps.values(): p.whole = p.whole or "assumed contract refuted: " + mc["disagreement"][:300]
        for p in props: rc |= decide(p, ps, bins, work, t0, thorough, mc)
    finally:
        if not os.environ.get("VERIF_KEEP"): shutil.rmtree(work, ignore_errors=True)
    return rc

if __name__ == "__main__":
    a = sys.argv[1:]
    if a[:1] == ["setup"]:
        extract_ready()
        r = [witness.build(c) for c in CONFIGS]
        for b, e in r:
            if not b: log(e); sys.exit(1)
        sys.exit(0)
    if a[:1] == ["replay"]:
        v = json.load(open(a[1]))
        if v.get("case") is None: print("no input recorded; failed obligations:"); [print(f["obligation"], "\n", f["verifier_output"]) for f in v["failed_obligations"]]; sys.exit(0)
        if v["kind"] == "configurations disagree":
            import subprocess
            o = {}
            for c in ("default", v["config"]):
                b, e = witness.build(c)
                o[c] = subprocess.run([b, "outcome", a[1]], stdout=subprocess.PIPE).stdout.decode(); print(c + ":", o[c])
            sys.exit(1 if len(set(o.values())) > 1 else 0)
        b, e = witness.build(v.get("config", "default"))
        rc, out = witness.replay(b, a[1]); print(out)
        if rc == 0 and v.get("search"):
            # the input alone does not show it: it may depend on what the library was called with before, so the search is repeated
            work = os.path.join(VERIF, "build", f"run-{os.getpid()}"); os.makedirs(work, exist_ok=True)
            try: r = witness.search(b, v["property"], v["search"]["seed"], v["search"]["seconds"], witness.dictionary(REPO, v["search"]["focus"] or ()), work)
            finally: shutil.rmtree(work, ignore_errors=True)
            if r.get("found"): print("shown after other inputs:", r.get("what")); rc = 1
        sys.exit(rc)
    if a[:1] == ["all"]: sys.exit(main(a[1:] or cones.ALL))
    sys.exit(main([a[0]]))
